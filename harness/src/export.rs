//! Flattens a HUGR into the JSON program form that spec/HugrMachine.tla executes.
use std::collections::{BinaryHeap, HashMap};
use std::cmp::Reverse;

use hugr::extension::prelude::{ConstError, ConstString, ConstUsize};
use hugr::ops::constant::{CustomConst, OpaqueValue};
use hugr::ops::{OpTrait, OpType, Value};
use hugr::std_extensions::arithmetic::float_types::ConstF64;
use hugr::std_extensions::arithmetic::int_types::ConstInt;
use hugr::std_extensions::collections::array::ArrayValue;
use hugr::std_extensions::collections::borrow_array::BArrayValue;
use hugr::std_extensions::collections::static_array::StaticArrayValue;
use hugr::types::{Term, Type, TypeArg};
use hugr::{HugrView, IncomingPort, PortIndex};
use serde_json::{json, Value as J};
use tket::extension::rotation::ConstRotation;

/// (num, den, k) with x = num/den * pi^k, den a divisor of 2^14; None if not representable
pub fn rational(x: f64) -> Option<(i64, i64, i64)> {
    if x == 0.0 { return Some((0, 1, 0)); }
    let pi = std::f64::consts::PI;
    for (k, f) in [(0i64, 1.0), (1, pi), (-1, 1.0 / pi)] {
        let y = x / f * 16384.0;
        let r = y.round();
        if (y - r).abs() < 1e-6 && r.abs() < 1e9 && r != 0.0 {
            let (mut n, mut d) = (r as i64, 16384i64);
            while n % 2 == 0 && d > 1 { n /= 2; d /= 2; }
            return Some((n, d, k));
        }
    }
    None
}
pub fn jfloat(x: f64) -> J { match rational(x) { Some((n, d, k)) => json!(["f", n, d, k]), None => json!(["badf", format!("{x}")]) } }
fn jint(n: i128) -> J { if n.abs() < (1 << 30) { json!(["i", n as i64]) } else { json!(["bigint", format!("{n}")]) } }

pub struct Exporter<'h, H: HugrView> {
    h: &'h H,
    regions: Vec<J>,
    region_of: HashMap<H::Node, usize>,
    pending: Vec<H::Node>,
    wires: HashMap<(H::Node, usize), usize>,
    /// Extension ops with no model rule that are to be executed as uninterpreted unitaries/functions.
    pub uninterp: bool,
    pub problems: Vec<String>,
    pub n_ops: usize,
}

pub fn family(ext: &str, name: &str) -> &'static str {
    match ext {
        "tket.quantum" => if name == "symbolic_angle" { "" } else { "q" },
        "tket.qsystem" => "sys",
        "arithmetic.int" => "int",
        "arithmetic.float" => "float",
        "collections.array" | "collections.borrow_arr" | "collections.value_array" => "arr",
        "tket.futures" => "fut",
        "tket.result" => "res",
        "tket.qsystem.random" => "rnd",
        "tket.gpu" => "gpu",
        _ => "",
    }
}
const KNOWN_EXTS: &[&str] = &["tket.quantum", "tket.qsystem", "arithmetic.int", "arithmetic.float", "arithmetic.conversions", "collections.array",
    "collections.borrow_arr", "collections.value_array", "collections.static_array", "tket.futures", "tket.result", "prelude", "logic", "tket.bool", "tket.rotation", "tket.global_phase",
    "tket.guppy", "tket.debug", "tket.modifier", "tket.qsystem.random", "tket.qsystem.utils", "tket.gpu"];

impl<'h, H: HugrView> Exporter<'h, H> {
    pub fn new(h: &'h H) -> Self {
        Self { h, regions: vec![], region_of: HashMap::new(), pending: vec![], wires: HashMap::new(), uninterp: true, problems: vec![], n_ops: 0 }
    }
    fn wire(&mut self, n: H::Node, p: usize) -> usize {
        let k = self.wires.len() + 1;
        *self.wires.entry((n, p)).or_insert(k)
    }
    fn src(&mut self, n: H::Node, p: usize) -> usize {
        match self.h.linked_outputs(n, IncomingPort::from(p)).next() {
            Some((m, q)) => self.wire(m, q.index()),
            None => { self.problems.push(format!("unconnected input {n:?}:{p}")); 0 }
        }
    }
    fn value_ins(&mut self, n: H::Node) -> Vec<usize> {
        let op = self.h.get_optype(n).clone();
        let k = match op.dataflow_signature() { Some(s) => s.input_count(), None => 0 };
        (0..k).map(|p| self.src(n, p)).collect()
    }
    fn value_outs(&mut self, n: H::Node) -> Vec<usize> {
        let op = self.h.get_optype(n).clone();
        let k = match op.dataflow_signature() { Some(s) => s.output_count(), None => 0 };
        (0..k).map(|p| self.wire(n, p)).collect()
    }
    /// 1-based region index of a container (region queued for export); function declarations map to 0.
    fn region(&mut self, n: H::Node) -> usize {
        if let Some(r) = self.region_of.get(&n) { return *r; }
        if matches!(self.h.get_optype(n), OpType::FuncDecl(_)) { self.region_of.insert(n, 0); return 0; }
        self.regions.push(J::Null);
        let r = self.regions.len();
        self.region_of.insert(n, r);
        self.pending.push(n);
        r
    }
    pub fn run(&mut self, main: H::Node) -> J {
        let m = self.region(main);
        while let Some(n) = self.pending.pop() {
            let j = self.export_region(n);
            let r = self.region_of[&n];
            self.regions[r - 1] = j;
        }
        json!({"g": self.regions, "main": m})
    }
    /// children of n in a deterministic order respecting data, order and non-local edges
    fn topo(&self, n: H::Node) -> Vec<H::Node> {
        let kids: Vec<H::Node> = self.h.children(n).collect();
        let idx: HashMap<H::Node, usize> = kids.iter().enumerate().map(|(i, k)| (*k, i)).collect();
        let anc = |mut m: H::Node| -> Option<usize> {
            loop {
                if let Some(i) = idx.get(&m) { return Some(*i); }
                match self.h.get_parent(m) { Some(p) => m = p, None => return None }
            }
        };
        let mut succ: Vec<Vec<usize>> = vec![vec![]; kids.len()];
        let mut indeg = vec![0usize; kids.len()];
        for (i, k) in kids.iter().enumerate() {
            for p in self.h.node_outputs(*k) {
                for (m, _) in self.h.linked_inputs(*k, p) {
                    if let Some(j) = anc(m) { if j != i { succ[i].push(j); indeg[j] += 1; } }
                }
            }
        }
        let mut heap: BinaryHeap<Reverse<usize>> = (0..kids.len()).filter(|i| indeg[*i] == 0).map(Reverse).collect();
        let mut out = vec![];
        while let Some(Reverse(i)) = heap.pop() {
            out.push(kids[i]);
            for &j in &succ[i] { indeg[j] -= 1; if indeg[j] == 0 { heap.push(Reverse(j)); } }
        }
        out
    }
    fn export_region(&mut self, n: H::Node) -> J {
        let order = self.topo(n);
        if order.len() != self.h.children(n).count() { self.problems.push("cycle in region".into()); }
        let mut i = vec![];
        let mut o = vec![];
        let mut body = vec![];
        for c in order {
            let op = self.h.get_optype(c).clone();
            match &op {
                OpType::Input(_) => { i = (0..op.dataflow_signature().unwrap().output_count()).map(|p| self.wire(c, p)).collect(); }
                OpType::Output(_) => { o = self.value_ins(c); }
                OpType::Const(_) | OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) => {}
                _ => { let j = self.instr(c, &op); body.push(j); }
            }
        }
        json!({"i": i, "o": o, "b": body})
    }
    fn ins(&mut self, c: H::Node, op: &str, a: Vec<J>, r: Vec<usize>) -> J {
        let i = self.value_ins(c);
        let o = self.value_outs(c);
        json!({"op": op, "f": "", "n": op, "i": i, "o": o, "a": a, "r": r})
    }
    fn static_src(&self, c: H::Node) -> Option<H::Node> {
        let p = self.h.get_optype(c).static_input_port()?;
        self.h.linked_outputs(c, p).next().map(|x| x.0)
    }
    fn instr(&mut self, c: H::Node, op: &OpType) -> J {
        self.n_ops += 1;
        match op {
            OpType::DFG(_) => { let r = self.region(c); self.ins(c, "dfg", vec![], vec![r]) }
            OpType::TailLoop(_) => { let r = self.region(c); self.ins(c, "loop", vec![], vec![r]) }
            OpType::Conditional(_) => {
                let kids: Vec<_> = self.h.children(c).collect();
                let rs = kids.into_iter().map(|k| self.region(k)).collect();
                self.ins(c, "cond", vec![], rs)
            }
            OpType::CFG(_) => {
                let kids: Vec<_> = self.h.children(c).collect();
                let blocks: Vec<_> = kids.iter().copied().filter(|k| matches!(self.h.get_optype(*k), OpType::DataflowBlock(_))).collect();
                let pos: HashMap<_, _> = blocks.iter().enumerate().map(|(i, k)| (*k, i + 1)).collect();
                let rs: Vec<usize> = blocks.iter().map(|k| self.region(*k)).collect();
                let succ: Vec<Vec<usize>> = blocks.iter().map(|k| {
                    self.h.node_outputs(*k).flat_map(|p| self.h.linked_inputs(*k, p).map(|x| x.0).collect::<Vec<_>>()).map(|m| *pos.get(&m).unwrap_or(&0)).collect()
                }).collect();
                let mut j = self.ins(c, "cfg", vec![], rs);
                j["s"] = json!(succ);
                j
            }
            OpType::LoadConstant(_) => {
                let v = match self.static_src(c).map(|s| self.h.get_optype(s).clone()) {
                    Some(OpType::Const(k)) => self.value(k.value()),
                    _ => json!(["badconst"]),
                };
                self.ins(c, "const", vec![v], vec![])
            }
            OpType::LoadFunction(_) => { let f = self.static_src(c); let r = f.map(|f| self.region(f)).unwrap_or(0); self.ins(c, "loadfn", vec![], vec![r]) }
            OpType::Call(_) => {
                let f = self.static_src(c);
                let decl = f.and_then(|f| match self.h.get_optype(f) { OpType::FuncDecl(d) => Some(d.func_name().clone()), _ => None });
                if let Some(name) = decl { return self.unknown(c, op, &format!("decl.{name}"), 1); }
                let r = f.map(|f| self.region(f)).unwrap_or(0);
                self.ins(c, "call", vec![], vec![r])
            }
            OpType::CallIndirect(_) => self.ins(c, "callind", vec![], vec![]),
            OpType::Tag(t) => { let t = t.tag; self.ins(c, "tag", vec![json!(t)], vec![]) }
            _ => {
                let (ext, name, args): (String, String, Vec<TypeArg>) = match op {
                    OpType::ExtensionOp(e) => (e.def().extension_id().to_string(), e.def().name().to_string(), e.args().to_vec()),
                    OpType::OpaqueOp(e) => (e.extension().to_string(), e.unqualified_id().to_string(), e.args().to_vec()),
                    _ => return self.ins(c, &format!("?{op}"), vec![], vec![]),
                };
                if ext == "tket.quantum" && name == "symbolic_angle" {
                    let e = args.first().map(|a| a.to_string()).unwrap_or_default();
                    let e = e.trim_matches('"').to_string();
                    let v = crate::symbols::eval(&e).map(jfloat).unwrap_or(json!(["badsym", e]));
                    return self.ins(c, "tket.quantum.symbolic_angle", vec![v], vec![]);
                }
                let full = format!("{ext}.{name}");
                if full == "TKET1.tk1op" {
                    let mut j = self.ins(c, "TKET1.tk1op", vec![], vec![]);
                    match crate::pk::tk1op(&args) {
                        Ok((op, nq, nb)) => { j["f"] = json!("pk"); j["a"] = json!([op]); j["nq"] = json!(nq); j["nb"] = json!(nb); }
                        Err(e) => self.problems.push(e),
                    }
                    return j;
                }
                if self.uninterp && !KNOWN_EXTS.contains(&ext.as_str()) {
                    let h = format!("{full}{args:?}");
                    return self.unknown(c, op, &h, 0);
                }
                let mut a: Vec<J> = args.iter().map(arg).collect();
                if ext == "tket.gpu" {
                    use tket_qsystem::extension::gpu::GpuOp;
                    use hugr::extension::simple_op::MakeExtensionOp;
                    let row = |r: &hugr::types::TypeRow| r.iter().map(|t| match t { t if *t == hugr::extension::prelude::bool_t() => 'b', t if *t == hugr::std_extensions::arithmetic::float_types::float64_type() => 'f', t if *t == hugr::std_extensions::arithmetic::int_types::int_type(6) => 'i', _ => '?' }).collect::<String>();
                    let res = |r: &hugr::types::TypeRow| if r.is_empty() { "v".to_string() } else { row(r) };
                    let g = match op { OpType::ExtensionOp(e) => GpuOp::from_extension_op(e).ok(), _ => None };
                    a = match g {
                        Some(GpuOp::LookupById { id, .. }) => vec![json!(format!("id:{id}"))],
                        Some(GpuOp::LookupByName { name, .. }) => vec![json!(format!("name:{name}"))],
                        Some(GpuOp::Call { inputs, outputs }) => vec![json!(format!("{}:{}", row(&inputs), res(&outputs)))],
                        Some(GpuOp::ReadResult { outputs }) => vec![json!(res(&outputs))],
                        Some(_) => vec![],
                        None => { self.problems.push(format!("{full}?")); vec![] }
                    };
                }
                let mut j = self.ins(c, &full, a, vec![]);
                j["f"] = json!(family(&ext, &name));
                j["n"] = json!(name);
                j
            }
        }
    }
    fn unknown(&mut self, c: H::Node, op: &OpType, id: &str, eff: i32) -> J {
        let mut h: u64 = 1469598103934665603;
        for b in id.bytes() { h = (h ^ b as u64).wrapping_mul(1099511628211); }
        let ot: Vec<&str> = op.dataflow_signature().unwrap().output().iter().map(kind).collect();
        let mut j = self.ins(c, "unknown", vec![], vec![]);
        j["f"] = json!("unk");
        j["n"] = json!(id);
        j["h"] = json!(h % 997);
        j["ot"] = json!(ot);
        j["eff"] = json!(eff);
        j
    }
    fn value(&mut self, v: &Value) -> J {
        match v {
            Value::Sum(s) => { let vs: Vec<J> = s.values.iter().map(|x| self.value(x)).collect(); json!(["s", s.tag, vs]) }
            Value::Function { hugr } => {
                let mut sub = Exporter::new(hugr.as_ref());
                sub.uninterp = self.uninterp;
                // separate wire space is fine: a function body runs in its own frame; regions are renumbered
                let base = self.regions.len();
                let j = sub.run(hugr.entrypoint());
                self.problems.extend(sub.problems);
                fn shift(j: &mut J, base: usize) {
                    match j {
                        J::Object(m) => {
                            if let Some(J::Array(rs)) = m.get_mut("r") { for r in rs { let n = r.as_u64().unwrap() as usize; if n > 0 { *r = json!(n + base); } } }
                            if let Some(b) = m.get_mut("b") { shift(b, base); }
                        }
                        J::Array(xs) => for x in xs { shift(x, base) },
                        _ => {}
                    }
                }
                let mut regs = j["g"].clone();
                shift(&mut regs, base);
                for r in regs.as_array().unwrap() { self.regions.push(r.clone()); }
                json!(["fn", j["main"].as_u64().unwrap() as usize + base])
            }
            Value::Extension { e } => self.opaque(e),
        }
    }
    fn opaque(&mut self, e: &OpaqueValue) -> J {
        let c: &dyn CustomConst = e.value();
        if let Some(x) = c.downcast_ref::<ConstF64>() { return jfloat(x.value()); }
        if let Some(x) = c.downcast_ref::<ConstInt>() { return if x.log_width() < 6 { jint(x.value_u() as i128) } else { jint(x.value_s() as i128) }; }
        if let Some(x) = c.downcast_ref::<ConstUsize>() { return jint(x.value() as i128); }
        if let Some(x) = c.downcast_ref::<ConstRotation>() { return jfloat(x.half_turns()); }
        if let Some(x) = c.downcast_ref::<ConstString>() { return json!(["str", x.value()]); }
        if let Some(x) = c.downcast_ref::<ConstError>() { return json!(["err", x.signal, x.message]); }
        if let Some(x) = c.downcast_ref::<tket::extension::bool::ConstBool>() { return json!(["s", x.value() as usize, []]); }
        if let Some(x) = c.downcast_ref::<ArrayValue>() { let vs: Vec<J> = x.get_contents().iter().map(|v| self.value(v)).collect(); return json!(["arr", vs]); }
        if let Some(x) = c.downcast_ref::<BArrayValue>() { let vs: Vec<J> = x.get_contents().iter().map(|v| self.value(v)).collect(); return json!(["arr", vs]); }
        if let Some(x) = c.downcast_ref::<StaticArrayValue>() { let vs: Vec<J> = x.get_contents().iter().map(|v| self.value(v)).collect(); return json!(["arr", vs]); }
        json!(["badconst", c.name().to_string()])
    }
}
pub fn kind(t: &Type) -> &'static str {
    let s = t.to_string();
    if *t == hugr::extension::prelude::qb_t() { "q" }
    else if *t == hugr::extension::prelude::bool_t() || *t == tket::extension::bool::bool_type() { "b" }
    else if s == "float64" || s == "rotation" || s.contains("float64") || s.contains("rotation") { "f" }
    else if s.starts_with("int") || s.starts_with("usize") { "i" }
    else { "o" }
}
fn arg(a: &Term) -> J {
    match a {
        Term::BoundedNat(n) => json!(n),
        Term::String(s) => json!(s),
        Term::List(xs) | Term::Tuple(xs) => json!(xs.iter().map(arg).collect::<Vec<_>>()),
        t => json!(format!("{t}")),
    }
}

/// Program JSON starting at a dataflow container, with the problems found while exporting.
pub fn export<H: HugrView>(h: &H, main: H::Node) -> (J, Vec<String>) {
    let mut e = Exporter::new(h);
    let j = e.run(main);
    (j, e.problems)
}
pub fn export_entry<H: HugrView>(h: &H) -> (J, Vec<String>) { export(h, h.entrypoint()) }
