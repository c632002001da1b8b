//! C23: parameter arithmetic, as text and as dataflow. Both become postfix programs for spec/ParamEval.tla.
use hugr::builder::{Dataflow, DataflowHugr, FunctionBuilder};
use hugr::extension::prelude::qb_t;
use hugr::ops::OpType;
use hugr::std_extensions::arithmetic::float_ops::FloatOps;
use hugr::std_extensions::arithmetic::float_types::{float64_type, ConstF64};
use hugr::types::Signature;
use hugr::hugr::hugrmut::HugrMut;
use hugr::{PortIndex, Hugr, HugrView, IncomingPort, Node, Wire};
use serde_json::{json, Value as J};
use tket::extension::rotation::{rotation_type, ConstRotation, RotationOp};
use tket::serialize::pytket::{DecodeOptions, EncodeOptions, TKETDecode};
use tket::{Circuit, TketOp};
use tket_json_rs::circuit_json::SerialCircuit;
use tket_qsystem::extension::qsystem::QSystemOp;

use crate::ctx::*;
use crate::rng::Rng;

const P: i128 = 40961;
fn decimal(t: &str) -> Option<J> {
    let t = t.to_ascii_lowercase();
    let (m, e) = match t.split_once('e') { Some((m, e)) => (m.to_string(), e.parse::<i64>().ok()?), None => (t, 0) };
    let (neg, m) = match m.strip_prefix('-') { Some(x) => (true, x.to_string()), None => (false, m) };
    let (a, b) = match m.split_once('.') { Some((a, b)) => (a.to_string(), b.to_string()), None => (m, String::new()) };
    let mut n: i128 = 0;
    for c in a.chars().chain(b.chars()) { n = (n * 10 + c.to_digit(10)? as i128) % P; }
    let e = e - b.len() as i64;
    let mut pw = 1i128;
    for _ in 0..e.unsigned_abs().min(1000) { pw = pw * 10 % P; }
    if neg { n = (P - n) % P; }
    let (n, d) = if e >= 0 { (n * pw % P, 1) } else { (n, pw) };
    Some(json!({"k": "n", "n": n as i64, "d": d as i64}))
}
fn float(x: f64) -> Vec<J> {
    let q = x / std::f64::consts::PI;
    for d in [1, 2, 4] {
        let n = (q * d as f64).round();
        if n != 0.0 && n.abs() < 8.0 && (q - n / d as f64).abs() < 1e-11 {
            return vec![json!({"k": "pi"}), json!({"k": "n", "n": (n as i64).rem_euclid(P as i64), "d": d}), json!({"k": "mul"})];
        }
    }
    vec![decimal(&format!("{x:e}")).unwrap()]
}
fn hash(s: &str) -> u64 { s.chars().filter(|c| !c.is_whitespace()).fold(7u64, |h, c| (h * 131 + c as u64) % 40961) }
fn unknown(t: &str) -> J { json!({"k": "u", "h": hash(t)}) }

/// the usual reading of an expression (as Python's, plus juxtaposition of a number with a name or bracket, which binds closest)
struct T<'a> { s: Vec<char>, i: usize, names: &'a [String] }
impl T<'_> {
    fn peek(&mut self) -> char { while self.i < self.s.len() && self.s[self.i].is_whitespace() { self.i += 1; } self.s.get(self.i).copied().unwrap_or('\0') }
    fn two(&self) -> bool { self.s.get(self.i + 1) == Some(&'*') }
    fn sum(&mut self) -> Option<Vec<J>> {
        let mut a = self.prod()?;
        loop { match self.peek() { c @ ('+' | '-') => { self.i += 1; a.extend(self.prod()?); a.push(json!({"k": if c == '+' { "add" } else { "sub" }})); } _ => return Some(a) } }
    }
    fn prod(&mut self) -> Option<Vec<J>> {
        let mut a = self.sign()?;
        loop { match self.peek() { c @ ('*' | '/') if !(c == '*' && self.two()) => { self.i += 1; a.extend(self.sign()?); a.push(json!({"k": if c == '*' { "mul" } else { "div" }})); } _ => return Some(a) } }
    }
    fn sign(&mut self) -> Option<Vec<J>> {
        if self.peek() == '-' { self.i += 1; let mut a = self.sign()?; a.push(json!({"k": "neg"})); return Some(a); }
        let mut a = self.atom()?;
        if self.peek() == '*' && self.two() { self.i += 2; a.extend(self.sign()?); a.push(json!({"k": "pow"})); }
        Some(a)
    }
    fn ident(&mut self) -> String { let st = self.i; while self.i < self.s.len() && (self.s[self.i].is_alphanumeric() || self.s[self.i] == '_') { self.i += 1; } self.s[st..self.i].iter().collect() }
    fn atom(&mut self) -> Option<Vec<J>> {
        let c = self.peek();
        let st = self.i;
        if c == '(' { self.i += 1; let a = self.sum()?; if self.peek() != ')' { return None; } self.i += 1; return Some(a); }
        if c.is_ascii_digit() || c == '.' {
            while self.i < self.s.len() && (self.s[self.i].is_ascii_digit() || self.s[self.i] == '.') { self.i += 1; }
            let mut k = self.i;
            if k < self.s.len() && (self.s[k] == 'e' || self.s[k] == 'E') {
                k += 1;
                if k < self.s.len() && (self.s[k] == '+' || self.s[k] == '-') { k += 1; }
                if k < self.s.len() && self.s[k].is_ascii_digit() { while k < self.s.len() && self.s[k].is_ascii_digit() { k += 1; } self.i = k; }
            }
            let num = self.s[st..self.i].iter().collect::<String>();
            let mut a = vec![if num.parse::<f64>().is_ok_and(|x| x.is_finite()) { decimal(&num)? } else { unknown(&num) }];
            if self.peek() == '(' || self.peek().is_alphabetic() { a.extend(self.atom()?); a.push(json!({"k": "mul"})); }
            return Some(a);
        }
        if !c.is_alphabetic() { return None; }
        let name = self.ident();
        if self.i < self.s.len() && self.s[self.i] == '(' {
            self.i += 1;
            let mut args = vec![];
            while self.peek() != ')' { args.push(self.sum()?); if self.peek() == ',' { self.i += 1; } else if self.peek() != ')' { return None; } }
            self.i += 1;
            let n = match name.as_str() { "max" | "min" => 2, "abs" | "floor" | "ceil" | "round" => 1, _ => usize::MAX };
            if n != args.len() { return Some(vec![unknown(&self.s[st..self.i].iter().collect::<String>())]); }
            let mut a: Vec<J> = args.into_iter().flatten().collect();
            a.push(json!({"k": name}));
            return Some(a);
        }
        if name == "pi" { return Some(vec![json!({"k": "pi"})]); }
        Some(vec![match self.names.iter().position(|n| *n == name) { Some(j) => json!({"k": "v", "j": j + 1}), None => unknown(&name) }])
    }
}
pub fn text(s: &str, names: &[String]) -> Option<Vec<J>> {
    let mut t = T { s: s.chars().collect(), i: 0, names };
    let a = t.sum()?;
    (t.peek() == '\0').then_some(a)
}
/// the value arriving at a port
pub fn graph(h: &Hugr, n: Node, p: impl Into<IncomingPort>, names: &[String]) -> Result<Vec<J>, String> {
    let (src, port) = h.single_linked_output(n, p.into()).ok_or("unconnected parameter")?;
    let inputs = |k: usize| -> Result<Vec<J>, String> { let mut v = vec![]; for i in 0..k { v.extend(graph(h, src, i, names)?); } Ok(v) };
    match h.get_optype(src) {
        OpType::Input(inp) => {
            let nth = inp.types.iter().take(port.index()).filter(|t| **t == rotation_type() || **t == float64_type()).count();
            let _ = names.get(nth).ok_or("an input without a name")?;
            Ok(vec![json!({"k": "v", "j": nth + 1})])
        }
        OpType::LoadConstant(_) => {
            let c = h.static_source(src).ok_or("no constant")?;
            let v = h.get_optype(c).as_const().ok_or("no constant")?.value();
            if let Some(f) = v.get_custom_value::<ConstF64>() { Ok(float(f.value())) }
            else if let Some(r) = v.get_custom_value::<ConstRotation>() { Ok(float(r.half_turns())) }
            else { Err("constant of another type".into()) }
        }
        o => {
            let name = o.as_extension_op().map(|e| e.unqualified_id().to_string()).unwrap_or_default();
            match name.as_str() {
                "to_halfturns" | "from_halfturns_unchecked" => inputs(1),
                "radd" | "fadd" => { let mut v = inputs(2)?; v.push(json!({"k": "add"})); Ok(v) }
                "fsub" | "fmul" | "fdiv" | "fpow" | "fmax" | "fmin" => { let mut v = inputs(2)?; v.push(json!({"k": &name[1..]})); Ok(v) }
                "fneg" | "fabs" | "ffloor" | "fceil" | "fround" => { let mut v = inputs(1)?; v.push(json!({"k": &name[1..]})); Ok(v) }
                "symbolic_angle" => {
                    let t = o.as_extension_op().unwrap().args()[0].to_string();
                    let t = t.trim_matches('"');
                    Ok(text(t, names).unwrap_or_else(|| vec![unknown(t)]))
                }
                x => Err(format!("{x} in parameter arithmetic")),
            }
        }
    }
}
fn case(id: String, txt: &str, lhs: Vec<J>, rhs: Result<Vec<J>, String>) -> J {
    match rhs { Ok(r) => json!({"id": id, "text": txt, "lhs": lhs, "rhs": r}), Err(e) => json!({"id": id, "text": txt, "lhs": [], "rhs": [], "bad": format!("{txt}: {e}")}) }
}
fn names_of(h: &Hugr) -> Vec<String> { h.get_metadata(h.entrypoint(), "TKET1.input_parameters").and_then(|v| serde_json::from_value(v.clone()).ok()).unwrap_or_default() }
/// tokens over the names of the program, renumbered to the generator's (a, b_1, pi2)
fn canon(v: Vec<J>, names: &[String], base: &[String]) -> Vec<J> {
    v.into_iter().map(|mut t| { if t["k"] == "v" { let j = t["j"].as_u64().unwrap() as usize; t["j"] = json!(base.iter().position(|b| *b == names[j - 1]).map(|k| k + 1).unwrap_or(90)); } t }).collect()
}
fn circuit(ops: &[J]) -> SerialCircuit {
    let cmds: Vec<J> = ops.iter().map(|o| json!({"op": o, "args": [["q", [0]]]})).collect();
    serde_json::from_value(json!({"phase": "0", "commands": cmds, "qubits": [["q", [0]]], "bits": [], "implicit_permutation": [[["q", [0]], ["q", [0]]]]})).unwrap()
}
fn find(h: &Hugr, name: &str) -> Vec<Node> { h.children(h.entrypoint()).filter(|n| h.get_optype(*n).as_extension_op().is_some_and(|e| e.unqualified_id() == name)).collect() }

pub fn c23(c: &mut Ctx) {
    let base: Vec<String> = ["a", "b_1", "pi2"].iter().map(|s| s.to_string()).collect();
    let mut cases = vec![];
    let gen = |name: &str, most: usize| -> Vec<J> {
        let v: Vec<J> = serde_json::from_str(&std::fs::read_to_string(c.out.join(format!("gen_{name}.json"))).unwrap()).unwrap();
        let step = v.len().div_ceil(most).max(1);
        v.into_iter().step_by(step).collect()
    };
    let mut all: Vec<(String, J)> = vec![];
    for (name, most) in [("ex_all", c.n(3000, 40000)), ("ex_four", usize::MAX / 2), ("ex_full", c.n(2500, 20000)), ("ex_long", c.n(1500, 20000))] {
        for (k, e) in gen(name, most).into_iter().enumerate() { all.push((format!("{name}-{k}"), e)); }
    }
    // numbers out of range, and functions called with another number of arguments
    for (k, t) in ["max(a,b_1,pi2)", "max(a)", "min()", "abs()", "floor(a, 2)", "round(a, 2)*b_1", "1 - ceil(a,b_1)", "max(abs(a,b_1), 2)", "42e400", "-42e400", "1e400*a", "a - 1e999", "2**max(1,2,3)",
        "abs(a,)", "max(a,b_1,)", "1.7e308 * 10", "-(-a)", "--a", "a--b_1", "a*-b_1", "a**-b_1", "-a**-b_1**2", "2**-1", "-2a", "2a**2", "-(2)**2", "0.", "-0", "1e5a", "3pi", "pi pi2"].iter().enumerate() {
        match text(t, &base) { Some(p) => all.push((format!("odd-{k}"), json!({"text": t, "post": p}))), None => c.stat("unread", 1) }
    }
    let only = std::env::var("VERIF_CASE").ok();
    let b2 = base.clone();
    let done = par(all, move |(id, e)| {
        let txt = e["text"].as_str().unwrap().to_string();
        let post: Vec<J> = e["post"].as_array().unwrap().iter().map(|t| if t["k"] == "u" && t["s"].is_string() { unknown(t["s"].as_str().unwrap()) } else { t.clone() }).collect();
        let mut out = vec![];
        // read it
        let hw = id.len() % 2 == 0 || id.ends_with('3');
        let opt = if hw { DecodeOptions::new().with_config(tket_qsystem::pytket::qsystem_decoder_config()) } else { DecodeOptions::new() };
        let d = attempt(|| circuit(&[if hw { json!({"type": "PhasedX", "params": [txt, "0.5"]}) } else { json!({"type": "Rz", "params": [txt]}) }]).decode(opt));
        let rhs = d.as_ref().map_err(|e| e.clone()).and_then(|cc| {
            let h = cc.hugr();
            attempt(|| h.validate()).map_err(|e| format!("invalid HUGR: {e}"))?;
            let names = names_of(h);
            let n = *find(h, if hw { "PhasedX" } else { "Rz" }).first().ok_or("no gate")?;
            Ok(canon(graph(h, n, 1, &names)?, &names, &b2))
        });
        let lhs = if hw { [post.clone(), vec![json!({"k": "pi"}), json!({"k": "mul"})]].concat() } else { post.clone() };
        out.push(case(format!("{id}-read"), &txt, lhs, rhs));
        // and write what was read
        if let Ok(cc) = d {
            let enc = attempt(|| {
                let o = if hw { EncodeOptions::new().with_config(tket_qsystem::pytket::qsystem_encoder_config()) } else { EncodeOptions::new() };
                SerialCircuit::encode(&cc, o)
            });
            let rhs = enc.and_then(|s| {
                let t = s.commands.iter().find_map(|c| c.op.params.as_ref().and_then(|p| p.first()).cloned()).ok_or("no parameter written")?;
                text(&t, &b2).ok_or(format!("written as {t}"))
            });
            out.push(case(format!("{id}-back"), &txt, post, rhs));
        }
        out
    });
    for v in done { cases.extend(v); }
    // arithmetic of programs, written out
    let n = c.n(600, 8000);
    let seed = c.seed;
    let done = par((0..n).collect(), move |k| { let mut r = Rng::new(seed * 7717 + k as u64 * 31 + 5); written(&format!("out-{k}"), &mut r) });
    for v in done { cases.extend(v); }
    if let Some(o) = only { cases.retain(|x| x["id"] == o.as_str()); }
    c.stat("expressions", cases.len());
    for x in &cases { c.infos.push((x["id"].as_str().unwrap().into(), json!(x["text"]))); }
    for (k, x) in cases.chunks(1500).enumerate() { c.write(&format!("ParamEval.{k}.json"), &json!({"cases": x})); }
}
fn written(id: &str, r: &mut Rng) -> Vec<J> {
    let hw = r.chance(1, 2);
    let (nr, nf) = (1 + r.below(2), r.below(3));
    let mut ins = vec![qb_t()];
    let mut kinds: Vec<bool> = (0..nr).map(|_| true).chain((0..nf).map(|_| false)).collect();
    r.shuffle(&mut kinds);
    ins.extend(kinds.iter().map(|k| if *k { rotation_type() } else { float64_type() }));
    let mut b = FunctionBuilder::new("main", Signature::new(ins, vec![qb_t()])).unwrap();
    let ws: Vec<Wire> = b.input_wires().collect();
    let mut q = ws[0];
    // pool of values: (wire, is a rotation)
    let mut pool: Vec<(Wire, bool)> = ws[1..].iter().copied().zip(kinds.iter().copied()).collect();
    let consts = [0.0, 1.0, 0.5, -0.25, 2.0, 1e-3, 3.5e7, -1.0, std::f64::consts::PI, std::f64::consts::PI / 2.0, -3.0 * std::f64::consts::PI / 4.0, 0.1];
    for _ in 0..r.below(3) {
        let x = *r.pick(&consts);
        let rot = r.chance(1, 2);
        let w = if rot { b.add_load_value(ConstRotation::new(x).unwrap()) } else { b.add_load_value(ConstF64::new(x)) };
        pool.push((w, rot));
    }
    if r.chance(1, 5) {
        let e = *r.pick(&["x0 + 1", "cos(x0)", "2*x0", "-x0", "f9(x0, 1)"]);
        let o = tket::symbolic_constant_op(e.to_string());
        let w = b.add_dataflow_op(o, []).unwrap().out_wire(0);
        pool.push((w, true));
    }
    let get = |b: &mut FunctionBuilder<Hugr>, x: (Wire, bool), rot: bool| -> Wire {
        if x.1 == rot { x.0 } else { b.add_dataflow_op(if rot { RotationOp::from_halfturns_unchecked } else { RotationOp::to_halfturns }, [x.0]).unwrap().out_wire(0) }
    };
    let fl = |r: &mut Rng| -> FloatOps { use FloatOps::*; *r.pick(&[fadd, fsub, fmul, fdiv, fpow, fneg, fabs, fmax, fmin, ffloor, fceil, fround, fsub, fmul]) };
    for _ in 0..1 + r.below(6) {
        let (x, y) = (*r.pick(&pool), *r.pick(&pool));
        if r.chance(1, 4) {
            let (x, y) = (get(&mut b, x, true), get(&mut b, y, true));
            let w = b.add_dataflow_op(RotationOp::radd, [x, y]).unwrap().out_wire(0);
            pool.push((w, true));
        } else {
            let o = fl(r);
            let un = matches!(o, FloatOps::fneg | FloatOps::fabs | FloatOps::ffloor | FloatOps::fceil | FloatOps::fround);
            let mut args = vec![get(&mut b, x, false)];
            if !un { args.push(get(&mut b, y, false)); }
            let w = b.add_dataflow_op(o, args).unwrap().out_wire(0);
            pool.push((w, false));
        }
    }
    let k = 1 + r.below(3);
    for _ in 0..k {
        let x = if r.chance(2, 3) { *pool.last().unwrap() } else { *r.pick(&pool) };
        let native = hw && r.chance(1, 2);
        let w = get(&mut b, x, !native);
        // in radians half of the time, as guppy writes it
        q = if native {
            let w = if r.chance(1, 2) { let pi = b.add_load_value(ConstF64::new(std::f64::consts::PI)); b.add_dataflow_op(FloatOps::fmul, [w, pi]).unwrap().out_wire(0) } else { w };
            b.add_dataflow_op(QSystemOp::Rz, [q, w]).unwrap().out_wire(0)
        } else { b.add_dataflow_op(if r.chance(1, 2) { TketOp::Rx } else { TketOp::Rz }, [q, w]).unwrap().out_wire(0) };
    }
    let mut h = b.finish_hugr_with_outputs([q]).unwrap();
    let mut names: Vec<String> = vec![];
    if r.chance(1, 2) {
        let all = ["f1", "alpha", "f0", "x_2"];
        let m = r.below(kinds.len() + 1);
        names = all[..m.min(4)].iter().map(|s| s.to_string()).collect();
        let e = h.entrypoint();
        h.set_metadata(e, "TKET1.input_parameters", json!(names));
    }
    let mut fresh = (0..).map(|i| format!("f{i}")).filter(|x| !names.contains(x)).collect_n(8);
    while names.len() < kinds.len() { names.push(fresh.remove(0)); }
    // program order of the gates
    let mut gates: Vec<(Node, bool)> = vec![];
    let (mut n, mut p) = h.single_linked_input(h.get_io(h.entrypoint()).unwrap()[0], 0).unwrap();
    while h.get_optype(n).is_extension_op() {
        gates.push((n, h.get_optype(n).as_extension_op().unwrap().def().extension_id().as_ref() as &str == "tket.qsystem"));
        (n, p) = h.single_linked_input(n, 0).unwrap();
    }
    let _ = p;
    let enc = attempt(|| {
        let o = if hw { EncodeOptions::new().with_config(tket_qsystem::pytket::qsystem_encoder_config()) } else { EncodeOptions::new() };
        SerialCircuit::encode(&Circuit::new(h.clone()), o)
    });
    let texts: Vec<String> = enc.as_ref().map(|s| s.commands.iter().filter_map(|c| c.op.params.as_ref().and_then(|p| p.first()).cloned()).collect()).unwrap_or_default();
    gates.iter().enumerate().map(|(k, (g, native))| {
        let lhs = graph(&h, *g, 1, &names).unwrap();
        let rhs = match &enc { Err(e) => Err(e.clone()), Ok(_) => texts.get(k).ok_or("not written".to_string()).and_then(|t| text(t, &names).ok_or(format!("written as {t}"))) };
        let rhs = rhs.map(|v| if *native { [v, vec![json!({"k": "pi"}), json!({"k": "mul"})]].concat() } else { v });
        case(format!("{id}-{k}"), texts.get(k).map(|s| s.as_str()).unwrap_or(""), lhs, rhs)
    }).collect()
}
trait CollectN: Iterator { fn collect_n(self, n: usize) -> Vec<Self::Item>; }
impl<I: Iterator> CollectN for I { fn collect_n(self, n: usize) -> Vec<I::Item> { self.take(n).collect() } }
