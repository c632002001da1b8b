//! C35: machine code for a program, run on a stand-in for the quantum runtime, does what the program says.
use crate::c_circuit::*;
use crate::c_sys::sys_cfgs;
use crate::ctx::*;
use crate::gen::*;
use crate::prog::*;
use hugr::envelope::EnvelopeConfig;
use hugr::hugr::hugrmut::HugrMut;
use hugr::algorithms::ComposablePass;
use hugr::HugrView;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashMap};
use std::process::Command;

const IN: f64 = 1000.0;
const OUT: f64 = 2000.0;

/// A program without inputs and outputs that calls p on the given inputs.  Rotations by unusual angles mark the
/// qubits that are inputs and outputs; the other outputs are reported as results.
fn wrap(p: &Prog, input: &[J]) -> Prog {
    let mut q = p.clone();
    let main = q.funcs.last_mut().unwrap();
    main.name = "prog".into();
    let (it, ot): (Vec<Ty>, Vec<Ty>) = (main.ins.iter().map(|v| main.vars[*v]).collect(), main.outs.iter().map(|v| main.vars[*v]).collect());
    struct W { vars: Vec<Ty>, body: Vec<S>, nq: usize, nout: usize }
    impl W {
        fn var(&mut self, t: Ty) -> usize { self.vars.push(t); self.vars.len() - 1 }
        fn mark(&mut self, q: usize, x: f64) {
            let d = self.var(Ty::D);
            self.body.push(opp("cD", &[], &[d], &[(x * 2048.0) as i64]));
            self.body.push(op("sys.Rz", &[q, d], &[q]));
        }
        fn make(&mut self, t: Ty, v: &J) -> usize {
            let x = if t.size() > 0 { vec![] } else { vec![()] };
            let n = |k: usize| v[k].as_i64().unwrap();
            let d;
            match t {
                Ty::Q => { d = self.var(t); self.body.push(op("QAlloc", &[], &[d])); let k = self.nq as f64; self.nq += 1; self.mark(d, IN + k); }
                Ty::B => { d = self.var(t); self.body.push(opp("cB", &[], &[d], &[n(1)])); }
                Ty::T => { d = self.var(t); self.body.push(opp("cT", &[], &[d], &[n(1)])); }
                Ty::F => { d = self.var(t); self.body.push(opp("cF", &[], &[d], &[n(1) * 2048 / n(2)])); }
                Ty::D => { d = self.var(t); self.body.push(opp("cD", &[], &[d], &[n(1) * 2048 / n(2)])); }
                Ty::I => { d = self.var(t); self.body.push(opp("cI", &[], &[d], &[n(1)])); }
                _ => {
                    let es: Vec<usize> = v[1].as_array().unwrap().iter().map(|e| self.make(t.elem(), e)).collect();
                    d = self.var(t);
                    self.body.push(op(if matches!(t, Ty::SQ(_) | Ty::SB(_) | Ty::SI(_) | Ty::ST(_)) { "anew" } else { "bnew" }, &es, &[d]));
                }
            }
            let _ = x;
            d
        }
        fn show(&mut self, v: usize) {
            let t = self.vars[v];
            if t.size() > 0 || matches!(t, Ty::AQ(_) | Ty::SQ(_) | Ty::AB(_) | Ty::AI(_) | Ty::SB(_) | Ty::SI(_) | Ty::AT(_) | Ty::ST(_) | Ty::AAQ(..)) {
                let es: Vec<usize> = (0..t.size()).map(|_| self.var(t.elem())).collect();
                self.body.push(op(if matches!(t, Ty::SQ(_) | Ty::SB(_) | Ty::SI(_) | Ty::ST(_)) { "aunpack" } else { "bunpack" }, &[v], &es));
                for e in es { self.show(e); }
                return;
            }
            let j = self.nout;
            self.nout += 1;
            let r = match t {
                Ty::Q => { self.mark(v, OUT + j as f64); self.body.push(op("QFree", &[v], &[])); return; }
                Ty::T => { let b = self.var(Ty::B); self.body.push(op("read", &[v], &[b])); b }
                Ty::F => { let d = self.var(Ty::D); self.body.push(op("r2f", &[v], &[d])); d }
                _ => v,
            };
            self.body.push(ops("res", &[r], &[], &format!("out{j}")));
        }
    }
    let mut w = W { vars: vec![], body: vec![], nq: 0, nout: 0 };
    let i: Vec<usize> = it.iter().zip(input).map(|(t, v)| w.make(*t, v)).collect();
    let o: Vec<usize> = ot.iter().map(|t| w.var(*t)).collect();
    let f = q.funcs.len() - 1;
    w.body.push(S::Call { f, i, o: o.clone(), ind: false });
    for v in o { w.show(v); }
    q.funcs.push(Func { name: "main".into(), vars: w.vars, ins: vec![], outs: vec![], body: w.body });
    q
}

/// the value of a floating-point number, as a fraction
fn fval(v: &J) -> J {
    let Some(x) = v.as_f64() else { return json!(["badf", v.to_string()]) };
    if crate::export::rational(x).is_some() { return crate::export::jfloat(x); }
    let pi = std::f64::consts::PI;
    for (k, f) in [(0i64, 1.0), (1, pi), (-1, 1.0 / pi), (2, pi * pi)] {
        let y = x / f;
        let (mut a, mut p0, mut q0, mut p1, mut q1) = (y, 0i64, 1i64, 1i64, 0i64);
        for _ in 0..24 {
            let n = a.floor();
            if n.abs() > 1e8 { break; }
            let (p, q) = (n as i64 * p1 + p0, n as i64 * q1 + q0);
            if p.abs() > 1 << 30 || q > 1 << 24 { break; }
            (p0, q0, p1, q1) = (p1, q1, p, q);
            if (y - p as f64 / q as f64).abs() < 1e-11 * y.abs().max(1.0) && q < 1 << 16 { return json!(["f", p, q, k]); }
            if a == n { break; }
            a = 1.0 / (a - n);
        }
    }
    json!(["badf", format!("{x}")])
}
fn ival(v: &J) -> J { match v.as_i64() { Some(n) if n.abs() < 1 << 30 => json!(["i", n]), _ => json!(["bigint", v.to_string()]) } }
fn bval(v: &J) -> J { json!(["s", v.as_i64().unwrap_or(7), []]) }
fn printed(ev: &str, v: &J) -> J {
    let f: fn(&J) -> J = if ev.contains("bool") { bval } else if ev.contains("float") { fval } else { ival };
    match v { J::Array(xs) => json!(["arr", xs.iter().map(f).collect::<Vec<_>>()]), _ => f(v) }
}

/// the runs of a program as one program for the model: a tree of the calls that it makes
struct Tree<'a> { regs: Vec<J>, wires: usize, ins: &'a [Vec<usize>], outs: Vec<usize> }
#[derive(Clone, Default)]
struct At { q: HashMap<u64, usize>, marked: HashMap<u64, (usize, bool)>, got: BTreeMap<usize, usize>, dead: Vec<u64>, names: HashMap<u64, String> }
type E = Result<(), String>;
fn instr(f: &str, n: &str, i: Vec<usize>, o: Vec<usize>, a: Vec<J>, r: Vec<usize>) -> J {
    let o_ = if f.is_empty() { n.to_string() } else { format!("{f}.{n}") };
    json!({"op": o_, "f": f, "n": n, "i": i, "o": o, "a": a, "r": r})
}
impl Tree<'_> {
    fn wire(&mut self) -> usize { self.wires += 1; self.wires }
    /// which qubits of a run are inputs: handed out, reset, marked
    fn inputs(run: &[J]) -> HashMap<u64, usize> {
        let mut m = HashMap::new();
        for e in run {
            if e[0] == "rz" { if let (Some(q), Some(x)) = (e[1].as_u64(), e[2].as_f64()) { if (IN..IN + 100.0).contains(&x) { m.entry(q).or_insert((x - IN) as usize); } } }
        }
        m
    }
    fn walk(&mut self, runs: &[&[J]], pos: usize, mut at: At) -> Result<usize, String> {
        self.regs.push(J::Null);
        let me = self.regs.len();
        let mut b: Vec<J> = vec![];
        let marks = Self::inputs(runs[0]);
        let mut k = pos;
        loop {
            let Some(e) = runs[0].get(k) else { return Err("a run ends without returning".into()) };
            if runs.iter().any(|r| { let x = r.get(k); x.map(|x| &x[0]) != Some(&e[0]) || (x != Some(e) && !e[0].as_str().unwrap().contains("measure")) }) { return Err("equal measurement outcomes lead to different calls".into()); }
            k += 1;
            let n = e[0].as_str().unwrap().to_string();
            let num = |j: usize| e[j].as_u64().unwrap_or(u64::MAX);
            let q = |at: &At, j: usize| at.q.get(&num(j)).copied().ok_or(format!("call {e} for a qubit that was never handed out"));
            if matches!(n.as_str(), "reset" | "qfree" | "rz" | "rxy" | "rzz" | "measure" | "lazy_measure" | "lazy_measure_leaked") {
                for d in &at.dead { if num(1) == *d || n == "rzz" && num(2) == *d { return Err("an output qubit is used after its release".into()); } }
            }
            match n.as_str() {
                "qalloc" => {
                    let id = num(1);
                    if let Some(x) = marks.get(&id) { at.marked.insert(id, (*x, false)); continue; }
                    let w = self.wire();
                    at.q.insert(id, w);
                    b.push(instr("rt", "qalloc", vec![], vec![w], vec![], vec![]));
                }
                "reset" if at.marked.contains_key(&num(1)) => { at.marked.get_mut(&num(1)).unwrap().1 = true; }
                "rz" if at.marked.contains_key(&num(1)) => {
                    let (x, reset) = at.marked.remove(&num(1)).unwrap();
                    if !reset { return Err("a new qubit is not reset".into()); }
                    if e[2].as_f64() != Some(IN + x as f64) { return Err("a new qubit is rotated".into()); }
                    at.q.insert(num(1), self.ins.iter().flatten().copied().nth(x).ok_or("unknown input mark")?);
                }
                "rz" if e[2].as_f64().is_some_and(|x| x >= OUT) => {
                    let j = (e[2].as_f64().unwrap() - OUT) as usize;
                    if runs[0].get(k).is_none_or(|f| f[0] != "qfree" || f[1] != e[1]) { return Err("an output qubit is not released after its last gate".into()); }
                    k += 1;
                    let w = q(&at, 1)?;
                    at.q.remove(&num(1));
                    at.dead.push(num(1));
                    if at.got.insert(j, w).is_some() { return Err(format!("output {j} twice")); }
                }
                "reset" | "qfree" => { let w = q(&at, 1)?; b.push(instr("rt", &n, vec![w], vec![], vec![], vec![])); }
                "rz" => { let w = q(&at, 1)?; b.push(instr("rt", &n, vec![w], vec![w], vec![fval(&e[2])], vec![])); }
                "rxy" => { let w = q(&at, 1)?; b.push(instr("rt", &n, vec![w], vec![w], vec![fval(&e[2]), fval(&e[3])], vec![])); }
                "rzz" => { let (w, x) = (q(&at, 1)?, q(&at, 2)?); b.push(instr("rt", &n, vec![w, x], vec![w, x], vec![fval(&e[3])], vec![])); }
                "measure" | "lazy_measure" | "lazy_measure_leaked" => {
                    let w = q(&at, 1)?;
                    let bit = self.wire();
                    b.push(instr("rt", &n, vec![w], vec![bit], if n == "measure" { vec![] } else { vec![e[3].clone()] }, vec![]));
                    let mut rs = vec![];
                    for o in 0..2 {
                        let some: Vec<&[J]> = runs.iter().copied().filter(|r| r[k - 1][2] == o).collect();
                        if some.is_empty() { return Err("an outcome was not tried".into()); }
                        rs.push(self.walk(&some, k, at.clone())?);
                    }
                    b.push(instr("", "cond", vec![bit], vec![], vec![], rs));
                    break;
                }
                "setup" => b.push(instr("rt", "setup", vec![], vec![], vec![e[1].clone()], vec![])),
                "teardown" => b.push(instr("rt", "teardown", vec![], vec![], vec![], vec![])),
                "read_bool" | "read_uint" | "inc" | "dec" | "heap_alloc" | "heap_free" => b.push(instr("rt", &n, vec![], vec![], vec![e[1].clone()], vec![])),
                "random_seed" | "random_int" | "random_float" | "random_rng" | "random_advance" => b.push(instr("rt", &n, vec![], vec![], vec![e[1].clone()], vec![])),
                "gpu_validate" => b.push(instr("rt", &n, vec![], vec![], e.as_array().unwrap()[1..].to_vec(), vec![])),
                "gpu_id" => {
                    at.names.insert(num(2), e[1].as_str().unwrap_or("?").into());
                    b.push(instr("rt", &n, vec![], vec![], vec![json!(0)], vec![]));
                }
                "gpu_init" | "gpu_discard" => b.push(instr("rt", &n, vec![], vec![], vec![ival(&e[1])], vec![])),
                "gpu_result" => {
                    if e[2] != 8 { return Err("an answer of an external module is read with another size".into()); }
                    b.push(instr("rt", &n, vec![], vec![], vec![ival(&e[1])], vec![]));
                }
                "gpu_call" => {
                    let f = at.names.get(&num(2)).map(|x| format!("name:{x}")).unwrap_or(format!("id:{}", num(2)));
                    let sig = e[3].as_str().unwrap_or("?");
                    let bytes: Vec<u8> = e[4].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                    let (mut k, mut args) = (0, vec![ival(&e[1])]);
                    for t in sig.split(':').next().unwrap().chars() {
                        let w = if t == 'b' { 1 } else { 8 };
                        let Some(x) = bytes.get(k..k + w) else { return Err("an external call with too few argument bytes".into()) };
                        k += w;
                        args.push(match t {
                            'b' => bval(&json!(x[0])),
                            'i' => ival(&json!(i64::from_le_bytes(x.try_into().unwrap()))),
                            _ => fval(&json!(f64::from_le_bytes(x.try_into().unwrap()))),
                        });
                    }
                    if k != bytes.len() { return Err("an external call with too many argument bytes".into()); }
                    b.push(instr("rt", &n, vec![], vec![], vec![json!(format!("{f} {sig}")), json!(["arr", args])], vec![]));
                }
                "gpu_error" => {}
                "panic" | "panic_str" => {
                    b.push(instr("rt", "panic", vec![], vec![], vec![e[1].clone(), e[2].clone()], vec![]));
                    break;
                }
                "ret" => {
                    b.push(instr("rt", "end", vec![], vec![], vec![e[1].clone()], vec![]));
                    for (j, o) in self.outs.clone().into_iter().enumerate() {
                        let w = *at.got.get(&j).ok_or(format!("output {j} is missing"))?;
                        b.push(instr("", "prelude.Noop", vec![w], vec![o], vec![], vec![]));
                    }
                    break;
                }
                p if p.starts_with("print_") => {
                    let t = e[1].as_str().unwrap_or("?");
                    let v = printed(p, &e[2]);
                    match t.rsplit(':').next().and_then(|x| x.strip_prefix("out")).and_then(|x| x.parse::<usize>().ok()) {
                        Some(j) => {
                            let w = self.wire();
                            b.push(instr("", "const", vec![], vec![w], vec![v], vec![]));
                            if at.got.insert(j, w).is_some() { return Err(format!("output {j} twice")); }
                        }
                        None => b.push(instr("rt", p, vec![], vec![], vec![json!(t), v], vec![])),
                    }
                }
                p => return Err(format!("unknown call {p}")),
            }
        }
        self.regs[me - 1] = json!({"i": [], "o": [], "b": b});
        Ok(me)
    }
}
/// what the model gets for the recorded runs
fn tree(p: &Prog, runs: &J) -> Result<J, String> {
    let f = p.main();
    let runs: Vec<&[J]> = runs.as_array().ok_or("no runs")?.iter().map(|r| r.as_array().unwrap().as_slice()).collect();
    if runs.is_empty() { return Err("no runs".into()); }
    let mut n = 0;
    let mut next = |k: usize| -> Vec<usize> { (0..k).map(|_| { n += 1; n }).collect() };
    let (mut i, mut o, mut pre, mut post) = (vec![], vec![], vec![], vec![]);
    let mut ins: Vec<Vec<usize>> = vec![];
    for v in &f.ins {
        fn unpack(t: Ty, w: usize, next: &mut dyn FnMut(usize) -> Vec<usize>, pre: &mut Vec<J>, out: &mut Vec<usize>) {
            match t {
                Ty::Q => out.push(w),
                t if t.qubits() > 0 => { let es = next(t.size()); pre.push(instr("arr", "unpack", vec![w], es.clone(), vec![], vec![])); for e in es { unpack(t.elem(), e, next, pre, out); } }
                _ => {}
            }
        }
        let w = next(1)[0];
        i.push(w);
        let mut qs = vec![];
        unpack(f.vars[*v], w, &mut next, &mut pre, &mut qs);
        ins.push(qs);
    }
    let mut outs = vec![];
    for v in &f.outs {
        fn pack(t: Ty, next: &mut dyn FnMut(usize) -> Vec<usize>, post: &mut Vec<J>, outs: &mut Vec<usize>) -> usize {
            let w = next(1)[0];
            if matches!(t, Ty::Q | Ty::B | Ty::T | Ty::F | Ty::D | Ty::I) { outs.push(w); return w; }
            let es: Vec<usize> = (0..t.size()).map(|_| pack(t.elem(), next, post, outs)).collect();
            post.push(instr("arr", "new_array", es, vec![w], vec![], vec![]));
            w
        }
        o.push(pack(f.vars[*v], &mut next, &mut post, &mut outs));
    }
    let mut t = Tree { regs: vec![J::Null], wires: n, ins: &ins, outs };
    let r = t.walk(&runs, 0, At::default())?;
    pre.push(instr("", "dfg", vec![], vec![], vec![], vec![r]));
    pre.extend(post);
    t.regs[0] = json!({"i": i, "o": o, "b": pre});
    Ok(json!({"g": t.regs, "main": 1}))
}

pub fn c35(c: &mut Ctx) {
    let (dir, host, lib) = machinery(c);
    let n = c.n(32, 400);
    let mut all = vec![];
    for (nm, cfg) in sys_cfgs() {
        let mut w: Vec<(&'static str, usize)> = cfg.w.iter().copied().filter(|x| x.0 != "opaque").collect();
        w.extend([("resu", 1), ("ares", 2), ("leak", 1), ("shot", 1), ("rng", 1)]);
        for k in 0..n {
            let id = format!("{nm}-{k}");
            if std::env::var("VERIF_CASE").is_ok_and(|x| x != id) { continue; }
            let p = random(seeds(c, k), &Cfg { ends: true, w: w.clone(), ..cfg.clone() });
            let ins = p.inputs(4);
            all.push((id, p, ins[k % ins.len()].clone(), nm == "arr", [0usize, 1 + k % 3], k));
        }
    }
    // the compiler's registry lacks these two; a package brings them along
    let exts = hugr::extension::ExtensionRegistry::new([tket_qsystem::extension::random::EXTENSION.clone(), tket_qsystem::extension::utils::EXTENSION.clone()]);
    let all: Vec<_> = par(all, |(id, p, input, arr, lv, k)| {
        let mut q = wrap(&p, &input);
        let l = q.funcs.len() - 1;
        // the entry point is a function of any name, also when another one is called main, or it is the function main of the module
        if k % 3 == 1 {
            q.funcs[l].name = ["start", "prog", "m"][k / 3 % 3].into();
            if k % 2 == 0 { q.funcs[l - 1].name = "main".into(); } else {
                let body = vec![opp("cB", &[], &[0], &[1]), ops("res", &[0], &[], "decoy")];
                q.funcs.insert(l, Func { name: "main".into(), vars: vec![Ty::B], ins: vec![], outs: vec![], body });
            }
        }
        let mut h = q.build();
        if k % 3 == 2 { h.set_entrypoint(h.module_root()); }
        let f = std::fs::File::create(dir.join(format!("{id}.hugr"))).unwrap();
        h.store_with_exts(f, EnvelopeConfig::binary(), &exts).unwrap();
        std::fs::write(dir.join(format!("{id}.todo")), json!({"levels": lv, "fails": [-1]}).to_string()).unwrap();
        let orig = side(&p.build());
        (id, p, input, arr, lv, orig)
    });
    // the repository's own compiled Guppy programs
    let root = std::env::var("REPO").unwrap_or("/repo".into());
    let mut own = vec![];
    for e in std::fs::read_dir(format!("{root}/qis-compiler/python/tests/resources")).into_iter().flatten().flatten() {
        let nm = e.path().file_stem().unwrap().to_string_lossy().into_owned();
        let id = format!("guppy-{nm}");
        if std::env::var("VERIF_CASE").is_ok_and(|x| x != id) { continue; }
        let bytes = std::fs::read(e.path()).unwrap();
        let Ok(Ok(mut p)) = std::panic::catch_unwind(|| hugr::envelope::read_envelope(&bytes[..], &registry())) else { c.stat("files not read", 1); continue };
        if p.1.modules.len() != 1 { continue; }
        let mut h = p.1.modules.remove(0);
        if h.entrypoint_optype().is_module() {
            let m: Vec<_> = h.children(h.module_root()).filter(|n| h.get_optype(*n).as_func_defn().is_some_and(|f| f.func_name() == "main")).collect();
            if m.len() != 1 { continue; }
            h.set_entrypoint(m[0]);
        }
        if h.inner_function_type().is_none_or(|s| s.input_count() + s.output_count() > 0) { continue; }
        if h.nodes().any(|n| h.get_optype(n).as_extension_op().is_some_and(|o| ["tket.gpu", "tket.wasm", "TKET1"].contains(&&o.extension_id()[..]))) { continue; }
        if attempt(|| hugr::algorithms::MonomorphizePass.run(&mut h)).is_err() { continue; }
        let orig = side(&h);
        std::fs::write(dir.join(format!("{id}.hugr")), &bytes).unwrap();
        std::fs::write(dir.join(format!("{id}.todo")), json!({"levels": [0, 1, 2, 3], "fails": [-1]}).to_string()).unwrap();
        own.push((id, orig));
    }
    own.sort_by(|a, b| a.0.cmp(&b.0));
    compile_and_run(&dir, &host, &lib);
    let empty = Prog { funcs: vec![Func { name: "main".into(), vars: vec![], ins: vec![], outs: vec![], body: vec![] }], order: true, ends: true };
    let mut todo: Vec<_> = all.into_iter().map(|(id, p, i, arr, lv, o)| (id, p, i, arr, lv.to_vec(), o)).collect();
    todo.extend(own.into_iter().map(|(id, o)| (id, empty.clone(), vec![], true, vec![0, 1, 2, 3], o)));
    for (id, p, input, arr, lv, orig) in todo {
        let got: J = serde_json::from_str(&std::fs::read_to_string(dir.join(format!("{id}.out.json"))).unwrap()).unwrap();
        let mut sides = vec![orig];
        for l in lv {
            let r = &got[format!("{l}:-1")];
            match r.as_str() {
                Some("limit") => { c.stat("runs cut short", 1); }
                Some(e) => sides.push(bad(format!("optimisation level {l}: {e}"))),
                None if r.is_null() => sides.push(bad(format!("optimisation level {l}: {}", got["0:-1"].as_str().unwrap_or("not compiled")))),
                None => { c.stat("runs of machine code", r.as_array().unwrap().len()); sides.push(tree(&p, r).unwrap_or_else(|e| bad(format!("optimisation level {l}: {e}")))) }
            }
        }
        if sides.len() == 1 { continue; }
        c.case(id, if arr { "seqnp" } else { "seq" }, p.kinds(), vec![input], sides, serde_json::to_value(&p).unwrap());
    }
}

// ---------------------------------------------------------------- C38
/// A program without inputs and outputs whose result is everything that the given one computes.
fn wrap_all(p: &Prog) -> Prog {
    let mut q = p.clone();
    let main = q.funcs.last_mut().unwrap();
    main.name = "prog".into();
    let ot: Vec<Ty> = main.outs.iter().map(|v| main.vars[*v]).collect();
    assert!(main.ins.is_empty());
    let mut vars = ot.clone();
    let f = q.funcs.len() - 1;
    let o: Vec<usize> = (0..ot.len()).collect();
    let mut body = vec![S::Call { f, i: vec![], o: o.clone(), ind: false }];
    for v in o {
        match ot[v] {
            Ty::Q => body.push(op("QFree", &[v], &[])),
            Ty::G => body.push(op("gfree", &[v], &[])),
            Ty::T => { vars.push(Ty::B); let b = vars.len() - 1; body.push(op("read", &[v], &[b])); body.push(ops("res", &[b], &[], &format!("end{v}"))); }
            Ty::F => { vars.push(Ty::D); let b = vars.len() - 1; body.push(op("r2f", &[v], &[b])); body.push(ops("res", &[b], &[], &format!("end{v}"))); }
            _ => body.push(ops("res", &[v], &[], &format!("end{v}"))),
        }
    }
    q.funcs.push(Func { name: "main".into(), vars, ins: vec![], outs: vec![], body });
    q
}
pub fn c38(c: &mut Ctx) {
    let (dir, host, lib) = machinery(c);
    let n = c.n(40, 400);
    let exts = hugr::extension::ExtensionRegistry::new([tket_qsystem::extension::gpu::EXTENSION.clone()]);
    let base = Cfg { nq: 0, max_q: 2, order: true, ends: true, meas: 3, gates: vec!["H", "X", "Rx", "CX"], ..Cfg::default() };
    let w = vec![("gnew", 3), ("gcall", 7), ("gfree", 2), ("cI", 2), ("cD", 1), ("cB", 1), ("iarith", 1), ("farith", 1), ("icmp", 1), ("res", 2)];
    let cfgs = vec![
        ("line", Cfg { stmts: 14, w: w.clone(), ..base.clone() }),
        ("flow", Cfg { stmts: 12, depth: 2, cfgs: true, w: [w.clone(), vec![("if", 3), ("loop", 2), ("dfg", 1), ("b2i", 1), ("panic", 1)]].concat(), ..base.clone() }),
        ("fun", Cfg { stmts: 12, depth: 1, funcs: 2, helper_q: 0, nb: 0, w: [w.clone(), vec![("call", 6), ("if", 1)]].concat(), ind: true, ..base.clone() }),
        ("meas", Cfg { stmts: 14, depth: 1, w: [w, vec![("alloc", 2), ("gate", 4), ("measfree", 3), ("if", 2), ("tbool", 1), ("read", 1), ("exit", 1)]].concat(), ..base }),
    ];
    let mut all = vec![];
    for (nm, cfg) in cfgs {
        for k in 0..n {
            let id = format!("{nm}-{k}");
            if std::env::var("VERIF_CASE").is_ok_and(|x| x != id && x != format!("{id}-fail")) { continue; }
            let fail = crate::rng::Rng::new(c.seed ^ (k as u64) << 9).below(8) as i64;
            all.push((id, wrap_all(&random(seeds(c, k), &cfg)), [0usize, 1 + k % 3], fail));
        }
    }
    let all: Vec<_> = par(all, |(id, p, lv, fail)| {
        let h = p.build();
        h.store_with_exts(std::fs::File::create(dir.join(format!("{id}.hugr"))).unwrap(), EnvelopeConfig::binary(), &exts).unwrap();
        std::fs::write(dir.join(format!("{id}.todo")), json!({"levels": lv, "fails": [-1, fail]}).to_string()).unwrap();
        (id, p, lv, fail, side(&h))
    });
    compile_and_run(&dir, &host, &lib);
    let empty = Prog { funcs: vec![Func { name: "main".into(), vars: vec![], ins: vec![], outs: vec![], body: vec![] }], order: true, ends: true };
    for (id, p, lv, fail, orig) in all {
        let got: J = serde_json::from_str(&std::fs::read_to_string(dir.join(format!("{id}.out.json"))).unwrap()).unwrap();
        for f in [-1, fail] {
            let mut src = orig.clone();
            if f >= 0 {
                let m = src["main"].as_u64().unwrap() as usize - 1;
                let msg = if f % 3 == 2 { "No error message available" } else { "co-processor failed" };
                src["g"][m]["b"].as_array_mut().unwrap().insert(0, instr("rt", "gfail", vec![], vec![], vec![json!(f), json!(msg)], vec![]));
            }
            let mut sides = vec![src];
            for l in lv {
                let r = &got[format!("{l}:{f}")];
                match r.as_str() {
                    Some("limit") => { c.stat("runs cut short", 1); }
                    Some(e) => sides.push(bad(format!("optimisation level {l}: {e}"))),
                    None if r.is_null() => sides.push(bad(format!("optimisation level {l}: {}", got[format!("{l}:-1")].as_str().or(got["0:-1"].as_str()).unwrap_or("not compiled")))),
                    None => { c.stat("runs of machine code", r.as_array().unwrap().len()); sides.push(tree(&empty, r).unwrap_or_else(|e| bad(format!("optimisation level {l}: {e}")))) }
                }
            }
            if sides.len() == 1 { continue; }
            let id = if f < 0 { id.clone() } else { format!("{id}-fail") };
            c.case(id, "seq", p.kinds(), vec![vec![]], sides, serde_json::to_value(&p).unwrap());
        }
    }
}
fn machinery(c: &Ctx) -> (std::path::PathBuf, std::path::PathBuf, String) {
    let dir = c.out.join("qis");
    std::fs::create_dir_all(&dir).unwrap();
    let host = dir.join("host");
    assert!(Command::new("gcc").args(["-O1", "-rdynamic"]).arg(qis_src().join("host.c")).arg("-o").arg(&host).arg("-ldl").status().unwrap().success(), "gcc");
    (dir, host, std::env::var("QIS_LIB").expect("QIS_LIB"))
}
fn qis_src() -> std::path::PathBuf { std::path::PathBuf::from(env!("CARGO_MANIFEST_DIR")).join("qis") }
fn compile_and_run(dir: &std::path::Path, host: &std::path::Path, lib: &str) {
    assert!(Command::new("/usr/bin/python3").arg(qis_src().join("drive.py")).arg(lib).arg(host).arg(dir).status().unwrap().success(), "drive.py");
}
