//! C01, C02, C03: rewrite rules from equivalence classes, the strategies, and the superoptimiser.
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::OpType;
use hugr::{Hugr, HugrView, Node, PortIndex};
use serde_json::{json, Value as J};
use tket::optimiser::badger::{load_eccs_json_file, EqCircClass};
use tket::rewrite::strategy::*;
use tket::rewrite::{CircuitRewrite, ECCRewriter, Rewriter};
use tket::circuit::CircuitHash;
use tket::Circuit;

use crate::c_hash::op_text;
use crate::ctx::*;
use crate::gen::*;
use crate::prog::*;
use crate::rng::Rng;

// ------------------------------------------------------------------------------------ rule sets
/// rules as programs on a few qubits (and angles), in classes of equal meaning
#[derive(Clone)]
pub struct Rules { pub name: String, pub classes: Vec<Vec<Prog>>, pub rw: ECCRewriter }
fn prog(vars: Vec<Ty>, ins: Vec<usize>, outs: Vec<usize>, body: Vec<S>) -> Prog {
    Prog { funcs: vec![Func { name: "main".into(), vars, ins, outs, body }], order: false, ends: false }
}
/// qubits only
fn gates(n: usize, gs: &[(&str, &[usize])]) -> Prog {
    prog(vec![Ty::Q; n], (0..n).collect(), (0..n).collect(), gs.iter().map(|(g, q)| op(g, q, q)).collect())
}
/// two qubits 0 1, two angles 2 3, and whatever follows
fn angles(nq: usize, nf: usize, extra: &[Ty], outs: &[usize], body: Vec<S>) -> Prog {
    let mut vars = vec![Ty::Q; nq];
    vars.extend(vec![Ty::F; nf]);
    vars.extend(extra);
    prog(vars, (0..nq + nf).collect(), outs.to_vec(), body)
}
/// classes written by hand, by family
pub fn hand(family: &str) -> Vec<Vec<Prog>> {
    let g = |gs: &[(&str, &[usize])], n: usize| gates(n, gs);
    match family {
        "rot" => {
            let mut v = vec![];
            for r in ["Rz", "Rx", "Ry"] {
                v.push(vec![angles(1, 2, &[], &[0], vec![op(r, &[0, 1], &[0]), op(r, &[0, 2], &[0])]), angles(1, 2, &[Ty::F], &[0], vec![op("radd", &[1, 2], &[3]), op(r, &[0, 3], &[0])])]);
            }
            v.push(vec![angles(2, 1, &[], &[0, 1], vec![op("CX", &[0, 1], &[0, 1]), op("Rz", &[0, 2], &[0])]), angles(2, 1, &[], &[0, 1], vec![op("Rz", &[0, 2], &[0]), op("CX", &[0, 1], &[0, 1])])]);
            v.push(vec![angles(1, 1, &[], &[0], vec![op("H", &[0], &[0]), op("Rz", &[0, 1], &[0]), op("H", &[0], &[0])]), angles(1, 1, &[], &[0], vec![op("Rx", &[0, 1], &[0])])]);
            v.push(vec![angles(2, 1, &[], &[0, 1], vec![op("CRz", &[0, 1, 2], &[0, 1]), op("CX", &[0, 1], &[0, 1]), op("CX", &[0, 1], &[0, 1])]), angles(2, 1, &[], &[0, 1], vec![op("CRz", &[0, 1, 2], &[0, 1])])]);
            v.push(vec![g(&[("CX", &[0, 1]), ("CX", &[0, 1])], 2), g(&[], 2)]);
            v
        }
        "const" => {
            let rot = |r: &str, xs: &[i64]| angles(1, 0, &vec![Ty::F; xs.len()], &[0], xs.iter().enumerate().flat_map(|(k, &x)| [opp("cF", &[], &[k + 1], &[x]), op(r, &[0, k + 1], &[0])]).collect());
            let mut v = vec![];
            for (a, b) in [(1024, 1024), (512, 512), (1024, 512), (2048, 1024)] { v.push(vec![rot("Rz", &[a, b]), rot("Rz", &[a + b])]); }
            v.push(vec![rot("Rz", &[1024]), g(&[("S", &[0])], 1)]);
            v.push(vec![rot("Rz", &[512]), g(&[("T", &[0])], 1)]);
            v.push(vec![rot("Rx", &[2048]), g(&[("X", &[0])], 1), g(&[("H", &[0]), ("Z", &[0]), ("H", &[0])], 1)]);
            v.push(vec![rot("Rz", &[2048]), g(&[("Z", &[0])], 1), g(&[("S", &[0]), ("S", &[0])], 1)]);
            v
        }
        "meas" => {
            let m = |extra: &[Ty], ins: &[usize], outs: &[usize], body: Vec<S>| { let mut vars = vec![Ty::Q]; vars.extend(extra); prog(vars, ins.to_vec(), outs.to_vec(), body) };
            let b = [Ty::B, Ty::B];
            vec![
                vec![m(&b, &[0], &[0, 2], vec![op("X", &[0], &[0]), op("Measure", &[0], &[0, 1]), op("not", &[1], &[2])]), m(&b, &[0], &[0, 1], vec![op("Measure", &[0], &[0, 1]), op("X", &[0], &[0])])],
                vec![m(&b, &[0], &[0, 1], vec![op("Z", &[0], &[0]), op("Measure", &[0], &[0, 1])]), m(&b, &[0], &[0, 1], vec![op("Measure", &[0], &[0, 1])]), m(&b, &[0], &[0, 1], vec![op("Measure", &[0], &[0, 1]), op("Z", &[0], &[0])]), m(&b, &[0], &[0, 1], vec![op("S", &[0], &[0]), op("Measure", &[0], &[0, 1]), op("Sdg", &[0], &[0])])],
                vec![m(&[], &[0], &[0], vec![op("Reset", &[0], &[0])]), m(&[], &[0], &[0], vec![op("Reset", &[0], &[0]), op("Reset", &[0], &[0])]), m(&[], &[0], &[0], vec![op("H", &[0], &[0]), op("Reset", &[0], &[0])]), m(&[], &[0], &[0], vec![op("Reset", &[0], &[0]), op("Z", &[0], &[0])])],
                vec![m(&b, &[0], &[0, 1, 2], vec![op("Measure", &[0], &[0, 1]), op("Measure", &[0], &[0, 2])]), m(&b, &[0], &[0, 1, 1], vec![op("Measure", &[0], &[0, 1])])],
                vec![m(&[], &[], &[0], vec![op("QAlloc", &[], &[0])]), m(&[], &[], &[0], vec![op("QAlloc", &[], &[0]), op("X", &[0], &[0]), op("X", &[0], &[0])]), m(&[], &[], &[0], vec![op("QAlloc", &[], &[0]), op("Z", &[0], &[0])])],
                vec![m(&[], &[0], &[], vec![op("QFree", &[0], &[])]), m(&[], &[0], &[], vec![op("H", &[0], &[0]), op("QFree", &[0], &[])]), m(&[], &[0], &[], vec![op("T", &[0], &[0]), op("QFree", &[0], &[])])],
                vec![g(&[("H", &[0]), ("H", &[0])], 1), g(&[], 1)],
            ]
        }
        // targets that make every output depend on every input where the pattern does not
        "spread" => vec![
            vec![g(&[("CX", &[0, 1]), ("CX", &[1, 2]), ("X", &[1]), ("X", &[1])], 3), g(&[("CX", &[1, 2]), ("CX", &[0, 2]), ("CX", &[0, 1])], 3)],
            vec![g(&[("CX", &[0, 1]), ("CX", &[1, 2])], 3), g(&[("CX", &[1, 2]), ("CX", &[0, 2]), ("CX", &[0, 1])], 3)],
            vec![g(&[("CX", &[0, 1]), ("H", &[0]), ("H", &[0]), ("CX", &[1, 2])], 3), g(&[("CX", &[1, 2]), ("CX", &[0, 2]), ("CX", &[0, 1])], 3)],
            vec![g(&[("CX", &[0, 1]), ("CX", &[0, 1]), ("CX", &[0, 1]), ("CX", &[1, 2])], 3), g(&[("CX", &[1, 2]), ("CX", &[0, 2]), ("CX", &[0, 1])], 3)],
        ],
        "long" => vec![
            vec![g(&[("CX", &[0, 1]), ("CX", &[1, 0]), ("CX", &[0, 1])], 2), g(&[("CX", &[1, 0]), ("CX", &[0, 1]), ("CX", &[1, 0])], 2)],
            vec![g(&[("H", &[0]), ("H", &[1]), ("CX", &[0, 1]), ("H", &[0]), ("H", &[1])], 2), g(&[("CX", &[1, 0])], 2)],
            vec![g(&[("CX", &[0, 1]), ("CX", &[0, 1])], 2), g(&[], 2)],
            vec![g(&[("H", &[0]), ("H", &[0])], 1), g(&[], 1)],
        ],
        // the target swaps wires
        "swap" => vec![
            vec![g(&[("CX", &[0, 1]), ("CX", &[1, 0]), ("CX", &[0, 1])], 2), prog(vec![Ty::Q, Ty::Q], vec![0, 1], vec![1, 0], vec![])],
            vec![g(&[("CX", &[0, 1]), ("CX", &[1, 0])], 2), prog(vec![Ty::Q, Ty::Q], vec![0, 1], vec![1, 0], vec![op("CX", &[1, 0], &[1, 0])])],
            vec![g(&[("H", &[0]), ("CX", &[0, 1]), ("H", &[0])], 2), g(&[("H", &[1]), ("CX", &[1, 0]), ("H", &[1])], 2)],
        ],
        f => panic!("{f}"),
    }
}
/// classes enumerated by GenEcc.tla
pub fn enumerated(c: &Ctx, set: &str) -> Vec<Vec<Prog>> {
    let all: Vec<J> = serde_json::from_str(&std::fs::read_to_string(c.out.join(format!("gen_ecc_{set}.json"))).unwrap()).unwrap();
    let mut by: BTreeMap<String, Vec<Prog>> = BTreeMap::new();
    for x in all {
        let n = x["n"].as_u64().unwrap() as usize;
        let gs: Vec<(String, Vec<usize>)> = x["gates"].as_array().unwrap().iter().map(|g| (g["g"].as_str().unwrap().to_string(), g["q"].as_array().unwrap().iter().map(|q| q.as_u64().unwrap() as usize).collect())).collect();
        let gs: Vec<(&str, &[usize])> = gs.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
        by.entry(x["key"].to_string()).or_default().push(gates(n, &gs));
    }
    by.into_values().filter(|v| v.len() > 1).collect()
}
pub fn rules(name: &str, classes: Vec<Vec<Prog>>, r: &mut Rng) -> Result<Rules, String> {
    let circ = |p: &Prog| { let h = p.build(); Circuit::new(h) };
    let eccs: Vec<EqCircClass> = classes.iter().map(|v| {
        if r.chance(1, 2) { EqCircClass::from_circuits(v.iter().map(circ)).unwrap() } else { let k = r.below(v.len()); EqCircClass::new(circ(&v[k]), v.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, p)| circ(p)).collect::<Vec<_>>()) }
    }).collect();
    let mut rw = guard(|| ECCRewriter::from_eccs(eccs)).map_err(|e| format!("building the rewriter: {e}"))?;
    if r.chance(1, 4) {
        rw = attempt(|| { let mut b = vec![]; rw.save_binary_io(&mut b)?; ECCRewriter::load_binary_io(&mut &b[..]) }).map_err(|e| format!("saving and loading the rewriter: {e}"))?;
    }
    Ok(Rules { name: name.into(), classes, rw })
}
// ------------------------------------------------------------------------------------ targets
const OTHER: [&str; 12] = ["H", "X", "T", "S", "CX", "CX", "CX", "CZ", "Z", "V", "Y", "Tdg"];
/// circuits of the rules put one after the other on random qubits, with other operations in between
pub fn target(r: &mut Rng, rules: &Rules, nq: usize, len: usize, other: usize) -> Prog {
    let mut vars = vec![Ty::Q; nq];
    vars.extend([Ty::F, Ty::F, Ty::B]);
    let ins: Vec<usize> = (0..nq + 3).collect();
    let (mut qs, mut fs, mut bs): (Vec<usize>, Vec<usize>, Vec<usize>) = ((0..nq).collect(), vec![nq, nq + 1], vec![nq + 2]);
    let mut body: Vec<S> = vec![];
    let mut meas = 0;
    let used: Vec<&str> = rules.classes.iter().flatten().flat_map(|p| &p.main().body).filter_map(|s| if let S::Op { op, .. } = s { Some(op.as_str()) } else { None }).collect();
    let stmts = |p: &Prog| p.main().body.clone();
    for _ in 0..200 {
        if body.len() >= len { break; }
        let mut pick = |r: &mut Rng, qs: &Vec<usize>, n: usize| { let mut v = qs.clone(); r.shuffle(&mut v); v.truncate(n); v };
        if r.chance(other, 10) {
            match r.below(12) {
                0 if meas < 2 && !qs.is_empty() => { meas += 1; let q = *r.pick(&qs); vars.push(Ty::B); bs.push(vars.len() - 1); body.push(op("Measure", &[q], &[q, vars.len() - 1])); }
                1 if meas < 2 && !qs.is_empty() => { meas += 1; let q = *r.pick(&qs); body.push(op("Reset", &[q], &[q])); }
                2 if qs.len() < 4 => { vars.push(Ty::Q); qs.push(vars.len() - 1); body.push(op("QAlloc", &[], &[vars.len() - 1])); }
                3 if qs.len() > 1 && meas < 2 => { meas += 1; let q = *r.pick(&qs); qs.retain(|&x| x != q); body.push(op("QFree", &[q], &[])); }
                4 => { let q = pick(r, &qs, 2); body.push(op("barrier", &q, &q)); }
                5 if !bs.is_empty() => { let b = *r.pick(&bs); body.push(S::If { c: b, t: vec![], e: vec![], cfg: false, nl: false }); body.pop(); vars.push(Ty::B); bs.push(vars.len() - 1); body.push(op("not", &[b], &[vars.len() - 1])); }
                6 => { let q = *r.pick(&qs); let f = *r.pick(&fs); body.push(op(*r.pick(&["Rz", "Rx", "Rz"]), &[q, f], &[q])); }
                7 => { vars.push(Ty::F); let f = vars.len() - 1; let g = *r.pick(&fs); body.push(if r.chance(1, 2) { opp("cF", &[], &[f], &[512 * (1 + r.below(4) as i64)]) } else { op("radd", &[g, g], &[f]) }); fs.push(f); }
                8 if used.contains(&"H") => { let q = *r.pick(&qs); let mut b = vec![op("H", &[q], &[q]), op("T", &[q], &[q])]; if r.chance(1, 2) { b.push(op("H", &[q], &[q])) } body.push(S::Dfg { body: b, nl: false }); }
                _ => { let g = *r.pick(&OTHER); let (n, _) = gate_sig(g); if qs.len() >= n { let q = pick(r, &qs, n); body.push(op(g, &q, &q)); } }
            }
            continue;
        }
        // one rule's circuit, or several interleaved
        let many = if r.chance(1, 3) { 2 + r.below(2) } else { 1 };
        let mut parts: Vec<std::collections::VecDeque<S>> = vec![];
        let taken: Vec<usize> = pick(r, &qs, qs.len());
        let mut next: Vec<(Vec<usize>, Vec<usize>)> = vec![];
        for j in 0..many {
            let p = r.pick(rules.classes.as_slice());
            let p = r.pick(p.as_slice());
            let f = p.main();
            let need = f.ins.iter().filter(|&&v| f.vars[v] == Ty::Q).count();
            if need > taken.len() { continue; }
            let m = stmts(p).iter().filter(|s| matches!(s, S::Op { op, .. } if ["Measure", "Reset", "QFree"].contains(&op.as_str()))).count();
            let a = stmts(p).iter().filter(|s| matches!(s, S::Op { op, .. } if op == "QAlloc" || op == "QFree")).count();
            let swaps = f.outs.iter().filter(|&&v| f.vars[v] == Ty::Q).zip(f.ins.iter()).any(|(a, b)| a != b);
            if meas + m > 3 || qs.len() + a > 4 || many > 1 && (a > 0 || swaps) { continue; }
            meas += m;
            // neighbouring circuits share qubits in a ring
            let mut it = (0..need).map(|i| taken[(i + j * (need.max(2) - 1)) % taken.len()]);
            let mut map: HashMap<usize, usize> = f.ins.iter().map(|&v| (v, match f.vars[v] { Ty::Q => it.next().unwrap(), Ty::F => *r.pick(&fs), _ => *r.pick(&bs) })).collect();
            let gone: Vec<usize> = f.ins.iter().filter(|v| f.vars[**v] == Ty::Q && !f.outs.contains(v)).map(|v| map[v]).collect();
            for v in 0..f.vars.len() { if !map.contains_key(&v) { vars.push(f.vars[v]); map.insert(v, vars.len() - 1); } }
            parts.push(stmts(p).into_iter().map(|s| if let S::Op { op, i, o, p, s } = s { S::Op { op, i: i.iter().map(|v| map[v]).collect(), o: o.iter().map(|v| map[v]).collect(), p, s } } else { s }).collect());
            next.push((gone, f.outs.iter().map(|v| map[v]).collect()));
        }
        while parts.iter().any(|p| !p.is_empty()) { let j = r.below(parts.len()); if let Some(s) = parts[j].pop_front() { body.push(s); } }
        for (gone, outs) in next {
            qs.retain(|q| !gone.contains(q));
            for w in outs { match vars[w] { Ty::Q => if !qs.contains(&w) { qs.push(w) }, Ty::F => fs.push(w), _ => bs.push(w) } }
        }
        // an operation missing now and then makes near misses
        if r.chance(1, 6) && !body.is_empty() { if matches!(body.last(), Some(S::Op { i, o, p, .. }) if i == o && p.is_empty()) { body.pop(); } }
    }
    let mut outs = qs.clone();
    if r.chance(1, 2) { r.shuffle(&mut outs); }
    for &b in bs.iter().skip(1) { if r.chance(2, 3) { outs.push(b); } }
    if r.chance(1, 3) { outs.push(bs[0]); }
    prog(vars, ins, outs, body)
}
// ------------------------------------------------------------------------------------ C03
#[derive(Default)]
pub struct Ops(Vec<String>, pub Vec<J>);
impl Ops {
    pub fn id(&mut self, o: &OpType) -> usize {
        let full = op_text(o);
        if let Some(k) = self.0.iter().position(|x| *x == full) { return k + 1; }
        let (kind, name) = match o {
            OpType::ExtensionOp(e) => ("op", format!("{}.{}", e.extension_id(), e.unqualified_id())),
            OpType::OpaqueOp(e) => ("op", format!("{}.{}", e.extension(), e.unqualified_id())),
            OpType::Input(_) | OpType::Output(_) => ("io", String::new()),
            OpType::Const(_) => ("const", String::new()),
            OpType::LoadConstant(_) => ("load", String::new()),
            _ => ("other", String::new()),
        };
        self.0.push(full.clone());
        self.1.push(json!({"kind": kind, "name": name, "full": full}));
        self.0.len()
    }
}
const MARK: &str = "verif.id";
struct Seen { gone: Vec<usize>, new: Vec<usize>, inner: Vec<usize>, edges: Vec<[usize; 4]>, kept: Vec<(usize, usize)> }
/// what is left of the original nodes, and what is new
fn look(h: &Hugr, n: usize, ops: &mut Ops) -> Seen {
    let parent = h.entrypoint();
    let mark = |x: Node| h.get_metadata(x, MARK).and_then(|j| j.as_u64()).unwrap_or(0) as usize;
    let mut s = Seen { gone: vec![], new: vec![], inner: vec![], edges: vec![], kept: vec![] };
    for x in h.children(parent) {
        let k = mark(x);
        if k > 0 { s.kept.push((k, ops.id(h.get_optype(x)))); } else {
            s.new.push(ops.id(h.get_optype(x)));
            s.inner.extend(h.descendants(x).skip(1).map(|y| ops.id(h.get_optype(y))).collect::<Vec<_>>());
        }
        if k > 0 { for p in h.node_outputs(x) { for (y, q) in h.linked_inputs(x, p) { if mark(y) > 0 { s.edges.push([k, p.index(), mark(y), q.index()]); } } } }
    }
    s.kept.sort();
    s.edges.sort();
    s.gone = (1..=n).filter(|k| s.kept.iter().all(|x| x.0 != *k)).collect();
    s
}
fn vec_of(x: &dyn Debug) -> J { let j: J = serde_json::from_str(&format!("{x:?}")).unwrap(); if j.is_array() { j } else { json!([j]) } }
/// the circuit is a valid program
fn wrong(h: &Hugr) -> Option<String> { attempt(|| h.validate()).err() }
struct Bench<'a> { circ: &'a Circuit, rws: Vec<CircuitRewrite>, n: usize, keep: Vec<(String, Hugr)> }
fn strategy<S: RewriteStrategy>(b: &mut Bench, ops: &mut Ops, name: &str, kind: &str, cost: &str, frac: (usize, usize), s: &S) -> J where S::Cost: Debug {
    let before = vec_of(&s.circuit_cost(b.circ));
    let got = guard(|| s.apply_rewrites(b.rws.clone(), b.circ).map(|r| (r.circ, vec_of(&r.cost_delta))).collect::<Vec<_>>());
    let mut j = json!({"name": name, "kind": kind, "cost": cost, "num": frac.0, "den": frac.1, "before": before, "res": []});
    let prices = guard(|| b.rws.iter().map(|rw| (vec_of(&s.pre_rewrite_cost(rw, b.circ)), vec_of(&s.post_rewrite_cost(rw)))).collect::<Vec<_>>());
    match prices { Ok(p) => { j["pre"] = json!(p.iter().map(|x| &x.0).collect::<Vec<_>>()); j["post"] = json!(p.iter().map(|x| &x.1).collect::<Vec<_>>()); } Err(e) => j["bad"] = json!(e) }
    match got {
        Ok(rs) => {
            let mut out = vec![];
            for (k, (circ, delta)) in rs.into_iter().enumerate() {
                let s1 = look(circ.hugr(), b.n, ops);
                let mut x = json!({"gone": s1.gone, "new": s1.new, "inner": s1.inner, "delta": delta});
                match wrong(circ.hugr()) { Some(e) => x["bad"] = json!(e), None => x["after"] = vec_of(&s.circuit_cost(&circ)) }
                if wrong(circ.hugr()).is_none() { b.keep.push((format!("{name}.{k}"), circ.into_hugr())); }
                out.push(x);
            }
            j["res"] = json!(out);
        }
        Err(e) => j["bad"] = json!(e),
    }
    j
}
/// one circuit under one rule set: everything the rewriter proposes and every strategy's results
fn propose(id: &str, rules: &Rules, h: &Hugr, r: &mut Rng, cap: usize, keep_n: usize) -> (J, Vec<(String, Hugr)>) {
    let mut h = h.clone();
    let parent = h.entrypoint();
    let kids: Vec<Node> = h.children(parent).collect();
    for (k, &x) in kids.iter().enumerate() { h.set_metadata(x, MARK, json!(k + 1)); }
    let n = kids.len();
    let at: HashMap<Node, usize> = kids.iter().enumerate().map(|(k, &x)| (x, k + 1)).collect();
    let mut ops = Ops::default();
    let nodes: Vec<J> = kids.iter().map(|&x| json!({"o": ops.id(h.get_optype(x)), "inner": h.descendants(x).skip(1).map(|y| ops.id(h.get_optype(y))).collect::<Vec<_>>()})).collect();
    let edges = look(&h, n, &mut ops).edges;
    let mut circ = Circuit::new(h);
    let traced = r.chance(1, 2);
    if traced { circ.enable_rewrite_tracing(); }
    let mut case = json!({"id": id, "nodes": nodes, "edges": edges, "rws": [], "strats": [], "ops": []});
    let mut rws = match guard(|| rules.rw.get_rewrites(&circ)) { Ok(x) => x, Err(e) => { case["bad"] = json!(format!("proposing rewrites: {e}")); case["ops"] = json!(ops.1); return (case, vec![]) } };
    case["proposed"] = json!(rws.len());
    r.shuffle(&mut rws);
    rws.truncate(cap);
    let mut keep = vec![];
    let mut list = vec![];
    for (k, rw) in rws.iter().enumerate() {
        let sub: Vec<usize> = { let mut v: Vec<usize> = rw.subgraph().nodes().iter().map(|x| at[x]).collect(); v.sort(); v };
        let inval: Vec<usize> = { let mut v: Vec<usize> = rw.invalidation_set().map(|x| at[&x]).collect(); v.sort(); v };
        let rep = rw.replacement();
        let repl: Vec<usize> = rep.hugr().children(rep.parent()).filter(|&x| { let o = rep.hugr().get_optype(x); !o.is_input() && !o.is_output() }).map(|x| ops.id(rep.hugr().get_optype(x))).collect();
        let mut j = json!({"sub": sub, "inval": inval, "repl": repl, "delta": rw.node_count_delta(), "gone": [], "new": [], "inner": [], "edges": [], "kept": []});
        let mut c2 = circ.clone();
        let plain = r.chance(1, 2);
        match attempt(|| if plain { rw.clone().apply(&mut c2).map(|_| ()) } else { rw.clone().apply_notrace(&mut c2).map(|_| ()) }) {
            Err(e) => j["bad"] = json!(format!("applying: {e}")),
            Ok(()) => {
                let s = look(c2.hugr(), n, &mut ops);
                let count = c2.rewrite_trace().map(|t| t.count());
                if count != if traced { Some(usize::from(plain)) } else { None } { j["bad"] = json!(format!("the rewrite trace holds {count:?} rewrites")); }
                j["gone"] = json!(s.gone); j["new"] = json!(s.new); j["inner"] = json!(s.inner); j["edges"] = json!(s.edges); j["kept"] = json!(s.kept);
                match wrong(c2.hugr()) { Some(e) => j["bad"] = json!(format!("invalid after the rewrite: {e}")), None => keep.push((format!("rw.{k}"), c2.into_hugr())) }
            }
        }
        list.push(j);
    }
    case["rws"] = json!(list);
    let mut b = Bench { circ: &circ, rws, n, keep };
    let mut st = vec![];
    let w = |o: &OpType| -> usize { match o { OpType::ExtensionOp(e) if e.extension_id().to_string() == "tket.quantum" => match e.unqualified_id().as_ref() { "CX" => 5, "H" => 2, "T" | "Tdg" => 3, "X" => 0, _ => 1 }, _ => 0 } };
    st.push(strategy(&mut b, &mut ops, "greedy", "greedy", "num", (1, 1), &GreedyRewriteStrategy));
    st.push(strategy(&mut b, &mut ops, "cx", "exh", "cx", (0, 1), &LexicographicCostFunction::default_cx_strategy()));
    st.push(strategy(&mut b, &mut ops, "rz", "exh", "rz", (0, 1), &LexicographicCostFunction::rz_count().into_greedy_strategy()));
    st.push(strategy(&mut b, &mut ops, "cxthr", "thr", "cx", (0, 1), &LexicographicCostFunction::cx_count().into_threshold_strategy()));
    st.push(strategy(&mut b, &mut ops, "gamma", "thr", "gcx", (10001, 10000), &GammaStrategyCost::exhaustive_cx()));
    st.push(strategy(&mut b, &mut ops, "gamma15", "thr", "gcx", (3, 2), &GammaStrategyCost::exhaustive_cx_with_gamma(1.5)));
    st.push(strategy(&mut b, &mut ops, "weight", "thr", "w", (5, 4), &GammaStrategyCost::new(1.25, w)));
    st.push(strategy(&mut b, &mut ops, "weightexh", "exh", "w", (1, 1), &ExhaustiveGreedyStrategy::from(GammaStrategyCost { gamma: 1.0, op_cost: w })));
    case["strats"] = json!(st);
    case["ops"] = json!(ops.1);
    let mut keep = b.keep;
    // different results only, a few of each sort
    let mut seen = std::collections::HashSet::new();
    r.shuffle(&mut keep);
    keep.retain(|(_, h)| { let c = Circuit::new(h); guard(|| c.circuit_hash(c.parent()).ok()).ok().flatten().is_none_or(|x| seen.insert(x)) });
    keep.truncate(keep_n);
    (case, keep)
}
/// the shipped rule files: name, classes as read here, the part of the file to hand on
const FILES: [&str; 6] = ["h_h_eccs", "cx_cx_eccs", "small_eccs", "h_rz_cxcomplete_ECC_set", "nam_4_2", "T_Tdg_H_X_CX_complete_ECC_set"];
pub fn quartz(file: &str) -> Vec<(J, Vec<Prog>)> {
    let root = std::env::var("REPO").unwrap_or("/repo".into());
    let j: J = serde_json::from_str(&std::fs::read_to_string(format!("{root}/test_files/eccs/{file}.json")).unwrap()).unwrap();
    j[1].as_object().unwrap().iter().map(|(k, class)| {
        let progs = class.as_array().unwrap().iter().map(|x| {
            let (nq, nf) = (x[0][0].as_u64().unwrap() as usize, x[0][1].as_u64().unwrap() as usize);
            let mut at: HashMap<String, usize> = (0..nq).map(|i| (format!("Q{i}"), i)).chain((0..nf).map(|i| (format!("P{i}"), nq + i))).collect();
            let mut extra = vec![];
            let body = x[1].as_array().unwrap().iter().map(|g| {
                let ins: Vec<usize> = g[2].as_array().unwrap().iter().map(|v| at[v.as_str().unwrap()]).collect();
                match g[0].as_str().unwrap() {
                    "add" => { extra.push(Ty::F); at.insert(g[1][0].as_str().unwrap().into(), nq + nf + extra.len() - 1); op("radd", &ins, &[nq + nf + extra.len() - 1]) }
                    "rz" => op("Rz", &ins, &[ins[0]]),
                    o => { let name = match o { "cx" => "CX".to_string(), "tdg" => "Tdg".into(), "sdg" => "Sdg".into(), "vdg" => "Vdg".into(), o => o.to_uppercase() }; op(&name, &ins, &ins) }
                }
            }).collect();
            let outs: Vec<usize> = (0..nq).collect();
            angles(nq, nf, &extra, &outs, body)
        }).collect();
        (json!({k: class}), progs)
    }).collect()
}
fn quartz_file(c: &Ctx, name: &str, classes: &[&(J, Vec<Prog>)]) -> std::path::PathBuf {
    let mut m = serde_json::Map::new();
    for (x, _) in classes { m.extend(x.as_object().unwrap().clone()); }
    let path = c.out.join(format!("quartz_{name}.json"));
    std::fs::write(&path, serde_json::to_string(&json!([[], m])).unwrap()).unwrap();
    path
}
pub fn file_sets(c: &Ctx, r: &mut Rng, most: usize) -> (Vec<Rules>, Vec<J>) {
    let mut out = vec![];
    let mut bad = vec![];
    for f in FILES {
        let all = quartz(f);
        let mut pick: Vec<&(J, Vec<Prog>)> = all.iter().collect();
        r.shuffle(&mut pick);
        pick.truncate(most);
        let path = quartz_file(c, f, &pick);
        match attempt(|| ECCRewriter::try_from_eccs_json_file(&path)) {
            Ok(rw) => out.push(Rules { name: f.into(), classes: pick.iter().map(|x| x.1.clone()).collect(), rw }),
            Err(e) => bad.push(json!({"id": format!("rules-{f}"), "bad": e})),
        }
    }
    (out, bad)
}
pub fn rule_sets(c: &Ctx, r: &mut Rng, n: usize) -> (Vec<Rules>, Vec<J>) {
    let mut out = vec![];
    let mut bad = vec![];
    let mut put = |name: String, x: Result<Rules, String>| match x { Ok(r) => out.push(r), Err(e) => bad.push(json!({"id": format!("rules-{name}"), "bad": e})) };
    for f in ["rot", "const", "meas", "spread", "long", "swap"] { put(f.into(), rules(f, hand(f), r)); }
    for set in ["cliff", "phase", "cx3", "pauli"] {
        let all = enumerated(c, set);
        for k in 0..n {
            let size = [1, 3, 8, 25][r.below(4)];
            let pick: Vec<Vec<Prog>> = (0..size).map(|_| { let v = r.pick(&all).clone(); let m = 2 + r.below(4); let mut v = v; r.shuffle(&mut v); v.truncate(m); v }).collect();
            put(format!("{set}{k}"), rules(&format!("{set}{k}"), pick, r));
        }
    }
    (out, bad)
}
pub fn c03(c: &mut Ctx) {
    // the rules written by hand are what they claim to be
    for f in ["rot", "const", "meas", "spread", "long", "swap"] {
        for (k, class) in hand(f).iter().enumerate() { c.prog_case(format!("rule-{f}-{k}"), "seq", &class[0], 2, class[1..].iter().map(|p| side(&p.build())).collect()); }
    }
    let mut r = Rng::new(c.seed ^ 0x0303);
    // the shipped files mean what they say, and are read as such
    for f in FILES {
        let all = quartz(f);
        let mut pick: Vec<&(J, Vec<Prog>)> = all.iter().collect();
        r.shuffle(&mut pick);
        pick.truncate(c.n(25, 700));
        for (k, x) in pick.into_iter().enumerate() {
            let path = quartz_file(c, "one", &[x]);
            let id = format!("file-{f}-{k}");
            match attempt(|| load_eccs_json_file(&path)) {
                Ok(v) if v.len() == 1 && v[0].n_circuits() == x.1.len() => c.prog_case(id, "seq", &x.1[0], 2, v[0].circuits().map(side).collect()),
                Ok(v) => c.prog_case(id, "seq", &x.1[0], 2, vec![json!({"bad": format!("{} classes, circuits: {:?}", v.len(), v.iter().map(|x| x.n_circuits()).collect::<Vec<_>>())})]),
                Err(e) => c.prog_case(id, "seq", &x.1[0], 2, vec![json!({"bad": e})]),
            }
        }
    }
    let (mut sets, mut bad) = rule_sets(c, &mut r, c.n(6, 40));
    let (s2, b2) = file_sets(c, &mut r, c.n(100, 600));
    sets.extend(s2);
    bad.extend(b2);
    let mut todo = vec![];
    for s in &sets {
        let hand = s.name.chars().all(|c| c.is_alphabetic() || c == '_') || s.name.starts_with("nam");
        for k in 0..if hand { c.n(24, 250) } else { c.n(6, 12) } { todo.push((format!("{}-{k}", s.name), s, r.next())); }
    }
    if let Ok(x) = std::env::var("VERIF_CASE") { todo.retain(|t| t.0 == x); }
    let (cap, keep) = (c.n(24, 40), c.n(4, 10));
    let done = par(todo, |(id, s, seed)| {
        let mut r = Rng::new(seed);
        let nq = 2 + r.below(3);
        let len = 4 + r.below(10);
        let other = r.below(6);
        let p = if id == "spread-0" { gates(4, &[("CX", &[2, 3]), ("H", &[2]), ("H", &[2]), ("CX", &[0, 1]), ("H", &[0]), ("H", &[0]), ("CX", &[1, 2]), ("CX", &[3, 0])]) }
            else if id == "spread-1" { gates(4, &[("CX", &[2, 3]), ("CX", &[2, 3]), ("CX", &[2, 3]), ("CX", &[0, 1]), ("CX", &[0, 1]), ("CX", &[0, 1]), ("CX", &[1, 2]), ("CX", &[3, 0])]) }
            else { target(&mut r, s, nq, len, other) };
        let h = p.build();
        let (case, keep) = propose(&id, s, &h, &mut r, cap, keep);
        let sides: Vec<J> = keep.iter().map(|(_, h)| side(h)).collect();
        (id, p, case, sides)
    });
    let mut cases = bad;
    for (id, p, case, sides) in done {
        c.stat("proposed", case["proposed"].as_u64().unwrap_or(0) as usize);
        c.stat("applied", case["rws"].as_array().map_or(0, |x| x.len()));
        c.stat("results", case["strats"].as_array().map_or(0, |x| x.iter().map(|s| s["res"].as_array().unwrap().len()).sum()));
        c.infos.push((id.clone(), serde_json::to_value(&p).unwrap()));
        cases.push(case);
        if !sides.is_empty() { c.prog_case(format!("eq-{id}"), "seq", &p, 2, sides); }
    }
    for part in cases.chunks(c.n(40, 120)) { let f = c.file; c.write(&format!("RewriteTrace.{f}.json"), &json!({"cases": part})); c.file += 1; }
}
