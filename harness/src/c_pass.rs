//! C12: borrow squashing; C13: normalisation passes.
use crate::c_circuit::*;
use crate::ctx::*;
use crate::gen::*;
use crate::prog::{Prog, Ty};
use crate::rng::Rng;
use hugr::algorithms::const_fold::ConstantFoldPass;
use hugr::algorithms::ComposablePass;
use hugr::extension::simple_op::MakeExtensionOp;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{OpType, Value};
use hugr::std_extensions::collections::borrow_array::BArrayUnsafeOpDef;
use hugr::{Hugr, HugrView, IncomingPort, Node};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use tket::passes::{BorrowSquashPass, NormalizeGuppy};
use tket::Circuit;

/// programs printed by a generator specification
pub fn spec_programs(c: &Ctx, name: &str) -> Vec<Prog> {
    let f = c.out.join(format!("gen_{name}.json"));
    serde_json::from_str(&std::fs::read_to_string(&f).unwrap_or_else(|e| panic!("{f:?}: {e}"))).unwrap()
}
/// a seeded sample of at most n of them
pub fn sample_programs(c: &Ctx, name: &str, n: usize) -> Vec<(usize, Prog)> {
    let all = spec_programs(c, name);
    let mut ix: Vec<usize> = (0..all.len()).collect();
    if ix.len() > n { Rng::new(c.seed ^ 0xabc).shuffle(&mut ix); ix.truncate(n); ix.sort(); }
    let mut all: Vec<Option<Prog>> = all.into_iter().map(Some).collect();
    ix.into_iter().map(|i| (i, all[i].take().unwrap())).collect()
}
fn index_of(h: &Hugr, n: Node, p: usize) -> i64 {
    let Some((l, _)) = h.single_linked_output(n, IncomingPort::from(p)) else { return -1 };
    if !h.get_optype(l).is_load_constant() { return -1; }
    let Some((k, _)) = h.single_linked_output(l, IncomingPort::from(0)) else { return -1 };
    let OpType::Const(k) = h.get_optype(k) else { return -1 };
    match k.value() {
        Value::Extension { e } => {
            if let Some(c) = e.value().downcast_ref::<hugr::extension::prelude::ConstUsize>() { return c.value() as i64; }
            if let Some(c) = e.value().downcast_ref::<hugr::std_extensions::arithmetic::int_types::ConstInt>() { return c.value_u() as i64; }
            -1
        }
        _ => -1,
    }
}
fn action(h: &Hugr, n: Node) -> Option<&'static str> {
    let e = h.get_optype(n).as_extension_op()?;
    match BArrayUnsafeOpDef::from_extension_op(e) { Ok(BArrayUnsafeOpDef::borrow) => Some("b"), Ok(BArrayUnsafeOpDef::r#return) => Some("r"), _ => None }
}
/// the borrow and return operations in data order, each with its predecessor on the same array
fn chains(h: &Hugr) -> J {
    let mut nodes: Vec<Node> = h.entry_descendants().filter(|n| action(h, *n).is_some()).collect();
    // data order: predecessors first
    let mut order: Vec<Node> = vec![];
    let prev = |n: Node| h.single_linked_output(n, IncomingPort::from(0)).filter(|(m, p)| action(h, *m).is_some() && { use hugr::PortIndex; p.index() } == 0).map(|x| x.0);
    let mut pos: HashMap<Node, usize> = HashMap::new();
    while !nodes.is_empty() {
        let (now, later): (Vec<Node>, Vec<Node>) = nodes.into_iter().partition(|n| prev(*n).is_none_or(|p| pos.contains_key(&p)));
        assert!(!now.is_empty());
        for n in now { order.push(n); pos.insert(n, order.len()); }
        nodes = later;
    }
    J::Array(order.iter().map(|n| json!({"k": action(h, *n).unwrap(), "x": index_of(h, *n, 1), "prev": prev(*n).map(|p| pos[&p]).unwrap_or(0)})).collect())
}
pub fn sig(h: &Hugr) -> String { use hugr::ops::OpTrait; h.entrypoint_optype().dataflow_signature().map(|s| s.to_string()).or_else(|| { use hugr::ops::OpParent; h.entrypoint_optype().inner_function_type().map(|s| s.to_string()) }).unwrap_or_default() }
pub fn run<P: ComposablePass<Hugr>>(p: &P, h: &Hugr) -> Result<Hugr, String> where P::Error: std::fmt::Display {
    let before = sig(h);
    let mut h = h.clone();
    attempt(|| p.run(&mut h).map(|_| ()))?;
    if sig(&h) != before { return Err(format!("entry point signature changed from {before} to {}", sig(&h))); }
    Ok(h)
}
pub fn squash_cfgs() -> Vec<(&'static str, Cfg)> {
    let b = base_cfg();
    let w = vec![("gate", 4), ("borrow", 8), ("bswap", 1), ("noop", 1), ("tuple", 1), ("meas", 1)];
    vec![
        ("one", Cfg { nq: 1, arrays: vec![Ty::AQ(3)], max_q: 4, stmts: 6, w: w.clone(), ..b.clone() }),
        ("two", Cfg { nq: 0, arrays: vec![Ty::AQ(2), Ty::AQ(2)], max_q: 4, stmts: 7, w: w.clone(), ..b.clone() }),
        ("nest", Cfg { nq: 0, arrays: vec![Ty::AAQ(2, 2)], max_q: 4, stmts: 6, w: vec![("gate", 3), ("borrow", 8)], ..b.clone() }),
        ("flow", Cfg { nq: 0, nb: 1, arrays: vec![Ty::AQ(2), Ty::AQ(2)], max_q: 4, stmts: 6, depth: 2, inner: 4, w: vec![("gate", 3), ("borrow", 8), ("if", 2), ("dfg", 2), ("loop", 1), ("meas", 1), ("bswap", 1)], cfgs: true, ..b.clone() }),
        ("clas", Cfg { nq: 1, nb: 2, ni: 1, arrays: vec![Ty::AI(3), Ty::AB(2)], max_q: 4, stmts: 8, w: vec![("gate", 2), ("bget", 4), ("bset", 4), ("bswap", 2), ("iarith", 2), ("bool", 1)], ..b.clone() }),
    ]
}
pub fn c12(c: &mut Ctx) {
    let mut ps: Vec<(String, Prog, &str)> = vec![];
    let n = c.n(110, 9000);
    for g in ["q0", "q1", "i0", "i1", "n0", "n1", "m1", "long"] {
        let wild = g.ends_with('1') || g == "long";
        let n = if g == "long" { c.n(120, 1500) } else { n };
        for (k, p) in sample_programs(c, &format!("borrow_{g}"), n) { ps.push((format!("{g}-{k}"), p, if wild { "bagnp" } else { "seq" })); }
    }
    let m = c.n(25, 300);
    for (nm, cfg) in squash_cfgs() { for k in 0..m { ps.push((format!("{nm}-{k}"), random(seeds(c, k), &cfg), "bagnp")); } }
    let mut res = vec![];
    for (id, p, mode) in ps {
        let h = p.build();
        let mut r = Rng::new(c.seed ^ id.len() as u64 ^ h.num_nodes() as u64);
        let a = run(&BorrowSquashPass::default(), &h);
        // an outer array that is certain to be misused stops the pass before it gets to its elements
        let left = !id.starts_with("n1");
        if let (Ok(x), true) = (&a, left) { let d = h.num_nodes() - x.num_nodes(); c.stat("removed nodes", d); res.push(json!({"id": format!("left-{id}"), "ops": chains(x)})); }
        // after constant folding more indices are known
        let folded = run(&ConstantFoldPass::default(), &h);
        let f = folded.as_ref().map_err(|e| e.clone()).and_then(|h| run(&BorrowSquashPass::default(), h));
        if let (Ok(x), true) = (&f, left) { res.push(json!({"id": format!("leftf-{id}"), "ops": chains(x)})); }
        // a subset of the regions
        let regs: Vec<Node> = regions(&h).into_iter().filter(|_| r.chance(1, 2)).collect();
        let s = run(&BorrowSquashPass::default().set_regions(regs), &h);
        // one array at a time, without nested arrays
        let o = guard(|| {
            let mut h = h.clone();
            let ws: Vec<hugr::Wire> = h.entry_descendants().flat_map(|n| h.out_value_types(n).filter(|(_, t)| t.to_string().starts_with("borrow_array")).map(move |(p, _)| hugr::Wire::new(n, p)).collect::<Vec<_>>()).filter(|w| !matches!(h.get_optype(w.node()), OpType::FuncDefn(_))).collect();
            let w = *r.pick(&ws);
            tket::passes::borrow_squash::borrow_squash_array(&mut h, w, r.chance(1, 2));
            h
        });
        // folding itself may drop what nothing orders, so the folded program is its own reference
        if let Ok(h) = &folded { c.case(format!("fold-{id}"), mode, p.kinds(), p.inputs(2), vec![side(h), side_or(f)], serde_json::to_value(&p).unwrap()); }
        c.infos.push((format!("left-{id}"), serde_json::to_value(&p).unwrap()));
        c.prog_case(id, mode, &p, 2, vec![side_or(a), side_or(s), side_or(o)]);
    }
    for (k, x) in res.chunks(400).enumerate() { c.write(&format!("SquashDone.{k}.json"), &json!({"cases": x})); }
}

// ---------------------------------------------------------------- C13
pub fn norm_cfgs() -> Vec<(&'static str, Cfg)> {
    let b = Cfg { ends: true, ..base_cfg() };
    vec![
        ("flow", Cfg { nq: 2, nb: 2, ni: 1, stmts: 8, depth: 2, inner: 3, funcs: 2, cfgs: true, ind: true, order: true, w: vec![("gate", 6), ("if", 4), ("loop", 2), ("dfg", 3), ("call", 4), ("meas", 1), ("measfree", 1), ("alloc", 1), ("bool", 2), ("res", 2), ("panic", 1), ("tuple", 2), ("tuple2", 1), ("tuple3", 1), ("cB", 1), ("noop", 1)], ..b.clone() }),
        ("const", Cfg { nq: 2, nf: 1, nd: 1, ni: 2, nb: 1, stmts: 12, depth: 2, inner: 3, cfgs: true, w: vec![("gate", 6), ("cF", 2), ("cD", 2), ("cI", 3), ("cB", 2), ("iarith", 3), ("icmp", 2), ("farith", 3), ("fmul2", 1), ("flt", 1), ("radd", 2), ("f2r", 2), ("r2f", 1), ("bool", 2), ("if", 2), ("loop", 1), ("dfg", 1), ("b2i", 1), ("res", 1), ("cT", 1), ("tbool", 2), ("opq", 1), ("read", 1)], ..b.clone() }),
        ("arr", Cfg { nq: 1, nb: 1, ni: 1, arrays: vec![Ty::AQ(2), Ty::AI(2)], max_q: 4, stmts: 8, depth: 1, inner: 4, cfgs: true, w: vec![("gate", 4), ("borrow", 6), ("bget", 2), ("bset", 2), ("bswap", 1), ("if", 2), ("loop", 1), ("dfg", 2), ("tuple", 1), ("iarith", 1), ("meas", 1), ("bnew", 1), ("bunpack", 1), ("res", 1)], ..b.clone() }),
        ("tup", Cfg { nq: 3, nb: 2, ni: 1, nf: 1, stmts: 9, depth: 1, inner: 4, w: vec![("gate", 5), ("tuple", 6), ("tuple2", 6), ("tuple3", 6), ("noop", 2), ("bool", 1), ("if", 1), ("dfg", 1), ("barrier", 1), ("mov", 1)], ..b.clone() }),
        ("nest", Cfg { nq: 2, nb: 2, stmts: 5, depth: 3, inner: 3, cfgs: true, w: vec![("gate", 3), ("if", 3), ("loop", 1), ("dfg", 4), ("meas", 1), ("bool", 2), ("res", 1), ("cB", 1)], ..b.clone() }),
    ]
}
fn normalizer(mask: usize) -> NormalizeGuppy {
    let mut n = NormalizeGuppy::default();
    n.simplify_cfgs(mask & 1 != 0).remove_tuple_untuple(mask & 2 != 0).constant_folding(mask & 4 != 0).remove_dead_funcs(mask & 8 != 0).inline_dfgs(mask & 16 != 0).squash_borrows(mask & 32 != 0);
    n
}
pub fn c13(c: &mut Ctx) {
    let mut ps: Vec<(String, Prog)> = vec![];
    let n = c.n(45, 900);
    for (nm, cfg) in norm_cfgs() { for k in 0..n { ps.push((format!("{nm}-{k}"), random(seeds(c, k), &cfg))); } }
    for g in ["q1", "i1"] { let m = c.n(30, 500); for (k, p) in sample_programs(c, &format!("borrow_{g}"), m) { ps.push((format!("{g}-{k}"), p)); } }
    for (x, (id, p)) in ps.into_iter().enumerate() {
        let mut r = Rng::new(c.seed ^ (x as u64) << 16);
        let mut masks = vec![63, r.below(63), r.below(63), 1 << r.below(6)];
        if std::env::var("DBG").is_ok() { masks = (0..6).map(|m| 1 << m).collect(); }
        c.job(id, "seq", p, 2, move |h| masks.into_iter().map(|m| side_or(if m == 63 { run(&NormalizeGuppy::default(), h) } else { run(&normalizer(m), h) })).collect());
    }
    // single rewrites of tuple pairs, also where elements are dropped
    for k in 0..n {
        let p = Prog { ends: false, ..random(seeds(c, k), &norm_cfgs()[3].1) };
        #[allow(deprecated)]
        c.job(format!("pair-{k}"), "bagnp", p, 2, |h| {
            vec![side_or(attempt(|| -> Result<Hugr, String> {
                let mut circ = Circuit::new(h.clone());
                for _ in 0..50 {
                    let Some(rw) = tket::passes::find_tuple_unpack_rewrites(&circ).next() else { break };
                    rw.apply(&mut circ).map_err(|e| e.to_string())?;
                }
                Ok(circ.into_hugr())
            }))]
        });
    }
    // a tuple element that is never used
    let o = |op: &str, i: Vec<usize>, o: Vec<usize>| crate::prog::S::Op { op: op.into(), i, o, p: vec![], s: String::new() };
    let p = Prog { funcs: vec![crate::prog::Func { name: "main".into(), vars: vec![Ty::B, Ty::B, Ty::B, Ty::B], ins: vec![0, 1], outs: vec![2], body: vec![o("tuple", vec![0, 1], vec![2, 3])] }], order: true, ends: false };
    let h = p.build();
    // a comparison with a known boolean
    let e = Prog { funcs: vec![crate::prog::Func { name: "main".into(), vars: vec![Ty::B, Ty::B, Ty::B], ins: vec![0], outs: vec![2], body: vec![
        crate::prog::S::Op { op: "cB".into(), i: vec![], o: vec![1], p: vec![0], s: String::new() }, o("eq", vec![0, 1], vec![2])] }], order: true, ends: false };
    let eh = e.build();
    c.prog_case("eq-known", "seq", &e, 4, vec![side_or(run(&NormalizeGuppy::default(), &eh))]);
    c.prog_case("unused-element", "seq", &p, 4, vec![side_or(run(&NormalizeGuppy::default(), &h))]);
}
