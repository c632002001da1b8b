//! C08: circuit hashes against structural classes.
use std::collections::{BTreeSet, HashMap};

use hugr::ops::OpType;
use hugr::{Hugr, HugrView, Node, PortIndex};
use serde_json::{json, Value as J};
use tket::circuit::CircuitHash;
use tket::Circuit;

use crate::ctx::*;
use crate::gen::*;
use crate::prog::*;
use crate::rng::Rng;

/// the operation with everything that belongs to it, without the numbering
pub fn op_text(op: &OpType) -> String {
    if let OpType::ExtensionOp(e) = op { return format!("{}[{}]", e.qualified_id(), serde_json::to_string(e.args()).unwrap()); }
    if let OpType::OpaqueOp(e) = op { return format!("{}[{}]", e.qualified_id(), serde_json::to_string(e.args()).unwrap()); }
    let mut j = serde_json::to_value(op).unwrap();
    if let Some(o) = j.as_object_mut() { o.remove("parent"); }
    j.to_string()
}
/// the region below `parent`, inner regions first; returns the position of its closing entry
fn region(h: &Hugr, parent: Node, out: &mut Vec<J>) -> Result<usize, String> {
    let kids: Vec<Node> = h.children(parent).collect();
    let mine: BTreeSet<Node> = kids.iter().copied().collect();
    let mut at: HashMap<Node, usize> = HashMap::new();
    let mut todo = kids.clone();
    let mut ends = vec![];
    while !todo.is_empty() {
        let Some(k) = todo.iter().position(|&n| h.input_neighbours(n).all(|p| !mine.contains(&p) || at.contains_key(&p))) else { return Err("cycle".into()) };
        let n = todo.remove(k);
        let op = h.get_optype(n);
        let kid = if h.children(n).next().is_some() {
            if h.get_io(n).is_none() { return Err("control flow".into()); }
            region(h, n, out)?
        } else { 0 };
        let ins: Vec<J> = h.node_inputs(n).map(|p| {
            json!(h.linked_outputs(n, p).map(|(m, q)| if let Some(i) = at.get(&m) { json!({"n": i, "p": q.index(), "t": ""}) } else {
                json!({"n": 0, "p": q.index(), "t": if h.get_parent(m) == Some(h.module_root()) || h.get_optype(m).is_const() { op_text(h.get_optype(m)) } else { "outer".into() }}) }).collect::<Vec<_>>())
        }).collect();
        out.push(json!({"op": op_text(op), "kid": kid, "ins": ins, "ends": []}));
        at.insert(n, out.len());
        let dead = h.output_neighbours(n).next().is_none();
        let fixed = matches!(op, OpType::Const(_) | OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::Input(_));
        if dead && !fixed { ends.push(out.len()); }
    }
    out.push(json!({"op": "region", "kid": 0, "ins": [], "ends": ends}));
    Ok(out.len())
}
fn graph(h: &Hugr, what: String) -> Result<J, String> {
    let n = h.entrypoint();
    let mut nodes = vec![];
    let dump = region(h, n, &mut nodes);
    let hash = attempt(|| Circuit::new(h.clone()).circuit_hash(n));
    match (dump, hash) {
        (Ok(_), Ok(x)) => Ok(json!({"hash": x.to_string(), "nodes": nodes, "what": what})),
        (Ok(_), Err(e)) => Err(format!("no hash: {e}")),
        (Err(d), Ok(_)) => Err(format!("a hash for {d}")),
        (Err(_), Err(_)) => Ok(J::Null),
    }
}
/// another order of the statements with the same dependencies
fn shuffled(r: &mut Rng, f: &Func) -> Vec<S> {
    let n = f.body.len();
    let rw: Vec<(BTreeSet<usize>, BTreeSet<usize>)> = f.body.iter().map(|s| { let (mut a, mut w) = Default::default(); touched(std::slice::from_ref(s), &mut a, &mut w); (a, w) }).collect();
    let dep = |i: usize, j: usize| {
        rw[i].1.iter().any(|v| rw[j].0.contains(v)) || rw[j].1.iter().any(|v| rw[i].0.contains(v))
            || rw[i].0.iter().any(|v| f.vars[*v].linear() && rw[j].0.contains(v))
    };
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !left.is_empty() {
        let ready: Vec<usize> = (0..left.len()).filter(|&k| left[..k].iter().all(|&e| !dep(e, left[k]))).collect();
        out.push(f.body[left.remove(*r.pick(&ready))].clone());
    }
    out
}
/// one small change somewhere
fn edit(r: &mut Rng, p: &Prog) -> Option<(Prog, String)> {
    let mut q = p.clone();
    let vars = q.funcs.last().unwrap().vars.clone();
    if r.chance(1, 8) {
        let f = q.funcs.last_mut().unwrap();
        let (a, b) = (r.below(f.outs.len().max(1)), r.below(f.outs.len().max(1)));
        if a == b || f.outs.is_empty() || vars[f.outs[a]] != vars[f.outs[b]] { return None; }
        f.outs.swap(a, b);
        return Some((q, format!("outputs {a} and {b} exchanged")));
    }
    if q.funcs.len() > 2 && r.chance(1, 6) { let k = q.funcs.len(); q.funcs[k - 2].name.push('x'); return Some((q, "another function name".into())); }
    // a statement at any depth
    fn pick<'a>(r: &mut Rng, b: &'a mut Vec<S>) -> (&'a mut Vec<S>, usize) {
        let k = r.below(b.len());
        if matches!(&b[k], S::Dfg { body, .. } if !body.is_empty()) { if let S::Dfg { body, .. } = &mut b[k] { return pick(r, body); } unreachable!() }
        (b, k)
    }
    let f = q.funcs.last_mut().unwrap();
    if f.body.is_empty() { return None; }
    let (b, k) = pick(r, &mut f.body);
    match r.below(5) {
        0 => { if k + 1 >= b.len() { return None; } b.swap(k, k + 1); Some((q, format!("statements {k} and {} exchanged", k + 1))) }
        1 => { if let S::Op { i, o, .. } = &b[k] { if i != o { return None; } b.remove(k); return Some((q, format!("statement {k} dropped"))); } None }
        _ => {
            let S::Op { op, i, p, s, .. } = &mut b[k] else { if let S::Call { f, .. } = &mut b[k] { if *f > 0 { *f -= 1; return Some((q, "another callee".into())); } } return None };
            let what = format!("statement {k} {op} {i:?} {p:?}");
            if i.len() >= 2 && r.chance(1, 2) {
                let (x, y) = (r.below(i.len()), r.below(i.len()));
                if x == y || vars[i[x]] != vars[i[y]] || i[x] == i[y] { return None; }
                i.swap(x, y);
                return Some((q, format!("{what}: inputs {x} and {y} exchanged")));
            }
            if !s.is_empty() { s.push('z'); return Some((q, format!("{what}: other name"))); }
            if !p.is_empty() { p[0] = if op == "cB" || op == "cT" { 1 - p[0] } else { p[0] + 1 }; return Some((q, format!("{what}: other constant"))); }
            let fams: [&[&str]; 6] = [&["H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg", "Reset", "noop"], &["Rx", "Ry", "Rz"], &["CX", "CY", "CZ"], &["and", "or", "xor", "eq"], &["iadd", "isub", "imul"], &["fadd", "fsub", "fmul"]];
            let fam = fams.iter().find(|x| x.contains(&op.as_str()))?;
            let new = *r.pick(fam);
            if new == op { return None; }
            *op = new.into();
            Some((q, format!("{what}: {new} instead")))
        }
    }
}
fn cfgs() -> Vec<(&'static str, Cfg)> {
    let c = Cfg::default();
    vec![
        ("gates", Cfg { nq: 3, nf: 1, stmts: 10, w: vec![("gate", 12), ("mov", 1), ("cF", 2)], ..c.clone() }),
        ("meas", Cfg { nq: 3, nb: 2, nf: 1, stmts: 12, w: vec![("gate", 10), ("meas", 2), ("measfree", 2), ("reset", 1), ("alloc", 3), ("free", 3), ("bool", 2), ("cB", 1)], ..c.clone() }),
        ("same", Cfg { nq: 4, nb: 2, stmts: 10, gates: vec!["H", "CX"], w: vec![("gate", 10), ("alloc", 3), ("free", 2), ("bool", 3)], ..c.clone() }),
        ("class", Cfg { nq: 1, nb: 2, nt: 2, nf: 2, nd: 2, ni: 2, stmts: 14, w: vec![("gate", 2), ("bool", 3), ("tbool", 2), ("cF", 1), ("radd", 1), ("farith", 3), ("iarith", 3), ("cI", 1), ("cB", 1), ("cT", 1)], ..c.clone() }),
        ("nest", Cfg { nq: 3, nb: 1, stmts: 10, depth: 2, inner: 4, w: vec![("gate", 8), ("dfg", 4), ("meas", 1), ("alloc", 1), ("free", 1), ("noop", 1)], ..c.clone() }),
        ("call", Cfg { nq: 3, nb: 1, stmts: 8, funcs: 2, w: vec![("gate", 8), ("call", 4), ("meas", 1)], ..c.clone() }),
        ("ops", Cfg { nq: 3, nb: 1, stmts: 10, order: true, w: vec![("gate", 8), ("opaque", 4), ("res", 4), ("barrier", 1), ("tuple", 1), ("meas", 1)], ..c.clone() }),
        ("array", Cfg { nq: 2, arrays: vec![Ty::AQ(2)], max_q: 5, stmts: 9, w: vec![("gate", 6), ("borrow", 3), ("tuple", 1), ("alloc", 1), ("free", 1)], ..c.clone() }),
    ]
}
/// programs without control flow, which has no hash
pub fn plain(st: &[S]) -> bool { st.iter().all(|s| match s { S::Op { op, .. } => !matches!(op.as_str(), "TryQAlloc" | "b2i" | "idivc" | "f2ro"), S::Dfg { body, nl } => !nl && plain(body), S::Call { ind, .. } => !ind, _ => false }) }
/// every constant and every operation with a parameter outside the generator's language, in pairs that differ in one thing
fn specials() -> Vec<(String, Vec<(String, Hugr)>)> {
    use hugr::builder::{Container, Dataflow, DataflowHugr, DataflowSubContainer, FunctionBuilder};
    use hugr::extension::prelude::*;
    use hugr::ops::{handle::NodeHandle, Tag, Value};
    use hugr::std_extensions::arithmetic::{float_types::ConstF64, int_types::ConstInt};
    use hugr::std_extensions::collections::{array::ArrayValue, borrow_array::BArrayValue, list::ListValue, static_array::StaticArrayValue};
    use hugr::types::{Signature, SumType, Type};
    let konst = |v: Value| -> Hugr {
        let t = v.get_type();
        let mut b = FunctionBuilder::new("main", Signature::new(vec![], vec![t])).unwrap();
        let w = b.add_load_value(v);
        b.finish_hugr_with_outputs([w]).unwrap()
    };
    let int = |w: u8, v: u64| Value::extension(ConstInt::new_u(w, v).unwrap());
    let it = || hugr::std_extensions::arithmetic::int_types::int_type(5);
    let lambda = |op: tket::TketOp| -> Value {
        let mut b = FunctionBuilder::new("f", Signature::new_endo(vec![qb_t()])).unwrap();
        let i = b.input_wires();
        let o = b.add_dataflow_op(op, i).unwrap();
        Value::function(b.finish_hugr_with_outputs(o.outputs()).unwrap()).unwrap()
    };
    let sig_of = |v: &[Value]| v.iter().map(|x| x.get_type()).collect::<Vec<_>>();
    let sum2 = SumType::new([vec![it()], vec![it()]]);
    let groups: Vec<(&str, Vec<(&str, Value)>)> = vec![
        ("int", vec![("5:1", int(5, 1)), ("5:2", int(5, 2)), ("5:3", int(5, 3))]),
        ("signed", vec![("-1", Value::extension(ConstInt::new_s(5, -1).unwrap())), ("1", Value::extension(ConstInt::new_s(5, 1).unwrap())), ("0", Value::extension(ConstInt::new_s(5, 0).unwrap()))]),
        ("float", vec![("0.1", ConstF64::new(0.1).into()), ("0.1+eps", ConstF64::new(0.1 + 1e-15).into()), ("-0.1", ConstF64::new(-0.1).into()), ("0", ConstF64::new(0.0).into()), ("-0", ConstF64::new(-0.0).into())]),
        ("rotation", [("0.25", 0.25), ("0.5", 0.5), ("-0.25", -0.25), ("2.25", 2.25), ("0.2500001", 0.2500001)].into_iter().map(|(n, x)| (n, Value::extension(tket::extension::rotation::ConstRotation::new(x).unwrap()))).collect()),
        ("string", vec![("a", Value::extension(ConstString::new("a".into()))), ("b", Value::extension(ConstString::new("b".into()))), ("ab", Value::extension(ConstString::new("ab".into())))]),
        ("usize", vec![("1", ConstUsize::new(1).into()), ("2", ConstUsize::new(2).into())]),
        ("bool", vec![("t", Value::true_val()), ("f", Value::false_val())]),
        ("tbool", vec![("t", Value::extension(tket::extension::bool::ConstBool::new(true))), ("f", Value::extension(tket::extension::bool::ConstBool::new(false)))]),
        ("array", vec![("12", ArrayValue::new(it(), vec![int(5, 1), int(5, 2)]).into()), ("13", ArrayValue::new(it(), vec![int(5, 1), int(5, 3)]).into()), ("21", ArrayValue::new(it(), vec![int(5, 2), int(5, 1)]).into())]),
        ("barray", vec![("12", BArrayValue::new(it(), vec![int(5, 1), int(5, 2)]).into()), ("13", BArrayValue::new(it(), vec![int(5, 1), int(5, 3)]).into())]),
        ("list", vec![("1", ListValue::new(it(), vec![int(5, 1)]).into()), ("2", ListValue::new(it(), vec![int(5, 2)]).into()), ("", ListValue::new(it(), vec![]).into())]),
        ("static", vec![("12", StaticArrayValue::try_new("s", it(), vec![int(5, 1), int(5, 2)]).unwrap().into()), ("13", StaticArrayValue::try_new("s", it(), vec![int(5, 1), int(5, 3)]).unwrap().into())]),
        ("tuple", vec![("12", Value::tuple([int(5, 1), int(5, 2)])), ("21", Value::tuple([int(5, 2), int(5, 1)]))]),
        ("tuparr", vec![("1", Value::tuple([ArrayValue::new(it(), vec![int(5, 1)]).into()])), ("2", Value::tuple([ArrayValue::new(it(), vec![int(5, 2)]).into()]))]),
        ("sum", vec![("0:1", Value::sum(0, [int(5, 1)], sum2.clone()).unwrap()), ("1:1", Value::sum(1, [int(5, 1)], sum2.clone()).unwrap()), ("0:2", Value::sum(0, [int(5, 2)], sum2.clone()).unwrap())]),
        ("some", vec![("1", Value::some([int(5, 1)])), ("2", Value::some([int(5, 2)])), ("none", Value::none(vec![it()]))]),
        ("function", vec![("H", lambda(tket::TketOp::H)), ("X", lambda(tket::TketOp::X))]),
        ("error", vec![("1", Value::extension(ConstError::new(1, "m"))), ("2", Value::extension(ConstError::new(2, "m"))), ("n", Value::extension(ConstError::new(1, "n")))]),
    ];
    let mut all: Vec<(String, Vec<(String, Hugr)>)> = groups.into_iter().map(|(n, vs)| {
        let _ = sig_of(&[]);
        (format!("const-{n}"), vs.into_iter().map(|(m, v)| (m.to_string(), konst(v))).collect())
    }).collect();
    // tags
    all.push(("tag".into(), (0..3).map(|t| {
        let rows = vec![vec![].into(); 3];
        let mut b = FunctionBuilder::new("main", Signature::new(vec![], vec![Type::new_unit_sum(3)])).unwrap();
        let w = b.add_dataflow_op(Tag::new(t, rows), []).unwrap().out_wire(0);
        (format!("tag {t}"), b.finish_hugr_with_outputs([w]).unwrap())
    }).collect()));
    // constants and functions outside the region; entry point an inner function
    let outer = |k: u64, callee: usize, load: bool| -> Hugr {
        use hugr::builder::{HugrBuilder, ModuleBuilder};
        let mut m = ModuleBuilder::new();
        let sig = Signature::new_endo(vec![qb_t()]);
        let fs: Vec<_> = ["f", "g"].iter().map(|n| m.declare(*n, sig.clone().into()).unwrap()).collect();
        let cn = m.add_constant(int(5, k));
        let mut b = m.define_function_vis("main", Signature::new(vec![qb_t()], vec![qb_t(), it()]), hugr_core::Visibility::Public).unwrap();
        let q = b.input_wires().next().unwrap();
        let q = if load {
            let fv = b.load_func(&fs[callee], &[]).unwrap();
            b.add_dataflow_op(hugr::ops::CallIndirect { signature: sig.clone() }, [fv, q]).unwrap().out_wire(0)
        } else { b.call(&fs[callee], &[], [q]).unwrap().out_wire(0) };
        let w = b.load_const(&cn);
        let f = b.finish_with_outputs([q, w]).unwrap();
        let mut h = m.finish_hugr().unwrap();
        hugr::hugr::hugrmut::HugrMut::set_entrypoint(&mut h, f.node());
        h
    };
    all.push(("outer".into(), [(1, 0, false), (2, 0, false), (1, 1, false), (1, 0, true), (1, 1, true)].into_iter().map(|(k, c, l)| (format!("const {k} callee {c} load {l}"), outer(k, c, l))).collect()));
    // order edges from two operations that look the same
    all.push(("order".into(), (0..3).map(|n| {
        let mut b = FunctionBuilder::new("main", Signature::new(vec![qb_t()], vec![qb_t(), qb_t(), qb_t()])).unwrap();
        let q = b.input_wires().next().unwrap();
        let a: Vec<_> = (0..2).map(|_| b.add_dataflow_op(tket::TketOp::QAlloc, []).unwrap()).collect();
        let t = b.add_dataflow_op(tket::TketOp::H, [q]).unwrap();
        for x in a.iter().take(n) { b.add_other_wire(x.node(), t.node()); }
        (format!("{n} order edges"), b.finish_hugr_with_outputs([t.out_wire(0), a[0].out_wire(0), a[1].out_wire(0)]).unwrap())
    }).collect()));
    // the same name in two extensions
    all.push(("ext".into(), {
        use hugr::std_extensions::collections::{array::ArrayOpBuilder, borrow_array::BArrayOpBuilder};
        let mut v = vec![];
        for k in 0..2 {
            let mut b = FunctionBuilder::new("main", Signature::new(vec![it()], if k == 0 { vec![hugr::std_extensions::collections::array::array_type(1, it())] } else { vec![hugr::std_extensions::collections::borrow_array::borrow_array_type(1, it())] })).unwrap();
            let w = b.input_wires().next().unwrap();
            let w = if k == 0 { b.add_new_array(it(), [w]) } else { b.add_new_borrow_array(it(), [w]) }.unwrap();
            v.push((format!("array kind {k}"), b.finish_hugr_with_outputs([w]).unwrap()));
        }
        v
    }));
    all
}
pub fn c08(c: &mut Ctx) {
    let mut todo: Vec<(String, u64, Option<Prog>, Vec<(String, Hugr)>)> = vec![];
    let n = c.n(40, 1200);
    for (nm, cfg) in cfgs() {
        for k in 0..n {
            let p = random(c.seed.wrapping_mul(1_000_003).wrapping_add(k as u64), &cfg);
            if p.funcs.iter().all(|f| plain(&f.body)) { todo.push((format!("{nm}-{k}"), k as u64, Some(p), vec![])); }
        }
    }
    for (nm, hs) in specials() { todo.push((nm, 0, None, hs)); }
    // circuits with control flow have no hash
    for k in 0..c.n(5, 50) {
        let p = random(k as u64 + 9000, &Cfg { nq: 2, nb: 2, stmts: 5, depth: 1, w: vec![("gate", 3), ("if", 3)], ..Cfg::default() });
        todo.push((format!("flow-{k}"), 0, Some(p), vec![]));
    }
    let edits = c.n(10, 24);
    let cases = par(todo, |(id, seed, p, hs)| {
        let mut r = Rng::new(seed ^ 0xc08);
        let mut gs = vec![];
        let mut bad = None;
        let mut add = |h: &Hugr, what: String| match graph(h, what.clone()) { Ok(J::Null) => {} Ok(g) => gs.push(g), Err(e) => bad = Some(format!("{what}: {e}")) };
        if let Some(p) = &p {
            let h = p.build();
            add(&h, "original".into());
            for k in 0..3 {
                let mut q = p.clone();
                let f = q.funcs.last_mut().unwrap();
                f.body = shuffled(&mut r, f);
                if p.order { continue; }
                if let Ok(h2) = q.try_build() { add(&h2, format!("insertion order {k}")); }
            }
            // other internal numbering: nodes added and removed, and a reload
            let mut h3 = h.clone();
            {
                use hugr::hugr::hugrmut::HugrMut;
                let parent = h3.entrypoint();
                let junk: Vec<Node> = (0..3).map(|_| h3.add_node_with_parent(parent, tket::TketOp::QAlloc)).collect();
                for j in junk { h3.remove_node(j); }
                let nodes: Vec<Node> = h3.children(parent).skip(2).collect();
                if nodes.len() > 3 { let (a, b) = (nodes[0], nodes[nodes.len() - 1]); hugr_core::hugr::internal::HugrMutInternals::move_before_sibling(&mut h3, b, a); }
            }
            add(&h3, "renumbered".into());
            let mut buf = vec![];
            h.store(&mut buf, hugr::envelope::EnvelopeConfig::text()).unwrap();
            if let Ok(h4) = Hugr::load(&buf[..], Some(&registry())) { add(&h4, "reloaded".into()); }
            for _ in 0..edits {
                if let Some((q, what)) = edit(&mut r, p) { if let Ok(Ok(h2)) = guard(|| q.try_build()) { if h2.validate().is_ok() { add(&h2, what); } } }
            }
        }
        for (what, h) in &hs { add(h, what.clone()); }
        let mut case = json!({"id": id, "graphs": gs});
        if let Some(b) = bad { case["bad"] = json!(b); }
        (case, p.map_or(json!(null), |p| serde_json::to_value(p).unwrap()))
    });
    let mut all = vec![];
    for (x, p) in cases {
        c.infos.push((x["id"].as_str().unwrap().into(), p));
        c.stat("circuits", x["graphs"].as_array().unwrap().len());
        all.push(x);
    }
    for part in all.chunks(60) { let f = c.file; c.write(&format!("HashClass.{f}.json"), &json!({"cases": part})); c.file += 1; }
}
