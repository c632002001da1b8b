//! C04: pattern matching against the embeddings computed by the specification.
use std::collections::{BTreeSet, HashMap};

use hugr::hugr::views::SiblingSubgraph;
use hugr::ops::{OpTrait, OpType};
use hugr::types::EdgeKind;
use hugr::{Hugr, HugrView, IncomingPort, Node, NodeIndex, OutgoingPort, PortIndex};
use hugr::hugr::hugrmut::HugrMut;
use serde_json::{json, Value as J};
use tket::portmatching::{CircuitPattern, PatternMatch, PatternMatcher};
use tket::Circuit;

use crate::c_hash::{op_text, plain};
use crate::ctx::*;
use crate::gen::*;
use crate::prog::*;
use crate::rng::Rng;

/// constants nobody reads are not operations
fn live(h: &Hugr, n: Node) -> bool {
    let op = h.get_optype(n);
    !(op.is_const() || op.is_load_constant()) || h.output_neighbours(n).any(|m| live(h, m))
}
/// the operations of a region in topological order with their wiring; `nin`, `lin`
pub fn graph(h: &Hugr) -> (J, HashMap<Node, usize>) {
    let parent = h.entrypoint();
    let [inp, out] = h.get_io(parent).unwrap();
    let kids: Vec<Node> = h.children(parent).filter(|&n| n != inp && n != out && !matches!(h.get_optype(n), OpType::FuncDefn(_)) && live(h, n)).collect();
    let mine: BTreeSet<Node> = kids.iter().copied().collect();
    let mut at: HashMap<Node, usize> = HashMap::new();
    let mut nodes = vec![];
    let mut todo = kids;
    let mut lin = true;
    while !todo.is_empty() {
        let k = todo.iter().position(|&n| h.input_neighbours(n).all(|p| !mine.contains(&p) || at.contains_key(&p))).expect("acyclic");
        let n = todo.remove(k);
        let op = h.get_optype(n);
        let link = |n: Node, p: IncomingPort| match h.single_linked_output(n, p) {
            Some((m, q)) if m == inp => json!({"n": 0, "p": q.index()}),
            Some((m, q)) if at.contains_key(&m) => json!({"n": at[&m], "p": q.index()}),
            Some((m, q)) => json!({"n": 0, "p": 1000 + m.index() * 10 + q.index()}),
            None => json!({"n": 0, "p": 999}),
        };
        let (mut ins, mut ord, mut outer) = (vec![], vec![], String::new());
        for p in h.node_inputs(n) {
            match op.port_kind(p) {
                Some(EdgeKind::StateOrder) | None => ord.extend(h.linked_outputs(n, p).filter_map(|(m, _)| at.get(&m).copied())),
                // a constant or function outside the region is a part of the operation
                Some(_) if op.static_input_port() == Some(p) && h.single_linked_output(n, p).is_some_and(|(m, _)| !mine.contains(&m)) => {
                    let m = h.single_linked_output(n, p).unwrap().0;
                    outer.push_str(&format!(" {}", op_text(h.get_optype(m))));
                    lin = false;
                }
                Some(k) => { if !k.is_linear() { lin = false; } ins.push(link(n, p)) }
            }
        }
        let nout = h.node_outputs(n).filter(|&p| !matches!(op.port_kind(p), Some(EdgeKind::StateOrder) | None)).count();
        if h.node_outputs(n).any(|p| op.port_kind(p).is_some_and(|k| !k.is_linear() && k != EdgeKind::StateOrder)) { lin = false; }
        at.insert(n, nodes.len() + 1);
        // the contents of nested regions are not compared; give each its own name
        let mut text = op_text(op) + &outer;
        if h.children(n).next().is_some() { text.push_str(&format!("#{}", n.index())); }
        nodes.push(json!({"op": text, "ins": ins, "ord": ord, "nout": nout, "outer": !outer.is_empty()}));
    }
    let outs: Vec<J> = h.node_inputs(out).filter(|&p| matches!(h.get_optype(out).port_kind(p), Some(EdgeKind::Value(_)))).map(|p| {
        let (m, q) = h.single_linked_output(out, p).unwrap();
        json!({"n": if m == inp { 0 } else { at[&m] }, "p": q.index()})
    }).collect();
    let nin = h.get_optype(inp).dataflow_signature().unwrap().output_count();
    (json!({"nodes": nodes, "outs": outs, "nin": nin, "lin": lin}), at)
}
/// a connected set of operations, as a circuit of its own
pub fn cut(r: &mut Rng, h: &Hugr, size: usize) -> Option<Hugr> {
    let parent = h.entrypoint();
    let [inp, out] = h.get_io(parent).unwrap();
    let ok = |n: Node| n != inp && n != out && h.children(n).next().is_none() && !matches!(h.get_optype(n), OpType::Call(_) | OpType::CallIndirect(_)) && h.get_parent(n) == Some(parent);
    let all: Vec<Node> = h.children(parent).filter(|&n| ok(n)).collect();
    if all.is_empty() { return None; }
    let mut set = vec![*r.pick(&all)];
    for _ in 1..size {
        let next: Vec<Node> = set.iter().flat_map(|&n| h.all_neighbours(n)).filter(|&n| ok(n) && !set.contains(&n)).collect();
        if next.is_empty() { break; }
        set.push(*r.pick(&next));
    }
    // constants and what they feed belong together
    loop {
        let more: Vec<Node> = set.iter().flat_map(|&n| { let op = h.get_optype(n); if op.is_load_constant() { h.input_neighbours(n).collect::<Vec<_>>() } else if op.is_const() { h.output_neighbours(n).collect() } else { vec![] } }).filter(|n| !set.contains(n)).collect();
        if more.is_empty() { break; }
        for m in more { if !ok(m) { return None; } if !set.contains(&m) { set.push(m); } }
    }
    set.sort();
    let sub = guard(|| SiblingSubgraph::try_from_nodes(set, h).ok()).ok()??;
    let mut g = guard(|| sub.extract_subgraph(h, "pattern")).ok()?;
    if g.validate().is_err() { return None; }
    let f = g.children(g.entrypoint()).next();
    if !matches!(g.entrypoint_optype(), OpType::FuncDefn(_) | OpType::DFG(_)) { g.set_entrypoint(f?); }
    Some(g)
}
fn ports(m: &PatternMatch, at: &HashMap<Node, usize>) -> (J, J, J) {
    let s = m.subgraph();
    let ins: Vec<J> = s.incoming_ports().iter().map(|ps| json!(ps.iter().map(|(n, p): &(Node, IncomingPort)| json!([at[n], p.index() + 1])).collect::<Vec<_>>())).collect();
    let outs: Vec<J> = s.outgoing_ports().iter().map(|(n, p): &(Node, OutgoingPort)| json!([at[n], p.index()])).collect();
    (json!(ins), json!(outs), json!(s.nodes().iter().map(|n| at[n]).collect::<BTreeSet<_>>()))
}
fn run(name: String, matcher: &PatternMatcher, order: &[usize], t: &Circuit, at: &HashMap<Node, usize>) -> Result<J, String> {
    let ms = guard(|| matcher.find_matches(t)).map_err(|e| format!("{name}: {e}"))?;
    let found = guard(|| ms.iter().map(|m| { let (i, o, n) = ports(m, at); json!({"pat": order[m.pattern_id().0], "ins": i, "outs": o, "nodes": n}) }).collect::<Vec<_>>()).map_err(|e| format!("{name}: a match with unknown nodes: {e}"))?;
    Ok(json!({"name": name, "pats": order, "found": found}))
}
fn case(id: String, h: Hugr, pats: Vec<Hugr>, r: &mut Rng, want: usize) -> Option<J> {
    let mut list: Vec<(J, Option<CircuitPattern>)> = vec![];
    let mut bad = None;
    for g in pats {
        let (mut j, _) = graph(&g);
        j["count"] = json!(Circuit::new(&g).num_operations());
        let p = match guard(|| CircuitPattern::try_from_circuit(&Circuit::new(g))) {
            Ok(Ok(p)) => { j["why"] = json!(""); Some(p) }
            Ok(Err(e)) => { j["why"] = json!(e.to_string()); None }
            Err(e) => { bad = Some(format!("turning a circuit into a pattern: {e}")); j["why"] = json!(e); None }
        };
        j["ok"] = json!(p.is_some());
        list.push((j, p));
        if list.iter().filter(|x| x.1.is_some()).count() >= want { break; }
    }
    let good: Vec<usize> = (1..=list.len()).filter(|&i| list[i - 1].1.is_some()).collect();
    let (target, at) = graph(&h);
    let t = Circuit::new(h);
    let pat = |o: &[usize]| o.iter().map(|&i| list[i - 1].1.clone().unwrap()).collect::<Vec<_>>();
    let mut runs = vec![];
    let mut add = |x: Result<J, String>| match x { Ok(j) => runs.push(j), Err(e) => bad = Some(e) };
    let mut orders = vec![("all".to_string(), good.clone())];
    let mut o = good.clone();
    for i in (1..o.len()).rev() { o.swap(i, r.below(i + 1)); }
    orders.push(("shuffled".into(), o));
    if !good.is_empty() { let a = *r.pick(&good); orders.push(("alone".into(), vec![a])); let b = *r.pick(&good); orders.push(("two".into(), if a == b { vec![a, a] } else { vec![b, a] })); }
    for (k, (nm, o)) in orders.into_iter().enumerate() {
        if o.is_empty() || nm == "two" && o[0] == o[1] { continue; }
        match guard(|| PatternMatcher::from_patterns(pat(&o))) {
            Ok(m) => {
                add(run(nm.clone(), &m, &o, &t, &at));
                if k == 0 {
                    let again = attempt(|| { let mut b = vec![]; m.save_binary_io(&mut b)?; PatternMatcher::load_binary_io(&mut &b[..]) });
                    match again { Ok(m) => add(run("reloaded".into(), &m, &o, &t, &at)), Err(e) => add(Err(format!("saving and loading: {e}"))) }
                }
            }
            Err(e) => add(Err(format!("building the matcher: {e}"))),
        }
    }
    let mut c = json!({"id": id, "target": target, "pats": list.into_iter().map(|x| x.0).collect::<Vec<_>>(), "runs": runs});
    if let Some(b) = bad { c["bad"] = json!(b); }
    Some(c)
}
fn cfgs() -> Vec<(&'static str, Cfg, Cfg)> {
    let c = Cfg::default();
    let small = |x: &Cfg, n: usize| Cfg { stmts: n, ..x.clone() };
    let gates = Cfg { nq: 3, stmts: 10, gates: vec!["H", "T", "CX", "CX", "CZ", "X"], w: vec![("gate", 1)], ..c.clone() };
    let few = Cfg { nq: 3, stmts: 12, gates: vec!["H", "CX", "CX"], w: vec![("gate", 1)], ..c.clone() };
    let rot = Cfg { nq: 2, nf: 2, stmts: 10, gates: vec!["Rz", "Rz", "Rx", "CX", "CRz"], angle: 512, w: vec![("gate", 8), ("radd", 2), ("cF", 1)], ..c.clone() };
    let meas = Cfg { nq: 2, nb: 1, stmts: 12, gates: vec!["H", "CX", "X"], meas: 4, w: vec![("gate", 5), ("alloc", 2), ("free", 2), ("meas", 2), ("measfree", 1), ("reset", 1), ("bool", 3)], ..c.clone() };
    let class = Cfg { nq: 0, nb: 2, ni: 1, stmts: 10, w: vec![("bool", 5), ("cB", 1), ("iarith", 2)], ..c.clone() };
    let mix = Cfg { nq: 3, nb: 1, nf: 1, stmts: 12, depth: 1, inner: 2, order: true, w: vec![("gate", 8), ("dfg", 1), ("opaque", 2), ("res", 2), ("barrier", 1), ("tuple", 1), ("noop", 1), ("meas", 1)], ..c.clone() };
    vec![("gates", gates.clone(), small(&Cfg { nq: 2, ..gates }, 3)), ("few", few.clone(), small(&Cfg { nq: 3, ..few }, 3)), ("outer", Cfg { w: vec![("gate", 6), ("radd", 1), ("cF", 3)], nf: 0, angle: 1024, ..rot.clone() }, Cfg { w: vec![("gate", 4), ("cF", 3)], nf: 0, angle: 1024, stmts: 3, ..rot.clone() }), ("rot", rot.clone(), small(&Cfg { nf: 1, ..rot }, 2)),
        ("meas", meas.clone(), small(&meas, 3)), ("class", class.clone(), small(&class, 2)), ("mix", mix.clone(), small(&Cfg { depth: 0, ..mix }, 2))]
}
/// constants move to the module
fn hoist(h: &mut Hugr) {
    let consts: Vec<Node> = h.children(h.entrypoint()).filter(|&n| h.get_optype(n).is_const()).collect();
    let root = h.module_root();
    for n in consts {
        let m = h.add_node_with_parent(root, h.get_optype(n).clone());
        let readers: Vec<_> = h.linked_inputs(n, OutgoingPort::from(0)).collect();
        h.remove_node(n);
        for (r, p) in readers { h.connect(m, 0, r, p); }
    }
}
/// rotations by constants on one qubit; the constants live in the module or (`here`) beside the rotations
fn chain(angles: &[usize], here: bool) -> Hugr {
    use hugr::builder::{Container, Dataflow, DataflowSubContainer, HugrBuilder, ModuleBuilder};
    use hugr::ops::{handle::NodeHandle, Value};
    let ty = || vec![hugr::extension::prelude::qb_t()];
    let val = |a: usize| Value::extension(tket::extension::rotation::ConstRotation::new(a as f64 / 4.0).unwrap());
    let mut m = ModuleBuilder::new();
    let consts: Vec<_> = angles.iter().map(|&a| m.add_constant(val(a))).collect();
    let mut f = m.define_function("main", hugr::types::Signature::new(ty(), ty())).unwrap();
    let mut q = f.input_wires().next().unwrap();
    for (k, &a) in angles.iter().enumerate() {
        let w = if here { f.add_load_value(val(a)) } else { f.load_const(&consts[k]) };
        q = f.add_dataflow_op(tket::TketOp::Rz, [q, w]).unwrap().outputs().next().unwrap();
    }
    let n = f.finish_with_outputs([q]).unwrap().node();
    let mut h = m.finish_hugr().unwrap();
    h.set_entrypoint(n);
    h
}
pub fn c04(c: &mut Ctx) {
    let mut todo = vec![];
    for (nm, big, small) in cfgs() {
        // few-503 shows the known finding
        for k in (0..c.n(60, 600)).chain((nm == "few" && c.n(60, 600) < 503).then_some(503)) { todo.push((format!("{nm}-{k}"), big.clone(), small.clone(), c.seed.wrapping_mul(7919) + k as u64)); }
    }
    let cases = par(todo, |(id, big, small, seed)| {
        if std::env::var("VERIF_CASE").is_ok_and(|x| x != id) { return None; }
        let p = random(seed, &big);
        if !plain(&p.funcs.last().unwrap().body) { return None; }
        let mut h = p.build();
        if id.starts_with("outer") { hoist(&mut h); }
        let mut r = Rng::new(seed ^ 0x1234);
        let mut pats = vec![];
        for _ in 0..6 { let n = 1 + r.below(4); if let Some(g) = cut(&mut r, &h, n) { pats.push(g); } }
        for j in 0..6 {
            let q = random(seed * 31 + j, &Cfg { stmts: 1 + r.below(small.stmts), ..small.clone() });
            if plain(&q.funcs.last().unwrap().body) { let mut g = q.build(); if id.starts_with("outer") { hoist(&mut g); } pats.push(g); }
        }
        for i in (1..pats.len()).rev() { let j = r.below(i + 1); pats.swap(i, j); }
        Some((case(id, h, pats, &mut r, 5)?, serde_json::to_value(&p).unwrap()))
    });
    let mut chains = vec![];
    for k in 0..c.n(6, 30) {
        let id = format!("chain-{k}");
        if std::env::var("VERIF_CASE").is_ok_and(|x| x != id) { continue; }
        let mut r = Rng::new(c.seed.wrapping_mul(31) + k as u64);
        let mut angles = |n: usize| (0..n).map(|_| 1 + r.below(3)).collect::<Vec<_>>();
        let (t, ps) = (angles(6), vec![angles(1), angles(1), angles(2), angles(2), angles(3)]);
        let here = k % 3 == 0;
        let info = json!({"target": t, "patterns": ps, "constants in the region": here});
        if let Some(x) = case(id, chain(&t, here), ps.iter().map(|p| chain(p, here)).collect(), &mut Rng::new(k as u64), 5) { chains.push(Some((x, info))); }
    }
    let mut all = vec![];
    for (x, p) in chains.into_iter().chain(cases).into_iter().flatten() {
        c.infos.push((x["id"].as_str().unwrap().into(), p));
        c.stat("targets", 1);
        c.stat("patterns", x["pats"].as_array().unwrap().iter().filter(|p| p["ok"] == json!(true)).count());
        c.stat("matches", x["runs"][0]["found"].as_array().map_or(0, |f| f.len()));
        all.push(x);
    }
    for part in all.chunks(30) { let f = c.file; c.write(&format!("MatchTrace.{f}.json"), &json!({"cases": part})); c.file += 1; }
}
