//! C15, C16: resources, intervals and copyable expressions of circuit regions.
use std::collections::HashMap;

use hugr::hugr::hugrmut::HugrMut;
use hugr::hugr::views::SiblingSubgraph;
use hugr::ops::{OpTrait, OpType};
use hugr::types::EdgeKind;
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, NodeIndex, OutgoingPort, PortIndex};
use serde_json::{json, Value as J};
use tket::resource::{CircuitUnit, DefaultResourceFlow, ResourceFlow, ResourceId, ResourceScope, ResourceScopeConfig, UnsupportedOp};
use tket::Circuit;

use crate::c_circuit::{circ_cfgs, regions, seeds, Wires};
use crate::ctx::*;
use crate::gen::*;
use crate::prog::*;
use crate::rng::Rng;

/// CX and CZ exchange their qubits; SWAP-like view of wires
#[derive(Clone)]
struct Exchange;
/// nothing survives an operation
#[derive(Clone)]
struct Forget;
fn two(h: &Hugr, n: Node) -> bool { matches!(h.get_optype(n).to_string().rsplit('.').next(), Some("CX" | "CZ" | "CY")) }
impl ResourceFlow<&Hugr> for Exchange {
    fn map_resources(&self, n: Node, h: &&Hugr, i: &[Option<ResourceId>]) -> Result<Vec<Option<ResourceId>>, UnsupportedOp> {
        if two(h, n) { Ok(vec![i[1], i[0]]) } else { DefaultResourceFlow.map_resources(n, h, i) }
    }
}
impl ResourceFlow<&Hugr> for Forget {
    fn map_resources(&self, n: Node, h: &&Hugr, i: &[Option<ResourceId>]) -> Result<Vec<Option<ResourceId>>, UnsupportedOp> {
        if two(h, n) { Ok(vec![None; 2]) } else { DefaultResourceFlow.map_resources(n, h, i) }
    }
}
fn unit(w: &mut Wires, u: Option<CircuitUnit<Node>>) -> J {
    match u {
        None => json!(["N", 0]),
        Some(CircuitUnit::Resource(r)) => json!(["R", (r.as_usize() as u64).min(999_999)]),
        Some(CircuitUnit::Copyable(x)) => json!(["W", w.w(x.node(), x.source().index())]),
    }
}
/// the nodes of the scope in an order respecting all edges between them
fn topo(h: &Hugr, nodes: &[Node]) -> Vec<Node> {
    let (mut todo, mut v) = (nodes.to_vec(), vec![]);
    while !todo.is_empty() {
        let k = todo.iter().position(|&n| !h.input_neighbours(n).any(|p| todo.contains(&p))).expect("acyclic");
        v.push(todo.remove(k));
    }
    v
}
/// number per type
struct Types(Vec<String>);
impl Types { fn t(&mut self, s: String) -> usize { match self.0.iter().position(|x| *x == s) { Some(k) => k + 1, None => { self.0.push(s); self.0.len() } } } }

fn scope_case(r: &mut Rng, id: String, h: &Hugr, sub: &SiblingSubgraph, flow: &str) -> J {
    let mut w = Wires(HashMap::new());
    let mut ts = Types(vec![]);
    let s = guard(|| {
        let cfg: ResourceScopeConfig<&Hugr> = match flow {
            "exchange" => [Exchange].into_iter().collect(),
            "forget" => [Forget].into_iter().collect(),
            _ => Default::default(),
        };
        ResourceScope::with_config(h, sub.clone(), &cfg)
    });
    let s = match s { Ok(s) => s, Err(e) => return json!({"id": id, "bad": e}) };
    let mine = topo(h, sub.nodes());
    let at = |n: Node| mine.iter().position(|&m| m == n).map_or(0, |k| k + 1);
    let res = guard(|| {
        let mut nodes = vec![];
        for &n in &mine {
            let op = h.get_optype(n);
            let Some(sig) = op.dataflow_signature() else {
                nodes.push(json!({"df": false, "pos": 0, "ins": [], "outs": [], "pre": [], "kind": ""}));
                continue;
            };
            let ins: Vec<J> = sig.input.iter().enumerate().map(|(p, t)| {
                let (m, q) = h.single_linked_output(n, IncomingPort::from(p)).unwrap();
                json!({"lin": !t.copyable(), "t": ts.t(t.to_string()), "from": at(m), "fp": q.index() + 1, "w": w.w(m, q.index()), "u": unit(&mut w, s.get_circuit_unit(n, IncomingPort::from(p)))})
            }).collect();
            let outs: Vec<J> = sig.output.iter().enumerate().map(|(p, t)| json!({"lin": !t.copyable(), "t": ts.t(t.to_string()), "w": w.w(n, p), "u": unit(&mut w, s.get_circuit_unit(n, OutgoingPort::from(p)))})).collect();
            let pos = s.get_position(n).map_or(-1, |p| (p.to_f64(3) * 1000.0).round() as i64);
            let mut pre: Vec<usize> = h.input_neighbours(n).map(at).filter(|&k| k > 0).collect();
            pre.sort(); pre.dedup();
            nodes.push(json!({"df": true, "pos": pos, "ins": ins, "outs": outs, "pre": pre, "kind": if two(h, n) { flow } else { "" }}));
        }
        let order: Vec<J> = sub.incoming_ports().iter().flatten().filter(|(n, p)| h.get_optype(*n).dataflow_signature().is_some_and(|s| p.index() < s.input_count())).map(|(n, p)| json!([at(*n), p.index() + 1])).collect();
        let all: Vec<usize> = s.resources_iter().map(|r| r.as_usize()).collect();
        let mut paths = vec![];
        let mut seen: Vec<ResourceId> = s.resources_iter().collect();
        seen.sort(); seen.dedup();
        for _ in 0..6.min(2 * seen.len()) {
            let q = *r.pick(&seen);
            let on: Vec<Node> = mine.iter().copied().filter(|&n| s.get_all_resources(n).contains(&q)).collect();
            if on.is_empty() { continue; }
            let n = *r.pick(&on);
            let d = if r.chance(1, 2) { Direction::Outgoing } else { Direction::Incoming };
            let path: Vec<usize> = s.resource_path_iter(q, n, d).map(at).collect();
            let any = *r.pick(&mine);
            let port = |d| s.get_port(any, q, d).map_or(0, |p| p.index() + 1);
            paths.push(json!({"r": q.as_usize(), "n": at(n), "out": d == Direction::Outgoing, "path": path, "any": at(any), "pi": port(Direction::Incoming), "po": port(Direction::Outgoing), "start": s.is_resource_start(any, q)}));
        }
        let mut reach = vec![];
        let df: Vec<Node> = mine.iter().copied().filter(|&n| h.get_optype(n).dataflow_signature().is_some()).collect();
        for _ in 0..8 {
            if df.is_empty() { break; }
            let mut starts = vec![];
            for _ in 0..1 + r.below(2) { let n = *r.pick(&df); let k = h.get_optype(n).dataflow_signature().unwrap().output_count(); if k > 0 { starts.push((n, OutgoingPort::from(r.below(k)))); } }
            let mut ends = vec![];
            for _ in 0..1 + r.below(2) { let n = *r.pick(&df); for p in 0..h.get_optype(n).dataflow_signature().unwrap().input_count() { ends.push((n, IncomingPort::from(p))); } }
            let got = s.any_reachable_from(starts.iter().copied(), ends.iter().copied());
            let mut en: Vec<usize> = ends.iter().map(|(n, _)| at(*n)).collect(); en.dedup();
            reach.push(json!({"s": starts.iter().map(|(n, p)| json!([at(*n), p.index() + 1])).collect::<Vec<_>>(), "e": en, "got": got}));
        }
        json!({"id": id, "nodes": nodes, "order": order, "all": all, "paths": paths, "reach": reach})
    });
    match res { Ok(j) => j, Err(e) => json!({"id": id, "bad": e}) }
}
/// sub-circuits to look at: the whole region and random sets of its operations
pub fn subgraphs(r: &mut Rng, h: &Hugr, m: usize) -> Vec<SiblingSubgraph> {
    let mut v = vec![];
    if let Ok(Ok(s)) = guard(|| Circuit::new(h).subgraph()) { v.push(s); }
    let parent = h.entrypoint();
    let Some([inp, out]) = h.get_io(parent) else { return v };
    let kids: Vec<Node> = h.children(parent).filter(|&n| n != inp && n != out && !matches!(h.get_optype(n), OpType::FuncDefn(_))).collect();
    if kids.is_empty() { return v; }
    for _ in 0..m {
        let start = *r.pick(&kids);
        let mut set = vec![start];
        for _ in 0..r.below(kids.len()) {
            let near: Vec<Node> = set.iter().flat_map(|&n| h.all_neighbours(n).collect::<Vec<_>>()).filter(|n| kids.contains(n) && !set.contains(n)).collect();
            if near.is_empty() { break; }
            set.push(*r.pick(&near));
        }
        // constants come with the operations that load them
        for n in set.clone() { if let Some(p) = h.get_optype(n).static_input_port() { if let Some((m, _)) = h.single_linked_output(n, p) { if kids.contains(&m) && !set.contains(&m) { set.push(m); } } } }
        if let Ok(Ok(s)) = guard(|| SiblingSubgraph::try_from_nodes(set, h)) { v.push(s); }
    }
    v
}
fn cfgs() -> Vec<(&'static str, Cfg)> {
    let mut v = circ_cfgs();
    v.push(("alloc", Cfg { nq: 2, nb: 1, max_q: 6, meas: 12, stmts: 16, depth: 1, w: vec![("gate", 3), ("alloc", 4), ("free", 3), ("measfree", 2), ("mov", 2), ("if", 1), ("tryalloc", 1), ("bnew", 1), ("bunpack", 1), ("opaque", 2), ("call", 1)], funcs: 1, ..Cfg::default() }));
    v.push(("consts", Cfg { nq: 2, nf: 1, nd: 1, ni: 1, nb: 1, stmts: 18, depth: 1, w: vec![("gate", 4), ("cF", 2), ("cB", 2), ("cI", 2), ("farith", 3), ("radd", 3), ("r2f", 1), ("f2r", 1), ("iarith", 3), ("bool", 3), ("icmp", 1), ("if", 1), ("tuple", 2), ("res", 1), ("b2i", 1), ("call", 1)], funcs: 1, ..Cfg::default() }));
    v
}
pub fn c15(c: &mut Ctx) {
    let n = c.n(20, 300);
    let mut jobs = vec![];
    for (nm, cfg) in cfgs() { for k in 0..n { jobs.push((format!("{nm}-{k}"), random(seeds(c, k), &cfg), seeds(c, k))); } }
    let done = par(jobs, |(id, p, seed)| {
        let mut r = Rng::new(seed ^ 15);
        let mut h = p.build();
        let mut v = vec![];
        for (j, reg) in regions(&h).into_iter().enumerate() {
            h.set_entrypoint(reg);
            for (i, s) in subgraphs(&mut r, &h, 2).into_iter().enumerate() {
                let flow = *r.pick(&["", "", "exchange", "forget"]);
                v.push(scope_case(&mut r, format!("{id}.{j}.{i}{flow}"), &h, &s, flow));
            }
        }
        (id, serde_json::to_value(&p).unwrap(), v)
    });
    let mut cs = vec![];
    for (id, info, v) in done { c.infos.push((id, info)); cs.extend(v); }
    if let Ok(x) = std::env::var("VERIF_CASE") { cs.retain(|j| j["id"] == x.as_str()); }
    c.stat("scopes", cs.len());
    for (k, ch) in cs.chunks(200).enumerate() { c.write(&format!("ResourceTrace.{k}.json"), &json!({"cases": ch})); }
}

// ---------------------------------------------------------------- C16
use indexmap::IndexSet;
use tket::subcircuit::{CopyableExpr, Interval, InvalidInterval};

fn pure(h: &Hugr, n: Node) -> bool {
    h.get_optype(n).dataflow_signature().is_some_and(|s| s.input.iter().chain(s.output.iter()).all(|t| t.copyable()))
}
/// one scope with expressions asked of it; also the sub-circuits that can be cut out and put back
fn expr_case(r: &mut Rng, id: String, h: &Hugr, s: &ResourceScope<&Hugr>) -> (J, Vec<SiblingSubgraph>) {
    let parent = h.entrypoint();
    let [inp, out] = h.get_io(parent).unwrap();
    let kids: Vec<Node> = h.children(parent).filter(|&n| n != inp && n != out && !matches!(h.get_optype(n), OpType::FuncDefn(_))).collect();
    let all = topo(h, &kids);
    let at = |n: Node| all.iter().position(|&m| m == n).map_or(0, |k| k + 1);
    let mut nodes = vec![];
    for &n in &all {
        let op = h.get_optype(n);
        let sig = op.dataflow_signature().map(|s| s.into_owned()).unwrap_or_default();
        let ins: Vec<J> = (0..sig.input_count()).map(|p| { let (m, q) = h.single_linked_output(n, IncomingPort::from(p)).unwrap(); json!([at(m), q.index() + 1]) }).collect();
        let ext: Vec<bool> = (0..sig.output_count()).map(|p| h.linked_inputs(n, OutgoingPort::from(p)).any(|(m, _)| at(m) == 0)).collect();
        let mut pre: Vec<usize> = h.input_neighbours(n).map(at).filter(|&k| k > 0).collect();
        pre.sort(); pre.dedup();
        nodes.push(json!({"in": s.nodes().contains(&n), "pure": pure(h, n), "ins": ins, "ext": ext, "pre": pre, "call": matches!(op, OpType::Call(_) | OpType::LoadFunction(_))}));
    }
    let mut asks = vec![];
    let mut subs = vec![];
    let copy: Vec<(Node, usize)> = s.nodes().iter().flat_map(|&n| { let sig = h.get_optype(n).dataflow_signature().map(|s| s.into_owned()).unwrap_or_default(); sig.output.iter().enumerate().filter(|(_, t)| t.copyable()).map(|(p, _)| (n, p)).collect::<Vec<_>>() }).collect();
    for _ in 0..12.min(3 * copy.len()) {
        // prefer values with something behind them
        let mut o = *r.pick(&copy);
        for _ in 0..3 { if !pure(h, o.0) || h.get_optype(o.0).dataflow_signature().unwrap().input_count() == 0 { o = *r.pick(&copy); } }
        let mut allowed: IndexSet<(Node, IncomingPort)> = IndexSet::new();
        let mut excl: IndexSet<Node> = IndexSet::new();
        if r.chance(1, 2) { for _ in 0..1 + r.below(3) { let n = *r.pick(&all); let k = h.get_optype(n).dataflow_signature().map_or(0, |s| s.input_count()); if k > 0 { allowed.insert((n, IncomingPort::from(r.below(k)))); } } }
        if r.chance(1, 3) { for _ in 0..1 + r.below(3) { let n = *r.pick(&all); if n != o.0 || r.chance(1, 4) { excl.insert(n); } } }
        let res = guard(|| CopyableExpr::try_new((o.0, OutgoingPort::from(o.1)), allowed.clone(), excl.clone(), s));
        let mut a = json!({"o": [at(o.0), o.1 + 1], "allowed": allowed.iter().map(|(n, p)| json!([at(*n), p.index() + 1])).collect::<Vec<_>>(), "excl": excl.iter().map(|n| at(*n)).collect::<Vec<_>>()});
        let m = a.as_object_mut().unwrap();
        match res {
            Err(e) => { m.insert("kind".into(), json!("panic")); m.insert("why".into(), json!(e)); }
            Ok(Err(e)) => { m.insert("kind".into(), json!("error")); m.insert("why".into(), json!(e.to_string())); }
            Ok(Ok(e)) => match guard(|| (e.output(), e.as_subgraph().cloned())) {
                Err(e) => { m.insert("kind".into(), json!("panic")); m.insert("why".into(), json!(e)); }
                Ok(((n, p), None)) => { m.insert("kind".into(), json!("wire")); m.insert("w".into(), json!([at(n), p.index() + 1])); }
                Ok(((n, p), Some(g))) => {
                    m.insert("kind".into(), json!("sub"));
                    m.insert("w".into(), json!([at(n), p.index() + 1]));
                    m.insert("ins".into(), g.incoming_ports().iter().map(|v| v.iter().map(|(n, p)| json!([at(*n), p.index() + 1])).collect::<Vec<_>>()).collect());
                    m.insert("outs".into(), g.outgoing_ports().iter().map(|(n, p)| json!([at(*n), p.index() + 1])).collect());
                    m.insert("nodes".into(), g.nodes().iter().map(|n| at(*n)).collect());
                    m.insert("calls".into(), g.function_calls().iter().flatten().map(|(n, _)| at(*n)).collect());
                    // the dependency cannot cut out constants and nested regions, and forgets order edges
                    let plain = g.nodes().iter().all(|&n| {
                        h.get_optype(n).static_input_port().is_none() && h.children(n).next().is_none()
                            && h.output_neighbours(n).all(|m| h.get_parent(m) == Some(parent))
                            && h.node_outputs(n).all(|p| matches!(h.get_optype(n).port_kind(p), Some(EdgeKind::Value(_))) || h.linked_inputs(n, p).next().is_none())
                    });
                    if plain { subs.push(g); }
                }
            },
        }
        asks.push(a);
    }
    (json!({"id": id, "nodes": nodes, "asks": asks}), subs)
}
/// intervals on the resource paths of a scope
fn ivals(r: &mut Rng, at: &dyn Fn(Node) -> usize, s: &ResourceScope<&Hugr>, on: &[Node], m: usize) -> Vec<J> {
    let all: Vec<ResourceId> = { let mut v: Vec<_> = s.resources_iter().collect(); v.sort(); v.dedup(); v };
    if all.is_empty() || on.is_empty() { return vec![]; }
    let err = |e: &InvalidInterval<Node>| match e { InvalidInterval::NotContiguous(_) => "gap", InvalidInterval::NotOnResourcePath(_) => "off", InvalidInterval::StartAfterEnd(..) => "order" };
    (0..m).map(|_| {
        let q = *r.pick(&all);
        let path: Vec<Node> = on.iter().copied().filter(|&n| s.get_all_resources(n).contains(&q)).collect();
        let mut pick = |w: usize| if !path.is_empty() && r.chance(w, w + 1) { *r.pick(&path) } else { *r.pick(on) };
        let (a, b) = (pick(7), pick(7));
        let exts: Vec<Node> = (0..5).map(|_| pick(4)).collect();
        let single = r.chance(1, 4);
        let res = guard(|| {
            let describe = |i: &Interval<Node>| json!({"ns": s.nodes_in_interval(*i).map(at).collect::<Vec<_>>(), "s": at(i.start_node()), "e": at(i.end_node()), "r": i.resource_id(s).as_usize(),
                "ib": i.incoming_boundary_port(s).map_or(0, |(n, p)| if at(n) == at(i.start_node()) { p.index() + 1 } else { 999 }), "ob": i.outgoing_boundary_port(s).map_or(0, |(n, p)| if at(n) == at(i.end_node()) { p.index() + 1 } else { 999 })});
            let made = if single { Interval::new_singleton(q, a, s).ok_or(InvalidInterval::NotOnResourcePath(a)) } else { Interval::try_new(q, a, b, s) };
            match made {
                Err(e) => (json!({"err": err(&e)}), vec![]),
                Ok(mut i) => {
                    let first = describe(&i);
                    let steps = exts.iter().map(|&n| { let d = i.try_extend(n, s); json!({"n": at(n), "d": match d { Ok(None) => "in", Ok(Some(Direction::Incoming)) => "before", Ok(Some(Direction::Outgoing)) => "after", Err(e) => err(&e) }, "i": describe(&i)}) }).collect();
                    (first, steps)
                }
            }
        });
        let (first, steps) = res.unwrap_or_else(|e| (json!({"err": e}), vec![]));
        json!({"r": q.as_usize(), "a": at(a), "b": if single { at(a) } else { at(b) }, "first": first, "steps": steps})
    }).collect()
}
pub fn c16(c: &mut Ctx) {
    let n = c.n(24, 400);
    let mut jobs = vec![];
    let mut fs = cfgs();
    fs.push(("classic", Cfg { nq: 1, nf: 2, nd: 2, ni: 1, nb: 2, stmts: 18, depth: 0, w: vec![("gate", 2), ("farith", 6), ("fmul2", 1), ("radd", 4), ("r2f", 2), ("f2r", 2), ("iarith", 5), ("bool", 5), ("icmp", 2), ("tuple", 2), ("b2i", 2), ("meas", 1)], ..Cfg::default() }));
    fs.push(("classic2", Cfg { nq: 2, nf: 2, nb: 1, ni: 1, stmts: 14, depth: 1, w: vec![("gate", 3), ("farith", 5), ("radd", 4), ("iarith", 3), ("bool", 4), ("dfg", 2), ("if", 1), ("call", 2), ("tuple", 2), ("meas", 1)], funcs: 1, ..Cfg::default() }));
    for (nm, cfg) in fs { for k in 0..n { jobs.push((format!("{nm}-{k}"), random(seeds(c, k), &cfg), seeds(c, k))); } }
    let done = par(jobs, |(id, p, seed)| {
        let mut r = Rng::new(seed ^ 16);
        let h0 = p.build();
        let mut h = h0.clone();
        let (mut v, mut rs, mut eq) = (vec![], vec![], vec![]);
        for (j, reg) in regions(&h0).into_iter().enumerate() {
            h.set_entrypoint(reg);
            for (i, sub) in subgraphs(&mut r, &h, 1).into_iter().enumerate() {
                let cid = format!("{id}.{j}.{i}");
                let Ok(s) = guard(|| ResourceScope::new(&h, sub.clone())) else { continue };
                let (case, subs) = expr_case(&mut r, cid.clone(), &h, &s);
                v.push(case);
                let mine = topo(&h, sub.nodes());
                let at = |n: Node| mine.iter().position(|&m| m == n).map_or(0, |k| k + 1);
                let df: Vec<Node> = mine.iter().copied().filter(|&n| h.get_optype(n).dataflow_signature().is_some()).collect();
                let mut rc = scope_case(&mut r, cid.clone(), &h, &sub, "");
                let iv = ivals(&mut r, &at, &s, &df, 10);
                if let Some(o) = rc.as_object_mut() { o.insert("ivals".into(), json!(iv)); }
                rs.push(rc);
                for (m, g) in subs.into_iter().take(2).enumerate() {
                    let res = attempt(|| -> Result<Hugr, String> {
                        let cut = g.extract_subgraph(&h, "cut");
                        cut.validate().map_err(|e| format!("the extracted circuit is invalid: {e}"))?;
                        let mut h2 = h.clone();
                        let rw = g.create_simple_replacement(&h, cut).map_err(|e| e.to_string())?;
                        h2.apply_patch(rw).map_err(|e| e.to_string())?;
                        h2.set_entrypoint(h0.entrypoint());
                        Ok(h2)
                    });
                    eq.push((format!("{cid}.{m}"), side_or(res)));
                }
            }
        }
        (id, p, v, rs, eq)
    });
    let (mut xs, mut rs) = (vec![], vec![]);
    let only = std::env::var("VERIF_CASE").ok();
    for (id, p, v, r, eq) in done {
        c.infos.push((id.clone(), serde_json::to_value(&p).unwrap()));
        xs.extend(v);
        rs.extend(r);
        let seen: Vec<&(String, J)> = eq.iter().filter(|(i, _)| only.as_ref().is_none_or(|x| x == i)).collect();
        for (i, s) in seen.into_iter().take(c.n(2, 6)) { c.prog_case(i.clone(), "seq", &p, 1, vec![s.clone()]); }
    }
    if let Some(x) = &only { xs.retain(|j| j["id"] == x.as_str()); rs.retain(|j| j["id"] == x.as_str()); }
    c.stat("expressions", xs.iter().map(|x| x["asks"].as_array().unwrap().len()).sum());
    c.stat("sub-expressions", xs.iter().map(|x| x["asks"].as_array().unwrap().iter().filter(|a| a["kind"] == "sub").count()).sum());
    for (k, ch) in xs.chunks(120).enumerate() { c.write(&format!("ExprTrace.{k}.json"), &json!({"cases": ch})); }
    for (k, ch) in rs.chunks(120).enumerate() { c.write(&format!("ResourceTrace.{k}.json"), &json!({"cases": ch})); }
}
