//! Checks of circuit-level passes and views.
use crate::ctx::*;
use crate::gen::*;
use crate::prog::*;
use hugr::{Hugr, HugrView};
use tket::Circuit;

/// sorted multiset of operations in the whole HUGR
pub fn op_bag(h: &Hugr) -> Vec<String> {
    let mut v: Vec<String> = h.descendants(h.module_root()).map(|n| h.get_optype(n).to_string()).collect();
    v.sort();
    v
}
pub fn base_cfg() -> Cfg { Cfg::default() }
pub fn circ_cfgs() -> Vec<(&'static str, Cfg)> {
    let c = base_cfg();
    vec![
        ("gates", Cfg { nq: 4, stmts: 14, w: vec![("gate", 12), ("mov", 1)], nf: 1, ..c.clone() }),
        ("cliff", Cfg { nq: 4, stmts: 16, gates: vec!["H", "X", "Z", "S", "CX", "CX", "CX", "CZ", "T", "Rz"], angle: 256, ..c.clone() }),
        ("reset", Cfg { nq: 4, stmts: 14, w: vec![("gate", 12), ("reset", 2), ("alloc", 1), ("free", 1), ("meas", 1)], gates: vec!["CX", "CX", "CZ", "H", "X", "Z", "V", "Rz"], angle: 256, ..c.clone() }),
        ("meas", Cfg { nq: 3, nb: 1, nf: 1, stmts: 12, w: vec![("gate", 12), ("meas", 2), ("measfree", 1), ("reset", 1), ("alloc", 2), ("free", 1), ("bool", 1), ("mov", 1)], ..c.clone() }),
        ("opaque", Cfg { nq: 3, nb: 1, stmts: 12, w: vec![("gate", 12), ("opaque", 4), ("noop", 1), ("barrier", 1)], ..c.clone() }),
        ("nested", Cfg { nq: 3, nb: 1, nf: 1, stmts: 10, depth: 2, w: vec![("gate", 12), ("if", 2), ("dfg", 2), ("meas", 1), ("loop", 1), ("alloc", 1), ("bool", 1), ("cF", 1), ("radd", 1)], nl: true, ..c.clone() }),
        ("arrays", Cfg { nq: 3, arrays: vec![Ty::AQ(2)], nt: 1, max_q: 5, stmts: 10, w: vec![("gate", 12), ("borrow", 2), ("bswap", 1), ("tbool", 1), ("meas", 1), ("tuple", 1)], ..c.clone() }),
        ("feed", Cfg { nq: 3, nb: 1, nf: 1, nd: 1, stmts: 14, w: vec![("gate", 14), ("meas", 3), ("f2r", 1), ("farith", 1), ("radd", 1), ("if", 3), ("cF", 1)], depth: 1, gates: vec!["Rz", "Rz", "Rx", "CX", "CX", "CZ", "H"], ..c.clone() }),
    ]
}
pub fn seeds(c: &Ctx, k: usize) -> u64 { c.seed.wrapping_mul(1_000_003).wrapping_add(k as u64) }

pub fn c09(c: &mut Ctx) {
    let n = c.n(40, 800);
    let mut ps: Vec<(String, Prog)> = vec![];
    for (nm, cfg) in circ_cfgs() { for k in 0..n { ps.push((format!("{nm}-{k}"), random(seeds(c, k), &cfg))); } }
    let m = 100000;
    for (k, p) in crate::c_pass::sample_programs(c, "pairs", m) { ps.push((format!("pairs-{k}"), p)); }
    for (id, p) in ps {
        let h = p.build();
        let before = op_bag(&h);
        let r = attempt(|| {
            let mut circ = Circuit::new(h.clone());
            tket::passes::apply_greedy_commutation(&mut circ).map(|n| (n, circ.into_hugr()))
        });
        let s = match r {
            Err(e) => bad(e),
            Ok((m, h2)) => {
                c.stat("commuted", m as usize);
                if m == 0 && id.starts_with("pairs") { continue; }
                if op_bag(&h2) != before { bad("the multiset of operations changed") } else { side(&h2) }
            }
        };
        c.prog_case(id, "seq", &p, 2, vec![s]);
    }
}

// ---------------------------------------------------------------- C11
use hugr::ops::{OpTag, OpTrait, OpType};
use hugr::types::Type;
use hugr::{CircuitUnit, IncomingPort, Node, PortIndex};
use serde_json::{json, Value as J};
use std::collections::HashMap;

fn lin(t: &Type) -> bool { !t.copyable() }
fn nid(n: Node) -> usize { use hugr_core::NodeIndex; n.index() }

/// wire number of (node, output port), stable per case
pub struct Wires(pub HashMap<(Node, usize), usize>);
impl Wires { pub fn w(&mut self, n: Node, p: usize) -> usize { let k = self.0.len() + 1; *self.0.entry((n, p)).or_insert(k) } }

fn const_type(h: &Hugr, n: Node) -> Option<Type> { match h.get_optype(n) { OpType::Const(c) => Some(c.get_type()), OpType::LoadConstant(c) => Some(c.constant_type().clone()), _ => None } }

/// the graph of the region below `parent` as CommandTrace.tla reads it
fn region_graph(h: &Hugr, parent: Node, w: &mut Wires) -> Vec<J> {
    let mut v = vec![];
    for n in h.children(parent) {
        let op = h.get_optype(n);
        if matches!(op.tag(), OpTag::Input | OpTag::Output) { continue; }
        let sig = op.dataflow_signature().map(|s| s.into_owned()).unwrap_or_default();
        let mut i: Vec<J> = sig.input.iter().enumerate().map(|(p, t)| {
            let src = h.linked_outputs(n, IncomingPort::from(p)).next().map(|(m, q)| w.w(m, q.index())).unwrap_or(0);
            json!({"w": src, "lin": lin(t)})
        }).collect();
        let mut o: Vec<J> = sig.output.iter().enumerate().map(|(p, t)| json!({"w": w.w(n, p), "lin": lin(t)})).collect();
        // constants are units too
        if let (OpType::LoadConstant(_), Some(_)) = (op, const_type(h, n)) {
            let (m, q) = h.linked_outputs(n, IncomingPort::from(0)).next().unwrap();
            i.push(json!({"w": w.w(m, q.index()), "lin": false}));
        }
        if let OpType::Const(_) = op { o.push(json!({"w": w.w(n, 0), "lin": false})); }
        let pre: Vec<usize> = h.input_neighbours(n).map(nid).collect();
        let konst = matches!(op.tag(), OpTag::Const | OpTag::LoadConst);
        let dead = konst && h.output_neighbours(n).all(|m| match h.get_optype(m) { OpType::LoadConstant(_) => h.output_neighbours(m).next().is_none(), _ => false });
        v.push(json!({"id": nid(n), "p": pre, "i": i, "o": o, "dead": dead}));
    }
    v
}
fn junit(w: &mut Wires, u: CircuitUnit) -> J {
    match u { CircuitUnit::Linear(k) => json!(["L", k]), CircuitUnit::Wire(x) => json!(["W", w.w(x.node(), x.source().index())]) }
}
pub fn command_case(id: String, h: &Hugr) -> J {
    let mut w = Wires(HashMap::new());
    let circ = Circuit::new(h);
    let nodes = region_graph(h, circ.parent(), &mut w);
    let inp = circ.input_node();
    let r = guard(|| {
        let start: Vec<J> = circ.linear_units().map(|(u, p, _)| json!([w.w(inp, p.index()), u.index()])).collect();
        let mut it = circ.commands();
        let mut cmds = vec![];
        loop {
            let hint = it.size_hint().1.unwrap_or(usize::MAX).min(1 << 20);
            let Some(cmd) = it.next() else { break };
            let i: Vec<J> = cmd.inputs().map(|(u, _, _)| junit(&mut w, u)).collect();
            let o: Vec<J> = cmd.outputs().map(|(u, _, _)| junit(&mut w, u)).collect();
            cmds.push(json!({"n": nid(cmd.node()), "i": i, "o": o, "hint": hint}));
        }
        (start, cmds)
    });
    match r {
        Ok((start, cmds)) => json!({"id": id, "nodes": nodes, "start": start, "cmds": cmds}),
        Err(e) => json!({"id": id, "nodes": nodes, "start": [], "cmds": [], "bad": e}),
    }
}
/// all dataflow regions of a HUGR that can be viewed as circuits
pub fn regions(h: &Hugr) -> Vec<Node> {
    h.descendants(h.module_root()).filter(|n| match h.get_optype(*n) {
        OpType::FuncDefn(f) => f.signature().params().is_empty(),
        OpType::DFG(_) | OpType::Case(_) | OpType::TailLoop(_) | OpType::DataflowBlock(_) => true,
        _ => false,
    }).collect()
}
pub fn c11(c: &mut Ctx) {
    let n = c.n(25, 500);
    let mut cs = vec![];
    let mut info = vec![];
    let mut cfgs = circ_cfgs();
    cfgs.push(("alloc", Cfg { nq: 2, nb: 1, max_q: 6, meas: 12, stmts: 16, depth: 1, w: vec![("gate", 3), ("alloc", 4), ("free", 3), ("measfree", 2), ("mov", 2), ("if", 1), ("tryalloc", 1), ("bnew", 1), ("bunpack", 1), ("opaque", 2), ("call", 1)], funcs: 1, ..base_cfg() }));
    cfgs.push(("consts", Cfg { nq: 2, nf: 1, nd: 1, ni: 1, nb: 1, stmts: 18, depth: 1, w: vec![("gate", 4), ("cF", 2), ("cB", 2), ("cI", 2), ("farith", 2), ("radd", 2), ("iarith", 2), ("bool", 2), ("icmp", 1), ("if", 1), ("tuple", 1), ("res", 1), ("b2i", 1)], ..base_cfg() }));
    for (nm, cfg) in cfgs {
        for k in 0..n {
            let p = random(seeds(c, k), &cfg);
            let mut h = p.build();
            info.push((format!("{nm}-{k}"), serde_json::to_value(&p).unwrap()));
            for (j, r) in regions(&h).into_iter().enumerate() {
                use hugr::hugr::hugrmut::HugrMut;
                h.set_entrypoint(r);
                cs.push(command_case(format!("{nm}-{k}.{j}"), &h));
            }
        }
    }
    for (k, ch) in cs.chunks(150).enumerate() { c.write(&format!("CommandTrace.{k}.json"), &json!({"cases": ch})); }
    c.infos.extend(info);
}
