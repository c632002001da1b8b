//! C17: circuit views; C10: chunks.
use crate::c_circuit::*;
use crate::ctx::*;
use crate::gen::*;
use crate::prog::Ty;
use hugr::extension::prelude::{bool_t, qb_t};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{OpParent, OpTrait, OpType};
use hugr::types::{Type, TypeEnum};
use hugr::{CircuitUnit, Hugr, HugrView, IncomingPort, Node, PortIndex};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::num::NonZeroUsize;
use tket::circuit::cost::{is_cx, is_quantum, CircuitCost, CostDelta, LexicographicCost};
use tket::Circuit;

/// an input value of a HUGR type, None if there is none we can make
pub fn value_of(t: &Type, k: usize) -> Option<J> {
    if *t == qb_t() { return Some(json!(["q"])); }
    if *t == bool_t() || *t == tket::extension::bool::bool_type() { return Some(json!(["s", k & 1, []])); }
    let s = t.to_string();
    if s.starts_with("int") || s.starts_with("usize") { return Some(json!(["i", (k % 3) as i64])); }
    if let TypeEnum::Extension(e) = t.as_type_enum() {
        if e.name() == "rotation" || e.name() == "float64" { return Some(json!(["f", 2 * k as i64 + 1, 16, 0])); }
        if e.name() == "borrow_array" || e.name() == "array" {
            let n = e.args()[0].as_nat()?;
            let el = e.args()[1].as_runtime()?;
            return Some(json!(["arr", (0..n as usize).map(|j| value_of(&el, j + k)).collect::<Option<Vec<_>>>()?]));
        }
    }
    if let TypeEnum::Sum(st) = t.as_type_enum() {
        let n = st.num_variants();
        if n == 0 { return None; }
        let v = st.get_variant(k % n)?;
        let vs: Option<Vec<J>> = v.iter().map(|x| Type::try_from(x.clone()).ok().and_then(|x| value_of(&x, k))).collect();
        return Some(json!(["s", k % n, vs?]));
    }
    None
}
pub fn inputs_of(h: &Hugr, region: Node, cap: usize) -> Option<Vec<Vec<J>>> {
    let sig = h.get_optype(region).inner_function_type()?.into_owned();
    (0..cap).map(|k| sig.input.iter().enumerate().map(|(j, t)| value_of(t, (k + 3 * k * j + j * k / 2) ^ (k * (j & 1)))).collect::<Option<Vec<_>>>()).collect()
}
const IGN: &[&str] = &["Noop", "MakeTuple", "UnpackTuple"];
fn view_case(id: String, h: &Hugr, root: Node, pick: u64) -> J {
    let order: Vec<Node> = h.descendants(h.module_root()).collect();
    let pos: HashMap<Node, usize> = order.iter().enumerate().map(|(i, n)| (*n, i + 1)).collect();
    let nodes: Vec<J> = order.iter().map(|n| {
        let op = h.get_optype(*n);
        let (ext, ign, name) = match op {
            OpType::ExtensionOp(e) => (true, e.def().extension_id().to_string() == "prelude" && IGN.contains(&e.def().name().as_str()), if e.def().extension_id().to_string() == "tket.quantum" { e.def().name().to_string() } else { String::new() }),
            OpType::OpaqueOp(e) => (true, e.extension().to_string() == "prelude" && IGN.contains(&e.unqualified_id().as_str()), String::new()),
            _ => (false, false, String::new()),
        };
        // quantum operations of the instruction set: everything but the symbolic angle
        let qu = !name.is_empty() && name != "symbolic_angle" && crate::c_view::quantum_name(&name);
        json!({"p": h.get_parent(*n).and_then(|p| pos.get(&p).copied()).unwrap_or(0), "ext": ext, "ign": ign, "tk": name, "qu": qu, "io": matches!(op, OpType::Input(_) | OpType::Output(_))})
    }).collect();
    let sig = h.get_optype(root).inner_function_type().unwrap().into_owned();
    let ifc: Vec<J> = sig.input.iter().map(|t| json!({"t": t.to_string(), "lin": !t.copyable(), "q": *t == qb_t()})).collect();
    let name = match h.get_optype(root) { OpType::FuncDefn(f) => f.func_name().clone(), _ => String::new() };
    let chosen: Vec<Node> = order.iter().enumerate().filter(|(i, _)| (pick >> (i % 61)) & 1 == 1).map(|x| *x.1).collect();
    let mut h2 = h.clone();
    h2.set_entrypoint(root);
    let inp = h2.children(root).next().unwrap();
    let ju = |u: CircuitUnit, p: usize, t: &Type| match u {
        CircuitUnit::Linear(k) => json!(["L", k, p, t.to_string()]),
        CircuitUnit::Wire(w) => json!(["W", if w.node() == inp { w.source().index() as i64 } else { -1 }, p, t.to_string()]),
    };
    let rep = guard(|| {
        let c = Circuit::try_new(&h2).map_err(|e| e.to_string()).unwrap();
        let units: Vec<J> = c.units().map(|(u, p, t)| ju(u, p.index(), &t)).collect();
        let lin: Vec<J> = c.linear_units().map(|(u, p, t)| ju(u.into(), p.index(), &t)).collect();
        let nonlin: Vec<J> = c.nonlinear_units().map(|(w, p, t)| ju(CircuitUnit::Wire(w), p.index(), &t)).collect();
        let qubits: Vec<J> = c.qubits().map(|(u, p, t)| ju(u.into(), p.index(), &t)).collect();
        let f = |o: &OpType| LexicographicCost::from([is_cx(o) as usize, is_quantum(o) as usize]);
        let arr = |l: LexicographicCost<usize, 2>| -> J { serde_json::from_str(&format!("{l:?}")).unwrap() };
        let cost = arr(c.circuit_cost(f));
        let qcost: usize = c.circuit_cost(|o| is_quantum(o) as usize);
        let sub = arr(c.nodes_cost(chosen.iter().copied(), f));
        let top: Vec<usize> = c.operations().map(|m| pos[&m.node()]).collect();
        let owned: Vec<String> = vec![c.to_owned().circuit_signature().to_string(), c.extract_dfg().unwrap().circuit_signature().to_string()];
        let sn = if h2.children(root).count() > 2 { c.subgraph().map(|s| s.node_count() as i64).unwrap_or(-1) } else { -1 };
        json!({"num": c.num_operations(), "units": units, "lin": lin, "nonlin": nonlin, "qubits": qubits, "nq": c.qubit_count(), "cost": cost, "qcost": qcost, "sub": sub,
            "top": top, "sig": c.circuit_signature().to_string(), "name": c.name().unwrap_or(""), "owned": owned, "snodes": sn})
    });
    let chosen: Vec<usize> = chosen.iter().map(|n| pos[n]).collect();
    let mut j = json!({"id": id, "nodes": nodes, "root": pos[&root], "ifc": ifc, "chosen": chosen, "sig": sig.to_string(), "name": name});
    match rep { Ok(r) => j["rep"] = r, Err(e) => j["bad"] = json!(e) }
    j
}
pub fn quantum_name(n: &str) -> bool {
    // TketOp::is_quantum: gates acting unitarily on qubits, and resets/allocations/measurements are operations on qubits that are not gates
    matches!(n, "H" | "X" | "Y" | "Z" | "S" | "Sdg" | "T" | "Tdg" | "V" | "Vdg" | "CX" | "CY" | "CZ" | "CRz" | "Rx" | "Ry" | "Rz" | "Toffoli")
}
pub fn c17(c: &mut Ctx) {
    let n = c.n(10, 250);
    let mut vs = vec![];
    let mut info = vec![];
    let mut cfgs = circ_cfgs();
    let b = base_cfg();
    cfgs.push(("deep", Cfg { nq: 3, nb: 1, nf: 1, ni: 1, stmts: 9, depth: 3, inner: 3, funcs: 1, cfgs: true, w: vec![("gate", 8), ("if", 3), ("dfg", 3), ("loop", 2), ("meas", 1), ("call", 1), ("tuple", 2), ("noop", 2), ("bool", 1), ("cF", 1), ("radd", 1), ("tbool", 1), ("tuple2", 1)], ..b.clone() }));
    cfgs.push(("mixed", Cfg { nq: 2, nb: 2, nf: 1, nd: 1, ni: 1, nt: 1, arrays: vec![Ty::AQ(2), Ty::SB(2)], max_q: 5, stmts: 9, depth: 1, w: vec![("gate", 8), ("if", 2), ("dfg", 2), ("borrow", 2), ("aget", 1), ("tbool", 1), ("iarith", 1), ("farith", 1), ("noop", 1), ("tuple", 1)], ..b.clone() }));
    for (nm, cfg) in cfgs {
        for k in 0..n {
            let p = random(seeds(c, k), &cfg);
            let h = p.build();
            info.push((format!("{nm}-{k}"), serde_json::to_value(&p).unwrap()));
            let mut r = crate::rng::Rng::new(seeds(c, k) ^ 0x77);
            for (j, reg) in regions(&h).into_iter().enumerate() {
                let id = format!("{nm}-{k}.{j}");
                vs.push(view_case(id.clone(), &h, reg, r.next()));
                // computation of the region after taking ownership
                if cfg.nl || j % 3 != k % 3 { continue; }
                let Some(inputs) = inputs_of(&h, reg, 2) else { continue };
                let mut h2 = h.clone();
                h2.set_entrypoint(reg);
                let a = side_or(guard(|| Circuit::new(&h2).to_owned().into_hugr()));
                let b = side_or(attempt(|| Circuit::new(&h2).extract_dfg().map(|c| c.into_hugr())));
                c.case(format!("own-{id}"), "seq", vec![], inputs, vec![side_at(&h, reg), a, b], json!({"prog": p, "region": j}));
            }
        }
    }
    for (k, ch) in vs.chunks(120).enumerate() { c.write(&format!("ViewTrace.{k}.json"), &json!({"cases": ch})); }
    c.infos.extend(info);
    // cost algebra
    let mut r = crate::rng::Rng::new(c.seed);
    let mut cases = vec![];
    fn e1(a: usize, b: usize, n: usize) -> J {
        let s = a.sub_cost(&b);
        json!({"a": [a], "b": [b], "n": n, "add": [a + b], "sub": [s], "back": [b.add_delta(&s)], "down": [a.add_delta(&b.sub_cost(&a))], "div": [a.div_cost(NonZeroUsize::new(n).unwrap())],
            "cmp": a.cmp(&b) as i8, "sum": [(vec![a, b, a].into_iter().sum::<usize>())], "dsum": [(vec![s, s].into_iter().sum::<isize>())], "usz": a.as_usize(), "dsz": s.as_isize()})
    }
    fn en<const N: usize>(a: [usize; N], b: [usize; N], n: usize) -> J {
        let (x, y) = (LexicographicCost::from(a), LexicographicCost::from(b));
        let v = |l: &dyn std::fmt::Debug| -> J { serde_json::from_str(&format!("{l:?}")).unwrap() };
        let s = x.sub_cost(&y);
        let mut ds = s; ds += s;
        let mut xs = x; xs += y; 
        let add = if r_even(a[0]) { v(&(x + y)) } else { v(&xs) };
        json!({"a": v(&x), "b": v(&y), "n": n, "add": add, "sub": v(&s), "back": v(&y.add_delta(&s)), "down": v(&x.add_delta(&y.sub_cost(&x))), "div": v(&x.div_cost(NonZeroUsize::new(n).unwrap())),
            "cmp": x.cmp(&y) as i8, "sum": v(&[x, y, x].into_iter().sum::<LexicographicCost<usize, N>>()), "dsum": if r_even(n) { v(&[s, s].into_iter().sum::<LexicographicCost<isize, N>>()) } else { v(&ds) },
            "usz": x.as_usize(), "dsz": s.as_isize()})
    }
    fn r_even(x: usize) -> bool { x % 2 == 0 }
    let m = if c.thorough { 9 } else { 5 };
    for n in 1..=5usize {
        cases.push(json!({"id": format!("usize-{n}"), "evals": (0..2 * m).flat_map(|a| (0..2 * m).map(move |b| e1(a, b, n))).collect::<Vec<_>>()}));
        let mut v = vec![];
        for a in 0..m { for b in 0..m { for x in 0..m { for y in 0..m { v.push(en([a, b], [x, y], n)); } } } }
        cases.push(json!({"id": format!("pair-{n}"), "evals": v}));
        let t: Vec<J> = (0..400).map(|_| { let mut q = || r.below(if n > 3 { 3 } else { 50 }); en([q(), q(), q()], [q(), q(), q()], n) }).collect();
        cases.push(json!({"id": format!("triple-{n}"), "evals": t}));
    }
    c.write("CostAlgebra.0.json", &json!({"cases": cases}));
}

// ---------------------------------------------------------------- C10
use tket::passes::CircuitChunks;
/// replaces pairs of self-inverse gates and no-ops by wires: an equivalent circuit, possibly with trivial wires
pub fn simplify(h: &mut Hugr, r: &mut crate::rng::Rng) -> usize {
    let mut n = 0;
    loop {
        let root = h.entrypoint();
        let kids: Vec<Node> = h.children(root).collect();
        let mut done = true;
        for k in kids {
            let name = h.get_optype(k).to_string();
            let bypass = |h: &mut Hugr, a: Node, b: Node| {
                let w = h.get_optype(a).dataflow_signature().unwrap().input_count();
                let src: Vec<_> = (0..w).map(|p| h.single_linked_output(a, IncomingPort::from(p)).unwrap()).collect();
                let dst: Vec<Vec<_>> = (0..w).map(|p| h.linked_inputs(b, p).collect()).collect();
                h.remove_node(a);
                if a != b { h.remove_node(b); }
                for (s, ds) in src.iter().zip(dst) { for d in ds { h.connect(s.0, s.1, d.0, d.1); } }
            };
            if name == "prelude.Noop" || name.starts_with("prelude.Noop") {
                bypass(h, k, k); n += 1; done = false; break;
            }
            let short = name.rsplit('.').next().unwrap_or("").to_string();
            if matches!(short.as_str(), "H" | "X" | "Y" | "Z" | "CX" | "CZ" | "CY" | "Not") && !r.chance(1, 10) {
                let w = h.get_optype(k).dataflow_signature().unwrap().input_count();
                let t: Vec<_> = (0..w).map(|p| h.linked_inputs(k, p).collect::<Vec<_>>()).collect();
                if t.iter().all(|x| x.len() == 1) && t.iter().enumerate().all(|(i, x)| x[0].0 == t[0][0].0 && x[0].1.index() == i) && h.get_optype(t[0][0].0).to_string() == name {
                    bypass(h, k, t[0][0].0); n += 1; done = false; break;
                }
            }
        }
        if done { return n; }
    }
}
pub fn c10(c: &mut Ctx) {
    let n = c.n(24, 500);
    let b = base_cfg();
    let pairs = vec!["H", "H", "X", "CX", "CX", "CX", "CZ", "CZ", "T", "Rz", "Z"];
    let cfgs = vec![
        ("gates", Cfg { nq: 3, nf: 1, stmts: 14, w: vec![("gate", 12), ("twice", 4), ("mov", 1)], ..b.clone() }),
        ("pairs", Cfg { nq: 3, stmts: 14, w: vec![("gate", 3), ("twice", 8), ("noop", 2)], gates: pairs.clone(), ..b.clone() }),
        ("class", Cfg { nq: 2, nb: 2, nf: 1, stmts: 16, w: vec![("gate", 4), ("twice", 3), ("noop", 4), ("meas", 2), ("bool", 3), ("if", 1), ("radd", 1), ("f2r", 0)], depth: 1, gates: pairs.clone(), ..b.clone() }),
        ("consts", Cfg { nq: 2, nb: 1, nf: 1, nd: 1, stmts: 16, w: vec![("gate", 5), ("twice", 2), ("cF", 2), ("cB", 1), ("bool", 1), ("radd", 2), ("farith", 1), ("noop", 2), ("tuple", 1), ("tuple2", 1)], ..b.clone() }),
        ("alloc", Cfg { nq: 2, nb: 1, max_q: 4, stmts: 14, depth: 1, w: vec![("gate", 8), ("twice", 3), ("alloc", 2), ("free", 2), ("measfree", 1), ("opaque", 2), ("dfg", 1), ("if", 1), ("reset", 1)], ..b.clone() }),
        ("fan", Cfg { nq: 1, nb: 2, nf: 0, stmts: 10, w: vec![("gate", 1), ("noop", 8), ("meas", 1), ("bool", 2)], ..b.clone() }),
    ];
    let mut ts = vec![];
    for (nm, cfg) in cfgs {
        for k in 0..n {
            let p = random(seeds(c, k), &cfg);
            let h = p.build();
            let mut r = crate::rng::Rng::new(seeds(c, k) ^ 0x1234);
            let size = 1 + r.below(6);
            let lex = r.chance(1, 3);
            let general = r.chance(1, 3);
            let cost = |o: &OpType| -> usize { if general { if is_quantum(o) { 1 + o.dataflow_signature().unwrap().input_count() } else { 0 } } else { 1 } };
            let split = |h: &Hugr| {
                let circ = Circuit::new(h.clone());
                if lex { CircuitChunks::split_with_cost(&circ, LexicographicCost::from([size, 0]), |o| LexicographicCost::from([cost(o), 1usize])) }
                else if general { CircuitChunks::split_with_cost(&circ, size, cost) }
                else { CircuitChunks::split(&circ, size) }
            };
            let ops = |h: &Hugr, root: Node| -> Vec<J> { h.children(root).filter(|n| !matches!(h.get_optype(*n), OpType::Input(_) | OpType::Output(_) | OpType::Const(_)) && !(matches!(h.get_optype(*n), OpType::LoadConstant(_)) && h.output_neighbours(*n).next().is_none())).map(|n| { let o = h.get_optype(n); json!([o.to_string(), cost(o)]) }).collect() };
            // dead constants may be dropped, constants are duplicated into chunks
            let id = format!("{nm}-{k}");
            let sig = Circuit::new(&h).circuit_signature().to_string();
            match guard(|| split(&h)) {
                Err(e) => { ts.push(json!({"id": format!("split-{id}"), "bad": e})); c.prog_case(id, "seq", &p, 2, vec![bad("split failed")]); continue; }
                Ok(ch) => {
                    let chunks: Vec<J> = ch.iter().map(|x| json!(ops(x.hugr(), x.parent()))).collect();
                    let nd: Vec<bool> = ch.iter().map(|x| x.hugr().validate().is_ok()).collect();
                    ts.push(json!({"id": format!("split-{id}"), "ops": ops(&h, h.entrypoint()), "max": size, "chunks": chunks, "valid": nd, "len": ch.len()}));
                    c.infos.push((format!("split-{id}"), serde_json::to_value(&p).unwrap()));
                    let fin = |ch: CircuitChunks| -> J {
                        match attempt(|| ch.reassemble()) {
                            Err(e) => bad(e),
                            Ok(x) => if x.circuit_signature().to_string() != sig { bad("signature changed") } else { side(x.hugr()) }
                        }
                    };
                    let same = fin(ch.clone());
                    // chunks replaced by equivalent ones
                    let mut ch2 = ch.clone();
                    let mut cnt = 0;
                    for x in ch2.iter_mut() { if !r.chance(1, 4) { cnt += simplify(x.hugr_mut(), &mut r); } }
                    c.stat("simplified", cnt);
                    let simp = fin(ch2);
                    let mut ch3 = ch.clone();
                    for x in 0..ch3.len() { let _ = guard(|| tket::passes::apply_greedy_commutation(&mut ch3[x])); }
                    let comm = fin(ch3);
                    c.prog_case(id, "seq", &p, 2, vec![same, simp, comm]);
                }
            }
        }
    }
    for (k, x) in ts.chunks(150).enumerate() { c.write(&format!("Partition.{k}.json"), &json!({"cases": x})); }
}
