//! C30-C34: compilation to the hardware instruction set.
use crate::c_circuit::*;
use crate::c_pass::{run, sig};
use crate::ctx::*;
use crate::gen::*;
use crate::prog::*;
use hugr::algorithms::ComposablePass;
use hugr::builder::{Container, Dataflow, DataflowHugr, FunctionBuilder, HugrBuilder};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{OpTag, OpTrait, OpType};
use hugr::types::Signature;
use hugr::{Hugr, HugrView, IncomingPort, Node, PortIndex, Wire};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use tket::TketOp;
use tket_qsystem::extension::qsystem::{lower_tk2_op, LowerTketToQSystemPass, QSystemOpBuilder};
use tket_qsystem::replace_bools::ReplaceBoolPass;
use tket_qsystem::QSystemPass;

/// (constant folding, monomorphisation, forced order, lazification)
pub fn qpass(m: usize) -> QSystemPass {
    QSystemPass::default().with_constant_fold(m & 1 != 0).with_monormophize(m & 2 != 0).with_force_order(m & 4 != 0).with_lazify(m & 8 != 0)
}
pub fn compile(h: &Hugr, m: usize) -> Result<Hugr, String> {
    let mut h = h.clone();
    let before = sig(&h);
    let name = entry_name(&h);
    // the entry point may also be given as the function "main" of the module
    if m & 16 != 0 { h.set_entrypoint(h.module_root()); }
    attempt(|| qpass(m).run(&mut h))?;
    if sig(&h) != before && !before.contains("tket.bool") && !before.contains("bool") { return Err(format!("entry point signature changed from {before} to {}", sig(&h))); }
    if entry_name(&h) != name { return Err(format!("entry point changed from {name} to {}", entry_name(&h))); }
    Ok(h)
}
fn entry_name(h: &Hugr) -> String { h.get_optype(h.entrypoint()).as_func_defn().map(|f| f.func_name().to_string()).unwrap_or_else(|| h.entrypoint_optype().to_string()) }
/// a side in which operations of the listed extensions (`ext.name` prefixes) must not be left
pub fn side_without(h: Result<Hugr, String>, forbid: &[&str]) -> J {
    let mut j = side_or(h);
    if j.get("bad").is_none() { j["forbid"] = json!(forbid); }
    j
}
fn sys_w() -> Vec<(&'static str, usize)> {
    vec![("gate", 8), ("alloc", 2), ("free", 1), ("meas", 1), ("measfree", 2), ("reset", 1), ("tbool", 1), ("opq", 1), ("read", 1), ("bool", 1), ("if", 2), ("res", 2)]
}
pub fn sys_cfgs() -> Vec<(&'static str, Cfg)> {
    let b = Cfg { gates: vec!["H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg", "CX", "CY", "CZ", "Rx", "Ry", "Rz", "CRz", "Toffoli"], ..base_cfg() };
    vec![
        ("flat", Cfg { nq: 3, nf: 1, nb: 1, stmts: 12, w: sys_w(), ..b.clone() }),
        ("flow", Cfg { nq: 2, nb: 2, ni: 1, stmts: 8, depth: 2, funcs: 2, cfgs: true, ind: true, w: [sys_w(), vec![("loop", 2), ("dfg", 2), ("call", 4), ("panic", 1), ("cT", 1), ("exit", 1)]].concat(), ..b.clone() }),
        ("arr", Cfg { nq: 2, nb: 1, arrays: vec![Ty::AQ(2), Ty::SQ(2)], max_q: 6, stmts: 8, depth: 1, w: vec![("gate", 5), ("borrow", 4), ("bswap", 1), ("aswap", 1), ("bnew", 1), ("anew", 1), ("bunpack", 1), ("aunpack", 1), ("aget", 1), ("bget", 1), ("tbool", 1), ("meas", 1), ("measfree", 1), ("if", 2), ("tuple", 1), ("sbar", 1), ("res", 1)], ..b.clone() }),
        ("clas", Cfg { nq: 2, nf: 1, nd: 1, ni: 1, nb: 1, stmts: 12, depth: 1, w: vec![("gate", 6), ("cF", 1), ("cD", 1), ("cI", 1), ("radd", 2), ("f2r", 2), ("f2ro", 1), ("r2f", 1), ("farith", 2), ("fmul2", 1), ("flt", 1), ("iarith", 1), ("icmp", 1), ("b2i", 1), ("measfree", 1), ("if", 2), ("loop", 1), ("res", 2), ("sget", 1), ("noop", 1), ("barrier", 1)], cfgs: true, ..b.clone() }),
        ("sys", Cfg { nq: 3, nb: 1, stmts: 10, depth: 1, w: vec![("gate", 5), ("sysg", 4), ("sysm", 2), ("measfree", 1), ("alloc", 1), ("tryalloc", 1), ("tbool", 2), ("read", 1), ("sbar", 2), ("if", 2), ("res", 2), ("opaque", 1), ("gphase", 0)], ..b.clone() }),
    ]
}
const NATIVE: &[&str] = &["tket.quantum."];
const LAZY: &[&str] = &["tket.quantum.", "tket.bool.", "tket.qsystem.Measure", "tket.qsystem.MeasureReset", "tket.guppy.drop"];

pub fn c30(c: &mut Ctx) {
    let n = c.n(40, 900);
    for (nm, cfg) in sys_cfgs() {
        for k in 0..n {
            let ends = k % 3 == 0;
            let mut p = random(seeds(c, k), &Cfg { ends, ..cfg.clone() });
            let mut r = crate::rng::Rng::new(c.seed ^ (k as u64) << 8);
            if r.chance(1, 2) { let l = p.funcs.len() - 1; for (i, f) in p.funcs[..l].iter_mut().enumerate() { f.name = format!("{}{}", ["domain", "main.1", "Main", "main_", "mod.main", ""][(r.below(6) + i) % 6], if i < 6 { String::new() } else { i.to_string() }); } }
            // constant folding removes operations that nothing orders before the end of their region
            let keep = if ends { 15 } else { 14 };
            let m = r.below(16) & keep;
            // without Guppy's ordering edges the relative order of results and panics is only fixed along the chain of results
            c.job(format!("{nm}-{k}"), if ends { "seq" } else { "bagnp" }, p, 2, move |h|
                [14, m | 16, (m ^ 9) & keep].into_iter().map(|m| side_without(compile(h, m), if m & 8 != 0 { LAZY } else { NATIVE })).collect());
        }
    }
}

// ---------------------------------------------------------------- C31
fn angles(c: &Ctx) -> Vec<i64> {
    let step = c.n(256, 16);
    let mut v: Vec<i64> = (-4096i64..4096).step_by(step).collect();
    let mut r = crate::rng::Rng::new(c.seed);
    for _ in 0..c.n(8, 200) { v.push(r.below(8192) as i64 - 4096); }
    v
}
fn gate_prog(g: &str, order: &[usize], nq: usize, wrap: usize) -> Prog {
    let (n, a) = gate_sig(g);
    let _ = n;
    let mut vars = vec![Ty::Q; nq];
    vars.push(Ty::B);
    if a == 1 { vars.push(Ty::F); }
    let b = nq;
    let mut i: Vec<usize> = order.to_vec();
    if a == 1 { i.push(nq + 1); }
    let gate = || op(g, &i, order);
    let body = match wrap {
        0 => vec![gate()],
        1 => vec![S::If { c: b, t: vec![gate()], e: vec![], cfg: false, nl: false }],
        _ => vec![gate(), S::Dfg { body: vec![gate()], nl: false }],
    };
    let ins: Vec<usize> = (0..vars.len()).collect();
    Prog { funcs: vec![Func { name: "main".into(), vars, ins, outs: (0..nq + 1).collect(), body }], order: true, ends: false }
}
fn perms(n: usize, k: usize) -> Vec<Vec<usize>> {
    if k == 0 { return vec![vec![]]; }
    let mut v = vec![];
    for p in perms(n, k - 1) { for x in 0..n { if !p.contains(&x) { let mut q = p.clone(); q.push(x); v.push(q); } } }
    v
}
/// the composite builders, applied to the qubits of the entry point
fn built(g: &str, order: &[usize], nq: usize) -> Result<Hugr, String> {
    let f = || -> Result<Hugr, hugr::builder::BuildError> {
        let (_, a) = gate_sig(g);
        let mut ty = vec![hugr::extension::prelude::qb_t(); nq];
        ty.push(hugr::extension::prelude::bool_t());
        if a == 1 { ty.push(tket::extension::rotation::rotation_type()); }
        let mut b = FunctionBuilder::new("main", Signature::new(ty.clone(), ty[..nq + 1].to_vec()))?;
        let mut w: Vec<Wire> = b.input_wires().collect();
        let q: Vec<Wire> = order.iter().map(|k| w[*k]).collect();
        let ang = if a == 1 {
            use tket::extension::rotation::RotationOpBuilder;
            let h = b.add_to_halfturns(w[nq + 1])?;
            let pi = b.add_load_value(hugr::std_extensions::arithmetic::float_types::ConstF64::new(std::f64::consts::PI));
            b.add_dataflow_op(hugr::std_extensions::arithmetic::float_ops::FloatOps::fmul, [h, pi])?.out_wire(0)
        } else { w[0] };
        let o: Vec<Wire> = match g {
            "H" => vec![b.build_h(q[0])?], "X" => vec![b.build_x(q[0])?], "Y" => vec![b.build_y(q[0])?], "Z" => vec![b.build_z(q[0])?],
            "S" => vec![b.build_s(q[0])?], "Sdg" => vec![b.build_sdg(q[0])?], "T" => vec![b.build_t(q[0])?], "Tdg" => vec![b.build_tdg(q[0])?],
            "V" => vec![b.build_v(q[0])?], "Vdg" => vec![b.build_vdg(q[0])?],
            "CX" => b.build_cx(q[0], q[1])?.to_vec(), "CY" => b.build_cy(q[0], q[1])?.to_vec(), "CZ" => b.build_cz(q[0], q[1])?.to_vec(),
            "Rx" => vec![b.build_rx(q[0], ang)?], "Ry" => vec![b.build_ry(q[0], ang)?], "Rz" => vec![b.add_rz(q[0], ang)?],
            "CRz" => b.build_crz(q[0], q[1], ang)?.to_vec(), "Toffoli" => b.build_toffoli(q[0], q[1], q[2])?.to_vec(),
            _ => panic!("builder {g}"),
        };
        for (k, x) in order.iter().zip(o) { w[*k] = x; }
        b.finish_hugr_with_outputs(w[..nq + 1].to_vec())
    };
    attempt(f)
}
pub fn c31(c: &mut Ctx) {
    let an = angles(c);
    for g in ["H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg", "CX", "CY", "CZ", "Toffoli", "Rx", "Ry", "Rz", "CRz"] {
        let (n, a) = gate_sig(g);
        let nq = n + 1 - (n == 3) as usize;
        for (x, order) in perms(nq, n).into_iter().enumerate() {
            for wrap in 0..3 {
                let p = gate_prog(g, &order, nq, wrap);
                let h = p.build();
                let lower = || run(&LowerTketToQSystemPass, &h);
                let mut sides = vec![side_without(lower(), NATIVE), side_without(compile(&h, 14), LAZY)];
                if wrap == 0 { sides.push(side_without(built(g, &order, nq), NATIVE)); }
                let mut all = vec![side(&h)];
                all.extend(sides);
                let mut inputs = vec![];
                // half of the angle of a controlled rotation has to be on the model's grid too
                let an: Vec<i64> = an.iter().map(|t| if g == "CRz" { t & !1 } else { *t }).collect();
                let pick: Vec<i64> = if a == 0 { vec![0] } else if wrap == 0 || c.thorough { an.clone() } else { an.iter().copied().step_by(5).collect() };
                for t in pick { for bit in 0..if wrap == 1 { 2 } else { 1 } {
                    let mut v: Vec<J> = vec![json!(["q"]); nq];
                    v.push(json!(["s", bit, []]));
                    if a == 1 { v.push(crate::export::jfloat(t as f64 / 2048.0)); }
                    inputs.push(v);
                } }
                c.case(format!("{g}-{x}-{wrap}"), "seq", vec![], inputs, all, serde_json::to_value(&p).unwrap());
            }
        }
    }
    // operations that are not gates, followed by gates that make their effect visible
    for (x, body) in nongates().into_iter().enumerate() {
        let vars = vec![Ty::Q, Ty::Q, Ty::B, Ty::B, Ty::T, Ty::Q];
        let live = { let f = Func { name: "main".into(), vars: vars.clone(), ins: vec![0, 1, 2], outs: vec![], body: body.clone() }; let mut l: std::collections::BTreeSet<usize> = [0, 1, 2].into(); f.flow(&body, &mut l); l };
        let p = Prog { funcs: vec![Func { name: "main".into(), vars, ins: vec![0, 1, 2], outs: live.into_iter().collect(), body }], order: true, ends: false };
        let h = p.build();
        let sides = vec![side_without(run(&LowerTketToQSystemPass, &h), NATIVE), side_without(compile(&h, 14), LAZY), side_without(compile(&h, 0), NATIVE)];
        c.prog_case(format!("ops-{x}"), "seq", &p, 2, sides);
    }
}
fn nongates() -> Vec<Vec<S>> {
    let g = |b: Vec<S>| -> Vec<S> { let mut v = vec![op("H", &[0], &[0]), op("CX", &[0, 1], &[0, 1])]; v.extend(b); v };
    let base: Vec<Vec<S>> = vec![
        vec![op("Measure", &[0], &[0, 3])], vec![op("Measure", &[0], &[0, 3]), op("H", &[0], &[0]), op("Measure", &[0], &[0, 2])],
        vec![op("MeasureFree", &[0], &[4])], vec![op("Reset", &[0], &[0])], vec![op("QFree", &[0], &[])], vec![op("QAlloc", &[], &[5]), op("CX", &[0, 5], &[0, 5])],
        vec![op("TryQAlloc", &[], &[5]), op("H", &[5], &[5])], vec![op("sys.MeasureReset", &[0], &[0, 4])], vec![op("QFree", &[0], &[]), op("QAlloc", &[], &[0])],
        vec![op("MeasureFree", &[0], &[4]), op("QAlloc", &[], &[0]), op("CX", &[1, 0], &[1, 0])],
        vec![op("Measure", &[0], &[0, 3]), op("Measure", &[1], &[1, 2]), op("CX", &[0, 1], &[0, 1])],
    ];
    let mut v: Vec<Vec<S>> = base.iter().map(|b| g(b.clone())).collect();
    for b in &base {
        let ok = b.iter().all(|s| matches!(s, S::Op { op, .. } if op != "QFree" && op != "MeasureFree" && op != "QAlloc" && op != "TryQAlloc"));
        if ok { v.push(g(vec![S::If { c: 2, t: b.clone(), e: vec![], cfg: false, nl: false }])); }
    }
    v
}

// ---------------------------------------------------------------- C32
pub fn lazy_cfgs() -> Vec<(&'static str, Cfg)> {
    let b = Cfg { meas: 4, ..base_cfg() };
    vec![
        ("flat", Cfg { nq: 3, nb: 1, stmts: 14, w: vec![("gate", 3), ("measfree", 5), ("sysm", 2), ("alloc", 2), ("tbool", 5), ("read", 3), ("opq", 2), ("cT", 1), ("res", 1), ("scopy", 2), ("sdrop", 2), ("tuple", 1), ("noop", 1), ("barrier", 1)], ..b.clone() }),
        ("flow", Cfg { nq: 2, nb: 1, stmts: 9, depth: 2, inner: 3, funcs: 2, nt: 0, cfgs: true, ind: true, w: vec![("gate", 3), ("measfree", 4), ("sysm", 3), ("alloc", 1), ("tbool", 4), ("read", 2), ("opq", 2), ("cT", 2), ("if", 5), ("loop", 3), ("dfg", 2), ("call", 5), ("res", 1), ("scopy", 1), ("sdrop", 1), ("sif", 1), ("panic", 1)], ..b.clone() }),
        ("arr", Cfg { nq: 2, nb: 1, max_q: 3, stmts: 12, depth: 1, w: vec![("gate", 2), ("measfree", 3), ("sysm", 3), ("alloc", 1), ("tbool", 2), ("read", 2), ("opq", 1), ("cT", 1), ("bnew", 4), ("anew", 4), ("bget", 2), ("bset", 2), ("bswap", 1), ("aset", 2), ("aswap", 1), ("bunpack", 1), ("aunpack", 1), ("bclone", 2), ("aclone", 2), ("if", 1), ("loop", 1), ("cST", 1), ("sget", 1)], ..b.clone() }),
        ("shape", Cfg { nq: 2, nb: 1, stmts: 9, depth: 1, w: vec![("gate", 2), ("measfree", 3), ("sysm", 3), ("alloc", 2), ("tbool", 2), ("read", 2), ("opq", 1), ("scopy", 4), ("sdrop", 4), ("snoop", 2), ("sif", 3), ("sbar", 2), ("if", 1), ("sget", 1)], ..b.clone() }),
    ]
}
pub fn c32(c: &mut Ctx) {
    let n = c.n(60, 1200);
    let lazy = ["tket.bool.", "tket.quantum.MeasureFree", "tket.qsystem.Measure", "tket.qsystem.MeasureReset"];
    for (nm, cfg) in lazy_cfgs() {
        for k in 0..n {
            let ends = k % 2 == 1;
            let p = random(seeds(c, k), &Cfg { ends, ..cfg.clone() });
            c.job(format!("{nm}-{k}"), if ends { "seq" } else { "bagnp" }, p, 2, move |h| {
                let a = side_without(attempt(|| { let mut h = h.clone(); ReplaceBoolPass.run(&mut h).map(|_| h) }), &lazy);
                let b = side_without(compile(h, if ends { 9 } else { 14 }), LAZY);
                vec![a, b]
            });
        }
    }
}

// ---------------------------------------------------------------- C33
pub fn c33(c: &mut Ctx) {
    // gates that lower to one native gate, so that counting gates identifies places in the program
    let b = Cfg { gates: vec!["Rz", "Z", "S", "T", "Sdg", "Tdg"], ..base_cfg() };
    let cfgs = vec![
        ("flat", Cfg { nq: 4, nb: 1, nt: 0, ni: 1, stmts: 8, w: vec![("sysg", 5), ("sbar", 5), ("barrier", 1)], ..b.clone() }),
        ("arr", Cfg { nq: 1, nb: 1, arrays: vec![Ty::AQ(2), Ty::SQ(2)], max_q: 5, stmts: 7, w: vec![("sysg", 3), ("barrier", 5), ("borrow", 2), ("bunpack", 1), ("anew", 1), ("sbar", 1)], ..b.clone() }),
        ("nest", Cfg { nq: 0, nb: 1, arrays: vec![Ty::AAQ(2, 2), Ty::SQ(1)], max_q: 5, stmts: 6, w: vec![("sysg", 3), ("barrier", 5), ("borrow", 2), ("aunpack", 1)], ..b.clone() }),
        ("flow", Cfg { nq: 4, nb: 1, stmts: 6, depth: 2, funcs: 1, varr: true, w: vec![("sysg", 3), ("sbar", 4), ("barrier", 1), ("if", 2), ("dfg", 1), ("loop", 1), ("call", 2), ("res", 1)], cfgs: true, ..b.clone() }),
    ];
    let n = c.n(50, 1000);
    for (nm, cfg) in cfgs {
        for k in 0..n {
            let p = random(seeds(c, k), &cfg);
            c.job(format!("{nm}-{k}"), "bar", p, 2, |h| {
                let low = side_without(run(&LowerTketToQSystemPass, h), &["__tket", "tket.quantum."]);
                vec![low, side_without(compile(h, 14), LAZY)]
            });
        }
    }
}

// ---------------------------------------------------------------- C34
/// the dataflow regions of a program, as OrderChain.tla reads them
fn order_regions(h: &Hugr, orig: Option<&Hugr>) -> Vec<J> {
    let mut out = vec![];
    for par in h.descendants(h.module_root()).filter(|n| OpTag::DataflowParent.is_superset(h.get_optype(*n).tag())) {
        let [i, o] = h.get_io(par).unwrap();
        let nodes: Vec<Node> = h.children(par).filter(|n| { let t = h.get_optype(*n); t.other_input() == Some(hugr::types::EdgeKind::StateOrder) || t.other_output() == Some(hugr::types::EdgeKind::StateOrder) }).filter(|n| *n != i && *n != o).collect();
        let pos: HashMap<Node, usize> = nodes.iter().enumerate().map(|(k, n)| (*n, k + 1)).collect();
        let at = |n: Node| if n == i { Some(0) } else if n == o { Some(nodes.len() + 1) } else { pos.get(&n).copied() };
        let (mut data, mut order, mut orig_order) = (vec![], vec![], vec![]);
        for n in h.children(par) {
            let Some(a) = at(n) else { continue };
            let op = h.get_optype(n);
            for p in h.node_outputs(n) {
                for (m, _) in h.linked_inputs(n, p) {
                    // value edges into nested regions constrain the node that contains the use
                    let mut m = m;
                    while h.get_parent(m) != Some(par) { m = h.get_parent(m).unwrap(); }
                    let Some(b) = at(m) else { continue };
                    if Some(p) == op.other_output_port() { order.push(json!([a, b])) } else { data.push(json!([a, b])) }
                }
            }
            if let Some(g) = orig {
                if let Some(p) = g.get_optype(n).other_output_port() { for (m, _) in g.linked_inputs(n, p) { if let Some(b) = at(m) { orig_order.push(json!([a, b])) } } }
            }
        }
        let ops: Vec<String> = nodes.iter().map(|n| match h.get_optype(*n) { OpType::ExtensionOp(e) => format!("{}.{}", e.def().extension_id(), e.def().name()), OpType::OpaqueOp(e) => format!("{}.{}", e.extension(), e.unqualified_id()), t => t.to_string() }).collect();
        out.push(json!({"ops": ops, "data": data, "order": order, "orig": orig_order}));
    }
    out
}
/// same nodes with the same operations
fn same_nodes(a: &Hugr, b: &Hugr) -> bool {
    let f = |h: &Hugr| -> Vec<(Node, String, Option<Node>)> { h.descendants(h.module_root()).map(|n| (n, h.get_optype(n).to_string(), h.get_parent(n))).collect() };
    f(a) == f(b)
}
pub fn c34(c: &mut Ctx) {
    let n = c.n(14, 500);
    let mut cases = vec![];
    for (nm, cfg) in sys_cfgs().into_iter().chain(lazy_cfgs()) {
        for k in 0..n {
            let order = k % 3 != 0;
            let p = random(seeds(c, k) ^ 0x34, &Cfg { order, ends: k % 3 == 1, ..cfg.clone() });
            let h = p.build();
            let ends = order && k % 3 == 1;
            // constant folding only where everything that has an effect is ordered before the end
            for m in [10usize, if ends { [11, 3][k / 3 % 2] } else { 2 }] {
                let (off, on) = (compile(&h, m), compile(&h, m | 4));
                let id = format!("{nm}-{k}-{m}");
                if let (Ok(a), Ok(b)) = (&off, &on) {
                    let same = same_nodes(a, b);
                    c.stat(if same { "comparable" } else { "renumbered" }, 1);
                    if same || !order {
                        for (x, r) in order_regions(b, same.then_some(a)).into_iter().enumerate() { cases.push(json!({"id": format!("{id}.{x}"), "r": r})); }
                    }
                }
                c.infos.push((id.clone(), serde_json::to_value(&p).unwrap()));
                c.prog_case(format!("{id}-eq"), if ends { "seq" } else { "bagnp" }, &p, 2, vec![side_or(off), side_or(on)]);
            }
        }
    }
    for (k, x) in cases.chunks(600).enumerate() { c.write(&format!("OrderChain.{k}.json"), &json!({"cases": x})); }
}
