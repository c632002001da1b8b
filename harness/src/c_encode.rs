//! C20, C22: encoding HUGR programs as pytket circuits, and putting the pieces back together.
use crate::c_circuit::base_cfg;
use crate::ctx::*;
use crate::gen::*;
use crate::pk::{self, Io, Reg};
use crate::prog::*;
use hugr::ops::OpType;
use hugr::{Hugr, HugrView};
use serde_json::{json, Value as J};
use std::sync::Arc;
use tket::serialize::pytket::{DecodeOptions, EncodeOptions, EncodedCircuit, PytketDecoderConfig};
use tket::Circuit;

fn opts(sys: bool) -> EncodeOptions<Hugr> {
    if sys { EncodeOptions::new().with_config(tket_qsystem::pytket::qsystem_encoder_config()) } else { EncodeOptions::new() }
}
/// registers of the encoded circuit in the order of the program's inputs and outputs; `b`: names of the parameter inputs,
/// registers of the output bits, expressions of the output parameters
fn io_of(p: &Prog, c: &J, b: &(Vec<String>, Vec<J>, Vec<String>)) -> Io {
    let f = p.main();
    let (mut q, mut k, mut x) = (0, 0, 0);
    let ins = f.ins.iter().map(|v| match f.vars[*v] {
        Ty::Q => { q += 1; Reg::Q(q - 1) }
        Ty::F | Ty::D => { x += 1; Reg::P(b.0.get(x - 1).cloned().unwrap_or_default()) }
        _ => { k += 1; Reg::B(k - 1) }
    }).collect();
    let (mut q, mut k, mut x) = (0, 0, 0);
    let outs = f.outs.iter().map(|v| match f.vars[*v] {
        Ty::Q => { q += 1; Reg::Q(q - 1) }
        Ty::F | Ty::D => { x += 1; Reg::X(b.2.get(x - 1).cloned().unwrap_or_default()) }
        _ => { k += 1; Reg::B(b.1.get(k - 1).and_then(|r| c["bits"].as_array().unwrap().iter().position(|x| x == r)).unwrap_or(usize::MAX)) }
    }).collect();
    Io { ins, outs }
}
pub fn encode(h: &Hugr, p: &Prog, sys: bool) -> J {
    let circ = Circuit::new(h.clone());
    match attempt(|| EncodedCircuit::new_standalone(&circ, opts(sys))) {
        Ok(s) => {
            let j = serde_json::to_value(&s[circ.parent()]).unwrap();
            let (i, o, x) = s.verif_boundary(circ.parent()).unwrap();
            let b = (i, o.iter().map(|r| serde_json::to_value(r).unwrap()).collect(), x);
            if std::env::var("VERIF_DUMP").is_ok() { for c in j["commands"].as_array().unwrap() { eprintln!("{} {} {} {}", c["op"]["type"], c["op"]["params"], c["args"], c["op"]["expr"]); } eprintln!("{b:?}"); eprintln!("Q {} B {} P {}", j["qubits"], j["bits"], j["implicit_permutation"]); }
            pk::side(&j, &io_of(p, &j, &b))
        }
        Err(e) => bad(e),
    }
}
/// integers have no place in a circuit
pub fn no_int_outs(mut p: Prog) -> Prog {
    let f = p.funcs.last_mut().unwrap();
    let vars = f.vars.clone();
    f.outs.retain(|v| !matches!(vars[*v], Ty::I));
    p
}
/// outputs in another order, perhaps with bits given out several times
pub fn shuffle_outs(mut p: Prog, r: &mut crate::rng::Rng) -> Prog {
    let f = p.funcs.last_mut().unwrap();
    if r.chance(2, 3) { r.shuffle(&mut f.outs); }
    let bits: Vec<usize> = f.outs.iter().copied().filter(|v| matches!(f.vars[*v], Ty::B | Ty::T)).collect();
    if !bits.is_empty() && r.chance(1, 4) { let b = *r.pick(&bits); f.outs.push(b); }
    if !bits.is_empty() && r.chance(1, 4) { let b = *r.pick(&bits); f.outs.retain(|v| *v != b); }
    p
}
/// some output given out once more
fn repeat_outs(mut p: Prog, r: &mut crate::rng::Rng) -> Prog {
    let f = p.funcs.last_mut().unwrap();
    let v: Vec<usize> = f.outs.iter().copied().filter(|v| matches!(f.vars[*v], Ty::I | Ty::F | Ty::D)).collect();
    if !v.is_empty() && r.chance(1, 2) { let (at, v) = (r.below(f.outs.len() + 1), *r.pick(&v)); f.outs.insert(at, v); }
    p
}
/// barriers over and tuples of anything but qubits and bits have no pytket command and stay opaque (C22)
fn opaque_barrier(p: &Prog) -> bool {
    let f = p.main();
    f.body.iter().any(|s| matches!(s, S::Op { op, i, .. } if (op == "barrier" || op.starts_with("tuple")) && i.iter().any(|v| !matches!(f.vars[*v], Ty::Q | Ty::B | Ty::T))))
}
fn enc_cfgs() -> Vec<(&'static str, bool, Cfg)> {
    let b = Cfg { gates: vec!["H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg", "CX", "CY", "CZ", "Rx", "Ry", "Rz", "CRz", "Toffoli"], order: false, ..base_cfg() };
    vec![
        ("flat", false, Cfg { nq: 3, nf: 1, stmts: 10, w: vec![("gate", 10), ("meas", 2), ("reset", 1), ("mov", 2), ("barrier", 1)], ..b.clone() }),
        ("free", false, Cfg { nq: 2, max_q: 4, stmts: 12, meas: 4, w: vec![("gate", 8), ("meas", 2), ("measfree", 2), ("alloc", 3), ("free", 2), ("mov", 1)], ..b.clone() }),
        ("bits", false, Cfg { nq: 2, nb: 1, nt: 2, stmts: 12, w: vec![("gate", 4), ("meas", 2), ("measfree", 1), ("alloc", 1), ("cB", 1), ("cT", 2), ("tbool", 6), ("opq", 1), ("read", 2), ("barrier", 1), ("tuple", 1)], ..b.clone() }),
        ("par", false, Cfg { nq: 2, nf: 2, nd: 1, stmts: 14, w: vec![("gate", 7), ("cF", 1), ("cD", 1), ("radd", 3), ("f2r", 2), ("r2f", 2), ("farith", 3), ("fmul2", 1)], gates: vec!["Rx", "Ry", "Rz", "CRz", "H", "CX"], ..b.clone() }),
        ("sys", true, Cfg { nq: 2, max_q: 4, stmts: 10, w: vec![("gate", 4), ("sysg", 6), ("meas", 1), ("measfree", 1), ("alloc", 1), ("tbool", 1), ("mov", 1)], ..b.clone() }),
    ]
}
pub fn c20(c: &mut Ctx) {
    let n = c.n(120, 2500);
    for (nm, sys, cfg) in enc_cfgs() {
        for k in 0..n {
            let s = c.seed.wrapping_mul(77711).wrapping_add(k as u64 * 31 + 7);
            let mut r = crate::rng::Rng::new(s ^ 0x5151);
            let p = shuffle_outs(no_int_outs(random(s, &cfg)), &mut r);
            if opaque_barrier(&p) { continue; }
            let q = p.clone();
            c.job(format!("{nm}-{k}"), "seq", p, 2, move |h| vec![encode(h, &q, sys)]);
        }
    }
}

// ---------------------------------------------------------------- C22
fn round_cfgs() -> Vec<(&'static str, bool, Cfg)> {
    let b = enc_cfgs()[0].2.clone();
    vec![
        // everything has a pytket command
        ("flat", false, Cfg { nq: 3, nf: 1, stmts: 10, w: vec![("gate", 10), ("meas", 2), ("reset", 1), ("mov", 2), ("barrier", 2)], ..b.clone() }),
        ("bits", false, Cfg { nq: 2, nb: 1, nt: 2, stmts: 12, w: vec![("gate", 4), ("meas", 2), ("measfree", 1), ("alloc", 1), ("free", 1), ("cB", 1), ("cT", 2), ("tbool", 6), ("opq", 1), ("read", 2), ("barrier", 1), ("tuple", 2)], ..b.clone() }),
        ("par", false, Cfg { nq: 2, nf: 2, nd: 1, stmts: 14, w: vec![("gate", 7), ("cF", 1), ("cD", 1), ("radd", 3), ("f2r", 2), ("f2ro", 1), ("r2f", 2), ("farith", 3), ("fmul2", 1), ("barrier", 1)], gates: vec!["Rx", "Ry", "Rz", "CRz", "H", "CX"], ..b.clone() }),
        // operations and types without one
        ("mix", false, Cfg { nq: 2, nb: 1, ni: 1, nf: 1, stmts: 12, w: vec![("gate", 8), ("opaque", 3), ("meas", 1), ("iarith", 2), ("icmp", 2), ("b2i", 1), ("cI", 1), ("bool", 2), ("tuple", 2), ("noop", 1), ("barrier", 1), ("mov", 1), ("cF", 1), ("f2r", 1), ("farith", 1), ("radd", 1)], ..b.clone() }),
        ("nest", false, Cfg { nq: 2, nb: 1, nf: 1, stmts: 8, depth: 2, inner: 3, w: vec![("gate", 8), ("if", 2), ("loop", 1), ("dfg", 2), ("meas", 1), ("bool", 1), ("radd", 1), ("opaque", 1)], cfgs: true, ..b.clone() }),
        ("call", false, Cfg { nq: 2, nb: 1, stmts: 8, depth: 1, inner: 3, funcs: 2, w: vec![("gate", 8), ("call", 3), ("if", 1), ("meas", 1), ("bool", 1), ("dfg", 1)], ind: true, ..b.clone() }),
        ("arr", false, Cfg { nq: 1, nb: 1, ni: 1, arrays: vec![Ty::AQ(2)], max_q: 4, stmts: 8, w: vec![("gate", 4), ("borrow", 6), ("bget", 2), ("meas", 1), ("bnew", 1), ("bunpack", 1), ("iarith", 1)], ..b.clone() }),
        ("res", false, Cfg { nq: 2, nb: 1, ni: 1, stmts: 9, order: true, w: vec![("gate", 6), ("res", 4), ("meas", 2), ("panic", 1), ("iarith", 1), ("bool", 1)], ..b.clone() }),
        ("sys", true, Cfg { nq: 2, max_q: 4, nf: 1, stmts: 10, w: vec![("gate", 4), ("sysg", 6), ("meas", 1), ("measfree", 1), ("sysm", 2), ("alloc", 1), ("tbool", 2), ("opaque", 1), ("mov", 1), ("f2r", 1)], ..b.clone() }),
    ]
}
fn dec_config(sys: bool) -> PytketDecoderConfig {
    if sys { tket_qsystem::pytket::qsystem_decoder_config() } else { tket::serialize::pytket::default_decoder_config() }
}
fn dump(e: &EncodedCircuit<hugr::Node>) {
    if std::env::var("VERIF_DUMP").is_err() { return; }
    for (n, s) in e.iter() {
        let j = serde_json::to_value(s).unwrap();
        eprintln!("-- {n} {} {} {}", j["qubits"], j["bits"], j["implicit_permutation"]);
        for c in j["commands"].as_array().unwrap() { eprintln!("{} {} {} {} {}", c["op"]["type"], c["op"]["params"], c["args"], c["op"]["expr"], c["op"]["data"]); }
    }
}
/// pieces put back where they were
fn inplace(h: &Hugr, sys: bool, sub: bool) -> J {
    side_or(attempt(|| -> Result<Hugr, Box<dyn std::error::Error>> {
        let circ = Circuit::new(h.clone());
        let e = EncodedCircuit::new(&circ, opts(sys).with_subcircuits(sub))?;
        dump(&e);
        let mut h = circ.into_hugr();
        e.reassemble_inplace(&mut h, Some(Arc::new(dec_config(sys))))?;
        Ok(h)
    }))
}
/// a self-contained circuit decoded on its own
fn alone(h: &Hugr, sys: bool) -> J {
    let r = attempt(|| -> Result<Hugr, Box<dyn std::error::Error>> {
        let circ = Circuit::new(h.clone());
        let e = EncodedCircuit::new_standalone(&circ, opts(sys))?;
        let sig = circ.circuit_signature().into_owned();
        let reg: hugr::extension::ExtensionRegistry = h.extensions().clone();
        let o = DecodeOptions::new().with_config(dec_config(sys)).with_signature(sig).with_extensions(reg);
        Ok(e.reassemble(circ.parent(), Some("main".into()), o)?)
    });
    match r {
        Ok(h) => { let f = h.children(h.module_root()).find(|n| matches!(h.get_optype(*n), OpType::FuncDefn(f) if f.func_name() == "main")).unwrap(); side_at(&h, f) }
        Err(e) => bad(e),
    }
}
/// the encoder's documented refusals: an answer, not a loss
fn refused(s: &J) -> bool {
    s["bad"].as_str().is_some_and(|b| ["An unsupported subgraph has no qubits or bits", "Cannot encode subgraphs with nested structure"].iter().any(|m| b.contains(m)))
}
pub fn c22(c: &mut Ctx) {
    let n = c.n(60, 1500);
    let mut items = crate::c_pytket::again_items(c);
    if let Ok(o) = std::env::var("VERIF_CASE") { items.retain(|x| x.0 == o); }
    let done = par(items, |(id, circ, sys, s)| { let d = crate::c_pytket::again(&circ, sys, &mut crate::rng::Rng::new(s)); (id, circ, d) });
    for (id, circ, (kinds, inputs, sides)) in done {
        // boxes become nested regions, which have no pytket command: an error that the encoder documents
        if refused(&sides[1]) && circ.to_string().contains("CircBox") { c.stat("circuits with boxes", 1); continue; }
        c.case(id, "seq", kinds, inputs, sides, circ);
    }
    for (nm, sys, cfg) in round_cfgs() {
        for k in 0..n {
            let s = c.seed.wrapping_mul(77719).wrapping_add(k as u64 * 37 + 11);
            let mut r = crate::rng::Rng::new(s ^ 0x5252);
            let p = repeat_outs(shuffle_outs(random(s, &cfg), &mut r), &mut r);
            let f = p.funcs.last().unwrap();
            // a circuit file has registers and parameters for its interface, nothing else
            let plain = f.ins.iter().map(|v| &f.vars[*v]).chain(f.outs.iter().map(|v| &f.vars[*v])).all(|t| matches!(t, Ty::Q | Ty::B | Ty::T | Ty::F | Ty::D));
            let nonlocal = ["nest", "call"].contains(&nm);
            c.job(format!("{nm}-{k}"), if cfg.order { "seq" } else { "bag" }, p, 2, move |h| {
                let mut v: Vec<J> = vec![inplace(h, sys, false), inplace(h, sys, true)];
                if !nonlocal && plain { v.push(alone(h, sys)); }
                v.retain(|s| !refused(s));
                v
            });
        }
    }
}
