//! C20–C22: pytket circuits.
use hugr::extension::prelude::{bool_t, qb_t};
use hugr::types::{Signature, Type};
use hugr::{Hugr, HugrView};
use serde_json::{json, Value as J};
use tket::extension::bool::bool_type;
use tket::extension::rotation::rotation_type;
use tket::serialize::pytket::{DecodeOptions, TKETDecode};
use tket_json_rs::circuit_json::SerialCircuit;

use crate::ctx::*;
use crate::pk::{self, Io, Reg};
use crate::rng::Rng;

const Q1: &[&str] = &["H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg", "noop"];
const R1: &[&str] = &["Rx", "Ry", "Rz"];
const Q2: &[&str] = &["CX", "CY", "CZ", "ZZMax", "SWAP", "CH", "CV", "CVdg", "CSX", "CS", "ECR", "Sycamore"];
const O1: &[(&str, usize)] = &[("SX", 0), ("SXdg", 0), ("U1", 1), ("U2", 2), ("U3", 3), ("TK1", 3), ("PhasedX", 2), ("GPI", 1), ("GPI2", 1)];
const O2: &[(&str, usize)] = &[("CRz", 1), ("CRx", 1), ("CRy", 1), ("CU1", 1), ("CU3", 3), ("XXPhase", 1), ("YYPhase", 1), ("ZZPhase", 1), ("TK2", 3), ("ISWAP", 1), ("FSim", 2)];

pub struct PkGen<'a> { pub r: &'a mut Rng, pub nq: usize, pub nb: usize, pub syms: Vec<String>, pub meas: usize, pub qn: Vec<J>, pub bn: Vec<J>, pub boxes: bool, pub opaque: bool }
impl PkGen<'_> {
    fn num(&mut self) -> String {
        let k = [512, 256, 1024, 128, 2048, 192, 64][self.r.below(7)] as i64;
        let n = (self.r.below(17) as i64 - 8) * k;
        let x = n as f64 / 2048.0;
        match self.r.below(6) { 0 => format!("{n}/2048"), 1 if x != 0.0 => format!("{x:e}"), 2 => format!("({x})"), _ => format!("{x}") }
    }
    fn param(&mut self, d: usize) -> String {
        if self.syms.is_empty() || self.r.chance(1, 2) { if d == 0 || self.r.chance(2, 3) { return self.num(); } }
        if d == 0 { return self.syms[self.r.below(self.syms.len())].clone(); }
        let a = self.param(d - 1);
        let b = self.param(d - 1);
        match self.r.below(7) { 0 => format!("{a} + {b}"), 1 => format!("({a}) - ({b})"), 2 => format!("-({a})"), 3 => format!("2*({a})"), 4 => format!("({a})/2"), 5 => format!("{a} - {b}"), _ => a }
    }
    fn params(&mut self, n: usize, inner: bool) -> J {
        // ISWAP halves its parameter, opaque inner operations keep theirs as text
        json!((0..n).map(|_| if inner { self.num() } else { self.param(1) }).collect::<Vec<_>>())
    }
    fn qubits(&mut self, n: usize) -> Vec<J> { let v = self.qn.clone(); self.r.sample(&v, n) }
    fn bits(&mut self, n: usize) -> Vec<J> { let v = self.bn.clone(); self.r.sample(&v, n) }
    fn clarg(&mut self, k: usize, d: usize) -> J {
        let c = self.r.below(10);
        if d > 0 && c < 3 { return json!({"type": "expr", "input": self.clop(k, d - 1)}); }
        if c == 3 { return json!({"type": "term", "input": {"type": "int", "term": self.r.below(2)}}); }
        json!({"type": "term", "input": {"type": "var", "term": {"type": "bit", "var": {"index": self.r.below(k)}}}})
    }
    fn clop(&mut self, k: usize, d: usize) -> J {
        let op = *self.r.pick(&["BitAnd", "BitOr", "BitXor", "BitEq", "BitNeq", "BitNot", "BitOne"]);
        let n = match op { "BitNot" => 1, "BitOne" => 0, "BitEq" | "BitNeq" => 2, _ => 2 + self.r.below(2) * self.r.below(2) };
        json!({"op": op, "args": (0..n).map(|_| self.clarg(k, d)).collect::<Vec<_>>()})
    }
    /// (operation, args)
    fn cmd(&mut self, inner: bool) -> Option<(J, Vec<J>)> {
        let k = self.r.below(100);
        let (nq, nb) = (self.nq, self.nb);
        match k {
            0..20 => Some((json!({"type": self.r.pick(Q1)}), self.qubits(1))),
            20..30 => { let p = self.params(1, inner); Some((json!({"type": self.r.pick(R1), "params": p}), self.qubits(1))) }
            30..42 if nq > 1 => { let n = if self.opaque { Q2.len() } else { 3 }; Some((json!({"type": self.r.pick(&Q2[..n])}), self.qubits(2))) }
            42..46 if nq > 1 => { let (t, n) = if self.opaque { *self.r.pick(O2) } else { O2[0] }; let p = self.params(n, inner); Some((json!({"type": t, "params": if t == "ISWAP" { json!(["1"]) } else { p }}), self.qubits(2))) }
            46..50 if self.opaque => { let (t, n) = *self.r.pick(O1); let p = self.params(n, inner); Some((if n == 0 { json!({"type": t}) } else { json!({"type": t, "params": p}) }, self.qubits(1))) }
            50..53 if nq > 2 => { let t = if self.opaque { *self.r.pick(&["CCX", "CCX", "CSWAP", "BRIDGE", "CnX"]) } else { "CCX" }; Some((json!({"type": t}), self.qubits(3))) }
            53..62 if nb > 0 && self.meas > 0 => { self.meas -= 1; let mut a = self.qubits(1); a.extend(self.bits(1)); Some((json!({"type": "Measure"}), a)) }
            62..65 if self.meas > 0 => { self.meas -= 1; Some((json!({"type": "Reset"}), self.qubits(1))) }
            65..70 if !inner => { let (x, y) = (self.r.below(nq + 1), self.r.below(nb + 1)); let mut a = self.qubits(x); a.extend(self.bits(y)); if a.is_empty() { return None; }
                Some((json!({"type": "Barrier", "signature": a.iter().map(|x| if self.bn.contains(x) { "C" } else { "Q" }).collect::<Vec<_>>()}), a)) }
            70..74 if nb > 0 => { let n = 1 + self.r.below(nb); let v: Vec<bool> = (0..n).map(|_| self.r.chance(1, 2)).collect(); Some((json!({"type": "SetBits", "classical": {"values": v}}), self.bits(n))) }
            74..77 if nb > 1 => { let n = 1 + self.r.below(nb / 2); Some((json!({"type": "CopyBits", "classical": {"n_i": n}}), self.bits(2 * n))) }
            77..79 if nb > 1 => { let n = 1 + self.r.below(nb - 1); let (lo, hi) = (self.r.below(1 << n), self.r.below(1 << n)); Some((json!({"type": "RangePredicate", "classical": {"n_i": n, "lower": lo, "upper": hi}}), self.bits(n + 1))) }
            79..89 if nb > 1 => {
                // inputs at positions 0..n; the output last, or over one of the inputs
                let n = 1 + self.r.below((nb - 1).min(3));
                let over = self.r.chance(1, 4);
                let args = self.bits(if over { n } else { n + 1 });
                let mut e = self.clop(n, 1);
                if self.r.chance(1, 2) && n <= 2 { // the plain form
                    let op = if n == 1 { "BitNot" } else { *self.r.pick(&["BitAnd", "BitOr", "BitXor", "BitEq"]) };
                    e = json!({"op": op, "args": (0..n).map(|i| json!({"type": "term", "input": {"type": "var", "term": {"type": "bit", "var": {"index": i}}}})).collect::<Vec<_>>()});
                }
                // variables numbered in the order of the arguments, or not
                let mut pos: Vec<usize> = (0..n).collect();
                if self.r.chance(1, 4) { self.r.shuffle(&mut pos); }
                let out = if over { self.r.below(n) } else { n };
                let bp: Vec<J> = pos.iter().enumerate().map(|(v, p)| json!([v, p])).collect();
                Some((json!({"type": "ClExpr", "expr": {"bit_posn": bp, "expr": e, "reg_posn": [], "output_posn": [out]}}), args))
            }
            89..95 if nb > 0 && !inner => {
                let w = 1 + self.r.below(nb.min(2));
                let c = self.bits(w);
                let (bn, nb0) = (self.bn.clone(), self.nb);
                self.bn.retain(|x| !c.contains(x));
                self.nb -= w;
                let x = self.cmd(true);
                self.bn = bn; self.nb = nb0;
                let (op, a) = x?;
                if op["type"] == "CircBox" { return None; }
                let v = self.r.below(1 << w);
                Some((json!({"type": "Conditional", "conditional": {"op": op, "width": w, "value": v}}), c.into_iter().chain(a).collect()))
            }
            95..100 if self.boxes && !inner => {
                let (x, y) = (1 + self.r.below(nq.min(3)), self.r.below(nb + 1));
                let mut a = self.qubits(x);
                a.extend(self.bits(y));
                let meas = self.meas;
                let syms = if self.r.chance(1, 2) { self.syms.clone() } else { vec![] };
                let mut g = PkGen { r: self.r, nq: x, nb: y, syms, meas, qn: (0..x).map(|k| json!(["q", [k]])).collect(), bn: (0..y).map(|k| json!(["c", [k]])).collect(), boxes: false, opaque: self.opaque };
                let n = 1 + g.r.below(4);
                let c = g.circuit(n);
                self.meas = g.meas;
                Some((json!({"type": "CircBox", "box": {"type": "CircBox", "id": "00000000-0000-4000-8000-000000000000", "circuit": c}}), a))
            }
            _ => None,
        }
    }
    pub fn circuit(&mut self, n: usize) -> J {
        let mut cmds = vec![];
        while cmds.len() < n { if let Some((op, args)) = self.cmd(false) { cmds.push(json!({"op": op, "args": args})); } }
        let mut to = self.qn.clone();
        if self.r.chance(1, 3) { self.r.shuffle(&mut to); }
        let perm: Vec<J> = self.qn.iter().zip(&to).map(|(a, b)| json!([a, b])).collect();
        json!({"phase": "0", "commands": cmds, "qubits": self.qn, "bits": self.bn, "implicit_permutation": perm})
    }
}
fn regs(r: &mut Rng, names: &[&str], n: usize) -> Vec<J> {
    let split = if r.chance(1, 4) && n > 1 { 1 + r.below(n - 1) } else { n };
    let mut v: Vec<J> = (0..n).map(|k| if k < split { json!([names[0], [k]]) } else { json!([names[1], [k - split]]) }).collect();
    if r.chance(1, 6) { r.shuffle(&mut v); }
    v
}
pub fn gen_circuit(r: &mut Rng, opaque: bool) -> (J, Vec<String>) {
    let (nq, nb) = (1 + r.below(3) + r.below(2), r.below(4));
    let qn = regs(r, &["q", "anc"], nq);
    let bn = regs(r, &["c", "m"], nb);
    let syms: Vec<String> = if r.chance(1, 3) { ["a", "b_1"][..1 + r.below(2)].iter().map(|s| s.to_string()).collect() } else { vec![] };
    let n = 2 + r.below(7);
    let mut g = PkGen { r, nq, nb, syms: syms.clone(), meas: 3, qn, bn, boxes: true, opaque };
    (g.circuit(n), syms)
}
pub fn parse(c: &J) -> SerialCircuit { serde_json::from_value(c.clone()).unwrap() }
pub fn input_vals(ins: &[Reg], r: &mut Rng, n: usize) -> Vec<Vec<J>> {
    (0..n).map(|x| ins.iter().map(|i| match i {
        Reg::Q(_) => json!(["q"]),
        Reg::B(_) => json!(["s", if x == 0 { 1 } else { r.below(2) }, []]),
        Reg::P(_) | Reg::X(_) => crate::export::jfloat((r.below(15) as f64 - 7.0) / 8.0),
    }).collect()).collect()
}
fn config(k: usize) -> DecodeOptions {
    match k { 1 => DecodeOptions::new().with_config(tket_qsystem::pytket::qsystem_decoder_config()), 2 => DecodeOptions::new().with_default_config(), _ => DecodeOptions::new() }
}
fn meta_params(h: &Hugr) -> Vec<String> {
    h.get_metadata(h.entrypoint(), "TKET1.input_parameters").and_then(|v| serde_json::from_value(v.clone()).ok()).unwrap_or_default()
}
fn used_symbols(j: &J, out: &mut Vec<String>) {
    match j {
        J::Object(m) => for (k, v) in m {
            if k == "params" { for p in v.as_array().into_iter().flatten().filter_map(|p| p.as_str()) {
                for t in p.split(|c: char| !c.is_alphanumeric() && c != '_') { if ["a", "b_1"].contains(&t) && !out.iter().any(|x| x == t) { out.push(t.to_string()); } }
            } }
            used_symbols(v, out)
        },
        J::Array(v) => v.iter().for_each(|x| used_symbols(x, out)),
        _ => {}
    }
}
/// one decoding of one circuit: (inputs, sides)
fn decode(c: &J, variant: usize, r: &mut Rng) -> (Vec<&'static str>, Vec<Vec<J>>, Vec<J>) {
    let (nq, nb) = (c["qubits"].as_array().unwrap().len(), c["bits"].as_array().unwrap().len());
    let mut opt = config(variant % 2);
    let mut ins: Vec<Reg> = (0..nq).map(Reg::Q).chain((0..nb).map(Reg::B)).collect();
    let mut outs = ins.clone();
    if variant >= 2 {
        // a signature of our own: bits as opaque booleans, in any position, some registers created or dropped
        let keep = |r: &mut Rng| -> (Vec<Reg>, Vec<Type>) {
            let kq = if r.chance(1, 3) { r.below(nq + 1) } else { nq };
            let kb = if r.chance(1, 3) { r.below(nb + 1) } else { nb };
            let mut order: Vec<bool> = (0..kq).map(|_| true).chain((0..kb).map(|_| false)).collect();
            if r.chance(1, 2) { r.shuffle(&mut order); }
            let (mut q, mut b) = (0, 0);
            order.into_iter().map(|isq| if isq { q += 1; (Reg::Q(q - 1), qb_t()) } else { b += 1; (Reg::B(b - 1), if r.chance(1, 2) { bool_t() } else { bool_type() }) }).unzip()
        };
        let (i, mut it) = keep(r);
        let (o, ot) = keep(r);
        ins = i; outs = o;
        if r.chance(1, 4) { it.push(rotation_type()); }
        opt = opt.with_signature(Signature::new(it, ot));
    }
    let ser = parse(c);
    let h = attempt(|| ser.decode(opt)).map(|c| c.into_hugr());
    let mut kinds: Vec<&str> = outs.iter().map(|x| if matches!(x, Reg::B(_)) { "b" } else { "" }).collect();
    kinds.retain(|_| true);
    let mut used = vec![]; used_symbols(c, &mut used);
    match h {
        Err(e) => { ins.extend(used.into_iter().map(Reg::P)); let inp = input_vals(&ins, r, 1); let io = Io { ins, outs }; (kinds, inp, vec![pk::side(c, &io), bad(e)]) }
        Ok(h) => {
            let names = meta_params(&h);
            // an unnamed parameter input that no symbol uses is still an input
            let n_in = h.inner_function_type().map(|s| s.input_count()).unwrap_or(0);
            ins.extend(names.iter().map(|n| Reg::P(n.clone())));
            // a symbol the decoded program has no input for: its side lacks an input
            ins.extend(used.into_iter().filter(|s| !names.contains(s)).map(Reg::P));
            while ins.len() < n_in { ins.push(Reg::P(format!("unused{}", ins.len()))); }
            let inp = input_vals(&ins, r, 2);
            let io = Io { ins, outs };
            (kinds, inp, vec![pk::side(c, &io), side(&h)])
        }
    }
}
/// a circuit decoded and encoded again: its own registers, in the order the encoder has them
pub fn again(c: &J, sys: bool, r: &mut Rng) -> (Vec<&'static str>, Vec<Vec<J>>, Vec<J>) {
    use tket::serialize::pytket::{EncodeOptions, EncodedCircuit};
    let (qs, bs) = (c["qubits"].as_array().unwrap(), c["bits"].as_array().unwrap());
    let regs: Vec<Reg> = (0..qs.len()).map(Reg::Q).chain((0..bs.len()).map(Reg::B)).collect();
    let kinds: Vec<&str> = regs.iter().map(|x| if matches!(x, Reg::B(_)) { "b" } else { "" }).collect();
    let mut used = vec![]; used_symbols(c, &mut used);
    let mut ins = regs.clone();
    ins.extend(used.iter().cloned().map(Reg::P));
    let inp = input_vals(&ins, r, 2);
    let before = pk::side(c, &Io { ins, outs: regs.clone() });
    let after = attempt(|| -> Result<J, String> {
        let circ = parse(c).decode(config(sys as usize)).map_err(|e| format!("decoding: {e}"))?;
        let opt = if sys { EncodeOptions::new().with_config(tket_qsystem::pytket::qsystem_encoder_config()) } else { EncodeOptions::new() };
        let enc = EncodedCircuit::new_standalone(&circ, opt).map_err(|e| format!("encoding: {e}"))?;
        let j = serde_json::to_value(&enc[circ.parent()]).unwrap();
        if std::env::var("VERIF_DUMP").is_ok() { eprintln!("{c}\n{j}"); }
        let (params, bits, _) = enc.verif_boundary(circ.parent()).ok_or("no boundary")?;
        let at = |list: &str, x: &J| j[list].as_array().unwrap().iter().position(|y| y == x).ok_or(format!("register {x} is gone"));
        // the program's inputs and outputs are the registers of the original circuit, in order
        let mut ins = vec![];
        for x in qs { ins.push(Reg::Q(at("qubits", x)?)); }
        for x in bs { ins.push(Reg::B(at("bits", x)?)); }
        let outs = ins.iter().take(qs.len()).cloned().chain(bits.iter().map(|b| serde_json::to_value(b).unwrap()).map(|b| Reg::B(at("bits", &b).unwrap_or(usize::MAX)))).collect();
        ins.extend(used.iter().cloned().map(Reg::P));
        if let Some(p) = used.iter().find(|p| !params.contains(p)) { return Err(format!("parameter {p} is gone")); }
        Ok(pk::side(&j, &Io { ins, outs }))
    });
    (kinds, inp, vec![before, after.unwrap_or_else(bad)])
}
fn without_boxes(mut c: J) -> J { c["commands"].as_array_mut().unwrap().retain(|x| !x.to_string().contains("CircBox")); c }
/// circuits to decode: the enumerated ones and random ones
pub fn again_items(c: &Ctx) -> Vec<(String, J, bool, u64)> {
    let mut items: Vec<(String, J, bool, u64)> = vec![];
    for name in ["pk_all", "pk_long"] { for (k, circ) in generated(c, name).into_iter().enumerate() { if name == "pk_long" || k % c.n(5, 1) == 0 { items.push((format!("{name}-{k}"), circ, k % 2 == 1, k as u64 * 77 + c.seed)); } } }
    for k in 0..c.n(300, 4000) {
        let mut r = Rng::new(c.seed.wrapping_mul(0x61ed).wrapping_add(k as u64 * 137 + 5));
        let (circ, _) = gen_circuit(&mut r, k % 3 != 2);
        let circ = without_boxes(circ);
        items.push((format!("again-{k}"), circ, k % 2 == 1, r.next()));
    }
    items
}
fn generated(c: &Ctx, name: &str) -> Vec<J> {
    let v: Vec<J> = serde_json::from_str(&std::fs::read_to_string(c.out.join(format!("gen_{name}.json"))).unwrap()).unwrap();
    // a walk prints every way to end it: keep some
    let most = if name == "pk_long" { c.n(300, 4000) } else { v.len() };
    let step = v.len().div_ceil(most.max(1)).max(1);
    v.into_iter().step_by(step).collect()
}
pub fn c21(c: &mut Ctx) {
    let n = c.n(500, 5000);
    let seed = c.seed;
    let mut items: Vec<(String, J, usize, u64)> = vec![];
    for name in ["pk_all", "pk_long"] {
        for (k, circ) in generated(c, name).into_iter().enumerate() { items.push((format!("{name}-{k}"), circ, k % 4, k as u64 * 77 + seed)); }
    }
    for k in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(0x51ed).wrapping_add(k as u64 * 131 + 3));
        let (circ, _) = gen_circuit(&mut r, k % 3 != 2);
        let v = k % 4;
        items.push((format!("dec-{k}"), circ, v, r.next()));
    }
    let only = std::env::var("VERIF_CASE").ok();
    items.retain(|x| only.as_ref().is_none_or(|o| *o == x.0));
    let done = par(items, |(id, circ, v, s)| { let mut r = Rng::new(s); let d = decode(&circ, v, &mut r); (id, circ, d) });
    for (id, circ, (kinds, inputs, sides)) in done { c.case(id, "seq", kinds, inputs, sides, circ); }
}
