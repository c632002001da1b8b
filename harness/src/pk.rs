//! Pytket circuits (their JSON form) as programs for spec/HugrMachine.tla: one instruction per command, registers as wires.
use std::collections::HashMap;
use serde_json::{json, Value as J};
use hugr::types::{Term, TypeArg};

/// Parameter expressions with the usual arithmetic meaning; names are looked up in `vars` (1-based position).
struct P<'a> { s: Vec<char>, i: usize, vars: &'a [String] }
impl P<'_> {
    fn ws(&mut self) { while self.i < self.s.len() && self.s[self.i].is_whitespace() { self.i += 1; } }
    fn peek(&mut self) -> Option<char> { self.ws(); self.s.get(self.i).copied() }
    fn sum(&mut self) -> Option<J> {
        let mut a = self.prod()?;
        while let Some(c) = self.peek() { if c == '+' || c == '-' { self.i += 1; let b = self.prod()?; a = json!({"k": c.to_string(), "a": a, "b": b}); } else { break } }
        Some(a)
    }
    fn prod(&mut self) -> Option<J> {
        let mut a = self.unary()?;
        while let Some(c) = self.peek() {
            if c == '*' && self.s.get(self.i + 1) == Some(&'*') { return None; }
            if c == '*' || c == '/' { self.i += 1; let b = self.unary()?; a = json!({"k": c.to_string(), "a": a, "b": b}); } else { break }
        }
        Some(a)
    }
    fn unary(&mut self) -> Option<J> {
        if self.peek()? == '-' { self.i += 1; let a = self.unary()?; return Some(json!({"k": "neg", "a": a})); }
        self.atom()
    }
    fn atom(&mut self) -> Option<J> {
        let c = self.peek()?;
        if c == '(' { self.i += 1; let a = self.sum()?; if self.peek()? != ')' { return None; } self.i += 1; return Some(a); }
        let st = self.i;
        if c.is_ascii_digit() || c == '.' {
            while self.i < self.s.len() && (self.s[self.i].is_ascii_digit() || self.s[self.i] == '.') { self.i += 1; }
            if self.i < self.s.len() && (self.s[self.i] == 'e' || self.s[self.i] == 'E') {
                self.i += 1;
                if self.i < self.s.len() && (self.s[self.i] == '+' || self.s[self.i] == '-') { self.i += 1; }
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; }
            }
            let t: String = self.s[st..self.i].iter().collect();
            let c = json!({"k": "c", "v": crate::export::jfloat(t.parse().ok()?)});
            // 3pi/4
            if self.s[self.i..].starts_with(&['p', 'i']) && !self.s.get(self.i + 2).is_some_and(|c| c.is_alphanumeric() || *c == '_') {
                self.i += 2;
                return Some(json!({"k": "*", "a": c, "b": {"k": "c", "v": ["f", 1, 1, 1]}}));
            }
            return Some(c);
        }
        while self.i < self.s.len() && (self.s[self.i].is_alphanumeric() || self.s[self.i] == '_') { self.i += 1; }
        let t: String = self.s[st..self.i].iter().collect();
        if t == "pi" { return Some(json!({"k": "c", "v": ["f", 1, 1, 1]})); }
        let j = self.vars.iter().position(|v| *v == t)? + 1;
        Some(json!({"k": "v", "j": j}))
    }
}
pub fn param(s: &str, vars: &[String]) -> Result<J, String> {
    let mut p = P { s: s.chars().collect(), i: 0, vars };
    let e = p.sum();
    p.ws();
    match e { Some(e) if p.i == p.s.len() => Ok(e), _ => Err(format!("parameter {s:?} outside the model")) }
}
fn hash(s: &str) -> u64 { let mut h: u64 = 1469598103934665603; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(1099511628211); } h % 997 }
fn ints(j: &J) -> Vec<i64> { j.as_array().map(|v| v.iter().map(|x| x.as_i64().unwrap_or_else(|| x.as_bool().unwrap_or(false) as i64)).collect()).unwrap_or_default() }

fn clexpr(e: &J, bits: &HashMap<i64, i64>, regs: &HashMap<i64, Vec<i64>>) -> Result<J, String> {
    let xs: Result<Vec<J>, String> = e["args"].as_array().cloned().unwrap_or_default().iter().map(|a| {
        let i = &a["input"];
        if a["type"] == "expr" { return clexpr(i, bits, regs); }
        if i["type"] == "int" { return Ok(json!({"k": "i", "n": i["term"]})); }
        let v = &i["term"];
        let ix = v["var"]["index"].as_i64().or(v["var"].as_i64()).ok_or(format!("variable {v}"))?;
        if v["type"] == "bit" { Ok(json!({"k": "b", "p": bits.get(&ix).ok_or("unknown bit variable")? + 1})) }
        else { Ok(json!({"k": "r", "p": regs.get(&ix).ok_or("unknown register variable")?.iter().map(|x| x + 1).collect::<Vec<_>>()})) }
    }).collect();
    Ok(json!({"k": "op", "op": e["op"], "xs": xs?}))
}
/// An operation for the machine. `vars`: names for parameter expressions; None = parameter k is the k-th parameter input.
pub fn op(o: &J, vars: Option<&[String]>) -> Result<J, String> {
    let t = o["type"].as_str().ok_or("operation without a type")?.to_string();
    let t = match t.as_str() { "tk1" => "TK1".into(), "tk2" => "TK2".into(), "Condition" => "Conditional".into(), _ => t };
    let strs: Vec<String> = o["params"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default();
    let p: Result<Vec<J>, String> = match vars {
        Some(vs) => strs.iter().map(|s| param(s, vs)).collect(),
        None => Ok((1..=strs.len()).map(|k| json!({"k": "v", "j": k})).collect()),
    };
    let mut j = json!({"t": t, "p": p?});
    let c = &o["classical"];
    match t.as_str() {
        "Conditional" => {
            let d = &o["conditional"];
            j["n"] = d["width"].clone(); j["v"] = json!([d["value"]]); j["op"] = op(&d["op"], Some(vars.unwrap_or(&[])))?;
        }
        "SetBits" => j["v"] = json!(ints(&c["values"])),
        "CopyBits" => j["n"] = c["n_i"].clone(),
        "RangePredicate" => { j["n"] = c["n_i"].clone(); j["v"] = json!([c["lower"], c["upper"]]); }
        "ExplicitPredicate" | "ExplicitModifier" => { j["n"] = c["n_i"].clone(); j["v"] = json!(ints(&c["values"])); }
        "ClassicalTransform" => j["v"] = json!(ints(&c["values"])),
        "ClExpr" => {
            let x = &o["expr"];
            let bits = x["bit_posn"].as_array().unwrap().iter().map(|p| (p[0].as_i64().unwrap(), p[1].as_i64().unwrap())).collect();
            let regs = x["reg_posn"].as_array().unwrap().iter().map(|p| (p[0].as_i64().unwrap(), ints(&p[1]))).collect();
            j["e"] = clexpr(&x["expr"], &bits, &regs)?;
            j["v"] = json!(ints(&x["output_posn"]).iter().map(|k| k + 1).collect::<Vec<_>>());
        }
        _ => {
            let mut bx = o["box"].clone();
            if let Some(m) = bx.as_object_mut() { m.remove("id"); }
            j["h"] = json!(hash(&format!("{t}{bx}{}", if t == "Barrier" { &J::Null } else { &o["data"] })));
        }
    }
    Ok(j)
}
pub fn tk1op(args: &[TypeArg]) -> Result<(J, u64, u64), String> {
    let Some(Term::String(s)) = args.first() else { return Err("tk1op without payload".into()) };
    let j: J = serde_json::from_str(s).map_err(|e| format!("tk1op payload: {e}"))?;
    Ok((op(&j["op"], None)?, j["num_qubits"].as_u64().unwrap_or(0), j["num_bits"].as_u64().unwrap_or(0)))
}

/// Where the registers of a circuit come from and go to.
pub struct Io {
    /// entry inputs in order: registers by position (qubits, then bits), or parameters by name
    pub ins: Vec<Reg>,
    pub outs: Vec<Reg>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Reg { Q(usize), B(usize), P(String),
    /// an output: the value of an expression
    X(String) }

pub struct Lower { next: usize, pub regions: Vec<J> }
impl Lower {
    pub fn new() -> Self { Lower { next: 0, regions: vec![] } }
    fn fresh(&mut self) -> usize { self.next += 1; self.next }
    /// the circuit as a region; io.outs = None: qubits (permuted as the circuit says), then bits. Returns the region's number.
    pub fn circuit(&mut self, c: &J, io: Option<&Io>, outer: &[String]) -> Result<usize, String> {
        let key = |x: &J| x.to_string();
        let qs: Vec<String> = c["qubits"].as_array().unwrap().iter().map(key).collect();
        let bs: Vec<String> = c["bits"].as_array().unwrap().iter().map(key).collect();
        let qw: Vec<usize> = qs.iter().map(|_| self.fresh()).collect();
        let bw: Vec<usize> = bs.iter().map(|_| self.fresh()).collect();
        let mut vars = vec![];
        let mut pw = vec![];
        let mut i = vec![];
        let mut body = vec![];
        match io {
            None => {
                i.extend(&qw); i.extend(&bw);
                for n in outer { let w = self.fresh(); vars.push(n.clone()); pw.push(w); i.push(w); }
            }
            Some(io) => for r in &io.ins {
                match r {
                    Reg::Q(k) => i.push(*qw.get(*k).ok_or("no such register")?),
                    Reg::B(k) => i.push(*bw.get(*k).ok_or("no such register")?),
                    Reg::P(n) => { let w = self.fresh(); vars.push(n.clone()); pw.push(w); i.push(w); }
                    Reg::X(_) => return Err("an expression as input".into()),
                }
            },
        }
        for w in &qw { if !i.contains(w) { body.push(json!({"op": "tket.quantum.QAlloc", "f": "q", "n": "QAlloc", "i": [], "o": [w], "a": [], "r": []})); } }
        for w in &bw { if !i.contains(w) { body.push(json!({"op": "const", "f": "", "n": "const", "i": [], "o": [w], "a": [["s", 0, []]], "r": []})); } }
        self.regions.push(J::Null);
        let me = self.regions.len();
        for cmd in c["commands"].as_array().unwrap() {
            let (mut q, mut b) = (vec![], vec![]);
            for a in cmd["args"].as_array().unwrap() {
                let k = key(a);
                if let Some(p) = qs.iter().position(|x| *x == k) { q.push(qw[p]); }
                else if let Some(p) = bs.iter().position(|x| *x == k) { b.push(bw[p]); }
                else { return Err(format!("command on unknown register {k}")); }
            }
            let (nq, nb) = (q.len(), b.len());
            let o: Vec<usize> = q.iter().chain(&b).copied().collect();
            let t = cmd["op"]["type"].as_str().unwrap_or("");
            if t == "CircBox" {
                let r = self.circuit(&cmd["op"]["box"]["circuit"], None, &vars)?;
                let mut i = o.clone();
                i.extend(&pw);
                body.push(json!({"op": "dfg", "f": "", "n": "dfg", "i": i, "o": o, "a": [], "r": [r]}));
                continue;
            }
            let mut i = o.clone();
            i.extend(&pw);
            let p = op(&cmd["op"], Some(&vars))?;
            body.push(json!({"op": format!("pytket.{t}"), "f": "pk", "n": t, "i": i, "o": o, "a": [p], "r": [], "nq": nq, "nb": nb}));
        }
        // the register whose path starts at perm[k].0 ends at perm[k].1
        let mut end: Vec<usize> = (0..qs.len()).collect();
        for p in c["implicit_permutation"].as_array().cloned().unwrap_or_default() {
            let f = |x: &J| qs.iter().position(|k| *k == key(x)).ok_or("permutation of an unknown register");
            end[f(&p[1])?] = f(&p[0])?;
        }
        let all: Vec<Reg> = (0..qs.len()).map(Reg::Q).chain((0..bs.len()).map(Reg::B)).collect();
        let outs = io.map(|x| x.outs.clone()).unwrap_or(all);
        let mut exprs = HashMap::new();
        for r in &outs {
            if let Reg::X(e) = r {
                let w = self.fresh();
                body.push(json!({"op": "pytket.param", "f": "", "n": "param", "i": pw, "o": [w], "a": [param(e, &vars)?], "r": []}));
                exprs.insert(e.clone(), w);
            }
        }
        let o: Option<Vec<usize>> = outs.iter().map(|r| match r {
            Reg::X(e) => exprs.get(e).copied(),
            Reg::Q(k) => end.get(*k).map(|e| qw[*e]),
            Reg::B(k) => bw.get(*k).copied(),
            Reg::P(n) => vars.iter().position(|v| v == n).map(|x| pw[x]),
        }).collect();
        let o = o.ok_or("an output has no register")?;
        self.regions[me - 1] = json!({"i": i, "o": o, "b": body});
        Ok(me)
    }
}
/// side for Equiv.tla
pub fn side(c: &J, io: &Io) -> J {
    let mut l = Lower::new();
    match l.circuit(c, Some(io), &[]) { Ok(m) => json!({"g": l.regions, "main": m}), Err(e) => crate::ctx::bad(e) }
}
