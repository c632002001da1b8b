//! C14: programs with calls of modified functions, before and after ModifierResolverPass.
use crate::ctx::*;
use crate::prog::*;
use crate::rng::Rng;
use hugr::algorithms::ComposablePass;
use serde_json::{json, Value as J};
use tket::modifier::ModifierResolverPass;

const ONE: [&str; 10] = ["X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg", "H"];
#[derive(Clone)]
struct Sig { row1: Vec<Ty>, row2: Vec<Ty>, inv: bool }
impl Sig { fn qubits(&self) -> usize { self.row1.iter().map(|t| t.qubits()).sum() } }
struct G<'a> {
    r: &'a mut Rng,
    sigs: &'a [Option<Sig>], // None: classical helpers
    vars: Vec<Ty>,
    q: Vec<usize>,
    f: Vec<usize>,
    b: Vec<usize>,
    depth: usize,
    loops: bool,  // loops allowed (nothing here is ever inverted)
    inv: bool,    // only invertible functions may be called
    hard: bool,   // several modifiers with different sizes
}
impl G<'_> {
    fn var(&mut self, t: Ty) -> usize { self.vars.push(t); self.vars.len() - 1 }
    fn angle(&mut self, out: &mut Vec<S>) -> usize {
        if !self.f.is_empty() && self.r.chance(3, 5) { return *self.r.pick(&self.f); }
        let v = self.var(Ty::F);
        let k = self.r.below(63) as i64 + 1;
        out.push(opp("cF", &[], &[v], &[64 * (k - 32)]));
        self.f.push(v);
        v
    }
    fn boolean(&mut self, out: &mut Vec<S>) -> usize {
        if !self.b.is_empty() { return *self.r.pick(&self.b); }
        let v = self.var(Ty::B);
        let k = self.r.below(2) as i64;
        out.push(opp("cB", &[], &[v], &[k]));
        v
    }
    fn nested(&mut self, n: usize) -> Vec<S> {
        let (f, b) = (self.f.clone(), self.b.clone());
        self.depth += 1;
        let v = self.block(n);
        self.depth -= 1;
        self.f = f; self.b = b;
        v
    }
    fn block(&mut self, n: usize) -> Vec<S> { let mut v = vec![]; for _ in 0..n { self.stmt(&mut v); } v }
    /// a call of function k with modifiers m on some of the qubits
    fn call(&mut self, out: &mut Vec<S>, k: usize, m: Option<Vec<i64>>) -> bool {
        let s = self.sigs[k].clone().unwrap();
        let nc: i64 = m.iter().flatten().filter(|x| **x >= 0).sum();
        if s.qubits() + nc as usize > self.q.len() { return false; }
        let qs = self.q.clone();
        let mut qs = self.r.sample(&qs, s.qubits() + nc as usize);
        let (mut i, mut o, mut after, mut defs) = (vec![], vec![], vec![], vec![]);
        for x in m.iter().flatten().rev().filter(|x| **x >= 0) {
            let a = self.var(Ty::SQ(*x as u8));
            let c: Vec<usize> = qs.drain(..*x as usize).collect();
            out.push(op("anew", &c, &[a]));
            after.push(op("aunpack", &[a], &c));
            i.push(a); o.push(a);
        }
        for t in &s.row1 {
            match t {
                Ty::Q => { let q = qs.remove(0); i.push(q); o.push(q); }
                Ty::SQ(n) => {
                    let a = self.var(*t);
                    let c: Vec<usize> = qs.drain(..*n as usize).collect();
                    out.push(op("anew", &c, &[a]));
                    after.push(op("aunpack", &[a], &c));
                    i.push(a); o.push(a);
                }
                _ => { let a = self.angle(out); let d = self.var(Ty::F); i.push(a); o.push(d); defs.push(d); }
            }
        }
        for t in &s.row2 { let a = if *t == Ty::F { self.angle(out) } else { self.boolean(out) }; i.push(a); }
        out.push(match m { None => S::Call { f: k, i, o, ind: false }, Some(m) => S::Mod { f: k, i, o, m } });
        out.extend(after);
        self.f.extend(defs);
        true
    }
    fn mods(&mut self, k: usize, room: usize) -> Vec<i64> {
        let inv = self.sigs[k].as_ref().unwrap().inv;
        let n = 1 + self.r.below(if self.hard { 3 } else { 2 });
        let mut left = room.min(3) as i64;
        let mut m = vec![];
        for _ in 0..n {
            if inv && self.r.chance(2, 5) { m.push(-1); continue; }
            if left == 0 { continue; }
            let c = if self.r.chance(1, 12) { 0 } else { 1 + self.r.below(left.min(2 + self.hard as i64) as usize) as i64 };
            left -= c;
            m.push(c);
        }
        if m.is_empty() { m.push(if inv { -1 } else { 0 }); }
        m
    }
    fn stmt(&mut self, out: &mut Vec<S>) {
        let nq = self.q.len();
        let k = self.r.below(100);
        let q = |g: &mut Self, n: usize| { let qs = g.q.clone(); g.r.sample(&qs, n) };
        match k {
            0..=19 => { let v = q(self, 1); let g = *self.r.pick(&ONE); out.push(op(g, &v, &v)); }
            20..=33 => { let a = self.angle(out); let v = q(self, 1); let g = *self.r.pick(&["Rx", "Ry", "Rz"]); out.push(op(g, &[v[0], a], &v)); }
            34..=42 if nq >= 2 => { let v = q(self, 2); let g = *self.r.pick(&["CX", "CY", "CZ"]); out.push(op(g, &v, &v)); }
            43..=46 if nq >= 2 => { let a = self.angle(out); let v = q(self, 2); out.push(op("CRz", &[v[0], v[1], a], &v)); }
            47..=48 if nq >= 3 => { let v = q(self, 3); out.push(op("Toffoli", &v, &v)); }
            49..=53 => { let a = self.angle(out); out.push(op("gphase", &[a], &[])); }
            54..=56 if nq >= 2 => { let v = q(self, 2); out.push(op("mov", &[v[0], v[1]], &[v[1], v[0]])); }
            57..=59 if nq >= 2 => {
                let v = q(self, 2);
                let a = self.var(Ty::SQ(2));
                out.push(op("anew", &v, &[a]));
                let v2 = if self.r.chance(1, 2) { vec![v[1], v[0]] } else { v };
                out.push(op("aunpack", &[a], &v2));
            }
            60..=64 => { // classical arithmetic
                let a = self.angle(out); let b = self.angle(out);
                let d = self.var(Ty::F);
                if self.r.chance(1, 2) { out.push(op("radd", &[a, b], &[d])); } else {
                    let (x, y) = (self.var(Ty::D), self.var(Ty::D));
                    out.push(op("r2f", &[a], &[x])); out.push(op("fneg", &[x], &[y])); out.push(op("f2r", &[y], &[d]));
                }
                self.f.push(d);
            }
            65..=69 => { // classical helper
                let d = self.var(Ty::F);
                let f = self.r.below(2);
                let i: Vec<usize> = (0..1 + f).map(|_| self.angle(out)).collect();
                out.push(S::Call { f, i, o: vec![d], ind: false });
                self.f.push(d);
            }
            70..=75 if self.depth < 2 => { let n = 1 + self.r.below(3); let body = self.nested(n); out.push(S::Dfg { body, nl: false }); }
            76..=78 if self.depth < 2 => { let n = 1 + self.r.below(3); let body = self.nested(n); out.push(S::Block { body }); }
            79..=83 if self.depth < 2 => {
                let c = self.boolean(out);
                let n = 1 + self.r.below(2); let t = self.nested(n);
                let n = self.r.below(3); let e = self.nested(n);
                out.push(S::If { c, t, e, cfg: false, nl: false });
            }
            84..=86 if self.depth < 2 && self.loops => { let n = 1 + self.r.below(2); let body = self.nested(n); out.push(S::Loop { n: 2, brk: None, body, cfg: false }); }
            87..=99 => {
                let c: Vec<usize> = (2..self.sigs.len()).filter(|k| { let s = self.sigs[*k].as_ref().unwrap(); (s.inv || !self.inv) && s.qubits() <= nq }).collect();
                if c.is_empty() { return; }
                let k = *self.r.pick(&c);
                let room = nq - self.sigs[k].as_ref().unwrap().qubits();
                let m = if self.r.chance(1, 2) { None } else { Some(self.mods(k, room)) };
                self.call(out, k, m);
            }
            _ => { let v = q(self, 1); let g = *self.r.pick(&ONE); out.push(op(g, &v, &v)); }
        }
    }
}
fn helper(r: &mut Rng, two: bool) -> Func {
    let k = 64 * r.below(20) as i64;
    if two { Func { name: "add2".into(), vars: vec![Ty::F; 3], ins: vec![0, 1], outs: vec![2], body: vec![op("radd", &[0, 1], &[2])] } }
    else { Func { name: "shift".into(), vars: vec![Ty::F; 3], ins: vec![0], outs: vec![2], body: vec![opp("cF", &[], &[1], &[k]), op("radd", &[0, 1], &[2])] } }
}
pub fn modprog(r: &mut Rng, hard: bool) -> Prog {
    let mut funcs = vec![helper(r, false), helper(r, true)];
    let mut sigs: Vec<Option<Sig>> = vec![None, None];
    let nf = 1 + r.below(2 + hard as usize);
    for k in 0..nf {
        let inv = !r.chance(1, 5);
        let mut row1: Vec<Ty> = vec![Ty::Q; 1 + r.below(3)];
        if r.chance(1, 5) { let p = r.below(row1.len() + 1); row1.insert(p, Ty::SQ(2)); row1.truncate(3); }
        if hard && r.chance(1, 8) { let p = r.below(row1.len() + 1); row1.insert(p, Ty::F); }
        if !row1.iter().any(|t| t.qubits() > 0) { row1.push(Ty::Q); }
        let mut row2 = vec![Ty::F; r.below(3)];
        if r.chance(1, 3) { let p = r.below(row2.len() + 1); row2.insert(p, Ty::B); }
        let ins: Vec<Ty> = row1.iter().chain(&row2).copied().collect();
        let mut g = G { r, sigs: &sigs, vars: ins.clone(), q: vec![], f: vec![], b: vec![], depth: 0, loops: !inv, inv, hard };
        let mut pre = vec![];
        let mut post = vec![];
        for (v, t) in ins.iter().enumerate() { match t { Ty::Q => g.q.push(v), Ty::F => g.f.push(v), Ty::B => g.b.push(v),
            Ty::SQ(n) => { let c: Vec<usize> = (0..*n).map(|_| g.var(Ty::Q)).collect(); pre.push(op("aunpack", &[v], &c)); post.push(op("anew", &c, &[v])); g.q.extend(c); } _ => {} } }
        let n = 1 + g.r.below(if hard { 5 } else { 4 });
        let body = g.block(n);
        // the result: linear inputs in order, sometimes with two qubits exchanged
        let mut outs: Vec<usize> = (0..row1.len()).collect();
        let vars = g.vars.clone();
        let fs: Vec<usize> = g.f.clone();
        for (p, t) in row1.iter().enumerate() { if *t == Ty::F { outs[p] = *r.pick(&fs); } }
        let qi: Vec<usize> = (0..row1.len()).filter(|p| row1[*p] == Ty::Q).collect();
        if qi.len() >= 2 && r.chance(1, 5) { outs.swap(qi[0], qi[qi.len() - 1]); }
        funcs.push(Func { name: format!("uni7_{k}"), vars, ins: (0..ins.len()).collect(), outs, body: pre.into_iter().chain(body).chain(post).collect() });
        sigs.push(Some(Sig { row1, row2, inv }));
    }
    let nq = 3 + r.below(if hard { 3 } else { 2 });
    let mut ins = vec![Ty::Q; nq];
    if r.chance(1, 2) { ins.push(Ty::F); }
    if r.chance(1, 4) { ins.push(Ty::B); }
    let mut g = G { r, sigs: &sigs, vars: ins.clone(), q: (0..nq).collect(), f: vec![], b: vec![], depth: 0, loops: true, inv: false, hard };
    for (v, t) in ins.iter().enumerate() { match t { Ty::F => g.f.push(v), Ty::B => g.b.push(v), _ => {} } }
    let mut body = vec![];
    let calls = 1 + g.r.below(2);
    for _ in 0..calls {
        let n = g.r.below(2); let b = g.block(n); body.extend(b);
        let k = 2 + g.r.below(nf);
        let s = g.sigs[k].clone().unwrap();
        if s.qubits() <= nq { let m = g.mods(k, nq - s.qubits()); g.call(&mut body, k, Some(m)); }
    }
    let n = g.r.below(2); let b = g.block(n); body.extend(b);
    let vars = g.vars.clone();
    funcs.push(Func { name: "main".into(), vars, ins: (0..ins.len()).collect(), outs: (0..nq).collect(), body });
    Prog { funcs, order: false, ends: false }
}
/// every gate alone, under every number of controls up to n, inverted or not, and the phases that go with it
fn single(c: &mut Ctx) -> Vec<(String, Prog)> {
    let mut v = vec![];
    let gates: Vec<(&str, usize, bool)> = ONE.iter().map(|g| (*g, 1, false)).chain([("Rx", 1, true), ("Ry", 1, true), ("Rz", 1, true), ("CX", 2, false), ("CY", 2, false), ("CZ", 2, false), ("CRz", 2, true), ("Toffoli", 3, false), ("gphase", 0, true)]).collect();
    let top = c.n(4, 6);
    for (g, n, ang) in gates {
        for nc in 0..=top {
            if nc + n.max(1) > c.n(5, 7) { continue; }
            for inv in [false, true] {
                if nc == 0 && !inv { continue; }
                let t = n.max(1);
                let mut vars = vec![Ty::Q; t];
                vars.push(Ty::F);
                let q: Vec<usize> = (0..t).collect();
                let mut i: Vec<usize> = if n == 0 { vec![] } else { q.clone() };
                if ang { i.push(t); }
                let body = vec![op("H", &[0], &[0]), op(g, &i, if n == 0 { &[] } else { &q })];
                let mut ins = q.clone();
                if ang { ins.push(t); }
                let f = Func { name: "uni7".into(), vars, ins, outs: q.clone(), body };
                let mut vars = vec![Ty::Q; t + nc];
                vars.push(Ty::SQ(nc as u8));
                vars.push(Ty::F);
                let (a, an) = (t + nc, t + nc + 1);
                let ctl: Vec<usize> = (t..t + nc).collect();
                let mut body = vec![opp("cF", &[], &[an], &[320])];
                let (mut i, mut o, mut m) = (vec![], vec![], vec![]);
                if nc > 0 { body.push(op("anew", &ctl, &[a])); i.push(a); o.push(a); m.push(nc as i64); }
                i.extend(&q); o.extend(&q);
                if ang { i.push(an); }
                if inv { let at = (nc + n) % 2 * m.len(); m.insert(at, -1); }
                body.push(S::Mod { f: 0, i, o, m });
                if nc > 0 { body.push(op("aunpack", &[a], &ctl)); }
                let all: Vec<usize> = (0..t + nc).collect();
                let main = Func { name: "main".into(), vars, ins: all.clone(), outs: all, body };
                v.push((format!("one-{g}-{nc}{}", if inv { "-inv" } else { "" }), Prog { funcs: vec![f, main], order: false, ends: false }));
            }
        }
    }
    v
}
fn resolve(h: &hugr::Hugr) -> Vec<J> {
    let mut k = h.clone();
    let mut s = match attempt(|| ModifierResolverPass.run(&mut k)) { Ok(()) => side(&k), Err(e) => return vec![bad(e)] };
    if let Some(o) = s.as_object_mut() { if o.contains_key("g") { o.insert("forbid".into(), json!(["tket.modifier.", "tket.global_phase."])); } }
    vec![s]
}
pub fn c14(c: &mut Ctx) {
    for (id, p) in single(c) { c.job(id, "seq", p, 1, resolve); }
    let n = c.n(260, 4000);
    for k in 0..n {
        let mut r = Rng::new(c.seed.wrapping_mul(0x9e37).wrapping_add(k as u64 * 77 + 5));
        let hard = k % 3 == 2;
        let p = modprog(&mut r, hard);
        c.job(format!("mod-{k}"), "seq", p, 2, resolve);
    }
}
