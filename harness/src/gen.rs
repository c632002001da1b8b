//! Random programs. Every choice comes from the seed; a configuration weights the statement kinds.
use crate::prog::*;
use crate::rng::Rng;

#[derive(Clone)]
pub struct Cfg {
    pub w: Vec<(&'static str, usize)>,
    pub nq: usize,          // input qubits
    pub max_q: usize,       // live qubits at any time (including arrays)
    pub nb: usize, pub nt: usize, pub nf: usize, pub nd: usize, pub ni: usize, // classical inputs
    pub arrays: Vec<Ty>,    // array inputs
    pub stmts: usize,       // top-level statements
    pub depth: usize,       // nesting
    pub inner: usize,       // statements in nested blocks
    pub funcs: usize,       // helper functions
    pub order: bool,
    pub ends: bool,
    pub meas: usize,        // at most this many measurements/resets/frees per program
    pub gates: Vec<&'static str>,
    pub cfgs: bool, pub nl: bool, pub ind: bool,
    pub angle: usize,       // angles are multiples of this many 1/2048 half turns
    pub out_all: bool,      // output all classical variables (otherwise a random subset)
    pub helper_q: usize,    // max qubit parameters of helpers
    pub varr: bool,         // value arrays in shapes
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { w: vec![("gate", 10)], nq: 3, max_q: 4, nb: 0, nt: 0, nf: 0, nd: 0, ni: 0, arrays: vec![], stmts: 8, depth: 0, inner: 3, funcs: 0, order: true, ends: false, meas: 3,
            gates: vec!["H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg", "CX", "CY", "CZ", "Rx", "Ry", "Rz", "CRz"], cfgs: false, nl: false, ind: false, angle: 64, out_all: true, helper_q: 2, varr: false }
    }
}
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub c: &'a Cfg,
    vars: Vec<Ty>,
    live: Vec<usize>,
    pinned: Vec<usize>,
    fixed_copy: Vec<usize>,
    meas: usize,
    sigs: Vec<(Vec<Ty>, Vec<Ty>)>,
    tag: usize,
    depth: usize,
    noeffect: bool,
}
pub fn gate_sig(g: &str) -> (usize, usize) {
    match g { "CX" | "CY" | "CZ" => (2, 0), "CRz" => (2, 1), "Toffoli" => (3, 0), "Rx" | "Ry" | "Rz" => (1, 1), _ => (1, 0) }
}
impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, c: &'a Cfg) -> Self {
        Gen { r, c, vars: vec![], live: vec![], pinned: vec![], fixed_copy: vec![], meas: 0, sigs: vec![], tag: 0, depth: 0, noeffect: false }
    }
    fn new_var(&mut self, t: Ty) -> usize { self.vars.push(t); self.live.push(self.vars.len() - 1); self.vars.len() - 1 }
    fn of(&self, t: Ty) -> Vec<usize> { self.live.iter().copied().filter(|v| self.vars[*v] == t).collect() }
    fn kill(&mut self, v: usize) { self.live.retain(|x| *x != v); }
    fn is_live(&self, v: usize) -> bool { self.live.contains(&v) }
    fn qubits(&self) -> usize { self.live.iter().map(|v| self.vars[*v].qubits()).sum() }
    fn pick(&mut self, t: Ty) -> Option<usize> { let v = self.of(t); if v.is_empty() { None } else { Some(*self.r.pick(&v)) } }
    fn pick_arr(&mut self, f: impl Fn(Ty) -> bool) -> Option<usize> {
        let v: Vec<usize> = self.live.iter().copied().filter(|v| f(self.vars[*v])).collect();
        if v.is_empty() { None } else { Some(*self.r.pick(&v)) }
    }
    /// a destination of type t: fresh, or (inside nested blocks, or sometimes) an existing copyable variable
    fn dest(&mut self, t: Ty) -> usize {
        let c = self.of(t);
        if !t.linear() && !c.is_empty() && (self.depth > 0 && self.r.chance(2, 3) || self.r.chance(1, 6)) { return *self.r.pick(&c); }
        self.new_var(t)
    }
    pub fn angle(&mut self) -> i64 {
        let k = if self.r.chance(1, 3) { 256 } else { self.c.angle };
        (self.r.below(8192 / k) as i64 - (4096 / k) as i64) * k as i64
    }
    /// a rotation variable, created if needed
    fn rot(&mut self, out: &mut Vec<S>) -> usize {
        let v = self.of(Ty::F);
        if !v.is_empty() && self.r.chance(1, 2) { return *self.r.pick(&v); }
        let a = self.angle();
        let d = self.new_var(Ty::F);
        out.push(opp("cF", &[], &[d], &[a]));
        d
    }
    fn fresh_block<T>(&mut self, pin: bool, f: impl FnOnce(&mut Self) -> T) -> T {
        let live = self.live.clone();
        let pinned = self.pinned.clone();
        if pin { self.pinned = live.iter().copied().filter(|v| self.vars[*v].linear()).collect(); }
        self.depth += 1;
        let x = f(self);
        self.depth -= 1;
        self.live = live;
        self.pinned = pinned;
        x
    }
    /// consume the linear variables that a nested block created
    fn close(&mut self, before: &[usize], out: &mut Vec<S>) {
        let extra: Vec<usize> = self.live.iter().copied().filter(|v| self.vars[*v].linear() && !before.contains(v)).collect();
        for v in extra { self.consume(v, out); }
    }
    pub fn consume(&mut self, v: usize, out: &mut Vec<S>) {
        self.kill(v);
        match self.vars[v] {
            Ty::Q => { self.meas += 1; out.push(op("QFree", &[v], &[])); }
            Ty::G => out.push(op("gfree", &[v], &[])),
            Ty::AB(_) | Ty::AI(_) | Ty::AT(_) => out.push(op("bdiscard", &[v], &[])),
            t @ (Ty::AQ(_) | Ty::SQ(_)) => {
                let qs: Vec<usize> = (0..t.size()).map(|_| self.new_var(Ty::Q)).collect();
                out.push(op(if matches!(t, Ty::AQ(_)) { "bunpack" } else { "aunpack" }, &[v], &qs));
                for q in qs { self.consume(q, out); }
            }
            Ty::SB(_) | Ty::SI(_) | Ty::ST(_) => out.push(op("adiscard", &[v], &[])),
            _ => {}
        }
    }
    fn block_of(&mut self, n: usize) -> Vec<S> {
        let before = self.live.clone();
        let mut out = vec![];
        for _ in 0..n { self.stmt(&mut out); }
        self.close(&before, &mut out);
        out
    }
    pub fn stmt(&mut self, out: &mut Vec<S>) {
        for _ in 0..20 {
            let ws: Vec<usize> = self.c.w.iter().map(|x| x.1).collect();
            let k = self.c.w[self.r.weighted(&ws)].0;
            if self.try_stmt(k, out) { return; }
        }
    }
    fn can_meas(&self) -> bool { self.meas < self.c.meas }
    fn bool_ty(&mut self) -> Ty { let has_t = self.c.w.iter().any(|x| matches!(x.0, "tbool" | "opq")) || self.c.nt > 0; if has_t && self.r.chance(1, 2) { Ty::T } else { Ty::B } }
    fn try_stmt(&mut self, k: &str, out: &mut Vec<S>) -> bool {
        match k {
            "gate" => {
                let g = *self.r.pick(&self.c.gates);
                let (n, a) = gate_sig(g);
                let qs = self.of(Ty::Q);
                if qs.len() < n { return false; }
                let q = self.r.sample(&qs, n);
                let mut i = q.clone();
                if a == 1 { let f = self.rot(out); i.push(f); }
                out.push(op(g, &i, &q));
            }
            "twice" => {
                let g = *self.r.pick(&["H", "X", "CX", "CX", "CZ", "Z"]);
                let (n, _) = gate_sig(g);
                let qs = self.of(Ty::Q);
                if qs.len() < n { return false; }
                let q = self.r.sample(&qs, n);
                out.push(op(g, &q, &q));
                if self.r.chance(1, 3) { if let Some(x) = qs.iter().find(|x| !q.contains(x)) { out.push(op("T", &[*x], &[*x])); } }
                out.push(op(g, &q, &q));
            }
            "alloc" => {
                if self.qubits() >= self.c.max_q { return false; }
                let tr = self.r.chance(1, 5) && self.c.w.iter().any(|x| x.0 == "tryalloc");
                let d = self.new_var(Ty::Q);
                out.push(op(if tr { "TryQAlloc" } else { "QAlloc" }, &[], &[d]));
            }
            "tryalloc" => {
                if self.qubits() >= self.c.max_q { return false; }
                let d = self.new_var(Ty::Q);
                out.push(op("TryQAlloc", &[], &[d]));
            }
            "free" | "meas" | "measfree" | "reset" => {
                if !self.can_meas() { return false; }
                let mut qs = self.of(Ty::Q);
                if k == "free" || k == "measfree" { qs.retain(|q| !self.pinned.contains(q)); }
                if qs.is_empty() { return false; }
                let q = *self.r.pick(&qs);
                self.meas += 1;
                match k {
                    "free" => { self.kill(q); out.push(op("QFree", &[q], &[])); }
                    "reset" => out.push(op("Reset", &[q], &[q])),
                    "meas" => { let t = self.bool_ty(); let b = self.dest(t); out.push(op("Measure", &[q], &[q, b])); }
                    _ => { self.kill(q); let t = self.bool_ty(); let b = self.dest(t); out.push(op("MeasureFree", &[q], &[b])); }
                }
            }
            "cB" => { let p = self.r.below(2) as i64; let d = self.dest(Ty::B); out.push(opp("cB", &[], &[d], &[p])); }
            "cT" => { let p = self.r.below(2) as i64; let d = self.dest(Ty::T); out.push(opp("cT", &[], &[d], &[p])); }
            "cF" => { let p = self.angle(); let d = self.dest(Ty::F); out.push(opp("cF", &[], &[d], &[p])); }
            "cD" => { let p = self.angle(); let d = self.dest(Ty::D); out.push(opp("cD", &[], &[d], &[p])); }
            "cI" => { let p = self.r.below(4) as i64; let d = self.dest(Ty::I); out.push(opp("cI", &[], &[d], &[p])); }
            "bool" | "tbool" => {
                let t = if k == "bool" { Ty::B } else { Ty::T };
                let Some(a) = self.pick(t) else { return false };
                let Some(b) = self.pick(t) else { return false };
                // hugr-core folds logic.Eq wrongly when one operand is known (C13 case "eq-known"), so where the program may be
                // folded as a whole, bools are compared otherwise
                let o = *self.r.pick(&["not", "and", "or", "xor", if self.c.ends && t == Ty::B { "xor" } else { "eq" }]);
                let d = self.dest(t);
                if o == "not" { out.push(op(o, &[a], &[d])) } else { out.push(op(o, &[a, b], &[d])) }
            }
            "opq" => { let Some(a) = self.pick(Ty::B) else { return false }; let d = self.dest(Ty::T); out.push(op("opq", &[a], &[d])); }
            "read" => { let Some(a) = self.pick(Ty::T) else { return false }; let d = self.dest(Ty::B); out.push(op("read", &[a], &[d])); }
            "radd" => {
                let (Some(a), Some(b)) = (self.pick(Ty::F), self.pick(Ty::F)) else { return false };
                let d = self.dest(Ty::F); out.push(op("radd", &[a, b], &[d]));
            }
            "f2r" | "f2ro" => { let Some(a) = self.pick(Ty::D) else { return false }; let d = self.dest(Ty::F); out.push(op(k, &[a], &[d])); }
            "r2f" => { let Some(a) = self.pick(Ty::F) else { return false }; let d = self.dest(Ty::D); out.push(op(k, &[a], &[d])); }
            "farith" => {
                let (Some(a), Some(b)) = (self.pick(Ty::D), self.pick(Ty::D)) else { return false };
                let o = *self.r.pick(&["fadd", "fsub", "fneg", "fadd"]);
                let d = self.dest(Ty::D);
                if o == "fneg" { out.push(op(o, &[a], &[d])) } else { out.push(op(o, &[a, b], &[d])) }
            }
            "fmul2" => { // scale by a power of two
                let Some(a) = self.pick(Ty::D) else { return false };
                let c = self.new_var(Ty::D);
                let (p, o) = *self.r.pick(&[(1024i64, "fmul"), (4096, "fdiv"), (4096, "fmul")]);
                out.push(opp("cD", &[], &[c], &[p]));
                let d = self.dest(Ty::D); out.push(op(o, &[a, c], &[d]));
            }
            "flt" => { let (Some(a), Some(b)) = (self.pick(Ty::D), self.pick(Ty::D)) else { return false }; let d = self.dest(Ty::B); out.push(op("flt", &[a, b], &[d])); }
            "iarith" => {
                let (Some(a), Some(b)) = (self.pick(Ty::I), self.pick(Ty::I)) else { return false };
                let o = *self.r.pick(&["iadd", "isub", "iadd"]);
                let d = self.dest(Ty::I); out.push(op(o, &[a, b], &[d]));
            }
            "icmp" => {
                let (Some(a), Some(b)) = (self.pick(Ty::I), self.pick(Ty::I)) else { return false };
                let o = *self.r.pick(&["ieq", "ilt"]);
                let d = self.dest(Ty::B); out.push(op(o, &[a, b], &[d]));
            }
            "b2i" => { let Some(a) = self.pick(Ty::B) else { return false }; let d = self.dest(Ty::I); out.push(op("b2i", &[a], &[d])); }
            "res" => {
                if self.noeffect { return false; }
                let cands: Vec<usize> = self.live.iter().copied().filter(|v| matches!(self.vars[*v], Ty::B | Ty::I | Ty::D)).collect();
                if cands.is_empty() { return false; }
                let v = *self.r.pick(&cands);
                self.tag += 1;
                out.push(ops("res", &[v], &[], &format!("t{}", self.tag)));
            }
            "resu" => {
                if self.noeffect { return false; }
                let Some(v) = self.pick(Ty::I) else { return false };
                self.tag += 1;
                out.push(S::Op { op: "res".into(), i: vec![v], o: vec![], p: vec![1], s: format!("t{}", self.tag) });
            }
            "ares" => {
                if self.noeffect { return false; }
                let t = *self.r.pick(&[Ty::B, Ty::I, Ty::D]);
                let vs = self.of(t);
                if vs.is_empty() { return false; }
                let n = 1 + self.r.below(4);
                let i: Vec<usize> = (0..n).map(|_| *self.r.pick(&vs)).collect();
                self.tag += 1;
                let k = self.tag;
                let s = match self.r.below(4) { 0 => format!("{}{k}", "x".repeat(100 + self.r.below(130))), 1 => format!("t:{k} \"\\ "), 2 => format!("µ{k}測"), _ => format!("t{k}") };
                let p = vec![self.r.below(2) as i64, self.r.below(2) as i64];
                out.push(S::Op { op: "ares".into(), i, o: vec![], p, s });
            }
            "shot" => { let d = self.dest(Ty::I); out.push(op("shot", &[], &[d])); }
            "rng" => {
                if self.noeffect { return false; }
                let Some(a) = self.pick(Ty::I) else { return false };
                let (mut p, mut o) = (vec![], vec![]);
                for _ in 0..1 + self.r.below(4) {
                    let x = self.r.below(4) as i64;
                    p.extend([x, 1 + self.r.below(9) as i64]);
                    if x < 3 { let d = self.new_var(if x == 1 { Ty::D } else { Ty::I }); o.push(d); }
                }
                out.push(opp("rng", &[a], &o, &p));
            }
            "gnew" => {
                if self.noeffect || self.of(Ty::G).len() >= 3 { return false; }
                let d = self.new_var(Ty::G);
                let p = vec![self.r.below(5) as i64];
                out.push(opp("gnew", &[], &[d], &p));
            }
            "gfree" => {
                if self.noeffect { return false; }
                let v: Vec<usize> = self.of(Ty::G).into_iter().filter(|q| !self.pinned.contains(q)).collect();
                if v.is_empty() { return false; }
                let v = *self.r.pick(&v);
                self.consume(v, out);
            }
            "gcall" => {
                if self.noeffect { return false; }
                let cs = self.of(Ty::G);
                if cs.is_empty() { return false; }
                let n = 1 + self.r.below(cs.len());
                let mut i = self.r.sample(&cs, n);
                let mut o = i.clone();
                let mut p = vec![self.r.below(2) as i64];
                let vs: Vec<usize> = self.live.iter().copied().filter(|v| matches!(self.vars[*v], Ty::B | Ty::I | Ty::D)).collect();
                let mut kinds = vec![];
                for _ in 0..n {
                    let na = if vs.is_empty() { 0 } else { self.r.below(5) };
                    let k = self.r.below(3) as i64;
                    p.extend([k, self.r.below(2) as i64, self.r.below(4) as i64, na as i64]);
                    for _ in 0..na { i.push(*self.r.pick(&vs)); }
                    kinds.push(k);
                }
                for k in kinds { if k > 0 { let d = self.new_var(if k == 1 { Ty::I } else { Ty::D }); o.push(d); } }
                let s = *self.r.pick(&["fn", "fn ", "fn_", "Fn", "fn.", "set id ", "gpu_call", "µ\"", "a function with a name that is so long that it does not fit into a fixed number of bytes"]);
                out.push(S::Op { op: "gcall".into(), i, o, p, s: s.into() });
            }
            "leak" => {
                if !self.can_meas() { return false; }
                let qs: Vec<usize> = self.of(Ty::Q).into_iter().filter(|q| !self.pinned.contains(q)).collect();
                if qs.is_empty() { return false; }
                let q = *self.r.pick(&qs);
                self.meas += 1;
                self.kill(q);
                let d = self.dest(Ty::I);
                let p = vec![self.r.below(2) as i64];
                out.push(opp("leak", &[q], &[d], &p));
            }
            "panic" | "exit" => {
                if self.noeffect { return false; }
                let Some(b) = self.pick(Ty::B) else { return false };
                self.tag += 1;
                let m = format!("p{}", self.tag);
                out.push(ops(k, &[b], &[], &m));
            }
            "barrier" | "tuple" | "tuple2" | "tuple3" | "noop" => {
                let n = 1 + self.r.below(3) + (k == "tuple2") as usize;
                let mut l = self.live.clone();
                if k == "tuple3" { l.retain(|v| !self.vars[*v].linear()); }
                let vs = self.r.sample(&l, n);
                if vs.is_empty() || (k == "tuple2" && vs.len() < 2) { return false; }
                out.push(op(k, &vs, &vs));
            }
            "mov" => { // swap two qubit wires
                let qs = self.of(Ty::Q);
                if qs.len() < 2 { return false; }
                let q = self.r.sample(&qs, 2);
                out.push(op("mov", &[q[0], q[1]], &[q[1], q[0]]));
            }
            "opaque" => {
                let n = 1 + self.r.below(2);
                let qs = self.of(Ty::Q);
                if qs.len() < n { return false; }
                let q = self.r.sample(&qs, n);
                let nm = *self.r.pick(&["alpha", "beta", "gamma"]);
                let (mut i, mut o) = (q.clone(), q);
                if self.r.chance(1, 3) { if let Some(b) = self.pick(Ty::B) { i.push(b); } }
                if self.r.chance(1, 3) { let b = self.dest(Ty::B); o.push(b); }
                out.push(ops("opaque", &i, &o, nm));
            }
            "if" => {
                if self.depth >= self.c.depth { return false; }
                let t = if self.r.chance(1, 2) { Ty::T } else { Ty::B };
                let Some(c) = self.pick(t).or_else(|| self.pick(Ty::B)).or_else(|| self.pick(Ty::T)) else { return false };
                let n = self.c.inner;
                let a = self.r.below(n + 1).max(1);
                let b = self.r.below(n + 1);
                let ta = self.fresh_block(true, |g| g.block_of(a));
                let te = self.fresh_block(true, |g| g.block_of(b));
                let (cfg, nl) = (self.c.cfgs && self.r.chance(1, 3), self.c.nl && self.r.chance(1, 3));
                out.push(S::If { c, t: ta, e: te, cfg, nl });
            }
            "loop" => {
                if self.depth >= self.c.depth { return false; }
                let m0 = self.meas;
                let n = 1 + self.r.below(3) as i64;
                let k = 1 + self.r.below(self.c.inner);
                let body = self.fresh_block(true, |g| g.block_of(k));
                if self.meas > m0 { self.meas = m0 + (self.meas - m0) * n as usize; }
                let brk = if self.r.chance(1, 3) { self.pick(Ty::B) } else { None };
                let cfg = self.c.cfgs && self.r.chance(1, 3);
                out.push(S::Loop { n, brk, body, cfg });
            }
            "dfg" => {
                if self.depth >= self.c.depth { return false; }
                let k = 1 + self.r.below(self.c.inner);
                let body = self.fresh_block(true, |g| g.block_of(k));
                let nl = self.c.nl && self.r.chance(1, 3);
                out.push(S::Dfg { body, nl });
            }
            "call" => {
                if self.sigs.is_empty() { return false; }
                let f = self.r.below(self.sigs.len());
                let (ti, to) = self.sigs[f].clone();
                let mut i: Vec<usize> = vec![];
                for t in &ti {
                    let c: Vec<usize> = self.of(*t).into_iter().filter(|v| !t.linear() || !i.contains(v)).collect();
                    if c.is_empty() { return false; }
                    let v = *self.r.pick(&c);
                    i.push(v);
                }
                // linear outputs go back to the linear inputs' variables in order of type
                let mut lin: Vec<usize> = i.iter().copied().filter(|v| self.vars[*v].linear()).collect();
                let mut o = vec![];
                for t in &to {
                    if t.linear() { let p = lin.iter().position(|v| self.vars[*v] == *t).expect("helper signature"); o.push(lin.remove(p)); }
                    else { let d = self.dest(*t); o.push(d); }
                }
                let mut oo = vec![]; // destinations must be distinct
                for v in o { if oo.contains(&v) { let t = self.vars[v]; oo.push(self.new_var(t)); } else { oo.push(v); } }
                let ind = self.c.ind && self.r.chance(1, 3);
                out.push(S::Call { f, i, o: oo, ind });
            }
            // ---- borrow arrays and arrays
            "bnew" | "anew" => {
                let t = if self.has("tbool") { *self.r.pick(&[Ty::Q, Ty::T, Ty::T]) } else if self.r.chance(1, 2) { Ty::Q } else { Ty::B };
                let v: Vec<usize> = self.of(t).into_iter().filter(|v| !self.pinned.contains(v)).collect();
                if v.len() < 2 { return false; }
                let v = self.r.sample(&v, 2);
                if t.linear() { for x in &v { self.kill(*x); } }
                let at = match (k, t) { ("bnew", Ty::Q) => Ty::AQ(2), ("bnew", Ty::T) => Ty::AT(2), ("bnew", _) => Ty::AB(2), (_, Ty::Q) => Ty::SQ(2), (_, Ty::T) => Ty::ST(2), _ => Ty::SB(2) };
                let d = self.new_var(at);
                out.push(op(k, &v, &[d]));
            }
            "bunpack" | "aunpack" => {
                let b = k == "bunpack";
                let Some(a) = self.pick_arr(|t| if b { matches!(t, Ty::AQ(_) | Ty::AB(_) | Ty::AI(_) | Ty::AT(_)) } else { matches!(t, Ty::SQ(_) | Ty::SB(_) | Ty::SI(_) | Ty::ST(_)) }) else { return false };
                if self.pinned.contains(&a) { return false; }
                let t = self.vars[a];
                self.kill(a);
                let o: Vec<usize> = (0..t.size()).map(|_| self.new_var(t.elem())).collect();
                out.push(op(k, &[a], &o));
            }
            "borrow" => { // borrow, act, return: with a constant or computed index
                let Some(a) = self.pick_arr(|t| matches!(t, Ty::AQ(_) | Ty::AAQ(..))) else { return false };
                let t = self.vars[a];
                if t.size() == 0 { return false; }
                self.borrow_block(a, out);
            }
            "aget" | "bget" => {
                let b = k == "bget";
                let Some(a) = self.pick_arr(|t| if b { matches!(t, Ty::AB(_) | Ty::AI(_) | Ty::AT(_)) } else { matches!(t, Ty::SB(_) | Ty::SI(_) | Ty::ST(_)) }) else { return false };
                let t = self.vars[a];
                let Some(ix) = self.index(t.size(), out) else { return false };
                let d = self.dest(t.elem());
                out.push(op(k, &[a, ix], &[a, d]));
            }
            "aset" | "bset" => {
                let b = k == "bset";
                let Some(a) = self.pick_arr(|t| if b { matches!(t, Ty::AB(_) | Ty::AI(_) | Ty::AT(_)) } else { matches!(t, Ty::SB(_) | Ty::SI(_) | Ty::ST(_)) }) else { return false };
                let t = self.vars[a];
                let Some(ix) = self.index(t.size(), out) else { return false };
                let Some(e) = self.pick(t.elem()) else { return false };
                let d = self.dest(t.elem());
                out.push(op(k, &[a, ix, e], &[a, d]));
            }
            "aswap" | "bswap" => {
                let b = k == "bswap";
                let Some(a) = self.pick_arr(|t| if b { matches!(t, Ty::AB(_) | Ty::AI(_) | Ty::AQ(_) | Ty::AT(_)) } else { matches!(t, Ty::SB(_) | Ty::SI(_) | Ty::SQ(_) | Ty::ST(_)) }) else { return false };
                let n = self.vars[a].size();
                let (Some(i), Some(j)) = (self.index(n, out), self.index(n, out)) else { return false };
                out.push(op(k, &[a, i, j], &[a]));
            }
            "bclone" | "aclone" => {
                let Some(a) = self.pick_arr(|t| if k == "bclone" { matches!(t, Ty::AT(_) | Ty::AB(_) | Ty::AI(_)) } else { matches!(t, Ty::ST(_) | Ty::SB(_) | Ty::SI(_)) }) else { return false };
                let t = self.vars[a];
                let d = self.new_var(t);
                out.push(op(k, &[a], &[a, d]));
            }
            "sbar" | "snoop" | "sdrop" | "scopy" | "sif" => {
                let mut leaves = vec![];
                for t in [Ty::Q, Ty::B, Ty::T, Ty::I] { if !self.of(t).is_empty() && !(k == "sdrop" && t != Ty::T) && !(k == "scopy" && t.linear()) { leaves.push(t); } }
                if leaves.is_empty() { return false; }
                let mut s = String::new();
                let mut ls = vec![];
                for _ in 0..1 + self.r.below(2) + (k == "sbar") as usize { let (a, b) = self.shape(3, &leaves, k); s += &a; ls.extend(b); }
                let mut vs: Vec<usize> = vec![];
                for t in &ls {
                    let c: Vec<usize> = self.of(*t).into_iter().filter(|v| !t.linear() || !vs.contains(v)).collect();
                    if c.is_empty() { return false; }
                    let v = *self.r.pick(&c);
                    vs.push(v);
                }
                let mut i = vs.clone();
                if k == "sif" { let Some(b) = self.pick(Ty::B) else { return false }; i.insert(0, b); }
                let mut o: Vec<usize> = vec![];
                for v in if k == "sdrop" { vec![] } else if k == "scopy" { vs.iter().chain(&vs).copied().collect() } else { vs } {
                    if o.contains(&v) { let t = self.vars[v]; let d = self.new_var(t); o.push(d); } else { o.push(v); }
                }
                out.push(ops(k, &i, &o, &s));
            }
            "sget" => {
                let n = 1 + self.r.below(3);
                let Some(ix) = self.index(n, out) else { return false };
                let t = self.bool_ty();
                let d = self.dest(t);
                self.tag += 1;
                let p: Vec<i64> = (0..n).map(|_| self.r.below(2) as i64).collect();
                out.push(S::Op { op: k.into(), i: vec![ix], o: vec![d], p, s: format!("sa{}", self.tag) });
            }
            "cST" => {
                let p: Vec<i64> = (0..2).map(|_| self.r.below(2) as i64).collect();
                let d = self.new_var(Ty::ST(2));
                out.push(opp(k, &[], &[d], &p));
            }
            "sysm" => { // measure and reset in one operation
                if !self.can_meas() { return false; }
                let Some(q) = self.pick(Ty::Q) else { return false };
                self.meas += 1;
                let d = self.dest(Ty::T);
                out.push(op("sys.MeasureReset", &[q], &[q, d]));
            }
            "sysg" => { // native gates with angles in radians
                let g = *self.r.pick(&["PhasedX", "Rz", "ZZPhase"]);
                let (n, a) = match g { "PhasedX" => (1, 2), "Rz" => (1, 1), _ => (2, 1) };
                let qs = self.of(Ty::Q);
                if qs.len() < n { return false; }
                let q = self.r.sample(&qs, n);
                let mut i = q.clone();
                for _ in 0..a { let p = self.angle(); let d = self.new_var(Ty::D); self.kill(d); out.push(opp("cR", &[], &[d], &[p])); i.push(d); }
                out.push(op(&format!("sys.{g}"), &i, &q));
            }
            _ => panic!("statement kind {k}"),
        }
        true
    }
    fn has(&self, k: &str) -> bool { self.c.w.iter().any(|x| x.0 == k) }
    /// a container shape and its leaf types
    fn shape(&mut self, depth: usize, leaves: &[Ty], k: &str) -> (String, Vec<Ty>) {
        let c = if depth == 0 { 0 } else { self.r.below(8) };
        match c {
            1 | 2 => {
                let mut s = "(".to_string();
                let mut l = vec![];
                for _ in 0..1 + self.r.below(3) { let (a, b) = self.shape(depth - 1, leaves, k); s += &a; l.extend(b); }
                (s + ")", l)
            }
            3 | 4 | 5 if k != "scopy" => {
                let (a, b) = if k == "sbar" && self.r.chance(1, 4) && leaves.contains(&Ty::Q) { ("?v".to_string(), vec![Ty::Q]) } else { self.shape(depth - 1, leaves, k) };
                let n = 1 + self.r.below(2);
                let (x, y) = if self.c.varr && self.r.chance(1, 4) { ("<", ">") } else { *self.r.pick(&[("[", "]"), ("{", "}")]) };
                (format!("{x}{}{y}", a.repeat(n)), (0..n).flat_map(|_| b.clone()).collect())
            }
            6 => { let (a, b) = self.shape(depth - 1, leaves, k); (format!("?{a}"), b) }
            7 if k == "sbar" && self.r.chance(1, 2) => {
                let (x, y) = *self.r.pick(&[("[", "]"), ("{", "}")]);
                (format!("{x}{}{y}", format!("{x}{y}").repeat(1 + self.r.below(2))), vec![])
            }
            _ => ("v".into(), vec![*self.r.pick(leaves)]),
        }
    }
    fn index(&mut self, n: usize, out: &mut Vec<S>) -> Option<usize> {
        if n == 0 { return None; }
        let d = self.new_var(Ty::I);
        // in range almost always
        let k = if self.r.chance(1, 25) { n } else { self.r.below(n) };
        out.push(opp("cI", &[], &[d], &[k as i64]));
        Some(d)
    }
    /// a few borrows and returns on one array, with gates in between
    fn borrow_block(&mut self, a: usize, out: &mut Vec<S>) {
        let t = self.vars[a];
        let n = t.size();
        let mut held: Vec<(usize, usize)> = vec![]; // (index, element var)
        let steps = 2 + self.r.below(5);
        for _ in 0..steps {
            if held.len() < n.min(2) && self.r.chance(1, 2) {
                let free: Vec<usize> = (0..n).filter(|k| !held.iter().any(|h| h.0 == *k)).collect();
                let k = *self.r.pick(&free);
                let e = self.new_var(t.elem());
                self.borrow_one(a, k, e, out);
                held.push((k, e));
            } else if !held.is_empty() && self.r.chance(1, 3) {
                let j = self.r.below(held.len());
                let (k, e) = held.remove(j);
                self.return_one(a, k, e, out);
            } else {
                for (_, e) in held.clone() { if let Ty::AQ(_) = self.vars[e] { if self.r.chance(1, 2) { self.borrow_block(e, out); } } }
                self.try_stmt("gate", out);
            }
        }
        // usually give the elements back where they came from; sometimes exchanged
        if held.len() == 2 && self.r.chance(1, 4) { let (x, y) = (held[0].1, held[1].1); held[0].1 = y; held[1].1 = x; }
        self.r.shuffle(&mut held);
        for (k, e) in held { self.return_one(a, k, e, out); }
    }
    fn borrow_one(&mut self, a: usize, k: usize, e: usize, out: &mut Vec<S>) {
        if self.r.chance(2, 3) { out.push(opp("bborrowc", &[a], &[a, e], &[k as i64])); }
        else { let d = self.new_var(Ty::I); out.push(opp("cI", &[], &[d], &[k as i64])); out.push(op("bborrow", &[a, d], &[a, e])); }
    }
    fn return_one(&mut self, a: usize, k: usize, e: usize, out: &mut Vec<S>) {
        self.kill(e);
        if self.r.chance(2, 3) { out.push(opp("breturnc", &[a, e], &[a], &[k as i64])); }
        else { let d = self.new_var(Ty::I); out.push(opp("cI", &[], &[d], &[k as i64])); out.push(op("breturn", &[a, d, e], &[a])); }
    }
    fn func(&mut self, name: &str, ins: Vec<Ty>, stmts: usize, helper: bool) -> Func {
        self.vars.clear(); self.live.clear(); self.pinned.clear(); self.depth = 0;
        let iv: Vec<usize> = ins.iter().map(|t| self.new_var(*t)).collect();
        if helper { self.pinned = iv.iter().copied().filter(|v| self.vars[*v].linear()).collect(); }
        let mut body = vec![];
        for _ in 0..stmts { self.stmt(&mut body); }
        let outs: Vec<usize> = if helper {
            self.close(&iv, &mut body);
            let mut o: Vec<usize> = iv.iter().copied().filter(|v| self.vars[*v].linear()).collect();
            let cl: Vec<usize> = self.live.iter().copied().filter(|v| !self.vars[*v].linear()).collect();
            if !cl.is_empty() && self.r.chance(2, 3) { let v = *self.r.pick(&cl); o.push(v); }
            if self.r.chance(1, 3) { self.r.shuffle(&mut o); }
            o
        } else {
            let all = self.c.out_all;
            let live = self.live.clone();
            let mut o: Vec<usize> = live.into_iter().filter(|v| self.vars[*v].linear() || all && !matches!(self.vars[*v], Ty::F | Ty::D) || self.r.chance(1, 2)).collect();
            if self.r.chance(1, 3) { self.r.shuffle(&mut o); }
            o
        };
        if let (Some(q), true) = (helper.then_some(0), false) { let _: usize = q; }
        let _ = &self.fixed_copy;
        Func { name: name.into(), vars: self.vars.clone(), ins: iv, outs, body }
    }
    pub fn prog(&mut self) -> Prog {
        let mut funcs = vec![];
        for k in 0..self.c.funcs {
            let nq = self.r.below(self.c.helper_q + 1);
            let mut ti = vec![Ty::Q; nq];
            if self.has("gcall") { for _ in 0..self.r.below(3) { ti.push(Ty::G); } }
            if self.c.nb > 0 && self.r.chance(1, 3) { ti.push(Ty::B); }
            if self.c.nt > 0 && self.r.chance(1, 3) { ti.push(Ty::T); }
            if self.c.nf > 0 && self.r.chance(1, 3) { ti.push(Ty::F); }
            let n = 1 + self.r.below(self.c.inner);
            let f = self.func(&format!("f{k}"), ti.clone(), n, true);
            let to: Vec<Ty> = f.outs.iter().map(|v| f.vars[*v]).collect();
            self.sigs.push((ti, to));
            funcs.push(f);
        }
        let c = self.c.clone();
        let mut ins = vec![Ty::Q; c.nq];
        for (n, t) in [(c.nb, Ty::B), (c.nt, Ty::T), (c.nf, Ty::F), (c.nd, Ty::D), (c.ni, Ty::I)] { for _ in 0..n { ins.push(t); } }
        ins.extend(c.arrays.iter().copied());
        if self.r.chance(1, 4) { self.r.shuffle(&mut ins); }
        let f = self.func("main", ins, c.stmts, false);
        funcs.push(f);
        Prog { funcs, order: c.order, ends: c.ends }
    }
}
pub fn random(seed: u64, c: &Cfg) -> Prog { let mut r = Rng::new(seed); let mut g = Gen::new(&mut r, c); g.prog() }

/// smaller variants of a program: one statement dropped, or a nested block replaced by its contents
pub fn _shrinks(_p: &Prog) -> Vec<Prog> { vec![] }
