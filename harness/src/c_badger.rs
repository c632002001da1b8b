//! C01, C02: the superoptimiser in all its modes, and the graph of circuits it can reach.
use std::collections::HashMap;
use std::num::NonZeroUsize;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use hugr::ops::OpType;
use hugr::{Hugr, HugrView, Node};
use serde_json::{json, Value as J};
use tket::circuit::CircuitHash;
use tket::optimiser::badger::{BadgerOptimiser, BadgerOptions};
use tket::rewrite::strategy::*;
use tket::rewrite::{CircuitRewrite, Rewriter};
use tket::Circuit;

use crate::c_rewrite::*;
use crate::ctx::*;
use crate::gen::*;
use crate::prog::*;
use crate::rng::Rng;

/// a rewriter that counts the circuits it looks at; `shrink` leaves out proposals with more operations than they replace
#[derive(Clone)]
struct Counted { rules: Arc<Rules>, n: Arc<AtomicUsize>, shrink: bool }
impl Rewriter for Counted {
    fn get_rewrites(&self, circ: &Circuit<impl HugrView<Node = Node>>) -> Vec<CircuitRewrite> {
        let mut v = self.rules.rw.get_rewrites(circ);
        if self.shrink { v.retain(|rw| { let rep = rw.replacement(); rep.hugr().children(rep.parent()).count() - 2 <= rw.subgraph().nodes().len() }); }
        self.n.fetch_add(1, Ordering::SeqCst);
        v
    }
}
fn weight(o: &OpType) -> usize { match o { OpType::ExtensionOp(e) if e.extension_id().to_string() == "tket.quantum" => match e.unqualified_id().as_ref() { "CX" => 5, "H" => 2, "T" | "Tdg" => 3, "X" => 0, _ => 1 }, _ => 0 } }
type W = fn(&OpType) -> usize;
#[derive(Clone, Debug, Default)]
pub struct Mode { threads: usize, split: bool, queue: usize, max: Option<usize>, timeout: Option<u64>, progress: Option<u64> }
impl Mode {
    fn text(&self) -> String { format!("{} threads{}, queue {}, max {:?}, timeout {:?}/{:?}", self.threads, if self.split { " split" } else { "" }, self.queue, self.max, self.timeout, self.progress) }
    fn random(r: &mut Rng, kind: usize, finite: bool) -> Mode {
        let queue = *r.pick(&[1, 2, 5, 20, 2000, 2000]);
        let max = if finite && r.chance(3, 4) { None } else { Some(1 + r.below(60)) };
        match kind {
            0 => Mode { threads: 1, queue, max, timeout: if r.chance(1, 8) { Some(r.below(2) as u64) } else { None }, progress: if r.chance(1, 8) { Some(r.below(2) as u64) } else { None }, ..Mode::default() },
            1 => { let (t, p) = *r.pick(&[(Some(1), None), (None, Some(1)), (Some(1), Some(1)), (Some(0), None)]); Mode { threads: 2 + r.below(3), queue, max: max.or(Some(3000)), timeout: t, progress: p, split: false } }
            _ => Mode { threads: 2 + r.below(3), split: true, queue, max: if finite { max } else { Some(1 + r.below(30)) }, timeout: if r.chance(1, 8) { Some(1) } else { None }, ..Mode::default() },
        }
    }
}
struct Run { mode: Mode, res: Result<Hugr, String>, looked: usize }
fn run<S>(s: &S, rw: &Counted, h: &Hugr, m: &Mode) -> Run where S: RewriteStrategy + Clone + Send + Sync + 'static, S::Cost: serde::Serialize + Send + Sync {
    let n = Arc::new(AtomicUsize::new(0));
    let rw = Counted { n: n.clone(), ..rw.clone() };
    let o = BadgerOptions { timeout: m.timeout, progress_timeout: m.progress, n_threads: NonZeroUsize::new(m.threads).unwrap(), split_circuit: m.split, queue_size: m.queue, max_circuit_count: m.max };
    let (s, h) = (s.clone(), h.clone());
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = tx.send(guard(|| BadgerOptimiser::new(rw, s).optimise(&Circuit::new(h), o).into_hugr())); });
    let res = rx.recv_timeout(Duration::from_secs(120)).unwrap_or(Err("the optimiser did not return".into()));
    Run { mode: m.clone(), res, looked: n.load(Ordering::SeqCst) }
}
/// all circuits the strategy's results lead to
struct Reach { nodes: Vec<J>, at: HashMap<u64, usize>, complete: bool, bad: Option<String> }
fn region_ops(h: &Hugr, num: bool, ops: &mut Ops) -> Vec<usize> {
    let p = h.entrypoint();
    let mut v: Vec<usize> = if num { h.descendants(h.module_root()).skip(1).map(|x| ops.id(h.get_optype(x))).collect() } else { h.children(p).map(|x| ops.id(h.get_optype(x))).collect() };
    v.sort();
    v
}
fn hash(h: &Hugr) -> Option<u64> { guard(|| h.circuit_hash(h.entrypoint()).ok()).ok().flatten() }
fn reach<S: RewriteStrategy>(s: &S, rw: &Counted, h: &Hugr, cap: usize, num: bool, ops: &mut Ops) -> Reach {
    let mut g = Reach { nodes: vec![], at: HashMap::new(), complete: true, bad: None };
    let mut todo = std::collections::VecDeque::from([Circuit::new(h.clone())]);
    g.at.insert(hash(h).unwrap(), 1);
    while let Some(circ) = todo.pop_front() {
        let mut next = vec![];
        match guard(|| s.apply_rewrites(rw.get_rewrites(&circ), &circ).map(|x| x.circ).collect::<Vec<_>>()) {
            Ok(v) => for c in v {
                let Some(k) = hash(c.hugr()) else { g.bad = Some("a result of the strategy has no hash".into()); continue };
                if !g.at.contains_key(&k) {
                    if g.at.len() >= cap { g.complete = false; continue; }
                    g.at.insert(k, g.at.len() + 1);
                    todo.push_back(c);
                }
                next.push(g.at[&k]);
            },
            Err(e) => g.bad = Some(format!("strategy: {e}")),
        }
        g.nodes.push(json!({"ops": region_ops(circ.hugr(), num, ops), "next": next}));
    }
    g
}
struct Job { id: String, rules: Arc<Rules>, prog: Prog, strat: usize, shrink: bool, modes: Vec<Mode>, cap: usize, seed: u64, kinds: Vec<usize> }
struct Done { id: String, prog: Prog, case: J, results: Vec<J>, full: usize }
fn work<S>(name: &str, kind: &str, cost: &str, frac: (usize, usize), s: S, mut j: Job) -> Done where S: RewriteStrategy + Clone + Send + Sync + 'static, S::Cost: serde::Serialize + Send + Sync {
    let h = j.prog.build();
    let rw = Counted { rules: j.rules.clone(), n: Default::default(), shrink: j.shrink };
    let mut ops = Ops::default();
    let num = cost == "num";
    let g = if j.cap > 0 { reach(&s, &rw, &h, j.cap, num, &mut ops) } else { Reach { nodes: vec![json!({"ops": region_ops(&h, num, &mut ops), "next": []})], at: HashMap::new(), complete: false, bad: None } };
    let mut r = Rng::new(j.seed);
    for &k in &j.kinds { j.modes.push(Mode::random(&mut r, k, g.complete)); }
    if g.complete { j.modes.push(Mode { threads: 1, queue: 2000, ..Mode::default() }); }
    let mut runs = vec![];
    let mut results = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut full = 0;
    for m in &j.modes {
        let x = run(&s, &rw, &h, m);
        let mut c = json!({"mode": x.mode.text(), "ops": [], "at": 0, "full": false});
        match x.res {
            Err(e) => { c["bad"] = json!(e); results.push(bad(format!("{}: {e}", x.mode.text()))); }
            Ok(h2) => {
                c["ops"] = json!(region_ops(&h2, num, &mut ops));
                let free = m.max.is_none_or(|k| k > 2 * g.nodes.len() + 10);
                let all = g.complete && !m.split && m.queue > g.nodes.len() && free && if m.threads == 1 { m.timeout.is_none() && m.progress.is_none() } else { x.looked >= g.nodes.len() };
                c["full"] = json!(all);
                full += usize::from(all && g.nodes.len() > 2);
                c["inside"] = json!(g.complete && !m.split);
                let k = hash(&h2);
                if let Some(n) = k.and_then(|k| g.at.get(&k)) { c["at"] = json!(n); }
                if k.is_none_or(|k| seen.insert(k)) { let mut s = side(&h2); if let Some(o) = s.as_object_mut() { if o.contains_key("bad") { let e = format!("{}: {}", m.text(), o["bad"]); o.insert("bad".into(), json!(e)); } } results.push(s); }
            }
        }
        runs.push(c);
    }
    let mut case = json!({"id": j.id, "strat": name, "kind": kind, "cost": cost, "num": frac.0, "den": frac.1, "nodes": g.nodes, "complete": g.complete, "runs": runs, "ops": ops.1, "rules": j.rules.name});
    if let Some(e) = g.bad { case["bad"] = json!(e); }
    Done { id: j.id, prog: j.prog, case, results, full }
}
pub const STRATEGIES: usize = 8;
fn dispatch(j: Job) -> Done {
    match j.strat {
        0 => work("greedy", "greedy", "num", (1, 1), GreedyRewriteStrategy, j),
        1 => work("cx", "exh", "cx", (0, 1), LexicographicCostFunction::default_cx_strategy(), j),
        2 => work("rz", "exh", "rz", (0, 1), LexicographicCostFunction::rz_count().into_greedy_strategy(), j),
        3 => work("cxthr", "thr", "cx", (0, 1), LexicographicCostFunction::cx_count().into_threshold_strategy(), j),
        4 => work("gamma", "thr", "gcx", (10001, 10000), GammaStrategyCost::exhaustive_cx(), j),
        5 => work("gamma15", "thr", "gcx", (3, 2), GammaStrategyCost::exhaustive_cx_with_gamma(1.5), j),
        6 => work("weight", "thr", "w", (5, 4), GammaStrategyCost::new(1.25, weight as W), j),
        _ => work("weightexh", "exh", "w", (1, 1), ExhaustiveGreedyStrategy::from(GammaStrategyCost { gamma: 1.0, op_cost: weight as W }), j),
    }
}
/// mostly waiting for deadlines, so more at once than there are cores
fn crowd(todo: Vec<Job>, width: usize) -> Vec<Done> {
    let n = todo.len();
    let todo = Mutex::new(todo.into_iter().enumerate());
    let done = Mutex::new((0..n).map(|_| None).collect::<Vec<Option<Done>>>());
    std::thread::scope(|sc| for _ in 0..width {
        sc.spawn(|| loop {
            let Some((k, j)) = todo.lock().unwrap().next() else { break };
            let x = dispatch(j);
            done.lock().unwrap()[k] = Some(x);
        });
    });
    done.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}
fn sets(c: &Ctx, r: &mut Rng) -> (Vec<Arc<Rules>>, Vec<J>) {
    let (mut sets, mut bad) = rule_sets(c, r, c.n(4, 30));
    let (s2, b2) = file_sets(c, r, c.n(60, 300));
    sets.extend(s2);
    bad.extend(b2);
    (sets.into_iter().map(Arc::new).collect(), bad)
}
fn write(c: &mut Ctx, bad: Vec<J>, done: Vec<Done>, equal: bool) {
    let mut cases = bad;
    for d in done {
        c.infos.push((d.id.clone(), json!({"prog": d.prog, "strategy": d.case["strat"], "rules": d.case["rules"], "runs": d.case["runs"].as_array().unwrap().iter().map(|r| r["mode"].clone()).collect::<Vec<_>>()})));
        c.stat("runs", d.case["runs"].as_array().unwrap().len());
        c.stat("complete searches", d.full);
        c.stat("circuits reached", d.case["nodes"].as_array().unwrap().len());
        c.stat("different results", d.results.len());
        if equal { if !d.results.is_empty() { c.prog_case(d.id, "seq", &d.prog, 2, d.results); } } else { cases.push(d.case); }
    }
    for part in cases.chunks(c.n(20, 80)) { let f = c.file; c.write(&format!("OptTrace.{f}.json"), &json!({"cases": part})); c.file += 1; }
}
/// programs the rules were not made for
fn strangers() -> Vec<Cfg> {
    vec![
        Cfg { w: vec![("gate", 14), ("meas", 2), ("reset", 1), ("alloc", 1), ("free", 1), ("bool", 2), ("radd", 1), ("cF", 1)], nq: 3, nb: 1, nf: 1, stmts: 14, ..Cfg::default() },
        Cfg { w: vec![("gate", 14), ("dfg", 2), ("call", 2), ("barrier", 1), ("meas", 1)], nq: 3, nf: 1, stmts: 12, depth: 1, funcs: 2, ..Cfg::default() },
        Cfg { w: vec![("gate", 8), ("res", 1), ("meas", 2), ("tuple", 1), ("radd", 1), ("noop", 1), ("cF", 1), ("mov", 1)], nq: 2, nb: 1, nf: 1, stmts: 12, ..Cfg::default() },
    ]
}
fn ordered(h: &Hugr) -> bool {
    h.children(h.entrypoint()).any(|n| { let o = h.get_optype(n); o.other_output_port().is_some_and(|p| h.is_linked(n, p)) })
}
fn fixed(sets: &[Arc<Rules>]) -> Vec<Job> {
    let rules = sets.iter().find(|s| s.name == "long").unwrap().clone();
    let job = |id: &str, prog: Prog| Job { id: id.into(), rules: rules.clone(), prog, strat: 1, shrink: true, modes: vec![Mode { threads: 2, split: true, queue: 20, max: Some(20), ..Mode::default() }], cap: 0, seed: 1, kinds: vec![] };
    let func = |name: &str, vars: Vec<Ty>, ins: &[usize], body: Vec<S>| Func { name: name.into(), vars, ins: ins.to_vec(), outs: ins.to_vec(), body };
    let call = Prog { order: false, ends: false, funcs: vec![func("f0", vec![Ty::Q], &[0], vec![op("X", &[0], &[0])]), func("main", vec![Ty::Q], &[0], vec![op("H", &[0], &[0]), S::Call { f: 0, i: vec![0], o: vec![0], ind: false }, op("H", &[0], &[0])])] };
    vec![job("split-calls", call)]
}
fn jobs(c: &Ctx, sets: &[Arc<Rules>], r: &mut Rng, per: usize, reach: bool) -> Vec<Job> {
    let mut todo = vec![];
    for s in sets {
        for k in 0..per {
            let mut r = Rng::new(r.next());
            let id = format!("{}-{k}", s.name);
            let (nq, len, other) = (2 + r.below(3), 3 + r.below(if reach { 9 } else { 16 }), r.below(6));
            let prog = if !reach && k % 4 == 3 { let cfgs = strangers(); let i = r.below(cfgs.len()); random(r.next(), &cfgs[i]) } else { target(&mut r, s, nq, len, other) };
            if hash(&prog.build()).is_none() { continue; }
            // splitting does not cover calls and explicit order (see split-calls)
            let kinds = if prog.funcs.len() > 1 || ordered(&prog.build()) { vec![0, 1] } else if r.chance(1, 2) { vec![0, 2] } else { vec![*r.pick(&[0, 2]), 1] };
            todo.push(Job { id, rules: s.clone(), prog, strat: r.below(STRATEGIES), shrink: r.chance(1, 2), modes: vec![], cap: if reach { c.n(120, 500) } else { 0 }, seed: r.next(), kinds });
        }
    }
    if let Ok(x) = std::env::var("VERIF_CASE") { todo.retain(|t| t.id == x); }
    todo
}
pub fn c01(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 0x0101);
    let (sets, bad) = sets(c, &mut r);
    let mut todo = fixed(&sets);
    todo.extend(jobs(c, &sets, &mut r, c.n(16, 150), false));
    let done = crowd(todo, 24);
    write(c, bad, done, true);
}
pub fn c02(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 0x0202);
    let (sets, bad) = sets(c, &mut r);
    let todo = jobs(c, &sets, &mut r, c.n(16, 150), true);
    let done = crowd(todo, 24);
    write(c, bad, done, false);
}
