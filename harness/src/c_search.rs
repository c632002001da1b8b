//! C05, C06, C07: the search queue, the queue thread and the backtracking optimiser.
use std::sync::{Arc, Mutex};
use std::time::Duration;

use serde_json::{json, Value as J};
use tket::optimiser::verif::{pqueue::Queue, worker};
use tket::optimiser::{BacktrackingOptimiser, Optimiser, OptimiserOptions, State};

use crate::ctx::{guard, par, Ctx};
use crate::rng::Rng;

fn generated(c: &Ctx, name: &str) -> Vec<J> {
    serde_json::from_str(&std::fs::read_to_string(c.out.join(format!("gen_{name}.json"))).unwrap()).unwrap()
}
fn out(c: &mut Ctx, module: &str, cases: Vec<J>, chunk: usize) {
    let n = cases.len();
    for part in cases.chunks(chunk) {
        for x in part { c.infos.push((x["id"].as_str().unwrap().into(), x.clone())); }
        let f = c.file;
        c.write(&format!("{module}.{f}.json"), &json!({"cases": part}));
        c.file += 1;
    }
    c.stat("histories", n);
}

// ---------------------------------------------------------------------------------------------- C05
#[derive(Clone, Debug, PartialEq)]
struct Item { h: u64, c: usize, tag: usize }
impl State<()> for Item {
    type Cost = usize;
    fn hash(&self, _: &()) -> Option<u64> { Some(self.h) }
    fn cost(&self, _: &()) -> Option<usize> { Some(self.c) }
    fn next_states(&self, _: &mut ()) -> Vec<Self> { vec![] }
}
/// run the calls on the real queue, recording every answer
fn history(id: String, ops: &[(String, u64, usize)], cap: usize, n: i64, probe: usize) -> J {
    let ev = std::cell::RefCell::new(vec![]);
    let r = guard(|| {
        let mut q: Queue<Item, usize> = Queue::new(cap, (n >= 0).then_some(n as usize));
        let mut first: std::collections::HashMap<u64, Item> = Default::default();
        for (k, (op, h, cost)) in ops.iter().enumerate() {
            let mut e = json!({"k": op, "h": h, "c": cost, "ok": true});
            let mut wrong = String::new();
            let mut got = |r: Option<(Item, usize, u64)>, first: &std::collections::HashMap<u64, Item>| match r {
                Some((s, cost, h)) => {
                    if first.get(&h) != Some(&s) || s.c != cost { wrong = format!("state {s:?} delivered for hash {h}, cost {cost}"); }
                    (h, cost, true)
                }
                None => (0, 0, false),
            };
            match op.as_str() {
                "push" => {
                    let it = Item { h: *h, c: *cost, tag: k };
                    let ok = if k % 2 == 0 { q.push(it.clone(), &()) } else { q.push_unchecked(it.clone(), *h, *cost) };
                    if ok { first.insert(*h, it); }
                    e["ok"] = json!(ok);
                }
                "pop" => { let (h, c, ok) = got(q.pop(), &first); e["h"] = json!(h); e["c"] = json!(c); e["ok"] = json!(ok); }
                "peek" => { let (h, c, ok) = got(q.peek(), &first); e["h"] = json!(h); e["c"] = json!(c); e["ok"] = json!(ok); }
                "trunc" => q.truncate(*h as usize),
                _ => unreachable!(),
            }
            e["len"] = json!(q.len());
            e["seen"] = json!(q.num_seen_hashes());
            e["max"] = json!(q.max_cost().map_or(-1, |c| c as i64));
            e["full"] = json!(q.is_full());
            e["probe"] = json!(probe);
            e["acc"] = json!(q.check_accepted(&probe));
            if q.is_empty() != (q.len() == 0) { wrong = "is_empty and len disagree".into(); }
            ev.borrow_mut().push(e);
            if !wrong.is_empty() { return Err(wrong); }
        }
        let best = q.into_all_time_best();
        if best.is_some() != (n >= 0) { return Err("list of best states missing".into()); }
        let best = best.unwrap_or_default();
        for b in &best { if first.get(&b.h) != Some(b) { return Err(format!("best state {b:?} was never accepted")); } }
        Ok(best.into_iter().map(|b| b.h).collect::<Vec<_>>())
    });
    let mut case = json!({"id": id, "cap": cap, "n": n, "ev": ev.into_inner(), "best": []});
    match r { Ok(Ok(b)) => case["best"] = json!(b), Ok(Err(e)) | Err(e) => case["bad"] = json!(e) }
    case
}
pub fn c05(c: &mut Ctx) {
    let mut todo = vec![];
    let all = generated(c, "queue");
    let total = all.len();
    for (k, g) in all.iter().enumerate() {
        let ops: Vec<_> = g.as_array().unwrap().iter().map(|o| (o["k"].as_str().unwrap().to_string(), o["h"].as_u64().unwrap(), o["c"].as_u64().unwrap() as usize)).collect();
        // every history with one configuration in turn; thorough: with several
        for j in 0..c.n(1, 4) {
            let m = (k + 5 * j + c.seed as usize) as i64;
            todo.push((format!("q{k}.{j}"), ops.clone(), 1 + m as usize % 3, m / 3 % 4 - 1, (m / 2 % 4) as usize));
        }
    }
    c.stat("enumerated", total);
    let mut r = Rng(c.seed ^ 0x51);
    for k in 0..c.n(300, 4000) {
        let (hs, cs) = (2 + r.below(14), 1 + r.below(6));
        let ops = (0..8 + r.below(c.n(30, 60))).map(|_| match r.below(12) {
            0..=6 => { let h = r.below(hs) as u64; ("push".to_string(), h, (h as usize * 7 + 3) % cs) }
            7..=8 => ("pop".into(), 0, 0),
            9 => ("peek".into(), 0, 0),
            10 => ("pop".into(), 0, 0),
            _ => ("trunc".into(), r.below(5) as u64, 0),
        }).collect();
        let cap = 1 + r.below(6);
        todo.push((format!("r{k}"), ops, cap, r.below(8) as i64 - 1, r.below(cs)));
    }
    // a queue that holds nothing
    todo.push(("zero".into(), vec![("push".into(), 1, 1), ("pop".into(), 0, 0), ("push".into(), 1, 1)], 0, 2, 1));
    let cases = par(todo, |(id, ops, cap, n, probe)| history(id, &ops, cap, n, probe));
    out(c, "QueueTrace", cases, 1500);
}

// ---------------------------------------------------------------------------------------------- C07
#[derive(Clone, Debug)]
struct Graph { h: Vec<i64>, c: Vec<i64>, next: Vec<Vec<usize>>, start: usize }
impl Graph {
    fn random(r: &mut Rng) -> Self {
        let n = 2 + r.below(9);
        let cs = 1 + r.below(6);
        let twins = r.chance(1, 3);
        let partial = r.chance(1, 4);
        let mut h: Vec<i64> = (0..n as i64).collect();
        let c: Vec<i64> = (0..n).map(|_| r.below(cs) as i64 + 1).collect();
        let mut c = c;
        if twins { let (a, b) = (r.below(n), r.below(n)); h[b] = h[a]; if r.chance(1, 2) { c[b] = c[a]; } }
        if partial { let a = 1 + r.below(n - 1); if r.chance(1, 2) { h[a] = -1 } else { c[a] = -1 } }
        let deg = 1 + r.below(4);
        let next = (0..n).map(|_| (0..r.below(deg + 1)).map(|_| r.below(n)).collect()).collect();
        Graph { h, c, next, start: 0 }
    }
}
#[derive(Clone, Debug)]
struct Vertex(usize);
struct Walk { g: Graph, visits: Vec<usize> }
impl State<&mut Walk> for Vertex {
    type Cost = i64;
    fn hash(&self, w: &&mut Walk) -> Option<u64> { u64::try_from(w.g.h[self.0]).ok() }
    fn cost(&self, w: &&mut Walk) -> Option<i64> { (w.g.c[self.0] >= 0).then_some(w.g.c[self.0]) }
    fn next_states(&self, w: &mut &mut Walk) -> Vec<Self> {
        w.visits.push(self.0);
        w.g.next[self.0].iter().map(|&v| Vertex(v)).collect()
    }
}
fn graph_json(g: &Graph) -> J {
    json!((0..g.h.len()).map(|v| json!({"h": g.h[v], "c": g.c[v], "next": g.next[v].iter().map(|x| x + 1).collect::<Vec<_>>()})).collect::<Vec<_>>())
}
fn search(id: String, g: Graph, cap: usize, maxv: Option<usize>, n: Option<usize>) -> J {
    let mut w = Walk { g: g.clone(), visits: vec![] };
    let opt = BacktrackingOptimiser { queue_size: cap, timeout: None, progress_timeout: None, max_visited_count: maxv };
    let mut oo = OptimiserOptions::default();
    oo.track_n_best = n;
    let r = guard(|| opt.optimise_with_options(Vertex(g.start), &mut w, oo));
    let mut case = json!({"id": id, "nodes": graph_json(&g), "start": g.start + 1, "cap": cap, "maxv": maxv.map_or(-1, |x| x as i64), "n": n.map_or(-1, |x| x as i64),
        "visits": w.visits.iter().map(|v| v + 1).collect::<Vec<_>>(), "best": 1, "list": []});
    match r {
        Ok(Some(r)) => {
            case["best"] = json!(r.best_state.0 + 1);
            if r.n_best_states.is_some() != n.is_some() { case["bad"] = json!("list of best states present without being asked for, or missing"); }
            case["list"] = json!(r.n_best_states.unwrap_or_default().iter().map(|v| v.0 + 1).collect::<Vec<_>>());
        }
        Ok(None) => case["bad"] = json!("no result"),
        Err(e) => case["bad"] = json!(e),
    }
    case
}
pub fn c07(c: &mut Ctx) {
    let mut todo = vec![];
    // all search spaces on three states (start costs 1), every option once per stride
    let mut k = 0usize;
    for edges in 0..(1 << 6) {
        for costs in 0..27 {
            k += 1;
            let c3 = [costs % 3, costs / 3 % 3, costs / 9];
            let mut next = vec![vec![]; 3];
            for (b, (x, y)) in [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)].into_iter().enumerate() { if edges >> b & 1 == 1 { next[x].push(y); } }
            let g = Graph { h: vec![0, 1, 2], c: c3.iter().map(|&x| x as i64 + 1).collect(), next, start: 0 };
            for j in 0..c.n(1, 8) {
                let m = k * 7 + 11 * j + c.seed as usize;
                todo.push((format!("t{k}.{j}"), g.clone(), 1 + m % 3, [None, Some(1), Some(2), Some(3)][m / 3 % 4], [None, Some(1), Some(2), Some(0)][m / 12 % 4]));
            }
        }
    }
    let mut r = Rng(c.seed ^ 0x77);
    for k in 0..c.n(1500, 20000) {
        let g = Graph::random(&mut r);
        let cap = if r.chance(1, 2) { 1 + r.below(4) } else { 20 };
        let maxv = if r.chance(1, 2) { None } else { Some(1 + r.below(6)) };
        let n = if r.chance(1, 3) { None } else { Some(r.below(6)) };
        todo.push((format!("r{k}"), g, cap, maxv, n));
    }
    let cases = par(todo, |(id, g, cap, maxv, n)| search(id, g, cap, maxv, n));
    out(c, "SearchTrace", cases, 1200);
}

// ---------------------------------------------------------------------------------------------- C06
/// one run of the queue thread with `workers` real threads; every visible event in order
fn thread_run(id: String, g: Graph, cap: usize, workers: usize, close_after_us: u64, pace: u64, seed: u64) -> J {
    let ev: Arc<Mutex<Vec<J>>> = Default::default();
    let mut case = json!({"id": id, "nodes": graph_json(&g), "cap": cap, "workers": workers, "log": [], "count": [0, 0, 0]});
    let (tx, rx) = std::sync::mpsc::channel();
    let (g1, ev1) = (g.clone(), ev.clone());
    std::thread::spawn(move || {
        let (g, ev) = (g1, ev1);
        let (ch, log) = worker::start::<usize, usize>(cap);
        let cost = |v: usize| g.c[v] as usize;
        let send = |ch: &worker::Channels<usize, usize>, w: usize, b: Vec<usize>| {
            // offering does not block, so the order of these events is the order in the channel
            let mut l = ev.lock().unwrap();
            let ok = ch.send(b.iter().map(|&v| (v, v as u64, cost(v))).collect());
            let b1: Vec<_> = b.iter().map(|v| v + 1).collect();
            if !b.is_empty() || !ok { l.push(json!({"k": if ok { "send" } else { "refused" }, "w": w, "v": 0, "b": b1})); }
            ok
        };
        let close = |ch: &worker::Channels<usize, usize>| { let mut l = ev.lock().unwrap(); let ok = ch.close(); l.push(json!({"k": "close", "w": 0, "v": 0, "b": []})); ok };
        let note = |k: &str, w: usize, v: usize| ev.lock().unwrap().push(json!({"k": k, "w": w, "v": v, "b": []}));
        send(&ch, 0, vec![g.start]);
        let mut best: Vec<usize> = vec![];
        let mut count = (0, 0, 0);
        let mut trouble = None;
        std::thread::scope(|sc| {
            let hs: Vec<_> = (1..=workers).map(|w| {
                let h = ch.handle();
                let (send, note, g) = (&send, &note, &g);
                sc.spawn(move || {
                    let mut r = Rng(seed.wrapping_add(w as u64 * 7919));
                    loop {
                        note("wait", w, 0);
                        let Some((v, hash, c)) = h.recv() else { note("end", w, 0); break };
                        note("got", w, v + 1);
                        if hash != v as u64 || c != g.c[v] as usize { return Some(format!("entry {v} came with hash {hash}, cost {c}")); }
                        if pace > 0 { let d = r.below(pace as usize) as u64; if d > pace / 2 { std::thread::sleep(Duration::from_micros(d)) } else { std::thread::yield_now() } }
                        if !send(&h, w, g.next[v].clone()) { break }
                        if pace == 0 && r.chance(1, 3) { std::thread::yield_now() }
                    }
                    None
                })
            }).collect();
            std::thread::sleep(Duration::from_micros(close_after_us));
            if !close(&ch) { trouble = Some("the queue thread was gone before it was told to stop".to_string()); }
            while let Some(m) = log() {
                match m {
                    worker::Log::NewBest(v, c) => { if c != cost(v) { trouble = Some(format!("state {v} announced with cost {c}")); } best.push(v + 1) }
                    worker::Log::Count(p, s, q) => count = (p, s, q),
                }
            }
            for h in hs { match h.join() { Ok(None) => {} Ok(t) => trouble = t, Err(_) => trouble = Some("a worker panicked".into()) } }
        });
        let _ = tx.send((best, count, trouble));
    });
    match rx.recv_timeout(Duration::from_secs(40)) {
        Ok((best, count, trouble)) => {
            case["log"] = json!(best);
            case["count"] = json!([count.0, count.1, count.2]);
            if let Some(t) = trouble { case["bad"] = json!(t); }
        }
        Err(_) => case["bad"] = json!("the threads did not stop, or one of them panicked"),
    }
    case["ev"] = json!(ev.lock().unwrap().clone());
    case
}
/// one driver that waits for the queue thread to settle between calls: hand-outs in exact order
mod synthetic {
    use super::Graph;
    use hugr::builder::{Dataflow, DataflowHugr, FunctionBuilder};
    use hugr::extension::prelude::qb_t;
    use hugr::types::Signature;
    use hugr::{ops::{handle::NodeHandle as _, OpType}, HugrView, Node};
    use std::sync::{Arc, Mutex};
    use tket::rewrite::strategy::{RewriteResult, RewriteStrategy};
    use tket::rewrite::{CircuitRewrite, Rewriter};
    use tket::Circuit;
    /// the search space as a strategy: circuit v has v + 1 gates
    #[derive(Clone)]
    pub struct Space { pub g: Arc<Graph>, pub circs: Arc<Vec<Circuit>>, pub log: Arc<Mutex<Vec<usize>>>, pub pause: bool }
    #[derive(Clone)]
    pub struct Nothing;
    impl Rewriter for Nothing { fn get_rewrites(&self, _: &Circuit<impl HugrView<Node = Node>>) -> Vec<CircuitRewrite> { vec![] } }
    pub fn which(c: &Circuit<impl HugrView<Node = Node>>) -> usize { c.num_operations() - 1 }
    pub fn circuits(n: usize, twins: &[i64]) -> Vec<Circuit> {
        (0..n).map(|v| {
            let v = twins.iter().position(|&h| h == twins[v]).unwrap_or(v);
            let mut b = FunctionBuilder::new("main", Signature::new_endo(vec![qb_t()])).unwrap();
            let mut w = b.input_wires().next().unwrap();
            for _ in 0..=v { w = b.add_dataflow_op(tket::TketOp::T, [w]).unwrap().out_wire(0); }
            Circuit::new(b.finish_hugr_with_outputs([w]).unwrap())
        }).collect()
    }
    impl RewriteStrategy for Space {
        type Cost = usize;
        fn apply_rewrites(&self, _: impl IntoIterator<Item = CircuitRewrite>, circ: &Circuit) -> impl Iterator<Item = RewriteResult<usize>> {
            let v = which(circ);
            self.log.lock().unwrap().push(v);
            if self.pause { std::thread::sleep(std::time::Duration::from_micros(300 * (v as u64 % 4))); }
            let me = self.clone();
            self.g.next[v].clone().into_iter().map(move |w| RewriteResult { circ: me.circs[w].clone(), cost_delta: me.g.c[w] as isize - me.g.c[v] as isize })
        }
        fn op_cost(&self, _: &OpType) -> usize { 1 }
        fn circuit_cost(&self, circ: &Circuit<impl HugrView<Node = Node>>) -> usize { self.g.c[which(circ)] as usize }
    }
}
use synthetic::{circuits, which, Nothing, Space};
use tket::optimiser::badger::{BadgerOptimiser, BadgerOptions};
struct Outcome { visits: Vec<usize>, best: Option<usize>, quiet: Duration, err: Option<String> }
fn badger(g: &Graph, opts: BadgerOptions, pause: bool, patience: u64) -> Outcome {
    let log: Arc<Mutex<Vec<usize>>> = Default::default();
    let s = Space { g: Arc::new(g.clone()), circs: Arc::new(circuits(g.h.len(), &g.h)), log: log.clone(), pause };
    let (tx, rx) = std::sync::mpsc::channel();
    let start = s.circs[g.start].clone();
    let watch = log.clone();
    std::thread::spawn(move || { let r = guard(|| BadgerOptimiser::new(Nothing, s).optimise(&start, opts)); let _ = tx.send(r.map(|c| which(&c))); });
    // how long nothing had happened when the search ended
    let (t0, mut last, mut n) = (std::time::Instant::now(), std::time::Instant::now(), 0);
    loop {
        match rx.recv_timeout(Duration::from_millis(10)) {
            Ok(r) => {
                let visits = watch.lock().unwrap().clone();
                let quiet = if visits.len() == n { last.elapsed() } else { Duration::ZERO };
                return match r { Ok(b) => Outcome { visits, best: Some(b), quiet, err: None }, Err(e) => Outcome { visits, best: None, quiet, err: Some(e) } };
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => return Outcome { visits: vec![], best: None, quiet: Duration::ZERO, err: Some("the optimiser vanished".into()) },
        }
        let m = watch.lock().unwrap().len();
        if m != n { n = m; last = std::time::Instant::now(); }
        if t0.elapsed() > Duration::from_secs(patience) { return Outcome { visits: watch.lock().unwrap().clone(), best: None, quiet: Duration::ZERO, err: Some("the optimiser did not stop".into()) }; }
    }
}
/// graphs whose circuits are told apart by structure: equal hash means equal state
fn proper(mut g: Graph) -> Graph {
    for v in 0..g.h.len() {
        if g.h[v] < 0 { g.h[v] = v as i64 }
        if g.c[v] < 0 { g.c[v] = 1 }
    }
    for v in 0..g.h.len() { g.h[v] = v as i64; }
    g
}
fn badger_run(id: String, g: Graph, threads: usize, mut o: BadgerOptions, want_complete: bool, pause: bool) -> (&'static str, J) {
    o.n_threads = std::num::NonZeroUsize::new(threads).unwrap();
    let mut tries = 0;
    let out = loop {
        let out = badger(&g, o, pause, 60);
        tries += 1;
        // a starved machine may cut the search short: then give it more time
        if !want_complete || threads == 1 || out.err.is_some() || out.quiet > Duration::from_millis(700) || tries == 3 { break out; }
        o.timeout = o.timeout.map(|t| t * 4);
        o.progress_timeout = o.progress_timeout.map(|t| t * 4);
    };
    let v1: Vec<_> = out.visits.iter().map(|v| v + 1).collect();
    let mut case = json!({"id": id, "nodes": graph_json(&g), "start": g.start + 1, "cap": o.queue_size, "maxv": o.max_circuit_count.map_or(-1, |x| x as i64), "n": -1,
        "visits": v1, "best": out.best.map_or(1, |b| b + 1), "list": [], "complete": want_complete && out.quiet > Duration::from_millis(700)});
    if let Some(e) = out.err { case["bad"] = json!(e); }
    (if threads == 1 { "SearchTrace" } else { "BadgerTrace" }, case)
}
pub fn c06(c: &mut Ctx) {
    let mut r = Rng(c.seed ^ 0x66);
    let mut todo = vec![];
    for k in 0..c.n(300, 3000) {
        let g = proper(Graph::random(&mut r));
        let cap = if r.chance(1, 2) { 1 + r.below(4) } else { 20 };
        todo.push((format!("w{k}"), g, cap, 1 + r.below(3), [0, 50, 200, 1000, 5000][r.below(5)], [0, 20, 300][r.below(3)], r.next()));
    }
    let runs = par(todo, |(id, g, cap, w, close, pace, seed)| thread_run(id, g, cap, w, close, pace, seed));
    out(c, "WorkerTrace", runs, 150);
    // whole optimiser: mostly waiting, so many at once
    let mut todo = vec![];
    for k in 0..c.n(48, 480) {
        let g = proper(Graph::random(&mut r));
        let n = g.h.len();
        let threads = [1, 2, 3, 4][r.below(4)];
        let mut o = BadgerOptions { queue_size: if r.chance(1, 3) { 1 + r.below(4) } else { 30 }, ..Default::default() };
        let mut complete = o.queue_size >= n;
        if threads > 1 {
            match r.below(4) {
                0 => o.progress_timeout = Some(1),
                1 => { o.timeout = Some(0); complete = false }
                2 => { o.timeout = Some(1); o.max_circuit_count = Some(1 + r.below(4)); complete = false }
                _ => o.timeout = Some(1),
            }
        } else if r.chance(1, 2) { o.max_circuit_count = Some(1 + r.below(5)); }
        todo.push((format!("b{k}"), g, threads, o, complete, r.chance(1, 2)));
    }
    let todo = Mutex::new(todo.into_iter());
    let done = Mutex::new(vec![]);
    std::thread::scope(|sc| for _ in 0..16 {
        sc.spawn(|| loop {
            let Some((id, g, t, o, complete, pause)) = todo.lock().unwrap().next() else { break };
            let x = badger_run(id, g, t, o, complete, pause);
            done.lock().unwrap().push(x);
        });
    });
    let mut done = done.into_inner().unwrap();
    done.sort_by_key(|(_, j)| j["id"].as_str().unwrap().to_string());
    for m in ["BadgerTrace", "SearchTrace"] {
        let cs: Vec<J> = done.iter().filter(|(n, _)| *n == m).map(|(_, j)| j.clone()).collect();
        c.stat("complete", cs.iter().filter(|j| j["complete"] == true).count());
        out(c, m, cs, 200);
    }
}
