//! Case collection shared by all checks.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

use hugr::{Hugr, HugrView};
use serde_json::{json, Value as J};

use crate::prog::Prog;

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub out: PathBuf,
    pub cases: Vec<J>,
    pub limit: usize,
    pub infos: Vec<(String, J)>,
    pub stats: serde_json::Map<String, J>,
    pub file: usize,
    pub jobs: Vec<(String, String, Prog, usize, Box<dyn FnOnce(&Hugr) -> Vec<J> + Send>)>,
}
/// f on every item, on all cores, results in order
pub fn par<T: Send, R: Send>(items: Vec<T>, f: impl Fn(T) -> R + Sync) -> Vec<R> {
    let n = items.len();
    let todo = std::sync::Mutex::new(items.into_iter().enumerate());
    let done = std::sync::Mutex::new((0..n).map(|_| None).collect::<Vec<Option<R>>>());
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    std::thread::scope(|sc| {
        for _ in 0..workers {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || loop {
                let Some((k, x)) = todo.lock().unwrap().next() else { break };
                let r = f(x);
                done.lock().unwrap()[k] = Some(r);
            }).unwrap();
        }
    });
    done.into_inner().unwrap().into_iter().map(|r| r.unwrap()).collect()
}
thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file().rsplit("/repo/").next().unwrap(), l.line())).unwrap_or_default();
        LAST.with(|x| *x.borrow_mut() = format!("panic at {l}: {}", m.chars().take(300).collect::<String>()));
        if std::env::var("VERIF_TRACE").is_ok() { eprintln!("panic at {l}: {m}\n{}", std::backtrace::Backtrace::force_capture()); }
    }));
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|x| x.borrow().clone()))
}
/// guard for fallible code
pub fn attempt<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Result<T, String> {
    match guard(f) { Ok(Ok(x)) => Ok(x), Ok(Err(e)) => Err(format!("error: {}", e.to_string().chars().take(400).collect::<String>())), Err(p) => Err(p) }
}
pub fn bad(why: impl Into<String>) -> J { json!({"bad": why.into()}) }
/// a side: the program at `node`, checked to be valid
pub fn side_at(h: &Hugr, node: hugr::Node) -> J {
    if let Err(e) = attempt(|| h.validate()) { return bad(format!("invalid HUGR: {e}")); }
    match guard(|| crate::export::export(h, node)) {
        Ok((j, p)) if p.is_empty() => j,
        Ok((_, p)) => bad(format!("malformed HUGR: {}", p.join("; "))),
        Err(e) => bad(format!("malformed HUGR: {e}")),
    }
}
pub fn side(h: &Hugr) -> J { side_at(h, h.entrypoint()) }
pub fn side_or(h: Result<Hugr, String>) -> J { match h { Ok(h) => side(&h), Err(e) => bad(e) } }

impl Ctx {
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
    pub fn case(&mut self, id: impl Into<String>, mode: &str, kinds: Vec<&str>, inputs: Vec<Vec<J>>, sides: Vec<J>, info: J) {
        let id: String = id.into();
        if let Ok(x) = std::env::var("VERIF_CASE") { if x != id { return; } }
        self.cases.push(json!({"id": id, "mode": mode, "kinds": kinds, "inputs": inputs, "sides": sides, "info": info}));
        if self.cases.len() >= if self.thorough { 60 } else { 24 } { self.flush(); }
    }
    /// several files so that a stuck case cannot hide others and JSON loading stays cheap;
    /// the model gets the cases, the generating programs stay beside them for replay
    fn flush(&mut self) {
        let mut cs = std::mem::take(&mut self.cases);
        if cs.is_empty() { return; }
        for c in &mut cs { let i = c.as_object_mut().unwrap().remove("info").unwrap(); self.infos.push((c["id"].as_str().unwrap().into(), i)); }
        self.write(&format!("Equiv.{}.json", self.file), &json!({"limit": self.limit, "cases": cs}));
        self.file += 1;
    }
    /// a case whose first side is the program as generated
    pub fn prog_case(&mut self, id: impl Into<String>, mode: &str, p: &Prog, cap: usize, sides: Vec<J>) {
        let id: String = id.into();
        if std::env::var("VERIF_CASE").is_ok_and(|x| x != id) { return; }
        let h = p.build();
        let mut all = vec![side(&h)];
        all.extend(sides);
        self.case(id, mode, p.kinds(), p.inputs(cap), all, serde_json::to_value(p).unwrap());
    }
    /// like prog_case, with the work on the program put off and done in parallel; the job gets the built program
    pub fn job(&mut self, id: impl Into<String>, mode: &str, p: Prog, cap: usize, f: impl FnOnce(&Hugr) -> Vec<J> + Send + 'static) {
        let id: String = id.into();
        if std::env::var("VERIF_CASE").is_ok_and(|x| x != id) { return; }
        self.jobs.push((id, mode.into(), p, cap, Box::new(f)));
        if self.jobs.len() >= 480 { self.run_jobs(); }
    }
    pub fn run_jobs(&mut self) {
        let jobs = std::mem::take(&mut self.jobs);
        let done = par(jobs, |(id, mode, p, cap, f)| {
            let h = p.build();
            let mut all = vec![side(&h)];
            all.extend(f(&h));
            (id, mode, p.kinds(), p.inputs(cap), all, serde_json::to_value(&p).unwrap())
        });
        for (id, mode, kinds, inputs, all, info) in done { self.case(id, &mode, kinds, inputs, all, info); }
    }
    pub fn stat(&mut self, k: &str, n: usize) {
        let e = self.stats.entry(k.to_string()).or_insert(json!(0));
        *e = json!(e.as_u64().unwrap_or(0) + n as u64);
    }
    pub fn write(&self, name: &str, v: &J) {
        std::fs::write(self.out.join(name), serde_json::to_string(v).unwrap()).unwrap();
    }
    pub fn finish(&mut self) {
        self.run_jobs();
        self.flush();
        let info: serde_json::Map<String, J> = std::mem::take(&mut self.infos).into_iter().collect();
        self.write("info.json", &J::Object(info));
        self.write("stats.json", &J::Object(self.stats.clone()));
    }
}
