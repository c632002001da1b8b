//! C41: programs and rule sets written out and read back.
use std::collections::HashMap;

use hugr::envelope::{EnvelopeConfig, EnvelopeFormat};
use hugr::extension::ExtensionRegistry;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::OpType;
use hugr::package::Package;
use hugr::ops::DataflowOpTrait;
use hugr::{Hugr, HugrView, Node, PortIndex};
use hugr_core::hugr::internal::HugrInternals;
use serde_json::{json, Value as J};
use tket::optimiser::badger::EqCircClass;
use tket::rewrite::{ECCRewriter, Rewriter};
use tket::Circuit;

use crate::c_circuit::circ_cfgs;
use crate::c_hash::op_text;
use crate::c_rewrite::{rule_sets, target};
use crate::ctx::*;
use crate::gen::*;
use crate::rng::Rng;

/// a number that stands for a text
pub fn num(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) % 2147483629 }
fn op_id(o: &OpType) -> u64 { num(&if matches!(o, OpType::OpaqueOp(_)) { format!("unresolved {}", op_text(o)) } else if let OpType::ExtensionOp(e) = o { format!("{} {}", op_text(o), e.signature()) } else { op_text(o) }) }
fn sig_of(h: &Hugr, n: Node) -> String {
    match h.get_optype(n) { OpType::FuncDefn(f) => f.signature().to_string(), _ => h.inner_function_type_at(n) }
}
trait At { fn inner_function_type_at(&self, n: Node) -> String; }
impl At for Hugr { fn inner_function_type_at(&self, n: Node) -> String { use hugr::ops::OpTrait; use hugr::ops::OpParent; let o = self.get_optype(n); o.inner_function_type().map(|s| s.to_string()).or_else(|| o.dataflow_signature().map(|s| s.to_string())).unwrap_or_default() } }
/// the text of a constant, its numbers to 12 digits: the JSON library this repository is built with reads some of them back one unit in the last place off
fn rounded(o: &OpType) -> String {
    fn walk(j: &mut J) {
        match j {
            J::Number(n) if n.is_f64() => *j = json!(format!("{:.12e}", n.as_f64().unwrap())),
            J::Array(v) => v.iter_mut().for_each(walk),
            J::Object(o) => o.values_mut().for_each(walk),
            _ => (),
        }
    }
    let mut j = serde_json::from_str(&op_text(o)).unwrap_or(J::Null);
    walk(&mut j);
    j.to_string()
}
/// everything there is to a program (a constant belongs to the operation that loads it): operations in hierarchical order, edges, metadata, functions, entrypoint
pub fn content(h: &Hugr) -> J {
    let order = { let mut v = vec![]; let mut todo = vec![h.module_root()]; while let Some(n) = todo.pop() { if !h.get_optype(n).is_const() { v.push(n); } let mut k: Vec<Node> = h.children(n).collect(); k.reverse(); todo.extend(k); } v };
    let at: HashMap<Node, usize> = order.iter().enumerate().map(|(k, n)| (*n, k + 1)).collect();
    let meta = |n: Node| { let mut v: Vec<String> = h.node_metadata_map(n).iter().map(|(k, v)| format!("{k}={v}")).collect(); v.sort(); num(&v.join(";")) };
    let id = |n: Node| match h.get_optype(n) { OpType::LoadConstant(l) => num(&format!("load {}", h.single_linked_output(n, l.constant_port()).map_or(String::new(), |k| rounded(h.get_optype(k.0))))), o => op_id(o) };
    let nodes: Vec<J> = order.iter().map(|&n| json!([id(n), h.get_parent(n).map_or(0, |p| at[&p]), meta(n)])).collect();
    let mut edges = vec![];
    for &n in &order { for p in h.node_outputs(n) { for (m, q) in h.linked_inputs(n, p) { edges.push([at[&n], p.index(), at[&m], q.index()]); } } }
    if std::env::var("DBG").is_ok() { for (k, n) in order.iter().enumerate() { eprintln!("{} {} {:?} {:?}", k + 1, op_text(h.get_optype(*n)).chars().take(220).collect::<String>(), h.get_parent(*n).map(|p| at[&p]), h.node_metadata_map(*n)); } eprintln!("--"); }
    edges.sort();
    let funcs: Vec<J> = h.children(h.module_root()).filter_map(|n| h.get_optype(n).as_func_defn().map(|f| json!([f.func_name(), at[&n], f.signature().params().is_empty(), num(&sig_of(h, n))]))).collect();
    json!({"entry": at[&h.entrypoint()], "nodes": nodes, "edges": edges, "funcs": funcs, "sig": num(&sig_of(h, h.entrypoint()))})
}
fn formats() -> Vec<(&'static str, EnvelopeConfig)> {
    vec![
        ("text", EnvelopeConfig::text()), ("binary", EnvelopeConfig::binary()),
        ("json", EnvelopeConfig::new(EnvelopeFormat::PackageJson).disable_compression()),
        ("json-zstd", EnvelopeConfig::new(EnvelopeFormat::PackageJson).with_zstd(Default::default())),
        ("model", EnvelopeConfig::new(EnvelopeFormat::Model).disable_compression()),
        ("model-ext", EnvelopeConfig::new(EnvelopeFormat::ModelWithExtensions).with_zstd(Default::default())),
    ]
}
fn printable(k: usize) -> bool { matches!(k, 0 | 2) }
/// metadata, and an entrypoint somewhere in the program
fn dress(h: &mut Hugr, r: &mut Rng, entry: bool) {
    let all: Vec<Node> = h.descendants(h.module_root()).collect();
    for n in &all {
        // The model format has no place for the metadata of these kinds of nodes.
        let kept = !matches!(h.get_optype(*n), OpType::Const(_) | OpType::Input(_) | OpType::Output(_) | OpType::Case(_) | OpType::DataflowBlock(_) | OpType::ExitBlock(_));
        if kept && r.chance(1, 4) {
            let v = match r.below(5) { 0 => json!(r.below(1000)), 1 => json!("a \"text\"\n~ä"), 2 => json!([1, null, {"b": true}]), 3 => json!(-0.5), _ => json!(null) };
            h.set_metadata(*n, ["a.b", "name", "TKET.x"][r.below(3)], v);
        }
    }
    if entry {
        let ok: Vec<Node> = all.iter().copied().filter(|n| match h.get_optype(*n) { OpType::DFG(_) | OpType::DataflowBlock(_) | OpType::Case(_) | OpType::TailLoop(_) => true, OpType::FuncDefn(f) => f.signature().params().is_empty(), _ => false }).collect();
        h.set_entrypoint(*r.pick(&ok));
    }
}
fn save(h: &Hugr, k: usize, r: &mut Rng) -> Result<Vec<u8>, String> {
    let circ = Circuit::new(h);
    let cfg = formats()[k].1;
    if printable(k) && r.chance(1, 2) { attempt(|| circ.store_str(cfg)).map(|s| s.into_bytes()) } else { attempt(|| { let mut b = vec![]; circ.store(&mut b, cfg).map(|_| b) }) }
}
fn load(b: &[u8], reg: Option<&ExtensionRegistry>, r: &mut Rng) -> Result<Hugr, String> {
    match std::str::from_utf8(b) {
        Ok(s) if r.chance(1, 2) => attempt(|| Circuit::load_str(s, reg)).map(|c| c.into_hugr()),
        _ => attempt(|| Circuit::load(b, reg)).map(|c| c.into_hugr()),
    }
}
fn pick(b: &[u8], name: &str, r: &mut Rng) -> Result<Hugr, String> {
    match std::str::from_utf8(b) {
        Ok(s) if r.chance(1, 2) => attempt(|| Circuit::load_function_str(s, name)).map(|c| c.into_hugr()),
        _ => attempt(|| Circuit::load_function(b, name)).map(|c| c.into_hugr()),
    }
}
fn ev(act: &str) -> J { json!({"act": act, "h": 1, "f": 1, "hs": [], "name": "", "fmt": "", "err": "", "got": 0}) }
fn history(id: &str, progs: Vec<Hugr>, sys: bool, foreign: bool, r: &mut Rng) -> J {
    let (nh, nf) = (3, 3);
    let reg = ExtensionRegistry::new(progs.iter().flat_map(|h| h.extensions().iter().cloned().collect::<Vec<_>>()));
    let mut events = vec![];
    let mut mem: Vec<Option<Hugr>> = vec![None; nh];
    let mut files: Vec<Option<(Vec<u8>, usize)>> = vec![None; nf];
    let mut names: Vec<String> = vec!["absent".into()];
    for (k, h) in progs.into_iter().enumerate() {
        names.extend(h.children(h.module_root()).filter_map(|n| h.get_optype(n).as_func_defn().map(|f| f.func_name().clone())));
        let mut e = ev("new");
        e["h"] = json!(k + 1);
        e["got"] = content(&h);
        events.push(e);
        mem[k] = Some(h);
    }
    for _ in 0..10 {
        let f = r.below(nf);
        let full: Vec<usize> = (0..nf).filter(|f| files[*f].is_some()).collect();
        let kind = if full.is_empty() { 0 } else { r.below(6) };
        if kind < 2 {
            let hs: Vec<usize> = if kind == 1 && r.chance(1, 2) { (0..1 + r.below(3)).map(|_| r.below(nh)).collect() } else { vec![r.below(nh)] };
            let hs: Vec<usize> = hs.into_iter().filter(|h| mem[*h].is_some()).collect();
            if hs.is_empty() { continue; }
            let k = r.below(formats().len());
            let got = if hs.len() == 1 { save(mem[hs[0]].as_ref().unwrap(), k, r) } else {
                attempt(|| { let p = Package::new(hs.iter().map(|h| mem[*h].clone().unwrap()).collect::<Vec<_>>()); let mut b = vec![]; p.store(&mut b, formats()[k].1).map(|_| b) })
            };
            let mut e = ev("save");
            e["f"] = json!(f + 1);
            e["hs"] = json!(hs.iter().map(|h| h + 1).collect::<Vec<_>>());
            e["fmt"] = json!(formats()[k].0);
            match got { Ok(b) => files[f] = Some((b, k)), Err(x) => e["err"] = json!(format!("({}) {x}", formats()[k].0)) }
            events.push(e);
        } else {
            let f = *r.pick(&full);
            let (b, k) = files[f].clone().unwrap();
            let h = r.below(nh);
            let (act, name, got) = if kind < 4 || sys || foreign { ("load", String::new(), load(&b, if sys || foreign || r.chance(1, 2) { Some(&reg) } else { None }, r)) } else { let n = r.pick(&names).clone(); ("pick", n.clone(), pick(&b, &n, r)) };
            let mut e = ev(act);
            e["f"] = json!(f + 1);
            e["h"] = json!(h + 1);
            e["name"] = json!(name);
            e["fmt"] = json!(formats()[k].0);
            match got { Ok(p) => { e["got"] = content(&p); mem[h] = Some(p); } Err(x) => e["err"] = json!(if x.is_empty() { "error".into() } else { x }) }
            events.push(e);
        }
    }
    json!({"id": id, "handles": nh, "files": nf, "events": events})
}
/// what a rule set proposes, in a fixed order
fn proposals(rw: &ECCRewriter, circ: &Circuit) -> Result<J, String> {
    guard(|| {
        let mut v: Vec<(Vec<usize>, u64)> = rw.get_rewrites(circ).iter().map(|x| {
            let mut n: Vec<usize> = x.subgraph().nodes().iter().map(|n| portgraph_index(*n)).collect();
            n.sort();
            let ports = format!("{:?} {:?}", x.subgraph().incoming_ports(), x.subgraph().outgoing_ports());
            (n, num(&format!("{} {ports}", content(&x.replacement().to_owned().into_hugr()))))
        }).collect();
        v.sort();
        json!(v)
    })
}
fn portgraph_index(n: Node) -> usize { format!("{n}").chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap() }
pub fn c41(c: &mut Ctx) {
    let n = c.n(40, 600);
    let mut cfgs: Vec<(String, bool, Cfg)> = circ_cfgs().into_iter().map(|(a, b)| (a.to_string(), false, b)).collect();
    cfgs.extend(crate::c_sys::sys_cfgs().into_iter().map(|(a, b)| (format!("sys-{a}"), true, b)));
    // behaviour: a program saved and loaded, in every format
    for (nm, sys, cfg) in &cfgs {
        for k in 0..c.n(12, 200) {
            let s = c.seed.wrapping_mul(5501).wrapping_add(k as u64 * 41 + 3);
            let p = random(s, cfg);
            let sys = *sys || nm == "opaque";
            c.job(format!("run-{nm}-{k}"), if cfg.order { "seq" } else { "bag" }, p, 2, move |h| {
                let mut r = Rng::new(s ^ 0x4141);
                (0..formats().len()).filter(|_| true).filter(|f| (*f + k) % 3 == 0).map(|f| {
                    let reg = h.extensions().clone();
                    match save(h, f, &mut r).and_then(|b| if !sys && r.chance(1, 3) { let name = h.entrypoint_optype().as_func_defn().unwrap().func_name().clone(); pick(&b, &name, &mut r) } else { load(&b, Some(&reg), &mut r) }) {
                        Ok(h) => side(&h),
                        Err(e) => bad(format!("{}: {e}", formats()[f].0)),
                    }
                }).collect()
            });
        }
    }
    c.run_jobs();
    // content, over histories
    let mut cases = vec![];
    let mut jobs = vec![];
    for (nm, sys, cfg) in &cfgs { for k in 0..n { jobs.push((format!("store-{nm}-{k}"), *sys, cfg.clone(), c.seed.wrapping_mul(9973).wrapping_add(k as u64 * 29 + num(nm)))); } }
    let only = std::env::var("VERIF_CASE").ok();
    jobs.retain(|j| only.as_ref().is_none_or(|o| *o == j.0));
    cases.extend(par(jobs, |(id, sys, cfg, s)| {
        let mut r = Rng::new(s ^ 0x77);
        let progs: Vec<Hugr> = (0..1 + r.below(2)).map(|k| { let mut h = random(s + k as u64 * 1000003, &cfg).build(); let e = r.chance(1, 2); dress(&mut h, &mut r, e); h }).collect();
        history(&id, progs, sys, id.contains("opaque"), &mut r)
    }));
    c.stat("histories of saving and loading", cases.len());
    // rule sets
    let mut r = Rng::new(c.seed ^ 0x4242);
    let (sets, _) = rule_sets(c, &mut r, c.n(6, 60));
    let sets: Vec<_> = sets.into_iter().map(|s| (s, r.next())).collect();
    let per = c.n(8, 30);
    let rules: Vec<J> = par(sets, |(set, s)| {
        let mut r = Rng::new(s);
        let id = format!("rules-{}", set.name);
        let circs: Vec<Circuit> = (0..per).map(|_| { let (nq, len) = (3 + r.below(2), 6 + r.below(10)); Circuit::new(target(&mut r, &set, nq, len, 3).build()) }).collect();
        let classes: Vec<EqCircClass> = set.classes.iter().map(|v| EqCircClass::new(Circuit::new(v[0].build()), v[1..].iter().map(|p| Circuit::new(p.build())).collect::<Vec<_>>())).collect();
        let mut events = vec![];
        let mut new = |h: usize, id: usize| { let mut e = ev("new"); e["h"] = json!(h); e["got"] = json!([id]); events.push(e); };
        new(1, 1);
        let first = guard(|| ECCRewriter::from_eccs(classes.clone()));
        let Ok(first) = first else { let mut e = ev("ask"); e["err"] = json!("building"); events.push(e); return json!({"id": id, "handles": 3, "files": 3, "events": events}) };
        // the classes themselves can be written out and read back, which gives the same rules
        new(2, 1);
        let second = attempt(|| serde_json::to_string(&classes).and_then(|s| serde_json::from_str::<Vec<EqCircClass>>(&s))).and_then(|v| guard(|| ECCRewriter::from_eccs(v)));
        let second = match second { Ok(x) => x, Err(x) => { let mut e = ev("ask"); e["err"] = json!(format!("classes: {x}")); events.push(e); first.clone() } };
        let mut mem: Vec<Option<ECCRewriter>> = vec![Some(first), Some(second), None];
        let mut files: Vec<Option<Vec<u8>>> = vec![None; 3];
        let dir = std::env::temp_dir().join(format!("verif-store-{}-{}", std::process::id(), set.name));
        for step in 0..14 {
            let full: Vec<usize> = (0..3).filter(|f| files[*f].is_some()).collect();
            let h = { let ok: Vec<usize> = (0..3).filter(|h| mem[*h].is_some()).collect(); *r.pick(&ok) };
            match if step < 2 { 1 } else if step == 2 { 2 } else { r.below(4) } {
                1 => {
                    let f = r.below(3);
                    let mut e = ev("saver");
                    e["h"] = json!(h + 1);
                    e["f"] = json!(f + 1);
                    let rw = mem[h].as_ref().unwrap();
                    let b = if r.chance(1, 2) { attempt(|| { let mut b = vec![]; rw.save_binary_io(&mut b).map(|_| b) }) } else {
                        std::fs::create_dir_all(&dir).unwrap();
                        let b = attempt(|| rw.save_binary(dir.join("rules")).map_err(|e| e.to_string()).and_then(|p| std::fs::read(p).map_err(|e| e.to_string())));
                        std::fs::remove_dir_all(&dir).unwrap();
                        b
                    };
                    match b { Ok(b) => files[f] = Some(b), Err(x) => e["err"] = json!(x) }
                    events.push(e);
                }
                2 => {
                    let f = *r.pick(&full);
                    let h = r.below(3);
                    let mut e = ev("loadr");
                    e["h"] = json!(h + 1);
                    e["f"] = json!(f + 1);
                    let b = files[f].as_ref().unwrap();
                    match attempt(|| ECCRewriter::load_binary_io(&mut &b[..])) { Ok(x) => mem[h] = Some(x), Err(x) => e["err"] = json!(x) }
                    events.push(e);
                }
                _ => {}
            }
            for h in 0..3 {
                if mem[h].is_none() || !r.chance(1, 2) { continue; }
                for _ in 0..2 {
                    let q = r.below(circs.len());
                    let mut e = ev("ask");
                    e["h"] = json!(h + 1);
                    e["name"] = json!(format!("{q}"));
                    match proposals(mem[h].as_ref().unwrap(), &circs[q]) { Ok(x) => e["got"] = x, Err(x) => e["err"] = json!(x) }
                    events.push(e);
                }
            }
        }
        json!({"id": id, "handles": 3, "files": 3, "events": events})
    });
    c.stat("rule sets saved and loaded", rules.len());
    cases.extend(rules);
    cases.retain(|x| only.as_ref().is_none_or(|o| *o == x["id"].as_str().unwrap()));
    for (k, ch) in cases.chunks(40).enumerate() { c.write(&format!("StoreTrace.{k}.json"), &json!({"cases": ch})); }
}
