//! C40: names and written forms of operations, types and constants, and the extension definitions that are shipped as data.
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::Arc;

use hugr::builder::{Dataflow, DataflowHugr, FunctionBuilder};
use hugr::envelope::{EnvelopeConfig, EnvelopeFormat};
use hugr::extension::prelude::{bool_t, qb_t, usize_t};
use hugr::extension::simple_op::{MakeExtensionOp, MakeOpDef, MakeRegisteredOp};
use hugr::extension::ExtensionRegistry;
use hugr::ops::constant::{CustomConst, Value};
use hugr::ops::{DataflowOpTrait, ExtensionOp, OpName, OpTrait, OpType};
use hugr::std_extensions::arithmetic::{float_types::float64_type, int_types::INT_TYPES};
use hugr::std_extensions::collections::array::array_type;
use hugr::std_extensions::collections::borrow_array::borrow_array_type;
use hugr::types::{Signature, Type, TypeArg, TypeRow};
use hugr::{Extension, Hugr, HugrView};
use serde_json::{json, Value as J};
use strum::IntoEnumIterator;
use tket::extension::bool::{bool_type, BoolOp, ConstBool, BOOL_EXTENSION};
use tket::extension::debug::{StateResult, DEBUG_EXTENSION};
use tket::extension::global_phase::{GlobalPhase, GLOBAL_PHASE_EXTENSION};
use tket::extension::guppy::{DROP_OP_NAME, GUPPY_EXTENSION};
use tket::extension::modifier::{Modifier, MODIFIER_EXTENSION};
use tket::extension::rotation::{rotation_type, ConstRotation, RotationOp, ROTATION_EXTENSION};
use tket::extension::sympy::{SympyOp, SympyOpDef};
use tket::extension::TKET_EXTENSION;
use tket::TketOp;
use tket_qsystem::extension::futures::{self, future_type, FutureOp, FutureOpDef};
use tket_qsystem::extension::qsystem::{self, QSystemOp, RuntimeBarrierDef, RUNTIME_BARRIER_NAME};
use tket_qsystem::extension::random::{self, RandomOp, RandomType};
use tket_qsystem::extension::result::{self, ResultOp};
use tket_qsystem::extension::utils::{self, UtilsOp};
use tket_qsystem::extension::{gpu, wasm};

use crate::c_hash::op_text;
use crate::c_store::num;
use crate::ctx::*;
use crate::rng::Rng;

fn exts() -> Vec<Arc<Extension>> {
    vec![
        TKET_EXTENSION.clone(), BOOL_EXTENSION.clone(), DEBUG_EXTENSION.clone(), GLOBAL_PHASE_EXTENSION.clone(), GUPPY_EXTENSION.clone(), MODIFIER_EXTENSION.clone(), ROTATION_EXTENSION.clone(),
        futures::EXTENSION.clone(), qsystem::EXTENSION.clone(), random::EXTENSION.clone(), result::EXTENSION.clone(), utils::EXTENSION.clone(), gpu::EXTENSION.clone(), wasm::EXTENSION.clone(),
    ]
}
fn registry() -> ExtensionRegistry {
    let r = ExtensionRegistry::new(hugr::std_extensions::STD_REG.iter().cloned().chain(exts()));
    r.validate().unwrap();
    r
}
// ---------------------------------------------------------------- terms as trees
fn t(k: impl Into<String>, a: Vec<J>) -> J { json!({"k": k.into(), "i": 0, "a": a}) }
fn list(j: &J, f: fn(&J) -> J) -> J { t("[", j.as_array().map(|v| v.iter().map(f).collect()).unwrap_or_default()) }
fn var(k: &str, i: &J) -> J { json!({"k": k, "i": i, "a": []}) }
fn ty(j: &J) -> J {
    match j["t"].as_str().unwrap_or("") {
        "V" => var("var", &j["i"]),
        "R" => var("row", &j["i"]),
        "Opaque" => t(format!("{}.{}", j["extension"].as_str().unwrap(), j["id"].as_str().unwrap()), j["args"].as_array().unwrap().iter().map(arg).collect()),
        "Sum" if j["s"] == "Unit" => t("sum", (0..j["size"].as_u64().unwrap()).map(|_| t("[", vec![])).collect()),
        "Sum" => t("sum", j["rows"].as_array().unwrap().iter().map(|r| list(r, ty)).collect()),
        "G" => t("fn", vec![list(&j["input"], ty), list(&j["output"], ty)]),
        k => t(k, vec![]),
    }
}
fn arg(j: &J) -> J {
    match j["tya"].as_str().unwrap_or("") {
        "Type" => ty(&j["ty"]),
        "BoundedNat" => t(format!("n:{}", j["n"]), vec![]),
        "String" => t(format!("s:{}", j["arg"]), vec![]),
        "List" => t("[", j["elems"].as_array().unwrap().iter().map(|e| if e["cached_decl"]["tp"] == "List" { var("row", &e["idx"]) } else { arg(e) }).collect()),
        "Variable" => var("var", &j["idx"]),
        _ => t(j.to_string(), vec![]),
    }
}
fn sig_tree(s: &Signature) -> J {
    let j = serde_json::to_value(s).unwrap();
    t("fn", vec![list(&j["input"], ty), list(&j["output"], ty)])
}
// ---------------------------------------------------------------- operations
struct Inst { key: String, op: ExtensionOp, via: Option<OpType>, cast: fn(&OpType) -> Option<String> }
fn typed<T: MakeRegisteredOp + Debug + Clone>(v: &mut Vec<Inst>, ops: impl IntoIterator<Item = T>) where OpType: From<T> {
    for o in ops {
        fn cast<T: MakeRegisteredOp + Debug>(o: &OpType) -> Option<String> { o.cast::<T>().map(|x| format!("{} {x:?}", x.extension_id())) }
        let key = format!("{} {o:?}", o.extension_id());
        let ext = exts().into_iter().find(|e| *e.name() == o.extension_id()).unwrap();
        match ext.instantiate_extension_op(&o.op_id(), o.type_args()) {
            Ok(op) => v.push(Inst { key, op, via: Some(o.into()), cast: cast::<T> }),
            Err(e) => panic!("{key}: {e}"),
        }
    }
}
fn untyped(v: &mut Vec<Inst>, ext: &Arc<Extension>, name: &OpName, args: Vec<Vec<TypeArg>>, cast: fn(&OpType) -> Option<String>) {
    for a in args {
        let op = ext.instantiate_extension_op(name, a.clone()).unwrap();
        let key = cast(&OpType::from(op.clone())).unwrap_or("?".into());
        v.push(Inst { key, op, via: None, cast });
    }
}
fn text_of(o: &OpType) -> Option<String> { o.as_extension_op().map(|e| format!("{} {:?}", e.qualified_id(), serde_json::to_string(e.args()).unwrap())) }
/// reads the definition with the enum `T` and adds the arguments
fn defined<T: MakeOpDef + Debug>(o: &OpType) -> Option<String> { o.as_extension_op().and_then(|e| T::from_def(e.def()).ok().map(|d| format!("{} {d:?} {}", d.extension(), serde_json::to_string(e.args()).unwrap()))) }
fn types(depth: usize) -> Vec<Type> {
    let mut v = vec![bool_t(), qb_t(), usize_t(), float64_type(), rotation_type(), bool_type(), INT_TYPES[0].clone(), INT_TYPES[6].clone(), Type::UNIT, Type::new_tuple(vec![bool_t(), qb_t()]), Type::new_sum([vec![], vec![INT_TYPES[5].clone()]]), Type::new_function(Signature::new(vec![qb_t(), bool_t()], vec![qb_t()])), array_type(3, bool_t()), borrow_array_type(2, qb_t()), wasm::WasmType::Module.into(), wasm::WasmType::Context.into(), gpu::GpuType::Context.into(), gpu::GpuType::Module.into(), random_context()];
    if depth > 0 {
        for x in types(depth - 1) { v.push(future_type(x.clone())); v.push(wasm::WasmType::Result { outputs: vec![x.clone()].into() }.into()); v.push(gpu::GpuType::new_func(vec![x.clone()], vec![bool_t(), x]).into()); }
    }
    v
}
fn random_context() -> Type { let _ = RandomType::RNGContext; random::RandomOp::RandomInt.to_extension_op().unwrap().signature().input[0].clone() }
fn rows() -> Vec<Vec<Type>> {
    let (i, f, b) = (INT_TYPES[6].clone(), float64_type(), bool_t());
    vec![vec![], vec![i.clone()], vec![f.clone()], vec![i.clone(), i.clone()], vec![f.clone(), i.clone()], vec![i, f, b], vec![usize_t(), Type::new_tuple(vec![bool_t(), bool_t()])]]
}
fn row(v: &[Type]) -> TypeRow { v.to_vec().into() }
fn tag(v: &[Type]) -> TypeArg { TypeArg::new_list(v.iter().map(|x| x.clone().into()).collect::<Vec<TypeArg>>()) }
fn insts(c: &Ctx) -> Vec<Inst> {
    let mut v = vec![];
    let mut r = Rng::new(c.seed ^ 0x4040);
    typed(&mut v, TketOp::iter());
    typed(&mut v, BoolOp::iter());
    typed(&mut v, RotationOp::iter());
    typed(&mut v, [GlobalPhase]);
    typed(&mut v, QSystemOp::iter());
    typed(&mut v, RandomOp::iter());
    typed(&mut v, UtilsOp::iter());
    let mut tags: Vec<String> = ["", "a", "b", "a.b", " pad ", "two words", "A", "USER:INT:x", "\u{fc} \"q\"\\n\n", "[]", "1"].iter().map(|s| s.to_string()).collect();
    for _ in 0..c.n(4, 40) { tags.push((0..r.below(12)).map(|_| *r.pick(&['a', 'Z', '0', '_', '.', ':', '"', ' ', '\u{3c0}', '{'])).collect()); }
    let mut sizes: Vec<u64> = vec![0, 1, 2, 3, 10, 255, 256, 257, 65536, 1 << 32];
    for _ in 0..c.n(4, 40) { sizes.push(r.next() >> (1 + r.below(60))); }
    typed(&mut v, tags.iter().map(|s| SympyOpDef.with_expr(s.clone())).collect::<Vec<SympyOp>>());
    for s in &tags {
        typed(&mut v, sizes.iter().map(|n| StateResult::new(s.clone(), *n)));
        let mut one = vec![ResultOp::new_bool(s), ResultOp::new_f64(s)];
        for w in 0..7 { one.extend([ResultOp::new_int(s, w), ResultOp::new_uint(s, w)]); }
        for o in one.clone() { for n in &sizes { if r.chance(1, 2) { one.push(o.clone().array_op(*n)); } } }
        typed(&mut v, one);
    }
    let tys = types(c.n(1, 2));
    for x in &tys { typed(&mut v, FutureOpDef::iter().map(|op| FutureOp { op, typ: x.clone() })); }
    let mut rs = rows();
    for _ in 0..c.n(6, 60) { let v: Vec<Type> = (0..r.below(4)).map(|_| r.pick(&tys[..9]).clone()).collect(); rs.push(v); }
    rs.retain(|v| v.iter().all(|t| t.copyable()));
    let mut compute = |name: &str, n: u64, a: &[Type], b: &[Type], v: &mut Vec<Inst>| {
        macro_rules! ops { ($m:ident, $o:ident) => {
            typed(v, [
                $m::$o::GetContext, $m::$o::DisposeContext,
                $m::$o::LookupById { id: n, inputs: a.to_vec().into(), outputs: b.to_vec().into() },
                $m::$o::LookupByName { name: name.into(), inputs: a.to_vec().into(), outputs: b.to_vec().into() },
                $m::$o::Call { inputs: row(a), outputs: row(b) },
                $m::$o::ReadResult { outputs: row(b) },
            ]);
        } }
        ops!(wasm, WasmOp);
        ops!(gpu, GpuOp);
    };
    for (k, a) in rs.iter().enumerate() { for (l, b) in rs.iter().enumerate() { compute(&tags[(k + l) % tags.len()], sizes[(k * 3 + l) % sizes.len()], a, b, &mut v); } }
    untyped(&mut v, &qsystem::EXTENSION, &RUNTIME_BARRIER_NAME, sizes.iter().map(|n| vec![(*n).into()]).collect(), defined::<RuntimeBarrierDef>);
    untyped(&mut v, &GUPPY_EXTENSION, &DROP_OP_NAME, tys.iter().map(|x| vec![x.clone().into()]).collect(), text_of);
    let mut mrows = rs.clone();
    mrows.extend([vec![qb_t()], vec![qb_t(), bool_t()], vec![array_type(2, qb_t())], vec![qb_t(), rotation_type(), qb_t()]]);
    for m in Modifier::iter() {
        let args = mrows.iter().flat_map(|a| mrows.iter().map(move |b| (a, b))).filter(|(_, b)| m != Modifier::PowerModifier || b.iter().all(|t| t.copyable())).enumerate().map(|(k, (a, b))| match m {
            Modifier::ControlModifier => vec![sizes[k % sizes.len()].into(), tag(a), tag(b)],
            _ => vec![tag(a), tag(b)],
        }).collect();
        untyped(&mut v, &MODIFIER_EXTENSION, &m.opdef_id(), args, defined::<Modifier>);
    }
    v
}
fn formats() -> Vec<(&'static str, EnvelopeConfig)> {
    vec![("reading json", EnvelopeConfig::text()), ("reading the model format", EnvelopeConfig::new(EnvelopeFormat::Model).disable_compression())]
}
fn doc(o: &OpType) -> J { json!(format!("{}#{}", o.as_extension_op().map(|e| e.qualified_id().to_string()).unwrap_or_default(), num(&op_text(o)))) }
fn told(how: &str, o: Result<OpType, String>, cast: fn(&OpType) -> Option<String>) -> J {
    match o {
        Ok(o) => json!({"how": how, "err": "", "key": cast(&o).unwrap_or_else(|| format!("something else: {o}")), "doc": doc(&o), "sig": o.dataflow_signature().map(|s| sig_tree(&s)).unwrap_or(t("none", vec![]))}),
        Err(e) => json!({"how": how, "err": e, "key": "", "doc": "", "sig": t("none", vec![])}),
    }
}
fn op_event(x: &Inst, reg: &ExtensionRegistry) -> J {
    let o = OpType::from(x.op.clone());
    let sig = x.op.signature().into_owned();
    let mut back = vec![told("recognising the operation", Ok(o.clone()), x.cast)];
    if let Some(v) = &x.via { back.push(told("building the operation", Ok(v.clone()), x.cast)); }
    back.push(told("reading the operation", attempt(|| -> Result<OpType, String> {
        let text = serde_json::to_string(&o).map_err(|e| e.to_string())?;
        let mut r: OpType = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        // an operation on its own is read as an opaque one, which the registry resolves
        let OpType::OpaqueOp(q) = &r else { return Ok(r) };
        let e = reg.get(q.extension()).ok_or("no extension")?;
        r = e.instantiate_extension_op(q.unqualified_id(), q.args().to_vec()).map_err(|e| e.to_string())?.into();
        Ok(r)
    }), x.cast));
    let h = attempt(|| -> Result<Hugr, String> {
        let mut b = FunctionBuilder::new("main", sig.clone()).map_err(|e| e.to_string())?;
        let n = b.add_dataflow_op(x.op.clone(), b.input_wires()).map_err(|e| e.to_string())?;
        b.finish_hugr_with_outputs(n.outputs()).map_err(|e| e.to_string())
    });
    for (how, cfg) in formats() {
        back.push(told(how, h.clone().and_then(|h| attempt(|| -> Result<OpType, String> {
            let mut b = vec![];
            h.store(&mut b, cfg).map_err(|e| e.to_string())?;
            let h = Hugr::load(&b[..], Some(reg)).map_err(|e| e.to_string())?;
            h.validate().map_err(|e| e.to_string())?;
            let f = h.entrypoint();
            let n = h.children(f).nth(2).ok_or("no operation")?;
            Ok(h.get_optype(n).clone())
        })), x.cast));
    }
    json!({"act": "op", "key": x.key, "name": x.op.qualified_id().to_string(), "args": serde_json::to_value(x.op.args()).unwrap().as_array().unwrap().iter().map(arg).collect::<Vec<_>>(), "sig": sig_tree(&sig), "doc": doc(&o), "back": back})
}
// ---------------------------------------------------------------- types and constants
fn val(key: String, doc: String, back: Vec<(&str, Result<(String, String), String>)>) -> J {
    let n = t("none", vec![]);
    let back: Vec<J> = back.into_iter().map(|(how, r)| match r { Ok((k, d)) => json!({"how": how, "err": "", "key": k, "doc": d, "sig": n}), Err(e) => json!({"how": how, "err": e, "key": "", "doc": "", "sig": n}) }).collect();
    json!({"act": "val", "key": key, "doc": doc, "sig": n, "back": back})
}
fn type_event(x: &Type, reg: &ExtensionRegistry) -> J {
    let key = |x: &Type| format!("type {x:?} {}", if x.copyable() { "copyable" } else { "linear" });
    let text = |x: &Type| serde_json::to_string(x).unwrap();
    let mut back = vec![("reading the type", attempt(|| serde_json::from_str::<Type>(&text(x))).map(|y| (key(&y), text(&y))))];
    if let Ok(y) = wasm::WasmType::try_from(x.clone()) { let y: Type = y.into(); back.push(("recognising the type", Ok((key(&y), text(&y))))); }
    if let Ok(y) = gpu::GpuType::try_from(x.clone()) { let y: Type = y.into(); back.push(("recognising the type", Ok((key(&y), text(&y))))); }
    for (how, cfg) in formats() {
        back.push((how, attempt(|| -> Result<(String, String), String> {
            let b = FunctionBuilder::new("main", Signature::new_endo(vec![x.clone()])).map_err(|e| e.to_string())?;
            let w = b.input_wires();
            let h = b.finish_hugr_with_outputs(w).map_err(|e| e.to_string())?;
            let mut b = vec![];
            h.store(&mut b, cfg).map_err(|e| e.to_string())?;
            let h = Hugr::load(&b[..], Some(reg)).map_err(|e| e.to_string())?;
            h.validate().map_err(|e| e.to_string())?;
            let y = h.inner_function_type().unwrap().input[0].clone();
            Ok((key(&y), text(&y)))
        })));
    }
    val(key(x), text(x), back)
}
fn const_event<T: CustomConst + Debug + Clone>(x: T, reg: &ExtensionRegistry) -> J {
    let key = |v: &Value| match v.get_custom_value::<T>() { Some(x) => format!("constant {} {x:?} : {}", x.name(), v.get_type()), None => format!("something else: {v:?}") };
    let text = |v: &Value| serde_json::to_string(v).unwrap();
    let v: Value = x.clone().into();
    let mut back = vec![("reading the constant", attempt(|| serde_json::from_str::<Value>(&text(&v))).map(|y| (key(&y), text(&y))))];
    for (how, cfg) in formats() {
        back.push((how, attempt(|| -> Result<(String, String), String> {
            let mut b = FunctionBuilder::new("main", Signature::new(vec![], vec![v.get_type()])).map_err(|e| e.to_string())?;
            let w = b.add_load_value(v.clone());
            let h = b.finish_hugr_with_outputs([w]).map_err(|e| e.to_string())?;
            let mut b = vec![];
            h.store(&mut b, cfg).map_err(|e| e.to_string())?;
            let h = Hugr::load(&b[..], Some(reg)).map_err(|e| e.to_string())?;
            h.validate().map_err(|e| e.to_string())?;
            let y = h.nodes().find_map(|n| h.get_optype(n).as_const().map(|c| c.value().clone())).ok_or("no constant")?;
            Ok((key(&y), text(&y)))
        })));
    }
    val(key(&v), text(&v), back)
}
// ---------------------------------------------------------------- shipped definitions
fn shipped() -> BTreeMap<String, J> {
    let root = std::path::PathBuf::from(std::env::var("REPO").unwrap_or("/repo".into())).join("tket-exts/src/tket_exts/data");
    let mut m = BTreeMap::new();
    let mut todo = vec![root.clone()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() { todo.push(p); continue; }
            if p.extension().is_none_or(|x| x != "json") { continue; }
            let name = p.strip_prefix(&root).unwrap().with_extension("").to_string_lossy().replace('/', ".");
            m.insert(name, serde_json::from_str(&std::fs::read_to_string(&p).unwrap()).unwrap_or(json!("unreadable")));
        }
    }
    m
}
fn brief(j: Option<&J>) -> String { match j { None => "missing".into(), Some(j) => { let s = j.to_string(); format!("{} #{}", s.chars().take(60).collect::<String>(), num(&s)) } } }
fn def_events(name: &str, code: Option<&J>, data: Option<&J>) -> Vec<J> {
    let ev = |n: String, a: Option<&J>, b: Option<&J>| json!({"act": "def", "name": n, "got": brief(a), "want": brief(b)});
    let (Some(code), Some(data)) = (code, data) else { return vec![ev(name.into(), code, data)] };
    let mut v = vec![];
    for part in ["name", "version"] { v.push(ev(format!("{name} {part}"), code.get(part), data.get(part))); }
    for part in ["types", "operations"] {
        let (a, b) = (code[part].as_object().cloned().unwrap_or_default(), data[part].as_object().cloned().unwrap_or_default());
        let mut ks: Vec<&String> = a.keys().chain(b.keys()).collect();
        ks.sort();
        ks.dedup();
        for k in ks { v.push(ev(format!("{name}.{k}"), a.get(k), b.get(k))); }
    }
    v
}
pub fn c40(c: &mut Ctx) {
    let reg = registry();
    let data = shipped();
    let code: BTreeMap<String, J> = exts().iter().map(|e| (e.name().to_string(), serde_json::to_value(&**e).unwrap())).collect();
    let mut defs = vec![];
    for (n, e) in &data {
        for (k, o) in e["operations"].as_object().into_iter().flatten() {
            let s = &o["signature"];
            let plain = s.is_object() && o["binary"] == json!(false);
            defs.push(json!({"name": format!("{n}.{k}"), "params": if plain { s["params"].as_array().map_or(0, |p| p.len()) } else { 0 }, "sig": if plain { t("fn", vec![list(&s["body"]["input"], ty), list(&s["body"]["output"], ty)]) } else { t("none", vec![]) }}));
        }
    }
    let mut cases = vec![];
    let mut names: Vec<&String> = data.keys().chain(code.keys()).collect();
    names.sort();
    names.dedup();
    for n in names { cases.push(json!({"id": format!("def-{n}"), "events": def_events(n, code.get(n), data.get(n))})); }
    let v = match guard(|| insts(c)) { Ok(v) => v, Err(e) => { cases.push(json!({"id": "build", "events": [{"act": "def", "name": "building the operations", "got": e, "want": ""}]})); vec![] } };
    c.stat("operations written and read", v.len());
    // every definition has been instantiated
    let seen: std::collections::BTreeSet<String> = v.iter().map(|x| x.op.qualified_id().to_string()).collect();
    for d in &defs { let n = d["name"].as_str().unwrap(); if !seen.contains(n) { c.stat(&format!("not instantiated: {n}"), 1); } }
    let evs: Vec<J> = par(v, |x| op_event(&x, &reg));
    // operations with one name stay together; so do operations of all kinds with few arguments
    let mut groups: BTreeMap<String, Vec<J>> = BTreeMap::new();
    for e in evs { if e["args"].as_array().unwrap().is_empty() { groups.entry("plain".into()).or_default().push(e.clone()); } groups.entry(e["name"].as_str().unwrap().to_string()).or_default().push(e); }
    for (n, g) in groups { for (k, ch) in g.chunks(150).enumerate() { cases.push(json!({"id": format!("op-{n}-{k}"), "events": ch})); } }
    let mut r = Rng::new(c.seed ^ 0x4343);
    let tys: Vec<Type> = types(2);
    c.stat("types written and read", tys.len());
    let evs: Vec<J> = par(tys, |x| type_event(&x, &reg));
    for (k, ch) in evs.chunks(100).enumerate() { cases.push(json!({"id": format!("type-{k}"), "events": ch})); }
    let mut evs = vec![const_event(ConstBool::new(true), &reg), const_event(ConstBool::new(false), &reg)];
    for k in -8..=8 { evs.push(const_event(ConstRotation::new(k as f64 / 4.).unwrap(), &reg)); }
    for _ in 0..c.n(20, 400) { evs.push(const_event(ConstRotation::new((r.next() % 4096) as f64 / 1024. - 2.).unwrap(), &reg)); }
    for s in ["", "a.wasm", "\u{fc} \"q\"", "dir/file.wasm"] {
        evs.push(const_event(wasm::ConstWasmModule { module_filename: s.into() }, &reg));
        evs.push(const_event(gpu::ConstGpuModule { module_filename: s.into(), config_filename: None }, &reg));
        evs.push(const_event(gpu::ConstGpuModule { module_filename: "m".into(), config_filename: Some(s.into()) }, &reg));
    }
    c.stat("constants written and read", evs.len());
    for (k, ch) in evs.chunks(100).enumerate() { cases.push(json!({"id": format!("const-{k}"), "events": ch})); }
    if let Ok(x) = std::env::var("VERIF_CASE") { cases.retain(|c| c["id"] == x.as_str()); }
    for (k, ch) in cases.chunks(8).enumerate() { c.write(&format!("CodecTrace.{k}.json"), &json!({"defs": defs, "cases": ch})); }
}
