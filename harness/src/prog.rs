//! Abstract programs over typed variables ("register programs"): the source form of every generated case.
//! They are produced by TLC (spec/Gen*.tla) or by `gen.rs`, and compiled to HUGRs with the public builders.
use std::collections::{BTreeSet, HashMap};
use std::sync::{Arc, LazyLock};

use hugr::builder::{BuildError, Container, Dataflow, DataflowSubContainer, FunctionBuilder, HugrBuilder, ModuleBuilder, SubContainer};
use hugr::extension::prelude::{bool_t, qb_t, usize_t, ConstError, ConstUsize, MakeTuple, UnpackTuple, Noop, PRELUDE};
use hugr::extension::simple_op::MakeRegisteredOp;
use hugr::extension::{ExtensionId, ExtensionRegistry, Version};
use hugr::ops::handle::{FuncID, NodeHandle};
use hugr::ops::{OpType, Value};
use hugr::std_extensions::arithmetic::conversions::ConvertOpDef;
use hugr::std_extensions::arithmetic::float_ops::FloatOps;
use hugr::std_extensions::arithmetic::float_types::{float64_type, ConstF64};
use hugr::std_extensions::arithmetic::int_ops::IntOpDef;
use hugr::std_extensions::arithmetic::int_types::{int_type, ConstInt};
use hugr::std_extensions::collections::array::{array_type, ArrayOpBuilder};
use hugr::std_extensions::collections::borrow_array::{borrow_array_type, BArrayOpBuilder};
use hugr::std_extensions::logic::LogicOp;
use hugr::types::{PolyFuncType, Signature, Term, Type, TypeBound, TypeRow};
use hugr::{type_row, Extension, Hugr, HugrView, Node, Wire};
use serde::{Deserialize, Serialize};
use tket::extension::bool::{bool_type, BoolOp, ConstBool};
use tket::extension::rotation::{rotation_type, ConstRotation, RotationOp};
use tket::TketOp;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Ty { Q, B, T, F, D, I, AQ(u8), AB(u8), AI(u8), SQ(u8), SB(u8), SI(u8), AAQ(u8, u8), AT(u8), ST(u8),
    /// context of an external compute module
    G }
impl Ty {
    pub fn linear(self) -> bool { matches!(self, Ty::Q | Ty::AQ(_) | Ty::AB(_) | Ty::AI(_) | Ty::SQ(_) | Ty::SB(_) | Ty::SI(_) | Ty::AT(_) | Ty::ST(_) | Ty::AAQ(..) | Ty::G) }
    pub fn hugr(self) -> Type {
        match self {
            Ty::Q => qb_t(), Ty::B => bool_t(), Ty::T => bool_type(), Ty::F => rotation_type(), Ty::D => float64_type(), Ty::I => int_type(6),
            Ty::AQ(n) => borrow_array_type(n as u64, qb_t()), Ty::AB(n) => borrow_array_type(n as u64, bool_t()), Ty::AI(n) => borrow_array_type(n as u64, int_type(6)),
            Ty::SQ(n) => array_type(n as u64, qb_t()), Ty::SB(n) => array_type(n as u64, bool_t()), Ty::SI(n) => array_type(n as u64, int_type(6)),
            Ty::AT(n) => borrow_array_type(n as u64, bool_type()), Ty::ST(n) => array_type(n as u64, bool_type()),
            Ty::G => tket_qsystem::extension::gpu::GpuType::Context.into(),
            Ty::AAQ(n, m) => borrow_array_type(n as u64, borrow_array_type(m as u64, qb_t())),
        }
    }
    pub fn elem(self) -> Ty { match self { Ty::AQ(_) | Ty::SQ(_) => Ty::Q, Ty::AB(_) | Ty::SB(_) => Ty::B, Ty::AI(_) | Ty::SI(_) => Ty::I, Ty::AT(_) | Ty::ST(_) => Ty::T, Ty::AAQ(_, m) => Ty::AQ(m), t => t } }
    pub fn size(self) -> usize { match self { Ty::AQ(n) | Ty::SQ(n) | Ty::AB(n) | Ty::SB(n) | Ty::AI(n) | Ty::SI(n) | Ty::AT(n) | Ty::ST(n) | Ty::AAQ(n, _) => n as usize, _ => 0 } }
    pub fn qubits(self) -> usize { match self { Ty::Q => 1, Ty::AQ(n) | Ty::SQ(n) => n as usize, Ty::AAQ(n, m) => n as usize * m as usize, _ => 0 } }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum S {
    Op { op: String, #[serde(default)] i: Vec<usize>, #[serde(default)] o: Vec<usize>, #[serde(default)] p: Vec<i64>, #[serde(default)] s: String },
    If { c: usize, t: Vec<S>, e: Vec<S>, #[serde(default)] cfg: bool, #[serde(default)] nl: bool },
    Loop { n: i64, brk: Option<usize>, body: Vec<S>, #[serde(default)] cfg: bool },
    Dfg { body: Vec<S>, #[serde(default)] nl: bool },
    Call { f: usize, i: Vec<usize>, o: Vec<usize>, #[serde(default)] ind: bool },
    /// call of a modified function: modifications m, innermost first; -1 = inverted, n >= 0 = controlled by an array of n qubits
    Mod { f: usize, i: Vec<usize>, o: Vec<usize>, m: Vec<i64> },
    /// control-flow graph of one block
    Block { body: Vec<S> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Func { pub name: String, pub vars: Vec<Ty>, pub ins: Vec<usize>, pub outs: Vec<usize>, pub body: Vec<S> }
/// the last function is the entry point; calls only go to earlier ones
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog { pub funcs: Vec<Func>, #[serde(default)] pub order: bool,
    /// order edges also from the region's input and to its output (as the Guppy compiler adds them)
    #[serde(default)] pub ends: bool }

pub fn op(op: &str, i: &[usize], o: &[usize]) -> S { S::Op { op: op.into(), i: i.to_vec(), o: o.to_vec(), p: vec![], s: String::new() } }
pub fn opp(op: &str, i: &[usize], o: &[usize], p: &[i64]) -> S { S::Op { op: op.into(), i: i.to_vec(), o: o.to_vec(), p: p.to_vec(), s: String::new() } }
pub fn ops(op: &str, i: &[usize], o: &[usize], s: &str) -> S { S::Op { op: op.into(), i: i.to_vec(), o: o.to_vec(), p: vec![], s: s.into() } }

impl Func {
    /// variables defined after the statements
    pub fn flow(&self, st: &[S], live: &mut BTreeSet<usize>) {
        for s in st {
            match s {
                S::Op { i, o, .. } | S::Call { i, o, .. } | S::Mod { i, o, .. } => {
                    for v in i { if self.vars[*v].linear() { live.remove(v); } }
                    for v in o { live.insert(*v); }
                }
                S::If { t, e, .. } => {
                    let mut a = live.clone(); self.flow(t, &mut a);
                    let mut b = live.clone(); self.flow(e, &mut b);
                    *live = a.intersection(&b).copied().collect();
                }
                S::Loop { body, .. } => { let mut a = live.clone(); self.flow(body, &mut a); *live = a.intersection(live).copied().collect(); }
                S::Dfg { body, .. } | S::Block { body } => self.flow(body, live),
            }
        }
    }
}
/// variables read or written
pub fn touched(st: &[S], acc: &mut BTreeSet<usize>, written: &mut BTreeSet<usize>) {
    for s in st {
        match s {
            S::Op { i, o, .. } | S::Call { i, o, .. } | S::Mod { i, o, .. } => { acc.extend(i); acc.extend(o); written.extend(o); }
            S::If { c, t, e, .. } => { acc.insert(*c); touched(t, acc, written); touched(e, acc, written); }
            S::Loop { brk, body, .. } => { if let Some(b) = brk { acc.insert(*b); } touched(body, acc, written); }
            S::Dfg { body, .. } | S::Block { body } => touched(body, acc, written),
        }
    }
}
thread_local! {
    /// whether the program being built has Guppy-style order edges
    static ENDS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// conditionals that may panic, built by the current statement
    static UNWRAPS: std::cell::RefCell<Vec<Node>> = const { std::cell::RefCell::new(vec![]) };
}
fn effectful(st: &[S], fx: &[bool]) -> bool {
    st.iter().any(|s| match s {
        S::Op { op, .. } => matches!(op.as_str(), "res" | "ares" | "rng" | "gnew" | "gcall" | "gfree" | "panic" | "exit" | "ext")
            || (ENDS.with(|e| e.get()) && matches!(op.as_str(), "TryQAlloc" | "f2ro" | "idivc" | "bget" | "bset" | "bswap" | "aget" | "aset" | "aswap" | "apopl" | "apopr")),
        S::If { t, e, .. } => effectful(t, fx) || effectful(e, fx),
        S::Loop { body, .. } | S::Dfg { body, .. } | S::Block { body } => effectful(body, fx),
        S::Call { f, .. } | S::Mod { f, .. } => fx[*f],
    })
}

pub static VERIF_EXT: LazyLock<Arc<Extension>> = LazyLock::new(|| {
    Extension::new_arc(ExtensionId::new_unchecked("verif.ops"), Version::new(0, 1, 0), |ext, r| {
        // a family of opaque operations: args are (name, inputs, outputs)
        let tp = || hugr::types::type_param::TypeParam::new_list_type(TypeBound::Linear);
        ext.add_op("op".into(), "opaque".to_string(), hugr::extension::SignatureFunc::from(PolyFuncTypeRVx::make(tp())), r).unwrap();
    })
});
struct PolyFuncTypeRVx;
impl PolyFuncTypeRVx {
    fn make(tp: hugr::types::type_param::TypeParam) -> hugr::types::PolyFuncTypeRV {
        use hugr::types::{FuncValueType, PolyFuncTypeRV, TypeRV};
        let _ = &tp;
        PolyFuncTypeRV::new(
            vec![hugr::types::type_param::TypeParam::StringType, tp.clone(), tp],
            FuncValueType::new(vec![TypeRV::new_row_var_use(1, TypeBound::Linear)], vec![TypeRV::new_row_var_use(2, TypeBound::Linear)]),
        )
    }
}
pub fn opaque_op(name: &str, i: &[Type], o: &[Type]) -> OpType {
    let l = |ts: &[Type]| Term::new_list(ts.iter().cloned().map(Term::from));
    VERIF_EXT.instantiate_extension_op("op", [Term::String(name.into()), l(i), l(o)]).unwrap().into()
}
pub fn registry() -> ExtensionRegistry {
    let mut r = ExtensionRegistry::new([VERIF_EXT.clone()]);
    r.extend(tket_qsystem_registry());
    r
}
fn tket_qsystem_registry() -> Vec<Arc<Extension>> {
    use hugr::std_extensions::{std_reg, ptr, arithmetic, collections};
    let mut v: Vec<Arc<Extension>> = std_reg().iter().cloned().collect();
    v.extend([tket::extension::TKET_EXTENSION.clone(), tket::extension::TKET1_EXTENSION.clone(), tket::extension::rotation::ROTATION_EXTENSION.clone(),
        tket::extension::bool::BOOL_EXTENSION.clone(), tket::extension::debug::DEBUG_EXTENSION.clone(), tket::extension::guppy::GUPPY_EXTENSION.clone(),
        tket::extension::modifier::MODIFIER_EXTENSION.clone(), tket::extension::global_phase::GLOBAL_PHASE_EXTENSION.clone(),
        tket_qsystem::extension::qsystem::EXTENSION.clone(), tket_qsystem::extension::futures::EXTENSION.clone(),
        tket_qsystem::extension::result::EXTENSION.clone(), tket_qsystem::extension::random::EXTENSION.clone(), tket_qsystem::extension::utils::EXTENSION.clone(),
        tket_qsystem::extension::gpu::EXTENSION.clone()]);
    let _ = (&*ptr::EXTENSION, &*arithmetic::int_types::EXTENSION, &*collections::array::EXTENSION);
    v
}

type Env = Vec<Option<Wire>>;
pub struct PCx<'a> {
    f: &'a Func,
    fids: &'a [FuncID<true>],
    fx: &'a [bool],
    order: bool,
    ends: bool,
    last: Option<Node>,
}
type R<T> = Result<T, BuildError>;

fn get(env: &mut Env, f: &Func, v: usize) -> Wire {
    let w = env[v].unwrap_or_else(|| panic!("generator: variable {v} undefined"));
    if f.vars[v].linear() { env[v] = None; }
    w
}
fn const_err(msg: &str) -> Value { Value::extension(ConstError::new(42, msg)) }
fn usize_const<D: Dataflow>(d: &mut D, n: i64) -> Wire { d.add_load_value(ConstUsize::new(n as u64)) }
fn to_usize<D: Dataflow>(d: &mut D, w: Wire) -> R<Wire> { Ok(d.add_dataflow_op(ConvertOpDef::itousize.without_log_width(), [w])?.out_wire(0)) }
/// select variant `tag` of a sum or panic
fn unwrap_sum<D: Dataflow>(d: &mut D, rows: Vec<TypeRow>, tag: usize, w: Wire) -> R<Vec<Wire>> {
    let out = rows[tag].clone();
    let mut c = d.conditional_builder((rows.clone(), w), [], out.clone())?;
    for k in 0..rows.len() {
        let mut b = c.case_builder(k)?;
        let ins: Vec<Wire> = b.input_wires().collect();
        if k == tag { b.finish_with_outputs(ins)?; } else {
            let err = b.add_load_value(const_err("unwrap"));
            let l = |r: &TypeRow| Term::new_list(r.iter().cloned().map(Term::from));
            let p = PRELUDE.instantiate_extension_op("panic", [l(&rows[k]), l(&out)]).unwrap();
            let h = b.add_dataflow_op(p, std::iter::once(err).chain(ins))?;
            if ENDS.with(|e| e.get()) { let [i, o] = [b.input().node(), b.output().node()]; b.add_other_wire(i, h.node()); b.add_other_wire(h.node(), o); }
            b.finish_with_outputs(h.outputs())?;
        }
    }
    let h = c.finish_sub_container()?;
    UNWRAPS.with(|u| u.borrow_mut().push(h.node()));
    Ok(h.outputs().collect())
}

fn emit<D: Dataflow>(d: &mut D, cx: &mut PCx, env: &mut Env, name: &str, i: &[usize], o: &[usize], p: &[i64], s: &str) -> R<()> {
    let f = cx.f;
    let tys_i: Vec<Ty> = i.iter().map(|v| f.vars[*v]).collect();
    let ins: Vec<Wire> = i.iter().map(|v| get(env, f, *v)).collect();
    let ty_o: Vec<Ty> = o.iter().map(|v| f.vars[*v]).collect();
    let mut effect: Option<Node> = None;
    let outs: Vec<Wire> = match name {
        "MeasureFree" => {
            let w = d.add_dataflow_op(TketOp::MeasureFree, ins)?.out_wire(0);
            vec![if ty_o[0] == Ty::B { d.add_dataflow_op(BoolOp::read, [w])?.out_wire(0) } else { w }]
        }
        "Measure" => {
            let h = d.add_dataflow_op(TketOp::Measure, ins)?;
            let w = h.out_wire(1);
            vec![h.out_wire(0), if ty_o[1] == Ty::T { d.add_dataflow_op(BoolOp::make_opaque, [w])?.out_wire(0) } else { w }]
        }
        "TryQAlloc" => {
            let w = d.add_dataflow_op(TketOp::TryQAlloc, ins)?.out_wire(0);
            unwrap_sum(d, vec![type_row![], vec![qb_t()].into()], 1, w)?
        }
        "not" | "and" | "or" | "xor" | "eq" => {
            if ty_o[0] == Ty::T || (tys_i[0] == Ty::T) {
                let op = match name { "not" => BoolOp::not, "and" => BoolOp::and, "or" => BoolOp::or, "xor" => BoolOp::xor, _ => BoolOp::eq };
                d.add_dataflow_op(op, ins)?.outputs().collect()
            } else {
                let op = match name { "not" => LogicOp::Not, "and" => LogicOp::And, "or" => LogicOp::Or, "xor" => LogicOp::Xor, _ => LogicOp::Eq };
                d.add_dataflow_op(op, ins)?.outputs().collect()
            }
        }
        "opq" => d.add_dataflow_op(BoolOp::make_opaque, ins)?.outputs().collect(),
        "read" => d.add_dataflow_op(BoolOp::read, ins)?.outputs().collect(),
        "cB" => vec![d.add_load_value(if p[0] == 1 { Value::true_val() } else { Value::false_val() })],
        "cT" => vec![d.add_load_value(Value::extension(ConstBool::new(p[0] == 1)))],
        "cF" => vec![d.add_load_value(ConstRotation::new(p[0] as f64 / 2048.0).unwrap())],
        "cD" => vec![d.add_load_value(ConstF64::new(p[0] as f64 / 2048.0))],
        "cI" => vec![d.add_load_value(ConstInt::new_s(6, p[0]).unwrap())],
        "sym" => vec![d.add_dataflow_op(tket::symbolic_constant_op(s.into()), [])?.out_wire(0)],
        "radd" => d.add_dataflow_op(RotationOp::radd, ins)?.outputs().collect(),
        "f2r" => d.add_dataflow_op(RotationOp::from_halfturns_unchecked, ins)?.outputs().collect(),
        "f2ro" => {
            let w = d.add_dataflow_op(RotationOp::from_halfturns, ins)?.out_wire(0);
            unwrap_sum(d, vec![type_row![], vec![rotation_type()].into()], 1, w)?
        }
        "r2f" => d.add_dataflow_op(RotationOp::to_halfturns, ins)?.outputs().collect(),
        "fadd" => d.add_dataflow_op(FloatOps::fadd, ins)?.outputs().collect(),
        "fsub" => d.add_dataflow_op(FloatOps::fsub, ins)?.outputs().collect(),
        "fmul" => d.add_dataflow_op(FloatOps::fmul, ins)?.outputs().collect(),
        "fdiv" => d.add_dataflow_op(FloatOps::fdiv, ins)?.outputs().collect(),
        "fneg" => d.add_dataflow_op(FloatOps::fneg, ins)?.outputs().collect(),
        "flt" => d.add_dataflow_op(FloatOps::flt, ins)?.outputs().collect(),
        "iadd" => d.add_dataflow_op(IntOpDef::iadd.with_log_width(6), ins)?.outputs().collect(),
        "isub" => d.add_dataflow_op(IntOpDef::isub.with_log_width(6), ins)?.outputs().collect(),
        "imul" => d.add_dataflow_op(IntOpDef::imul.with_log_width(6), ins)?.outputs().collect(),
        "ieq" => d.add_dataflow_op(IntOpDef::ieq.with_log_width(6), ins)?.outputs().collect(),
        "ilt" => d.add_dataflow_op(IntOpDef::ilt_s.with_log_width(6), ins)?.outputs().collect(),
        "b2i" => { // int from bool via a conditional
            let mut c = d.conditional_builder(([type_row![], type_row![]], ins[0]), [], vec![int_type(6)].into())?;
            for k in 0..2 { let mut b = c.case_builder(k)?; let w = b.add_load_value(ConstInt::new_s(6, k as i64).unwrap()); b.finish_with_outputs([w])?; }
            c.finish_sub_container()?.outputs().collect()
        }
        "idivc" => { // checked division, unwrapped: panics on zero
            let w = d.add_dataflow_op(IntOpDef::idiv_checked_u.with_log_width(6), ins)?.out_wire(0);
            unwrap_sum(d, vec![vec![hugr::extension::prelude::error_type()].into(), vec![int_type(6)].into()], 1, w)?
        }
        // borrow arrays
        "bnew" => { let t = ty_o[0]; vec![d.add_new_borrow_array(t.elem().hugr(), ins)?] }
        "bunpack" => { let t = tys_i[0]; d.add_borrow_array_unpack(t.elem().hugr(), t.size() as u64, ins[0])? }
        "bborrow" | "bborrowc" => {
            let t = tys_i[0];
            let ix = if name == "bborrowc" { usize_const(d, p[0]) } else { to_usize(d, ins[1])? };
            let (a, e) = d.add_borrow_array_borrow(t.elem().hugr(), t.size() as u64, ins[0], ix)?; // documented order: elem, array
            fix_order(d, a, e, t)
        }
        "breturn" | "breturnc" => {
            let t = tys_i[0];
            let (ix, e) = if name == "breturnc" { (usize_const(d, p[0]), ins[1]) } else { (to_usize(d, ins[1])?, ins[2]) };
            vec![d.add_borrow_array_return(t.elem().hugr(), t.size() as u64, ins[0], ix, e)?]
        }
        "bdiscard" => { let t = tys_i[0]; d.add_borrow_array_discard(t.elem().hugr(), t.size() as u64, ins[0])?; vec![] }
        "bclone" => { let t = tys_i[0]; let (a, b) = d.add_borrow_array_clone(t.elem().hugr(), t.size() as u64, ins[0])?; vec![a, b] }
        "bget" => {
            let t = tys_i[0]; let ix = to_usize(d, ins[1])?;
            let (w, a) = d.add_borrow_array_get(t.elem().hugr(), t.size() as u64, ins[0], ix)?;
            let e = unwrap_sum(d, vec![type_row![], vec![t.elem().hugr()].into()], 1, w)?[0];
            vec![a, e]
        }
        "bset" => {
            let t = tys_i[0]; let ix = to_usize(d, ins[1])?; let et = t.elem().hugr();
            let w = d.add_borrow_array_set(et.clone(), t.size() as u64, ins[0], ix, ins[2])?;
            let r: TypeRow = vec![et, t.hugr()].into();
            let v = unwrap_sum(d, vec![r.clone(), r], 1, w)?; // (old element, array)
            vec![v[1], v[0]]
        }
        "bswap" => {
            let t = tys_i[0]; let ix = to_usize(d, ins[1])?; let jx = to_usize(d, ins[2])?;
            let w = d.add_borrow_array_swap(t.elem().hugr(), t.size() as u64, ins[0], ix, jx)?;
            let r: TypeRow = vec![t.hugr()].into();
            unwrap_sum(d, vec![r.clone(), r], 1, w)?
        }
        // standard arrays
        "anew" => { let t = ty_o[0]; vec![d.add_new_array(t.elem().hugr(), ins)?] }
        "aunpack" => { let t = tys_i[0]; d.add_array_unpack(t.elem().hugr(), t.size() as u64, ins[0])? }
        "aget" => {
            let t = tys_i[0]; let ix = to_usize(d, ins[1])?;
            let (w, a) = d.add_array_get(t.elem().hugr(), t.size() as u64, ins[0], ix)?;
            let e = unwrap_sum(d, vec![type_row![], vec![t.elem().hugr()].into()], 1, w)?[0];
            vec![a, e]
        }
        "aset" => {
            let t = tys_i[0]; let ix = to_usize(d, ins[1])?; let et = t.elem().hugr();
            let w = d.add_array_set(et.clone(), t.size() as u64, ins[0], ix, ins[2])?;
            let r: TypeRow = vec![et, t.hugr()].into();
            let v = unwrap_sum(d, vec![r.clone(), r], 1, w)?;
            vec![v[1], v[0]]
        }
        "aswap" => {
            let t = tys_i[0]; let ix = to_usize(d, ins[1])?; let jx = to_usize(d, ins[2])?;
            let w = d.add_array_swap(t.elem().hugr(), t.size() as u64, ins[0], ix, jx)?;
            let r: TypeRow = vec![t.hugr()].into();
            unwrap_sum(d, vec![r.clone(), r], 1, w)?
        }
        "adiscard" => { let t = tys_i[0]; d.add_array_discard(t.elem().hugr(), t.size() as u64, ins[0])?; vec![] }
        "aclone" => { let t = tys_i[0]; let (a, b) = d.add_array_clone(t.elem().hugr(), t.size() as u64, ins[0])?; vec![a, b] }
        "apopl" | "apopr" => {
            let t = tys_i[0]; let et = t.elem().hugr();
            let w = if name == "apopl" { d.add_array_pop_left(et.clone(), t.size() as u64, ins[0])? } else { d.add_array_pop_right(et.clone(), t.size() as u64, ins[0])? };
            let rest = array_type(t.size() as u64 - 1, et.clone());
            let v = unwrap_sum(d, vec![type_row![], vec![et, rest].into()], 1, w)?;
            vec![v[1], v[0]] // array, element
        }
        "res" => {
            use tket_qsystem::extension::result::ResultOp;
            let op = match tys_i[0] {
                Ty::B => ResultOp::new_bool(s), Ty::I if p == [1] => ResultOp::new_uint(s, 6), Ty::I => ResultOp::new_int(s, 6), Ty::D => ResultOp::new_f64(s),
                Ty::SB(n) => ResultOp::new_bool(s).array_op(n as u64), Ty::SI(n) => ResultOp::new_int(s, 6).array_op(n as u64),
                t => panic!("res of {t:?}"),
            };
            let h = d.add_dataflow_op(op.to_extension_op().unwrap(), ins)?;
            effect = Some(h.node());
            vec![]
        }
        "ares" => { // several values of one type as one result
            use tket_qsystem::extension::result::ResultOp;
            let t = tys_i[0];
            let one = match t { Ty::B => ResultOp::new_bool(s), Ty::I if p == [1] => ResultOp::new_uint(s, 6), Ty::I => ResultOp::new_int(s, 6), _ => ResultOp::new_f64(s) };
            let n = ins.len() as u64;
            let a = d.add_new_array(t.hugr(), ins)?;
            let h = d.add_dataflow_op(one.array_op(n).to_extension_op().unwrap(), [a])?;
            effect = Some(h.node());
            vec![]
        }
        "shot" => { use tket_qsystem::extension::utils::UtilsOpBuilder; vec![d.add_get_current_shot()?] }
        "rng" => { // draws from a new context: pairs of (what is drawn, bound or distance)
            use tket_qsystem::extension::random::{RandomOpBuilder, RandomType};
            use hugr::std_extensions::arithmetic::int_ops::IntOpDef;
            let ct: Type = tket_qsystem::extension::random::EXTENSION.get_type("context").unwrap().instantiate([]).unwrap().into();
            let _ = RandomType::RNGContext;
            let link = |d: &mut D, cx: &mut PCx, n: Node| if cx.order { chain(d, cx, n) };
            let w = d.add_new_rng_context(ins[0])?;
            link(d, cx, w.node());
            let mut c = unwrap_sum(d, vec![type_row![], vec![ct].into()], 1, w)?[0];
            for n in UNWRAPS.with(|u| std::mem::take(&mut *u.borrow_mut())) { if cx.ends { chain(d, cx, n); } }
            let mut outs = vec![];
            let mut wide = vec![];
            for x in p.chunks(2) {
                c = match x[0] {
                    0 => { let [v, c] = d.add_random_int(c)?; wide.push(outs.len()); outs.push(v); c }
                    1 => { let [v, c] = d.add_random_float(c)?; outs.push(v); c }
                    2 => { let b = d.add_load_value(ConstInt::new_u(5, x[1] as u64).unwrap()); let [v, c] = d.add_random_int_bounded(c, b)?; wide.push(outs.len()); outs.push(v); c }
                    _ => { let b = d.add_load_value(ConstInt::new_u(6, x[1] as u64).unwrap()); d.add_random_advance(c, b)? }
                };
                link(d, cx, c.node());
            }
            d.add_delete_rng_context(c)?;
            for k in wide { outs[k] = d.add_dataflow_op(IntOpDef::iwiden_u.with_two_log_widths(5, 6), [outs[k]])?.out_wire(0); }
            outs
        }
        "gnew" => { // a new context
            use tket_qsystem::extension::gpu::GpuOpBuilder;
            let ix = d.add_load_value(ConstUsize::new(p[0] as u64));
            let w = d.add_get_context(ix)?;
            if cx.order { chain(d, cx, w.node()); }
            let v = unwrap_sum(d, vec![type_row![], vec![Ty::G.hugr()].into()], 1, w)?;
            for n in UNWRAPS.with(|u| std::mem::take(&mut *u.borrow_mut())) { if cx.ends { chain(d, cx, n); } }
            v
        }
        "gfree" => {
            let h = d.add_dataflow_op(tket_qsystem::extension::gpu::GpuOp::DisposeContext.to_extension_op().unwrap(), [ins[0]])?;
            effect = Some(h.node());
            vec![]
        }
        "gcall" => { // calls on distinct contexts, all made before the first result is read; p: reading order, then (result, how found, number, arguments) of each
            use tket_qsystem::extension::gpu::{ConstGpuBuilder, GpuOp, GpuOpBuilder};
            let cs: Vec<&[i64]> = p[1..].chunks(4).collect();
            let m = d.add_const_module("module", None)?;
            let row = |k: i64| -> TypeRow { match k { 0 => type_row![], 1 => vec![Ty::I.hugr()].into(), _ => vec![Ty::D.hugr()].into() } };
            let mut at = cs.len();
            let mut res = vec![];
            for (k, c) in cs.iter().enumerate() {
                let a = at..at + c[3] as usize;
                at = a.end;
                let ti: TypeRow = tys_i[a.clone()].iter().map(|t| t.hugr()).collect::<Vec<_>>().into();
                let to = row(c[0]);
                let f = if c[1] == 1 { d.add_lookup_by_id(c[2] as u64, ti.clone(), to.clone(), m)? } else { d.add_lookup_by_name(format!("{s}{}", c[2]), ti.clone(), to.clone(), m)? };
                let h = d.add_dataflow_op(GpuOp::Call { inputs: ti, outputs: to }.to_extension_op().unwrap(), [ins[k], f].into_iter().chain(ins[a].iter().copied()))?;
                if cx.order { chain(d, cx, h.node()); }
                res.push(h.out_wire(0));
            }
            let mut ks: Vec<usize> = (0..cs.len()).collect();
            if p[0] == 1 { ks.reverse(); }
            let mut ctx = res.clone();
            let mut vals: Vec<Option<Wire>> = vec![None; cs.len()];
            for k in ks {
                let h = d.add_dataflow_op(GpuOp::ReadResult { outputs: row(cs[k][0]) }.to_extension_op().unwrap(), [res[k]])?;
                if cx.order { chain(d, cx, h.node()); }
                ctx[k] = h.out_wire(0);
                if cs[k][0] > 0 { vals[k] = Some(h.out_wire(1)); }
            }
            ctx.into_iter().chain(vals.into_iter().flatten()).collect()
        }
        "leak" => { // measurement that may report a leaked qubit
            use tket_qsystem::extension::qsystem::QSystemOp;
            use tket_qsystem::extension::futures::FutureOpBuilder;
            let it = Ty::I.hugr();
            let w = d.add_dataflow_op(QSystemOp::LazyMeasureLeaked, ins)?.out_wire(0);
            let w = if p == [1] { let [a, b] = d.add_dup(w, it.clone())?; d.add_free(a, it.clone())?; b } else { w };
            let [v] = d.add_read(w, it)?;
            vec![v]
        }
        "panic" | "exit" => {
            let mut c = d.conditional_builder(([type_row![], type_row![]], ins[0]), [], type_row![])?;
            for k in 0..2 {
                let mut b = c.case_builder(k)?;
                if k == 1 {
                    let err = b.add_load_value(const_err(if s.is_empty() { "boom" } else { s }));
                    let e = || Term::new_list([]);
                    let pop = PRELUDE.instantiate_extension_op(if name == "panic" { "panic" } else { "exit" }, [e(), e()]).unwrap();
                    let h = b.add_dataflow_op(pop, [err])?;
                    if cx.ends { let [i, o] = [b.input().node(), b.output().node()]; b.add_other_wire(i, h.node()); b.add_other_wire(h.node(), o); }
                }
                b.finish_with_outputs([])?;
            }
            let h = c.finish_sub_container()?;
            effect = Some(h.node());
            vec![]
        }
        "barrier" => d.add_barrier(ins)?.outputs().collect(),
        // a container of the given shape around the arguments: barrier, copy, drop, pass through a conditional or a no-op
        "sbar" | "snoop" | "sdrop" | "scopy" | "sif" => {
            let ts: Vec<Type> = tys_i.iter().map(|t| t.hugr()).collect();
            let shapes = shape::parse(s);
            let mut it = ins.into_iter().zip(ts);
            let mut cw: Vec<(Wire, Type)> = vec![];
            let cond = if name == "sif" { Some(it.next().unwrap().0) } else { None };
            for sh in &shapes { cw.push(shape::pack(d, sh, &mut it)?); }
            assert!(it.next().is_none(), "generator: shape {s}");
            let (ws, tys): (Vec<Wire>, Vec<Type>) = cw.into_iter().unzip();
            let mut outs = vec![];
            match name {
                "sdrop" => for (w, t) in ws.iter().zip(&tys) {
                    let op = tket::extension::guppy::GUPPY_EXTENSION.instantiate_extension_op("drop", [t.clone().into()]).unwrap();
                    d.add_dataflow_op(op, [*w])?;
                },
                "sif" => {
                    let mut c = d.conditional_builder(([type_row![], type_row![]], cond.unwrap()), tys.iter().cloned().zip(ws), tys.clone().into())?;
                    for k in 0..2 {
                        let mut b = c.case_builder(k)?;
                        let mut w: Vec<Wire> = b.input_wires().collect();
                        if k == 1 { w = b.add_barrier(w)?.outputs().collect(); }
                        b.finish_with_outputs(w)?;
                    }
                    let h = c.finish_sub_container()?;
                    for ((sh, w), t) in shapes.iter().zip(h.outputs()).zip(&tys) { shape::unpack(d, sh, w, t, &mut outs)?; }
                }
                _ => {
                    let ows: Vec<Wire> = match name {
                        "sbar" => d.add_barrier(ws)?.outputs().collect(),
                        "snoop" => ws.into_iter().zip(&tys).map(|(w, t)| Ok(d.add_dataflow_op(Noop::new(t.clone()), [w])?.out_wire(0))).collect::<R<Vec<_>>>()?,
                        _ => ws,
                    };
                    for ((sh, w), t) in shapes.iter().zip(&ows).zip(&tys) { shape::unpack(d, sh, *w, t, &mut outs)?; }
                    if name == "scopy" { for ((sh, w), t) in shapes.iter().zip(&ows).zip(&tys) { shape::unpack(d, sh, *w, t, &mut outs)?; } }
                }
            }
            outs
        }
        // element of a constant static array of opaque booleans (or booleans)
        "sget" => {
            use hugr::std_extensions::collections::static_array::{StaticArrayOpBuilder, StaticArrayValue};
            let (et, vals): (Type, Vec<Value>) = if ty_o[0] == Ty::T { (bool_type(), p.iter().map(|x| Value::extension(ConstBool::new(*x == 1))).collect()) } else { (bool_t(), p.iter().map(|x| Value::from_bool(*x == 1)).collect()) };
            let v = StaticArrayValue::try_new(s, et.clone(), vals).unwrap();
            let a = d.add_load_value(v);
            let ix = to_usize(d, ins[0])?;
            let w = d.add_static_array_get(et.clone(), a, ix)?;
            unwrap_sum(d, vec![type_row![], vec![et].into()], 1, w)?
        }
        // a constant array of opaque booleans
        "cST" => {
            use hugr::std_extensions::collections::array::ArrayValue;
            let v = ArrayValue::new(bool_type(), p.iter().map(|x| Value::extension(ConstBool::new(*x == 1))));
            vec![d.add_load_value(Value::extension(v))]
        }
        "cR" => vec![d.add_load_value(ConstF64::new(p[0] as f64 / 2048.0 * std::f64::consts::PI))],
        "gphase" => { d.add_dataflow_op(tket::extension::global_phase::GlobalPhase, ins)?; vec![] }
        "tuple" => {
            let ts: Vec<Type> = tys_i.iter().map(|t| t.hugr()).collect();
            let w = d.add_dataflow_op(MakeTuple::new(ts.clone().into()), ins)?.out_wire(0);
            let v = d.add_dataflow_op(UnpackTuple::new(ts.clone().into()), [w])?.outputs().collect();
            used(d, cx, v, &ts)?
        }
        // a pair packed as (x, (y, ..)) and unpacked again
        "tuple2" => {
            let ts: Vec<Type> = tys_i.iter().map(|t| t.hugr()).collect();
            let inner = d.add_dataflow_op(MakeTuple::new(ts[1..].to_vec().into()), ins[1..].to_vec())?.out_wire(0);
            let it = Type::new_tuple(ts[1..].to_vec());
            let w = d.add_dataflow_op(MakeTuple::new(vec![ts[0].clone(), it.clone()].into()), [ins[0], inner])?.out_wire(0);
            let u = d.add_dataflow_op(UnpackTuple::new(vec![ts[0].clone(), it].into()), [w])?;
            let v = d.add_dataflow_op(UnpackTuple::new(ts[1..].to_vec().into()), [u.out_wire(1)])?;
            let v = std::iter::once(u.out_wire(0)).chain(v.outputs()).collect();
            used(d, cx, v, &ts)?
        }
        // a copyable tuple unpacked twice, once after passing through another operation;
        // the elements of the first and the second are returned alternately
        "tuple3" => {
            let ts: Vec<Type> = tys_i.iter().map(|t| t.hugr()).collect();
            let w = d.add_dataflow_op(MakeTuple::new(ts.clone().into()), ins)?.out_wire(0);
            let x = d.add_dataflow_op(Noop::new(Type::new_tuple(ts.clone())), [w])?.out_wire(0);
            let mut us = vec![];
            for w in [w, x, w] { let v = d.add_dataflow_op(UnpackTuple::new(ts.clone().into()), [w])?.outputs().collect(); us.push(used(d, cx, v, &ts)?); }
            (0..ts.len()).map(|k| us[k % 3][k]).collect()
        }
        "noop" => ins.iter().zip(&tys_i).map(|(w, t)| Ok(d.add_dataflow_op(Noop::new(t.hugr()), [*w])?.out_wire(0))).collect::<R<Vec<_>>>()?,
        "mov" => ins,
        "opaque" => {
            let a: Vec<Type> = tys_i.iter().map(|t| t.hugr()).collect();
            let b: Vec<Type> = ty_o.iter().map(|t| t.hugr()).collect();
            d.add_dataflow_op(opaque_op(s, &a, &b), ins)?.outputs().collect()
        }
        _ if name.starts_with("sys.") => {
            use tket_qsystem::extension::qsystem::QSystemOp;
            let op: QSystemOp = name[4..].parse().unwrap_or_else(|_| panic!("sys op {name}"));
            d.add_dataflow_op(op, ins)?.outputs().collect()
        }
        _ => {
            let op: TketOp = name.parse().unwrap_or_else(|_| panic!("unknown op {name}"));
            d.add_dataflow_op(op, ins)?.outputs().collect()
        }
    };
    assert_eq!(outs.len(), o.len(), "generator: arity of {name}");
    for (v, w) in o.iter().zip(outs) { env[*v] = Some(w); }
    let unw = UNWRAPS.with(|u| std::mem::take(&mut *u.borrow_mut()));
    if cx.ends { for n in unw { chain(d, cx, n); } }
    if let (Some(n), true) = (effect, cx.order) {
        chain(d, cx, n);
    }
    Ok(())
}
/// in Guppy-style programs every element of an unpacked tuple is used
fn used<D: Dataflow>(d: &mut D, cx: &PCx, ws: Vec<Wire>, ts: &[Type]) -> R<Vec<Wire>> {
    if !cx.ends { return Ok(ws); }
    ws.into_iter().zip(ts).map(|(w, t)| Ok(d.add_dataflow_op(Noop::new(t.clone()), [w])?.out_wire(0))).collect()
}
fn chain<D: Dataflow>(d: &mut D, cx: &mut PCx, n: Node) {
    if let Some(l) = cx.last.or_else(|| cx.ends.then(|| d.input().node())) { d.add_other_wire(l, n); }
    cx.last = Some(n);
}
/// Shapes of containers: `v` the next variable, `(..)` a tuple, `[..]` an array, `{..}` a borrow array, `<..>` a value array, `?x` an option
pub mod shape {
    use super::*;
    use hugr::std_extensions::collections::value_array::{value_array_type, VArrayOpBuilder};
    pub enum Sh { V, Tup(Vec<Sh>), Arr(Vec<Sh>), Bor(Vec<Sh>), Val(Vec<Sh>), Opt(Box<Sh>) }
    pub fn parse(s: &str) -> Vec<Sh> {
        let b: Vec<char> = s.chars().collect();
        let mut k = 0;
        let mut v = vec![];
        while k < b.len() { v.push(one(&b, &mut k)); }
        v
    }
    fn one(b: &[char], k: &mut usize) -> Sh {
        let c = b[*k];
        *k += 1;
        match c {
            'v' => Sh::V,
            '?' => Sh::Opt(Box::new(one(b, k))),
            '(' | '[' | '{' | '<' => {
                let e = match c { '(' => ')', '[' => ']', '{' => '}', _ => '>' };
                let mut v = vec![];
                while b[*k] != e { v.push(one(b, k)); }
                *k += 1;
                match c { '(' => Sh::Tup(v), '[' => Sh::Arr(v), '{' => Sh::Bor(v), _ => Sh::Val(v) }
            }
            c => panic!("shape {c}"),
        }
    }
    pub fn pack<D: Dataflow>(d: &mut D, sh: &Sh, it: &mut impl Iterator<Item = (Wire, Type)>) -> R<(Wire, Type)> {
        let mut all = |d: &mut D, v: &Vec<Sh>| -> R<(Vec<Wire>, Vec<Type>)> { let mut r = vec![]; for x in v { r.push(pack(d, x, it)?); } Ok(r.into_iter().unzip()) };
        Ok(match sh {
            Sh::V => it.next().expect("shape arity"),
            Sh::Tup(v) => { let (w, t) = all(d, v)?; (d.add_dataflow_op(MakeTuple::new(t.clone().into()), w)?.out_wire(0), Type::new_tuple(t)) }
            Sh::Arr(v) => { let (w, t) = all(d, v)?; let t0 = t.first().cloned().unwrap_or(qb_t()); (d.add_new_array(t0.clone(), w)?, array_type(v.len() as u64, t0)) }
            Sh::Bor(v) => { let (w, t) = all(d, v)?; let t0 = t.first().cloned().unwrap_or(qb_t()); (d.add_new_borrow_array(t0.clone(), w)?, borrow_array_type(v.len() as u64, t0)) }
            Sh::Val(v) => { let (w, t) = all(d, v)?; let t0 = t.first().cloned().unwrap_or(qb_t()); (d.add_new_value_array(t0.clone(), w)?, value_array_type(v.len() as u64, t0)) }
            Sh::Opt(x) => {
                let (w, t) = pack(d, x, it)?;
                let op = hugr::ops::Tag::new(1, vec![type_row![], vec![t.clone()].into()]);
                (d.add_dataflow_op(op, [w])?.out_wire(0), hugr::extension::prelude::option_type(t).into())
            }
        })
    }
    pub fn unpack<D: Dataflow>(d: &mut D, sh: &Sh, w: Wire, t: &Type, out: &mut Vec<Wire>) -> R<()> {
        let elem = |t: &Type| -> Type { t.as_extension().unwrap().args()[1].as_runtime().unwrap() };
        match sh {
            Sh::V => out.push(w),
            Sh::Tup(v) => {
                let ts: Vec<Type> = t.as_sum().unwrap().as_tuple().unwrap().iter().map(|t| t.clone().try_into_type().unwrap()).collect();
                let ws: Vec<Wire> = d.add_dataflow_op(UnpackTuple::new(ts.clone().into()), [w])?.outputs().collect();
                for ((x, w), t) in v.iter().zip(ws).zip(&ts) { unpack(d, x, w, t, out)?; }
            }
            Sh::Arr(v) | Sh::Bor(v) | Sh::Val(v) => {
                let et = elem(t);
                let n = v.len() as u64;
                let ws = match sh { Sh::Arr(_) => d.add_array_unpack(et.clone(), n, w)?, Sh::Bor(_) => d.add_borrow_array_unpack(et.clone(), n, w)?, _ => d.add_dataflow_op(hugr::std_extensions::collections::value_array::VArrayOpDef::unpack.to_concrete(et.clone(), n), [w])?.outputs().collect() };
                for (x, w) in v.iter().zip(ws) { unpack(d, x, w, &et, out)?; }
            }
            Sh::Opt(x) => {
                let et: Type = t.as_sum().unwrap().as_unary_option().unwrap().clone().try_into_type().unwrap();
                let w = unwrap_sum(d, vec![type_row![], vec![et.clone()].into()], 1, w)?[0];
                unpack(d, x, w, &et, out)?;
            }
        }
        Ok(())
    }
}
fn fix_order<D: Dataflow>(d: &mut D, a: Wire, e: Wire, t: Ty) -> Vec<Wire> {
    if d.get_wire_type(a).unwrap() == t.hugr() { vec![a, e] } else { vec![e, a] }
}

/// boundary of a nested block: (inputs, outputs)
fn boundary(cx: &PCx, env: &Env, blocks: &[&[S]], nl: bool) -> (Vec<usize>, Vec<usize>) {
    let mut t = BTreeSet::new();
    let mut w = BTreeSet::new();
    for b in blocks { touched(b, &mut t, &mut w); }
    let live: BTreeSet<usize> = (0..env.len()).filter(|v| env[*v].is_some()).collect();
    let ins: Vec<usize> = t.iter().copied().filter(|v| live.contains(v) && (!nl || cx.f.vars[*v].linear() || (blocks.len() > 1 && w.contains(v)))).collect();
    let mut after: Option<BTreeSet<usize>> = None;
    for b in blocks {
        let mut l = live.clone();
        cx.f.flow(b, &mut l);
        after = Some(match after { None => l, Some(a) => a.intersection(&l).copied().collect() });
    }
    let after = after.unwrap();
    let outs = t.iter().copied().filter(|v| after.contains(v) && (cx.f.vars[*v].linear() || w.contains(v))).collect();
    (ins, outs)
}
fn row(cx: &PCx, vs: &[usize]) -> TypeRow { vs.iter().map(|v| cx.f.vars[*v].hugr()).collect::<Vec<_>>().into() }

fn nested_env(cx: &PCx, env: &Env, ins: &[usize], wires: impl Iterator<Item = Wire>, nl: bool) -> Env {
    let mut e: Env = vec![None; env.len()];
    if nl { for v in 0..env.len() { if !cx.f.vars[v].linear() { e[v] = env[v]; } } }
    for (v, w) in ins.iter().zip(wires) { e[*v] = Some(w); }
    e
}
pub fn block<D: Dataflow>(d: &mut D, cx: &mut PCx, env: &mut Env, st: &[S]) -> R<()> {
    for s in st {
        let mut node: Option<Node> = None;
        match s {
            S::Op { op, i, o, p, s } => emit(d, cx, env, op, i, o, p, s)?,
            S::Dfg { body, nl } => {
                let (ins, outs) = boundary(cx, env, &[body], *nl);
                let sig = Signature::new(row(cx, &ins), row(cx, &outs));
                let iw: Vec<Wire> = ins.iter().map(|v| get(env, cx.f, *v)).collect();
                let last = cx.last.take();
                let mut b = d.dfg_builder(sig, iw)?;
                let mut e = nested_env(cx, env, &ins, b.input_wires(), *nl);
                block(&mut b, cx, &mut e, body)?;
                let ow: Vec<Wire> = outs.iter().map(|v| get(&mut e, cx.f, *v)).collect();
                let h = b.finish_with_outputs(ow)?;
                for (v, w) in outs.iter().zip(h.outputs()) { env[*v] = Some(w); }
                cx.last = last;
                node = Some(h.node());
            }
            S::Block { body } => {
                let (ins, outs) = boundary(cx, env, &[body], false);
                let iw: Vec<(Type, Wire)> = ins.iter().map(|v| (cx.f.vars[*v].hugr(), get(env, cx.f, *v))).collect();
                let last = cx.last.take();
                let out_row = row(cx, &outs);
                let mut g = d.cfg_builder(iw, out_row.clone())?;
                let mut b = g.simple_entry_builder(out_row, 1)?;
                let mut e = nested_env(cx, env, &ins, b.input_wires(), false);
                block(&mut b, cx, &mut e, body)?;
                let ow: Vec<Wire> = outs.iter().map(|v| get(&mut e, cx.f, *v)).collect();
                let u = b.add_load_value(Value::unit());
                b.set_outputs(u, ow)?;
                let b = b.finish_sub_container()?;
                let ex = g.exit_block();
                g.branch(&b, 0, &ex)?;
                let h = g.finish_sub_container()?;
                for (v, w) in outs.iter().zip(h.outputs()) { env[*v] = Some(w); }
                cx.last = last;
                node = Some(h.node());
            }
            S::Mod { f, i, o, m } => {
                use tket::extension::modifier::{CONTROL_OP_ID, DAGGER_OP_ID, MODIFIER_EXTENSION};
                let iw: Vec<Wire> = i.iter().map(|v| get(env, cx.f, *v)).collect();
                let mut fw = d.load_func(&cx.fids[*f], &[])?;
                let ft = |d: &D, w: Wire| -> R<Signature> {
                    let t = d.get_wire_type(w)?;
                    let hugr::types::TypeEnum::Function(sig) = t.as_type_enum() else { panic!() };
                    Ok((**sig).clone().try_into().unwrap())
                };
                for k in m {
                    let sig = ft(d, fw)?;
                    let n = sig.output.len();
                    let l = |ts: &[Type]| Term::new_list(ts.iter().cloned().map(Term::from));
                    let rows = [l(&sig.input[..n]), l(&sig.input[n..])];
                    let op = if *k < 0 { MODIFIER_EXTENSION.instantiate_extension_op(&DAGGER_OP_ID, rows) }
                        else { MODIFIER_EXTENSION.instantiate_extension_op(&CONTROL_OP_ID, [Term::BoundedNat(*k as u64)].into_iter().chain(rows).collect::<Vec<_>>()) }.unwrap();
                    fw = d.add_dataflow_op(op, [fw])?.out_wire(0);
                }
                let sig = ft(d, fw)?;
                let h = d.add_dataflow_op(hugr::ops::CallIndirect { signature: sig }, std::iter::once(fw).chain(iw))?;
                for (v, w) in o.iter().zip(h.outputs()) { env[*v] = Some(w); }
                node = Some(h.node());
            }
            S::If { c, t, e, cfg, nl } => {
                let (ins, outs) = boundary(cx, env, &[t, e], *nl);
                let cw = {
                    let w = get(env, cx.f, *c);
                    if cx.f.vars[*c] == Ty::T { d.add_dataflow_op(BoolOp::read, [w])?.out_wire(0) } else { w }
                };
                let iw: Vec<(Type, Wire)> = ins.iter().map(|v| (cx.f.vars[*v].hugr(), get(env, cx.f, *v))).collect();
                let last = cx.last.take();
                let h_outs: Vec<Wire>;
                if *cfg {
                    let out_row = row(cx, &outs);
                    let in_row = row(cx, &ins);
                    let mut g = d.cfg_builder(std::iter::once((bool_t(), cw)).chain(iw), out_row.clone())?;
                    let mut b0 = g.simple_entry_builder(in_row.clone(), 2)?;
                    let ws: Vec<Wire> = b0.input_wires().collect();
                    let b0 = b0_finish(&mut b0, ws).and_then(|_| b0.finish_sub_container())?;
                    let mut ids = vec![];
                    for st in [e, t] {
                        let mut b = g.simple_block_builder(Signature::new(in_row.clone(), out_row.clone()), 1)?;
                        let mut en = nested_env(cx, env, &ins, b.input_wires(), *nl);
                        cx.last = None;
                        block(&mut b, cx, &mut en, st)?;
                        let ow: Vec<Wire> = outs.iter().map(|v| get(&mut en, cx.f, *v)).collect();
                        let u = b.add_load_value(Value::unit());
                        b.set_outputs(u, ow)?;
                        ids.push(b.finish_sub_container()?);
                    }
                    g.branch(&b0, 0, &ids[0])?;
                    g.branch(&b0, 1, &ids[1])?;
                    let ex = g.exit_block();
                    for b in &ids { g.branch(b, 0, &ex)?; }
                    let h = g.finish_sub_container()?;
                    node = Some(h.node());
                    h_outs = h.outputs().collect();
                } else {
                    let mut g = d.conditional_builder(([type_row![], type_row![]], cw), iw, row(cx, &outs))?;
                    for (k, st) in [e, t].into_iter().enumerate() {
                        let mut b = g.case_builder(k)?;
                        let mut en = nested_env(cx, env, &ins, b.input_wires(), *nl);
                        cx.last = None;
                        block(&mut b, cx, &mut en, st)?;
                        let ow: Vec<Wire> = outs.iter().map(|v| get(&mut en, cx.f, *v)).collect();
                        b.finish_with_outputs(ow)?;
                    }
                    let h = g.finish_sub_container()?;
                    node = Some(h.node());
                    h_outs = h.outputs().collect();
                }
                for (v, w) in outs.iter().zip(h_outs) { env[*v] = Some(w); }
                cx.last = last;
            }
            S::Loop { n, brk, body, cfg } => {
                // do { body; k += 1 } while (k < n && !brk)
                let (mut ins, _) = boundary(cx, env, &[body], false);
                if let Some(b) = brk { if !ins.contains(b) && env[*b].is_some() { ins.push(*b); } }
                // all loop-carried variables: those live before (copyable ones keep their value)
                let carried = ins.clone();
                let k0 = d.add_load_value(ConstInt::new_s(6, 0).unwrap());
                let iw: Vec<(Type, Wire)> = std::iter::once((int_type(6), k0)).chain(carried.iter().map(|v| (cx.f.vars[*v].hugr(), get(env, cx.f, *v)))).collect();
                let last = cx.last.take();
                fn tail<D: Dataflow>(b: &mut D, cx: &PCx, en: &mut Env, k: Wire, n: i64, brk: &Option<usize>) -> R<(Wire, Wire)> {
                    let one = b.add_load_value(ConstInt::new_s(6, 1).unwrap());
                    let nn = b.add_load_value(ConstInt::new_s(6, n).unwrap());
                    let k1 = b.add_dataflow_op(IntOpDef::iadd.with_log_width(6), [k, one])?.out_wire(0);
                    let mut stop = b.add_dataflow_op(IntOpDef::ige_s.with_log_width(6), [k1, nn])?.out_wire(0);
                    if let Some(v) = brk {
                        let mut w = en[*v].unwrap();
                        if cx.f.vars[*v] == Ty::T { w = b.add_dataflow_op(BoolOp::read, [w])?.out_wire(0); }
                        stop = b.add_dataflow_op(LogicOp::Or, [stop, w])?.out_wire(0);
                    }
                    Ok((k1, stop))
                }
                let h_outs: Vec<Wire>;
                if *cfg {
                    let in_row: TypeRow = std::iter::once(int_type(6)).chain(carried.iter().map(|v| cx.f.vars[*v].hugr())).collect::<Vec<_>>().into();
                    let mut g = d.cfg_builder(iw, in_row.clone())?;
                    let mut b0 = g.simple_entry_builder(in_row.clone(), 1)?;
                    let ws: Vec<Wire> = b0.input_wires().collect();
                    let u = b0.add_load_value(Value::unit());
                    b0.set_outputs(u, ws)?;
                    let b0 = b0.finish_sub_container()?;
                    let mut b = g.simple_block_builder(Signature::new_endo(in_row.clone()), 2)?;
                    let ws: Vec<Wire> = b.input_wires().collect();
                    let mut en = nested_env(cx, env, &carried, ws[1..].iter().copied(), false);
                    cx.last = None;
                    block(&mut b, cx, &mut en, body)?;
                    let (k1, stop) = tail(&mut b, cx, &mut en, ws[0], *n, brk)?;
                    let ow: Vec<Wire> = std::iter::once(k1).chain(carried.iter().map(|v| get(&mut en, cx.f, *v))).collect();
                    b.set_outputs(stop, ow)?;
                    let b1 = b.finish_sub_container()?;
                    g.branch(&b0, 0, &b1)?;
                    g.branch(&b1, 0, &b1)?;
                    let ex = g.exit_block();
                    g.branch(&b1, 1, &ex)?;
                    let h = g.finish_sub_container()?;
                    node = Some(h.node());
                    h_outs = h.outputs().skip(1).collect();
                } else {
                    let mut b = d.tail_loop_builder([], iw, type_row![])?;
                    let ws: Vec<Wire> = b.input_wires().collect();
                    let mut en = nested_env(cx, env, &carried, ws[1..].iter().copied(), false);
                    cx.last = None;
                    block(&mut b, cx, &mut en, body)?;
                    let (k1, stop) = tail(&mut b, cx, &mut en, ws[0], *n, brk)?;
                    let ow: Vec<Wire> = std::iter::once(k1).chain(carried.iter().map(|v| get(&mut en, cx.f, *v))).collect();
                    let h = b.finish_with_outputs(stop, ow)?;
                    node = Some(h.node());
                    h_outs = h.outputs().skip(1).collect();
                }
                for (v, w) in carried.iter().zip(h_outs) { env[*v] = Some(w); }
                cx.last = last;
            }
            S::Call { f, i, o, ind } => {
                let iw: Vec<Wire> = i.iter().map(|v| get(env, cx.f, *v)).collect();
                let h = if *ind {
                    let fw = d.load_func(&cx.fids[*f], &[])?;
                    let t = d.get_wire_type(fw)?;
                    let hugr::types::TypeEnum::Function(sig) = t.as_type_enum() else { panic!() };
                    let sig: Signature = (**sig).clone().try_into().unwrap();
                    d.add_dataflow_op(hugr::ops::CallIndirect { signature: sig }, std::iter::once(fw).chain(iw))?
                } else { d.call(&cx.fids[*f], &[], iw)? };
                for (v, w) in o.iter().zip(h.outputs()) { env[*v] = Some(w); }
                node = Some(h.node());
            }
        }
        if cx.order {
            if let Some(n) = node {
                if effectful(std::slice::from_ref(s), cx.fx) {
                    chain(d, cx, n);
                }
            }
        }
    }
    if let (Some(l), true) = (cx.last, cx.ends) { let o = d.output().node(); d.add_other_wire(l, o); }
    Ok(())
}
fn b0_finish<B: AsMut<Hugr> + AsRef<Hugr>>(b: &mut hugr::builder::BlockBuilder<B>, ws: Vec<Wire>) -> R<()> { b.set_outputs(ws[0], ws[1..].to_vec()) }

impl Prog {
    pub fn main(&self) -> &Func { self.funcs.last().unwrap() }
    /// Builds the module; the entry point is the last function.
    pub fn build(&self) -> Hugr { if std::env::var("VERIF_DUMP").is_ok() { if crate::ctx::guard(|| self.try_build().is_ok()).is_err() { eprintln!("DUMP {}", serde_json::to_string(self).unwrap()); } } self.try_build().unwrap_or_else(|e| panic!("generator: {e}")) }
    pub fn try_build(&self) -> Result<Hugr, String> {
        ENDS.with(|e| e.set(self.ends));
        let mut m = ModuleBuilder::new();
        m.use_extensions(registry().iter().cloned());
        let mut ids: Vec<FuncID<true>> = vec![];
        let mut fx: Vec<bool> = vec![];
        for (k, f) in self.funcs.iter().enumerate() {
            let tr = |vs: &[usize]| -> TypeRow { vs.iter().map(|v| f.vars[*v].hugr()).collect::<Vec<_>>().into() };
            let sig = Signature::new(tr(&f.ins), tr(&f.outs));
            let vis = if k + 1 == self.funcs.len() { hugr_core::Visibility::Public } else { hugr_core::Visibility::Private };
            let mut b: FunctionBuilder<&mut Hugr> = m.define_function_vis(f.name.clone(), sig, vis).map_err(|e| e.to_string())?;
            let mut env: Env = vec![None; f.vars.len()];
            for (v, w) in f.ins.iter().zip(b.input_wires()) { env[*v] = Some(w); }
            let mut cx = PCx { f, fids: &ids, fx: &fx, order: self.order, ends: self.ends, last: None };
            block(&mut b, &mut cx, &mut env, &f.body).map_err(|e| e.to_string())?;
            let ow: Vec<Wire> = f.outs.iter().map(|v| get(&mut env, f, *v)).collect();
            // functions called uni<flags>… are marked as unitary (1: invertible, 2: controllable, 4: repeatable)
            if let Some(x) = f.name.strip_prefix("uni") { b.set_metadata("unitary", x[..1].parse::<u64>().unwrap()); }
            let h = b.finish_with_outputs(ow).map_err(|e| e.to_string())?;
            let e = effectful(&f.body, &fx);
            fx.push(e);
            ids.push(h.handle().clone());
        }
        let main = ids.last().unwrap().node();
        let mut h = m.finish_hugr().map_err(|e| e.to_string())?;
        use hugr::hugr::hugrmut::HugrMut;
        h.set_entrypoint(main);
        Ok(h)
    }
    /// Input assignments: all values of boolean inputs (up to a cap), fixed values elsewhere.
    pub fn inputs(&self, cap: usize) -> Vec<Vec<serde_json::Value>> {
        use serde_json::json;
        let f = self.main();
        let nb = f.ins.iter().filter(|v| matches!(f.vars[**v], Ty::B | Ty::T)).count();
        let tot = 1usize << nb.min(10);
        (0..tot.min(cap)).map(|k| {
            let k = if tot > cap { k * 37 % tot } else { k };
            let mut nbi = 0; let mut nf = 0;
            f.ins.iter().map(|v| match f.vars[*v] {
                Ty::B | Ty::T => { nbi += 1; json!(["s", (k >> (nbi - 1)) & 1, []]) }
                Ty::F | Ty::D => { nf += 1; json!(["f", 2 * (nf + k as i64) + 1, 16, 0]) }
                Ty::I => { nf += 1; json!(["i", (nf + k as i64) % 3]) }
                t => inval(t, k),
            }).collect()
        }).collect()
    }
    pub fn kinds(&self) -> Vec<&'static str> {
        let f = self.main();
        f.outs.iter().map(|v| if matches!(f.vars[*v], Ty::T | Ty::AT(_) | Ty::ST(_)) { "b" } else { "" }).collect()
    }
}
fn inval(t: Ty, k: usize) -> serde_json::Value {
    use serde_json::json;
    match t {
        Ty::Q => json!(["q"]),
        Ty::B | Ty::T => json!(["s", k % 2, []]),
        Ty::I => json!(["i", k as i64]),
        Ty::F | Ty::D => json!(["f", 1, 4, 0]),
        t => json!(["arr", (0..t.size()).map(|j| inval(t.elem(), j + k)).collect::<Vec<_>>()]),
    }
}
#[allow(dead_code)]
fn _unused() -> HashMap<u8, u8> { let _ = usize_t(); HashMap::new() }
