// oakfacts: a rustc driver that writes facts about the type-checked program
// (borrow-checker MIR, impls, ADTs, statics, traits) of every workspace crate
// as JSON lines. It runs as RUSTC_WORKSPACE_WRAPPER under `cargo check`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::{Mutex, OnceLock};

// ---------------------------------------------------------------- JSON
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x2028 || (c as u32) == 0x2029 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o)
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- captured bodies
struct Captured(Body<'static>, rustc_index::IndexVec<Promoted, Body<'static>>);
unsafe impl Send for Captured {}
static BODIES: Mutex<Option<HashMap<LocalDefId, Captured>>> = Mutex::new(None);
type PromFn = for<'tcx> fn(
    TyCtxt<'tcx>,
    LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>,
);
static ORIG: OnceLock<PromFn> = OnceLock::new();

fn my_mir_promoted<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>,
) {
    let (b, p) = (ORIG.get().unwrap())(tcx, def);
    let body: Body<'tcx> = b.borrow().clone();
    let prom: rustc_index::IndexVec<Promoted, Body<'tcx>> = p.borrow().clone();
    let c = unsafe { Captured(std::mem::transmute::<Body<'tcx>, Body<'static>>(body), std::mem::transmute(prom)) };
    let mut g = BODIES.lock().unwrap();
    g.get_or_insert_with(HashMap::new).insert(def, c);
    (b, p)
}

// ---------------------------------------------------------------- naming
fn path_of(tcx: TyCtxt<'_>, def: DefId) -> String {
    let dp = tcx.def_path(def);
    let mut s = tcx.crate_name(def.krate).to_string();
    for d in dp.data.iter() {
        use rustc_hir::definitions::DefPathData as D;
        match d.data {
            D::TypeNs(n) | D::ValueNs(n) | D::MacroNs(n) | D::LifetimeNs(n) => {
                s.push_str("::");
                s.push_str(n.as_str());
            }
            D::Impl => {
                let _ = write!(s, "::{{impl#{}}}", d.disambiguator);
            }
            D::Closure => {
                let _ = write!(s, "::{{closure#{}}}", d.disambiguator);
            }
            D::Ctor => s.push_str("::{ctor}"),
            _ => {
                let _ = write!(s, "::{{{:?}#{}}}", d.data, d.disambiguator);
            }
        }
    }
    s
}
fn ty_head(tcx: TyCtxt<'_>, t: Ty<'_>) -> String {
    match t.kind() {
        ty::Adt(a, _) => path_of(tcx, a.did()),
        ty::Ref(_, inner, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, ty_head(tcx, *inner)),
        ty::Slice(i) => format!("[{}]", ty_head(tcx, *i)),
        _ => tystr(t),
    }
}
fn key_of(tcx: TyCtxt<'_>, def: DefId) -> String {
    match tcx.def_kind(def) {
        DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy => {
            let parent = tcx.parent(def);
            let name = tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_else(|| "{anon}".to_string());
            match tcx.def_kind(parent) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    if of_trait {
                        let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                        let mut extra = String::new();
                        // distinguishes From<A> / From<B> for the same self type
                        for a in tr.args.iter().skip(1) {
                            if let Some(t) = a.as_type() {
                                if !extra.is_empty() {
                                    extra.push(',')
                                }
                                extra.push_str(&ty_head(tcx, t));
                            }
                        }
                        let tp = path_of(tcx, tr.def_id);
                        if extra.is_empty() {
                            format!("<{} as {}>::{}", ty_head(tcx, st), tp, name)
                        } else {
                            format!("<{} as {}<{}>>::{}", ty_head(tcx, st), tp, extra, name)
                        }
                    } else {
                        format!("{}::{}", ty_head(tcx, st), name)
                    }
                }
                _ => format!("{}::{}", path_of(tcx, parent), name),
            }
        }
        DefKind::Closure => {
            let parent = tcx.parent(def);
            let dp = tcx.def_path(def);
            let n = dp.data.last().map(|d| d.disambiguator).unwrap_or(0);
            format!("{}::{{closure#{}}}", key_of(tcx, parent), n)
        }
        DefKind::Ctor(..) => {
            let parent = tcx.parent(def);
            match tcx.def_kind(parent) {
                _ => format!("{}::{{ctor}}", path_of(tcx, parent)),
            }
        }
        DefKind::Fn | DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
            // items nested in functions keep their parent's key
            let dp = tcx.def_path(def);
            if dp.data.iter().any(|d| matches!(d.data, rustc_hir::definitions::DefPathData::Impl)) {
                let parent = tcx.parent(def);
                let pk = if matches!(tcx.def_kind(parent), DefKind::Mod | DefKind::Impl { .. } | DefKind::Trait) { path_of(tcx, parent) } else { key_of(tcx, parent) };
                let last = dp.data.last().unwrap();
                return format!("{}::{}", pk, last.data);
            }
            path_of(tcx, def)
        }
        _ => path_of(tcx, def),
    }
}
fn tystr(t: Ty<'_>) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(t.to_string())))
}
fn argstr(t: ty::GenericArg<'_>) -> Option<String> {
    if t.as_region().is_some() {
        return None;
    }
    Some(with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(t.to_string()))))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    root: String,
}

impl<'tcx> Cx<'tcx> {
    fn loc(&self, sp: Span) -> (String, usize, bool) {
        let from_exp = sp.from_expansion();
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let mut f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        if let Some(r) = f.strip_prefix(&self.root) {
            f = r.trim_start_matches('/').to_string();
        }
        (f, lo.line, from_exp)
    }
    fn line(&self, sp: Span) -> J {
        J::I(self.loc(sp).1 as i128)
    }

    fn place(&self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut v = vec![J::I(p.local.as_usize() as i128)];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "*".to_string(),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!(".{}", f.as_usize());
                    if let ty::Adt(a, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if a.is_struct() || a.is_union() || pt.variant_index.is_some() {
                            if vi.as_usize() < a.variants().len() {
                                if let Some(fd) = a.variant(vi).fields.get(f) {
                                    name = format!(".{}", fd.name);
                                }
                            }
                        }
                    }
                    name
                }
                ProjectionElem::Index(l) => format!("[_{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[{}{}]", if from_end { "-" } else { "" }, offset),
                ProjectionElem::Subslice { from, to, from_end } => format!("[{}..{}{}]", from, if from_end { "-" } else { "" }, to),
                ProjectionElem::Downcast(n, vi) => {
                    let nm = match n {
                        Some(n) => n.to_string(),
                        None => match pt.ty.kind() {
                            ty::Adt(a, _) if vi.as_usize() < a.variants().len() => a.variant(vi).name.to_string(),
                            _ => vi.as_usize().to_string(),
                        },
                    };
                    format!("@{}", nm)
                }
                ProjectionElem::OpaqueCast(_) => "~o".to_string(),
                _ => "~".to_string(),
            };
            v.push(J::S(s));
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(v)
    }

    fn fnref(&self, env: ty::TypingEnv<'tcx>, def: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("f", J::S(key_of(tcx, def)))];
        let g: Vec<J> = args.iter().filter_map(argstr).map(J::S).collect();
        if !g.is_empty() {
            o.push(("g", J::A(g)));
        }
        if let Some(_t) = tcx.trait_of_assoc(def) {
            o.push(("t", J::B(true)));
            let er = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, def, er).ok().flatten())) {
                let d = inst.def_id();
                if d != def {
                    o.push(("r", J::S(key_of(tcx, d))));
                } else if let ty::InstanceKind::Virtual(..) = inst.def {
                    o.push(("dyn", J::B(true)));
                }
            }
        }
        if tcx.fn_sig(def).skip_binder().safety() == rustc_hir::Safety::Unsafe {
            o.push(("unsafe", J::B(true)));
        }
        J::O(o)
    }

    fn konst(&self, env: ty::TypingEnv<'tcx>, c: &Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o: Vec<(&'static str, J)> = vec![];
        match t.kind() {
            ty::FnDef(def, args) => {
                o.push(("fn", self.fnref(env, *def, args.skip_binder())));
                return J::O(o);
            }
            _ => {}
        }
        o.push(("ty", J::S(tystr(t))));
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.push(("prom", J::I(p.as_usize() as i128)));
                return J::O(o);
            }
            o.push(("item", J::S(key_of(tcx, u.def))));
            let g: Vec<J> = u.args.iter().filter_map(argstr).map(J::S).collect();
            if !g.is_empty() {
                o.push(("g", J::A(g)));
            }
        }
        if let Const::Ty(_, ct) = c {
            o.push(("param", J::S(ct.to_string())));
        }
        let scalar_like = matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char);
        if scalar_like {
            let v = c.try_eval_bits(tcx, env);
            if let Some(b) = v {
                let iv: i128 = if let ty::Int(_) = t.kind() {
                    let sz = tcx.layout_of(env.as_query_input(t)).map(|l| l.size.bits()).unwrap_or(64);
                    let sh = 128 - sz as u32;
                    ((b << sh) as i128) >> sh
                } else {
                    b as i128
                };
                o.push(("v", J::I(iv)));
            }
            return J::O(o);
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            let is_str = inner.is_str();
            let is_bytes = match inner.kind() {
                ty::Slice(e) => e == &tcx.types.u8,
                ty::Array(e, _) => e == &tcx.types.u8,
                _ => false,
            };
            if is_str || is_bytes {
                if let Ok(cv) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                    if is_str || matches!(inner.kind(), ty::Slice(_)) {
                        if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                            if is_str {
                                o.push(("s", J::S(String::from_utf8_lossy(b).into_owned())));
                            } else {
                                o.push(("b", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                            }
                        }
                    } else if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(ptr, _)) = cv {
                        let (prov, off) = ptr.into_raw_parts();
                        if let Some(mir::interpret::GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                            let a = a.inner();
                            if let ty::Array(_, n) = inner.kind() {
                                if let Some(n) = n.try_to_target_usize(tcx) {
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + n as usize);
                                    o.push(("b", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                                }
                            }
                        }
                    }
                }
            }
        }
        if let ty::RawPtr(..) | ty::Ref(..) = t.kind() {
            // reference to a static?
            if let Const::Val(ConstValue::Scalar(mir::interpret::Scalar::Ptr(ptr, _)), _) = c {
                let (prov, _) = ptr.into_raw_parts();
                if let Some(mir::interpret::GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                    o.push(("static", J::S(key_of(tcx, d))));
                }
            }
        }
        if let ty::Float(_) = t.kind() {
            if let Some(b) = c.try_eval_bits(tcx, env) {
                o.push(("bits", J::S(format!("{:x}", b))));
            }
        }
        J::O(o)
    }

    fn op(&self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("c"), self.place(body, *p)]),
            Operand::Move(p) => J::A(vec![J::s("m"), self.place(body, *p)]),
            Operand::Constant(c) => J::A(vec![J::s("k"), self.konst(env, &c.const_)]),
            Operand::RuntimeChecks(_) => J::A(vec![J::s("k"), J::O(vec![("ty", J::s("bool")), ("rt", J::B(true))])]),
        }
    }

    fn rv(&self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::A(vec![J::s("use"), self.op(body, env, o)]),
            Rvalue::Repeat(o, n) => J::A(vec![J::s("rep"), self.op(body, env, o), J::S(n.to_string())]),
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Shared => "sh",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                };
                J::A(vec![J::s("ref"), J::s(k), self.place(body, *p)])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::S(key_of(tcx, *d))]),
            Rvalue::RawPtr(k, p) => J::A(vec![J::s("raw"), J::S(format!("{:?}", k)), self.place(body, *p)]),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::Transmute => "transmute".to_string(),
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::PtrToPtr => "ptr".to_string(),
                    CastKind::PointerCoercion(p, _) => format!("coerce:{:?}", p),
                    k => format!("{:?}", k),
                };
                J::A(vec![J::s("cast"), J::S(ks), self.op(body, env, o), J::S(tystr(*t)), J::S(tystr(o.ty(&body.local_decls, tcx)))])
            }
            Rvalue::BinaryOp(b, ab) => J::A(vec![J::s("bin"), J::S(format!("{:?}", b)), self.op(body, env, &ab.0), self.op(body, env, &ab.1)]),
            Rvalue::UnaryOp(u, o) => J::A(vec![J::s("un"), J::S(format!("{:?}", u)), self.op(body, env, o)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                J::A(vec![J::s("discr"), self.place(body, *p), J::S(ty_head(tcx, t))])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.op(body, env, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let a = tcx.adt_def(*d);
                        let v = a.variant(*vi);
                        J::A(vec![J::s("adt"), J::S(path_of(tcx, *d)), J::s(v.name.as_str()), J::A(v.fields.iter().map(|f| J::s(f.name.as_str())).collect())])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![J::s("closure"), J::S(key_of(tcx, *d))]),
                    AggregateKind::Coroutine(d, _) => J::A(vec![J::s("coroutine"), J::S(key_of(tcx, *d))]),
                    AggregateKind::CoroutineClosure(d, _) => J::A(vec![J::s("coroutine"), J::S(key_of(tcx, *d))]),
                    AggregateKind::RawPtr(..) => J::A(vec![J::s("rawptr")]),
                };
                J::A(vec![J::s("agg"), kk, J::A(ops)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(body, *p)])]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![J::s("use"), self.op(body, env, o)]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(body, *p)])]),
        }
    }

    fn body(&self, env: ty::TypingEnv<'tcx>, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    dbg.push(J::A(vec![J::s(v.name.as_str()), self.place(body, p)]));
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let mut x = vec![J::S(tystr(d.ty))];
                if let Some(n) = names.get(&l.as_usize()) {
                    x.push(J::S(n.clone()));
                }
                J::A(x)
            })
            .collect();
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            if data.is_cleanup {
                blocks.push(J::N);
                continue;
            }
            let mut st = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        st.push(J::A(vec![J::s("="), self.place(body, *p), self.rv(body, env, r), self.line(s.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![J::s("setd"), self.place(body, **place), J::I(variant_index.as_usize() as i128)]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![J::s("dead"), J::I(l.as_usize() as i128)])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![J::s("live"), J::I(l.as_usize() as i128)])),
                    _ => {}
                }
            }
            let t = data.terminator();
            let bb = |b: BasicBlock| J::I(b.as_usize() as i128);
            let line = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), bb(*target)]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), bb(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), bb(*real_target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), bb(b)])).collect();
                    J::A(vec![J::s("switch"), self.op(body, env, discr), J::A(v), bb(targets.otherwise()), line, J::S(tystr(discr.ty(&body.local_decls, tcx)))])
                }
                TerminatorKind::Return => J::A(vec![J::s("return")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![J::s("drop"), self.place(body, *place), bb(*target), line]),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            ty::FnDef(d, a) => self.fnref(env, *d, a.skip_binder()),
                            _ => J::O(vec![("op", self.op(body, env, func))]),
                        },
                        _ => J::O(vec![("op", self.op(body, env, func))]),
                    };
                    let a: Vec<J> = args.iter().map(|a| self.op(body, env, &a.node)).collect();
                    let (_, l, exp) = self.loc(*fn_span);
                    J::A(vec![
                        J::s("call"),
                        f,
                        J::A(a),
                        self.place(body, *destination),
                        target.map(bb).unwrap_or(J::N),
                        J::I(l as i128),
                        J::B(exp),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => J::A(vec![J::s("bounds"), self.op(body, env, len), self.op(body, env, index)]),
                        AssertKind::Overflow(b, x, y) => J::A(vec![J::s("overflow"), J::S(format!("{:?}", b)), self.op(body, env, x), self.op(body, env, y)]),
                        AssertKind::DivisionByZero(_) => J::A(vec![J::s("div0")]),
                        AssertKind::RemainderByZero(_) => J::A(vec![J::s("rem0")]),
                        _ => J::A(vec![J::s("other")]),
                    };
                    J::A(vec![J::s("assert"), self.op(body, env, cond), J::B(*expected), m, bb(*target), line])
                }
                TerminatorKind::Yield { value, resume, resume_arg, drop } => {
                    J::A(vec![J::s("yield"), self.op(body, env, value), bb(*resume), self.place(body, *resume_arg), drop.map(bb).unwrap_or(J::N), line])
                }
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                TerminatorKind::CoroutineDrop => J::A(vec![J::s("return")]),
                TerminatorKind::InlineAsm { .. } => J::A(vec![J::s("asm")]),
                TerminatorKind::TailCall { .. } => J::A(vec![J::s("tail")]),
                _ => J::A(vec![J::s("resume")]),
            };
            blocks.push(J::A(vec![J::A(st), tj]));
        }
        vec![("argc", J::I(body.arg_count as i128)), ("locals", J::A(locals)), ("dbg", J::A(dbg)), ("bbs", J::A(blocks))]
    }

    fn run(&self, out: &mut String) {
        let tcx = self.tcx;
        let mut bodies = BODIES.lock().unwrap().take().unwrap_or_default();
        let mut emit = |j: J| {
            j.w(out);
            out.push('\n');
        };
        // bodies
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        owners.sort_by_key(|d| d.local_def_index.as_u32());
        for ld in owners {
            let def = ld.to_def_id();
            if !bodies.contains_key(&ld) {
                // const/static bodies never borrow-checked separately: force
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let _ = tcx.mir_promoted(ld);
                }));
                if let Some(m) = BODIES.lock().unwrap().take() {
                    for (k, v) in m {
                        bodies.insert(k, v);
                    }
                }
            }
            let Some(Captured(b, prom)) = bodies.get(&ld) else { continue };
            let b: &Body<'tcx> = unsafe { std::mem::transmute(b) };
            let prom: &rustc_index::IndexVec<Promoted, Body<'tcx>> = unsafe { std::mem::transmute(prom) };
            let env = ty::TypingEnv::post_analysis(tcx, ld);
            let (file, line, exp) = self.loc(tcx.def_span(def));
            let kind = tcx.def_kind(def);
            let mut o: Vec<(&'static str, J)> = vec![
                ("k", J::s("fn")),
                ("key", J::S(key_of(tcx, def))),
                ("path", J::S(path_of(tcx, def))),
                ("kind", J::S(format!("{:?}", kind))),
                ("file", J::S(file)),
                ("line", J::I(line as i128)),
                ("exp", J::B(exp)),
            ];
            if let DefKind::Fn | DefKind::AssocFn = kind {
                let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("unsafe", J::B(sig.safety() == rustc_hir::Safety::Unsafe)));
                o.push(("vis", J::B(tcx.visibility(def).is_public())));
                o.push(("ret", J::S(tystr(sig.output()))));
                let parent = tcx.parent(def);
                if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                    o.push(("impl", J::S(path_of(tcx, parent))));
                    o.push(("derived", J::B(tcx.is_automatically_derived(parent))));
                    if of_trait {
                        o.push(("trait", J::S(path_of(tcx, tcx.impl_trait_ref(parent).skip_binder().def_id))));
                    }
                    o.push(("self", J::S(tystr(tcx.type_of(parent).instantiate_identity().skip_norm_wip()))));
                } else if let DefKind::Trait = tcx.def_kind(parent) {
                    o.push(("intrait", J::S(path_of(tcx, parent))));
                }
            }
            if let DefKind::Closure = kind {
                o.push(("parent", J::S(key_of(tcx, tcx.parent(def)))));
                o.push(("coroutine", J::B(tcx.is_coroutine(def))));
            }
            o.extend(self.body(env, b));
            let ps: Vec<J> = prom.iter().map(|p| J::O(self.body(env, p))).collect();
            if !ps.is_empty() {
                o.push(("proms", J::A(ps)));
            }
            emit(J::O(o));
        }
        // items
        for id in tcx.hir_crate_items(()).definitions() {
            let def = id.to_def_id();
            let kind = tcx.def_kind(def);
            let (file, line, exp) = self.loc(tcx.def_span(def));
            match kind {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(def);
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let mut vs = vec![];
                    if a.is_enum() {
                        for (vi, d) in a.discriminants(tcx) {
                            let v = a.variant(vi);
                            vs.push(J::O(vec![
                                ("n", J::s(v.name.as_str())),
                                ("d", J::I(d.val as i128)),
                                ("fs", J::A(v.fields.iter().map(|f| J::A(vec![J::s(f.name.as_str()), J::S(tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))])).collect())),
                            ]));
                        }
                    } else {
                        for v in a.variants().iter() {
                            vs.push(J::O(vec![
                                ("n", J::s(v.name.as_str())),
                                ("fs", J::A(v.fields.iter().map(|f| J::A(vec![J::s(f.name.as_str()), J::S(tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())), J::B(tcx.visibility(f.did).is_public())])).collect())),
                            ]));
                        }
                    }
                    let repr = a.repr();
                    let gens = tcx.generics_of(def);
                    let mut size = J::N;
                    if gens.own_params.is_empty() {
                        let env = ty::TypingEnv::post_analysis(tcx, id);
                        if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                            size = J::I(l.size.bytes() as i128);
                        }
                    }
                    emit(J::O(vec![
                        ("k", J::s("adt")),
                        ("key", J::S(path_of(tcx, def))),
                        ("kind", J::S(format!("{:?}", kind))),
                        ("file", J::S(file)),
                        ("line", J::I(line as i128)),
                        ("vis", J::B(tcx.visibility(def).is_public())),
                        ("repr", J::S(match repr.int {
                            Some(i) => format!("{:?}", i),
                            None => if repr.c() { "C".into() } else if repr.transparent() { "transparent".into() } else { "Rust".to_string() },
                        })),
                        ("size", size),
                        ("vs", J::A(vs)),
                    ]));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let items: Vec<J> = tcx
                        .associated_items(def)
                        .in_definition_order()
                        .map(|i| {
                            let mut v = vec![J::s(i.opt_name().map(|s| s.to_string()).unwrap_or_default()), J::S(key_of(tcx, i.def_id))];
                            if let ty::AssocKind::Type { .. } = i.kind {
                                v.push(J::S(tystr(tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip())));
                            }
                            J::A(v)
                        })
                        .collect();
                    let mut o = vec![
                        ("k", J::s("impl")),
                        ("key", J::S(path_of(tcx, def))),
                        ("file", J::S(file)),
                        ("line", J::I(line as i128)),
                        ("self", J::S(tystr(st))),
                        ("head", J::S(ty_head(tcx, st))),
                        ("derived", J::B(tcx.is_automatically_derived(def))),
                        ("exp", J::B(exp)),
                    ];
                    if of_trait {
                        let h = tcx.impl_trait_header(def);
                        let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                        o.push(("trait", J::S(path_of(tcx, tr.def_id))));
                        o.push(("unsafe", J::B(h.safety == rustc_hir::Safety::Unsafe)));
                        o.push(("neg", J::B(h.polarity == ty::ImplPolarity::Negative)));
                        o.push(("targs", J::A(tr.args.iter().skip(1).filter_map(argstr).map(J::S).collect())));
                    }
                    o.push(("items", J::A(items)));
                    emit(J::O(o));
                }
                DefKind::Trait => {
                    let items: Vec<J> = tcx
                        .associated_items(def)
                        .in_definition_order()
                        .map(|i| J::A(vec![J::s(i.opt_name().map(|s| s.to_string()).unwrap_or_default()), J::B(i.defaultness(tcx).has_value()), J::S(format!("{:?}", tcx.def_kind(i.def_id)))]))
                        .collect();
                    emit(J::O(vec![
                        ("k", J::s("trait")),
                        ("key", J::S(path_of(tcx, def))),
                        ("file", J::S(file)),
                        ("line", J::I(line as i128)),
                        ("unsafe", J::B(tcx.trait_def(def).safety == rustc_hir::Safety::Unsafe)),
                        ("items", J::A(items)),
                    ]));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let env = ty::TypingEnv::post_analysis(tcx, id);
                    emit(J::O(vec![
                        ("k", J::s("static")),
                        ("key", J::S(key_of(tcx, def))),
                        ("file", J::S(file)),
                        ("line", J::I(line as i128)),
                        ("ty", J::S(tystr(t))),
                        ("mut", J::B(mutability.is_mut())),
                        ("freeze", J::B(t.is_freeze(tcx, env))),
                        ("tls", J::B(tcx.is_thread_local_static(def))),
                    ]));
                }
                _ => {}
            }
        }
    }
}

// ---------------------------------------------------------------- driver
struct Cb {
    out: Option<std::path::PathBuf>,
    root: String,
}

struct Loader;
impl rustc_span::source_map::FileLoader for Loader {
    fn file_exists(&self, path: &std::path::Path) -> bool {
        path.exists()
    }
    fn read_file(&self, path: &std::path::Path) -> std::io::Result<String> {
        let s = rustc_span::source_map::RealFileLoader.read_file(path)?;
        // The repository pins an older nightly; a feature gate that has since been
        // removed is blanked (same length) so that this compiler accepts the crate.
        if path.extension().map_or(false, |e| e == "rs") && s.contains("#![feature(lazy_type_alias)]") {
            let n = "#![feature(lazy_type_alias)]";
            return Ok(s.replace(n, &" ".repeat(n.len())));
        }
        Ok(s)
    }
    fn read_binary_file(&self, path: &std::path::Path) -> std::io::Result<std::sync::Arc<[u8]>> {
        rustc_span::source_map::RealFileLoader.read_binary_file(path)
    }
    fn current_directory(&self) -> std::io::Result<std::path::PathBuf> {
        std::env::current_dir()
    }
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.file_loader = Some(Box::new(Loader));
        if self.out.is_some() {
            c.override_queries = Some(|_s, p| {
                let _ = ORIG.set(p.queries.mir_promoted);
                p.queries.mir_promoted = my_mir_promoted;
            });
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if let Some(dir) = &self.out {
            let mut s = String::new();
            let cx = Cx { tcx, root: self.root.clone() };
            cx.run(&mut s);
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let _ = std::fs::create_dir_all(dir);
            let tmp = dir.join(format!("{}.tmp{}", name, std::process::id()));
            let fin = dir.join(format!("{}.jsonl", name));
            let mut f = std::fs::File::create(&tmp).unwrap();
            f.write_all(s.as_bytes()).unwrap();
            drop(f);
            std::fs::rename(&tmp, &fin).unwrap();
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("OAKFACTS_OUT").ok();
    let root = std::env::var("OAKFACTS_ROOT").unwrap_or_default();
    let mut crate_name = String::new();
    let mut is_lib = false;
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            crate_name = args[i + 1].clone();
        }
        if args[i] == "--crate-type" && i + 1 < args.len() && (args[i + 1] == "lib" || args[i + 1] == "proc-macro" || args[i + 1] == "rlib") {
            is_lib = true;
        }
        i += 1;
    }
    let want = is_lib && !crate_name.is_empty() && crate_name != "___";
    let mut cb = Cb { out: if want { out.map(|o| o.into()) } else { None }, root };
    rustc_driver::install_ice_hook("", |_| ());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
