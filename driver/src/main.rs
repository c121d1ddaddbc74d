// Dumps the type-checked, monomorphised MIR of the workspace crates as JSON facts.
// Used as RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, rustc-args...].
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArg, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::Span;

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

impl J {
    fn put(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(out, "{n}");
            }
            J::S(s) => esc(s, out),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.put(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.put(out);
                }
                out.push('}');
            }
            J::M(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.put(out);
                }
                out.push('}');
            }
        }
    }
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}

macro_rules! pretty {
    ($e:expr) => {
        with_resolve_crate_name!(with_no_trimmed_paths!(with_no_visible_paths!($e)))
    };
}

// std items whose (small, loop-free) bodies are worth interpreting instead of modelling.
const INLINE_STD: &[&str] = &[
    "<core::option::Option<",
    "<core::result::Result<",
    "core::option::",
    "core::result::",
    "<core::ops::control_flow::ControlFlow<",
    "core::ops::try_trait::",
    "<core::cmp::Ordering>::",
    "core::cmp::Ordering",
    "core::cmp::impls::",
    "core::cmp::Ord::",
    "core::cmp::PartialOrd::",
    "core::cmp::min",
    "core::cmp::max",
    "core::mem::replace",
    "core::mem::take",
    "core::mem::swap",
    "core::convert::",
    "core::ops::function::",
    "core::num::<impl usize>::",
    "core::num::<impl isize>::",
    "core::num::<impl u8>::",
    "<usize>::",
    "<isize>::",
    "<u8>::",
    "core::bool::",
    "<bool>::",
    "core::tuple::",
    "core::clone::impls::",
    "core::hint::must_use",
];

const INLINE_NAMES: &[&str] = &[
    "branch", "from_residual", "from_output", "min", "max", "clamp", "le", "lt", "ge", "gt", "cmp", "partial_cmp", "eq", "ne",
    "then", "then_some", "then_with",
];

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    env: TypingEnv<'tcx>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashSet<Instance<'tcx>>,
    fns: Vec<(String, J)>,
}

fn is_ws_crate(name: &str) -> bool {
    name.starts_with("pw_")
}

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        pretty!(self.tcx.def_path_str(d))
    }

    fn is_ws(&self, d: DefId) -> bool {
        is_ws_crate(self.tcx.crate_name(d.krate).as_str())
    }

    fn ikey(&self, inst: Instance<'tcx>) -> String {
        let base = pretty!(self.tcx.def_path_str_with_args(inst.def_id(), inst.args));
        match inst.def {
            InstanceKind::Item(_) => base,
            InstanceKind::Intrinsic(_) => format!("intrinsic:{base}"),
            InstanceKind::Virtual(..) => format!("virtual:{base}"),
            _ => format!("shim:{base}:{:?}", pretty!(format!("{:?}", inst.def))),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        n(self.ty_id(t))
    }

    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.ty_ids.insert(t, id);
        let name = pretty!(format!("{t}"));
        let mut o: Vec<(&'static str, J)> = vec![("name", s(name))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) | ty::Uint(_) => {
                o.push(("k", s("int")));
                o.push(("signed", J::B(t.is_signed())));
                let bits = match t.kind() {
                    ty::Int(i) => i.bit_width().unwrap_or(64),
                    ty::Uint(i) => i.bit_width().unwrap_or(64),
                    _ => 64,
                };
                o.push(("bits", n(bits as usize)));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let i = self.ty(*inner);
                o.push(("inner", i));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let i = self.ty(*inner);
                o.push(("inner", i));
            }
            ty::Slice(inner) => {
                o.push(("k", s("slice")));
                let i = self.ty(*inner);
                o.push(("inner", i));
            }
            ty::Array(inner, len) => {
                o.push(("k", s("array")));
                let i = self.ty(*inner);
                o.push(("inner", i));
                if let Some(l) = len.try_to_target_usize(self.tcx) {
                    o.push(("len", n(l as usize)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("elems", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                o.push(("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let a = args.types().map(|t| self.ty(t)).collect();
                o.push(("args", J::A(a)));
                let ws = self.is_ws(def.did());
                o.push(("ws", J::B(ws)));
                let p = self.path(def.did());
                let fields_ok = ws
                    || p.starts_with("core::option::")
                    || p.starts_with("core::result::")
                    || p.starts_with("core::ops::")
                    || p.starts_with("core::cmp::")
                    || p.starts_with("core::convert::");
                let mut vs = vec![];
                if def.is_enum() || fields_ok {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val as i128 } else { 0 };
                        let mut fs = vec![];
                        if fields_ok {
                            for f in v.fields.iter() {
                                let ft = f.ty(self.tcx, args);
                                let ft = self
                                    .tcx
                                    .try_normalize_erasing_regions(self.env, ft)
                                    .unwrap_or_else(|_| ft.skip_normalization());
                                let ft = self.ty(ft);
                                fs.push(J::O(vec![("name", s(f.name.as_str())), ("ty", ft)]));
                            }
                        }
                        vs.push(J::O(vec![("name", s(v.name.as_str())), ("discr", J::N(discr)), ("fields", J::A(fs)), ("nfields", n(v.fields.len()))]));
                    }
                }
                o.push(("variants", J::A(vs)));
                o.push(("has_fields", J::B(fields_ok)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(*d))));
                let ups: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let v = ups.into_iter().map(|t| self.ty(t)).collect();
                o.push(("elems", J::A(v)));
                // the body, callable directly
                let inst = Instance::new_raw(*d, args);
                let key = self.ikey(inst);
                self.enqueue(inst);
                o.push(("key", s(key)));
                let kind = args.as_closure().kind_ty().to_opt_closure_kind();
                o.push(("ckind", s(format!("{kind:?}"))));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(self.path(*d))));
                let c = self.callee(*d, args.skip_binder());
                o.push(("callee", c));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[id] = J::O(o);
        id
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) {
        if self.seen.contains(&inst) {
            return;
        }
        if self.wants_body(inst) {
            self.seen.insert(inst);
            self.queue.push_back(inst);
        }
    }

    fn wants_body(&self, inst: Instance<'tcx>) -> bool {
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Item(_) => {}
            InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) | InstanceKind::LlvmIntrinsic(..) => return false,
            InstanceKind::Shim(k) => {
                return matches!(k, ty::ShimKind::FnPtr(..) | ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::Reify(..));
            }
        }
        if !self.tcx.is_mir_available(d) {
            return false;
        }
        if self.is_ws(d) {
            return true;
        }
        let p = self.path(d);
        if self.tcx.is_closure_like(d) {
            return INLINE_STD.iter().any(|x| p.starts_with(x));
        }
        if INLINE_STD.iter().any(|x| p.starts_with(x)) {
            return true;
        }
        let name = self.tcx.item_name(d);
        let nm = name.as_str();
        if INLINE_NAMES.contains(&nm) && p.starts_with('<') {
            let key = pretty!(self.tcx.def_path_str_with_args(d, inst.args));
            return key.starts_with("<core::option::Option<")
                || key.starts_with("<core::result::Result<")
                || key.starts_with("<core::ops::control_flow::ControlFlow<")
                || key.starts_with("<core::cmp::Ordering as")
                || key.starts_with("<usize as")
                || key.starts_with("<isize as")
                || key.starts_with("<u8 as")
                || key.starts_with("<bool as");
        }
        false
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", s(self.path(d)))];
        o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        o.push(("crate", s(tcx.crate_name(d.krate).as_str())));
        let a: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("args", J::A(a)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            return J::O(o);
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(inst)) => {
                o.push(("key", s(self.ikey(inst))));
                o.push(("rpath", s(self.path(inst.def_id()))));
                o.push((
                    "rkind",
                    s(match inst.def {
                        InstanceKind::Item(_) => "item",
                        InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                        InstanceKind::Virtual(..) => "virtual",
                        InstanceKind::Shim(_) => "shim",
                    }),
                ));
                if self.tcx.is_closure_like(inst.def_id()) {
                    o.push(("closure", J::B(true)));
                }
                self.enqueue(inst);
            }
            _ => o.push(("key", J::Null)),
        }
        J::O(o)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), n(offset as usize), n(min_length as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), n(v.as_usize())]),
                other => J::A(vec![s("?"), s(format!("{other:?}"))]),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => {
                let p = self.place(p);
                J::O(vec![("k", s("copy")), ("p", p)])
            }
            Operand::Move(p) => {
                let p = self.place(p);
                J::O(vec![("k", s("move")), ("p", p)])
            }
            Operand::Constant(c) => self.constant(&c.const_, c.span),
            Operand::RuntimeChecks(r) => J::O(vec![("k", s("rtcheck")), ("what", s(format!("{r:?}")))]),
        }
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, span: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("k", s("const")), ("ty", tid)];
        if let ty::FnDef(d, args) = t.kind() {
            let c = self.callee(*d, args.skip_binder());
            o.push(("fn", c));
            return J::O(o);
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.push(("promoted", n(p.as_usize())));
                return J::O(o);
            }
            o.push(("named", s(self.path(u.def))));
        }
        let Ok(v) = c.eval(tcx, self.env, span) else {
            o.push(("opaque", s(pretty!(format!("{c:?}")))));
            return J::O(o);
        };
        match v {
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Scalar(sc) => {
                if let Ok(si) = sc.try_to_scalar_int() {
                    let bits = si.to_bits(si.size());
                    let val = if t.is_signed() && si.size().bits() > 0 {
                        let sz = si.size().bits();
                        let sh = 128 - sz;
                        ((bits << sh) as i128) >> sh
                    } else {
                        bits as i128
                    };
                    o.push(("int", J::N(val)));
                } else {
                    if let mir::interpret::Scalar::Ptr(ptr, _) = sc {
                        let (prov, _) = ptr.into_raw_parts();
                        if let mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                            let p = self.path(d);
                            self.push_static(&mut o, d, p);
                        }
                    }
                    // pointer: try bytes of what it points to
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if let ty::Array(el, len) = inner.kind() {
                            if el == &tcx.types.u8 {
                                if let (Some(l), mir::interpret::Scalar::Ptr(ptr, _)) = (len.try_to_target_usize(tcx), sc) {
                                    let (prov, off) = ptr.into_raw_parts();
                                    if let mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                                        let a = m.inner();
                                        let st = off.bytes_usize();
                                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(st..st + l as usize);
                                        o.push(("bytes", J::A(b.iter().map(|x| n(*x as usize)).collect())));
                                        return J::O(o);
                                    }
                                }
                            }
                        }
                    }
                    o.push(("opaque", s(pretty!(format!("{c:?}")))));
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let mut done = false;
                if let mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    let a = m.inner();
                    let is_str = matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                    let is_bytes = matches!(t.kind(), ty::Ref(_, i, _) if matches!(i.kind(), ty::Slice(e) if *e == tcx.types.u8));
                    if is_str || is_bytes {
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                        if is_str {
                            o.push(("str", s(String::from_utf8_lossy(b).into_owned())));
                        } else {
                            o.push(("bytes", J::A(b.iter().map(|x| n(*x as usize)).collect())));
                        }
                        done = true;
                    }
                }
                if !done {
                    o.push(("opaque", s(pretty!(format!("{c:?}")))));
                }
            }
            ConstValue::Indirect { .. } => {
                o.push(("indirect", J::B(true)));
                o.push(("opaque", s(pretty!(format!("{c:?}")))));
            }
        }
        J::O(o)
    }

    fn push_static(&mut self, o: &mut Vec<(&'static str, J)>, d: DefId, p: String) {
        let tcx = self.tcx;
        let t = tcx.type_of(d).instantiate_identity().skip_normalization();
        o.push(("static", s(p)));
        o.push(("smut", J::B(tcx.is_mutable_static(d))));
        o.push(("stls", J::B(tcx.is_thread_local_static(d))));
        // lazily initialised cells count as constant when what they hold is
        let mut inner = t;
        loop {
            let ty::Adt(ad, ga) = inner.kind() else { break };
            let ap = self.path(ad.did());
            if ["Lazy", "LazyLock", "OnceLock", "Box", "Arc"].iter().any(|x| ap.ends_with(&format!("::{x}"))) {
                if let Some(a) = ga.types().next() {
                    inner = a;
                    continue;
                }
            }
            break;
        }
        let nm = pretty!(format!("{inner}"));
        let frozen = inner.is_freeze(tcx, TypingEnv::fully_monomorphized()) || nm.starts_with("regex::");
        o.push(("sty", s(nm)));
        o.push(("frozen", J::B(frozen)));
    }

    fn rvalue(&mut self, rv: &Rvalue<'tcx>, body: &Body<'tcx>) -> J {
        match rv {
            Rvalue::Use(op, ..) => {
                let o = self.operand(op);
                J::A(vec![s("use"), o])
            }
            Rvalue::Repeat(op, c) => {
                let o = self.operand(op);
                let l = c.try_to_target_usize(self.tcx).map(|x| n(x as usize)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), o, l])
            }
            Rvalue::Ref(_, bk, p) => {
                let p = self.place(p);
                J::A(vec![s("ref"), J::B(matches!(bk, BorrowKind::Mut { .. })), p])
            }
            Rvalue::RawPtr(k, p) => {
                let p = self.place(p);
                J::A(vec![s("ref"), J::B(matches!(k, RawPtrKind::Mut)), p])
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(p);
                J::A(vec![s("reborrow"), J::B(m.is_mut()), p])
            }
            Rvalue::Cast(k, op, t) => {
                let from = op.ty(body, self.tcx);
                let from = self.ty(from);
                let o = self.operand(op);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{k:?}")), o, from, t])
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(body, self.tcx);
                let t = self.ty(t);
                let x = self.operand(&ops.0);
                let y = self.operand(&ops.1);
                J::A(vec![s("bin"), s(format!("{b:?}")), x, y, t])
            }
            Rvalue::UnaryOp(u, op) => {
                let t = op.ty(body, self.tcx);
                let t = self.ty(t);
                let o = self.operand(op);
                J::A(vec![s("un"), s(format!("{u:?}")), o, t])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let t = self.ty(t);
                let p = self.place(p);
                J::A(vec![s("discr"), p, t])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::A(vec![s("use"), J::O(vec![("k", s("copy")), ("p", p)])])
            }
            Rvalue::Aggregate(k, ops) => {
                let t = rv.ty(body, self.tcx);
                let t = self.ty(t);
                let v: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let (kind, var, active) = match &**k {
                    AggregateKind::Array(_) => ("array", 0, J::Null),
                    AggregateKind::Tuple => ("tuple", 0, J::Null),
                    AggregateKind::Adt(_, vi, _, _, f) => ("adt", vi.as_usize(), f.map(|x| n(x.as_usize())).unwrap_or(J::Null)),
                    AggregateKind::Closure(..) => ("closure", 0, J::Null),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, J::Null),
                    _ => ("other", 0, J::Null),
                };
                J::A(vec![s("agg"), s(kind), t, n(var), J::A(v), active])
            }
            other => J::A(vec![s("other"), s(pretty!(format!("{other:?}")))]),
        }
    }

    fn line(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        n(l.line)
    }

    fn body(&mut self, key: String, inst_def: DefId, body: &Body<'tcx>, poly: bool, extra: Vec<(&'static str, J)>) -> J {
        let tcx = self.tcx;
        let sm = tcx.sess.source_map();
        let l = sm.lookup_char_pos(body.span.source_callsite().lo());
        let file = pretty!(format!("{}", l.file.name.prefer_local_unconditionally()));
        let mut o: Vec<(&'static str, J)> = vec![
            ("key", s(key)),
            ("path", s(self.path(inst_def))),
            ("name", s(tcx.opt_item_name(inst_def).map(|x| x.to_string()).unwrap_or_default())),
            ("crate", s(tcx.crate_name(inst_def.krate).as_str())),
            ("file", s(file)),
            ("line", n(l.line)),
            ("poly", J::B(poly)),
            ("argc", n(body.arg_count)),
            ("spread", body.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::Null)),
        ];
        o.extend(extra);
        if !tcx.is_closure_like(inst_def) {
            if let Some(imp) = tcx.impl_of_assoc(inst_def) {
                let st = tcx.type_of(imp).instantiate_identity();
                o.push(("impl_self", s(pretty!(format!("{}", st.skip_normalization())))));
                if let Some(tr) = tcx.impl_opt_trait_id(imp) {
                    o.push(("impl_trait", s(self.path(tr))));
                }
                if tcx.is_automatically_derived(imp) {
                    o.push(("derived", J::B(true)));
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(inst_def) {
                o.push(("trait", s(self.path(tr))));
            }
            o.push(("public", J::B(tcx.visibility(inst_def).is_public())));
        } else {
            o.push(("closure", J::B(true)));
        }
        let locals: Vec<J> = body.local_decls.iter().map(|d| self.ty(d.ty)).collect();
        o.push(("locals", J::A(locals)));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push((p.local.as_usize().to_string(), s(v.name.as_str())));
                }
            }
        }
        o.push(("names", J::M(names)));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, rv) = &**b;
                        let p = self.place(p);
                        let rv = self.rvalue(rv, body);
                        st.push(J::A(vec![s("="), p, rv, self.line(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("setd"), p, n(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    StatementKind::Intrinsic(i) => st.push(J::A(vec![s("intr"), s(format!("{i:?}"))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(body, tcx);
                    let ty = self.ty(ty);
                    let d = self.operand(discr);
                    let mut v = vec![];
                    for (val, b) in targets.iter() {
                        v.push(J::A(vec![J::N(val as i128), n(b.as_usize())]));
                    }
                    J::A(vec![s("switch"), d, J::A(v), n(targets.otherwise().as_usize()), ty])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("unwind")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(body, tcx).ty;
                    let ty = self.ty(ty);
                    let p = self.place(place);
                    J::A(vec![s("drop"), p, n(target.as_usize()), ty])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    let rt = destination.ty(body, tcx).ty;
                    let rt = self.ty(rt);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        d,
                        target.map(|t| n(t.as_usize())).unwrap_or(J::Null),
                        rt,
                        ln.clone(),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let (kind, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(len), self.operand(index)])
                        }
                        AssertKind::Overflow(b, x, y) => {
                            (format!("overflow:{b:?}"), vec![self.operand(x), self.operand(y)])
                        }
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.operand(x)]),
                        AssertKind::DivisionByZero(x) => ("divzero".into(), vec![self.operand(x)]),
                        AssertKind::RemainderByZero(x) => ("remzero".into(), vec![self.operand(x)]),
                        other => (format!("{other:?}").split('{').next().unwrap().trim().to_string(), vec![]),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), s(kind), J::A(ops), n(target.as_usize()), ln.clone()])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                other => J::A(vec![s("other"), s(format!("{other:?}"))]),
            };
            blocks.push(J::A(vec![J::A(st), term, ln]));
        }
        o.push(("blocks", J::A(blocks)));
        J::O(o)
    }

    fn dump_instance(&mut self, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let key = self.ikey(inst);
        let b = tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, b.clone()));
        let mut extra = vec![];
        if let InstanceKind::Item(d) = inst.def {
            if !self.is_ws(d) || tcx.is_mir_available(d) {
                let prom = tcx.promoted_mir(d);
                let mut pv = vec![];
                for (i, pb) in prom.iter_enumerated() {
                    let pb = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, pb.clone()));
                    pv.push(self.body(format!("{key}::promoted[{}]", i.as_usize()), d, &pb, false, vec![]));
                }
                extra.push(("promoted", J::A(pv)));
            }
        }
        let j = self.body(key.clone(), inst.def_id(), &body, false, extra);
        self.fns.push((key, j));
    }

    fn drain(&mut self) {
        while let Some(i) = self.queue.pop_front() {
            self.dump_instance(i);
        }
    }

    fn dump_poly(&mut self, d: DefId) {
        let tcx = self.tcx;
        let save = self.env;
        self.env = TypingEnv::post_analysis(tcx, d);
        let body = tcx.optimized_mir(d).clone();
        let key = format!("poly:{}", self.path(d));
        let j = self.body(key.clone(), d, &body, true, vec![]);
        self.fns.push((key, j));
        self.env = save;
        // instances queued under a polymorphic environment are of no use
        self.queue.retain(|i| !rustc_middle::ty::TypeVisitableExt::has_param(&i.args));
    }
}

trait SkipBinderHack<'tcx> {
    fn skip_binder_hack(&self) -> GenericArgsRef<'tcx>;
}
impl<'tcx> SkipBinderHack<'tcx> for GenericArgsRef<'tcx> {
    fn skip_binder_hack(&self) -> GenericArgsRef<'tcx> {
        *self
    }
}

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let Ok(dir) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        if !is_ws_crate(&krate) || tcx.sess.opts.test {
            return Compilation::Continue;
        }
        let mut d = Dumper {
            tcx,
            types: vec![],
            ty_ids: HashMap::new(),
            env: TypingEnv::fully_monomorphized(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
            fns: vec![],
        };
        // candidate type arguments
        let mut cands: Vec<Ty<'tcx>> = vec![tcx.types.u8, Ty::new_adt(tcx, tcx.adt_def(tcx.lang_items().string().unwrap()), ty::List::empty())];
        if let Some(f) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("File")) {
            cands.push(tcx.type_of(f).instantiate_identity().skip_normalization());
        }
        let mut derives = vec![];
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum => {
                    let g = tcx.generics_of(did);
                    let own = g.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime));
                    if !own {
                        let args = ty::GenericArgs::for_item(tcx, did, |_, _| tcx.lifetimes.re_erased.into());
                        cands.push(tcx.type_of(did).instantiate(tcx, args).skip_normalization());
                    }
                    let t = tcx.type_of(did).instantiate_identity().skip_normalization();
                    let tj = d.ty(t);
                    adts.push((d.path(did), tj));
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_opt_trait_id(did).map(|t| d.path(t)).unwrap_or_default();
                    let st = tcx.type_of(did).instantiate_identity().skip_normalization();
                    derives.push(J::O(vec![
                        ("trait", s(tr)),
                        ("self", s(pretty!(format!("{st}")))),
                        ("derived", J::B(tcx.is_automatically_derived(did))),
                    ]));
                }
                _ => {}
            }
        }
        let mut roots = vec![];
        for id in tcx.mir_keys(()).iter() {
            let did = id.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if !tcx.is_mir_available(did) {
                continue;
            }
            let g = tcx.generics_of(did);
            let mut params: Vec<u32> = vec![];
            let mut has_const = false;
            let mut gg = Some(g);
            while let Some(x) = gg {
                for p in &x.own_params {
                    match p.kind {
                        ty::GenericParamDefKind::Type { .. } => params.push(p.index),
                        ty::GenericParamDefKind::Const { .. } => has_const = true,
                        _ => {}
                    }
                }
                gg = x.parent.map(|p| tcx.generics_of(p));
            }
            params.sort();
            if has_const {
                d.dump_poly(did);
                continue;
            }
            let mut combos: Vec<HashMap<u32, Ty<'tcx>>> = vec![HashMap::new()];
            // per-parameter filter by bounds that mention only that parameter
            let preds: Vec<ty::Clause<'tcx>> = tcx.clauses_of(did).instantiate_identity(tcx).clauses.into_iter().map(|c| c.skip_normalization()).collect();
            for p in &params {
                let mut ok = vec![];
                for c in &cands {
                    let mut good = true;
                    for cl in &preds {
                        if let Some(tp) = cl.as_trait_clause() {
                            let tp = tp.skip_binder();
                            if let ty::Param(pt) = tp.self_ty().kind() {
                                if pt.index == *p && tp.trait_ref.args.types().count() == 1 {
                                    let tr = tp.trait_ref.def_id;
                                    let ta = tcx.mk_args(&[GenericArg::from(*c)]);
                                    if !implements(tcx, tr, ta) {
                                        good = false;
                                        break;
                                    }
                                }
                            }
                        }
                    }
                    if good {
                        ok.push(*c);
                    }
                }
                let mut next = vec![];
                for m in &combos {
                    for c in &ok {
                        let mut m2 = m.clone();
                        m2.insert(*p, *c);
                        next.push(m2);
                    }
                }
                combos = next;
                if combos.len() > 20000 {
                    combos.clear();
                }
            }
            let mut any = false;
            for m in &combos {
                let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    ty::GenericParamDefKind::Type { .. } => GenericArg::from(m[&p.index]),
                    _ => tcx.lifetimes.re_erased.into(),
                });
                if !params.is_empty() && tcx.instantiate_and_check_impossible_clauses((did, args)) {
                    continue;
                }
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, d.env, did, args) {
                    any = true;
                    let k = d.ikey(inst);
                    roots.push(s(k));
                    d.enqueue(inst);
                }
            }
            if !any {
                d.dump_poly(did);
                roots.push(s(format!("poly:{}", d.path(did))));
            }
        }
        d.drain();
        let fns = std::mem::take(&mut d.fns);
        let types = std::mem::take(&mut d.types);
        let out = J::O(vec![
            ("crate", s(krate.clone())),
            ("roots", J::A(roots)),
            ("adts", J::M(adts)),
            ("impls", J::A(derives)),
            ("types", J::A(types)),
            ("fns", J::M(fns)),
        ]);
        let mut text = String::new();
        out.put(&mut text);
        let is_bin = tcx.crate_types().iter().any(|c| format!("{c:?}") == "Executable");
        let f = format!("{dir}/{krate}{}.json", if is_bin { ".bin" } else { "" });
        std::fs::write(&f, text).expect("write dump");
        Compilation::Continue
    }
}

fn implements<'tcx>(tcx: TyCtxt<'tcx>, tr: DefId, args: GenericArgsRef<'tcx>) -> bool {
    use rustc_middle::ty::Upcast;
    let _ = &tr;
    let tref = ty::TraitRef::new_from_args(tcx, tr, args);
    let _c: ty::Clause<'tcx> = tref.upcast(tcx);
    // MetaSized/Sized and auto traits hold for all candidates
    if tcx.lang_items().sized_trait() == Some(tr) {
        return true;
    }
    tcx.codegen_select_candidate(TypingEnv::fully_monomorphized().as_query_input(tref)).is_ok()
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper mode: drop our own name, keep "rustc"
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    args.push("-Zalways-encode-mir".into());
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
