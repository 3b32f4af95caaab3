//! Dumps the monomorphic MIR of everything reachable from the analysed crate's own functions as JSON.
//! Used in place of rustc (RUSTC_WORKSPACE_WRAPPER or direct call); the output path is in QDRIVER_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn i(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => {
                let _ = write!(o, "{}", n);
            }
            J::S(t) => esc(t, o),
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    esc(n, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn esc(t: &str, o: &mut String) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<Option<J>>,
    tyids: HashMap<Ty<'tcx>, usize>,
    insts: HashMap<Instance<'tcx>, String>,
    queue: Vec<Instance<'tcx>>,
    bodies: Vec<(String, J)>,
    consts: HashMap<DefId, String>,
    constq: Vec<DefId>,
}

/// std modules whose generic helpers are small enough to analyse instead of modelling.
const DESCEND: &[&str] = &[
    "std::option", "core::option", "std::result", "core::result", "std::convert", "core::convert", "std::cmp",
    "core::cmp", "std::ops::function", "core::ops::function", "std::ops::control_flow", "std::ops::range",
    "core::bool", "std::bool", "bool::",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        i(self.tyid(t))
    }

    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&n) = self.tyids.get(&t) {
            return n;
        }
        let n = self.types.len();
        self.types.push(None);
        self.tyids.insert(t, n);
        let name = ty::print::with_no_trimmed_paths!(t.to_string());
        let mut o: Vec<(&'static str, J)> = vec![("name", J::S(name))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(x) => {
                o.push(("k", s("int")));
                o.push(("n", s(x.name_str())));
            }
            ty::Uint(x) => {
                o.push(("k", s("uint")));
                o.push(("n", s(x.name_str())));
            }
            ty::Float(x) => {
                o.push(("k", s("float")));
                o.push(("n", s(x.name_str())));
            }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(v)));
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let v = self.ty(x);
                o.push(("to", v));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let v = self.ty(x);
                o.push(("to", v));
            }
            ty::Slice(x) => {
                o.push(("k", s("slice")));
                let v = self.ty(x);
                o.push(("of", v));
            }
            ty::Array(x, c) => {
                o.push(("k", s("array")));
                let v = self.ty(x);
                o.push(("of", v));
                o.push(("len", c.try_to_target_usize(self.tcx).map_or(J::N, |n| i(n as usize))));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", J::S(self.path(def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                o.push(("akind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let v = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(v)));
                let cname = self.tcx.crate_name(def.did().krate).to_string();
                let p = self.path(def.did());
                let expand = def.did().is_local()
                    || cname == "nom"
                    || cname == "glam"
                    || ["option::Option", "result::Result", "cmp::Ordering", "ops::Range", "RangeTo", "RangeFrom",
                        "RangeInclusive", "control_flow::ControlFlow", "ops::ControlFlow", "io::SeekFrom", "io::seek", "cmp::Reverse"]
                        .iter()
                        .any(|m| p.contains(m));
                if expand && !def.is_union() {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let d = if def.is_enum() {
                            J::S(def.discriminant_for_variant(self.tcx, vi).val.to_string())
                        } else {
                            J::N
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args);
                            let ft = self.tcx.normalize_erasing_regions(self.env, ft);
                            let fj = self.ty(ft);
                            fs.push(J::A(vec![s(f.name), fj]));
                        }
                        vs.push(J::O(vec![("name", s(v.name)), ("discr", d), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let args = args.no_bound_vars().unwrap_or_else(|| self.tcx.erase_and_anonymize_regions(args.skip_binder()));
                let c = self.callee(d.into(), args);
                o.push(("fn", c));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("trait", J::S(self.path(p))));
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                let d: DefId = d.into();
                o.push(("path", J::S(self.path(d))));
                let inst = Instance::new_raw(d, args);
                let local = d.is_local();
                if local || self.descend(d) {
                    let k = self.inst(inst);
                    o.push(("inst", J::S(k)));
                }
                let v = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("upvars", J::A(v)));
            }
            _ => o.push(("k", s("other"))),
        }
        self.types[n] = Some(J::O(o));
        n
    }

    fn descend(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let p = self.path(d);
        let p = p.trim_start_matches('<');
        DESCEND.iter().any(|m| p.starts_with(m)) && self.tcx.is_mir_available(d)
    }

    fn inst(&mut self, inst: Instance<'tcx>) -> String {
        if let Some(k) = self.insts.get(&inst) {
            return k.clone();
        }
        let base = ty::print::with_no_trimmed_paths!(inst.to_string());
        let k = format!("{}#{}", base, self.insts.len());
        self.insts.insert(inst, k.clone());
        self.queue.push(inst);
        k
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![("def", J::S(self.path(d)))];
        let v = args.types().map(|x| self.ty(x)).collect();
        o.push(("args", J::A(v)));
        if let DefKind::Ctor(..) = self.tcx.def_kind(d) {
            let t = self.tcx.fn_sig(d).instantiate(self.tcx, args);
            let t = self.tcx.normalize_erasing_regions(self.env, t);
            let out = t.skip_binder().output();
            let out = self.tcx.erase_and_anonymize_regions(out);
            let adt = out.ty_adt_def().unwrap();
            let vidx = adt.variant_index_with_ctor_id(d);
            let tj = self.ty(out);
            o.push(("ctor", J::A(vec![tj, i(vidx.as_usize())])));
            return J::O(o);
        }
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(self.path(t))));
        }
        o.push(("local", J::B(d.is_local())));
        match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(r)) => match r.def {
                InstanceKind::Item(rd) => {
                    if rd != d {
                        o.push(("res", J::S(self.path(rd))));
                        let v = r.args.types().map(|x| self.ty(x)).collect();
                        o.push(("resargs", J::A(v)));
                    }
                    o.push(("crate", s(self.tcx.crate_name(rd.krate))));
                    if self.descend(rd) && self.tcx.is_mir_available(rd) {
                        let k = self.inst(r);
                        o.push(("inst", J::S(k)));
                    }
                }
                InstanceKind::Virtual(..) => o.push(("virtual", J::B(true))),
                InstanceKind::Intrinsic(_) => o.push(("intrinsic", J::B(true))),
                ref k => o.push(("shim", J::S(format!("{:?}", k).chars().take(160).collect()))),
            },
            _ => o.push(("unresolved", J::B(true))),
        }
        J::O(o)
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::A(vec![J::S(f), i(lo.line), i(lo.col.0 + 1)])
    }

    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![i(p.local.as_usize())];
        let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("."), i(f.as_usize()), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("[]"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("[c]"), i(offset as usize), i(min_length as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("[..]"), i(from as usize), i(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("as"), i(vi.as_usize())]),
                _ => J::A(vec![s("other")]),
            };
            v.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        let t = self.ty(pt.ty);
        J::O(vec![("p", J::A(v)), ("t", t)])
    }

    fn bytes_at(&self, sc: Scalar, len: usize) -> Option<Vec<u8>> {
        if let Scalar::Ptr(p, _) = sc {
            let (prov, off) = p.into_raw_parts();
            if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(prov.alloc_id()) {
                let a = a.inner();
                let st = off.bytes() as usize;
                if st + len <= a.len() && a.provenance().ptrs().is_empty() {
                    return Some(a.inspect_with_uninit_and_ptr_outside_interpreter(st..st + len).to_vec());
                }
            }
        }
        None
    }

    fn constant(&mut self, inst: &Instance<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let k = c.const_;
        let t = k.ty();
        let tj = self.ty(t);
        if let ty::FnDef(..) | ty::Closure(..) = t.kind() {
            return J::O(vec![("c", s("zst")), ("t", tj)]);
        }
        if let Const::Unevaluated(u, _) = k {
            if let Some(p) = u.promoted {
                let key = self.inst(*inst);
                if u.def == inst.def_id() {
                    return J::O(vec![("c", s("promoted")), ("t", tj), ("key", J::S(format!("{}@p{}", key, p.as_usize())))]);
                }
                let r = Instance::new_raw(u.def, u.args);
                let key = self.inst(r);
                return J::O(vec![("c", s("promoted")), ("t", tj), ("key", J::S(format!("{}@p{}", key, p.as_usize())))]);
            }
        }
        if let Ok(v) = k.eval(self.tcx, self.env, c.span) {
            return match self.constval(v, t, tj.clone(), 0) {
                Some(j) => j,
                None => self.constother(k, tj),
            };
        }
        self.constother(k, tj)
    }

    /// a fully evaluated constant
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, tj: J, depth: usize) -> Option<J> {
        let aggregate = match t.kind() {
            ty::Adt(d, _) => d.is_enum() || d.is_struct(),
            ty::Tuple(x) => !x.is_empty(),
            _ => false,
        };
        if aggregate && depth < 6 {
            let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
            let mut fs = vec![];
            for (cv, ft) in d.fields.iter() {
                let fj = self.ty(*ft);
                match self.constval(*cv, *ft, fj, depth + 1) {
                    Some(j) => fs.push(j),
                    None => return None,
                }
            }
            let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
            return Some(J::O(vec![("c", s("agg")), ("t", tj), ("v", i(vi)), ("f", J::A(fs))]));
        }
        {
            match v {
                ConstValue::Scalar(Scalar::Int(n)) => {
                    let bits = n.to_bits(n.size());
                    let val = match t.kind() {
                        ty::Int(_) => J::I(n.to_int(n.size())),
                        ty::Float(ty::FloatTy::F32) => {
                            return Some(J::O(vec![("c", s("float")), ("t", tj), ("v", J::S(format!("{:?}", f32::from_bits(bits as u32))))]))
                        }
                        ty::Float(ty::FloatTy::F64) => {
                            return Some(J::O(vec![("c", s("float")), ("t", tj), ("v", J::S(format!("{:?}", f64::from_bits(bits as u64))))]))
                        }
                        _ => J::I(bits as i128),
                    };
                    return Some(J::O(vec![("c", s("int")), ("t", tj), ("v", val)]));
                }
                ConstValue::ZeroSized => return Some(J::O(vec![("c", s("zst")), ("t", tj)])),
                ConstValue::Slice { .. } => {
                    if let ty::Ref(_, x, _) = t.kind() {
                        if x.is_str() || matches!(x.kind(), ty::Slice(e) if *e == self.tcx.types.u8) {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                                let kind = if x.is_str() { "str" } else { "bytes" };
                                return Some(if x.is_str() {
                                    J::O(vec![("c", s(kind)), ("t", tj), ("v", J::S(String::from_utf8_lossy(b).into_owned()))])
                                } else {
                                    J::O(vec![("c", s(kind)), ("t", tj), ("v", J::A(b.iter().map(|x| i(*x as usize)).collect()))])
                                });
                            }
                        }
                    }
                }
                ConstValue::Scalar(sc) => {
                    if let ty::Ref(_, x, _) = t.kind() {
                        if let ty::Array(e, n) = x.kind() {
                            if *e == self.tcx.types.u8 {
                                if let Some(b) = n.try_to_target_usize(self.tcx).and_then(|n| self.bytes_at(sc, n as usize)) {
                                    return Some(J::O(vec![("c", s("bytes")), ("t", tj), ("v", J::A(b.iter().map(|x| i(*x as usize)).collect()))]));
                                }
                            }
                        }
                    }
                    if let Scalar::Ptr(p, _) = sc {
                        let (prov, _) = p.into_raw_parts();
                        if let GlobalAlloc::Static(d) = self.tcx.global_alloc(prov.alloc_id()) {
                            let m = self.tcx.is_mutable_static(d);
                            return Some(J::O(vec![("c", s("static")), ("t", tj), ("path", J::S(self.path(d))), ("mutable", J::B(m))]));
                        }
                    }
                }
                _ => (),
            }
        }
        None
    }

    fn constother(&mut self, k: Const<'tcx>, tj: J) -> J {
        // named constants that did not reduce to a scalar: analyse their initialiser
        if let Const::Unevaluated(u, _) = k {
            if u.def.is_local() && u.args.types().count() == 0 {
                let key = self.constkey(u.def);
                return J::O(vec![("c", s("named")), ("t", tj), ("key", J::S(key))]);
            }
        }
        let txt: String = ty::print::with_no_trimmed_paths!(format!("{}", k)).chars().take(300).collect();
        J::O(vec![("c", s("other")), ("t", tj), ("v", J::S(txt))])
    }

    fn constkey(&mut self, d: DefId) -> String {
        if let Some(k) = self.consts.get(&d) {
            return k.clone();
        }
        let k = format!("const {}", self.path(d));
        self.consts.insert(d, k.clone());
        self.constq.push(d);
        k
    }

    fn operand(&mut self, inst: &Instance<'tcx>, b: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("o", s("copy")), ("pl", self.place(b, p))]),
            Operand::Move(p) => J::O(vec![("o", s("move")), ("pl", self.place(b, p))]),
            Operand::Constant(c) => J::O(vec![("o", s("const")), ("k", self.constant(inst, c))]),
            Operand::RuntimeChecks(_) => J::O(vec![("o", s("rtcheck"))]),
        }
    }

    fn rvalue(&mut self, inst: &Instance<'tcx>, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let rt = r.ty(&b.local_decls, self.tcx);
        let rt = self.ty(rt);
        let mut o: Vec<(&'static str, J)> = vec![];
        match r {
            Rvalue::Use(x, ..) => {
                o.push(("r", s("use")));
                o.push(("x", self.operand(inst, b, x)));
            }
            Rvalue::Repeat(x, n) => {
                o.push(("r", s("repeat")));
                o.push(("x", self.operand(inst, b, x)));
                o.push(("n", n.try_to_target_usize(self.tcx).map_or(J::N, |n| i(n as usize))));
            }
            Rvalue::Ref(_, k, p) => {
                o.push(("r", s("ref")));
                o.push(("mut", J::B(matches!(k, BorrowKind::Mut { .. }))));
                o.push(("pl", self.place(b, p)));
            }
            Rvalue::Reborrow(_, m, p) => {
                o.push(("r", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                o.push(("pl", self.place(b, p)));
                o.push(("rb", J::B(true)));
            }
            Rvalue::RawPtr(k, p) => {
                o.push(("r", s("rawptr")));
                o.push(("mut", J::B(matches!(k, RawPtrKind::Mut))));
                o.push(("pl", self.place(b, p)));
            }
            Rvalue::Cast(k, x, _) => {
                o.push(("r", s("cast")));
                o.push(("kind", J::S(format!("{:?}", k))));
                o.push(("x", self.operand(inst, b, x)));
                let ft = x.ty(&b.local_decls, self.tcx);
                o.push(("from", self.ty(ft)));
            }
            Rvalue::BinaryOp(op, xs) => {
                o.push(("r", s("bin")));
                o.push(("op", J::S(format!("{:?}", op))));
                o.push(("a", self.operand(inst, b, &xs.0)));
                o.push(("b", self.operand(inst, b, &xs.1)));
                let ft = xs.0.ty(&b.local_decls, self.tcx);
                o.push(("at", self.ty(ft)));
            }
            Rvalue::UnaryOp(op, x) => {
                o.push(("r", s("un")));
                o.push(("op", J::S(format!("{:?}", op))));
                o.push(("x", self.operand(inst, b, x)));
            }
            Rvalue::Discriminant(p) => {
                o.push(("r", s("discr")));
                o.push(("pl", self.place(b, p)));
            }
            Rvalue::Aggregate(k, xs) => {
                o.push(("r", s("agg")));
                match &**k {
                    AggregateKind::Array(_) => o.push(("kind", s("array"))),
                    AggregateKind::Tuple => o.push(("kind", s("tuple"))),
                    AggregateKind::Adt(_, v, ..) => {
                        o.push(("kind", s("adt")));
                        o.push(("variant", i(v.as_usize())));
                    }
                    AggregateKind::Closure(..) => o.push(("kind", s("closure"))),
                    _ => o.push(("kind", s("other"))),
                }
                let v = xs.iter().map(|x| self.operand(inst, b, x)).collect();
                o.push(("xs", J::A(v)));
            }
            Rvalue::CopyForDeref(p) => {
                o.push(("r", s("use")));
                let pl = self.place(b, p);
                o.push(("x", J::O(vec![("o", s("copy")), ("pl", pl)])));
            }
            _ => {
                o.push(("r", s("other")));
                o.push(("dbg", J::S(format!("{:?}", r))));
            }
        }
        o.push(("t", rt));
        J::O(o)
    }

    fn body(&mut self, inst: &Instance<'tcx>, b: &Body<'tcx>, local: bool) -> J {
        let locals = b.local_decls.iter().map(|d| self.ty(d.ty)).collect();
        let mut vars = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    vars.push(J::A(vec![i(p.local.as_usize()), s(v.name)]));
                }
            }
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            if bb.is_cleanup {
                blocks.push(J::N);
                continue;
            }
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let pl = self.place(b, &a.0);
                        let rv = self.rvalue(inst, b, &a.1);
                        let sp = self.span(x.source_info.span);
                        st.push(J::O(vec![("s", s("=")), ("pl", pl), ("rv", rv), ("sp", sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(b, place);
                        st.push(J::O(vec![("s", s("setdiscr")), ("pl", pl), ("v", i(variant_index.as_usize()))]));
                    }
                    _ => (),
                }
            }
            let t = bb.terminator();
            let mut o: Vec<(&'static str, J)> = vec![];
            let tg = |x: BasicBlock| i(x.as_usize());
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("t", s("goto")));
                    o.push(("to", tg(*target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("t", s("switch")));
                    o.push(("x", self.operand(inst, b, discr)));
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    o.push(("xt", self.ty(dt)));
                    let v = targets.iter().map(|(v, x)| {
                        let v = match dt.kind() {
                            ty::Int(it) => {
                                let bits = it.bit_width().unwrap_or(64);
                                let sh = 128 - bits as u32;
                                ((v << sh) as i128) >> sh
                            }
                            _ => v as i128,
                        };
                        J::A(vec![J::I(v), tg(x)])
                    }).collect();
                    o.push(("cases", J::A(v)));
                    o.push(("else", tg(targets.otherwise())));
                }
                TerminatorKind::Return => o.push(("t", s("return"))),
                TerminatorKind::Unreachable => o.push(("t", s("unreachable"))),
                TerminatorKind::Drop { place, target, .. } => {
                    o.push(("t", s("drop")));
                    o.push(("pl", self.place(b, place)));
                    o.push(("to", tg(*target)));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    o.push(("t", s("call")));
                    let ft = func.ty(&b.local_decls, self.tcx);
                    if let ty::FnDef(d, a) = *ft.kind() {
                        let a = a.no_bound_vars().unwrap_or_else(|| self.tcx.erase_and_anonymize_regions(a.skip_binder()));
                        let c = self.callee(d.into(), a);
                        o.push(("fn", c));
                    } else {
                        o.push(("fnop", self.operand(inst, b, func)));
                    }
                    let v = args.iter().map(|x| self.operand(inst, b, &x.node)).collect();
                    o.push(("args", J::A(v)));
                    let v = args.iter().map(|x| { let t = x.node.ty(&b.local_decls, self.tcx); self.ty(t) }).collect();
                    o.push(("at", J::A(v)));
                    o.push(("dst", self.place(b, destination)));
                    o.push(("to", target.map_or(J::N, tg)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push(("t", s("assert")));
                    o.push(("x", self.operand(inst, b, cond)));
                    o.push(("exp", J::B(*expected)));
                    o.push(("to", tg(*target)));
                    let (m, v): (String, Vec<&Operand>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(op, x, y) => (format!("overflow {:?}", op), vec![x, y]),
                        AssertKind::OverflowNeg(x) => ("overflow neg".into(), vec![x]),
                        AssertKind::DivisionByZero(x) => ("div by zero".into(), vec![x]),
                        AssertKind::RemainderByZero(x) => ("rem by zero".into(), vec![x]),
                        _ => ("other".into(), vec![]),
                    };
                    o.push(("msg", J::S(m)));
                    let v = v.iter().map(|x| self.operand(inst, b, x)).collect();
                    o.push(("ops", J::A(v)));
                }
                k => {
                    o.push(("t", s("diverge")));
                    o.push(("dbg", J::S(format!("{:?}", k).chars().take(60).collect())));
                }
            }
            o.push(("sp", self.span(t.source_info.span)));
            blocks.push(J::O(vec![("st", J::A(st)), ("term", J::O(o))]));
        }
        let sp = self.span(b.span);
        J::O(vec![
            ("path", J::S(self.path(inst.def_id()))),
            ("span", sp),
            ("local", J::B(local)),
            ("argc", i(b.arg_count)),
            ("spread", b.spread_arg.map_or(J::N, |l| i(l.as_usize()))),
            ("locals", J::A(locals)),
            ("vars", J::A(vars)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn drain(&mut self) {
        loop {
            if let Some(inst) = self.queue.pop() {
                let tcx = self.tcx;
                let key = self.insts[&inst].clone();
                let did = inst.def_id();
                if !tcx.is_mir_available(did) {
                    continue;
                }
                let b = tcx.instance_mir(inst.def);
                let b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, b.clone()));
                let j = self.body(&inst, &b, did.is_local());
                self.bodies.push((key.clone(), j));
                let pr = tcx.promoted_mir(did);
                for (pi, pb) in pr.iter_enumerated() {
                    let pb = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, pb.clone()));
                    let j = self.body(&inst, &pb, did.is_local());
                    self.bodies.push((format!("{}@p{}", key, pi.as_usize()), j));
                }
            } else if let Some(d) = self.constq.pop() {
                let key = self.consts[&d].clone();
                let inst = Instance::new_raw(d, ty::GenericArgs::empty());
                if let Some(ld) = d.as_local() {
                    let b = self.tcx.mir_for_ctfe(ld.to_def_id());
                    let j = self.body(&inst, &b.clone(), true);
                    self.insts.insert(inst, key.clone());
                    self.bodies.push((key.clone(), j));
                    let pr = self.tcx.promoted_mir(d);
                    for (pi, pb) in pr.iter_enumerated() {
                        let j = self.body(&inst, &pb.clone(), true);
                        self.bodies.push((format!("{}@p{}", key, pi.as_usize()), j));
                    }
                }
            } else {
                break;
            }
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("QDRIVER_OUT") else { return Compilation::Continue };
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let env = TypingEnv::fully_monomorphized();
        let mut cx = Cx {
            tcx, env, types: vec![], tyids: HashMap::new(), insts: HashMap::new(), queue: vec![], bodies: vec![],
            consts: HashMap::new(), constq: vec![],
        };
        let ev = tcx.effective_visibilities(());
        let mut roots = vec![];
        let mut statics = vec![];
        let mut unsafes = 0usize;
        for &ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let g = tcx.generics_of(d);
                    let path = cx.path(d);
                    let public = ev.is_reachable(ld);
                    let timpl = tcx.trait_impl_of_assoc(d).map(|im| {
                        let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(tr.to_string()))
                    });
                    let name = tcx.item_name(d).to_string();
                    let sp = cx.span(tcx.def_span(d));
                    let key = if g.requires_monomorphization(tcx) { J::N } else {
                        let inst = Instance::mono(tcx, d);
                        J::S(cx.inst(inst))
                    };
                    let recv = tcx.impl_of_assoc(d).map(|im| {
                        let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(t.to_string()))
                    });
                    let unsf = tcx.fn_sig(d).skip_binder().safety().is_unsafe();
                    if unsf { unsafes += 1; }
                    roots.push(J::O(vec![
                        ("path", J::S(path)), ("name", J::S(name)), ("key", key), ("public", J::B(public)),
                        ("trait", timpl.map_or(J::N, J::S)), ("self", recv.map_or(J::N, J::S)), ("sp", sp),
                    ]));
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let frz = t.is_freeze(tcx, env);
                    let m = tcx.is_mutable_static(d);
                    let sp = cx.span(tcx.def_span(d));
                    statics.push(J::O(vec![("path", J::S(cx.path(d))), ("ty", J::S(t.to_string())), ("freeze", J::B(frz)), ("mutable", J::B(m)), ("sp", sp)]));
                }
                _ => (),
            }
        }
        cx.drain();
        // freeze / interior-mutability facts for all types seen
        let mut tys: Vec<(Ty, usize)> = cx.tyids.iter().map(|(t, n)| (*t, *n)).collect();
        tys.sort_by_key(|x| x.1);
        let mut frz = vec![];
        for (t, n) in tys {
            if t.is_sized(tcx, env) && !t.is_freeze(tcx, env) {
                frz.push(i(n));
            }
        }
        let mut o = String::new();
        o.push_str("{\"roots\":");
        J::A(roots).w(&mut o);
        o.push_str(",\"statics\":");
        J::A(statics).w(&mut o);
        o.push_str(",\"unsafe_fns\":");
        i(unsafes).w(&mut o);
        o.push_str(",\"notfreeze\":");
        J::A(frz).w(&mut o);
        o.push_str(",\"types\":[");
        for (k, t) in cx.types.iter().enumerate() {
            if k > 0 {
                o.push(',');
            }
            match t { Some(t) => t.w(&mut o), None => o.push_str("null") }
        }
        o.push_str("],\"bodies\":{");
        for (k, (n, b)) in cx.bodies.iter().enumerate() {
            if k > 0 {
                o.push(',');
            }
            esc(n, &mut o);
            o.push(':');
            b.w(&mut o);
        }
        o.push_str("}}");
        std::fs::write(out, o).expect("write QDRIVER_OUT");
        Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a workspace wrapper the real rustc path comes first
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::install_ice_hook("qdriver", |_| ());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
