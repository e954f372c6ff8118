// rustc_private driver: dumps facts about the crate being compiled as JSON.
//
// It is injected with RUSTC_WORKSPACE_WRAPPER, so cargo calls it as `driver rustc <args>`.  For the
// execgraph crates it runs the compiler front end in process and, right after expansion, serialises the
// type-checked MIR (before borrow checking, drop elaboration and the coroutine transform: an `.await` is
// still a poll/yield loop), the ADTs with their attributes, the trait impls and the evaluated constants.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_index::IndexVec;
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Arc;

// ---------------------------------------------------------------- JSON
#[derive(Clone, Debug)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn i<T: TryInto<i128>>(x: T) -> J {
    J::I(x.try_into().ok().unwrap())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => {
                let _ = write!(o, "{n}");
            }
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{n}\":");
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- file loader
// advisory_lock's extension trait has methods named like the ones std::fs::File gained after the
// project's pinned toolchain; on the nightly toolchain the inherent ones would win.  `x.try_lock(mode)`
// and `x.lock(mode)` with an argument can only be the extension trait's (every std method of that name
// takes no argument), so they are renamed to the aliases that the patched copy of the crate provides.
struct Loader;
fn rename_lock(src: &str) -> String {
    let b = src.as_bytes();
    let mut out = String::with_capacity(src.len() + 64);
    let mut k = 0;
    while k < b.len() {
        if b[k] == b'.' {
            let mut j = k + 1;
            while j < b.len() && (b[j] as char).is_whitespace() {
                j += 1;
            }
            let mut hit = false;
            for name in ["try_lock", "lock"] {
                if src[j..].starts_with(name) {
                    let mut e = j + name.len();
                    while e < b.len() && (b[e] as char).is_whitespace() {
                        e += 1;
                    }
                    if e < b.len() && b[e] == b'(' {
                        let mut a = e + 1;
                        while a < b.len() && (b[a] as char).is_whitespace() {
                            a += 1;
                        }
                        if a < b.len() && b[a] != b')' {
                            out.push_str(&src[k..j]);
                            out.push_str("adv_");
                            out.push_str(name);
                            k = j + name.len();
                            hit = true;
                        }
                    }
                    break;
                }
            }
            if hit {
                continue;
            }
        }
        let ch = src[k..].chars().next().unwrap();
        out.push(ch);
        k += ch.len_utf8();
    }
    out
}
impl rustc_span::source_map::FileLoader for Loader {
    fn file_exists(&self, path: &Path) -> bool {
        path.exists()
    }
    fn read_file(&self, path: &Path) -> io::Result<String> {
        let t = std::fs::read_to_string(path)?;
        Ok(rename_lock(&t))
    }
    fn read_binary_file(&self, path: &Path) -> io::Result<Arc<[u8]>> {
        Ok(std::fs::read(path)?.into())
    }
    fn current_directory(&self) -> io::Result<PathBuf> {
        std::env::current_dir()
    }
}

// ---------------------------------------------------------------- dumper
struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    defs: Vec<J>,
    defmap: HashMap<DefId, usize>,
    files: Vec<J>,
    filemap: HashMap<String, usize>,
}

impl<'tcx> D<'tcx> {
    fn key(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn def(&mut self, d: DefId) -> J {
        if let Some(k) = self.defmap.get(&d) {
            return i(*k);
        }
        let k = self.defs.len();
        self.defs.push(J::Null);
        self.defmap.insert(d, k);
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        let path = with_no_trimmed_paths!(tcx.def_path_str(d));
        let name = tcx.opt_item_name(d).map(|n| s(n.as_str())).unwrap_or(J::Null);
        let mut o = vec![
            ("key", s(self.key(d))),
            ("path", s(path)),
            ("name", name),
            ("kind", s(format!("{kind:?}"))),
            ("local", J::B(d.is_local())),
        ];
        if let Some(p) = tcx.opt_parent(d) {
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    o.push(("impl_self", self.ty(st)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        o.push(("impl_trait", s(with_no_trimmed_paths!(tcx.def_path_str(tr.def_id)))));
                    }
                }
                DefKind::Trait => {
                    o.push(("trait", s(with_no_trimmed_paths!(tcx.def_path_str(p)))));
                }
                _ => {}
            }
            if d.is_local() && matches!(kind, DefKind::Closure) {
                let pj = self.def(p);
                o.push(("parent", pj));
            }
        }
        if d.is_local() {
            let sp = self.span(tcx.def_span(d));
            o.push(("span", sp));
        }
        self.defs[k] = J::O(o);
        i(k)
    }
    fn span(&mut self, sp: Span) -> J {
        // [file, line, col, macro names from the innermost expansion outwards]
        let mut macros = vec![];
        for e in sp.macro_backtrace() {
            macros.push(s(format!("{}", e.kind.descr())));
        }
        let root = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(root.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        let n = self.filemap.len();
        let k = *self.filemap.entry(f.clone()).or_insert(n);
        if k == n {
            self.files.push(s(f));
        }
        let mut v = vec![i(k), i(loc.line), i(loc.col.0)];
        if !macros.is_empty() {
            v.push(J::A(macros));
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        if let Some(k) = self.tymap.get(&t) {
            return i(*k);
        }
        let k = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, k);
        let st = with_no_trimmed_paths!(t.to_string());
        let mut o: Vec<(&'static str, J)> = vec![("s", s(st))];
        match *t.kind() {
            ty::Adt(adt, args) => {
                o.push(("k", s("adt")));
                let dj = self.def(adt.did());
                o.push(("d", dj));
                let mut a = vec![];
                for g in args.iter() {
                    if let GenericArgKind::Type(x) = g.kind() {
                        a.push(self.ty(x));
                    }
                }
                o.push(("a", J::A(a)));
                if adt.is_enum() {
                    o.push(("enum", J::B(true)));
                    let mut vs = vec![];
                    for (vi, d) in adt.discriminants(tcx) {
                        vs.push(J::A(vec![
                            s(adt.variant(vi).name.as_str()),
                            i(d.val as i128),
                        ]));
                    }
                    o.push(("variants", J::A(vs)));
                }
                if adt.is_box() {
                    o.push(("box", J::B(true)));
                }
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                let xj = self.ty(x);
                o.push(("a", J::A(vec![xj])));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", s("ptr")));
                let xj = self.ty(x);
                o.push(("a", J::A(vec![xj])));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                let dj = self.def(d);
                o.push(("d", dj));
                let up: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("up", J::A(up)));
            }
            ty::Coroutine(d, args) => {
                o.push(("k", s("coroutine")));
                let dj = self.def(d);
                o.push(("d", dj));
                let up: Vec<J> = args.as_coroutine().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("up", J::A(up)));
                let rt = self.ty(args.as_coroutine().return_ty());
                o.push(("ret", rt));
            }
            ty::FnDef(d, _) => {
                o.push(("k", s("fndef")));
                let dj = self.def(d);
                o.push(("d", dj));
            }
            ty::Array(x, _) | ty::Slice(x) => {
                o.push(("k", s(if matches!(t.kind(), ty::Slice(_)) { "slice" } else { "array" })));
                let xj = self.ty(x);
                o.push(("a", J::A(vec![xj])));
            }
            ty::Int(_) => o.push(("k", s("int"))),
            ty::Uint(_) => o.push(("k", s("uint"))),
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Alias(..) => {
                o.push(("k", s("alias")));
            }
            _ => o.push(("k", s("other"))),
        }
        self.types[k] = J::O(o);
        i(k)
    }
    fn variant_name(&self, t: Ty<'tcx>, v: rustc_abi::VariantIdx) -> J {
        match t.kind() {
            ty::Adt(a, _) => s(a.variant(v).name.as_str()),
            _ => J::Null,
        }
    }
    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let nj = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, _) => {
                    let mut name = J::Null;
                    match *pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = match pt.variant_index {
                                Some(v) => Some(a.variant(v)),
                                None if !a.is_enum() => Some(a.non_enum_variant()),
                                None => None,
                            };
                            if let Some(v) = v {
                                name = s(v.fields[f].name.as_str());
                            }
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            if let Some(l) = d.as_local() {
                                let nm = self.upvar_names(l);
                                if let Some(n) = nm.get(f.as_usize()) {
                                    name = s(n.clone());
                                }
                            }
                        }
                        _ => {}
                    }
                    J::A(vec![s("f"), i(f.as_usize()), name])
                }
                ProjectionElem::Downcast(_, v) => {
                    J::A(vec![s("v"), i(v.as_usize()), self.variant_name(pt.ty, v)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), i(offset), i(min_length), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), i(from), i(to), J::B(from_end)])
                }
                _ => J::A(vec![s("oc")]),
            };
            out.push(nj);
            pt = pt.projection_ty(tcx, e);
        }
        let tj = self.ty(pt.ty);
        J::A(vec![i(p.local.as_usize()), J::A(out), tj])
    }
    fn upvar_names(&self, l: LocalDefId) -> Vec<String> {
        self.tcx
            .closure_captures(l)
            .iter()
            .map(|c| c.to_symbol().to_string())
            .collect()
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: u32) -> J {
        let tcx = self.tcx;
        match (v, t.kind()) {
            (_, ty::Ref(_, inner, _)) if inner.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return s(String::from_utf8_lossy(b).into_owned());
                }
                J::Null
            }
            (ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(n)), k) => match k {
                ty::Bool => J::B(n.try_to_bool().unwrap_or(false)),
                ty::Int(_) => J::I(n.to_int(n.size())),
                ty::Uint(_) => i(n.to_uint(n.size()) as i128),
                ty::Char => i(n.to_uint(n.size()) as i128),
                ty::Pat(base, _) => self.constval(v, *base, depth + 1),
                ty::Float(f) => {
                    let bits = n.to_uint(n.size());
                    let v = match f {
                        ty::FloatTy::F32 => f32::from_bits(bits as u32) as f64,
                        _ => f64::from_bits(bits as u64),
                    };
                    J::O(vec![("float", s(format!("{v:?}")))])
                }
                _ => self.destr(v, t, depth),
            },
            _ => self.destr(v, t, depth),
        }
    }
    fn destr(&mut self, v: ConstValue, t: Ty<'tcx>, depth: u32) -> J {
        let tcx = self.tcx;
        if depth > 6 {
            return J::Null;
        }
        if !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) {
            return J::Null;
        }
        if let ty::Adt(a, _) = t.kind() {
            if a.is_union() {
                return J::Null;
            }
        }
        if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
            let mut fs = vec![];
            for (fv, ft) in d.fields.iter() {
                let x = self.constval(*fv, *ft, depth + 1);
                fs.push(x);
            }
            let tj = self.ty(t);
            let var = match (t.kind(), d.variant) {
                (ty::Adt(..), Some(vi)) => J::A(vec![i(vi.as_usize()), self.variant_name(t, vi)]),
                _ => J::Null,
            };
            return J::O(vec![("agg", tj), ("variant", var), ("fields", J::A(fs))]);
        }
        J::Null
    }
    fn fnref(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let dj = self.def(d);
        let mut a = vec![];
        for g in args.iter() {
            if let GenericArgKind::Type(x) = g.kind() {
                a.push(self.ty(x));
            }
        }
        let mut o = vec![("fn", dj), ("args", J::A(a))];
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                };
                let rj = self.def(inst.def_id());
                o.push(("res", rj));
                o.push(("rk", s(kind)));
            }
        }
        J::O(o)
    }
    fn operand(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        let tcx = self.tcx;
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(body, *p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(body, *p)]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tj = self.ty(t);
                let mut o = vec![("ty", tj)];
                if let ty::FnDef(d, args) = *t.kind() {
                    let f = self.fnref(env, d, args.no_bound_vars().unwrap());
                    o.push(("f", f));
                } else {
                    let mut evaluable = true;
                    match c.const_ {
                        Const::Unevaluated(u, _) => {
                            if let Some(p) = u.promoted {
                                o.push(("promoted", i(p.as_usize())));
                                evaluable = false;
                            } else {
                                let dj = self.def(u.def);
                                o.push(("const", dj));
                                if tcx.generics_of(u.def).requires_monomorphization(tcx) {
                                    evaluable = false;
                                }
                            }
                        }
                        _ => {}
                    }
                    if evaluable {
                        if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                            if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                                let (prov, _) = p.prov_and_relative_offset();
                                if let Some(mir::interpret::GlobalAlloc::Static(sd)) =
                                    tcx.try_get_global_alloc(prov.alloc_id())
                                {
                                    let dj = self.def(sd);
                                    o.push(("static", dj));
                                }
                            }
                            let vj = self.constval(v, t, 0);
                            o.push(("v", vj));
                        }
                    }
                }
                J::A(vec![s("k"), J::O(o)])
            }
            _ => J::A(vec![s("rt")]),
        }
    }
    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(env, body, o)]),
            Rvalue::Repeat(o, n) => J::A(vec![
                s("repeat"),
                self.operand(env, body, o),
                s(format!("{n}")),
            ]),
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                s(match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                    #[allow(unreachable_patterns)]
                    _ => "other",
                }),
                self.place(body, *p),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), s("raw"), self.place(body, *p)]),
            Rvalue::Cast(k, o, t) => {
                let oj = self.operand(env, body, o);
                let tj = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{k:?}")), oj, tj])
            }
            Rvalue::BinaryOp(op, b) => J::A(vec![
                s("bin"),
                s(format!("{op:?}")),
                self.operand(env, body, &b.0),
                self.operand(env, body, &b.1),
            ]),
            Rvalue::UnaryOp(op, o) => J::A(vec![
                s("un"),
                s(format!("{op:?}")),
                self.operand(env, body, o),
            ]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(body, *p)]),
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("c"), self.place(body, *p)])])
            }
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<J> = ops.iter().map(|o| self.operand(env, body, o)).collect();
                let kj = match &**k {
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let adt = self.tcx.adt_def(*d);
                        let vd = adt.variant(*v);
                        let names: Vec<J> = vd.fields.iter().map(|f| s(f.name.as_str())).collect();
                        let dj = self.def(*d);
                        J::A(vec![
                            s("adt"),
                            dj,
                            i(v.as_usize()),
                            s(vd.name.as_str()),
                            J::A(names),
                            J::B(adt.is_enum()),
                            match af {
                                Some(f) => i(f.as_usize()),
                                None => J::Null,
                            },
                        ])
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        let dj = self.def(*d);
                        let names: Vec<J> = d
                            .as_local()
                            .map(|l| self.upvar_names(l).into_iter().map(s).collect())
                            .unwrap_or_default();
                        J::A(vec![
                            s(if matches!(&**k, AggregateKind::Closure(..)) { "closure" } else { "coroutine" }),
                            dj,
                            J::A(names),
                        ])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                J::A(vec![s("agg"), kj, J::A(fs)])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), self.def(*d)]),
            other => J::A(vec![s("other"), s(format!("{other:?}"))]),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => i(b.as_usize()),
            _ => J::Null,
        }
    }
    fn term(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let bb = |b: BasicBlock| i(b.as_usize());
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bb(*target)]),
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bb(*real_target)]),
            TerminatorKind::FalseUnwind { real_target, .. } => {
                J::A(vec![s("goto"), bb(*real_target)])
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let tj = {
                    let dt = discr.ty(body, self.tcx);
                    self.ty(dt)
                };
                let mut v = vec![];
                for (val, b) in targets.iter() {
                    v.push(J::A(vec![i(val as i128), bb(b)]));
                }
                J::A(vec![
                    s("switch"),
                    self.operand(env, body, discr),
                    J::A(v),
                    bb(targets.otherwise()),
                    tj,
                ])
            }
            TerminatorKind::Return => J::A(vec![s("return")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                J::A(vec![s("resume")])
            }
            TerminatorKind::CoroutineDrop => J::A(vec![s("corodrop")]),
            TerminatorKind::Drop { place, target, unwind, replace, .. } => {
                let pj = self.place(body, *place);
                let pt = place.ty(body, self.tcx).ty;
                let nd = pt.needs_drop(self.tcx, env);
                J::A(vec![s("drop"), pj, bb(*target), self.unwind(unwind), J::B(nd), J::B(*replace)])
            }
            TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                let f = self.operand(env, body, func);
                let a: Vec<J> = args.iter().map(|o| self.operand(env, body, &o.node)).collect();
                let d = self.place(body, *destination);
                let sp = self.span(*fn_span);
                J::A(vec![
                    s("call"),
                    f,
                    J::A(a),
                    d,
                    match target {
                        Some(b) => bb(*b),
                        None => J::Null,
                    },
                    self.unwind(unwind),
                    sp,
                ])
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let c = self.operand(env, body, cond);
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds",
                    AssertKind::Overflow(op, ..) => match op {
                        BinOp::Sub => "overflow_sub",
                        BinOp::Add => "overflow_add",
                        _ => "overflow",
                    },
                    AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "divzero",
                    _ => "other",
                };
                J::A(vec![
                    s("assert"),
                    c,
                    J::B(*expected),
                    s(m),
                    bb(*target),
                    self.unwind(unwind),
                ])
            }
            TerminatorKind::Yield { resume, resume_arg, .. } => {
                let p = self.place(body, *resume_arg);
                J::A(vec![s("yield"), bb(*resume), p])
            }
            _ => J::A(vec![s("otherterm")]),
        }
    }
    fn body(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> J {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let n = names.get(&l.as_usize()).map(|x| s(x.clone())).unwrap_or(J::Null);
            locals.push(J::A(vec![t, n]));
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = r {
                            continue;
                        }
                        let pj = self.place(body, *p);
                        let rj = self.rvalue(env, body, r);
                        st.push(J::A(vec![s("="), pj, rj, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(body, **place);
                        st.push(J::A(vec![s("setd"), pj, i(variant_index.as_usize()), sp]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), i(l.as_usize())]));
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::A(vec![s("live"), i(l.as_usize())]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let tj = self.term(env, body, t);
            let sp = self.span(t.source_info.span);
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", sp),
                ("cleanup", J::B(b.is_cleanup)),
            ]));
        }
        J::O(vec![
            ("argc", i(body.arg_count)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ])
    }
}

struct Cb {
    out: PathBuf,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.file_loader = Some(Box::new(Loader));
        config.opts.unstable_opts.polonius = Default::default();
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut bodies: Vec<(LocalDefId, Body<'tcx>, IndexVec<Promoted, Body<'tcx>>)> = vec![];
        let mut skipped = vec![];
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|d| tcx.def_path(d.to_def_id()).to_string_no_crate_verbose());
        for d in keys {
            let k = tcx.def_kind(d);
            let is_fn = matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if !is_fn || tcx.is_constructor(d.to_def_id()) {
                continue;
            }
            let (b, p) = tcx.mir_promoted(d);
            if b.is_stolen() || p.is_stolen() {
                skipped.push(s(tcx.def_path_str(d)));
                continue;
            }
            bodies.push((d, b.borrow().clone(), p.borrow().clone()));
        }
        let mut dd = D {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            defs: vec![],
            defmap: HashMap::new(),
            files: vec![],
            filemap: HashMap::new(),
        };
        let mut out_bodies = vec![];
        for (d, b, proms) in &bodies {
            let env = TypingEnv::post_analysis(tcx, d.to_def_id());
            let dj = dd.def(d.to_def_id());
            let bj = dd.body(env, b);
            let pj: Vec<J> = proms.iter().map(|p| dd.body(env, p)).collect();
            let kind = if tcx.is_coroutine(d.to_def_id()) {
                "coroutine"
            } else if matches!(tcx.def_kind(*d), DefKind::Closure) {
                "closure"
            } else {
                "fn"
            };
            let mut o = vec![("def", dj), ("kind", s(kind)), ("b", bj), ("prom", J::A(pj))];
            if kind == "fn" {
                o.push(("vis", J::B(tcx.visibility(d.to_def_id()).is_public())));
                o.push(("async", J::B(tcx.asyncness(d.to_def_id()).is_async())));
                let names: Vec<J> = tcx
                    .fn_arg_idents(d.to_def_id())
                    .iter()
                    .map(|n| n.map(|n| s(n.as_str())).unwrap_or(J::Null))
                    .collect();
                o.push(("params", J::A(names)));
                let at: Vec<J> = attrs(tcx, d.to_def_id());
                o.push(("attrs", J::A(at)));
            } else {
                let nm: Vec<J> = dd.upvar_names(*d).into_iter().map(s).collect();
                o.push(("upvars", J::A(nm)));
            }
            out_bodies.push(J::O(o));
        }
        // ADTs, impls, consts
        let mut adts = vec![];
        let mut impls = vec![];
        let mut consts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let adt = tcx.adt_def(d);
                    let dj = dd.def(d);
                    let mut vs = vec![];
                    for v in adt.variants() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let tj = dd.ty(ft);
                            fs.push(J::O(vec![
                                ("name", s(f.name.as_str())),
                                ("ty", tj),
                                ("attrs", J::A(attrs(tcx, f.did))),
                                ("pub", J::B(f.vis.is_public())),
                            ]));
                        }
                        vs.push(J::O(vec![
                            ("name", s(v.name.as_str())),
                            ("fields", J::A(fs)),
                            ("attrs", if adt.is_enum() { J::A(attrs(tcx, v.def_id)) } else { J::A(vec![]) }),
                        ]));
                    }
                    adts.push(J::O(vec![
                        ("def", dj),
                        ("enum", J::B(adt.is_enum())),
                        ("attrs", J::A(attrs(tcx, d))),
                        ("variants", J::A(vs)),
                    ]));
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let self_ty = tr.self_ty();
                    let tj = dd.ty(self_ty);
                    let mut ta = vec![];
                    for g in tr.args.iter().skip(1) {
                        if let GenericArgKind::Type(x) = g.kind() {
                            ta.push(dd.ty(x));
                        }
                    }
                    let tp = with_no_trimmed_paths!(tcx.def_path_str(tr.def_id));
                    let mut items = vec![];
                    for it in tcx.associated_item_def_ids(d) {
                        let x = dd.def(*it);
                        items.push(x);
                    }
                    let sp = dd.span(tcx.def_span(d));
                    impls.push(J::O(vec![
                        ("trait", s(tp)),
                        ("self", tj),
                        ("targs", J::A(ta)),
                        ("items", J::A(items)),
                        ("span", sp),
                        ("derived", J::B(tcx.is_automatically_derived(d))),
                    ]));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if tcx.generics_of(d).requires_monomorphization(tcx) {
                        continue;
                    }
                    if matches!(tcx.def_kind(tcx.parent(d)), DefKind::Trait) {
                        continue;
                    }
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let dj = dd.def(d);
                    let tj = dd.ty(t);
                    let v = match tcx.const_eval_poly(d) {
                        Ok(v) => dd.constval(v, t, 0),
                        Err(_) => J::Null,
                    };
                    consts.push(J::O(vec![("def", dj), ("ty", tj), ("v", v)]));
                }
                _ => {}
            }
        }
        let root = J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
            ("skipped", J::A(skipped)),
            ("bodies", J::A(out_bodies)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("consts", J::A(consts)),
            ("types", J::A(std::mem::take(&mut dd.types))),
            ("defs", J::A(std::mem::take(&mut dd.defs))),
            ("files", J::A(std::mem::take(&mut dd.files))),
        ]);
        let mut o = String::new();
        root.w(&mut o);
        let cname = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let f = self.out.join(format!("{cname}.json"));
        let tmp = self.out.join(format!("{cname}.json.tmp"));
        std::fs::write(&tmp, o).unwrap();
        std::fs::rename(&tmp, &f).unwrap();
        Compilation::Continue
    }
}

fn attrs(tcx: TyCtxt<'_>, d: DefId) -> Vec<J> {
    let mut v = vec![];
    let Some(l) = d.as_local() else { return v };
    for a in tcx.hir_attrs(tcx.local_def_id_to_hir_id(l)) {
        if let rustc_attr_ir::Attribute::DeriveHelper(it) = a {
            let sm = tcx.sess.source_map();
            let t = sm.span_to_snippet(it.span).unwrap_or_default();
            v.push(s(t));
        }
    }
    v
}

struct Plain;
impl Callbacks for Plain {
    fn config(&mut self, config: &mut interface::Config) {
        config.file_loader = Some(Box::new(Loader));
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv: driver rustc <args..>
    if args.len() > 1 && Path::new(&args[1]).file_stem().map(|x| x == "rustc").unwrap_or(false) {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|k| args.get(k + 1))
        .cloned()
        .unwrap_or_default();
    let out = std::env::var("EXECGRAPH_FACTS").ok();
    let out = match out {
        Some(o) if crate_name.starts_with("execgraph") => o,
        _ => {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
            return;
        }
    };
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out: PathBuf::from(out) });
}
