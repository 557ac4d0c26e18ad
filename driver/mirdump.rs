//! A compiler driver which type checks a crate as usual and then writes its
//! MIR (polymorphic, before optimisation), types, layouts, impls and constants as JSON.
//!
//! It is used as `RUSTC_WRAPPER`: crates not named in MIRDUMP_CRATES are handed
//! to the real compiler unchanged. Nothing of the analysed crate is executed
//! (other than what the compiler itself evaluates as constants).
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;
use std::process::Command;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    files: Vec<String>,
    file_ids: HashMap<String, usize>,
    adts: Vec<DefId>,
    adt_seen: HashMap<DefId, ()>,
    pending: Vec<(usize, Ty<'tcx>)>,
    ext_seen: HashMap<DefId, ()>,
    ext: Vec<(DefId, usize)>,
    depth: usize,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, def: DefId) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(self
            .tcx
            .def_path_str(def))))
    }

    fn hash(&self, def: DefId) -> String {
        let (a, b) = self.tcx.def_path_hash(def).0.split();
        format!("{:x}-{:x}", a.as_u64(), b.as_u64())
    }

    fn tystr(&self, ty: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(ty.to_string())))
    }

    fn span(&mut self, span: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let span = span.source_callsite();
        let loc = sm.lookup_char_pos(span.lo());
        let name = format!("{}", loc.file.name.prefer_local_unconditionally());
        let id = match self.file_ids.get(&name) {
            Some(id) => *id,
            None => {
                let id = self.files.len();
                self.files.push(name.clone());
                self.file_ids.insert(name, id);
                id
            }
        };
        format!("[{},{}]", id, loc.line)
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let mut o = String::from("[");
        let mut first = true;
        for a in args.iter() {
            let s = match a.kind() {
                GenericArgKind::Type(t) => format!("{}", self.ty(t)),
                GenericArgKind::Const(c) => self.tyconst(c),
                _ => continue,
            };
            if !first {
                o.push(',');
            }
            first = false;
            o.push_str(&s);
        }
        o.push(']');
        o
    }

    fn tyconst(&mut self, c: ty::Const<'tcx>) -> String {
        match c.kind() {
            ty::ConstKind::Param(p) => format!("{{\"p\":{}}}", esc(p.name.as_str())),
            ty::ConstKind::Value(v) => match v.try_to_leaf() {
                Some(s) => format!("{{\"i\":\"{}\"}}", s.to_bits(s.size())),
                None => format!("{{\"x\":{}}}", esc(&format!("{:?}", c))),
            },
            _ => {
                if !c.has_param() && !c.has_escaping_bound_vars() {
                    let env = ty::TypingEnv::fully_monomorphized();
                    if let Ok(n) = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(c)) {
                        if matches!(n.kind(), ty::ConstKind::Value(..)) {
                            return self.tyconst(n);
                        }
                    }
                }
                let s = with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", c)));
                format!("{{\"x\":{}}}", esc(&s))
            }
        }
    }

    fn ty(&mut self, ty: Ty<'tcx>) -> usize {
        let ty = self.tcx.erase_and_anonymize_regions(ty);
        if let Some(id) = self.type_ids.get(&ty) {
            return *id;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(ty, id);
        let body = match *ty.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"n\":\"{}\"", i.name_str()),
            ty::Uint(i) => format!("\"k\":\"uint\",\"n\":\"{}\"", i.name_str()),
            ty::Float(i) => format!("\"k\":\"float\",\"n\":\"{}\"", i.name_str()),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(d, a) => {
                if self.adt_seen.insert(d.did(), ()).is_none() {
                    self.adts.push(d.did());
                }
                format!(
                    "\"k\":\"adt\",\"d\":{},\"h\":\"{}\",\"a\":{}",
                    esc(&self.path(d.did())),
                    self.hash(d.did()),
                    self.args(a)
                )
            }
            ty::Array(t, n) => format!("\"k\":\"array\",\"t\":{},\"n\":{}", self.ty(t), self.tyconst(n)),
            ty::Slice(t) => format!("\"k\":\"slice\",\"t\":{}", self.ty(t)),
            ty::RawPtr(t, m) => format!("\"k\":\"ptr\",\"t\":{},\"m\":{}", self.ty(t), m.is_mut()),
            ty::Ref(_, t, m) => format!("\"k\":\"ref\",\"t\":{},\"m\":{}", self.ty(t), m.is_mut()),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":[{}]", v.join(","))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{},\"i\":{}", esc(p.name.as_str()), p.index),
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                format!("\"k\":\"fndef\",{}", self.fnref(d, a, None))
            }
            ty::Closure(d, a) => {
                self.extern_fn(d);
                let up: Vec<String> = a
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(t).to_string())
                    .collect();
                format!(
                    "\"k\":\"closure\",\"d\":{},\"h\":\"{}\",\"up\":[{}],\"a\":{}",
                    esc(&self.path(d)),
                    self.hash(d),
                    up.join(","),
                    {
                        let pa = a.as_closure().parent_args();
                        let mut o = String::from("[");
                        let mut first = true;
                        for x in pa.iter() {
                            let s = match x.kind() {
                                GenericArgKind::Type(t) => format!("{}", self.ty(t)),
                                GenericArgKind::Const(c) => self.tyconst(c),
                                _ => continue,
                            };
                            if !first {
                                o.push(',');
                            }
                            first = false;
                            o.push_str(&s);
                        }
                        o.push(']');
                        o
                    }
                )
            }
            ty::Alias(_, alias) => match alias.kind {
                ty::AliasTyKind::Projection { def_id } => {
                    format!(
                        "\"k\":\"proj\",\"d\":{},\"h\":\"{}\",\"a\":{}",
                        esc(&self.path(def_id.into())),
                        self.hash(def_id.into()),
                        self.args(alias.args)
                    )
                }
                _ => format!("\"k\":\"alias\",\"s\":{}", esc(&self.tystr(ty))),
            },
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        let s = esc(&self.tystr(ty));
        self.types[id] = format!("{{{},\"s\":{}", body, s);
        self.pending.push((id, ty));
        id
    }

    fn finish_types(&mut self) {
        while let Some((id, ty)) = self.pending.pop() {
            let mut extra = String::new();
            if !ty.has_param() && !ty.has_aliases() && !ty.has_escaping_bound_vars() && !ty.has_infer() {
                let env = ty::TypingEnv::fully_monomorphized();
                if let Ok(l) = self.tcx.layout_of(env.as_query_input(ty)) {
                    let _ = write!(
                        extra,
                        ",\"l\":{{\"size\":{},\"align\":{},\"sized\":{}",
                        l.size.bytes(),
                        l.align.abi.bytes(),
                        l.is_sized()
                    );
                    if let rustc_abi::BackendRepr::Scalar(s) = l.backend_repr {
                        let r = s.valid_range(&self.tcx);
                        let _ = write!(extra, ",\"valid\":[\"{}\",\"{}\"]", r.start, r.end);
                    }
                    let n = l.fields.count();
                    if n < 64 && !matches!(l.fields, rustc_abi::FieldsShape::Array { .. }) {
                        let offs: Vec<String> = (0..n).map(|i| l.fields.offset(i).bytes().to_string()).collect();
                        let _ = write!(extra, ",\"offs\":[{}]", offs.join(","));
                    }
                    if let rustc_abi::Variants::Multiple { tag, tag_encoding, tag_field, variants } = &l.variants {
                        let direct = matches!(tag_encoding, rustc_abi::TagEncoding::Direct);
                        let r = tag.valid_range(&self.tcx);
                        let vs: Vec<String> = variants
                            .iter_enumerated()
                            .map(|(i, v)| {
                                let d = ty.discriminant_for_variant(self.tcx, i).map(|d| d.val.to_string());
                                let offs: Vec<String> = v.field_offsets.iter().map(|o| o.bytes().to_string()).collect();
                                format!("[\"{}\",[{}]]", d.unwrap_or_default(), offs.join(","))
                            })
                            .collect();
                        let _ = write!(
                            extra,
                            ",\"tag\":[{},{},\"{}\",\"{}\",{}],\"vars\":[{}]",
                            l.fields.offset(tag_field.as_usize()).bytes(),
                            tag.size(&self.tcx).bytes(),
                            r.start,
                            r.end,
                            direct,
                            vs.join(",")
                        );
                    }
                    extra.push('}');
                }
                let _ = write!(extra, ",\"nd\":{}", ty.needs_drop(self.tcx, env));
            }
            self.types[id].push_str(&extra);
            self.types[id].push('}');
        }
    }

    fn fnref(
        &mut self,
        d: DefId,
        a: GenericArgsRef<'tcx>,
        env: Option<ty::TypingEnv<'tcx>>,
    ) -> String {
        let mut o = format!(
            "\"d\":{},\"h\":\"{}\",\"a\":{}",
            esc(&self.path(d)),
            self.hash(d),
            self.args(a)
        );
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{}", esc(&self.path(t)));
            let _ = write!(o, ",\"n\":{}", esc(self.tcx.item_name(d).as_str()));
        } else if let Some(n) = self.tcx.opt_item_name(d) {
            let _ = write!(o, ",\"n\":{}", esc(n.as_str()));
        }
        if let Some(env) = env {
            let a = self.tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(i)) = ty::Instance::try_resolve(self.tcx, env, d, a) {
                let rd = i.def_id();
                if let ty::InstanceKind::Item(_) = i.def {
                    self.extern_fn(rd);
                }
                if rd != d {
                    let _ = write!(
                        o,
                        ",\"r\":{{\"d\":{},\"h\":\"{}\",\"a\":{}}}",
                        esc(&self.path(rd)),
                        self.hash(rd),
                        self.args(i.args)
                    );
                }
                match i.def {
                    ty::InstanceKind::Item(_) | ty::InstanceKind::Intrinsic(_) => {}
                    _ => o.push_str(",\"shim\":1"),
                }
            }
        }
        o
    }

    /// Remember a function of the standard library whose body is available, so
    /// that it is dumped as well.
    fn extern_fn(&mut self, d: DefId) {
        if d.is_local() || self.depth > 6 || self.ext_seen.contains_key(&d) {
            return;
        }
        let k = self.tcx.crate_name(d.krate);
        if !matches!(k.as_str(), "core" | "alloc" | "std") {
            return;
        }
        if self.tcx.intrinsic(d).is_some() || !self.tcx.is_mir_available(d) {
            return;
        }
        let p = self.path(d);
        const SKIP: &[&str] = &["core::fmt", "core::str::pattern", "core::unicode", "std::io", "alloc::fmt", "core::panicking", "core::num::flt2dec", "core::num::dec2flt", "core::core_arch", "core::core_simd", "std::panicking", "std::thread", "std::sys"];
        if SKIP.iter().any(|s| p.contains(s)) {
            return;
        }
        self.ext_seen.insert(d, ());
        self.ext.push((d, self.depth + 1));
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{},[", p.local.as_usize());
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    let _ = write!(o, "[\"f\",{},{}]", f.as_usize(), t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    let _ = write!(o, "[\"ci\",{},{},{}]", offset, from_end, min_length);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"sub\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(o, "[\"v\",{}]", v.as_usize());
                }
                _ => o.push_str("[\"?\"]"),
            }
        }
        o.push_str("]]");
        o
    }

    fn alloc_bytes(&self, id: AllocId, off: u64, len: Option<u64>, depth: usize) -> String {
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Memory(m)) => {
                let a = m.inner();
                let total = a.size().bytes();
                let end = len.map(|l| off + l).unwrap_or(total).min(total);
                let start = off.min(end);
                let bytes =
                    a.inspect_with_uninit_and_ptr_outside_interpreter(start as usize..end as usize);
                let mut o = String::from("{\"hex\":\"");
                for b in bytes {
                    let _ = write!(o, "{:02x}", b);
                }
                o.push('"');
                let rel: Vec<_> = a
                    .provenance()
                    .ptrs()
                    .iter()
                    .filter(|(s, _)| s.bytes() >= start && s.bytes() < end)
                    .map(|(s, p)| (s.bytes(), p.alloc_id()))
                    .collect();
                if !rel.is_empty() && depth < 4 {
                    o.push_str(",\"rel\":{");
                    for (i, (s, p)) in rel.into_iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        let _ = write!(o, "\"{}\":{}", s - start, self.alloc_bytes(p, 0, None, depth + 1));
                    }
                    o.push('}');
                }
                o.push('}');
                o
            }
            Some(GlobalAlloc::Static(d)) => format!("{{\"static\":{},\"h\":\"{}\"}}", esc(&self.path(d)), self.hash(d)),
            Some(GlobalAlloc::Function { instance, .. }) => {
                format!("{{\"fn\":{},\"h\":\"{}\"}}", esc(&self.path(instance.def_id())), self.hash(instance.def_id()))
            }
            _ => "{}".to_string(),
        }
    }

    fn constval(&mut self, v: ConstValue, ty: Ty<'tcx>) -> String {
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => format!("{{\"i\":\"{}\"}}", i.to_bits(i.size())),
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                format!("{{\"ptr\":{}}}", self.alloc_bytes(prov.alloc_id(), off.bytes(), None, 0))
            }
            ConstValue::ZeroSized => "{\"z\":1}".to_string(),
            ConstValue::Slice { alloc_id, meta } => {
                format!("{{\"slice\":{},\"len\":{}}}", self.alloc_bytes(alloc_id, 0, None, 0), meta)
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let mut len = None;
                if !ty.has_param() && !ty.has_aliases() {
                    let env = ty::TypingEnv::fully_monomorphized();
                    if let Ok(l) = self.tcx.layout_of(env.as_query_input(ty)) {
                        len = Some(l.size.bytes());
                    }
                }
                format!("{{\"mem\":{}}}", self.alloc_bytes(alloc_id, offset.bytes(), len, 0))
            }
        }
    }

    fn konst(&mut self, c: &Const<'tcx>, env: ty::TypingEnv<'tcx>, span: Span) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, a) = *t.kind() {
            let a = a.skip_binder();
            return format!("{{\"t\":{},\"fn\":{{{}}}}}", tid, self.fnref(d, a, Some(env)));
        }
        match c {
            Const::Val(v, ty) => format!("{{\"t\":{},\"v\":{}}}", tid, self.constval(*v, *ty)),
            Const::Ty(_, ct) => {
                let s = self.tyconst(*ct);
                format!("{{\"t\":{},\"tc\":{}}}", tid, s)
            }
            Const::Unevaluated(u, ty) => {
                let mut o = format!("{{\"t\":{},\"u\":{{{}", tid, self.fnref_const(u.def, u.args, env));
                if let Some(p) = u.promoted {
                    let _ = write!(o, ",\"pr\":{}", p.as_usize());
                }
                o.push('}');
                if !u.args.has_param() || u.promoted.is_some() {
                    let erased = self.tcx.erase_and_anonymize_regions(*u);
                    if !erased.args.has_param() {
                        if let Ok(v) = self.tcx.const_eval_resolve(env, erased, span) {
                            let _ = write!(o, ",\"v\":{}", self.constval(v, *ty));
                        }
                    }
                }
                o.push('}');
                o
            }
        }
    }

    fn fnref_const(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let mut o = format!(
            "\"d\":{},\"h\":\"{}\",\"a\":{}",
            esc(&self.path(d)),
            self.hash(d),
            self.args(a)
        );
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{}", esc(&self.path(t)));
        }
        if let Some(n) = self.tcx.opt_item_name(d) {
            let _ = write!(o, ",\"n\":{}", esc(n.as_str()));
        }
        if matches!(self.tcx.def_kind(d), DefKind::AssocConst { .. }) {
            let a = self.tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(i)) = ty::Instance::try_resolve(self.tcx, env, d, a) {
                if i.def_id() != d {
                    let _ = write!(
                        o,
                        ",\"r\":{{\"d\":{},\"h\":\"{}\",\"a\":{}}}",
                        esc(&self.path(i.def_id())),
                        self.hash(i.def_id()),
                        self.args(i.args)
                    );
                }
            }
        }
        o
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_, env, c.span)),
            #[allow(unreachable_patterns)]
            _ => format!("[\"k\",{{\"rt\":{}}}]", esc(&format!("{:?}", o))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o, env), self.tyconst(*n)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::RawPtr(k, p) => {
                format!("[\"addr\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p))
            }
            Rvalue::Cast(k, o, t) => {
                let k = format!("{:?}", k);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&k), self.operand(o, env), t)
            }
            Rvalue::BinaryOp(op, b) => {
                let (a, b) = &**b;
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a, env), self.operand(b, env))
            }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(a, env)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let k = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let ty = self.tcx.type_of(*d).instantiate(self.tcx, a).skip_normalization();
                        let t = self.ty(ty);
                        format!(
                            "[\"adt\",{},{},{},{}]",
                            esc(&self.path(*d)),
                            v.as_usize(),
                            f.map(|f| f.as_usize().to_string()).unwrap_or("null".into()),
                            t
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"closure\",{},\"{}\"]", esc(&self.path(*d)), self.hash(*d))
                    }
                    AggregateKind::RawPtr(t, m) => format!("[\"rawptr\",{},{}]", self.ty(*t), m.is_mut()),
                    _ => "[\"?\"]".to_string(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                format!("[\"agg\",{},[{}]]", k, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            other => format!("[\"?\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn body(&mut self, id: DefId, body: &Body<'tcx>) -> String {
        let env = ty::TypingEnv::post_analysis(self.tcx, id);
        let mut o = String::new();
        let _ = write!(o, "\"args\":{},\"locals\":[", body.arg_count);
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let t = self.ty(l.ty);
            let _ = write!(o, "{}", t);
        }
        o.push_str("],\"names\":[");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if !first {
                    o.push(',');
                }
                first = false;
                let _ = write!(o, "[{},{}]", esc(v.name.as_str()), self.place(p));
            }
        }
        o.push_str("],\"blocks\":[");
        for (i, b) in body.basic_blocks.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            if b.is_cleanup {
                o.push_str("null");
                continue;
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &b.statements {
                let e = match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        format!("[\"=\",{},{}]", self.place(p), self.rvalue(r, env))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}]", self.place(place), variant_index.as_usize())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => format!("[\"assume\",{}]", self.operand(op, env)),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => format!(
                            "[\"cno\",{},{},{}]",
                            self.operand(&c.src, env),
                            self.operand(&c.dst, env),
                            self.operand(&c.count, env)
                        ),
                    },
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&e);
            }
            o.push_str("],\"t\":");
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let e = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize()))
                        .collect();
                    format!(
                        "[\"switch\",{},[{}],{},{}]",
                        self.operand(discr, env),
                        v.join(","),
                        targets.otherwise().as_usize(),
                        sp
                    )
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = self.ty(place.ty(&body.local_decls, self.tcx).ty);
                    format!("[\"drop\",{},{},{},{}]", self.place(place), target.as_usize(), t, sp)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    format!(
                        "[\"call\",{},[{}],{},{},{}]",
                        self.operand(func, env),
                        a.join(","),
                        self.place(destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.operand(len, env), self.operand(index, env))
                        }
                        AssertKind::Overflow(op, a, b) => {
                            format!("[\"overflow\",\"{:?}\",{},{}]", op, self.operand(a, env), self.operand(b, env))
                        }
                        AssertKind::OverflowNeg(a) => format!("[\"neg\",{}]", self.operand(a, env)),
                        AssertKind::DivisionByZero(a) => format!("[\"div0\",{}]", self.operand(a, env)),
                        AssertKind::RemainderByZero(a) => format!("[\"rem0\",{}]", self.operand(a, env)),
                        _ => "[\"other\"]".to_string(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(cond, env),
                        expected,
                        m,
                        target.as_usize(),
                        sp
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::TailCall { .. } => "[\"tail\"]".to_string(),
                other => format!("[\"?\",{}]", esc(&format!("{:?}", other.name()))),
            };
            o.push_str(&e);
            o.push('}');
        }
        o.push(']');
        o
    }

    fn generics(&self, d: DefId) -> String {
        let g = self.tcx.generics_of(d);
        let mut v = Vec::new();
        let mut cur = Some(g);
        let mut stack = Vec::new();
        while let Some(g) = cur {
            stack.push(g);
            cur = g.parent.map(|p| self.tcx.generics_of(p));
        }
        for g in stack.into_iter().rev() {
            for p in &g.own_params {
                if matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                    continue;
                }
                v.push(esc(p.name.as_str()));
            }
        }
        format!("[{}]", v.join(","))
    }

    fn dump(&mut self) -> String {
        let tcx = self.tcx;
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\n\"fns\":[", esc(krate.as_str()));
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_span(k.to_def_id()).lo());
        let mut first = true;
        for k in keys {
            let d = k.to_def_id();
            let kind = tcx.def_kind(d);
            let (kname, body): (&str, &Body<'tcx>) = match kind {
                DefKind::Fn | DefKind::AssocFn => ("fn", tcx.optimized_mir(d)),
                DefKind::Closure => ("closure", tcx.optimized_mir(d)),
                DefKind::Ctor(..) => continue,
                DefKind::Const { .. } | DefKind::AssocConst { .. } => ("const", tcx.mir_for_ctfe(d)),
                DefKind::AnonConst => ("anon", tcx.mir_for_ctfe(d)),
                DefKind::Static { .. } => ("static", tcx.mir_for_ctfe(d)),
                _ => continue,
            };
            if !first {
                o.push_str(",\n");
            }
            first = false;
            let path = self.path(d);
            let parent = tcx.opt_parent(d);
            let mut hdr = format!(
                "{{\"d\":{},\"h\":\"{}\",\"k\":\"{}\",\"sp\":{},\"g\":{}",
                esc(&path),
                self.hash(d),
                kname,
                self.span(tcx.def_span(d)),
                self.generics(d)
            );
            if let Some(n) = tcx.opt_item_name(d) {
                let _ = write!(hdr, ",\"n\":{}", esc(n.as_str()));
            }
            if let Some(p) = parent {
                let _ = write!(hdr, ",\"ph\":\"{}\"", self.hash(p));
                if let DefKind::Impl { .. } = tcx.def_kind(p) {
                    hdr.push_str(",\"inimpl\":1");
                } else if tcx.def_kind(p) == DefKind::Trait {
                    let _ = write!(hdr, ",\"intrait\":{}", esc(&self.path(p)));
                }
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(d).skip_binder().skip_binder();
                let _ = write!(hdr, ",\"unsafe\":{}", !sig.safety().is_safe());
                let _ = write!(hdr, ",\"pub\":{}", tcx.effective_visibilities(()).is_reachable(k));
                let _ = write!(hdr, ",\"constfn\":{}", tcx.is_const_fn(d));
            }
            if tcx.def_span(d).from_expansion() {
                hdr.push_str(",\"mac\":1");
            }
            let b = self.body(d, body);
            let _ = write!(o, "{},{}", hdr, b);
            // promoted bodies
            if matches!(kname, "fn" | "closure" | "const" | "anon") {
                let pr = tcx.promoted_mir(d);
                if !pr.is_empty() {
                    o.push_str(",\"prom\":[");
                    for (i, p) in pr.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        let b = self.body(d, p);
                        let _ = write!(o, "{{{}}}", b);
                    }
                    o.push(']');
                }
            }
            if (kname == "const" || kname == "anon") && !tcx.generics_of(d).requires_monomorphization(tcx) {
                if let Ok(v) = tcx.const_eval_poly(d) {
                    let ty = tcx.type_of(d).instantiate_identity().skip_normalization();
                    let _ = write!(o, ",\"val\":{}", self.constval(v, ty));
                }
            }
            if kname == "static" {
                if let Ok(a) = tcx.eval_static_initializer(d) {
                    let id = tcx.reserve_and_set_memory_alloc(a);
                    let _ = write!(o, ",\"val\":{{\"mem\":{}}}", self.alloc_bytes(id, 0, None, 0));
                }
            }
            o.push('}');
        }
        let mut i = 0;
        while i < self.ext.len() {
            let (d, depth) = self.ext[i];
            i += 1;
            if i > 3000 {
                break;
            }
            self.depth = depth;
            let kind = tcx.def_kind(d);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            let body = tcx.optimized_mir(d);
            let mut hdr = format!(
                "{{\"d\":{},\"h\":\"{}\",\"k\":\"ext\",\"sp\":{},\"g\":{}",
                esc(&self.path(d)),
                self.hash(d),
                self.span(tcx.def_span(d)),
                self.generics(d)
            );
            if let Some(n) = tcx.opt_item_name(d) {
                let _ = write!(hdr, ",\"n\":{}", esc(n.as_str()));
            }
            let b = self.body(d, body);
            if !first {
                o.push_str(",\n");
            }
            first = false;
            let _ = write!(o, "{},{}}}", hdr, b);
        }
        self.depth = 100;
        o.push_str("],\n\"impls\":[");
        let mut first = true;
        let ids: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
        for k in ids.iter().copied() {
            let d = k.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Impl { .. }) {
                continue;
            }
            if !first {
                o.push_str(",\n");
            }
            first = false;
            let self_ty = tcx.type_of(d).instantiate_identity().skip_normalization();
            let st = self.ty(self_ty);
            let mut e = format!(
                "{{\"h\":\"{}\",\"d\":{},\"sp\":{},\"g\":{},\"self\":{}",
                self.hash(d),
                esc(&self.path(d)),
                self.span(tcx.def_span(d)),
                self.generics(d),
                st
            );
            if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                let tr = tr.instantiate_identity().skip_normalization();
                let _ = write!(
                    e,
                    ",\"tr\":{},\"th\":\"{}\",\"ta\":{}",
                    esc(&self.path(tr.def_id)),
                    self.hash(tr.def_id),
                    self.args(tr.args)
                );
                let h = tcx.impl_trait_header(d);
                let _ = write!(e, ",\"unsafe\":{},\"neg\":{}", !h.safety.is_safe(), h.polarity == ty::ImplPolarity::Negative);
            }
            e.push_str(",\"where\":[");
            let preds = tcx.clauses_of(d).instantiate_identity(tcx);
            let mut pf = true;
            for p in preds.clauses.iter() {
                if !pf {
                    e.push(',');
                }
                pf = false;
                let p = (*p).skip_normalization();
                let s = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", p))));
                e.push_str(&esc(&s));
            }
            e.push_str("],\"items\":[");
            let mut f2 = true;
            for it in tcx.associated_items(d).in_definition_order() {
                if it.opt_name().is_none() {
                    continue;
                }
                if !f2 {
                    e.push(',');
                }
                f2 = false;
                let _ = write!(
                    e,
                    "{{\"n\":{},\"h\":\"{}\",\"k\":\"{}\"",
                    esc(it.name().as_str()),
                    self.hash(it.def_id),
                    match it.kind {
                        ty::AssocKind::Const { .. } => "const",
                        ty::AssocKind::Fn { .. } => "fn",
                        ty::AssocKind::Type { .. } => "type",
                    }
                );
                if matches!(it.kind, ty::AssocKind::Type { .. }) {
                    let t = tcx.type_of(it.def_id).instantiate_identity().skip_normalization();
                    let t = self.ty(t);
                    let _ = write!(e, ",\"ty\":{}", t);
                }
                e.push('}');
            }
            e.push_str("]}");
            o.push_str(&e);
        }
        o.push_str("],\n\"traits\":[");
        let mut first = true;
        for k in ids.iter().copied() {
            let d = k.to_def_id();
            if tcx.def_kind(d) != DefKind::Trait {
                continue;
            }
            if !first {
                o.push_str(",\n");
            }
            first = false;
            let _ = write!(
                o,
                "{{\"d\":{},\"h\":\"{}\",\"unsafe\":{},\"items\":[",
                esc(&self.path(d)),
                self.hash(d),
                !tcx.trait_def(d).safety.is_safe()
            );
            let mut f2 = true;
            for it in tcx.associated_items(d).in_definition_order() {
                if it.opt_name().is_none() {
                    continue;
                }
                if !f2 {
                    o.push(',');
                }
                f2 = false;
                let _ = write!(
                    o,
                    "{{\"n\":{},\"h\":\"{}\",\"dflt\":{}}}",
                    esc(it.name().as_str()),
                    self.hash(it.def_id),
                    it.defaultness(tcx).has_value()
                );
            }
            o.push_str("]}");
        }
        o.push_str("],\n\"adts\":[");
        // local ADTs first so that all of them are present
        for k in ids.iter().copied() {
            let d = k.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                if self.adt_seen.insert(d, ()).is_none() {
                    self.adts.push(d);
                }
            }
        }
        let mut i = 0;
        let mut first = true;
        while i < self.adts.len() {
            let d = self.adts[i];
            i += 1;
            let def = tcx.adt_def(d);
            if !first {
                o.push_str(",\n");
            }
            first = false;
            let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            let mut e = format!("{{\"d\":{},\"h\":\"{}\",\"k\":\"{}\",\"g\":{}", esc(&self.path(d)), self.hash(d), kind, self.generics(d));
            let r = def.repr();
            let _ = write!(
                e,
                ",\"c\":{},\"transparent\":{},\"packed\":{},\"align\":{},\"int\":{}",
                r.c(),
                r.transparent(),
                r.packed(),
                r.align.map(|a| a.bytes().to_string()).unwrap_or("null".into()),
                r.int.map(|i| esc(&format!("{:?}", i))).unwrap_or("null".into())
            );
            let self_ty = tcx.type_of(d).instantiate_identity().skip_normalization();
            let st = self.ty(self_ty);
            let _ = write!(e, ",\"self\":{}", st);
            if let Some(l) = d.as_local() {
                let _ = write!(e, ",\"sp\":{},\"pub\":{}", self.span(tcx.def_span(d)), tcx.effective_visibilities(()).is_reachable(l));
            }
            e.push_str(",\"variants\":[");
            for (vi, v) in def.variants().iter_enumerated() {
                if vi.as_usize() > 0 {
                    e.push(',');
                }
                let discr = if def.is_enum() {
                    format!("\"{}\"", def.discriminant_for_variant(tcx, vi).val)
                } else {
                    "null".into()
                };
                let _ = write!(e, "{{\"n\":{},\"discr\":{},\"fields\":[", esc(v.name.as_str()), discr);
                for (fi, f) in v.fields.iter().enumerate() {
                    if fi > 0 {
                        e.push(',');
                    }
                    let t = if d.is_local() || fi < 8 {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_normalization();
                        self.ty(t).to_string()
                    } else {
                        "null".into()
                    };
                    let _ = write!(e, "[{},{}]", esc(f.name.as_str()), t);
                }
                e.push_str("]}");
            }
            e.push_str("]}");
            o.push_str(&e);
            if i > 4000 {
                break;
            }
        }
        o.push_str("],\n\"types\":[");
        self.finish_types();
        for (i, t) in self.types.iter().enumerate() {
            if i > 0 {
                o.push_str(",\n");
            }
            o.push_str(t);
        }
        o.push_str("],\n\"files\":[");
        for (i, f) in self.files.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&esc(f));
        }
        o.push_str("]}\n");
        o
    }
}

struct Dump {
    out: String,
}

impl Callbacks for Dump {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.trimmed_def_paths = false;
    }

    fn after_analysis<'tcx>(&mut self, _: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx {
            tcx,
            types: Vec::new(),
            type_ids: HashMap::new(),
            files: Vec::new(),
            file_ids: HashMap::new(),
            adts: Vec::new(),
            adt_seen: HashMap::new(),
            pending: Vec::new(),
            ext_seen: HashMap::new(),
            ext: Vec::new(),
            depth: 0,
        };
        let s = cx.dump();
        std::fs::write(&self.out, s).expect("write dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the path of the compiler.
    let rest = &args[1..];
    let krates = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let dir = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let name = rest
        .windows(2)
        .find(|w| w[0] == "--crate-name")
        .map(|w| w[1].clone())
        .unwrap_or_default();
    let is_test = rest.iter().any(|a| a == "--test");
    let host_bin = rest.iter().any(|a| a == "proc-macro");
    if !krates.split(',').any(|k| k == name) || is_test || host_bin {
        let st = Command::new(&rest[0]).args(&rest[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    let mut a: Vec<String> = rest.to_vec();
    for x in [
        "-Zmir-opt-level=0",
        "-Zalways-encode-mir",
        "-Coverflow-checks=on",
        "-Cdebug-assertions=off",
        "-Zub-checks=no",
        "-Awarnings",
    ] {
        a.push(x.to_string());
    }
    let mut cb = Dump { out: format!("{}/{}.json", dir, name) };
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&a, &mut cb);
    });
    if !std::path::Path::new(&cb.out).exists() {
        std::process::exit(1);
    }
    code
}
