//! fl-facts: a rustc driver which writes the resolved program (ADTs, impls and the
//! built MIR of every body, with callees resolved) of the workspace crates as JSON.
//! It is used as RUSTC_WORKSPACE_WRAPPER; the crates named in FL_FACTS_CRATES are dumped
//! to FL_FACTS_OUT/<crate>.json.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{
    self, AggregateKind, AssertKind, BasicBlock, Body, Const, ConstValue, Operand, Place,
    ProjectionElem, Rvalue, StatementKind, TerminatorKind, VarDebugInfoContents,
};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    ty_idx: HashMap<String, usize>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(with_resolve_crate_name!(self.tcx.def_path_str(d)))
    }
    fn key(&self, d: DefId) -> String {
        let h = self.tcx.def_path_hash(d);
        format!("{:?}", h.0).trim_start_matches("Fingerprint").to_string()
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(with_resolve_crate_name!(format!("{t}")))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let s = self.tystr(t);
        if let Some(i) = self.ty_idx.get(&s) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.push(s.clone());
        self.ty_idx.insert(s, i);
        i
    }

    /// All the nominal types mentioned in a type, also inside of generic arguments.
    fn adts_of(&self, t: Ty<'tcx>) -> Vec<String> {
        let mut out = vec![];
        for ga in t.walk() {
            if let Some(t) = ga.as_type() {
                match t.kind() {
                    ty::Adt(d, _) => out.push(self.path(d.did())),
                    ty::Dynamic(preds, ..) => {
                        if let Some(p) = preds.principal_def_id() {
                            out.push(format!("dyn {}", self.path(p)));
                        }
                    }
                    _ => {}
                }
            }
        }
        out.sort();
        out.dedup();
        out
    }

    fn adts(&mut self) -> String {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if !matches!(
                tcx.def_kind(id),
                DefKind::Struct | DefKind::Enum | DefKind::Union
            ) {
                continue;
            }
            let def = tcx.adt_def(id.to_def_id());
            let mut vs = vec![];
            for (_vi, v) in def.variants().iter_enumerated() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let adts: Vec<String> = self.adts_of(t).iter().map(|s| js(s)).collect();
                    let attrs = f
                        .did
                        .as_local()
                        .map(|l| self.attr_text(l))
                        .unwrap_or_default();
                    fs.push(format!(
                        "{{\"name\":{},\"ty\":{},\"adts\":[{}],\"pub\":{},\"attrs\":{}}}",
                        js(f.name.as_str()),
                        self.ty(t),
                        adts.join(","),
                        f.vis.is_public(),
                        js(&attrs)
                    ));
                }
                vs.push(format!(
                    "{{\"name\":{},\"fields\":[{}]}}",
                    js(v.name.as_str()),
                    fs.join(",")
                ));
            }
            out.push(format!(
                "{{\"path\":{},\"kind\":{},\"variants\":[{}],\"span\":{},\"attrs\":{}}}",
                js(&self.path(id.to_def_id())),
                js(match tcx.def_kind(id) {
                    DefKind::Struct => "struct",
                    DefKind::Enum => "enum",
                    _ => "union",
                }),
                vs.join(","),
                js(&self.span(tcx.def_span(id))),
                js(&self.attr_text(id)),
            ));
        }
        format!("[{}]", out.join(","))
    }

    fn attr_text(&self, id: LocalDefId) -> String {
        let hid = self.tcx.local_def_id_to_hir_id(id);
        let mut o = String::new();
        for a in self.tcx.hir_attrs(hid) {
            if let rustc_attr_ir::Attribute::DeriveHelper(item) = a {
                if let Ok(s) = self.tcx.sess.source_map().span_to_snippet(item.span) {
                    o.push_str(&s);
                    o.push(' ');
                }
            }
        }
        o
    }

    fn impls(&mut self) -> String {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if !matches!(tcx.def_kind(id), DefKind::Impl { .. }) {
                continue;
            }
            let did = id.to_def_id();
            let tr = if matches!(tcx.def_kind(id), DefKind::Impl { of_trait: true }) {
                let t = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                (
                    js(&self.path(t.def_id)),
                    js(&with_no_trimmed_paths!(with_resolve_crate_name!(format!("{t}")))),
                )
            } else {
                ("null".to_string(), "null".to_string())
            };
            let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let adt = match st.kind() {
                ty::Adt(d, _) => js(&self.path(d.did())),
                _ => "null".into(),
            };
            let items: Vec<String> = tcx
                .associated_item_def_ids(did)
                .iter()
                .map(|d| format!("[{},{}]", js(tcx.opt_item_name(*d).map(|s| s.to_string()).unwrap_or_default().as_str()), js(&self.key(*d))))
                .collect();
            out.push(format!(
                "{{\"trait\":{},\"tref\":{},\"self\":{},\"adt\":{},\"derived\":{},\"items\":[{}],\"span\":{}}}",
                tr.0,
                tr.1,
                self.ty(st),
                adt,
                tcx.is_builtin_derived(did) || tcx.def_span(did).from_expansion(),
                items.join(","),
                js(&self.span(tcx.def_span(did)))
            ));
        }
        format!("[{}]", out.join(","))
    }

    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        format!(
            "{}:{}",
            lo.file.name.prefer_local_unconditionally(),
            lo.line
        )
    }

    /// The outermost macro a span comes from.
    fn expn(&self, sp: Span) -> Option<String> {
        let mut sp = sp;
        let mut last = None;
        while sp.from_expansion() {
            let d = sp.ctxt().outer_expn_data();
            if let rustc_span::hygiene::ExpnKind::Macro(_, _) = d.kind {
                if let Some(m) = d.macro_def_id {
                    last = Some(self.path(m));
                }
            } else if let rustc_span::hygiene::ExpnKind::Desugaring(k) = d.kind {
                if last.is_none() {
                    last = Some(format!("desugar:{k:?}"));
                }
            }
            sp = d.call_site;
        }
        last
    }

    fn bodies(&mut self) -> Vec<String> {
        let tcx = self.tcx;
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        // First clone all bodies, as later queries might steal them.
        let mut cl: Vec<(LocalDefId, Body<'tcx>, &'static str)> = vec![];
        let mut stolen = vec![];
        for k in keys {
            let kind = tcx.def_kind(k);
            if matches!(
                kind,
                DefKind::Ctor(..) | DefKind::AnonConst | DefKind::GlobalAsm
            ) {
                continue;
            }
            let st = tcx.mir_built(k);
            if st.is_stolen() {
                stolen.push(k);
            } else {
                let b = st.borrow().clone();
                cl.push((k, b, "built"));
            }
        }
        for k in stolen {
            let b = if tcx.is_const_fn(k.to_def_id())
                || matches!(
                    tcx.def_kind(k),
                    DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
                ) {
                tcx.mir_for_ctfe(k).clone()
            } else {
                tcx.optimized_mir(k).clone()
            };
            cl.push((k, b, "opt"));
        }
        let mut out = vec![];
        for (k, b, phase) in cl {
            out.push(self.body(k, &b, phase));
        }
        out
    }

    fn body(&mut self, id: LocalDefId, b: &Body<'tcx>, phase: &str) -> String {
        let tcx = self.tcx;
        let did = id.to_def_id();
        let kind = match tcx.def_kind(id) {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "assoc",
            DefKind::Closure => {
                if tcx.is_coroutine(did) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
            DefKind::Static { .. } => "static",
            _ => "other",
        };
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        if matches!(kind, "closure" | "coroutine") {
            for c in tcx.closure_captures(id) {
                upv.push(c.to_string(tcx));
            }
        }
        let env = TypingEnv::post_analysis(tcx, did);
        let locals: Vec<String> = b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                match names.get(&l.as_usize()) {
                    Some(n) => format!("[{t},{}]", js(n)),
                    None => format!("[{t}]"),
                }
            })
            .collect();
        let mut blocks = vec![];
        for (_bb, data) in b.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            for s in &data.statements {
                if let Some(t) = self.stmt(b, env, &s.kind) {
                    stmts.push(t);
                }
            }
            let term = data.terminator();
            let t = self.term(b, env, &term.kind, term.source_info.span);
            blocks.push(format!(
                "{{\"s\":[{}],\"t\":{}{}}}",
                stmts.join(","),
                t,
                if data.is_cleanup { ",\"c\":1" } else { "" }
            ));
        }
        let parent = tcx.opt_parent(did).map(|p| self.key(p)).unwrap_or_default();
        let unsafety = false;
        let _ = unsafety;
        let inputs: Vec<String> = upv.iter().map(|s| js(s)).collect();
        let (mut tr, mut im) = ("null".to_string(), "null".to_string());
        if matches!(tcx.def_kind(id), DefKind::AssocFn) {
            let p = tcx.parent(did);
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    im = js(&match st.kind() {
                        ty::Adt(d, _) => self.path(d.did()),
                        _ => self.tystr(st),
                    });
                    if of_trait {
                        tr = js(&self.path(
                            tcx.impl_trait_ref(p)
                                .instantiate_identity()
                                .skip_norm_wip()
                                .def_id,
                        ));
                    }
                }
                DefKind::Trait => tr = js(&self.path(p)),
                _ => {}
            }
        }
        format!(
            "{{\"key\":{},\"path\":{},\"name\":{},\"kind\":\"{kind}\",\"phase\":\"{phase}\",\"parent\":{},\"trait\":{tr},\"impl\":{im},\"span\":{},\"pub\":{},\"exp\":{},\"args\":{},\"upvars\":[{}],\"locals\":[{}],\"blocks\":[{}]}}",
            js(&self.key(did)),
            js(&self.path(did)),
            js(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str()),
            js(&parent),
            js(&self.span(tcx.def_span(did))),
            !matches!(kind, "closure" | "coroutine" | "other") && tcx.visibility(did).is_public(),
            match self.expn(tcx.def_span(did)) { Some(s) => js(&s), None => "null".into() },
            b.arg_count,
            inputs.join(","),
            locals.join(","),
            blocks.join(",")
        )
    }

    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        let tcx = self.tcx;
        let mut pt = mir::PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = match pt.variant_index {
                                Some(v) => d.variant(v),
                                None => d.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let _ = write!(o, ",{}", js(&format!(".{name}")));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => {
                    let _ = write!(o, ",[\"ci\",{offset},{from_end}]");
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"sub\",{from},{to},{from_end}]");
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => d.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    let _ = write!(o, ",{}", js(&format!("@{name}")));
                }
                _ => {}
            }
            pt = pt.projection_ty(tcx, e);
        }
        o.push(']');
        o
    }

    fn operand(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(b, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(b, p)),
            Operand::Constant(c) => self.constant(env, &c.const_),
            _ => "[\"k\",{\"v\":0}]".into(),
        }
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let ga: Vec<String> = args
            .iter()
            .filter_map(|a| a.as_type())
            .map(|t| self.ty(t).to_string())
            .collect();
        let mut res = String::from("null");
        let mut rk = String::from("null");
        let mut shim = String::from("null");
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, did, args) {
                match i.def {
                    ty::InstanceKind::Item(d) => {
                        res = js(&self.path(d));
                        rk = js(&self.key(d));
                    }
                    other => {
                        let s = format!("{other:?}");
                        shim = js(s.split('(').next().unwrap_or(""));
                        let d = other.def_id();
                        res = js(&self.path(d));
                        rk = js(&self.key(d));
                    }
                }
            }
        }
        let tr = match tcx.trait_of_assoc(did) {
            Some(t) => js(&self.path(t)),
            None => "null".into(),
        };
        format!(
            "{{\"fn\":{},\"key\":{},\"ga\":[{}],\"res\":{res},\"rk\":{rk},\"shim\":{shim},\"tr\":{tr},\"dk\":{}}}",
            js(&self.path(did)),
            js(&self.key(did)),
            ga.join(","),
            js(&format!("{:?}", tcx.def_kind(did)).split('(').next().unwrap_or("").to_string())
        )
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(did, args) = *t.kind() {
            return format!("[\"f\",{}]", self.callee(env, did, args.no_bound_vars().unwrap()));
        }
        let ti = self.ty(t);
        let mut def = String::new();
        if let Const::Unevaluated(u, _) = c {
            def = format!(",\"def\":{},\"dkey\":{}", js(&self.path(u.def)), js(&self.key(u.def)));
        }
        let val = match c {
            Const::Val(v, _) => Some(*v),
            _ => {
                let generic = {
                    use rustc_middle::ty::TypeVisitableExt;
                    match c {
                        Const::Unevaluated(u, _) => u.args.has_param(),
                        Const::Ty(_, ct) => ct.has_param(),
                        _ => false,
                    }
                };
                if generic {
                    None
                } else {
                    c.eval(tcx, env, rustc_span::DUMMY_SP).ok()
                }
            }
        };
        if let Some(v) = val {
            if let Some(s) = self.const_val(v, t) {
                return format!("[\"k\",{{\"t\":{ti},\"v\":{s}{def}}}]");
            }
        }
        format!("[\"k\",{{\"t\":{ti}{def}}}]")
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        match (v, t.kind()) {
            (ConstValue::Scalar(s), ty::Bool) => s
                .try_to_scalar_int()
                .ok()
                .and_then(|i| i.try_to_bool().ok())
                .map(|b| b.to_string()),
            (ConstValue::Scalar(s), ty::Int(_)) => {
                let i = s.try_to_scalar_int().ok()?;
                let sz = i.size();
                Some(format!("{}", sz.sign_extend(i.to_bits(sz))))
            }
            (ConstValue::Scalar(s), ty::Uint(_)) => {
                let i = s.try_to_scalar_int().ok()?;
                Some(format!("{}", i.to_bits(i.size())))
            }
            (ConstValue::Scalar(s), ty::Char) => {
                let i = s.try_to_scalar_int().ok()?;
                let c = char::from_u32(i.to_bits(i.size()) as u32)?;
                Some(js(&c.to_string()))
            }
            (ConstValue::Scalar(s), ty::Float(_)) => {
                let i = s.try_to_scalar_int().ok()?;
                Some(js(&format!("f{:x}", i.to_bits(i.size()))))
            }
            (ConstValue::Slice { .. } | ConstValue::Indirect { .. }, ty::Ref(_, inner, _)) => {
                match inner.kind() {
                    ty::Str => {
                        let d = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                        Some(js(&String::from_utf8_lossy(d)))
                    }
                    ty::Slice(e) if *e == tcx.types.u8 => {
                        let d = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                        Some(format!("{{\"bytes\":{}}}", js(&String::from_utf8_lossy(d))))
                    }
                    _ => None,
                }
            }
            (ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), ty::Ref(_, inner, _)) => {
                // Byte arrays, e.g., the templates of format_args.
                if let ty::Array(e, len) = inner.kind() {
                    if *e == tcx.types.u8 {
                        let len = len.try_to_target_usize(tcx)? as usize;
                        let (prov, off) = p.prov_and_relative_offset();
                        if let mir::interpret::GlobalAlloc::Memory(a) =
                            tcx.global_alloc(prov.alloc_id())
                        {
                            let off = off.bytes() as usize;
                            let b = a
                                .inner()
                                .inspect_with_uninit_and_ptr_outside_interpreter(off..off + len);
                            return Some(format!(
                                "{{\"bytes\":{}}}",
                                js(&String::from_utf8_lossy(b))
                            ));
                        }
                    }
                }
                None
            }
            (ConstValue::ZeroSized, _) => Some("\"<zst>\"".into()),
            _ => None,
        }
    }

    fn stmt(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, s: &StatementKind<'tcx>) -> Option<String> {
        match s {
            StatementKind::Assign(bx) => {
                let (p, rv) = &**bx;
                let r = self.rvalue(b, env, rv);
                Some(format!("[{},{r}]", self.place(b, p)))
            }
            StatementKind::SetDiscriminant {
                place,
                variant_index,
            } => {
                let t = place.ty(&b.local_decls, self.tcx).ty;
                let n = match t.kind() {
                    ty::Adt(d, _) => d.variant(*variant_index).name.to_string(),
                    _ => variant_index.as_usize().to_string(),
                };
                Some(format!("[{},[\"setd\",{}]]", self.place(b, place), js(&n)))
            }
            _ => None,
        }
    }

    fn rvalue(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, rv: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(b, env, o)),
            Rvalue::Repeat(o, n) => {
                let c = n.try_to_target_usize(tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{c}]", self.operand(b, env, o))
            }
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                self.place(b, p),
                matches!(bk, mir::BorrowKind::Mut { .. })
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(b, p)),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", self.place(b, p), m.is_mut())
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&b.local_decls, tcx);
                let ks = format!("{k:?}");
                let (f, t) = (self.ty(from), self.ty(*t));
                format!(
                    "[\"cast\",{},{},{f},{t}]",
                    js(ks.split('(').next().unwrap_or("")),
                    self.operand(b, env, o)
                )
            }
            Rvalue::BinaryOp(op, bx) => {
                let t = bx.0.ty(&b.local_decls, tcx);
                let t = self.ty(t);
                format!(
                    "[\"bin\",{},{},{},{t}]",
                    js(&format!("{op:?}")),
                    self.operand(b, env, &bx.0),
                    self.operand(b, env, &bx.1)
                )
            }
            Rvalue::UnaryOp(op, o) => format!(
                "[\"un\",{},{}]",
                js(&format!("{op:?}")),
                self.operand(b, env, o)
            ),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_enum() {
                        for (i, disc) in d.discriminants(tcx) {
                            vs.push(format!("[{},{}]", disc.val, js(d.variant(i).name.as_str())));
                        }
                    }
                }
                let ti = self.ty(t);
                format!("[\"disc\",{},[{}],{ti}]", self.place(b, p), vs.join(","))
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(b, env, o)).collect();
                let os = os.join(",");
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",[{os}]]"),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",[{os}]]"),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let fs: Vec<String> = var.fields.iter().map(|f| js(f.name.as_str())).collect();
                        format!(
                            "[\"agg\",\"adt\",[{os}],{},{},[{}],{}]",
                            js(&self.path(*d)),
                            js(var.name.as_str()),
                            fs.join(","),
                            def.is_enum()
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"agg\",\"closure\",[{os}],{},{}]", js(&self.path(*d)), js(&self.key(*d)))
                    }
                    AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        format!("[\"agg\",\"coroutine\",[{os}],{},{}]", js(&self.path(*d)), js(&self.key(*d)))
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"tuple\",[{os}]]"),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(b, p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(b, env, o)),
        }
    }

    fn term(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, t: &TerminatorKind<'tcx>, sp: Span) -> String {
        let n = |bb: BasicBlock| bb.as_usize();
        let un = |u: &mir::UnwindAction| match u {
            mir::UnwindAction::Cleanup(bb) => bb.as_usize().to_string(),
            _ => "null".into(),
        };
        match t {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", n(*target)),
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", n(*real_target)),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", n(*real_target)),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(&b.local_decls, self.tcx);
                let vs: Vec<String> = targets
                    .iter()
                    .map(|(v, bb)| format!("[{v},{}]", n(bb)))
                    .collect();
                let ti = self.ty(dt);
                let exp = self.expn(sp).map(|s| js(&s)).unwrap_or("null".into());
                format!(
                    "[\"sw\",{},[{}],{},{ti},{},{exp}]",
                    self.operand(b, env, discr),
                    vs.join(","),
                    n(targets.otherwise()),
                    js(&self.span(sp))
                )
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unr\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let t = place.ty(&b.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"drop\",{},{},{ti}]", self.place(b, place), n(*target))
            }
            TerminatorKind::Call {
                func,
                args,
                destination,
                target,
                unwind,
                ..
            } => {
                let f = match func {
                    Operand::Constant(c) => self.constant(env, &c.const_),
                    o => self.operand(b, env, o),
                };
                let a: Vec<String> = args.iter().map(|a| self.operand(b, env, &a.node)).collect();
                let exp = self.expn(sp).map(|s| js(&s)).unwrap_or("null".into());
                format!(
                    "[\"call\",{f},[{}],{},{},{},{},{exp}]",
                    a.join(","),
                    self.place(b, destination),
                    target.map(|t| n(t).to_string()).unwrap_or("null".into()),
                    js(&self.span(sp)),
                    un(unwind)
                )
            }
            TerminatorKind::Assert {
                cond,
                expected,
                msg,
                target,
                ..
            } => {
                let (k, ops): (String, Vec<String>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => (
                        "bounds".into(),
                        vec![self.operand(b, env, len), self.operand(b, env, index)],
                    ),
                    AssertKind::Overflow(op, x, y) => (
                        format!("overflow:{op:?}"),
                        vec![self.operand(b, env, x), self.operand(b, env, y)],
                    ),
                    AssertKind::OverflowNeg(x) => ("overflowneg".into(), vec![self.operand(b, env, x)]),
                    AssertKind::DivisionByZero(x) => ("div0".into(), vec![self.operand(b, env, x)]),
                    AssertKind::RemainderByZero(x) => ("rem0".into(), vec![self.operand(b, env, x)]),
                    _ => ("other".into(), vec![]),
                };
                format!(
                    "[\"assert\",{},{expected},{},[{}],{},{}]",
                    self.operand(b, env, cond),
                    js(&k),
                    ops.join(","),
                    n(*target),
                    js(&self.span(sp))
                )
            }
            TerminatorKind::Yield { resume, .. } => format!("[\"yield\",{}]", n(*resume)),
            TerminatorKind::CoroutineDrop => "[\"resume\"]".into(),
            TerminatorKind::TailCall { .. } => "[\"unr\"]".into(),
            TerminatorKind::InlineAsm { .. } => "[\"unr\"]".into(),
        }
    }
}

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(out) = &self.out {
            let mut d = Dump {
                tcx,
                tys: vec![],
                ty_idx: HashMap::new(),
            };
            let bodies = d.bodies();
            let adts = d.adts();
            let impls = d.impls();
            let tys: Vec<String> = d.tys.iter().map(|s| js(s)).collect();
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let s = format!(
                "{{\"crate\":{},\"tys\":[{}],\n\"adts\":{},\n\"impls\":{},\n\"fns\":[{}]}}\n",
                js(&name),
                tys.join(","),
                adts,
                impls,
                bodies.join(",\n")
            );
            let tmp = format!("{out}.tmp");
            std::fs::write(&tmp, s).expect("write facts");
            std::fs::rename(&tmp, out).expect("rename facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: <wrapper> <rustc> args...
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("/rustc")) {
        args.remove(1);
    }
    let crates = std::env::var("FL_FACTS_CRATES").unwrap_or_default();
    let dir = std::env::var("FL_FACTS_OUT").unwrap_or_default();
    let mut name = None;
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = Some(args[i + 1].clone());
        }
        i += 1;
    }
    let is_test = args.iter().any(|a| a == "--test");
    let out = name.and_then(|n| {
        (!is_test && !dir.is_empty() && crates.split(',').any(|c| c == n))
            .then(|| format!("{dir}/{n}.json"))
    });
    let mut cb = Cb { out };
    rustc_driver::install_ice_hook("fl-facts", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
