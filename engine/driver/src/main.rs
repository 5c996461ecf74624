//! mirfacts: a rustc driver that dumps the resolved, borrow-checked MIR of the analysed crate (before drop
//! elaboration and before the coroutine transform, so `await` keeps its source structure) as JSON facts.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver_impl::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::{ExpnKind, Span};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    keys: HashMap<DefId, String>,
    used: HashSet<String>,
    enums: BTreeMap<String, String>,
    queue: VecDeque<DefId>,
    queued: HashSet<DefId>,
    out: Vec<String>,
}

fn is_std_inline(p: &str) -> bool {
    const PRE: &[&str] = &[
        "std::option::Option",
        "std::result::Result",
        "<std::option::Option<",
        "<std::result::Result<",
        "std::ops::ControlFlow",
        "<std::ops::ControlFlow",
        "std::bool::",
        "core::bool::",
        "bool::",
        "std::task::Poll",
        "<std::task::Poll<",
        "<std::ops::ControlFlow<",
    ];
    PRE.iter().any(|x| p.starts_with(x))
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(with_resolve_crate_name!(self.tcx.def_path_str(d)))
    }
    fn tys(&self, t: Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        with_no_trimmed_paths!(with_resolve_crate_name!(t.to_string()))
    }
    fn key(&mut self, d: DefId) -> String {
        if let Some(k) = self.keys.get(&d) {
            return k.clone();
        }
        let base = self.path(d);
        let mut k = base.clone();
        let mut n = 1;
        while self.used.contains(&k) {
            n += 1;
            k = format!("{base}#{n}");
        }
        self.used.insert(k.clone());
        self.keys.insert(d, k.clone());
        k
    }
    fn loc(&self, sp: Span) -> (String, usize, Vec<String>) {
        let mut macs = vec![];
        let mut s = sp;
        let mut guard = 0;
        while s.from_expansion() && guard < 20 {
            let ed = s.ctxt().outer_expn_data();
            match ed.kind {
                ExpnKind::Macro(_, n) => macs.push(n.to_string()),
                ExpnKind::Desugaring(k) => macs.push(format!("desugar:{:?}", k)),
                _ => {}
            }
            s = ed.call_site;
            guard += 1;
        }
        let l = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let f = l.file.name.prefer_local_unconditionally().to_string();
        (f, l.line, macs)
    }
    fn enum_info(&mut self, t: Ty<'tcx>) -> Option<String> {
        if let ty::Adt(ad, _) = t.kind() {
            if ad.is_enum() {
                let n = self.path(ad.did());
                if !self.enums.contains_key(&n) {
                    let mut s = String::from("{");
                    for (i, (vi, d)) in ad.discriminants(self.tcx).enumerate() {
                        if i > 0 {
                            s.push(',');
                        }
                        esc(&d.val.to_string(), &mut s);
                        s.push(':');
                        esc(ad.variant(vi).name.as_str(), &mut s);
                    }
                    s.push('}');
                    self.enums.insert(n.clone(), s);
                }
                return Some(n);
            }
        }
        None
    }
    fn field_name(&self, t: Ty<'tcx>, vi: Option<rustc_abi::VariantIdx>, f: usize) -> (String, String) {
        match t.kind() {
            ty::Adt(ad, _) => {
                let v = match vi {
                    Some(v) => ad.variant(v),
                    None if ad.is_enum() => return (f.to_string(), self.path(ad.did())),
                    None => ad.non_enum_variant(),
                };
                let n = v.fields.iter().nth(f).map(|x| x.name.to_string()).unwrap_or(f.to_string());
                (n, self.path(ad.did()))
            }
            ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                let names = if d.is_local() {
                    self.tcx
                        .closure_saved_names_of_captured_variables(*d)
                        .iter()
                        .nth(f)
                        .map(|s| s.to_string())
                } else {
                    None
                };
                (names.unwrap_or(f.to_string()), "upvar".into())
            }
            _ => (f.to_string(), String::new()),
        }
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>, o: &mut String) {
        let _ = write!(o, "[{}", p.local.as_usize());
        for (pr, e) in p.iter_projections() {
            o.push(',');
            let pty = pr.ty(&body.local_decls, self.tcx);
            match e {
                ProjectionElem::Deref => o.push_str("[\"*\"]"),
                ProjectionElem::Field(f, _) => {
                    let (n, a) = self.field_name(pty.ty, pty.variant_index, f.as_usize());
                    let _ = write!(o, "[\".\",{},", f.as_usize());
                    esc(&n, o);
                    o.push(',');
                    esc(&a, o);
                    o.push(']');
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"sub\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, vi) => {
                    let name = match n {
                        Some(n) => n.to_string(),
                        None => match pty.ty.kind() {
                            ty::Adt(ad, _) => ad.variant(vi).name.to_string(),
                            _ => vi.as_usize().to_string(),
                        },
                    };
                    o.push_str("[\"v\",");
                    esc(&name, o);
                    o.push(']');
                }
                _ => o.push_str("[\"?\"]"),
            }
        }
        o.push(']');
    }
    fn fnref(&mut self, te: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>, o: &mut String) {
        let tcx = self.tcx;
        o.push_str("{\"fn\":");
        let p = self.path(d);
        esc(&p, o);
        let args = tcx.erase_and_anonymize_regions(args);
        o.push_str(",\"a\":[");
        let mut first = true;
        for a in args.iter() {
            if a.as_region().is_some() {
                continue;
            }
            if !first {
                o.push(',');
            }
            first = false;
            let s = if let Some(t) = a.as_type() {
                self.tys(t)
            } else {
                with_no_trimmed_paths!(a.to_string())
            };
            esc(&s, o);
        }
        o.push(']');
        let mut rd = d;
        // an unresolved or virtual call of a trait method does not run the trait's default body in particular
        let mut open = tcx.trait_of_assoc(d).is_some();
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, te, d, args) {
                rd = inst.def_id();
                if let ty::InstanceKind::Virtual(..) = inst.def {
                    o.push_str(",\"dyn\":1");
                } else {
                    open = false;
                }
            }
        }
        if rd != d {
            o.push_str(",\"r\":");
            let p = self.path(rd);
            esc(&p, o);
        }
        if !open && self.want(rd) {
            o.push_str(",\"k\":");
            let k = self.key(rd);
            esc(&k, o);
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                o.push_str(",\"unsafe\":1");
            }
        }
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let pd = tcx.parent(d);
            let (adt, var) = match of {
                rustc_hir::def::CtorOf::Struct => (pd, None),
                rustc_hir::def::CtorOf::Variant => (tcx.parent(pd), Some(pd)),
            };
            o.push_str(",\"ctor\":[");
            let p = self.path(adt);
            esc(&p, o);
            o.push(',');
            match var {
                Some(v) => esc(tcx.item_name(v).as_str(), o),
                None => o.push_str("null"),
            }
            o.push(']');
        }
        o.push('}');
    }
    /// Should the body of `d` be part of the fact base?  Local functions always; std combinators on demand.
    fn want(&mut self, d: DefId) -> bool {
        if let Some(l) = d.as_local() {
            return matches!(self.tcx.def_kind(l), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
                && self.tcx.is_mir_available(d);
        }
        if self.queued.contains(&d) {
            return true;
        }
        let p = self.path(d);
        if is_std_inline(&p)
            && matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
            && self.tcx.is_mir_available(d)
        {
            self.queued.insert(d);
            self.queue.push_back(d);
            return true;
        }
        false
    }
    fn konst(&mut self, te: TypingEnv<'tcx>, c: &ConstOperand<'tcx>, o: &mut String) {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let mut s = String::new();
            #[allow(clippy::all)]
            let a = args.skip_binder_if_needed();
            self.fnref(te, *d, a, &mut s);
            let _ = write!(o, "[\"k\",{s}]");
            return;
        }
        o.push_str("[\"k\",{\"ty\":");
        let ts = self.tys(t);
        esc(&ts, o);
        let mut val = c.const_;
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                o.push_str(",\"promoted\":[");
                let k = self.key(uv.def);
                esc(&k, o);
                let _ = write!(o, ",{}]}}]", p.as_usize());
                return;
            }
            o.push_str(",\"name\":");
            let n = self.path(uv.def);
            esc(&n, o);
            if !uv.args.has_param() {
                if let Ok(v) = c.const_.eval(tcx, te, c.span) {
                    val = Const::Val(v, t);
                }
            }
        }
        if let Const::Val(v, _) = val {
            let mut done = false;
            if t.is_integral() || t.is_bool() || t.is_char() {
                if let Some(b) = v.try_to_bits_for_ty(tcx, te, t) {
                    let s = if t.is_signed() {
                        let sz = tcx.layout_of(te.as_query_input(t)).unwrap().size;
                        sz.sign_extend(b).to_string()
                    } else {
                        b.to_string()
                    };
                    let _ = write!(o, ",\"v\":{s}");
                    done = true;
                }
            } else if t.is_floating_point() {
                if let Some(b) = v.try_to_bits_for_ty(tcx, te, t) {
                    let f = if matches!(t.kind(), ty::Float(ty::FloatTy::F32)) { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) };
                    let _ = write!(o, ",\"s\":\"{f:?}\"");
                    done = true;
                }
            } else if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        o.push_str(",\"s\":");
                        esc(&String::from_utf8_lossy(b), o);
                        done = true;
                    }
                }
            }
            if !done {
                if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                    if let interpret::GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
                        o.push_str(",\"static\":");
                        let n = self.path(d);
                        esc(&n, o);
                    }
                }
                o.push_str(",\"d\":");
                let s = with_no_trimmed_paths!(format!("{}", Const::Val(v, t)));
                esc(&s.chars().take(400).collect::<String>(), o);
            }
        } else if let Const::Ty(_, ct) = val {
            if let Some(b) = val.try_to_scalar_int() {
                let _ = write!(o, ",\"v\":{}", b.to_bits_unchecked());
            } else {
                o.push_str(",\"d\":");
                esc(&ct.to_string(), o);
            }
        }
        o.push_str("}]");
    }
    fn op(&mut self, te: TypingEnv<'tcx>, body: &Body<'tcx>, x: &Operand<'tcx>, o: &mut String) {
        match x {
            Operand::Copy(p) => {
                o.push_str("[\"c\",");
                self.place(body, p, o);
                o.push(']');
            }
            Operand::Move(p) => {
                o.push_str("[\"m\",");
                self.place(body, p, o);
                o.push(']');
            }
            Operand::Constant(c) => self.konst(te, c, o),
            _ => o.push_str("[\"rc\"]"),
        }
    }
    fn rvalue(&mut self, te: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>, o: &mut String) {
        match r {
            Rvalue::Use(x, ..) => {
                o.push_str("[\"use\",");
                self.op(te, body, x, o);
                o.push(']');
            }
            Rvalue::Repeat(x, n) => {
                o.push_str("[\"rep\",");
                self.op(te, body, x, o);
                o.push(',');
                esc(&n.to_string(), o);
                o.push(']');
            }
            Rvalue::Ref(_, k, p) => {
                o.push_str("[\"ref\",");
                self.place(body, p, o);
                o.push_str(match k {
                    BorrowKind::Mut { .. } => ",\"mut\"]",
                    BorrowKind::Shared => ",\"shr\"]",
                    _ => ",\"fake\"]",
                });
            }
            Rvalue::RawPtr(_, p) => {
                o.push_str("[\"ref\",");
                self.place(body, p, o);
                o.push_str(",\"raw\"]");
            }
            Rvalue::Reborrow(_, m, p) => {
                o.push_str("[\"ref\",");
                self.place(body, p, o);
                o.push_str(if m.is_mut() { ",\"mut\"]" } else { ",\"shr\"]" });
            }
            Rvalue::ThreadLocalRef(d) => {
                o.push_str("[\"tls\",");
                let p = self.path(*d);
                esc(&p, o);
                o.push(']');
            }
            Rvalue::Cast(k, x, t) => {
                o.push_str("[\"cast\",");
                esc(&format!("{k:?}"), o);
                o.push(',');
                self.op(te, body, x, o);
                o.push(',');
                let s = self.tys(*t);
                esc(&s, o);
                o.push(',');
                let from = x.ty(&body.local_decls, self.tcx);
                let s = self.tys(from);
                esc(&s, o);
                o.push(']');
            }
            Rvalue::BinaryOp(b, bx) => {
                o.push_str("[\"bin\",");
                esc(&format!("{b:?}"), o);
                o.push(',');
                self.op(te, body, &bx.0, o);
                o.push(',');
                self.op(te, body, &bx.1, o);
                o.push(']');
            }
            Rvalue::UnaryOp(u, x) => {
                o.push_str("[\"un\",");
                esc(&format!("{u:?}"), o);
                o.push(',');
                self.op(te, body, x, o);
                o.push(']');
            }
            Rvalue::Discriminant(p) => {
                o.push_str("[\"disc\",");
                self.place(body, p, o);
                let t = p.ty(&body.local_decls, self.tcx).ty;
                o.push(',');
                match self.enum_info(t) {
                    Some(n) => esc(&n, o),
                    None => o.push_str("null"),
                }
                o.push(']');
            }
            Rvalue::Aggregate(k, fs) => {
                o.push_str("[\"agg\",");
                let mut names: Option<Vec<String>> = None;
                match &**k {
                    AggregateKind::Array(_) => o.push_str("\"array\",null"),
                    AggregateKind::Tuple => o.push_str("\"tuple\",null"),
                    AggregateKind::Adt(d, vi, _, _, af) => {
                        let ad = self.tcx.adt_def(*d);
                        let p = self.path(*d);
                        esc(&p, o);
                        o.push(',');
                        let v = ad.variant(*vi);
                        if ad.is_enum() {
                            esc(v.name.as_str(), o);
                            let t = self.tcx.type_of(*d).instantiate_identity().skip_norm_wip();
                            self.enum_info(t);
                        } else {
                            o.push_str("null");
                        }
                        let mut ns: Vec<String> = v.fields.iter().map(|f| f.name.to_string()).collect();
                        if let Some(f) = af {
                            ns = vec![ns[f.as_usize()].clone()];
                        }
                        names = Some(ns);
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        let kind = match &**k {
                            AggregateKind::Closure(..) => "closure",
                            AggregateKind::Coroutine(..) => "coroutine",
                            _ => "coroclosure",
                        };
                        esc(kind, o);
                        o.push(',');
                        let kk = self.key(*d);
                        esc(&kk, o);
                        if d.is_local() {
                            names = Some(
                                self.tcx
                                    .closure_saved_names_of_captured_variables(*d)
                                    .iter()
                                    .map(|s| s.to_string())
                                    .collect(),
                            );
                        }
                    }
                    AggregateKind::RawPtr(..) => o.push_str("\"rawptr\",null"),
                }
                o.push_str(",[");
                for (i, f) in fs.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push('[');
                    let n = names.as_ref().and_then(|n| n.get(i).cloned()).unwrap_or(i.to_string());
                    esc(&n, o);
                    o.push(',');
                    self.op(te, body, f, o);
                    o.push(']');
                }
                o.push_str("]]");
            }
            Rvalue::CopyForDeref(p) => {
                o.push_str("[\"use\",[\"c\",");
                self.place(body, p, o);
                o.push_str("]]");
            }
            Rvalue::WrapUnsafeBinder(x, _) => {
                o.push_str("[\"use\",");
                self.op(te, body, x, o);
                o.push(']');
            }
        }
    }
    fn body(&mut self, key: &str, owner: DefId, body: &Body<'tcx>, te: TypingEnv<'tcx>, meta: &str) {
        let tcx = self.tcx;
        let mut o = String::with_capacity(1 << 14);
        o.push_str("{\"key\":");
        esc(key, &mut o);
        let (f, l, _) = self.loc(body.span);
        let end = {
            let sp = body.span.source_callsite();
            tcx.sess.source_map().lookup_char_pos(sp.hi()).line
        };
        o.push_str(",\"file\":");
        esc(&f, &mut o);
        let _ = write!(o, ",\"line\":{l},\"end\":{end},\"args\":{}", body.arg_count);
        if let Some(s) = body.spread_arg {
            let _ = write!(o, ",\"spread\":{}", s.as_usize());
        }
        let _ = owner;
        o.push_str(meta);
        o.push_str(",\"locals\":[");
        for (i, d) in body.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let t = self.tys(d.ty);
            esc(&t, &mut o);
        }
        o.push_str("],\"dbg\":[");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if !first {
                    o.push(',');
                }
                first = false;
                o.push('[');
                esc(v.name.as_str(), &mut o);
                o.push(',');
                self.place(body, p, &mut o);
                o.push(']');
            }
        }
        o.push_str("],\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            if bb.is_cleanup {
                o.push_str("null");
                continue;
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let mut s = String::new();
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = r {
                            continue;
                        }
                        s.push_str("[\"=\",");
                        self.place(body, p, &mut s);
                        s.push(',');
                        self.rvalue(te, body, r, &mut s);
                        let (_, l, _) = self.loc(st.source_info.span);
                        let _ = write!(s, ",{l}]");
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        s.push_str("[\"sd\",");
                        self.place(body, place, &mut s);
                        let _ = write!(s, ",{}]", variant_index.as_usize());
                    }
                    StatementKind::StorageDead(l) => {
                        let _ = write!(s, "[\"dead\",{}]", l.as_usize());
                    }
                    _ => continue,
                }
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],\"t\":");
            let term = bb.terminator();
            let (_, line, macs) = self.loc(term.source_info.span);
            match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    let _ = write!(o, "{{\"k\":\"goto\",\"to\":{}", target.as_usize());
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    let _ = write!(o, "{{\"k\":\"goto\",\"to\":{}", real_target.as_usize());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push_str("{\"k\":\"switch\",\"on\":");
                    self.op(te, body, discr, &mut o);
                    o.push_str(",\"ty\":");
                    let t = self.tys(discr.ty(&body.local_decls, tcx));
                    esc(&t, &mut o);
                    o.push_str(",\"c\":[");
                    for (i, (v, b)) in targets.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        let _ = write!(o, "[{},{}]", v, b.as_usize());
                    }
                    let _ = write!(o, "],\"else\":{}", targets.otherwise().as_usize());
                }
                TerminatorKind::Return => o.push_str("{\"k\":\"ret\""),
                TerminatorKind::Unreachable => o.push_str("{\"k\":\"unreachable\""),
                TerminatorKind::Drop { place, target, .. } => {
                    o.push_str("{\"k\":\"drop\",\"p\":");
                    self.place(body, place, &mut o);
                    let _ = write!(o, ",\"to\":{}", target.as_usize());
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    o.push_str("{\"k\":\"call\",\"f\":");
                    self.op(te, body, func, &mut o);
                    o.push_str(",\"args\":[");
                    for (i, a) in args.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        self.op(te, body, &a.node, &mut o);
                    }
                    o.push_str("],\"d\":");
                    self.place(body, destination, &mut o);
                    match target {
                        Some(t) => {
                            let _ = write!(o, ",\"to\":{}", t.as_usize());
                        }
                        None => o.push_str(",\"to\":null"),
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push_str("{\"k\":\"assert\",\"c\":");
                    self.op(te, body, cond, &mut o);
                    let _ = write!(o, ",\"exp\":{expected},\"to\":{}", target.as_usize());
                    let (m, ops): (&str, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![len, index]),
                        AssertKind::Overflow(b, x, y) => (
                            match b {
                                BinOp::Add => "ovf:Add",
                                BinOp::Sub => "ovf:Sub",
                                BinOp::Mul => "ovf:Mul",
                                BinOp::Shl => "ovf:Shl",
                                BinOp::Shr => "ovf:Shr",
                                BinOp::Div => "ovf:Div",
                                BinOp::Rem => "ovf:Rem",
                                _ => "ovf:?",
                            },
                            vec![x, y],
                        ),
                        AssertKind::OverflowNeg(x) => ("ovf:Neg", vec![x]),
                        AssertKind::DivisionByZero(x) => ("div0", vec![x]),
                        AssertKind::RemainderByZero(x) => ("rem0", vec![x]),
                        _ => ("other", vec![]),
                    };
                    o.push_str(",\"m\":");
                    esc(m, &mut o);
                    o.push_str(",\"ops\":[");
                    for (i, a) in ops.into_iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        self.op(te, body, a, &mut o);
                    }
                    o.push(']');
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => {
                    let _ = write!(o, "{{\"k\":\"yield\",\"to\":{},\"p\":", resume.as_usize());
                    self.place(body, resume_arg, &mut o);
                }
                TerminatorKind::InlineAsm { targets, .. } => {
                    let _ = write!(o, "{{\"k\":\"asm\",\"to\":{}", targets.first().map(|t| t.as_usize()).unwrap_or(0));
                }
                k => {
                    o.push_str("{\"k\":");
                    esc(&format!("{k:?}").chars().take(40).collect::<String>(), &mut o);
                }
            }
            let _ = write!(o, ",\"l\":{line}");
            if !macs.is_empty() {
                o.push_str(",\"mac\":[");
                for (i, m) in macs.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(m, &mut o);
                }
                o.push(']');
            }
            o.push_str("}}");
        }
        o.push_str("]}");
        self.out.push(o);
    }
}

trait SkipB<'tcx> {
    fn skip_binder_if_needed(&self) -> ty::GenericArgsRef<'tcx>;
}
impl<'tcx> SkipB<'tcx> for ty::GenericArgsRef<'tcx> {
    fn skip_binder_if_needed(&self) -> ty::GenericArgsRef<'tcx> {
        self
    }
}
impl<'tcx> SkipB<'tcx> for ty::Binder<'tcx, ty::GenericArgsRef<'tcx>> {
    fn skip_binder_if_needed(&self) -> ty::GenericArgsRef<'tcx> {
        self.skip_binder()
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, path: &str) {
    let mut cx = Cx {
        tcx,
        keys: HashMap::new(),
        used: HashSet::new(),
        enums: BTreeMap::new(),
        queue: VecDeque::new(),
        queued: HashSet::new(),
        out: vec![],
    };
    // 1. clone every local body before anything can steal it
    let mut bodies: Vec<(LocalDefId, Body<'tcx>, Vec<Body<'tcx>>, &'static str)> = vec![];
    let mut skipped = 0;
    for d in tcx.hir_body_owners() {
        let dk = tcx.def_kind(d);
        if tcx.is_constructor(d.to_def_id()) {
            continue;
        }
        let kind = match dk {
            DefKind::Fn | DefKind::AssocFn => "fn",
            DefKind::Closure => {
                if tcx.is_coroutine(d.to_def_id()) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::Const | DefKind::AssocConst | DefKind::Static { .. } => "const",
            _ => {
                skipped += 1;
                continue;
            }
        };
        if kind == "const" && tcx.is_trivial_const(d) {
            skipped += 1;
            continue;
        }
        let (b, p) = tcx.mir_promoted(d);
        if b.is_stolen() || p.is_stolen() {
            if kind == "const" {
                skipped += 1;
                continue;
            }
            panic!("mirfacts: body of {} already stolen", tcx.def_path_str(d));
        }
        bodies.push((d, b.borrow().clone(), p.borrow().iter().cloned().collect(), kind));
    }
    // stable naming: order of definition
    for (d, ..) in &bodies {
        cx.key(d.to_def_id());
    }
    let n_local = bodies.len();
    for (d, b, ps, kind) in &bodies {
        let did = d.to_def_id();
        let te = TypingEnv::post_analysis(tcx, did);
        let k = cx.key(did);
        let mut meta = String::new();
        let _ = write!(meta, ",\"kind\":\"{kind}\"");
        let root = tcx.typeck_root_def_id(did);
        if matches!(*kind, "fn") {
            if tcx.asyncness(did).is_async() {
                meta.push_str(",\"async\":1");
            }
            if tcx.fn_sig(did).skip_binder().safety().is_unsafe() {
                meta.push_str(",\"unsafe\":1");
            }
            if tcx.visibility(did).is_public() {
                meta.push_str(",\"pub\":1");
            }
            if tcx.effective_visibilities(()).is_reachable(*d) {
                meta.push_str(",\"reach\":1");
            }
            let tf = &tcx.codegen_fn_attrs(did).target_features;
            if !tf.is_empty() {
                meta.push_str(",\"tf\":[");
                for (i, t) in tf.iter().enumerate() {
                    if i > 0 {
                        meta.push(',');
                    }
                    esc(t.name.as_str(), &mut meta);
                }
                meta.push(']');
            }
        }
        if *kind == "closure" || *kind == "coroutine" {
            meta.push_str(",\"parent\":");
            let pk = cx.key(tcx.parent(did));
            esc(&pk, &mut meta);
        }
        meta.push_str(",\"root\":");
        let rk = cx.key(root);
        esc(&rk, &mut meta);
        if let Some(im) = tcx.impl_of_assoc(root) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            meta.push_str(",\"self_ty\":");
            let s = cx.tys(st);
            esc(&s, &mut meta);
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                meta.push_str(",\"trait\":");
                let s = cx.path(tr.skip_binder().def_id);
                esc(&s, &mut meta);
            }
            if tcx.is_automatically_derived(im) {
                meta.push_str(",\"derived\":1");
            }
        }
        cx.body(&k, did, b, te, &meta);
        for (i, p) in ps.iter().enumerate() {
            cx.body(&format!("{k}::promoted[{i}]"), did, p, te, ",\"kind\":\"promoted\"");
        }
    }
    // 2. std combinators, on demand
    let mut n_std = 0;
    while let Some(d) = cx.queue.pop_front() {
        let b = tcx.optimized_mir(d);
        let te = TypingEnv::post_analysis(tcx, d);
        let k = cx.key(d);
        cx.body(&k, d, b, te, ",\"kind\":\"std\"");
        n_std += 1;
    }
    // 3. local types
    let mut types = String::from("{");
    let mut first = true;
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
            let ad = tcx.adt_def(id.to_def_id());
            if !first {
                types.push(',');
            }
            first = false;
            let p = cx.path(id.to_def_id());
            esc(&p, &mut types);
            types.push_str(":{\"vs\":[");
            for (i, v) in ad.variants().iter().enumerate() {
                if i > 0 {
                    types.push(',');
                }
                types.push('[');
                esc(v.name.as_str(), &mut types);
                for f in v.fields.iter() {
                    types.push_str(",[");
                    esc(f.name.as_str(), &mut types);
                    types.push(',');
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let s = cx.tys(t);
                    esc(&s, &mut types);
                    let _ = write!(types, ",{}]", if f.vis.is_public() { 1 } else { 0 });
                }
                types.push(']');
            }
            let _ = write!(types, "],\"enum\":{}}}", ad.is_enum());
            if ad.is_enum() {
                let t = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
                cx.enum_info(t);
            }
        }
    }
    types.push('}');
    let mut o = String::from("{\"bodies\":[\n");
    o.push_str(&cx.out.join(",\n"));
    o.push_str("\n],\"enums\":{");
    for (i, (k, v)) in cx.enums.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        esc(k, &mut o);
        o.push(':');
        o.push_str(v);
    }
    let _ = write!(o, "}},\"types\":{types},\"n_local\":{n_local},\"n_std\":{n_std},\"skipped\":{skipped},\"crate\":");
    esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str(), &mut o);
    o.push('}');
    let tmp = format!("{path}.tmp{}", std::process::id());
    std::fs::write(&tmp, o).expect("write facts");
    std::fs::rename(&tmp, path).expect("rename facts");
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver_impl::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(dir) = &self.out {
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
            dump(tcx, &format!("{dir}/{name}.json"));
        }
        Compilation::Continue
    }
}

fn main() {
    let mut a: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [mirfacts, rustc, args...]
    a.remove(0);
    let mut out = std::env::var("MIRFACTS_OUT").ok();
    let is_probe = a.iter().any(|x| x == "--print" || x == "-vV" || x.starts_with("--print="));
    let krate = a.iter().position(|x| x == "--crate-name").map(|i| a[i + 1].clone());
    let want = std::env::var("MIRFACTS_CRATES").unwrap_or("pmcp".into());
    let ok = krate.map(|k| want.split(',').any(|w| w == k)).unwrap_or(false);
    if is_probe || !ok {
        out = None;
    }
    rustc_driver_impl::compiler_entrypoint(&a, &mut Cb { out });
}
