// Fact extractor: a rustc driver that compiles the crate exactly as cargo asks
// and, for the workspace crate `sieve`, writes the resolved program (MIR after
// drop elaboration, ADTs, impls, unsafe blocks) as one JSON document.
//
// Used as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...].
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.debug_assertions = false;
        config.opts.cg.overflow_checks = Some(true);
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.incremental = None;
    }

    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let s = Dump::new(tcx).run();
        std::fs::write(&self.out, s).expect("write facts");
        Compilation::Continue
    }
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, DefId>,
    strs: BTreeSet<String>,
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dump { tcx, adts: BTreeMap::new(), strs: BTreeSet::new() }
    }

    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    /// Unique id. Impl blocks are named by what they implement, not by index, so
    /// that adding an impl elsewhere does not rename unrelated functions.
    fn id(&self, d: DefId) -> String {
        let tcx = self.tcx;
        match tcx.def_kind(d) {
            DefKind::Closure => {
                let p = tcx.parent(d);
                let key = tcx.def_key(d);
                format!("{}::{{closure#{}}}", self.id(p), key.disambiguated_data.disambiguator)
            }
            _ => self.path(d),
        }
    }

    fn note_adt(&mut self, d: DefId) -> String {
        let p = self.path(d);
        self.adts.entry(p.clone()).or_insert(d);
        p
    }

    fn ty(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(def, args) => {
                let p = self.note_adt(def.did());
                let a: Vec<String> = args.types().map(|t| self.ty(t)).collect();
                format!("[\"adt\",{},{}]", js(&p), arr(a))
            }
            ty::Ref(_, t, m) => {
                format!("[\"ref\",{},{}]", if m.is_mut() { 1 } else { 0 }, self.ty(*t))
            }
            ty::RawPtr(t, m) => {
                format!("[\"ptr\",{},{}]", if m.is_mut() { 1 } else { 0 }, self.ty(*t))
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|t| self.ty(t)).collect();
                format!("[\"tuple\",{}]", arr(a))
            }
            ty::Slice(t) => format!("[\"slice\",{}]", self.ty(*t)),
            ty::Array(t, n) => match n.try_to_target_usize(self.tcx).or_else(|| {
                self.tcx
                    .try_normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), ty::Unnormalized::new(*n))
                    .ok()
                    .and_then(|n| n.try_to_target_usize(self.tcx))
            }) {
                Some(n) => format!("[\"array\",{},{}]", self.ty(*t), n),
                None => format!("[\"array\",{}]", self.ty(*t)),
            },
            ty::Closure(d, _) => format!("[\"closure\",{}]", js(&self.id(*d))),
            ty::FnDef(d, _) => format!("[\"fndef\",{}]", js(&self.id(*d))),
            ty::FnPtr(..) => "[\"fnptr\"]".to_string(),
            ty::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("[\"dyn\",{}]", js(&p))
            }
            ty::Param(p) => format!("[\"param\",{}]", js(p.name.as_str())),
            ty::Alias(..) => "[\"alias\"]".to_string(),
            _ => format!("[\"prim\",{}]", js(&t.to_string())),
        }
    }

    fn span(&self, s: Span) -> (String, usize) {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let name = lo.file.name.prefer_local_unconditionally().to_string();
        (name, lo.line)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut out = Vec::new();
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            let e = match elem {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, _) => match pt.ty.kind() {
                    ty::Adt(def, _) => {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        let v = def.variant(vi);
                        let adt = self.note_adt(def.did());
                        let owner = if def.is_enum() {
                            format!("{}::{}", adt, v.name)
                        } else {
                            adt
                        };
                        format!(
                            "[\"f\",{},{},{}]",
                            f.index(),
                            js(v.fields[f].name.as_str()),
                            js(&owner)
                        )
                    }
                    ty::Closure(d, _) => {
                        let d = *d;
                        format!("[\"f\",{},\"upvar{}\",{}]", f.index(), f.index(), js(&self.id(d)))
                    }
                    _ => format!("[\"f\",{},\"{}\",\"\"]", f.index(), f.index()),
                },
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, vi) => match pt.ty.kind() {
                    ty::Adt(def, _) => {
                        let adt = self.note_adt(def.did());
                        format!(
                            "[\"d\",{},{},{}]",
                            vi.index(),
                            js(def.variant(vi).name.as_str()),
                            js(&adt)
                        )
                    }
                    _ => format!("[\"d\",{},\"\",\"\"]", vi.index()),
                },
                _ => "[\"?\"]".to_string(),
            };
            out.push(e);
            pt = pt.projection_ty(tcx, elem);
        }
        format!("[{},{}]", p.local.index(), arr(out))
    }

    fn const_val(&mut self, owner: LocalDefId, c: &Const<'tcx>, span: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return self.fnref(owner, *d, args.no_bound_vars().unwrap());
        }
        let tys = self.ty(t);
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!(
                    "{{\"ty\":{},\"promoted\":{}}}",
                    tys,
                    js(&format!("{}::promoted[{}]", self.id(u.def), p.index()))
                );
            }
        }
        let name = match c {
            Const::Unevaluated(u, _) => format!(",\"item\":{}", js(&self.path(u.def))),
            _ => String::new(),
        };
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        let v = match c.eval(tcx, env, span) {
            Ok(v) => v,
            Err(_) => return format!("{{\"ty\":{}{}}}", tys, name),
        };
        let mut val = String::new();
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(i) = v.try_to_scalar_int() {
                    let size = i.size();
                    let n: String = if t.is_signed() {
                        i.to_int(size).to_string()
                    } else {
                        i.to_uint(size).to_string()
                    };
                    val = format!(",\"int\":{}", n);
                }
            }
            ty::Float(_) => {
                if let Some(i) = v.try_to_scalar_int() {
                    val = format!(",\"fbits\":{}", i.to_uint(i.size()));
                }
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    let s = String::from_utf8_lossy(b).into_owned();
                    val = format!(",\"str\":{}", js(&s));
                    self.strs.insert(s);
                }
            }
            ty::Ref(_, inner, _)
                if matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) =>
            {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    val = format!(",\"bytes\":{}", js(&latin(b)));
                }
            }
            ty::Ref(_, inner, _)
                if matches!(inner.kind(), ty::Array(e, _) if *e == tcx.types.u8) =>
            {
                if let Some(Scalar::Ptr(p, _)) = v.try_to_scalar() {
                    let (prov, off) = p.prov_and_relative_offset();
                    if let Some(GlobalAlloc::Memory(a)) =
                        tcx.try_get_global_alloc(prov.alloc_id())
                    {
                        let a = a.inner();
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                            off.bytes() as usize..a.len(),
                        );
                        val = format!(",\"bytes\":{}", js(&latin(b)));
                    }
                }
            }
            ty::Adt(def, _) if def.is_enum() => {
                if let Some(i) = v.try_to_scalar_int() {
                    let size = i.size();
                    val = format!(",\"enumint\":{}", i.to_uint(size));
                }
            }
            _ => (),
        }
        format!("{{\"ty\":{}{}{}}}", tys, val, name)
    }

    fn fnref(&mut self, owner: LocalDefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"fn\":{}", js(&self.id(d)));
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let env = ty::TypingEnv::post_analysis(tcx, owner);
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, args) {
                let rd = i.def_id();
                if rd != d {
                    let _ = write!(o, ",\"res\":{}", js(&self.id(rd)));
                }
                if rd.is_local() {
                    o.push_str(",\"local\":1");
                }
            } else {
                o.push_str(",\"unres\":1");
                if d.is_local() {
                    o.push_str(",\"local\":1");
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(o, ",\"trait\":{}", js(&self.path(tr)));
                if let Some(t) = args.types().next() {
                    let s = self.ty(t);
                    let _ = write!(o, ",\"self\":{}", s);
                }
            }
            if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                o.push_str(",\"unsafe\":1");
            }
        } else if matches!(kind, DefKind::Ctor(..)) {
            o.push_str(",\"ctor\":1");
        }
        let ta: Vec<String> = args.types().map(|t| self.ty(t)).collect();
        let _ = write!(o, ",\"targs\":{}", arr(ta));
        o.push('}');
        o
    }

    fn operand(&mut self, owner: LocalDefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.const_val(owner, &c.const_, c.span)),
            _ => "[\"rt\"]".to_string(),
        }
    }

    fn rvalue(&mut self, owner: LocalDefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(owner, body, o)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", self.operand(owner, body, o)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m as u8, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{}]",
                js(&format!("{k:?}").split('(').next().unwrap()),
                self.operand(owner, body, o),
                self.ty(*t)
            ),
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",{},{},{}]",
                js(&format!("{op:?}")),
                self.operand(owner, body, &ab.0),
                self.operand(owner, body, &ab.1)
            ),
            Rvalue::UnaryOp(op, o) => format!(
                "[\"un\",{},{}]",
                js(&format!("{op:?}")),
                self.operand(owner, body, o)
            ),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let a = match t.ty_adt_def() {
                    Some(d) => self.path(d.did()),
                    None => String::new(),
                };
                format!("[\"discr\",{},{}]", self.place(body, p), js(&a))
            }
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => "\"array\",\"\",\"\",[]".to_string(),
                    AggregateKind::Tuple => "\"tuple\",\"\",\"\",[]".to_string(),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let p = self.note_adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        let fs: Vec<String> =
                            v.fields.iter().map(|f| js(f.name.as_str())).collect();
                        format!("\"adt\",{},{},{}", js(&p), js(v.name.as_str()), arr(fs))
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("\"closure\",{},\"\",[]", js(&self.id(*d)))
                    }
                    _ => "\"other\",\"\",\"\",[]".to_string(),
                };
                let os: Vec<String> = ops.iter().map(|o| self.operand(owner, body, o)).collect();
                format!("[\"agg\",{},{}]", kind, arr(os))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn body(&mut self, owner: LocalDefId, id: String, body: &Body<'tcx>, kind: &str) -> String {
        let tcx = self.tcx;
        let (file, line) = self.span(body.span);
        let mut o = format!(
            "{{\"id\":{},\"kind\":{},\"file\":{},\"line\":{},\"argc\":{}",
            js(&id),
            js(kind),
            js(&file),
            line,
            body.arg_count
        );
        let did = owner.to_def_id();
        if kind == "closure" {
            let _ = write!(o, ",\"parent\":{}", js(&self.id(tcx.parent(did))));
        }
        if kind == "fn" {
            let _ = write!(o, ",\"pub\":{}", tcx.visibility(did).is_public());
            let exported = tcx.effective_visibilities(()).is_exported(owner);
            let _ = write!(o, ",\"exported\":{}", exported);
            let _ = write!(o, ",\"name\":{}", js(tcx.item_name(did).as_str()));
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let self_ty = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let s = self.ty(self_ty);
                let _ = write!(o, ",\"self\":{}", s);
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let p = self.path(tr.skip_binder().def_id);
                    let _ = write!(o, ",\"trait\":{}", js(&p));
                    if tcx.is_automatically_derived(imp) {
                        o.push_str(",\"derived\":1");
                    }
                }
            }
            if tcx.fn_sig(did).skip_binder().safety().is_unsafe() {
                o.push_str(",\"unsafe\":1");
            }
        }
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.index()).or_insert(v.name.to_string());
                }
            }
        }
        o.push_str(",\"locals\":[");
        for (i, l) in body.local_decls.iter_enumerated() {
            if i.index() > 0 {
                o.push(',');
            }
            let t = self.ty(l.ty);
            let n = names.get(&i.index()).map(|n| js(n)).unwrap_or("null".into());
            let _ = write!(o, "[{},{},{}]", t, n, l.mutability.is_mut() as u8);
        }
        o.push_str("],\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.index() > 0 {
                o.push(',');
            }
            let mut ss = Vec::new();
            for s in &bb.statements {
                let l = self.span(s.source_info.span).1;
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(owner, body, &b.1);
                        ss.push(format!("[\"=\",{},{},{}]", p, r, l));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        ss.push(format!("[\"sd\",{},{},{}]", p, variant_index.index(), l));
                    }
                    _ => (),
                }
            }
            let term = bb.terminator();
            let l = self.span(term.source_info.span).1;
            let exp = term.source_info.span.from_expansion();
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(owner, body, discr);
                    let dty = discr.ty(&body.local_decls, tcx);
                    let signed = dty.is_signed();
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            let n = if signed {
                                let size = tcx
                                    .layout_of(ty::TypingEnv::post_analysis(tcx, owner).as_query_input(dty))
                                    .unwrap()
                                    .size;
                                size.sign_extend(v).to_string()
                            } else {
                                v.to_string()
                            };
                            format!("[{},{}]", n, b.index())
                        })
                        .collect();
                    let dt = self.ty(dty);
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        d,
                        arr(ts),
                        targets.otherwise().index(),
                        dt
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "[\"resume\"]".into()
                }
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(body, place), target.index())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(owner, body, func);
                    let a: Vec<String> =
                        args.iter().map(|a| self.operand(owner, body, &a.node)).collect();
                    let d = self.place(body, destination);
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        arr(a),
                        d,
                        target.map(|t| t.index().to_string()).unwrap_or("null".into()),
                        exp as u8
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(owner, body, cond);
                    let (k, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{op:?}"), vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![a]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![a]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![a]),
                        _ => ("other".into(), vec![]),
                    };
                    let os: Vec<String> =
                        ops.into_iter().map(|o| self.operand(owner, body, o)).collect();
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        c,
                        expected,
                        js(&k),
                        arr(os),
                        target.index()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                _ => "[\"other\"]".into(),
            };
            let _ = write!(
                o,
                "{{\"s\":{},\"t\":{},\"l\":{},\"x\":{}}}",
                arr(ss),
                t,
                l,
                bb.is_cleanup as u8
            );
        }
        o.push_str("]}");
        o
    }

    fn adt(&mut self, p: &str, d: DefId) -> String {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let mut o = format!(
            "{{\"path\":{},\"local\":{},\"enum\":{}",
            js(p),
            d.is_local(),
            def.is_enum()
        );
        if d.is_local() {
            let (f, l) = self.span(tcx.def_span(d));
            let _ = write!(o, ",\"file\":{},\"line\":{}", js(&f), l);
        }
        let discrs: Vec<String> = if def.is_enum() {
            def.discriminants(tcx).map(|(_, d)| d.val.to_string()).collect()
        } else {
            vec!["0".into()]
        };
        let gen: Vec<String> = tcx
            .generics_of(d)
            .own_params
            .iter()
            .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
            .map(|p| js(p.name.as_str()))
            .collect();
        let _ = write!(o, ",\"generics\":{}", arr(gen));
        let mut vs = Vec::new();
        for (i, v) in def.variants().iter().enumerate() {
            let mut fs = Vec::new();
            for f in &v.fields {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let ts = if d.is_local() { self.ty(t) } else { "null".into() };
                fs.push(format!(
                    "[{},{},{}]",
                    js(f.name.as_str()),
                    ts,
                    tcx.visibility(f.did).is_public()
                ));
            }
            vs.push(format!(
                "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                js(v.name.as_str()),
                discrs.get(i).cloned().unwrap_or("0".into()),
                arr(fs)
            ));
        }
        let _ = write!(o, ",\"variants\":{}}}", arr(vs));
        o
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut bodies = Vec::new();
        let mut unsafes = Vec::new();
        let mut statics = Vec::new();
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        owners.sort_by_key(|d| self.id(d.to_def_id()));
        for d in owners {
            let did = d.to_def_id();
            let kind = tcx.def_kind(did);
            // unsafe blocks
            let hbody = tcx.hir_body_owned_by(d);
            let mut v = UnsafeVis { found: Vec::new() };
            v.visit_body(hbody);
            for s in v.found {
                let (f, l) = self.span(s);
                unsafes.push(format!("[{},{},{}]", js(&self.id(did)), js(&f), l));
            }
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let id = self.id(did);
                    let b = tcx.optimized_mir(did);
                    let k = if matches!(kind, DefKind::Closure) { "closure" } else { "fn" };
                    bodies.push(self.body(d, id.clone(), b, k));
                    for (i, pb) in tcx.promoted_mir(did).iter_enumerated() {
                        bodies.push(self.body(
                            d,
                            format!("{}::promoted[{}]", id, i.index()),
                            pb,
                            "promoted",
                        ));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let id = self.id(did);
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let ts = self.ty(t);
                    let (f, l) = self.span(tcx.def_span(did));
                    if let DefKind::Static { mutability, .. } = kind {
                        statics.push(format!(
                            "[{},{},{},{},{}]",
                            js(&id),
                            mutability.is_mut(),
                            ts,
                            js(&f),
                            l
                        ));
                    }
                    let b = tcx.mir_for_ctfe(did);
                    bodies.push(self.body(d, id.clone(), b, "const"));
                    for (i, pb) in tcx.promoted_mir(did).iter_enumerated() {
                        bodies.push(self.body(
                            d,
                            format!("{}::promoted[{}]", id, i.index()),
                            pb,
                            "promoted",
                        ));
                    }
                }
                _ => (),
            }
        }
        // impls
        let mut impls = Vec::new();
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let s = self.ty(st);
                    let tr = tcx
                        .impl_opt_trait_ref(did)
                        .map(|t| js(&self.path(t.skip_binder().def_id)))
                        .unwrap_or("null".into());
                    let items: Vec<String> = tcx
                        .associated_item_def_ids(did)
                        .iter()
                        .map(|d| js(&self.id(*d)))
                        .collect();
                    let (f, l) = self.span(tcx.def_span(did));
                    impls.push(format!(
                        "{{\"self\":{},\"trait\":{},\"items\":{},\"derived\":{},\"file\":{},\"line\":{}}}",
                        s,
                        tr,
                        arr(items),
                        tcx.is_automatically_derived(did),
                        js(&f),
                        l
                    ));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    self.note_adt(did);
                }
                _ => (),
            }
        }
        // ADT closure
        let mut done: BTreeMap<String, String> = BTreeMap::new();
        loop {
            let todo: Vec<(String, DefId)> = self
                .adts
                .iter()
                .filter(|(k, _)| !done.contains_key(*k))
                .map(|(k, v)| (k.clone(), *v))
                .collect();
            if todo.is_empty() {
                break;
            }
            for (p, d) in todo {
                let s = self.adt(&p, d);
                done.insert(p, s);
            }
        }
        format!(
            "{{\"crate\":{},\"bodies\":{},\n\"adts\":{},\n\"impls\":{},\n\"unsafe\":{},\n\"statics\":{}}}",
            js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            format!("[{}]", bodies.join(",\n")),
            arr(done.into_values()),
            arr(impls),
            arr(unsafes),
            arr(statics)
        )
    }
}

fn latin(b: &[u8]) -> String {
    b.iter().map(|&b| b as char).collect()
}

struct UnsafeVis {
    found: Vec<Span>,
}

impl<'v> Visitor<'v> for UnsafeVis {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) =
            b.rules
        {
            self.found.push(b.span);
        }
        intravisit::walk_block(self, b);
    }
}

use rustc_middle::mir::interpret::Scalar;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper protocol: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned();
    let out = std::env::var("SV_FACTS").ok();
    match (crate_name.as_deref(), out) {
        (Some("sieve"), Some(out)) => {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        }
        _ => {
            struct Nop;
            impl rustc_driver::Callbacks for Nop {}
            rustc_driver::compiler_entrypoint(&args, &mut Nop);
        }
    }
}
