//! Compiler driver: type-checks one crate and writes its MIR (with resolved
//! callees, field names and spans) as JSON.  It inspects; it never runs the
//! analysed code.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{PrintTraitRefExt as _, with_no_trimmed_paths};
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyjson: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    /// Unique, crate-qualified path (impl blocks numbered).
    fn upath(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(p.krate), p.to_string_no_crate_verbose())
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args
            .iter()
            .filter_map(|a| match a.kind() {
                ty::GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
                ty::GenericArgKind::Const(c) => Some(esc(&format!("{c}"))),
                ty::GenericArgKind::Lifetime(_) => None,
                #[allow(unreachable_patterns)]
                _ => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tyjson.len();
        self.tys.insert(t, i);
        self.tyjson.push(String::new());
        let s = with_no_trimmed_paths!(format!("{t}"));
        let j = match t.kind() {
            ty::Adt(d, a) => format!(
                "{{\"k\":\"adt\",\"path\":{},\"args\":{},\"s\":{}}}",
                esc(&self.path(d.did())),
                self.args(a),
                esc(&s)
            ),
            ty::Ref(_, t, m) => format!(
                "{{\"k\":\"ref\",\"t\":{},\"mut\":{},\"s\":{}}}",
                self.ty(*t),
                m.is_mut(),
                esc(&s)
            ),
            ty::RawPtr(t, m) => format!(
                "{{\"k\":\"ptr\",\"t\":{},\"mut\":{},\"s\":{}}}",
                self.ty(*t),
                m.is_mut(),
                esc(&s)
            ),
            ty::Slice(t) | ty::Array(t, _) => {
                format!("{{\"k\":\"seq\",\"t\":{},\"s\":{}}}", self.ty(*t), esc(&s))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"ts\":[{}],\"s\":{}}}", v.join(","), esc(&s))
            }
            ty::Closure(d, _) => format!(
                "{{\"k\":\"closure\",\"fn\":{},\"s\":{}}}",
                esc(&self.upath(*d)),
                esc(&s)
            ),
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                format!(
                    "{{\"k\":\"fndef\",\"path\":{},\"fn\":{},\"args\":{},\"s\":{}}}",
                    esc(&self.path(*d)),
                    esc(&self.upath(*d)),
                    self.args(a),
                    esc(&s)
                )
            }
            ty::Param(p) => {
                format!("{{\"k\":\"param\",\"name\":{},\"s\":{}}}", esc(p.name.as_str()), esc(&s))
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("{{\"k\":\"prim\",\"s\":{}}}", esc(&s))
            }
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&s)),
        };
        self.tyjson[i] = j;
        i
    }

    fn span(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        (
            format!(
                "{}",
                loc.file.name.prefer_local_unconditionally()
            ),
            loc.line,
        )
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = String::new();
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            if !out.is_empty() {
                out.push(',');
            }
            match e {
                ProjectionElem::Deref => out.push_str("[\"*\"]"),
                ProjectionElem::Field(f, fty) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi_first());
                            if d.variants().len() > v.as_usize() {
                                d.variant(v).fields[f].name.to_string()
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let t = self.ty(fty);
                    let _ = write!(out, "[\"f\",{},{},{}]", f.as_usize(), esc(&name), t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(out, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(out, "[\"ci\",{offset},{min_length},{from_end}]");
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(out, "[\"ss\",{from},{to},{from_end}]");
                }
                ProjectionElem::Downcast(n, v) => {
                    let n = n.map(|n| n.to_string()).unwrap_or_default();
                    let _ = write!(out, "[\"d\",{},{}]", v.as_usize(), esc(&n));
                }
                _ => out.push_str("[\"other\"]"),
            }
            pty = pty.projection_ty(self.tcx, e);
        }
        format!("[{},[{}]]", p.local.as_usize(), out)
    }

    fn constant(&mut self, body: &Body<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut extra = String::new();
        if let ty::FnDef(d, a) = t.kind() {
            extra = format!(",\"callee\":{}", self.callee(body, *d, a.skip_binder()));
        } else {
            let env = body.typing_env(tcx);
            if let Some(s) = c.const_.try_eval_scalar_int(tcx, env) {
                let signed = matches!(t.kind(), ty::Int(_));
                if signed {
                    let v = s.to_int(s.size());
                    extra = format!(",\"v\":{v}");
                } else {
                    let v = s.to_bits(s.size());
                    extra = format!(",\"v\":{v}");
                }
            }
            if let Const::Unevaluated(u, _) = c.const_ {
                if u.promoted.is_none() {
                    extra.push_str(&format!(",\"cpath\":{}", esc(&self.path(u.def))));
                } else {
                    extra.push_str(&format!(",\"promoted\":{}", u.promoted.unwrap().as_usize()));
                }
            }
            extra.push_str(&format!(
                ",\"s\":{}",
                esc(&with_no_trimmed_paths!(format!("{}", c.const_)))
            ));
        }
        format!("[\"const\",{{\"ty\":{ti}{extra}}}]")
    }

    fn callee(&mut self, body: &Body<'tcx>, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!(
            "{{\"path\":{},\"fn\":{},\"args\":{}",
            esc(&self.path(d)),
            esc(&self.upath(d)),
            self.args(a)
        );
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr)));
        }
        let env = body.typing_env(tcx);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
            && let Ok(er) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                ty::Instance::try_resolve(tcx, env, d, a)
            }))
            && let Ok(Some(inst)) = er
        {
            let rd = inst.def_id();
            let virt = matches!(inst.def, ty::InstanceKind::Virtual(..));
            if rd != d && !virt {
                let _ = write!(
                    o,
                    ",\"rpath\":{},\"rfn\":{},\"rargs\":{}",
                    esc(&self.path(rd)),
                    esc(&self.upath(rd)),
                    self.args(inst.args)
                );
            }
        }
        o.push('}');
        o
    }

    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(body, p)),
            Operand::Constant(c) => self.constant(body, c),
            _ => "[\"rtcheck\"]".to_string(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(body, o), esc(&format!("{n}")))
            }
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                esc(match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                }),
                self.place(body, p)
            ),
            Rvalue::RawPtr(k, p) => {
                format!("[\"rawptr\",{},{}]", esc(&format!("{k:?}")), self.place(body, p))
            }
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{}]",
                esc(&format!("{k:?}")),
                self.operand(body, o),
                self.ty(*t)
            ),
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{b:?}")),
                self.operand(body, &ops.0),
                self.operand(body, &ops.1)
            ),
            Rvalue::UnaryOp(u, o) => {
                format!("[\"un\",{},{}]", esc(&format!("{u:?}")), self.operand(body, o))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(body, o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, fi) => {
                        let ad = self.tcx.adt_def(*d);
                        let vr = ad.variant(*v);
                        let names: Vec<String> =
                            vr.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!(
                            "[\"adt\",{},{},{},[{}],{},{}]",
                            esc(&self.path(*d)),
                            v.as_usize(),
                            esc(vr.name.as_str()),
                            names.join(","),
                            fi.map(|f| f.as_usize() as i64).unwrap_or(-1),
                            ad.is_enum()
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"closure\",{}]", esc(&self.upath(*d)))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, v.join(","))
            }
            _ => "[\"other\"]".to_string(),
        }
    }

    fn unwind(u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.as_usize().to_string(),
            UnwindAction::Continue => "\"continue\"".into(),
            UnwindAction::Unreachable => "\"unreachable\"".into(),
            UnwindAction::Terminate(_) => "\"terminate\"".into(),
        }
    }

    fn body_json(&mut self, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(o, "\"argc\":{},\"locals\":[", body.arg_count);
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    let pj = self.place(body, p);
                    upnames.push(format!("[{},{}]", esc(v.name.as_str()), pj));
                }
            }
        }
        for (i, (l, d)) in body.local_decls.iter_enumerated().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let t = self.ty(d.ty);
            let nd = body.local_decls[l].ty.needs_drop(tcx, body.typing_env(tcx));
            match names.get(&l.as_usize()) {
                Some(n) => {
                    let _ = write!(o, "[{t},{},{nd}]", esc(n));
                }
                None => {
                    let _ = write!(o, "[{t},null,{nd}]");
                }
            }
        }
        let _ = write!(o, "],\"dbg\":[{}],\"blocks\":[", upnames.join(","));
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"cleanup\":{},\"s\":[", bb.is_cleanup);
            let mut first = true;
            for st in &bb.statements {
                let (_, line) = self.span(st.source_info.span);
                let j = match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        format!(
                            "[\"=\",{},{},{line}]",
                            self.place(body, p),
                            self.rvalue(body, r)
                        )
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!(
                        "[\"setd\",{},{},{line}]",
                        self.place(body, place),
                        variant_index.as_usize()
                    ),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => {
                            format!("[\"assume\",{},{line}]", self.operand(body, op))
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => format!(
                            "[\"copynonoverlapping\",{},{},{},{line}]",
                            self.operand(body, &c.src),
                            self.operand(body, &c.dst),
                            self.operand(body, &c.count)
                        ),
                    },
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&j);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let (_, line) = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", v, b.as_usize()))
                        .collect();
                    format!(
                        "[\"switch\",{},[{}],{},{line}]",
                        self.operand(body, discr),
                        v.join(","),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"terminate\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => format!(
                    "[\"drop\",{},{},{},{line}]",
                    self.place(body, place),
                    target.as_usize(),
                    Self::unwind(unwind)
                ),
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let v: Vec<String> =
                        args.iter().map(|a| self.operand(body, &a.node)).collect();
                    format!(
                        "[\"call\",{},[{}],{},{},{},{line}]",
                        self.operand(body, func),
                        v.join(","),
                        self.place(body, destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        Self::unwind(unwind)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => format!(
                    "[\"assert\",{},{},{},{},{},{line}]",
                    self.operand(body, cond),
                    expected,
                    esc(&format!("{msg:?}").chars().take_while(|c| *c != '(' && *c != '{').collect::<String>()),
                    target.as_usize(),
                    Self::unwind(unwind)
                ),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                _ => "[\"other\"]".into(),
            };
            o.push_str(&tj);
            o.push('}');
        }
        o.push(']');
        o
    }
}

fn rustc_abi_first() -> rustc_abi::VariantIdx {
    rustc_abi::VariantIdx::from_u32(0)
}
extern crate rustc_abi;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut cx = Cx { tcx, tys: HashMap::new(), tyjson: vec![] };
        let mut fns: Vec<String> = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let isfn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let isconst = matches!(
                kind,
                DefKind::Const { .. }
                    | DefKind::AssocConst { .. }
                    | DefKind::Static { .. }
                    | DefKind::AnonConst
            );
            // `const { }` blocks and the like, not array lengths
            if kind == DefKind::AnonConst && !tcx.is_typeck_child(d) {
                continue;
            }
            if !isfn && !isconst {
                continue;
            }
            let body: &Body<'tcx> =
                if isfn { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(d) };
            let (file, line) = cx.span(tcx.def_span(d));
            let mut meta = format!(
                "\"path\":{},\"fn\":{},\"kind\":{},\"file\":{},\"line\":{line}",
                esc(&cx.path(d)),
                esc(&cx.upath(d)),
                esc(&format!("{kind:?}")),
                esc(&file)
            );
            if kind == DefKind::AssocFn || kind == DefKind::Fn {
                let _ = write!(meta, ",\"vis\":{}", esc(&format!("{:?}", tcx.visibility(d))));
                let sig = tcx.fn_sig(d).skip_binder();
                let _ = write!(meta, ",\"unsafe\":{}", sig.safety().is_unsafe());
            }
            if kind != DefKind::Closure && kind != DefKind::AnonConst {
                let par = tcx.parent(d);
                if matches!(tcx.def_kind(par), DefKind::Impl { .. }) {
                    let st = tcx.type_of(par).skip_binder();
                    let ti = cx.ty(st);
                    let _ = write!(meta, ",\"self\":{ti},\"name\":{}", esc(tcx.item_name(d).as_str()));
                    if let Some(tr) = tcx.impl_opt_trait_ref(par) {
                        let tr = tr.skip_binder();
                        let _ = write!(meta, ",\"trait\":{}", esc(&cx.path(tr.def_id)));
                    }
                } else {
                    let _ = write!(meta, ",\"name\":{}", esc(tcx.item_name(d).as_str()));
                    if matches!(tcx.def_kind(par), DefKind::Trait { .. }) {
                        let _ = write!(meta, ",\"in_trait\":{}", esc(&cx.path(par)));
                    }
                }
            } else {
                let root = tcx.typeck_root_def_id(d);
                let _ = write!(
                    meta,
                    ",\"parent\":{},\"root\":{}",
                    esc(&cx.upath(tcx.parent(d))),
                    esc(&cx.upath(root))
                );
            }
            if isfn {
                let g = tcx.generics_of(d);
                let mut gp = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gp.push(esc(p.name.as_str()));
                    }
                }
                let _ = write!(meta, ",\"gparams\":[{}]", gp.join(","));
            }
            let bj = cx.body_json(body);
            let mut prom = vec![];
            for p in tcx.promoted_mir(d).iter() {
                prom.push(format!("{{{}}}", cx.body_json(p)));
            }
            fns.push(format!("{{{meta},{bj},\"promoted\":[{}]}}", prom.join(",")));
        }
        let mut adts = vec![];
        let mut impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(d);
                    let mut vs = vec![];
                    for v in ad.variants() {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let t = tcx.type_of(f.did).skip_binder();
                                format!(
                                    "[{},{},{}]",
                                    esc(f.name.as_str()),
                                    cx.ty(t),
                                    esc(&format!("{:?}", f.vis))
                                )
                            })
                            .collect();
                        vs.push(format!("[{},[{}]]", esc(v.name.as_str()), fs.join(",")));
                    }
                    let (file, line) = cx.span(tcx.def_span(d));
                    adts.push(format!(
                        "{{\"path\":{},\"kind\":{},\"variants\":[{}],\"file\":{},\"line\":{line},\"repr\":{}}}",
                        esc(&cx.path(d)),
                        esc(&format!("{:?}", tcx.def_kind(d))),
                        vs.join(","),
                        esc(&file),
                        esc(&format!("{:?}", ad.repr()))
                    ));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).skip_binder();
                    let t = cx.ty(st);
                    let (file, line) = cx.span(tcx.def_span(d));
                    let tr = if of_trait {
                        let tr = tcx.impl_opt_trait_ref(d).unwrap().skip_binder();
                        format!("{}", esc(&with_no_trimmed_paths!(format!("{}", tr.print_only_trait_path()))))
                    } else {
                        "null".into()
                    };
                    let items: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|i| format!("[{},{}]", esc(&format!("{:?}", i.opt_name())), esc(&cx.upath(i.def_id))))
                        .collect();
                    impls.push(format!(
                        "{{\"self\":{t},\"trait\":{tr},\"items\":[{}],\"file\":{},\"line\":{line}}}",
                        items.join(","),
                        esc(&file)
                    ));
                }
                _ => {}
            }
        }
        let json = format!(
            "{{\"crate\":{},\"fns\":[\n{}\n],\"adts\":[\n{}\n],\"impls\":[\n{}\n],\"tys\":[\n{}\n]}}",
            esc(&name),
            fns.join(",\n"),
            adts.join(",\n"),
            impls.join(",\n"),
            cx.tyjson.join(",\n")
        );
        std::fs::create_dir_all(&self.out).unwrap();
        std::fs::write(format!("{}/{}.json", self.out, name), json).unwrap();
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    // Invoked by cargo as `mirdump <rustc> <args...>`.
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let cname = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let mine = !out.is_empty() && want.split(',').any(|w| w == cname);
    if mine {
        for x in ["-Zmir-opt-level=0", "-Coverflow-checks=off", "-Cdebug-assertions=off", "-Zalways-encode-mir"] {
            args.push(x.to_string());
        }
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        if mine {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    });
    if format!("{code:?}").contains("(0)") {
        std::process::exit(0)
    }
    std::process::exit(101)
}
