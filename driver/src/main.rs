// Fact extractor: a rustc driver that dumps the type-checked program (MIR as built, with resolved
// callees, ADT layouts and trait impls) of every workspace crate as JSON, one file per crate.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    strs: Vec<String>,
    idx: HashMap<String, usize>,
    paths: HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
    fn intern(&mut self, s: String) -> usize {
        if let Some(i) = self.idx.get(&s) {
            return *i;
        }
        let i = self.strs.len();
        self.strs.push(s.clone());
        self.idx.insert(s, i);
        i
    }

    fn path(&mut self, d: DefId) -> String {
        if let Some(p) = self.paths.get(&d) {
            return p.clone();
        }
        let p = self.path_(d);
        self.paths.insert(d, p.clone());
        p
    }

    fn path_(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let Some(parent) = tcx.opt_parent(d) else {
            return tcx.crate_name(d.krate).to_string();
        };
        match tcx.def_kind(d) {
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let s = match st.kind() {
                    ty::Adt(a, _) if !of_trait => self.path(a.did()),
                    _ => self.ty(st),
                };
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let mut t = self.path(tr.def_id);
                    let args: Vec<String> =
                        tr.args.types().skip(1).map(|t| self.ty(t)).collect();
                    if !args.is_empty() {
                        t = format!("{t}<{}>", args.join(", "));
                    }
                    format!("<{s} as {t}>")
                } else {
                    s
                }
            }
            _ => {
                let pp = self.path(parent);
                let key = tcx.def_key(d);
                let dd = key.disambiguated_data;
                let name = match dd.data.get_opt_name() {
                    Some(n) => {
                        if dd.disambiguator != 0 {
                            format!("{n}#{}", dd.disambiguator)
                        } else {
                            n.to_string()
                        }
                    }
                    None => match tcx.def_kind(d) {
                        DefKind::Closure => format!("{{closure#{}}}", dd.disambiguator),
                        DefKind::Ctor(..) => "{ctor}".to_string(),
                        k => format!("{{{:?}#{}}}", k, dd.disambiguator),
                    },
                };
                format!("{pp}::{name}")
            }
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, args) => {
                let p = self.path(a.did());
                let xs: Vec<String> = args.types().map(|t| self.ty(t)).collect();
                if xs.is_empty() {
                    p
                } else {
                    format!("{p}<{}>", xs.join(", "))
                }
            }
            ty::Ref(_, t, m) => {
                let s = self.ty(*t);
                if m.is_mut() {
                    format!("&mut {s}")
                } else {
                    format!("&{s}")
                }
            }
            ty::RawPtr(t, m) => {
                let s = self.ty(*t);
                if m.is_mut() {
                    format!("*mut {s}")
                } else {
                    format!("*const {s}")
                }
            }
            ty::Tuple(ts) => {
                let xs: Vec<String> = ts.iter().map(|t| self.ty(t)).collect();
                format!("({})", xs.join(", "))
            }
            ty::Slice(t) => format!("[{}]", self.ty(*t)),
            ty::Array(t, _) => {
                let s = self.ty(*t);
                format!("[{s}; N]")
            }
            ty::FnDef(d, args) => {
                let p = self.path(*d);
                let _ = args;
                format!("fn#{p}")
            }
            ty::Closure(d, _) => format!("closure#{}", self.path(*d)),
            ty::Coroutine(d, _) => format!("coroutine#{}", self.path(*d)),
            ty::CoroutineClosure(d, _) => format!("coclosure#{}", self.path(*d)),
            ty::Param(p) => p.name.to_string(),
            ty::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("dyn {p}")
            }
            ty::Alias(..) => {
                // Projections and opaque types.
                let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
                format!("alias#{s}")
            }
            _ => rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t)),
        }
    }

    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        let s = self.ty(t);
        self.intern(s)
    }

    fn line(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        (format!("{}", loc.file.name.prefer_local_unconditionally()), loc.line)
    }

    fn mac(&self, sp: Span) -> String {
        // Names of the macros this span was expanded from, innermost first.
        let mut v = vec![];
        for e in sp.macro_backtrace() {
            if let rustc_span::hygiene::ExpnKind::Macro(_, name) = e.kind {
                v.push(name.to_string());
            }
        }
        if v.is_empty() {
            if let Some(k) = sp.desugaring_kind() {
                v.push(format!("~{k:?}"));
            }
        }
        v.join(",")
    }
}

fn erase<'tcx, T: ty::TypeFoldable<TyCtxt<'tcx>>>(tcx: TyCtxt<'tcx>, t: T) -> T {
    tcx.erase_and_anonymize_regions(t)
}

struct B<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    body: &'a Body<'tcx>,
    env: ty::TypingEnv<'tcx>,
}

impl<'a, 'tcx> B<'a, 'tcx> {
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut o = format!("[{}", p.local.as_usize());
        let mut pty = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",[\"d\"]"),
                ProjectionElem::Field(i, _) => {
                    let (own, name) = match pty.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let n = a.variant(v).fields[i].name.to_string();
                            (self.cx.path(a.did()), n)
                        }
                        ty::Closure(d, _) => {
                            (format!("closure#{}", self.cx.path(*d)), i.as_usize().to_string())
                        }
                        ty::Coroutine(d, _) => {
                            (format!("coroutine#{}", self.cx.path(*d)), i.as_usize().to_string())
                        }
                        ty::Tuple(_) => ("tuple".into(), i.as_usize().to_string()),
                        _ => ("?".into(), i.as_usize().to_string()),
                    };
                    let k = self.cx.intern(own);
                    let _ = write!(o, ",[\"f\",{},{},{}]", i.as_usize(), esc(&name), k);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { .. } => o.push_str(",[\"sub\"]"),
                ProjectionElem::Downcast(n, v) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(a, _) => a.variant(v).name.to_string(),
                        _ => n.map(|n| n.to_string()).unwrap_or_default(),
                    };
                    let _ = write!(o, ",[\"v\",{},{}]", v.as_usize(), esc(&name));
                }
                _ => o.push_str(",[\"o\"]"),
            }
            pty = pty.projection_ty(tcx, e);
        }
        o.push(']');
        o
    }

    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let p = self.cx.path(d);
        let pi = self.cx.intern(p);
        let args = erase(tcx, args);
        let tys: Vec<String> = args.types().map(|t| self.cx.tyi(t).to_string()).collect();
        let mut o = format!("{{\"fn\":{},\"ta\":[{}]", pi, tys.join(","));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let tp = self.cx.path(tr);
            let ti = self.cx.intern(tp);
            let _ = write!(o, ",\"tr\":{}", ti);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, d, args) {
                let rd = inst.def_id();
                if rd != d {
                    let rp = self.cx.path(rd);
                    let ri = self.cx.intern(rp);
                    let _ = write!(o, ",\"res\":{}", ri);
                }
                // Calls through the Fn* traits and Future::poll resolve to the closure body itself.
            }
        }
        o.push('}');
        o
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(c),
            _ => "[\"k\",\"?\",0]".into(),
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fnref(*d, args.skip_binder());
            return format!("[\"fn\",{}]", f);
        }
        let ti = self.cx.tyi(erase(tcx, t));
        if let Const::Unevaluated(u, _) = c.const_ {
            let p = self.cx.path(u.def);
            let pi = self.cx.intern(p);
            let v = if !u.args.has_param() {
                c.const_.try_eval_scalar_int(tcx, self.env).map(|s| format!("{}", s.to_bits_unchecked()))
            } else {
                None
            };
            return format!("[\"kn\",{},{},{}]", pi, ti, v.map(|v| esc(&v)).unwrap_or("null".into()));
        }
        if let Some(s) = c.const_.try_eval_scalar_int(tcx, self.env) {
            return format!("[\"k\",\"{}\",{}]", s.to_bits_unchecked(), ti);
        }
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
        format!("[\"ks\",{},{}]", esc(&s), ti)
    }

    fn rvalue(&mut self, rv: &Rvalue<'tcx>) -> String {
        match rv {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, _) => format!("[\"rep\",{}]", self.operand(o)),
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => 1,
                    BorrowKind::Fake(_) => 2,
                    _ => 0,
                };
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",1,{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.cx.tyi(erase(self.cx.tcx, *t));
                let ks = format!("{k:?}");
                format!("[\"cast\",{},{},{}]", self.operand(o), ti, esc(&ks))
            }
            Rvalue::BinaryOp(b, ops) => {
                format!(
                    "[\"bin\",{},{},{}]",
                    esc(&format!("{b:?}")),
                    self.operand(&ops.0),
                    self.operand(&ops.1)
                )
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", esc(&format!("{u:?}")), self.operand(o)),
            Rvalue::Discriminant(p) => {
                let tcx = self.cx.tcx;
                let t = p.ty(&self.body.local_decls, tcx).ty;
                let own = match t.kind() {
                    ty::Adt(a, _) => self.cx.path(a.did()),
                    _ => "?".into(),
                };
                let oi = self.cx.intern(own);
                format!("[\"disc\",{},{}]", self.place(p), oi)
            }
            Rvalue::Aggregate(k, ops) => {
                let xs: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let head = match &**k {
                    AggregateKind::Array(_) => "\"arr\",0,\"\"".to_string(),
                    AggregateKind::Tuple => "\"tup\",0,\"\"".to_string(),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        let p = self.cx.path(*d);
                        let pi = self.cx.intern(p);
                        let a = self.cx.tcx.adt_def(*d);
                        let name = a.variant(*v).name.to_string();
                        let fields: Vec<String> = match f {
                            Some(f) => vec![a.variant(*v).fields[*f].name.to_string()],
                            None => a.variant(*v).fields.iter().map(|f| f.name.to_string()).collect(),
                        };
                        let _ = fields;
                        format!("\"adt\",{},{}", pi, esc(&name))
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        let p = self.cx.path(*d);
                        let pi = self.cx.intern(p);
                        format!("\"clo\",{},\"\"", pi)
                    }
                    AggregateKind::Coroutine(d, _) => {
                        let p = self.cx.path(*d);
                        let pi = self.cx.intern(p);
                        format!("\"cor\",{},\"\"", pi)
                    }
                    AggregateKind::RawPtr(..) => "\"raw\",0,\"\"".to_string(),
                };
                format!("[\"agg\",{},[{}]]", head, xs.join(","))
            }
            _ => "[\"other\"]".into(),
        }
    }

    fn stmt(&mut self, s: &Statement<'tcx>) -> Option<String> {
        match &s.kind {
            StatementKind::Assign(b) => {
                let (f, l) = self.cx.line(s.source_info.span);
                let _ = f;
                let rv = match &b.1 {
                    Rvalue::Ref(_, BorrowKind::Fake(_), _) => return None,
                    rv => self.rvalue(rv),
                };
                Some(format!("[\"a\",{},{},{}]", self.place(&b.0), rv, l))
            }
            StatementKind::StorageDead(l) => Some(format!("[\"sd\",{}]", l.as_usize())),
            StatementKind::StorageLive(l) => Some(format!("[\"sl\",{}]", l.as_usize())),
            _ => None,
        }
    }

    fn term(&mut self, t: &Terminator<'tcx>) -> String {
        let (_, l) = self.cx.line(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let d = self.operand(discr);
                let tt = discr.ty(&self.body.local_decls, self.cx.tcx);
                let isb = if tt.is_bool() { 1 } else { 0 };
                let vs: Vec<String> =
                    targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                format!(
                    "[\"sw\",{},[{}],{},{},{}]",
                    d,
                    vs.join(","),
                    targets.otherwise().as_usize(),
                    isb,
                    l
                )
            }
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unreach\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), l)
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                let f = match func {
                    Operand::Constant(c) => self.constant(c),
                    o => self.operand(o),
                };
                let xs: Vec<String> = args.iter().map(|a| self.operand(&a.node)).collect();
                let m = self.cx.mac(*fn_span);
                let (_, l) = self.cx.line(*fn_span);
                format!(
                    "[\"call\",{},[{}],{},{},{},{}]",
                    f,
                    xs.join(","),
                    self.place(destination),
                    target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                    l,
                    esc(&m)
                )
            }
            TerminatorKind::Assert { target, cond, expected, .. } => {
                format!("[\"assert\",{},{},{},{}]", self.operand(cond), expected, target.as_usize(), l)
            }
            TerminatorKind::Yield { resume, resume_arg, .. } => {
                format!("[\"yield\",{},{}]", resume.as_usize(), self.place(resume_arg))
            }
            TerminatorKind::UnwindResume => "[\"resume\"]".into(),
            _ => "[\"other\"]".into(),
        }
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        dump(tcx, &self.out);
        Compilation::Continue
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut bodies: Vec<(LocalDefId, Body<'_>)> = vec![];
    let mut stolen = 0usize;
    for d in tcx.hir_body_owners() {
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            _ => continue,
        }
        let s = tcx.mir_built(d);
        if s.is_stolen() {
            stolen += 1;
            continue;
        }
        bodies.push((d, s.borrow().clone()));
    }
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut cx = Cx { tcx, strs: vec![], idx: HashMap::new(), paths: HashMap::new() };
    let mut fns = String::new();
    let mut seen: HashMap<String, usize> = HashMap::new();
    for (d, body) in &bodies {
        let did = d.to_def_id();
        let mut p = cx.path(did);
        let n = seen.entry(p.clone()).or_insert(0);
        *n += 1;
        if *n > 1 {
            p = format!("{p}~{n}");
        }
        let kind = if tcx.is_coroutine(did) {
            "coroutine"
        } else if tcx.is_closure_like(did) {
            "closure"
        } else {
            "fn"
        };
        let env = ty::TypingEnv::non_body_analysis(tcx, did);
        let (file, line) = cx.line(tcx.def_span(did));
        let body_e: Body<'_> = body.clone();
        let parent = if kind == "fn" { String::new() } else { let r = tcx.typeck_root_def_id(did); cx.path(r) };
        let vis = if kind == "fn" { format!("{:?}", tcx.visibility(did)) } else { String::new() };
        let isasync = kind == "fn" && tcx.asyncness(did).is_async();
        let implid = tcx.impl_of_assoc(did).or_else(|| tcx.impl_of_assoc(tcx.typeck_root_def_id(did)));
        let derived = implid.map(|i| tcx.is_automatically_derived(i)).unwrap_or(false);
        let trait_item = match tcx.opt_associated_item(did) {
            Some(_) => tcx.trait_of_assoc(did).map(|t| cx.path(t)).unwrap_or_default(),
            None => String::new(),
        };
        let unsafe_ = false;
        let _ = unsafe_;
        let mut b = B { cx: &mut cx, body: &body_e, env };
        let locals: Vec<String> = body_e
            .local_decls
            .iter()
            .map(|l| b.cx.tyi(erase(tcx, l.ty)).to_string())
            .collect();
        let mut dbg = vec![];
        for v in &body_e.var_debug_info {
            if let VarDebugInfoContents::Place(pl) = &v.value {
                dbg.push(format!("[{},{}]", esc(v.name.as_str()), b.place(pl)));
            }
        }
        let mut blocks = vec![];
        for bb in body_e.basic_blocks.iter() {
            let ss: Vec<String> = bb.statements.iter().filter_map(|s| b.stmt(s)).collect();
            let t = b.term(bb.terminator());
            blocks.push(format!("[[{}],{},{}]", ss.join(","), t, if bb.is_cleanup { 1 } else { 0 }));
        }
        let _ = writeln!(
            fns,
            "{{\"path\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"parent\":{},\"vis\":{},\"async\":{},\"derived\":{},\"trait_item\":{},\"argc\":{},\"locals\":[{}],\"dbg\":[{}],\"blocks\":[{}]}},",
            esc(&p), kind, esc(&file), line, esc(&parent), esc(&vis), isasync, derived, esc(&trait_item),
            body_e.arg_count, locals.join(","), dbg.join(","), blocks.join(",")
        );
    }
    // ADTs and impls
    let mut adts = String::new();
    let mut impls = String::new();
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(did);
                let p = cx.path(did);
                let mut vs = vec![];
                for v in a.variants() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let t = cx.tyi(erase(tcx, t));
                        fs.push(format!("[{},{},{}]", esc(f.name.as_str()), t, esc(&format!("{:?}", f.vis))));
                    }
                    vs.push(format!("[{},[{}]]", esc(v.name.as_str()), fs.join(",")));
                }
                let (file, line) = cx.line(tcx.def_span(did));
                let _ = writeln!(
                    adts,
                    "{{\"path\":{},\"enum\":{},\"file\":{},\"line\":{},\"variants\":[{}]}},",
                    esc(&p), a.is_enum(), esc(&file), line, vs.join(",")
                );
            }
            DefKind::Impl { of_trait } => {
                let p = cx.path(did);
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let st = cx.ty(st);
                let tr = if of_trait {
                    let t = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    cx.path(t.def_id)
                } else {
                    String::new()
                };
                let mut ms = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    let ip = cx.path(it.def_id);
                    let tp = it.trait_item_def_id().map(|d| cx.path(d)).unwrap_or_default();
                    ms.push(format!("[{},{}]", esc(&tp), esc(&ip)));
                }
                let (file, line) = cx.line(tcx.def_span(did));
                let _ = writeln!(
                    impls,
                    "{{\"path\":{},\"self\":{},\"trait\":{},\"derived\":{},\"file\":{},\"line\":{},\"items\":[{}]}},",
                    esc(&p), esc(&st), esc(&tr), tcx.is_automatically_derived(did), esc(&file), line, ms.join(",")
                );
            }
            _ => {}
        }
    }
    let mut strs = String::new();
    for s in &cx.strs {
        strs.push_str(&esc(s));
        strs.push(',');
    }
    let trim = |s: &str| s.trim_end().trim_end_matches(',').to_string();
    let json = format!(
        "{{\"crate\":{},\"stolen\":{},\"fns\":[{}],\"adts\":[{}],\"impls\":[{}],\"strs\":[{}]}}",
        esc(&krate), stolen, trim(&fns), trim(&adts), trim(&impls), trim(&strs)
    );
    std::fs::create_dir_all(out).unwrap();
    std::fs::write(format!("{out}/{krate}.json"), json).unwrap();
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("KHV_FACTS_DIR").unwrap_or_default();
    let primary = args.iter().any(|a| a == "--crate-name")
        && !args.iter().any(|a| a == "build_script_build" || a == "___");
    if out.is_empty() || !primary {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
        return;
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
