//! rustc driver that dumps the MIR of the crate being compiled, with resolved callees and types,
//! as one JSON document.  Used as RUSTC_WORKSPACE_WRAPPER; it only ever *reads* the program.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    tyout: Vec<String>,
    env: ty::TypingEnv<'tcx>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
        );
        if d.is_local() && !p.starts_with('<') {
            format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), p)
        } else {
            p
        }
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(format!("{}", t))
        )
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        format!(
            "{}:{}:{}",
            lo.file.name.prefer_remapped_unconditionally(),
            lo.line,
            lo.col.0 + 1
        )
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.tyout.len();
        self.types.insert(t, i);
        self.tyout.push(String::new());
        let s = js(&self.tystr(t));
        let body = match t.kind() {
            ty::Bool => r#""k":"bool""#.to_string(),
            ty::Char => r#""k":"char""#.to_string(),
            ty::Str => r#""k":"str""#.to_string(),
            ty::Never => r#""k":"never""#.to_string(),
            ty::Int(it) => format!(
                r#""k":"int","signed":true,"bits":{}"#,
                it.bit_width().unwrap_or(64)
            ),
            ty::Uint(it) => format!(
                r#""k":"int","signed":false,"bits":{}"#,
                it.bit_width().unwrap_or(64)
            ),
            ty::Float(_) => r#""k":"float""#.to_string(),
            ty::Ref(_, inner, m) => {
                let n = self.ty(*inner);
                format!(r#""k":"ref","mut":{},"to":{}"#, m.is_mut(), n)
            }
            ty::RawPtr(inner, m) => {
                let n = self.ty(*inner);
                format!(r#""k":"ptr","mut":{},"to":{}"#, m.is_mut(), n)
            }
            ty::Slice(e) => {
                let n = self.ty(*e);
                format!(r#""k":"slice","to":{}"#, n)
            }
            ty::Array(e, l) => {
                let n = self.ty(*e);
                let len = l.try_to_target_usize(self.tcx);
                format!(
                    r#""k":"array","to":{},"len":{}"#,
                    n,
                    len.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!(r#""k":"tuple","fields":[{}]"#, v.join(","))
            }
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let expand = def.did().is_local()
                    || p.starts_with("core::option::Option")
                    || p.starts_with("core::result::Result")
                    || p.starts_with("core::ops::control_flow::ControlFlow")
                    || p.starts_with("core::ops::range::Range")
                    || p.starts_with("core::cmp::Ordering")
                    || p.starts_with("syn::")
                    || p.starts_with("asn1_codecs::")
                    || def.is_enum();
                let mut vs = vec![];
                if expand && !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            def.discriminant_for_variant(self.tcx, vi).val.to_string()
                        } else {
                            "0".into()
                        };
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let ft = f.ty(self.tcx, args).skip_norm_wip();
                                let ft = self
                                    .tcx
                                    .try_normalize_erasing_regions(
                                        self.env,
                                        ty::Unnormalized::new_wip(ft),
                                    )
                                    .unwrap_or(ft);
                                format!("[{},{}]", js(f.name.as_str()), self.ty(ft))
                            })
                            .collect();
                        vs.push(format!(
                            r#"{{"name":{},"discr":{},"fields":[{}]}}"#,
                            js(v.name.as_str()),
                            discr,
                            fs.join(",")
                        ));
                    }
                }
                format!(
                    r#""k":"adt","adt":"{}","path":{},"args":[{}],"variants":[{}]"#,
                    kind,
                    js(&p),
                    targs.join(","),
                    vs.join(",")
                )
            }
            ty::Closure(d, args) => {
                let up: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| self.ty(x).to_string())
                    .collect();
                format!(
                    r#""k":"closure","def":{},"upvars":[{}]"#,
                    js(&self.path(*d)),
                    up.join(",")
                )
            }
            ty::FnDef(d, _) => format!(r#""k":"fndef","def":{}"#, js(&self.path(*d))),
            ty::FnPtr(..) => r#""k":"fnptr""#.to_string(),
            ty::Param(_) => r#""k":"param""#.to_string(),
            ty::Dynamic(..) => r#""k":"dyn""#.to_string(),
            _ => r#""k":"other""#.to_string(),
        };
        self.tyout[i] = format!(r#"{{"s":{},{}}}"#, s, body);
        i
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut pj = vec![];
        for e in p.projection.iter() {
            pj.push(match e {
                ProjectionElem::Deref => r#"["*"]"#.to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!(r#"["f",{},{}]"#, f.index(), t)
                }
                ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l.index()),
                ProjectionElem::ConstantIndex {
                    offset,
                    min_length,
                    from_end,
                } => format!(r#"["ci",{},{},{}]"#, offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!(r#"["ss",{},{},{}]"#, from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => format!(
                    r#"["d",{},{}]"#,
                    v.index(),
                    js(n.map(|x| x.to_string()).unwrap_or_default().as_str())
                ),
                _ => r#"["?"]"#.to_string(),
            });
        }
        format!("[{},[{}]]", p.local.index(), pj.join(","))
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut extra = String::new();
        if let ty::FnDef(d, args) = t.kind() {
            extra = format!(r#","fn":{}"#, self.callee(*d, args.skip_binder()));
        } else {
            if let Const::Unevaluated(u, _) = c.const_ {
                if let Some(p) = u.promoted {
                    extra.push_str(&format!(r#","promoted":{}"#, p.index()));
                } else {
                    extra.push_str(&format!(r#","item":{}"#, js(&self.path(u.def))));
                }
            }
            if !c.const_.has_param() {
                if let Ok(v) = c.const_.eval(self.tcx, self.env, c.span) {
                    match v {
                        ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                            let sz = i.size();
                            let s = match t.kind() {
                                ty::Int(_) => i.to_int(sz).to_string(),
                                _ => i.to_bits(sz).to_string(),
                            };
                            extra.push_str(&format!(r#","v":{}"#, s));
                        }
                        ConstValue::ZeroSized => extra.push_str(r#","zst":true"#),
                        ConstValue::Slice { .. } => {
                            if let ty::Ref(_, inner, _) = t.kind() {
                                if inner.is_str() {
                                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx)
                                    {
                                        extra.push_str(&format!(
                                            r#","str":{}"#,
                                            js(&String::from_utf8_lossy(b))
                                        ));
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                    // destructure small aggregates (e.g. newtype around &str, Option<i128> consts)
                    if matches!(v, ConstValue::Indirect { .. } | ConstValue::Slice { .. })
                        || matches!(t.kind(), ty::Adt(..) | ty::Tuple(..))
                    {
                        if let Some(s) = self.destructure(v, t, 0) {
                            extra.push_str(&format!(r#","agg":{}"#, s));
                        }
                    }
                }
            }
        }
        format!(r#"{{"c":1,"ty":{},"s":{}{}}}"#, ti, js(&format!("{}", c.const_)), extra)
    }
    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<String> {
        if depth > 4 {
            return None;
        }
        match t.kind() {
            ty::Ref(_, inner, _) if inner.is_str() => {
                let b = match v {
                    ConstValue::Slice { .. } | ConstValue::Indirect { .. } => {
                        v.try_get_slice_bytes_for_diagnostics(self.tcx)?
                    }
                    _ => return None,
                };
                Some(format!(r#"{{"str":{}}}"#, js(&String::from_utf8_lossy(b))))
            }
            ty::Adt(def, _) if def.is_union() => None,
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ty::Array(_, n) = t.kind() {
                    if n.try_to_target_usize(self.tcx)? > 64 {
                        return None;
                    }
                }
                let d = self
                    .tcx
                    .try_destructure_mir_constant_for_user_output(v, t)?;
                let mut fs = vec![];
                for (fv, ft) in d.fields {
                    fs.push(self.destructure(*fv, *ft, depth + 1).unwrap_or("null".into()));
                }
                Some(format!(
                    r#"{{"variant":{},"ty":{},"fields":[{}]}}"#,
                    d.variant.map(|x| x.index().to_string()).unwrap_or("0".into()),
                    self.ty(t),
                    fs.join(",")
                ))
            }
            _ => match v {
                ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                    let sz = i.size();
                    let s = match t.kind() {
                        ty::Int(_) => i.to_int(sz).to_string(),
                        _ => i.to_bits(sz).to_string(),
                    };
                    Some(format!(r#"{{"v":{}}}"#, s))
                }
                _ => None,
            },
        }
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let path = self.path(d);
        let full = rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(self
                .tcx
                .def_path_str_with_args(d, args))
        );
        let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let mut res = String::from("null");
        let mut rlocal = false;
        if let Ok(a) = self.tcx.try_normalize_erasing_regions(
            self.env,
            ty::Unnormalized::new_wip(args),
        ) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, self.env, d, a) {
                res = js(&self.path(inst.def_id()));
                rlocal = inst.def_id().is_local();
            }
        }
        let tr = self
            .tcx
            .trait_of_assoc(d)
            .map(|t| js(&self.path(t)))
            .unwrap_or("null".into());
        format!(
            r#"{{"path":{},"full":{},"targs":[{}],"resolved":{},"local":{},"trait":{}}}"#,
            js(&path),
            js(&full),
            targs.join(","),
            res,
            rlocal,
            tr
        )
    }
    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!(r#"{{"cp":{}}}"#, self.place(p)),
            Operand::Move(p) => format!(r#"{{"mv":{}}}"#, self.place(p)),
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(_) => r#"{"rc":1}"#.to_string(),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!(r#"["use",{}]"#, self.op(o)),
            Rvalue::Repeat(o, n) => format!(
                r#"["repeat",{},{}]"#,
                self.op(o),
                n.try_to_target_usize(self.tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into())
            ),
            Rvalue::Ref(_, k, p) => format!(
                r#"["ref",{},{}]"#,
                self.place(p),
                matches!(k, BorrowKind::Mut { .. })
            ),
            Rvalue::RawPtr(_, p) => format!(r#"["rawptr",{}]"#, self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let o = self.op(o);
                let t = self.ty(*t);
                format!(r#"["cast",{},{},{}]"#, js(&format!("{:?}", k)), o, t)
            }
            Rvalue::BinaryOp(b, x) => {
                let l = self.op(&x.0);
                let r = self.op(&x.1);
                format!(r#"["bin","{:?}",{},{}]"#, b, l, r)
            }
            Rvalue::UnaryOp(u, o) => format!(r#"["un","{:?}",{}]"#, u, self.op(o)),
            Rvalue::Discriminant(p) => format!(r#"["discr",{}]"#, self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => r#"["array"]"#.to_string(),
                    AggregateKind::Tuple => r#"["tuple"]"#.to_string(),
                    AggregateKind::Adt(d, v, ..) => {
                        let def = self.tcx.adt_def(*d);
                        format!(
                            r#"["adt",{},{},{}]"#,
                            js(&self.path(*d)),
                            v.index(),
                            js(def.variant(*v).name.as_str())
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!(r#"["closure",{}]"#, js(&self.path(*d)))
                    }
                    _ => r#"["other"]"#.to_string(),
                };
                format!(r#"["agg",{},[{}]]"#, k, ops.join(","))
            }
            Rvalue::CopyForDeref(p) => format!(r#"["use",{{"cp":{}}}]"#, self.place(p)),
            _ => r#"["other"]"#.to_string(),
        }
    }
    fn body(&mut self, b: &Body<'tcx>) -> String {
        let mut o = String::new();
        let locals: Vec<String> = b
            .local_decls
            .iter()
            .map(|l| self.ty(l.ty).to_string())
            .collect();
        let mut names: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", js(v.name.as_str()), self.place(p)));
            }
        }
        let _ = write!(
            o,
            r#""argc":{},"locals":[{}],"names":[{}],"blocks":["#,
            b.arg_count,
            locals.join(","),
            names.join(",")
        );
        for (i, bb) in b.basic_blocks.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rv(&x.1);
                        st.push(format!(
                            r#"["=",{},{},{}]"#,
                            p,
                            r,
                            js(&self.span(s.source_info.span))
                        ));
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => {
                        let p = self.place(place);
                        st.push(format!(r#"["setd",{},{}]"#, p, variant_index.index()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = js(&self.span(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!(r#"["goto",{}]"#, target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr);
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[{},{}]", v, t.index()))
                        .collect();
                    format!(
                        r#"["switch",{},[{}],{}]"#,
                        d,
                        v.join(","),
                        targets.otherwise().index()
                    )
                }
                TerminatorKind::Return => r#"["return"]"#.to_string(),
                TerminatorKind::Unreachable => r#"["unreachable"]"#.to_string(),
                TerminatorKind::UnwindResume => r#"["resume"]"#.to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    format!(r#"["drop",{},{}]"#, p, target.index())
                }
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    let f = self.op(func);
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node)).collect();
                    let d = self.place(destination);
                    format!(
                        r#"["call",{},[{}],{},{}]"#,
                        f,
                        a.join(","),
                        d,
                        target
                            .map(|x| x.index().to_string())
                            .unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    ..
                } => {
                    let c = self.op(cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.op(len);
                            let i = self.op(index);
                            format!(r#"["bounds",{},{}]"#, l, i)
                        }
                        AssertKind::Overflow(b, x, y) => {
                            let x = self.op(x);
                            let y = self.op(y);
                            format!(r#"["overflow","{:?}",{},{}]"#, b, x, y)
                        }
                        AssertKind::OverflowNeg(x) => {
                            let x = self.op(x);
                            format!(r#"["overflowneg",{}]"#, x)
                        }
                        AssertKind::DivisionByZero(_) => r#"["div0"]"#.to_string(),
                        AssertKind::RemainderByZero(_) => r#"["rem0"]"#.to_string(),
                        _ => r#"["other"]"#.to_string(),
                    };
                    format!(r#"["assert",{},{},{},{}]"#, c, expected, m, target.index())
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!(r#"["goto",{}]"#, real_target.index())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!(r#"["goto",{}]"#, real_target.index())
                }
                _ => r#"["other"]"#.to_string(),
            };
            let _ = write!(
                o,
                r#"{{"st":[{}],"t":{},"sp":{},"cl":{}}}"#,
                st.join(","),
                ts,
                sp,
                bb.is_cleanup
            );
        }
        o.push(']');
        o
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut fns = vec![];
    let mut d = D {
        tcx,
        types: HashMap::new(),
        tyout: vec![],
        env: ty::TypingEnv::fully_monomorphized(),
    };
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| tcx.def_span(*k).lo());
    for key in keys {
        let did = key.to_def_id();
        let kind = tcx.def_kind(did);
        let body = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(did),
            _ => continue,
        };
        d.env = ty::TypingEnv::post_analysis(tcx, did);
        let b = d.body(body);
        let mut proms = vec![];
        for p in tcx.promoted_mir(did).iter() {
            proms.push(format!("{{{}}}", d.body(p)));
        }
        let ret = d.ty(body.local_decls[RETURN_PLACE].ty);
        let parent = tcx.opt_parent(did).map(|p| js(&d.path(p))).unwrap_or("null".into());
        let (impl_trait, impl_self) = if kind == DefKind::AssocFn {
            let p = tcx.parent(did);
            if let DefKind::Impl { .. } = tcx.def_kind(p) {
                let st = tcx.type_of(p).skip_binder();
                let s = d.tystr(st);
                let tr = tcx
                    .impl_opt_trait_ref(p)
                    .map(|t| js(&d.path(t.skip_binder().def_id)))
                    .unwrap_or("null".into());
                (tr, js(&s))
            } else {
                ("null".into(), "null".into())
            }
        } else {
            ("null".to_string(), "null".to_string())
        };
        let span = d.span(tcx.def_span(did));
        let derived = tcx.def_span(did).from_expansion();
        let vis = if kind == DefKind::Closure {
            "closure".to_string()
        } else {
            format!("{:?}", tcx.visibility(did)).replace('"', "'")
        };
        fns.push(format!(
            r#"{{"path":{},"kind":"{:?}","vis":{},"span":{},"macro":{},"parent":{},"trait":{},"self":{},"ret":{},{},"promoted":[{}]}}"#,
            js(&d.path(did)),
            kind,
            js(&vis),
            js(&span),
            derived,
            parent,
            impl_trait,
            impl_self,
            ret,
            b,
            proms.join(",")
        ));
    }
    let s = format!(
        "{{\"crate\":{},\"fns\":[\n{}\n],\"types\":[\n{}\n]}}\n",
        js(tcx.crate_name(LOCAL_CRATE).as_str()),
        fns.join(",\n"),
        d.tyout.join(",\n")
    );
    std::fs::write(out, s).expect("write mir dump");
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o);
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0); // wrapper path; args[0] is now rustc
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned());
    let is_bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    let out = match (std::env::var("MIRDUMP_OUT"), name) {
        (Ok(dir), Some(n)) if n != "___" && n != "build_script_build" => {
            let suffix = if is_bin { "-bin" } else { "" };
            Some(format!("{}/{}{}.json", dir, n, suffix))
        }
        _ => None,
    };
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=yes".into());
    }
    rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
    })
}
