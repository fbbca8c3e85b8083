//! rustc driver: compiles the crate under verification exactly as cargo asks and, for the crate
//! named in VP_CRATE, writes the (generic) MIR of every function and closure as JSON to VP_MIR_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt};
use rustc_span::def_id::DefId;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().collect::<Vec<_>>().join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
    adt_queue: VecDeque<DefId>,
    adt_seen: std::collections::HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    fn vpath(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args
            .iter()
            .map(|a| match a.kind() {
                GenericArgKind::Type(t) => format!("{{\"t\":{}}}", self.ty(t)),
                GenericArgKind::Lifetime(_) => "{\"r\":1}".to_string(),
                GenericArgKind::Const(c) => format!("{{\"c\":{}}}", q(&format!("{c}"))),
                #[allow(unreachable_patterns)]
                _ => "{\"r\":1}".to_string(),
            })
            .collect();
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tmap.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tmap.insert(t, i);
        let s = match *t.kind() {
            ty::Bool => "{\"k\":\"bool\"}".into(),
            ty::Char => "{\"k\":\"char\"}".into(),
            ty::Str => "{\"k\":\"str\"}".into(),
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Int(x) => format!("{{\"k\":\"int\",\"name\":{},\"signed\":true}}", q(x.name_str())),
            ty::Uint(x) => format!("{{\"k\":\"int\",\"name\":{},\"signed\":false}}", q(x.name_str())),
            ty::Float(x) => format!("{{\"k\":\"float\",\"name\":{}}}", q(x.name_str())),
            ty::Adt(d, a) => {
                if self.adt_seen.insert(d.did()) {
                    self.adt_queue.push_back(d.did());
                }
                let p = self.path(d.did());
                let a = self.gargs(a);
                format!("{{\"k\":\"adt\",\"path\":{},\"args\":{}}}", q(&p), a)
            }
            ty::Ref(_, t, m) => {
                let t = self.ty(t);
                format!("{{\"k\":\"ref\",\"mut\":{},\"ty\":{}}}", m.is_mut(), t)
            }
            ty::RawPtr(t, m) => {
                let t = self.ty(t);
                format!("{{\"k\":\"ptr\",\"mut\":{},\"ty\":{}}}", m.is_mut(), t)
            }
            ty::Slice(t) => {
                let t = self.ty(t);
                format!("{{\"k\":\"slice\",\"ty\":{t}}}")
            }
            ty::Array(t, n) => {
                let t = self.ty(t);
                format!("{{\"k\":\"array\",\"ty\":{t},\"len\":{}}}", q(&format!("{n}")))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"tys\":{}}}", arr(v))
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"idx\":{},\"name\":{}}}", p.index, q(p.name.as_str())),
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let p = self.path(d.into());
                let a = self.gargs(a);
                format!("{{\"k\":\"fndef\",\"path\":{},\"args\":{}}}", q(&p), a)
            }
            ty::Closure(d, a) => {
                let p = self.path(d.into());
                let up: Vec<String> = a.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let ga = self.gargs(a);
                format!("{{\"k\":\"closure\",\"path\":{},\"args\":{},\"upvars\":{}}}", q(&p), ga, arr(up))
            }
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", q(&format!("{t}"))),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", q(&format!("{t}"))),
            ty::Alias(..) => {
                let s = format!("{t:?}");
                format!("{{\"k\":\"alias\",\"s\":{}}}", q(&s))
            }
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", q(&format!("{t:?}"))),
        };
        self.types[i] = s;
        i
    }

    fn norm(&self, te: ty::TypingEnv<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }

    fn place(&mut self, body: &Body<'tcx>, te: ty::TypingEnv<'tcx>, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for (base, e) in p.iter_projections() {
            let _ = base;
            let s = match e {
                ProjectionElem::Deref => "{\"k\":\"deref\"}".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.norm(te, t);
                    format!("{{\"k\":\"field\",\"i\":{},\"ty\":{}}}", f.index(), self.ty(t))
                }
                ProjectionElem::Index(l) => format!("{{\"k\":\"index\",\"local\":{}}}", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("{{\"k\":\"cindex\",\"off\":{offset},\"min\":{min_length},\"end\":{from_end}}}")
                }
                ProjectionElem::Downcast(_, vi) => format!("{{\"k\":\"downcast\",\"v\":{}}}", vi.index()),
                other => format!("{{\"k\":\"other\",\"s\":{}}}", q(&format!("{other:?}"))),
            };
            v.push(s);
        }
        let t = p.ty(&body.local_decls, self.tcx).ty;
        let t = self.norm(te, t);
        let t = self.ty(t);
        format!("{{\"l\":{},\"p\":{},\"ty\":{}}}", p.local.index(), arr(v), t)
    }

    fn callee(&mut self, te: ty::TypingEnv<'tcx>, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = String::new();
        let trait_ = tcx.trait_of_assoc(d).map(|t| self.path(t));
        let impl_self = tcx.inherent_impl_of_assoc(d).map(|i| {
            let t = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            format!("{t}")
        });
        let _ = write!(
            s,
            "{{\"path\":{},\"name\":{},\"trait\":{},\"impl_self\":{},\"local\":{},\"crate\":{},\"args\":{}",
            q(&self.path(d)),
            q(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default().as_str()),
            trait_.map(|t| q(&t)).unwrap_or("null".into()),
            impl_self.map(|t| q(&t)).unwrap_or("null".into()),
            d.is_local(),
            q(tcx.crate_name(d.krate).as_str()),
            self.gargs(a)
        );
        let _ = write!(s, ",\"vpath\":{}", q(&self.vpath(d)));
        let ok = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn);
        if ok {
            let er = tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, te, d, er) {
                let rd = inst.def_id();
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    _ => "shim",
                };
                let _ = write!(
                    s,
                    ",\"res\":{{\"path\":{},\"local\":{},\"kind\":{},\"args\":{}}}",
                    q(&self.path(rd)),
                    rd.is_local(),
                    q(kind),
                    self.gargs(inst.args)
                );
            }
        }
        s.push('}');
        s
    }

    fn constant(&mut self, te: ty::TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let t = self.norm(te, t);
        if let ty::FnDef(d, a) = *t.kind() {
            let f = self.callee(te, d.into(), a.skip_binder());
            return format!("{{\"k\":\"const\",\"fn\":{},\"ty\":{}}}", f, self.ty(t));
        }
        let ti = self.ty(t);
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!("{{\"k\":\"const\",\"promoted\":{},\"ty\":{}}}", p.index(), ti);
            }
        }
        let mut name = "null".to_string();
        if let Const::Unevaluated(u, _) = c.const_ {
            name = q(&self.path(u.def));
        }
        match c.const_.eval(tcx, te, c.span) {
            Ok(v) => match v {
                ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                    format!("{{\"k\":\"const\",\"bits\":\"{}\",\"size\":{},\"name\":{},\"ty\":{}}}", i.to_bits(i.size()), i.size().bytes(), name, ti)
                }
                ConstValue::ZeroSized => format!("{{\"k\":\"const\",\"zst\":true,\"name\":{name},\"ty\":{ti}}}"),
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let st = String::from_utf8_lossy(b).to_string();
                        format!("{{\"k\":\"const\",\"str\":{},\"name\":{},\"ty\":{}}}", q(&st), name, ti)
                    } else {
                        format!("{{\"k\":\"const\",\"opaque\":{},\"name\":{},\"ty\":{}}}", q(&format!("{v:?}")), name, ti)
                    }
                }
                _ => format!("{{\"k\":\"const\",\"opaque\":{},\"name\":{},\"ty\":{}}}", q(&format!("{:?}", c.const_)), name, ti),
            },
            Err(_) => format!("{{\"k\":\"const\",\"uneval\":{},\"name\":{},\"ty\":{}}}", q(&format!("{:?}", c.const_)), name, ti),
        }
    }

    fn operand(&mut self, body: &Body<'tcx>, te: ty::TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"place\":{}}}", self.place(body, te, p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"place\":{}}}", self.place(body, te, p)),
            Operand::Constant(c) => self.constant(te, c),
            other => format!("{{\"k\":\"runtime_check\",\"s\":{}}}", q(&format!("{other:?}"))),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, te: ty::TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(body, te, o)),
            Rvalue::Repeat(o, n) => format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(body, te, o), q(&format!("{n}"))),
            Rvalue::Ref(_, bk, p) => {
                let m = match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shared",
                    _ => "fake",
                };
                format!("{{\"k\":\"ref\",\"bk\":\"{}\",\"place\":{}}}", m, self.place(body, te, p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("{{\"k\":\"ref\",\"bk\":\"{}\",\"place\":{}}}", if m.is_mut() { "mut" } else { "shared" }, self.place(body, te, p))
            }
            Rvalue::RawPtr(k, p) => format!("{{\"k\":\"rawptr\",\"m\":{},\"place\":{}}}", q(&format!("{k:?}")), self.place(body, te, p)),
            Rvalue::Cast(ck, o, t) => {
                let t = self.norm(te, *t);
                let t = self.ty(t);
                format!("{{\"k\":\"cast\",\"ck\":{},\"o\":{},\"ty\":{}}}", q(&format!("{ck:?}")), self.operand(body, te, o), t)
            }
            Rvalue::BinaryOp(op, b) => format!(
                "{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}",
                q(&format!("{op:?}")),
                self.operand(body, te, &b.0),
                self.operand(body, te, &b.1)
            ),
            Rvalue::UnaryOp(op, o) => format!("{{\"k\":\"un\",\"op\":{},\"o\":{}}}", q(&format!("{op:?}")), self.operand(body, te, o)),
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"place\":{}}}", self.place(body, te, p)),
            Rvalue::CopyForDeref(p) => {
                format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"place\":{}}}}}", self.place(body, te, p))
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(body, te, o)).collect();
                let head = match **k {
                    AggregateKind::Array(t) => {
                        let t = self.norm(te, t);
                        format!("\"ak\":\"array\",\"ty\":{}", self.ty(t))
                    }
                    AggregateKind::Tuple => "\"ak\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, vi, a, _, af) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, a).skip_norm_wip();
                        let t = self.norm(te, t);
                        format!("\"ak\":\"adt\",\"v\":{},\"ty\":{},\"active\":{}", vi.index(), self.ty(t), af.map(|f| f.index().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, d, a);
                        format!("\"ak\":\"closure\",\"ty\":{}", self.ty(t))
                    }
                    ref o => format!("\"ak\":\"other\",\"s\":{}", q(&format!("{o:?}"))),
                };
                format!("{{\"k\":\"agg\",{},\"os\":{}}}", head, arr(os))
            }
            other => format!("{{\"k\":\"other\",\"s\":{}}}", q(&format!("{other:?}"))),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, te: ty::TypingEnv<'tcx>) -> String {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.norm(te, d.ty);
            let n = names.get(&l.index()).map(|s| q(s)).unwrap_or("null".into());
            locals.push(format!("{{\"ty\":{},\"name\":{}}}", self.ty(t), n));
        }
        let sm = self.tcx.sess.source_map();
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            if !data.is_cleanup {
                for s in &data.statements {
                    let line = sm.lookup_char_pos(s.source_info.span.lo()).line;
                    match &s.kind {
                        StatementKind::Assign(b) => stmts.push(format!(
                            "{{\"k\":\"assign\",\"place\":{},\"rv\":{},\"line\":{}}}",
                            self.place(body, te, &b.0),
                            self.rvalue(body, te, &b.1),
                            line
                        )),
                        StatementKind::SetDiscriminant { place, variant_index } => stmts.push(format!(
                            "{{\"k\":\"setdiscr\",\"place\":{},\"v\":{}}}",
                            self.place(body, te, place),
                            variant_index.index()
                        )),
                        StatementKind::Intrinsic(i) => match &**i {
                            NonDivergingIntrinsic::Assume(_) => (),
                            o => stmts.push(format!("{{\"k\":\"other\",\"s\":{}}}", q(&format!("{o:?}")))),
                        },
                        _ => (),
                    }
                }
            }
            let line = sm.lookup_char_pos(data.terminator().source_info.span.lo()).line;
            let term = if data.is_cleanup {
                "{\"k\":\"cleanup\"}".to_string()
            } else {
                match &data.terminator().kind {
                    TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.index()),
                    TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.index()),
                    TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.index()),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let d = self.operand(body, te, discr);
                        let t = discr.ty(&body.local_decls, self.tcx);
                        let t = self.norm(te, t);
                        let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.index())).collect();
                        format!("{{\"k\":\"switch\",\"d\":{},\"ty\":{},\"vals\":{},\"other\":{}}}", d, self.ty(t), arr(v), targets.otherwise().index())
                    }
                    TerminatorKind::Return => "{\"k\":\"return\"}".into(),
                    TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                    TerminatorKind::Drop { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.index()),
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let f = self.operand(body, te, func);
                        let a: Vec<String> = args.iter().map(|a| self.operand(body, te, &a.node)).collect();
                        format!(
                            "{{\"k\":\"call\",\"f\":{},\"args\":{},\"dest\":{},\"t\":{},\"line\":{}}}",
                            f,
                            arr(a),
                            self.place(body, te, destination),
                            target.map(|t| t.index().to_string()).unwrap_or("null".into()),
                            line
                        )
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let m = match &**msg {
                            AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                            AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                            o => format!("{o:?}"),
                        };
                        format!(
                            "{{\"k\":\"assert\",\"c\":{},\"e\":{},\"msg\":{},\"t\":{},\"line\":{}}}",
                            self.operand(body, te, cond),
                            expected,
                            q(&m),
                            target.index(),
                            line
                        )
                    }
                    o => format!("{{\"k\":\"other\",\"s\":{}}}", q(&format!("{o:?}"))),
                }
            };
            blocks.push(format!("{{\"s\":{},\"t\":{}}}", arr(stmts), term));
        }
        format!("\"argc\":{},\"locals\":{},\"blocks\":{}", body.arg_count, arr(locals), arr(blocks))
    }

    fn adt(&mut self, d: DefId) {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let p = self.path(d);
        let krate = tcx.crate_name(d.krate).to_string();
        let std = matches!(krate.as_str(), "core" | "std" | "alloc");
        let generics: Vec<String> = tcx.generics_of(d).own_params.iter().map(|p| q(p.name.as_str())).collect();
        let mut vs = vec![];
        let expand = d.is_local() || (std && def.is_enum()) || (std && p.contains("ops::range"));
        if expand {
            let discrs: Vec<u128> = if def.is_enum() { def.discriminants(tcx).map(|(_, d)| d.val).collect() } else { vec![0] };
            for (i, v) in def.variants().iter_enumerated() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let te = ty::TypingEnv::post_analysis(tcx, d);
                    let t = if d.is_local() { self.norm(te, t) } else { t };
                    fs.push(format!("{{\"name\":{},\"ty\":{}}}", q(f.name.as_str()), self.ty(t)));
                }
                vs.push(format!(
                    "{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}",
                    q(v.name.as_str()),
                    discrs.get(i.index()).copied().unwrap_or(0),
                    arr(fs)
                ));
            }
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let s = format!(
            "{{\"path\":{},\"name\":{},\"kind\":\"{}\",\"local\":{},\"expanded\":{},\"generics\":{},\"variants\":{}}}",
            q(&p),
            q(tcx.item_name(d).as_str()),
            kind,
            d.is_local(),
            expand,
            arr(generics),
            arr(vs)
        );
        self.adts.insert(p, s);
    }
}

struct Dump;
impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("VP_CRATE").unwrap_or_default();
        let out = match std::env::var("VP_MIR_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if !want.split(',').any(|w| w == name) {
            return Compilation::Continue;
        }
        let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), adts: BTreeMap::new(), adt_queue: VecDeque::new(), adt_seen: Default::default() };
        let mut fns = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if !is_fn || !tcx.is_mir_available(d) {
                continue;
            }
            let te = ty::TypingEnv::post_analysis(tcx, d);
            let body = tcx.optimized_mir(d);
            let b = cx.body(body, te);
            let promoted: Vec<String> = tcx.promoted_mir(d).iter().map(|p| format!("{{{}}}", cx.body(p, te))).collect();
            let (mut iself, mut itrait, mut iself_ty) = ("null".to_string(), "null".to_string(), "null".to_string());
            let mut in_trait = "null".to_string();
            if matches!(kind, DefKind::AssocFn) {
                let parent = tcx.parent(d);
                match tcx.def_kind(parent) {
                    DefKind::Impl { of_trait } => {
                        let t = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                        iself_ty = cx.ty(t).to_string();
                        iself = q(&match t.kind() {
                            ty::Adt(a, _) => tcx.item_name(a.did()).to_string(),
                            _ => format!("{t}"),
                        });
                        if of_trait {
                            let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                            itrait = q(&cx.path(tr.def_id));
                        }
                    }
                    DefKind::Trait => in_trait = q(&cx.path(parent)),
                    _ => (),
                }
            }
            let generics: Vec<String> = {
                let g = tcx.generics_of(d);
                (0..g.count()).map(|i| q(g.param_at(i, tcx).name.as_str())).collect()
            };
            let sm = tcx.sess.source_map();
            let loc = sm.lookup_char_pos(tcx.def_span(d).lo());
            let file = format!("{}", loc.file.name.prefer_local_unconditionally());
            let nm = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or("{closure}".into());
            let is_pub = !matches!(kind, DefKind::Closure) && tcx.effective_visibilities(()).is_reachable(*ld);
            fns.push(format!(
                "{}:{{\"path\":{},\"name\":{},\"kind\":{},\"pub\":{},\"impl_self\":{},\"impl_self_ty\":{},\"impl_trait\":{},\"in_trait\":{},\"generics\":{},\"file\":{},\"line\":{},{},\"promoted\":{}}}",
                q(&cx.path(d)),
                q(&cx.path(d)),
                q(&nm),
                q(&format!("{kind:?}")),
                is_pub,
                iself,
                iself_ty,
                itrait,
                in_trait,
                arr(generics),
                q(&file),
                loc.line,
                b,
                arr(promoted)
            ));
        }
        while let Some(d) = cx.adt_queue.pop_front() {
            cx.adt(d);
        }
        let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
        let s = format!(
            "{{\"crate\":{},\"fns\":{{{}}},\n\"adts\":{{{}}},\n\"types\":[{}]}}",
            q(&name),
            fns.join(",\n"),
            adts.join(",\n"),
            cx.types.join(",\n")
        );
        let tmp = format!("{out}.tmp");
        std::fs::write(&tmp, s).unwrap();
        std::fs::rename(&tmp, format!("{out}/{name}.json").as_str()).unwrap_or_else(|_| {
            std::fs::rename(&tmp, &out).unwrap();
        });
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Dump))
}
