// mirdump: a rustc driver that writes the type-checked program of the
// certified-vars crate (MIR as built, resolved callees, ADT definitions, trait
// impls, public signatures) as JSON, for the analyses in /verif/engine.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TyKind, TypeVisitableExt, TypingEnv};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

struct Cb {
    out: String,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, Value>,
    opaque: Vec<DefId>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, s: rustc_span::Span) -> Value {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        json!(format!("{}:{}", lo.file.name.prefer_local_unconditionally().to_string(), lo.line))
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> Value {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t));
            } else if let Some(c) = a.as_const() {
                v.push(json!({"k":"const","s":format!("{}", c)}));
            }
        }
        Value::Array(v)
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> String {
        let name = path(self.tcx, def.did());
        if self.adts.contains_key(&name) {
            return name;
        }
        self.adts.insert(name.clone(), Value::Null);
        let mut vs = vec![];
        for (i, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let rt = if def.did().is_local() { self.rty(t) } else { Value::Null };
                let t = if def.did().is_local() { self.ty(t) } else { json!({"k":"?","s":format!("{}", t)}) };
                let vis = match self.tcx.visibility(f.did) {
                    ty::Visibility::Public => "pub".to_string(),
                    ty::Visibility::Restricted(d) => format!("restricted({})", path(self.tcx, d.into())),
                };
                fs.push(json!({"name": f.name.to_string(), "ty": t, "rty": rt, "vis": vis}));
            }
            let discr = if def.is_enum() {
                Some(def.discriminant_for_variant(self.tcx, i).val.to_string())
            } else {
                None
            };
            vs.push(json!({"name": v.name.to_string(), "fields": fs, "discr": discr}));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let v = json!({"kind": kind, "variants": vs, "local": def.did().is_local(), "box": def.is_box()});
        self.adts.insert(name.clone(), v);
        name
    }

    /// a type with its regions, for signature analyses
    fn rty(&mut self, t: Ty<'tcx>) -> Value {
        let s = with_no_trimmed_paths!(format!("{}", t));
        match t.kind() {
            TyKind::Adt(def, args) => {
                let n = self.adt(*def);
                let (a, r) = self.rargs(args);
                json!({"k":"adt","n":n,"a":a,"ra":r,"s":s})
            }
            TyKind::Ref(r, t, m) => json!({"k":"ref","t":self.rty(*t),"m":m.is_mut(),"r":self.reg(*r),"s":s}),
            TyKind::RawPtr(t, m) => json!({"k":"ptr","t":self.rty(*t),"m":m.is_mut(),"s":s}),
            TyKind::Slice(t) => json!({"k":"slice","t":self.rty(*t),"s":s}),
            TyKind::Array(t, _) => json!({"k":"array","t":self.rty(*t),"s":s}),
            TyKind::Tuple(ts) => {
                let v: Vec<Value> = ts.iter().map(|t| self.rty(t)).collect();
                json!({"k":"tuple","a":v,"s":s})
            }
            TyKind::Param(p) => json!({"k":"param","n":p.name.to_string(),"s":s}),
            TyKind::Dynamic(_, r) => json!({"k":"dyn","r":self.reg(*r),"s":s}),
            TyKind::Alias(_, al) => {
                let (a, r) = self.rargs(al.args);
                let d = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => def_id.into(),
                    ty::AliasTyKind::Inherent { def_id } => def_id.into(),
                    ty::AliasTyKind::Opaque { def_id } => def_id.into(),
                    ty::AliasTyKind::Free { def_id } => def_id.into(),
                };
                let d: DefId = d;
                let mut b = vec![];
                if matches!(al.kind, ty::AliasTyKind::Opaque { .. }) && !self.opaque.contains(&d) {
                    self.opaque.push(d);
                    let cl: Vec<ty::Clause<'tcx>> = self.tcx.item_bounds(d).instantiate(self.tcx, al.args).skip_norm_wip().iter().collect();
                    for c in cl { b.push(self.clause(c)); }
                    self.opaque.pop();
                }
                json!({"k":"alias","ak":format!("{:?}", al.kind).split(' ').next().unwrap_or("").to_string(),"n":path(self.tcx, d),"a":a,"ra":r,"bounds":b,"s":s})
            }
            TyKind::FnPtr(sig, _) => {
                let v: Vec<Value> = sig.skip_binder().inputs_and_output.iter().map(|t| self.rty(t)).collect();
                json!({"k":"fnptr","a":v,"s":s})
            }
            _ => self.ty(t),
        }
    }

    fn reg(&mut self, r: ty::Region<'tcx>) -> Value {
        json!(match r.kind() {
            ty::ReStatic => "'static".to_string(),
            ty::ReBound(..) => format!("bound:{:?}", r),
            ty::ReEarlyParam(p) => format!("{}", p.name),
            ty::ReLateParam(p) => format!("late:{:?}", p.kind),
            _ => format!("{:?}", r),
        })
    }

    fn rargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> (Value, Value) {
        let mut v = vec![]; let mut rs = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() { v.push(self.rty(t)); }
            else if let Some(r) = a.as_region() { rs.push(self.reg(r)); }
        }
        (Value::Array(v), Value::Array(rs))
    }

    fn clause(&mut self, c: ty::Clause<'tcx>) -> Value {
        match c.kind().skip_binder() {
            ty::ClauseKind::Trait(t) => {
                let (a, r) = self.rargs(t.trait_ref.args);
                json!({"k":"trait","n":path(self.tcx, t.trait_ref.def_id),"a":a,"ra":r})
            }
            ty::ClauseKind::Projection(p) => {
                let (a, r) = self.rargs(p.projection_term.args);
                let t = match p.term.as_type() { Some(t) => self.rty(t), None => Value::Null };
                json!({"k":"proj","n":path(self.tcx, p.projection_term.expect_projection_def_id()),"a":a,"ra":r,"t":t})
            }
            ty::ClauseKind::RegionOutlives(o) => json!({"k":"outl","a":self.reg(o.0),"b":self.reg(o.1)}),
            ty::ClauseKind::TypeOutlives(o) => json!({"k":"toutl","a":self.rty(o.0),"b":self.reg(o.1)}),
            other => json!({"k":"?","s":format!("{:?}", other)}),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> Value {
        let s = with_no_trimmed_paths!(format!("{}", t));
        match t.kind() {
            TyKind::Adt(def, args) => {
                let n = self.adt(*def);
                let a = self.args(args);
                json!({"k":"adt","n":n,"a":a,"s":s})
            }
            TyKind::Ref(r, t, m) => json!({"k":"ref","t":self.ty(*t),"m":m.is_mut(),"r":format!("{}", r),"s":s}),
            TyKind::RawPtr(t, m) => json!({"k":"ptr","t":self.ty(*t),"m":m.is_mut(),"s":s}),
            TyKind::Slice(t) => json!({"k":"slice","t":self.ty(*t),"s":s}),
            TyKind::Array(t, n) => json!({"k":"array","t":self.ty(*t),"n":format!("{}", n),"s":s}),
            TyKind::Tuple(ts) => {
                let v: Vec<Value> = ts.iter().map(|t| self.ty(t)).collect();
                json!({"k":"tuple","a":v,"s":s})
            }
            TyKind::Param(p) => json!({"k":"param","n":p.name.to_string(),"s":s}),
            TyKind::FnDef(d, a) => {
                let f = self.fnref(*d, a.no_bound_vars().unwrap_or_else(|| a.skip_binder()), None);
                json!({"k":"fndef","f":f,"s":s})
            }
            TyKind::Closure(d, _) => json!({"k":"closure","n":path(self.tcx, *d),"s":s}),
            TyKind::Dynamic(..) => json!({"k":"dyn","s":s}),
            TyKind::Alias(..) => json!({"k":"alias","s":s}),
            TyKind::FnPtr(..) => json!({"k":"fnptr","s":s}),
            TyKind::Never => json!({"k":"never","s":s}),
            TyKind::Bool => json!({"k":"bool","s":s}),
            TyKind::Int(_) | TyKind::Uint(_) => json!({"k":"int","s":s}),
            TyKind::Char => json!({"k":"char","s":s}),
            TyKind::Str => json!({"k":"str","s":s}),
            TyKind::Float(_) => json!({"k":"float","s":s}),
            _ => json!({"k":"?","s":s}),
        }
    }

    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: Option<DefId>) -> Value {
        let mut m = Map::new();
        m.insert("p".into(), json!(path(self.tcx, d)));
        m.insert("full".into(), json!(with_no_trimmed_paths!(self.tcx.def_path_str_with_args(d, args))));
        m.insert("a".into(), self.args(args));
        m.insert("local".into(), json!(d.is_local()));
        m.insert("name".into(), json!(self.tcx.opt_item_name(d).map(|s| s.to_string())));
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            m.insert("trait".into(), json!(path(self.tcx, tr)));
        }
        if let Some(im) = self.tcx.impl_of_assoc(d) {
            m.insert("impl".into(), json!(path(self.tcx, im)));
        }
        if let DefKind::Ctor(..) = self.tcx.def_kind(d) {
            m.insert("ctor".into(), json!(true));
        }
        if let Some(e) = env {
            let te = TypingEnv::non_body_analysis(self.tcx, e);
            if self.tcx.trait_of_assoc(d).is_some() {
                let eargs = self.tcx.erase_and_anonymize_regions(args);
                if !eargs.has_infer() {
                    if let Ok(Some(i)) = Instance::try_resolve(self.tcx, te, d, eargs) {
                        let id = i.def_id();
                        if id != d {
                            m.insert("res".into(), json!(path(self.tcx, id)));
                            m.insert("res_local".into(), json!(id.is_local()));
                            let ra = self.args(i.args);
                            m.insert("res_a".into(), ra);
                        }
                    }
                }
            }
        }
        Value::Object(m)
    }

    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> Value {
        let mut v = vec![json!(p.local.as_usize())];
        let mut pty = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => {
                    let isbox = pty.ty.is_box();
                    json!(if isbox { "b" } else { "*" })
                }
                ProjectionElem::Field(f, _) => json!({"f": f.as_usize()}),
                ProjectionElem::Index(l) => json!({"i": l.as_usize()}),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => json!({"ci": offset, "fe": from_end}),
                ProjectionElem::Subslice { from, to, from_end } => json!({"ss": [from, to], "fe": from_end}),
                ProjectionElem::Downcast(_, vi) => json!({"v": vi.as_usize()}),
                _ => json!({"?": format!("{:?}", e)}),
            };
            v.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        Value::Array(v)
    }

    fn konst(&mut self, b: &Body<'tcx>, c: &ConstOperand<'tcx>, env: DefId) -> Value {
        let t = c.const_.ty();
        if let TyKind::FnDef(d, a) = t.kind() {
            let f = self.fnref(*d, a.no_bound_vars().unwrap_or_else(|| a.skip_binder()), Some(env));
            return json!({"fn": f});
        }
        let te = TypingEnv::non_body_analysis(self.tcx, env);
        let mut m = Map::new();
        m.insert("ty".into(), self.ty(t));
        let s = with_no_trimmed_paths!(format!("{}", c.const_));
        m.insert("c".into(), json!(s));
        if let Const::Unevaluated(u, _) = c.const_ {
            m.insert("uneval".into(), json!(path(self.tcx, u.def)));
            if let Some(p) = u.promoted { m.insert("promoted".into(), json!(p.as_usize())); }
        }
        if !c.const_.has_param() && (t.is_integral() || t.is_bool() || t.is_char()) {
            if let Some(si) = c.const_.try_eval_scalar_int(self.tcx, te) {
                let sz = si.size();
                let bits = si.to_bits(sz);
                let v = if t.is_signed() { sz.sign_extend(bits).to_string() } else { bits.to_string() };
                m.insert("int".into(), json!(v));
            }
        }
        if let Some(d) = c.check_static_ptr(self.tcx) {
            let ty = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
            m.insert("static".into(), json!({"n": path(self.tcx, d), "mut": self.tcx.is_mutable_static(d),
                "tls": self.tcx.is_thread_local_static(d), "freeze": ty.is_freeze(self.tcx, TypingEnv::non_body_analysis(self.tcx, d))}));
        }
        let _ = b;
        Value::Object(m)
    }

    fn op(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>, env: DefId) -> Value {
        match o {
            Operand::Copy(p) => json!({"copy": self.place(b, p)}),
            Operand::Move(p) => json!({"move": self.place(b, p)}),
            Operand::Constant(c) => json!({"const": self.konst(b, c, env)}),
            #[allow(unreachable_patterns)]
            _ => json!({"?": format!("{:?}", o)}),
        }
    }

    fn rv(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>, env: DefId) -> Value {
        match r {
            Rvalue::Use(o, ..) => json!({"r":"use","o":self.op(b, o, env)}),
            Rvalue::Repeat(o, n) => json!({"r":"repeat","o":self.op(b, o, env),"n":format!("{}", n)}),
            Rvalue::Ref(_, k, p) => json!({"r":"ref","m":matches!(k, BorrowKind::Mut{..}),"p":self.place(b, p)}),
            Rvalue::RawPtr(_, p) => json!({"r":"addr","p":self.place(b, p)}),
            Rvalue::Cast(k, o, t) => json!({"r":"cast","k":format!("{:?}", k),"o":self.op(b, o, env),"t":self.ty(*t)}),
            Rvalue::BinaryOp(k, x) => json!({"r":"bin","k":format!("{:?}", k),"a":self.op(b, &x.0, env),"b":self.op(b, &x.1, env)}),
            Rvalue::UnaryOp(k, o) => json!({"r":"un","k":format!("{:?}", k),"o":self.op(b, o, env)}),
            Rvalue::Discriminant(p) => json!({"r":"discr","p":self.place(b, p)}),
            Rvalue::CopyForDeref(p) => json!({"r":"use","o":{"copy":self.place(b, p)}}),
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => json!({"k":"array"}),
                    AggregateKind::Tuple => json!({"k":"tuple"}),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let n = self.adt(def);
                        let a = self.args(args);
                        json!({"k":"adt","n":n,"v":vi.as_usize(),"a":a})
                    }
                    AggregateKind::Closure(d, _) => json!({"k":"closure","n":path(self.tcx, *d)}),
                    other => json!({"k":"?","s":format!("{:?}", other)}),
                };
                let v: Vec<Value> = ops.iter().map(|o| self.op(b, o, env)).collect();
                json!({"r":"agg","k":kind,"ops":v})
            }
            other => json!({"r":"?","s":format!("{:?}", other)}),
        }
    }

    fn body(&mut self, d: LocalDefId, b: &Body<'tcx>) -> Value {
        let tcx = self.tcx;
        let env = tcx.typeck_root_def_id(d.to_def_id());
        let mut locals = vec![];
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        for (l, ld) in b.local_decls.iter_enumerated() {
            locals.push(json!({"ty": self.ty(ld.ty), "n": names.get(&l.as_usize())}));
        }
        let mut bbs = vec![];
        for bb in b.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(b, &x.0);
                        let r = self.rv(b, &x.1, env);
                        ss.push(json!({"s":"=","p":p,"r":r,"at":sp}));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(b, place);
                        ss.push(json!({"s":"setd","p":p,"v":variant_index.as_usize(),"at":sp}));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let mut tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => json!({"t":"goto","to":target.as_usize()}),
                TerminatorKind::FalseEdge { real_target, .. } => json!({"t":"goto","to":real_target.as_usize()}),
                TerminatorKind::FalseUnwind { real_target, .. } => json!({"t":"goto","to":real_target.as_usize()}),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, bb) in targets.iter() {
                        v.push(json!([val.to_string(), bb.as_usize()]));
                    }
                    let dt = discr.ty(&b.local_decls, tcx);
                    json!({"t":"switch","o":self.op(b, discr, env),"ty":self.ty(dt),"c":v,"else":targets.otherwise().as_usize()})
                }
                TerminatorKind::Return => json!({"t":"return"}),
                TerminatorKind::Unreachable => json!({"t":"unreachable"}),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => json!({"t":"resume"}),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&b.local_decls, tcx).ty;
                    json!({"t":"drop","p":self.place(b, place),"ty":self.ty(ty),"to":target.as_usize()})
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<Value> = args.iter().map(|x| self.op(b, &x.node, env)).collect();
                    json!({"t":"call","f":self.op(b, func, env),"args":a,"d":self.place(b, destination),"to":target.map(|x| x.as_usize())})
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    json!({"t":"assert","o":self.op(b, cond, env),"e":expected,"msg":format!("{:?}", msg).chars().take(60).collect::<String>(),"to":target.as_usize()})
                }
                other => json!({"t":"?","s":format!("{:?}", other)}),
            };
            tj["at"] = sp;
            bbs.push(json!({"s":ss,"t":tj,"cleanup":bb.is_cleanup}));
        }
        json!({"argc": b.arg_count, "locals": locals, "bbs": bbs, "spread": b.spread_arg.map(|l| l.as_usize())})
    }
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, adts: BTreeMap::new(), opaque: vec![] };
        let mut fns = Map::new();
        // copies first: later queries (hidden types of `impl Trait` results) consume the built bodies
        let mut built = BTreeMap::new();
        for d in tcx.hir_body_owners() {
            let st = tcx.mir_built(d);
            if !st.is_stolen() { built.insert(d.local_def_index.as_u32(), st.borrow().clone()); }
        }
        for d in tcx.hir_body_owners() {
            let did = d.to_def_id();
            let kind = tcx.def_kind(did);
            let name = path(tcx, did);
            let mut m = Map::new();
            m.insert("kind".into(), json!(format!("{:?}", kind)));
            m.insert("span".into(), cx.span(tcx.def_span(did)));
            let fnlike = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if !fnlike && !matches!(kind, DefKind::Const{..} | DefKind::Static{..} | DefKind::AssocConst{..}) {
                continue;
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                m.insert("sig".into(), json!(with_no_trimmed_paths!(format!("{}", sig))));
                let sb = sig.skip_binder();
                let ins: Vec<Value> = sb.inputs().iter().map(|t| cx.ty(*t)).collect();
                m.insert("ins".into(), json!(ins));
                let out = cx.ty(sb.output());
                m.insert("out".into(), out);
                m.insert("unsafe".into(), json!(sb.safety().is_unsafe()));
                let ev = tcx.effective_visibilities(()).is_reachable(d);
                m.insert("reachable".into(), json!(ev));
                m.insert("vis_pub".into(), json!(tcx.visibility(did).is_public()));
                let g = tcx.generics_of(did);
                let mut gs = vec![];
                let mut gg = Some(g);
                while let Some(x) = gg {
                    let own: Vec<_> = x.own_params.iter()
                        .map(|p| json!({"n": p.name.to_string(), "k": format!("{:?}", p.kind)})).collect();
                    gs.splice(0..0, own);
                    gg = x.parent.map(|p| tcx.generics_of(p));
                }
                m.insert("generics".into(), json!(gs));
                let preds: Vec<String> = tcx.clauses_of(did).instantiate_identity(tcx).clauses.iter()
                    .map(|p| with_no_trimmed_paths!(format!("{}", p.skip_norm_wip()))).collect();
                m.insert("preds".into(), json!(preds));
                let lsig = tcx.liberate_late_bound_regions(did, sig);
                let ins: Vec<Value> = lsig.inputs().iter().map(|t| cx.rty(*t)).collect();
                m.insert("rins".into(), json!(ins));
                let out = cx.rty(lsig.output());
                m.insert("rout".into(), out);
                let cls: Vec<Value> = tcx.clauses_of(did).instantiate_identity(tcx).clauses.iter()
                    .map(|p| cx.clause(p.skip_norm_wip())).collect();
                m.insert("rpreds".into(), json!(cls));
                if let Some(im) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let v = cx.rty(st);
                    m.insert("rself".into(), v);
                }
            }
            let parent = tcx.parent(did);
            m.insert("parent".into(), json!(path(tcx, parent)));
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                m.insert("self_ty".into(), cx.ty(st));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    m.insert("trait".into(), json!(path(tcx, tr.def_id)));
                    m.insert("trait_ref".into(), json!(with_no_trimmed_paths!(format!("{}", tr))));
                }
            }
            if let Some(b) = built.get(&d.local_def_index.as_u32()) {
                let bj = cx.body(d, b);
                m.insert("body".into(), bj);
            }
            let mut key = name.clone();
            let mut i = 1;
            while fns.contains_key(&key) { i += 1; key = format!("{}~{}", name, i); }
            fns.insert(key, Value::Object(m));
        }
        // impls
        let mut impls = vec![];
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            if let DefKind::Impl { .. } = tcx.def_kind(did) {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let tr = tcx.impl_opt_trait_ref(did).map(|t| t.instantiate_identity().skip_norm_wip());
                let items: Vec<String> = tcx.associated_items(did).in_definition_order().map(|a| path(tcx, a.def_id)).collect();
                let preds: Vec<String> = tcx.clauses_of(did).instantiate_identity(tcx).clauses.iter()
                    .map(|p| with_no_trimmed_paths!(format!("{}", p.skip_norm_wip()))).collect();
                let mut assoc = Map::new();
                for a in tcx.associated_items(did).in_definition_order() {
                    if matches!(tcx.def_kind(a.def_id), DefKind::AssocTy) {
                        let t = tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip();
                        assoc.insert(a.name().to_string(), cx.rty(t));
                    }
                }
                let rs = cx.rty(st);
                let neg = tr.map(|_| format!("{:?}", tcx.impl_polarity(did)));
                impls.push(json!({
                    "path": path(tcx, did), "self": cx.ty(st),
                    "trait": tr.map(|t| path(tcx, t.def_id)),
                    "trait_ref": tr.map(|t| with_no_trimmed_paths!(format!("{}", t))),
                    "items": items, "preds": preds, "assoc": assoc, "rself": rs, "polarity": neg,
                    "span": cx.span(tcx.def_span(did)),
                }));
            }
        }
        // auto traits of the reachable types: under which assumptions on each type parameter they hold
        let mut auto = vec![];
        let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
        let sync = tcx.lang_items().sync_trait();
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) { continue; }
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let params: Vec<Ty> = match t.kind() {
                TyKind::Adt(_, args) => args.types().filter(|t| matches!(t.kind(), TyKind::Param(_))).collect(),
                _ => vec![],
            };
            let base = tcx.param_env(did);
            let holds = |tr: DefId, extra: Vec<(DefId, Ty<'tcx>)>| -> bool {
                let mut cl: Vec<ty::Clause<'tcx>> = base.caller_bounds().collect();
                for (d, x) in extra {
                    cl.push(ty::Upcast::upcast(ty::TraitRef::new(tcx, d, [x]), tcx));
                }
                let env = ty::ParamEnv::new(tcx, cl);
                let (infcx, env) = tcx.infer_ctxt().build_with_typing_env(ty::TypingEnv::new(env, ty::TypingMode::non_body_analysis()));
                infcx.type_implements_trait(tr, [t], env).must_apply_modulo_regions()
            };
            let (Some(se), Some(sy)) = (send, sync) else { continue };
            let mut res = Map::new();
            for (nm, tr) in [("Send", se), ("Sync", sy)] {
                let mut by = Map::new();
                by.insert("".into(), json!(holds(tr, vec![])));
                for x in &params {
                    let others: Vec<(DefId, Ty)> = params.iter().filter(|y| *y != x).flat_map(|y| [(se, *y), (sy, *y)]).collect();
                    let w = |e: Vec<DefId>| { let mut o = others.clone(); o.extend(e.into_iter().map(|d| (d, *x))); holds(tr, o) };
                    by.insert(x.to_string(), json!({"none": w(vec![]), "send": w(vec![se]), "sync": w(vec![sy])}));
                }
                res.insert(nm.into(), Value::Object(by));
            }
            auto.push(json!({"adt": path(tcx, did), "reachable": tcx.effective_visibilities(()).is_reachable(id.owner_id.def_id),
                "auto": res, "span": cx.span(tcx.def_span(did))}));
        }
        let out = json!({"auto": auto, "fns": fns, "adts": cx.adts, "impls": impls,
            "crate": tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string(),
            "debug_assertions": tcx.sess.opts.debug_assertions});
        std::fs::write(&self.out, serde_json::to_string(&out).unwrap()).unwrap();
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "certified_vars")
        && !args.iter().any(|a| a == "--test");
    match out {
        Some(out) if is_target => rustc_driver::compiler_entrypoint(&args, &mut Cb { out }),
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    }
}
