// Dumps the MIR (stage `mir_promoted`: typed, before drop elaboration and before
// coroutine lowering) of every function, closure, coroutine and constant of a crate
// as JSON.  Used as RUSTC_WORKSPACE_WRAPPER: `mirdump <rustc> <args...>`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::collections::HashMap;
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(o, "\\u{:04x}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(i: I) -> String {
    let mut o = "[".to_string();
    for (k, x) in i.into_iter().enumerate() {
        if k > 0 {
            o.push(',');
        }
        o.push_str(&x);
    }
    o.push(']');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyjson: Vec<String>,
    adts: HashMap<DefId, String>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        if let Some(parent) = tcx.opt_parent(d) {
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                let selfty = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                let name = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default();
                let st = self.tyhead(selfty);
                if of_trait {
                    let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                    return format!("<{} as {}>::{}", st, self.path(tr.def_id), name);
                }
                return format!("{}::{}", st, name);
            }
            if matches!(kind, DefKind::Closure) {
                let dp = tcx.def_path(d);
                let last = dp.data.last().unwrap();
                return format!("{}::{{closure#{}}}", self.path(parent), last.disambiguator);
            }
            if matches!(kind, DefKind::Ctor(..)) {
                return self.path(parent);
            }
            if tcx.opt_item_name(d).is_some() {
                return format!("{}::{}", self.path(parent), tcx.item_name(d));
            }
        }
        let cr = tcx.crate_name(d.krate).to_string();
        let rest = tcx.def_path(d).to_string_no_crate_verbose();
        format!("{}{}", cr, rest)
    }

    fn tyhead(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            ty::Slice(_) => "[T]".into(),
            ty::Str => "str".into(),
            ty::Ref(_, t, _) => format!("&{}", self.tyhead(*t)),
            ty::Array(..) => "[T;N]".into(),
            ty::Tuple(..) => "(..)".into(),
            ty::Param(_) => "T".into(),
            ty::Dynamic(..) => "dyn".into(),
            _ => format!("{}", t),
        }
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        let a = self.tcx.adt_def(d);
        let kind = if a.is_struct() {
            "struct"
        } else if a.is_enum() {
            "enum"
        } else {
            "union"
        };
        let discrs: Vec<String> = if a.is_enum() {
            a.discriminants(self.tcx).map(|(_, d)| d.val.to_string()).collect()
        } else {
            vec!["0".into()]
        };
        let vars = list(a.variants().iter().enumerate().map(|(i, v)| {
            format!(
                "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                q(v.name.as_str()),
                q(&discrs[i]),
                list(v.fields.iter().map(|f| q(f.name.as_str())))
            )
        }));
        self.adts.insert(d, String::new());
        let path = self.path(d);
        let mut ftys = "null".to_string();
        if ["hyper_ir_lsp::", "lsp_types::", "core::option::", "core::result::", "core::ops::range::", "serde_json::value::Value", "tower_lsp::jsonrpc::error"]
            .iter()
            .any(|p| path.starts_with(p))
            || d.is_local()
        {
            let id = ty::GenericArgs::identity_for_item(self.tcx, d);
            let mut vs = vec![];
            for v in a.variants().iter() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    fs.push(self.ty(f.ty(self.tcx, id).skip_norm_wip()));
                }
                vs.push(list(fs));
            }
            ftys = list(vs);
        }
        let gen = self.tcx.generics_of(d);
        let params = list(
            gen.own_params
                .iter()
                .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                .map(|p| q(p.name.as_str())),
        );
        let s = format!(
            "{{\"path\":{},\"kind\":{},\"local\":{},\"params\":{},\"variants\":{},\"ftys\":{}}}",
            q(&path), q(kind), d.is_local(), params, vars, ftys
        );
        self.adts.insert(d, s);
    }

    fn ty(&mut self, t: Ty<'tcx>) -> String {
        if let Some(i) = self.tys.get(&t) {
            return i.to_string();
        }
        let i = self.tyjson.len();
        self.tys.insert(t, i);
        self.tyjson.push(String::new());
        let gargs = |me: &mut Self, a: ty::GenericArgsRef<'tcx>| -> String {
            let v: Vec<_> = a.iter().filter_map(|g| g.as_type()).collect();
            list(v.into_iter().map(|t| me.ty(t)).collect::<Vec<_>>())
        };
        let s = match *t.kind() {
            ty::Bool => "{\"k\":\"bool\"}".into(),
            ty::Char => "{\"k\":\"char\"}".into(),
            ty::Int(x) => format!("{{\"k\":\"int\",\"bits\":{}}}", x.bit_width().unwrap_or(64)),
            ty::Uint(x) => format!("{{\"k\":\"uint\",\"bits\":{}}}", x.bit_width().unwrap_or(64)),
            ty::Str => "{\"k\":\"str\"}".into(),
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Adt(a, args) => {
                self.adt(a.did());
                let g = gargs(self, args);
                format!("{{\"k\":\"adt\",\"path\":{},\"args\":{}}}", q(&self.path(a.did())), g)
            }
            ty::Ref(_, x, m) => format!("{{\"k\":\"ref\",\"mut\":{},\"t\":{}}}", m.is_mut(), self.ty(x)),
            ty::RawPtr(x, m) => format!("{{\"k\":\"ptr\",\"mut\":{},\"t\":{}}}", m.is_mut(), self.ty(x)),
            ty::Slice(x) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(x)),
            ty::Array(x, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", self.ty(x), n)
            }
            ty::Tuple(ts) => {
                let v: Vec<_> = ts.iter().collect();
                let l = list(v.into_iter().map(|t| self.ty(t)).collect::<Vec<_>>());
                format!("{{\"k\":\"tuple\",\"ts\":{}}}", l)
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"name\":{}}}", q(p.name.as_str())),
            ty::Closure(d, _) => format!("{{\"k\":\"closure\",\"path\":{}}}", q(&self.path(d))),
            ty::Coroutine(d, _) => format!("{{\"k\":\"coroutine\",\"path\":{}}}", q(&self.path(d))),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", q(&format!("{}", t))),
        };
        self.tyjson[i] = s;
        i.to_string()
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"field\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"cindex\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"downcast\",{}]", v.as_usize()),
                _ => "[\"cast\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), list(pr))
    }

    fn fnref(&mut self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let targs: Vec<_> = args.iter().filter_map(|g| g.as_type()).collect();
        let l = list(targs.into_iter().map(|t| self.ty(t)).collect::<Vec<_>>());
        let mut res = "null".to_string();
        if matches!(tcx.def_kind(d), DefKind::AssocFn | DefKind::Fn) {
            let env = ty::TypingEnv::non_body_analysis(tcx, owner);
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, args) {
                if i.def_id() != d {
                    res = q(&self.path(i.def_id()));
                }
            }
        }
        let ctor = match tcx.def_kind(d) {
            DefKind::Ctor(..) => {
                let p = tcx.parent(d);
                let (adt, vi) = if matches!(tcx.def_kind(p), DefKind::Variant) {
                    let a = tcx.parent(p);
                    (a, tcx.adt_def(a).variant_index_with_id(p).as_usize())
                } else {
                    (p, 0)
                };
                self.adt(adt);
                format!("[{},{}]", q(&self.path(adt)), vi)
            }
            _ => "null".into(),
        };
        format!("{{\"k\":\"fn\",\"path\":{},\"args\":{},\"res\":{},\"ctor\":{},\"local\":{}}}", q(&self.path(d)), l, res, ctor, d.is_local())
    }

    fn strval(&self, alloc: rustc_middle::mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(alloc) {
            GlobalAlloc::Memory(m) => Some(m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec()),
            _ => None,
        }
    }

    fn constant(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = *t.kind() {
            return self.fnref(owner, d.into(), a.no_bound_vars().unwrap());
        }
        let ts = self.ty(t);
        match c.const_ {
            Const::Val(v, _) => match v {
                ConstValue::Scalar(Scalar::Int(i)) => {
                    let size = i.size();
                    let bits = i.to_bits(size);
                    let val = if let ty::Int(_) = t.kind() { size.sign_extend(bits).to_string() } else { bits.to_string() };
                    format!("{{\"k\":\"scalar\",\"v\":{},\"t\":{}}}", q(&val), ts)
                }
                ConstValue::Scalar(Scalar::Ptr(..)) => {
                    // &'static [u8; N] and the like
                    if let Scalar::Ptr(p, _) = (match v { ConstValue::Scalar(s) => s, _ => unreachable!() }) {
                        let (prov, off) = p.prov_and_relative_offset();
                        if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(prov.alloc_id()) {
                            let n = m.inner().len();
                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..n).to_vec();
                            return format!("{{\"k\":\"bytes\",\"v\":{},\"t\":{}}}", list(b.iter().map(|x| x.to_string())), ts);
                        }
                    }
                    format!("{{\"k\":\"ptr\",\"t\":{}}}", ts)
                }
                ConstValue::ZeroSized => format!("{{\"k\":\"zst\",\"t\":{}}}", ts),
                ConstValue::Slice { alloc_id, meta } => match self.strval(alloc_id, 0, meta as usize) {
                    Some(b) => match String::from_utf8(b) {
                        Ok(s) => format!("{{\"k\":\"str\",\"v\":{},\"t\":{}}}", q(&s), ts),
                        Err(e) => format!("{{\"k\":\"bytes\",\"v\":{},\"t\":{}}}", list(e.as_bytes().iter().map(|x| x.to_string())), ts),
                    },
                    None => format!("{{\"k\":\"opaque\",\"t\":{}}}", ts),
                },
                ConstValue::Indirect { .. } => format!("{{\"k\":\"opaque\",\"t\":{}}}", ts),
            },
            Const::Unevaluated(u, _) => {
                // i64::MAX and the like: constants of other crates with a primitive value
                if u.promoted.is_none() && !u.def.is_local() && t.is_primitive() {
                    let env = ty::TypingEnv::non_body_analysis(self.tcx, owner);
                    if let Some(i) = c.const_.try_eval_scalar_int(self.tcx, env) {
                        let size = i.size();
                        let bits = i.to_bits(size);
                        let val = if let ty::Int(_) = t.kind() { size.sign_extend(bits).to_string() } else { bits.to_string() };
                        return format!("{{\"k\":\"scalar\",\"v\":{},\"t\":{}}}", q(&val), ts);
                    }
                }
                let p = u.promoted.map(|p| p.as_usize().to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"uneval\",\"path\":{},\"promoted\":{},\"t\":{},\"local\":{}}}", q(&self.path(u.def)), p, ts, u.def.is_local())
            }
            Const::Ty(_, k) => {
                if let Some(n) = k.try_to_target_usize(self.tcx) {
                    return format!("{{\"k\":\"scalar\",\"v\":{},\"t\":{}}}", q(&n.to_string()), ts);
                }
                if let Some(v) = k.try_to_value() {
                    if let Some(s) = v.try_to_leaf() {
                        let size = s.size();
                        return format!("{{\"k\":\"scalar\",\"v\":{},\"t\":{}}}", q(&s.to_bits(size).to_string()), ts);
                    }
                    if let Some(b) = v.try_to_raw_bytes(self.tcx) {
                        if let Ok(s) = String::from_utf8(b.to_vec()) {
                            return format!("{{\"k\":\"str\",\"v\":{},\"t\":{}}}", q(&s), ts);
                        }
                    }
                }
                format!("{{\"k\":\"opaque\",\"s\":{},\"t\":{}}}", q(&format!("{:?}", k)), ts)
            }
        }
    }

    fn operand(&mut self, owner: DefId, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.constant(owner, c)),
            _ => "[\"runtime\"]".into(),
        }
    }

    fn rvalue(&mut self, owner: DefId, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(owner, o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(owner, o), n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::Ref(_, b, p) => {
                let k = match b {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                    #[allow(unreachable_patterns)]
                    _ => "other",
                };
                format!("[\"ref\",{},{}]", q(k), self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", q(&format!("{:?}", k)), self.operand(owner, o), self.ty(*t)),
            Rvalue::BinaryOp(b, ab) => format!("[\"bin\",{},{},{}]", q(&format!("{:?}", b)), self.operand(owner, &ab.0), self.operand(owner, &ab.1)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", q(&format!("{:?}", u)), self.operand(owner, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let l = list(ops.iter().map(|o| self.operand(owner, o)).collect::<Vec<_>>());
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".into(),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        self.adt(*d);
                        let _ = args;
                        format!("[\"adt\",{},{}]", q(&self.path(*d)), v.as_usize())
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", q(&self.path(*d))),
                    AggregateKind::Coroutine(d, _) => format!("[\"coroutine\",{}]", q(&self.path(*d))),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", ks, l)
            }
            _ => format!("[\"other\",{}]", q(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, owner: DefId, b: &Body<'tcx>) -> String {
        let sm = self.tcx.sess.source_map();
        let loc = |sp: rustc_span::Span| -> String {
            let sp = sp.source_callsite();
            let l = sm.lookup_char_pos(sp.lo());
            format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
        };
        let locals = list(b.local_decls.iter().map(|d| self.ty(d.ty)).collect::<Vec<_>>());
        let names = list(b.var_debug_info.iter().filter_map(|v| match &v.value {
            VarDebugInfoContents::Place(p) => Some(format!("[{},{}]", q(v.name.as_str()), self.place(p))),
            _ => None,
        }).collect::<Vec<_>>());
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let a = self.place(&x.0);
                        let r = self.rvalue(owner, &x.1);
                        st.push(format!("[\"assign\",{},{}]", a, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setdiscr\",{},{}]", self.place(place), variant_index.as_usize()))
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let at = q(&loc(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let l = list(targets.iter().map(|(v, t)| format!("[{},{}]", q(&v.to_string()), t.as_usize())));
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    format!("[\"switch\",{},{},{},{}]", self.operand(owner, discr), l, targets.otherwise().as_usize(), self.ty(dt))
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(owner, func);
                    let a = list(args.iter().map(|a| self.operand(owner, &a.node)).collect::<Vec<_>>());
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let ats: Vec<_> = args.iter().map(|a| a.node.ty(&b.local_decls, self.tcx)).collect();
                    let atl = list(ats.into_iter().map(|t| self.ty(t)).collect::<Vec<_>>());
                    format!("[\"call\",{},{},{},{},{},{},{}]", f, a, self.place(destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), at, self.ty(dt), atl)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow in {:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow in negation".to_string(),
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "division by zero".to_string(),
                        _ => "assertion".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(owner, cond), expected, target.as_usize(), q(&m), at)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    format!("[\"yield\",{},{},{},{}]", self.operand(owner, value), resume.as_usize(), self.place(resume_arg), at)
                }
                TerminatorKind::CoroutineDrop => "[\"resume\"]".into(),
                k => format!("[\"other\",{}]", q(&format!("{:?}", k))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"at\":{},\"cleanup\":{}}}", list(st), ts, at, bb.is_cleanup));
        }
        format!("{{\"args\":{},\"locals\":{},\"names\":{},\"blocks\":{},\"at\":{}}}", b.arg_count, locals, names, list(blocks), q(&loc(b.span)))
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let mut d = Dump { tcx, tys: HashMap::new(), tyjson: vec![], adts: HashMap::new() };
        let mut fns = vec![];
        // Request all bodies first: a later query may steal them
        let owners: Vec<_> = tcx.hir_body_owners().collect();
        let mut bodies = vec![];
        for o in &owners {
            if matches!(tcx.def_kind(*o), DefKind::AnonConst) {
                continue;
            }
            let (b, p) = tcx.mir_promoted(*o);
            if b.is_stolen() || p.is_stolen() {
                eprintln!("mirdump: stolen body {:?}", o);
                continue;
            }
            bodies.push((*o, b.borrow().clone(), p.borrow().clone()));
        }
        for (o, b, p) in &bodies {
            let did = o.to_def_id();
            let body = d.body(did, b);
            let proms = list(p.iter().map(|x| d.body(did, x)).collect::<Vec<_>>());
            let path = d.path(did);
            let kind = format!("{:?}", tcx.def_kind(did));
            fns.push(format!("{}:{{\"kind\":{},\"body\":{},\"promoted\":{}}}", q(&path), q(&kind), body, proms));
        }
        let cr = tcx.crate_name(LOCAL_CRATE).to_string();
        let is_bin = tcx.entry_fn(()).is_some();
        let mut s = String::new();
        write!(s, "{{\"crate\":{},\"bin\":{},\"fns\":{{{}}},\"tys\":{},\"adts\":{}}}", q(&cr), is_bin, fns.join(",\n"), list(d.tyjson.clone()), list(d.adts.values().cloned())).unwrap();
        let f = format!("{}/{}.{}.json", self.out, cr, if is_bin { "bin" } else { "lib" });
        std::fs::write(&f, s).unwrap();
        rustc_driver::Compilation::Continue
    }
}

struct NoCb;
impl rustc_driver::Callbacks for NoCb {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_probe = args.iter().any(|a| a == "-vV" || a == "--print" || a.starts_with("--print=")) || args.iter().any(|a| a == "___");
    if is_probe || out.is_empty() {
        rustc_driver::compiler_entrypoint(&args, &mut NoCb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    }
}
