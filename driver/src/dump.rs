use crate::json::{n, s, J};
use rustc_hir::def::{CtorKind, CtorOf, DefKind};
use rustc_hir::def_id::DefId;
use rustc_middle::mir;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::{Span, DUMMY_SP};
use std::collections::{HashMap, HashSet, VecDeque};

/// Crates and modules whose bodies the engine may look into; every other callee is a leaf.
const CRATES: &[&str] = &["cosmwasm_std", "cw_utils", "cw2", "cw20"];
const CORE_MODS: &[&str] = &[
    "core::option", "core::result", "core::ops::control_flow", "core::ops::try_trait", "core::ops::function",
    "core::convert", "core::bool", "core::mem", "core::cmp", "core::array",
];
const STOP: &[&str] = &[
    "cosmwasm_std::serde", "cosmwasm_std::math", "cosmwasm_std::hex_binary", "cosmwasm_std::binary",
    "cosmwasm_std::testing", "cosmwasm_std::traits", "cosmwasm_std::addresses", "cosmwasm_std::errors",
    "cosmwasm_std::imports", "cosmwasm_std::exports", "cosmwasm_std::metadata", "cosmwasm_std::iterator",
    "cosmwasm_std::panic", "cosmwasm_std::import_helpers",
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_list: Vec<Ty<'tcx>>,
    keys: HashMap<Instance<'tcx>, String>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashSet<Instance<'tcx>>,
}

pub fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))))
}

fn tystr<'tcx>(t: Ty<'tcx>) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_list.len();
        self.types.insert(t, i);
        self.type_list.push(t);
        i
    }

    fn rich(&self, d: DefId) -> bool {
        let c = self.tcx.crate_name(d.krate).to_string();
        if c.starts_with("hpl_") || c == "cosmwasm_std" || c == "cw20" || c == "cw2" || c == "cw_utils" || c == "cw_storage_plus" {
            return true;
        }
        let p = path(self.tcx, d);
        p.starts_with("core::option") || p.starts_with("core::result") || p.starts_with("core::ops::control_flow")
    }

    fn ty_json(&mut self, t: Ty<'tcx>) -> J {
        let name = tystr(t);
        let mut o = vec![("n", s(name))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("p", s(path(self.tcx, def.did()))));
                o.push(("a", J::A(args.types().map(|x| n(self.ty(x))).collect())));
                o.push(("e", J::B(def.is_enum())));
                let rich = self.rich(def.did());
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let d = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val as i64 } else { 0 };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = if rich {
                            let ft = f.ty(self.tcx, args);
                            let ft = self.tcx.try_normalize_erasing_regions(self.env, ft);
                            match ft {
                                Ok(ft) => n(self.ty(ft)),
                                Err(_) => J::Null,
                            }
                        } else {
                            J::Null
                        };
                        fs.push(J::A(vec![s(f.name.to_string()), fty]));
                    }
                    vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", J::N(d)), ("f", J::A(fs))]));
                }
                o.push(("v", J::A(vs)));
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("t", n(self.ty(*x))));
                o.push(("m", J::B(m.is_mut())));
            }
            ty::RawPtr(x, _) => {
                o.push(("k", s("ptr")));
                o.push(("t", n(self.ty(*x))));
            }
            ty::Slice(x) => {
                o.push(("k", s("slice")));
                o.push(("t", n(self.ty(*x))));
            }
            ty::Array(x, len) => {
                o.push(("k", s("array")));
                o.push(("t", n(self.ty(*x))));
                if let Some(l) = len.try_to_target_usize(self.tcx) {
                    o.push(("len", J::N(l as i64)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                o.push(("a", J::A(ts.iter().map(|x| n(self.ty(x))).collect())));
            }
            ty::Int(_) | ty::Uint(_) => o.push(("k", s("int"))),
            ty::Bool => o.push(("k", s("bool"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("p", s(path(self.tcx, *d))));
                o.push(("a", J::A(args.as_closure().upvar_tys().iter().map(|x| n(self.ty(x))).collect())));
            }
            ty::FnDef(..) => o.push(("k", s("fndef"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }

    fn want(&self, inst: Instance<'tcx>) -> bool {
        let InstanceKind::Item(d) = inst.def else { return false };
        let c = self.tcx.crate_name(d.krate).to_string();
        let p = path(self.tcx, self.tcx.typeck_root_def_id(d));
        let base = p.trim_start_matches('<');
        let ok = c.starts_with("hpl_")
            || CRATES.contains(&c.as_str())
            || (c == "core" && {
                // impl methods print as `<T as Trait>::m`; use the raw def path for modules
                let raw = self.tcx.def_path(self.tcx.typeck_root_def_id(d)).to_string_no_crate_verbose();
                let raw = format!("core{raw}");
                CORE_MODS.iter().any(|m| raw.starts_with(m)) || CORE_MODS.iter().any(|m| base.starts_with(m))
            });
        if !ok {
            return false;
        }
        if CRATES.contains(&c.as_str()) {
            let raw = format!("{c}{}", self.tcx.def_path(self.tcx.typeck_root_def_id(d)).to_string_no_crate_verbose());
            if STOP.iter().any(|m| raw.starts_with(m)) {
                return false;
            }
        }
        self.tcx.is_mir_available(d)
    }

    fn key(&mut self, inst: Instance<'tcx>) -> String {
        let inst = self.tcx.erase_and_anonymize_regions(inst);
        if let Some(k) = self.keys.get(&inst) {
            return k.clone();
        }
        let p = path(self.tcx, inst.def_id());
        let k = format!("{}#{}", p, self.keys.len());
        self.keys.insert(inst, k.clone());
        k
    }

    fn request(&mut self, inst: Instance<'tcx>) -> Option<String> {
        let inst = self.tcx.erase_and_anonymize_regions(inst);
        if !self.want(inst) {
            return None;
        }
        let k = self.key(inst);
        if self.seen.insert(inst) {
            self.queue.push_back(inst);
        }
        Some(k)
    }

    fn fn_desc(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![];
        let decl = path(tcx, d);
        o.push(("decl", s(decl)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, tr))));
        }
        o.push(("targs", J::A(args.types().map(|x| n(self.ty(x))).collect())));
        if let DefKind::Ctor(of, CtorKind::Fn) = tcx.def_kind(d) {
            let (adt, vidx) = match of {
                CtorOf::Struct => {
                    let p = tcx.parent(d);
                    (p, 0usize)
                }
                CtorOf::Variant => {
                    let v = tcx.parent(d);
                    let a = tcx.parent(v);
                    (a, tcx.adt_def(a).variant_index_with_id(v).as_usize())
                }
            };
            let t = tcx.type_of(adt).instantiate(tcx, args).skip_norm_wip();
            o.push(("ctor", J::A(vec![n(self.ty(t)), n(vidx)])));
            return J::O(o);
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            // formatting a type of the workspace: the text its own Display writes
            let dn = path(tcx, d);
            if dn.ends_with("::new_display") || dn == "alloc::string::ToString::to_string" {
                if let Some(k) = args.types().next().and_then(|t| self.display_fn(t)) {
                    o.push(("disp", s(k)));
                }
            }
            if let Some(i) = tcx.intrinsic(d) {
                o.push(("intrinsic", s(i.name.to_string())));
            }
            match Instance::try_resolve(tcx, self.env, d, args) {
                Ok(Some(inst)) => {
                    let kind = match inst.def {
                        InstanceKind::Item(_) => "item",
                        InstanceKind::Virtual(..) => "virtual",
                        _ => "shim",
                    };
                    o.push(("kind", s(kind)));
                    let rd = inst.def_id();
                    o.push(("path", s(path(tcx, rd))));
                    o.push(("raw", s(self.raw(rd))));
                    if let Some(imp) = tcx.impl_of_assoc(rd) {
                        if tcx.is_automatically_derived(imp) {
                            o.push(("derived", J::B(true)));
                        }
                        let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                        o.push(("self", s(tystr(st))));
                    }
                    if let Some(k) = self.request(inst) {
                        o.push(("key", s(k)));
                    }
                }
                _ => o.push(("kind", s("unresolved"))),
            }
        }
        J::O(o)
    }

    fn display_fn(&mut self, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let ty::Adt(def, _) = t.peel_refs().kind() else { return None };
        if !tcx.crate_name(def.did().krate).to_string().starts_with("hpl_") {
            return None;
        }
        let tr = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Display"))?;
        let m = tcx.associated_items(tr).in_definition_order().next()?.def_id;
        let args = tcx.mk_args(&[t.peel_refs().into()]);
        let inst = Instance::try_resolve(tcx, self.env, m, args).ok()??;
        let imp = tcx.impl_of_assoc(inst.def_id())?;
        if tcx.is_automatically_derived(imp) {
            return None;
        }
        self.request(inst)
    }

    fn raw(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn closure_desc(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let inst = Instance::new_raw(d, args);
        let k = self.request(inst);
        J::O(vec![
            ("decl", s(path(self.tcx, d))),
            ("closure", J::B(true)),
            ("key", k.map(s).unwrap_or(J::Null)),
        ])
    }

    /// string constants and calls of a derived (serialisation, schema) function in block order
    fn events(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let body = tcx.optimized_mir(d);
        let mut out = vec![];
        let konst = |cx: &mut Self, c: &mir::ConstOperand<'tcx>, out: &mut Vec<J>| {
            let t = c.const_.ty();
            let is_str = matches!(t.kind(), ty::Ref(_, x, _) if x.is_str());
            let is_int = matches!(t.kind(), ty::Uint(_) | ty::Bool);
            if !(is_str || is_int) || matches!(c.const_, mir::Const::Unevaluated(..)) {
                return;
            }
            let j = cx.const_json(c);
            out.push(J::A(vec![s(if is_str { "s" } else { "i" }), j]));
        };
        for (bb, data) in mir::traversal::reverse_postorder(body) {
            if data.is_cleanup {
                continue;
            }
            let _ = bb;
            for st in &data.statements {
                if let mir::StatementKind::Assign(b) = &st.kind {
                    if let mir::Rvalue::Use(mir::Operand::Constant(c), ..) = &b.1 {
                        konst(self, c, &mut out);
                    }
                }
            }
            if let mir::TerminatorKind::Call { func, args, .. } = &data.terminator().kind {
                for a in args.iter() {
                    if let mir::Operand::Constant(c) = &a.node {
                        konst(self, c, &mut out);
                    }
                }
                if let mir::Operand::Constant(c) = func {
                    if let ty::FnDef(fd, fargs) = c.const_.ty().kind() {
                        if let Some(fargs) = fargs.no_bound_vars() {
                            let ts = fargs.types().map(|x| s(tystr(x))).collect();
                            out.push(J::A(vec![s("c"), s(path(tcx, *fd)), J::A(ts)]));
                        }
                    }
                }
            }
        }
        J::A(out)
    }

    // ---- constants -------------------------------------------------------------------------
    fn const_json(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap();
            return J::O(vec![("c", s("fn")), ("f", self.fn_desc(*d, args))]);
        }
        if let ty::Closure(d, args) = t.kind() {
            return J::O(vec![("c", s("closure")), ("f", self.closure_desc(*d, args)), ("up", J::A(vec![]))]);
        }
        let val = match c.const_.eval(self.tcx, self.env, DUMMY_SP) {
            Ok(v) => v,
            Err(_) => return J::O(vec![("c", s("opaque")), ("t", n(self.ty(t))), ("s", s("eval failed"))]),
        };
        let r = rustc_const_eval::const_eval::mk_eval_cx_for_const_val(
            self.tcx.at(DUMMY_SP), self.env, val, t,
        );
        let Some((ecx, op)) = r else {
            return J::O(vec![("c", s("opaque")), ("t", n(self.ty(t))), ("s", s("no cx"))]);
        };
        let name = match c.const_ {
            mir::Const::Unevaluated(u, _) if u.promoted.is_none() => Some(path(self.tcx, u.def)),
            _ => None,
        };
        let j = self.op_json(&ecx, &op, 0);
        match (j, name) {
            (J::O(mut v), Some(nm)) => {
                v.push(("name", s(nm)));
                J::O(v)
            }
            (j, _) => j,
        }
    }

    fn op_json(
        &mut self,
        ecx: &rustc_const_eval::const_eval::CompileTimeInterpCx<'tcx>,
        op: &rustc_const_eval::interpret::OpTy<'tcx>,
        depth: usize,
    ) -> J {
        let t = op.layout.ty;
        let tid = n(self.ty(t));
        let opaque = |w: &str| J::O(vec![("c", s("opaque")), ("t", tid.clone()), ("s", s(w))]);
        if depth > 12 {
            return opaque("depth");
        }
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                let Some(imm) = ecx.read_immediate(op).discard_err() else { return opaque("imm") };
                let Some(sc) = imm.to_scalar().try_to_scalar_int().ok() else { return opaque("scalar") };
                let v = if matches!(t.kind(), ty::Int(_)) {
                    sc.to_int(sc.size()).to_string()
                } else {
                    sc.to_bits(sc.size()).to_string()
                };
                J::O(vec![("c", s("int")), ("t", tid), ("v", s(v))])
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                J::O(vec![("c", s("fn")), ("f", self.fn_desc(*d, args))])
            }
            ty::Closure(d, args) => {
                J::O(vec![("c", s("closure")), ("f", self.closure_desc(*d, args)), ("up", J::A(vec![]))])
            }
            ty::FnPtr(..) => {
                use rustc_middle::mir::interpret::GlobalAlloc;
                if let Some(imm) = ecx.read_immediate(op).discard_err() {
                    let p = imm.to_scalar().to_pointer(ecx);
                    if let Some(prov) = p.provenance {
                        if let GlobalAlloc::Function { instance } = self.tcx.global_alloc(prov.alloc_id()) {
                            return J::O(vec![("c", s("fn")), ("f", self.fn_desc(instance.def_id(), instance.args))]);
                        }
                    }
                }
                opaque("fnptr")
            }
            ty::Ref(_, inner, _) => {
                let Some(mp) = ecx.deref_pointer(op).discard_err() else { return opaque("deref") };
                match inner.kind() {
                    ty::Str => match ecx.read_str(&mp).discard_err() {
                        Some(x) => J::O(vec![("c", s("str")), ("t", tid), ("v", s(x.to_string()))]),
                        None => opaque("str"),
                    },
                    ty::Dynamic(..) => opaque("dyn"),
                    _ => {
                        let op2: rustc_const_eval::interpret::OpTy<'tcx> = mp.into();
                        let j = self.op_json(ecx, &op2, depth + 1);
                        J::O(vec![("c", s("ref")), ("t", tid), ("v", j)])
                    }
                }
            }
            ty::Slice(_) | ty::Array(..) => {
                let Some(mut it) = ecx.project_array_fields(op).discard_err() else { return opaque("arr") };
                let mut v = vec![];
                while let Some(Some((_, f))) = it.next(ecx).discard_err() {
                    v.push(self.op_json(ecx, &f, depth + 1));
                    if v.len() > 4096 {
                        return opaque("long");
                    }
                }
                J::O(vec![("c", s("arr")), ("t", tid), ("v", J::A(v))])
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for i in 0..ts.len() {
                    match ecx.project_field(op, rustc_abi::FieldIdx::from_usize(i)).discard_err() {
                        Some(f) => v.push(self.op_json(ecx, &f, depth + 1)),
                        None => return opaque("tuple"),
                    }
                }
                J::O(vec![("c", s("tuple")), ("t", tid), ("v", J::A(v))])
            }
            ty::Adt(def, _) => {
                if def.is_union() {
                    return opaque("union");
                }
                let (vi, op) = if def.is_enum() {
                    let Some(vi) = ecx.read_discriminant(op).discard_err() else { return opaque("discr") };
                    match ecx.project_downcast(op, vi).discard_err() {
                        Some(o) => (vi, o),
                        None => return opaque("downcast"),
                    }
                } else {
                    (rustc_abi::FIRST_VARIANT, op.clone())
                };
                let mut v = vec![];
                for i in 0..def.variant(vi).fields.len() {
                    match ecx.project_field(&op, rustc_abi::FieldIdx::from_usize(i)).discard_err() {
                        Some(f) => v.push(self.op_json(ecx, &f, depth + 1)),
                        None => return opaque("field"),
                    }
                }
                J::O(vec![("c", s("adt")), ("t", tid), ("vi", n(vi.as_usize())), ("v", J::A(v))])
            }
            _ => opaque("kind"),
        }
    }

    // ---- bodies ----------------------------------------------------------------------------
    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), n(f.as_usize()), n(self.ty(t))]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), n(offset as usize), J::B(from_end), n(min_length as usize)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), n(v.as_usize())]),
                _ => s("?"),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }

    fn operand(&mut self, o: &mir::Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.const_json(c)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("rc")]),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Repeat(o, c) => {
                let k = c.try_to_target_usize(self.tcx).map(|x| n(x as usize)).unwrap_or(J::Null);
                J::A(vec![s("rep"), self.operand(o), k])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), self.place(p), J::B(m)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(p), J::B(true)]),
            Rvalue::Cast(k, o, t) => {
                J::A(vec![s("cast"), s(format!("{k:?}")), self.operand(o), n(self.ty(*t))])
            }
            Rvalue::BinaryOp(op, b) => J::A(vec![s("bin"), s(format!("{op:?}")), self.operand(&b.0), self.operand(&b.1)]),
            Rvalue::UnaryOp(op, o) => J::A(vec![s("un"), s(format!("{op:?}")), self.operand(o)]),
            Rvalue::Discriminant(p) => J::A(vec![s("disc"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let v = J::A(ops.iter().map(|o| self.operand(o)).collect());
                match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("agg"), s("array"), v]),
                    AggregateKind::Tuple => J::A(vec![s("agg"), s("tuple"), v]),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        J::A(vec![s("agg"), s("adt"), v, n(self.ty(t)), n(vi.as_usize())])
                    }
                    AggregateKind::Closure(d, args) => {
                        J::A(vec![s("agg"), s("closure"), v, self.closure_desc(*d, args)])
                    }
                    _ => J::A(vec![s("agg"), s("other"), v]),
                }
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p)])]),
            _ => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }

    fn line(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        n(l.line)
    }

    fn body(&mut self, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let body = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, body.clone()),
        );
        let sm = tcx.sess.source_map();
        let loc = sm.lookup_char_pos(body.span.source_callsite().lo());
        let file = loc.file.name.prefer_local_unconditionally().to_string();
        let mut o = vec![
            ("path", s(path(tcx, inst.def_id()))),
            ("raw", s(self.raw(inst.def_id()))),
            ("crate", s(tcx.crate_name(inst.def_id().krate).to_string())),
            ("file", s(file)),
            ("line", n(loc.line)),
            ("argc", n(body.arg_count)),
            ("closure", J::B(tcx.is_closure_like(inst.def_id()))),
        ];
        if let Some(tr) = tcx.impl_of_assoc(inst.def_id()).and_then(|i| tcx.impl_opt_trait_ref(i)) {
            o.push(("trait", s(path(tcx, tr.skip_binder().def_id))));
            o.push(("self", s(tystr(tr.skip_binder().self_ty()))));
        }
        o.push(("targs", J::A(inst.args.types().map(|x| n(self.ty(x))).collect())));
        let names: Vec<J> = body
            .var_debug_info
            .iter()
            .filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) if p.projection.is_empty() => {
                    Some(J::A(vec![n(p.local.as_usize()), s(v.name.to_string())]))
                }
                _ => None,
            })
            .collect();
        o.push(("names", J::A(names)));
        let locals: Vec<J> = body.local_decls.iter().map(|l| n(self.ty(l.ty))).collect();
        o.push(("locals", J::A(locals)));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        st.push(J::A(vec![s("="), self.place(&b.0), self.rvalue(&b.1)]))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![s("sd"), self.place(place), n(variant_index.as_usize())]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vs = targets.iter().map(|(v, b)| J::A(vec![s(v.to_string()), n(b.as_usize())])).collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    J::A(vec![s("sw"), self.operand(discr), J::A(vs), n(targets.otherwise().as_usize()), n(self.ty(dt))])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Drop { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a = args.iter().map(|x| self.operand(&x.node)).collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    J::A(vec![
                        s("call"), f, J::A(a), self.place(destination),
                        target.map(|b| n(b.as_usize())).unwrap_or(J::Null), ln, n(self.ty(dt)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "div0",
                        _ => "other",
                    };
                    J::A(vec![s("assert"), self.operand(cond), J::B(*expected), n(target.as_usize()), s(kind)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                _ => J::A(vec![s("diverge")]),
            };
            blocks.push(J::A(vec![J::A(st), tj]));
        }
        o.push(("blocks", J::A(blocks)));
        J::O(o)
    }
}

pub fn dump_crate(tcx: TyCtxt<'_>) -> String {
    let env = ty::TypingEnv::fully_monomorphized();
    let mut cx = Cx {
        tcx,
        env,
        types: HashMap::new(),
        type_list: vec![],
        keys: HashMap::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
    };
    let mut roots = vec![];
    let mut skipped = vec![];
    let mut derived = vec![];
    for ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            if tcx.is_automatically_derived(imp) {
                let tr = tcx.impl_opt_trait_ref(imp).map(|t| path(tcx, t.skip_binder().def_id)).unwrap_or_default();
                let m = tcx.item_name(d).to_string();
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let pick = matches!(m.as_str(), "json_schema" | "response_schemas_impl")
                    || tr.ends_with("::Serialize") && m == "serialize"
                    || tr.ends_with("::Deserialize") && m == "deserialize" && tystr(st).contains("__DeserializeWith");
                if pick && tcx.is_mir_available(d) {
                    let ev = cx.events(d);
                    derived.push(J::A(vec![s(tystr(st)), s(m), ev]));
                    continue;
                }
            }
            // the visitors inside a derived Deserialize implementation: which names are read, as what
            let m = tcx.item_name(d).to_string();
            if matches!(m.as_str(), "visit_str" | "visit_map" | "visit_enum") && tcx.is_mir_available(d) {
                let mut up = tcx.opt_parent(imp);
                while let Some(u) = up {
                    if tcx.def_kind(u) == DefKind::AssocFn && tcx.item_name(u).as_str() == "deserialize" {
                        if let Some(outer) = tcx.impl_of_assoc(u) {
                            let st = tcx.type_of(outer).instantiate_identity().skip_norm_wip();
                            let ev = cx.events(d);
                            derived.push(J::A(vec![s(tystr(st)), s(m.clone()), ev]));
                        }
                        break;
                    }
                    up = tcx.opt_parent(u);
                }
            }
            if tcx.is_automatically_derived(imp) {
                continue;
            }
        }
        let g = tcx.generics_of(d);
        if g.requires_monomorphization(tcx) {
            skipped.push(s(path(tcx, d)));
            // serialisation code written by hand: what it reads and writes
            let serde = tcx.param_env(d).caller_bounds().any(|c| {
                c.as_trait_clause().map_or(false, |t| {
                    let p = path(tcx, t.skip_binder().trait_ref.def_id);
                    p.ends_with("::Serializer") || p.ends_with("::Deserializer")
                })
            });
            if serde && tcx.is_mir_available(d) {
                let (st, m) = match tcx.impl_of_assoc(d) {
                    Some(imp) => (
                        tystr(tcx.type_of(imp).instantiate_identity().skip_norm_wip()),
                        format!("hand_{}", tcx.item_name(d)),
                    ),
                    None => (path(tcx, d), "hand".to_string()),
                };
                let names: Vec<J> = g.own_params.iter().map(|p| s(p.name.to_string())).collect();
                let ev = cx.events(d);
                derived.push(J::A(vec![s(st), s(m), ev, J::A(names)]));
            }
            continue;
        }
        let args = ty::GenericArgs::for_item(tcx, d, |_, _| tcx.lifetimes.re_erased.into());
        let inst = Instance::new_raw(d, args);
        if inst.has_param() || !tcx.is_mir_available(d) {
            continue;
        }
        if let Some(k) = cx.request(inst) {
            roots.push(J::A(vec![s(path(tcx, d)), s(k)]));
        }
    }
    let mut fns = vec![];
    while let Some(inst) = cx.queue.pop_front() {
        let k = cx.key(inst);
        let b = cx.body(inst);
        fns.push((k, b));
    }
    // constants (items) of the crate, evaluated
    let mut consts = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            continue;
        }
        if tcx.generics_of(d).requires_monomorphization(tcx) {
            continue;
        }
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let Ok(t) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)) else { continue };
        if let Ok(val) = tcx.const_eval_poly(d) {
            if let Some((ecx, op)) =
                rustc_const_eval::const_eval::mk_eval_cx_for_const_val(tcx.at(DUMMY_SP), env, val, t)
            {
                let j = cx.op_json(&ecx, &op, 0);
                consts.push((path(tcx, d), j));
            }
        }
    }
    // public ADTs of the crate (non-generic), so that message types are always described
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) && !tcx.generics_of(d).requires_monomorphization(tcx) {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            cx.ty(t);
        }
    }
    let mut types = vec![];
    let mut i = 0;
    while i < cx.type_list.len() {
        let t = cx.type_list[i];
        let j = cx.ty_json(t);
        types.push(j);
        i += 1;
    }
    let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
    let top = J::O(vec![
        ("crate", s(name)),
        ("roots", J::A(roots)),
        ("generic", J::A(skipped)),
        ("derived", J::A(derived)),
        ("consts", J::M(consts)),
        ("types", J::A(types)),
        ("fns", J::M(fns)),
    ]);
    let mut out = String::new();
    top.w(&mut out);
    out
}
