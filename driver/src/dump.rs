use crate::json::J;
use crate::Captured;
use rustc_hir::def::{CtorOf, DefKind};
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar, ConstValue};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeMap, HashMap};

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    files: Vec<String>,
    fileidx: HashMap<String, usize>,
    env: TypingEnv<'tcx>,
}

macro_rules! obj { ($($k:literal : $v:expr),* $(,)?) => { J::Obj(vec![$(($k, $v)),*]) } }
fn i(x: usize) -> J {
    J::Int(x as i128)
}

impl<'tcx> D<'tcx> {
    fn self_head(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            ty::Slice(_) => "slice".into(),
            ty::Array(..) => "array".into(),
            ty::Tuple(_) => "tuple".into(),
            ty::Ref(_, inner, _) => format!("&{}", self.self_head(*inner)),
            ty::Str => "str".into(),
            ty::Param(p) => p.name.to_string(),
            ty::Dynamic(p, _) => match p.principal_def_id() {
                Some(d) => format!("dyn {}", self.path(d)),
                None => "dyn".into(),
            },
            _ => format!("{t}"),
        }
    }
    /// Canonical path: crate::module::Item, SelfType::method, Trait::method,
    /// <Self as Trait>::method.
    pub fn path(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let key = tcx.def_key(d);
        let Some(pidx) = key.parent else {
            return tcx.crate_name(d.krate).to_string();
        };
        let parent = DefId { krate: d.krate, index: pidx };
        use rustc_hir::definitions::DefPathData as P;
        match key.disambiguated_data.data {
            P::Impl => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let head = self.self_head(st);
                match tcx.impl_opt_trait_ref(d) {
                    Some(tr) => {
                        let t = self.path(tr.skip_binder().def_id);
                        format!("<{head} as {t}>")
                    }
                    None => head,
                }
            }
            P::Ctor => self.path(parent),
            P::ForeignMod => self.path(parent),
            ref other => {
                let p = self.path(parent);
                let dis = key.disambiguated_data.disambiguator;
                match other.get_opt_name() {
                    Some(n) => {
                        if dis > 0 {
                            format!("{p}::{n}#{dis}")
                        } else {
                            format!("{p}::{n}")
                        }
                    }
                    None => format!("{p}::{{{:?}#{dis}}}", other),
                }
            }
        }
    }
    fn span(&mut self, sp: Span) -> J {
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return J::Null;
        }
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = lo.file.name.prefer_local_unconditionally().to_string();
        let n = self.fileidx.len();
        let f = *self.fileidx.entry(name.clone()).or_insert(n);
        if f == self.files.len() {
            self.files.push(name);
        }
        J::Arr(vec![i(f), i(lo.line), i(lo.col.0 + 1)])
    }
    fn gargs(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(i(self.ty(t))),
                GenericArgKind::Const(c) => v.push(obj! {"const": J::s(format!("{c}"))}),
                _ => {}
            }
        }
        J::Arr(v)
    }
    fn generics_names(&self, d: DefId) -> J {
        // names of type and const params in the order used by gargs
        let g = self.tcx.generics_of(d);
        let mut v = vec![];
        for k in 0..g.count() {
            let p = g.param_at(k, self.tcx);
            match p.kind {
                ty::GenericParamDefKind::Lifetime => {}
                _ => v.push(J::s(p.name.to_string())),
            }
        }
        J::Arr(v)
    }
    pub fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(x) = self.tyidx.get(&t) {
            return *x;
        }
        let idx = self.types.len();
        self.types.push(J::Null);
        self.tyidx.insert(t, idx);
        let j = match t.kind() {
            ty::Bool => obj! {"k": J::s("bool")},
            ty::Char => obj! {"k": J::s("char")},
            ty::Int(x) => {
                obj! {"k": J::s("int"), "name": J::s(x.name_str()), "bits": i(x.bit_width().unwrap_or(64) as usize), "signed": J::Bool(true)}
            }
            ty::Uint(x) => {
                obj! {"k": J::s("int"), "name": J::s(x.name_str()), "bits": i(x.bit_width().unwrap_or(64) as usize), "signed": J::Bool(false)}
            }
            ty::Str => obj! {"k": J::s("str")},
            ty::Never => obj! {"k": J::s("never")},
            ty::Adt(a, args) => {
                let p = self.adt(a.did());
                obj! {"k": J::s("adt"), "path": J::s(p), "args": self.gargs(args)}
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx);
                obj! {"k": J::s("array"), "t": i(self.ty(*e)), "n": n.map_or(J::Null, |n| J::Int(n as i128))}
            }
            ty::Slice(e) => obj! {"k": J::s("slice"), "t": i(self.ty(*e))},
            ty::RawPtr(e, m) => {
                obj! {"k": J::s("ptr"), "mut": J::Bool(m.is_mut()), "t": i(self.ty(*e))}
            }
            ty::Ref(_, e, m) => {
                obj! {"k": J::s("ref"), "mut": J::Bool(m.is_mut()), "t": i(self.ty(*e))}
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| i(self.ty(t))).collect();
                obj! {"k": J::s("tuple"), "ts": J::Arr(v)}
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let d: DefId = (*d).into();
                let c = self.callee(d, args);
                obj! {"k": J::s("fndef"), "f": c}
            }
            ty::FnPtr(..) => obj! {"k": J::s("fnptr")},
            ty::Closure(d, a) => {
                let d: DefId = (*d).into();
                let ups: Vec<J> = a.as_closure().upvar_tys().iter().map(|t| i(self.ty(t))).collect();
                let pargs = a.as_closure().parent_args();
                let pa = self.tcx.mk_args(pargs);
                obj! {"k": J::s("closure"), "id": self.lid(d), "path": J::s(self.path(d)), "ups": J::Arr(ups), "pargs": self.gargs(pa)}
            }
            ty::Coroutine(d, a) => {
                let d: DefId = (*d).into();
                let ups: Vec<J> = a.as_coroutine().upvar_tys().iter().map(|t| i(self.ty(t))).collect();
                let pa = self.tcx.mk_args(a.as_coroutine().parent_args());
                obj! {"k": J::s("coroutine"), "id": self.lid(d), "path": J::s(self.path(d)), "ups": J::Arr(ups), "pargs": self.gargs(pa)}
            }
            ty::CoroutineClosure(d, _) => {
                let d: DefId = (*d).into();
                obj! {"k": J::s("coroutineclosure"), "id": self.lid(d), "path": J::s(self.path(d))}
            }
            ty::Param(p) => {
                obj! {"k": J::s("param"), "name": J::s(p.name.to_string()), "idx": i(p.index as usize)}
            }
            ty::Dynamic(p, _) => {
                let pr = p.principal_def_id().map(|d| self.path(d));
                obj! {"k": J::s("dyn"), "path": pr.map_or(J::Null, J::s)}
            }
            ty::Alias(_, al) => {
                let text = format!("{t}");
                match al.kind {
                    ty::AliasTyKind::Projection { def_id } => {
                        obj! {"k": J::s("proj"), "path": J::s(self.path(def_id.into())), "args": self.gargs(al.args)}
                    }
                    ty::AliasTyKind::Opaque { def_id } => {
                        let d: DefId = def_id.into();
                        let hidden = if d.is_local() {
                            let h = self.tcx.type_of(d).instantiate(self.tcx, al.args).skip_norm_wip();
                            i(self.ty(h))
                        } else {
                            J::Null
                        };
                        obj! {"k": J::s("opaque"), "path": J::s(self.path(d)), "hidden": hidden, "args": self.gargs(al.args)}
                    }
                    _ => obj! {"k": J::s("alias"), "text": J::s(text)},
                }
            }
            _ => obj! {"k": J::s("other"), "text": J::s(format!("{t}"))},
        };
        self.types[idx] = j;
        idx
    }
    fn lid(&self, d: DefId) -> J {
        match d.as_local() {
            Some(l) => J::Int(l.local_def_index.as_u32() as i128),
            None => J::Null,
        }
    }
    fn adt(&mut self, d: DefId) -> String {
        let p = self.path(d);
        if self.adts.contains_key(&p) {
            return p;
        }
        self.adts.insert(p.clone(), J::Null);
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let mut vs = vec![];
        let local = d.is_local();
        for (vi, v) in a.variants().iter_enumerated() {
            let discr = if a.is_enum() {
                J::Int(a.discriminant_for_variant(tcx, vi).val as i128)
            } else {
                J::Int(0)
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let fname = f.name.to_string();
                // types of external private fields are not needed
                let t = if local || a.is_enum() {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    i(self.ty(ft))
                } else {
                    J::Null
                };
                fs.push(obj! {"name": J::s(fname), "t": t, "pub": J::Bool(f.vis.is_public())});
            }
            vs.push(obj! {"name": J::s(v.name.to_string()), "discr": discr, "fields": J::Arr(fs)});
        }
        let kind = if a.is_enum() {
            "enum"
        } else if a.is_union() {
            "union"
        } else {
            "struct"
        };
        let sp = if local { let s = tcx.def_span(d); self.span(s) } else { J::Null };
        let j = obj! {
            "kind": J::s(kind), "local": J::Bool(local), "variants": J::Arr(vs),
            "generics": self.generics_names(d),
            "exported": J::Bool(d.as_local().is_some_and(|l| tcx.effective_visibilities(()).is_reachable(l))),
            "span": sp,
        };
        self.adts.insert(p.clone(), j);
        p
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        let path = self.path(d);
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", J::s(path)),
            ("id", self.lid(d)),
            ("args", self.gargs(args)),
            ("gen", self.generics_names(d)),
        ];
        if let DefKind::Ctor(of, _) = kind {
            let (adt, variant) = match of {
                CtorOf::Struct => (tcx.parent(d), 0usize),
                CtorOf::Variant => {
                    let v = tcx.parent(d);
                    let a = tcx.parent(v);
                    let vi = tcx.adt_def(a).variant_index_with_id(v);
                    (a, vi.as_usize())
                }
            };
            let ap = self.adt(adt);
            o.push(("ctor", obj! {"adt": J::s(ap), "variant": i(variant)}));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let tp = self.path(tr);
            o.push(("trait", J::s(tp)));
            o.push(("method", J::s(tcx.item_name(d).to_string())));
            if matches!(kind, DefKind::AssocFn) {
                let r = rustc_middle::ty::Instance::try_resolve(tcx, self.env, d, args);
                if let Ok(Some(inst)) = r {
                    let rd = inst.def_id();
                    if rd != d {
                        let rp = self.path(rd);
                        let ra = self.gargs(inst.args);
                        let k = format!("{:?}", inst.def);
                        let k = k.split('(').next().unwrap_or("").to_string();
                        o.push(("res", obj! {"path": J::s(rp), "id": self.lid(rd), "args": ra, "gen": self.generics_names(rd), "kind": J::s(k)}));
                    }
                }
            }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("implself", i(self.ty(st))));
        }
        J::Obj(o)
    }

    // ---- constants -------------------------------------------------------
    fn bytes_j(&self, b: &[u8]) -> J {
        J::Arr(b.iter().map(|x| J::Int(*x as i128)).collect())
    }
    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 6 {
            return obj! {"opaque": J::s("deep")};
        }
        match (v, t.kind()) {
            (ConstValue::ZeroSized, _) => obj! {"zst": J::Bool(true)},
            (ConstValue::Scalar(Scalar::Int(s)), k) => {
                let bits = s.to_bits(s.size());
                match k {
                    ty::Bool => obj! {"bool": J::Bool(bits != 0)},
                    ty::Char => obj! {"char": J::Int(bits as i128)},
                    ty::Int(_) => obj! {"int": J::Int(s.size().sign_extend(bits))},
                    ty::Uint(_) => obj! {"int": J::Int(bits as i128)},
                    ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => self.destructure(v, t, depth),
                    ty::Pat(b, _) => self.const_val(v, *b, depth + 1),
                    _ => obj! {"bits": J::Int(bits as i128)},
                }
            }
            (ConstValue::Slice { alloc_id, meta }, k) => {
                let inner = match k {
                    ty::Ref(_, x, _) => *x,
                    _ => t,
                };
                let al = tcx.global_alloc(alloc_id);
                if let GlobalAlloc::Memory(m) = al {
                    let data = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                    match inner.kind() {
                        ty::Str => match std::str::from_utf8(data) {
                            Ok(s) => obj! {"str": J::s(s)},
                            Err(_) => obj! {"bytes": self.bytes_j(data)},
                        },
                        ty::Slice(e) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                            obj! {"bytes": self.bytes_j(data)}
                        }
                        _ => obj! {"opaque": J::s("slice")},
                    }
                } else {
                    obj! {"opaque": J::s("slice alloc")}
                }
            }
            (ConstValue::Scalar(Scalar::Ptr(p, _)), k) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match tcx.global_alloc(id) {
                    GlobalAlloc::Static(d) => {
                        obj! {"static": J::s(self.path(d)), "id": self.lid(d)}
                    }
                    GlobalAlloc::Function { instance } => {
                        obj! {"fnptr": J::s(self.path(instance.def_id())), "id": self.lid(instance.def_id())}
                    }
                    GlobalAlloc::Memory(m) => {
                        if let ty::Ref(_, inner, _) = k {
                            match inner.kind() {
                                ty::Array(e, n)
                                    if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) =>
                                {
                                    let n = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                                    let o = off.bytes() as usize;
                                    let data = m
                                        .inner()
                                        .inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                                    obj! {"bytes": self.bytes_j(data)}
                                }
                                ty::Str | ty::Slice(_) | ty::Dynamic(..) => {
                                    obj! {"opaque": J::s("fat ptr")}
                                }
                                _ => {
                                    let inner_v = ConstValue::Indirect { alloc_id: id, offset: off };
                                    let x = self.scalar_or_destructure(inner_v, *inner, depth + 1);
                                    obj! {"ref": x}
                                }
                            }
                        } else {
                            obj! {"opaque": J::s("ptr")}
                        }
                    }
                    _ => obj! {"opaque": J::s("ptr?")},
                }
            }
            (ConstValue::Indirect { alloc_id, offset }, ty::Ref(_, inner, _)) => {
                // a reference stored in memory: read it as a pointer
                let ptr_size = tcx.data_layout.pointer_size();
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    let range = rustc_middle::mir::interpret::AllocRange { start: offset, size: ptr_size };
                    if let Ok(Scalar::Ptr(p, _)) = m.inner().read_scalar(&tcx, range, true) {
                        let (prov, off2) = p.into_raw_parts();
                        let tail_sized = !matches!(inner.kind(), ty::Str | ty::Slice(_) | ty::Dynamic(..));
                        if tail_sized {
                            let pv = ConstValue::Scalar(Scalar::Ptr(
                                rustc_middle::mir::interpret::Pointer::new(prov, off2),
                                std::num::NonZero::new(8).unwrap(),
                            ));
                            return self.const_val(pv, t, depth + 1);
                        }
                        let r2 = rustc_middle::mir::interpret::AllocRange { start: offset + ptr_size, size: ptr_size };
                        if let Ok(Scalar::Int(n)) = m.inner().read_scalar(&tcx, r2, false) {
                            let n = n.to_bits(n.size()) as usize;
                            if let GlobalAlloc::Memory(m2) = tcx.global_alloc(prov.alloc_id()) {
                                let o = off2.bytes() as usize;
                                match inner.kind() {
                                    ty::Str => {
                                        let data = m2.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                                        if let Ok(s) = std::str::from_utf8(data) {
                                            return obj! {"str": J::s(s)};
                                        }
                                    }
                                    ty::Slice(e) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                                        let data = m2.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                                        return obj! {"bytes": self.bytes_j(data)};
                                    }
                                    ty::Slice(e) => {
                                        let arr = Ty::new_array(tcx, *e, n as u64);
                                        let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off2 };
                                        let x = self.destructure(iv, arr, depth + 1);
                                        return obj! {"ref": x};
                                    }
                                    _ => {}
                                }
                            }
                        }
                    }
                }
                obj! {"opaque": J::s("indirect ref")}
            }
            (ConstValue::Indirect { .. }, _) => self.scalar_or_destructure(v, t, depth + 1),
        }
    }
    fn scalar_or_destructure(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        match t.kind() {
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => self.destructure(v, t, depth),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) {
                        let size = match t.kind() {
                            ty::Bool => 1,
                            ty::Char => 4,
                            ty::Int(x) => x.bit_width().unwrap_or(64) / 8,
                            ty::Uint(x) => x.bit_width().unwrap_or(64) / 8,
                            _ => 1,
                        };
                        let range = rustc_middle::mir::interpret::AllocRange {
                            start: offset,
                            size: rustc_abi::Size::from_bytes(size),
                        };
                        if let Ok(s @ Scalar::Int(_)) = m.inner().read_scalar(&self.tcx, range, false) {
                            return self.const_val(ConstValue::Scalar(s), t, depth + 1);
                        }
                    }
                }
                obj! {"opaque": J::s("scalar")}
            }
            ty::Pat(b, _) => self.scalar_or_destructure(v, *b, depth),
            ty::Ref(..) => self.const_val(v, t, depth + 1),
            _ => obj! {"opaque": J::s("other")},
        }
    }
    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        use rustc_middle::ty::TypeVisitableExt;
        if t.has_param() {
            return obj! {"opaque": J::s("param")};
        }
        // external structs with private fields: keep them opaque
        if let ty::Adt(a, _) = t.kind() {
            if !a.did().is_local() && a.is_struct() {
                let p = self.path(a.did());
                if !matches!(p.as_str(), "core::time::Duration" | "core::num::niche_types::Nanoseconds" | "core::num::nonzero::NonZero" | "core::ops::range::RangeInclusive" | "core::ops::range::Range") {
                    return obj! {"opaque": J::s(p)};
                }
            }
            if a.is_union() {
                return obj! {"opaque": J::s("union")};
            }
        }
        match self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
            Some(dc) => {
                let fs: Vec<J> = dc
                    .fields
                    .iter()
                    .map(|(fv, ft)| {
                        let tt = self.ty(*ft);
                        J::Arr(vec![i(tt), self.const_val(*fv, *ft, depth + 1)])
                    })
                    .collect();
                let adt = match t.kind() {
                    ty::Adt(a, _) => J::s(self.adt(a.did())),
                    ty::Tuple(_) => J::s("tuple"),
                    _ => J::s("array"),
                };
                obj! {"agg": adt, "variant": dc.variant.map_or(J::Null, |v| i(v.as_usize())), "fields": J::Arr(fs)}
            }
            None => obj! {"opaque": J::s("nodestructure")},
        }
    }
    fn constant(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("t", i(ti))];
        match c.const_ {
            mir::Const::Ty(_, ct) => {
                o.push(("text", J::s(format!("{ct}"))));
                if let Some(v) = ct.try_to_value() {
                    let cv = tcx.valtree_to_const_val(v);
                    let j = self.const_val(cv, t, 0);
                    o.push(("v", j));
                }
            }
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o.push(("promoted", i(p.as_usize())));
                    o.push(("pdef", self.lid(u.def)));
                } else {
                    o.push(("path", J::s(self.path(u.def))));
                    o.push(("id", self.lid(u.def)));
                    o.push(("args", self.gargs(u.args)));
                    if let Some(tr) = tcx.trait_of_assoc(u.def) {
                        o.push(("trait", J::s(self.path(tr))));
                    }
                    let ev = c.const_.eval(tcx, self.env, c.span);
                    if let Ok(v) = ev {
                        let j = self.const_val(v, t, 0);
                        o.push(("v", j));
                    }
                }
            }
            mir::Const::Val(v, _) => {
                let j = self.const_val(v, t, 0);
                o.push(("v", j));
            }
        }
        J::Obj(o)
    }

    // ---- bodies ------------------------------------------------------------
    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            use mir::ProjectionElem as E;
            pr.push(match e {
                E::Deref => J::s("*"),
                E::Field(f, t) => J::Arr(vec![J::s("f"), i(f.as_usize()), i(self.ty(t))]),
                E::Index(l) => J::Arr(vec![J::s("i"), i(l.as_usize())]),
                E::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    J::s("ci"),
                    J::Int(offset as i128),
                    J::Int(min_length as i128),
                    J::Bool(from_end),
                ]),
                E::Subslice { from, to, from_end } => {
                    J::Arr(vec![J::s("sub"), J::Int(from as i128), J::Int(to as i128), J::Bool(from_end)])
                }
                E::Downcast(_, v) => J::Arr(vec![J::s("d"), i(v.as_usize())]),
                E::OpaqueCast(_) => J::s("oc"),
                E::UnwrapUnsafeBinder(_) => J::s("ub"),
                _ => J::s("?"),
            });
        }
        J::Arr(vec![i(p.local.as_usize()), J::Arr(pr)])
    }
    fn operand(&mut self, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::Arr(vec![J::s("cp"), self.place(p)]),
            mir::Operand::Move(p) => J::Arr(vec![J::s("mv"), self.place(p)]),
            mir::Operand::Constant(c) => J::Arr(vec![J::s("c"), self.constant(c)]),
            mir::Operand::RuntimeChecks(_) => J::Arr(vec![J::s("rc")]),
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue as R;
        match r {
            R::Use(o, ..) => J::Arr(vec![J::s("use"), self.operand(o)]),
            R::Repeat(o, n) => J::Arr(vec![
                J::s("repeat"),
                self.operand(o),
                n.try_to_target_usize(self.tcx).map_or(J::Null, |n| J::Int(n as i128)),
            ]),
            R::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                let fake = matches!(bk, mir::BorrowKind::Fake(_));
                J::Arr(vec![J::s("ref"), J::s(if fake { "fake" } else if m { "mut" } else { "shared" }), self.place(p)])
            }
            R::ThreadLocalRef(d) => J::Arr(vec![J::s("tls"), J::s(self.path(*d))]),
            R::RawPtr(k, p) => J::Arr(vec![J::s("raw"), J::s(format!("{k:?}")), self.place(p)]),
            R::Cast(k, o, t) => {
                J::Arr(vec![J::s("cast"), J::s(format!("{k:?}")), self.operand(o), i(self.ty(*t))])
            }
            R::BinaryOp(b, ab) => J::Arr(vec![
                J::s("bin"),
                J::s(format!("{b:?}")),
                self.operand(&ab.0),
                self.operand(&ab.1),
            ]),
            R::UnaryOp(u, o) => J::Arr(vec![J::s("un"), J::s(format!("{u:?}")), self.operand(o)]),
            R::Discriminant(p) => J::Arr(vec![J::s("discr"), self.place(p)]),
            R::Aggregate(k, fs) => {
                let fsj = J::Arr(fs.iter().map(|f| self.operand(f)).collect());
                use mir::AggregateKind as A;
                let kj = match &**k {
                    A::Array(t) => obj! {"k": J::s("array"), "t": i(self.ty(*t))},
                    A::Tuple => obj! {"k": J::s("tuple")},
                    A::Adt(d, v, args, _, uf) => {
                        let p = self.adt(*d);
                        obj! {"k": J::s("adt"), "path": J::s(p), "variant": i(v.as_usize()), "args": self.gargs(args),
                        "ufield": uf.map_or(J::Null, |f| i(f.as_usize()))}
                    }
                    A::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, (*d).into(), a);
                        obj! {"k": J::s("closure"), "t": i(self.ty(t))}
                    }
                    A::Coroutine(d, a) => {
                        let t = Ty::new_coroutine(self.tcx, (*d).into(), a);
                        obj! {"k": J::s("coroutine"), "t": i(self.ty(t))}
                    }
                    A::CoroutineClosure(d, _) => {
                        obj! {"k": J::s("coroutineclosure"), "id": self.lid(*d)}
                    }
                    A::RawPtr(..) => obj! {"k": J::s("rawptr")},
                };
                J::Arr(vec![J::s("agg"), kj, fsj])
            }
            R::CopyForDeref(p) => J::Arr(vec![J::s("use"), J::Arr(vec![J::s("cp"), self.place(p)])]),
            R::WrapUnsafeBinder(o, _) => J::Arr(vec![J::s("use"), self.operand(o)]),
            R::Reborrow(_, m, p) => J::Arr(vec![
                J::s("ref"),
                J::s(if m.is_mut() { "mut" } else { "shared" }),
                self.place(p),
            ]),
        }
    }
    fn body(&mut self, b: &mir::Body<'tcx>) -> J {
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames = vec![];
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    upnames.push(J::Arr(vec![J::s(v.name.to_string()), self.place(p)]));
                }
            }
        }
        let locals: Vec<J> = b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                J::Arr(vec![i(t), names.get(&l.as_usize()).map_or(J::Null, |n| J::s(n.clone()))])
            })
            .collect();
        let mut blocks = vec![];
        for (_bb, data) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &data.statements {
                let sp = self.span(s.source_info.span);
                use mir::StatementKind as S;
                match &s.kind {
                    S::Assign(pr) => {
                        let p = self.place(&pr.0);
                        let r = self.rvalue(&pr.1);
                        st.push(J::Arr(vec![J::s("="), p, r, sp]));
                    }
                    S::SetDiscriminant { place, variant_index } => {
                        st.push(J::Arr(vec![J::s("sd"), self.place(place), i(variant_index.as_usize()), sp]));
                    }
                    S::StorageDead(l) => st.push(J::Arr(vec![J::s("dead"), i(l.as_usize())])),
                    S::Intrinsic(x) => st.push(J::Arr(vec![J::s("intr"), J::s(format!("{x:?}")), sp])),
                    _ => {}
                }
            }
            let term = data.terminator();
            let sp = self.span(term.source_info.span);
            use mir::TerminatorKind as T;
            let bb = |x: &mir::BasicBlock| i(x.as_usize());
            let t = match &term.kind {
                T::Goto { target, .. } => J::Arr(vec![J::s("goto"), bb(target)]),
                T::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dti = self.ty(dt);
                    let mut v = vec![];
                    for (val, tgt) in targets.iter() {
                        let val: i128 = match dt.kind() {
                            ty::Int(it) => {
                                let sz = rustc_abi::Size::from_bits(it.bit_width().unwrap_or(64));
                                sz.sign_extend(val)
                            }
                            _ => val as i128,
                        };
                        v.push(J::Arr(vec![J::Int(val), bb(&tgt)]));
                    }
                    J::Arr(vec![J::s("switch"), d, i(dti), J::Arr(v), bb(&targets.otherwise())])
                }
                T::UnwindResume | T::UnwindTerminate(_) | T::CoroutineDrop => J::Arr(vec![J::s("unwind")]),
                T::Return => J::Arr(vec![J::s("return")]),
                T::Unreachable => J::Arr(vec![J::s("unreachable")]),
                T::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    J::Arr(vec![J::s("drop"), self.place(place), bb(target), i(self.ty(pt))])
                }
                T::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a = J::Arr(args.iter().map(|x| self.operand(&x.node)).collect());
                    J::Arr(vec![J::s("call"), f, a, self.place(destination), target.as_ref().map_or(J::Null, bb)])
                }
                T::TailCall { func, args, .. } => {
                    let f = self.operand(func);
                    let a = J::Arr(args.iter().map(|x| self.operand(&x.node)).collect());
                    J::Arr(vec![J::s("tailcall"), f, a])
                }
                T::Assert { cond, expected, msg, target, .. } => {
                    use mir::AssertKind as K;
                    let m = match &**msg {
                        K::BoundsCheck { len, index } => {
                            J::Arr(vec![J::s("bounds"), self.operand(len), self.operand(index)])
                        }
                        K::Overflow(op, a, c) => J::Arr(vec![
                            J::s("overflow"),
                            J::s(format!("{op:?}")),
                            self.operand(a),
                            self.operand(c),
                        ]),
                        K::OverflowNeg(a) => J::Arr(vec![J::s("overflowneg"), self.operand(a)]),
                        K::DivisionByZero(a) => J::Arr(vec![J::s("div0"), self.operand(a)]),
                        K::RemainderByZero(a) => J::Arr(vec![J::s("rem0"), self.operand(a)]),
                        _ => J::Arr(vec![J::s("other")]),
                    };
                    J::Arr(vec![J::s("assert"), self.operand(cond), J::Bool(*expected), m, bb(target)])
                }
                T::Yield { value, resume, resume_arg, .. } => {
                    J::Arr(vec![J::s("yield"), self.operand(value), bb(resume), self.place(resume_arg)])
                }
                T::FalseEdge { real_target, .. } => J::Arr(vec![J::s("goto"), bb(real_target)]),
                T::FalseUnwind { real_target, .. } => J::Arr(vec![J::s("goto"), bb(real_target)]),
                T::InlineAsm { .. } => J::Arr(vec![J::s("asm")]),
            };
            blocks.push(obj! {"s": J::Arr(st), "t": t, "sp": sp, "cleanup": J::Bool(data.is_cleanup)});
        }
        obj! {"argc": i(b.arg_count), "locals": J::Arr(locals), "ups": J::Arr(upnames), "blocks": J::Arr(blocks)}
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, captured: &[Captured]) -> String {
    use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
    with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(dump_inner(tcx, captured))))
}

fn dump_inner<'tcx>(tcx: TyCtxt<'tcx>, captured: &[Captured]) -> String {
    let mut d = D {
        tcx,
        types: vec![],
        tyidx: HashMap::new(),
        adts: BTreeMap::new(),
        files: vec![],
        fileidx: HashMap::new(),
        env: TypingEnv::fully_monomorphized(),
    };
    let mut bodies = vec![];
    for c in captured {
        let did = c.def.to_def_id();
        d.env = TypingEnv::non_body_analysis(tcx, did);
        // SAFETY: same TyCtxt
        let b: &mir::Body<'tcx> = unsafe { std::mem::transmute(&c.body) };
        let p: &Vec<mir::Body<'tcx>> = unsafe { std::mem::transmute(&c.promoted) };
        bodies.push(one_body(&mut d, did, b, p));
    }
    // constants and statics with bodies of their own
    for l in tcx.hir_body_owners() {
        let did = l.to_def_id();
        if captured.iter().any(|c| c.def == l) {
            continue;
        }
        let k = tcx.def_kind(did);
        if matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            d.env = TypingEnv::non_body_analysis(tcx, did);
            let (b, p) = tcx.mir_promoted(l);
            let b = b.borrow().clone();
            let p: Vec<_> = p.borrow().iter().cloned().collect();
            bodies.push(one_body(&mut d, did, &b, &p));
            continue;
        }
        if matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst) {
            if tcx.generics_of(did).requires_monomorphization(tcx) {
                continue;
            }
            d.env = TypingEnv::non_body_analysis(tcx, did);
            let b = tcx.mir_for_ctfe(did);
            let p: Vec<_> = tcx.promoted_mir(did).iter().cloned().collect();
            bodies.push(one_body(&mut d, did, b, &p));
        }
    }
    // impls
    let mut impls = vec![];
    let mut traits = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let sti = d.ty(st);
                let mut o: Vec<(&'static str, J)> = vec![("self", i(sti)), ("gen", d.generics_names(did))];
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::s(d.path(tr.def_id))));
                    o.push(("targs", d.gargs(tr.args)));
                    let neg = tcx.impl_polarity(did) == ty::ImplPolarity::Negative;
                    o.push(("neg", J::Bool(neg)));
                }
                let mut items = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    let t = if matches!(it.kind, ty::AssocKind::Type { .. }) {
                        let x = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        i(d.ty(x))
                    } else {
                        J::Null
                    };
                    items.push(J::Arr(vec![J::s(it.name().to_string()), d.lid(it.def_id), t]));
                }
                o.push(("items", J::Arr(items)));
                let sp = tcx.def_span(did);
                o.push(("derived", J::Bool(sp.from_expansion())));
                o.push(("span", d.span(sp)));
                impls.push(J::Obj(o));
            }
            DefKind::Trait { .. } => {
                let mut items = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    let has = it.defaultness(tcx).has_value();
                    items.push(J::Arr(vec![J::s(it.name().to_string()), if has { d.lid(it.def_id) } else { J::Null }]));
                }
                traits.push(obj! {"path": J::s(d.path(did)), "items": J::Arr(items), "gen": d.generics_names(did)});
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                d.adt(did);
            }
            _ => {}
        }
    }
    // trait queries
    let mut queries = vec![];
    let wanted = [
        "core::marker::Send", "core::marker::Sync", "core::clone::Clone", "core::fmt::Debug", "core::fmt::Display",
        "core::fmt::LowerHex", "core::fmt::UpperHex", "core::fmt::Octal", "core::fmt::Binary", "core::fmt::Pointer",
        "core::fmt::LowerExp", "core::fmt::UpperExp", "serde_core::ser::Serialize", "serde::ser::Serialize",
        "core::error::Error", "core::marker::Unpin",
    ];
    let mut tdefs = vec![];
    for t in tcx.all_traits_including_private() {
        let n = d.path(t);
        if wanted.contains(&n.as_str()) {
            tdefs.push((n, t));
        }
    }
    tdefs.sort_by(|a, b| a.0.cmp(&b.0));
    let ev = tcx.effective_visibilities(());
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        let k = tcx.def_kind(did);
        let (what, t) = match k {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                ("adt", tcx.type_of(did).instantiate_identity().skip_norm_wip())
            }
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                let sig = tcx.liberate_late_bound_regions(did, sig);
                ("ret", sig.output())
            }
            _ => continue,
        };
        if what == "ret" && !matches!(t.kind(), ty::Alias(..)) {
            continue;
        }
        let env = TypingEnv::non_body_analysis(tcx, did);
        let mut res = vec![];
        for (n, td) in &tdefs {
            let (infcx, param_env) = tcx.infer_ctxt().build_with_typing_env(if what == "ret" {
                TypingEnv::post_analysis(tcx, did)
            } else {
                env
            });
            let r = infcx.type_implements_trait(*td, [t], param_env);
            if r.must_apply_modulo_regions() {
                res.push(J::s(n.clone()));
            } else if r.may_apply() {
                res.push(J::s(format!("maybe {n}")));
            }
        }
        let sp = tcx.def_span(did);
        queries.push(obj! {"what": J::s(what), "path": J::s(d.path(did)), "id": d.lid(did), "t": i(d.ty(t)), "impls": J::Arr(res),
            "exported": J::Bool(ev.is_reachable(id)), "async": J::Bool(tcx.asyncness(did).is_async()), "span": d.span(sp)});
    }
    let mut tnames: Vec<J> = tdefs.iter().map(|x| J::s(x.0.clone())).collect();
    tnames.dedup_by(|a, b| matches!((a, b), (J::Str(x), J::Str(y)) if x == y));
    let adts = J::Arr(
        d.adts.iter().map(|(k, v)| J::Arr(vec![J::s(k.clone()), v.clone()])).collect(),
    );
    let out = obj! {
        "crate": J::s(tcx.crate_name(LOCAL_CRATE).to_string()),
        "types": J::Arr(d.types.clone()),
        "adts": adts,
        "bodies": J::Arr(bodies),
        "impls": J::Arr(impls),
        "traits": J::Arr(traits),
        "queries": J::Arr(queries),
        "query_traits": J::Arr(tnames),
        "files": J::Arr(d.files.iter().map(|f| J::s(f.clone())).collect()),
    };
    let mut s = String::new();
    out.write(&mut s);
    s
}

fn one_body<'tcx>(d: &mut D<'tcx>, did: DefId, b: &mir::Body<'tcx>, p: &[mir::Body<'tcx>]) -> J {
    let tcx = d.tcx;
    let kind = tcx.def_kind(did);
    let bj = d.body(b);
    let pj = J::Arr(p.iter().map(|x| d.body(x)).collect());
    let l = did.expect_local();
    let ev = tcx.effective_visibilities(());
    let parent = tcx.opt_parent(did).map_or(J::Null, |p| d.lid(p));
    let sp = tcx.def_span(did);
    let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn);
    let cor = tcx.is_coroutine(did);
    obj! {
        "id": d.lid(did),
        "path": J::s(d.path(did)),
        "kind": J::s(format!("{kind:?}")),
        "coroutine": J::Bool(cor),
        "async": J::Bool(is_fn && tcx.asyncness(did).is_async()),
        "exported": J::Bool(ev.is_reachable(l)),
        "vis": J::Bool(is_fn && tcx.visibility(did).is_public()),
        "gen": d.generics_names(did),
        "parent": parent,
        "from_expansion": J::Bool(sp.from_expansion()),
        "span": d.span(sp),
        "body": bj,
        "promoted": pj,
    }
}
