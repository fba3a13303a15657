//! Typed views of table rows: layout of every view and interpretation of every
//! conversion between a view and the raw row on a concrete row `0..N`.
use crate::hooks::*;
use crate::json::*;
use crate::machine::*;
use crate::prov::*;
use crate::roots::*;
use rustc_const_eval::interpret as ri;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::collections::BTreeMap;

fn norm<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
    tcx.normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), rustc_middle::ty::Unnormalized::new_wip(t))
}

fn inst_args<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, t: Ty<'tcx>) -> ty::GenericArgsRef<'tcx> {
    ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
        ty::GenericParamDefKind::Type { .. } => t.into(),
        ty::GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(tcx, 1).into(),
    })
}

/// the array length of `[usize; n]`
fn arr_len<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<u64> {
    match t.peel_refs().kind() {
        ty::Array(e, n) if *e == tcx.types.usize => n.try_to_target_usize(tcx),
        _ => None,
    }
}

fn local_view<'tcx>(t: Ty<'tcx>) -> Option<DefId> {
    match t.peel_refs().kind() {
        ty::Adt(ad, a) if ad.did().is_local() && a.types().count() == 1 && !ad.is_enum() => Some(ad.did()),
        _ => None,
    }
}

struct Walk {
    leaves: Vec<(u64, u64, String)>,
    problems: Vec<String>,
    nested: Vec<DefId>,
}

fn walk<'tcx>(ecx: &Ecx<'tcx>, t: Ty<'tcx>, base: u64, name: &str, w: &mut Walk) {
    let tcx = *ecx.tcx;
    let l = match ecx.layout_of(t) {
        Ok(l) => l,
        Err(_) => {
            w.problems.push(format!("{name}: no layout"));
            return;
        }
    };
    match t.kind() {
        ty::Adt(ad, args) => {
            if ad.did().is_local() {
                w.nested.push(ad.did());
            }
            if !ad.repr().c() && !ad.repr().transparent() {
                w.problems.push(format!("{} is not #[repr(C)]: the order of its columns is unspecified", tcx.def_path_str(ad.did())));
            }
            if ad.repr().packed() || ad.repr().align.is_some() {
                w.problems.push(format!("{} changes its alignment", tcx.def_path_str(ad.did())));
            }
            let un = ad.is_union();
            for (i, f) in ad.non_enum_variant().fields.iter_enumerated() {
                let ft = norm(tcx, f.ty(tcx, args).skip_normalization());
                let off = l.fields.offset(i.index()).bytes();
                let n = if name.is_empty() { f.name.to_string() } else { format!("{name}.{}", f.name) };
                if un {
                    let mut v = Walk { leaves: vec![], problems: vec![], nested: vec![] };
                    walk(ecx, ft, 0, &n, &mut v);
                    w.problems.extend(cover(&mut v, l.size.bytes()).into_iter().map(|p| format!("variant {n}: {p}")));
                    w.problems.append(&mut v.problems);
                    w.nested.append(&mut v.nested);
                    if off != 0 {
                        w.problems.push(format!("variant {n} starts at column {off}"));
                    }
                    if i.index() == 0 {
                        for x in v.leaves {
                            w.leaves.push((base + x.0, x.1, x.2));
                        }
                    }
                } else {
                    walk(ecx, ft, base + off, &n, w);
                }
            }
        }
        ty::Array(e, n) => {
            let n = n.try_to_target_usize(tcx).unwrap_or(0);
            let sz = ecx.layout_of(*e).map(|l| l.size.bytes()).unwrap_or(0);
            for i in 0..n {
                walk(ecx, *e, base + i * sz, &format!("{name}[{i}]"), w);
            }
        }
        _ => w.leaves.push((base, l.size.bytes(), name.to_string())),
    }
}

fn cover(w: &mut Walk, size: u64) -> Vec<String> {
    w.leaves.sort();
    let mut at = 0;
    let mut out = vec![];
    for (b, n, nm) in &w.leaves {
        if *n != 1 {
            out.push(format!("cell {nm} has {n} columns"));
        }
        if *b != at {
            out.push(format!("cell {nm} is at column {b}, expected {at}"));
        }
        at = b + n;
    }
    if at != size {
        out.push(format!("cells cover {at} of {size} columns"));
    }
    out
}

fn fill<'tcx>(ecx: &mut Ecx<'tcx>, mp: &MPlaceTy<'tcx>) -> InterpResult<'tcx, u64> {
    let tcx = *ecx.tcx;
    let n = mp.layout.size.bytes() / 8;
    let lu = ecx.layout_of(tcx.types.usize)?;
    for i in 0..n {
        let p = mp.ptr().wrapping_offset(rustc_abi::Size::from_bytes(i * 8), ecx);
        let c = ecx.ptr_to_mplace(p, lu);
        ecx.write_scalar(ri::Scalar::from_target_usize(i, ecx), &c)?;
    }
    interp_ok(n)
}

fn is_row<'tcx>(ecx: &mut Ecx<'tcx>, mp: &MPlaceTy<'tcx>) -> InterpResult<'tcx, Result<u64, String>> {
    let tcx = *ecx.tcx;
    let n = mp.layout.size.bytes() / 8;
    let lu = ecx.layout_of(tcx.types.usize)?;
    for i in 0..n {
        let p = mp.ptr().wrapping_offset(rustc_abi::Size::from_bytes(i * 8), ecx);
        let c = ecx.ptr_to_mplace(p, lu);
        let v = ecx.read_target_usize(&c)?;
        if v != i {
            return interp_ok(Err(format!("column {i} comes from column {v}")));
        }
    }
    interp_ok(Ok(n))
}

/// one conversion: by value the row is preserved, by reference the same memory is seen
fn conversion<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> (String, String) {
    let k = key(tcx, d);
    let mut ecx = new_ecx(tcx);
    let args = inst_args(tcx, d, tcx.types.usize);
    let r = (|| -> InterpResult<'tcx, String> {
        let mut inst = ty::Instance::expect_resolve(tcx, ty::TypingEnv::fully_monomorphized(), d, args, rustc_span::DUMMY_SP);
        let sig = fn_sig(tcx, inst);
        if inst.def.requires_caller_location(tcx) {
            inst = ty::Instance { def: ty::InstanceKind::Shim(ty::ShimKind::Reify(d, None)), args: inst.args };
        }
        let it = norm(tcx, sig.inputs()[0]);
        let ot = norm(tcx, sig.output());
        let lt = ecx.layout_of(it.peel_refs())?;
        let row = ecx.allocate(lt, ri::MemoryKind::Machine(MK::Heap))?;
        let n = fill(&mut ecx, &row)?;
        let mut ops: Vec<OpTy<'tcx>> = vec![];
        if it.is_ref() {
            let li = ecx.layout_of(it)?;
            let im = row.to_ref(&ecx);
            let im = ri::ImmTy::from_immediate(im, li);
            ops.push(im.into());
        } else {
            ops.push(row.clone().into());
        }
        let mut want = 0u64;
        if sig.inputs().len() == 2 {
            let lu = ecx.layout_of(tcx.types.usize)?;
            want = n - 1;
            ops.push(ri::ImmTy::from_scalar(ri::Scalar::from_target_usize(want, &ecx), lu).into());
        }
        let out = call(&mut ecx, inst, ops)?;
        if ot.is_ref() {
            let p = ecx.deref_pointer(&out)?;
            let b = row.ptr().wrapping_offset(rustc_abi::Size::from_bytes(want * 8), &ecx);
            if p.ptr() != b {
                return interp_ok("the reference returned is not to the row given".into());
            }
            if sig.inputs().len() == 2 {
                return interp_ok(if p.layout.size.bytes() == 8 { "ok".into() } else { "index does not give one column".into() });
            }
            if p.layout.size != row.layout.size {
                return interp_ok(format!("sizes differ: {} and {} columns", row.layout.size.bytes() / 8, p.layout.size.bytes() / 8));
            }
            return interp_ok(match is_row(&mut ecx, &row)? {
                Ok(_) => "ok".into(),
                Err(e) => format!("conversion changes the row: {e}"),
            });
        }
        if out.layout.size != row.layout.size {
            return interp_ok(format!("sizes differ: {} and {} columns", n, out.layout.size.bytes() / 8));
        }
        interp_ok(match is_row(&mut ecx, &out)? {
            Ok(_) => "ok".into(),
            Err(e) => e,
        })
    })();
    let st = match r.report_err() {
        Ok(s) => s,
        Err(e) => format!("not interpreted: {}", describe_err(&ecx, e).lines().next().unwrap_or("")),
    };
    (k, st)
}

pub fn views_root<'tcx>(cx: &Cx<'tcx>) -> RootOut {
    let tcx = cx.tcx;
    let us = tcx.types.usize;
    let mut views: BTreeMap<String, (DefId, u64, Vec<DefId>)> = BTreeMap::new();
    for (tr, impls) in tcx.all_local_trait_impls(()).iter() {
        let tn = tcx.item_name(*tr);
        let tn = tn.as_str();
        if !["Borrow", "BorrowMut", "From", "Into", "Deref", "DerefMut", "Index", "IndexMut", "AsRef", "AsMut"].contains(&tn) {
            continue;
        }
        for ld in impls {
            let d = ld.to_def_id();
            let args = inst_args(tcx, d, us);
            let trf = tcx.impl_trait_ref(d).instantiate(tcx, args);
            let trf = tcx.normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), trf);
            let mut ts: Vec<Ty<'tcx>> = trf.args.types().collect();
            for it in tcx.associated_items(d).in_definition_order() {
                if it.is_type() && (tn == "Deref") {
                    ts.push(norm(tcx, tcx.type_of(it.def_id).instantiate(tcx, args).skip_normalization()));
                }
            }
            let v = ts.iter().find_map(|t| local_view(*t));
            let n = ts.iter().find_map(|t| arr_len(tcx, *t));
            let Some(v) = v else { continue };
            if n.is_none() && !["Index", "IndexMut", "DerefMut"].contains(&tn) {
                continue;
            }
            let e = views.entry(tcx.def_path_str(v)).or_insert((v, 0, vec![]));
            if let Some(n) = n {
                if e.1 != 0 && e.1 != n {
                    e.1 = u64::MAX;
                } else {
                    e.1 = n;
                }
            }
            for it in tcx.associated_items(d).in_definition_order() {
                if it.is_fn() {
                    e.2.push(it.def_id);
                }
            }
        }
    }
    let mut out = vec![];
    let ecx = new_ecx(tcx);
    for (name, (d, n, fns)) in &views {
        if *n == 0 {
            continue;
        }
        let t = Ty::new_adt(tcx, tcx.adt_def(*d), inst_args(tcx, *d, tcx.types.u8));
        let mut w = Walk { leaves: vec![], problems: vec![], nested: vec![] };
        walk(&ecx, t, 0, "", &mut w);
        let c = cover(&mut w, *n);
        w.problems.extend(c);
        let mut cs: Vec<(String, String)> = fns.iter().map(|f| conversion(tcx, *f)).collect();
        // views of the same memory offered by unions
        for x in &w.nested {
            if tcx.def_kind(*x) != DefKind::Union {
                continue;
            }
            for im in tcx.inherent_impls(*x) {
                for it in tcx.associated_items(*im).in_definition_order() {
                    if it.is_fn() {
                        let sig = tcx.fn_sig(it.def_id).instantiate(tcx, inst_args(tcx, it.def_id, us)).skip_normalization().skip_binder();
                        if sig.inputs().len() == 1 && sig.output().is_ref() {
                            cs.push(conversion(tcx, it.def_id));
                        }
                    }
                }
            }
        }
        cs.sort();
        cs.dedup();
        out.push((
            name.clone(),
            J::O(vec![
                ("columns".into(), J::N(*n as i128)),
                ("cells".into(), J::A(w.leaves.iter().map(|x| J::S(x.2.clone())).collect())),
                ("problems".into(), J::A(w.problems.into_iter().map(J::S).collect())),
                ("fns".into(), J::A(cs.into_iter().map(|c| J::A(vec![J::S(c.0), J::S(c.1)])).collect())),
            ]),
        ));
    }
    // constant maps from names to column numbers
    let mut maps = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::Static { .. }) {
            continue;
        }
        let t = tcx.type_of(d).instantiate_identity().skip_normalization();
        let Some(v) = local_view(t) else { continue };
        if !matches!(t.kind(), ty::Adt(_, a) if a.types().all(|x| x == us)) {
            continue;
        }
        if !views.values().any(|x| x.0 == v && x.1 != 0) {
            continue;
        }
        let mut ecx = new_ecx(tcx);
        let r = (|| -> InterpResult<'tcx, String> {
            let cv = match tcx.const_eval_poly(d) {
                Ok(v) => v,
                Err(_) => return stop("const eval failed"),
            };
            let l = ecx.layout_of(norm(tcx, t))?;
            let op = ecx.eval_mir_constant(&rustc_middle::mir::Const::Val(cv, norm(tcx, t)), rustc_span::DUMMY_SP, Some(l))?;
            let mp = ecx.allocate(l, ri::MemoryKind::Machine(MK::Heap))?;
            ecx.copy_op(&op, &mp)?;
            interp_ok(match is_row(&mut ecx, &mp)? {
                Ok(_) => "ok".into(),
                Err(e) => e,
            })
        })();
        let st = match r.report_err() {
            Ok(s) => s,
            Err(e) => format!("not interpreted: {}", describe_err(&ecx, e).lines().next().unwrap_or("")),
        };
        maps.push(J::A(vec![J::S(key(tcx, d)), J::S(tcx.def_path_str(v)), J::S(st)]));
    }
    RootOut {
        name: "views".into(),
        status: "ok".into(),
        data: vec![("views".into(), J::O(out)), ("maps".into(), J::A(maps))],
    }
}
