//! Typed walk over abstract memory: prints a value as JSON by following its layout.
use crate::hooks::*;
use crate::json::*;
use crate::machine::*;
use crate::prov::*;
use rustc_abi::{FieldIdx, Size, VariantIdx};
use rustc_const_eval::interpret as ri;
use rustc_middle::ty::{self, Ty};

pub fn first_ptr<'tcx>(ecx: &Ecx<'tcx>, op: &OpTy<'tcx>, depth: usize) -> InterpResult<'tcx, Option<OpTy<'tcx>>> {
    if op.layout.ty.is_raw_ptr() || matches!(op.layout.ty.kind(), ty::Pat(t, _) if t.is_raw_ptr()) {
        return interp_ok(Some(op.clone()));
    }
    if let ty::Adt(ad, _) = op.layout.ty.kind() {
        if ad.is_struct() && depth < 8 {
            for i in 0..ad.non_enum_variant().fields.len() {
                let f = f0(ecx, op, i)?;
                if f.layout.is_zst() {
                    continue;
                }
                if let Some(x) = first_ptr(ecx, &f, depth + 1)? {
                    return interp_ok(Some(x));
                }
            }
        }
    }
    interp_ok(None)
}

/// the raw pointer inside a pattern-typed one
fn raw_ptr<'tcx>(ecx: &Ecx<'tcx>, p: &OpTy<'tcx>) -> InterpResult<'tcx, OpTy<'tcx>> {
    if let ty::Pat(t, _) = p.layout.ty.kind() {
        let l = ecx.layout_of(*t)?;
        return p.transmute(l, ecx);
    }
    interp_ok(p.clone())
}

/// address of the buffer of a Vec
pub fn vec_base<'tcx>(ecx: &mut Ecx<'tcx>, op: &OpTy<'tcx>) -> InterpResult<'tcx, u64> {
    match first_ptr(ecx, op, 0)? {
        Some(p) => interp_ok(ecx.read_pointer(&p)?.addr().bytes()),
        None => stop("no pointer in Vec"),
    }
}

/// elements of a Vec<T>
pub fn vec_elems<'tcx>(ecx: &mut Ecx<'tcx>, op: &OpTy<'tcx>) -> InterpResult<'tcx, Vec<OpTy<'tcx>>> {
    let (ad, args) = match op.layout.ty.kind() {
        ty::Adt(ad, args) => (*ad, *args),
        _ => return stop("not a Vec"),
    };
    let mut len = 0;
    for (i, f) in ad.non_enum_variant().fields.iter().enumerate() {
        if f.name.as_str() == "len" {
            let l = f0(ecx, op, i)?;
            len = ecx.read_target_usize(&l)?;
        }
    }
    let elem = args.type_at(0);
    let el = ecx.layout_of(elem)?;
    let p = match first_ptr(ecx, op, 0)? {
        Some(p) => ecx.read_pointer(&p)?,
        None => return stop("no pointer in Vec"),
    };
    let mut out = vec![];
    for i in 0..len {
        let q = p.wrapping_offset(Size::from_bytes(i * el.size.bytes()), ecx);
        let mp = ecx.ptr_to_mplace(q, el);
        out.push(mp.into());
    }
    interp_ok(out)
}

pub fn reify<'tcx>(ecx: &mut Ecx<'tcx>, op: &OpTy<'tcx>, depth: usize) -> InterpResult<'tcx, J> {
    let tcx = *ecx.tcx;
    if depth > 40 {
        return interp_ok(s("..."));
    }
    let t = op.layout.ty;
    match t.kind() {
        ty::Bool => match ecx.read_scalar(op).report_err() {
            Ok(v) => interp_ok(J::N(v.to_bool()? as i128)),
            Err(_) => interp_ok(s("?")),
        },
        ty::Int(_) | ty::Uint(_) | ty::Char => match ecx.read_scalar(op).report_err() {
            Ok(v) => {
                let b = v.to_bits(op.layout.size)?;
                if let Some(n) = crate::hooks2::tag_name(ecx, b) {
                    return interp_ok(s(&n));
                }
                if op.layout.size.bytes() >= 4 && b <= u64::MAX as u128 {
                    if let Some(r) = crate::hooks3::label_expr(ecx, b as u64) {
                        return interp_ok(J::S(ecx.machine.st.show(r)));
                    }
                }
                if t.is_signed() {
                    return interp_ok(J::N(op.layout.size.sign_extend(b)));
                }
                if b > i128::MAX as u128 { interp_ok(s(&b.to_string())) } else { interp_ok(J::N(b as i128)) }
            }
            Err(_) => interp_ok(s("?")),
        },
        ty::Adt(ad, args) => {
            let n = tcx.item_name(ad.did()).to_string();
            match n.as_str() {
                "GoldilocksField" => {
                    return interp_ok(match rd(ecx, op).report_err() {
                        Ok(v) => J::S(ecx.machine.st.show(v)),
                        Err(_) => s("?"),
                    });
                }
                "Target" => {
                    return interp_ok(match rd_target(ecx, op).report_err() {
                        Ok(v) => J::S(ecx.machine.st.show(v)),
                        Err(_) => s("?"),
                    });
                }
                "ExtensionTarget" => {
                    return interp_ok(match rd_ext(ecx, op).report_err() {
                        Ok(v) => J::S(ecx.machine.st.show(v)),
                        Err(_) => s("?"),
                    });
                }
                "Vec" => {
                    let mut v = vec![];
                    for e in vec_elems(ecx, op)? {
                        v.push(reify(ecx, &e, depth + 1)?);
                    }
                    return interp_ok(J::A(v));
                }
                "String" => {
                    let inner = f0(ecx, op, 0)?;
                    let mut b = vec![];
                    for e in vec_elems(ecx, &inner)? {
                        b.push(ecx.read_scalar(&e)?.to_u8()?);
                    }
                    return interp_ok(J::S(String::from_utf8_lossy(&b).to_string()));
                }
                "Box" => {
                    let inner = args.type_at(0);
                    if !inner.is_sized(tcx, ty::TypingEnv::fully_monomorphized()) {
                        return interp_ok(s(&format!("box {inner}")));
                    }
                    let p = match first_ptr(ecx, op, 0)? {
                        Some(p) => ecx.read_pointer(&p)?,
                        None => return stop("box"),
                    };
                    let l = ecx.layout_of(inner)?;
                    let mp = ecx.ptr_to_mplace(p, l);
                    return reify(ecx, &mp.into(), depth + 1);
                }
                "Arc" if args.type_at(0).is_sized(tcx, ty::TypingEnv::fully_monomorphized()) => {
                    // ArcInner { strong, weak, data }
                    let p = match first_ptr(ecx, op, 0)? {
                        Some(p) => p,
                        None => return stop("arc"),
                    };
                    let mp = ecx.deref_pointer(&raw_ptr(ecx, &p)?)?;
                    let d = f0(ecx, &mp.into(), 2)?;
                    return reify(ecx, &d, depth + 1);
                }
                "PhantomData" | "HashMap" | "BTreeMap" | "Arc" | "Rc" | "RwLock" => return interp_ok(s(&format!("<{n}>"))),
                _ => {}
            }
            if ad.is_union() {
                return interp_ok(s("<union>"));
            }
            let (o, vn) = if ad.is_enum() {
                let vi = match ecx.read_discriminant(op).report_err() {
                    Ok(v) => v,
                    Err(_) => return interp_ok(s("?enum")),
                };
                (ecx.project_downcast(op, vi)?, Some(vi))
            } else {
                (op.clone(), None)
            };
            let variant = match vn {
                Some(v) => ad.variant(v),
                None => ad.non_enum_variant(),
            };
            let names: Vec<String> = variant.fields.iter().map(|f| f.name.to_string()).collect();
            let vname = variant.name.to_string();
            let mut fs = vec![];
            for (i, fname) in names.iter().enumerate() {
                let f = f0(ecx, &o, i)?;
                let v = reify(ecx, &f, depth + 1)?;
                fs.push((fname.clone(), v));
            }
            if vn.is_some() {
                if fs.is_empty() {
                    return interp_ok(s(&vname));
                }
                return interp_ok(J::O(vec![(vname, J::O(fs))]));
            }
            interp_ok(J::O(fs))
        }
        ty::Tuple(ts) => {
            let mut v = vec![];
            for i in 0..ts.len() {
                let f = f0(ecx, op, i)?;
                v.push(reify(ecx, &f, depth + 1)?);
            }
            interp_ok(J::A(v))
        }
        ty::Array(_, n) => {
            let n = n.try_to_target_usize(tcx).unwrap();
            let mut v = vec![];
            for i in 0..n {
                let e = ecx.project_index(op, i)?;
                v.push(reify(ecx, &e, depth + 1)?);
            }
            interp_ok(J::A(v))
        }
        ty::Ref(_, inner, _) => {
            if inner.is_str() {
                let mp = ecx.deref_pointer(op)?;
                let x = ecx.read_str(&mp)?.to_string();
                return interp_ok(J::S(x));
            }
            if let ty::Slice(_) = inner.kind() {
                let mut v = vec![];
                for e in crate::hooks2::slice_places(ecx, op)? {
                    v.push(reify(ecx, &e, depth + 1)?);
                }
                return interp_ok(J::A(v));
            }
            if inner.is_sized(tcx, ty::TypingEnv::fully_monomorphized()) {
                let mp = ecx.deref_pointer(op)?;
                return reify(ecx, &mp.into(), depth + 1);
            }
            interp_ok(s("<ref>"))
        }
        _ => interp_ok(s(&format!("<{}>", t))),
    }
}
