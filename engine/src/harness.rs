//! Functions of a harness module: each gives the case for an index, until it gives none.
//! `oracle_*` say what a recursive call of an analysed function returns (the induction hypothesis).
use crate::hooks::*;
use crate::json::*;
use crate::machine::*;
use crate::prov::*;
use crate::reify::reify;
use crate::roots::*;
use rustc_abi::FieldIdx;
use rustc_hir::def_id::DefId;
use rustc_middle::ty;
use std::collections::HashMap;

pub fn classify(k: &str) -> Option<Hook> {
    Some(Hook::Custom(match k {
        k if k.ends_with("::verif_harness::oracle_off") => "h_off",
        k if k.ends_with("::verif_harness::oracle_err") => "h_err",
        k if k.ends_with("::verif_harness::oracle_none") => "h_none",
        k if k.ends_with("::verif_harness::oracle_some") => "h_some",
        k if k.ends_with("::verif_harness::oracle_number") => "h_number",
        "log::max_level" => "h_nolog",
        "keccak_hash::keccak" => "h_keccak",
        _ => return None,
    }))
}

pub fn hook<'tcx>(ecx: &mut Ecx<'tcx>, c: &str, args: &[OpTy<'tcx>], dest: &PlaceTy<'tcx>) -> InterpResult<'tcx, bool> {
    match c {
        "h_off" => ecx.machine.oracle = None,
        "h_none" => ecx.machine.oracle = Some(("none".into(), vec![])),
        "h_err" | "h_some" => {
            let mut v = vec![];
            for a in args {
                let mp = ecx.allocate(a.layout, MemoryKind::Machine(MK::Heap))?;
                ecx.copy_op(a, &mp)?;
                v.push(mp);
            }
            ecx.machine.oracle = Some((c[2..].into(), v));
        }
        "h_nolog" => {
            // logging is off
            ecx.write_scalar(Scalar::from_uint(0u64, dest.layout.size), dest)?
        }
        "h_number" => {
            // what is hashed next gets this number
            let n = ecx.read_scalar(&args[0])?.to_u64()? as usize;
            while ecx.machine.tagged.len() < n {
                ecx.machine.tagged.push(String::new());
            }
        }
        // the circuits are built with the real function
        "h_keccak" if !ecx.machine.drops => return interp_ok(false),
        "h_keccak" => {
            // an uninterpreted injective function of the bytes
            let bytes = match as_bytes(ecx, &args[0], 0)? {
                Some(b) => b,
                None => return interp_ok(false),
            };
            let hex: String = bytes.iter().map(|b| format!("{b:02x}")).collect();
            let n = crate::hooks2::tag(ecx, &format!("keccak:{hex}")) - crate::hooks2::TAG as u64;
            let arr = ecx.project_field(dest, FieldIdx::from_usize(0))?;
            for i in 0..32u64 {
                let q = ecx.project_index(&arr, i)?;
                let b = match i {
                    0..24 => 0xEE,
                    _ => (n >> (8 * (31 - i))) as u8,
                };
                ecx.write_scalar(Scalar::from_u8(b), &q)?;
            }
        }
        _ => return interp_ok(false),
    }
    interp_ok(true)
}

/// a function `for_<name>` of the harness stands for a library function that is not analysed
pub fn instead<'tcx>(ecx: &mut Ecx<'tcx>, d: DefId) -> Option<DefId> {
    if d.is_local() || ecx.machine.instead.is_empty() {
        return None;
    }
    if let Some(r) = ecx.machine.insteadcache.get(&d) {
        return *r;
    }
    let k = key(*ecx.tcx, d);
    let n = match k.as_str() {
        k if k.ends_with("Backtrace::capture") => "for_backtrace",
        k if k.ends_with("::format_inner") => "for_format",
        k if k.ends_with("RandomState::new") => "for_random_state",
        k if k.ends_with("Formatter::write_str") => "for_write_str",
        k if k.ends_with("Formatter::write_fmt") => "for_write_fmt",
        k if k.ends_with("fmt::write") => "for_write",
        _ => "",
    };
    let r = ecx.machine.instead.iter().find(|(x, _)| x == n).map(|(_, d)| *d);
    ecx.machine.insteadcache.insert(d, r);
    r
}

fn as_bytes<'tcx>(ecx: &mut Ecx<'tcx>, op: &OpTy<'tcx>, d: usize) -> InterpResult<'tcx, Option<Vec<u8>>> {
    let tcx = *ecx.tcx;
    let mut out = vec![];
    match op.layout.ty.kind() {
        ty::Ref(_, t, _) => match t.kind() {
            ty::Slice(_) | ty::Array(..) => {
                for e in crate::hooks2::slice_places(ecx, op)? {
                    out.push(ecx.read_scalar(&e)?.to_u8()?);
                }
            }
            _ if d < 4 && t.is_sized(tcx, ty::TypingEnv::fully_monomorphized()) => {
                let mp = ecx.deref_pointer(op)?;
                return as_bytes(ecx, &mp.into(), d + 1);
            }
            _ => return interp_ok(None),
        },
        ty::Adt(ad, _) if tcx.item_name(ad.did()).as_str() == "Vec" => {
            for e in crate::reify::vec_elems(ecx, op)? {
                out.push(ecx.read_scalar(&e)?.to_u8()?);
            }
        }
        ty::Adt(ad, _) if tcx.item_name(ad.did()).as_str() == "Bytes" => {
            // Bytes { ptr, len, .. }
            let mut len = 0;
            let mut ptr = None;
            for (i, f) in ad.non_enum_variant().fields.iter().enumerate() {
                let x = f0(ecx, op, i)?;
                match f.name.as_str() {
                    "len" => len = ecx.read_target_usize(&x)?,
                    "ptr" => ptr = Some(ecx.read_pointer(&x)?),
                    _ => {}
                }
            }
            let p = match ptr {
                Some(p) => p,
                None => return interp_ok(None),
            };
            let l = ecx.layout_of(tcx.types.u8)?;
            for i in 0..len {
                let q = p.wrapping_offset(rustc_abi::Size::from_bytes(i), ecx);
                let mp = ecx.ptr_to_mplace(q, l);
                out.push(ecx.read_scalar(&mp)?.to_u8()?);
            }
        }
        ty::Array(..) => {
            let l = op.layout.fields.count();
            for i in 0..l as u64 {
                let e = ecx.project_index(op, i)?;
                out.push(ecx.read_scalar(&e)?.to_u8()?);
            }
        }
        ty::Adt(ad, _) if ad.is_struct() && ad.non_enum_variant().fields.len() == 1 && d < 4 => {
            let x = f0(ecx, op, 0)?;
            return as_bytes(ecx, &x, d + 1);
        }
        _ => return interp_ok(None),
    }
    interp_ok(Some(out))
}

/// A call to a function that is already being interpreted: replaced by the assumed result, if its type is of that kind.
pub fn cut<'tcx>(ecx: &mut Ecx<'tcx>, d: DefId, args: &[FnArg<'tcx>], dest: &PlaceTy<'tcx>) -> InterpResult<'tcx, bool> {
    if !d.is_local() || !ecx.machine.stack.iter().any(|f| f.instance().def_id() == d) {
        return interp_ok(false);
    }
    if adt_name(*ecx.tcx, dest.layout.ty) != "Result" {
        return interp_ok(false);
    }
    let (mode, vals) = ecx.machine.oracle.clone().unwrap();
    if !fill(ecx, dest, &mode, &vals)? {
        return stop(format!("no assumed result of type {}", dest.layout.ty));
    }
    let mut v = vec![];
    for a in args {
        let a = a.copy_fn_arg();
        v.push(reify(ecx, &a, 0)?);
    }
    let mut t = String::new();
    J::A(v).write(&mut t);
    event(ecx, "cut", vec![], t);
    interp_ok(true)
}

fn fill<'tcx>(ecx: &mut Ecx<'tcx>, p: &PlaceTy<'tcx>, mode: &str, vals: &[MPlaceTy<'tcx>]) -> InterpResult<'tcx, bool> {
    let tcx = *ecx.tcx;
    if p.layout.is_zst() {
        return interp_ok(true);
    }
    if let Some(v) = vals.iter().find(|v| v.layout.ty == p.layout.ty) {
        let v: OpTy<'tcx> = v.clone().into();
        ecx.copy_op(&v, p)?;
        return interp_ok(true);
    }
    match p.layout.ty.kind() {
        ty::Adt(ad, _) if ad.is_enum() => {
            let n = match (tcx.item_name(ad.did()).as_str(), mode) {
                ("Result", "err") => "Err",
                ("Result", _) => "Ok",
                ("Option", "none") => "None",
                ("Option", _) => "Some",
                _ => return interp_ok(false),
            };
            let vi = ad.variants().iter_enumerated().find(|(_, v)| v.name.as_str() == n).unwrap().0;
            if n != "None" {
                let dd = ecx.project_downcast(p, vi)?;
                let f = ecx.project_field(&dd, FieldIdx::from_usize(0))?;
                if !fill(ecx, &f, mode, vals)? {
                    return interp_ok(false);
                }
            }
            ecx.write_discriminant(vi, p)?;
            interp_ok(true)
        }
        ty::Tuple(ts) => {
            for i in 0..ts.len() {
                let f = ecx.project_field(p, FieldIdx::from_usize(i))?;
                if !fill(ecx, &f, mode, vals)? {
                    return interp_ok(false);
                }
            }
            interp_ok(true)
        }
        _ => interp_ok(false),
    }
}

pub fn run<'tcx>(cx: &Cx<'tcx>, add: &mut dyn FnMut(String, &dyn Fn() -> RootOut)) {
    let tcx = cx.tcx;
    let mut fs: Vec<(String, DefId)> = vec![];
    let mut ins: Vec<(String, DefId)> = vec![];
    for (k, ds) in &cx.fns {
        if let Some(n) = k.rsplit("::verif_harness::").next().filter(|n| !n.contains("::") && k.contains("::verif_harness::")) {
            if tcx.visibility(ds[0]).is_public() {
                fs.push((n.to_string(), ds[0]));
            } else if n.starts_with("for_") {
                ins.push((n.to_string(), ds[0]));
            }
        }
    }
    fs.sort_by(|a, b| a.0.cmp(&b.0));
    for (n, d) in fs {
        let name = format!("h::{n}");
        add(name.clone(), &|| cases(cx, &name, d, &ins));
    }
}

fn cases<'tcx>(cx: &Cx<'tcx>, name: &str, d: DefId, ins: &[(String, DefId)]) -> RootOut {
    let tcx = cx.tcx;
    let mut out = vec![];
    let mut status = "ok".to_string();
    let t0 = std::time::Instant::now();
    for i in 0..2000u64 {
        let mut ecx = new_ecx(tcx);
        ecx.machine.drops = true;
        ecx.machine.instead = ins.to_vec();
        let r = (|| -> InterpResult<'tcx, J> {
            let inst = ty::Instance::expect_resolve(tcx, ty::TypingEnv::fully_monomorphized(), d, ty::List::empty(), rustc_span::DUMMY_SP);
            let l = ecx.layout_of(tcx.types.usize)?;
            let a = ImmTy::from_uint(i, l);
            let r = call(&mut ecx, inst, vec![a.into()])?;
            reify(&mut ecx, &r.into(), 0)
        })();
        let tags: Vec<J> = ecx.machine.tagged.iter().map(|t| s(t)).collect();
        match r.report_err() {
            Ok(J::S(x)) if x == "None" => break,
            Ok(v) => out.push(J::O(vec![("value".into(), v), ("events".into(), events_json(&ecx)), ("tags".into(), J::A(tags))])),
            Err(e) => {
                let m = describe_err(&ecx, e);
                if i == 0 {
                    status = m.clone();
                }
                out.push(J::O(vec![("stop".into(), s(&m)), ("events".into(), events_json(&ecx))]));
                if out.len() > 400 {
                    break;
                }
            }
        }
    }
    RootOut { name: name.to_string(), status, data: vec![("cases".into(), J::A(out)), ("seconds".into(), s(&t0.elapsed().as_secs().to_string()))] }
}
