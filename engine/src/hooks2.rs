use crate::hooks::*;
use crate::machine::*;
use crate::poly::P;
use rustc_abi::{Align, Size};
use crate::prov::*;
use rustc_middle::ty;

pub const TAG: u128 = 0x5A5A_0000_0000;

pub fn classify(k: &str) -> Option<Hook> {
    Some(Hook::Custom(match k {
        "LocalKey::with" => "local_with",
        "Lazy as Deref::deref" | "Lazy::force" => "lazy",
        "HashMap as Index::index" => "map_index",
        "HashMap::insert" => "map_insert",
        "plonky2::plonk::plonk_common::reduce_with_powers_ext_circuit" => "reduce_ext",
        _ => return crate::harness::classify(k).or_else(|| crate::verify::classify(k)).or_else(|| crate::hooks3::classify(k)),
    }))
}

/// integers produced by named-constant hooks
pub fn untag<'tcx>(ecx: &mut Ecx<'tcx>, v: u128) -> u64 {
    if let Some(n) = tag_name(ecx, v) {
        return ecx.machine.st.atom(&n);
    }
    if let Some(n) = crate::hooks3::label_expr(ecx, v as u64) {
        return n;
    }
    (v % P as u128) as u64
}

pub fn run<'tcx>(
    ecx: &mut Ecx<'tcx>,
    h: Hook,
    name: &'static str,
    _instance: ty::Instance<'tcx>,
    args: &[OpTy<'tcx>],
    dest: &PlaceTy<'tcx>,
) -> InterpResult<'tcx, bool> {
    match h {
        Hook::Custom("local_with") => {
            if adt_name(*ecx.tcx, dest.layout.ty) != "RandomState" {
                return interp_ok(false);
            }
            // hash seeds: iteration order of hash maps is unspecified, any fixed seed is one of them
            for i in 0..2 {
                let f = ecx.project_field(dest, rustc_abi::FieldIdx::from_usize(i))?;
                ecx.write_scalar(Scalar::from_u64(i as u64 + 1), &f)?;
            }
        }
        Hook::Custom("lazy") => {
            // a lazily initialised global (the assembled kernel): an object with named contents
            let t = match dest.layout.ty.kind() {
                ty::Ref(_, t, _) => *t,
                _ => return stop("lazy deref"),
            };
            if adt_name(*ecx.tcx, t) != "Kernel" {
                return interp_ok(false);
            }
            let mp = match ecx.machine.kernel.clone() {
                Some(m) => m,
                None => {
                    let l = ecx.layout_of(t)?;
                    let m = ecx.allocate(l, MemoryKind::Machine(MK::Heap))?;
                    crate::roots::symbolize(ecx, &m.clone().into(), "KERNEL")?;
                    ecx.machine.kernel = Some(m.clone());
                    m
                }
            };
            let imm = mp.to_ref(ecx);
            ecx.write_immediate(imm, dest)?
        }
        Hook::Custom("map_index") => {
            // kernel label tables: the value is named by the key
            let k = ecx.machine.kernel.clone();
            let p = ecx.read_pointer(&args[0])?;
            let inside = match k {
                Some(m) => {
                    let a = m.ptr().addr().bytes();
                    p.addr().bytes() >= a && p.addr().bytes() < a + m.layout.size.bytes()
                }
                None => false,
            };
            if !inside {
                return interp_ok(false);
            }
            let key = ecx.deref_pointer(&args[1])?;
            let key = ecx.read_str(&key)?.to_string();
            let tagv = tag(ecx, &format!("KERNEL[{key}]"));
            let l = ecx.layout_of(ecx.tcx.types.usize)?;
            let mp = ecx.allocate(l, MemoryKind::Machine(MK::Heap))?;
            ecx.write_scalar(Scalar::from_u64(tagv), &mp)?;
            let imm = mp.to_ref(ecx);
            ecx.write_immediate(imm, dest)?
        }
        Hook::Custom("map_insert") => {
            if !ecx.machine.lens.contains_key("@maps") {
                return interp_ok(false);
            }
            let k = crate::reify::reify(ecx, &args[1], 0)?;
            let v = crate::reify::reify(ecx, &args[2], 0)?;
            let mut t = String::new();
            crate::json::J::A(vec![k, v]).write(&mut t);
            event(ecx, "insert", vec![], t);
            if let ty::Adt(ad, _) = dest.layout.ty.kind() {
                for (vi, v) in ad.variants().iter_enumerated() {
                    if v.name.as_str() == "None" {
                        ecx.write_discriminant(vi, dest)?;
                    }
                }
            }
        }
        Hook::Custom("reduce_ext") => {
            let terms = slice_places(ecx, &args[1])?;
            let alpha = rd_target(ecx, &args[2])?;
            let mut acc = 0;
            for t in terms.iter().rev() {
                let v = rd_ext(ecx, t)?;
                let m = ecx.machine.st.mul(acc, alpha);
                acc = ecx.machine.st.add(m, v);
            }
            wr_ext(ecx, dest, acc)?
        }
        Hook::Custom("alloc") => alloc(ecx, name, args, dest)?,
        Hook::Custom(c) => {
            if crate::verify::run(ecx, c, name, _instance, args, dest)? {
                return interp_ok(true);
            }
            if c.starts_with("h_") {
                return crate::harness::hook(ecx, c, args, dest);
            }
            if c.starts_with("v_") {
                return interp_ok(false);
            }
            return crate::hooks3::run(ecx, c, name, args, dest);
        }
        _ => return stop(format!("hook {name} not implemented")),
    }
    interp_ok(true)
}

fn usz<'tcx>(ecx: &Ecx<'tcx>, op: &OpTy<'tcx>) -> InterpResult<'tcx, u64> {
    let mut x = op.clone();
    loop {
        if x.layout.ty.is_integral() {
            return ecx.read_target_usize(&x);
        }
        if x.layout.ty.is_enum() {
            let d = ecx.read_discriminant(&x)?;
            return interp_ok(x.layout.ty.discriminant_for_variant(*ecx.tcx, d).unwrap().val as u64);
        }
        x = f0(ecx, &x, 0)?;
    }
}

fn alloc<'tcx>(ecx: &mut Ecx<'tcx>, name: &str, args: &[OpTy<'tcx>], dest: &PlaceTy<'tcx>) -> InterpResult<'tcx> {
    let short = name.rsplit("::").next().unwrap();
    let kind = MemoryKind::Machine(MK::Heap);
    match short {
        "__rust_alloc" | "__rust_alloc_zeroed" => {
            let (s, a) = (usz(ecx, &args[0])?, usz(ecx, &args[1])?);
            let s = s.min(1 << 28);
            let init = if short == "__rust_alloc" { AllocInit::Uninit } else { AllocInit::Zero };
            let p = ecx.allocate_ptr(Size::from_bytes(s), Align::from_bytes(a).unwrap(), kind, init)?;
            ecx.write_pointer(p, dest)
        }
        "__rust_dealloc" => interp_ok(()),
        "__rust_realloc" => {
            // (ptr, old_size, align, new_size)
            let p = ecx.read_pointer(&args[0])?;
            let (s, a, n) = (usz(ecx, &args[1])?, usz(ecx, &args[2])?, usz(ecx, &args[3])?);
            let al = Align::from_bytes(a).unwrap();
            let np = ecx.reallocate_ptr(
                p,
                Some((Size::from_bytes(s), al)),
                Size::from_bytes(n),
                al,
                kind,
                AllocInit::Uninit,
            )?;
            ecx.write_pointer(np, dest)
        }
        _ => stop(format!("alloc fn {name}")),
    }
}

pub fn tag<'tcx>(ecx: &mut Ecx<'tcx>, name: &str) -> u64 {
    let i = match ecx.machine.tagged.iter().position(|x| x == name) {
        Some(i) => i,
        None => {
            ecx.machine.tagged.push(name.to_string());
            ecx.machine.tagged.len() - 1
        }
    };
    TAG as u64 + i as u64
}

/// elements of a `&[T]`, `&Vec<T>` or `&[T; N]` argument
pub fn slice_places<'tcx>(ecx: &mut Ecx<'tcx>, op: &OpTy<'tcx>) -> InterpResult<'tcx, Vec<OpTy<'tcx>>> {
    let mp = ecx.deref_pointer(op)?;
    let mut out = vec![];
    match mp.layout.ty.kind() {
        ty::Slice(_) | ty::Array(..) => {
            for i in 0..mp.len(ecx)? {
                out.push(ecx.project_index(&mp, i)?.into());
            }
        }
        _ => return stop(format!("slice argument of type {}", mp.layout.ty)),
    }
    interp_ok(out)
}

pub fn tag_name<'tcx>(ecx: &Ecx<'tcx>, v: u128) -> Option<String> {
    if v >= TAG && v < TAG + ecx.machine.tagged.len() as u128 {
        return Some(ecx.machine.tagged[(v - TAG) as usize].clone());
    }
    None
}
