//! Transfer functions for circuit construction and the Fiat-Shamir transcript.
use crate::hooks::*;
use crate::hooks2::slice_places;
use crate::machine::*;
use crate::prov::*;
use crate::reify::{first_ptr, vec_elems};
use crate::roots::symbolize;
use rustc_abi::{FieldIdx, Size, VariantIdx};
use rustc_middle::ty::{self, Ty};
use std::collections::HashMap;

pub const LBL: u64 = 0x7A5C_0000;
/// stands for the length of the assembled kernel
pub const KERNEL_LEN: u64 = 123457;

/// item kinds a prover state is serialized as
const BUF: [&str; 17] = [
    "target",
    "bool",
    "u8",
    "u16",
    "u32",
    "usize",
    "usize_vec",
    "field",
    "field_vec",
    "hash",
    "merkle_cap",
    "circuit_data",
    "common_circuit_data",
    "prover_only_circuit_data",
    "verifier_only_circuit_data",
    "verifier_circuit_data",
    "proof_with_public_inputs",
];

pub fn classify(k: &str) -> Option<Hook> {
    Some(Hook::Custom(match k {
        "CircuitBuilder::new" => "cb_new",
        "CircuitBuilder::add_virtual_target" => "cb_virtual",
        "CircuitBuilder::register_public_input" => "cb_pi",
        "CircuitBuilder::num_public_inputs" => "cb_npi",
        "CircuitBuilder::num_gates" => "cb_gates",
        "CircuitBuilder::connect" => "cb_connect",
        "CircuitBuilder::inverse" => "cb_inverse",
        "CircuitBuilder::is_equal" => "cb_is_equal",
        "CircuitBuilder::range_check" => "cb_range",
        "CircuitBuilder::random_access" => "cb_random_access",
        "CircuitBuilder::hash_n_to_hash_no_pad" => "cb_hash",
        "CircuitBuilder::add_virtual_proof_with_pis" => "cb_proof",
        "CircuitBuilder::verify_proof" => "cb_verify",
        "CircuitBuilder::conditionally_verify_proof" => "cb_verify_cond",
        "CircuitBuilder::conditionally_verify_proof_or_dummy" => "cb_verify_or_dummy",
        "CircuitBuilder::conditionally_verify_cyclic_proof" => "cb_verify_cyclic",
        "CircuitBuilder::conditionally_verify_cyclic_proof_or_dummy" => "cb_verify_cyclic_or_dummy",
        "CircuitBuilder::build" => "noop",
        "CircuitBuilder::add_gate" | "CircuitBuilder::add_gate_to_gate_set" => "noop",
        "CommonCircuitData as Clone::clone" | "CircuitConfig as Clone::clone" | "FriConfig as Clone::clone" => "rawclone",
        "CommonCircuitData as PartialEq::eq" => "true",
        "RecursiveCircuitsForTable::final_circuits" => "final_circuits",
        "starky::recursive_verifier::verify_stark_proof_with_challenges_circuit" => "stark_verify",
        "starky::recursive_verifier::add_virtual_stark_proof" => "stark_proof",
        "StarkProofTarget::get_challenges" => "stark_chal",
        "CtlCheckVarsTarget::from_proof" => "ctl_vars",
        "CrossTableLookup::num_ctl_helpers_zs_all" => "num_helpers",
        "RecursiveChallenger::new" | "Challenger::new" => "ch_new",
        "RecursiveChallenger::from_state" => "ch_from_state",
        "RecursiveChallenger::observe_element" | "Challenger::observe_element" => "ch_observe",
        "RecursiveChallenger::get_challenge" | "Challenger::get_challenge" => "ch_get",
        "RecursiveChallenger::compact" | "Challenger::compact" => "ch_compact",
        "StarkProof::get_challenges" => "native_stark_chal",
        "PartialWitness as WitnessWrite::set_target" => "set_target",
        "Lazy as Deref::deref" => "lazy",
        "CircuitBuilder::push_context" | "CircuitBuilder::pop_context" => "noop",
        k if k.ends_with("verifier::initial_memory_merkle_cap") => "init_cap",
        k if k.starts_with("trait Write::write_") && BUF.contains(&&k["trait Write::write_".len()..]) => "buf_write",
        k if k.starts_with("trait Read::read_") && BUF.contains(&&k["trait Read::read_".len()..]) => "buf_read",
        "RecursiveCircuitsForTable::to_buffer" => "buf_write_obj",
        "RecursiveCircuitsForTable::from_buffer" => "buf_read_obj",
        _ => return None,
    }))
}

pub fn cfg<T: Clone>(m: &HashMap<String, T>, name: &str) -> Option<T> {
    if let Some(v) = m.get(name) {
        return Some(v.clone());
    }
    let mut n = String::new();
    let mut d = 0;
    for c in name.chars() {
        match c {
            '[' => d += 1,
            ']' => d -= 1,
            _ if d == 0 => n.push(c),
            _ => {}
        }
    }
    let mut k: &str = &n;
    loop {
        if let Some(v) = m.get(k) {
            return Some(v.clone());
        }
        match k.find('.') {
            Some(i) => k = &k[i + 1..],
            None => return None,
        }
    }
}

pub fn label<'tcx>(ecx: &mut Ecx<'tcx>, name: String) -> u64 {
    if let Some(i) = ecx.machine.labels.iter().position(|x| *x == name) {
        return LBL + i as u64;
    }
    ecx.machine.labels.push(name);
    LBL + ecx.machine.labels.len() as u64 - 1
}
/// integer standing for a symbolic element
pub fn label_of<'tcx>(ecx: &mut Ecx<'tcx>, raw: u64) -> InterpResult<'tcx, u64> {
    if ecx.machine.st.atom_id(raw).is_none() {
        return stop(format!("canonical integer of symbolic {}", ecx.machine.st.show(raw)));
    }
    let n = ecx.machine.st.show(raw);
    interp_ok(label(ecx, n))
}
pub fn label_expr<'tcx>(ecx: &mut Ecx<'tcx>, v: u64) -> Option<u64> {
    let n = ecx.machine.labels.len() as u64;
    if n == 0 {
        return None;
    }
    let (lo, hi) = (v & 0xffff_ffff, v >> 32);
    let is = |x: u64| x >= LBL && x < LBL + n;
    if !(is(lo) && (is(hi) || hi == 0) || is(hi) && lo == 0) {
        return None;
    }
    let mut r = 0;
    for (x, c) in [(lo, 1u64), (hi, 1u64 << 32)] {
        if is(x) {
            let nm = ecx.machine.labels[(x - LBL) as usize].clone();
            let a = ecx.machine.st.atom(&nm);
            r = ecx.machine.st.lin(r, c, a);
        }
    }
    Some(r)
}
fn word_name(name: &str, w: u64, k: u64) -> String {
    if w == 1 {
        return name.to_string();
    }
    if name.ends_with(']') {
        if let Some(i) = name.rfind('[') {
            if let Ok(x) = name[i + 1..name.len() - 1].parse::<u64>() {
                return format!("{}[{}]", &name[..i], x * w + k);
            }
        }
    }
    format!("{name}[{k}]")
}

fn set_all_ints<'tcx>(ecx: &mut Ecx<'tcx>, p: &PlaceTy<'tcx>, v: u64) -> InterpResult<'tcx> {
    if p.layout.ty.is_integral() {
        return ecx.write_scalar(Scalar::from_uint(v, p.layout.size), p);
    }
    if let ty::Adt(ad, _) = p.layout.ty.kind() {
        if ad.is_struct() {
            for i in 0..ad.non_enum_variant().fields.len() {
                let f = ecx.project_field(p, FieldIdx::from_usize(i))?;
                if !f.layout.is_zst() {
                    set_all_ints(ecx, &f, v)?;
                }
            }
        }
    }
    if let ty::Pat(..) = p.layout.ty.kind() {
        if !p.layout.ty.is_raw_ptr() {
            return ecx.write_scalar(Scalar::from_uint(v, p.layout.size), p);
        }
    }
    interp_ok(())
}

/// write a Vec with `n` elements, returns the element places
pub fn make_vec<'tcx>(ecx: &mut Ecx<'tcx>, p: &PlaceTy<'tcx>, n: u64) -> InterpResult<'tcx, Vec<PlaceTy<'tcx>>> {
    let tcx = *ecx.tcx;
    let (ad, args) = match p.layout.ty.kind() {
        ty::Adt(ad, args) => (*ad, *args),
        _ => return stop("make_vec"),
    };
    let elem = args.type_at(0);
    let el = ecx.layout_of(elem)?;
    let at = Ty::new_array(tcx, elem, n.max(1));
    let al = ecx.layout_of(at)?;
    let buf = ecx.allocate(al, MemoryKind::Machine(MK::Heap))?;
    // all integer fields (capacity, length) := n, the pointer := buffer
    set_all_ints(ecx, p, n)?;
    let q = ecx.place_to_op(p)?;
    match first_ptr(ecx, &q, 0)? {
        Some(f) => {
            let f = match f.as_mplace_or_imm() {
                either::Either::Left(m) => m,
                _ => return stop("vec pointer not in memory"),
            };
            ecx.write_pointer(buf.ptr(), &f)?;
        }
        None => return stop("vec without pointer"),
    }
    let mut out = vec![];
    for i in 0..n {
        let qp = buf.ptr().wrapping_offset(rustc_abi::Size::from_bytes(i * el.size.bytes()), ecx);
        out.push(ecx.ptr_to_mplace(qp, el).into());
    }
    interp_ok(out)
}

pub fn symbolize_special<'tcx>(ecx: &mut Ecx<'tcx>, p: &PlaceTy<'tcx>, n: &str, name: &str) -> InterpResult<'tcx, bool> {
    let p = &ecx.force_allocation(p)?.into();
    match n {
        "U256" => {
            let w = cfg(&ecx.machine.widths, name).unwrap_or(8);
            let arr = ecx.project_field(p, FieldIdx::from_usize(0))?;
            for j in 0..4u64 {
                let mut v = 0;
                for h in 0..2 {
                    if 2 * j + h < w {
                        v |= label(ecx, word_name(name, w, 2 * j + h)) << (32 * h);
                    }
                }
                let q = ecx.project_index(&arr, j)?;
                ecx.write_scalar(Scalar::from_u64(v), &q)?;
            }
        }
        "H256" | "H160" => {
            let w = if n == "H256" { 8 } else { 5 };
            let arr = ecx.project_field(p, FieldIdx::from_usize(0))?;
            for k in 0..w {
                let l = label(ecx, word_name(name, w, k)) as u32;
                for (b, x) in l.to_be_bytes().into_iter().enumerate() {
                    let q = ecx.project_index(&arr, 4 * (w - 1 - k) + b as u64)?;
                    ecx.write_scalar(Scalar::from_u8(x), &q)?;
                }
            }
        }
        "Vec" => {
            let len = cfg(&ecx.machine.lens, name).unwrap_or(1);
            for (i, q) in make_vec(ecx, p, len)?.into_iter().enumerate() {
                symbolize(ecx, &q, &format!("{name}[{i}]"))?;
            }
        }
        "CircuitData" | "VerifierCircuitData" | "RecursiveCircuitsForTable" => {
            let m = ecx.force_allocation(p)?;
            let a = m.ptr().addr().bytes();
            ecx.machine.objnames.insert(a, name.to_string());
            if n == "RecursiveCircuitsForTable" {
                tag_storage(ecx, &m, name)?;
            }
            return interp_ok(n == "RecursiveCircuitsForTable");
        }
        "ProverOnlyCircuitData" => {
            let m = ecx.force_allocation(p)?;
            tag_storage(ecx, &m, name)?;
        }
        "Rc" | "BTreeMap" | "HashMap" | "Arc" | "GateRef" | "Box" | "String" => {}
        _ => {
            let ad = match p.layout.ty.kind() {
                ty::Adt(ad, _) if ad.is_enum() => *ad,
                _ => return interp_ok(false),
            };
            let want = match cfg(&ecx.machine.variants, name) {
                Some(v) => v,
                None if n == "Option" => "Some".to_string(),
                None => return interp_ok(true),
            };
            for (vi, v) in ad.variants().iter_enumerated() {
                if v.name.as_str() == want {
                    let dd = ecx.project_downcast(p, vi)?;
                    for (i, f) in v.fields.iter_enumerated() {
                        let q = ecx.project_field(&dd, i)?;
                        let nn = if n == "Option" { name.to_string() } else { format!("{name}.{}", f.name) };
                        symbolize(ecx, &q, &nn)?;
                    }
                    ecx.write_discriminant(vi, p)?;
                    return interp_ok(true);
                }
            }
            return stop(format!("no variant {want} for {name}"));
        }
    }
    interp_ok(true)
}

/// marks an opaque object so that copies of it are recognised
fn tag_storage<'tcx>(ecx: &mut Ecx<'tcx>, m: &MPlaceTy<'tcx>, name: &str) -> InterpResult<'tcx> {
    if m.layout.size.bytes() < 8 {
        return interp_ok(());
    }
    let l = label(ecx, name.to_string());
    let q = ecx.ptr_to_mplace(m.ptr(), ecx.layout_of(ecx.tcx.types.u64)?);
    ecx.write_scalar(Scalar::from_u64(l), &q)
}

#[derive(Clone, Copy)]
pub enum Leaf {
    E(u64),
    I(u128),
}

/// all elements and integers inside a value, with their field paths
pub fn walk<'tcx>(ecx: &mut Ecx<'tcx>, op: &OpTy<'tcx>, path: &str, out: &mut Vec<(String, Leaf)>, depth: usize) -> InterpResult<'tcx> {
    let tcx = *ecx.tcx;
    if depth > 30 {
        return interp_ok(());
    }
    let t = op.layout.ty;
    match t.kind() {
        ty::Bool | ty::Int(_) | ty::Uint(_) => {
            if let Ok(v) = ecx.read_scalar(op).report_err() {
                if let Ok(b) = v.to_bits(op.layout.size).report_err() {
                    out.push((path.to_string(), Leaf::I(b)));
                }
            }
        }
        ty::Adt(ad, _) => {
            let n = tcx.item_name(ad.did()).to_string();
            match n.as_str() {
                "GoldilocksField" => {
                    if let Ok(v) = rd(ecx, op).report_err() {
                        out.push((path.to_string(), Leaf::E(v)));
                    }
                    return interp_ok(());
                }
                "Target" => {
                    if let Ok(v) = rd_target(ecx, op).report_err() {
                        out.push((path.to_string(), Leaf::E(v)));
                    }
                    return interp_ok(());
                }
                "ExtensionTarget" => {
                    if let Ok(v) = rd_ext(ecx, op).report_err() {
                        out.push((path.to_string(), Leaf::E(v)));
                    }
                    return interp_ok(());
                }
                "U256" => {
                    let arr = f0(ecx, op, 0)?;
                    let mut ws = vec![];
                    for j in 0..4 {
                        let q = ecx.project_index(&arr, j)?;
                        if let Ok(v) = ecx.read_scalar(&q).report_err() {
                            let v = v.to_u64()?;
                            ws.push(v & 0xffff_ffff);
                            ws.push(v >> 32);
                        }
                    }
                    words(path, ws, out);
                    return interp_ok(());
                }
                "H256" | "H160" => {
                    let w = if n == "H256" { 8 } else { 5 };
                    let arr = f0(ecx, op, 0)?;
                    let mut ws = vec![];
                    for k in 0..w {
                        let mut v = 0u64;
                        for b in 0..4 {
                            let q = ecx.project_index(&arr, 4 * (w - 1 - k) + b)?;
                            if let Ok(x) = ecx.read_scalar(&q).report_err() {
                                v = v << 8 | x.to_u8()? as u64;
                            }
                        }
                        ws.push(v);
                    }
                    for (k, v) in ws.iter().enumerate() {
                        out.push((word_name(path, w, k as u64), Leaf::I(*v as u128)));
                    }
                    return interp_ok(());
                }
                "Vec" => {
                    if let Ok(es) = vec_elems(ecx, op).report_err() {
                        for (i, e) in es.into_iter().enumerate() {
                            walk(ecx, &e, &format!("{path}[{i}]"), out, depth + 1)?;
                        }
                    }
                    return interp_ok(());
                }
                "HashMap" | "BTreeMap" | "Arc" | "String" | "PhantomData" | "Rc" => return interp_ok(()),
                "RecursiveCircuitsForTable" | "ProverOnlyCircuitData" if ecx.machine.ints.contains_key("label_ints") => {
                    // identified by the tag its storage was given
                    if let Ok(m) = op.as_mplace_or_imm().left().ok_or(()) {
                        let a = Size::from_bytes(8);
                        if op.layout.size >= a {
                            if let Ok(p) = ecx.read_scalar(&ecx.ptr_to_mplace(m.ptr(), ecx.layout_of(tcx.types.u64)?)).report_err() {
                                if let Ok(v) = p.to_u64().report_err() {
                                    out.push((path.to_string(), Leaf::I(v as u128)));
                                }
                            }
                        }
                    }
                    return interp_ok(());
                }
                "CircuitData" | "CommonCircuitData" | "VerifierOnlyCircuitData" | "FriConfig" | "StarkConfig" | "CircuitConfig"
                    if !ecx.machine.ints.contains_key("label_ints") =>
                {
                    return interp_ok(());
                }
                _ => {}
            }
            if ad.is_union() {
                return interp_ok(());
            }
            let (o, variant) = if ad.is_enum() {
                let vi = match ecx.read_discriminant(op).report_err() {
                    Ok(v) => v,
                    Err(_) => return interp_ok(()),
                };
                (ecx.project_downcast(op, vi)?, ad.variant(vi))
            } else {
                (op.clone(), ad.non_enum_variant())
            };
            let names: Vec<String> = variant.fields.iter().map(|f| f.name.to_string()).collect();
            for (i, f) in names.iter().enumerate() {
                let q = f0(ecx, &o, i)?;
                if q.layout.is_zst() {
                    continue;
                }
                let nn = if n == "Option" || n == "Result" || (f == "0" && names.len() == 1) || f == "elements" || f == "target" || n == "MerkleCapTarget" {
                    path.to_string()
                } else if path.is_empty() {
                    f.clone()
                } else {
                    format!("{path}.{f}")
                };
                walk(ecx, &q, &nn, out, depth + 1)?;
            }
        }
        ty::Tuple(ts) => {
            for i in 0..ts.len() {
                let f = f0(ecx, op, i)?;
                walk(ecx, &f, &format!("{path}.{i}"), out, depth + 1)?;
            }
        }
        ty::Array(_, n) => {
            let n = n.try_to_target_usize(tcx).unwrap();
            for i in 0..n {
                let e = ecx.project_index(op, i)?;
                walk(ecx, &e, &format!("{path}[{i}]"), out, depth + 1)?;
            }
        }
        ty::Ref(_, inner, _) => {
            if let ty::Slice(_) = inner.kind() {
                for (i, e) in slice_places(ecx, op)?.into_iter().enumerate() {
                    walk(ecx, &e, &format!("{path}[{i}]"), out, depth + 1)?;
                }
            } else if inner.is_sized(tcx, ty::TypingEnv::fully_monomorphized()) {
                let mp = ecx.deref_pointer(op)?;
                walk(ecx, &mp.into(), path, out, depth + 1)?;
            }
        }
        _ => {}
    }
    interp_ok(())
}
fn words(path: &str, ws: Vec<u64>, out: &mut Vec<(String, Leaf)>) {
    let n = ws.iter().rposition(|&w| w != 0).map(|x| x + 1).unwrap_or(1);
    if n == 1 {
        out.push((path.to_string(), Leaf::I(ws.first().copied().unwrap_or(0) as u128)));
        return;
    }
    for (k, v) in ws.iter().take(n).enumerate() {
        out.push((word_name(path, 8, k as u64), Leaf::I(*v as u128)));
    }
}

pub fn leaves<'tcx>(ecx: &mut Ecx<'tcx>, op: &OpTy<'tcx>) -> InterpResult<'tcx, Vec<u64>> {
    let mut v = vec![];
    walk(ecx, op, "", &mut v, 0)?;
    interp_ok(
        v.into_iter()
            .filter_map(|x| match x.1 {
                Leaf::E(e) => Some(e),
                _ => None,
            })
            .collect(),
    )
}

fn int_arg<'tcx>(ecx: &Ecx<'tcx>, op: &OpTy<'tcx>) -> InterpResult<'tcx, u64> {
    ecx.read_target_usize(op)
}
fn field_named<'tcx>(ecx: &Ecx<'tcx>, op: &OpTy<'tcx>, name: &str) -> InterpResult<'tcx, OpTy<'tcx>> {
    if let ty::Adt(ad, _) = op.layout.ty.kind() {
        for (i, f) in ad.non_enum_variant().fields.iter().enumerate() {
            if f.name.as_str() == name {
                return f0(ecx, op, i);
            }
        }
    }
    stop(format!("no field {name}"))
}
fn fresh<'tcx>(ecx: &mut Ecx<'tcx>) -> String {
    ecx.machine.nvirt += 1;
    format!("v#{}", ecx.machine.nvirt)
}
fn ok_unit<'tcx>(ecx: &mut Ecx<'tcx>, dest: &PlaceTy<'tcx>) -> InterpResult<'tcx> {
    if let ty::Adt(ad, _) = dest.layout.ty.kind() {
        if ad.is_enum() {
            for (vi, v) in ad.variants().iter_enumerated() {
                if v.name.as_str() == "Ok" {
                    return ecx.write_discriminant(vi, dest);
                }
            }
        }
    }
    interp_ok(())
}

pub fn run<'tcx>(ecx: &mut Ecx<'tcx>, h: &'static str, name: &'static str, args: &[OpTy<'tcx>], dest: &PlaceTy<'tcx>) -> InterpResult<'tcx, bool> {
    match h {
        "noop" => {}
        "true" => ecx.write_scalar(Scalar::from_bool(true), dest)?,
        "rawclone" => {
            let a = deref(ecx, &args[0])?;
            ecx.copy_op(&a, dest)?;
        }
        "cb_new" => {
            let d = ecx.force_allocation(dest)?;
            if let ty::Adt(ad, _) = d.layout.ty.kind() {
                for (i, f) in ad.non_enum_variant().fields.iter_enumerated() {
                    let q: PlaceTy<'tcx> = ecx.project_field(&d.clone().into(), i)?;
                    match f.name.as_str() {
                        "config" => ecx.copy_op(&args[0], &q)?,
                        "verifier_data_public_input" => {
                            ecx.write_discriminant(VariantIdx::from_usize(0), &q)?;
                        }
                        _ => {}
                    }
                }
            }
            ecx.machine.pis.clear();
        }
        "cb_virtual" => {
            let n = fresh(ecx);
            let a = ecx.machine.st.atom(&n);
            wr_target(ecx, dest, a)?;
        }
        "cb_pi" => {
            let t = rd_target(ecx, &args[1])?;
            ecx.machine.pis.push(t);
        }
        "cb_npi" => {
            let n = ecx.machine.pis.len() as u64;
            ecx.write_scalar(Scalar::from_u64(n), dest)?;
        }
        "cb_gates" => ecx.write_scalar(Scalar::from_u64(1 << 40), dest)?,
        "cb_connect" => {
            let a = rd_target(ecx, &args[1])?;
            let b = rd_target(ecx, &args[2])?;
            let p = ecx.machine.st.sub(a, b);
            event(ecx, "zero", vec![p], String::new());
        }
        "cb_inverse" => {
            let a = rd_target(ecx, &args[1])?;
            let r = ecx.machine.st.opaque("inv", &[a]);
            wr_target(ecx, dest, r)?;
        }
        "cb_is_equal" => {
            let a = rd_target(ecx, &args[1])?;
            let b = rd_target(ecx, &args[2])?;
            let (a, b) = (a.min(b), a.max(b));
            let r = ecx.machine.st.opaque("is_equal", &[a, b]);
            // BoolTarget { target, .. }
            let f = ecx.project_field(dest, FieldIdx::from_usize(0))?;
            wr_target(ecx, &f, r)?;
        }
        "cb_range" => {
            let a = rd_target(ecx, &args[1])?;
            let n = int_arg(ecx, &args[2])?;
            event(ecx, "range", vec![a], format!("{n} bits"));
        }
        "cb_random_access" => {
            let mut v = vec![rd_target(ecx, &args[1])?];
            for e in vec_elems(ecx, &args[2])? {
                v.push(rd_target(ecx, &e)?);
            }
            let r = ecx.machine.st.opaque("random_access", &v);
            wr_target(ecx, dest, r)?;
        }
        "cb_hash" => {
            let mut v = vec![];
            for e in vec_elems(ecx, &args[1])? {
                v.push(rd_target(ecx, &e)?);
            }
            let arr = ecx.project_field(dest, FieldIdx::from_usize(0))?;
            for i in 0..4 {
                let r = ecx.machine.st.opaque(&format!("poseidon{i}"), &v);
                let q = ecx.project_index(&arr, i)?;
                wr_target(ecx, &q, r)?;
            }
        }
        "cb_proof" => {
            let c = deref(ecx, &args[1])?;
            let f = field_named(ecx, &c, "num_public_inputs")?;
            let n = ecx.read_target_usize(&f)?;
            let nm = fresh(ecx);
            ecx.machine.lens.insert(format!("{nm}.public_inputs"), n);
            symbolize(ecx, dest, &nm)?;
        }
        "cb_verify" => {
            // (proof_with_pis, vk, common)
            let p = leaves(ecx, &args[1])?;
            let k = leaves(ecx, &args[2])?;
            ev_groups(ecx, "verify", &[p, k]);
        }
        "cb_verify_cond" => {
            let mut g = vec![];
            for a in &args[1..6] {
                g.push(leaves(ecx, a)?);
            }
            ev_groups(ecx, "verify_cond", &g);
        }
        "cb_verify_or_dummy" => {
            let mut g = vec![];
            for a in &args[1..4] {
                g.push(leaves(ecx, a)?);
            }
            ev_groups(ecx, "verify_or_dummy", &g);
            ok_unit(ecx, dest)?;
        }
        "cb_verify_cyclic" => {
            let mut g = vec![];
            for a in &args[1..5] {
                g.push(leaves(ecx, a)?);
            }
            ev_groups(ecx, "verify_cyclic_or", &g);
            ok_unit(ecx, dest)?;
        }
        "cb_verify_cyclic_or_dummy" => {
            let mut g = vec![];
            for a in &args[1..3] {
                g.push(leaves(ecx, a)?);
            }
            ev_groups(ecx, "verify_cyclic_or_dummy", &g);
            ok_unit(ecx, dest)?;
        }
        "final_circuits" => {
            let m = ecx.deref_pointer(&args[0])?;
            let nm = match ecx.machine.objnames.get(&m.ptr().addr().bytes()) {
                Some(n) => n.clone(),
                None => return stop("final_circuits of unknown table"),
            };
            let es = make_vec(ecx, dest, 3)?;
            for (i, e) in es.into_iter().enumerate() {
                let k = format!("{nm}.final[{i}]");
                let mp = match ecx.machine.objs.get(&k) {
                    Some(m) => m.clone(),
                    None => {
                        let inner = match e.layout.ty.kind() {
                            ty::Ref(_, t, _) => *t,
                            _ => return stop("final_circuits result"),
                        };
                        let l = ecx.layout_of(inner)?;
                        let mp = ecx.allocate(l, MemoryKind::Machine(MK::Heap))?;
                        symbolize(ecx, &mp.clone().into(), &k)?;
                        ecx.machine.objs.insert(k, mp.clone());
                        mp
                    }
                };
                let imm = mp.to_ref(ecx);
                ecx.write_immediate(imm, &e)?;
            }
        }
        "stark_proof" => {
            let nm = fresh(ecx);
            let n = int_arg(ecx, &args[5])?;
            ecx.machine.lens.insert(format!("{nm}.openings.ctl_zs_first"), n);
            ecx.machine.lens.insert(format!("{nm}.trace_cap.0"), 16);
            symbolize(ecx, dest, &nm)?;
        }
        "stark_chal" => {
            // (self, builder, challenger, challenges, ignore_trace_cap, config)
            let p = leaves(ecx, &args[0])?;
            let c = leaves(ecx, &args[3])?;
            let fl = ecx.read_scalar(&args[4])?.to_bool()?;
            let v: Vec<u64> = p.into_iter().chain(c).collect();
            ecx.machine.transcript.push((format!("proof challenges (ignore_trace_cap={fl})"), v));
        }
        "stark_verify" => {
            let p = leaves(ecx, &args[2])?;
            let pi = leaves(ecx, &args[3])?;
            ev_groups(ecx, "stark_verify", &[p, pi]);
        }
        "num_helpers" => {
            // (total_num_helpers, num_ctls, num_helpers_by_ctl)
            for (i, v) in [5u64, 4].into_iter().enumerate() {
                let f = ecx.project_field(dest, FieldIdx::from_usize(i))?;
                ecx.write_scalar(Scalar::from_u64(v), &f)?;
            }
            let f = ecx.project_field(dest, FieldIdx::from_usize(2))?;
            for e in make_vec(ecx, &f, 2)? {
                ecx.write_scalar(Scalar::from_u64(2), &e)?;
            }
        }
        "ch_new" => {
            ecx.machine.transcript.push(("new".into(), vec![]));
        }
        "ch_from_state" => {
            let v = leaves(ecx, &args[0])?;
            ecx.machine.transcript.push(("from_state".into(), v));
        }
        "ch_observe" => {
            let v = if adt_name(*ecx.tcx, args[1].layout.ty) == "Target" { rd_target(ecx, &args[1])? } else { rd(ecx, &args[1])? };
            ecx.machine.transcript.push(("observe".into(), vec![v]));
        }
        "ch_get" => {
            ecx.machine.nchal += 1;
            let n = format!("challenge#{}", ecx.machine.nchal);
            let a = ecx.machine.st.atom(&n);
            ecx.machine.transcript.push(("challenge".into(), vec![a]));
            if adt_name(*ecx.tcx, dest.layout.ty) == "Target" {
                wr_target(ecx, dest, a)?
            } else {
                wr(ecx, dest, a)?
            }
        }
        "ch_compact" => {
            ecx.machine.nchal += 1;
            let n = format!("state#{}", ecx.machine.nchal);
            symbolize(ecx, dest, &n)?;
            let d = ecx.place_to_op(dest)?;
            let v = leaves(ecx, &d)?;
            ecx.machine.transcript.push(("compact".into(), v));
        }
        "ctl_vars" => {
            // (table, proof, relations, challenges, ...)
            let p = leaves(ecx, &args[1])?;
            let c = leaves(ecx, &args[3])?;
            ev_groups(ecx, "ctl_vars", &[p, c]);
            make_vec(ecx, dest, 0)?;
        }
        "native_stark_chal" => {
            let v = leaves(ecx, &args[0])?;
            ecx.machine.transcript.push(("proof challenges".into(), v));
        }
        "set_target" => {
            let t = rd_target(ecx, &args[1])?;
            let v = rd(ecx, &args[2])?;
            event(ecx, "set", vec![t, v], String::new());
            ok_unit(ecx, dest)?;
        }
        "buf_write" | "buf_write_obj" => {
            let kind = if h == "buf_write" { name["trait Write::write_".len()..].to_string() } else { "object".to_string() };
            let o = if h == "buf_write" { args[1].clone() } else { args[0].clone() };
            let o = match o.layout.ty.kind() {
                ty::Ref(..) => {
                    let m = ecx.deref_pointer(&o)?;
                    m.into()
                }
                _ => o,
            };
            // a snapshot, so that later changes do not alter what was written
            let snap = if o.layout.is_sized() {
                let m = ecx.allocate(o.layout, MemoryKind::Machine(MK::Heap))?;
                ecx.copy_op(&o, &m)?;
                m.into()
            } else {
                o
            };
            ecx.machine.nread += 1;
            event(ecx, "write", vec![], kind.clone());
            ecx.machine.buffer.push_back((kind, vec![], Some(snap)));
            ok_unit(ecx, dest)?;
        }
        "buf_read" | "buf_read_obj" => {
            let kind = if h == "buf_read" { name["trait Read::read_".len()..].to_string() } else { "object".to_string() };
            event(ecx, "read", vec![], kind.clone());
            let (k, _, v) = match ecx.machine.buffer.pop_front() {
                Some(x) => x,
                None => return stop(format!("reads a {kind} after the last written item")),
            };
            if k != kind {
                return stop(format!("reads a {kind} where a {k} was written"));
            }
            let v = v.unwrap();
            if let ty::Adt(ad, _) = dest.layout.ty.kind() {
                for (vi, va) in ad.variants().iter_enumerated() {
                    if va.name.as_str() == "Ok" {
                        let dd = ecx.project_downcast(dest, vi)?;
                        let f = ecx.project_field(&dd, FieldIdx::from_usize(0))?;
                        if f.layout.ty != v.layout.ty {
                            return stop(format!("reads a {} where a {} was written", f.layout.ty, v.layout.ty));
                        }
                        ecx.copy_op(&v, &f)?;
                        ecx.write_discriminant(vi, dest)?;
                    }
                }
            }
        }
        "init_cap" => {
            let (r, h) = (int_arg(ecx, &args[0])?, int_arg(ecx, &args[1])?);
            let n = format!("initial_cap(rate={r},height={h})");
            ecx.machine.lens.insert(format!("{n}.0"), 1 << h);
            symbolize(ecx, dest, &n)?;
        }
        "lazy" => {
            let inner = match dest.layout.ty.kind() {
                ty::Ref(_, t, _) => *t,
                _ => return interp_ok(false),
            };
            if adt_name(*ecx.tcx, inner) != "Kernel" {
                return interp_ok(false);
            }
            let mp = match ecx.machine.objs.get("KERNEL") {
                Some(m) => m.clone(),
                None => {
                    let l = ecx.layout_of(inner)?;
                    let mp = ecx.allocate(l, MemoryKind::Machine(MK::Heap))?;
                    for (i, f) in inner.ty_adt_def().unwrap().non_enum_variant().fields.iter_enumerated() {
                        let q: PlaceTy<'tcx> = ecx.project_field(&mp.clone().into(), i)?;
                        match f.name.as_str() {
                            "code_hash" => symbolize(ecx, &q, "KERNEL.code_hash")?,
                            // an arbitrary recognisable length
                            "code" => {
                                make_vec(ecx, &q, KERNEL_LEN)?;
                            }
                            _ => {}
                        }
                    }
                    ecx.machine.objs.insert("KERNEL".into(), mp.clone());
                    mp
                }
            };
            let imm = mp.to_ref(ecx);
            ecx.write_immediate(imm, dest)?;
        }
        _ => return stop(format!("hook {name} not implemented")),
    }
    interp_ok(true)
}

fn ev_groups<'tcx>(ecx: &mut Ecx<'tcx>, kind: &str, g: &[Vec<u64>]) {
    let text = g.iter().map(|x| x.len().to_string()).collect::<Vec<_>>().join(",");
    event(ecx, kind, g.concat(), text);
}
