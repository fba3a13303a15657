//! The witness generator's instruction tables, by constant propagation over all 256 opcodes in both modes.
use crate::hooks::*;
use crate::json::*;
use crate::machine::*;
use crate::prov::*;
use crate::reify::reify;
use crate::roots::*;
use rustc_const_eval::interpret as ri;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Ty};

/// by name, or failing that the only function of the crate with these argument and result types
fn pick<'tcx>(cx: &Cx<'tcx>, name: &str, ins: &[&str], out: &str) -> Result<DefId, String> {
    if let Ok(d) = cx.find(name) {
        return Ok(d);
    }
    let tcx = cx.tcx;
    let show = |t: Ty<'tcx>| -> String {
        match t.peel_refs().kind() {
            ty::Adt(ad, a) => {
                let n = tcx.item_name(ad.did()).to_string();
                match a.types().next() {
                    Some(x) if n == "Result" || n == "Option" => match x.kind() {
                        ty::Adt(b, _) => format!("{n}<{}>", tcx.item_name(b.did())),
                        _ => format!("{n}<{x}>"),
                    },
                    _ => n,
                }
            }
            _ => t.peel_refs().to_string(),
        }
    };
    let mut v = vec![];
    for ds in cx.fns.values() {
        for &d in ds {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_normalization().skip_binder();
            if sig.inputs().len() == ins.len() && sig.inputs().iter().zip(ins).all(|(t, n)| show(*t) == *n) && show(sig.output()) == out {
                v.push(d);
            }
        }
    }
    if v.len() == 1 { Ok(v[0]) } else { Err(format!("function {name}: {} candidates", v.len())) }
}

struct Fns {
    decode: DefId,
    flag: DefId,
    gas: DefId,
    overflow: DefId,
    special: DefId,
}

fn one<'tcx>(cx: &Cx<'tcx>, fns: &Fns, b: u8, kernel: bool) -> J {
    let tcx = cx.tcx;
    let mut ecx = new_ecx(tcx);
    let r = (|| -> InterpResult<'tcx, Vec<(String, J)>> {
        let get = |d: DefId| ty::Instance::expect_resolve(tcx, ty::TypingEnv::fully_monomorphized(), d, cx.args(d, &[]), rustc_span::DUMMY_SP);
        let inst = get(fns.decode);
        let sig = fn_sig(tcx, inst);
        let mut ops = vec![];
        for &t in sig.inputs() {
            let l = ecx.layout_of(t)?;
            let mp = ecx.allocate(l, ri::MemoryKind::Machine(MK::Heap))?;
            if t == tcx.types.u8 {
                ecx.write_scalar(ri::Scalar::from_u8(b), &mp)?;
            } else if t == tcx.types.bool {
                ecx.write_scalar(ri::Scalar::from_bool(kernel), &mp)?;
            } else {
                let target = if t.is_ref() {
                    let il = ecx.layout_of(t.peel_refs())?;
                    let ip = ecx.allocate(il, ri::MemoryKind::Machine(MK::Heap))?;
                    let im = ri::ImmTy::from_immediate(ip.to_ref(&ecx), l);
                    ecx.write_immediate(*im, &mp)?;
                    ip
                } else {
                    mp.clone()
                };
                symbolize(&mut ecx, &target.clone().into(), "registers")?;
                if let ty::Adt(ad, _) = t.peel_refs().kind() {
                    for (i, f) in ad.non_enum_variant().fields.iter_enumerated() {
                        if f.name.as_str() == "is_kernel" {
                            let p = ecx.project_field(&target, i)?;
                            ecx.write_scalar(ri::Scalar::from_bool(kernel), &p)?;
                        }
                    }
                }
            }
            ops.push(mp.into());
        }
        let out = call(&mut ecx, inst, ops)?;
        let mut v = vec![];
        let (ad, vi) = match out.layout.ty.kind() {
            ty::Adt(ad, _) => (*ad, ecx.read_discriminant(&out)?),
            _ => return stop("decode does not return a Result"),
        };
        let vn = ad.variant(vi).name.to_string();
        let dc = ecx.project_downcast(&out, vi)?;
        let payload = ecx.project_field(&dc, rustc_abi::FieldIdx::from_usize(0))?;
        let pj = reify(&mut ecx, &payload.clone().into(), 0)?;
        v.push(((if vn == "Ok" { "op" } else { "err" }).to_string(), pj));
        if vn != "Ok" {
            return interp_ok(v);
        }
        for (n, d) in [("gas", fns.gas), ("might_overflow", fns.overflow), ("special", fns.special)] {
            let o = call(&mut ecx, get(d), vec![payload.clone().into()])?;
            v.push((n.to_string(), reify(&mut ecx, &o.into(), 0)?));
        }
        // flags: the cells of the row the filler writes
        let inst = get(fns.flag);
        let sig = fn_sig(tcx, inst);
        let rt = sig.inputs()[1].peel_refs();
        let l = ecx.layout_of(rt)?;
        let row = ecx.allocate(l, ri::MemoryKind::Machine(MK::Heap))?;
        let n = l.size.bytes() / 8;
        let cell = |ecx: &mut Ecx<'tcx>, i: u64| -> InterpResult<'tcx, MPlaceTy<'tcx>> {
            let q = row.ptr().wrapping_offset(rustc_abi::Size::from_bytes(8 * i), ecx);
            let lu = ecx.layout_of(cx.gold)?;
            interp_ok(ecx.ptr_to_mplace(q, lu))
        };
        for i in 0..n {
            let c = cell(&mut ecx, i)?;
            let z = 0u64;
            wr(&mut ecx, &c.into(), z)?;
        }
        let lr = ecx.layout_of(sig.inputs()[1])?;
        let im = ri::ImmTy::from_immediate(row.to_ref(&ecx), lr);
        call(&mut ecx, inst, vec![payload.clone().into(), im.into()])?;
        let mut set = vec![];
        for i in 0..n {
            let c = cell(&mut ecx, i)?;
            let x = rd(&ecx, &c.into())?;
            let t = ecx.machine.st.show(x);
            if t != "0" {
                set.push(J::A(vec![J::N(i as i128), J::S(t)]));
            }
        }
        v.push(("flags".into(), J::A(set)));
        interp_ok(v)
    })();
    match r.report_err() {
        Ok(v) => J::O(v),
        Err(e) => J::O(vec![("stop".into(), J::S(describe_err(&ecx, e)))]),
    }
}

pub fn opcodes_root<'tcx>(cx: &Cx<'tcx>) -> RootOut {
    let name = "opcodes".to_string();
    let fns = (|| -> Result<Fns, String> {
        Ok(Fns {
            decode: pick(cx, "witness::transition::decode", &["RegistersState", "u8"], "Result<Operation>")?,
            flag: pick(cx, "witness::transition::fill_op_flag", &["Operation", "CpuColumnsView"], "()")?,
            gas: pick(cx, "witness::gas::gas_to_charge", &["Operation"], "u64")?,
            overflow: pick(cx, "witness::transition::might_overflow_op", &["Operation"], "bool")?,
            special: pick(cx, "witness::transition::get_op_special_length", &["Operation"], "Option<usize>")?,
        })
    })();
    let fns = match fns {
        Ok(f) => f,
        Err(e) => return RootOut { name, status: e, data: vec![] },
    };
    let mut out = vec![];
    for b in 0..=255u8 {
        out.push(J::A(vec![one(cx, &fns, b, false), one(cx, &fns, b, true)]));
    }
    RootOut { name, status: "ok".into(), data: vec![("value".into(), J::A(out))] }
}

/// opcode bytes of the mnemonics the kernel is written in
pub fn mnemonics_root<'tcx>(cx: &Cx<'tcx>) -> RootOut {
    let tcx = cx.tcx;
    let name = "mnemonics".to_string();
    let names = std::env::var("VERIF_MNEMONICS").unwrap_or_default();
    let (d, dp) = match (pick(cx, "opcodes::get_opcode", &["str"], "u8"), pick(cx, "opcodes::get_push_opcode", &["u8"], "u8")) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => return RootOut { name, status: e, data: vec![] },
    };
    let get = |d: DefId| ty::Instance::expect_resolve(tcx, ty::TypingEnv::fully_monomorphized(), d, cx.args(d, &[]), rustc_span::DUMMY_SP);
    let mut v = vec![];
    for m in names.split(',').filter(|x| !x.is_empty()) {
        let mut ecx = new_ecx(tcx);
        let r = (|| -> InterpResult<'tcx, J> {
            let o = if let Some(n) = m.strip_prefix("PUSH") {
                let op = ri::ImmTy::from_scalar(ri::Scalar::from_u8(n.parse().unwrap_or(255)), ecx.layout_of(tcx.types.u8)?);
                call(&mut ecx, get(dp), vec![op.into()])?
            } else {
                let st = ecx.allocate_str_dedup(m)?;
                let lr = ecx.layout_of(fn_sig(tcx, get(d)).inputs()[0])?;
                let im = ri::ImmTy::from_immediate(st.to_ref(&ecx), lr);
                call(&mut ecx, get(d), vec![im.into()])?
            };
            reify(&mut ecx, &o.into(), 0)
        })();
        v.push((
            m.to_string(),
            match r.report_err() {
                Ok(j) => j,
                Err(e) => J::S(describe_err(&ecx, e)),
            },
        ));
    }
    RootOut { name, status: "ok".into(), data: vec![("value".into(), J::O(v))] }
}
