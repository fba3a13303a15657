//! Native verification: which checks an accepted proof went through, and what a failing check leads to.
use crate::hooks::*;
use crate::hooks3::*;
use crate::json::*;
use crate::machine::*;
use crate::poly::short;
use crate::prov::*;
use crate::roots::*;
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_const_eval::interpret::Projectable;
use rustc_middle::ty;

pub fn classify(k: &str) -> Option<Hook> {
    Some(Hook::Custom(match k {
        "starky::verifier::verify_stark_proof_with_challenges" => "v_stark",
        "CtlCheckVars::from_proof" => "v_ctlvars",
        "starky::cross_table_lookup::verify_cross_table_lookups" => "v_cross",
        k if k.ends_with("verifier::testing::get_memory_extra_looking_sum") => "v_extra",
        k if k.ends_with("verifier::testing::verify_proof") => "v_proof",
        k if k.ends_with("get_challenges::observe_public_values") => "v_observe",
        "CircuitData::verify" | "VerifierCircuitData::verify" => "v_circuit",
        "plonky2::recursion::cyclic_recursion::check_cyclic_proof_verifier_data" => "v_cyclic",
        "anyhow::__private::format_err" | "Error::msg" | "anyhow::__private::must_use" => "v_error",
        "hashbrown::map::make_hash" | "RandomState::new" | "RandomState as Default::default" => "v_hash",
        "alloc::fmt::format" | "std::fmt::format" => "v_format",
        "Error as Drop::drop" => "v_noop",
        k if k.ends_with("map::make_hash") => "v_hash",
        _ => return None,
    }))
}

fn active(ecx: &Ecx<'_>) -> bool {
    ecx.machine.ints.contains_key("verify")
}

/// some valid value of a type that is never looked into
fn any_value<'tcx>(ecx: &mut Ecx<'tcx>, p: &PlaceTy<'tcx>) -> InterpResult<'tcx> {
    let m = ecx.force_allocation(p)?;
    let n = m.layout.size.bytes_usize();
    if let ty::Adt(ad, _) = m.layout.ty.kind() {
        if ad.is_enum() {
            for (vi, v) in ad.variants().iter_enumerated() {
                if v.fields.is_empty() {
                    return ecx.write_discriminant(vi, &m);
                }
            }
        }
    }
    ecx.write_bytes_ptr(m.ptr(), std::iter::repeat_n(8u8, n))
}

/// Ok, or Err where the scenario says so
fn outcome<'tcx>(ecx: &mut Ecx<'tcx>, dest: &PlaceTy<'tcx>) -> InterpResult<'tcx> {
    let n = *ecx.machine.ints.get("fallible").unwrap_or(&0);
    ecx.machine.ints.insert("fallible".into(), n + 1);
    let want = if ecx.machine.ints.get("fail_at") == Some(&n) { "Err" } else { "Ok" };
    if let ty::Adt(ad, _) = dest.layout.ty.kind() {
        for (vi, v) in ad.variants().iter_enumerated() {
            if v.name.as_str() == want {
                if want == "Err" {
                    let d: PlaceTy<'tcx> = ecx.project_downcast(dest, vi)?;
                    for i in 0..v.fields.len() {
                        let f = ecx.project_field(&d, FieldIdx::from_usize(i))?;
                        any_value(ecx, &f)?;
                    }
                }
                return ecx.write_discriminant(vi, dest);
            }
        }
    }
    stop("a fallible check does not return a Result")
}

fn group<'tcx>(ecx: &mut Ecx<'tcx>, kind: &str, g: &[Vec<u64>], text: String) {
    let t = g.iter().map(|x| x.len().to_string()).collect::<Vec<_>>().join(",");
    event(ecx, kind, g.concat(), format!("{t}|{text}"));
}

fn obj<'tcx>(ecx: &Ecx<'tcx>, op: &OpTy<'tcx>) -> InterpResult<'tcx, String> {
    let m = ecx.deref_pointer(op)?;
    interp_ok(ecx.machine.objnames.get(&m.ptr().addr().bytes()).cloned().unwrap_or("?".into()))
}

pub fn run<'tcx>(
    ecx: &mut Ecx<'tcx>,
    h: &'static str,
    name: &'static str,
    instance: ty::Instance<'tcx>,
    args: &[OpTy<'tcx>],
    dest: &PlaceTy<'tcx>,
) -> InterpResult<'tcx, bool> {
    if !active(ecx) {
        return interp_ok(false);
    }
    let usz = |ecx: &Ecx<'tcx>, i: usize| ecx.read_target_usize(&args[i]);
    match h {
        "v_stark" => {
            // (stark, proof, challenges, ctl_vars, public_inputs, config)
            let sn = adt_name(*ecx.tcx, args[0].layout.ty.peel_refs());
            let p = leaves(ecx, &args[1])?;
            let c = leaves(ecx, &args[2])?;
            // the table is encoded in the number of relation variables
            let vi = ecx.read_discriminant(&args[3])?;
            let ctl = if vi.as_usize() == 1 {
                let d = ecx.project_downcast(&args[3], vi)?;
                let f = f0(ecx, &d, 0)?;
                let m = ecx.deref_pointer(&f)?;
                m.len(ecx)? as i64 - 1
            } else {
                -1
            };
            let pi = leaves(ecx, &args[4])?;
            group(ecx, "stark", &[p, c, pi], format!("{sn}|{ctl}"));
            outcome(ecx, dest)?;
        }
        "v_ctlvars" => {
            // (table, proof, relations, challenges, num_lookup_columns, total_num_helpers, num_helpers_by_ctl)
            let t = usz(ecx, 0)?;
            let p = leaves(ecx, &args[1])?;
            let rel = obj(ecx, &args[2])?;
            let c = leaves(ecx, &args[3])?;
            let (l, n) = (usz(ecx, 4)?, usz(ecx, 5)?);
            group(ecx, "ctl_vars", &[p, c], format!("{t}|{rel}|{l}|{n}"));
            make_vec_raw(ecx, dest, t + 1)?;
        }
        "native_stark_chal" => {
            let v = leaves(ecx, &args[0])?;
            let n = format!("chal({})", ecx.machine.st.show(v[0]));
            ecx.machine.transcript.push(("proof challenges".into(), v));
            symbolize(ecx, dest, &n)?;
        }
        "num_helpers" => {
            // (relations, table, num_challenges, constraint_degree)
            let rel = obj(ecx, &args[0])?;
            let (t, n, d) = (usz(ecx, 1)?, usz(ecx, 2)?, usz(ecx, 3)?);
            event(ecx, "helpers", vec![], format!("{t}|{rel}|{n}|{d}"));
            for (i, v) in [1000 + t, 4].into_iter().enumerate() {
                let f = ecx.project_field(dest, FieldIdx::from_usize(i))?;
                ecx.write_scalar(Scalar::from_u64(v), &f)?;
            }
            let f = ecx.project_field(dest, FieldIdx::from_usize(2))?;
            for e in make_vec(ecx, &f, 2)? {
                ecx.write_scalar(Scalar::from_u64(2), &e)?;
            }
        }
        "v_cross" => {
            // (relations, ctl_zs_first, extra sums, config)
            let rel = obj(ecx, &args[0])?;
            let mut g = vec![];
            if let ty::Array(_, n) = args[1].layout.ty.kind() {
                for i in 0..n.try_to_target_usize(*ecx.tcx).unwrap() {
                    let e = ecx.project_index(&args[1], i)?;
                    g.push(leaves(ecx, &e)?);
                }
            }
            // a map built by the interpreted code: look it up through its own iteration order
            let m = deref(ecx, &args[2])?;
            let extra = map_entries(ecx, &m)?;
            let t: Vec<String> = extra.iter().map(|(k, v)| format!("{k}:{}", v.len())).collect();
            g.extend(extra.into_iter().map(|x| x.1));
            group(ecx, "cross", &g, format!("{rel}|{}", t.join(" ")));
            outcome(ecx, dest)?;
        }
        "v_extra" => {
            let v = leaves(ecx, &args[1])?;
            let p = leaves(ecx, &args[0])?;
            let all = !p.is_empty() && p.iter().all(|&x| ecx.machine.st.show(x).starts_with("all_proof.public_values"));
            let c = v.iter().map(|&x| ecx.machine.st.show(x)).collect::<Vec<_>>().join(",");
            let r = ecx.machine.st.atom(&format!("extra_sum({c}|{all})"));
            wr(ecx, dest, r)?;
        }
        "v_observe" => {
            let p = leaves(ecx, &args[1])?;
            let all = p.iter().all(|&x| ecx.machine.st.show(x).starts_with("all_proof.public_values"));
            event(ecx, "observe", vec![], format!("{}|{all}", p.len()));
            ecx.machine.transcript.push(("public_values".into(), vec![]));
            outcome(ecx, dest)?;
        }
        "v_circuit" => {
            let n = parent(ecx, &args[0])?;
            let p = leaves(ecx, &args[1])?;
            group(ecx, "circuit", &[p], n);
            outcome(ecx, dest)?;
        }
        "v_proof" => {
            // (all_stark, all_proof, config, is_initial)
            let p = leaves(ecx, &args[1])?;
            let i = ecx.read_scalar(&args[3])?.to_bool()?;
            group(ecx, "segment", &[p], format!("{i}"));
            outcome(ecx, dest)?;
        }
        "v_cyclic" => {
            let p = leaves(ecx, &args[0])?;
            let k = parent(ecx, &args[1])?;
            let c = parent(ecx, &args[2])?;
            group(ecx, "cyclic", &[p], format!("{k}|{c}"));
            outcome(ecx, dest)?;
        }
        "v_error" => {
            if name.ends_with("must_use") {
                ecx.copy_op(&args[0], dest)?;
            } else {
                any_value(ecx, dest)?;
            }
        }
        "v_noop" => {}
        "v_format" => {
            // the wording of messages does not matter
            let f = ecx.project_field(dest, FieldIdx::from_usize(0))?;
            make_vec(ecx, &f, 0)?;
        }
        "v_hash" => {
            if dest.layout.ty == ecx.tcx.types.u64 {
                ecx.write_scalar(Scalar::from_u64(0), dest)?;
            } else {
                let m = ecx.force_allocation(dest)?;
                ecx.write_bytes_ptr(m.ptr(), std::iter::repeat_n(0u8, m.layout.size.bytes_usize()))?;
            }
        }
        _ => return interp_ok(false),
    }
    let _ = instance;
    interp_ok(true)
}

/// the object whose parts these are
fn parent<'tcx>(ecx: &mut Ecx<'tcx>, op: &OpTy<'tcx>) -> InterpResult<'tcx, String> {
    let mut v = vec![];
    walk(ecx, op, "", &mut v, 0)?;
    let mut names = std::collections::BTreeSet::new();
    for (p, l) in v {
        let e = match l {
            Leaf::E(e) => Some(e),
            Leaf::I(i) => label_expr(ecx, i as u64),
        };
        if let Some(e) = e {
            let n = ecx.machine.st.show(e);
            for part in ["verifier_only", "common"] {
                if let Some(i) = n.find(part) {
                    names.insert(n[..i + part.len()].to_string());
                }
            }
        }
    }
    interp_ok(names.into_iter().collect::<Vec<_>>().join(" "))
}

/// a vector of `n` elements that are never looked into
fn make_vec_raw<'tcx>(ecx: &mut Ecx<'tcx>, p: &PlaceTy<'tcx>, n: u64) -> InterpResult<'tcx> {
    make_vec(ecx, p, n)?;
    interp_ok(())
}

/// entries of a hash table, by calling its own `get` for every possible key
fn map_entries<'tcx>(ecx: &mut Ecx<'tcx>, m: &OpTy<'tcx>) -> InterpResult<'tcx, Vec<(u64, Vec<u64>)>> {
    let tcx = *ecx.tcx;
    let (ad, ga) = match m.layout.ty.kind() {
        ty::Adt(ad, ga) => (*ad, *ga),
        _ => return stop("extra sums are not a map"),
    };
    let mut get = None;
    for &im in tcx.inherent_impls(ad.did()) {
        for it in tcx.associated_items(im).in_definition_order() {
            if it.name().as_str() == "get" {
                get = Some((im, it.def_id));
            }
        }
    }
    let Some((_, g)) = get else { return stop("extra sums: no get") };
    let mut out = vec![];
    let kt = ga.type_at(0);
    // <K, V, S, A, Q>
    let gens = tcx.generics_of(g);
    let n = gens.count();
    let mut v: Vec<ty::GenericArg<'tcx>> = ga.iter().collect();
    while v.len() < n - 1 {
        v.push(tcx.lifetimes.re_erased.into());
    }
    v.truncate(n - 1);
    v.push(kt.into());
    // lifetimes come where the generics say
    let mut types = v.iter().filter_map(|x| x.as_type()).collect::<Vec<_>>().into_iter();
    let args = ty::GenericArgs::for_item(tcx, g, |p, _| match p.kind {
        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
        _ => types.next().unwrap().into(),
    });
    let inst = ty::Instance::expect_resolve(tcx, ty::TypingEnv::fully_monomorphized(), g, args, rustc_span::DUMMY_SP);
    let mp = ecx.allocate(m.layout, MemoryKind::Machine(MK::Heap))?;
    ecx.copy_op(m, &mp)?;
    let rm = mp.to_ref(ecx);
    let sig = fn_sig(tcx, inst);
    let l0 = ecx.layout_of(sig.inputs()[0])?;
    let l1 = ecx.layout_of(sig.inputs()[1])?;
    let lk = ecx.layout_of(kt)?;
    for k in 0..64u64 {
        let kp = ecx.allocate(lk, MemoryKind::Machine(MK::Heap))?;
        ecx.write_scalar(Scalar::from_uint(k, lk.size), &kp)?;
        let rk = kp.to_ref(ecx);
        let a0 = ri_imm(rm, l0);
        let a1 = ri_imm(rk, l1);
        let o = nested(ecx, inst, vec![a0, a1])?;
        let o: OpTy<'tcx> = o.into();
        let vi = ecx.read_discriminant(&o)?;
        if vi.as_usize() == 1 {
            let d = ecx.project_downcast(&o, vi)?;
            let f = f0(ecx, &d, 0)?;
            let lv = leaves(ecx, &f)?;
            out.push((k, lv));
        }
    }
    interp_ok(out)
}

fn ri_imm<'tcx>(i: Immediate, l: rustc_middle::ty::layout::TyAndLayout<'tcx>) -> OpTy<'tcx> {
    rustc_const_eval::interpret::ImmTy::from_immediate(i, l).into()
}

/// call a function to completion from inside a hook
fn nested<'tcx>(ecx: &mut Ecx<'tcx>, inst: ty::Instance<'tcx>, args: Vec<OpTy<'tcx>>) -> InterpResult<'tcx, MPlaceTy<'tcx>> {
    let saved = std::mem::take(&mut ecx.machine.stack);
    let r = call(ecx, inst, args);
    ecx.machine.stack = saved;
    r
}

pub struct Scen {
    pub name: String,
    pub ints: Vec<(String, u128)>,
    pub variants: Vec<(String, String)>,
    /// public memory commitments: (field, table whose commitment it is, or "zero", or "other")
    pub caps: Vec<(&'static str, String)>,
    pub initial: bool,
    pub fail: Option<u128>,
}

fn field<'tcx>(ecx: &Ecx<'tcx>, op: &MPlaceTy<'tcx>, path: &str) -> InterpResult<'tcx, MPlaceTy<'tcx>> {
    let mut cur = op.clone();
    for f in path.split('.') {
        let ad = match cur.layout.ty.kind() {
            ty::Adt(ad, _) if ad.is_struct() => *ad,
            _ => return stop(format!("no field {f}")),
        };
        match ad.non_enum_variant().fields.iter_enumerated().find(|(_, x)| x.name.as_str() == f) {
            Some((i, _)) => cur = ecx.project_field(&cur, i)?,
            None => return stop(format!("no field {f}")),
        }
    }
    interp_ok(cur)
}

fn one<'tcx>(cx: &Cx<'tcx>, k: &str, argn: &[&str], sc: &Scen) -> (String, Vec<(String, J)>, u128) {
    let tcx = cx.tcx;
    let mut ecx = new_ecx(tcx);
    crate::circuits::defaults(&mut ecx);
    crate::poly::SHORT.store(1 << 20, std::sync::atomic::Ordering::Relaxed);
    let m = &mut ecx.machine;
    m.ints.insert("verify".into(), 1);
    m.ints.insert("is_initial".into(), sc.initial as u128);
    if k.starts_with("AllRecursive") {
        m.ints.insert("label_ints".into(), 1);
    }
    let burn = if k.starts_with("AllRecursive") { "Burnt" } else { "None" };
    m.variants.insert("burn_addr".into(), burn.into());
    m.lens.insert("cross_table_lookups".into(), 0);
    for (k, v) in &sc.ints {
        if k == "all_proofs" {
            m.lens.insert(k.clone(), *v as u64);
            for i in 0..*v {
                m.variants.insert(format!("all_proofs[{i}].multi_proof.stark_proofs"), "Some".into());
            }
        }
        m.ints.insert(k.clone(), *v);
    }
    for (k, v) in &sc.variants {
        m.variants.insert(k.clone(), v.clone());
    }
    if let Some(f) = sc.fail {
        m.ints.insert("fail_at".into(), f);
    }
    let mut res = String::new();
    let r = (|| -> InterpResult<'tcx> {
        let d = match cx.find(k) {
            Ok(d) => d,
            Err(e) => return stop(e),
        };
        let inst = ty::Instance::expect_resolve(tcx, ty::TypingEnv::fully_monomorphized(), d, cx.args(d, &[]), rustc_span::DUMMY_SP);
        let (_, ops) = crate::circuits::prep(cx, &mut ecx, d, inst, argn)?;
        for (i, o) in ops.iter().enumerate() {
            if argn.get(i) == Some(&"all_stark") {
                // the declared relations, recognised by address
                let mp = ecx.deref_pointer(o)?;
                let f = field(&ecx, &mp, "cross_table_lookups")?;
                ecx.machine.objnames.insert(f.ptr().addr().bytes(), "relations".into());
                let sl = crate::reify::vec_base(&mut ecx, &f.into())?;
                ecx.machine.objnames.insert(sl, "relations".into());
            }
            if argn.get(i) == Some(&"all_proof") && !sc.caps.is_empty() {
                let mp = match o.as_mplace_or_imm().left() {
                    Some(m) => m,
                    None => return stop("all_proof is immediate"),
                };
                let pv = field(&ecx, &mp, "public_values")?;
                let proofs = field(&ecx, &mp, "multi_proof.stark_proofs")?;
                for (fld, what) in &sc.caps {
                    let dst = field(&ecx, &pv, fld)?;
                    if what == "other" {
                        continue;
                    }
                    if what == "zero" {
                        let v = field(&ecx, &dst, "mem_cap")?;
                        for e in make_vec(&mut ecx, &v.into(), 16)? {
                            let e = ecx.force_allocation(&e)?;
                            ecx.write_bytes_ptr(e.ptr(), std::iter::repeat_n(0u8, e.layout.size.bytes_usize()))?;
                        }
                        continue;
                    }
                    let i: u64 = what.parse().unwrap_or(0);
                    let e = ecx.project_index(&proofs, i)?;
                    let dc = ecx.project_downcast(&e, VariantIdx::from_usize(1))?;
                    let sp = ecx.project_field(&dc, FieldIdx::from_usize(0))?;
                    let cap = field(&ecx, &sp, "proof.trace_cap")?;
                    if sc.initial && *fld == "mem_before" {
                        let n = "initial_cap(rate=3,height=4)".to_string();
                        ecx.machine.lens.insert(format!("{n}.0"), 16);
                        symbolize(&mut ecx, &cap.clone().into(), &n)?;
                    }
                    let fd = match cx.find("MemCap::from_merkle_cap") {
                        Ok(d) => d,
                        Err(e) => return stop(e),
                    };
                    let ga = cx.args(fd, &[]);
                    let fi = ty::Instance::expect_resolve(tcx, ty::TypingEnv::fully_monomorphized(), fd, ga, rustc_span::DUMMY_SP);
                    let o = call(&mut ecx, fi, vec![cap.into()])?;
                    ecx.copy_op(&o, &dst)?;
                }
            }
        }
        ecx.machine.events.clear();
        let out = call(&mut ecx, inst, ops)?;
        let vi = ecx.read_discriminant(&out)?;
        if let ty::Adt(ad, _) = out.layout.ty.kind() {
            res = ad.variant(vi).name.to_string();
        }
        interp_ok(())
    })();
    if let Err(e) = r.report_err() {
        res = describe_err(&ecx, e);
    }
    let mut evs = vec![];
    for e in ecx.machine.events.clone() {
        let v = e.vals.iter().map(|&x| J::S(short(ecx.machine.st.show(x)))).collect();
        evs.push(J::O(vec![("k".into(), s(&e.kind)), ("v".into(), J::A(v)), ("t".into(), s(&e.text)), ("at".into(), s(&e.at))]));
    }
    let tr = ecx
        .machine
        .transcript
        .clone()
        .into_iter()
        .map(|(k, v)| J::A(vec![s(&k), J::A(v.iter().map(|&x| J::S(short(ecx.machine.st.show(x)))).collect())]))
        .collect();
    let n = *ecx.machine.ints.get("fallible").unwrap_or(&0);
    (
        res.clone(),
        vec![
            ("name".into(), s(&sc.name)),
            ("result".into(), J::S(res)),
            ("fallible".into(), J::N(n as i128)),
            ("events".into(), J::A(evs)),
            ("transcript".into(), J::A(tr)),
        ],
        n,
    )
}

pub fn verify_root<'tcx>(cx: &Cx<'tcx>) -> RootOut {
    let tables: Vec<(String, u64)> = {
        match enum_root(cx, "all_stark::Table").data.into_iter().next() {
            Some((_, J::O(v))) => v.into_iter().map(|(n, j)| (n, if let J::N(x) = j { x as u64 } else { 0 })).collect(),
            _ => return RootOut { name: "verify".into(), status: "no enumeration of tables".into(), data: vec![] },
        }
    };
    let idx = |n: &str| tables.iter().find(|t| t.0 == n).map(|t| t.1.to_string()).unwrap_or("0".into());
    let (mb, ma) = (idx("MemBefore"), idx("MemAfter"));
    let mk = |name: String, states: &dyn Fn(&str) -> (u128, bool), cb: &str, ca: &str, initial: bool, fail: Option<u128>| {
        let mut ints = vec![];
        let mut variants = vec![];
        for (n, i) in &tables {
            let (used, some) = states(n);
            ints.push((format!("all_proof.table_in_use[{i}]"), used));
            variants.push((format!("all_proof.multi_proof.stark_proofs[{i}]"), if some { "Some".to_string() } else { "None".to_string() }));
        }
        Scen { name, ints, variants, caps: vec![("mem_before", cb.to_string()), ("mem_after", ca.to_string())], initial, fail }
    };
    let argn = ["all_stark", "all_proof", "config", "is_initial"];
    let k = "verifier::testing::verify_proof";
    let used = |_: &str| (1u128, true);
    let mut out = vec![];
    let mut go = |sc: Scen| {
        let (r, j, n) = one(cx, k, &argn, &sc);
        out.push(J::O(j));
        (r, n)
    };
    for initial in [false, true] {
        let nm = if initial { "initial" } else { "honest" };
        let (_, n) = go(mk(nm.into(), &used, &mb, &ma, initial, None));
        if !initial {
            for i in 0..n {
                go(mk(format!("fail {i}"), &used, &mb, &ma, false, Some(i)));
            }
        }
    }
    go(mk("other before".into(), &used, "other", &ma, false, None));
    go(mk("other after".into(), &used, &mb, "other", false, None));
    {
        // the commitments agree with the tables but not with the fixed initial memory
        let mut sc = mk("other initial".into(), &used, &mb, &ma, false, None);
        sc.ints.push(("is_initial".into(), 1));
        go(sc);
    }
    for (t, i) in &tables {
        let st = |u: u128, p: bool| move |n: &str| if n == t { (u, p) } else { (1, true) };
        let cap = |which: &str, dflt: &str| if which == i.to_string() { "zero".to_string() } else { dflt.to_string() };
        let (cb, ca) = (cap(&mb, &mb), cap(&ma, &ma));
        go(mk(format!("unused {t}"), &st(0, false), &cb, &ca, false, None));
        go(mk(format!("missing {t}"), &st(1, false), &cb, &ca, false, None));
        go(mk(format!("undeclared {t}"), &st(0, true), &mb, &ma, false, None));
        if i.to_string() == ma {
            go(mk(format!("nonzero {t}"), &st(0, false), &mb, "other", false, None));
        }
    }
    let mut seq = vec![];
    for n in 1..=3u64 {
        let k = "verifier::testing::verify_all_proofs";
        let mk = |f: Option<u128>| Scen {
            name: format!("{n} segments{}", f.map(|x| format!(" fail {x}")).unwrap_or_default()),
            ints: vec![("all_proofs".into(), n as u128)],
            variants: vec![("all_proofs".into(), "Some".into())],
            caps: vec![],
            initial: false,
            fail: f,
        };
        let argn = ["all_stark", "all_proofs", "config"];
        let (_, j, m) = one(cx, k, &argn, &mk(None));
        seq.push(J::O(j));
        for i in 0..m {
            seq.push(J::O(one(cx, k, &argn, &mk(Some(i))).1));
        }
    }
    let mut circ = vec![];
    for f in ["verify_root", "verify_segment_aggregation", "verify_batch_aggregation", "verify_block", "verify_block_wrapper", "verify_two_to_one_block"] {
        let k = format!("AllRecursiveCircuits::{f}");
        let mk = |fail| Scen { name: f.into(), ints: vec![], variants: vec![], caps: vec![], initial: false, fail };
        let (_, j, n) = one(cx, &k, &["self", "proof"], &mk(None));
        circ.push(J::O(j));
        for i in 0..n {
            let mut sc = mk(Some(i));
            sc.name = format!("{f} fail {i}");
            circ.push(J::O(one(cx, &k, &["self", "proof"], &sc).1));
        }
    }
    RootOut {
        name: "verify".into(),
        status: "ok".into(),
        data: vec![("segment".into(), J::A(out)), ("sequence".into(), J::A(seq)), ("circuits".into(), J::A(circ))],
    }
}
