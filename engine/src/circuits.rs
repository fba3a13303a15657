//! Roots for circuit construction, transcript and public-value layout.
use crate::hooks::*;
use crate::hooks3::*;
use crate::json::*;
use crate::machine::*;
use crate::poly::short;
use crate::prov::*;
use crate::roots::*;
use rustc_middle::ty;
use std::collections::HashMap;

type Setup = dyn Fn(&mut Ecx<'_>) + 'static;

pub fn defaults(ecx: &mut Ecx<'_>) {
    let m = &mut ecx.machine;
    for (k, v) in [
        ("cap_height", 4u128),
        ("num_challenges", 2),
        ("num_constants", 2),
        ("num_routed_wires", 80),
        ("num_wires", 135),
        ("rate_bits", 3),
        ("security_bits", 100),
        ("num_query_rounds", 28),
        ("proof_of_work_bits", 16),
        ("degree_bits", 13),
        ("min_degree_bits", 13),
        ("use_base_arithmetic_gate", 1),
        ("zero_knowledge", 0),
        ("max_quotient_degree_factor", 8),
        ("num_public_inputs", 2500),
    ] {
        m.ints.insert(k.into(), v);
    }
    for (k, v) in [
        ("gates", 0u64),
        ("luts", 0),
        ("constants_sigmas_cap.0", 16),
        ("mem_cap", 16),
        ("mem_cap.0", 16),
        ("mem_cap.mem_cap.0", 16),
        ("trace_cap.0", 16),
        ("prev_hashes", 256),
        ("challenges", 2),
        ("commit_phase_merkle_caps", 0),
        ("query_round_proofs", 0),
        ("ctl_zs_first", 3),
    ] {
        m.lens.insert(k.into(), v);
    }
    m.variants.insert("burn_addr".into(), "Burnt".into());
    m.variants.insert("reduction_strategy".into(), "ConstantArityBits".into());
    for (k, v) in [
        ("block_timestamp", 1u64),
        ("block_number", 1),
        ("block_difficulty", 1),
        ("block_gaslimit", 1),
        ("block_chain_id", 1),
        ("chain_id", 1),
        ("block_base_fee", 2),
        ("block_gas_used", 1),
        ("block_blob_gas_used", 2),
        ("block_excess_blob_gas", 2),
        ("txn_number_before", 1),
        ("txn_number_after", 1),
        ("gas_used_before", 1),
        ("gas_used_after", 1),
        ("program_counter", 1),
        ("is_kernel", 1),
        ("stack_len", 1),
        ("context", 1),
        ("gas_used", 1),
        ("mem_cap", 2),
    ] {
        m.widths.insert(k.into(), v);
    }
}

fn list<'tcx>(ecx: &Ecx<'tcx>, v: &[u64]) -> J {
    J::A(v.iter().map(|&x| J::S(short(ecx.machine.st.show(x)))).collect())
}

/// symbolic arguments for a function, by parameter type; `argn` names them independently of the source
pub fn prep<'tcx>(cx: &Cx<'tcx>, ecx: &mut Ecx<'tcx>, d: rustc_hir::def_id::DefId, inst: ty::Instance<'tcx>, argn: &[&str]) -> InterpResult<'tcx, (Vec<String>, Vec<OpTy<'tcx>>)> {
    let tcx = cx.tcx;
    let sig = fn_sig(tcx, inst);
    let mut ops = vec![];
    let mut names = vec![];
    let pn: Vec<String> = tcx
        .fn_arg_idents(d)
        .iter()
        .enumerate()
        .map(|(i, x)| {
            argn.get(i)
                .map(|s| s.to_string())
                .or(x.map(|y| y.name.to_string()).filter(|s| !s.is_empty()))
                .unwrap_or(format!("a{i}"))
        })
        .collect();
    for (i, &t) in sig.inputs().iter().enumerate() {
        let l = ecx.layout_of(t)?;
        let mp = ecx.allocate(l, MemoryKind::Machine(MK::Heap))?;
        let inner = match t.kind() {
            ty::Ref(_, inner, _) => *inner,
            _ => t,
        };
        let an = adt_name(tcx, inner);
        if ["CircuitBuilder", "RecursiveChallenger", "Challenger", "PartialWitness", "Buffer"].contains(&an.as_str())
            || an == "Vec" && matches!(t.kind(), ty::Ref(_, _, rustc_middle::mir::Mutability::Mut))
        {
            let il = ecx.layout_of(inner)?;
            let ip = ecx.allocate(il, MemoryKind::Machine(MK::Heap))?;
            if an == "CircuitBuilder" {
                for (fi, f) in inner.ty_adt_def().unwrap().non_enum_variant().fields.iter_enumerated() {
                    let q: PlaceTy<'tcx> = ecx.project_field(&ip.clone().into(), fi)?;
                    match f.name.as_str() {
                        "config" => symbolize(ecx, &q, "config")?,
                        "verifier_data_public_input" => {
                            ecx.write_discriminant(rustc_abi::VariantIdx::from_usize(0), &q)?;
                        }
                        _ => {}
                    }
                }
            }
            let imm = ip.to_ref(ecx);
            ecx.write_immediate(imm, &mp)?;
        } else if let ty::Slice(el) = inner.kind() {
            let n = cfg(&ecx.machine.lens, &pn[i]).unwrap_or(1);
            let at = rustc_middle::ty::Ty::new_array(tcx, *el, n);
            let al = ecx.layout_of(at)?;
            let ap = ecx.allocate(al, MemoryKind::Machine(MK::Heap))?;
            symbolize(ecx, &ap.clone().into(), &pn[i])?;
            let imm = Immediate::new_slice(ap.ptr(), n, ecx);
            ecx.write_immediate(imm, &mp)?;
        } else if let ty::Dynamic(..) = inner.kind() {
            // never called on: any pointer will do
            ecx.write_bytes_ptr(mp.ptr(), std::iter::repeat_n(8u8, l.size.bytes_usize()))?;
        } else {
            symbolize(ecx, &mp.clone().into(), &pn[i])?;
        }
        names.push(pn[i].clone());
        ops.push(mp.into());
    }
    interp_ok((names, ops))
}

/// interpret a function on symbolic arguments and report everything it constrains
pub fn circuit_root<'tcx>(cx: &Cx<'tcx>, name: &str, k: &str, argn: &[&str], setup: &Setup) -> RootOut {
    let tcx = cx.tcx;
    let mut ecx = new_ecx(tcx);
    defaults(&mut ecx);
    setup(&mut ecx);
    let lim = ecx.machine.ints.get("print_limit").map(|x| *x as usize).unwrap_or(1 << 20);
    crate::poly::SHORT.store(lim, std::sync::atomic::Ordering::Relaxed);
    let d = match cx.find(k) {
        Ok(d) => d,
        Err(e) => return RootOut { name: name.into(), status: e, data: vec![] },
    };
    let ga = cx.args(d, &[]);
    let mut outl: Vec<(String, Leaf)> = vec![];
    let mut names: Vec<String> = vec![];
    let r = (|| -> InterpResult<'tcx, ()> {
        let inst = ty::Instance::expect_resolve(tcx, ty::TypingEnv::fully_monomorphized(), d, ga, rustc_span::DUMMY_SP);
        let (n, ops) = prep(cx, &mut ecx, d, inst, argn)?;
        names = n;
        let out = call(&mut ecx, inst, ops)?;
        walk(&mut ecx, &out.into(), "", &mut outl, 0)?;
        interp_ok(())
    })();
    let status = match r.report_err() {
        Ok(()) => "ok".to_string(),
        Err(e) => describe_err(&ecx, e),
    };
    // names of fresh targets: where the returned structure holds them
    let mut ren: HashMap<u32, String> = HashMap::new();
    for (p, l) in &outl {
        if let Leaf::E(v) = l {
            if let Some(a) = ecx.machine.st.atom_id(*v) {
                if ecx.machine.st.atoms[a as usize].starts_with("v#") {
                    ren.entry(a).or_insert_with(|| p.clone());
                }
            }
        }
    }
    let eqs: Vec<u64> = ecx.machine.events.iter().filter(|e| e.kind == "zero").map(|e| e.vals[0]).collect();
    let (classes, used, bad) = ecx.machine.st.resolve(&ren, &eqs);
    let used: std::collections::HashSet<usize> = used.into_iter().collect();
    let mut evs = vec![];
    let mut zi = 0;
    for e in ecx.machine.events.clone() {
        if e.kind == "zero" {
            zi += 1;
            if used.contains(&(zi - 1)) {
                continue;
            }
            let sh = ecx.machine.st.show_norm_short(e.vals[0]);
            evs.push(J::O(vec![("k".into(), s("zero")), ("v".into(), J::A(vec![J::S(sh)])), ("t".into(), s("")), ("at".into(), s(&e.at))]));
            continue;
        }
        evs.push(J::O(vec![("k".into(), s(&e.kind)), ("v".into(), list(&ecx, &e.vals)), ("t".into(), s(&e.text)), ("at".into(), s(&e.at))]));
    }
    let pis = list(&ecx, &ecx.machine.pis.clone());
    let tr = J::A(
        ecx.machine
            .transcript
            .clone()
            .into_iter()
            .map(|(k, v)| J::A(vec![s(&k), list(&ecx, &v)]))
            .collect(),
    );
    let mut ret = vec![];
    for (p, l) in outl {
        let v = match l {
            Leaf::E(v) => {
                let ts = ecx.machine.st.terms_res(v);
                if ts.len() > 24 {
                    J::A(ts.into_iter().map(|(n, c)| s(&format!("{} * {}", c, n.join("*")))).collect())
                } else {
                    J::S(short(ecx.machine.st.show(v)))
                }
            }
            Leaf::I(i) => {
                if i <= u64::MAX as u128 {
                    match label_expr(&mut ecx, i as u64) {
                        Some(r) => J::S(ecx.machine.st.show(r)),
                        None => J::N(i as i128),
                    }
                } else {
                    s(&i.to_string())
                }
            }
        };
        ret.push((p, v));
    }
    RootOut {
        name: name.into(),
        status,
        data: vec![
            ("args".into(), J::A(names.iter().map(|x| s(x)).collect())),
            ("steps".into(), J::N(ecx.machine.steps as i128)),
            ("events".into(), J::A(evs)),
            ("classes".into(), J::A(classes.into_iter().map(|c| J::A(c.iter().map(|x| s(x)).collect())).collect())),
            ("contradictions".into(), J::A(bad.iter().map(|x| s(x)).collect())),
            ("bools".into(), {
                let mut b: Vec<String> = ecx.machine.st.bools.iter().cloned().collect();
                b.sort();
                J::A(b.iter().map(|x| s(x)).collect())
            }),
            ("pis".into(), pis),
            ("transcript".into(), tr),
            ("ret".into(), J::O(ret)),
        ],
    }
}

/// write a value, read it back from what was written, and report what was recovered
pub fn serde_root<'tcx>(cx: &Cx<'tcx>, name: &str, wk: &str, rk: &str, setup: &Setup) -> RootOut {
    let tcx = cx.tcx;
    let mut ecx = new_ecx(tcx);
    defaults(&mut ecx);
    ecx.machine.ints.insert("label_ints".into(), 1);
    ecx.machine.ints.remove("num_public_inputs");
    setup(&mut ecx);
    let mut data = vec![];
    let r = (|| -> InterpResult<'tcx, ()> {
        let mut before = vec![];
        let mut after = vec![];
        for (k, w) in [(wk, true), (rk, false)] {
            let d = match cx.find(k) {
                Ok(d) => d,
                Err(e) => return stop(e),
            };
            let ga = cx.args(d, &[]);
            let inst = ty::Instance::expect_resolve(tcx, ty::TypingEnv::fully_monomorphized(), d, ga, rustc_span::DUMMY_SP);
            let argn: &[&str] = if w { &["self"] } else { &[] };
            let (_, ops) = prep(cx, &mut ecx, d, inst, argn)?;
            if w {
                walk(&mut ecx, &ops[0], "", &mut before, 0)?;
            }
            let out = call(&mut ecx, inst, ops)?;
            if !w {
                walk(&mut ecx, &out.into(), "", &mut after, 0)?;
            }
        }
        let mut diff = vec![];
        let show = |ecx: &mut Ecx<'tcx>, l: Leaf| match l {
            Leaf::E(v) => ecx.machine.st.show(v),
            Leaf::I(i) => match label_expr(ecx, i as u64) {
                Some(r) => ecx.machine.st.show(r),
                None => i.to_string(),
            },
        };
        let mut m: std::collections::BTreeMap<String, [String; 2]> = Default::default();
        for (k, v) in [before, after].into_iter().enumerate() {
            for (p, l) in v {
                let t = show(&mut ecx, l);
                m.entry(p).or_insert(["absent".into(), "absent".into()])[k] = t;
            }
        }
        let n = m.len();
        for (p, [a, b]) in m {
            if a != b {
                diff.push(s(&format!("{p}: written as {a}, restored as {b}")));
            }
        }
        let left = ecx.machine.buffer.len();
        data = vec![
            ("leaves".to_string(), J::N(n as i128)),
            ("diff".to_string(), J::A(diff)),
            ("left".to_string(), J::N(left as i128)),
            ("items".to_string(), J::N(ecx.machine.nread as i128)),
            ("steps".to_string(), J::N(ecx.machine.steps as i128)),
        ];
        interp_ok(())
    })();
    let status = match r.report_err() {
        Ok(()) => "ok".to_string(),
        Err(e) => describe_err(&ecx, e),
    };
    RootOut { name: name.into(), status, data }
}

pub fn run<'tcx>(cx: &Cx<'tcx>, add: &mut dyn FnMut(String, &dyn Fn() -> RootOut)) {
    // shapes of the target-level and of the native public values
    let tgt: &Setup = &|e| {
        e.machine.lens.insert("prev_hashes".into(), 256 * 8);
        e.machine.ints.insert("print_limit".into(), 1 << 20);
    };
    let nat: &Setup = &|e| {
        e.machine.variants.insert("burn_addr".into(), "None".into());
        e.machine.ints.insert("print_limit".into(), 1 << 20);
    };
    let none: &Setup = &|e| {
        e.machine.lens.insert("prev_hashes".into(), 256 * 8);
    };
    let seg: &Setup = &|e| {
        e.machine.lens.insert("prev_hashes".into(), 256 * 8);
        // running sums per table, as counted from the declared relations
        let n = std::env::var("VERIF_CTLZ").unwrap_or_default();
        for (i, n) in n.split(',').enumerate() {
            let n: u128 = n.parse().unwrap_or(0);
            for k in 0..3 {
                e.machine.ints.insert(format!("by_table[{i}].final[{k}].common.num_public_inputs"), 64 + 4 + 24 + n);
            }
        }
    };
    let stk: &Setup = &|e| {
        e.machine.variants.insert("table".into(), "Cpu".into());
    };
    let pis: &Setup = &|e| {
        e.machine.lens.insert("pis".into(), 2600);
    };
    // public values at both levels in the same function
    let two: &Setup = &|e| {
        e.machine.lens.insert("target.block_hashes.prev_hashes".into(), 256 * 8);
        e.machine.variants.insert("value.burn_addr".into(), "None".into());
    };
    {
        let mut simple =
            |n: &str, k: &str, argn: &[&str], st: &Setup| add(format!("circ::{n}"), &|| circuit_root(cx, &format!("circ::{n}"), k, argn, st));
        let pv = ["challenger", "public_values"];
        simple("observe_target", "get_challenges::observe_public_values_target", &pv, tgt);
        simple("observe", "get_challenges::observe_public_values", &pv, nat);
        simple("extra_sum_target", "recursive_verifier::get_memory_extra_looking_sum_circuit", &["builder", "public_values", "challenge"], tgt);
        simple("extra_sum", "verifier::testing::get_memory_extra_looking_sum", &["public_values", "challenge"], nat);
        simple("segment", "AllRecursiveCircuits::create_segment_circuit", &["by_table", "stark_config", "circuit_config"], seg);
        simple("segment_agg", "AllRecursiveCircuits::create_segment_aggregation_circuit", &["root"], none);
        simple("batch_agg", "AllRecursiveCircuits::create_batch_aggregation_circuit", &["agg", "stark_config"], none);
        simple("block", "AllRecursiveCircuits::create_block_circuit", &["agg"], none);
        simple("wrapper", "AllRecursiveCircuits::create_block_wrapper_circuit", &["block"], none);
        simple("two_to_one", "AllRecursiveCircuits::create_two_to_one_block_circuit", &["block"], none);
        simple(
            "stark",
            "recursive_verifier::recursive_stark_circuit",
            &["table", "stark", "degree_bits", "ctls", "stark_config", "circuit_config", "min_degree_bits"],
            stk,
        );
        // public-value layout
        simple("pv_register", "recursive_verifier::add_virtual_public_values_public_input", &["builder"], none);
        simple("fpv_register", "recursive_verifier::add_virtual_final_public_values_public_input", &["builder"], none);
        simple("pv_parse_target", "PublicValuesTarget::from_public_inputs", &["pis"], pis);
        simple("pv_parse", "PublicValues::from_public_inputs", &["pis"], pis);
        simple("fpv_parse", "FinalPublicValues::from_public_inputs", &["pis"], pis);
        simple("pv_assign", "recursive_verifier::set_public_value_targets", &["witness", "target", "value"], two);
        simple("fpv_assign", "recursive_verifier::set_final_public_value_targets", &["witness", "target", "value"], two);
        simple("pv_select", "PublicValuesTarget::select", &["builder", "condition", "pv0", "pv1"], none);
        for t in ["TrieRoots", "BlockMetadata", "BlockHashes", "ExtraBlockData", "RegistersData", "MemCap"] {
            simple(&format!("connect_{t}"), &format!("{t}Target::connect"), &["builder", "x", "y"], none);
            simple(&format!("cond_{t}"), &format!("{t}Target::conditional_assert_eq"), &["builder", "condition", "x", "y"], none);
        }
    }
    for t in [
        "RootCircuitData",
        "SegmentAggregationCircuitData",
        "BatchAggregationCircuitData",
        "AggregationChildTarget",
        "AggregationChildWithDummyTarget",
        "BlockCircuitData",
        "BlockWrapperCircuitData",
        "TwoToOneBlockCircuitData",
        "PublicValuesTarget",
        "FinalPublicValuesTarget",
        "StarkWrapperCircuit",
        "RecursiveCircuitsForTableSize",
        "ShrunkProofData",
    ] {
        let n = format!("serde::{t}");
        add(n.clone(), &|| serde_root(cx, &n, &format!("{t}::to_buffer"), &format!("{t}::from_buffer"), none));
    }
    let all: &Setup = &|e| {
        e.machine.lens.insert("prev_hashes".into(), 256 * 8);
        e.machine.ints.insert("skip_tables".into(), 0);
    };
    let upper: &Setup = &|e| {
        e.machine.lens.insert("prev_hashes".into(), 256 * 8);
        e.machine.ints.insert("skip_tables".into(), 1);
        e.machine.variants.insert("table_dummy_proofs".into(), "None".into());
    };
    for (n, st) in [("serde::AllRecursiveCircuits", all), ("serde::AllRecursiveCircuits upper", upper)] {
        add(n.into(), &|| serde_root(cx, n, "AllRecursiveCircuits::to_bytes", "AllRecursiveCircuits::from_bytes", st));
    }
}
