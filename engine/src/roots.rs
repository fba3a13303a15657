use crate::hooks::*;
use crate::json::*;
use crate::machine::*;
use crate::poly::{P, Store};
use rustc_abi::FieldIdx;
use crate::prov::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt};
use std::collections::HashMap;

pub struct Cx<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub gold: Ty<'tcx>,
    pub poseidon: Ty<'tcx>,
    pub witness: Option<Ty<'tcx>>,
    pub hasher: Option<Ty<'tcx>>,
    pub fns: HashMap<String, Vec<DefId>>,
}

pub fn find_adt<'tcx>(tcx: TyCtxt<'tcx>, krate: &str, name: &str) -> Option<Ty<'tcx>> {
    for &c in tcx.crates(()).iter() {
        if tcx.crate_name(c).as_str() != krate {
            continue;
        }
        let mut todo = vec![c.as_def_id()];
        let mut seen = std::collections::HashSet::new();
        while let Some(m) = todo.pop() {
            if !seen.insert(m) {
                continue;
            }
            for ch in tcx.module_children(m) {
                if let rustc_hir::def::Res::Def(k, d) = ch.res {
                    match k {
                        DefKind::Mod => todo.push(d),
                        DefKind::Struct if ch.ident.as_str() == name => {
                            return Some(tcx.type_of(d).instantiate_identity().skip_normalization());
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    None
}

impl<'tcx> Cx<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        // crates without circuits have neither
        let gold = find_adt(tcx, "plonky2_field", "GoldilocksField").unwrap_or(tcx.types.unit);
        let poseidon = find_adt(tcx, "plonky2", "PoseidonGoldilocksConfig").unwrap_or(tcx.types.unit);
        let mut fns: HashMap<String, Vec<DefId>> = HashMap::new();
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                fns.entry(key(tcx, d)).or_default().push(d);
            }
        }
        let witness = find_adt(tcx, "plonky2", "PartialWitness").map(|t| match t.kind() {
            ty::Adt(ad, _) => Ty::new_adt(tcx, *ad, ty::GenericArgs::for_item(tcx, ad.did(), |_, _| gold.into())),
            _ => t,
        });
        let hasher = find_adt(tcx, "plonky2", "PoseidonHash");
        Cx { tcx, gold, poseidon, witness, hasher, fns }
    }
    pub fn find(&self, k: &str) -> Result<DefId, String> {
        let v: Vec<(&String, &Vec<DefId>)> = self.fns.iter().filter(|(n, _)| n.as_str() == k || n.ends_with(&format!("::{k}"))).collect();
        if v.len() == 1 && v[0].1.len() == 1 {
            Ok(v[0].1[0])
        } else {
            Err(format!("function {k}: {} candidates", v.len()))
        }
    }
    /// struct of the analysed crate, field and extension degree substituted
    pub fn local_adt(&self, name: &str) -> Option<Ty<'tcx>> {
        let tcx = self.tcx;
        for d in tcx.hir_crate_items(()).definitions() {
            if tcx.def_kind(d) == DefKind::Struct && tcx.item_name(d.to_def_id()).as_str() == name {
                if let ty::Adt(ad, _) = tcx.type_of(d.to_def_id()).instantiate_identity().skip_normalization().kind() {
                    return Some(Ty::new_adt(tcx, *ad, self.args(ad.did(), &[])));
                }
            }
        }
        None
    }
    /// substitute generics by parameter name
    pub fn args(&self, d: DefId, extra: &[(&str, i64)]) -> GenericArgsRef<'tcx> {
        let tcx = self.tcx;
        ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            ty::GenericParamDefKind::Type { .. } => match p.name.as_str() {
                "C" => self.poseidon.into(),
                "H" => self.hasher.unwrap().into(),
                "W" => self.witness.unwrap().into(),
                "S" => self.local_adt("CpuStark").unwrap_or(self.gold).into(),
                _ => self.gold.into(),
            },
            ty::GenericParamDefKind::Const { .. } => {
                let v = extra
                    .iter()
                    .find(|x| x.0 == p.name.as_str())
                    .map(|x| x.1)
                    .unwrap_or(match p.name.as_str() {
                        "D" => 2,
                        _ => 1,
                    });
                ty::Const::from_target_usize(tcx, v as u64).into()
            }
        })
    }
}

pub fn new_ecx<'tcx>(tcx: TyCtxt<'tcx>) -> Ecx<'tcx> {
    InterpCx::new(
        tcx,
        rustc_span::DUMMY_SP,
        ty::TypingEnv::fully_monomorphized(),
        Mach {
            stack: vec![],
            st: Store::new(),
            events: vec![],
            fresh: HashMap::new(),
            tagged: vec![],
            hookcache: Default::default(),
            steps: 0,
            trace: std::env::var("VERIF_TRACE").is_ok(),
            lens: HashMap::new(),
            ints: HashMap::new(),
            variants: HashMap::new(),
            widths: HashMap::new(),
            labels: vec![],
            transcript: vec![],
            pis: vec![],
            nvirt: 0,
            nchal: 0,
            nread: 0,
            objnames: HashMap::new(),
            objs: HashMap::new(),
            buffer: Default::default(),
            unknown_branches: vec![],
            root: RootState::default(),
            perm: None,
            kernel: None,
            oracle: None,
            drops: false,
            instead: vec![],
            insteadcache: Default::default(),
            bases: Default::default(),
            allocs: Default::default(),
            uppercase: Default::default(),
        },
    )
}

/// fill a place with named abstract objects according to its type
pub fn symbolize<'tcx>(ecx: &mut Ecx<'tcx>, p: &PlaceTy<'tcx>, name: &str) -> InterpResult<'tcx> {
    let tcx = *ecx.tcx;
    let t = p.layout.ty;
    match t.kind() {
        ty::Adt(ad, _) => {
            let n = tcx.item_name(ad.did()).to_string();
            match n.as_str() {
                "GoldilocksField" => {
                    let a = ecx.machine.st.atom(name);
                    return wr(ecx, p, a);
                }
                "Target" => {
                    let a = ecx.machine.st.atom(name);
                    return wr_target(ecx, p, a);
                }
                "ExtensionTarget" => {
                    let a = ecx.machine.st.atom(name);
                    return wr_ext(ecx, p, a);
                }
                _ => {}
            }
            if crate::hooks3::symbolize_special(ecx, p, &n, name)? {
                return interp_ok(());
            }
            if ad.is_struct() {
                let fs: Vec<String> = ad.non_enum_variant().fields.iter().map(|f| f.name.to_string()).collect();
                for (i, f) in fs.iter().enumerate() {
                    let q = ecx.project_field(p, FieldIdx::from_usize(i))?;
                    if q.layout.is_zst() {
                        continue;
                    }
                    let nn = if name.is_empty() { f.clone() } else { format!("{name}.{f}") };
                    symbolize(ecx, &q, &nn)?;
                }
            }
        }
        ty::Array(_, n) => {
            let n = n.try_to_target_usize(tcx).unwrap();
            for i in 0..n {
                let q = ecx.project_index(p, i)?;
                let mut k = i;
                if let (Some(pm), true) = (&ecx.machine.perm, name == "local_values" || name == "next_values") {
                    k = pm[i as usize] as u64;
                }
                symbolize(ecx, &q, &format!("{name}[{k}]"))?;
            }
        }
        ty::Tuple(ts) => {
            for i in 0..ts.len() {
                let q = ecx.project_field(p, FieldIdx::from_usize(i))?;
                symbolize(ecx, &q, &format!("{name}.{i}"))?;
            }
        }
        ty::Ref(_, inner, _) if inner.is_sized(tcx, ty::TypingEnv::fully_monomorphized()) => {
            let l = ecx.layout_of(*inner)?;
            let mp = ecx.allocate(l, MemoryKind::Machine(MK::Heap))?;
            symbolize(ecx, &mp.clone().into(), name)?;
            let imm = mp.to_ref(ecx);
            ecx.write_immediate(imm, p)?;
        }
        _ => {
            if let Some(v) = crate::hooks3::cfg(&ecx.machine.ints, name) {
                let s = Scalar::from_uint(v, p.layout.size);
                ecx.write_scalar(s, p)?;
            } else if ecx.machine.ints.contains_key("label_ints") && t.is_integral() && p.layout.size.bytes() >= 4 {
                let v = crate::hooks3::label(ecx, name.to_string());
                ecx.write_scalar(Scalar::from_uint(v, p.layout.size), p)?;
            }
        }
    }
    interp_ok(())
}

pub fn call<'tcx>(
    ecx: &mut Ecx<'tcx>,
    inst: ty::Instance<'tcx>,
    args: Vec<OpTy<'tcx>>,
) -> InterpResult<'tcx, MPlaceTy<'tcx>> {
    let tcx = *ecx.tcx;
    let body = ecx.load_mir(inst.def, None)?;
    let sig = fn_sig(tcx, inst);
    let dl = ecx.layout_of(sig.output())?;
    let dest = ecx.allocate(dl, MemoryKind::Machine(MK::Heap))?;
    let abi = ecx.fn_abi_of_instance_no_deduced_attrs(inst, ty::List::empty())?;
    let fa: Vec<FnArg<'tcx>> = args.into_iter().map(FnArg::Copy).collect();
    ecx.init_stack_frame(
        inst,
        body,
        abi,
        &fa,
        inst.def.requires_caller_location(tcx),
        &dest.clone().into(),
        ReturnContinuation::Stop { cleanup: false },
    )?;
    let max: u64 = std::env::var("VERIF_MAXSTEPS").ok().and_then(|x| x.parse().ok()).unwrap_or(2_000_000_000);
    loop {
        ecx.machine.steps += 1;
        if ecx.machine.steps > max {
            return stop("step limit");
        }
        if !ecx.step()? {
            break;
        }
    }
    interp_ok(dest)
}

pub fn fn_sig<'tcx>(tcx: TyCtxt<'tcx>, inst: ty::Instance<'tcx>) -> ty::FnSig<'tcx> {
    let sig = tcx.fn_sig(inst.def_id()).instantiate(tcx, inst.args);
    let sig = tcx.normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), sig);
    tcx.instantiate_bound_regions_with_erased(sig)
}

pub fn describe_err<'tcx>(ecx: &Ecx<'tcx>, e: InterpErrorInfo<'tcx>) -> String {
    let mut s = format!("{}", e.kind());
    for fr in ecx.machine.stack.iter().rev().take(14) {
        let loc = ecx.tcx.sess.source_map().lookup_char_pos(fr.current_span().lo());
        s.push_str(&format!(
            "\n   in {} at {}:{}",
            key(*ecx.tcx, fr.instance().def_id()),
            loc.file.name.prefer_local_unconditionally(),
            loc.line
        ));
    }
    s
}

pub struct RootOut {
    pub name: String,
    pub status: String,
    pub data: Vec<(String, J)>,
}

pub fn events_json<'tcx>(ecx: &Ecx<'tcx>) -> J {
    J::A(
        ecx.machine
            .events
            .iter()
            .map(|e| {
                J::O(vec![
                    ("k".into(), s(&e.kind)),
                    ("v".into(), J::A(e.vals.iter().map(|&v| J::S(ecx.machine.st.show_norm_short(v))).collect())),
                    ("t".into(), s(&e.text)),
                    ("at".into(), s(&e.at)),
                    ("c".into(), J::A(e.vals.iter().flat_map(|&v| ecx.machine.st.cells(v)).map(J::S).collect())),
                ])
            })
            .collect(),
    )
}

pub fn stark_root<'tcx>(cx: &Cx<'tcx>, stark: &str, circuit: bool) -> RootOut {
    let tcx = cx.tcx;
    let m = if circuit { "eval_ext_circuit" } else { "eval_packed_generic" };
    let name = format!("{stark}::{m}");
    let mut ecx = new_ecx(tcx);
    if let Ok(v) = std::env::var(format!("VERIF_PERM_{stark}")) {
        ecx.machine.perm = Some(v.split(',').map(|x| x.parse().unwrap()).collect());
    }
    let d = match cx.find(&format!("{stark} as Stark::{m}")) {
        Ok(d) => d,
        Err(e) => return RootOut { name, status: e, data: vec![] },
    };
    let ga = cx.args(d, &[("D2", 1)]);
    let r = (|| -> InterpResult<'tcx, ()> {
        let inst = ty::Instance::expect_resolve(tcx, ty::TypingEnv::fully_monomorphized(), d, ga, rustc_span::DUMMY_SP);
        let sig = fn_sig(tcx, inst);
        let mut ops = vec![];
        for (i, &t) in sig.inputs().iter().enumerate() {
            let l = ecx.layout_of(t)?;
            let mp = ecx.allocate(l, MemoryKind::Machine(MK::Heap))?;
            let inner = match t.kind() {
                ty::Ref(_, inner, _) => *inner,
                _ => return stop("arg not ref"),
            };
            let il = ecx.layout_of(inner)?;
            let ip = ecx.allocate(il, MemoryKind::Machine(MK::Heap))?;
            let tn = adt_name(tcx, inner);
            if tn == "StarkFrame" {
                symbolize(&mut ecx, &ip.clone().into(), "")?;
            }
            let imm = ip.to_ref(&ecx);
            ecx.write_immediate(imm, &mp)?;
            ops.push(mp.into());
        }
        call(&mut ecx, inst, ops)?;
        interp_ok(())
    })();
    let status = match r.report_err() {
        Ok(()) => "ok".to_string(),
        Err(e) => describe_err(&ecx, e),
    };
    RootOut {
        name,
        status,
        data: vec![
            ("steps".into(), J::N(ecx.machine.steps as i128)),
            ("polyops".into(), J::N(ecx.machine.st.ops as i128)),
            ("events".into(), events_json(&ecx)),
        ],
    }
}

pub const STARKS: &[&str] = &[
    "ArithmeticStark",
    "BytePackingStark",
    "CpuStark",
    "KeccakStark",
    "KeccakSpongeStark",
    "LogicStark",
    "MemoryStark",
    "MemoryContinuationStark",
];

/// evaluate an argument-less (or `&self` of an uninspected type) function and print its result
pub fn value_root<'tcx>(cx: &Cx<'tcx>, name: &str, k: &str) -> RootOut {
    let tcx = cx.tcx;
    let mut ecx = new_ecx(tcx);
    let d = match cx.find(k) {
        Ok(d) => d,
        Err(e) => return RootOut { name: name.into(), status: e, data: vec![] },
    };
    let ga = cx.args(d, &[]);
    let r = (|| -> InterpResult<'tcx, J> {
        let inst = ty::Instance::expect_resolve(tcx, ty::TypingEnv::fully_monomorphized(), d, ga, rustc_span::DUMMY_SP);
        let sig = fn_sig(tcx, inst);
        let mut ops = vec![];
        for &t in sig.inputs().iter() {
            let l = ecx.layout_of(t)?;
            let mp = ecx.allocate(l, MemoryKind::Machine(MK::Heap))?;
            symbolize(&mut ecx, &mp.clone().into(), "self")?;
            ops.push(mp.into());
        }
        let out = call(&mut ecx, inst, ops)?;
        crate::reify::reify(&mut ecx, &out.into(), 0)
    })();
    let (status, v) = match r.report_err() {
        Ok(v) => ("ok".to_string(), v),
        Err(e) => (describe_err(&ecx, e), J::Null),
    };
    RootOut { name: name.into(), status, data: vec![("value".into(), v)] }
}

/// the (key, value) pairs a map-building function inserts
pub fn map_root<'tcx>(cx: &Cx<'tcx>, name: &str, k: &str) -> RootOut {
    let tcx = cx.tcx;
    let mut ecx = new_ecx(tcx);
    ecx.machine.lens.insert("@maps".into(), 1);
    let d = match cx.find(k) {
        Ok(d) => d,
        Err(e) => return RootOut { name: name.into(), status: e, data: vec![] },
    };
    let r = (|| -> InterpResult<'tcx, ()> {
        let inst = ty::Instance::expect_resolve(tcx, ty::TypingEnv::fully_monomorphized(), d, cx.args(d, &[]), rustc_span::DUMMY_SP);
        call(&mut ecx, inst, vec![])?;
        interp_ok(())
    })();
    let status = match r.report_err() {
        Ok(()) => "ok".to_string(),
        Err(e) => describe_err(&ecx, e),
    };
    let v = ecx.machine.events.iter().filter(|e| e.kind == "insert").map(|e| s(&e.text)).collect();
    RootOut { name: name.into(), status, data: vec![("value".into(), J::A(v))] }
}

/// names of the cells of a `#[repr(C)]` column view, in memory order
fn leaf_names<'tcx>(ecx: &Ecx<'tcx>, t: Ty<'tcx>, base: u64, name: &str, out: &mut Vec<(u64, String)>) {
    let tcx = *ecx.tcx;
    let l = match ecx.layout_of(t) {
        Ok(l) => l,
        Err(_) => return,
    };
    match t.kind() {
        ty::Adt(ad, args) if ad.is_union() => {
            for i in 0..l.size.bytes() {
                out.push((base + i, format!("{name}[{i}]")));
            }
        }
        ty::Adt(ad, args) => {
            for (i, f) in ad.non_enum_variant().fields.iter_enumerated() {
                let ft = f.ty(tcx, args).skip_normalization();
                let ft = tcx.normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), rustc_middle::ty::Unnormalized::new_wip(ft));
                let off = l.fields.offset(i.index()).bytes();
                let n = if name.is_empty() { f.name.to_string() } else { format!("{name}.{}", f.name) };
                leaf_names(ecx, ft, base + off, &n, out);
            }
        }
        ty::Array(e, n) => {
            let n = n.try_to_target_usize(tcx).unwrap();
            let sz = ecx.layout_of(*e).ok().unwrap().size.bytes();
            for i in 0..n {
                leaf_names(ecx, *e, base + i * sz, &format!("{name}[{i}]"), out);
            }
        }
        _ => out.push((base, name.to_string())),
    }
}

pub fn columns_root<'tcx>(cx: &Cx<'tcx>, view: &str) -> RootOut {
    let tcx = cx.tcx;
    let ecx = new_ecx(tcx);
    let mut found = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct) && tcx.item_name(d).as_str() == view {
            found.push(d);
        }
    }
    let name = format!("columns::{view}");
    if found.len() != 1 {
        return RootOut { name, status: format!("{} types named {view}", found.len()), data: vec![] };
    }
    let args = ty::GenericArgs::for_item(tcx, found[0], |_, _| tcx.types.u8.into());
    let t = Ty::new_adt(tcx, tcx.adt_def(found[0]), args);
    let mut out = vec![];
    leaf_names(&ecx, t, 0, "", &mut out);
    out.sort();
    let ok = out.iter().enumerate().all(|(i, x)| x.0 == i as u64);
    RootOut {
        name,
        status: if ok { "ok".into() } else { "overlapping or missing cells in view".into() },
        data: vec![("value".into(), J::A(out.into_iter().map(|x| J::S(x.1)).collect()))],
    }
}

pub fn const_root<'tcx>(cx: &Cx<'tcx>, name: &str) -> RootOut {
    let tcx = cx.tcx;
    let mut ecx = new_ecx(tcx);
    let mut found = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. })
            && key(tcx, d).ends_with(&format!("::{name}"))
        {
            found.push(d);
        }
    }
    let rn = format!("const::{name}");
    if found.len() != 1 {
        return RootOut { name: rn, status: format!("{} constants named {name}", found.len()), data: vec![] };
    }
    let d = found[0];
    let r = (|| -> InterpResult<'tcx, J> {
        if matches!(tcx.def_kind(d), DefKind::Static { .. }) {
            let id = tcx.reserve_and_set_static_alloc(d);
            let p = ecx.global_root_pointer(rustc_const_eval::interpret::Pointer::new(id.into(), rustc_abi::Size::ZERO))?;
            let t = tcx.type_of(d).instantiate_identity().skip_normalization();
            let l = ecx.layout_of(t)?;
            let mp = ecx.ptr_to_mplace(p.into(), l);
            return crate::reify::reify(&mut ecx, &mp.into(), 0);
        }
        let cv = match tcx.const_eval_poly(d) {
            Ok(v) => v,
            Err(_) => return stop("const eval failed"),
        };
        let t = tcx.type_of(d).instantiate_identity().skip_normalization();
        let l = ecx.layout_of(t)?;
        let op = ecx.eval_mir_constant(&rustc_middle::mir::Const::Val(cv, t), rustc_span::DUMMY_SP, Some(l))?;
        crate::reify::reify(&mut ecx, &op, 0)
    })();
    let (status, v) = match r.report_err() {
        Ok(v) => ("ok".to_string(), v),
        Err(e) => (describe_err(&ecx, e), J::Null),
    };
    RootOut { name: rn, status, data: vec![("value".into(), v)] }
}

pub fn enum_root<'tcx>(cx: &Cx<'tcx>, name: &str) -> RootOut {
    let tcx = cx.tcx;
    let rn = format!("enum::{name}");
    let mut found = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Enum) && key(tcx, d).ends_with(&format!("::{name}")) {
            found.push(d);
        }
    }
    if found.len() != 1 {
        return RootOut { name: rn, status: format!("{} enums named {name}", found.len()), data: vec![] };
    }
    let ad = tcx.adt_def(found[0]);
    let mut v = vec![];
    for (vi, dis) in ad.discriminants(tcx) {
        v.push((ad.variant(vi).name.to_string(), J::N(dis.val as i128)));
    }
    RootOut { name: rn, status: "ok".into(), data: vec![("value".into(), J::O(v))] }
}

fn want(only: &str, n: &str) -> bool {
    only.is_empty() || only.split(',').any(|o| o.strip_suffix('$').map_or(n.starts_with(o), |x| n == x))
}

pub fn run_all<'tcx>(tcx: TyCtxt<'tcx>) {
    let out = std::env::var("VERIF_OUT").unwrap_or("/tmp/verif_out.json".into());
    let only = std::env::var("VERIF_ROOTS").unwrap_or_default();
    let cx = Cx::new(tcx);
    let mut res = vec![];
    let mut add = |n: String, f: &dyn Fn() -> RootOut| {
        if !want(&only, &n) {
            return;
        }
        let t = std::time::Instant::now();
        let r = f();
        eprintln!("[verif] {} {} {:?}", r.name, r.status, t.elapsed());
        res.push(r);
    };
    for sname in STARKS {
        for c in [false, true] {
            let n = format!("{sname}::{}", if c { "eval_ext_circuit" } else { "eval_packed_generic" });
            add(n.clone(), &|| stark_root(&cx, sname, c));
        }
        for m in ["lookups", "requires_ctls", "constraint_degree", "num_lookup_helper_columns", "uses_lookups"] {
            let n = format!("{sname}::{m}");
            if m == "lookups" || cx.find(&format!("{sname} as Stark::{m}")).is_ok() {
                add(n.clone(), &|| value_root(&cx, &n, &format!("{sname} as Stark::{m}")));
            }
        }
    }
    for v in ["CpuColumnsView", "KeccakSpongeColumnsView"] {
        add(format!("columns::{v}"), &|| columns_root(&cx, v));
    }
    add("opcodes".into(), &|| crate::opcodes::opcodes_root(&cx));
    add("mnemonics".into(), &|| crate::opcodes::mnemonics_root(&cx));
    add("views".into(), &|| crate::views::views_root(&cx));
    add("all_cross_table_lookups".into(), &|| value_root(&cx, "all_cross_table_lookups", "all_stark::all_cross_table_lookups"));
    for c in ["all_stark::NUM_TABLES", "all_stark::NUM_CTLS", "all_stark::MEMORY_CTL_IDX", "all_stark::OPTIONAL_TABLE_INDICES"] {
        add(format!("const::{c}"), &|| const_root(&cx, c));
    }
    add("const::KERNEL_FILES".into(), &|| const_root(&cx, "aggregator::KERNEL_FILES"));
    add("kernel_constants".into(), &|| map_root(&cx, "kernel_constants", "kernel::constants::evm_constants"));
    add("enum::all_stark::Table".into(), &|| enum_root(&cx, "all_stark::Table"));
    add("verify".into(), &|| crate::verify::verify_root(&cx));
    crate::circuits::run(&cx, &mut add);
    crate::harness::run(&cx, &mut add);
    let j = J::O(
        res.into_iter()
            .map(|r| {
                let mut v = vec![("status".to_string(), s(&r.status))];
                v.extend(r.data);
                (r.name, J::O(v))
            })
            .collect(),
    );
    let mut o = String::new();
    j.write(&mut o);
    std::fs::write(out, o).unwrap();
}
