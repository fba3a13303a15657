//! Abstract machine over MIR: constant propagation with field elements in the
//! polynomial normal-form domain of poly.rs.
use crate::hooks;
use crate::poly::Store;
use rustc_abi::{Align, Size};
use crate::prov::*;
use rustc_hir::def_id::DefId;
use rustc_middle::mir;
use rustc_middle::mir::interpret::{AllocBytes, CTFE_ALLOC_SALT, ConstAllocation};
use rustc_middle::query::TyCtxtAt;
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, AtomicOrdering, Ty};
use rustc_target::callconv::FnAbi;
use std::borrow::Cow;
use std::collections::HashMap;

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub enum MK {
    Heap,
    Global,
}
impl std::fmt::Display for MK {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl MayLeak for MK {
    fn may_leak(self) -> bool {
        true
    }
}

pub struct Stop(pub String);
impl std::fmt::Debug for Stop {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::fmt::Display for Stop {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl MachineStopType for Stop {}

pub fn stop<'tcx, T>(m: impl Into<String>) -> InterpResult<'tcx, T> {
    Err(InterpErrorKind::MachineStop(Box::new(Stop(m.into())))).into()
}

#[derive(Clone)]
pub struct Event {
    pub kind: String,
    pub vals: Vec<u64>,
    pub text: String,
    pub at: String,
}

pub struct Mach<'tcx> {
    pub stack: Vec<Frame<'tcx>>,
    pub st: Store,
    pub events: Vec<Event>,
    pub fresh: HashMap<String, usize>,
    pub tagged: Vec<String>,
    pub hookcache: rustc_data_structures::fx::FxHashMap<DefId, Option<(hooks::Hook, &'static str)>>,
    pub steps: u64,
    pub trace: bool,
    pub lens: HashMap<String, u64>,
    pub ints: HashMap<String, u128>,
    pub variants: HashMap<String, String>,
    /// number of 32-bit words of wide integer fields
    pub widths: HashMap<String, u64>,
    /// names of 32-bit words of symbolic integers
    pub labels: Vec<String>,
    pub transcript: Vec<(String, Vec<u64>)>,
    pub pis: Vec<u64>,
    pub nvirt: usize,
    pub nchal: usize,
    pub nread: usize,
    pub objnames: HashMap<u64, String>,
    pub objs: HashMap<String, MPlaceTy<'tcx>>,
    /// items written to a byte buffer and not read back yet
    pub buffer: std::collections::VecDeque<(String, Vec<u64>, Option<OpTy<'tcx>>)>,
    pub unknown_branches: Vec<String>,
    pub root: hooks::RootState,
    pub perm: Option<Vec<usize>>,
    pub kernel: Option<MPlaceTy<'tcx>>,
    /// what recursive calls of the analysed functions return: "err", "none" or "some", with values by type
    pub oracle: Option<(String, Vec<MPlaceTy<'tcx>>)>,
    /// destructors run
    pub drops: bool,
    /// functions of the harness that stand for library functions (by key)
    pub instead: Vec<(String, DefId)>,
    pub insteadcache: rustc_data_structures::fx::FxHashMap<DefId, Option<DefId>>,
    pub bases: std::cell::RefCell<rustc_data_structures::fx::FxHashMap<AllocId, u64>>,
    /// whether a function is that of the standard library that makes upper case
    pub uppercase: rustc_data_structures::fx::FxHashMap<DefId, bool>,
    pub allocs: std::cell::RefCell<Vec<AllocId>>,
}

pub type Ecx<'tcx> = InterpCx<'tcx, Mach<'tcx>>;

fn base<'tcx>(e: &Ecx<'tcx>, id: AllocId) -> u64 {
    let mut m = e.machine.bases.borrow_mut();
    let n = m.len() as u64 + 1;
    *m.entry(id).or_insert_with(|| {
        e.machine.allocs.borrow_mut().push(id);
        n << 32
    })
}

impl<'tcx> Machine<'tcx> for Mach<'tcx> {
    type Provenance = Prov;
    type ProvenanceExtra = ();
    type ExtraFnVal = !;
    type MemoryKind = MK;
    type MemoryMap = MonoMap<AllocId, (MemoryKind<MK>, Allocation)>;
    const GLOBAL_KIND: Option<MK> = Some(MK::Global);
    const PANIC_ON_ALLOC_FAIL: bool = true;
    const ALL_CONSTS_ARE_PRECHECKED: bool = false;
    type AllocExtra = ();
    type FrameExtra = ();
    type Bytes = Box<[u8]>;

    fn ignore_optional_overflow_checks(_e: &Ecx<'tcx>) -> bool {
        false
    }
    fn unwind_terminate(_e: &mut Ecx<'tcx>, _r: mir::UnwindTerminateReason) -> InterpResult<'tcx> {
        stop("unwind terminate")
    }
    fn check_fn_target_features(_e: &Ecx<'tcx>, _i: ty::Instance<'tcx>) -> InterpResult<'tcx> {
        interp_ok(())
    }
    fn call_extra_fn(
        _e: &mut Ecx<'tcx>,
        fn_val: !,
        _abi: &FnAbi<'tcx, Ty<'tcx>>,
        _args: &[FnArg<'tcx>],
        _d: &PlaceTy<'tcx>,
        _t: Option<mir::BasicBlock>,
        _u: mir::UnwindAction,
    ) -> InterpResult<'tcx> {
        match fn_val {}
    }
    fn float_fuse_mul_add(_e: &Ecx<'tcx>) -> bool {
        true
    }
    fn atomic_load(e: &Ecx<'tcx>, p: &MPlaceTy<'tcx>, _o: AtomicOrdering) -> InterpResult<'tcx, Scalar> {
        e.read_scalar(p)
    }
    fn atomic_store(
        e: &mut Ecx<'tcx>,
        p: &MPlaceTy<'tcx>,
        v: &ImmTy<'tcx>,
        _o: AtomicOrdering,
    ) -> InterpResult<'tcx> {
        e.write_scalar(v.to_scalar(), p)
    }
    fn atomic_rmw(
        e: &mut Ecx<'tcx>,
        p: &MPlaceTy<'tcx>,
        op: AtomicRmwOp,
        operand: &ImmTy<'tcx>,
        _o: AtomicOrdering,
    ) -> InterpResult<'tcx, Scalar> {
        let old = e.read_immediate(p)?;
        let new = e.atomic_rmw_op(op, &old, operand)?;
        e.write_immediate(*new, p)?;
        interp_ok(old.to_scalar())
    }
    fn atomic_compare_exchange(
        e: &mut Ecx<'tcx>,
        p: &MPlaceTy<'tcx>,
        expected: &ImmTy<'tcx>,
        new: &ImmTy<'tcx>,
        _w: bool,
        _s: AtomicOrdering,
        _f: AtomicOrdering,
    ) -> InterpResult<'tcx, (Scalar, bool)> {
        let old = e.read_immediate(p)?;
        let eq = e.binary_op(mir::BinOp::Eq, &old, expected)?.to_scalar().to_bool()?;
        if eq {
            e.write_immediate(**new, p)?;
        }
        interp_ok((old.to_scalar(), eq))
    }
    fn atomic_fence(_e: &Ecx<'tcx>, _o: AtomicOrdering, _s: bool) -> InterpResult<'tcx> {
        interp_ok(())
    }
    fn adjust_global_allocation<'b>(
        e: &Ecx<'tcx>,
        _id: AllocId,
        alloc: &'b TcxAllocation,
    ) -> InterpResult<'tcx, Cow<'b, Allocation>> {
        let a = alloc.adjust_from_tcx(&e.tcx.tcx, |b, _| interp_ok(b.to_vec().into_boxed_slice()), |p| e.global_root_pointer(p))?;
        interp_ok(Cow::Owned(a))
    }
    fn init_local_allocation(
        _e: &Ecx<'tcx>,
        _id: AllocId,
        _k: MemoryKind<MK>,
        _s: Size,
        _a: Align,
    ) -> InterpResult<'tcx, ()> {
        interp_ok(())
    }
    fn extern_static_pointer(e: &Ecx<'tcx>, def_id: DefId) -> InterpResult<'tcx, Pointer> {
        let id = e.tcx.reserve_and_set_static_alloc(def_id);
        interp_ok(Pointer::new(Prov(id), Size::from_bytes(base(e, id))))
    }
    fn adjust_alloc_root_pointer(
        e: &Ecx<'tcx>,
        ptr: TcxPointer,
        _k: Option<MemoryKind<MK>>,
    ) -> InterpResult<'tcx, Pointer> {
        let (prov, off) = ptr.prov_and_relative_offset();
        let id = prov.alloc_id();
        interp_ok(Pointer::new(Prov(id), Size::from_bytes(base(e, id) + off.bytes())))
    }
    fn ptr_from_addr_cast(e: &Ecx<'tcx>, addr: u64) -> InterpResult<'tcx, OptPointer> {
        // bases are multiples of 2^32
        let n = (addr >> 32) as usize;
        if let Some(id) = n.checked_sub(1).and_then(|n| e.machine.allocs.borrow().get(n).copied()) {
            return interp_ok(OptPointer::new(Some(Prov(id)), Size::from_bytes(addr)));
        }
        interp_ok(OptPointer::without_provenance(addr))
    }
    fn ptr_get_alloc(e: &Ecx<'tcx>, ptr: Pointer, _size: i64) -> Option<(AllocId, Size, ())> {
        let (prov, addr) = ptr.into_raw_parts();
        let rel = addr.bytes().wrapping_sub(base(e, prov.0));
        Some((prov.0, Size::from_bytes(rel & ((1 << 40) - 1)), ()))
    }
    fn get_global_alloc_salt(_e: &Ecx<'tcx>, _i: Option<ty::Instance<'tcx>>) -> usize {
        CTFE_ALLOC_SALT
    }
    fn enforce_alignment(_e: &Ecx<'tcx>) -> bool {
        false
    }
    fn enforce_validity(_e: &Ecx<'tcx>, _l: TyAndLayout<'tcx>) -> bool {
        false
    }

    fn find_mir_or_eval_fn(
        ecx: &mut Ecx<'tcx>,
        instance: ty::Instance<'tcx>,
        _abi: &FnAbi<'tcx, Ty<'tcx>>,
        args: &[FnArg<'tcx>],
        dest: &PlaceTy<'tcx>,
        ret: Option<mir::BasicBlock>,
        _unwind: mir::UnwindAction,
    ) -> InterpResult<'tcx, Option<(&'tcx mir::Body<'tcx>, ty::Instance<'tcx>)>> {
        if let ty::InstanceKind::Shim(ty::ShimKind::DropGlue(_, t)) = instance.def {
            // destructors with an effect on live data run, those of (possibly symbolic) values do not
            let tcx = *ecx.tcx;
            let effect = ecx.machine.drops || t.is_some_and(|t| {
                t.walk().any(|g| match g.as_type().map(|t| t.kind()) {
                    Some(ty::Adt(ad, _)) => {
                        let n = tcx.item_name(ad.did());
                        n.as_str().contains("OnDrop") || n.as_str().contains("Drain") || n.as_str().contains("Guard")
                    }
                    _ => false,
                })
            });
            if !effect {
                ecx.return_to_block(ret)?;
                return interp_ok(None);
            }
        }
        if let ty::InstanceKind::Item(def_id) = instance.def {
            if ecx.machine.oracle.is_some() && crate::harness::cut(ecx, def_id, args, dest)? {
                ecx.return_to_block(ret)?;
                return interp_ok(None);
            }
            if let Some(r) = crate::harness::instead(ecx, def_id) {
                let inst = ty::Instance::expect_resolve(*ecx.tcx, ty::TypingEnv::fully_monomorphized(), r, instance.args, rustc_span::DUMMY_SP);
                return interp_ok(Some((ecx.load_mir(inst.def, None)?, inst)));
            }
            if let Some((h, name)) = hooks::lookup(ecx, def_id) {
                let a: Vec<OpTy<'tcx>> = args.iter().map(|x| x.copy_fn_arg()).collect();
                if hooks::run(ecx, h, name, instance, &a, dest)? {
                    ecx.return_to_block(ret)?;
                    return interp_ok(None);
                }
            }
            if ecx.machine.trace {
                eprintln!("{}call {}", " ".repeat(ecx.machine.stack.len()), instance);
            }
            if ecx.tcx.is_foreign_item(def_id) {
                return stop(format!("foreign fn {}", ecx.tcx.def_path_str(def_id)));
            }
            if let rustc_hir::def::DefKind::Ctor(..) = ecx.tcx.def_kind(def_id) {
                // tuple constructor used as a function value
                let ad = match dest.layout.ty.kind() {
                    ty::Adt(ad, _) => *ad,
                    _ => return stop("constructor of a non-ADT"),
                };
                let vi = ad.variant_index_with_ctor_id(def_id);
                let dd = if ad.is_enum() { ecx.project_downcast(dest, vi)? } else { dest.clone() };
                for (i, x) in args.iter().enumerate() {
                    let q = ecx.project_field(&dd, rustc_abi::FieldIdx::from_usize(i))?;
                    ecx.copy_op(&x.copy_fn_arg(), &q)?;
                }
                ecx.write_discriminant(vi, dest)?;
                ecx.return_to_block(ret)?;
                return interp_ok(None);
            }
            let tcx = *ecx.tcx;
            if *ecx.machine.uppercase.entry(def_id).or_insert_with(|| tcx.def_path_str(def_id).ends_with("str::<impl str>::to_uppercase")) {
                // arguments are upper-case already: a copy
                let tcx = *ecx.tcx;
                let tr = tcx.all_traits_including_private().find(|t| tcx.def_path_str(*t).ends_with("borrow::ToOwned"));
                if let Some(tr) = tr {
                    let m = tcx.associated_items(tr).in_definition_order().find(|i| i.name().as_str() == "to_owned").unwrap().def_id;
                    let args = tcx.mk_args(&[tcx.types.str_.into()]);
                    let inst = ty::Instance::expect_resolve(tcx, ty::TypingEnv::fully_monomorphized(), m, args, rustc_span::DUMMY_SP);
                    return interp_ok(Some((ecx.load_mir(inst.def, None)?, inst)));
                }
            }
            if !ecx.tcx.is_mir_available(def_id) {
                return stop(format!("no MIR for {}", ecx.tcx.def_path_str(def_id)));
            }
        }
        interp_ok(Some((ecx.load_mir(instance.def, None)?, instance)))
    }

    fn panic_nounwind(_e: &mut Ecx<'tcx>, msg: &str) -> InterpResult<'tcx> {
        stop(format!("panic (nounwind): {msg}"))
    }

    fn call_intrinsic(
        ecx: &mut Ecx<'tcx>,
        instance: ty::Instance<'tcx>,
        args: &[OpTy<'tcx>],
        dest: &PlaceTy<'tcx>,
        target: Option<mir::BasicBlock>,
        _unwind: mir::UnwindAction,
    ) -> InterpResult<'tcx, Option<ty::Instance<'tcx>>> {
        if ecx.eval_intrinsic(instance, args, dest, target)? {
            return interp_ok(None);
        }
        let name = ecx.tcx.item_name(instance.def_id());
        match name.as_str() {
            "ptr_guaranteed_cmp" => {
                let a = ecx.read_scalar(&args[0])?;
                let b = ecx.read_scalar(&args[1])?;
                ecx.write_scalar(Scalar::from_u8((a == b) as u8), dest)?;
            }
            "is_val_statically_known" => ecx.write_scalar(Scalar::from_bool(false), dest)?,
            "const_allocate" | "const_deallocate" | "const_make_global" => {
                return stop(format!("intrinsic {name}"));
            }
            "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => {}
            "catch_unwind" => return stop("catch_unwind"),
            _ => {
                if ecx.tcx.intrinsic(instance.def_id()).unwrap().must_be_overridden {
                    return stop(format!("intrinsic {name} unsupported"));
                }
                return interp_ok(Some(ty::Instance {
                    def: ty::InstanceKind::Item(instance.def_id()),
                    args: instance.args,
                }));
            }
        }
        ecx.return_to_block(target)?;
        interp_ok(None)
    }

    fn call_llvm_intrinsic(
        ecx: &mut Ecx<'tcx>,
        instance: ty::Instance<'tcx>,
        args: &[OpTy<'tcx>],
        dest: &PlaceTy<'tcx>,
        t: Option<mir::BasicBlock>,
    ) -> InterpResult<'tcx> {
        if ecx.tcx.codegen_fn_attrs(instance.def_id()).symbol_name.is_some_and(|n| n.as_str() == "llvm.x86.sse2.pmovmskb.128") {
            // the sign bits of 16 bytes
            let (v, n) = ecx.project_to_simd(&args[0])?;
            let mut r = 0u32;
            for i in 0..n {
                let e = ecx.project_index(&v, i)?;
                r |= (((ecx.read_scalar(&e)?.to_i8()? as u8) >> 7) as u32) << i;
            }
            ecx.write_scalar(Scalar::from_u32(r), dest)?;
            return ecx.return_to_block(t);
        }
        stop(format!("llvm intrinsic {}", ecx.tcx.def_path_str(instance.def_id())))
    }

    fn assert_panic(
        ecx: &mut Ecx<'tcx>,
        msg: &mir::AssertMessage<'tcx>,
        _unwind: mir::UnwindAction,
    ) -> InterpResult<'tcx> {
        let m = format!("{:?}", msg).chars().take(80).collect::<String>();
        let mut extra = String::new();
        if let mir::AssertKind::BoundsCheck { len, index } = msg {
            let l = ecx.eval_operand(len, None)?;
            let i = ecx.eval_operand(index, None)?;
            let l = ecx.read_target_usize(&l)?;
            let i = ecx.read_target_usize(&i)?;
            extra = format!(" index {i} len {l}");
        }
        stop(format!("panic: {m}{extra}"))
    }

    fn runtime_checks(_e: &Ecx<'tcx>, r: mir::RuntimeChecks) -> InterpResult<'tcx, bool> {
        interp_ok(match r {
            mir::RuntimeChecks::OverflowChecks => true,
            _ => false,
        })
    }

    fn binary_ptr_op(
        ecx: &Ecx<'tcx>,
        op: mir::BinOp,
        left: &ImmTy<'tcx>,
        right: &ImmTy<'tcx>,
    ) -> InterpResult<'tcx, ImmTy<'tcx>> {
        use mir::BinOp::*;
        let key = |i: &ImmTy<'tcx>| -> InterpResult<'tcx, Vec<u64>> {
            let f = |s: Scalar| -> InterpResult<'tcx, u64> { interp_ok(s.to_pointer(ecx).addr().bytes()) };
            interp_ok(match **i {
                Immediate::Scalar(s) => vec![f(s)?],
                Immediate::ScalarPair(a, b) => vec![f(a)?, f(b)?],
                Immediate::Uninit => vec![],
            })
        };
        let (l, r) = (key(left)?, key(right)?);
        let res = match op {
            Eq => l == r,
            Ne => l != r,
            Lt => l < r,
            Le => l <= r,
            Gt => l > r,
            Ge => l >= r,
            _ => return stop(format!("pointer op {op:?}")),
        };
        interp_ok(ImmTy::from_bool(res, *ecx.tcx))
    }

    fn expose_provenance(_e: &Ecx<'tcx>, _p: Prov) -> InterpResult<'tcx> {
        interp_ok(())
    }
    fn init_frame(_e: &mut Ecx<'tcx>, frame: Frame<'tcx>) -> InterpResult<'tcx, Frame<'tcx>> {
        interp_ok(frame)
    }
    fn stack<'a>(e: &'a Ecx<'tcx>) -> &'a [Frame<'tcx>] {
        &e.machine.stack
    }
    fn stack_mut<'a>(e: &'a mut Ecx<'tcx>) -> &'a mut Vec<Frame<'tcx>> {
        &mut e.machine.stack
    }
    fn before_access_global(
        _t: TyCtxtAt<'tcx>,
        _m: &Self,
        _a: AllocId,
        _c: ConstAllocation<'tcx>,
        _s: Option<DefId>,
        _w: bool,
    ) -> InterpResult<'tcx> {
        interp_ok(())
    }
    fn get_default_alloc_params(&self) -> <Self::Bytes as AllocBytes>::AllocParams {}
}
