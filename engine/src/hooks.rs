//! Transfer functions for the operations the abstract domain interprets itself.
use crate::machine::*;
use crate::poly::{self, P};
use rustc_abi::FieldIdx;
use rustc_abi::VariantIdx;
use crate::prov::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Ty, TyCtxt};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hook {
    Add,
    Sub,
    Mul,
    Neg,
    AddAssign,
    SubAssign,
    MulAssign,
    FromU,
    FromI,
    FeEq,
    FeInv,
    FeCanon,
    FeSquare,
    FeMulAcc,
    Constr(&'static str),
    RConstr(&'static str),
    ArithExt,
    ConstExt,
    Panic,
    QuadMul,
    QuadSquare,
    AddVirtual(&'static str),
    ConstantTgt,
    BArith,
    Skip,
    Custom(&'static str),
}

#[derive(Default)]
pub struct RootState {}

pub fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    if tcx.is_foreign_item(d) {
        return format!("foreign::{}", tcx.item_name(d));
    }
    let name = match tcx.opt_item_name(d) {
        Some(n) => n.to_string(),
        None => "{}".to_string(),
    };
    if let Some(p) = tcx.opt_parent(d) {
        match tcx.def_kind(p) {
            DefKind::Impl { .. } => {
                let st = tcx.type_of(p).instantiate_identity().skip_normalization();
                let sn = match st.kind() {
                    ty::Adt(a, _) => tcx.item_name(a.did()).to_string(),
                    _ => format!("{st}"),
                };
                if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                    let tr = tr.skip_binder();
                    return format!("{sn} as {}::{name}", tcx.item_name(tr.def_id));
                }
                return format!("{sn}::{name}");
            }
            DefKind::Trait => return format!("trait {}::{name}", tcx.item_name(p)),
            _ => {}
        }
    }
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

fn classify(k: &str) -> Option<Hook> {
    use Hook::*;
    Some(match k {
        "GoldilocksField as Add::add" => Add,
        "GoldilocksField as Sub::sub" => Sub,
        "GoldilocksField as Mul::mul" => Mul,
        "GoldilocksField as Neg::neg" => Neg,
        "GoldilocksField as AddAssign::add_assign" => AddAssign,
        "GoldilocksField as SubAssign::sub_assign" => SubAssign,
        "GoldilocksField as MulAssign::mul_assign" => MulAssign,
        "GoldilocksField as Field::from_canonical_u64"
        | "GoldilocksField as Field::from_noncanonical_u64"
        | "GoldilocksField as Field::from_noncanonical_u96"
        | "GoldilocksField as Field::from_noncanonical_u128" => FromU,
        "GoldilocksField as Field::from_noncanonical_i64" => FromI,
        "GoldilocksField as PartialEq::eq" => FeEq,
        "GoldilocksField as Field::try_inverse" => FeInv,
        "GoldilocksField as PrimeField64::to_canonical_u64" | "GoldilocksField as PrimeField64::to_noncanonical_u64" => FeCanon,
        "GoldilocksField as Square::square" => FeSquare,
        "GoldilocksField as Field::multiply_accumulate" => FeMulAcc,
        "ConstraintConsumer::constraint" => Constr("all"),
        "ConstraintConsumer::constraint_transition" => Constr("transition"),
        "ConstraintConsumer::constraint_first_row" => Constr("first"),
        "ConstraintConsumer::constraint_last_row" => Constr("last"),
        "RecursiveConstraintConsumer::constraint" => RConstr("all"),
        "RecursiveConstraintConsumer::constraint_transition" => RConstr("transition"),
        "RecursiveConstraintConsumer::constraint_first_row" => RConstr("first"),
        "RecursiveConstraintConsumer::constraint_last_row" => RConstr("last"),
        "CircuitBuilder::arithmetic_extension" => ArithExt,
        "CircuitBuilder::constant_extension" => ConstExt,
        "CircuitBuilder::constant" => ConstantTgt,
        "CircuitBuilder::arithmetic" => BArith,
        "QuadraticExtension as Mul::mul" => QuadMul,
        "QuadraticExtension as Square::square" => QuadSquare,
        "core::panicking::panic_fmt"
        | "core::panicking::panic"
        | "std::rt::begin_panic"
        | "core::panicking::panic_nounwind"
        | "core::panicking::assert_failed"
        | "core::panicking::panic_display"
        | "core::panicking::panic_bounds_check"
        | "core::result::unwrap_failed"
        | "core::option::expect_failed"
        | "core::option::unwrap_failed"
        | "core::slice::index::slice_index_fail" => Panic,
        "foreign::__rust_alloc" | "foreign::__rust_alloc_zeroed" | "foreign::__rust_realloc"
        | "foreign::__rust_dealloc" => Custom("alloc"),
        "foreign::__rust_no_alloc_shim_is_unstable_v2" => Skip,
        _ => return crate::hooks2::classify(k),
    })
}

pub fn lookup<'tcx>(ecx: &mut Ecx<'tcx>, d: DefId) -> Option<(Hook, &'static str)> {
    if let Some(h) = ecx.machine.hookcache.get(&d) {
        return *h;
    }
    let k = key(*ecx.tcx, d);
    let h = classify(&k).map(|h| (h, &*Box::leak(k.into_boxed_str())));
    ecx.machine.hookcache.insert(d, h);
    h
}

pub fn f0<'tcx>(ecx: &Ecx<'tcx>, op: &OpTy<'tcx>, i: usize) -> InterpResult<'tcx, OpTy<'tcx>> {
    ecx.project_field(op, FieldIdx::from_usize(i))
}

pub fn is_gold<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
    matches!(t.kind(), ty::Adt(a, _) if tcx.item_name(a.did()).as_str() == "GoldilocksField")
}
pub fn adt_name<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(a, _) => tcx.item_name(a.did()).to_string(),
        _ => String::new(),
    }
}

/// read a field element (any newtype around a u64 whose single field is the raw value)
pub fn rd<'tcx>(ecx: &Ecx<'tcx>, op: &OpTy<'tcx>) -> InterpResult<'tcx, u64> {
    let f = f0(ecx, op, 0)?;
    let v = ecx.read_scalar(&f)?.to_u64()?;
    if !ecx.machine.st.valid(v) {
        return stop(format!("invalid element {v:#x}"));
    }
    interp_ok(v)
}
pub fn wr<'tcx>(ecx: &mut Ecx<'tcx>, d: &PlaceTy<'tcx>, v: u64) -> InterpResult<'tcx> {
    let f = ecx.project_field(d, FieldIdx::from_usize(0))?;
    ecx.write_scalar(Scalar::from_u64(v), &f)
}
pub fn rd_target<'tcx>(ecx: &Ecx<'tcx>, op: &OpTy<'tcx>) -> InterpResult<'tcx, u64> {
    let v = ecx.read_discriminant(op)?;
    if v.as_usize() != 1 {
        return stop("wire target");
    }
    let d = ecx.project_downcast(op, VariantIdx::from_usize(1))?;
    let f = f0(ecx, &d, 0)?;
    let raw = ecx.read_target_usize(&f)?;
    if !ecx.machine.st.valid(raw) {
        return stop(format!("invalid target element {raw:#x}"));
    }
    interp_ok(raw)
}
pub fn wr_target<'tcx>(ecx: &mut Ecx<'tcx>, d: &PlaceTy<'tcx>, v: u64) -> InterpResult<'tcx> {
    let vi = VariantIdx::from_usize(1);
    let dd = ecx.project_downcast(d, vi)?;
    let f = ecx.project_field(&dd, FieldIdx::from_usize(0))?;
    ecx.write_scalar(Scalar::from_u64(v), &f)?;
    ecx.write_discriminant(vi, d)
}
/// ExtensionTarget([Target; 2])
pub fn rd_ext<'tcx>(ecx: &mut Ecx<'tcx>, op: &OpTy<'tcx>) -> InterpResult<'tcx, u64> {
    let arr = f0(ecx, op, 0)?;
    let a = ecx.project_index(&arr, 0)?;
    let b = ecx.project_index(&arr, 1)?;
    let a = rd_target(ecx, &a)?;
    let b = rd_target(ecx, &b)?;
    interp_ok(comb(ecx, a, b))
}
fn comb<'tcx>(ecx: &mut Ecx<'tcx>, a: u64, b: u64) -> u64 {
    if b == 0 {
        return a;
    }
    let x = ecx.machine.st.atom("EXT_X");
    let t = ecx.machine.st.mul(x, b);
    ecx.machine.st.add(a, t)
}
pub fn wr_ext<'tcx>(ecx: &mut Ecx<'tcx>, d: &PlaceTy<'tcx>, v: u64) -> InterpResult<'tcx> {
    let arr = ecx.project_field(d, FieldIdx::from_usize(0))?;
    let a = ecx.project_index(&arr, 0)?;
    let b = ecx.project_index(&arr, 1)?;
    wr_target(ecx, &a, v)?;
    wr_target(ecx, &b, 0)
}
/// QuadraticExtension<Goldilocks>([F; 2])  -> raw
pub fn rd_quad<'tcx>(ecx: &mut Ecx<'tcx>, op: &OpTy<'tcx>) -> InterpResult<'tcx, (u64, u64)> {
    let arr = f0(ecx, op, 0)?;
    let a = ecx.project_index(&arr, 0)?;
    let b = ecx.project_index(&arr, 1)?;
    interp_ok((rd(ecx, &a)?, rd(ecx, &b)?))
}

pub fn deref<'tcx>(ecx: &Ecx<'tcx>, op: &OpTy<'tcx>) -> InterpResult<'tcx, OpTy<'tcx>> {
    interp_ok(ecx.deref_pointer(op)?.into())
}

/// Where in the analysed source the current operation is: innermost frames first.
pub fn at<'tcx>(ecx: &Ecx<'tcx>) -> String {
    let tcx = *ecx.tcx;
    let mut v = vec![];
    for fr in ecx.machine.stack.iter().rev() {
        let inst = fr.instance();
        let d = inst.def_id();
        let cn = tcx.crate_name(d.krate);
        let cn = cn.as_str();
        if cn != "evm_arithmetization" && cn != "starky" && cn != "plonky2" {
            continue;
        }
        let sp = fr.current_span();
        let loc = tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
        let file = format!("{}", loc.file.name.prefer_local_unconditionally());
        let file = file.rsplit("evm_arithmetization/src/").next().unwrap_or("").to_string();
        let file = file.rsplit("index.crates.io-6f17d22bba15001f/").next().unwrap_or("").to_string();
        v.push(format!("{}@{}:{}", key(tcx, d), file, loc.line));
        if v.len() >= 6 {
            break;
        }
    }
    v.join(" < ")
}

pub fn event<'tcx>(ecx: &mut Ecx<'tcx>, kind: &str, vals: Vec<u64>, text: String) {
    let at = at(ecx);
    if ecx.machine.trace {
        eprintln!("event {kind} {at}");
    }
    ecx.machine.events.push(Event { kind: kind.into(), vals, text, at });
}

pub fn panic_message<'tcx>(ecx: &mut Ecx<'tcx>, args: &[OpTy<'tcx>]) -> String {
    // best effort: print &str argument
    for a in args {
        if let ty::Ref(_, t, _) = a.layout.ty.kind() {
            if t.is_str() {
                if let Ok(mp) = ecx.deref_pointer(a).report_err() {
                    if let Ok(s) = ecx.read_str(&mp).report_err() {
                        return s.to_string();
                    }
                }
            }
        }
    }
    "<formatted>".into()
}

pub fn run<'tcx>(
    ecx: &mut Ecx<'tcx>,
    h: Hook,
    name: &'static str,
    instance: ty::Instance<'tcx>,
    args: &[OpTy<'tcx>],
    dest: &PlaceTy<'tcx>,
) -> InterpResult<'tcx, bool> {
    use Hook::*;
    macro_rules! st {
        () => {
            ecx.machine.st
        };
    }
    match h {
        Add | Sub | Mul => {
            let a = rd(ecx, &args[0])?;
            // operands of the same field only (GoldilocksField: Add<Self>)
            if !is_gold(*ecx.tcx, args[1].layout.ty) {
                return interp_ok(false);
            }
            let b = rd(ecx, &args[1])?;
            let r = match h {
                Add => st!().add(a, b),
                Sub => st!().sub(a, b),
                _ => st!().mul(a, b),
            };
            wr(ecx, dest, r)?;
        }
        Neg => {
            let a = rd(ecx, &args[0])?;
            let r = st!().neg(a);
            wr(ecx, dest, r)?;
        }
        AddAssign | SubAssign | MulAssign => {
            let p = ecx.deref_pointer(&args[0])?;
            let a = rd(ecx, &p.clone().into())?;
            let b = rd(ecx, &args[1])?;
            let r = match h {
                AddAssign => st!().add(a, b),
                SubAssign => st!().sub(a, b),
                _ => st!().mul(a, b),
            };
            wr(ecx, &p.into(), r)?;
        }
        FromU => {
            let s = ecx.read_scalar(&args[0])?;
            let sz = args[0].layout.size;
            let v = match &args[0].layout.ty.kind() {
                ty::Tuple(_) => return stop("from_noncanonical_u96"),
                _ => s.to_bits(sz)?,
            };
            let r = crate::hooks2::untag(ecx, v);
            wr(ecx, dest, r)?;
        }
        FromI => {
            let v = ecx.read_scalar(&args[0])?.to_i64()?;
            let r = if v < 0 { poly::fneg((-(v as i128)) as u64 % P) } else { v as u64 % P };
            wr(ecx, dest, r)?;
        }
        FeEq => {
            let a = deref(ecx, &args[0])?;
            let b = deref(ecx, &args[1])?;
            let a = rd(ecx, &a)?;
            let b = rd(ecx, &b)?;
            if a != b && (a >= P || b >= P) {
                return stop(format!("branch on symbolic equality {} == {}", st!().show(a), st!().show(b)));
            }
            ecx.write_scalar(Scalar::from_bool(a == b), dest)?;
        }
        FeInv => {
            let a = deref(ecx, &args[0])?;
            let a = rd(ecx, &a)?;
            if a == 0 {
                return stop("inverse of zero");
            }
            // Option<F>::Some
            let vi = VariantIdx::from_usize(1);
            let dd = ecx.project_downcast(dest, vi)?;
            let f = ecx.project_field(&dd, FieldIdx::from_usize(0))?;
            let r = if a >= P { ecx.machine.st.opaque("inv", &[a]) } else { poly::finv(a) };
            wr(ecx, &f, r)?;
            ecx.write_discriminant(vi, dest)?;
        }
        FeCanon => {
            let a = deref(ecx, &args[0])?;
            let a = rd(ecx, &a)?;
            if a >= P {
                let l = crate::hooks3::label_of(ecx, a)?;
                ecx.write_scalar(Scalar::from_u64(l), dest)?;
                return interp_ok(true);
            }
            ecx.write_scalar(Scalar::from_u64(a), dest)?;
        }
        FeSquare => {
            let a = deref(ecx, &args[0])?;
            let a = rd(ecx, &a)?;
            let r = st!().mul(a, a);
            wr(ecx, dest, r)?;
        }
        FeMulAcc => {
            let a = deref(ecx, &args[0])?;
            let a = rd(ecx, &a)?;
            let b = rd(ecx, &args[1])?;
            let c = rd(ecx, &args[2])?;
            let t = st!().mul(b, c);
            let r = st!().add(a, t);
            wr(ecx, dest, r)?;
        }
        QuadMul | QuadSquare => {
            let (x, y) = if h == QuadMul {
                (rd_quad(ecx, &args[0])?, rd_quad(ecx, &args[1])?)
            } else {
                let a = deref(ecx, &args[0])?;
                let q = rd_quad(ecx, &a)?;
                (q, q)
            };
            let s = &mut st!();
            let a = s.mul(x.0, y.0);
            let b = s.mul(x.1, y.1);
            let r0 = s.lin(a, 7, b);
            let c = s.mul(x.0, y.1);
            let d = s.mul(x.1, y.0);
            let r1 = s.add(c, d);
            let arr = ecx.project_field(dest, FieldIdx::from_usize(0))?;
            let p0 = ecx.project_index(&arr, 0)?;
            let p1 = ecx.project_index(&arr, 1)?;
            wr(ecx, &p0, r0)?;
            wr(ecx, &p1, r1)?;
        }
        Constr(k) => {
            let v = rd(ecx, &args[1])?;
            event(ecx, k, vec![v], String::new());
        }
        RConstr(k) => {
            let v = rd_ext(ecx, &args[2])?;
            event(ecx, k, vec![v], String::new());
        }
        ArithExt => {
            // (builder, const_0, const_1, m0, m1, addend)
            let c0 = rd(ecx, &args[1])?;
            let c1 = rd(ecx, &args[2])?;
            let m0 = rd_ext(ecx, &args[3])?;
            let m1 = rd_ext(ecx, &args[4])?;
            let a = rd_ext(ecx, &args[5])?;
            let s = &mut st!();
            let p = s.mul(m0, m1);
            let p = s.mul(c0, p);
            let q = s.mul(c1, a);
            let r = s.add(p, q);
            wr_ext(ecx, dest, r)?;
        }
        BArith => {
            let c0 = rd(ecx, &args[1])?;
            let c1 = rd(ecx, &args[2])?;
            let m0 = rd_target(ecx, &args[3])?;
            let m1 = rd_target(ecx, &args[4])?;
            let a = rd_target(ecx, &args[5])?;
            let s = &mut st!();
            let p = s.mul(m0, m1);
            let p = s.mul(c0, p);
            let q = s.mul(c1, a);
            let r = s.add(p, q);
            wr_target(ecx, dest, r)?;
        }
        ConstExt => {
            let (a, b) = rd_quad(ecx, &args[1])?;
            let r = comb(ecx, a, b);
            wr_ext(ecx, dest, r)?;
        }
        ConstantTgt => {
            let a = rd(ecx, &args[1])?;
            wr_target(ecx, dest, a)?;
        }
        Panic => {
            let m = panic_message(ecx, args);
            return stop(format!("panic {name}: {m}"));
        }
        Skip => {}
        _ => return crate::hooks2::run(ecx, h, name, instance, args, dest),
    }
    interp_ok(true)
}
