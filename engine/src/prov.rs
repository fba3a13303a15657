//! Provenance with concrete (deterministic) addresses, so pointer/integer casts in std can be followed.
use rustc_const_eval::interpret as ri;
use rustc_data_structures::fx::FxHashMap;
use rustc_middle::mir;
use std::borrow::Borrow;
use std::cell::RefCell;
use std::hash::Hash;

#[derive(Copy, Clone, Eq, PartialEq, Hash, PartialOrd, Ord, Debug)]
pub struct Prov(pub AllocId);

impl ri::Provenance for Prov {
    const OFFSET_IS_ADDR: bool = true;
    const WILDCARD: Option<Self> = None;
    fn fmt(ptr: &ri::Pointer<Self>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let (p, a) = ptr.into_raw_parts();
        write!(f, "{:?}@{:#x}", p.0, a.bytes())
    }
    fn get_alloc_id(self) -> Option<AllocId> {
        Some(self.0)
    }
}

pub use ri::{
    AllocInit, AllocMap, AtomicRmwOp, InterpCx, InterpErrorInfo, InterpErrorKind, InterpResult, Machine,
    MachineStopType, MayLeak, MemoryKind, Projectable, ReturnContinuation, Writeable, alloc_range, interp_ok,
};
pub use rustc_middle::mir::interpret::AllocId;
pub type OpTy<'tcx> = ri::OpTy<'tcx, Prov>;
pub type ImmTy<'tcx> = ri::ImmTy<'tcx, Prov>;
pub type PlaceTy<'tcx> = ri::PlaceTy<'tcx, Prov>;
pub type MPlaceTy<'tcx> = ri::MPlaceTy<'tcx, Prov>;
pub type FnArg<'tcx> = ri::FnArg<'tcx, Prov>;
pub type Frame<'tcx> = ri::Frame<'tcx, Prov, ()>;
pub type Immediate = ri::Immediate<Prov>;
pub type Scalar = ri::Scalar<Prov>;
pub type Pointer = ri::Pointer<Prov>;
pub type OptPointer = ri::Pointer<Option<Prov>>;
pub type TcxPointer = ri::Pointer;
pub type TcxAllocation = ri::Allocation;
pub type Allocation = ri::Allocation<Prov, (), Box<[u8]>>;

pub struct MonoMap<K: Hash + Eq, V>(RefCell<FxHashMap<K, Box<V>>>);
impl<K: Hash + Eq, V> Default for MonoMap<K, V> {
    fn default() -> Self {
        MonoMap(RefCell::new(Default::default()))
    }
}
impl<K: Hash + Eq + Clone, V: Clone> Clone for MonoMap<K, V> {
    fn clone(&self) -> Self {
        MonoMap(RefCell::new(self.0.borrow().clone()))
    }
}
impl<K: Hash + Eq, V> AllocMap<K, V> for MonoMap<K, V> {
    fn contains_key<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.0.get_mut().contains_key(k)
    }
    fn contains_key_ref<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.0.borrow().contains_key(k)
    }
    fn insert(&mut self, k: K, v: V) -> Option<V> {
        self.0.get_mut().insert(k, Box::new(v)).map(|x| *x)
    }
    fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.0.get_mut().remove(k).map(|x| *x)
    }
    fn filter_map_collect<T>(&self, mut f: impl FnMut(&K, &V) -> Option<T>) -> Vec<T> {
        self.0.borrow().iter().filter_map(|(k, v)| f(k, &*v)).collect()
    }
    fn get_or<E>(&self, k: K, vacant: impl FnOnce() -> Result<V, E>) -> Result<&V, E> {
        // entries are boxed and only removed through `&mut self`, so the reference stays valid
        if let Some(v) = self.0.borrow().get(&k) {
            let p: *const V = &**v;
            return Ok(unsafe { &*p });
        }
        let v = vacant()?;
        let mut m = self.0.borrow_mut();
        let b = m.entry(k).or_insert_with(|| Box::new(v));
        let p: *const V = &**b;
        Ok(unsafe { &*p })
    }
    fn get_mut_or<E>(&mut self, k: K, vacant: impl FnOnce() -> Result<V, E>) -> Result<&mut V, E> {
        use std::collections::hash_map::Entry;
        match self.0.get_mut().entry(k) {
            Entry::Occupied(e) => Ok(&mut *e.into_mut()),
            Entry::Vacant(e) => {
                let v = vacant()?;
                Ok(&mut *e.insert(Box::new(v)))
            }
        }
    }
}
