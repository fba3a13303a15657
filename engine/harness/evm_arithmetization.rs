//! in world.rs
//! Worlds whose keys part in each way that tries distinguish, and the operations on them. Only read by the analysis driver: never linked, never run.
use super::*;
use crate::generation::mpt::AccountRlp;
use mpt_trie::partial_trie::PartialTrie as _;

// what stands for library functions without effect on what is analysed
fn for_backtrace() -> std::backtrace::Backtrace {
    std::backtrace::Backtrace::disabled()
}
fn for_format(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}
fn for_write_str(_: &mut std::fmt::Formatter<'_>, _: &str) -> std::fmt::Result {
    Ok(())
}
fn for_write_fmt(_: &mut std::fmt::Formatter<'_>, _: std::fmt::Arguments<'_>) -> std::fmt::Result {
    Ok(())
}
fn for_write(_: &mut dyn std::fmt::Write, _: std::fmt::Arguments<'_>) -> std::fmt::Result {
    Ok(())
}




pub struct Seen {
    /// accounts by hashed address
    pub accounts: Vec<([u8; 32], [u64; 2], [u8; 32], [u8; 32])>,
    /// hashed-out parts of the state
    pub hashed: usize,
    /// storage by hashed address: root, slots by hashed key, hashed-out parts
    pub storage: Vec<([u8; 32], [u8; 32], Vec<([u8; 32], Vec<u8>)>, usize)>,
    pub root: [u8; 32],
}

const AT: [u64; 4] = [0x100, 0x101, 0x110, 0x200];

fn addr(i: usize) -> Address {
    ethereum_types::H160([0xA0 + i as u8; 20])
}
fn slot(i: usize) -> U256 {
    U256::from(0x50 + i as u64)
}
fn slot_hash(i: usize) -> H256 {
    let mut b = [0; 32];
    slot(i).to_big_endian(&mut b);
    keccak_hash::keccak(b)
}

/// what is hashed next gets this number
fn oracle_number(_: u64) {}

/// the hash function numbers what it hashes: `keys` get the numbers above
fn number(keys: &dyn Fn(usize) -> H256) {
    for (i, at) in AT.into_iter().enumerate() {
        oracle_number(at);
        let h = keys(i);
        assert!(u64::from_be_bytes(h.0[24..].try_into().unwrap()) == at);
    }
}

fn set(m: usize) -> Vec<usize> {
    (0..4).filter(|i| m >> i & 1 == 1).collect()
}

fn acct(i: usize, storage_root: H256) -> AccountRlp {
    AccountRlp {
        nonce: U256::from(20 + i as u64),
        balance: U256::from(1000 + i as u64),
        storage_root,
        code_hash: H256([0xC0 + i as u8; 32]),
    }
}

fn storage(slots: &[usize]) -> StorageTrie {
    let mut t = StorageTrie::new(mpt_trie::partial_trie::OnOrphanedHashNode::CollapseToExtension);
    for &s in slots {
        let v = U256::from(300 + s as u64);
        t.insert(MptKey::from_hash(slot_hash(s)), alloy::rlp::encode(v.compat())).expect("no hash in the way");
    }
    t
}

/// accounts, the first of which may have storage
fn world(accounts: &[usize], slots: &[usize]) -> Type1World {
    let mut state = StateMpt::new();
    let mut st = BTreeMap::new();
    for &a in accounts {
        let t = match Some(&a) == accounts.first() {
            true => storage(slots),
            false => StorageTrie::default(),
        };
        let key = keccak_hash::keccak(addr(a));
        state.insert(key, acct(a, t.root())).expect("no hash in the way");
        st.insert(key, t);
    }
    Type1World { state, storage: st }
}

fn seen(w: &Type1World) -> Seen {
    let mut hashed = 0;
    let mut accounts = vec![];
    for (k, v) in w.state.as_hashed_partial_trie().items() {
        match v {
            mpt_trie::trie_ops::ValOrHash::Val(v) => {
                let a: AccountRlp = rlp::decode(&v).expect("an account");
                accounts.push((
                    MptKey::from_nibbles(k).into_hash().expect("at full depth").0,
                    [a.balance.low_u64(), a.nonce.low_u64()],
                    a.code_hash.0,
                    a.storage_root.0,
                ));
            }
            mpt_trie::trie_ops::ValOrHash::Hash(_) => hashed += 1,
        }
    }
    let mut storage = vec![];
    for (h, t) in &w.storage {
        let (mut slots, mut hashed) = (vec![], 0);
        for (k, v) in t.as_hashed_partial_trie().items() {
            match v {
                mpt_trie::trie_ops::ValOrHash::Val(v) => slots.push((MptKey::from_nibbles(k).into_hash().expect("at full depth").0, v)),
                mpt_trie::trie_ops::ValOrHash::Hash(_) => hashed += 1,
            }
        }
        storage.push((h.0, t.root().0, slots, hashed));
    }
    Seen { accounts, hashed, storage, root: w.state.root().0 }
}

/// an operation, and what it returned: a number, and the path reported
fn apply(w: &mut Type1World, op: usize, a: usize, s: usize) -> Result<(u64, Option<MptKey>), ()> {
    let a = addr(a);
    let e = |_| ();
    match op {
        0 => w.contains(a).map(|b| (b as u64, None)).map_err(e),
        1 => w.update_balance(a, |b| *b += U256::from(7)).map(|_| (0, None)).map_err(e),
        2 => w.update_nonce(a, |b| *b += U256::from(9)).map(|_| (0, None)).map_err(e),
        3 => w.set_code(a, Either::Left(&[1, 2, 3])).map(|_| (0, None)).map_err(e),
        4 => w.set_code(a, Either::Right(H256([0xCC; 32]))).map(|_| (0, None)).map_err(e),
        5 => w.reporting_destroy(a).map(|k| (0, k)).map_err(e),
        6 => w.create_storage(a).map(|_| (0, None)).map_err(e),
        7 => w.destroy_storage(a).map(|_| (0, None)).map_err(e),
        8 => w.store_int(a, slot(s), U256::from(77)).map(|_| (0, None)).map_err(e),
        9 => w.store_hash(a, slot_hash(s), H256([0x99; 32])).map(|_| (0, None)).map_err(e),
        10 => w.load_int(a, slot(s)).map(|v| (v.low_u64(), None)).map_err(e),
        _ => w.reporting_destroy_slot(a, slot(s)).map(|k| (0, k)).map_err(e),
    }
}

pub struct Out {
    pub accounts: Vec<usize>,
    pub slots: Vec<usize>,
    pub op: usize,
    pub on: usize,
    pub slot: usize,
    pub keys: Vec<[u8; 32]>,
    pub skeys: Vec<[u8; 32]>,
    pub before: Seen,
    pub result: Result<u64, ()>,
    pub after: Seen,
    /// the path reported
    pub reported: Option<usize>,
    /// root of a world built afresh with what is in the world afterwards
    pub afresh: [u8; 32],
    /// result of the same operation on the world masked to the path named and the path reported, and the roots before and after it
    pub masked: Result<([u8; 32], [u8; 32]), ()>,
}

fn out(accounts: Vec<usize>, slots: Vec<usize>, op: usize, on: usize, sl: usize) -> Out {
    let mut w = world(&accounts, &slots);
    let before = seen(&w);
    let mut m = w.clone();
    let r = apply(&mut w, op, on, sl);
    let after = seen(&w);
    let mut state = StateMpt::new();
    for (k, [balance, nonce], code, root) in &after.accounts {
        let a = AccountRlp { nonce: (*nonce).into(), balance: (*balance).into(), storage_root: H256(*root), code_hash: H256(*code) };
        state.insert(H256(*k), a).expect("no hash in the way");
    }
    let reported = r.as_ref().ok().and_then(|r| r.1);
    let mut paths = vec![MptKey::from(addr(on))];
    let mut spaths = BTreeSet::from([MptKey::from_hash(slot_hash(sl))]);
    match op {
        5 => paths.extend(reported),
        _ => spaths.extend(reported),
    }
    let masked = m
        .mask(paths)
        .and_then(|_| m.mask_storage(BTreeMap::from([(addr(on), spaths)])))
        .map_err(|_| ())
        .and_then(|_| {
            let b = m.root().0;
            apply(&mut m, op, on, sl)?;
            Ok((b, m.root().0))
        });
    Out {
        keys: (0..4).map(|i| keccak_hash::keccak(addr(i)).0).collect(),
        skeys: (0..4).map(|i| slot_hash(i).0).collect(),
        before,
        result: r.map(|r| r.0),
        after,
        reported: reported.map(|k| k.into_nibbles().count),
        afresh: state.root().0,
        masked,
        accounts,
        slots,
        op,
        on,
        slot: sl,
    }
}

/// which of the four are there, and which is operated on
const ALL: [(usize, usize); 36] = {
    let mut t = [(0, 0); 36];
    let (mut n, mut i) = (0, 0);
    while i < 64 {
        // those there; and each that is not there among all the others
        if i / 4 >> (i % 4) & 1 == 1 || i / 4 == 15 ^ 1 << (i % 4) {
            t[n] = (i / 4, i % 4);
            n += 1;
        }
        i += 1;
    }
    t
};
const SOME: [(usize, usize); 8] = [(0, 1), (1, 0), (1, 1), (6, 1), (6, 3), (15, 0), (15, 3), (9, 2)];

fn by_account(i: usize, of: &[(usize, usize)], ops: &[usize]) -> Option<Out> {
    let (m, on) = *of.get(i / ops.len())?;
    number(&|i| keccak_hash::keccak(addr(i)));
    Some(out(set(m), vec![], ops[i % ops.len()], on, 0))
}

/// operations on accounts
pub fn account0(i: usize) -> Option<Out> {
    by_account(i, &SOME, &[0, 1, 2])
}
pub fn account1(i: usize) -> Option<Out> {
    by_account(i, &SOME, &[3, 4, 6, 7])
}
pub fn account2(i: usize) -> Option<Out> {
    by_account(i, &ALL[..18], &[5])
}
pub fn account3(i: usize) -> Option<Out> {
    by_account(i, &ALL[18..], &[5])
}

fn by_slot(i: usize, of: &[(usize, usize)], op: usize) -> Option<Out> {
    if i >= of.len() + 3 {
        return None;
    }
    number(&slot_hash);
    Some(match i {
        // of an account that is not there, and that is not the first
        0 => out(vec![0, 1], vec![0, 1], op, 2, 0),
        1 => out(vec![], vec![], op, 2, 0),
        2 => out(vec![0, 1], vec![0, 1], op, 1, 0),
        _ => {
            let (m, s) = of[i - 3];
            out(vec![0, 3], set(m), op, 0, s)
        }
    })
}

/// operations on storage
pub fn slot0(i: usize) -> Option<Out> {
    by_slot(i, &SOME, 8)
}
pub fn slot1(i: usize) -> Option<Out> {
    by_slot(i, &SOME, 9)
}
pub fn slot2(i: usize) -> Option<Out> {
    by_slot(i, &SOME, 10)
}
pub fn slot3(i: usize) -> Option<Out> {
    by_slot(i, &ALL[..18], 11)
}
pub fn slot4(i: usize) -> Option<Out> {
    by_slot(i, &ALL[18..], 11)
}

/// what a world is made of, against its storage: all there, one missing, one too many, one that differs
pub fn made(i: usize) -> Option<Result<Seen, ()>> {
    if i >= 4 {
        return None;
    }
    number(&|i| keccak_hash::keccak(addr(i)));
    let Type1World { state, storage: mut st } = world(&[0, 1], &[0, 1]);
    let k = |i| keccak_hash::keccak(addr(i));
    match i {
        1 => drop(st.remove(&k(0))),
        2 => drop(st.insert(k(2), storage(&[2]))),
        3 => drop(st.insert(k(0), storage(&[0]))),
        _ => {}
    }
    Some(Type1World::new(state, st).map(|w| seen(&w)).map_err(|_| ()))
}

/// a world masked: to these accounts and slots
pub struct Masked {
    pub accounts: Vec<usize>,
    pub slots: Vec<usize>,
    pub keys: Vec<[u8; 32]>,
    pub skeys: Vec<[u8; 32]>,
    pub before: Seen,
    pub after: Result<Seen, ()>,
}
pub fn masked(i: usize) -> Option<Masked> {
    const OF: [(usize, usize); 6] = [(0, 0), (1, 2), (2, 15), (5, 9), (8, 0), (15, 6)];
    let (a, s) = *OF.get(i)?;
    number(&|i| keccak_hash::keccak(addr(i)));
    for i in 0..4 {
        oracle_number(AT[i] + 0x800);
        slot_hash(i);
    }
    let w = world(&[0, 1, 2, 3], &[0, 1, 2, 3]);
    let before = seen(&w);
    let mut m = w.clone();
    let r = m.mask(set(a).into_iter().map(|i| MptKey::from(addr(i)))).and_then(|_| {
        m.mask_storage(set(a).into_iter().map(|i| (addr(i), set(s).into_iter().map(|i| MptKey::from_hash(slot_hash(i))).collect())).collect())
    });
    Some(Masked {
        accounts: set(a),
        slots: set(s),
        keys: (0..4).map(|i| keccak_hash::keccak(addr(i)).0).collect(),
        skeys: (0..4).map(|i| slot_hash(i).0).collect(),
        before,
        after: r.map(|_| seen(&m)).map_err(|_| ()),
    })
}

/// the other world: what is there, and operations on it
pub struct Other {
    pub op: usize,
    pub there: bool,
    pub before: Vec<u64>,
    pub after: Vec<u64>,
    pub result: Result<u64, ()>,
    pub kept: bool,
}
fn fields(w: &Type2World, a: usize) -> Vec<u64> {
    let n = |x: Option<U256>| x.map(|x| x.low_u64() + 1).unwrap_or(0);
    match w.accounts.get(&addr(a)) {
        None => vec![],
        Some(e) => {
            let mut v = vec![n(e.balance), n(e.nonce), n(e.code_hash), n(e.code_length)];
            for (k, x) in &e.storage {
                v.push(k.low_u64());
                v.push(x.low_u64());
            }
            v
        }
    }
}
pub fn other(i: usize) -> Option<Other> {
    const OPS: [usize; 11] = [0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11];
    let op = *OPS.get(i / 3)?;
    let mut w = Type2World { accounts: BTreeMap::new(), hashed_out: BTreeMap::new() };
    let e = Type2Entry {
        balance: Some(10.into()),
        nonce: Some(20.into()),
        code_hash: Some(30.into()),
        code_length: Some(40.into()),
        storage: BTreeMap::from([(slot(0), 50.into()), (slot(1), 51.into())]),
    };
    w.accounts.insert(addr(1), e.clone());
    if i % 3 > 0 {
        w.accounts.insert(addr(0), if i % 3 == 1 { Type2Entry::default() } else { e });
    }
    let (bystander, before) = (fields(&w, 1), fields(&w, 0));
    let (a, s) = (addr(0), 0);
    let e = |_| ();
    let result = match op {
        0 => w.contains(a).map(|b| b as u64).map_err(e),
        1 => w.update_balance(a, |b| *b += U256::from(7)).map(|_| 0).map_err(e),
        2 => w.update_nonce(a, |b| *b += U256::from(9)).map(|_| 0).map_err(e),
        4 => w.set_code(a, Either::Right(H256::from_low_u64_be(60))).map(|_| 0).map_err(e),
        5 => w.reporting_destroy(a).map(|k| k.is_some() as u64).map_err(e),
        6 => w.create_storage(a).map(|_| 0).map_err(e),
        7 => w.destroy_storage(a).map(|_| 0).map_err(e),
        8 => w.store_int(a, slot(s), U256::from(77)).map(|_| 0).map_err(e),
        9 => w.store_hash(a, H256::from_low_u64_be(0x51), H256::from_low_u64_be(0x99)).map(|_| 0).map_err(e),
        10 => w.load_int(a, slot(s)).map(|v| v.low_u64()).map_err(e),
        _ => w.reporting_destroy_slot(a, slot(s)).map(|k| k.is_some() as u64).map_err(e),
    };
    Some(Other { op, there: i % 3 > 0, before, after: fields(&w, 0), result, kept: fields(&w, 1) == bystander })
}
