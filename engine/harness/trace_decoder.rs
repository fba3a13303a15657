//! in core.rs
//! Abstract blocks and an abstract world handed to the decoder. Only read by the analysis driver: never linked, never run.
use std::cell::{Cell, RefCell};
use std::rc::Rc;

use evm_arithmetization::generation::mpt::LegacyReceiptRlp;

use super::*;

// what stands for library functions without effect on what is decoded
fn for_backtrace() -> std::backtrace::Backtrace {
    std::backtrace::Backtrace::disabled()
}
fn for_format(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}
fn for_write_str(_: &mut std::fmt::Formatter<'_>, _: &str) -> std::fmt::Result {
    Ok(())
}
fn for_write_fmt(_: &mut std::fmt::Formatter<'_>, _: std::fmt::Arguments<'_>) -> std::fmt::Result {
    Ok(())
}
fn for_write(_: &mut dyn std::fmt::Write, _: std::fmt::Arguments<'_>) -> std::fmt::Result {
    Ok(())
}
fn for_random_state() -> std::collections::hash_map::RandomState {
    unsafe { std::mem::transmute([1u64, 2]) }
}

/// an operation on a world
#[derive(Clone)]
pub enum Op {
    Copied(usize),
    Contains([u8; 20], bool),
    Balance([u8; 20], u64, u64),
    Nonce([u8; 20], u64, u64),
    Code([u8; 20], Vec<u8>),
    CodeHash([u8; 20], [u8; 32]),
    Destroy([u8; 20], Option<[u8; 32]>),
    CreateStorage([u8; 20]),
    DestroyStorage([u8; 20]),
    Store([u8; 20], [u8; 32], u64),
    StoreHash([u8; 20], [u8; 32], [u8; 32]),
    Load([u8; 20], [u8; 32]),
    DestroySlot([u8; 20], [u8; 32], Option<[u8; 32]>),
    MaskStorage(Vec<([u8; 20], Vec<[u8; 32]>)>),
    Mask(Vec<[u8; 32]>),
    Root([u8; 32]),
    Observed(usize),
}

/// in place of the balance of an account that is not there any more
const GONE: U256 = U256::MAX;

struct Shared {
    log: RefCell<Vec<(usize, Op)>>,
    worlds: Cell<usize>,
    calls: Cell<usize>,
    /// the call that fails
    fail: Option<usize>,
    /// what deletions report as to be kept
    keep: bool,
}

/// a world that records what is done to it
pub struct Mock {
    id: usize,
    sh: Rc<Shared>,
    made: BTreeMap<Address, (U256, U256)>,
}
impl Clone for Mock {
    fn clone(&self) -> Self {
        let id = self.sh.worlds.get();
        self.sh.worlds.set(id + 1);
        self.sh.log.borrow_mut().push((id, Op::Copied(self.id)));
        Mock { id, sh: self.sh.clone(), made: self.made.clone() }
    }
}
impl Mock {
    fn go(&self, op: Op) -> anyhow::Result<()> {
        let n = self.sh.calls.get();
        self.sh.calls.set(n + 1);
        self.sh.log.borrow_mut().push((self.id, op));
        match self.sh.fail == Some(n) {
            true => Err(anyhow!("assumed")),
            false => Ok(()),
        }
    }
    /// balance and nonce
    fn entry(&mut self, a: Address) -> &mut (U256, U256) {
        let start = match a.0[0] {
            0xAA => (U256::from(1000), U256::from(2000)),
            _ => Default::default(),
        };
        let e = self.made.entry(a).or_insert(start);
        if e.0 == GONE {
            *e = Default::default();
        }
        e
    }
    fn kept(&self, x: u8) -> Option<[u8; 32]> {
        let n = self.sh.calls.get();
        self.sh.keep.then(|| {
            let mut h = [x; 32];
            h[31] = n as u8;
            h
        })
    }
}
fn b32(u: U256) -> [u8; 32] {
    let mut b = [0; 32];
    u.to_big_endian(&mut b);
    b
}
fn plain(k: MptKey) -> [u8; 32] {
    k.into_hash().unwrap_or_default().0
}

impl World for Mock {
    type SubtriePath = MptKey;
    type CodeHasher = KeccakHash;
    fn contains(&mut self, a: Address) -> anyhow::Result<bool> {
        let b = match self.made.get(&a) {
            Some((b, _)) => *b != GONE,
            None => a.0[0] == 0xAA,
        };
        self.go(Op::Contains(a.0, b))?;
        Ok(b)
    }
    fn update_balance(&mut self, a: Address, f: impl FnOnce(&mut U256)) -> anyhow::Result<()> {
        let e = self.entry(a);
        let old = e.0.low_u64();
        f(&mut e.0);
        let new = e.0.low_u64();
        self.go(Op::Balance(a.0, old, new))
    }
    fn update_nonce(&mut self, a: Address, f: impl FnOnce(&mut U256)) -> anyhow::Result<()> {
        let e = self.entry(a);
        let old = e.1.low_u64();
        f(&mut e.1);
        let new = e.1.low_u64();
        self.go(Op::Nonce(a.0, old, new))
    }
    fn set_code(&mut self, a: Address, code: Either<&[u8], H256>) -> anyhow::Result<()> {
        self.entry(a);
        self.go(match code {
            Either::Left(c) => Op::Code(a.0, c.to_vec()),
            Either::Right(h) => Op::CodeHash(a.0, h.0),
        })
    }
    fn reporting_destroy(&mut self, a: Address) -> anyhow::Result<Option<MptKey>> {
        let k = self.kept(0xD1);
        self.go(Op::Destroy(a.0, k))?;
        self.made.insert(a, (GONE, GONE));
        Ok(k.map(|k| MptKey::from_hash(H256(k))))
    }
    fn create_storage(&mut self, a: Address) -> anyhow::Result<()> {
        self.go(Op::CreateStorage(a.0))
    }
    fn destroy_storage(&mut self, a: Address) -> anyhow::Result<()> {
        self.go(Op::DestroyStorage(a.0))
    }
    fn store_int(&mut self, a: Address, slot: U256, value: U256) -> anyhow::Result<()> {
        self.go(Op::Store(a.0, b32(slot), value.low_u64()))
    }
    fn store_hash(&mut self, a: Address, hash: H256, value: H256) -> anyhow::Result<()> {
        self.go(Op::StoreHash(a.0, hash.0, value.0))
    }
    fn load_int(&mut self, a: Address, slot: U256) -> anyhow::Result<U256> {
        self.go(Op::Load(a.0, b32(slot)))?;
        Ok(U256::from(3000))
    }
    fn reporting_destroy_slot(&mut self, a: Address, slot: U256) -> anyhow::Result<Option<MptKey>> {
        let k = self.kept(0xD2);
        self.go(Op::DestroySlot(a.0, b32(slot), k))?;
        Ok(k.map(|k| MptKey::from_hash(H256(k))))
    }
    fn mask_storage(&mut self, masks: BTreeMap<Address, BTreeSet<MptKey>>) -> anyhow::Result<()> {
        let m = masks.into_iter().map(|(a, ks)| (a.0, ks.into_iter().map(plain).collect())).collect();
        self.go(Op::MaskStorage(m))
    }
    fn mask(&mut self, paths: impl IntoIterator<Item = MptKey>) -> anyhow::Result<()> {
        let p = paths.into_iter().map(plain).collect();
        self.go(Op::Mask(p))
    }
    fn root(&mut self) -> H256 {
        let mut h = [0xC3; 32];
        h[31] = self.sh.log.borrow().len() as u8;
        h[30] = self.id as u8;
        self.sh.log.borrow_mut().push((self.id, Op::Root(h)));
        H256(h)
    }
}
struct Obs;
impl Observer<Mock> for Obs {
    fn collect_tries(&mut self, _b: U256, batch: usize, w: &Mock, _t: &TransactionTrie, _r: &ReceiptTrie) {
        w.sh.log.borrow_mut().push((w.id, Op::Observed(batch)));
    }
}

/// what a transaction did to an account
#[derive(Clone, Default)]
pub struct Touch {
    addr: [u8; 20],
    balance: Option<u64>,
    nonce: Option<u64>,
    read: Vec<[u8; 32]>,
    written: Vec<([u8; 32], u64)>,
    code: Code,
    destroyed: bool,
}
#[derive(Clone, Default)]
pub enum Code {
    #[default]
    Untouched,
    Known,
    Unknown,
    New,
}
/// a transaction
#[derive(Clone, Default)]
pub struct Txn {
    code: Vec<u8>,
    receipt: Vec<u8>,
    malformed: bool,
    success: bool,
    gas: u64,
    touches: Vec<Touch>,
}
const KNOWN: [u8; 3] = [0x60, 1, 2];
const NEW: [u8; 3] = [0x61, 3, 4];

fn old(n: u8) -> [u8; 20] {
    [[0xAA; 1].as_slice(), &[n; 19]].concat().try_into().unwrap()
}
fn young(n: u8) -> [u8; 20] {
    [n; 20]
}
fn slot(n: u8) -> [u8; 32] {
    b32(U256::from(n))
}
fn receipt(success: bool, n: u64) -> Vec<u8> {
    rlp::encode(&LegacyReceiptRlp { status: success, cum_gas_used: n.into(), bloom: vec![0; 256].into(), logs: vec![] }).to_vec()
}
fn txn(n: u8, success: bool, touches: Vec<Touch>) -> Option<Txn> {
    let gas = 21000 + n as u64;
    Some(Txn { code: vec![0xf0, n, n], receipt: receipt(success, gas), malformed: false, success, gas, touches })
}
/// shapes of a trace
fn touch(k: usize, addr: [u8; 20]) -> Touch {
    let t = Touch { addr, ..Default::default() };
    match k {
        0 => t,
        1 => Touch { balance: Some(77), ..t },
        2 => Touch { nonce: Some(78), ..t },
        3 => Touch { code: Code::Known, ..t },
        4 => Touch { code: Code::Unknown, ..t },
        5 => Touch { code: Code::New, ..t },
        6 => Touch { read: vec![slot(1), slot(2)], ..t },
        7 => Touch { written: vec![(slot(3), 5), (slot(4), 0), (slot(5), 0)], ..t },
        8 => Touch { destroyed: true, balance: Some(0), ..t },
        _ => Touch {
            balance: Some(79),
            nonce: Some(80),
            read: vec![slot(1), slot(6)],
            written: vec![(slot(1), 9), (slot(7), 0)],
            code: Code::New,
            destroyed: true,
            ..t
        },
    }
}
fn real(t: &Txn) -> TxnInfo {
    TxnInfo {
        traces: t
            .touches
            .iter()
            .map(|x| {
                (
                    Address::from(x.addr),
                    TxnTrace {
                        balance: x.balance.map(U256::from),
                        nonce: x.nonce.map(U256::from),
                        storage_read: x.read.iter().map(|s| H256(*s)).collect(),
                        storage_written: x.written.iter().map(|(s, v)| (H256(*s), U256::from(*v))).collect(),
                        code_usage: match x.code {
                            Code::Untouched => None,
                            Code::Known => Some(ContractCodeUsage::Read(keccak_hash::keccak(KNOWN))),
                            Code::Unknown => Some(ContractCodeUsage::Read(H256([0xB1; 32]))),
                            Code::New => Some(ContractCodeUsage::Write(NEW.to_vec())),
                        },
                        self_destructed: x.destroyed,
                    },
                )
            })
            .collect(),
        meta: TxnMeta { byte_code: t.code.clone(), new_receipt_trie_node_byte: t.receipt.clone(), gas_used: t.gas },
    }
}

/// how a block was decoded
pub struct Run {
    txns: Vec<Vec<Option<Txn>>>,
    withdrawals: Vec<([u8; 20], u64)>,
    fatal: bool,
    timestamp: u64,
    parent_root: [u8; 32],
    failed: Option<usize>,
    calls: usize,
    log: Vec<(usize, Op)>,
    result: Result<Vec<B>, ()>,
}
pub struct B {
    first: usize,
    gas: u64,
    codes: Vec<Vec<u8>>,
    txns: Vec<Vec<u8>>,
    withdrawals: Vec<([u8; 20], u64)>,
    before: usize,
    after: [[u8; 32]; 3],
    /// roots reached by doing this batch's insertions on the tries it is given
    replayed: Result<[[u8; 32]; 2], ()>,
    /// roots of the tries it is given
    given: [[u8; 32]; 2],
    /// transaction and receipt roots that belong before and after this batch
    want: [[[u8; 32]; 2]; 2],
}

fn run(txns: Vec<Vec<Option<Txn>>>, withdrawals: Vec<([u8; 20], u64)>, fatal: bool, keep: bool, zero_root: bool, fail: Option<usize>) -> Run {
    let sh = Rc::new(Shared { log: Default::default(), worlds: Cell::new(1), calls: Cell::new(0), fail, keep });
    let world = Mock { id: 0, sh: sh.clone(), made: BTreeMap::new() };
    let mut code = Hash2Code::<KeccakHash>::new();
    code.insert(KNOWN.to_vec());
    let block = BlockMetadata {
        block_timestamp: U256::from(10_000u64),
        block_number: U256::from(5),
        parent_beacon_block_root: match zero_root {
            true => H256::zero(),
            false => H256([0x0B; 32]),
        },
        ..Default::default()
    };
    let batches = txns.iter().map(|b| b.iter().map(|t| t.as_ref().map(real)).collect()).collect();
    let r = middle(
        world,
        batches,
        &mut code,
        &block,
        None,
        withdrawals.iter().map(|(a, x)| (Address::from(*a), U256::from(*x))).collect(),
        FatalMissingCode(fatal),
        &mut Obs,
    );
    let calls = sh.calls.get();
    let mut all: Vec<&Txn> = vec![];
    let mut roots = vec![];
    for b in &txns {
        all.extend(b.iter().flatten());
        let mut t = [TransactionTrie::new().as_hashed_partial_trie().clone(), TransactionTrie::new().as_hashed_partial_trie().clone()];
        for (i, x) in all.iter().enumerate() {
            let k = MptKey::from_txn_ix(i).into_nibbles();
            t[0].insert(k, x.code.clone()).unwrap();
            t[1].insert(k, x.receipt.clone()).unwrap();
        }
        roots.push(t.map(|t| t.hash().0));
    }
    let empty = [TransactionTrie::new().root().0, ReceiptTrie::new().root().0];
    let result = r.map_err(|_| ()).map(|bs| {
        bs.into_iter()
            .enumerate()
            .map(|(i, b)| {
                let given = [b.before.transaction.root().0, b.before.receipt.root().0];
                let (mut t, mut r) = (b.before.transaction, b.before.receipt);
                let mut ok = true;
                let mut n = b.first_txn_ix;
                for x in txns.get(i).into_iter().flatten().flatten() {
                    ok &= t.insert(n, x.code.clone()).is_ok();
                    ok &= r.insert(n, x.receipt.clone()).is_ok();
                    n += 1;
                }
                B {
                    first: b.first_txn_ix,
                    gas: b.gas_used,
                    codes: b.contract_code.into_iter().collect(),
                    txns: b.byte_code.into_iter().map(|x| x.to_vec()).collect(),
                    withdrawals: b.withdrawals.into_iter().map(|(a, x)| (a.0, x.low_u64())).collect(),
                    before: b.before.world.id,
                    after: [b.after.state_root.0, b.after.transactions_root.0, b.after.receipts_root.0],
                    replayed: match ok {
                        true => Ok([t.root().0, r.root().0]),
                        false => Err(()),
                    },
                    given,
                    want: [
                        match i {
                            0 => empty,
                            _ => roots[i - 1],
                        },
                        roots.get(i).copied().unwrap_or(empty),
                    ],
                }
            })
            .collect()
    });
    let log = sh.log.borrow().clone();
    Run { txns, withdrawals, fatal, timestamp: 10_000, parent_root: block.parent_beacon_block_root.0, failed: fail, calls, log, result }
}

/// one account, every shape of its trace, known or new, in a transaction that succeeds or fails
pub fn account(i: usize) -> Option<Run> {
    let (k, i) = (i / 8, i % 8);
    if k > 9 {
        return None;
    }
    let a = match i % 2 {
        0 => old(1),
        _ => young(1),
    };
    let t = txn(1, i / 2 % 2 == 0, vec![touch(k, a)]);
    let keep = i / 4 == 0;
    Some(run(vec![vec![t], vec![None]], vec![], k == 4 && keep, keep, keep, None))
}

/// one account, every combination of the parts of a trace
fn shape(i: usize) -> Option<Run> {
    let mut n = i;
    let mut pick = |k: usize| {
        let r = n % k;
        n /= k;
        r
    };
    let a = match pick(2) {
        0 => old(1),
        _ => young(1),
    };
    let success = pick(2) == 0;
    let t = Touch {
        addr: a,
        balance: (pick(2) == 0).then_some(71),
        nonce: (pick(2) == 0).then_some(72),
        code: match pick(4) {
            0 => Code::Untouched,
            1 => Code::Known,
            2 => Code::Unknown,
            _ => Code::New,
        },
        read: match pick(2) {
            0 => vec![],
            _ => vec![slot(1)],
        },
        written: match pick(3) {
            0 => vec![],
            1 => vec![(slot(3), 5)],
            _ => vec![(slot(4), 0)],
        },
        destroyed: pick(2) == 1,
    };
    if n > 0 {
        return None;
    }
    Some(run(vec![vec![txn(1, success, vec![t])], vec![None]], vec![], false, true, false, None))
}
const PART: usize = 128;
pub fn shapes0(i: usize) -> Option<Run> {
    (i < PART).then(|| shape(i))?
}
pub fn shapes1(i: usize) -> Option<Run> {
    (i < PART).then(|| shape(i + PART))?
}
pub fn shapes2(i: usize) -> Option<Run> {
    (i < PART).then(|| shape(i + 2 * PART))?
}
pub fn shapes3(i: usize) -> Option<Run> {
    (i < PART).then(|| shape(i + 3 * PART))?
}
pub fn shapes4(i: usize) -> Option<Run> {
    (i < PART).then(|| shape(i + 4 * PART))?
}
pub fn shapes5(i: usize) -> Option<Run> {
    shape(i + 5 * PART)
}

fn scene(i: usize) -> Option<(Vec<Vec<Option<Txn>>>, Vec<([u8; 20], u64)>)> {
    let mix = |n: u8| vec![touch(9, old(n)), touch(1, old(n + 1)), touch(7, young(n)), touch(0, old(n + 2)), touch(3, old(n + 3))];
    let t = |n: u8| txn(n, true, mix(n));
    Some(match i {
        0 => (vec![vec![None], vec![None]], vec![]),
        1 => (vec![vec![None], vec![None]], vec![(old(1), 5), (young(2), 6)]),
        2 => (vec![vec![t(1)], vec![None]], vec![(old(1), 5), (old(1), 6)]),
        3 => (vec![vec![t(1)], vec![t(2)]], vec![(old(9), 5)]),
        4 => (vec![vec![t(1), t(2)], vec![t(1), txn(4, false, mix(5))], vec![t(3)]], vec![(old(9), 5), (young(1), 7)]),
        5 => (vec![vec![txn(1, true, vec![])], vec![txn(2, true, vec![touch(1, young(3))]), txn(3, true, vec![touch(2, young(3))])]], vec![]),
        // an account touched in every batch, and credited at the end
        6 => {
            let u = |n: u8, b: u64| txn(n, true, vec![Touch { balance: Some(b), written: vec![(slot(n), n as u64)], ..touch(0, old(1)) }]);
            (vec![vec![u(1, 51), u(2, 52)], vec![u(3, 53)], vec![u(4, 54), u(5, 55)]], vec![(old(1), 5), (young(1), 6), (old(1), 7)])
        }
        // created, destroyed and created again
        7 => {
            let c = |n: u8| txn(n, true, vec![Touch { destroyed: false, ..touch(9, young(8)) }]);
            let d = |n: u8| txn(n, true, vec![Touch { destroyed: true, ..touch(1, young(8)) }]);
            (vec![vec![c(1), d(2)], vec![c(3)], vec![d(4), c(5), d(6)]], vec![(young(8), 9)])
        }
        // more than sixteen transactions: indices of different encoded lengths, in batches of different sizes
        8 => {
            let n = |k: std::ops::Range<u8>| k.map(|i| txn(i, i % 3 > 0, vec![touch((i % 3) as usize, young(i))])).collect::<Vec<_>>();
            (vec![n(1..4), n(4..5), n(5..18), n(18..20)], vec![(young(4), 5)])
        }
        _ => return None,
    })
}

/// batches of several transactions
pub fn block(i: usize) -> Option<Run> {
    let (s, w) = scene(i / 2)?;
    Some(run(s, w, false, i % 2 == 0, i % 2 == 0, None))
}

/// each operation on the world fails in turn
pub fn failing(i: usize) -> Option<Run> {
    let m = vec![touch(9, old(1)), touch(5, young(2)), touch(7, old(3)), touch(3, old(4)), touch(4, old(5))];
    let s = vec![vec![txn(1, true, m)], vec![txn(2, true, vec![touch(1, old(6))])]];
    let r = run(s, vec![(old(9), 5)], false, true, i % 2 == 0, Some(i / 2));
    match r.calls > i / 2 {
        true => Some(r),
        false => None,
    }
}

/// receipts that cannot be decoded, and receipts wrapped in a byte string
pub fn malformed(i: usize) -> Option<Run> {
    let mut t = txn(1, true, vec![touch(1, old(1))])?;
    t.malformed = true;
    t.receipt = match i {
        0 => vec![],
        1 => vec![0xc1],
        2 => vec![0xc0],
        3 => rlp::encode(&vec![0xc1u8, 0x01]).to_vec(),
        4 => vec![0x02],
        5 => rlp::encode(&vec![0x02u8, 0xc0]).to_vec(),
        // well-formed: the receipt of a typed transaction
        6 => rlp::encode(&[[0x02u8].as_slice(), &t.receipt].concat()).to_vec(),
        _ => return None,
    };
    Some(run(vec![vec![Some(t)], vec![None]], vec![], false, false, true, None))
}

pub fn batch_split(i: usize) -> Option<(usize, usize, Vec<Vec<Option<u64>>>)> {
    let (n, hint) = (i / 9, i % 9);
    if n > 8 {
        return None;
    }
    let txns = (0..n)
        .map(|i| TxnInfo { meta: TxnMeta { gas_used: i as u64, ..Default::default() }, ..Default::default() })
        .collect();
    let r = batch(txns, hint);
    Some((n, hint, r.iter().map(|b| b.iter().map(|t| t.as_ref().map(|t| t.meta.gas_used)).collect()).collect()))
}

// ---- frontends ----
use crate::wire::{Instruction, SmtLeaf, SmtLeafType};
use nunny::NonEmpty;
use u4::U4;

fn key(n: usize, first: u8) -> NonEmpty<Vec<U4>> {
    let v = (0..n)
        .map(|i| match i {
            0 => U4::new(first).unwrap(),
            _ => U4::new((n % 16) as u8).unwrap(),
        })
        .collect();
    NonEmpty::<Vec<U4>>::new(v).unwrap()
}
fn bytes(n: usize, x: u8) -> NonEmpty<Vec<u8>> {
    NonEmpty::<Vec<u8>>::new(vec![x; n]).unwrap()
}
/// the alphabet of abstract instructions; `at` tells occurrences apart
fn instr(k: usize, at: usize) -> Instruction {
    let x = at as u8 + 1;
    let acc = |n: usize, has_code, has_storage| Instruction::AccountLeaf {
        key: key(n, x),
        nonce: (at != 1).then_some(40 + at as u64),
        balance: (at != 2).then_some(U256::from(50 + at)),
        has_code,
        has_storage,
    };
    match k {
        0 => Instruction::EmptyRoot,
        1 => Instruction::Hash { raw_hash: [0x10 + x; 32] },
        2 => Instruction::Code { raw_code: bytes(2, 0x20 + x) },
        3 => Instruction::Leaf { key: key(64, x), value: bytes(1, 0x30 + x) },
        4 => acc(64, false, false),
        5 => acc(63, false, false),
        6 => acc(64, true, true),
        7 => acc(64, true, false),
        8 => acc(64, false, true),
        9 => Instruction::Extension { key: key(1, 9) },
        10 => Instruction::Branch { mask: 0b1010 },
        11 => Instruction::Branch { mask: 1 << 16 | 1 },
        12 => Instruction::NewTrie,
        13 => Instruction::SmtLeaf(SmtLeaf { node_type: SmtLeafType::Nonce, address: bytes(20, 1), value: bytes(1, 1) }),
        14 => Instruction::Leaf { key: key(63, x), value: bytes(1, 0x30 + x) },
        15 => acc(62, true, true),
        16 => acc(62, false, true),
        17 => Instruction::Branch { mask: 1 << 15 },
        _ => Instruction::Extension { key: key(63, 9) },
    }
}
const SEQS: &[&[usize]] = &[
    // accounts with storage below branches and extensions
    &[14, 14, 10, 8],
    &[2, 14, 14, 10, 6],
    &[1, 14, 1, 10, 6],
    &[5, 1, 10],
    &[1, 5, 10],
    &[1, 1, 10],
    &[1, 1, 10, 9],
    &[1, 9],
    &[1, 18],
    &[5, 9],
    &[5, 9, 9],
    &[4, 9],
    &[5, 5, 10],
    &[4, 4, 10],
    &[5, 5, 10, 9],
    &[1, 16, 16, 10, 9],
    &[14, 16, 14, 16, 10, 9],
    &[2, 5, 10],
    &[0, 5, 10],
    &[5, 0, 10],
    &[5, 17],
    &[2, 14, 9, 15, 17, 9],
    &[1, 9, 8],
    &[0, 9, 8],
    &[2, 9, 8],
    &[4, 8],
    &[4, 17, 8],
    &[1, 14, 9, 6],
    &[4, 14, 9, 6],
    &[3, 14, 9, 6],
    &[0, 14, 9, 6],
    &[14, 14, 10, 9, 8],
    &[1, 1, 1, 10],
    &[1, 1, 1, 11],
    &[4, 12, 4],
    &[4, 12, 12, 4],
    &[12, 4],
    &[4, 12],
    &[4, 4, 12],
    &[1, 1, 10, 9, 9, 17],
    &[1, 18, 9],
    &[1, 18, 9, 17],
    &[],
];
pub struct Front {
    instrs: Vec<Instruction>,
    result: Result<Decoded, ()>,
}
pub struct Decoded {
    state: Vec<(Vec<u8>, Result<Acct, [u8; 32]>)>,
    storage: Vec<([u8; 32], [u8; 32], Vec<(Vec<u8>, Result<Vec<u8>, [u8; 32]>)>)>,
    code: Vec<Vec<u8>>,
}
pub struct Acct {
    nonce: u64,
    balance: u64,
    root: [u8; 32],
    code: [u8; 32],
}
fn items(t: &mpt_trie::partial_trie::HashedPartialTrie) -> Vec<(Vec<u8>, Result<Vec<u8>, [u8; 32]>)> {
    t.items()
        .map(|(k, v)| {
            let mut k = k;
            let mut ns = vec![];
            while !k.is_empty() {
                ns.push(k.pop_next_nibble_front());
            }
            (
                ns,
                match v {
                    mpt_trie::trie_ops::ValOrHash::Val(v) => Ok(v),
                    mpt_trie::trie_ops::ValOrHash::Hash(h) => Err(h.0),
                },
            )
        })
        .collect()
}
fn decoded(state: &StateMpt, storage: BTreeMap<H256, StorageTrie>, code: Vec<Vec<u8>>) -> Decoded {
    Decoded {
        state: items(state.as_hashed_partial_trie())
            .into_iter()
            .map(|(k, v)| {
                let v = v.map(|v| {
                    let a: evm_arithmetization::generation::mpt::AccountRlp = rlp::decode(&v).unwrap();
                    Acct { nonce: a.nonce.low_u64(), balance: a.balance.low_u64(), root: a.storage_root.0, code: a.code_hash.0 }
                });
                (k, v)
            })
            .collect(),
        storage: storage.into_iter().map(|(k, v)| (k.0, v.root().0, items(v.as_hashed_partial_trie()))).collect(),
        code,
    }
}
fn front(seq: &[usize]) -> Front {
    let instrs: Vec<_> = seq.iter().enumerate().map(|(at, k)| instr(*k, at)).collect();
    let result = crate::type1::frontend(instrs.clone())
        .map_err(|_| ())
        .map(|f| decoded(&f.state, f.storage, f.code.into_iter().map(|c| c.into_vec()).collect()));
    Front { instrs, result }
}
/// programs of the stack machine: all of one or two instructions
pub fn type1_two(i: usize) -> Option<Front> {
    match i {
        0..19 => Some(front(&[i])),
        19..380 => Some(front(&[(i - 19) % 19, (i - 19) / 19])),
        _ => None,
    }
}
/// selected longer ones
pub fn type1_long(i: usize) -> Option<Front> {
    SEQS.get(i).map(|s| front(s))
}
const PUSH: [usize; 6] = [0, 1, 2, 3, 4, 5];
const POP: [usize; 5] = [6, 7, 8, 9, 10];
/// two values and a consumer
pub fn type1_three(i: usize) -> Option<Front> {
    let (a, b, c) = (i % 6, i / 6 % 6, i / 36);
    Some(front(&[PUSH[a], PUSH[b], *POP.get(c)?]))
}

pub struct Front2 {
    instrs: Vec<Instruction>,
    result: Result<Peek, ()>,
}
/// what the world says about the account of the leaves
pub struct Peek {
    present: bool,
    balance: U256,
    nonce: U256,
    slots: Vec<Result<U256, ()>>,
    code: Vec<Vec<u8>>,
}
fn peek(mut w: Type2World, code: Vec<Vec<u8>>) -> Peek {
    let a = Address::from([7; 20]);
    let present = w.contains(a).unwrap();
    let slots = (0..16u64).map(|i| w.load_int(a, U256::from(i)).map_err(|_| ())).collect();
    let mut balance = U256::zero();
    w.update_balance(a, |x| balance = *x).unwrap();
    let mut nonce = U256::zero();
    w.update_nonce(a, |x| nonce = *x).unwrap();
    Peek { present, balance, nonce, slots, code }
}
fn instr2(k: usize, at: usize) -> Instruction {
    let x = at as u8 + 1;
    let leaf = |node_type, a: usize, v: usize| Instruction::SmtLeaf(SmtLeaf { node_type, address: bytes(a, 7), value: bytes(v, x) });
    match k {
        0 => Instruction::Branch { mask: 0b01 },
        1 => Instruction::Branch { mask: 0b10 },
        2 => Instruction::Branch { mask: 0b11 },
        3 => Instruction::Hash { raw_hash: [0x10 + x; 32] },
        4 => leaf(SmtLeafType::Balance, 20, 2),
        5 => leaf(SmtLeafType::Nonce, 20, 1),
        6 => leaf(SmtLeafType::Code, 20, 32),
        7 => leaf(SmtLeafType::Storage(bytes(1, 3)), 20, 3),
        8 => leaf(SmtLeafType::CodeLength, 20, 1),
        9 => Instruction::Code { raw_code: bytes(2, 0x20 + x) },
        10 => leaf(SmtLeafType::Balance, 19, 2),
        11 => leaf(SmtLeafType::Nonce, 20, 33),
        12 => leaf(SmtLeafType::Storage(bytes(33, 3)), 20, 3),
        13 => Instruction::Branch { mask: 0b111 },
        14 => Instruction::Branch { mask: 0 },
        15 => Instruction::EmptyRoot,
        16 => Instruction::Leaf { key: key(64, x), value: bytes(1, 0x30 + x) },
        _ => leaf(SmtLeafType::Storage(bytes(1, x)), 20, 3),
    }
}
const SEQS2: &[&[usize]] = &[
    &[2, 2, 3, 4, 0, 5],
    &[2, 2, 7, 17, 2, 8, 1, 6],
    &[2, 4, 4],
    &[2, 5, 5],
    &[2, 6, 6],
    &[2, 7, 7],
    &[2, 8, 8],
    &[2, 17, 17],
    &[2, 9, 4, 9, 3, 9],
    &[2, 4, 3, 3],
    &[2, 2, 4, 5],
    &[0, 1, 0, 3],
    &[1, 0, 1, 3],
    &[0, 0, 2, 1, 3, 4],
    &[],
];
fn front2(seq: &[usize]) -> Front2 {
    let instrs: Vec<_> = seq.iter().enumerate().map(|(at, k)| instr2(*k, at)).collect();
    let result = crate::type2::frontend(instrs.clone()).map_err(|_| ()).map(|f| {
        let mut c: Vec<_> = f.code.into_iter().map(|c| c.into_vec()).collect();
        c.sort();
        peek(f.world, c)
    });
    Front2 { instrs, result }
}
pub fn type2_two(i: usize) -> Option<Front2> {
    match i {
        0..18 => Some(front2(&[i])),
        18..342 => Some(front2(&[(i - 18) % 18, (i - 18) / 18])),
        _ => None,
    }
}
pub fn type2_long(i: usize) -> Option<Front2> {
    SEQS2.get(i).map(|s| front2(s))
}

// ---- wire format ----
const FORMS: &[&[u8]] = &[
    // leaf: key of one nibble, key of packed nibbles (even, odd, terminated)
    &[0, 0x41, 5, 0x42, 7, 8],
    &[0, 0x43, 0, 0x12, 0x34, 0x41, 7],
    &[0, 0x43, 1, 0x12, 0x30, 0x41, 7],
    &[0, 0x43, 2, 0x12, 0x34, 0x41, 7],
    &[0, 0x43, 3, 0x12, 0x30, 0x41, 7],
    &[1, 0x42, 0, 0x9a],
    &[2, 0x03],
    &[2, 0x19, 0x80, 0x01],
    &[2, 0x1b, 0, 0, 0, 1, 0, 0, 0, 1],
    &[3, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31],
    &[4, 0x43, 0xfe, 0, 1],
    // account leaf: key, flags, nonce, balance, code length
    &[5, 0x41, 5, 0],
    &[5, 0x41, 5, 1, 9],
    &[5, 0x41, 5, 2],
    &[5, 0x41, 5, 4, 0x18, 99],
    &[5, 0x41, 5, 8, 0x42, 1, 2],
    &[5, 0x41, 5, 15, 6, 0x41, 3, 9],
    &[6],
    &[7, 0, 0x42, 1, 2, 0x41, 3],
    &[7, 1, 0x42, 1, 2, 0x41, 3],
    &[7, 2, 0x42, 1, 2, 0x41, 3],
    &[7, 3, 0x42, 1, 2, 0x41, 4, 0x41, 3],
    &[7, 4, 0x42, 1, 2, 0x41, 3],
    &[0xbb],
    // malformed: unknown opcode, leaf type, flags, bits; empty, oversized and wrongly typed items
    &[8],
    &[0xff],
    &[7, 5, 0x42, 1, 2, 0x41, 3],
    &[5, 0x41, 5, 16],
    &[0, 0x43, 4, 0x12, 0x34, 0x41, 7],
    &[0, 0x41, 0x10, 0x41, 7],
    &[0, 0x43, 1, 0x12, 0x35, 0x41, 7],
    &[0, 0x40, 0x41, 7],
    &[0, 0x41, 5, 0x40],
    &[4, 0x40],
    &[2, 0x20],
    &[2, 0x41, 1],
    &[5, 0x41, 5, 4, 0x20],
    &[5, 0x41, 5, 8, 3],
    &[
        5, 0x41, 5, 8, 0x58, 33, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32,
        33,
    ],
    &[7, 0, 0x40, 0x41, 3],
];
pub struct Wire {
    bytes: Vec<u8>,
    result: Result<Vec<Instruction>, ()>,
}
fn wired(bytes: Vec<u8>) -> Wire {
    let result = crate::wire::parse(&bytes).map_err(|_| ()).map(|x| x.into_vec());
    Wire { bytes, result }
}
/// each form of an instruction, complete
pub fn wire_forms(i: usize) -> Option<Wire> {
    FORMS.get(i).map(|f| wired([&[0], *f].concat()))
}
/// after another instruction, with another header
pub fn wire_second(i: usize) -> Option<Wire> {
    FORMS.get(i).map(|f| wired([&[1, 6], *f, &[6]].concat()))
}
/// every proper prefix
pub fn wire_prefix(mut i: usize) -> Option<Wire> {
    for f in FORMS {
        // long items: a few prefixes
        let cuts: Vec<usize> = match f.len() {
            n if n > 12 => vec![1, 2, n / 2, n - 1],
            n => (1..n).collect(),
        };
        if i < cuts.len() {
            return Some(wired([&[0], &f[..cuts[i]]].concat()));
        }
        i -= cuts.len();
    }
    match i {
        0 => Some(wired(vec![])),
        1 => Some(wired(vec![0])),
        2 => Some(wired(vec![2, 6])),
        3 => Some(wired(vec![6, 6])),
        _ => None,
    }
}

// ---- from a block trace to the inputs of its proofs ----
pub struct Entry {
    hint: usize,
    paid: bool,
    gas: Vec<u64>,
    codes: Vec<Vec<u8>>,
    start: [u8; 32],
    end: Result<[u8; 32], ()>,
    result: Result<Vec<Input>, ()>,
}
pub struct Input {
    txns: u64,
    gas: [u64; 2],
    signed: Vec<Vec<u8>>,
    withdrawals: Vec<([u8; 20], u64)>,
    state: [u8; 32],
    storage: Vec<([u8; 32], [u8; 32])>,
    held: Vec<(Vec<u8>, Result<Acct, [u8; 32]>)>,
    tries: [[u8; 32]; 2],
    after: [[u8; 32]; 3],
    checkpoint: [u8; 32],
    consolidated: [u64; 4],
    ger: Option<([u8; 32], [u8; 32])>,
    burn: Option<[u8; 20]>,
    number: u64,
    hashes: ([u8; 32], [u8; 32], usize),
    code: Vec<([u8; 32], Vec<u8>)>,
}
fn other(withdrawals: Vec<(Address, U256)>) -> OtherBlockData {
    OtherBlockData {
        b_data: BlockLevelData {
            b_meta: BlockMetadata { block_timestamp: U256::from(10_000u64), block_number: U256::from(5), parent_beacon_block_root: H256([0x0B; 32]), ..Default::default() },
            b_hashes: evm_arithmetization::proof::BlockHashes { prev_hashes: vec![H256([0x51; 32]); 3], cur_hash: H256([0x52; 32]) },
            withdrawals,
        },
        checkpoint_state_trie_root: H256([0x53; 32]),
        checkpoint_consolidated_hash: [1u64, 2, 3, 4].map(plonky2::field::goldilocks_field::GoldilocksField),
        burn_addr: Some(Address::from([0x54; 20])),
        ger_data: Some((H256([0x55; 32]), H256([0x56; 32]))),
    }
}
fn world0() -> (StateMpt, BTreeMap<H256, StorageTrie>) {
    let mut state = StateMpt::new();
    let mut storage = BTreeMap::new();
    for a in [evm_arithmetization::testing_utils::BEACON_ROOTS_CONTRACT_ADDRESS, Address::from(old(1)), Address::from(old(2)), Address::from(old(3))] {
        let k = keccak_hash::keccak(a);
        state.insert(k, evm_arithmetization::generation::mpt::AccountRlp { balance: U256::from(1000), nonce: U256::from(2000), ..Default::default() }).unwrap();
        storage.insert(k, StorageTrie::default());
    }
    (state, storage)
}
pub fn entry0(i: usize) -> Option<Entry> {
    [(0, 1, true), (3, 2, false), (2, 2, true)].get(i).map(|(n, h, p)| entry(*n, *h, *p))
}
pub fn entry1(i: usize) -> Option<Entry> {
    [(4, 1, true), (1, 3, false)].get(i).map(|(n, h, p)| entry(*n, *h, *p))
}
pub fn entry2(i: usize) -> Option<Entry> {
    [(3, 3, true), (2, 1, false), (0, 2, false)].get(i).map(|(n, h, p)| entry(*n, *h, *p))
}
pub fn entry3(i: usize) -> Option<Entry> {
    [(4, 2, true), (1, 0, true)].get(i).map(|(n, h, p)| entry(*n, *h, *p))
}
fn entry(n: usize, hint: usize, paid: bool) -> Entry {
    let bal = |j: usize| 60 + j as u64;
    let txns: Vec<Txn> = (0..n)
        .map(|j| {
            let t = match j {
                3 => Touch { nonce: Some(9), ..touch(0, old(2)) },
                _ => Touch { balance: Some(bal(j)), written: vec![(slot(j as u8), 4)], code: Code::Known, ..touch(0, old(1)) },
            };
            txn(j as u8 + 1, true, vec![t]).unwrap()
        })
        .collect();
    let (state, storage) = world0();
    let start = state.root().0;
    let mut w: Vec<(Address, U256)> = vec![];
    if paid {
        w = vec![(Address::from(old(1)), U256::from(7)), (Address::from(young(4)), U256::from(8))];
    }
    let end = (|| {
        let mut x = Type1World::new(state.clone(), storage.clone())?;
        let b = evm_arithmetization::testing_utils::BEACON_ROOTS_CONTRACT_ADDRESS;
        x.store_int(b, U256::from(10_000u64 % 8191), U256::from(10_000u64))?;
        x.store_int(b, U256::from(10_000u64 % 8191 + 8191), U256::from_big_endian(&[0x0B; 32]))?;
        for (j, t) in txns.iter().enumerate() {
            for t in &t.touches {
                let a = Address::from(t.addr);
                if let Some(v) = t.balance {
                    x.update_balance(a, |b| *b = U256::from(v))?;
                }
                if let Some(v) = t.nonce {
                    x.update_nonce(a, |b| *b = U256::from(v))?;
                }
                if let Code::Known = t.code {
                    x.set_code(a, Either::Left(&KNOWN))?;
                }
                for (s, v) in &t.written {
                    x.store_int(a, U256::from_big_endian(s), U256::from(*v))?;
                }
            }
            let _ = j;
        }
        for (a, v) in &w {
            x.update_balance(*a, |b| *b += *v * U256::from(1_000_000_000u64))?;
        }
        anyhow::Ok(x.root().0)
    })()
    .map_err(|_| ());
    let trace = BlockTrace {
        trie_pre_images: BlockTraceTriePreImages::Separate(SeparateTriePreImages {
            state: SeparateTriePreImage::Direct(state.into()),
            storage: SeparateStorageTriesPreImage::MultipleTries(storage.into_iter().map(|(k, v)| (k, SeparateTriePreImage::Direct(v.into()))).collect()),
        }),
        code_db: [KNOWN.to_vec()].into_iter().collect(),
        txn_info: txns.iter().map(real).collect(),
    };
    let result = entrypoint(trace, other(w), hint, &mut crate::observer::DummyObserver::new(), WireDisposition::Type1).map_err(|_| ());
    Entry {
        hint,
        paid,
        gas: txns.iter().map(|t| t.gas).collect(),
        codes: txns.iter().map(|t| t.code.clone()).collect(),
        start,
        end,
        result: result.map(|v| {
            v.into_iter()
                .map(|g| Input {
                    txns: g.txn_number_before.low_u64(),
                    gas: [g.gas_used_before.low_u64(), g.gas_used_after.low_u64()],
                    signed: g.signed_txns,
                    withdrawals: g.withdrawals.into_iter().map(|(a, x)| (a.0, x.low_u64())).collect(),
                    state: g.tries.state_trie.hash().0,
                    held: held(&g.tries.state_trie),
                    storage: g.tries.storage_tries.iter().map(|(k, t)| (k.0, t.hash().0)).collect(),
                    tries: [g.tries.transactions_trie.hash().0, g.tries.receipts_trie.hash().0],
                    after: [g.trie_roots_after.state_root.0, g.trie_roots_after.transactions_root.0, g.trie_roots_after.receipts_root.0],
                    checkpoint: g.checkpoint_state_trie_root.0,
                    consolidated: g.checkpoint_consolidated_hash.map(|x| x.0),
                    ger: g.ger_data.map(|(a, b)| (a.0, b.0)),
                    burn: g.burn_addr.map(|a| a.0),
                    number: g.block_metadata.block_number.low_u64(),
                    hashes: (g.block_hashes.prev_hashes[0].0, g.block_hashes.cur_hash.0, g.block_hashes.prev_hashes.len()),
                    code: {
                        let mut c: Vec<_> = g.contract_code.into_iter().map(|(h, c)| (h.0, c)).collect();
                        c.sort();
                        c
                    },
                })
                .collect()
        }),
    }
}
fn held(t: &mpt_trie::partial_trie::HashedPartialTrie) -> Vec<(Vec<u8>, Result<Acct, [u8; 32]>)> {
    items(t)
        .into_iter()
        .map(|(k, v)| {
            let v = v.map(|v| {
                let a: evm_arithmetization::generation::mpt::AccountRlp = rlp::decode(&v).unwrap();
                Acct { nonce: a.nonce.low_u64(), balance: a.balance.low_u64(), root: a.storage_root.0, code: a.code_hash.0 }
            });
            (k, v)
        })
        .collect()
}

/// pre-images that are malformed: paths and values at the wrong place
pub fn preimage(i: usize) -> Option<Result<(), ()>> {
    let (state, storage) = world0();
    let mut s: mpt_trie::partial_trie::HashedPartialTrie = state.into();
    let nib = |h: H256| MptKey::from_hash(h).into_nibbles();
    let k = |n: u8| keccak_hash::keccak(old(n));
    let mut st: std::collections::HashMap<H256, SeparateTriePreImage> = storage.into_iter().map(|(k, v)| (k, SeparateTriePreImage::Direct(v.into()))).collect();
    match i {
        // well-formed
        0 => {}
        // an account at a path of the wrong length
        1 => {
            s = Default::default();
            let mut p = nib(k(1));
            p.pop_next_nibble_front();
            s.insert(p, rlp::encode(&evm_arithmetization::generation::mpt::AccountRlp::default()).to_vec()).unwrap()
        }
        // a value that is not an account
        2 => s.insert(nib(k(1)), vec![0x80]).unwrap(),
        3 => s.insert(nib(k(1)), vec![]).unwrap(),
        4 => s.insert(nib(k(1)), vec![0xc1, 0x01]).unwrap(),
        // the storage of an account is not the one committed to
        5 => {
            let mut t = StorageTrie::default();
            t.insert(MptKey::from_hash(k(1)), vec![1]).unwrap();
            st.insert(k(1), SeparateTriePreImage::Direct(t.into()));
        }
        // the storage of an account is not given
        6 => {
            st.remove(&k(1));
        }
        _ => return None,
    }
    let r = start(
        BlockTraceTriePreImages::Separate(SeparateTriePreImages {
            state: SeparateTriePreImage::Direct(s),
            storage: SeparateStorageTriesPreImage::MultipleTries(st),
        }),
        WireDisposition::Type1,
    );
    Some(r.map(|_| ()).map_err(|_| ()))
}
