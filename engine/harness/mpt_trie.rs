//! in lib.rs
//! Abstract tries handed to the analysed operations. Only read by the analysis driver: never linked, never run.
//! Each function describes its i-th case; `oracle_*` describe what a recursive call may return (an induction hypothesis).
use std::sync::Arc;

use ethereum_types::H256;

use crate::nibbles::Nibbles;
use crate::partial_trie::{HashedPartialTrie, Node, OnOrphanedHashNode, PartialTrie, StandardTrie, TrieNodeIntern, WrappedNode};
use crate::trie_ops::{TrieOpError, ValOrHash};
use crate::trie_subsets::{create_trie_subset, create_trie_subsets};

type T = HashedPartialTrie;
type W = WrappedNode<T>;

fn oracle_off() {}
fn oracle_err<E>(_e: E) {}
fn oracle_none() {}
fn oracle_some(_n: W, _v: Vec<u8>) {}

fn nib(s: &[u8]) -> Nibbles {
    let mut r = Nibbles::new();
    for n in s {
        r = r.merge_nibbles(&Nibbles::from_nibble(*n));
    }
    r
}
fn h(id: u64) -> H256 {
    H256::from_low_u64_be(id)
}
fn val(id: u8) -> Vec<u8> {
    vec![id; 33]
}
fn empty() -> Node<T> {
    Node::Empty
}
fn hash(id: u64) -> Node<T> {
    Node::Hash(h(id))
}
fn leaf(k: &[u8], id: u8) -> Node<T> {
    Node::Leaf { nibbles: nib(k), value: val(id) }
}
fn ext(k: &[u8], c: Node<T>) -> Node<T> {
    Node::Extension { nibbles: nib(k), child: c.into() }
}
fn branch(cs: Vec<(usize, Node<T>)>) -> Node<T> {
    let mut children: [W; 16] = core::array::from_fn(|_| Node::Empty.into());
    for (i, c) in cs {
        children[i] = c.into();
    }
    Node::Branch { children, value: vec![] }
}
/// a node of each kind that can stand at depth `len` before the end of a key
fn kind(k: usize, len: usize, id: u8) -> Node<T> {
    let key = [7u8; 8];
    match k {
        0 => empty(),
        1 => leaf(&key[..len], id),
        2 => ext(&key[..1], branch(vec![(1, leaf(&key[..len - 2], id)), (2, leaf(&key[..len - 2], id + 1))])),
        3 => branch(vec![(3, leaf(&key[..len - 1], id)), (9, hash(id as u64 + 1000))]),
        4 => hash(id as u64 + 2000),
        _ => ext(&key[..1], hash(id as u64 + 3000)),
    }
}
fn strategy(s: usize) -> OnOrphanedHashNode {
    match s {
        0 => OnOrphanedHashNode::Reject,
        _ => OnOrphanedHashNode::CollapseToExtension,
    }
}

/// what the recursive call returns: error, nothing, or a node
fn oracle(o: usize, len: usize, v: u8) -> R {
    let key = [5u8; 8];
    let n: Node<T> = match o {
        0 => {
            oracle_err(TrieOpError::HashNodeInsertError(h(4000)));
            return R::Empty;
        }
        1 => {
            oracle_none();
            return R::Empty;
        }
        2 => empty(),
        3 => leaf(&key[..len], 50),
        4 => branch(vec![(1, leaf(&key[..len - 1], 51)), (2, hash(5001))]),
        5 => ext(&key[..1], branch(vec![(1, leaf(&key[..len - 2], 52)), (2, hash(5002))])),
        // a branch that lost all but one child, not yet merged with what it leads to
        6 => ext(&key[..1], leaf(&key[..len - 1], 53)),
        7 => ext(&key[..1], ext(&key[..1], branch(vec![(1, leaf(&key[..len.saturating_sub(3)], 54)), (2, hash(5003))]))),
        8 => ext(&key[..1], hash(5004)),
        _ => {
            oracle_off();
            return R::Empty;
        }
    };
    let r = show(&n);
    oracle_some(n.into(), val(v));
    r
}

/// a trie in plain form
pub enum R {
    Empty,
    Hash([u8; 32]),
    Leaf(Vec<u8>, Vec<u8>),
    Ext(Vec<u8>, Box<R>),
    Branch(Vec<R>, Vec<u8>),
}
fn path(k: &Nibbles) -> Vec<u8> {
    (0..k.count).map(|i| k.get_nibble(i)).collect()
}
fn short(v: &[u8]) -> Vec<u8> {
    match v.is_empty() {
        true => vec![],
        false => vec![v[0], v.len() as u8],
    }
}
fn show(n: &Node<T>) -> R {
    match n {
        Node::Empty => R::Empty,
        Node::Hash(h) => R::Hash(h.0),
        Node::Leaf { nibbles, value } => R::Leaf(path(nibbles), short(value)),
        Node::Extension { nibbles, child } => R::Ext(path(nibbles), Box::new(show(child))),
        Node::Branch { children, value } => R::Branch(children.iter().map(|c| show(c)).collect(), short(value)),
    }
}

/// before, value or hash, assumed result of the recursive call, result, after
pub struct Out<X> {
    before: R,
    value: bool,
    collapse: bool,
    assumed: usize,
    child: R,
    result: Result<X, ()>,
    after: R,
}

/// insertion of key 1234 at a node of each kind
pub fn insert(i: usize) -> Option<Out<()>> {
    let (t, val_or_hash, o): (Node<T>, bool, usize) = insert_case(i)?;
    let len = if i / 2 >= 18 + 24 { 2 } else { 3 };
    let v = match val_or_hash {
        true => ValOrHash::Val(val(99)),
        false => ValOrHash::Hash(h(9999)),
    };
    let mut t = T::new(t);
    let before = show(&t);
    let child = oracle(o, len, 98);
    let r = t.insert(nib(&[1, 2, 3, 4]), v);
    oracle_off();
    Some(Out { before, value: val_or_hash, collapse: false, assumed: o, child, result: r.map_err(|_| ()), after: show(&t) })
}

fn insert_case(i: usize) -> Option<(Node<T>, bool, usize)> {
    // values and hashes
    let (i, v) = (i / 2, i % 2 == 0);
    let fixed = |i: usize| -> Option<Node<T>> {
        Some(match i {
            0 => empty(),
            1 => hash(1),
            2 => leaf(&[1, 2, 3, 4], 10),
            3 => leaf(&[5, 2, 3, 4], 10),
            4 => leaf(&[1, 5, 3, 4], 10),
            5 => leaf(&[1, 2, 3, 5], 10),
            6 => ext(&[5], kind(3, 3, 11)),
            7 => ext(&[5, 6], kind(3, 2, 11)),
            8 => ext(&[1, 5], kind(3, 2, 11)),
            9 => ext(&[1, 5, 6], kind(3, 1, 11)),
            10 => ext(&[5], hash(12)),
            11 => ext(&[5, 6], hash(12)),
            12 => ext(&[1, 5], hash(12)),
            13 => ext(&[1, 2, 3, 5], hash(12)),
            14 => ext(&[1, 2, 3, 4], hash(12)),
            15 => ext(&[1, 2], hash(12)),
            16 => branch(vec![(1, hash(13)), (2, leaf(&[1, 1, 1], 14))]),
            17 => branch(vec![(1, empty()), (2, leaf(&[1, 1, 1], 14)), (3, hash(15))]),
            _ => return None,
        })
    };
    if let Some(n) = fixed(i) {
        return Some((n, v, 9));
    }
    let i = i - 18;
    // descending: what the call on the child returns decides
    let os = [0, 3, 4, 5];
    let (i, o) = (i / 4, os[i % 4]);
    Some((
        match i {
            0..=4 => branch(vec![(1, kind([1, 2, 3, 4, 5][i], 3, 20)), (2, kind(1, 3, 24)), (3, kind(4, 3, 25)), (15, kind(3, 3, 26))]),
            5 => ext(&[1], branch(vec![(2, kind(1, 2, 30)), (3, hash(31))])),
            6 => ext(&[1, 2], branch(vec![(3, kind(1, 1, 30)), (4, hash(31))])),
            _ => return None,
        },
        v,
        o,
    ))
}

/// deletion of key 1234 at a node of each kind
pub fn delete(i: usize) -> Option<Out<Option<Vec<u8>>>> {
    // rejecting, collapsing, collapsing in a copy
    let (i, s) = (i / 3, i % 3);
    let (t, o, len) = delete_case(i)?;
    let mut t = T::new_with_strategy(t, strategy(s));
    if s == 2 {
        t = t.clone();
    }
    let before = show(&t);
    let child = oracle(o, len, 98);
    let r = t.delete(nib(&[1, 2, 3, 4]));
    oracle_off();
    let r = r.map(|v| v.map(|v| short(&v))).map_err(|_| ());
    Some(Out { before, value: true, collapse: s > 0, assumed: o, child, result: r, after: show(&t) })
}

fn delete_case(i: usize) -> Option<(Node<T>, usize, usize)> {
    let n = match i {
        0 => empty(),
        1 => hash(1),
        2 => leaf(&[1, 2, 3, 4], 10),
        3 => leaf(&[1, 2, 3, 5], 10),
        4 => leaf(&[5, 2, 3, 4], 10),
        5 => ext(&[5, 6], kind(3, 2, 11)),
        6 => ext(&[5, 6], hash(12)),
        7 => ext(&[1, 2], hash(12)),
        8 => ext(&[1, 2, 3, 4], hash(12)),
        9 => ext(&[1, 2, 3, 5], hash(12)),
        10 => branch(vec![(1, hash(13)), (2, leaf(&[1, 1, 1], 14))]),
        11 => branch(vec![(3, hash(13)), (2, leaf(&[1, 1, 1], 14))]),
        12 => branch(vec![(1, leaf(&[2, 3, 5], 10)), (2, leaf(&[1, 1, 1], 14))]),
        13 => branch(vec![(1, leaf(&[2, 3, 4], 10)), (2, leaf(&[1, 1, 1], 14))]),
        14 => branch(vec![(1, leaf(&[2, 3, 4], 10)), (2, leaf(&[1, 1, 1], 14)), (3, hash(15))]),
        // two levels, nothing assumed about recursive calls
        15 => ext(&[1, 2], branch(vec![(3, leaf(&[4], 10)), (5, leaf(&[6], 11))])),
        16 => ext(&[1, 2], branch(vec![(3, leaf(&[4], 10)), (5, hash(16))])),
        17 => branch(vec![(1, branch(vec![(2, leaf(&[3, 4], 10)), (5, hash(16))])), (7, leaf(&[1, 1, 1], 12))]),
        18 => branch(vec![(1, branch(vec![(2, leaf(&[3, 4], 10)), (5, leaf(&[1, 1], 16))])), (7, hash(17))]),
        19 => ext(&[1], branch(vec![(2, leaf(&[3, 4], 10)), (5, ext(&[1], branch(vec![(1, leaf(&[], 11)), (2, leaf(&[], 12))])))])),
        _ => {
            let (i, o) = ((i - 20) / 9, (i - 20) % 9);
            // the child may vanish: one, two and three siblings of every kind
            return Some(match i {
                0..=4 => (branch(vec![(1, kind(3, 3, 20)), (6, kind([1, 2, 3, 4, 5][i], 3, 25))]), o, 3),
                5..=9 => (branch(vec![(0, kind([1, 2, 3, 4, 5][i - 5], 3, 25)), (1, kind(2, 3, 20))]), o, 3),
                10 => (branch(vec![(0, kind(1, 3, 25)), (1, kind(1, 3, 20)), (9, kind(4, 3, 30))]), o, 3),
                11 => (branch(vec![(1, kind(1, 3, 20)), (8, kind(4, 3, 25)), (9, kind(4, 3, 30)), (15, kind(3, 3, 35))]), o, 3),
                // an extension leads to a branch
                12 => (ext(&[1], branch(vec![(2, kind(1, 2, 20)), (3, hash(31))])), o, 3),
                13 => (ext(&[1, 2], branch(vec![(3, kind(1, 1, 20)), (4, leaf(&[5], 31))])), o, 2),
                _ => return None,
            });
        }
    };
    Some((n, 9, 0))
}

/// the trie subsets are taken from
fn big() -> Node<T> {
    branch(vec![
        (0, leaf(&[1, 1, 1], 1)),
        (1, ext(&[2], branch(vec![(3, leaf(&[4], 2)), (4, leaf(&[4], 3)), (5, hash(90))]))),
        (2, branch(vec![(0, hash(91)), (7, leaf(&[7, 7], 4)), (8, leaf(&[8, 8], 5))])),
        (3, hash(92)),
        (4, ext(&[4, 4], hash(93))),
        (5, Node::Leaf { nibbles: nib(&[5, 5, 5]), value: vec![6] }),
    ])
}

fn keys(i: usize) -> Option<Vec<Vec<u8>>> {
    let k = |x: &[u8]| x.to_vec();
    Some(match i {
        0 => vec![],
        1 => vec![k(&[0, 1, 1, 1])],
        2 => vec![k(&[1, 2, 3, 4])],
        3 => vec![k(&[1, 2, 5, 4])],
        4 => vec![k(&[1, 3, 3, 4])],
        5 => vec![k(&[1, 2, 6, 4])],
        6 => vec![k(&[2, 7, 7, 7])],
        7 => vec![k(&[2, 0, 7, 7])],
        8 => vec![k(&[3, 0, 7, 7])],
        9 => vec![k(&[4, 4, 4, 7])],
        10 => vec![k(&[4, 4, 5, 7])],
        11 => vec![k(&[5, 5, 5, 5])],
        12 => vec![k(&[6, 5, 5, 5])],
        13 => vec![k(&[0, 1, 1, 1]), k(&[1, 2, 4, 4]), k(&[2, 8, 1, 1])],
        14 => vec![k(&[0, 1, 1, 1]), k(&[1, 2, 4, 4]), k(&[3, 8, 1, 1])],
        15 => vec![k(&[3, 8, 1, 1]), k(&[0, 1, 1, 1])],
        16 => vec![k(&[1])],
        17 => vec![k(&[1, 2])],
        18 => vec![k(&[2])],
        19 => vec![k(&[3])],
        20 => vec![k(&[4, 4, 4])],
        _ => return None,
    })
}

fn paths(n: &Node<T>, at: Nibbles, out: &mut Vec<(Vec<u8>, [u8; 32])>) {
    out.push((path(&at), T::new(n.clone()).hash().0));
    match n {
        Node::Branch { children, .. } => {
            for i in 0..16u8 {
                paths(&children[i as usize], at.merge_nibbles(&Nibbles::from_nibble(i)), out);
            }
        }
        Node::Extension { nibbles, child } => paths(child, at.merge_nibbles(nibbles), out),
        _ => {}
    }
}

/// trie, keys per subset, hash of every node, subsets
pub struct Sub {
    trie: R,
    keys: Vec<Vec<Vec<u8>>>,
    hashes: Vec<(Vec<u8>, [u8; 32])>,
    result: Result<Vec<R>, ()>,
}

/// a subset of one trie
pub fn subset(i: usize) -> Option<Sub> {
    let ks = keys(i)?;
    let kn: Vec<Nibbles> = ks.iter().map(|k| nib(k)).collect();
    let t = T::new(big());
    let mut hashes = vec![];
    paths(&big(), Nibbles::new(), &mut hashes);
    let r = create_trie_subset(&t, kn).map_err(|_| ());
    Some(Sub { trie: show(&t), keys: vec![ks], hashes, result: r.map(|t| vec![show(&t)]) })
}

/// several subsets of one trie, one after another
pub fn subsets(i: usize) -> Option<Sub> {
    let k = |x: &[u8]| vec![x.to_vec()];
    let ks: Vec<Vec<Vec<u8>>> = match i {
        0 => vec![k(&[0, 1, 1, 1]), k(&[1, 2, 3, 4]), k(&[2, 7, 7, 7])],
        1 => vec![k(&[0, 1, 1, 1]), k(&[3, 2, 3, 4]), k(&[2, 7, 7, 7])],
        2 => vec![k(&[1, 2, 3, 4]), k(&[0, 1, 1, 1])],
        3 => vec![k(&[1, 2, 3, 4]), vec![], k(&[2, 0, 0, 4])],
        _ => return None,
    };
    let kn: Vec<Vec<Nibbles>> = ks.iter().map(|x| x.iter().map(|k| nib(k)).collect()).collect();
    let t = T::new(big());
    let mut hashes = vec![];
    paths(&big(), Nibbles::new(), &mut hashes);
    let r = create_trie_subsets(&t, kn).map_err(|_| ());
    Some(Sub { trie: show(&t), keys: ks, hashes, result: r.map(|ts| ts.iter().map(|t| show(t)).collect()) })
}

/// deep copy that shares nothing
fn fresh(n: &Node<T>) -> T {
    T::new(match n {
        Node::Empty => Node::Empty,
        Node::Hash(h) => Node::Hash(*h),
        Node::Leaf { nibbles, value } => Node::Leaf { nibbles: *nibbles, value: value.clone() },
        Node::Extension { nibbles, child } => Node::Extension { nibbles: *nibbles, child: Arc::new(Box::new(fresh(child))) },
        Node::Branch { children, value } => Node::Branch {
            children: core::array::from_fn(|i| Arc::new(Box::new(fresh(&children[i])))),
            value: value.clone(),
        },
    })
}
fn encoded(t: &T) -> [u8; 32] {
    H256::from(&t.hash_intern()).0
}

/// what a trie and a copy of it report, and what a trie built from scratch with the same contents does
pub struct Cached {
    op: &'static str,
    who: &'static str,
    reported: [u8; 32],
    nested: [u8; 32],
    fresh: [u8; 32],
}

fn small() -> Node<T> {
    branch(vec![(1, leaf(&[2, 3, 4], 10)), (2, leaf(&[1, 1, 1], 14)), (3, hash(15))])
}

/// every operation, on a trie whose hash is or is not cached, with and without a copy made before
pub fn cached(i: usize) -> Option<Vec<Cached>> {
    let (i, pre) = (i / 4, i % 4);
    let mut t = T::new_with_strategy(small(), OnOrphanedHashNode::Reject);
    if pre & 1 == 1 {
        t.hash_intern();
    }
    let copy = match pre & 2 {
        0 => None,
        _ => Some(t.clone()),
    };
    let k = |x: &[u8]| nib(x);
    let v = |x: u8| ValOrHash::Val(val(x));
    let mut more = vec![];
    let op = match i {
        0 => "nothing",
        1 => {
            let _ = t.insert(k(&[1, 2, 3, 4]), v(77));
            "insert: replaced"
        }
        2 => {
            let _ = t.insert(k(&[5, 2, 3, 4]), v(77));
            "insert: added"
        }
        3 => {
            let _ = t.insert(k(&[3, 2, 3, 4]), v(77));
            "insert: error"
        }
        4 => {
            let _ = t.extend(vec![(k(&[1, 2, 3, 4]), v(77)), (k(&[6, 2, 3, 4]), v(78))]);
            "extend"
        }
        5 => {
            let _ = t.extend(vec![(k(&[1, 2, 3, 4]), v(77)), (k(&[3, 2, 3, 4]), v(78))]);
            "extend: error after a change"
        }
        6 => {
            let _ = t.delete(k(&[1, 2, 3, 4]));
            "delete"
        }
        7 => {
            let _ = t.delete(k(&[1, 2, 3, 5]));
            "delete: absent"
        }
        8 => {
            let _ = t.delete(k(&[3, 2, 3, 5]));
            "delete: error"
        }
        9 => {
            let n: &mut Node<T> = &mut t;
            *n = leaf(&[1, 2, 3, 4], 44);
            "write through DerefMut"
        }
        10 => {
            if let Node::Branch { children, .. } = &mut *t {
                children[1] = leaf(&[2, 3, 4], 45).into();
            }
            "child replaced through DerefMut"
        }
        11 => {
            if let Node::Branch { value, .. } = &mut *t {
                *value = val(46);
            }
            "value replaced through DerefMut"
        }
        12 => {
            more.push(("default", T::default()));
            more.push(("from node", T::from(small())));
            more.push(("new", T::new(small())));
            "constructors"
        }
        13 => {
            // the copy is used: its hash must not become this one's
            let mut c = t.clone();
            let _ = c.insert(k(&[1, 2, 3, 4]), v(79));
            c.hash_intern();
            more.push(("changed copy", c));
            "copy changed and hashed"
        }
        14 => {
            let mut c = t.clone();
            *c = leaf(&[1, 2, 3, 4], 44);
            c.hash_intern();
            more.push(("changed copy", c));
            "copy replaced and hashed"
        }
        15 => {
            let c = t.clone();
            let _ = t.insert(k(&[1, 2, 3, 4]), v(77));
            t.hash_intern();
            more.push(("copy", c));
            "changed and hashed, copy made before"
        }
        16 => {
            let mut c = t.clone();
            let _ = c.delete(k(&[1, 2, 3, 4]));
            let s = create_trie_subset(&c, Vec::<Nibbles>::new());
            if let Ok(s) = s {
                more.push(("subset of the copy", s));
            }
            more.push(("changed copy", c));
            "subset of a changed copy"
        }
        17 => {
            if let Ok(s) = create_trie_subset(&t, vec![k(&[1, 2, 3, 4])]) {
                more.push(("subset", s));
            }
            "subset"
        }
        18 => {
            let p = T::new(branch(vec![(4, small()), (5, leaf(&[1], 3))]));
            p.hash_intern();
            let mut c = p.clone();
            if let Node::Branch { children, .. } = &mut *c {
                children[4] = leaf(&[2, 3, 4], 45).into();
            }
            more.push(("parent", p));
            more.push(("changed parent", c));
            "parent"
        }
        19 => {
            let mut p = T::new(branch(vec![(1, branch(vec![(2, leaf(&[3, 4], 3)), (3, leaf(&[3, 4], 4))])), (5, leaf(&[1, 1, 1], 3))]));
            p.hash_intern();
            let c = p.clone();
            let _ = p.insert(k(&[1, 2, 3, 4]), v(80));
            more.push(("copy", c));
            more.push(("changed", p));
            "nested insert"
        }
        _ => return None,
    };
    let mut all = vec![("trie", t)];
    if let Some(c) = copy {
        all.push(("copy", c));
    }
    all.extend(more);
    Some(
        all.iter()
            .map(|(who, t)| {
                let f = fresh(t);
                // as reported before anything else is asked, then again as part of a parent
                let reported = t.hash().0;
                let nested = encoded(t);
                let again = t.hash().0;
                Cached { op, who, reported, nested: if again == reported { nested } else { again }, fresh: f.hash().0 }
            })
            .collect(),
    )
}

/// encodings: a node of every shape and the hash it reports
pub fn encoding(i: usize) -> Option<(Full, [u8; 32])> {
    let lens = [1usize, 2, 31, 32, 33, 54, 55, 56, 57, 255, 256, 257, 300];
    let v = |n: usize, b: u8| vec![b; n];
    let lf = |k: &[u8], v: Vec<u8>| Node::Leaf { nibbles: nib(k), value: v };
    let n: Node<T> = match i {
        0 => empty(),
        1 => hash(1),
        2 => lf(&[], v(40, 9)),
        3 => lf(&[1], v(40, 9)),
        4 => lf(&[1, 2], v(40, 9)),
        5 => lf(&[0, 2, 3], v(40, 9)),
        6 => lf(&[0, 0, 3, 4], v(40, 9)),
        7 => lf(&[0; 64], v(40, 9)),
        8 => lf(&[15; 63], v(40, 9)),
        9 => lf(&[1], vec![]),
        10 => lf(&[1], vec![0]),
        11 => lf(&[1], vec![0x7f]),
        12 => lf(&[1], vec![0x80]),
        13 => ext(&[1], hash(2)),
        14 => ext(&[0, 2], hash(2)),
        15 => ext(&[1, 2, 3], lf(&[1], vec![1])),
        16 => ext(&[15, 2, 3, 0], branch(vec![(0, leaf(&[1], 1)), (15, leaf(&[2], 2))])),
        17 => ext(&[1; 62], branch(vec![(0, lf(&[], vec![1])), (15, lf(&[], vec![2]))])),
        18 => branch(vec![]),
        19 => branch(vec![(0, leaf(&[1], 1)), (1, lf(&[2], vec![3])), (15, hash(7))]),
        20 => branch((0..16).map(|i| (i, hash(i as u64 + 1))).collect()),
        21 => branch((0..16).map(|i| (i, lf(&[], vec![i as u8]))).collect()),
        22 => Node::Branch { children: core::array::from_fn(|_| Node::Empty.into()), value: vec![1, 2, 3] },
        23 => Node::Branch { children: core::array::from_fn(|_| hash(3).into()), value: val(4) },
        24 => Node::Branch { children: core::array::from_fn(|_| Node::Empty.into()), value: vec![0x80] },
        25 => branch(vec![(3, ext(&[1], branch(vec![(0, leaf(&[1], 1)), (15, leaf(&[2], 2))]))), (4, ext(&[1, 2], hash(1)))]),
        // children at the boundary of inlining (31 and 32 bytes)
        26 => branch(vec![(1, lf(&[1], v(27, 9))), (2, lf(&[1], v(28, 9))), (3, lf(&[1], v(29, 9))), (4, lf(&[1], v(30, 9)))]),
        27 => ext(&[1], lf(&[1], v(28, 9))),
        28 => ext(&[1], lf(&[1], v(29, 9))),
        _ => {
            let i = i - 29;
            if i >= lens.len() * 2 {
                return None;
            }
            let b = if i % 2 == 0 { 9 } else { 0x80 };
            lf(&[1, 2, 3], v(lens[i / 2], b))
        }
    };
    let f = full(&n);
    Some((f, T::new(n).hash().0))
}
pub enum Full {
    Empty,
    Hash([u8; 32]),
    Leaf(Vec<u8>, Vec<u8>),
    Ext(Vec<u8>, Box<Full>),
    Branch(Vec<Full>, Vec<u8>),
}
fn full(n: &Node<T>) -> Full {
    match n {
        Node::Empty => Full::Empty,
        Node::Hash(h) => Full::Hash(h.0),
        Node::Leaf { nibbles, value } => Full::Leaf(path(nibbles), value.clone()),
        Node::Extension { nibbles, child } => Full::Ext(path(nibbles), Box::new(full(child))),
        Node::Branch { children, value } => Full::Branch(children.iter().map(|c| full(c)).collect(), value.clone()),
    }
}
/// the same for tries that do not cache
pub fn encoding_standard(i: usize) -> Option<(Full, [u8; 32])> {
    let f = encoding(i)?.0;
    fn conv(f: &Full) -> StandardTrie {
        StandardTrie::new(match f {
            Full::Empty => Node::Empty,
            Full::Hash(h) => Node::Hash(H256(*h)),
            Full::Leaf(k, v) => Node::Leaf { nibbles: nib(k), value: v.clone() },
            Full::Ext(k, c) => Node::Extension { nibbles: nib(k), child: conv(c).0.into() },
            Full::Branch(cs, v) => Node::Branch { children: core::array::from_fn(|i| conv(&cs[i]).0.into()), value: v.clone() },
        })
    }
    let t = conv(&f);
    Some((f, t.hash().0))
}
