"""M01-M03: partial tries. The trie operations are interpreted on abstract tries (engine/harness/mpt_trie.rs);
recursive calls are replaced by every kind of result they may have, so that each step of the recursion is decided for itself."""
import facts

CRATE = "mpt_trie"
_f = None
RLP_EMPTY = b"\x80"


def data(rep, root):
    global _f
    if _f is None:
        try:
            _f = facts.get(CRATE, [["h::insert"], ["h::delete"], ["h::subset"], ["h::cached"], ["h::encoding"]])
        except SystemExit as e:
            _f = {}
            rep.bad("trie-anchor", "mpt_trie", str(e))
    rep.ob()
    if root not in _f:
        rep.bad("trie-anchor", root, "the trie operations cannot be analysed: " + "; ".join(sorted(_f)))
        return []
    r = _f[root]
    out = []
    for i, c in enumerate(r.get("cases", [])):
        rep.ob()
        if "stop" in c:
            rep.bad("trie-undecided", root[3:], f"case {i}: {c['stop'][:700]}")
        else:
            out.append((i, c["value"]["Some"]["0"], any(e["k"] == "cut" for e in c["events"]), c["tags"]))
    rep.count("cases", len(out))
    if not r.get("cases"):
        rep.bad("trie-anchor", root, r.get("status", "no cases")[:700])
    return out


def tup(x):
    return tuple(x)


def node(j):
    """plain form -> ('E',) ('H',t) ('L',path,val) ('X',path,child) ('B',children,val)"""
    if j == "Empty":
        return ("E",)
    (k, v), = j.items()
    if k == "Hash":
        return ("H", tup(v["0"]))
    if k == "Leaf":
        return ("L", tup(v["0"]), tup(v["1"]))
    if k == "Ext":
        return ("X", tup(v["0"]), node(v["1"]))
    return ("B", tuple(node(c) for c in v["0"]), tup(v["1"]))


E = ("E",)


class Rejected(Exception):
    pass


def branch2(i, a, j, b):
    cs = [E] * 16
    cs[i], cs[j] = a, b
    return ("B", tuple(cs), ())


def ext(path, c):
    return ("X", path, c) if path else c


def put(n, key, val, step):
    """insertion by definition; `step` stands for the recursive call"""
    new = lambda k: ("L", k, val[1]) if val[0] else (("X", k, ("H", val[1])) if k else ("H", val[1]))
    if n[0] == "E":
        return new(key)
    if n[0] == "H":
        raise Rejected
    if n[0] == "B":
        i = key[0]
        cs = list(n[1])
        cs[i] = step(cs[i], key[1:], val)
        return ("B", tuple(cs), n[2])
    p = n[1]
    if n[0] == "L" and p == key:
        if not val[0]:
            raise Rejected
        return ("L", p, val[1])
    m = 0
    while m < len(p) and p[m] == key[m]:
        m += 1
    if n[0] == "X":
        if m == len(p):
            return ("X", p, step(n[2], key[m:], val))
        old = ext(p[m + 1:], n[2])
    else:
        old = ("L", p[m + 1:], n[2])
    return ext(p[:m], branch2(p[m], old, key[m], new(key[m + 1:])))


def join(path, c, collapse, known):
    """an extension in front of c, in canonical form; known: whether what a hash stands for is known not to be a leaf or extension"""
    if not path:
        return c
    if c[0] == "L":
        return ("L", path + c[1], c[2])
    if c[0] == "X":
        return join(path + c[1], c[2], collapse, True)
    if c[0] == "H" and not known and not collapse:
        raise Rejected
    return ("X", path, c)


def settle(n, collapse, fresh):
    """a result whose root may be an extension not yet merged with what it leads to"""
    if n[0] != "X":
        return n
    return join(n[1], n[2], collapse, not fresh)


def take(n, key, step, collapse):
    """deletion by definition: None (absent) or (node, value)"""
    if n[0] == "E":
        return None
    if n[0] == "H":
        raise Rejected
    if n[0] == "L":
        return (E, n[2]) if n[1] == key else None
    if n[0] == "X":
        m = len(n[1])
        if n[1] != key[:m]:
            return None
        r = step(n[2], key[m:])
        if r is None:
            return None
        return join(n[1], r[0], collapse, False), r[1]
    i = key[0]
    r = step(n[1][i], key[1:])
    if r is None:
        return None
    cs = list(n[1])
    cs[i] = r[0]
    left = [j for j, c in enumerate(cs) if c != E]
    if len(left) == 1 and not n[2]:
        return join((left[0],), cs[left[0]], collapse, False), r[1]
    return ("B", tuple(cs), n[2]), r[1]


def put_all(n, key, val):
    return put(n, key, val, put_all)


def show(n, d=0):
    h = lambda p: "".join("%x" % x for x in p)
    if n is None:
        return "nothing"
    if n[0] == "E":
        return "empty"
    if n[0] == "H":
        return "hash(%s)" % bytes(n[1])[-3:].hex()
    if n[0] == "L":
        return f"leaf({h(n[1])}:{n[2][:1] and n[2][0]})"
    if n[0] == "X":
        return f"ext({h(n[1])}, {show(n[2])})"
    return "branch(" + ", ".join(f"{i:x}: {show(c)}" for i, c in enumerate(n[1]) if c != E) + ")"


KEY = (1, 2, 3, 4)
HASHVAL = tup([0] * 30 + list((9999).to_bytes(2, "big")))
ERRH = None


def M01(rep, tier):
    rep.rule("insert, delete and subset extraction are abstractly interpreted on a node of every kind at every position the key can have relative to it; a recursive call is replaced by "
             "every kind of result (error, absent, each node kind, merged or not). The result must be the definition's: a hash node in the way is an error that is returned and leaves the trie as "
             "it was, a hash node that would have to be merged follows the chosen strategy, everything else keeps exactly the other subtrees.")
    for root, name in (("h::insert", "insert"), ("h::delete", "delete")):
        cuts = 0
        for i, v, cut, _ in data(rep, root):
            t, after, child = node(v["before"]), node(v["after"]), node(v["child"])
            o, collapse = v["assumed"], bool(v["collapse"])
            cuts += cut
            rep.ob()

            def assumed(*a):
                if o == 0:
                    raise Rejected
                if o == 1:
                    return None
                if name == "insert":
                    return child
                return settle(child, collapse, True), (98, 33)

            def full_put(n, k, val):
                return put(n, k, val, full_put)

            def full_take(n, k):
                return take(n, k, full_take, collapse)

            try:
                if name == "insert":
                    val = (True, (99, 33)) if v["value"] else (False, HASHVAL)
                    want = put(t, KEY, val, assumed if cut else full_put)
                    got_v = want_v = ()
                else:
                    r = take(t, KEY, assumed if cut else full_take, collapse)
                    want, want_v = (t, None) if r is None else r
            except Rejected:
                want = "error"
            (kind, x), = v["result"].items() if isinstance(v["result"], dict) else ((v["result"], None),)
            where = f"{name} at {t[0] and {'E': 'an empty node', 'H': 'a hash node', 'L': 'a leaf', 'X': 'an extension', 'B': 'a branch'}[t[0]]}"
            ctx = f"{name} {'with strategy collapse ' if collapse else ''}into {show(t)}" + (
                f", recursive call gives {['an error', 'nothing'][o] if o < 2 else show(child)}" if cut else "")
            if name == "delete" and cut and o == 2 and t[0] == "X":
                continue      # a branch never becomes empty
            if kind == "Err":
                if want != "error":
                    rep.bad("trie-result", where, f"{ctx}: reports an error, should give {show(want)}")
                elif after != t:
                    rep.bad("trie-result", where, f"{ctx}: reports an error but leaves {show(after)}")
                continue
            if want == "error":
                rep.bad("trie-hash-node", where, f"{ctx}: must be an error, gives {show(after)}")
                continue
            if after != want:
                rep.bad("trie-result", where, f"{ctx}: gives {show(after)}, should give {show(want)}")
            if name == "delete":
                y = x["0"]
                got_v = None if y == "None" else tup(y["Some"]["0"])
                if got_v != want_v:
                    rep.bad("trie-result", where, f"{ctx}: reports {got_v} as deleted, should be {want_v}")
            if i % 60 == 0:
                rep.sample({"case": ctx, "result": show(after)})
        rep.count(f"{name}_recursive_calls_assumed", cuts)
    for root in ("h::subset", "h::subsets"):
        for i, v, cut, tags in data(rep, root):
            t = node(v["trie"])
            hs = {tup(e[0]): tup(e[1]) for e in v["hashes"]}
            pre = preimages(tags)
            res = v["result"]
            ks = v["keys"]
            # a key that leads into a hash node
            bad = any(marks(t, tup(k)) is None for s in ks for k in s)
            where = "subset extraction"
            rep.ob()
            ctx = "keys " + "; ".join(",".join("".join("%x" % x for x in k) for k in s) or "none" for s in ks)
            if isinstance(res, dict) and "Err" in res or res == "Err":
                if not bad:
                    rep.bad("trie-subset", where, f"{ctx}: reports an error")
                continue
            if bad:
                rep.bad("trie-hash-node", where, f"{ctx}: a key leads into a hash node, yet no error is reported")
                continue
            subs = res["Ok"]["0"]
            if len(subs) != len(ks):
                rep.bad("trie-subset", where, f"{ctx}: {len(subs)} subsets for {len(ks)} key sets")
            for s, sub in zip(ks, subs):
                need = set()
                for k in s:
                    need |= marks(t, tup(k))
                rep.ob()
                w = compare(t, node(sub), (), need, hs, pre)
                if w:
                    rep.bad("trie-subset", where, f"{ctx}: {w}")


def preimages(tags):
    """hash -> bytes it is the hash of"""
    return {(0xEE,) * 24 + tup(n.to_bytes(8, "big")): bytes.fromhex(t[7:]) for n, t in enumerate(tags) if t.startswith("keccak:")}


def marks(n, key, at=()):
    """paths of the nodes on the way of a key; None if it leads into a hash node"""
    if n[0] == "H":
        return None if key else {at}
    if n[0] == "B" and key:
        r = marks(n[1][key[0]], key[1:], at + key[:1])
        return None if r is None else r | {at}
    if n[0] == "X":
        if not key:
            return set()
        m = len(n[1])
        if key[:m] == n[1]:
            r = marks(n[2], key[m:], at + n[1])
            return None if r is None else r | {at}
    return {at}


def compare(t, s, at, need, hs, pre):
    """is s the trie t with unneeded nodes replaced by their hashes?"""
    p = "".join("%x" % x for x in at) or "the root"
    if s[0] == "H" and t[0] != "H":
        if at in need:
            return f"the node at {p} is hashed out though it is on the way of a key"
        if s[1] != hs.get(at):
            return f"the node at {p} is replaced by a hash that is not its own"
        if len(pre.get(s[1], b"")) < 32:
            return f"the node at {p} is replaced by its hash though its encoding is shorter than 32 bytes"
        return None
    if s[0] != t[0]:
        return f"the {t[0]} node at {p} became {show(s)}"
    if t[0] == "B":
        if t[2] != s[2]:
            return f"the branch value at {p} changed"
        for i in range(16):
            w = compare(t[1][i], s[1][i], at + (i,), need, hs, pre)
            if w:
                return w
        return None
    if t[0] == "X":
        if t[1] != s[1]:
            return f"the extension at {p} changed"
        return compare(t[2], s[2], at + t[1], need, hs, pre)
    return None if s == t else f"the node at {p} became {show(s)}"


def M02(rep, tier):
    rep.rule("Every operation that can change a trie, and every way of copying or making one, is abstractly interpreted on a trie whose hash is or is not cached, with and without a live copy, "
             "including operations that fail midway; afterwards the trie, the copy and everything derived from them must report, asked directly and as part of a parent, the hash of what they contain "
             "(keccak as an uninterpreted injective function).")
    for i, v, cut, tags in data(rep, "h::cached"):
        pre = preimages(tags)
        for e in v:
            rep.ob()
            f = tup(e["fresh"])
            for how, x in (("reports", tup(e["reported"])), ("reports as part of another node", tup(e["nested"]))):
                if x != f:
                    rep.bad("trie-stale-hash", f"{e['op']}", f"the {e['who']} {how} a hash that is not that of its contents (hash {'not ' if not i % 2 else ''}cached before, "
                                                             f"copy {'' if i % 4 > 1 else 'not '}made before)")
        if i % 20 == 1:
            rep.sample({"operation": v[0]["op"], "tries": [e["who"] for e in v]})


def rlp(x):
    if isinstance(x, (bytes, bytearray)):
        if len(x) == 1 and x[0] < 0x80:
            return bytes(x)
        return head(0x80, len(x)) + bytes(x)
    b = b"".join(x)
    return head(0xC0, len(b)) + b


def head(base, n):
    if n < 56:
        return bytes([base + n])
    l = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([base + 55 + len(l)]) + l


def hp(path, leaf):
    f = 2 * leaf + len(path) % 2
    n = ([f] if len(path) % 2 else [f, 0]) + list(path)
    return bytes(n[i] << 4 | n[i + 1] for i in range(0, len(n), 2))


def encode(n, inv):
    """('H', hash) or the node's encoding, by the yellow paper's definition"""
    if n[0] == "E":
        return RLP_EMPTY
    if n[0] == "H":
        return ("H", bytes(n[1]))
    if n[0] == "L":
        return rlp([rlp(hp(n[1], 1)), rlp(bytes(n[2]))])
    if n[0] == "X":
        return rlp([rlp(hp(n[1], 0)), ref(n[2], inv)])
    return rlp([ref(c, inv) for c in n[1]] + [rlp(bytes(n[2]))])


def ref(n, inv):
    e = encode(n, inv)
    if isinstance(e, tuple):
        return rlp(e[1])
    if len(e) < 32:
        return e
    if e not in inv:
        raise KeyError(e.hex())
    return rlp(inv[e])


def M03(rep, tier):
    rep.rule("The hash of a node of every shape (path parities and extremes, value and child lengths at each boundary of the encoding, inlined and hashed children, all child slots, branch values) is "
             "computed by abstract interpretation with keccak as an uninterpreted injective function; what is hashed must be exactly the node's encoding as Ethereum defines it, for both trie types.")
    for root in ("h::encoding", "h::encoding_standard"):
        for i, v, cut, tags in data(rep, root):
            n, got = node(v[0]), tup(v[1])
            pre = preimages(tags)
            inv = {b: bytes(h) for h, b in pre.items()}
            rep.ob()
            what = f"{show(n)[:120]}"
            try:
                e = encode(n, inv)
            except KeyError as x:
                rep.bad("trie-encoding", {"X": "extension", "B": "branch"}[n[0]], f"{what}: a child encoded as {x} is never hashed")
                continue
            where = {"E": "empty", "H": "hash", "L": "leaf", "X": "extension", "B": "branch"}[n[0]]
            if isinstance(e, tuple):
                if bytes(got) != e[1]:
                    rep.bad("trie-encoding", where, f"{what}: a hash node does not report its own hash")
            elif pre.get(got) != e:
                rep.bad("trie-encoding", where, f"{what}: hashes {pre.get(got, b'').hex() or 'something else'}, the encoding is {e.hex()}")
            if i % 12 == 0:
                rep.sample({"node": what, "encoding": e.hex()[:80] if not isinstance(e, tuple) else "hash"})
