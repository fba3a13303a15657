"""D01-D04: the block decoder. It is interpreted against a world that is not interpreted (every operation is recorded, engine/harness/trace_decoder.rs);
what it did to that world is replayed here on a model of the state and compared with what the trace says."""
import facts

CRATE = "trace_decoder"
SHAPE_GROUPS = [["h::account"], ["h::block"]] + [[f"h::shapes{i}"] for i in range(6)]
GROUPS = {"D01": SHAPE_GROUPS, "D04": SHAPE_GROUPS,
          "D02": SHAPE_GROUPS + [["h::batch_split", "h::entry0", "h::entry2"], ["h::entry1", "h::entry3"]],
          "D03": SHAPE_GROUPS[:3] + [["h::failing"], ["h::malformed", "h::preimage", "h::type2", "h::wire"], ["h::type1"]]}
SHAPES = ["h::account", "h::block"] + [f"h::shapes{i}" for i in range(6)]
BEACON = bytes.fromhex("000F3df6D732807Ef1319fB7B8bB8522d0Beac02")
KNOWN, NEW = (0x60, 1, 2), (0x61, 3, 4)
_facts = {}


def data(rep, root):
    if rep.pid not in _facts:
        try:
            _facts[rep.pid] = facts.get("evm_arithmetization", WORLD_GROUPS) if rep.pid == "D05" else facts.get(CRATE, GROUPS[rep.pid])
        except SystemExit as e:
            _facts[rep.pid] = {}
            rep.bad("decoder-anchor", "trace_decoder", str(e))
    _f = _facts[rep.pid]
    rep.ob()
    if root not in _f:
        rep.bad("decoder-anchor", root, "the decoder cannot be analysed: " + "; ".join(sorted(_f)))
        return []
    r = _f[root]
    out = []
    for i, c in enumerate(r.get("cases", [])):
        rep.ob()
        if "stop" in c:
            rep.bad("decoder-undecided", f"{root[3:]} case {i}", c["stop"][:900])
        else:
            out.append((i, c["value"]["Some"]["0"], c["tags"]))
    rep.count("cases", len(out))
    if not r.get("cases"):
        rep.bad("decoder-anchor", root, r.get("status", "no cases")[:700])
    return out


def opt(j):
    return None if j == "None" else j["Some"]["0"]


def res(j):
    """(ok, value)"""
    return (True, j["Ok"]["0"]) if "Ok" in j else (False, None)


def tup(x):
    return tuple(tup(e) if isinstance(e, list) else e for e in x)


def b(x):
    return bytes(x)


class Hashes:
    """keccak is not interpreted: the analysis numbers the preimages"""

    def __init__(self, tags):
        self.t = {t[7:]: i for i, t in enumerate(tags) if t.startswith("keccak:")}

    def __call__(self, pre):
        i = self.t.get(bytes(pre).hex())
        return None if i is None else bytes([0xEE] * 24) + i.to_bytes(8, "big")


def u256(n):
    return n.to_bytes(32, "big")


class Model:
    """state: address -> [balance, nonce, code, slots]; an account in `gone` is not there"""

    def __init__(self):
        self.a = {}

    def copy(self):
        m = Model()
        m.a = {k: (None if v is None else [v[0], v[1], v[2], dict(v[3]), v[4]]) for k, v in self.a.items()}
        return m

    def there(self, a):
        if a in self.a:
            return self.a[a] is not None
        return a[0] == 0xAA or a == BEACON

    def get(self, a):
        if self.a.get(a) is None:
            if self.there(a):
                self.a[a] = [1000, 2000, "as before", {}, True]
            else:
                self.a[a] = [0, 0, "none", {}, False]
        return self.a[a]

    def norm(self):
        """accounts as they are, leaving out what is as it was before the block"""
        r = {}
        for k, v in self.a.items():
            if v is None:
                if k[0] == 0xAA or k == BEACON:
                    r[k] = "gone"
                continue
            r[k] = (v[0] if k != BEACON else None, v[1] if k != BEACON else None, v[2], tuple(sorted((s, x) for s, x in v[3].items() if x or v[4])))
            if k[0] == 0xAA and r[k] == (1000, 2000, "as before", ()):
                del r[k]
        return r


def op(j):
    (k, v), = j.items()
    return k, [v[str(i)] for i in range(len(v))]


def apply(m, k, v, errs):
    """an operation on a world, on the model; problems that would make the real world refuse it"""
    a = b(v[0]) if v and isinstance(v[0], list) and len(v[0]) == 20 else None
    if k == "Balance":
        e = m.get(a)
        e[0] = v[2]
    elif k == "Nonce":
        m.get(a)[1] = v[2]
    elif k == "Code":
        m.get(a)[2] = tup(v[1])
    elif k == "CodeHash":
        m.get(a)[2] = ("hash", b(v[1]))
    elif k in ("Store", "DestroySlot"):
        if not m.there(a) and m.a.get(a) is None:
            # the account is created by an earlier update of one of its fields, or its storage is of no account
            errs.append(f"storage of the account {a.hex()}, which is not there, is written")
        m.get(a)[3][b(v[1])] = v[2] if k == "Store" else 0
    elif k == "Destroy":
        m.a[a] = None


class Block:
    """a decoded block: the states its batches start from and end in"""

    def __init__(self, rep, root, i, v, tags):
        self.v, self.h = v, Hashes(tags)
        self.where = f"{root[3:]} case {i}"
        self.hist = {0: []}       # world -> operations it has gone through
        self.roots, self.seen = {}, []
        for w, j in v["log"]:
            k, x = op(j)
            if k == "Copied":
                self.hist[w] = list(self.hist[x[0]])
            elif k == "Root":
                self.roots[b(x[0])] = list(self.hist[w])
            elif k == "Observed":
                self.seen.append((x[0], list(self.hist[w])))
            else:
                self.hist[w].append((k, x))
        self.ok, r = res(v["result"])
        self.batches = r or []

    def state(self, hist):
        m, errs = Model(), []
        for k, x in hist:
            apply(m, k, x, errs)
        return m, errs


MASKS = ("Mask", "MaskStorage")


def blocks(rep, roots=SHAPES):
    for root in roots:
        for i, v, tags in data(rep, root):
            yield Block(rep, root, i, v, tags)


def txns(batch):
    return [opt(t) for t in batch]


def expect_batches(bl):
    """what the trace says: per batch (touched accounts, touched slots, codes, state at its end)"""
    v = bl.v
    m = Model()
    out = []
    ix = 0
    n = len(v["txns"])
    for bi, batch in enumerate(v["txns"]):
        acc, slots, codes = set(), set(), set()
        if ix == 0:
            t = v["timestamp"]
            acc.add(BEACON)
            for s, x in ((t % 8191, t), (t % 8191 + 8191, int.from_bytes(b(v["parent_root"]), "big"))):
                slots.add((BEACON, u256(s)))
                m.get(BEACON)[3][u256(s)] = x & (2**64 - 1)
        first, gas, raw = ix, 0, []
        for t in txns(batch):
            if t is None:
                continue
            ix += 1
            gas += t["gas"]
            raw.append(tup(t["code"]))
            for c in sorted(t["touches"], key=lambda c: b(c["addr"])):
                a = b(c["addr"])
                acc.add(a)
                for s in c["read"]:
                    slots.add((a, b(s)))
                for s, _ in c["written"]:
                    slots.add((a, b(s)))
                bal, non = opt(c["balance"]), opt(c["nonce"])
                just = bal is None and non is None and not c["read"] and not c["written"] and c["code"] == "Untouched" and not c["destroyed"]
                if not just and (m.there(a) or t["success"]):
                    if bal is not None:
                        m.get(a)[0] = bal
                    if non is not None:
                        m.get(a)[1] = non
                    if c["code"] == "Known":
                        m.get(a)[2] = KNOWN
                        codes.add(KNOWN)
                    if c["code"] == "Unknown":
                        m.get(a)[2] = ("hash", bytes([0xB1] * 32))
                    if c["code"] == "New":
                        m.get(a)[2] = NEW
                        codes.add(NEW)
                    for s, x in c["written"]:
                        m.get(a)[3][b(s)] = x
                if c["destroyed"]:
                    m.a[a] = None
        if bi == n - 1:
            for a, x in v["withdrawals"]:
                acc.add(b(a))
                m.get(b(a))[0] += x
        out.append({"acc": acc, "slots": slots, "codes": codes, "first": first, "gas": gas, "raw": raw, "end": m.copy()})
    return out


def good(rep, bl, rule):
    rep.ob()
    if not bl.ok and any(t and any(c["code"] == "Unknown" for c in t["touches"]) for bt in bl.v["txns"] for t in txns(bt)) and bl.v["fatal"]:
        return False
    if not bl.ok:
        rep.bad(rule, bl.where, "a block without any inconsistency is rejected")
        return False
    if len(bl.batches) != len(bl.v["txns"]):
        rep.bad(rule, bl.where, f"{len(bl.v['txns'])} batches are decoded to {len(bl.batches)}")
        return False
    return True


def D01(rep, tier):
    rep.rule("the decoder's batch loop is abstractly interpreted against an uninterpreted world, for every combination of the parts of an account's trace, known and new accounts, transactions that "
             "succeed and fail, and several layouts of batches. For each batch: its pre-state is the world before the batch's first operation; every account and slot of the traces, of the recorded "
             "operations and of what deletions report as to be kept is in each mask applied to it; the transaction and receipt tries it is given reach the batch's roots when its own items are inserted.")
    n = 0
    for bl in blocks(rep):
        if not good(rep, bl, "pre-state"):
            continue
        prev = []
        for i, (bt, e) in enumerate(zip(bl.batches, expect_batches(bl))):
            rep.ob(3)
            n += 1
            w = f"{bl.where} batch {i}"
            end = bl.roots.get(b(bt["after"][0]))
            if end is None:
                rep.bad("pre-state", w, "the state root after the batch is not that of a world")
                continue
            before = bl.hist.get(bt["before"], [])
            ops = [x for x in before if x[0] not in MASKS]
            start, _ = bl.state(ops)
            want, _ = bl.state(prev)
            if start.norm() != want.norm():
                rep.bad("pre-state", w, "the state it is given is not the state after the previous batch")
            prev = end
            acc, slots, keys, skeys = set(e["acc"]), set(e["slots"]), set(), set()
            new = end[len(ops):] if end[:len(ops)] == ops else end
            for k, x in new:
                if k in ("Contains", "Balance", "Nonce", "Code", "CodeHash", "Destroy", "Store", "StoreHash", "Load", "DestroySlot"):
                    acc.add(b(x[0]))
                if k in ("Store", "Load", "DestroySlot"):
                    slots.add((b(x[0]), b(x[1])))
                if k == "StoreHash":
                    skeys.add((b(x[0]), b(x[1])))
                if k == "Destroy" and opt(x[1]):
                    keys.add(b(opt(x[1])))
                if k == "DestroySlot" and opt(x[2]):
                    skeys.add((b(x[0]), b(opt(x[2]))))
            for k, x in before:
                if k == "Mask":
                    have = {b(p) for p in x[0]}
                    for a in sorted(acc):
                        rep.ob()
                        if bl.h(a) not in have:
                            rep.bad("account-not-kept", w, f"the account {a.hex()} is touched but its path is not kept")
                    for p in sorted(keys):
                        rep.ob()
                        if p not in have:
                            rep.bad("neighbour-not-kept", w, "the neighbour that a deleted account's branch collapses into is not kept")
                elif k == "MaskStorage":
                    have = {b(a): {b(p) for p in ps} for a, ps in x[0]}
                    for a, s in sorted(slots):
                        rep.ob()
                        if bl.h(s) not in have.get(a, ()):
                            rep.bad("slot-not-kept", w, f"slot {s.hex()[-6:]} of {a.hex()} is touched but its path is not kept")
                    for a in sorted(acc):
                        # its storage trie itself is needed when it is an account the transaction traces name
                        rep.ob()
                        if a in {x[0] for x in e["slots"]} and a not in have:
                            rep.bad("storage-not-kept", w, f"the storage of {a.hex()} is dropped")
                    for a, p in sorted(skeys):
                        rep.ob()
                        if p not in have.get(a, ()):
                            rep.bad("neighbour-not-kept", w, f"a path in the storage of {a.hex()} that is needed is not kept")
            ok, got = res(bt["replayed"])
            if bt["given"] != bt["want"][0]:
                rep.bad("block-tries", w, "the transaction and receipt tries are not those of the transactions before the batch")
            if not ok or got != bt["want"][1]:
                rep.bad("block-tries", w, "inserting the batch's transactions and receipts into the tries it is given does not lead to the tries after it")
    rep.count("batches", n)


def D02(rep, tier):
    rep.rule("the same interpretation. For every layout of batches: pre-execution updates happen before the first transaction and only there; withdrawals are added to balances after the last "
             "transaction and are listed with the last batch only; the first index, gas and transactions of each batch are those of the trace; the roots after each batch are those of the state and the tries at "
             "its end; observers see each batch's end. Splitting keeps every transaction, in order, in at least two non-empty batches. The inputs made from a trace link up: number, gas, roots, state.")
    for bl in blocks(rep):
        if not good(rep, bl, "batches"):
            continue
        exp = expect_batches(bl)
        last = 0
        for i, (bt, e) in enumerate(zip(bl.batches, exp)):
            w = f"{bl.where} batch {i}"
            rep.ob(7)
            if bt["first"] != e["first"]:
                rep.bad("first-index", w, f"its first transaction is number {e['first']}, the decoder says {bt['first']}")
            if bt["gas"] != e["gas"]:
                rep.bad("gas", w, f"its transactions use {e['gas']} gas, the decoder says {bt['gas']}")
            if [tup(t) for t in bt["txns"]] != e["raw"]:
                rep.bad("transactions", w, "the transactions given are not those of the batch")
            wd = [tup(x) for x in bl.v["withdrawals"]] if i == len(exp) - 1 else []
            if [tup(x) for x in bt["withdrawals"]] != wd:
                rep.bad("withdrawals", w, f"{len(bt['withdrawals'])} withdrawals are listed instead of {len(wd)}")
            codes = {tup(c) for c in bt["codes"]}
            if not (e["codes"] | {()}) <= codes:
                rep.bad("codes", w, "the code of an account in the batch is missing")
            end = bl.roots.get(b(bt["after"][0]))
            if end is None:
                rep.bad("roots", w, "the state root after the batch is not that of a world")
                continue
            if bt["after"][1:] != bt["want"][1]:
                rep.bad("roots", w, "the transaction and receipt roots after the batch are not those of the transactions up to its end")
            n = [k for k, x in end[last:] if x and isinstance(x[0], list) and len(x[0]) == 20 and b(x[0]) == BEACON]
            if n and e["first"] > 0:
                rep.bad("pre-execution", w, "the system contract is updated after the first transaction")
            got, _ = bl.state(end)
            bal = {a: x[0] for a, x in got.norm().items() if x != "gone"}
            want = {a: x[0] for a, x in e["end"].norm().items() if x != "gone"}
            if got.norm().get(BEACON) != e["end"].norm().get(BEACON):
                rep.bad("pre-execution", w, "the system contract does not hold the timestamp and root at their slots")
            if bal != want:
                rep.bad("balances", w, f"balances at its end are not those of the trace plus the withdrawals credited once: {sorted(set(bal.items()) ^ set(want.items()), key=str)[:4]}")
            seen = [h for k, h in bl.seen if k == i]
            rep.ob()
            if len(seen) != 1 or bl.state(seen[0])[0].norm() != got.norm():
                rep.bad("observer", w, "the observer is not shown the end of the batch exactly once")
            last = len(end)
    for i, (n, hint, bs), _ in data(rep, "h::batch_split"):
        rep.ob(4)
        w = f"{n} transactions, hint {hint}"
        flat = [opt(t) for x in bs for t in x]
        if [t for t in flat if t is not None] != list(range(n)):
            rep.bad("split", w, f"the transactions come out as {flat}")
        if len(bs) < 2 or any(not x for x in bs):
            rep.bad("split", w, f"batches of sizes {[len(x) for x in bs]}")
        if None in flat and n >= 2:
            rep.bad("split", w, "dummy transactions are added though there are two")
        if any(opt(t) is None and len(x) > 1 for x in bs for t in x):
            rep.bad("split", w, "a dummy transaction is mixed with others")
    for r in ("h::entry0", "h::entry1", "h::entry2", "h::entry3"):
        for i, v, tags in data(rep, r):
            linked(rep, v, Hashes(tags), f"{len(v['gas'])} transactions, hint {v['hint']}")


def linked(rep, v, h, w):
    ok, ins = res(v["result"])
    rep.ob(12)
    if v["hint"] == 0:
        if ok:
            rep.bad("hint", w, "batches of no transactions are accepted")
        return
    if not ok:
        rep.bad("inputs", w, "a well-formed trace is rejected")
        return
    _, end = res(v["end"])
    n, gas, signed = 0, 0, []
    state, tries = v["start"], None
    for i, x in enumerate(ins):
        if x["txns"] != n:
            rep.bad("link", w, f"input {i} starts at transaction {x['txns']} instead of {n}")
        if x["gas"][0] != gas:
            rep.bad("link", w, f"input {i} starts at gas {x['gas'][0]} instead of {gas}")
        n += len(x["signed"])
        gas = sum(v["gas"][:n])
        signed += x["signed"]
        if x["gas"][1] != gas:
            rep.bad("link", w, f"input {i} ends at gas {x['gas'][1]} instead of {gas}")
        if x["state"] != state:
            rep.bad("link", w, f"the state of input {i} is not the one after the input before it")
        state = x["after"][0]
        if tries is not None and x["tries"] != tries:
            rep.bad("link", w, f"the transaction and receipt tries of input {i} are not those after the input before it")
        tries = x["after"][1:]
        held = {tup(k): res(a) for k, a in x["held"]}
        wd = [(b(a), y) for a, y in x["withdrawals"]]
        if i < len(ins) - 1 and wd:
            rep.bad("withdrawals", w, f"input {i} has withdrawals")
        if x["checkpoint"] != [0x53] * 32 or x["consolidated"] != [1, 2, 3, 4]:
            rep.bad("checkpoint", w, f"input {i} does not have the block's checkpoint")
        if opt(x["ger"]) != [[0x55] * 32, [0x56] * 32] or opt(x["burn"]) != [0x54] * 20:
            rep.bad("block-values", w, f"input {i} does not have the block's exit root and burn address")
        if x["number"] != 5 or x["hashes"] != [[0x51] * 32, [0x52] * 32, 3]:
            rep.bad("block-values", w, f"input {i} does not have the block's metadata and hashes")
        for hh, c in x["code"]:
            if h(c) != b(hh):
                rep.bad("code-hash", w, f"a code of input {i} is listed under a hash that is not its own")
        # each storage trie given is that of the account in the state given
        for hh, root in x["storage"]:
            k = tuple(y for z in hh for y in (z >> 4, z & 15))
            if k in held and held[k][0] and held[k][1]["root"] != root:
                rep.bad("link", w, f"a storage trie of input {i} is not the one its account commits to")
    if signed != v["codes"]:
        rep.bad("transactions", w, "the transactions of the inputs are not those of the trace")
    if state != end:
        rep.bad("link", w, "the last state root is not that of the block's effects on the first state")
    paid = [(b(a), y) for a, y in ins[-1]["withdrawals"]] if ins else []
    want = [(bytes([0xAA] + [1] * 19), 7 * 10**9), (bytes([4] * 20), 8 * 10**9)]
    if paid and paid != want:
        rep.bad("withdrawals", w, "the withdrawals listed are not those of the block, in wei")
    if not paid and v["start"] and res(v["end"])[0] and expects_paid(v):
        rep.bad("withdrawals", w, "the withdrawals are not listed with the last input")


def expects_paid(v):
    return v["paid"]


def D04(rep, tier):
    rep.rule("the same interpretation. After each batch the state is exactly what the traces say: each written balance, nonce, code and slot of an account that was there, or of one created by a transaction that "
             "succeeded, holds the written value; a slot written with zero is deleted; a destroyed account is gone with its storage; accounts only read, and new accounts of failed transactions, are not created; "
             "nothing else changes; storage of a new account is created before it is written.")
    for bl in blocks(rep):
        if not good(rep, bl, "effects"):
            continue
        for i, (bt, e) in enumerate(zip(bl.batches, expect_batches(bl))):
            w = f"{bl.where} batch {i}"
            rep.ob(2)
            end = bl.roots.get(b(bt["after"][0]))
            if end is None:
                rep.bad("effects", w, "the state root after the batch is not that of a world")
                continue
            got, _ = bl.state(end)
            g, x = got.norm(), e["end"].norm()
            for a in sorted(set(g) | set(x)):
                rep.ob()
                if g.get(a) != x.get(a):
                    rep.bad("effects", w, f"account {a.hex()} ends as {g.get(a)}, the trace says {x.get(a)}")
            made, m = set(), Model()
            for k, y in end:
                a = b(y[0]) if k not in MASKS else None
                if k == "CreateStorage":
                    made.add(a)
                if k in ("Store", "StoreHash", "DestroySlot", "Load", "DestroyStorage") and not (a in made or a[0] == 0xAA or a == BEACON):
                    rep.bad("storage-created", w, f"storage of the new account {a.hex()} is used before it is created")
                if k == "DestroyStorage":
                    made.discard(a)
            # what is destroyed is destroyed with its storage
            for k, y in end:
                if k == "Destroy" and not any(k2 == "DestroyStorage" and y2[0] == y[0] for k2, y2 in end):
                    rep.bad("storage-destroyed", w, "an account is destroyed, its storage is not")


# ---- D03 ----

def nibbles(j):
    return tuple(int(x[3:]) for x in j["inner"])


class Refused(Exception):
    pass


def run1(instrs):
    """the stack machine of the witness format"""
    st = []

    def pop():
        if not st:
            raise Refused
        return st.pop()

    for k, v in instrs:
        if k == "EmptyRoot":
            st.append(("E",))
        elif k == "Hash":
            st.append(("H", b(v["raw_hash"])))
        elif k == "Code":
            st.append(("C", tup(v["raw_code"]["inner"])))
        elif k == "Leaf":
            st.append(("L", nibbles(v["key"]), tup(v["value"]["inner"])))
        elif k == "Extension":
            st.append(("X", nibbles(v["key"]), pop()))
        elif k == "AccountLeaf":
            sto = pop() if v["has_storage"] else None
            code = pop() if v["has_code"] else None
            if code and code[0] not in "HC":
                raise Refused
            bal = opt(v["balance"])
            st.append(("A", nibbles(v["key"]), opt(v["nonce"]) or 0, bal["0"][0] if bal else 0, sto, code))
        elif k == "Branch":
            cs = {}
            for i in reversed(range(64)):
                if v["mask"] >> i & 1:
                    if i > 15:
                        raise Refused
                    cs[i] = pop()
            st.append(("B", cs))
        else:
            raise Refused
    if len(st) != 1 or st[0][0] in "HC":
        raise Refused
    return st[0]


def visit1(node, path, accounts, codes, account):
    """paths of a node's items; account(leaf) handles leaves"""
    out = []
    k = node[0]
    if k == "H":
        if len(path) > 64:
            raise Refused
        out.append((path, ("hash", node[1])))
    elif k in "LA":
        out.append((path + node[1], account(node, path + node[1])))
    elif k == "X":
        out += visit1(node[2], path + node[1], accounts, codes, account)
    elif k == "B":
        for i, c in sorted(node[1].items()):
            out += visit1(c, path + (i,), accounts, codes, account)
    elif k == "C":
        if codes is None:
            raise Refused
        codes.add(node[1])
    return out


def front1(instrs):
    node = run1(instrs)
    codes, storage = set(), {}

    def store_leaf(n, p):
        if n[0] != "L" or len(p) > 64:
            raise Refused
        return ("val", n[2])

    def acc_leaf(n, p):
        if n[0] != "A" or len(p) != 64:
            raise Refused
        _, _, nonce, bal, sto, code = n
        storage[p] = dict(visit1(sto, (), None, None, store_leaf)) if sto else {}
        if code and code[0] == "C":
            codes.add(code[1])
        return ("acc", nonce, bal, code)

    items = visit1(node, (), None, codes, acc_leaf)
    d = dict(items)
    if len(d) != len(items):
        raise Refused
    return d, storage, codes


def instr(j):
    if isinstance(j, str):
        return j, {}
    (k, v), = j.items()
    return k, v


def rlp_str(x):
    x = bytes(x)
    return tup(list(x)) if len(x) == 1 and x[0] < 128 else (0x80 + len(x),) + tup(list(x))


def D03(rep, tier):
    rep.rule("(a) each operation of the uninterpreted world fails in turn: decoding must fail; likewise for receipts that are not receipts, missing code, pre-images with a wrong path or value. (b) the frontend "
             "of the witness format is interpreted on all programs of up to two instructions, all of two values and a consumer, and longer selected ones, and must accept exactly those the stack machine's definition "
             "accepts, with the state, storage and codes of the definition. (c) the same for the second format. (d) the byte parser is interpreted on every form of each instruction, each proper prefix, unknown "
             "opcodes, flags and bits, empty, oversized and wrongly typed items.")
    for i, v, tags in data(rep, "h::failing"):
        rep.ob()
        ok, _ = res(v["result"])
        n = opt(v["failed"])
        if ok and v["calls"] > n:
            k = next((op(j) for j in [x for x in v["log"] if op(x[1])[0] not in ("Copied", "Root", "Observed")][n:n + 1] for j in [j[1]]), ("?", []))
            rep.bad("error-lost", f"failing operation {n} ({k[0]})", "the operation fails and decoding succeeds")
    if len(data(rep, "h::failing")) < 30:
        rep.bad("decoder-anchor", "h::failing", "fewer world operations than expected")
    for i, v, tags in data(rep, "h::malformed"):
        rep.ob()
        ok, _ = res(v["result"])
        if ok != (i == 6):
            rep.bad("receipt", f"receipt {i}", "a receipt that cannot be decoded is accepted" if ok else "the receipt of a typed transaction is rejected")
    for bl in blocks(rep, SHAPES[:3]):
        miss = bl.v["fatal"] and any(t and any(c["code"] == "Unknown" for c in t["touches"]) for bt in bl.v["txns"] for t in txns(bt))
        # new accounts of failed transactions are not written, so that their code is not looked up
        miss = miss and any(t and any(c["code"] == "Unknown" and (c["addr"][0] == 0xAA or t["success"]) for c in t["touches"]) for bt in bl.v["txns"] for t in txns(bt))
        rep.ob()
        if miss and bl.ok:
            rep.bad("missing-code", bl.where, "code that is not known is accepted")
    for i, v, tags in data(rep, "h::preimage"):
        rep.ob()
        ok, _ = res(v)
        if ok != (i in (0, 6)):
            rep.bad("preimage", f"pre-image {i}", "a malformed pre-image is accepted" if ok else "a well-formed pre-image is rejected")
    for r in ("h::type1_two", "h::type1_three", "h::type1_long"):
        for i, v, tags in data(rep, r):
            type1(rep, v, Hashes(tags))
    for r in ("h::type2_two", "h::type2_long"):
        for i, v, tags in data(rep, r):
            type2(rep, v)
    for r in ("h::wire_forms", "h::wire_second", "h::wire_prefix"):
        for i, v, tags in data(rep, r):
            wire(rep, v)


def type1(rep, v, h):
    ins = [instr(j) for j in v["instrs"]]
    w = "type 1: " + " ".join(k if k != "Branch" else f"Branch({x['mask']:#x})" for k, x in ins)
    ok, got = res(v["result"])
    rep.ob()
    try:
        state, storage, codes = front1(ins)
    except Refused:
        if ok:
            rep.bad("frontend", w, "a malformed witness is accepted")
        return
    if not ok:
        rep.bad("frontend", w, "a well-formed witness is rejected")
        return
    rep.ob(3)
    sto = {}
    for k, root, items in got["storage"]:
        p = tuple(y for z in k for y in (z >> 4, z & 15))
        sto[p] = (root, {tup(x): res(y) for x, y in items})
    have = {tup(k): a for k, a in got["state"]}
    if set(have) != set(state) or {tup(c) for c in got["code"]} != codes or set(sto) != set(storage):
        rep.bad("frontend", w, f"accounts, storage or codes differ from the witness: {sorted(set(have) ^ set(state))[:3]}")
        return
    for p, x in state.items():
        aok, a = res(have[p])
        if x[0] == "hash":
            if aok or b(have[p]["Err"]["0"]) != x[1]:
                rep.bad("frontend", w, "a hashed-out part of the state is not kept as such")
            continue
        if not aok:
            rep.bad("frontend", w, "an account is not kept")
            continue
        code = x[3]
        ch = h(()) if code is None else (code[1] if code[0] == "H" else h(code[1]))
        if (a["nonce"], a["balance"], b(a["code"])) != (x[1], x[2], ch):
            rep.bad("frontend", w, f"an account is decoded as nonce {a['nonce']} balance {a['balance']} instead of {x[1]}, {x[2]}, or with another code")
        root, items = sto[p]
        if a["root"] != root:
            rep.bad("frontend", w, "an account does not commit to its storage")
        want = {q: (("hash", y[1]) if y[0] == "hash" else ("val", rlp_str(y[1]))) for q, y in storage[p].items()}
        have_s = {q: (("val", tup(y[1])) if y[0] else None) for q, y in items.items()}
        if set(want) != set(have_s) or any(y[0] == "val" and have_s[q] != y for q, y in want.items()):
            rep.bad("frontend", w, "the storage of an account differs from the witness")


def type2(rep, v):
    ins = [instr(j) for j in v["instrs"]]
    w = "type 2: " + " ".join(k if k != "Branch" else f"Branch({x['mask']:#x})" for k, x in ins)
    ok, got = res(v["result"])
    rep.ob()
    codes = {tup(x["raw_code"]["inner"]) for k, x in ins if k == "Code"}
    q = [x for x in ins if x[0] != "Code"]
    leaves = []

    def fold():
        if not q:
            raise Refused
        k, x = q.pop(0)
        if k == "Branch":
            if x["mask"] not in (1, 2, 3):
                raise Refused
            for _ in range(bin(x["mask"]).count("1")):
                fold()
        elif k == "SmtLeaf":
            leaves.append(x["0"])
        elif k != "Hash":
            raise Refused

    try:
        fold()
        if q:
            raise Refused
        fields = {}
        for l in leaves:
            n = l["node_type"]
            if len(l["address"]["inner"]) != 20 or len(l["value"]["inner"]) > 32:
                raise Refused
            if isinstance(n, dict):
                s = n["Storage"]["0"]["inner"]
                if len(s) > 32:
                    raise Refused
                n = ("slot", int.from_bytes(bytes(s), "big"))
            if n in fields:
                raise Refused
            fields[n] = int.from_bytes(bytes(l["value"]["inner"]), "big")
    except Refused:
        if ok:
            rep.bad("frontend", w, "a malformed witness is accepted")
        return
    if not ok:
        rep.bad("frontend", w, "a well-formed witness is rejected")
        return
    rep.ob()
    word = lambda j: sum(x << 64 * i for i, x in enumerate(j["0"]))
    slots = {("slot", i): word(res(j)[1]) for i, j in enumerate(got["slots"]) if res(j)[0] and word(res(j)[1])}
    have = (bool(got["present"]), word(got["balance"]), word(got["nonce"]), slots, {tup(c) for c in got["code"]})
    want = (bool(fields), fields.get("Balance", 0), fields.get("Nonce", 0), {k: x for k, x in fields.items() if isinstance(k, tuple)}, codes)
    if have != want:
        rep.bad("frontend", w, f"decoded as {have}, the witness says {want}")


class Bytes:
    def __init__(self, x):
        self.x = list(x)

    def take(self, n):
        if len(self.x) < n:
            raise Refused
        r, self.x = self.x[:n], self.x[n:]
        return r

    def cbor(self, major):
        h, = self.take(1)
        if h >> 5 != major or h & 31 > 27:
            raise Refused
        n = h & 31
        if n > 23:
            n = int.from_bytes(bytes(self.take(1 << n - 24)), "big")
        return n if major == 0 else self.take(n)

    def some(self):
        r = self.cbor(2)
        if not r:
            raise Refused
        return r

    def key(self):
        r = self.some()
        if len(r) == 1:
            if r[0] > 15:
                raise Refused
            return tuple(r)
        if r[0] & ~3:
            raise Refused
        ns = [y for z in r[1:] for y in (z >> 4, z & 15)]
        if r[0] & 1:
            if ns.pop():
                raise Refused
        return tuple(ns)


def parse(x):
    s = Bytes(x)
    if s.take(1)[0] > 1:
        raise Refused
    out = []
    while s.x or not out:
        o, = s.take(1)
        if o == 0:
            out.append(("Leaf", s.key(), tuple(s.some())))
        elif o == 1:
            out.append(("Extension", s.key()))
        elif o == 2:
            out.append(("Branch", s.cbor(0)))
        elif o == 3:
            out.append(("Hash", tuple(s.take(32))))
        elif o == 4:
            out.append(("Code", tuple(s.some())))
        elif o == 5:
            k = s.key()
            f, = s.take(1)
            if f > 15:
                raise Refused
            nonce = s.cbor(0) if f & 4 else None
            bal = None
            if f & 8:
                y = s.cbor(2)
                if len(y) > 32:
                    raise Refused
                bal = int.from_bytes(bytes(y), "big")
            if f & 1:
                s.cbor(0)
            out.append(("AccountLeaf", k, nonce, bal, f & 1, f >> 1 & 1))
        elif o == 6:
            out.append(("EmptyRoot",))
        elif o == 7:
            t, = s.take(1)
            a = tuple(s.some())
            if t > 4:
                raise Refused
            n = ("Storage", tuple(s.some())) if t == 3 else ("Balance", "Nonce", "Code", None, "CodeLength")[t]
            out.append(("SmtLeaf", n, a, tuple(s.some())))
        elif o == 0xBB:
            out.append(("NewTrie",))
        else:
            raise Refused
    return out


def flat(j):
    k, v = instr(j)
    if k == "Leaf":
        return (k, nibbles(v["key"]), tup(v["value"]["inner"]))
    if k == "Extension":
        return (k, nibbles(v["key"]))
    if k == "Branch":
        return (k, v["mask"])
    if k == "Hash":
        return (k, tup(v["raw_hash"]))
    if k == "Code":
        return (k, tup(v["raw_code"]["inner"]))
    if k == "AccountLeaf":
        bal = opt(v["balance"])
        return (k, nibbles(v["key"]), opt(v["nonce"]), None if bal is None else sum(x << 64 * i for i, x in enumerate(bal["0"])), v["has_code"], v["has_storage"])
    if k == "SmtLeaf":
        x = v["0"]
        n = x["node_type"]
        return (k, ("Storage", tup(n["Storage"]["0"]["inner"])) if isinstance(n, dict) else n, tup(x["address"]["inner"]), tup(x["value"]["inner"]))
    return (k,)


def wire(rep, v):
    rep.ob()
    w = "bytes " + bytes(v["bytes"]).hex()
    ok, got = res(v["result"])
    try:
        want = parse(v["bytes"])
    except Refused:
        if ok:
            rep.bad("wire", w, "malformed bytes are accepted")
        return
    if not ok:
        rep.bad("wire", w, "well-formed bytes are rejected")
    elif [flat(j) for j in got] != want:
        rep.bad("wire", w, f"parsed as {[flat(j) for j in got]}, they say {want}")


# ---- D05 ----
WORLD_GROUPS = [["h::account0"], ["h::account1"], ["h::account2"], ["h::account3"], ["h::slot0", "h::slot1"], ["h::slot2", "h::made", "h::masked", "h::other"],
                ["h::slot3"], ["h::slot4"]]
OPS = ["contains", "update_balance", "update_nonce", "set_code", "set_code (hash)", "reporting_destroy", "create_storage", "destroy_storage", "store_int", "store_hash",
       "load_int", "reporting_destroy_slot"]


def rlp_int(n):
    return tuple(rlp_str(n.to_bytes((n.bit_length() + 7) // 8, "big")))


def world(j):
    """(accounts, storage)"""
    acc = {b(t[0]): [t[1][0], t[1][1], b(t[2]), b(t[3])] for t in j["accounts"]}
    sto = {b(t[0]): [b(t[1]), {b(x[0]): tup(x[1]) for x in t[2]}] for t in j["storage"]}
    return acc, sto


def D05(rep, tier):
    rep.rule("the operations of both worlds are abstractly interpreted on tries of accounts and of slots whose keys part in each way that tries distinguish (keccak numbers what it hashes, so that the keys are chosen). "
             "An operation changes what it names and nothing else; the account commits to its storage afterwards; the root is that of a trie built afresh; and on the world masked to the named path and the one the deletion "
             "reports, the same operation leads from the same root to the same root.")
    for r in ("account0", "account1", "account2", "account3", "slot0", "slot1", "slot2", "slot3", "slot4"):
        for i, v, tags in data(rep, "h::" + r):
            world_op(rep, v, Hashes(tags))
    for i, v, tags in data(rep, "h::made"):
        rep.ob()
        ok, w = res(v)
        if ok != (i != 3):
            rep.bad("world-made", f"case {i}", "storage that is not the one an account commits to is accepted" if ok else "consistent storage is rejected")
        elif ok:
            acc, sto = world(w)
            if any(k not in sto or sto[k][0] != a[3] for k, a in acc.items()) or len(acc) != 2:
                rep.bad("world-made", f"case {i}", "an account does not commit to its storage")
    for i, v, tags in data(rep, "h::masked"):
        rep.ob(4)
        w = f"to accounts {v['accounts']} and slots {v['slots']}"
        ok, after = res(v["after"])
        if not ok:
            rep.bad("world-masked", w, "masking fails")
            continue
        if after["root"] != v["before"]["root"]:
            rep.bad("world-masked", w, "masking changes the root")
        acc, sto = world(after)
        acc0, sto0 = world(v["before"])
        keys = [b(v["keys"][a]) for a in v["accounts"]]
        if any(acc.get(k) != acc0[k] for k in keys) or any(acc0.get(k) != a for k, a in acc.items()):
            rep.bad("world-masked", w, "an account to keep is lost or changed")
        if set(sto) != set(keys) or any(sto[k][0] != sto0[k][0] for k in keys if k in sto):
            rep.bad("world-masked", w, "the storage tries kept are not those of the accounts named")
        k0 = b(v["keys"][0])
        if k0 in sto and any(sto[k0][1].get(b(v["skeys"][s])) != sto0[k0][1][b(v["skeys"][s])] for s in v["slots"]):
            rep.bad("world-masked", w, "a slot to keep is lost or changed")
    for i, v, tags in data(rep, "h::other"):
        other_op(rep, i, v)


def world_op(rep, v, h):
    rep.ob(7)
    op, on, s = v["op"], v["on"], v["slot"]
    key, skey = b(v["keys"][on]), b(v["skeys"][s])
    w = f"{OPS[op]} of {on}" + (f" slot {s}" if op > 7 else "") + f" among accounts {v['accounts']}" + (f" slots {v['slots']}" if v["slots"] else "")
    acc, sto = world(v["before"])
    ok, val = res(v["result"])
    there, has = on in v["accounts"], key in sto
    wok, wval = True, 0
    empty = h(b"\x80")
    if op == 0:
        wval = int(there)
    elif op < 5:
        a = acc.setdefault(key, [0, 0, h(b""), empty])
        if op < 3:
            a[op - 1] += 7 if op == 1 else 9
        else:
            a[2] = h(bytes([1, 2, 3])) if op == 3 else bytes([0xCC] * 32)
    elif op == 5:
        acc.pop(key, None)
    elif op == 6:
        sto[key] = [empty, {}]
    elif op == 7:
        wok = has
        sto.pop(key, None)
    elif op == 10:
        wok = has and skey in sto[key][1]
        wval = 300 + s
    else:
        wok = there and has
        if wok and op == 8:
            sto[key][1][skey] = rlp_int(77)
        if wok and op == 9:
            sto[key][1][skey] = rlp_str([0x99] * 32)
        if wok and op == 11:
            sto[key][1].pop(skey, None)
    if ok != wok or ok and val != wval:
        rep.bad("world-result", w, f"it {'returns ' + str(val) if ok else 'fails'}, it should {'return ' + str(wval) if wok else 'fail'}")
        return
    if not ok:
        return
    acc2, sto2 = world(v["after"])
    if op in (8, 9, 11):
        # the roots of what is written to are the new ones
        if key not in sto2 or key not in acc2 or acc2[key][3] != sto2[key][0]:
            rep.bad("world-storage-root", w, "the account does not commit to its storage")
        else:
            if sto2[key][1] == world(v["before"])[1][key][1]:
                if sto2[key][0] != sto[key][0]:
                    rep.bad("world-storage-root", w, "the storage root changes without the storage")
            elif sto2[key][0] == sto[key][0]:
                rep.bad("world-storage-root", w, "the storage root stays although the storage changes")
            acc[key][3] = acc2[key][3]
            sto[key][0] = sto2[key][0]
    if acc2 != acc:
        rep.bad("world-effect", w, "the accounts afterwards are not those before with the operation's effect")
    if sto2 != sto:
        rep.bad("world-effect", w, "the storage afterwards is not that before with the operation's effect")
    if v["after"]["hashed"] or any(t[3] for t in v["after"]["storage"]):
        rep.bad("world-effect", w, "a part is hashed out")
    if v["afresh"] != v["after"]["root"]:
        rep.bad("world-root", w, "the state root is not that of the accounts")
    mok, roots = res(v["masked"])
    if op == 7 and not has or op == 10:
        return
    if not mok:
        rep.bad("world-reported", w, "the operation fails on the world masked to what it names and reports")
    elif roots != [v["before"]["root"], v["after"]["root"]]:
        rep.bad("world-reported", w, "the operation leads to another root on the world masked to what it names and reports")


def other_op(rep, i, v):
    rep.ob(2)
    op = v["op"]
    w = f"{OPS[op]} of the second world, on {('no account', 'an account with default fields', 'an account')[i % 3]}"
    ok, val = res(v["result"])
    f = list(v["before"]) or None
    wok, wval = True, 0
    new = f[:] if f else [0, 0, 0, 0]
    slots = dict(zip(new[4::2], new[5::2]))
    if op == 0:
        wval = int(bool(f))
        new = f
    elif op in (1, 2):
        new[op - 1] = max(new[op - 1], 1) + (7 if op == 1 else 9)
    elif op == 4:
        new[2] = 61
    elif op == 5:
        new = None
    elif op == 6:
        new = f
    elif op == 7:
        slots = {}
        new = new if f else None
    elif op == 8:
        slots[0x50] = 77
    elif op == 9:
        slots[0x51] = 0x99
    elif op == 10:
        wok, wval = bool(f), slots.get(0x50, 0)
        new = f
    else:
        slots.pop(0x50, None)
        new = new if f else None
    if ok != wok or ok and val != wval:
        rep.bad("world-result", w, f"it {'returns ' + str(val) if ok else 'fails'}, it should {'return ' + str(wval) if wok else 'fail'}")
    want = new and new[:4] + [x for k in sorted(slots) for x in (k, slots[k])]
    # an account of which nothing is set is as good as none
    blank = lambda x: not x or not any(x)
    if v["after"] != (want or []) and not (blank(v["after"]) and blank(want)) or not v["kept"]:
        rep.bad("world-effect", w, "what is there afterwards is not what was before with the operation's effect")
