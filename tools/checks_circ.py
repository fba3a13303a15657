"""Transcript, public-memory binding, recursion circuits, public-value layout and serialisation."""
import collections, json, os, re
import facts, poly, runs
import checks_air as ca
from checks_air import CRATE, BASE, ref, need_ok

RECURSION = {"R01": ["segment", "stark"], "R02": ["segment_agg"], "R03": ["batch_agg"], "R04": ["block"],
             "R05": ["wrapper", "two_to_one"]}


def norm(s):
    return re.sub(r"\.0\[(\d+)\]\.elements\[(\d+)\]", r"[\1][\2]", s)


def ctlz():
    """running sums each table carries, from the declared cross-table relations"""
    ctls = ca.ctl_facts()[0]
    n = [0] * 9
    order = ["Arithmetic", "BytePacking", "Cpu", "Keccak", "KeccakSponge", "Logic", "Memory", "MemBefore", "MemAfter"]
    for c in ctl_tables(ctls):
        looked, looking = c
        n[order.index(looked)] += 2
        for t in set(looking):
            n[order.index(t)] += 2
    return ",".join(map(str, n))


def ctl_tables(ctls):
    for c in ctls.values() if isinstance(ctls, dict) else ctls:
        yield c["looked"][0], [x[0] for x in c["looking"]]


def get(groups):
    return facts.get(CRATE, groups, {"VERIF_CTLZ": ctlz()})


def data(rep, f, root):
    if not need_ok(rep, f, root):
        rep.ob()
        return None
    r = f[root]
    rep.count("abstract_steps", r["steps"])
    return r


def circuit_sets(r):
    """everything a circuit imposes and exposes, independent of statement order"""
    out = {"zero": {}, "verify": {}, "equal": [], "bool": [norm(b) for b in r["bools"]]}
    for e in r["events"]:
        if e["k"] == "zero":
            if e["v"][0] != "0":
                out["zero"].setdefault(norm(e["v"][0]), e["at"])
        else:
            out["verify"].setdefault(json.dumps([e["k"], e["t"], runs.seq([norm(x) for x in e["v"]])]), e["at"])
    out["equal"] = [sorted((norm(x) for x in c), key=runs.nat) for c in r["classes"]]
    out["pis"] = [norm(x) for x in r["pis"]]
    out["transcript"] = [k + " " + " ; ".join(map(norm, v)) for k, v in r["transcript"]]
    return out


def spec_of(r):
    c = circuit_sets(r)
    return {"zero": runs.pack(c["zero"]), "verify": sorted(map(json.loads, c["verify"]), key=str),
            "equal": runs.pack([" == ".join(x) for x in c["equal"]]), "bool": runs.pack(c["bool"]),
            "pis": runs.seq(c["pis"]), "transcript": runs.seq(c["transcript"])}


def where(at):
    return re.sub(r":\d+", "", at.split(" < ")[0] if at else "?")


class Consequences:
    """Decides whether a relation follows from the imposed ones by substituting equals for equals:
    each exposed value that an imposed relation equates with something else is replaced by it."""

    def __init__(self, cur):
        self.sub, self.forms = {}, set()
        for c in cur["equal"]:
            ms = [m for m in c if not m.startswith("=")]
            k = next((poly.Poly.const(int(m[1:])) for m in c if re.fullmatch(r"=-?\d+", m)), None)
            outs = [m for m in ms if m.startswith("public_values.")]
            to = k if k is not None else poly.A(min((m for m in ms if m not in outs), default=ms[0]))
            for m in outs:
                if to != poly.A(m):
                    self.sub[m] = to
        ps = [poly.parse(t) for t in cur["zero"] if "chars #" not in t]
        for p in ps:
            for m, c in p.items():
                if len(m) == 1 and m[0].startswith("public_values.") and c in (1, poly.P - 1) and m[0] not in self.sub \
                        and not any(a.startswith("public_values.") for n in p if n != m for a in n):
                    rest = poly.Poly({n: v for n, v in p.items() if n != m})
                    self.sub[m[0]] = rest if c == poly.P - 1 else -rest
                    break
        self.forms = {self.form(p).norm().show() for p in ps}

    def form(self, p):
        for _ in range(4):
            if not any(a in self.sub for a in p.atoms()):
                break
            q = poly.Poly()
            for m, c in p.items():
                t = poly.Poly.const(c)
                for a in m:
                    t = t * self.sub.get(a, poly.A(a))
                q = q + t
            p = q
        return p

    def zero(self, text):
        if "chars #" in text:
            return False
        p = self.form(poly.parse(text)).norm()
        return not p or p.show() in self.forms

    def equal(self, ms):
        vs = [poly.Poly.const(int(m[1:])) if re.fullmatch(r"=-?\d+", m) else poly.A(m) for m in ms]
        vs = [self.form(v) for v in vs]
        return all(not (v - vs[0]) or (v - vs[0]).norm().show() in self.forms for v in vs[1:])


def compare_circuit(rep, f, name):
    r = data(rep, f, "circ::" + name)
    if r is None:
        return None
    want = ref("circ/" + name)
    cur = circuit_sets(r)
    n, con = 0, None
    known = set(runs.unseq(want["zero"]))
    extra = [k for k in cur["zero"] if k not in known]
    for w in runs.unseq(want["zero"]):
        n += 1
        if w not in cur["zero"] and not (con := con or Consequences(cur)).zero(w):
            rep.bad("relation-lost", name, f"the circuit no longer imposes 0 = {w[:700]}" +
                    (f"; imposes instead 0 = {closest(w, extra)[:700]} at {cur['zero'][closest(w, extra)]}" if extra else ""))
    sets = [frozenset(c) for c in cur["equal"]]
    by = collections.defaultdict(list)
    for c in sets:
        for m in c:
            by[m].append(c)
    for w in runs.unseq(want["equal"]):
        n += 1
        ms = w.split(" == ")
        if not any(all(m in c for m in ms) for c in min((by[m] for m in ms), key=len)) \
                and not (con := con or Consequences(cur)).equal(ms):
            rep.bad("relation-lost", name, f"no longer all equal: {w[:700]}; now " +
                    " | ".join(sorted({" == ".join(sorted(c)) for m in ms for c in by[m] if not m.startswith("=")}))[:700])
    for w in want["verify"]:
        n += 1
        t = json.dumps(w)
        if t not in cur["verify"]:
            other = [k for k in cur["verify"] if json.loads(k)[0] == w[0]]
            rep.bad("verification-lost", name, f"no longer performed: {w[0]}({w[1]}) of {str(w[2])[:500]}; same kind now: "
                    + "; ".join(f"{o[:300]} at {cur['verify'][o]}" for o in other[:3]))
    for w in runs.unseq(want["bool"]):
        n += 1
        if w not in cur["bool"] and f"=0 == {w}" not in want["equal"]:
            rep.bad("relation-lost", name, f"{w} is no longer restricted to 0 or 1")
    for x in r["contradictions"]:
        rep.bad("contradiction", name, x)
    ordered(rep, name, "exposed public inputs", runs.unseq(want["pis"]), cur["pis"])
    ordered(rep, name, "transcript", runs.unseq(want["transcript"]), cur["transcript"])
    n += len(want["pis"]) + len(want["transcript"])
    rep.ob(n)
    rep.count("relations_compared", n)
    rep.count("relations_in_source", len(cur["zero"]) + len(cur["equal"]) + len(cur["verify"]))
    rep.rule("The circuit construction is abstractly interpreted on symbolic targets (constant propagation; targets as polynomials; builder and verifier "
             "gadgets as transfer functions); every reviewed relation (polynomial identity, equality class, embedded verification, 0/1 restriction) "
             "must still be imposed and the exposed public inputs and transcript must be the reviewed sequences.")
    for k, at in list(cur["zero"].items())[:3]:
        rep.sample(f"{name}: 0 = {k[:160]} @ {where(at)}")
    return cur


def closest(w, xs):
    t = set(re.findall(r"[\w.\[\]]+", w))
    return max(xs, key=lambda x: len(t & set(re.findall(r"[\w.\[\]]+", x[:4000]))))


def ordered(rep, name, what, want, cur):
    if want == cur:
        return
    for i, (a, b) in enumerate(zip(want, cur)):
        if a != b:
            rep.bad("sequence", name, f"{what}: item {i} should be {a[:300]} but is {b[:300]}")
            return
    rep.bad("sequence", name, f"{what}: {len(want)} items expected, {len(cur)} found; first difference at {min(len(want), len(cur))}")


def recursion(pid):
    def f(rep, tier):
        names = RECURSION[pid]
        fa = get([["circ::" + n] if n not in ("segment", "block") else ["circ::" + n + "$"] for n in names])
        for n in names:
            compare_circuit(rep, fa, n)
    return f


R01, R02, R03, R04, R05 = (recursion(f"R0{i}") for i in range(1, 6))


# ---- layout -------------------------------------------------------------------------------------

def leaves(r):
    return [norm(k) for k in r["ret"]]


def R06(rep, tier):
    roots = ["pv_register", "fpv_register", "pv_parse_target", "pv_parse", "fpv_parse", "pv_assign", "fpv_assign", "pv_select"]
    cc = ["TrieRoots", "BlockMetadata", "BlockHashes", "ExtraBlockData", "RegistersData", "MemCap"]
    f = get([["circ::" + x for x in roots] + [f"circ::{k}_{c}" for c in cc for k in ("connect", "cond")] + ["circ::wrapper"]])
    want = ref("circ/layout")
    lay = {}
    for n, r0 in (("pv", "pv_register"), ("fpv", "fpv_register")):
        r = data(rep, f, "circ::" + r0)
        if r is None:
            return
        lay[n] = [norm(x) for x in r["pis"]]
        ordered(rep, r0, "registered public inputs", runs.unseq(want[n]), lay[n])
        rep.ob(len(lay[n]))
        if sorted(leaves(r)) != sorted(lay[n]):
            miss = sorted(set(leaves(r)) ^ set(lay[n]))[:5]
            rep.bad("layout", r0, f"returned fields and registered public inputs differ: {miss}")
    # positions
    for n, r0, fields in (("pv", "pv_parse_target", None), ("pv", "pv_parse", None), ("fpv", "fpv_parse", None)):
        r = data(rep, f, "circ::" + r0)
        if r is None:
            continue
        pos = {x: i for i, x in enumerate(lay[n])}
        got = {norm(k): v for k, v in r["ret"].items()}
        if n == "fpv" and "chain_id[0]" in got:
            got["chain_id"] = got.pop("chain_id[0]")
            if got.pop("chain_id[1]", 0) not in (0, "0"):
                pass
        for x, i in pos.items():
            rep.ob()
            if x not in got:
                rep.bad("layout", r0, f"{x} is not decoded from public input {i}")
            elif str(got[x]) != f"pis[{i}]":
                rep.bad("layout", r0, f"{x} is registered as public input {i} but decoded from {got[x]}")
    # assignment
    for n, r0 in (("pv", "pv_assign"), ("fpv", "fpv_assign")):
        r = data(rep, f, "circ::" + r0)
        if r is None:
            continue
        got = {}
        for e in r["events"]:
            if e["k"] == "set":
                got.setdefault(norm(e["v"][0]), []).append((norm(e["v"][1]), e["at"]))
        wired = set()
        if n == "fpv" and need_ok(rep, f, "circ::wrapper"):
            # targets the circuit itself wires to the proof it verifies
            for c in f["circ::wrapper"]["classes"]:
                if any("proof." in norm(m) or "poseidon" in m for m in c):
                    wired |= {m.split("public_values.", 1)[1] for m in c if m.startswith("public_values.")}
        for x in lay[n]:
            rep.ob()
            m = re.fullmatch(r"(.*mem_cap)\[(\d+)\]\[(\d+)\]", x)
            if m:
                b, i, j = m.group(1), int(m.group(2)), int(m.group(3))
                exp = [f"value.{b}[{i}][{2*j}] + 4294967296*value.{b}[{i}][{2*j+1}]", f"value.{x}"]
            elif x == "chain_id":
                exp = ["value.chain_id", "value.chain_id[0] + 4294967296*value.chain_id[1]"]
            else:
                exp = [f"value.{x}"]
            g = got.get("target." + x)
            if g is None:
                if x not in wired:
                    rep.bad("layout", r0, f"no value is assigned to {x}")
            else:
                for v, at in g:
                    if v not in exp:
                        rep.bad("layout", r0, f"{x} is assigned {v} at {where(at)}")
    # select, connect, conditional equality: every field
    r = data(rep, f, "circ::pv_select")
    if r is not None:
        got = {norm(k): norm(str(v)) for k, v in r["ret"].items()}
        for x in lay["pv"]:
            rep.ob()
            e = set(terms(f"condition.target*pv0.{x} - condition.target*pv1.{x} + pv1.{x}"))
            if set(terms(got.get(x, "0"))) != e:
                rep.bad("select", "PublicValuesTarget::select", f"{x}: {got.get(x)}")
    sub = {"TrieRoots": "trie_roots_before.", "BlockMetadata": "block_metadata.", "BlockHashes": "block_hashes.",
           "ExtraBlockData": "extra_block_data.", "RegistersData": "registers_before.", "MemCap": "mem_before."}
    for c in cc:
        fs = [x[len(sub[c]):] for x in lay["pv"] if x.startswith(sub[c])]
        r = data(rep, f, f"circ::connect_{c}")
        if r is not None:
            cls = [set(map(norm, k)) for k in r["classes"]]
            for x in fs:
                rep.ob()
                if not any({f"x.{x}", f"y.{x}"} <= k for k in cls):
                    rep.bad("connect", f"{c}Target::connect", f"{x} is not connected")
            for k in cls:
                if len({m[2:] for m in k}) != 1:
                    rep.bad("connect", f"{c}Target::connect", "different fields are equated: " + " == ".join(sorted(k)[:4]))
        r = data(rep, f, f"circ::cond_{c}")
        if r is not None:
            zs = {frozenset(terms(norm(e["v"][0]))) for e in r["events"] if e["k"] == "zero"}
            for x in fs:
                rep.ob()
                if frozenset(terms(f"condition.target*x.{x} - condition.target*y.{x}")) not in zs:
                    rep.bad("connect", f"{c}Target::conditional_assert_eq", f"{x} is not compared")
                else:
                    zs.discard(frozenset(terms(f"condition.target*x.{x} - condition.target*y.{x}")))
            for z in zs:
                rep.bad("connect", f"{c}Target::conditional_assert_eq", "unexpected relation: " + " ".join(sorted(z))[:300])
    rep.count("public_fields", len(lay["pv"]) + len(lay["fpv"]))
    rep.rule("Registration, both parsers, witness assignment, select, connect and conditional equality of public values are abstractly interpreted on symbolic "
             "fields; for every field the position registered must be the position parsed, the target must be assigned exactly that field's value, and "
             "select, connect and conditional equality must relate it to the same field on the other side.")
    rep.sample(f"layout: {len(lay['pv'])} segment fields, e.g. {lay['pv'][53]} = public input 53; {len(lay['fpv'])} final fields")


def terms(s):
    """'a - b + c' -> {'+a','-b','+c'}, order free"""
    s = s.strip()
    out, sign = [], "+"
    if s.startswith("-"):
        sign, s = "-", s[1:]
    depth, cur = 0, ""
    i = 0
    while i < len(s):
        ch = s[i]
        if ch in "([":
            depth += 1
        if ch in ")]":
            depth -= 1
        if depth == 0 and s[i:i + 3] in (" + ", " - "):
            out.append(sign + cur)
            sign, cur = s[i + 1], ""
            i += 3
            continue
        cur += ch
        i += 1
    out.append(sign + cur)
    # overall sign of an equation is irrelevant only for equations; callers compare like with like
    return [o[0] + "*".join(sorted(o[1:].split("*"))) if "(" not in o else o for o in out]


# ---- serialisation ------------------------------------------------------------------------------

SERDE = ["RootCircuitData", "SegmentAggregationCircuitData", "BatchAggregationCircuitData", "AggregationChildTarget",
         "AggregationChildWithDummyTarget", "BlockCircuitData", "BlockWrapperCircuitData", "TwoToOneBlockCircuitData",
         "PublicValuesTarget", "FinalPublicValuesTarget", "StarkWrapperCircuit", "RecursiveCircuitsForTableSize",
         "ShrunkProofData", "AllRecursiveCircuits", "AllRecursiveCircuits upper"]


def R07(rep, tier):
    f = facts.get(CRATE, [["serde::"]])
    for t in SERDE:
        root = "serde::" + t
        if not need_ok(rep, f, root):
            rep.ob()
            continue
        r = f[root]
        rep.ob(r["leaves"])
        rep.count("items_written_and_read", r["items"])
        rep.count("abstract_steps", r["steps"])
        diff = r["diff"]
        if t.endswith("upper"):
            # without the table circuits nothing is written for them, so nothing of them is restored
            diff = [d for d in diff if not d.startswith(("by_table[", "table_dummy_proofs"))]
        for d in diff:
            rep.bad("round-trip", t, d)
        if r["left"]:
            rep.bad("round-trip", t, f"{r['left']} written items are never read back")
        if not r["items"] or not r["leaves"]:
            rep.bad("round-trip", t, "nothing is written")
        rep.sample(f"{t}: {r['leaves']} fields, {r['items']} items")
    rep.rule("For each persisted structure the writer is abstractly interpreted on symbolic fields, its items are queued, and the reader is interpreted on "
             "that queue; each item must be read with the kind it was written with, every field must be restored from its own item, and none may be left over.")


# ---- transcript and public memory ---------------------------------------------------------------

def T01(rep, tier):
    f = get([["circ::observe", "circ::pv_register"], ["circ::segment$"]])
    nat = data(rep, f, "circ::observe")
    tgt = data(rep, f, "circ::observe_target")
    reg = data(rep, f, "circ::pv_register")
    if None in (nat, tgt, reg):
        return

    def items(r):
        out = []
        for k, v in r["transcript"]:
            for x in v:
                out.append(norm(x).split("public_values.", 1)[-1])
        return out
    a, b = items(nat), items(tgt)
    ordered(rep, "observe_public_values", "native transcript against circuit transcript", b, a)
    rep.ob(len(b))
    cnt = collections.Counter(b)
    for x in reg["pis"]:
        x = norm(x)
        if ".mem_cap[" in x:
            continue     # the memory commitments are trace commitments, absorbed with them
        rep.ob()
        if cnt[x] != 1:
            rep.bad("absorbed-once", "observe_public_values", f"{x} is absorbed {cnt[x]} times")
    known = {norm(x) for x in reg["pis"]}
    for x in cnt:
        if x not in known:
            rep.bad("absorbed-once", "observe_public_values", f"{x} is absorbed but is not a public value")
    seg = data(rep, f, "circ::segment")
    if seg is not None:
        want = runs.unseq(ref("circ/segment")["transcript"])
        cur = circuit_sets(seg)["transcript"]
        ordered(rep, "segment circuit", "transcript", want, cur)
        rep.ob(len(want))
        head = 0
        for k, v in seg["transcript"]:
            if k == "observe":
                head += len(v)
            elif k != "new":
                break
        if head < 9 * 64 + len(b):
            rep.bad("order", "segment circuit", f"a challenge is drawn after only {head} absorbed values")
    rep.count("transcript_items", len(b))
    rep.rule("The sequence of values absorbed into the challenger is extracted by abstract interpretation from the native routine, from its circuit counterpart and "
             "from the whole segment circuit; native and circuit sequences must be equal, contain every public value once, and every commitment and public "
             "value must precede the first challenge.")
    import checks_mir
    checks_mir.transcript_order(rep)


def memrows(r):
    """terms 1/(gamma + sum beta^k col_k) -> rows of columns"""
    v = r["ret"][""]
    out = []
    for t in v if isinstance(v, list) else [v]:
        m = re.fullmatch(r"(-?\d+) \* inv\((.*)\)", t)
        if not m:
            out.append("? " + t[:200])
            continue
        cols = collections.defaultdict(list)
        gamma = 0
        for s in terms(norm(m.group(2))):
            sg, fs = s[0], s[1:].split("*")
            k = fs.count("challenge.beta")
            rest = [x.split("public_values.", 1)[-1] for x in fs if x != "challenge.beta"]
            if rest == ["challenge.gamma"]:
                gamma += 1
                continue
            cols[k].append((sg if sg == "-" else "") + "*".join(rest or ["1"]))
        row = [" + ".join(sorted(cols[k])) if k in cols else "0" for k in range(max(list(cols) + [12]) + 1)]
        out.append(f"{m.group(1)} x{'' if gamma == 1 else ' NO-GAMMA'} " + " | ".join(row))
    return out


def T02(rep, tier):
    f = get([["circ::extra_sum"]])
    nat, tgt = data(rep, f, "circ::extra_sum"), data(rep, f, "circ::extra_sum_target")
    if None in (nat, tgt):
        return
    want = collections.Counter(runs.unseq(ref("circ/memrows")))
    for n, r in (("get_memory_extra_looking_sum", nat), ("get_memory_extra_looking_sum_circuit", tgt)):
        cur = collections.Counter(memrows(r))
        for w in (want - cur):
            rep.bad("public-memory", n, "no longer counted: read|ctx|seg|virt|value limbs|time = " + w)
        for w in (cur - want):
            rep.bad("public-memory", n, "counted but not specified: read|ctx|seg|virt|value limbs|time = " + w)
        rep.ob(sum(want.values()))
        rep.count("public_memory_accesses", sum(cur.values()))
    rep.rule("The sum the public values contribute to the memory relation is extracted, natively and in circuit form, as a sum of inverses; each term is one memory "
             "access, and the accesses (direction, address, value limbs, timestamp) must be exactly the reviewed list.")
    for w in list(want)[:4]:
        rep.sample("read|ctx|seg|virt|limbs|time: " + w)
    # the memory commitments: bound by the segment circuit to the continuation tables
    g = get([["circ::segment$"]])
    r = data(rep, g, "circ::segment")
    if r is not None:
        cls = [set(map(norm, c)) for c in r["classes"]]
        for k, t in (("mem_before", 7), ("mem_after", 8)):
            for i in range(16):
                for j in range(4):
                    rep.ob()
                    a, b = f"public_values.{k}.mem_cap[{i}][{j}]", f"proof_with_pis[{t}].public_inputs[{4*i+j}]"
                    if not any(a in c and b in c for c in cls):
                        rep.bad("memory-commitment", "segment circuit", f"{a} is not the commitment of its table ({b})")
    import checks_mir
    checks_mir.native_memory_caps(rep)
