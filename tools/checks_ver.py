"""T03: what an accepted proof went through, and what every failing check leads to."""
import re
import facts

CRATE = "evm_arithmetization"
SP = "all_proof.multi_proof.stark_proofs"
STARK = {"Arithmetic": "ArithmeticStark", "BytePacking": "BytePackingStark", "Cpu": "CpuStark", "Keccak": "KeccakStark", "KeccakSponge": "KeccakSpongeStark",
         "Logic": "LogicStark", "Memory": "MemoryStark", "MemBefore": "MemoryContinuationStark", "MemAfter": "MemoryContinuationStark"}
# tables a segment may leave out: those whose every contribution is looked up only when the CPU asks for it, and the final memory of a terminal segment
OPTIONAL = {"BytePacking", "Keccak", "KeccakSponge", "Logic", "MemAfter"}
# circuits whose proofs carry the key they were made with
CYCLIC = {"verify_root": False, "verify_segment_aggregation": True, "verify_batch_aggregation": True, "verify_block": True, "verify_block_wrapper": False, "verify_two_to_one_block": True}


def groups(e):
    head, _, text = e["t"].partition("|")
    out, i = [], 0
    for n in head.split(","):
        n = int(n or 0)
        out.append(e["v"][i:i + n])
        i += n
    return out, text.split("|")


def rejected(r):
    return r == "Err" or r.startswith("panic")


def T03(rep, tier):
    f = facts.get(CRATE, [["verify", "enum::all_stark::Table", "const::all_stark::"]])
    v = f.get("verify", {})
    if v.get("status") != "ok":
        rep.bad("anchor", "verify", f"not analysed: {v.get('status')}")
        return
    tables = {n: i for n, i in f["enum::all_stark::Table"]["value"].items()}
    rep.ob()
    if set(tables) != set(STARK):
        rep.bad("tables", "Table", f"unknown or missing tables: {sorted(set(tables) ^ set(STARK))}")
        return
    nctl, mem = f["const::all_stark::NUM_CTLS"].get("value"), f["const::all_stark::MEMORY_CTL_IDX"].get("value")
    seg = {x["name"]: x for x in v["segment"]}
    at = "evm_arithmetization/src/verifier.rs verify_proof"

    def accepted(name, out=()):
        """every obligation of an accepted proof; `out`: tables that are not part of it"""
        x = seg.get(name)
        rep.ob()
        if x is None or x["result"] != "Ok":
            rep.bad("honest-proof", f"{at} [{name}]", f"not accepted: {x and x['result']}")
            return
        ev = {}
        for e in x["events"]:
            ev.setdefault(e["k"], []).append(e)
        # in the initial scenario the commitment of the memory before is the fixed one
        fixed = tables["MemBefore"] if name == "initial" else None

        def own(y, i, pre=""):
            return y.startswith(f"{pre}{SP}[{i}].proof.") or i == fixed and y.startswith(f"{pre}initial_cap(")

        # --- transcript
        pre, chal, seen = [], [], False
        for kind, vals in x["transcript"]:
            if kind == "challenge":
                chal += vals
            elif not chal:
                pre += vals
                seen |= kind == "public_values"
        rep.ob(2)
        if not seen or not ev.get("observe") or any(not e["t"].endswith("|true") for e in ev["observe"]):
            rep.bad("transcript", f"{at} [{name}]", "the public values of the proof are not observed before the challenges are drawn")
        for t, i in tables.items():
            caps = [c for c in pre if c.startswith(f"{SP}[{i}].proof.trace_cap") or i == fixed and c.startswith("initial_cap(")]
            rep.ob()
            if (not caps) != (t in out):
                rep.bad("transcript", f"{at} [{name}] {t}", "the trace commitment is not observed before the challenges are drawn" if t not in out else "a missing table is observed")
        # the challenges of the cross-table argument: drawn before any table's own
        # --- every table
        starks = {}
        for e in ev.get("stark", []):
            g, t = groups(e)
            starks.setdefault(int(t[1]), []).append((e, g, t[0]))
        for t, i in tables.items():
            es = starks.pop(i, [])
            rep.ob(3)
            rep.count("table obligations")
            if t in out:
                if es:
                    rep.bad("table", f"{at} [{name}] {t}", "a missing table is verified")
                continue
            if not es:
                rep.bad("table", f"{at} [{name}] {t}", "its proof is not verified against the relations of the table")
                continue
            for e, g, sn in es:
                if sn != STARK[t]:
                    rep.bad("table", f"{at} [{name}] {t}", f"verified as {sn}, expected {STARK[t]}")
                if not g[0] or any(not own(y, i) for y in g[0]):
                    rep.bad("table", f"{at} [{name}] {t}", "the proof verified is not the one of the table")
                if not g[1] or any(not own(y, i, "chal(") for y in g[1]):
                    rep.bad("table", f"{at} [{name}] {t}", "the challenges are not those of the table's proof")
            cs = [groups(e) for e in ev.get("ctl_vars", []) if e["t"].split("|")[1] == str(i)]
            rep.ob(2)
            for g, a in cs:
                if any(not own(y, i) for y in g[0]) or not g[0]:
                    rep.bad("relations", f"{at} [{name}] {t}", "the relation columns are taken from another proof")
                if a[1] != "relations":
                    rep.bad("relations", f"{at} [{name}] {t}", f"the relations are not the declared ones: {a[1]}")
                if int(a[3]) != 1000 + i:
                    rep.bad("relations", f"{at} [{name}] {t}", "the number of helper columns is not that of the table")
                if g[1] != chal:
                    rep.bad("relations", f"{at} [{name}] {t}", "the relation challenges are not the ones drawn after all commitments")
            if not cs:
                rep.bad("relations", f"{at} [{name}] {t}", "no relation columns are derived from the proof")
        for i in starks:
            rep.bad("table", f"{at} [{name}]", f"a proof is verified with the relations of no table: {i}")
        for e in ev.get("helpers", []):
            t, rel, n, d = e["t"].split("|")
            rep.ob()
            if rel != "relations":
                rep.bad("relations", f"{at} [{name}] table {t}", "helper columns counted over other relations")
        # --- sums
        cr = ev.get("cross", [])
        rep.ob()
        if len(cr) != 1:
            rep.bad("sums", f"{at} [{name}]", f"the cross-table sums are verified {len(cr)} times")
            return
        g, a = groups(cr[0])
        extra = dict((int(y.split(":")[0]), int(y.split(":")[1])) for y in a[1].split())
        keys = list(extra)
        rep.ob(2)
        if a[0] != "relations":
            rep.bad("sums", f"{at} [{name}]", "the sums are not checked against the declared relations")
        if set(keys) != set(range(nctl)):
            rep.bad("sums", f"{at} [{name}]", f"public contributions of relations {sorted(keys)}, expected 0..{nctl}")
        for t, i in tables.items():
            rep.ob()
            want = f"{SP}[{i}].proof.openings.ctl_zs_first"
            if t in out:
                if any(y != "0" for y in g[i]) or not g[i]:
                    rep.bad("sums", f"{at} [{name}] {t}", "a missing table contributes to the sums")
            elif not g[i] or any(not y.startswith(want) for y in g[i]) or len(set(g[i])) != len(g[i]):
                rep.bad("sums", f"{at} [{name}] {t}", "the sums of the table are not its own opening")
        nc = len(chal) // 2
        for k, vals in zip(keys, g[len(tables):]):
            rep.ob()
            if k == mem:
                want = [f"extra_sum({chal[2 * c]},{chal[2 * c + 1]}|true)" for c in range(nc)]
            else:
                want = ["0"] * nc
            if vals != want:
                rep.bad("sums", f"{at} [{name}] relation {k}", f"public contribution {vals[:2]}, expected {want[:2]}")

    accepted("honest")
    accepted("initial")
    nf = seg["honest"]["fallible"] if "honest" in seg else 0
    for i in range(nf):
        x = seg.get(f"fail {i}", {"result": "?"})
        rep.ob()
        rep.count("failing sub-checks")
        if not rejected(x["result"]):
            last = x["events"][-1] if x.get("events") else {"k": "?", "at": "?"}
            rep.bad("failing-check", f"{at} [{x.get('name')}]", f"the proof is accepted although check {i} fails: {x['result'][:120]}")
    for n, why in (("other before", "public MemBefore commitment differs from the table's"), ("other after", "public MemAfter commitment differs from the table's"),
                   ("other initial", "the initial memory commitment is not the fixed one")):
        rep.ob()
        x = seg.get(n, {"result": "?"})
        if not rejected(x["result"]):
            rep.bad("commitment", f"{at} [{n}]", f"not rejected: {why}: {x['result'][:120]}")
    for t in tables:
        for n in ("unused", "missing", "undeclared"):
            x = seg.get(f"{n} {t}", {"result": "?"})
            rep.ob()
            rep.count("table-use scenarios")
            if n == "unused" and t in OPTIONAL:
                accepted(f"unused {t}", {t})
            elif n == "undeclared" and x["result"] == "Ok":
                # accepted: then as a table in use
                accepted(f"undeclared {t}")
            elif not rejected(x["result"]):
                rep.bad("table-use", f"{at} [{n} {t}]", f"not rejected: {x['result'][:160]}")
    x = seg.get("nonzero MemAfter", {"result": "?"})
    rep.ob()
    if not rejected(x["result"]):
        rep.bad("commitment", f"{at} [nonzero MemAfter]", f"a missing final memory with a nonzero commitment is not rejected: {x['result'][:120]}")

    # --- sequences of segments
    at = "evm_arithmetization/src/verifier.rs verify_all_proofs"
    for x in v["sequence"]:
        rep.ob()
        rep.count("segment sequences")
        n = int(x["name"].split()[0])
        if "fail" in x["name"]:
            if not rejected(x["result"]):
                rep.bad("sequence", f"{at} [{x['name']}]", f"accepted although a segment fails: {x['result'][:120]}")
            continue
        if x["result"] != "Ok":
            rep.bad("sequence", f"{at} [{x['name']}]", f"not accepted: {x['result'][:200]}")
            continue
        got = {}
        for e in x["events"]:
            if e["k"] == "segment":
                g, t = groups(e)
                m = {re.match(r"all_proofs\[(\d+)\]", y).group(1) if y.startswith("all_proofs[") else "?" for y in g[0]}
                got.setdefault(",".join(sorted(m)), set()).add(t[0])
        want = {str(i): {"true" if i == 0 else "false"} for i in range(n)}
        if got != want and {k: s - {"false"} if k == "0" else s for k, s in got.items()} != want:
            rep.bad("sequence", f"{at} [{x['name']}]", f"segments verified (and whether as initial): {got}")

    # --- circuit proofs
    circ = {x["name"]: x for x in v["circuits"]}
    for fn, cyc in CYCLIC.items():
        at = f"evm_arithmetization/src/fixed_recursive_verifier.rs {fn}"
        base = fn[len("verify_"):]
        x = circ.get(fn, {"result": "?", "events": [], "fallible": 0})
        rep.ob(3)
        rep.count("circuit verifiers")
        if x["result"] != "Ok":
            rep.bad("circuit", at, f"not accepted: {x['result'][:200]}")
            continue
        ok = okc = False
        for e in x["events"]:
            g, t = groups(e)
            mine = bool(g[0]) and all(y.startswith("proof.") for y in g[0]) and any(y.startswith("proof.public_inputs") for y in g[0])
            key = f"self.{base}.circuit."
            if e["k"] == "circuit":
                ok |= mine and len(g[0]) > 10 and f"{key}verifier_only" in t[0].split() and all(y.startswith(key) for y in t[0].split())
            if e["k"] == "cyclic":
                okc |= mine and t[0] == key + "verifier_only" and t[1] == key + "common"
        if not ok:
            rep.bad("circuit", at, f"the proof is not verified against the {base} circuit")
        if cyc and not okc:
            rep.bad("circuit", at, f"the verifier key inside the proof is not compared with that of the {base} circuit")
        for i in range(x["fallible"]):
            y = circ.get(f"{fn} fail {i}", {"result": "?"})
            rep.ob()
            if not rejected(y["result"]):
                rep.bad("failing-check", f"{at} [fail {i}]", f"accepted although a check fails: {y['result'][:120]}")
    rep.assumptions = ["rustc's MIR and type checking", "plonky2/starky verification, hashing and proof-challenge primitives (transfer functions)",
                       "std collections", "default features (eth_mainnet)"]
