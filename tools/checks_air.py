"""Tables: constraint systems, lookups and cross-table relations as normal forms."""
import json, os
import facts
from poly import Poly, A, P, parse, short

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = "evm_arithmetization"
VIEW = {"CpuStark": "CpuColumnsView", "KeccakSpongeStark": "KeccakSpongeColumnsView"}
TABLE = {"ArithmeticStark": ["Arithmetic"], "BytePackingStark": ["BytePacking"], "CpuStark": ["Cpu"],
         "KeccakStark": ["Keccak"], "KeccakSpongeStark": ["KeccakSponge"], "LogicStark": ["Logic"],
         "MemoryStark": ["Memory"], "MemoryContinuationStark": ["MemBefore", "MemAfter"]}
STARKS = list(TABLE)


def ref(name):
    return json.load(open(f"{BASE}/spec/{name}.json"))


def perms(rep=None):
    """{stark: permutation of current column index -> reference column index} where a view moved its fields"""
    f = facts.get(CRATE, [["columns"]])
    r = ref("columns")
    out = {}
    for st, v in VIEW.items():
        cur = f[f"columns::{v}"].get("value")
        want = r[v]
        if f[f"columns::{v}"]["status"] != "ok" or cur is None:
            if rep is not None:
                rep.bad("column-view", v, f[f"columns::{v}"]["status"])
            continue
        if cur != want and sorted(cur) == sorted(want):
            out[st] = [want.index(c) for c in cur]
    return out


def air_facts(starks, circuit=False):
    pm = perms()
    m = ["eval_packed_generic"] + (["eval_ext_circuit"] if circuit else [])
    res = {}
    groups, extra = [], {}
    for s in starks:
        for k in m:
            groups.append([f"{s}::{k}"])
        if s in pm:
            extra[f"VERIF_PERM_{s}"] = ",".join(map(str, pm[s]))
    res = facts.get(CRATE, groups, extra)
    return res


def fileof(ev):
    """innermost file of the analysed crate on the call chain"""
    for part in ev["at"].split(" < "):
        f = part.rsplit("@", 1)[-1]
        if f.endswith(tuple("0123456789")) and ".rs:" in f and "starky" not in f and "plonky2" not in f:
            return f.rsplit(":", 1)[0]
    return "?"


def constraints(f, root):
    """list of (kind, form, file, at, cells)"""
    return [(e["k"], e["v"][0], fileof(e), e["at"], e.get("c", [])) for e in f[root]["events"] if e["v"][0] != "0"]


def need_ok(rep, f, root):
    st = f.get(root, {}).get("status", "missing")
    if st != "ok":
        rep.bad("analysable", root, "the evaluator could not be reduced to polynomial constraints: " + st[:900])
        return False
    return True


def compare_constraints(rep, stark, select=None, label=""):
    """every reference constraint is still imposed, and no other constraint is"""
    f = air_facts([stark])
    root = f"{stark}::eval_packed_generic"
    if not need_ok(rep, f, root):
        rep.ob()
        return None
    cur = constraints(f, root)
    want = [tuple(x) for x in ref(f"air/{stark}")]
    curset = {x[:2] for x in cur}
    wantset = {x[:2] for x in want}
    # an all-rows constraint implies the same polynomial on transitions, first and last rows
    n = 0
    for k, v, fl, *rest in want:
        if select and not select(v + " ".join(rest[0] if rest else []), fl):
            continue
        n += 1
        if (k, v) not in curset:
            why = "constraint no longer imposed"
            other = [kk for kk, vv in curset if vv == v]
            if other:
                why = f"constraint now imposed as {other} instead of {k}"
            rep.bad("constraint-lost" + label, f"{stark} ({fl})", f"{why}: [{k}] {v}")
    for k, v, fl, at, cells in cur:
        if (k, v) not in wantset and not (select and not select(v + " ".join(cells), fl)):
            rep.bad("constraint-added" + label, f"{stark} ({fl})", f"not part of the table's specification: [{k}] {v} at {at}")
    rep.ob(n)
    rep.count("constraints_compared", n)
    rep.count("constraints_in_source", len(cur))
    rep.count("abstract_steps", f[root]["steps"])
    rep.rule(f"The MIR of {stark}'s constraint evaluator is abstractly interpreted (constant propagation, field elements as "
             "hash-consed polynomials over the row's cells); the set of (row kind, normalised polynomial) it hands to the "
             "constraint consumer must equal the reviewed specification set.")
    for k, v, fl, at, _ in cur[:2]:
        rep.sample(f"{stark} [{k}] {v[:160]} @ {at.split(' < ')[0]}")
    return f


# ---- columns, lookups, cross-table lookups -------------------------------------------------------

def col_poly(c, pm=None):
    r = Poly.const(int_c(c["constant"]))
    for i, k in c["linear_combination"]:
        i = pm[i] if pm else i
        r = r + A(f"lv[{i}]") * int_c(k)
    for i, k in c["next_row_linear_combination"]:
        i = pm[i] if pm else i
        r = r + A(f"nv[{i}]") * int_c(k)
    return r


def int_c(t):
    return parse(t) if not str(t).lstrip("-").isdigit() else int(t)


def filter_poly(fl, pm=None):
    r = Poly()
    for a, b in fl["products"]:
        r = r + col_poly(a, pm) * col_poly(b, pm)
    for c in fl["constants"]:
        r = r + col_poly(c, pm)
    return r


def lookup_forms(val, pm=None):
    out = []
    for l in val:
        t = col_poly(l["table_column"], pm).show()
        fr = col_poly(l["frequencies_column"], pm).show()
        for c, fl in zip(l["columns"], l["filter_columns"]):
            out.append((col_poly(c, pm).show(), filter_poly(fl, pm).show(), t, fr))
    return out


def lookups(rep=None, starks=("ArithmeticStark", "BytePackingStark", "KeccakSpongeStark", "MemoryStark", "MemoryContinuationStark",
                              "CpuStark", "KeccakStark", "LogicStark")):
    f = facts.get(CRATE, [["%s::lookups" % s for s in STARKS]])
    pm = perms()
    out = {}
    for s in starks:
        r = f.get(f"{s}::lookups", {"status": "missing"})
        if r["status"].endswith("0 candidates"):
            out[s] = []          # the trait's default: no lookups
            continue
        if r["status"] != "ok":
            if rep is not None:
                rep.bad("analysable", f"{s}::lookups", r["status"][:600])
            out[s] = None
            continue
        out[s] = lookup_forms(r["value"], pm.get(s))
    return out


def compare_lookups(rep, starks):
    cur = lookups(rep, starks)
    want = ref("lookups")
    for s in starks:
        if cur[s] is None:
            rep.ob()
            continue
        w = [tuple(x) for x in want[s]]
        for x in w:
            rep.ob()
            if x not in cur[s]:
                rep.bad("lookup-lost", s, "no longer looked up: value {} under filter {} in table column {} (frequencies {})".format(*x))
        for x in cur[s]:
            if x not in w:
                rep.bad("lookup-changed", s, "unexpected lookup: value {} under filter {} in table column {} (frequencies {})".format(*x))
        if sorted(w) != sorted(cur[s]) and set(w) == set(cur[s]):
            rep.bad("lookup-count", s, "a lookup occurs a different number of times")
    rep.rule("Each table's lookup declaration is evaluated to (value, filter, table, frequency) polynomials and must contain exactly the "
             "reviewed obligations.")
    rep.count("lookups_compared", sum(len(want[s]) for s in starks))


def ctl_facts(rep=None):
    f = facts.get(CRATE, [["all_cross_table_lookups"], ["const", "enum"]])
    r = f["all_cross_table_lookups"]
    tb = f["enum::all_stark::Table"]
    if r["status"] != "ok" or tb["status"] != "ok":
        if rep is not None:
            rep.bad("analysable", "all_cross_table_lookups", r["status"][:600] + " / " + tb["status"])
        return None, None, f
    names = {v: k for k, v in tb["value"].items()}
    pmn = {}
    for s, p in perms().items():
        for t in TABLE[s]:
            pmn[t] = p
    out = []
    for c in r["value"]:
        def side(t):
            n = names.get(t["table"], str(t["table"]))
            pm = pmn.get(n)
            return [n, [col_poly(x, pm).show() for x in t["columns"]], filter_poly(t["filter"], pm).show()]
        looked = side(c["looked_table"])
        looking = [side(t) for t in c["looking_tables"]]
        # a common reordering of the columns of all sides is the same relation
        if all(len(x[1]) == len(looked[1]) for x in looking):
            sides = sorted(looking, key=lambda x: (x[0], x[2], x[1]))
            order = sorted(range(len(looked[1])), key=lambda i: (looked[1][i], i))
            canon = [looked[0], [looked[1][i] for i in order], looked[2]]
            cl = sorted([x[0], [x[1][i] for i in order], x[2]] for x in looking)
        else:
            canon, cl = looked, sorted(looking)
            if rep is not None:
                rep.bad("ctl-width", looked[0], "sides of a cross-table relation have different widths")
        out.append({"looked": canon, "looking": cl})
    return out, names, f


def compare_ctls(rep, tables=None, only=None):
    """tables: restrict to relation sides of these tables"""
    cur, names, f = ctl_facts(rep)
    if cur is None:
        rep.ob()
        return None
    want = ref("ctl")
    key = lambda c: c["looked"][0] + "|" + ";".join(sorted({x[0] for x in c["looking"]}))
    flat = lambda cs: [(key(c), "looked", json.dumps(c["looked"])) for c in cs] + \
                      [(key(c), "looking", json.dumps(x)) for c in cs for x in c["looking"]]
    fc, fw = flat(cur), flat(want)
    sel = lambda e: tables is None or json.loads(e[2])[0] in tables
    for e in fw:
        if not sel(e):
            continue
        rep.ob()
        if fc.count(e) < fw.count(e):
            rep.bad("ctl-side-lost", e[0], f"{e[1]} side no longer part of the relation: {e[2][:700]}")
    for e in fc:
        if sel(e) and fc.count(e) > fw.count(e):
            rep.bad("ctl-side-added", e[0], f"{e[1]} side not in the specification: {e[2][:700]}")
    rep.count("ctl_sides_compared", sum(1 for e in fw if sel(e)))
    rep.rule("The declared cross-table relations are evaluated to column and filter polynomials per side; the sides must be exactly the reviewed ones "
             "(a common reordering of columns, or any order of looking sides, is the same relation).")
    return cur, names, f


# ---- properties ----------------------------------------------------------------------------------

def table(stark, lk=True):
    def run(rep, tier):
        compare_constraints(rep, stark)
        if lk:
            compare_lookups(rep, [stark])
        compare_ctls(rep, TABLE[stark])
    return run


A01 = table("ArithmeticStark")
A02 = table("BytePackingStark")
A08 = table("KeccakStark")
A09 = table("KeccakSpongeStark")
A10 = table("LogicStark")
A11 = table("MemoryStark")
A12 = table("MemoryContinuationStark")


def A13(rep, tier):
    compare_lookups(rep, STARKS)


def A14(rep, tier):
    f = air_facts(STARKS, circuit=True)
    for s in STARKS:
        a, b = f"{s}::eval_packed_generic", f"{s}::eval_ext_circuit"
        if not (need_ok(rep, f, a) and need_ok(rep, f, b)):
            rep.ob()
            continue
        ca = [(e["k"], e["v"][0], e["at"]) for e in f[a]["events"]]
        cb = [(e["k"], e["v"][0], e["at"]) for e in f[b]["events"]]
        rep.ob(max(len(ca), len(cb)))
        rep.count("constraint_pairs", min(len(ca), len(cb)))
        for i in range(max(len(ca), len(cb))):
            x = ca[i] if i < len(ca) else None
            y = cb[i] if i < len(cb) else None
            if x is None or y is None or x[:2] != y[:2]:
                rep.bad("native-circuit-agreement", s, f"constraint #{i}: native {x} versus circuit {y}")
                break
        if ca:
            rep.sample(f"{s}: {len(ca)} constraints, first native [{ca[0][0]}] {ca[0][1][:120]} equals circuit [{cb[0][0]}]" if cb else s)
    rep.rule("For each table the ordered list of (row kind, normal-form polynomial) produced by the native evaluator and by the circuit evaluator "
             "must be identical.")


def A15(rep, tier):
    r = compare_ctls(rep)
    if r is None:
        return
    cur, names, f = r
    # structural consequences, independent of the reference
    n = f["const::all_stark::NUM_CTLS"].get("value")
    rep.ob(4)
    if n != len(cur):
        rep.bad("ctl-count", "NUM_CTLS", f"declared {n}, actual {len(cur)}")
    mi = f["const::all_stark::MEMORY_CTL_IDX"].get("value")
    if not (isinstance(mi, int) and mi < len(cur) and cur[mi]["looked"][0] == "Memory"
            and any(x[0] == "Cpu" for x in cur[mi]["looking"])):
        rep.bad("memory-ctl-index", "MEMORY_CTL_IDX", f"index {mi} does not select the memory relation")
    nt = f["const::all_stark::NUM_TABLES"].get("value")
    if nt != len(names):
        rep.bad("table-count", "NUM_TABLES", f"declared {nt}, Table has {len(names)} variants")
    used = {c["looked"][0] for c in cur} | {x[0] for c in cur for x in c["looking"]}
    for t in names.values():
        if t not in used:
            rep.bad("unconnected-table", t, "table takes part in no cross-table relation")


def cpu_select(files, columns):
    """constraints written in these files of cpu/, or mentioning one of these columns (by reference column name)"""
    names = ref("columns")["CpuColumnsView"]
    cells = []
    for side, col in columns:
        cells += [f"{side}_values[{i}]" for i, n in enumerate(names) if n == col]
        assert any(n == col for n in names), col

    def sel(v, fl):
        return fl == "?" or any(fl.startswith("cpu/" + x) for x in files) or any(c in v for c in cells)
    return sel


def both(*cols):
    return [(s, c) for c in cols for s in ("local", "next")]


KNOWN_CPU = ("decode", "gas", "stack", "dup_swap", "control_flow", "jumps", "syscalls_exceptions", "halt", "contextops", "pc.rs",
             "membus", "memio", "shift", "byte_unpacking", "simple_logic", "modfp254", "push0", "clock", "cpu_stark")


def cpu(files, columns, ctl):
    def run(rep, tier):
        sel = cpu_select(files, columns)
        compare_constraints(rep, "CpuStark", select=lambda v, fl: sel(v, fl) or not any(fl.startswith("cpu/" + x) for x in KNOWN_CPU))
        if ctl:
            compare_ctls(rep, ["Cpu"])
    return run


A03 = cpu(("decode",), [], True)
A04 = cpu(("gas",), both("gas"), False)
A05 = cpu(("stack", "dup_swap"), both("stack_len"), True)
A06 = cpu(("control_flow", "jumps", "syscalls_exceptions", "halt", "contextops", "pc.rs"),
          both("program_counter", "code_context") + [("next", "is_kernel_mode"), ("next", "context")], False)
A07 = cpu(("membus", "memio", "shift", "byte_unpacking", "simple_logic", "modfp254", "push0", "pc.rs", "clock", "cpu_stark"),
          both("clock", "partial_channel.used", "partial_channel.is_read"), True)
