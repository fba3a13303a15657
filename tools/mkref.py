#!/usr/bin/env python3
"""Regenerate the specification files from the current tree (development only; every change is reviewed before it is committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts, checks_air as ca
S = ca.BASE + "/spec"


def w(name, x):
    os.makedirs(os.path.dirname(f"{S}/{name}.json"), exist_ok=True)
    with open(f"{S}/{name}.json", "w") as f:
        if isinstance(x, list):
            f.write("[\n" + ",\n".join(json.dumps(e) for e in x) + "\n]\n")
        else:
            f.write("{\n" + ",\n".join(json.dumps(k) + ": " + json.dumps(v) for k, v in x.items()) + "\n}\n")


def air():
    f = facts.get(ca.CRATE, [["columns"]])
    w("columns", {v: f[f"columns::{v}"]["value"] for v in ca.VIEW.values()})
    f = ca.air_facts(ca.STARKS)
    for s in ca.STARKS:
        root = f"{s}::eval_packed_generic"
        assert f[root]["status"] == "ok", f[root]["status"]
        seen, out = set(), []
        for k, v, fl, at, cells in ca.constraints(f, root):
            if (k, v) not in seen:
                seen.add((k, v))
                out.append([k, v, fl] + ([cells] if cells and s == 'CpuStark' else []))
        w(f"air/{s}", out)
    w("lookups", ca.lookups())
    w("ctl", ca.ctl_facts()[0])


def circ():
    import checks_circ as cc, runs
    f = cc.get([["circ::"]])
    for names in cc.RECURSION.values():
        for n in names:
            assert f["circ::" + n]["status"] == "ok", f["circ::" + n]["status"]
            w("circ/" + n, cc.spec_of(f["circ::" + n]))
    w("circ/layout", {"pv": runs.seq([cc.norm(x) for x in f["circ::pv_register"]["pis"]]),
                      "fpv": runs.seq([cc.norm(x) for x in f["circ::fpv_register"]["pis"]])})
    w("circ/memrows", runs.seq(sorted(cc.memrows(f["circ::extra_sum"]))))


def kern():
    import checks_kern, kexec, kshape
    P = kexec.Prog.of(checks_kern.load())
    open(f"{S}/kernel.lst", "w").write(P.dump())
    sh = kshape.Shapes(P)
    w("kernel_shapes", {n: list(v) + [False] + [True] * (n in kshape.LEAVING) for n, v in sh.known.items()})


if __name__ == "__main__":
    for a in sys.argv[1:]:
        globals()[a]()
