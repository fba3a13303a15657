"""C01: typed views of table rows."""
import facts

# tables whose constraints, witness and relations name columns through a view
MIN_VIEWS = 6


def C01(rep, tier):
    rep.rule("view-layout: every type converted to or from a raw row covers each column exactly once, all parts with specified (C) layout, "
             "every union variant covering the whole union; conversion: every conversion, index and accessor, interpreted on the row 0..N, "
             "yields the same row or a reference to the same memory; column-map: every constant of a view type maps each column to its own number.")
    f = facts.get("evm_arithmetization", [["views"]])["views"]
    rep.ob()
    if f["status"] != "ok":
        rep.bad("views", "evm_arithmetization", f["status"])
        return
    views, maps = f["views"], f["maps"]
    rep.ob()
    if len(views) < MIN_VIEWS:
        rep.bad("views", "evm_arithmetization", f"only {len(views)} column views found, expected at least {MIN_VIEWS}")
    seen = set()
    for name, v in sorted(views.items()):
        rep.ob(2 + len(v["cells"]))
        rep.count("views")
        rep.count("columns", v["columns"])
        for p in sorted(set(v["problems"])):
            if p not in seen:
                seen.add(p)
                rep.bad("view-layout", name, p)
        if not any(" as From" in k or " as Borrow" in k or " as Deref" in k for k, _ in v["fns"]):
            rep.bad("conversion", name, "no conversion to a raw row found")
        for k, st in v["fns"]:
            rep.ob()
            rep.count("conversions")
            if st != "ok":
                rep.bad("conversion", f"{name}: {k}", st)
        rep.sample({"view": name, "columns": v["columns"], "conversions": len(v["fns"])})
    for k, v, st in maps:
        rep.ob()
        rep.count("column_maps")
        if st != "ok":
            rep.bad("column-map", k, f"as {v}: {st}")
    rep.ob()
    if len(maps) < 5:
        rep.bad("column-map", "evm_arithmetization", f"only {len(maps)} column maps found, expected at least 5")
