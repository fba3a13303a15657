"""Facts about the analysed program, produced by the driver; cached by content of the analysed sources."""
import hashlib, json, os, sys, time
import vbuild

_prepared = False
_src_hash = None


def log(*a):
    print("[facts]", *a, file=sys.stderr)


def source_hash():
    global _src_hash
    if _src_hash is None:
        h = hashlib.sha256()
        h.update(open(vbuild.DRIVER + ".stamp", "rb").read())
        for d, dirs, files in os.walk(vbuild.WS):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                if os.path.basename(p) == "Cargo.lock":
                    continue
                h.update(os.path.relpath(p, vbuild.WS).encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
        _src_hash = h.hexdigest()[:24]
    return _src_hash


def prepare():
    global _prepared
    if not _prepared:
        vbuild.prepare()
        _prepared = True


def get(crate, groups, extra=None):
    """groups: list of lists of root-name prefixes, each group analysed by its own process.
    Returns {root: {...}} merged."""
    prepare()
    cache = os.path.join(vbuild.BUILD, "facts", source_hash())
    os.makedirs(cache, exist_ok=True)
    procs, outs, res = [], [], {}
    for g in groups:
        tag = hashlib.sha256((crate + "|" + ",".join(g) + "|" + json.dumps(extra or {}, sort_keys=True)).encode()).hexdigest()[:16]
        out = os.path.join(cache, tag + ".json")
        outs.append(out)
        if not os.path.exists(out):
            tmp = out + ".%d" % os.getpid()
            procs.append((vbuild.analyse(crate, g, tmp, extra), tmp, out, g))
    for p, tmp, out, g in procs:
        _, err = p.communicate()
        if not os.path.exists(tmp):
            sys.stderr.write(err[-3000:])
            raise SystemExit(f"analysis of {crate} {g} produced no result")
        os.replace(tmp, out)
    for o in outs:
        res.update(json.load(open(o)))
    # bounded cache
    base = os.path.join(vbuild.BUILD, "facts")
    ds = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base))
    for _, d in ds[:-6]:
        for f in os.listdir(os.path.join(base, d)):
            os.remove(os.path.join(base, d, f))
        os.rmdir(os.path.join(base, d))
    return res
