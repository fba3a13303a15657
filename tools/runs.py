"""Lists and sets of long regular texts, written compactly: integers in a text become slots."""
import re

TOK = re.compile(r"(#[0-9a-f]{16,}|(?<![A-Za-z_0-9])\d+|(?<=poseidon)\d+)")


def nat(s):
    return [(1, int(x)) if x.isdigit() else (0, x) for x in re.split(r"(\d+)", s) if x != ""]


def split(s):
    parts = TOK.split(s)
    t, ints = [], []
    for i, p in enumerate(parts):
        if i % 2 and not p.startswith("#"):
            t.append("\0")
            ints.append(int(p))
        else:
            t.append(p)
    return "".join(t), tuple(ints)


def join(t, ints):
    it = iter(ints)
    return re.sub("\0", lambda m: str(next(it)), t)


def seq(xs):
    """ordered list -> [[template, start, delta, count]]"""
    out = []
    for x in xs:
        t, v = split(x)
        if out and out[-1][0] == t:
            o = out[-1]
            last = tuple(a + d * (o[3] - 1) for a, d in zip(o[1], o[2]))
            step = tuple(b - a for a, b in zip(last, v))
            if o[3] == 1:
                o[2], o[3] = step, 2
                continue
            if step == o[2]:
                o[3] += 1
                continue
        out.append([t, v, tuple(0 for _ in v), 1])
    return [[o[0].replace("\0", "@"), list(o[1]), list(o[2]), o[3]] if o[3] > 1 else join(o[0], o[1]) for o in out]


def unseq(rs):
    out = []
    for r in rs:
        if isinstance(r, str):
            out.append(r)
            continue
        t, st, d, n = r
        t = t.replace("@", "\0")
        for k in range(n):
            out.append(join(t, [a + b * k for a, b in zip(st, d)]))
    return out


def pack(xs):
    """set of texts -> runs (order irrelevant)"""
    g = {}
    for x in set(xs):
        t, v = split(x)
        g.setdefault(t, []).append(v)
    out = []
    for t in sorted(g):
        out += seq([join(t, v) for v in sorted(g[t])])
    return out
