"""Small polynomial arithmetic over the Goldilocks field, printing the same normal form as the driver."""
P = 0xFFFFFFFF00000001


class Poly(dict):
    """{sorted tuple of atom names: coefficient}"""

    @staticmethod
    def const(c):
        c %= P
        return Poly({(): c}) if c else Poly()

    @staticmethod
    def atom(n):
        return Poly({(n,): 1})

    def __add__(self, o):
        o = lift(o)
        r = Poly(self)
        for m, c in o.items():
            v = (r.get(m, 0) + c) % P
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: P - c for m, c in self.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        r = Poly()
        for m1, c1 in self.items():
            for m2, c2 in o.items():
                m = tuple(sorted(m1 + m2))
                v = (r.get(m, 0) + c1 * c2) % P
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r

    __rmul__ = __mul__

    def atoms(self):
        return {a for m in self for a in m}

    def norm(self):
        """scaled so that the first non-constant term (in name order) has coefficient 1"""
        if not self:
            return self
        ms = sorted(self)
        k = next((m for m in ms if m), ms[0])
        inv = pow(self[k], P - 2, P)
        return Poly({m: c * inv % P for m, c in self.items()})

    def show(self):
        if not self:
            return "0"
        out = []
        for i, m in enumerate(sorted(self)):
            c = self[m]
            neg = c > P // 2
            a = str(P - c if neg else c)
            s = (" - " if neg else " + ") if i else ("-" if neg else "")
            if not m:
                s += a
            else:
                s += ("" if a == "1" else a + "*") + "*".join(m)
            out.append(s)
        return "".join(out)


def lift(x):
    return x if isinstance(x, Poly) else Poly.const(x)


def A(n):
    return Poly.atom(n)


def short(t):
    """same abbreviation as the driver's poly::short"""
    if len(t) <= 480:
        return t
    a, b, M = 0xcbf29ce484222325, 0x9e3779b97f4a7c15, (1 << 64) - 1
    for c in t.encode():
        a = ((a ^ c) * 0x100000001b3) & M
        b = (((b << 5 | b >> 59) & M) ^ c) * 0xff51afd7ed558ccd & M
        b ^= b >> 29
    return f"{t[:160]} ...[{len(t)} chars #{a:016x}{b:016x}]"


def parse(t):
    """inverse of show"""
    if t == "0":
        return Poly()
    r = Poly()
    t = t.replace(" - ", " + -")
    for term in t.split(" + "):
        neg = term.startswith("-")
        if neg:
            term = term[1:]
        fs = split_star(term)
        c = 1
        if fs and fs[0].isdigit():
            c = int(fs[0])
            fs = fs[1:]
        p = Poly({tuple(sorted(fs)): (P - c if neg else c) % P})
        r = r + p
    return r


def split_star(t):
    out, d, cur = [], 0, ""
    for ch in t:
        if ch in "([{":
            d += 1
        if ch in ")]}":
            d -= 1
        if ch == "*" and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return out
