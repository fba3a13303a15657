"""Relational abstract interpretation of two kernel programs: the current one and the reviewed reference.

Both are executed over symbolic words from every routine both define. Paths are cut at calls of shared
routines, returns, computed jumps, context switches, kernel exit, prover advice and loop heads; at each cut
both sides must perform the same action on equal operands, with equal memory and equal context."""
import json, re

M = 1 << 256
MASK = M - 1

# ---------------------------------------------------------------- hash-consed words
NODES = []
IDS = {}
HASLAB = []


def mk(*n):
    i = IDS.get(n)
    if i is None:
        i = len(NODES)
        IDS[n] = i
        NODES.append(n)
        k = n[0]
        if k == "lab":
            h = True
        elif k == "lin":
            h = any(HASLAB[a] for a, _ in n[2])
        elif k in ("c", "s"):
            h = False
        else:
            h = any(HASLAB[x] for x in n[1:] if type(x) is int)
        HASLAB.append(h)
    return i


def con(v):
    return mk("c", v % M)


def sym(*name):
    return mk("s", name)


for _i in range(64):
    con(_i)
ZERO, ONE = con(0), con(1)


def cval(i):
    n = NODES[i]
    return n[1] if n[0] == "c" else None


def lin(i):
    """(constant, {atom: coefficient})"""
    n = NODES[i]
    if n[0] == "c":
        return n[1], {}
    if n[0] == "lin":
        return n[1], dict(n[2])
    return 0, {i: 1}


def unlin(c, d):
    c %= M
    t = tuple(sorted((a, k % M) for a, k in d.items() if k % M))
    if not t:
        return con(c)
    if c == 0 and len(t) == 1 and t[0][1] == 1:
        return t[0][0]
    return mk("lin", c, t)


def add(a, b, ka=1, kb=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = {x: k * ka for x, k in da.items()}
    for x, k in db.items():
        d[x] = d.get(x, 0) + k * kb
    return unlin(ca * ka + cb * kb, d)


def scale(a, k):
    return add(a, ZERO, k, 1)


BOOLS = {"lt", "eq0", "not", "slt"}


def isbool(i):
    n = NODES[i]
    return n[0] in BOOLS or n[0] == "c" and n[1] in (0, 1) or n[0] in ("and", "or") and all(isbool(x) for x in n[1:])


def signed(v):
    return v - M if v >> 255 else v


def eq0(x):
    n = NODES[x]
    if n[0] == "c":
        return con(int(n[1] == 0))
    if isbool(x):
        return bnot(x)
    if n[0] == "lin":
        # sign normalisation
        y = add(ZERO, x, 1, -1)
        if NODES[y][0] != "lin" or NODES[y][2][0][1] < n[2][0][1]:
            x = y
        n = NODES[x]
        if n[0] == "lin":
            s = n if n[1] == 0 else None
            if s and all(isbool(y) and 0 < k < 1 << 64 for y, k in s[2]):
                return nary("and", *[bnot(y) for y, _ in s[2]])
            s = NODES[y0] if (y0 := add(ZERO, x, 1, -1)) and NODES[y0][0] == "lin" and NODES[y0][1] == 0 else None
            if s and all(isbool(y) and 0 < k < 1 << 64 for y, k in s[2]):
                return nary("and", *[bnot(y) for y, _ in s[2]])
    if n[0] == "or":
        return nary("and", *[eq0(y) for y in n[1:]])
    return mk("eq0", x)


def bnot(b):
    n = NODES[b]
    if n[0] == "c":
        return con(int(n[1] == 0))
    if n[0] == "not":
        return n[1]
    return mk("not", b)


def lt(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return con(int(ca < cb))
    if a == b or cb == 0 or ca == MASK:
        return ZERO
    if ca is not None:
        if ca == 0:
            return bnot(eq0(b))
        return bnot(lt(b, con(ca + 1)))
    if cb == 1:
        return eq0(a)
    return mk("lt", a, b)


def nary(op, *xs):
    """AND / OR"""
    out, c = [], MASK if op == "and" else 0
    for x in xs:
        n = NODES[x]
        if n[0] == op:
            out += n[1:]
        elif n[0] == "c":
            c = c & n[1] if op == "and" else c | n[1]
        else:
            out.append(x)
    # constants inside
    rest = []
    for x in sorted(set(out)):
        v = cval(x)
        if v is not None:
            c = c & v if op == "and" else c | v
        else:
            rest.append(x)
    if op == "and" and c == 0:
        return ZERO
    if op == "or" and c == MASK:
        return con(MASK)
    if rest and all(isbool(x) for x in rest):
        if op == "and":
            if c & 1 == 0:
                return ZERO
            c = MASK
        elif c == 1:
            return ONE
    if c != (MASK if op == "and" else 0):
        rest.append(con(c))
    if not rest:
        return con(c)
    if len(rest) == 1:
        return rest[0]
    return mk(op, *rest)


def mul(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    if isbool(a) and isbool(b):
        return nary("and", a, b)
    xs = []
    k = 1
    for x in (a, b):
        n = NODES[x]
        if n[0] == "mul":
            xs += n[1:]
        elif n[0] == "lin" and n[1] == 0 and len(n[2]) == 1:
            k *= n[2][0][1]
            xs.append(n[2][0][0])
        else:
            xs.append(x)
    r = mk("mul", *sorted(xs))
    return scale(r, k)


def shr(k, x):
    c, v = cval(k), cval(x)
    if c is not None and c >= 256:
        return ZERO
    if c == 0:
        return x
    if c is not None and v is not None:
        return con(v >> c)
    if c is not None:
        n = NODES[x]
        if n[0] == "shr" and cval(n[1]) is not None:
            return shr(con(cval(n[1]) + c), n[2])
    return mk("shr", k, x)


def shl(k, x):
    c = cval(k)
    if c is not None:
        return ZERO if c >= 256 else scale(x, 1 << c)
    return mk("shl", k, x)


def div(a, b):
    ca, cb = cval(a), cval(b)
    if cb == 0:
        return ZERO
    if ca is not None and cb is not None:
        return con(ca // cb)
    if cb is not None and cb & (cb - 1) == 0:
        return shr(con(cb.bit_length() - 1), a)
    return mk("div", a, b)


def mod(a, b):
    ca, cb = cval(a), cval(b)
    if cb == 0:
        return ZERO
    if ca is not None and cb is not None:
        return con(ca % cb)
    if cb is not None and cb & (cb - 1) == 0:
        return nary("and", a, con(cb - 1))
    return mk("mod", a, b)


def xor(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return con(ca ^ cb)
    if a == b:
        return ZERO
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb == 0:
        return a
    if cb == MASK:
        return add(con(MASK), a, 1, -1)
    if cb == 1 and isbool(a):
        return bnot(a)
    return mk("xor", *sorted((a, b)))


def alu(op, a):
    if op == "ADD":
        return add(*a)
    if op == "SUB":
        return add(a[0], a[1], 1, -1)
    if op == "MUL":
        return mul(*a)
    if op == "DIV":
        return div(*a)
    if op == "MOD":
        return mod(*a)
    if op == "LT":
        return lt(*a)
    if op == "GT":
        return lt(a[1], a[0])
    if op == "EQ":
        return eq0(add(a[0], a[1], 1, -1))
    if op == "ISZERO":
        return eq0(a[0])
    if op == "NOT":
        return add(con(MASK), a[0], 1, -1)
    if op in ("AND", "OR"):
        return nary(op.lower(), *a)
    if op == "XOR":
        return xor(*a)
    if op == "SHL":
        return shl(*a)
    if op == "SHR":
        return shr(*a)
    if op == "SGT":
        return mk("slt", a[1], a[0])
    if op == "SLT":
        return mk("slt", a[0], a[1])
    if op == "EXP" and cval(a[0]) is not None and cval(a[1]) is not None:
        return con(pow(cval(a[0]), cval(a[1]), M))
    if op == "BYTE" and cval(a[0]) is not None and cval(a[1]) is not None:
        return con((cval(a[1]) >> 8 * (31 - cval(a[0]))) & 255 if cval(a[0]) < 32 else 0)
    if op in ("ADDFP254", "MULFP254", "ADDMOD", "MULMOD"):
        return mk(op, *sorted(a[:2]), *a[2:])
    return mk(op, *a)


ALU = {"ADD": 2, "MUL": 2, "SUB": 2, "DIV": 2, "MOD": 2, "LT": 2, "GT": 2, "EQ": 2, "AND": 2, "OR": 2, "XOR": 2, "BYTE": 2, "SHL": 2, "SHR": 2,
       "SDIV": 2, "SMOD": 2, "SLT": 2, "SGT": 2, "SAR": 2, "EXP": 2, "SIGNEXTEND": 2,
       "ADDFP254": 2, "MULFP254": 2, "SUBFP254": 2, "ADDMOD": 3, "MULMOD": 3, "SUBMOD": 3, "ISZERO": 1, "NOT": 1}


# ---------------------------------------------------------------- memory: chains of writes over a base version
def diff(a, b):
    """a - b when constant, else None"""
    v = cval(add(a, b, 1, -1))
    return v


def wlen(w):
    """(address, number of cells) of a write"""
    return (w[1], 1) if w[0] == "st" else (w[2], w[1])


LARGEST_CONTEXT = None     # address of the cell holding the last context handed out


def context_of(a):
    """("ctx" | "new", identity) of the context an address lies in, when known"""
    c, d = lin(a)
    if not d:
        return ("ctx", None) if c < 1 << 64 else None
    if len(d) != 1:
        return None
    (x, k), = d.items()
    n = NODES[x]
    if k == 1 and n[0] == "s" and n[1][0] in ("ctx", "new") and c < 1 << 63:
        return n[1][0], x
    if k == 1 and n[0] == "ld" and cval(n[1]) == LARGEST_CONTEXT and 1 << 64 <= c < 3 << 63:
        return "new", x
    return None


def disjoint(a, la, b, lb):
    d = diff(a, b)
    if la is None or lb is None:
        return False
    if d is None:
        x, y = context_of(a), context_of(b)
        # a context just created is neither the current one nor the kernel's
        return bool(x and y) and x[0] != y[0]
    return d >= lb and d <= M - la


class Mem:
    """base version and a tuple of writes, oldest first; writes are ("st", addr, val) or ("st32", n, addr, val)"""

    @staticmethod
    def new(name):
        return mk("mem", name)

    @staticmethod
    def write(m, w):
        chain = []
        a, n = wlen(w)
        cur = m
        # walk down over writes disjoint from w, removing one it overwrites entirely
        above = []
        while NODES[cur][0] == "wr":
            _, prev, x = NODES[cur]
            xw = NODES[x][1:]
            xa, xn = wlen(xw)
            if xa == a and xn <= n:
                cur = prev
                continue
            if not disjoint(a, n, xa, xn):
                break
            if xw < w:
                break
            above.append(xw)
            cur = prev
        # look further down for an overwritten one (all in between disjoint)
        mid, c2 = [], cur
        while NODES[c2][0] == "wr":
            _, prev, x = NODES[c2]
            xw = NODES[x][1:]
            xa, xn = wlen(xw)
            if xa == a and xn <= n:
                c2 = prev
                for y in reversed(mid):
                    c2 = mk("wr", c2, mk("w", *y))
                cur = c2
                break
            if not disjoint(a, n, xa, xn):
                break
            mid.append(xw)
            c2 = prev
        cur = mk("wr", cur, mk("w", *w))
        for y in reversed(above):
            cur = mk("wr", cur, mk("w", *y))
        return cur

    @staticmethod
    def below(m, a, n):
        """the part of the chain that can matter for a read of n cells at a; and a write found exactly there"""
        while NODES[m][0] == "wr":
            _, prev, x = NODES[m]
            w = NODES[x][1:]
            wa, wn = wlen(w)
            if not disjoint(a, n, wa, wn):
                return m, w
            m = prev
        return m, None

    @staticmethod
    def load(m, a):
        m, w = Mem.below(m, a, 1)
        if w and w[0] == "st" and w[1] == a:
            return w[2]
        return mk("ld", a, m)

    @staticmethod
    def load32(m, a, n):
        k = cval(n)
        if k is not None and k > 32:
            k = None
        m, w = Mem.below(m, a, k)
        if w and w[0] == "st32" and w[2] == a and k == w[1]:
            return w[3] if k == 32 else nary("and", w[3], con((1 << 8 * k) - 1))
        return mk("ld32", a, n, m)


# ---------------------------------------------------------------- programs
class Prog:
    """resolved listing: code [(op, arg)], glob {name: index}, where [text]"""

    def __init__(self, code, glob, files, local=()):
        """local: indices carrying a local label"""
        self.code, self.glob, self.files, self.local = code, glob, files, set(local)
        self.at = {}
        for n, i in glob.items():
            self.at.setdefault(i, []).append(n)

    @staticmethod
    def of(k):
        code, files = [], []
        for i in k.code:
            a = i.arg
            if i.op == "PUSH":
                a = (a[0], k.resolve(a[1], i.file)) if a[0] == "label" else a
            elif i.op == "STACK":
                a = (a[0], tuple((x[0], k.resolve(x[1], i.file)) if x[0] == "label" else tuple(x) for x in a[1]))
            elif i.op == "TABLE":
                a = tuple(k.resolve(x, i.file) for x in a)
            elif i.op == "BYTES":
                a = tuple(a)
            code.append((i.op, a))
            files.append(k.fileno[i.file])
        p = Prog(code, dict(k.glob), files, {i for d in k.local for i in d.values()})
        p.loc = [i.loc for i in k.code]
        return p

    def where(self, pc):
        if hasattr(self, "loc"):
            return " < ".join(f"{f}:{l}" for f, l in reversed(self.loc[pc]))
        return f"reference:{self.files[pc]}#{pc}"

    def dump(self):
        out, fs = [], []
        at = self.at
        for pc, (op, a) in enumerate(self.code):
            if not fs or fs[-1][1] != self.files[pc]:
                fs.append([pc, self.files[pc]])
            for n in at.get(pc, []):
                out.append(f"{n}:")
            if pc in self.local:
                out.append("-")
            if a is None:
                t = op
            elif op == "PUSH":
                t = f"PUSH {'@' if a[0] == 'label' else ''}{a[1] if a[0] == 'label' else hex(a[1])}"
            elif op == "STACK":
                t = f"STACK {a[0]} " + " ".join(("@%d" % v if t0 == "label" else "p%d" % v if t0 == "pos" else hex(v)) for t0, v in a[1])
            elif op == "ADVICE":
                t = f"ADVICE {a}"
            elif op == "TABLE":
                t = "TABLE " + " ".join(map(str, a))
            else:
                t = "BYTES " + bytes(a).hex()
            out.append(t)
        return "\n".join(f"# {p} {f}" for p, f in fs) + "\n" + "\n".join(out) + "\n"

    @staticmethod
    def read(text):
        code, glob, fs, local = [], {}, [], set()
        for ln in text.splitlines():
            if ln.startswith("# "):
                _, p, f = ln.split(" ", 2)
                fs.append((int(p), f))
                continue
            if ln == "-":
                local.add(len(code))
                continue
            if ln.endswith(":"):
                glob[ln[:-1]] = len(code)
                continue
            op, *r = ln.split(" ")
            a = None
            if op == "PUSH":
                a = ("label", int(r[0][1:])) if r[0][0] == "@" else ("lit", int(r[0], 16))
            elif op == "STACK":
                a = (int(r[0]), tuple(("label", int(x[1:])) if x[0] == "@" else ("pos", int(x[1:])) if x[0] == "p" else ("lit", int(x, 16)) for x in r[1:]))
            elif op == "ADVICE":
                a = r[0]
            elif op == "TABLE":
                a = tuple(map(int, r))
            elif op == "BYTES":
                a = tuple(bytes.fromhex(r[0]))
            code.append((op, a))
        files, j = [], 0
        for pc in range(len(code)):
            while j + 1 < len(fs) and fs[j + 1][0] <= pc:
                j += 1
            files.append(fs[j][1])
        return Prog(code, glob, files, local)


class St:
    """one side: program counter, explicit stack (top last) above `b` consumed entries of base `t`, memory, context"""
    __slots__ = ("pc", "e", "b", "t", "mem", "ctx", "seen", "net")

    def __init__(self, pc, e, b, t, mem, ctx):
        self.pc, self.e, self.b, self.t, self.mem, self.ctx = pc, e, b, t, mem, ctx
        self.seen = frozenset()
        self.net = None          # words already left above (+) or taken below (-) the routine's entry, None after a context switch

    def copy(self):
        s = St(self.pc, list(self.e), self.b, self.t, self.mem, self.ctx)
        s.seen, s.net = self.seen, self.net
        return s

    def need(self, n):
        while len(self.e) < n:
            self.e.insert(0, sym("in", self.t, self.b))
            self.b += 1

    def pop(self):
        if self.e:
            return self.e.pop()
        self.b += 1
        return sym("in", self.t, self.b - 1)


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- path conditions
def canon(c):
    """(atom, polarity) of a branch condition (taken when non-zero)"""
    if not isbool(c):
        c = bnot(eq0(c))
    n = NODES[c]
    if n[0] == "c":
        return None, bool(n[1])
    if n[0] == "not":
        return n[1], False
    if n[0] == "or":
        a, pol = canon(nary("and", *[bnot(x) for x in n[1:]]))
        return a, not pol
    return c, True


def unary(atom):
    """(x, lo, hi) meaning atom <=> lo <= x <= hi for a comparison of one word with a constant"""
    n = NODES[atom]
    if n[0] == "eq0":
        c, d = lin(n[1])
        if len(d) == 1:
            (x, k), = d.items()
            if k == 1:
                return x, (-c) % M, (-c) % M
            if k == M - 1:
                return x, c, c
        return None
    if n[0] == "lt" and cval(n[2]) is not None:
        return n[1], 0, cval(n[2]) - 1
    return None


def decide(conds, atom):
    """True/False when implied by the path condition"""
    v = conds.get(atom)
    if v is not None:
        return v
    n = NODES[atom]
    if n[0] in ("and", "or"):
        vals = []
        for x in n[1:]:
            a, pol = canon(x)
            if a is None:
                vals.append(pol)
            else:
                d = decide(conds, a)
                vals.append(None if d is None else d == pol)
        if n[0] == "and":
            if False in vals:
                return False
            if all(x is True for x in vals):
                return True
        else:
            if True in vals:
                return True
            if all(x is False for x in vals):
                return False
    if n[0] == "lt":
        if conds.get(IDS.get(("lt", n[2], n[1]))):
            return False
        e = canon(eq0(add(n[1], n[2], 1, -1)))
        if e[0] is not None and conds.get(e[0]) is not None:
            if conds[e[0]] == e[1]:
                return False
            if conds.get(IDS.get(("lt", n[2], n[1]))) is False:
                return True
    elif n[0] == "eq0":
        for k, val in conds.items():
            m = NODES[k]
            if m[0] == "lt" and canon(eq0(add(m[1], m[2], 1, -1)))[0] == atom:
                if val:
                    return False
                if conds.get(IDS.get(("lt", m[2], m[1]))) is False:
                    return True
    for k, val in conds.items():
        if not val and NODES[k][0] == "and":
            rest = []
            for x in NODES[k][1:]:
                a, pol = canon(x)
                if a is None or conds.get(a) != pol:
                    rest.append((a, pol))
            if len(rest) == 1 and rest[0][0] == atom:
                return not rest[0][1]
    u = unary(atom)
    if u:
        x, lo, hi = u
        a, b, ne = 0, MASK, set()
        for k, val in conds.items():
            w = unary(k)
            if w and w[0] == x:
                if val:
                    a, b = max(a, w[1]), min(b, w[2])
                elif w[1] == w[2]:
                    ne.add(w[1])
                elif w[1] == 0:
                    a = max(a, w[2] + 1)
        while a in ne:
            a += 1
        while b in ne:
            b -= 1
        if lo <= a and b <= hi:
            return True
        if b < lo or a > hi:
            return False
        if lo == hi and lo in ne:
            return False
    return None


def assume(conds, atom, val):
    c = dict(conds)
    c[atom] = val
    n = NODES[atom]
    if n[0] == "and" and val or n[0] == "or" and not val:
        for x in n[1:]:
            a, pol = canon(x)
            if a is not None:
                c = assume(c, a, pol == val)
    return c


class Subst:
    """rewriting of words under a path condition: decided comparisons, and words equal to others"""

    def __init__(self, conds):
        self.conds, self.memo, self.rules = conds, {}, {}
        for k, v in conds.items():
            n = NODES[k]
            if n[0] == "eq0" and v:
                c, d = lin(n[1])
                best = None
                for x, f in d.items():
                    if f in (1, M - 1) and NODES[x][0] in ("s", "ld", "lin", "shr", "and", "mul", "div") and not HASLAB[x]:
                        if best is None or x > best[0]:
                            best = (x, f)
                if best and best[0] not in self.rules:
                    x, f = best
                    r = {y: g for y, g in d.items() if y != x}
                    self.rules[x] = scale(unlin(c, r), -1 if f == 1 else 1)

    def __call__(self, i):
        r = self.memo.get(i)
        if r is None:
            self.memo[i] = i
            r = self.memo[i] = self.step(i)
        return r

    def step(self, i):
        n = NODES[i]
        k = n[0]
        if i in self.rules:
            return self(self.rules[i])
        if k in ("c", "s", "lab", "mem"):
            return i
        if k == "lin":
            r = con(n[1])
            for x, f in n[2]:
                r = add(r, self(x), 1, f)
            return r
        if k in ("eq0", "lt", "not", "slt") or k in ("and", "or") and isbool(i):
            atom, pol = canon(i)
            d = pol if atom is None else decide(self.conds, atom)
            if d is not None:
                return con(int(d == pol if atom is not None else d))
            if k == "not":
                r = bnot(self(n[1]))
            elif k == "eq0":
                r = eq0(self(n[1]))
            elif k == "lt":
                r = lt(self(n[1]), self(n[2]))
            elif k == "slt":
                r = mk("slt", self(n[1]), self(n[2]))
            else:
                r = nary(k, *[self(x) for x in n[1:]])
            return r if r == i else self(r)
        if k == "wr":
            w = NODES[n[2]][1:]
            w = ("st", self(w[1]), self(w[2])) if w[0] == "st" else ("st32", w[1], self(w[2]), self(w[3]))
            return Mem.write(self(n[1]), w)
        if k == "ld":
            return Mem.load(self(n[2]), self(n[1]))
        if k == "ld32":
            return Mem.load32(self(n[3]), self(n[1]), self(n[2]))
        a = [self(x) if type(x) is int else x for x in n[1:]]
        if list(n[1:]) == a:
            return i
        if k in ("and", "or"):
            return nary(k, *a)
        if k == "mul":
            r = a[0]
            for x in a[1:]:
                r = mul(r, x)
            return r
        f = {"shr": shr, "shl": shl, "div": div, "mod": mod, "xor": xor}.get(k)
        if f:
            return f(*a)
        if k in ("ADDFP254", "MULFP254", "ADDMOD", "MULMOD"):
            return mk(k, *sorted(a[:2]), *a[2:])
        return mk(k, *a)


# ---------------------------------------------------------------- one side: run to the next event
class Runner:
    def __init__(self, prog, shared):
        self.p, self.shared = prog, shared
        self.shared_at = {i: [n for n in ns if n in shared] for i, ns in prog.at.items()}
        self.shared_at = {i: ns[0] for i, ns in self.shared_at.items() if ns}
        self.steps = 0
        self.visited = set()
        self.targets = {a[1] for op, a in prog.code if op == "PUSH" and a[0] == "label"}
        self.targets |= {v for op, a in prog.code if op == "STACK" for t, v in a[1] if t == "label"}

    def run(self, s0, conds0, skip_entry=False, budget=4000):
        """list of (state, conds, event)"""
        out = []
        work = [(s0, conds0, skip_entry)]
        code = self.p.code
        n = 0
        while work:
            s, conds, skip = work.pop()
            n += 1
            if n > budget:
                raise Undecided(f"too many paths from {self.p.where(s0.pc)}")
            while True:
                pc = s.pc
                if pc in self.shared_at and not skip:
                    out.append((s, conds, ("goto", self.shared_at[pc])))
                    break
                if pc in self.targets:
                    if pc in s.seen and not skip:
                        out.append((s, conds, ("loop", pc)))
                        break
                    s.seen = s.seen | {pc}
                skip = False
                op, a = code[pc]
                self.steps += 1
                self.visited.add(pc)
                if op == "PUSH":
                    s.e.append(self.lab(a[1]) if a[0] == "label" else con(a[1]))
                elif op == "STACK":
                    k, rep = a
                    vals = [s.pop() for _ in range(k)]
                    for t, v in reversed(rep):
                        s.e.append(vals[v] if t == "pos" else self.lab(v) if t == "label" else con(v))
                elif op == "POP":
                    s.pop()
                elif op[:3] == "DUP":
                    k = int(op[3:])
                    s.need(k)
                    s.e.append(s.e[-k])
                elif op[:4] == "SWAP":
                    k = int(op[4:]) + 1
                    s.need(k)
                    s.e[-1], s.e[-k] = s.e[-k], s.e[-1]
                elif op in ALU:
                    args = [s.pop() for _ in range(ALU[op])]
                    s.e.append(self.fold(conds, alu(op, args)))
                elif op == "JUMP":
                    t = s.pop()
                    ev = self.jump(s, t)
                    if ev:
                        out.append((s, conds, ev))
                        break
                    continue
                elif op == "JUMPI":
                    t = s.pop()
                    c = s.pop()
                    atom, pol = canon(c)
                    d = pol if atom is None else decide(conds, atom)
                    if d is None and conds:
                        c2 = Subst(conds)(c)
                        if c2 != c:
                            atom, pol = canon(c2)
                            d = pol if atom is None else decide(conds, atom)
                    taken = None if d is None else (d == pol if atom is not None else d)
                    if taken is None:
                        s2 = s.copy()
                        s2.pc = pc + 1
                        work.append((s2, assume(conds, atom, not pol), False))
                        conds = assume(conds, atom, pol)
                        taken = True
                    if taken:
                        ev = self.jump(s, t)
                        if ev:
                            out.append((s, conds, ev))
                            break
                        continue
                elif op == "MLOAD_GENERAL":
                    s.e.append(self.fold(conds, Mem.load(s.mem, s.pop())))
                elif op == "MLOAD_32BYTES":
                    x = s.pop()
                    s.e.append(Mem.load32(s.mem, x, s.pop()))
                elif op == "MSTORE_GENERAL":
                    v = s.pop()
                    s.mem = Mem.write(s.mem, ("st", s.pop(), v))
                elif op[:13] == "MSTORE_32BYTE":
                    k = int(op.rsplit("_", 1)[1])
                    x = s.pop()
                    s.mem = Mem.write(s.mem, ("st32", k, x, s.pop()))
                    s.e.append(add(x, con(k)))
                elif op == "KECCAK_GENERAL":
                    x = s.pop()
                    s.e.append(mk("keccak", x, s.pop(), s.mem))
                elif op == "GET_CONTEXT":
                    s.e.append(s.ctx)
                elif op == "JUMPDEST":
                    pass
                elif op in ("ADVICE", "SET_CONTEXT", "EXIT_KERNEL", "PANIC"):
                    out.append((s, conds, (op, a)))
                    break
                elif op in ("BYTES", "TABLE", "END"):
                    out.append((s, conds, ("data", None)))
                    break
                elif op[:4] == "INCR":
                    k = int(op[4:])
                    s.need(k)
                    s.e[-k] = add(s.e[-k], ONE)
                elif op == "PC":
                    s.e.append(self.lab(pc))
                else:
                    raise Undecided(f"unknown instruction {op}")
                s.pc = pc + 1
        return out

    def fold(self, conds, v):
        return v

    def lab(self, i):
        n = self.shared_at.get(i)
        if n:
            return mk("lab", n)
        j = self.common.get(i)
        return mk("lab", self.side, i) if j is None else mk("lab", 2, j)

    def jump(self, s, t):
        n = NODES[t]
        if n[0] == "lab":
            i = self.p.glob[n[1]] if len(n) == 2 else n[2]
            if len(n) == 3 and n[1] == 2:
                i = self.back[i]
            elif len(n) == 3 and n[1] != self.side:
                return ("data", None)
            if len(n) == 2:
                s.pc = i
                return ("goto", n[1])
            s.pc = i
            return None
        return ("ret" if n[0] == "s" else "comp", t)


class Product:
    def __init__(self, cur, ref, shapes, limit=60000):
        self.P, self.Q = cur, ref
        self.shared = set(cur.glob) & set(ref.glob)
        self.shapes = shapes
        self.rp, self.rq = Runner(cur, self.shared), Runner(ref, self.shared)
        self.rp.side, self.rq.side = 0, 1
        self.toP = align(cur, ref, self.rp.targets | cur.local, self.rq.targets | ref.local)
        self.rp.common = {i: j for j, i in self.toP.items()}
        self.rp.back = self.toP
        self.rq.common = self.rq.back = {j: j for j in self.toP}
        self.owned = set()
        self.exits, self.actions, self.adv = {}, {}, set()
        self.conds, self.sub = {}, None
        self.advsym, self.checked = {}, set()    # advice words -> (kind, routine); those an abort depends on
        self.mismatch = []
        self.stats = {"routines": 0, "cuts": 0, "paths": 0, "actions": 0}
        self.labobl = {}         # (idxP, idxQ) -> root, continuation obligations
        self.labdone = set()
        self.fresh = 0

    # ---- equality of words modulo paired labels
    def eq(self, a, b, obl=None):
        if self.eq1(a, b, obl):
            return True
        if not self.conds:
            return False
        if self.sub is None or self.sub.conds is not self.conds:
            self.sub = Subst(self.conds)
        x, y = self.sub(a), self.sub(b)
        return (x != a or y != b) and self.eq1(x, y, obl)

    def eq1(self, a, b, obl=None):
        if a == b:
            if HASLAB[a]:
                self.own(a)
            return True
        if not (HASLAB[a] and HASLAB[b]):
            return False
        x, y = NODES[a], NODES[b]
        if x[0] != y[0] or len(x) != len(y):
            return False
        if x[0] == "lab":
            if len(x) == 2 or len(y) == 2:
                return False
            return self.pair(x[2], y[2], obl)
        if x[0] == "lin":
            return x[1] == y[1] and len(x[2]) == len(y[2]) and all(i[1] == j[1] and self.eq1(i[0], j[0], obl) for i, j in zip(x[2], y[2]))
        return all(i == j or type(i) is int and type(j) is int and self.eq1(i, j, obl) for i, j in zip(x[1:], y[1:]))

    def own(self, a, _seen=None):
        """continuation obligations of the paired local labels inside a word"""
        if a in self.owned:
            return
        self.owned.add(a)
        n = NODES[a]
        if n[0] == "lab":
            if len(n) == 3 and n[1] == 2:
                self.pair(self.toP[n[2]], n[2], None)
        elif n[0] == "lin":
            for x, _ in n[2]:
                if HASLAB[x]:
                    self.own(x)
        else:
            for x in n[1:]:
                if type(x) is int and HASLAB[x]:
                    self.own(x)

    def pair(self, i, j, obl):
        """local labels used as data: code or tables"""
        ip, jq = self.P.code[i], self.Q.code[j]
        if ip[0] == "BYTES" or jq[0] == "BYTES":
            return self.bytes_at(self.P, i) == self.bytes_at(self.Q, j)
        if ip[0] == "TABLE" or jq[0] == "TABLE":
            a, b = self.table_at(self.P, i), self.table_at(self.Q, j)
            return len(a) == len(b) and all(self.eq(self.rp.lab(x), self.rq.lab(y), obl) for x, y in zip(a, b))
        self.labobl.setdefault((i, j), self.root)
        return True

    def bytes_at(self, p, i):
        out = b""
        while p.code[i][0] == "BYTES":
            out += bytes(p.code[i][1])
            i += 1
        return out

    def table_at(self, p, i):
        out = []
        while p.code[i][0] == "TABLE":
            out += p.code[i][1]
            i += 1
        return out

    def unrolled(self, a, b):
        """targets of a computed jump into unrolled code: instruction for instruction the same up to the next routine"""
        la = [x for x, _ in NODES[a][2] if NODES[x][0] == "lab"] if NODES[a][0] == "lin" else [a]
        lb = [x for x, _ in NODES[b][2] if NODES[x][0] == "lab"] if NODES[b][0] == "lin" else [b]
        for x, y in zip(la, lb):
            if NODES[x][0] != "lab" or NODES[y][0] != "lab":
                continue
            i = self.P.glob[NODES[x][1]] if len(NODES[x]) == 2 else self.rp.back[NODES[x][2]] if NODES[x][1] == 2 else NODES[x][2]
            j = self.Q.glob[NODES[y][1]] if len(NODES[y]) == 2 else NODES[y][2]
            i0 = i
            while True:
                (o, u), (o2, v) = self.P.code[i], self.Q.code[j]
                if o != o2:
                    return self.P.where(i)
                if o == "PUSH" and u[0] == "label" and v[0] == "label":
                    if not self.eq(self.rp.lab(u[1]), self.rq.lab(v[1])):
                        return self.P.where(i)
                elif o != "TABLE" and u != v:
                    return self.P.where(i)
                i, j = i + 1, j + 1
                if i in self.P.at or j in self.Q.at or self.P.files[i] != self.P.files[i0] or o == "END":
                    break
        return None

    def rest(self):
        """labelled code not reached by the exploration (computed jumps): started from equal states"""
        n = 0
        for j in sorted(self.Q.local):
            if j not in self.rq.visited and j in self.toP and self.Q.code[j][0] not in ("BYTES", "TABLE", "END"):
                n += 1
                g = [m for m in self.Q.glob if self.Q.files[self.Q.glob[m]] == self.Q.files[j] and self.Q.glob[m] <= j]
                self.root = max(g, key=lambda m: self.Q.glob[m]) if g else min(self.Q.glob, key=lambda m: abs(self.Q.glob[m] - j))
                self.labobl.setdefault((self.toP[j], j), self.root)
        self.obligations()
        return n

    def data(self):
        """data at labels both programs define"""
        n = 0
        for g in sorted(self.shared):
            i, j = self.P.glob[g], self.Q.glob[g]
            a, b = self.P.code[i][0], self.Q.code[j][0]
            if "BYTES" in (a, b) or "TABLE" in (a, b):
                n += 1
                self.root = g
                if a != b or not self.pair(i, j, None):
                    self.bad(i, "data", "the data at this label differs from the reviewed table")
        return n

    def bad(self, pc, kind, what):
        self.mismatch.append((self.root, kind, self.P.where(pc), what))

    # ---- pair states
    def start(self, i, j):
        t = self.tag()
        m = Mem.new(("M", t))
        c = sym("ctx", t)
        return St(i, [], 0, t, m, c), St(j, [], 0, t, m, c)

    def tag(self):
        self.fresh += 1
        return self.fresh

    def routine(self, g):
        self.root = g
        n0 = len(self.mismatch)
        self.stats["routines"] += 1
        self.states, self.heights, self.generic = {}, {}, set()
        P, Q = self.start(self.P.glob[g], self.Q.glob[g])
        P.net = 0
        self.work = [(P, Q, {}, True, True)]
        self.drain()

    def drain(self):
        k = 0
        while self.work:
            P, Q, conds, sp, sq = self.work.pop()
            k += 1
            if k > 20000:
                raise Undecided(f"{self.root}: too many joint states")
            if len(self.mismatch) > 400:
                return
            rp = self.rp.run(P, conds, sp)
            for p, c, ev in rp:
                self.stats["paths"] += 1
                for q, c2, fv in self.rq.run(Q.copy(), c, sq):
                    self.meet(p.copy(), q, c2, ev, fv)

    def obligations(self):
        while True:
            todo = [x for x in self.labobl if x not in self.labdone]
            if not todo:
                return
            for x in todo:
                self.labdone.add(x)
                self.root = self.labobl[x]
                self.states, self.heights, self.generic = {}, {}, set()
                P, Q = self.start(*x)
                self.work = [(P, Q, {}, True, True)]
                self.drain()

    def depends(self, conds):
        for a in conds if self.advsym else ():
            self.checked |= advice_in(a, self.advsym)

    def align(self, p, q):
        """explicit entries down to the same base entry"""
        while p.b < q.b:
            p.need(len(p.e) + 1)
        while q.b < p.b:
            q.need(len(q.e) + 1)

    def whole(self, p, q):
        if p.t != q.t:
            return "the stacks belong to different contexts"
        self.align(p, q)
        if len(p.e) != len(q.e):
            return f"stack height differs by {len(p.e) - len(q.e)} words"
        for d, (a, b) in enumerate(zip(reversed(p.e), reversed(q.e))):
            if not self.eq(a, b):
                return f"stack word {d} is {show(a)} instead of {show(b)}"
        return None

    def meet(self, p, q, conds, ev, fv, turns=0):
        self.conds = conds
        self.stats["actions"] += 1
        self.actions[self.root] = self.actions.get(self.root, 0) + 1
        pc = p.pc
        if ev[0] == "ADVICE" or fv[0] == "ADVICE":
            self.adv.add(self.root)
        if ev[0] != fv[0]:
            if ev[0] == "loop" or fv[0] == "loop":
                # loop heads are internal: let the side that is at one go on
                n = turns
                if n < 6:
                    if ev[0] == "loop":
                        p.seen = frozenset()
                        for p2, c, e2 in self.rp.run(p, conds, True):
                            self.meet(p2.copy(), q.copy(), c, e2, fv, n + 1)
                    else:
                        q.seen = frozenset()
                        for q2, c, f2 in self.rq.run(q, conds, True):
                            self.meet(p.copy(), q2, c, ev, f2, n + 1)
                    return
            return self.bad(pc, "action", f"performs {evname(ev)} where the reviewed routine performs {evname(fv)}{when(conds)}")
        k = ev[0]
        if k == "PANIC" or k == "data":
            self.depends(conds)
            return
        if k == "ADVICE":
            if ev[1] != fv[1]:
                return self.bad(pc, "advice", f"asks for advice {ev[1]} instead of {fv[1]}")
            v = sym("adv", self.tag())
            self.advsym[v] = (ev[1], self.root)
            for s in (p, q):
                s.e.append(v)
                s.pc += 1
            return self.work.append((p, q, conds, False, False))
        if k == "SET_CONTEXT":
            a, b = p.pop(), q.pop()
            if not self.eq(a, b):
                return self.bad(pc, "context", f"switches to context {show(a)} instead of {show(b)}{when(conds)}")
            w = self.whole(p, q)
            if w:
                return self.bad(pc, "stack", f"at the context switch {w}")
            t = self.tag()
            for s in (p, q):
                s.e, s.b, s.t, s.ctx = [], 0, t, a if s is p else b
                s.net = None
                s.pc += 1
            return self.work.append((p, q, conds, False, False))
        if p.mem != q.mem and not self.eq(p.mem, q.mem):
            return self.bad(pc, "memory", f"before {evname(ev)}: {memdiff(p.mem, q.mem)}{when(conds)}")
        if p.ctx != q.ctx:
            return self.bad(pc, "context", f"before {evname(ev)} the context is {show(p.ctx)} instead of {show(q.ctx)}")
        if k == "loop":
            return self.cut(p, q, conds)
        if k in ("ret", "comp"):
            if not self.eq(ev[1], fv[1]):
                return self.bad(pc, "return", f"jumps to {show(ev[1])} instead of {show(fv[1])}{when(conds)}")
            if k == "comp":
                w = self.unrolled(ev[1], fv[1])
                if w:
                    self.bad(pc, "unrolled", f"the unrolled code jumped into differs from the reviewed one at {w}")
            w = self.whole(p, q)
            if w:
                self.bad(pc, "stack", f"on return {w}{when(conds)}")
            return
        if k == "EXIT_KERNEL":
            if p.net is not None:
                self.exits.setdefault(self.root, set()).add(p.net + len(p.e) - p.b)
            w = self.whole(p, q)
            if w:
                self.bad(pc, "stack", f"on leaving the kernel {w}{when(conds)}")
            return
        assert k == "goto", ev
        if ev[1] != fv[1]:
            return self.bad(pc, "call", f"calls {ev[1]} instead of {fv[1]}{when(conds)}")
        self.call(p, q, conds, ev[1])

    def call(self, p, q, conds, g):
        sh = self.shapes.get(g)
        pc = p.pc
        if g == "panic":
            self.depends(conds)
        if not sh:
            w = self.whole(p, q)
            if w:
                self.bad(pc, "stack", f"calling {g}: {w}{when(conds)}")
            return
        ret, d, out, switches = sh[:4]
        if len(sh) > 4:
            # the callee may also leave without returning: what lies below its arguments matters to it
            if p.t == q.t:
                self.align(p, q)
            x, y = p.e[:-1 - ret] + p.e[len(p.e) - ret:], q.e[:-1 - ret] + q.e[len(q.e) - ret:]
            if p.t != q.t or p.b != q.b or len(x) != len(y) or not all(self.eq(i, j) for i, j in zip(x, y)):
                return self.bad(pc, "stack", f"calling {g}: the stacks differ{when(conds)}")
        a, b = [p.pop() for _ in range(d)], [q.pop() for _ in range(d)]
        for i, (x, y) in enumerate(zip(a, b)):
            if i != ret and not self.eq(x, y):
                return self.bad(pc, "call", f"calling {g}: argument {i} is {show(x)} instead of {show(y)}{when(conds)}")
        t = self.tag()
        res = [sym("r", t, i) for i in range(out)]
        m = Mem.new(("M", t))
        for s in (p, q):
            s.e += res
            s.mem = m
            s.seen = frozenset()
            if switches:
                s.ctx = sym("ctx", t)
        ep, eq_ = self.rp.jump(p, a[ret]), self.rq.jump(q, b[ret])
        if ep is None and eq_ is None:
            return self.cut(p, q, conds)
        if ep is None or eq_ is None or ep[0] != eq_[0]:
            return self.bad(pc, "call", f"{g} returns to {show(a[ret])} instead of {show(b[ret])}")
        if ep[0] == "goto":
            if ep[1] != eq_[1]:
                return self.bad(pc, "call", f"{g} returns to {ep[1]} instead of {eq_[1]}")
            return self.call(p, q, conds, ep[1])
        if not self.eq(a[ret], b[ret]):
            return self.bad(pc, "call", f"{g} returns to {show(a[ret])} instead of {show(b[ret])}")
        w = self.whole(p, q)
        if w:
            self.bad(pc, "stack", f"on return through {g} {w}")

    def cut(self, p, q, conds):
        """generalise the joint state and continue if it is new"""
        self.stats["cuts"] += 1
        if p.t == q.t:
            self.align(p, q)
        vec = [p.ctx] + p.e + q.e
        if conds and p.e != q.e:
            sub = Subst(conds)
            vec = [sub(w) for w in vec]
        shape = (p.pc, q.pc, len(p.e), len(q.e), p.t == q.t)
        if shape not in self.states:
            hs = self.heights.setdefault(shape[:2], set())
            hs.add(shape)
            if len(hs) > 8:
                # stacks of unbounded height: equal word for word
                w = self.whole(p, q)
                if w:
                    return self.bad(p.pc, "stack", f"in a loop {w}")
                if (shape[0], shape[1]) in self.generic:
                    return
                self.generic.add((shape[0], shape[1]))
                P, Q = self.start(p.pc, q.pc)
                self.work.append((P, Q, {}, True, True))
                return
        form = canonical(vec, p.t, p.b)
        facts = self.facts(vec, conds)
        known = self.states.setdefault(shape, [])
        for i, (f, fs) in enumerate(known):
            if lgg(f, form, self.eq1) == f:
                if fs <= facts:
                    return
                if f == form:
                    facts &= fs
                    known[i] = (form, facts)
                    break
        else:
            if len(known) >= 6:
                for f, fs in known:
                    form = lgg(f, form, self.eq1)
                    facts &= fs
                self.states[shape] = [(form, facts)]
            else:
                known.append((form, facts))
        t = self.tag()
        m = Mem.new(("M", t))
        val = []
        for a, c in form:
            if a is None:
                val.append(con(c))
            elif a[0] == "in":
                val.append(add(sym("in", t, a[1]), con(c)))
            elif a[0] == "lab":
                val.append(a[1])
            else:
                val.append(add(sym(a[2] or "g", t, a[1]), con(c)))
        n, l = len(p.e), len(q.e)
        P = St(p.pc, val[1:1 + n], 0, t, m, val[0])
        Q = St(q.pc, val[1 + n:], 0, t if p.t == q.t else self.tag(), m, val[0])
        P.net = None if p.net is None else p.net - p.b
        conds = {}
        for k, i, j, pol in facts:
            w = eq0(add(val[i], val[j], 1, -1)) if k == "eq" else lt(val[i], val[j]) if k == "lt" else eq0(val[i])
            atom, pl = canon(w)
            if atom is not None and decide(conds, atom) is None:
                conds = assume(conds, atom, pl == pol)
        self.work.append((P, Q, conds, True, True))

    def facts(self, vec, conds):
        """what a path condition says about pairs of the words kept"""
        out = set()
        if not conds:
            return frozenset()
        ws, first = [], set()
        for i, v in enumerate(vec[1:], 1):
            if v not in first and NODES[v][0] != "lab":
                first.add(v)
                ws.append((i, v))
        atoms = set()
        for a in conds:
            n = NODES[a]
            if n[0] in ("lt", "eq0"):
                atoms.add(a)
        for i, v in ws:
            for k, j, w in [("z", i, eq0(v))] + [x for j, u in ws if j > i for x in (("eq", j, eq0(add(v, u, 1, -1))), ("lt", j, lt(v, u)))] + \
                    [("lt2", j, lt(v, u)) for j, u in ws if j < i]:
                atom, pl = canon(w)
                if atom in atoms:
                    k = "lt" if k == "lt2" else k
                    out.add((k, i, j, conds[atom] == pl))
        return frozenset(out)


def advice_in(a, syms, _memo={}):
    out, todo, seen = set(), [a], set()
    while todo:
        i = todo.pop()
        if type(i) is tuple:
            todo += [x for x in i if type(x) in (int, tuple)]
            continue
        if i in seen or not 0 <= i < len(NODES):
            continue
        seen.add(i)
        if i in syms:
            out.add(syms[i])
        n = NODES[i]
        if n[0] == "lin":
            todo += [x for x, _ in n[2]]
        elif n[0] not in ("c", "s", "lab"):
            todo += [x for x in n[1:] if type(x) is int]
    return out


def canonical(vec, t, b):
    """[(atom or None, constant)] with atoms numbered by first occurrence"""
    names, out = {}, []
    for v in vec:
        n = NODES[v]
        if n[0] == "lab":
            out.append((("lab", v), 0))
            continue
        c, d = lin(v)
        if not d:
            out.append((None, c))
            continue
        rest = unlin(0, d)
        r = NODES[rest]
        fl = ""
        if len(d) == 1 and (f := context_of(v)) and f[1] == rest:
            fl = f[0]
        if r[0] == "s" and r[1][0] == "in" and r[1][1] == t and r[1][2] >= b:
            out.append((("in", r[1][2] - b), c))
            continue
        if rest not in names:
            names[rest] = (len(names), c, fl)
        k, c0, fl = names[rest]
        out.append((("g", k, fl), (c - c0) % M))
    return tuple(out)


def same(a, b, eq):
    return a == b or bool(a and b) and a[0] == b[0] == "lab" and eq(a[1], b[1])


def lgg(f, g, eq):
    out, reps = [], []
    for x, y in zip(f, g):
        if x == y and (x[0] is None or x[0][0] in ("in", "lab")):
            out.append(x)
            continue
        for i, (u, w, fl) in enumerate(reps):
            if same(u[0], x[0], eq) and same(w[0], y[0], eq) and (x[1] - u[1]) % M == (y[1] - w[1]) % M:
                out.append((("g", i, fl), (x[1] - u[1]) % M))
                break
        else:
            fl = x[0][2] if x[0] and y[0] and x[0][0] == y[0][0] == "g" and x[0][2] == y[0][2] and x[1] == y[1] == 0 else ""
            out.append((("g", len(reps), fl), 0))
            reps.append((x, y, fl))
    return tuple(out)


def align(cur, ref, tp, tq):
    """reference label -> current label, for local labels at corresponding places of the two listings"""
    import difflib
    def split(p):
        out, start = {}, 0
        for i in range(1, len(p.code) + 1):
            if i == len(p.code) or p.files[i] != p.files[start]:
                out.setdefault(p.files[start], []).append((start, i))
                start = i
        return out

    def word(p, i):
        op, a = p.code[i]
        if op == "PUSH":
            return (op, a if a[0] == "lit" else p.at.get(a[1], ("",))[0])
        if op == "STACK":
            return (op, a[0], tuple(x if x[0] != "label" else "L" for x in a[1]))
        return (op, a if op != "TABLE" else None)
    A, B = split(cur), split(ref)
    out = {}
    for f in B:
        if f not in A:
            continue
        ia = [i for s, e in A[f] for i in range(s, e)]
        ib = [i for s, e in B[f] for i in range(s, e)]
        wa, wb = [word(cur, i) for i in ia], [word(ref, i) for i in ib]
        if wa == wb:
            pairs = zip(ia, ib)
        else:
            sm = difflib.SequenceMatcher(None, wa, wb, autojunk=False)
            pairs = [(ia[x + n], ib[y + n]) for x, y, k in sm.get_matching_blocks() for n in range(k)]
        for i, j in pairs:
            if i in tp and j in tq and i not in cur.at and j not in ref.at:
                out[j] = i
    return out


# ---------------------------------------------------------------- text
def show(i, depth=4):
    n = NODES[i]
    k = n[0]
    if k == "c":
        return hex(n[1]) if n[1] > 9 else str(n[1])
    if k == "s":
        nm = n[1]
        return {"in": f"in{nm[2] if len(nm) > 2 else ''}", "adv": "advice", "ctx": "ctx", "r": f"result{nm[2] if len(nm) > 2 else ''}"}.get(nm[0], "v%d" % nm[-1])
    if k == "lab":
        return n[1] if len(n) == 2 else f"label#{n[2]}"
    if k == "mem":
        return "mem"
    if depth == 0:
        return "…"
    if k == "wr":
        return "mem'"
    if k == "lin":
        t = [("" if c == 1 else "-" if c == MASK else f"{signed(c):#x}*") + show(a, depth - 1) for a, c in n[2]]
        if n[1]:
            t.append(f"{signed(n[1]):#x}")
        return "(" + " + ".join(t) + ")"
    if k == "ld":
        return f"[{show(n[1], depth - 1)}]"
    return f"{k}(" + ", ".join(show(x, depth - 1) for x in n[1:] if type(x) is int) + ")"


def evname(ev):
    k, a = ev
    return {"goto": f"a jump to {a}", "ret": "a return", "comp": "a computed jump", "PANIC": "a panic", "ADVICE": f"advice {a}", "SET_CONTEXT": "a context switch",
            "EXIT_KERNEL": "a kernel exit", "loop": "another loop iteration", "data": "a run into data"}[k]


def when(conds):
    if not conds:
        return ""
    t = [("" if v else "not ") + show(a, 3) for a, v in list(conds.items())[-4:]]
    return " when " + " and ".join(t)


def chain(m):
    out = []
    while NODES[m][0] == "wr":
        out.append(m)
        m = NODES[m][1]
    return out[::-1], m


def memdiff(a, b):
    x, bx = chain(a)
    y, by = chain(b)
    x, y = [NODES[NODES[i][2]][1:] for i in x], [NODES[NODES[i][2]][1:] for i in y]

    def w(e):
        return f"[{show(e[1])}] := {show(e[2])}" if e[0] == "st" else f"[{show(e[2])}..+{e[1]}] := {show(e[3])}"
    sx, sy = [w(e) for e in x], [w(e) for e in y]
    lost, new = [e for e in sy if e not in sx], [e for e in sx if e not in sy]
    if not lost and not new:
        return "writes happen in another order"
    return "; ".join(([f"lacks the write {lost[0]}"] if lost else []) + ([f"writes {new[0]}"] if new else []))
