"""The kernel program: its assembly text parsed and expanded to a flat instruction list."""
import json, re

TOK = re.compile(r"""
  (?P<ws>\s+) | (?P<com>//[^\n]*(?:\n|$)|/\*.*?\*/) |
  (?P<lit>0[xX][0-9a-fA-F]+|\d+) | (?P<mlab>%%[A-Za-z_]\w*) | (?P<mac>%[A-Za-z_]\w*) |
  (?P<var>\$[A-Za-z_]\w*) | (?P<con>@[A-Za-z_]\w*) | (?P<id>[A-Za-z_]\w*) | (?P<p>->|::|[(){},:=\#\[\]])
""", re.X | re.S)


def tokens(text):
    out, i, line = [], 0, 1
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise SyntaxError(f"line {line}: {text[i:i+30]!r}")
        k = m.lastgroup
        if k not in ("ws", "com"):
            out.append((k, m.group(), line))
        line += m.group().count("\n")
        i = m.end()
    out.append(("eof", "", line))
    return out


class P:
    def __init__(self, text, file, features):
        self.t, self.i, self.file, self.features = tokens(text), 0, file, features

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, v):
        x = self.next()
        if x[1] != v:
            raise SyntaxError(f"{self.file}:{x[2]}: expected {v}, found {x[1]!r}")

    def loc(self):
        return (self.file, self.peek()[2])

    def items(self, stop):
        out = []
        while True:
            k, v, ln = self.peek()
            if k == "eof" or (k == "mac" and v.lower() in stop) or (v == "}" and "}" in stop):
                return out
            out += self.item()

    def target(self):
        k, v, ln = self.next()
        if k == "lit":
            return ("lit", int(v, 0) if v[:2].lower() == "0x" else int(v))
        if k == "id":
            return ("label", v)
        if k == "mlab":
            return ("mlabel", v[2:])
        if k == "var":
            return ("var", v[1:])
        if k == "con":
            return ("const", v[1:])
        raise SyntaxError(f"{self.file}:{ln}: bad operand {v!r}")

    def commas(self, f, close=")"):
        out = []
        if self.peek()[1] == close:
            self.next()
            return out
        while True:
            out.append(f())
            x = self.next()
            if x[1] == close:
                return out
            if x[1] != ",":
                raise SyntaxError(f"{self.file}:{x[2]}: expected , or {close}, found {x[1]!r}")

    def ident(self):
        return self.next()[1]

    def placeholder(self):
        n = self.ident()
        if self.peek()[1] == ":":
            self.next()
            return (n, int(self.next()[1]))
        return (n, 1)

    def item(self):
        loc = self.loc()
        k, v, ln = self.next()
        if v == "#":
            for x in "[", "cfg", "(":
                self.eat(x)
            pre = "any"
            if self.peek()[1] in ("not", "all", "any") and self.peek(1)[1] == "(":
                pre = self.ident()
                self.eat("(")
                fs = self.features_list()
                self.eat(")")
            else:
                pre = "all"
                fs = self.features_list()
            self.eat(")")
            self.eat("]")
            self.eat("{")
            body = self.items({"}"})
            self.eat("}")
            on = {"any": any, "all": all, "not": lambda l: not any(l)}[pre]([f in self.features for f in fs])
            return body if on else []
        if k == "mac":
            low = v.lower()
            if low == "%macro":
                name = self.ident()
                params = []
                if self.peek()[1] == "(":
                    self.next()
                    params = self.commas(self.ident)
                body = self.items({"%endmacro"})
                self.next()
                return [("macro", loc, name, params, body)]
            if low == "%rep":
                n = self.target()
                body = self.items({"%endrep"})
                self.next()
                return [("rep", loc, n[1], body)]
            if low == "%stack":
                self.eat("(")
                a = self.commas(self.placeholder)
                self.eat("->")
                self.eat("(")
                b = self.commas(self.target)
                return [("stack", loc, a, b)]
            args = []
            if self.peek()[1] == "(":
                self.next()
                args = self.commas(self.target)
            return [("call", loc, v[1:], args)]
        if k == "mlab":
            self.eat(":")
            return [("mlabel", loc, v[2:])]
        if k == "id":
            low = v.lower()
            if low == "global" and self.peek()[0] == "id":
                n = self.ident()
                self.eat(":")
                return [("global", loc, n)]
            if self.peek()[1] == ":" and low != "push":
                self.next()
                return [("label", loc, v)]
            if low == "bytes":
                out = [self.target()]
                while self.peek()[1] == ",":
                    self.next()
                    out.append(self.target())
                return [("bytes", loc, out)]
            if low == "jumptable":
                out = [self.ident()]
                while self.peek()[1] == ",":
                    self.next()
                    out.append(self.ident())
                return [("jumptable", loc, out)]
            if low == "push":
                return [("push", loc, self.target())]
            if low == "prover_input":
                self.eat("(")
                n = self.ident()
                while self.peek()[1] == "::":
                    self.next()
                    n += "::" + self.ident()
                self.eat(")")
                return [("advice", loc, n)]
            return [("op", loc, v.upper())]
        raise SyntaxError(f"{self.file}:{ln}: unexpected {v!r}")

    def features_list(self):
        self.eat("feature")
        self.eat("=")
        out = [self.ident()]
        while self.peek()[1] == ",":
            self.next()
            out.append(self.ident())
        return out


class I:
    """one instruction: op, argument, source chain"""
    __slots__ = ("op", "arg", "loc", "file")

    def __init__(self, op, arg, loc, file):
        self.op, self.arg, self.loc, self.file = op, arg, loc, file

    def __repr__(self):
        return f"{self.op} {self.arg if self.arg is not None else ''} @{self.loc}"


class Kernel:
    def __init__(self, files, constants, features=("eth_mainnet",)):
        """files: [(name, text)]"""
        self.const = constants
        parsed = []
        for name, text in files:
            p = P(text, name, set(features))
            items = p.items(set())
            if p.peek()[0] != "eof":
                raise SyntaxError(f"{name}: trailing {p.peek()}")
            parsed.append((name, items))
        self.macros = {}
        for _, items in parsed:
            self.find_macros(items)
        self.code = []           # I
        self.glob = {}           # name -> index
        self.local = []          # per file: name -> index
        self.counter = 0
        self.fileno = {}
        self.macro_uses = {}
        for fi, (name, items) in enumerate(parsed):
            self.local.append({})
            self.fileno[fi] = name
            self.emit(items, fi, ())
        self.code.append(I("END", None, ("", 0), len(parsed) - 1))
        self.labels_at = {}
        for n, i in self.glob.items():
            self.labels_at.setdefault(i, []).append(n)
        self.anylabel = {}
        for fi, d in enumerate(self.local):
            for n, i in d.items():
                self.anylabel.setdefault(i, []).append(n)
        for n, i in self.glob.items():
            self.anylabel.setdefault(i, []).insert(0, n)

    def find_macros(self, items):
        for it in items:
            if it[0] == "macro":
                key = (it[2], len(it[3]))
                if key in self.macros:
                    raise SyntaxError(f"duplicate macro {key}")
                self.macros[key] = it

    def subst(self, items, env, n):
        out = []

        def t(x):
            if x[0] == "var":
                return env[x[1]]
            if x[0] == "mlabel":
                return ("label", f"@{n}.{x[1]}")
            return x
        for it in items:
            k = it[0]
            if k == "mlabel":
                out.append(("label", it[1], f"@{n}.{it[2]}"))
            elif k == "push":
                out.append((k, it[1], t(it[2])))
            elif k == "call":
                out.append((k, it[1], it[2], [t(x) for x in it[3]]))
            elif k == "stack":
                out.append((k, it[1], it[2], [t(x) for x in it[3]]))
            elif k == "rep":
                out.append((k, it[1], it[2], self.subst(it[3], env, n)))
            else:
                out.append(it)
        return out

    def emit(self, items, fi, chain):
        for it in items:
            k, loc = it[0], it[1]
            lc = chain + (loc,)
            if k == "macro":
                continue
            if k == "call":
                key = (it[2], len(it[3]))
                if key not in self.macros:
                    raise SyntaxError(f"{loc}: no macro {key}")
                m = self.macros[key]
                n = self.counter
                self.counter += 1
                self.macro_uses.setdefault(it[2], []).append(lc)
                self.emit(self.subst(m[4], dict(zip(m[3], it[3])), n), fi, lc)
            elif k == "rep":
                for _ in range(it[2]):
                    self.emit(it[3], fi, lc)
            elif k == "global":
                if it[2] in self.glob:
                    raise SyntaxError(f"{loc}: duplicate global {it[2]}")
                self.glob[it[2]] = len(self.code)
            elif k == "label":
                if it[2] in self.local[fi]:
                    raise SyntaxError(f"{loc}: duplicate label {it[2]}")
                self.local[fi][it[2]] = len(self.code)
            elif k == "push":
                self.code.append(I("PUSH", self.lit(it[2], loc), lc, fi))
            elif k == "stack":
                names, tot = {}, 0
                for nm, c in it[2]:
                    names[nm] = list(range(tot, tot + c))
                    tot += c
                rep = []
                for x in it[3]:
                    if x[0] == "label" and x[1] in names:
                        rep += [("pos", p) for p in names[x[1]]]
                    else:
                        rep.append(self.lit(x, loc))
                self.code.append(I("STACK", (tot, rep), lc, fi))
            elif k == "advice":
                self.code.append(I("ADVICE", it[2], lc, fi))
            elif k == "bytes":
                self.code.append(I("BYTES", [self.lit(x, loc)[1] for x in it[2]], lc, fi))
            elif k == "jumptable":
                self.code.append(I("TABLE", it[2], lc, fi))
            elif k == "op":
                self.code.append(I(it[2], None, lc, fi))
            else:
                raise SyntaxError(f"{loc}: {k}")

    def lit(self, x, loc):
        if x[0] == "const":
            if x[1] not in self.const:
                raise SyntaxError(f"{loc}: no constant {x[1]}")
            return ("lit", self.const[x[1]])
        if x[0] in ("lit", "label"):
            return x
        raise SyntaxError(f"{loc}: unbound {x}")

    def resolve(self, name, fi):
        d = self.local[fi]
        if name in d:
            return d[name]
        if name in self.glob:
            return self.glob[name]
        raise SyntaxError(f"no label {name} in {self.fileno[fi]}")


def load(facts, asm_dir=None):
    """Kernel from analysis facts"""
    import os
    consts = {}
    for t in facts["kernel_constants"]["value"]:
        k, v = json.loads(t)
        if isinstance(v, dict):
            v = sum(x << (64 * i) for i, x in enumerate(v["0"]))
        if k in consts and consts[k] != v:
            raise SyntaxError(f"constant {k} defined twice")
        consts[k] = v
    names = {}
    if asm_dir:
        for d, _, fs in os.walk(asm_dir):
            for f in fs:
                if f.endswith(".asm"):
                    names[open(os.path.join(d, f)).read()] = os.path.relpath(os.path.join(d, f), asm_dir)
    files = []
    for i, t in enumerate(facts["const::aggregator::KERNEL_FILES"]["value"]):
        files.append((names.get(t, f"file{i}"), t))
    return Kernel(files, consts)
