"""Calling conventions of the reference kernel's routines: position of the return address, words taken and left."""
from kexec import ALU


def effect(op, a):
    return None


class Shapes:
    def __init__(self, prog):
        self.p = prog
        self.entry = {}
        for n, i in prog.glob.items():
            self.entry.setdefault(i, n)
        self.known, self.bad, self.why = dict(MANUAL), {}, {}
        names = [n for n in prog.glob if prog.code[prog.glob[n]][0] not in ("BYTES", "TABLE", "END") and n not in MANUAL]
        changed = True
        rounds = 0
        while changed and rounds < 30:
            changed = False
            rounds += 1
            for n in names:
                if n in self.bad:
                    continue
                r = self.explore(n, final=False)
                if r == "bad":
                    self.bad[n] = "irregular"
                    if self.known.pop(n, None):
                        changed = True
                elif r and self.known.get(n) != r:
                    self.known[n] = r
                    changed = True
        # calls whose callee has no convention make the caller's unknown, unless the callee never returns
        changed = True
        while changed:
            changed = False
            for n in list(self.known):
                if n in MANUAL:
                    continue
                r = self.explore(n, final=True)
                if r != self.known[n]:
                    if r in (None, "bad"):
                        del self.known[n]
                        self.bad[n] = "calls a routine without convention"
                    else:
                        self.known[n] = r
                    changed = True
        self.rounds = rounds

    def explore(self, g, final):
        p = self.p
        res = set()
        work = [(p.glob[g], [], 0, True)]
        seen = set()
        maxb = 0

        def need(e, b, n):
            while len(e) < n:
                e.insert(0, ("in", b))
                b += 1
            return b
        while work:
            pc, e, b, first = work.pop()
            while True:
                if pc in self.entry and not first:
                    h = self.entry[pc]
                    r = self.call(g, h, e, b, work, res, final)
                    if r == "bad":
                        return "bad"
                    break
                first = False
                key = (pc, b, tuple(e))
                if key in seen:
                    break
                seen.add(key)
                if len(seen) > 60000 or len(e) > 200 or b > 200:
                    return "bad"
                op, a = p.code[pc]
                if op == "PUSH":
                    e.append(("l", a[1]) if a[0] == "label" else None)
                elif op == "STACK":
                    k, rep = a
                    b = need(e, b, k)
                    vals = [e.pop() for _ in range(k)]
                    for t, v in reversed(rep):
                        e.append(vals[v] if t == "pos" else ("l", v) if t == "label" else None)
                elif op[:3] == "DUP":
                    k = int(op[3:])
                    b = need(e, b, k)
                    e.append(e[-k])
                elif op[:4] == "SWAP":
                    k = int(op[4:]) + 1
                    b = need(e, b, k)
                    e[-1], e[-k] = e[-k], e[-1]
                elif op in ("JUMP", "JUMPI"):
                    k = 1 if op == "JUMP" else 2
                    b = need(e, b, k)
                    t = e.pop()
                    if k == 2:
                        e.pop()
                    e2 = list(e)
                    r = self.go(g, t, e2, b, work, res, final)
                    if r == "bad":
                        return "bad"
                    if op == "JUMP":
                        break
                elif op in ("PANIC", "EXIT_KERNEL", "BYTES", "TABLE", "END"):
                    break
                elif op == "SET_CONTEXT":
                    self.why[g] = "context"
                    return "bad"
                else:
                    k, m = pops(op)
                    b = need(e, b, k)
                    for _ in range(k):
                        e.pop()
                    e += [None] * m
                pc += 1
        if not res:
            return None
        if len({r[0] for r in res}) > 1 or len({r[2] - r[1] for r in res}) > 1:
            self.why[g] = f"returns {res}"
            return "bad"
        d = max(r[1] for r in res)
        r0 = next(iter(res))
        return (r0[0], d, d + r0[2] - r0[1])

    def go(self, g, t, e, b, work, res, final):
        if t is None:
            self.why[g] = "computed jump"
            return "bad"
        if t[0] == "in":
            while b <= t[1]:
                e.insert(0, ("in", b))
                b += 1
            # words below that were only looked at
            lim = max([x[1] for x in e if x and x[0] == "in"], default=-1)
            while e and e[0] == ("in", b - 1) and b - 1 > t[1] and not any(x == ("in", b - 1) for x in e[1:]):
                e.pop(0)
                b -= 1
            res.add((t[1], b, len(e)))
            return None
        if t[1] in self.entry:
            return self.call(g, self.entry[t[1]], e, b, work, res, final)
        work.append((t[1], e, b, False))

    def call(self, g, h, e, b, work, res, final):
        s = self.known.get(h)
        if not s:
            if final and self.returns(h):
                self.why[g] = "calls " + h
                return "bad"
            return None
        r, d, out = s
        while len(e) < d:
            e.insert(0, ("in", b))
            b += 1
        args = [e.pop() for _ in range(d)]
        e += [None] * out
        return self.go(g, args[r], e, b, work, res, final)

    def returns(self, h):
        """may the routine come back to a return address (conservative: unknown ones may)"""
        return h not in NORETURN


# never return to an address received on the stack
NORETURN = {"fault_exception", "fault_exception_and_prune", "terminate_common", "panic", "halt", "halt_final", "sys_stop",
            "mpt_read_hash_node", "mpt_insert_hash_node", "increment_nonce_no_such_account", "invalid_txn", "invalid_txn_1", "invalid_txn_2", "invalid_txn_3"}
# jumps into an unrolled code table, or through a routine received as an argument (conventions documented at their heads)
MANUAL = {"mstore_unpacking": (3, 4, 1), "encode_or_hash_node": (4, 5, 3), "encode_account": (3, 4, 2), "encode_node_branch": (5, 6, 3), "encode_node_leaf": (5, 6, 3),
          "encode_node_extension": (5, 6, 3), "handle_precompiles": (1, 2, 0)}
LEAVING = {"handle_precompiles"}    # may also switch context instead of returning


def pops(op):
    if op in ALU:
        return ALU[op], 1
    if op[:13] == "MSTORE_32BYTE":
        return 2, 1
    return {"MLOAD_GENERAL": (1, 1), "MLOAD_32BYTES": (2, 1), "KECCAK_GENERAL": (2, 1), "MSTORE_GENERAL": (2, 0), "GET_CONTEXT": (0, 1), "PC": (0, 1),
            "POP": (1, 0), "JUMPDEST": (0, 0), "ADVICE": (0, 1), "INCR1": (1, 1), "INCR2": (2, 2), "INCR3": (3, 3), "INCR4": (4, 4)}[op]
