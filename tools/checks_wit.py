"""W01: witness generator, constraints, assembler and kernel tables agree on every opcode."""
import re
import facts
from poly import parse, P as MOD

CRATE = "evm_arithmetization"

# Ethereum yellow paper (Cancun): opcode -> (mnemonic, static gas or None, words read, words written)
EVM = {}


def _ev(base, *rows):
    for i, r in enumerate(rows):
        if r:
            EVM[base + i] = r


_ev(0x00, ("STOP", 0, 0, 0), ("ADD", 3, 2, 1), ("MUL", 5, 2, 1), ("SUB", 3, 2, 1), ("DIV", 5, 2, 1), ("SDIV", 5, 2, 1), ("MOD", 5, 2, 1), ("SMOD", 5, 2, 1),
    ("ADDMOD", 8, 3, 1), ("MULMOD", 8, 3, 1), ("EXP", 10, 2, 1), ("SIGNEXTEND", 5, 2, 1))
_ev(0x10, ("LT", 3, 2, 1), ("GT", 3, 2, 1), ("SLT", 3, 2, 1), ("SGT", 3, 2, 1), ("EQ", 3, 2, 1), ("ISZERO", 3, 1, 1), ("AND", 3, 2, 1), ("OR", 3, 2, 1),
    ("XOR", 3, 2, 1), ("NOT", 3, 1, 1), ("BYTE", 3, 2, 1), ("SHL", 3, 2, 1), ("SHR", 3, 2, 1), ("SAR", 3, 2, 1))
_ev(0x20, ("KECCAK256", 30, 2, 1))
_ev(0x30, ("ADDRESS", 2, 0, 1), ("BALANCE", 100, 1, 1), ("ORIGIN", 2, 0, 1), ("CALLER", 2, 0, 1), ("CALLVALUE", 2, 0, 1), ("CALLDATALOAD", 3, 1, 1),
    ("CALLDATASIZE", 2, 0, 1), ("CALLDATACOPY", 3, 3, 0), ("CODESIZE", 2, 0, 1), ("CODECOPY", 3, 3, 0), ("GASPRICE", 2, 0, 1), ("EXTCODESIZE", 100, 1, 1),
    ("EXTCODECOPY", 100, 4, 0), ("RETURNDATASIZE", 2, 0, 1), ("RETURNDATACOPY", 3, 3, 0), ("EXTCODEHASH", 100, 1, 1))
_ev(0x40, ("BLOCKHASH", 20, 1, 1), ("COINBASE", 2, 0, 1), ("TIMESTAMP", 2, 0, 1), ("NUMBER", 2, 0, 1), ("PREVRANDAO", 2, 0, 1), ("GASLIMIT", 2, 0, 1),
    ("CHAINID", 2, 0, 1), ("SELFBALANCE", 5, 0, 1), ("BASEFEE", 2, 0, 1), ("BLOBHASH", 3, 1, 1), ("BLOBBASEFEE", 2, 0, 1))
_ev(0x50, ("POP", 2, 1, 0), ("MLOAD", 3, 1, 1), ("MSTORE", 3, 2, 0), ("MSTORE8", 3, 2, 0), ("SLOAD", 100, 1, 1), ("SSTORE", 100, 2, 0), ("JUMP", 8, 1, 0),
    ("JUMPI", 10, 2, 0), ("PC", 2, 0, 1), ("MSIZE", 2, 0, 1), ("GAS", 2, 0, 1), ("JUMPDEST", 1, 0, 0), ("TLOAD", 100, 1, 1), ("TSTORE", 100, 2, 0),
    ("MCOPY", 3, 3, 0), ("PUSH0", 2, 0, 1))
_ev(0x60, *[(f"PUSH{i}", 3, 0, 1) for i in range(1, 33)])
_ev(0x80, *[(f"DUP{i}", 3, i, i + 1) for i in range(1, 17)])
_ev(0x90, *[(f"SWAP{i}", 3, i + 1, i + 1) for i in range(1, 17)])
_ev(0xa0, *[(f"LOG{i}", 375 * (i + 1), i + 2, 0) for i in range(5)])
_ev(0xf0, ("CREATE", 32000, 3, 1), ("CALL", 100, 7, 1), ("CALLCODE", 100, 7, 1), ("RETURN", 0, 2, 0), ("DELEGATECALL", 100, 6, 1), ("CREATE2", 32000, 4, 1))
EVM[0xfa] = ("STATICCALL", 100, 6, 1)
EVM[0xfd] = ("REVERT", 0, 2, 0)
EVM[0xff] = ("SELFDESTRUCT", 5000, 1, 0)

# executed by the tables themselves, not by a system call
NATIVE = {"ADD": "BinaryArithmetic.Add", "MUL": "BinaryArithmetic.Mul", "SUB": "BinaryArithmetic.Sub", "DIV": "BinaryArithmetic.Div", "MOD": "BinaryArithmetic.Mod",
          "ADDMOD": "TernaryArithmetic.AddMod", "MULMOD": "TernaryArithmetic.MulMod", "LT": "BinaryArithmetic.Lt", "GT": "BinaryArithmetic.Gt", "EQ": "Eq", "ISZERO": "Iszero",
          "AND": "BinaryLogic.And", "OR": "BinaryLogic.Or", "XOR": "BinaryLogic.Xor", "NOT": "Not", "BYTE": "BinaryArithmetic.Byte", "SHL": "BinaryArithmetic.Shl",
          "SHR": "BinaryArithmetic.Shr", "POP": "Pop", "JUMP": "Jump", "JUMPI": "Jumpi", "PC": "Pc", "JUMPDEST": "Jumpdest"}
NATIVE.update({f"PUSH{i}": f"Push.{i}" for i in range(33)})
NATIVE.update({f"DUP{i}": f"Dup.{i-1}" for i in range(1, 17)})
NATIVE.update({f"SWAP{i}": f"Swap.{i-1}" for i in range(1, 17)})
# kernel-only instructions: opcode -> (mnemonic, operation, words read, words written)
KERNEL = {0x0c: ("ADDFP254", "BinaryArithmetic.AddFp254", 2, 1), 0x0d: ("MULFP254", "BinaryArithmetic.MulFp254", 2, 1), 0x0e: ("SUBFP254", "BinaryArithmetic.SubFp254", 2, 1),
          0x0f: ("SUBMOD", "TernaryArithmetic.SubMod", 3, 1), 0x21: ("KECCAK_GENERAL", "KeccakGeneral", 2, 1), 0xee: ("PROVER_INPUT", "ProverInput", 0, 1),
          0xf6: ("GET_CONTEXT", "GetContext", 0, 1), 0xf7: ("SET_CONTEXT", "SetContext", 1, 0), 0xf8: ("MLOAD_32BYTES", "Mload32Bytes", 2, 1),
          0xf9: ("EXIT_KERNEL", "ExitKernel", 1, 0), 0xfb: ("MLOAD_GENERAL", "MloadGeneral", 1, 1), 0xfc: ("MSTORE_GENERAL", "MstoreGeneral", 2, 0)}
KERNEL.update({0xc0 + i: (f"MSTORE_32BYTES_{i+1}", f"Mstore32Bytes.{i+1}", 2, 1) for i in range(32)})
PANIC = 0xa5
# the kernel's name of an instruction where it is not the yellow paper's
ALIAS = {"PC": "GETPC", "PREVRANDAO": "DIFFICULTY"}
EXCEPTIONS = ["exc_out_of_gas", "exc_invalid_opcode", "exc_stack_underflow", "exc_invalid_jump_destination", "exc_invalid_jumpi_destination", "exc_stack_overflow", "exc_stop"]


def opname(j):
    """reified Operation -> 'Kind.argument'"""
    if isinstance(j, str):
        return j
    (k, v), = j.items()
    parts = [k]
    for x in v.values():
        parts.append(x if isinstance(x, str) else str(x))
    return ".".join(parts)


def subst(p, env):
    """polynomial under a partial assignment: (constant part, remaining atoms)"""
    tot, rest = {}, set()
    for m, c in p.items():
        r = []
        for a in m:
            v = env.get(a)
            if v is None:
                r.append(a)
            else:
                c = c * v % MOD
                if not c:
                    break
        if c:
            k = tuple(sorted(r))
            tot[k] = (tot.get(k, 0) + c) % MOD
    return {k: c for k, c in tot.items() if c}


def table_bytes(k, label, n=256):
    i, out = k.glob.get(label), []
    if i is None:
        i = next((d[label] for d in k.local if label in d), None)
    if i is None:
        return None
    while len(out) < n and k.code[i].op == "BYTES":
        out += k.code[i].arg
        i += 1
    return out if len(out) >= n else None


def table_labels(k, label, n):
    i, out = k.glob.get(label), []
    while i is not None and len(out) < n and k.code[i].op == "TABLE":
        a = k.code[i].arg
        out += a if isinstance(a, list) else [a]
        i += 1
    return out if len(out) >= n else None


def W01(rep, tier):
    import checks_kern
    k = checks_kern.load()
    pseudo = {"PUSH", "STACK", "ADVICE", "BYTES", "TABLE", "END"}
    used = sorted({i.op for i in k.code} - pseudo)
    names = used + ["PROVER_INPUT"] + [f"PUSH{i}" for i in range(33)]
    f = facts.get(CRATE, [["opcodes"], ["mnemonics"]], {"VERIF_MNEMONICS": ",".join(names)})
    g = facts.get(CRATE, [["CpuStark::eval_packed_generic"]], {"VERIF_FULL": "1"})
    cols = facts.get(CRATE, [["columns"]])["columns::CpuColumnsView"]
    for r, src in (("opcodes", f), ("mnemonics", f), ("CpuStark::eval_packed_generic", g)):
        rep.ob()
        if src.get(r, {}).get("status") != "ok":
            rep.bad("analysable", r, str(src.get(r, {}).get("status"))[:600])
            return
    if cols["status"] != "ok":
        rep.bad("column-view", "CpuColumnsView", cols["status"])
        return
    col = cols["value"]
    idx = {n: i for i, n in enumerate(col)}
    ops = [n for n in col if n.startswith("op.")]
    rep.rule("By constant propagation over all 256 opcodes in both modes: the operation decoded is the one the yellow paper (or the kernel's own instruction list) assigns, "
             "user mode decodes exactly the valid opcodes; one operation flag is set and it satisfies every CPU constraint over flags, opcode bits and mode; the gas charged and the "
             "change of stack length satisfy, and are forced by, the CPU constraints and are the yellow paper's; the kernel's bit sets of invalid and of stack-growing opcodes, its tables of "
             "minimal stack lengths and gas costs, its system-call and exception tables and the assembler's mnemonics agree with the same assignment.")

    # constraints over a row's decoded instruction
    cons = []
    vis = {f"local_values[{idx[n]}]" for n in ops + [f"opcode_bits[{i}]" for i in range(8)] + ["is_kernel_mode", "gas", "stack_len"]}
    vis |= {f"next_values[{idx['gas']}]", f"next_values[{idx['stack_len']}]"}
    for e in g["CpuStark::eval_packed_generic"]["events"]:
        if e["k"] in ("all", "transition"):
            cs = set(re.findall(r"(?:local|next)_values\[\d+\]", e["v"][0]))
            if cs and cs <= vis:
                cons.append((parse(e["v"][0]), cs, e))
    rep.count("constraints_over_the_instruction", len(cons))
    lg, ng, ls, ns = f"local_values[{idx['gas']}]", f"next_values[{idx['gas']}]", f"local_values[{idx['stack_len']}]", f"next_values[{idx['stack_len']}]"

    def holds(env, need=None):
        """first violated constraint among those fully determined by env"""
        for p, cs, e in cons:
            if need and need not in cs:
                continue
            r = subst(p, env)
            if r and set(r) == {()}:
                return e
        return None

    val = f["opcodes"]["value"]
    native_gas = {}
    user_valid, user_grow = set(), set()
    for b in range(256):
        for kern in (0, 1):
            d = val[b][kern]
            where = f"opcode {b:#04x} in {'kernel' if kern else 'user'} mode"
            rep.ob()
            rep.count("opcode_modes")
            if "stop" in d:
                rep.bad("analysable", where, d["stop"][:500])
                continue
            ev = EVM.get(b)
            # --- what is executed
            if ev:
                mn, gas, ins, outs = ev
                want = NATIVE.get(mn) or f"Syscall.{b}.{ins}.{1 if outs > ins else 0}"
            elif kern and b in KERNEL:
                mn, want, ins, outs = KERNEL[b]
                gas = 0
            else:
                want = "err"
            if "err" in d:
                if want != "err":
                    rep.bad("decode", where, f"decodes to {d['err']}, expected {want}")
                elif kern and b == PANIC and d["err"] == "InvalidOpcode":
                    pass
                elif not kern and d["err"] != "InvalidOpcode":
                    rep.bad("decode", where, f"error is {d['err']}, expected InvalidOpcode")
                continue
            got = opname(d["op"])
            if got != want:
                rep.bad("decode", where, f"decodes to {got}, expected {'an error' if want == 'err' else want}")
                if want == "err":
                    continue
            if not kern:
                user_valid.add(b)
                if outs > ins:
                    user_grow.add(b)
            # --- flag
            fl = d["flags"]
            rep.ob(2)
            if len(fl) != 1 or fl[0][1] != "1" or col[fl[0][0]] not in ops:
                rep.bad("flag", where, f"sets the cells {[(col[i] if i < len(col) else i, v) for i, v in fl]}, expected one operation flag")
                continue
            flag = col[fl[0][0]]
            sysc = got.startswith("Syscall")
            env = {f"local_values[{idx[n]}]": int(n == flag) for n in ops}
            env.update({f"local_values[{idx[f'opcode_bits[{i}]']}]": b >> i & 1 for i in range(8)})
            env[f"local_values[{idx['is_kernel_mode']}]"] = kern
            if not (sysc and kern):
                e = holds(env)
                if e:
                    rep.bad("flag", where, f"{flag} contradicts the constraint [{e['k']}] {e['v'][0][:200]} at {e['at'].split(' < ')[0]}")
            # --- gas
            rep.ob()
            ch = d["gas"]
            if not isinstance(ch, int):
                rep.bad("gas", where, f"charge is not a constant: {ch}")
                continue
            if not sysc and ch != gas:
                rep.bad("gas", where, f"{got} charges {ch}, expected {gas}")
            if sysc and ch != 0:
                rep.bad("gas", where, f"a system call is charged {ch} before the kernel charges it")
            if not sysc and got != "ExitKernel":
                G = 1000003
                e = holds(dict(env, **{lg: G, ng: G + ch}), ng)
                if e:
                    rep.bad("gas", where, f"charging {ch} for {got} contradicts the constraint [{e['k']}] {e['v'][0][:200]} at {e['at'].split(' < ')[0]}")
                rep.ob()
                if not holds(dict(env, **{lg: G, ng: G + ch + 1}), ng):
                    rep.bad("gas", where, f"no constraint forces the gas charged for {got}")
                # --- stack
                if got not in ("SetContext", "MstoreGeneral"):
                    S = 777
                    net = outs - ins
                    rep.ob(2)
                    e = holds(dict(env, **{ls: S, ns: S + net}), ns)
                    if e:
                        rep.bad("stack", where, f"{got} changing the stack length by {net} contradicts the constraint [{e['k']}] {e['v'][0][:200]} at {e['at'].split(' < ')[0]}")
                    if not holds(dict(env, **{ls: S, ns: S + net + 1}), ns):
                        rep.bad("stack", where, f"no constraint forces the stack length after {got}")
            if not kern:
                native_gas[b] = None if sysc else ch
                rep.ob(2)
                if not sysc and outs > ins and not d["might_overflow"]:
                    rep.bad("overflow", where, f"{got} grows the stack but is not checked for overflow")
            if got == "ExitKernel" and not d["might_overflow"]:
                rep.bad("overflow", where, "returning from a system call is not checked for overflow")
            sp = d["special"]
            if sp != "None":
                n = sp["Some"]["0"]
                if n != ins or outs:
                    rep.bad("stack-top", where, f"{got} is treated as popping {n} words without pushing; it reads {ins} and writes {outs}")
            rep.sample({"opcode": f"{b:#04x}", "mode": "kernel" if kern else "user", "operation": got, "flag": flag, "gas": ch}) if b in (1, 0x54, 0xfb) else None

    # --- the kernel's tables
    def bits(name):
        v = k.const.get(name)
        return None if v is None else {i for i in range(256) if v >> i & 1}
    inv, grow = bits("INVALID_OPCODES_USER"), bits("STACK_LENGTH_INCREASING_OPCODES_USER")
    for name, s, want in (("INVALID_OPCODES_USER", inv, set(range(256)) - user_valid), ("STACK_LENGTH_INCREASING_OPCODES_USER", grow, user_grow)):
        rep.ob(256)
        if s is None:
            rep.bad("bitfield", name, "constant not found")
            continue
        for b in sorted(s ^ want):
            rep.bad("bitfield", f"{name} {b:#04x}", "listed, but not so in user mode" if b in s else "not listed, but so in user mode")
    ml, gc = table_bytes(k, "min_stack_len_for_opcode"), table_bytes(k, "gas_cost_for_opcode")
    sj, ej = table_labels(k, "syscall_jumptable", 256), table_labels(k, "exception_jumptable", 8)
    for n, t in (("min_stack_len_for_opcode", ml), ("gas_cost_for_opcode", gc), ("syscall_jumptable", sj), ("exception_jumptable", ej)):
        rep.ob()
        if t is None:
            rep.bad("kernel-table", n, "table not found or too short")
    for b in sorted(user_valid):
        mn, gas, ins, outs = EVM.get(b, ("?", None, None, None))
        if mn == "?":
            continue
        rep.ob(3)
        sysc = native_gas.get(b) is None
        if ml and ml[b] != ins:
            rep.bad("kernel-table", f"min_stack_len_for_opcode {b:#04x} {mn}", f"{ml[b]}, expected {ins}")
        if gc and (gc[b] > gas if sysc else gc[b] != gas):
            rep.bad("kernel-table", f"gas_cost_for_opcode {b:#04x} {mn}", f"{gc[b]}, expected {'at most ' if sysc else ''}{gas}")
    for b in range(256):
        rep.ob()
        mn = EVM.get(b, ("?",))[0]
        if not sj:
            break
        sysc = b in user_valid and native_gas.get(b) is None
        want = "sys_" + mn.lower() if sysc else "panic"
        if sj[b] != want:
            rep.bad("kernel-table", f"syscall_jumptable {b:#04x}", f"jumps to {sj[b]}, expected {want}")
    for i, n in enumerate(EXCEPTIONS):
        rep.ob()
        if ej and ej[i] != n:
            rep.bad("kernel-table", f"exception_jumptable {i}", f"jumps to {ej[i]}, expected {n}")

    # --- mnemonics
    code = {}
    for b, e in EVM.items():
        code[ALIAS.get(e[0], e[0])] = b
    for b, e in KERNEL.items():
        code[e[0]] = b
    code["PANIC"] = PANIC
    mv = f["mnemonics"]["value"]
    for m in names:
        rep.ob()
        rep.count("mnemonics")
        want = code.get(m)
        if want is None:
            rep.bad("mnemonic", m, "no instruction of this name is known")
        elif mv.get(m) != want:
            rep.bad("mnemonic", m, f"assembles to {mv.get(m)}, expected {want:#04x}")
    rep.assumptions = ["rustc's MIR and type checking", "the table of the Cancun yellow paper in tools/checks_wit.py",
                       "default features (eth_mainnet)"]
