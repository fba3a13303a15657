"""Kernel program: relational abstract interpretation against the reviewed listing (kexec.py) and rules on its paths."""
import json, os, re
import facts, kasm, kexec

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = "evm_arithmetization"
_res = None


def F(*names):
    return lambda root, file: any(file == n or n.endswith("/") and file.startswith(n) for n in names)


def R(*names):
    s = set(names)
    return lambda root, file: root in s


def any_of(*fs):
    return lambda root, file: any(f(root, file) for f in fs)


SYS = lambda root, file: root.startswith("sys_") or root.startswith("_sys_")
CALLS = R("sys_call", "sys_callcode", "sys_staticcall", "sys_delegatecall")
CREATES = R("sys_create", "sys_create2", "create_common", "set_codehash", "observe_new_contract")
LOGS = R("sys_log0", "sys_log1", "sys_log2", "sys_log3", "sys_log4", "log_n_entry")

# routines each property speaks about
SCOPE = {
    "K03": any_of(SYS, CALLS, CREATES, LOGS, F("core/gas.asm", "core/syscall.asm", "core/call_gas.asm", "core/precompiles/", "core/syscall.asm", "exp.asm", "memory/syscalls.asm"),
                  R("after_call_instruction", "process_message_txn_after_call", "process_contract_creation_txn_after_constructor", "intrinsic_gas", "revert_refund", "terminate_common")),
    "K04": any_of(F("journal/", "core/transfer.asm", "core/nonce.asm", "core/access_lists.asm", "core/touched_addresses.asm", "core/selfdestruct_list.asm",
                    "memory/transient_storage.asm", "mpt/storage/", "core/log.asm", "core/terminate.asm", "core/create.asm", "core/create_addresses.asm", "core/call.asm"),
                  R("search_account", "insert_slot", "insert_slot_with_value", "remove_slot", "search_slot", "insert_account_with_overwrite", "remove_account",
                    "remove_all_account_slots", "process_contract_creation_txn", "process_message_txn", "process_message_txn_after_call",
                    "process_contract_creation_txn_after_code_loaded", "process_contract_creation_txn_after_constructor", "process_message_txn_code_loaded",
                    "handle_precompiles_from_eoa", "after_precompile", "delete_account", "fault_exception_and_prune")),
    "K05": any_of(LOGS, CREATES, CALLS, R("sys_sstore", "sys_tstore", "sys_selfdestruct"), F("core/syscall.asm")),
    "K06": any_of(F("core/access_lists.asm", "journal/account_loaded.asm", "journal/storage_loaded.asm", "core/call.asm", "core/call_gas.asm"), CREATES,
                  R("sys_balance", "sys_extcodehash", "sys_extcodesize", "sys_extcodecopy", "sys_sload", "sys_sstore", "sys_selfdestruct", "warm_origin",
                    "warm_precompiles", "warm_coinbase", "process_based_on_type", "decode_and_store_access_list", "process_normalized_txn",
                    "process_contract_creation_txn", "process_message_txn", "intrinsic_gas", "increment_sender_nonce", "observe_new_address", "get_create_address",
                    "get_create2_address", "txn_loop", "txn_loop_after", "buy_gas")),
    "K07": any_of(F("core/call.asm", "core/call_gas.asm", "core/create.asm", "core/create_addresses.asm", "core/terminate.asm", "core/precompiles/", "core/transfer.asm",
                    "core/util.asm", "memory/metadata.asm", "account_code.asm", "memory/memcpy.asm", "memory/memset.asm", "memory/packing.asm", "util/math.asm", "memory/txn_fields.asm"),
                  R("sys_calldataload", "sys_calldatacopy", "sys_returndatacopy", "sys_codecopy", "process_contract_creation_txn", "process_message_txn",
                    "process_contract_creation_txn_after_code_loaded", "process_message_txn_code_loaded", "process_message_txn_after_call",
                    "process_contract_creation_txn_after_constructor", "process_message_txn_return", "process_message_txn_insufficient_balance", "sys_extcodecopy",
                    "balance", "fault_exception_and_prune", "sys_selfbalance")),
    "K08": any_of(F("core/process_txn.asm", "transactions/", "core/intrinsic_gas.asm", "core/withdrawals.asm", "core/create_receipt.asm", "core/nonce.asm",
                    "core/selfdestruct_list.asm", "core/touched_addresses.asm", "core/transfer.asm", "rlp/", "bloom_filter.asm", "balance.asm"),
                  R("txn_loop", "txn_loop_after", "execute_withdrawals", "start_txns", "ecrecover", "delete_account", "mpt_insert_txn_trie", "mpt_insert_receipt_trie",
                    "scalar_to_rlp", "handle_precompiles_from_eoa")),
    "K09": any_of(F("main.asm", "mpt/", "halt.asm", "bloom_filter.asm", "beacon_roots.asm", "core/create_receipt.asm"), R("set_beacon_root", "process_receipt")),
    "K11": any_of(F("memory/transient_storage.asm", "core/access_lists.asm", "core/touched_addresses.asm", "core/selfdestruct_list.asm", "mpt/linked_list/",
                    "core/create_contract_account.asm", "mpt/read.asm", "mpt/storage/", "journal/"),
                  R("main", "store_initial", "after_store_initial", "txn_loop", "txn_loop_after", "sys_selfdestruct", "search_account", "insert_slot", "remove_slot",
                    "process_contract_creation_txn", "create_common")),
    "K10": any_of(F("core/exception.asm", "core/terminate.asm", "core/gas.asm", "core/jumpdest_analysis.asm"), R("panic", "after_call_instruction", "syscall_jumptable")),
}

# words pushed minus words popped by each EVM instruction served by a system call (Ethereum yellow paper, appendix H)
NET = {"sys_call": -6, "sys_callcode": -6, "sys_staticcall": -5, "sys_delegatecall": -5, "sys_gas": 1, "sys_gasprice": 1, "sys_exp": -1, "sys_address": 1,
       "sys_caller": 1, "sys_codesize": 1, "sys_callvalue": 1, "sys_msize": 1, "sys_calldatasize": 1, "sys_returndatasize": 1, "sys_coinbase": 1, "sys_timestamp": 1,
       "sys_number": 1, "sys_gaslimit": 1, "sys_chainid": 1, "sys_basefee": 1, "sys_blobhash": 0, "sys_blobbasefee": 1, "sys_blockhash": 0, "sys_prevrandao": 1,
       "sys_mload": 0, "sys_mstore": -2, "sys_mstore8": -2, "sys_calldataload": 0, "sys_calldatacopy": -3, "sys_returndatacopy": -3, "sys_codecopy": -3,
       "sys_extcodecopy": -4, "sys_mcopy": -3, "sys_origin": 1, "sys_tload": 0, "sys_tstore": -2, "sys_sload": 0, "sys_sstore": -2, "sys_sdiv": -1, "sys_smod": -1,
       "sys_signextend": -1, "sys_sar": -1, "sys_slt": -1, "sys_sgt": -1, "sys_keccak256": -1, "sys_extcodehash": 0, "sys_balance": 0, "sys_selfbalance": 1}


def load():
    f = facts.get(CRATE, [["const::KERNEL_FILES", "kernel_constants"]])
    for r in ("const::aggregator::KERNEL_FILES", "kernel_constants"):
        if f.get(r, {}).get("status") != "ok":
            raise SystemExit(f"kernel sources not available: {r}: {f.get(r, {}).get('status')}")
    import vbuild
    return kasm.load(f, os.path.join(vbuild.REPO, "evm_arithmetization/src/cpu/kernel/asm"))


def product():
    """run the relational interpretation once: (product, undecided, error)"""
    global _res
    if _res is None:
        und = []
        try:
            K = load()
            P = kexec.Prog.of(K)
        except SyntaxError as e:
            _res = (None, [], str(e))
            return _res
        Q = kexec.Prog.read(open(f"{BASE}/spec/kernel.lst").read())
        shapes = json.load(open(f"{BASE}/spec/kernel_shapes.json"))
        x = kexec.Product(P, Q, shapes)
        kexec.LARGEST_CONTEXT = K.const.get("GLOBAL_METADATA_LARGEST_CONTEXT")
        x.ndata = x.data()
        for g in sorted(x.shared, key=lambda g: (P.glob[g], g)):
            if P.code[P.glob[g]][0] in ("BYTES", "TABLE", "END"):
                continue
            try:
                x.routine(g)
            except kexec.Undecided as e:
                und.append((g, str(e)))
        try:
            x.obligations()
            x.rest()
        except kexec.Undecided as e:
            und.append((x.root, str(e)))
        _res = (x, und, None)
    return _res


def report(rep, scope, kinds=None):
    """mismatches and undecided routines of the roots a property speaks about"""
    x, und, err = product()
    rep.assumptions = ["the reviewed reference listing spec/kernel.lst (expanded kernel program with resolved constants)",
                       "memory cells at addresses differing by a non-zero constant are distinct; routines called with equal arguments, memory and context behave equally",
                       "the assembler encodes the parsed instructions faithfully (the optimizer is not modelled)"]
    if err:
        rep.ob()
        rep.bad("kernel-syntax", "kernel", err)
        return None
    rep.rule("Every routine both listings define is executed over symbolic words in both; at every call, return, computed jump, context switch, kernel exit, "
             "advice request, panic and loop head the current program must take the same action with equal operands, stack, memory writes and context under the same path condition.")
    roots = set()
    for g in x.shared:
        fl = x.Q.files[x.Q.glob[g]]
        if scope(g, fl):
            roots.add(g)
            n = x.actions.get(g, 0)
            rep.ob(max(1, n))
            rep.count("joint_actions", n)
    for g in sorted(set(x.Q.glob) - x.shared):
        if scope(g, x.Q.files[x.Q.glob[g]]):
            rep.count("routines_absent", 1)
    rep.coverage["routines"] = len(roots)
    rep.coverage["instructions"] = len(x.P.code)
    rep.coverage["instructions_interpreted"] = len(x.rp.visited)
    seen = set()
    for root, kind, where, what in x.mismatch:
        if root not in roots or kinds and kind not in kinds:
            continue
        key = (root, kind, where)
        if key in seen:
            continue
        seen.add(key)
        rep.bad("kernel-" + kind, f"{root} at {where}", what)
    for g, why in und:
        if g in roots and not kinds:
            rep.bad("kernel-undecided", g, why)
    for g in sorted(roots)[:8]:
        rep.sample({"routine": g, "file": x.P.files[x.P.glob[g]], "joint_actions": x.actions.get(g, 0)})
    return x, roots


def K01(rep, tier):
    r = report(rep, lambda g, f: True, kinds={"stack", "return", "data"})
    if not r:
        return
    x, roots = r
    rep.rule("On every kernel exit reached from a system call, stack words left minus taken equal the EVM instruction's pushes minus pops.")
    for g, n in NET.items():
        rep.ob()
        if g not in x.shared:
            rep.bad("kernel-syscall", g, "system call handler is missing")
            continue
        got = x.exits.get(g, set())
        if got != {n}:
            rep.bad("kernel-syscall", g, f"leaves {sorted(got)} words more than it takes on return to user mode; the instruction prescribes {n}")


def K02(rep, tier):
    x, und, err = product()
    scope = (lambda g, f: g in x.adv) if x else (lambda g, f: True)
    r = report(rep, scope)
    if not r:
        return
    rep.rule("Every kind of advice a routine asks for decides an abort in that routine (taint of the advice word reaching the condition of a panic), "
             "unless spec/advice.json records why it needs none.")
    why = json.load(open(f"{BASE}/spec/advice.json"))
    for kind, root in sorted(set(x.advsym.values())):
        rep.ob()
        if (kind, root) not in x.checked and f"{kind} in {root}" not in why:
            rep.bad("advice-unchecked", root, f"no abort depends on the advice {kind}")
    rep.coverage["advice_requests"] = sum(1 for op, a in x.P.code if op == "ADVICE")
    rep.coverage["advice_kinds"] = len({a for op, a in x.P.code if op == "ADVICE"})


def make(pid):
    def f(rep, tier):
        report(rep, SCOPE[pid])
    return f


for _p in SCOPE:
    globals()[_p] = make(_p)
