#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code only to keep the JSON well-formed)."""
import json, os
E='evm_arithmetization/src/'
K=E+'cpu/kernel/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
IN=["inputs"]
soundwhy="Tests only ever build honest traces and check that they satisfy the constraints; a missing or weakened constraint makes nothing fail, because it shows only on a dishonest trace that no test generates."
# ---- constraint systems
p("A01","Arithmetic table admits only correct arithmetic results",
  "Every row the arithmetic table accepts (add, sub, mul, div, mod, lt, gt, shifts, byte, the modular and BN254 operations, range checks) carries an output that really is that operation applied to its inputs, including carries, quotients, remainders, zero-denominator cases and the boolean nature and exclusivity of the operation flags. No assignment of the auxiliary columns makes a wrong result acceptable, in the native verifier and in the recursive circuit alike.",
  IN,"all rows, i.e. all values of all columns a malicious prover may choose",soundwhy,
  [E+"arithmetic/"],[("constraint evaluators of the arithmetic table",E+"arithmetic/arithmetic_stark.rs"),("per-operation constraints",E+"arithmetic/{addcy,mul,divmod,modular,shift,byte}.rs")])
p("A02","Byte-packing table binds packed words to memory bytes",
  "Every accepted row of the byte-packing table reads or writes exactly one contiguous sequence of 1 to 32 bytes, with a single length, and the packed word it exposes is the big-endian value of those bytes. Length flags are boolean and exclusive, padding rows follow real rows, and bytes past the length are zero.",
  IN,"all rows a malicious prover may choose",soundwhy,[E+"byte_packing/"],[("byte packing constraints",E+"byte_packing/byte_packing_stark.rs")])
p("A03","CPU rows execute exactly the fetched opcode, at the right privilege",
  "In every accepted CPU row the operation that is performed is the one named by the opcode byte fetched from the current code: exactly the operation group that opcode belongs to is active, and reserved kernel-only opcodes cannot be active in user mode. Anything else, including undefined opcodes and bad stack lengths, can only be taken as an exception or system call into the kernel.",
  IN,"all opcodes, both privilege modes, all prover-chosen rows",soundwhy,[E+"cpu/decode.rs",E+"cpu/columns/"],[("opcode decoding constraints",E+"cpu/decode.rs")])
p("A04","CPU gas is charged per executed instruction and never lost",
  "Between consecutive accepted CPU rows the gas counter increases by exactly the EVM price of the executed native instruction, is zero-cost for kernel-only instructions, and on entry to or exit from the kernel is saved in and restored from the return information word unchanged. No row lets gas be reset, refunded or skipped.",
  IN,"all instruction sequences and prover-chosen rows",soundwhy,[E+"cpu/gas.rs"],[("gas constraints",E+"cpu/gas.rs")])
p("A05","CPU stack operations read and write the right stack slots",
  "Every accepted CPU row pops and pushes exactly as many words as its instruction does: popped operands are read from, and pushed results written to, the stack slots of the current context and timestamps that the stack length dictates, the cached top of stack stays equal to what memory holds, and the length is updated accordingly. Duplicate and swap instructions access exactly the slot their opcode names, and a user-mode stack longer than 1024 is trapped.",
  IN,"all instructions, stack lengths and prover-chosen rows",soundwhy,[E+"cpu/stack.rs",E+"cpu/dup_swap.rs"],[("stack constraints",E+"cpu/stack.rs"),("dup/swap",E+"cpu/dup_swap.rs")])
p("A06","CPU control transfers go only where EVM and kernel entry rules allow",
  "The program counter, kernel-mode flag and context of each accepted CPU row follow from the previous row: sequential flow for native instructions, jumps only to destinations that were proved to be jump destinations (in user mode) and only when the condition is non-zero, kernel entry only to the handler the dispatch table names with the correct return information, and kernel exit only to what that information word says. Halting is possible only in kernel mode at the designated halt location, after which nothing executes, and a context switch saves and restores stack length and top exactly.",
  IN,"all instruction sequences and prover-chosen rows",soundwhy,[E+"cpu/control_flow.rs",E+"cpu/jumps.rs",E+"cpu/syscalls_exceptions.rs",E+"cpu/halt.rs",E+"cpu/contextops.rs"],
  [("pc / kernel mode",E+"cpu/control_flow.rs"),("jumps",E+"cpu/jumps.rs"),("kernel entry",E+"cpu/syscalls_exceptions.rs"),("halt",E+"cpu/halt.rs"),("context switch",E+"cpu/contextops.rs")])
p("A07","CPU operand, bus and comparison constraints fix every result",
  "For every accepted CPU row, each memory channel is either used as the instruction requires or disabled, addresses are formed from the operands the instruction names, and results of instructions handled inside the CPU table (not, is-zero, equality, push of zero, program counter, general memory load and store, 32-byte loads and stores, shifts by table, BN254 modulus) are completely determined by their operands. The clock increases by one per row.",
  IN,"all prover-chosen rows",soundwhy,[E+"cpu/membus.rs",E+"cpu/memio.rs",E+"cpu/shift.rs",E+"cpu/byte_unpacking.rs",E+"cpu/simple_logic/",E+"cpu/modfp254.rs",E+"cpu/push0.rs",E+"cpu/pc.rs",E+"cpu/clock.rs"],
  [("bus",E+"cpu/membus.rs"),("general memory",E+"cpu/memio.rs"),("eq / is-zero / not",E+"cpu/simple_logic/"),("shift table",E+"cpu/shift.rs")])
p("A08","Keccak table proves the Keccak-f permutation",
  "Every group of 24 accepted, consecutive rows of the Keccak table performs the 24 rounds of Keccak-f[1600] in order on the row's input (theta, rho, pi, chi, and iota with the standard round constants), with all state bits boolean, and exposes exactly that input, output and timestamp. Rows outside such a group cannot claim a permutation.",
  IN,"all prover-chosen rows",soundwhy,[E+"keccak/"],[("round constraints",E+"keccak/keccak_stark.rs"),("round flags",E+"keccak/round_flags.rs"),("round constants",E+"keccak/constants.rs")])
p("A09","Keccak sponge absorbs the whole message with correct padding",
  "Every accepted run of rows of the sponge table absorbs exactly the declared number of message bytes block by block, starts from the zero state, carries the capacity and state between blocks unchanged, applies the 10*1 padding once at the right byte of the final block, and exposes the digest of that final block only. No block can be skipped, repeated or re-attributed to another message.",
  IN,"all prover-chosen rows and message lengths",soundwhy,[E+"keccak_sponge/"],[("sponge constraints",E+"keccak_sponge/keccak_sponge_stark.rs")])
p("A10","Logic table proves bitwise AND, OR, XOR",
  "Every accepted row of the logic table has boolean inputs, at most one operation flag set, and a result that is bit for bit the AND, OR or XOR of its two 256-bit inputs as selected by the flag.",
  IN,"all prover-chosen rows",soundwhy,[E+"logic.rs"],[("logic constraints",E+"logic.rs")])
p("A11","Memory table enforces read-last-write consistency",
  "In every accepted memory trace, each read of an address returns the value last written to it earlier in time (or the preloaded value, or zero for fresh addresses where the segment defines that), accesses are totally ordered by address and time, and no address can be skipped, reordered or aliased to escape this. Which final values are carried to the next segment, including the discarding of stale contexts, is equally fixed.",
  IN,"all prover-chosen traces",soundwhy,[E+"memory/"],[("memory constraints",E+"memory/memory_stark.rs")])
p("A12","Initial and final memory tables carry well-formed continuation data",
  "Rows of the tables that carry memory from one segment to the next are either genuine (address, value) entries, filtered by a boolean flag with genuine entries first, or padding that contributes nothing; addresses and values are exposed unmodified.",
  IN,"all prover-chosen traces",soundwhy,[E+"memory_continuation/"],[("continuation constraints",E+"memory_continuation/memory_continuation_stark.rs")])
p("A13","Every limb that soundness needs in range is range-checked",
  "Each table column whose soundness argument requires a bounded value (arithmetic limbs and auxiliary columns, packed bytes, sponge bytes, sorted-memory differences, context-pruning entries) is looked up in a range-check or membership table of the correct size, with the correct filter, and the frequency and range columns of that lookup are themselves constrained to run over the full range.",
  IN,"all prover-chosen traces",soundwhy,[E+"arithmetic/arithmetic_stark.rs",E+"byte_packing/byte_packing_stark.rs",E+"keccak_sponge/keccak_sponge_stark.rs",E+"memory/memory_stark.rs"],[("lookup declarations","fn lookups in each table"),("range column constraints","eval_packed_generic in each table")])
p("A14","Native and in-circuit constraint evaluation agree for every table",
  "For every table the constraints the recursive verification circuit evaluates are the same polynomials, of the same kind (every row, transition, first row, last row) and in the same order, as those the prover and native verifier evaluate. A proof therefore means the same thing at every recursion level.",
  IN,"all column values; every table",
  "The existing consistency tests compare the two evaluators at random points only, where order and kind mistakes can cancel or are not compared per kind.",[E],[("paired evaluators","eval_packed_generic / eval_ext_circuit in every table")])
p("A15","Cross-table connections transfer every operand and every access",
  "Every operation one table delegates to another (arithmetic, byte packing, Keccak permutation and sponge, logic, memory reads and writes, and initial and final memory) is connected by a cross-table relation whose sides list the same quantities in the same order under filters that select exactly the delegating rows, and no table may be used that is not connected. Every memory access any table makes appears on the memory side with its direction, address, value and timestamp.",
  IN,"all traces, all tables",soundwhy,[E+"all_stark.rs",E+"cpu/cpu_stark.rs",E+"keccak_sponge/keccak_sponge_stark.rs",E+"byte_packing/byte_packing_stark.rs",E+"memory/memory_stark.rs"],[("cross-table lookups",E+"all_stark.rs"),("column and filter declarations","ctl_data* in every table")])
# ---- verification
p("T01","Fiat-Shamir transcript binds every public value and commitment",
  "The challenges used to verify a proof are derived only after absorbing every trace commitment and every public value (roots, block metadata, block hashes, extra block data, registers, memory commitments), each exactly once, in one fixed order that is the same for prover, native verifier and recursive circuit. No public field can be changed after the challenges are fixed.",
  IN,"all proofs and public values","Tests use one honest prover and one honest verifier sharing the same code, so leaving a value out of the transcript still verifies.",
  [E+"get_challenges.rs",E+"prover.rs",E+"verifier.rs",E+"recursive_verifier.rs",E+"fixed_recursive_verifier.rs"],[("native transcript",E+"get_challenges.rs"),("circuit transcript",E+"get_challenges.rs"),("prover ordering",E+"prover.rs")])
p("T02","Public values are exactly what the kernel sees in memory",
  "Every public value of a segment proof is bound to the initial memory cell, register or Merkle cap where the executed kernel reads or writes it, at the same address, encoding, timestamp and read/write direction, in the native verifier and in the recursive circuit. A public value that differs from what execution used makes verification fail.",
  IN,"all public values","Tests check one honest pairing; a value silently dropped from the binding still verifies.",
  [E+"verifier.rs",E+"recursive_verifier.rs"],[("native sum of public memory accesses",E+"verifier.rs get_memory_extra_looking_sum"),("circuit sum",E+"recursive_verifier.rs get_memory_extra_looking_sum_circuit")])
p("T03","A proof is accepted only if every check passes",
  "The native verifier reports success only after the transcript was recomputed, every table in use had its own proof verified against those challenges, and the cross-table sums including the public memory contribution were checked; an absent proof for a table in use, a wrong initial memory commitment or a failing sub-check always yields an error. Tables declared unused must be ones that may be unused.",
  IN,"all proofs","Tests feed honest proofs (most of them not at all in the regular run), so dropping a check fails nothing.",
  [E+"verifier.rs",E+"fixed_recursive_verifier.rs"],[("segment verification",E+"verifier.rs verify_proof"),("cyclic verifier-key check",E+"fixed_recursive_verifier.rs verify_*")])
# ---- recursion
p("R01","Root circuit verifies all tables of one segment under one transcript",
  "The circuit that turns a segment's table proofs into one proof recomputes all challenges from the trace commitments and the public values it exposes, ties each table's proof to them (challenge states, challenges, cross-table openings), checks the cross-table sums with the public memory contribution, binds the memory commitments to the continuation tables, and allows skipping only those tables that may be unused, with zeroed contribution.",
  IN,"all witnesses a malicious prover may choose","Circuit tests are too expensive to run regularly, and honest witnesses satisfy an under-constrained circuit.",
  [E+"fixed_recursive_verifier.rs",E+"recursive_verifier.rs"],[("root circuit",E+"fixed_recursive_verifier.rs create_root_circuit"),("table recursion",E+"recursive_verifier.rs recursive_stark_circuit")])
p("R02","Segment aggregation chains registers, memory and state without gaps",
  "An aggregation of two segment proofs is accepted only if the second starts exactly where the first ended: same registers, same memory commitment, same block data, with the exposed start values those of the first and the exposed end values those of the second. A dummy second segment contributes nothing and leaves the end values of the first.",
  ["inputs","histories"],"all pairs of proofs and all prover-chosen public values","Aggregation tests are ignored by default and only use honest adjacent segments.",
  [E+"fixed_recursive_verifier.rs"],[("segment aggregation circuit",E+"fixed_recursive_verifier.rs create_segmented_aggregation_circuit")])
p("R03","Transaction batches chain state roots, counters and checkpoint data",
  "An aggregation of two batch proofs of one block is accepted only if the trie roots, transaction count and gas after the first equal those before the second, both agree on every block-level value (metadata, block hashes, checkpoint state and checkpoint hash commitment), and the exposed values are the start of the first and the end of the second. A single batch proof must begin and end at the designated initial and final register states.",
  ["inputs","histories"],"all pairs of proofs and prover-chosen public values","Aggregation tests are ignored by default and only use honest adjacent batches.",
  [E+"fixed_recursive_verifier.rs"],[("batch aggregation circuit",E+"fixed_recursive_verifier.rs create_txn_aggregation_circuit"),("batch linking",E+"fixed_recursive_verifier.rs connect_extra_public_values")])
p("R04","Block proofs chain consecutive blocks back to the checkpoint",
  "A block proof extends a parent proof only if the block number is the parent's plus one, the pre-state root is the parent's post-state root, the 256 ancestor hashes are the parent's shifted by one with the parent's hash appended, the timestamp does not decrease and checkpoint values are carried over unchanged; within the block the transaction and gas counters start at zero, the transaction and receipt tries start empty and the final gas equals the header's. Without a parent, the pre-state root and ancestor hashes must be the checkpoint's.",
  ["inputs","histories"],"all chains of block proofs and prover-chosen public values","Block-proof tests are ignored by default and use honest chains only.",
  [E+"fixed_recursive_verifier.rs"],[("block circuit",E+"fixed_recursive_verifier.rs create_block_circuit"),("block linking",E+"fixed_recursive_verifier.rs connect_block_proof, connect_checkpoint_block, connect_block_hashes, connect_initial_values_block")])
p("R05","Wrapped and pairwise-aggregated block proofs commit to the chain they prove",
  "The wrapped form of a block proof exposes exactly the chain id, checkpoint and final state roots and hash commitments of the block proof it verifies and nothing else, and pairwise aggregation of wrapped or aggregated proofs exposes the hash of precisely the two children's public values, verifying each child against the right circuit.",
  IN,"all proofs and prover-chosen public values","Wrapper and pairwise tests are ignored by default and honest only.",
  [E+"fixed_recursive_verifier.rs"],[("wrapper circuit",E+"fixed_recursive_verifier.rs create_block_wrapper_circuit"),("pairwise circuit",E+"fixed_recursive_verifier.rs create_two_to_one_block_circuit")])
p("R06","Public-input layout is one layout everywhere",
  "The position and encoding of every public field in a proof's public-input vector is the same where circuits register it, where parents parse it back, where witnesses are assigned to it and where plain values are decoded from it, and copying, selecting and comparing the circuit form of public values covers every field.",
  IN,"all public values","A pair of matching mistakes, or a field missing from a select or connect, is invisible to round trips over default values.",
  [E+"proof.rs",E+"recursive_verifier.rs"],[("parse and select",E+"proof.rs"),("registration and assignment",E+"recursive_verifier.rs add_virtual_*, set_*_targets")])
p("R07","Prover-circuit serialization writes and reads the same sequence",
  "For every persisted circuit structure, the sequence of typed items the reader consumes is exactly the sequence the writer emits, in order and number, and every field of the structure is restored from the item it was written to.",
  ["inputs","configurations"],"all circuit configurations","Serialization of the full prover state is not exercised by the regular tests.",
  [E+"fixed_recursive_verifier.rs",E+"proof.rs"],[("to_buffer / from_buffer pairs",E+"fixed_recursive_verifier.rs"),("public value targets",E+"proof.rs")])
# ---- witness
p("W01","Witness generator and constraints share one instruction table",
  "For every opcode byte in both modes, the instruction the witness generator executes, the operation flag it sets, the gas it charges and the number of stack words it requires agree with what the constraint system, the assembler's mnemonic table and the kernel's system-call table assume for that opcode. Disagreement would make valid programs unprovable or mis-executed.",
  ["programs"],"all 256 opcodes, both privilege modes","Tests execute the opcodes their programs contain, not all 256 in both modes against all tables.",
  [E+"witness/transition.rs",E+"witness/gas.rs",K+"opcodes.rs",E+"cpu/decode.rs",E+"cpu/gas.rs",E+"cpu/stack.rs",K+"asm/core/syscall.asm",K+"constants/exc_bitfields.rs"],[("witness decoder",E+"witness/transition.rs decode"),("mnemonics",K+"opcodes.rs"),("system-call table",K+"asm/core/syscall.asm")])
# ---- kernel
kwhy="Kernel tests run selected routines on sample inputs; omissions show only on specific transactions, call nestings or dishonest advice that no test supplies."
p("K01","Kernel code keeps the stack balanced on every path",
  "On every path through the kernel program the stack height at each point is the same however it is reached, system-call handlers consume and produce exactly the words the EVM instruction pops and pushes, and every return goes to the address its caller placed on the stack.",
  ["inputs","programs"],"all paths through kernel routines",kwhy,[K+"asm/"],[("kernel assembly",K+"asm")])
p("K02","Prover advice never decides kernel behaviour unchecked",
  "Every value the kernel obtains from the prover as non-deterministic advice is constrained by explicit checks before the kernel relies on it, so that no choice of advice can change the resulting state, hashes, gas or return values; a failing check aborts the proof.",
  IN,"all advice values, all call sites",kwhy,[K+"asm/",E+"generation/prover_input.rs"],[("advice call sites","PROVER_INPUT in "+K+"asm"),("assertions",K+"asm/util/assertions.asm")])
p("K03","Every system call charges its EVM gas before taking effect",
  "Each instruction implemented by the kernel charges the static and dynamic gas the EVM schedule (Cancun) prescribes for it, including cold-access, memory-expansion, per-word, per-byte, value-transfer and new-account components, and faults on insufficient gas before its effect persists. Refunds follow the storage rules and are capped.",
  ["inputs","programs"],"all instructions, operands and execution states",kwhy,[K+"asm/core/gas.asm",K+"asm/",K+"constants/mod.rs"],[("gas charging",K+"asm/core/gas.asm"),("gas constants",K+"constants/mod.rs")])
p("K04","Every state change is journaled and exactly undone on revert",
  "Each modification of reversible state (balances, nonces, storage, transient storage, code, account creation and destruction, logs, refunds, warm-access sets) records a journal entry holding what is needed to undo it, and reverting to a checkpoint undoes precisely the entries made since, each by the handler of its own kind, in reverse order.",
  ["inputs","histories"],"all nestings of calls, reverts and failures",kwhy,[K+"asm/journal/",K+"asm/"],[("journal entries",K+"asm/journal"),("reverter",K+"asm/journal/revert.asm")])
p("K05","Static calls cannot modify state",
  "While executing inside a static call, every instruction that would modify state (storage and transient stores, logs, contract creation, self-destruct, calls transferring value) faults before any modification, and the static flag is inherited by nested calls.",
  ["inputs","programs"],"all call nestings",kwhy,[K+"asm/core/call.asm",K+"asm/core/util.asm",K+"asm/"],[("static check macro",K+"asm/core/util.asm")])
p("K06","Account and storage accesses are charged and recorded as cold once",
  "Every instruction touching an account or storage slot consults and updates the warm-access set for exactly that address or slot, charging the cold price the first time and the warm price afterwards, with the transaction's sender, recipient, coinbase, precompiles and access list pre-warmed.",
  ["inputs","histories"],"all access sequences",kwhy,[K+"asm/core/access_lists.asm",K+"asm/"],[("access lists",K+"asm/core/access_lists.asm")])
p("K07","Calls and creations give the callee exactly the right environment",
  "Each call, delegate call, code call, static call, create and precompile invocation sets up the new frame with the EVM-prescribed address, caller, value, code, call data, gas, static flag, return location and depth limit, transfers value where prescribed, and on return restores the caller and reports success, return data and unused gas accordingly.",
  ["inputs","histories"],"all call kinds and nestings",kwhy,[K+"asm/core/call.asm",K+"asm/core/create.asm",K+"asm/core/terminate.asm",K+"asm/core/precompiles/"],[("call family",K+"asm/core/call.asm"),("create family",K+"asm/core/create.asm"),("termination",K+"asm/core/terminate.asm")])
p("K08","Only valid transactions take effect, and fees are settled exactly",
  "A transaction changes state only after all validity conditions of its type are enforced (signature, chain id, nonce, sender without code, fee caps, intrinsic gas, block gas limit, sufficient balance, blob and init-code limits); afterwards the sender is charged, unused gas and capped refunds returned, the beneficiary paid the tip, self-destructed and empty touched accounts removed, and the receipt recorded, on success and on failure alike.",
  ["inputs","histories"],"all transactions and pre-states",kwhy,[K+"asm/core/process_txn.asm",K+"asm/transactions/",K+"asm/core/intrinsic_gas.asm",K+"asm/main.asm"],[("transaction processing",K+"asm/core/process_txn.asm"),("decoding",K+"asm/transactions")])
p("K09","A segment halts only after its claimed results were checked",
  "Execution of a batch can reach its final halt only after the kernel recomputed and compared the state, transactions and receipts roots, the transaction and gas counters and the bloom against the public values it claims, having first checked the initial ones.",
  IN,"all inputs and advice",kwhy,[K+"asm/main.asm",K+"asm/mpt/hash/",K+"asm/mpt/linked_list/"],[("main",K+"asm/main.asm")])
p("K10","Exceptional conditions consume the frame and revert it",
  "Every EVM fault (out of gas, invalid opcode, stack underflow or overflow, invalid jump, write protection) is validated by the kernel as genuine, consumes all gas of the faulting frame, reverts its state and reports failure to its caller; the prover can neither raise a spurious fault nor suppress a real one.",
  ["inputs","programs"],"all fault conditions",kwhy,[K+"asm/core/exception.asm",K+"asm/core/terminate.asm"],[("exception handlers",K+"asm/core/exception.asm")])
p("K11","Kernel-kept sets and lists find exactly what was stored",
  "The kernel's own collections (warm-access sets, transient storage, touched, created and self-destructed contract lists, account and storage linked lists) report an entry present exactly if one with that key was stored and not removed since, return the value stored last for it, keep entries from overlapping, and start every transaction or block as empty as the protocol prescribes.",
  ["inputs","histories"],"all sequences of insertions, lookups and removals",kwhy,[K+"asm/memory/transient_storage.asm",K+"asm/core/access_lists.asm",K+"asm/mpt/linked_list/"],[("transient storage",K+"asm/memory/transient_storage.asm"),("linked lists",K+"asm/mpt/linked_list/linked_list.asm"),("lists","core/touched_addresses.asm, core/selfdestruct_list.asm, core/access_lists.asm in "+K+"asm")])
# ---- state libraries
p("M01","Partial tries never look through or overwrite a hashed-out node",
  "Any insertion, deletion or subset extraction on a partial Merkle-Patricia trie that would have to descend into, or decide the shape of, a subtree known only by its hash returns an error (or follows the explicitly chosen orphan strategy) instead of silently producing a trie with a different root; the error reaches the caller.",
  ["inputs","histories"],"all tries, keys and operation sequences","Property is about every node-kind combination at every depth; tests sample random tries mostly without hash nodes on the touched path.",
  ["mpt_trie/src/trie_ops.rs","mpt_trie/src/trie_subsets.rs","mpt_trie/src/partial_trie.rs","evm_arithmetization/src/tries.rs"],[("insert/delete recursion","mpt_trie/src/trie_ops.rs"),("subset extraction","mpt_trie/src/trie_subsets.rs")])
p("M02","A trie always reports the hash of its present contents",
  "After any sequence of insertions, deletions, extensions (also ones that fail midway), in-place modifications, copies and subset extractions, the hash a partial trie reports, asked directly or as part of a larger trie, is the hash of what it contains at that moment; a cached hash never survives a change, and changing or hashing a copy never affects the trie it was copied from.",
  ["inputs","histories"],"all tries and operation sequences","Tests compare hashes after a few operations on tries whose cache is empty; a stale cache needs hashing, copying and changing in a particular order.",
  ["mpt_trie/src/partial_trie.rs","mpt_trie/src/trie_hashing.rs","mpt_trie/src/trie_subsets.rs"],[("cached hash","mpt_trie/src/partial_trie.rs HashedPartialTrie")])
p("M03","A trie node's encoding and hash are the ones Ethereum defines",
  "The encoding of every trie node (empty, leaf, extension, branch, and nodes known only by their hash) is Ethereum's: hex-prefixed path, RLP framing of payloads of every length, children inlined below 32 bytes and replaced by their keccak hash from 32 bytes on, and a trie's root is the keccak hash of its root node's encoding (the empty-trie hash for an empty trie).",
  IN,"all nodes","Tests compare the roots of sample tries, which rarely contain inlined children, values at the boundaries of the length encoding or hash nodes in every position.",
  ["mpt_trie/src/trie_hashing.rs","mpt_trie/src/nibbles.rs"],[("node encoding","mpt_trie/src/trie_hashing.rs")])
p("D01","Decoded pre-state covers everything a batch touches",
  "For each batch, every account and storage slot that decoding reads, writes, creates, credits or destroys, including pre-execution system updates and withdrawals, is kept in that batch's pre-state tries, as are neighbours needed to collapse deleted entries, and the transaction and receipt tries keep the batch's own index range.",
  ["inputs","histories"],"all block traces and batch sizes","The end-to-end tests that would notice a missing node need real block fixtures and sample few deletion shapes.",
  ["trace_decoder/src/core.rs"],[("masking","trace_decoder/src/core.rs middle")])
p("D02","Per-block effects happen exactly once, at the right batch",
  "However a block is split, pre-execution system updates apply only before the first transaction, withdrawals are credited and listed only with the last batch, dummy padding never advances the transaction index, and transaction numbers, cumulative gas, roots and checkpoint values handed to consecutive proofs link up without gap or overlap.",
  ["inputs","histories"],"all blocks and batch sizes","Tests use few blocks and batch sizes.",
  ["trace_decoder/src/core.rs"],[("batching","trace_decoder/src/core.rs batch, middle, entrypoint")])
p("D03","Malformed traces and witnesses are rejected, never silently mis-decoded",
  "Decoding a block trace reports to its caller every failing state operation, undecodable receipt, malformed pre-image, and missing code; the frontends accept exactly the witnesses that the witness format's stack machine gives a meaning, decoding them to the state, storage, hashed-out parts and codes they describe; and the byte parser accepts exactly the well-formed instruction streams and nothing panics on a malformed one.",
  IN,"all byte strings and traces","Tests use well-formed traces, plus a few malformed ones.",
  ["trace_decoder/src/wire.rs","trace_decoder/src/type1.rs","trace_decoder/src/type2.rs","trace_decoder/src/core.rs","evm_arithmetization/src/world.rs"],[("wire parser","trace_decoder/src/wire.rs"),("frontends","trace_decoder/src/type1.rs, type2.rs")])
p("D04","The trace's effects reach the state exactly",
  "The state after each batch is the state before it with exactly the balances, nonces, codes and storage values the batch's traces say written (zero deletes a slot), self-destructed accounts gone with their storage, new accounts of failed transactions left out, the withdrawals credited, and the beacon roots contract updated; a new account gets its storage before it is written; nothing else changes.",
  ["inputs","histories"],"all block traces and batch sizes","End-to-end tests need real fixtures; a wrongly skipped or repeated update only shows in a state root of a particular combination of trace parts.",
  ["trace_decoder/src/core.rs"],[("middle","trace_decoder/src/core.rs middle, do_pre_execution, do_withdrawals")])
p("D05","World operations change exactly what they name",
  "Each operation on a decoded world (balance, nonce, code, storage, creation, destruction, masking) changes the named account or slot and nothing else, for accounts and slots present or not; an account always commits to its storage; storage inconsistent with its account is refused; and on the world masked to the named path plus the path a deletion reports, the same operation leads from the same root to the same root.",
  ["inputs","histories"],"all tries, keys and operations","Whether a deletion collapses a branch into a neighbour that must be kept depends on the shape of the trie; the fixtures contain few such shapes.",
  ["evm_arithmetization/src/world.rs","evm_arithmetization/src/tries.rs","mpt_trie/src/special_query.rs"],[("worlds","evm_arithmetization/src/world.rs"),("collapse","evm_arithmetization/src/tries.rs delete_node_and_report_remaining_key_if_branch_collapsed")])
p("C01","Column views map every column exactly once",
  "Every typed view of a table row has exactly the size of the row, maps each field to a distinct fixed column, and can be converted to and from the raw row without reordering, so that constraint code, witness generation and cross-table declarations all mean the same column by the same name.",
  ["configurations"],"all column views and table widths","A padding or ordering mistake is undefined behaviour that happens to work on one compiler.",
  ["proc_macro/src/impls/columns.rs",E+"cpu/columns/",E+"keccak_sponge/columns.rs"],[("derive","proc_macro/src"),("views",E+"cpu/columns/general.rs")])
# ---- not applicable
p("N01","Every valid block is provable",
  "For every valid Ethereum block and witness, trace generation terminates and produces tables satisfying all constraints, for every segment length.",
  ["inputs","programs","configurations"],"all valid blocks","Tests sample a handful of blocks.",[E+"generation/",E+"witness/"],[("witness generation",E+"generation/mod.rs")])
p("N02","Cryptographic and arithmetic kernel routines compute the right values",
  "Precompiles and big-number routines (modular exponentiation, elliptic curves, pairings, SHA-2, RIPEMD, BLAKE2, point evaluation) return the mathematically correct result for every input.",
  IN,"all inputs","Tests sample inputs and compare with reference implementations.",[K+"asm/curve/",K+"asm/hash/",K+"asm/bignum/"],[("routines",K+"asm")])
p("N03","Kernel optimizer preserves program meaning",
  "The optimized kernel program behaves identically to the unoptimized one on every input.",
  ["programs"],"all kernel programs","Tests cover sample rewrites.",[K+"optimizer.rs",K+"stack/"],[("optimizer",K+"optimizer.rs")])
p("N04","Key encodings round-trip and the sparse trie hash is as specified",
  "For every key, its text, byte and integer encodings convert into each other without loss, and for every content the sparse Merkle trie's root equals the specified Poseidon hash of it.",
  IN,"all tries and keys","Tests compare random samples.",["mpt_trie/src/nibbles.rs","smt_trie/src/smt.rs"],[("keys","mpt_trie/src/nibbles.rs"),("sparse trie","smt_trie/src/smt.rs")])
p("N05","Block proving survives worker failures and retries",
  "The orchestration layer proves each requested block exactly once and in order, persists every proof it reports, and stops cleanly on errors, under every schedule of workers and failures.",
  ["schedules","fault_sequences"],"all task schedules and failures","No regular test exercises the orchestration layer.",["zero/src/prover.rs","zero/src/ops.rs"],[("orchestration","zero/src/prover.rs")])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
