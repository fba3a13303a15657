CHECKS = {f"A{i:02d}": ("checks_air", f"A{i:02d}") for i in range(1, 16)}
CHECKS.update({i: ("checks_circ", i) for i in ["T01", "T02", "R01", "R02", "R03", "R04", "R05", "R06", "R07"]})

AIR_T = "static analysis: abstract interpretation of the type-checked program's MIR (constant propagation plus polynomial value numbering)"
AIR_N = ("Decides that the table's constraint set, lookups and relation sides are, as normalised polynomials, exactly the reviewed specification; "
         "that the specification implies the behaviour was reviewed by hand, not mechanised. Trusts rustc's MIR and the transfer functions for field and circuit primitives.")
NOTES = {f"A{i:02d}": (AIR_T, AIR_N) for i in range(1, 16)}
NA = {
    "N01": "completeness for every block quantifies over unbounded executions and witness values; no static argument in reach bounds it",
    "N02": "numerical correctness of number-theoretic routines on every input quantifies over runtime values",
    "N03": "equivalence of two kernel programs on every input is a value-level property with no structural necessary condition beyond the rewrite rules themselves",
    "N04": "round-tripping of key encodings and the Poseidon-based sparse trie root are numerical equalities over all values",
    "N05": "depends on runtime schedules of a distributed task runtime that cannot be built offline here",
}
CIRC_T = ("static analysis: abstract interpretation of the type-checked program's MIR on symbolic targets (circuit builder, transcript and serializer calls "
          "as transfer functions; targets as polynomials)")
NOTES.update({i: (CIRC_T, "Decides that every reviewed relation, embedded verification, exposed public input and transcript item is still imposed, independently of "
                  "statement order and of extracted helpers. That the reviewed relations imply the property was established by hand. Trusts rustc's MIR and the "
                  "transfer functions for plonky2/starky primitives; additional relations (completeness) are not judged.")
              for i in ["R01", "R02", "R03", "R04", "R05"]})
NOTES["T01"] = (CIRC_T, "Decides native/circuit transcript equality, that each public value is absorbed exactly once, and that commitments and public values precede every challenge.")
NOTES["T02"] = (CIRC_T, "Decides that the native and circuit memory contributions are exactly the reviewed accesses and that memory commitments are those of the continuation tables.")
NOTES["R06"] = (CIRC_T, "Decides agreement of registration, both parsers, assignment, select, connect and conditional equality for every public field.")
NOTES["R07"] = (CIRC_T, "Decides that reader and writer sequences agree in kind, order and number and that each field is restored from its own item, for fixed small collection sizes.")
CHECKS.update({f"K{i:02d}": ("checks_kern", f"K{i:02d}") for i in range(1, 12)})
KERN_T = ("static analysis: relational abstract interpretation of the expanded kernel program (symbolic words with linear normal forms, versioned memory, "
          "per-routine summaries) against a reviewed reference listing")
KERN_N = ("Decides, routine by routine and on every path, that the kernel program takes the same actions on the same operands as the reviewed listing, for the routines the "
          "property speaks about, independently of instruction order, stack shuffling, macro structure, label names and extracted helpers. That the reviewed listing has the property "
          "was established by hand. Loop bodies restructured with a different induction variable are reported. Default features (eth_mainnet) only.")
NOTES.update({f"K{i:02d}": (KERN_T, KERN_N) for i in range(1, 12)})
CHECKS["C01"] = ("checks_views", "C01")
NOTES["C01"] = ("static analysis: layout computation over the type-checked program plus constant propagation through every conversion between a view and its row",
                "Decides layout (C layout everywhere, each column covered once, union variants whole), every conversion, index and accessor on the row 0..N, and every constant column map. "
                "Tables addressed by plain index constants (arithmetic, keccak, memory continuation) have no view; their layout is decided with their constraints (A01, A08, A12).")
CHECKS["W01"] = ("checks_wit", "W01")
NOTES["W01"] = ("static analysis: constant propagation through the type-checked decode, flag, gas and mnemonic functions for all 512 opcode/mode pairs, "
                "checked against the polynomial normal forms of the CPU constraints and the kernel's tables",
                "Decides agreement for every opcode in both modes of decoding, flag, gas, stack change, overflow check, kernel bit sets, kernel tables and mnemonics. "
                "How the witness generator fills the remaining cells of a row is not judged. Default features (eth_mainnet) only.")
CHECKS["T03"] = ("checks_ver", "T03")
NOTES["T03"] = ("static analysis: abstract interpretation of the type-checked program's MIR on a symbolic proof, in every scenario of used, unused, missing and undeclared tables, "
                "public commitments and failing sub-checks (sub-verifications as transfer functions that record their operands)",
                "Decides that acceptance implies every obligation with the right operands and that each failing sub-check, wrong commitment or missing proof is rejected. The proof is "
                "symbolic, with fixed small collection sizes. Trusts rustc's MIR and the plonky2/starky sub-verifiers.")
CHECKS.update({i: ("checks_mpt", i) for i in ["M01", "M02", "M03"]})
MPT_T = ("static analysis: abstract interpretation of the type-checked program's MIR on tries abstracted by node kind, by how the key and the node's path part, and by what the "
         "recursive call may return (an induction hypothesis per kind of result), with keccak as an uninterpreted injective function")
NOTES["M01"] = (MPT_T, "Decides every step of the recursion of insert, delete and subset extraction against the definition; the induction over depth is the argument that carries it to all "
                "tries. Paths are short representatives of each way key and path can part; all keys have the same length, as in Ethereum's tries; extraction is decided on one trie with every node kind.")
NOTES["M02"] = (MPT_T, "Decides, for every operation that changes, copies, makes or lends out a trie, that the cached hash afterwards is that of the contents, in each state of cache and copies, "
                "including operations that fail midway. Hashes restored by deserialization are taken from the input and not judged.")
NOTES["M03"] = (MPT_T, "Decides the encoding of every node kind, both parities of path length, inlined and hashed children at the boundary of 32 bytes and payload lengths at every boundary of the "
                "length encoding; that other lengths behave alike is not decided. The keccak function itself is not judged.")
CHECKS.update({i: ("checks_dec", i) for i in ["D01", "D02", "D03", "D04"]})
DEC_T = ("static analysis: abstract interpretation of the type-checked program's MIR on blocks abstracted by the shape of each account's trace and by the layout of batches, against an "
         "uninterpreted world (every state operation is an effect that is recorded; keccak is an uninterpreted injective function); the effects are compared with the trace's meaning")
NOTES["D01"] = (DEC_T, "Decides every combination of the parts of one account's trace (balance, nonce, reads, writes, code, self-destruction; known and new accounts; success and failure) and selected "
                "combinations of transactions, batches and withdrawals; the decoder never inspects the values, which stand for any. Traces with more accounts per transaction than the analysed ones are argued by "
                "uniformity of the loops, not decided. Default features (eth_mainnet) only: the other chain's scalable hook is not analysed.")
NOTES["D02"] = (DEC_T, "Decides the same shapes for what each batch is given, and the linking of the generation inputs for selected layouts of dummy, padded and full batches. " + NOTES["D01"][1].split(". ")[-1])
NOTES["D04"] = (DEC_T, NOTES["D01"][1])
NOTES["D03"] = (DEC_T + "; the witness frontends on every short program over the format's instructions", "Decides that each failing world operation, at whichever point, fails the decoding; the frontends on all "
                "programs of up to two instructions and of two values and a consumer, and selected longer ones; the byte parser on each form of each instruction and each proper prefix. Longer programs and other byte "
                "values are argued by uniformity, not decided. The documented panics of the type 2 frontend are outside.")
CHECKS["D05"] = ("checks_dec", "D05")
NOTES["D05"] = ("static analysis: abstract interpretation of the type-checked program's MIR on tries whose keys part in each way that tries distinguish (keccak is an uninterpreted injective function whose "
                "values are chosen), compared with the operation's definition", "Decides each operation on tries of up to four accounts or slots: keys that part in the last, last but one and last but two nibble, so that "
                "each kind of sibling (leaf, extension, branch) meets each operation. Deeper tries behave alike by M01's induction. The sparse trie's root is not judged, nor is the second world's code hashing.")
