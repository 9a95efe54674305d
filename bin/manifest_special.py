SPECIAL.update({
    "C13": dict(
        technique="explicit-state model checking: the same exhaustively enumerated states and transitions explored on four builds of the real code (portable, AVX2, AArch64 and WebAssembly on software intrinsics) and every answer compared",
        note="The four board backends explore identical complete families and trees; a digest of every public answer is compared chunk by chunk and a difference is narrowed to one history. The AArch64 and WebAssembly sources run with their vector instructions replaced by software versions written from the instruction set manuals (shims/), so a fault of real hardware or of the compiler for those targets is out of reach."),
    "C15": dict(
        technique="explicit-state model checking: every program up to a length over several positions (queries, moves, take-backs, clones, in every interleaving) run on the real code and compared with isolated runs"),
    "C16": dict(
        technique="stateless model checking of the compiled real code: dynamic partial-order reduction over all interleavings of small multi-threaded programs under a controlled scheduler, with race, deadlock and livelock detection",
        note="Every memory access of the library and of once_cell is a scheduling point; all inequivalent interleavings up to three reversed races are executed, each in a fresh process, and every answer compared with the sequential one. Sequential consistency only (weak-memory effects are covered through the happens-before race check); the precompiled standard library is atomic between its futex calls."),
    "C18": dict(
        technique="explicit-state model checking: complete enumeration of the game tree to depth 6 in the model, compared with the tool's printed counts for every first move",
        note="Depths 1 to 6 (quick and thorough), both builds, each printed line and the total."),
    "C20": dict(
        technique="explicit-state model checking of the real code: complete families of states and move sequences executed under monitors for undefined behaviour (Miri interpreter, AddressSanitizer, debug assertions), and all interleavings of small concurrent programs under a race monitor",
        note="The monitors judge each enumerated execution; nothing is claimed outside the enumerated families. Miri covers small families on all four backends (AArch64 and WebAssembly with software vector instructions); the native monitors cover large ones on the x86-64 backends."),
})
