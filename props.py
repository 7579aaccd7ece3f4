"""registry: what decides each property"""
TECHNIQUE = "symbolic execution of the compiled crate (rustc LLVM IR) with Z3, counterexamples replayed natively and under Miri"
NOTE = ("Bounded: %s. Within the bounds every path is explored and every assertion, memory access and allocator call is decided by Z3 "
        "for all values, on optimised-semantics IR and on IR with debug assertions and overflow checks. Trusts rustc's LLVM IR, the "
        "executor (validated on every run by replaying sampled paths natively and comparing all observations) and Z3.")
CONC_TECHNIQUE = "symbolic execution of every thread's compiled code (rustc LLVM IR) with Z3, then one SMT query per combination of paths over the C11 axioms; counterexamples replayed on the instrumented compiled code"
CONC_NOTE = ("Bounded: %s. For every choice of one path per thread Z3 decides whether any consistent C11 execution (reads-from, modification order, "
             "happens-before) has a data race, a use after release, a double release, a leak, a failed assertion or an endless wait. Trusts rustc's LLVM IR, "
             "the executor and the axioms (validated on every run: executions the solver calls consistent are run on the compiled code, whose runtime checks "
             "coherence and races on its own) and Z3; SeqCst counts as AcqRel.")
ASSUMPTIONS = [
    "the harness crate instantiates the generic code with the element types listed in the harness (a checked 8-byte token, zero-sized, over-aligned, byte and larger types)",
    "model allocators satisfy GlobalAlloc and serve requests up to 64 KiB, refusing larger ones (C22 lets any request fail)",
    "aliasing rules (Stacked/Tree Borrows) are not part of the properties",
]
CONC_ASSUMPTIONS = [
    "memory model: the C11 axioms (coherence, atomicity of updates, release sequences, fences) without the total order of SeqCst, which only allows more executions; no load buffering, no out-of-thin-air values",
    "the threads of a scenario start after its setup and are joined before its final function",
]
NA = {
    'C25': "whether a program compiles is decided by the type system and leaves nothing in the compiled code to execute symbolically; Envelope is Send for any content by design and its soundness is a question of types",
}
PROPS = {
    'C01': {'modules': ['vec_edit', 'large_vec'], 'bounds': 'one or two operations on every vector of length <= 4 and spare capacity <= 2, any indices and element values; lengths 7, 16, 17, 33, 64, 65, 130, 260 at six positions, adding up to 70 elements; clone_from between vectors of every length <= 3 and spare capacity'},
    'C02': {'modules': ['filter', 'large_filter'], 'bounds': 'every vector of length <= 5 (heap and inline), every answer sequence of the callbacks; lengths 7 to 260 (inline capacity 33) with ten answer patterns'},
    'C03': {'modules': ['drain', 'large_drain', 'ways_drain'], 'bounds': 'every vector of length <= 4, every range form with any 64-bit bounds, every sequence of steps; lengths 7 to 260 (inline capacity 33) with six ranges and five ways to take; two steps of any size from either end (nth, nth_back), then any of eleven consuming calls'},
    'C04': {'modules': ['intoiter', 'large_into', 'ways_into'], 'bounds': 'every vector of length <= 4, every sequence of steps from both ends, stopped anywhere; lengths 7 to 260 with six ways to take; two steps of any size from either end (nth, nth_back), then any of eleven consuming calls'},
    'C05': {'modules': ['own', 'large_own'], 'bounds': 'every sequence of 2 operations (3 conversions) out of 12 on every state of length <= 3, element types: token, zero-sized, over-aligned; two of nine operations in a row on lengths 17 to 64'},
    'C06': {'modules': ['cap', 'huge'], 'bounds': 'elements without size: any 64-bit length and argument, one of 17 operations; any 64-bit amount, length <= 3, capacity <= 5, element sizes 0, 1, 8, 24, 32, 2048'},
    'C07': {'modules': ['contract', 'raw'], 'bounds': 'scope pointers to one value or to arrays of up to 3 elements (thorough: 4) resized twice; every sequence of 2 operations out of 8 to 12 on every small state, for every container type, element types of size 0, 1, 3, 8 and 32 (over-aligned)'},
    'C08': {'modules': ['sel', 'raw'], 'bounds': 'scope pointers used directly as in C07; markers none, A, B; creation, growth, conversion and drop each inside or outside a nested scope; up to 5 elements'},
    'C09': {'modules': ['spawn', 'deep'], 'bounds': 'nesting depth 2 (thorough: 3), a return or a panic at every level, any choice of allocators per level; two environments (threads) with one spawn in each or two in one; scopes whose construction spawns and whose destructor allocates or panics; depths 3 to 65 and up to 130 scopes in a row with panics at chosen levels'},
    'C10': {'modules': ['sv_edit', 'large_sv'], 'bounds': 'one operation on every small vector of inline capacity 2 and length <= 4 in each storage mode, two operations for inline capacities 0, 1, 2 (three: thorough), any 64-bit index; inline capacity 33 with lengths 7 to 260 at six positions, adding up to 70 elements; clone_from between every length <= 3 and storage mode'},
    'C11': {'modules': ['sv_spill'], 'bounds': 'inline capacities 0, 2, 3, every length, one or two growing operations out of ten, any 64-bit reservation'},
    'C12': {'modules': ['str_edit', 'large_str'], 'bounds': 'every string of up to 3 characters of any encoded lengths, any character, any 64-bit byte position, every retain pattern; sequences of two edits on strings of one character (thorough: two); strings of 9 and 36 characters of mixed widths with one arbitrary character'},
    'C13': {'modules': ['str_conv', 'large_conv'], 'bounds': 'all byte sequences up to 4 (thorough: 5), all code unit sequences up to 3 (4), all strings of up to 3 characters; texts of 7 to 120 characters around two arbitrary bytes or code units'},
    'C14': {'modules': ['boxes', 'large_own'], 'bounds': 'every value of eight layouts, boxed slices of up to 4 elements with spare capacity up to 3, sequences of up to 3 steps; boxed slices of 7 to 260 elements'},
    'C15': {'modules': ['rc_hist', 'many_rc'], 'bounds': 'every history of 5 steps (thorough: 6) out of six operations on up to 3 strong and 3 weak references, starting with 1 or 2 strong and 0 or 1 weak; self-referring values; 1 to 300 strong and up to 300 weak references that go in four orders'},
    'C16': {'modules': ['rc_excl', 'many_rc'], 'bounds': 'every configuration of up to 3 strong and 2 weak references, up to three exclusive-access operations, or one with an ordinary step before and after (thorough: two steps before); one of up to 300 references asks for exclusive access'},
    'C17': {'modules': ['arc_seq', 'many_arc'], 'bounds': 'every history of 5 steps (thorough: 7) on up to 3 strong and 3 weak references; up to three exclusive-access operations on every configuration; 1 to 300 strong and up to 300 weak references that go in four orders, one of them asking for exclusive access'},
    'C18': {'engine': 'conc', 'modules': ['conc_arc'], 'bounds': 'two threads with one reference each and any of nine uses of it, or a step and then exclusive access; one strong reference against a weak one; three threads that read and drop; exclusive access against a reader and a weak reference in two more threads, or against two more threads that read, clone or downgrade and drop; one failed round of each retry loop (thorough: two, and two steps against any use) and one spurious failure per thread; every interleaving and every C11 visibility'},
    'C20': {'engine': 'conc', 'modules': ['conc_urc'], 'bounds': 'two threads with one fence each and any of ten uses of it, with weak references on both, or a step and then exclusive access; three threads that read and drop; exclusive access against a reader and a weak fence in two more threads, or against two more threads that read, clone or downgrade and drop; one failed round of each retry loop (thorough: two, and two steps against any use) and one spurious failure per thread; every interleaving and every C11 visibility'},
    'C19': {'modules': ['urc_seq', 'many_urc'], 'bounds': 'every history of 4 steps (thorough: 6) on up to 4 strong and 3 weak references over any fences; up to two exclusive-access operations and fence conversions on every configuration of two fences, with ordinary steps around them; 1 to 300 strong and weak references of one fence, up to 257 fences, that go in four orders'},
    'C21': {'modules': ['cmp', 'large_cmp'], 'bounds': 'vectors and small vectors of up to 3 elements (comparisons of pairs: 2 each, thorough 4), strings of up to 2 characters (pairs: 1 each, thorough 2), any 64-bit index or range bound, every storage mode and spare capacity up to 3; lengths 7, 33, 65, 260 that differ at one of six positions or in length; formatting of up to 2 elements or characters with twelve option sets'},
    'C22': {'modules': ['oom', 'large_oom'], 'bounds': 'every request of every operation may be refused; one operation on every vector, small vector and string of up to 3 elements (1 character), two operations on the smallest states (thorough: up to 2 elements); pointers with every combination of a second strong and a weak reference; lengths 17 to 64, every request may be refused'},
    'C23': {'modules': ['panics', 'large_panic'], 'bounds': 'every state of up to 4 elements (thorough: 6), strings of up to 2 characters (thorough: 3), a panic at any call of a predicate, key, comparison, constructor, clone, iterator or (one) destructor; lengths 17, 33, 64 with a panic at one of six calls or elements'},
    'C24': {'modules': ['iters', 'large_iter'], 'bounds': 'iterators of up to 4 items with any 64-bit lower and upper size hint, containers of up to 3 elements in every storage state; iterators of 7 to 260 items with six kinds of claim'},
}
