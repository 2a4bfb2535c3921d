"""Metadata of the registered checks (used by check.py and tools/gen_manifest.py)."""
TECH = "stateless model checking of the real code: exhaustive depth-first enumeration of choice sequences within bounds, compared step by step with a reference model, under ASan/UBSan"
NOTE = ("Complete within the stated bounds (every choice sequence is executed on the real code, nothing sampled); outside the bounds nothing is claimed. "
        "Trusts the harness's reference model, the compiler and the sanitizers.")
CHECKS = {
    "C01": dict(level="model_checking", technique=TECH, note=NOTE,
                bounds="histories of up to 4 operations (thorough 5) from a 17-operation alphabet over two vectors of one type and one of another, 3 start states; all 3-step resize paths over 16 sizes up to 4099; int, int64, float, double, long double, complex elements",
                assumptions=["element types are trivially copyable arithmetic or complex types, as the container documents"]),
    "C02": dict(level="model_checking", technique=TECH, note=NOTE,
                bounds="histories of up to 3 operations (thorough 4) from a 22-operation alphabet over two matrices of one type and one of another; all 2-step resize paths for shapes up to 4x4 (5x5), all pairs of 10 dimensions up to 65; every self-window of every shape up to 5x5; nested lists of every shape up to 4x4 and ragged ones; element types as C01"),
    "C03": dict(level="model_checking", technique=TECH, note=NOTE, bounds="base shapes up to 4x4 (thorough 6x6), every window start and end including ends past the matrix, 5 ways of constructing views; every row/column-excluding view up to 6x6 (8x8); 12 assignment sources; every operand kind (matrix, view, view of view, excluding view, constant views) in a digest of all reading operations; histories of 4 (6) operations from 12; views that follow a resized, assigned, swapped or reshaped matrix; every source shape up to 4x4 (refusal without effect)"),
    "C04": dict(level="model_checking", technique=TECH, note=NOTE, bounds="all shapes up to 4x4 (6x6) and strips past 64 elements, 6 operand kinds on either side, every pair of a menu of element types (int, int64, float, double, long double, complex) with contents that a narrower intermediate cannot hold, every operator including scalars, compound forms, scalars living inside the operand, and the element-wise functions; operands of 1 to 300 elements and more (long shapes) with one differing position; all 64 ordered pairs of eight element types, conversions included", sources=["C04_a.cpp","C04_b.cpp","C04_c.cpp","C04_d.cpp","C04_e.cpp","C04_t1.cpp","C04_t2.cpp","C04_t3.cpp","C04_t4.cpp"]),
    "C05": dict(level="model_checking", technique=TECH, note=NOTE, bounds="all conforming shapes up to 4 (6) per dimension plus long inner dimensions, 6 operand kinds, mixed element types; every content is chosen so that the product is exact in the common type (int64 and long double ones only there); vectors of every length class up to more than a thousand, long exponents; all 64 ordered pairs of eight element types; every exponent up to 130 (299) and 16 up to 131075", sources=["C05_a.cpp","C05_b.cpp","C05_c.cpp","C05_d.cpp","C05_t1.cpp","C05_t2.cpp"]),
    "C06": dict(level="model_checking", technique=TECH, note=NOTE, bounds="every pair of shapes 0..4 (0..5) for every binary operation, every out-of-range start/end/dimension/exponent for the unary ones; rejection and unchanged operands required", sources=["C06_a.cpp","C06_b.cpp","C06_c.cpp"]),
    "C07": dict(level="model_checking", technique=TECH, note=NOTE, bounds="19-value grid squared times the tolerances, shapes up to 4x4 (6x6) and 5 large ones with a single differing position, histories of 5 (7) tolerance changes and comparisons, 3 (5) across two translation units; long shapes; long double and mixed-width comparisons; all 52 comparable ordered pairs of eight element types; the largest and smallest numbers, infinities and not-a-number", sources=["C07.cpp","C07_b.cpp"]),
    "C08": dict(level="model_checking", technique=TECH, note=NOTE, bounds="every 0/1 matrix and every matrix over a small alphabet of small shapes, and every (base, position, delta) single-entry departure from a matrix with the property; departures far from the diagonal in shapes up to 130; int, double, long double and complex elements"),
    "C09": dict(level="model_checking", technique=TECH, note=NOTE, bounds="every 3-symbol matrix up to 3x3, every 4x4 bit matrix, a structured menu of sizes 5-7 (8), every permutation matrix up to 6 (7), scaled by powers of two; exact rational determinant as the oracle; entries of 2^-3 to 2^-46 at every position; int64 and long double contents of up to 62 bits; well-conditioned matrices of six forms at fourteen sizes from 8 to 65"),
    "C10": dict(level="model_checking", technique=TECH, note=NOTE, bounds="every alphabet matrix up to 3x3, structured menu up to 6 (7), singular ones included; exact adjugates and inverses as the oracle; int64 and long double contents of up to 62 bits; well-conditioned matrices of six forms at sizes 7-17 (24)"),
    "C11": dict(level="model_checking", technique=TECH, note=NOTE, bounds="every alphabet matrix up to 3x3, structured menu up to 6 (7); real and complex types up to long double; well-conditioned matrices of four forms at twelve sizes from 7 to 65"),
    "C12": dict(level="model_checking", technique=TECH, note=NOTE, bounds="every alphabet matrix up to 3x3, structured menus of tall shapes up to 7 (9) rows, rank-deficient ones included, several magnitudes, elements of very different size side by side; int, int64, float, double and long double elements"),
    "C13": dict(level="model_checking", technique=TECH, note=NOTE, bounds="every alphabet system up to 3x3, structured menu of shapes up to 6x6 (7x7), magnitudes and right-hand sides; nearly dependent (Laeuchli) systems with entries down to 2^-24; int, int64, float, double and long double; square, tall and wide systems of 7 to 17 (20) unknowns in six forms"),
    "C14": dict(level="model_checking", technique=TECH, note=NOTE, bounds="all conforming shapes up to 4 (6) per dimension, every operand kind, empty operands, mixed element types; nine operations on long shapes; all 64 ordered pairs of eight element types", sources=["C14_a.cpp","C14_b.cpp","C14_t1.cpp","C14_t2.cpp"]),
    "C15": dict(level="model_checking", technique=TECH, note=NOTE, bounds="shapes 0-6 (0-8) in both dimensions, every operand kind, every element type; long shapes"),
    "C16": dict(level="model_checking", technique=TECH, note=NOTE, bounds="shapes 0-6 (0-8) and lengths up to 65; every alphabet content of the small ones; every position of the extreme value; long shapes with the hit at chosen positions; first differences, hits and extremes at the limits of the 8- and 16-bit positions in 70001 elements"),
    "C17": dict(level="model_checking", technique=TECH, note=NOTE, bounds="shapes 0-6 (0-8) and lengths up to 65, magnitudes 2^-480..2^480, every operand kind; long shapes and lengths up to more than a thousand"),
    "C18": dict(level="model_checking", technique=TECH, note=NOTE, bounds="every sequence of 1-3 (4) objects (vector/matrix, 5 element types, several shapes and contents) written and read back through files, with each format setting; int64, long double, complex long double and unsigned extremes; files of up to some thousand rows or elements"),
    "C19": dict(level="model_checking", technique=TECH, note=NOTE, bounds="every byte position of every written file as a cut, every token replaced by each of a menu of malformed tokens, receivers of every kind of earlier state"),
    "C20": dict(level="model_checking", technique=TECH, note=NOTE, bounds="shapes 0-5 (0-7), every content of the small ones over 7 values, every precision and number format of the stream, models; MATLAB text parsed by an independent reader, C++ text compiled and run; long shapes with a wide element at chosen positions; int64 and long double contents, also to 21 digits"),
    "C21": dict(level="model_checking", technique=TECH, note=NOTE, bounds="1x1 grids, every 2x2 over 6 (7) values, every 3x3 over 3 values, structured n up to 6 (8) by 8 scales by 5 accuracies, sizes 9-20; long-double reference; norms up to the overflow limit; long double and complex long double with their own accuracies; sizes 25 and 33"),
    "C22": dict(level="model_checking", technique=TECH, note=NOTE, bounds="models of n up to 6 (7), inputs and outputs up to 3, 6 sample times, time constants over twelve decades, singular and non-singular state matrices; float, double, long double and complex; models of 8 to 12 (17) states"),
    "C23": dict(level="model_checking", technique=TECH, note=NOTE, bounds="models of n up to 4 (5), up to 5 (8) inputs, every input history over 3 letters of length up to 3 (4), lengths up to 4097, all orders of times; long double times; every pattern of zeros of each of A, B, C, D, the state and the inputs of models of 2 (3) states; times one rounding above and below a whole number of samples; runs of 20000 steps"),
    "C24": dict(level="model_checking", technique=TECH, note=NOTE, bounds="models of n up to 6 (8) and up to 5 inputs/outputs, all misfit shapes up to 4 (5); int, int64, float, double, long double and complex elements, contents beyond 2^53; models of 7 to 24 (33) states"),
    "C25": dict(level="model_checking", technique=TECH, note=NOTE, bounds="every multiset of up to 4 (6) roots over 7 values, every 3x3 over 3 values, structured menu up to n 7 (9); int64, long double and complex elements with coefficients beyond 2^53; matrices of 7 to 20 rows"),
    "C26": dict(level="model_checking", technique=TECH, note=NOTE, bounds="every pair over alphabets up to n 4, companion forms up to n 6 (8), all shape combinations 0-3 (0-4) of the six dimensions; every multiset of 6-7 poles (roots of unity included) on chains of 2-4 (5) states; rings of up to 12 (16) states", ldflags=["-Wl,--wrap=exit"]),
    "C27": dict(level="model_checking", technique=TECH, note=NOTE, bounds="12 end values squared by 11 counts by 2 tolerances, every element type, every size and step of a grid; factorials of floating type to 100! (170!)"),
    "C28": dict(level="model_checking", technique=TECH, note=NOTE, bounds="8x8 words of controlled entropy, shapes 0-5 (0-8) and up to 65x64, 8 ranges per type, 512 (4096) seeds by 4 families"),
    "C29": dict(level="model_checking", technique=TECH, note=NOTE, bounds="7 values per part (so 49 complex numbers squared), 45 pairs of element types, 4 operators, both operand orders"),
    "C30": dict(level="model_checking", technique=TECH, note=NOTE, bounds="every 2x2 over 7 values, 3x3 over 3 values, structured menu up to n 6 (8), n up to 9 (12) by 13 scales, triangular up to 4 (5); graded and extremely scaled matrices; six forms at sizes 10-33 (48)"),
    "C31": dict(level="model_checking", note=NOTE, sources=["C31.cpp", "C31_ops.cpp"], plain=True, budget_quick=400,
                technique="stateless model checking of the real code in real threads: a controlled scheduler owns every switch (compiler-inserted callbacks before each memory access, atomic, lock and guarded initialisation), all schedules up to a preemption bound are enumerated, each in a fresh process, with vector-clock race detection and comparison with the operation alone",
                source_flags={"C31.cpp": ["-O2"], "C31_ops.cpp": ["-fsanitize=thread", "-fno-builtin"]},
                ldflags=["-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc free memcpy memmove memset pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once sched_yield".split())],
                bounds="2 threads with one operation each: every pair of 98 operations on 3 (thorough 8) combinations of 6 inputs (up to 9x10), 1-2 (3) preemptions; 2 threads with two operations each and 3 threads: every operation with itself, 1-2 (4) preemptions; switch points are all accesses to memory outside the thread that some operation writes, all atomics on it, locks and initialisation guards; all of them first without any preemption, where the clocks alone decide",
                assumptions=["sequentially consistent memory between switch points (ordering errors are found as unordered conflicting accesses instead)", "the standard library's own code is not instrumented", "the process-wide comparison tolerance is not changed while threads run"],
                counts="'traces_validated_against_impl' are executions (one schedule each) of the real code in real threads; 'transitions' are operations and switch points; 'states' are distinct programs (operation, input, operation, input)."),
    "C32": dict(level="fault_enumeration", note=NOTE, ldflags=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"],
                technique="exhaustive fault enumeration (explicit-choice model checking of the real code): every allocation of every operation of the menu is made to fail, alone, with all later ones, and in every pair",
                rule="an evaluation is one execution of an operation with a chosen set of failing allocations, followed by its repetition without failures; distinct_nontrivial counts distinct (operation, input, failing allocations) in which at least one allocation did fail",
                bounds="97 operations by 6 inputs (up to 9x10), every allocation k: k alone, k and all later, k with each of the next 40; 24 object-changing operations after each pair of two others, every allocation"),
    "C33": dict(level="model_checking", technique=TECH, note=NOTE, sources=["C33.cpp", "C33_rm.cpp", "C33_cm.cpp"], prepare="column_major",
                source_flags={"C33_cm.cpp": ["-Dmalg=malg_columns", "-I@BUILD@/column"]},
                bounds="101 operations by 6 inputs (up to 9x10) in both storage orders; every history of 4 (thorough 5) from 22 operations on 2 (5) start states, of 3 (4) from a 9x10 one, the two builds in lock step",
                counts="Every trace executes the real code twice, built with row-major and with column-major storage, in lock step; 'states' are distinct contents of the objects, 'transitions' operations executed."),
    "C34": dict(level="model_checking", technique=TECH, note=NOTE, flags=["-ftrivial-auto-var-init=uninitialized"], ldflags=["-Wl,--wrap=malloc,--wrap=realloc"],
                bounds="every ordered pair of 101 operations by 6 inputs, up to 9x10 (operands at the same addresses), every sequence of 3 from a core of 31 on 2 (thorough 3) inputs, four times the same operation on every combination of 6 inputs, 6 contents of fresh heap and stack memory; thorough: every sequence of 4 from the core; each operation on 2 (5) inputs before, with and after a change of every single element of them",
                assumptions=["a fresh process is a forked one in which no library operation has run"]),
}
