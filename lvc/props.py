"""What each property's check runs: the contract modules (specs) and the native
driver used to look for a concrete failing input (and as a labelled bounded
stand-in for what is outside the verifier's reach)."""
def FIND(n): return n.startswith(("elem", "find"))
PROPS = {
    "C01": dict(specs=["spec_vector"], drivers=[("vector.cpp", [])],
        note="Every public Vector operation is verified against a sequence contract for every length, capacity, index, value and argument aliasing; histories follow by induction over the representation invariant."),
    "C02": dict(specs=[("spec_arrvec", lambda n: n.startswith("av"), ["-DCAP=5"]), ("spec_arrvec", lambda n: n.startswith("av"), ["-DCAP=1000"])], drivers=[("vector.cpp", ["-DARRVEC"])],
        note="Every public ArrVec operation against a bounded-sequence contract, instantiated with capacities 5 and 1000 (the proofs are uniform in the capacity: loops are cut by invariants)."),
    "C03": dict(specs=[("spec_arrvec", lambda n: n.startswith("ar"), ["-DCAP=5"]), ("spec_arrvec", lambda n: n.startswith("ar"), ["-DCAP=1000"])], drivers=[("array.cpp", [])],
        note="Every public Array operation against its contract, instantiated with sizes 5 and 1000."),
    "C04": dict(specs=["spec_string", ("spec_string", None, ["-DCH=wchar_t", "-DCHW=32"])], drivers=[("string.cpp", [])],
        note="Every public String operation (and the StringView constructors and comparison) against a sequence of characters with room for the terminator, for every length, capacity, position, count, content (embedded NULs included) and self-aliasing argument; char and wchar_t."),
    "C05": dict(specs=[("spec_views", None, ["-DCAP=5"]), ("spec_views", None, ["-DCAP=1000"])], drivers=[("prelude.cpp", ["-DP_VIEW"])],
        note="Views (ArrView, VecView) and the slicing functions head/last/tail/init/take/drop/slice/take_while/drop_while against 'a window onto the source's own elements', for every source kind, length and bound."),
    "C06": dict(specs=[("spec_cyclic", lambda n: n.startswith("cb"), ["-DCAP=5"]), ("spec_cyclic", lambda n: n.startswith("cb"), ["-DCAP=1000"])], drivers=[("cyclic.cpp", [])],
        note="Every public Vcb operation against 'the last n values, oldest first', for every rotation, with capacities 5 and 1000."),
    "C07": dict(specs=[("spec_cyclic", lambda n: n.startswith("cq"), ["-DCAP=5"]), ("spec_cyclic", lambda n: n.startswith("cq"), ["-DCAP=1000"])], drivers=[("cyclic.cpp", ["-DQUEUE"])],
        note="Every public Vcq operation against a bounded FIFO, for every rotation and fill, with capacities 5 and 1000."),
    "C08": dict(specs=[("spec_enum", None, ["-DNALT=%d" % n]) for n in (128, 65, 64, 33, 32, 17, 16, 9, 8, 5, 4, 3, 2, 1)], drivers=[("enum.cpp", [])],
        note="Every public Enum operation over opaque alternatives of different sizes, for every held alternative (and every pair of them up to 9 alternatives, 6 pairs per alternative above), with 1 to 128 alternatives covering every arm of every dispatch switch."),
    "C09": dict(specs=["spec_maybe"], drivers=[("enum.cpp", ["-DMAYBE"])],
        note="Every public Maybe operation in both states, with opaque user functions; the functor and monad laws are checked on the real combinators, for every value and function."),
    "C10": dict(specs=[("spec_prelude", lambda n: not FIND(n), ["-DCAP=5"]), ("spec_prelude", lambda n: not FIND(n), ["-DCAP=1000"])], drivers=[("prelude.cpp", ["-DP_MAP"])],
        note="map, map_with_index, filter, foldl, foldr, the for_each family, from_function, for_index, compose against their definitions with uninterpreted user functions, over Vector, ArrVec, Array and an opaque user sequence known only by length/nth."),
    "C11": dict(specs=[("spec_append", None, ["-DCAP=5"]), ("spec_append", None, ["-DCAP=1000"])], drivers=[("prelude.cpp", ["-DP_APPEND"])],
        note="append, concat, intercalate and the cartesian family against their definitions through offset functions, over owning, static and opaque user sequences."),
    "C12": dict(specs=[("spec_prelude", lambda n: FIND(n) or n == "lemma_count", ["-DCAP=5"]), ("spec_prelude", lambda n: FIND(n) or n == "lemma_count", ["-DCAP=1000"])], drivers=[("prelude.cpp", ["-DP_FIND"])],
        note="elem, elem_index, elem_indices, find, find_index, find_indices against a counting function, with an uninterpreted predicate / equality, over Vector, ArrVec, Array and an opaque user sequence."),
    "C13": dict(specs=[("spec_sort", lambda n: not n.endswith("_stable"), []), ("spec_vector", lambda n: n == "push_back", [])], drivers=[("sort.cpp", [])],
        note="Every sort and every helper it calls (ranges, partitions, heaps, merges, runs) under its own contract: the result is an ordered permutation of the range, the rest is untouched; for every length, range and strict weak order. Callers are checked against the callees' contracts."),
    "C14": dict(specs=[("spec_sort", lambda n: n.endswith("_stable"), []), ("spec_vector", lambda n: n == "push_back", [])], drivers=[("sort.cpp", ["-DSTABLE"])],
        note="sort, sort_by, timsort(_by), insertion_sort(_by), merge_sort_by and their helpers: equal elements keep their input order, for every length and strict weak order."),
    "C15": dict(specs=[("spec_conc", lambda n: not n.startswith("db"), ["-DCAP=5"]), ("spec_conc", lambda n: not n.startswith("db"), ["-DCAP=1000"]), ("spec_cyclic", lambda n: n.startswith("cq"), ["-DCAP=5"])], drivers=[("conc.cpp", []), ("conc.cpp", ["TSAN"])],
        note="BlockingQ and NonBlockingQ, bounded and unbounded: taking the lock gives an arbitrary queue, without the lock the queue may not be touched, waiting gives it up and takes it back; so every operation is one critical section with its sequential effect, whatever the schedule. No bound on threads or steps; that other threads make progress is assumed, not proved."),
    "C16": dict(specs=[("spec_conc", lambda n: n.startswith("db"), ["-DCAP=5"]), ("spec_conc", lambda n: n.startswith("db"), ["-DCAP=1000"]), ("spec_cyclic", lambda n: n.startswith("cq"), ["-DCAP=5"])], drivers=[("conc.cpp", ["-DDB"]), ("conc.cpp", ["-DDB", "TSAN"])],
        note="DoubleBuffer: every operation is one critical section of its spin lock (acquire / release), acts on the write side or the read side only, and the two sides stay two distinct buffers, whatever the schedule."),
    "C17": dict(specs=["spec_file"], drivers=[("file.cpp", ["-Wl," + ",".join("--wrap=" + f for f in "fopen fclose fputc putc fputs fwrite fgetc getc ungetc fgets fread fflush fseek ftell".split())])],
        note="Every public operation of File over ghost stream state (which streams are open, what was put, the read position), with stdio as assumed contracts in which every call may fail; read_lines uses read_line's and Vector::push_back's contracts."),
    "C18": dict(specs=[("spec_tuple", None, d) for d in (["-DNC=1"], ["-DNC=2"], ["-DNC=3"], ["-DNC=5"], ["-DNC=12"], ["-DNC=2", "-DMIXED"], ["-DNC=6", "-DMIXED"])], drivers=[("tuple.cpp", [])],
        note="Every public Tuple operation and swap over opaque components, for 1, 2, 3, 5 and 12 components of one type and 2 and 6 components of different types and sizes."),
    "C19": dict(specs=[("spec_numeric", None, ["-DCAP=5"]), ("spec_numeric", None, ["-DCAP=1000"])], drivers=[("numeric.cpp", [])],
        note="max_elem, min_elem, max_min, sum, product over Vector, ArrVec and Array of int, size_t and double against left folds (and a lemma that the folds of max / min bound every element and are attained), and every scalar helper against its defining equation. Machine integers are exact (the result is required wherever the exact intermediate values are representable); floating point numbers are treated as reals; products of two unknowns are uninterpreted."),
    "C20": dict(specs=[("spec_stat", None, ["-DCAP=5"]), ("spec_stat", None, ["-DCAP=1000"])], drivers=[("stat.cpp", [])],
        note="Every statistics function against its textbook formula over sums defined by recurrence, over Vector, ArrVec and Array of double (and int samples), for every length below 2^31 and every lag. Floating point numbers are treated as reals, sqrt as an unspecified function, products and quotients of unknowns as uninterpreted (commutative) functions; index arithmetic is machine arithmetic."),
}
NOT_APPLICABLE = {}
