"""What run.py runs per property: harnesses, the rule which makes a case non-trivial, assumptions.
Keys starting with `note` go to MANIFEST.json (tools/gen_meta.py)."""

ASAN_NOTE = ("Every case runs under AddressSanitizer with an allocation-balance check, in forked workers with a CPU limit; "
             "search over generated cases, so absence of violations is not proof.")

def _handling(n):
    return ["-DITLIB_%s_VECTOR_ERROR_HANDLING=%d" % (v, n) for v in ("SMALL", "STATIC")]

CHECKS = {
    "P01": {
        "rule": "Case = a history of up to 60 operations over up to 4 small_vectors, mirrored on std::vector<int>; non-trivial = it contains an "
                "operation that moves elements in the middle, crosses the static/dynamic border, transfers a buffer or uses an argument inside the vector. "
                "Distinct = distinct choice sequences.",
        "note": "std::vector model compared after every step (contents, returned iterators, exceptions), element types that detect bitwise relocation, "
                "double destruction and reads of moved-from values. " + ASAN_NOTE,
        "assumptions": ["element copy/move does not throw (P34 covers that)", "moved-from vectors are only assigned to, cleared or destroyed"],
        "harnesses": [{"name": "sv11", "src": ["small_vector.cpp"], "std": "c++11", "flags": ["-DVT_STORAGE=3"]},
                      {"name": "sv17", "src": ["small_vector.cpp"], "std": "c++17"},
                      {"name": "large1", "src": ["large.cpp"], "std": "c++17", "opt": "-O1", "fuzz": False, "flags": ["-DVT_WHAT=1"]}],
    },
    "P02": {
        "rule": "Case = a history of up to 60 operations over up to 4 small_vectors with identified allocators; non-trivial as in P01. After every step: "
                "static/dynamic state, capacity, outstanding blocks, live element count and addresses are compared with what the history demands.",
        "note": "Registry allocator (every block, size and allocator identity), live-element registry, pointer identity across moves. " + ASAN_NOTE,
        "assumptions": ["element copy/move does not throw (P34 covers that)", "which operations shrink a heap-held vector back to the static buffer is asserted only for shrink_to_fit and revert_to_static"],
        "harnesses": [{"name": "sv11s", "src": ["small_vector.cpp"], "std": "c++11", "flags": ["-DVT_STORAGE=2"]},
                      {"name": "sv17s", "src": ["small_vector.cpp"], "std": "c++17", "flags": ["-DVT_STORAGE=1"]}],
    },
    "P03": {
        "rule": "Case = a history of up to 60 operations over several static_vectors, mirrored on std::vector<int>; non-trivial = an operation that "
                "shifts elements in the middle, copies/moves/swaps whole vectors or uses an argument inside the vector.",
        "note": "std::vector model compared after every step, tracked element types, no-allocation check. " + ASAN_NOTE,
        "assumptions": ["element copy/move does not throw (P34 covers that)"],
        "harnesses": [{"name": "stv17", "src": ["static_vector.cpp"], "std": "c++17"},
                      {"name": "large3", "src": ["large.cpp"], "std": "c++17", "opt": "-O1", "fuzz": False, "flags": ["-DVT_WHAT=3"]}],
    },
    "P04": {
        "rule": "As P03 with counts and ranges around and far beyond the capacity; non-trivial = at least one operation of the history overflows (and must "
                "throw, leaving contents unchanged) or exactly fills the vector.",
        "note": "Overflow must throw out_of_range exactly when the std::vector model would exceed the capacity. " + ASAN_NOTE,
        "assumptions": ["default (throwing) configuration; element copy/move does not throw"],
        "harnesses": [{"name": "stv11", "src": ["static_vector.cpp"], "std": "c++11", "flags": ["-DVT_OVERFLOW=1"]}],
    },
    "P05": {
        "rule": "Case = a history of up to 60 operations over several pod_vectors, mirrored on std::vector; non-trivial = an insertion/erasure in the middle, "
                "a growth, or an argument inside the vector.",
        "note": "std::vector model compared after every step. " + ASAN_NOTE,
        "assumptions": ["elements left uninitialised by design are written before they are compared"],
        "harnesses": [{"name": "pod11", "src": ["pod_vector.cpp"], "std": "c++11"},
                      {"name": "large5", "src": ["large.cpp"], "std": "c++17", "opt": "-O1", "fuzz": False, "flags": ["-DVT_WHAT=5"]}],
    },
    "P06": {
        "rule": "Case = a history of up to 60 operations or a chain of recasts over pod_vectors with checking allocators (realloc and expand flavours, several "
                "alignments); non-trivial as in P05, or a recast between elements of different size.",
        "note": "Checking allocators register block, size and alignment; recasts compared bytewise with the source. " + ASAN_NOTE,
        "assumptions": ["allocators honour the documented interface"],
        "harnesses": [{"name": "poda", "src": ["pod_vector.cpp"], "std": "c++17", "flags": ["-DVT_ALLOC=1"]},
                      {"name": "podb", "src": ["pod_vector.cpp"], "std": "c++17", "flags": ["-DVT_ALLOC=2"]},
                      {"name": "large6", "src": ["large.cpp"], "std": "c++17", "opt": "-O1", "fuzz": False, "flags": ["-DVT_WHAT=6"]}],
    },
    "P07": {
        "rule": "Case = a history of up to 60 operations over up to 3 flat_maps (vector, static_vector and small_vector based; default, reversed, stateful and "
                "coarse comparators), mirrored on std::map; non-trivial = an insertion before existing elements, an erasure, a lookup among more than 2 "
                "elements, a construction from more than 2 elements, a swap, copy or move.",
        "note": "std::map over ints with the same ordering compared after every step (contents, order, returned positions), plus a lookup sweep at the end. " + ASAN_NOTE,
        "assumptions": ["the comparator is a strict weak order", "which of several equivalent elements survives construction is unspecified"],
        "harnesses": [{"name": "map17", "src": ["flat_assoc.cpp"], "std": "c++17"},
                      {"name": "large7", "src": ["large.cpp"], "std": "c++17", "opt": "-O1", "fuzz": False, "flags": ["-DVT_WHAT=7"]}],
    },
    "P08": {
        "rule": "Case = a history of up to 60 operations over up to 3 flat_sets (vector, static_vector and small_vector based; default, reversed, stateful and "
                "coarse comparators), mirrored on std::map; non-trivial = an insertion before existing elements, an erasure, a lookup among more than 2 "
                "elements, a construction from more than 2 elements, a swap, copy or move.",
        "note": "std::map over ints with the same ordering compared after every step (contents, order, returned positions), plus a lookup sweep at the end. " + ASAN_NOTE,
        "assumptions": ["the comparator is a strict weak order", "which of several equivalent elements survives construction is unspecified"],
        "harnesses": [{"name": "set17", "src": ["flat_assoc.cpp"], "std": "c++17", "flags": ["-DVT_SET=1"]},
                      {"name": "large8", "src": ["large.cpp"], "std": "c++17", "opt": "-O1", "fuzz": False, "flags": ["-DVT_WHAT=8"]}],
    },
    "P09": {
        "rule": "Case = a history of up to 40 operations over 3 bitsets (8/16/32/64-bit words, vector and small_vector buffers), mirrored on vector<bool>, sizes "
                "concentrated around word boundaries, bits beyond size() made dirty on purpose; non-trivial = a growing resize, an append, a non-empty range copy "
                "or a transfer of a whole bitset.",
        "note": "Every bit and all/any/none compared with vector<bool> after every step. " + ASAN_NOTE,
        "assumptions": ["append and copy get a different bitset than the one modified", "all() of an empty bitset is not asserted"],
        "harnesses": [{"name": "bits11", "src": ["dynamic_bitset.cpp"], "std": "c++11"},
                      {"name": "large9", "src": ["large.cpp"], "std": "c++17", "opt": "-O1", "fuzz": False, "flags": ["-DVT_WHAT=9"]}],
    },
    "P10": {
        "rule": "Case = a history of up to 40 constructions, moves, copies, assignments, writes, takes, clears and emplacements over 3 expecteds of one of 14 "
                "specialisations, mirrored on a (state, content) model; non-trivial = an assignment, move, copy or (throwing) emplacement happened.",
        "note": "State and content compared through every accessor after every step; tracked values and errors; lvalue sources must stay unchanged. " + ASAN_NOTE,
        "assumptions": ["moves of values and errors do not throw", "no self-move-assignment", "accessors are used only in the state they require"],
        "harnesses": [{"name": "exp17", "src": ["expected.cpp"], "std": "c++17"}],
    },
    "P11": {
        "rule": "Case = a history of up to 40 operations over 3 anys holding values of 15 kinds (tiny, small, large, huge, over-aligned, move-only, throwing, function "
                "pointers, other anys), with the default and with identified allocators, mirrored on (kind, number); non-trivial = a copy, move, assignment "
                "from own contents or throwing operation happened.",
        "note": "Contents, type() and every cast compared after each operation; registry allocator; tracked values. " + ASAN_NOTE,
        "assumptions": ["moves of stored values do not throw", "moved-from anys are empty, as the documentation's tests show"],
        "harnesses": [{"name": "any17", "src": ["any.cpp"], "std": "c++17", "scale": 4, "flags": ["-fsanitize=alignment"]}],
    },
    "P12": {
        "rule": "Case = a history of up to 40 slicings, conversions, copies and writes over 4 mutable and 4 const views of one exactly-sized heap storage "
                "(offsets and counts up to SIZE_MAX, including ones whose byte offset wraps around); non-trivial = at least one slice was taken.",
        "note": "Every view inspected completely (pointer, size, each element by every access path) against an (offset, length) model after every step; the whole "
                "storage compared after writes. " + ASAN_NOTE,
        "assumptions": ["remove_prefix/remove_suffix, element access and reset(size) are used within the view, as their preconditions say"],
        "harnesses": [{"name": "span11", "src": ["span.cpp"], "std": "c++11"}, {"name": "span17", "src": ["span.cpp"], "std": "c++17"}],
    },
    "P13": {
        "rule": "Case = one byte buffer of exactly the needed size, element type, stride and count, and a history of up to 25 constructions, slicings, "
                "const conversions, writes and iterator walks; non-trivial = a slice was taken or two iterators at different positions were compared.",
        "note": "Addresses of all elements by every access path against base + i*stride; whole buffer compared after writes; iterator differences and order "
                "against positions. " + ASAN_NOTE,
        "assumptions": ["strides are positive multiples of the element's alignment", "last(n), remove_prefix and remove_suffix get n <= size()"],
        "harnesses": [{"name": "stride11", "src": ["stride_span.cpp"], "std": "c++11", "scale": 0.7}],
    },
    "P14": {
        "rule": "Case = arrays of five derived types (base at offset 0, elsewhere, virtual, over-aligned) and a history of up to 25 view constructions, "
                "slicings and iterator walks; non-trivial = a slice was taken or two iterators at different positions were compared.",
        "note": "Identity and dynamic type of every element by every access path; iterator differences and order against positions. " + ASAN_NOTE,
        "assumptions": ["last(n), remove_prefix and remove_suffix get n <= size()"],
        "harnesses": [{"name": "poly11", "src": ["poly_span.cpp"], "std": "c++11", "scale": 2}],
    },
    "P15": {
        "rule": "Case = a history of up to 40 puts, block writes, formatted outputs, seeks, takes and clears on one mem_ostreambuf (vector, string, small_vector, "
                "static_vector, pod_vector; char and wchar_t); non-trivial = a seek, take, clear, large write or hitting a bounded container's capacity.",
        "note": "Model: the written text and the put position; container contents, poff and tellp compared after every step. " + ASAN_NOTE,
        "assumptions": ["direct use of the buffer stays within a bounded container's capacity (through a stream it may not)", "a few writes of 2 to 4 GB per run"],
        "harnesses": [{"name": "obuf17", "src": ["mem_streambuf.cpp"], "std": "c++17", "scale": 4}],
    },
    "P16": {
        "rule": "Case = a buffer and a history of up to 40 gets, putbacks, block reads (up to the maximum count), formatted reads and absolute/relative seeks (also out of "
                "range), compared with std::istringstream; non-trivial = a block read, seek or putback happened.",
        "note": "Differential against istringstream: data, gcount, stream state and position after every step; exactly-sized heap buffer. " + ASAN_NOTE,
        "assumptions": ["read counts are not negative"],
        "harnesses": [{"name": "ibuf11", "src": ["mem_streambuf.cpp"], "std": "c++11", "flags": ["-DVT_IN=1"], "scale": 8}],
    },
    "P17": {
        "rule": "Case = a text and a history of up to 20 reads through rstreams and (nested) redirects, from any stream state, also past the end and left by "
                "exceptions (also texts of up to 4 MB, and buffers of 4 to 7 GB); non-trivial = at least one redirect happened, or a long block was read.",
        "note": "Differential against reading the stream itself; position and state before and after each redirect. " + ASAN_NOTE,
        "assumptions": ["the wrapped stream is seekable and does not throw on failure"],
        "harnesses": [{"name": "rs11", "src": ["rstream.cpp"], "std": "c++11", "scale": 6}],
    },
    "P18": {
        "rule": "Case = one (time, duration and unit), one (time, denormalized calendar time), one (time, POSIX time zone) or one (calendar time, format of up to 2000 "
                "characters); non-trivial = a duration of at least a second, any calendar conversion, a format of more than 2 parts, an empty result or one around or over the "
                "initial buffer.",
        "note": "Oracles: integer arithmetic, an independent civil-calendar algorithm, round trips, the C library's strftime with a 100 KB buffer. " + ASAN_NOTE,
        "assumptions": ["durations with fractions of a second are truncated as chrono does", "years fit in tm_year", "C locale"],
        "harnesses": [{"name": "time11", "src": ["time_t.cpp"], "std": "c++11", "scale": 8}],
    },
    "P19": {
        "rule": "Case = a history of up to 40 stores (10 kinds of callables), moves, swaps, clearings and calls over 4 ufunctions of one of three signatures; "
                "non-trivial = a move, swap or successful call happened.",
        "note": "Every call's target, arguments and result checked; copies of callables counted (none after storing); live callables compared with the model after every step. " + ASAN_NOTE,
        "assumptions": ["callables move without exceptions", "no self-move-assignment; a moved-from ufunction is reassigned before further use"],
        "harnesses": [{"name": "uf11", "src": ["ufunction.cpp"], "std": "c++11", "scale": 2}, {"name": "uf17", "src": ["ufunction.cpp"], "std": "c++17", "scale": 2}],
    },
    "P20": {
        "rule": "Case = a tree of up to 30 nested scopes, each making sentries of one of 14 kinds and left normally or by an exception; non-trivial = an exception passed "
                "through live sentries, a sentry was moved (before C++17), or the scope was left by return/break/continue.",
        "note": "The complete log of runs compared with the expected one at every point. The C++11 builds with and without elided moves. " + ASAN_NOTE,
        "assumptions": ["functions given to sentries do not throw"],
        "harnesses": [{"name": "sentry11", "src": ["sentry.cpp"], "std": "c++11", "flags": ["-fno-elide-constructors"], "scale": 2},
                      {"name": "sentry14", "src": ["sentry.cpp"], "std": "c++14", "scale": 2},
                      {"name": "sentry17", "src": ["sentry.cpp"], "std": "c++17", "scale": 2}],
    },
    "P21": {
        "rule": "Case = a history of up to 50 creations (random coroutine scripts of yields, throws, returns and delegations to inner generators), next() calls, partial or "
                "complete iterations, moves, swaps, self-moves and resets over 3 generators of one of 7 value/reference types; non-trivial = an iteration, exception, move or reset happened.",
        "note": "Scripts are also run by an interpreter: every value, exception, end and the number of coroutine steps executed per call are compared; frames and values counted. " + ASAN_NOTE,
        "assumptions": ["values move without exceptions", "an iterator is not advanced past the end; a moved-from or reset generator is not resumed"],
        "harnesses": [{"name": "gen20", "src": ["generator.cpp"], "std": "c++20"}],
    },
    "P22": {
        "rule": "Case = a history of calls by one thread over several cells and objects whose destructors may use the cell (seq), a randomly timed concurrent plan of 2-4 threads whose recorded "
                "history is checked for linearizability (lin), or hundreds of conflicting calls by up to 8 threads with exact end-state accounting (hammer); non-trivial = at least two "
                "operations overlapped in time (lin), a compare_exchange or a re-entrant destructor happened (seq), always (hammer).",
        "note": "Wing-Gong linearizability search over every recorded history; objects counted and checked after free (ASan), the spinlock build also under TSan.",
        "assumptions": ["schedules are those the machine produces under random delays, not all interleavings", "compare_exchange is not used with pointers of equal address and different ownership"],
        "harnesses": [{"name": "asps11", "src": ["asps.cpp"], "std": "c++11"},
                      {"name": "asps11t", "src": ["asps.cpp"], "std": "c++11", "san": "tsan", "flags": ["-DVT_ONLY_THREADS=1"], "scale": 0.5},
                      {"name": "asps20", "src": ["asps.cpp"], "std": "c++20"}],
    },
    "P23": {
        "rule": "Case = a random script of try_lock/unlock commands dealt to 2-4 threads one at a time (commanded), deep recursion (recursion), or a freely running plan whose history "
                "is checked for linearizability (lin); non-trivial = a try_lock was refused or the lock was held recursively.",
        "note": "Model (owner, depth) decides each commanded call exactly; free runs are checked by a Wing-Gong search and a counter guarded by the mutex; also under TSan.",
        "assumptions": ["schedules are those the machine produces under random delays, not all interleavings", "only the owner unlocks"],
        "harnesses": [{"name": "mutex11", "src": ["mutex.cpp"], "std": "c++11"},
                      {"name": "mutex11t", "src": ["mutex.cpp"], "std": "c++11", "san": "tsan", "scale": 0.5}],
    },
    "P24": {
        "rule": "Case = a history of up to 60 lock/try/release/move/write steps over 2 data_mutexes and 6 accessors of all 6 kinds, tries and locks failing at chosen points (full, exclusive, "
                "bare: mutexes offering fewer operations), or 2-5 threads modifying real mutexes' data; non-trivial = a lock or try failed, or an accessor was moved; always for threads.",
        "note": "Mock mutex which knows who may access; data which refuses access without the lock; compile-time access rules; the C++11 build without elided moves; real mutexes also under TSan. " + ASAN_NOTE,
        "assumptions": ["accessors are not used after moving from them, other than to destroy them or test a try accessor"],
        "harnesses": [{"name": "dm11", "src": ["data_mutex.cpp"], "std": "c++11", "flags": ["-fno-elide-constructors"]},
                      {"name": "dm17", "src": ["data_mutex.cpp"], "std": "c++17"},
                      {"name": "dm17t", "src": ["data_mutex.cpp"], "std": "c++17", "san": "tsan", "flags": ["-DVT_ONLY_THREADS=1"]}],
    },
    "P25": {
        "rule": "Case = a history of up to 50 steps creating objects (7 ways, several hierarchies), taking shared/weak pointers to them and their parts, aliasing, copying, moving, locking, "
                "dropping, and objects holding each other (ownership); values given to make_shared/make_unique by copy and move, some throwing (make_ptr); objects without an owner "
                "(unowned), copied, assigned and asking for themselves while dying (copies); non-trivial = at least one pointer from an object or an alias was taken; always for the others.",
        "note": "Exact owner counts, addresses and object deaths computed from the history and compared after every step. " + ASAN_NOTE,
        "assumptions": ["no ownership cycles"],
        "harnesses": [{"name": "ptr11", "src": ["ptrs.cpp"], "std": "c++11"},
                      {"name": "ptr17", "src": ["ptrs.cpp"], "std": "c++17"}],
    },
    "P28": {
        "rule": "Case = a history of up to 40 allocations and deallocations of bytes, arrays and objects of 6 types over 3 resources, with allocations and constructors failing at chosen points (raw), "
                "or of operations, copies and moves of containers with the allocator (7 container types), or of sizes up to PTRDIFF_MAX from a resource which only pretends (huge); non-trivial = something failed or was returned (raw), a container was copied, moved "
                "or nested (containers).",
        "note": "Recording resources give memory aligned exactly as asked, and compare size and alignment on return; the default resource is recorded too. " + ASAN_NOTE,
        "assumptions": [],
        "harnesses": [{"name": "pmr17", "src": ["pmr.cpp"], "std": "c++17"},
                      {"name": "pmr20", "src": ["pmr.cpp"], "std": "c++20", "scale": 0.3}],
    },
    "P26": {
        "rule": "Case = container contents (with equal, distinguishable elements), a value, a predicate given as one of 5 kinds of callables, and a sequence of erasures and queries over one of 9 "
                "kinds of containers and views; or a predicate which changes its mind when asked again (changing), or up to 140000 elements (large); non-trivial = something was erased, a first match was not the first element, or (checks without predicate) the elements differ.",
        "note": "Each function is compared with its definition computed by plain loops, elements are told apart by tags. " + ASAN_NOTE,
        "assumptions": ["the value is not an element of the container being erased from", "erase_all needs random access containers, pfind mutable elements (others do not compile)"],
        "harnesses": [{"name": "qalg11", "src": ["qalgorithm.cpp"], "std": "c++11"},
                      {"name": "qalg17", "src": ["qalgorithm.cpp"], "std": "c++17", "scale": 0.5}],
    },
    "P27": {
        "rule": "Case = a pattern over one of 5 alphabets (with zeros and high bytes) and a text built from repetitions, parts and near-misses of it, up to 40 kB (stripping), or a subrange of a text "
                "given as 7 kinds of iterators (ranges), or views of up to 4 TB and texts of more than 4 GB (huge); non-trivial = the pattern occurs in the text, the range is not empty.",
        "note": "Character by character definitions; texts are exact heap blocks so that ASan sees any access outside; views are checked by address. " + ASAN_NOTE,
        "assumptions": [],
        "harnesses": [{"name": "str17", "src": ["strutil.cpp"], "std": "c++17"},
                      {"name": "str20", "src": ["strutil.cpp"], "std": "c++20", "scale": 0.5}],
    },
    "P29": {
        "rule": "Case = a bit pattern and a pair of types (bit_casts, noop), a member of an object in an array (owner_of), a value moved around (force_moves), a history of counter operations "
                "around the limits of 6 types (cnt), concurrent counting by 2-8 threads (counting), or up to 20 pieces streamed into an exception of 6 types, in flight or not (throwing); "
                "non-trivial = more than one piece, a sign change or copy of the counter, a no-op pair; always for the others.",
        "note": "Compared with byte copies, modular arithmetic and std::ostringstream; signed overflow is a sanitizer error; counting also under TSan. " + ASAN_NOTE,
        "assumptions": ["streaming into throw_ex does not itself throw", "is_noop_convertible is not asked about enums with bool as the underlying type, null and member pointers"],
        "harnesses": [{"name": "util11", "src": ["utility.cpp"], "std": "c++11"},
                      {"name": "util17", "src": ["utility.cpp"], "std": "c++17", "flags": ["-fsanitize=alignment"]},
                      {"name": "util17t", "src": ["utility.cpp"], "std": "c++17", "san": "tsan", "flags": ["-DVT_ONLY_THREADS=1"], "scale": 0.5}],
    },
    "P30": {
        "rule": "Case = a history of up to 50 operations (try_emplace with and without hints, operator[], at, erase, lookup, emplace, copies, moves, swaps, merges, rehashes) over 2 maps with keys "
                "given in 9 forms, key or value constructors throwing at chosen points; non-trivial = a key was given as another type, something threw, or a whole map was moved or copied.",
        "note": "std::map model, constructions and copies of keys counted exactly; which overloads exist checked at compile time; immovable mapped values. " + ASAN_NOTE,
        "assumptions": ["hash and comparison agree for all key types"],
        "harnesses": [{"name": "umap20", "src": ["umap.cpp"], "std": "c++20"}],
    },
    "P31": {
        "rule": "Case = a program: compiler, standard, optimization, configuration macros and 1-3 translation units with a list of includes in any order and with repetitions, and up to 10 of 73 functions "
                "using the included headers or combinations of them; plus, always, every header alone and twice in every standard, with only the headers of its library around, and everything in two units; "
                "non-trivial = more than one header or unit, or something of the headers is used.",
        "note": "Must compile, link and give the known results. Failures are shrunk by removing units, includes, functions, macros. Small programs, no sanitizers.",
        "assumptions": ["all units of a program are compiled with the same compiler, standard and macros"],
        "script": "headers",
        "harnesses": [],
    },
    "P32": {
        "rule": "Case = indices in and out of bounds given to one of 9 views and vectors (index_checks), a history of up to 12 operations around the capacity of a static_vector (overflowing), "
                "with positions in and out of a small_vector (outside_of_vector), or lookups of a flat_map (flat_map_at), in each of 7 configurations; histories as in P01, P04 with assertions off; "
                "non-trivial = something is misused, or the configuration defines no misuse.",
        "note": "Assertions are intercepted: each call must return, assert or throw exactly as configured, and leave what it was called on unchanged. " + ASAN_NOTE,
        "assumptions": ["misuse which the configuration leaves undefined is not generated"],
        "harnesses": [{"name": "mis11", "src": ["misuse.cpp"], "std": "c++11"},
                      {"name": "mis17", "src": ["misuse.cpp"], "std": "c++17"},
                      {"name": "misA", "src": ["misuse.cpp"], "std": "c++17", "flags": _handling(2) + ["-DITLIB_FLAT_MAP_NO_THROW=1"]},
                      {"name": "misAT", "src": ["misuse.cpp"], "std": "c++11", "flags": _handling(3)},
                      {"name": "misATn", "src": ["misuse.cpp"], "std": "c++11", "flags": _handling(3) + ["-DNDEBUG"]},
                      {"name": "misN", "src": ["misuse.cpp"], "std": "c++11", "flags": _handling(0)},
                      {"name": "misB", "src": ["misuse.cpp"], "std": "c++17", "flags": ["-DVT_NO_BOUNDS=1"] + ["-DITLIB_%s_NO_DEBUG_BOUNDS_CHECK" % n for n in
                          ("SMALL_VECTOR", "STATIC_VECTOR", "SPAN", "STRIDE_SPAN", "POLY_SPAN", "MEMORY_VIEW")]},
                      {"name": "stvATn", "src": ["static_vector.cpp"], "std": "c++11", "flags": _handling(3) + ["-DNDEBUG", "-DVT_OVERFLOW=1"], "scale": 0.2},
                      {"name": "svATn", "src": ["small_vector.cpp"], "std": "c++17", "flags": _handling(3) + ["-DNDEBUG"], "scale": 0.2}],
    },
    "P33": {
        "rule": "Case = scripts of 4-44 operations (24 kinds over objects of most types of the library) for 2-5 threads, which work on their own objects (different_objects) or read one set of objects "
                "prepared by another script (shared_const); always non-trivial.",
        "note": "ThreadSanitizer; and what each thread computes must equal what the same script computes alone.",
        "assumptions": ["schedules are those the machine produces", "objects given to the library by the user follow the same rule"],
        "harnesses": [{"name": "conc11t", "src": ["concurrent.cpp"], "std": "c++11", "scale": 3, "san": "tsan"},
                      {"name": "conc20t", "src": ["concurrent.cpp"], "std": "c++20", "scale": 3, "san": "tsan"},
                      {"name": "conc17", "src": ["concurrent.cpp"], "std": "c++17", "scale": 3}],
    },
    "P34": {
        "rule": "Case = a history of up to 30 operations over several objects of a type, most of them with one place (an allocation, an element constructed or copied, keys compared) made to "
                "throw, or asking for an impossible size; non-trivial = at least one operation failed.",
        "note": "Fault injection at every k-th place, the global operator new included; after every operation: contents as the model of what succeeded, elements alive and blocks allocated "
                "exactly those the objects hold. " + ASAN_NOTE,
        "assumptions": ["moves, swaps and destructors of elements do not throw", "an rvalue argument of a failed call may have been consumed"],
        "harnesses": [{"name": "fail11", "src": ["failure.cpp"], "std": "c++11"},
                      {"name": "fail20", "src": ["failure.cpp"], "std": "c++20"}],
    },
    "P35": {
        "rule": "Case = one object grown to up to 20000 elements (or looked up in, changed in the middle, handed over), counting comparisons, element operations, allocations and bytes; "
                "non-trivial = more than 64 elements (200 for growing).",
        "note": "Counting comparators, elements, allocators and predicates against bounds which are several times what the class of the operation (constant, logarithmic, amortised constant, "
                "linear in what is shifted) needs, and which the next worse class exceeds at the sizes generated. " + ASAN_NOTE,
        "assumptions": ["constant factors are not claimed", "a small_vector below its revert threshold may move back to the static buffer"],
        "harnesses": [{"name": "cost11", "src": ["cost.cpp"], "std": "c++11"},
                      {"name": "cost17", "src": ["cost.cpp"], "std": "c++17"}],
    },
    "P36": {
        "rule": "Case = a history of up to 50 edits at any level of 3 trees whose nodes are 15 kinds of library types holding one another (up to 60 nodes, 8 levels); "
                "non-trivial = at least one edit, copy, move or swap took place.",
        "note": "A model tree of std types; after every edit the text of every tree (read through iterators, spans, stride_spans and poly_spans) and the number of live leaves; a round trip "
                "through mem_ostreambuf, mem_istreambuf and redirect_rstream. " + ASAN_NOTE,
        "assumptions": ["a node is not assigned directly from its own ancestor or descendant (through a temporary instead)"],
        "harnesses": [{"name": "comp17", "src": ["compose.cpp"], "std": "c++17"},
                      {"name": "comp20", "src": ["compose.cpp"], "std": "c++20"}],
    },
}

# the same targets compiled by the other compiler with optimizations and without sanitizers: what depends on the order of evaluation, on
# undefined behaviour or on memory which ASan fills shows up differently there
for _p, _h in [("P01", "sv17"), ("P03", "stv17"), ("P05", "pod11"), ("P07", "map17"), ("P08", "set17"), ("P09", "bits11"), ("P10", "exp17"), ("P11", "any17"), ("P12", "span17"),
               ("P13", "stride11"), ("P14", "poly11"), ("P15", "obuf17"), ("P16", "ibuf11"), ("P17", "rs11"), ("P18", "time11"), ("P19", "uf17"), ("P20", "sentry17"), ("P21", "gen20"),
               ("P22", "asps20"), ("P23", "mutex11"), ("P24", "dm17"), ("P25", "ptr17"), ("P26", "qalg17"), ("P27", "str17"), ("P28", "pmr17"), ("P29", "util17"), ("P30", "umap20"), ("P36", "comp17")]:
    _spec = [h for h in CHECKS[_p]["harnesses"] if h["name"] == _h][0]
    CHECKS[_p]["harnesses"].append(dict(_spec, name=_h + "o2", cxx="clang++", std="c++20", opt="-O2", san="none", fuzz=False, scale=_spec.get("scale", 1) * (5 if _p == "P18" else 10),
                                        flags=[f for f in _spec.get("flags", []) if "sanitize" not in f] + ["-DVT_NO_HUGE=1"]))
