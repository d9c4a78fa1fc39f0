#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below and checks/table.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
from table import CHECKS

P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": ["include/itlib/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("P01", "small_vector is observably a std::vector",
 "For every sequence of operations (construction, assignment, insertion, erasure, resizing, reserving, shrinking, copy, move, comparison), a small_vector holds exactly the elements, in order, that a std::vector given the same calls would hold, returns the same iterators, and gives through operator[], at, front, back and iteration references to exactly those elements. An insert or erase position outside the vector throws out_of_range (in the default configuration) and changes nothing. Arguments which refer to the vector's own elements are taken at their value before the call. Arguments of emplacements reach the element's constructor with the value category they were given, once.",
 ["histories", "inputs"], "All operation histories over up to four vectors, element types (trivial, heap-owning, address-sensitive, move-only, over-aligned), allocators and (static capacity, revert threshold) pairs.",
 "The unit tests replay fixed scripts; correctness depends on size, capacity, which buffer is in use and where an argument points, a product no script covers.",
 ["small_vector.hpp"], [("insert_impl/erase_impl shifting", "small_vector.hpp: insert_impl, erase_impl"), ("buffer choice", "small_vector.hpp: choose_data")],
 [("m_begin/m_end/m_capacity", "live range and capacity of the buffer in use", "small_vector.hpp: private members")], ["iteration, indexing, size(), returned iterators"])

prop("P02", "small_vector storage: static buffer, capacity, element lifetimes",
 "Elements stay in the inline buffer, with no allocation, until more than the static capacity is needed; capacity() is never smaller than size(), growing within capacity() (as given by reserve()) invalidates nothing, and moving a heap-held vector hands over its buffer without touching elements. Every element is constructed once and destroyed once at properly aligned addresses, and every allocated block is returned exactly once, with its size, to an equal allocator.",
 ["histories", "configurations"], "All operation histories, allocator identities and propagation, static capacities 0..N, revert thresholds.",
 "Leaks, double destruction and allocator mix-ups appear only for particular transitions between inline and heap storage; the tests visit a few of them with a counting allocator.",
 ["small_vector.hpp"], [("switching buffers", "small_vector.hpp: choose_data, free_dynamic_buf, take_impl"), ("construct/destroy", "small_vector.hpp: destroy_all, assign_impl")],
 [("inline buffer", "used while size fits the static capacity", "small_vector.hpp: m_static_data")], ["data(), capacity(), an allocator that registers every block"])

prop("P03", "static_vector is observably a capacity-bounded std::vector",
 "For every sequence of operations that stays within the capacity, a static_vector holds exactly the elements, in order, that a std::vector would, with the same returned iterators, references and comparisons, and never allocates. Every element is constructed once and destroyed once, inside the object and properly aligned. Arguments of emplacements reach the element's constructor with the value category they were given, once.",
 ["histories", "inputs"], "All operation histories, capacities 0..N, element types including move-only, address-sensitive and over-aligned.",
 "Fixed scripts at one capacity; insertion and erasure shift elements over the boundary between constructed and raw storage, at every position and count.",
 ["static_vector.hpp"], [("shifting over raw storage", "static_vector.hpp: insert_impl, erase, emplace")], [("m_data/m_size", "raw storage and number of live elements", "static_vector.hpp: private members")])

prop("P04", "static_vector overflow is detected and harmless",
 "Whatever the counts and sizes passed, an operation that would exceed a static_vector's capacity throws out_of_range (in the default configuration) and leaves the contents as they were (assign, which drops the old contents first, leaves a valid vector), without writing outside the object. Operations which exactly reach the capacity succeed.",
 ["inputs", "histories", "configurations"], "All histories with counts and ranges around and far beyond the capacity (up to SIZE_MAX), for every growing operation.",
 "Tests try one overflowing call per operation; the checks are arithmetic on unbounded sizes at every fill level.",
 ["static_vector.hpp"], [("capacity checks", "static_vector.hpp: I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF / error handling")])

prop("P05", "pod_vector is observably a std::vector of a trivial type",
 "For every sequence of operations a pod_vector holds exactly the elements, in order, that a std::vector given the same calls would hold (elements left uninitialised by a sized constructor or resize excepted), with the same returned iterators and references, and compares equal exactly when sizes and element bytes are equal. Arguments which refer to the vector's own elements are taken at their value before the call.",
 ["histories", "inputs"], "All operation histories over several vectors, element sizes and alignments.",
 "memmove-based insertion/erasure is sensitive to size, capacity and position together; the tests replay one script.",
 ["pod_vector.hpp"], [("gap making / closing", "pod_vector.hpp: insert_impl, erase_impl"), ("growth", "pod_vector.hpp: get_new_capacity, realloc")])

prop("P06", "pod_vector memory: allocator contract and recasting",
 "Every block a pod_vector obtains is aligned for its element type and given back exactly once to an equal allocator, capacity() never falls below size(), reserve() is honoured, moves and swaps steal the buffer, and with an allocator which can expand blocks the elements stay in place unless it refuses to. recast_copy_from and recast_take_from preserve the bytes of the source up to the last whole element of the destination type.",
 ["histories", "configurations"], "All operation histories with every supported allocator shape (malloc-like, expandable, aligned, stateful), element pairs of different size and alignment.",
 "Allocation mismatches show only for specific sequences of growth, shrink, recast and transfer.",
 ["pod_vector.hpp"], [("allocator adaptor", "pod_vector.hpp: pod_allocator implementation"), ("recast", "pod_vector.hpp: recast_copy_from, recast_take_from")])

prop("P07", "flat_map is observably a sorted map over any vector-like container",
 "For every history of operations a flat_map contains exactly the keys and values that std::map with the same (possibly stateful or transparent) comparator would contain, iterates in comparator order without equivalent keys, and find, count, lower_bound, upper_bound, equal_range, at, operator[], insert, emplace, erase, swap, copy and move give the results std::map gives (for transparent lookups: with keys equivalent to at most one stored key). This holds for std::vector, static_vector and small_vector as the underlying container. Keys and values are constructed from arguments with the value category given, and insert and operator[] leave their arguments alone when the key is present.",
 ["histories", "inputs"], "All operation histories, key multisets used for construction (with duplicates), comparators (default, reversed, stateful, transparent) and containers.",
 "Tests use a handful of keys; ordering and uniqueness must survive every insertion position and every lookup key, present, absent, below, between and above.",
 ["flat_map.hpp"], [("sorted insertion", "flat_map.hpp: insert, operator[], lower_bound"), ("sort+unique on construction", "flat_map.hpp: flat_map(container_type, key_compare)")],
 [("m_container", "sorted sequence of unique keys", "flat_map.hpp: m_container")])

prop("P08", "flat_set is observably a sorted set over any vector-like container",
 "For every history of operations a flat_set contains exactly the keys that std::set with the same (possibly stateful or transparent) comparator would contain, iterates in comparator order without equivalent keys, and find, count, bounds, insert, emplace, erase, swap, copy and move give the results std::set gives (for transparent lookups: with keys equivalent to at most one stored key). This holds for std::vector, static_vector and small_vector as the underlying container. Keys and values are constructed from arguments with the value category given, and insert and operator[] leave their arguments alone when the key is present.",
 ["histories", "inputs"], "All operation histories, key multisets, comparators and containers.",
 "Tests use a handful of keys and one container per operation.",
 ["flat_set.hpp"], [("sorted insertion", "flat_set.hpp: insert, lower_bound"), ("sort+unique on construction", "flat_set.hpp: flat_set(container_type, key_compare)")])

prop("P09", "dynamic_bitset is observably a vector of bool for every word type",
 "For every history of operations, and every word type, a dynamic_bitset equals the sequence of bits a vector<bool> would hold: test, set, reset, flip, all, any, none, push_back, resize (new bits are false), append, assign from words, iteration and copying a range of bits from another bitset at any two offsets. Bits outside the addressed range are never changed, and stale bits beyond size() never become visible.",
 ["histories", "inputs"], "All histories over bitsets of 8, 16, 32 and 64-bit words; all (size, offset, length) combinations around word boundaries.",
 "The tests use one or two sizes per operation; the code is shift arithmetic whose cases depend on size modulo the word width, on both offsets and on leftover bits.",
 ["dynamic_bitset.hpp"], [("word/mask arithmetic", "dynamic_bitset.hpp: word_index, word_mask, all, any"), ("splicing", "dynamic_bitset.hpp: append, copy, resize")])

prop("P10", "expected holds exactly one of value or error, with exact lifetimes",
 "After any history of constructions, copies, moves, assignments and emplacements, an expected (of value, reference or void, with typed or void error) reports and yields exactly the alternative and content last given to it: has_value/operator bool, value(), error(), value_or, dereference and the error-return helpers agree. Every held object is constructed once and destroyed once, and a value or error passed as an lvalue is copied, never moved from (an rvalue is moved, not copied).",
 ["histories", "inputs"], "All histories over several objects of every expected specialisation, all pairs (state before, state assigned).",
 "The state space is pairs of alternatives times assignment kinds times specialisations; tests visit some pairs with a lifetime counter.",
 ["expected.hpp"], [("state switch on assignment", "expected.hpp: operator=(expected&&)/(const expected&), emplace")], [("m_has_value", "which alternative is alive", "expected.hpp")])

prop("P11", "any owns exactly one value of exactly the stored type",
 "After any history of construction, assignment, emplace, copy, move and reset, an any holds the (decayed) value last given to it, casts succeed exactly for the stored type, and copying yields an independent equal value or, for a non-copyable value, throws bad_cast and leaves the destination without a leak or a dangling value. Every stored object is destroyed exactly once and its memory returned, with the size and alignment it was requested with, to the allocator that provided it.",
 ["histories", "configurations"], "All histories over several anys and stored types (small, over-aligned, throwing, move-only) with default and stateful allocators.",
 "Tests use straight-line scenarios; lifetime and allocator bugs need copies/moves between particular states, or a throw at a particular step.",
 ["any.hpp"], [("block management", "any.hpp: emplace, copy_from, reset, free_block"), ("type identity", "any.hpp: any_cast")])

prop("P12", "span and memory_view slices are exact, clamped views",
 "For every sequence and every offset/count, subspan, first, last, slicing and byte views denote exactly the elements (or bytes) of the underlying storage at those positions, clamped to what exists, and conversions from containers, arrays and other views keep data and size. No slice ever reaches outside the storage it was taken from, and writing through a view changes exactly the element denoted.",
 ["inputs", "histories"], "All storage sizes, all (offset, count) pairs up to SIZE_MAX, chains of slices, element types and constness.",
 "Tests sample a few in-range slices; clamping is arithmetic over unbounded values.",
 ["span.hpp", "memory_view.hpp"], [("subspan clamping", "span.hpp: subspan, first, last, remove_prefix, remove_suffix"), ("byte views", "memory_view.hpp")])

prop("P13", "stride_span visits exactly every stride-th element",
 "For every buffer, element type, positive stride (equal to, larger than, or unrelated to the element size) and count, indexing, iteration in both directions, iterator arithmetic and comparison, front/back and subspans of a stride_span denote exactly the elements at base + i*stride bytes. Iterator differences are signed and agree with the positions.",
 ["inputs", "histories"], "All strides, counts, index pairs and iterator walks.",
 "Tests use one stride and forward walks; the arithmetic has sign and bound cases.",
 ["stride_span.hpp"], [("byte stepping", "stride_span.hpp: iterator arithmetic, at, subspan")])

prop("P14", "poly_span views derived objects as their base, exactly",
 "For every array of derived objects, a poly_span of the base yields, by index, by iterator in either direction, by iterator arithmetic and through subspans, exactly the base subobject of the object at that position. This holds for any size and layout of the derived type and for custom converters, and never reads outside the array.",
 ["inputs", "histories"], "All derived types (single/multiple/virtual bases, any size), counts, index pairs and iterator walks.",
 "Tests use one hierarchy and forward walks.",
 ["poly_span.hpp"], [("stride + upcast", "poly_span.hpp: iterator, operator[]")])

prop("P15", "mem_ostreambuf: the container is exactly what was written",
 "For every history of puts, block writes, formatted output and seeks within what has been written, the container given back by a mem_ostreambuf is exactly the byte sequence written, whatever the container type, initial reserve, chunking and amount (also beyond 4 GB). peek, clear, taking the container and writing again never corrupt, lose or duplicate data.",
 ["histories", "inputs"], "All chunkings and interleavings of put/write/seek/take/clear, container types std::string, std::vector, small_vector and char types.",
 "Tests write a few strings; buffer growth boundaries depend on the chunking and container growth.",
 ["mem_streambuf.hpp"], [("growth", "mem_streambuf.hpp: cap_resize_by, overflow, xsputn"), ("positions", "mem_streambuf.hpp: seekpos, seekoff, poff")])

prop("P16", "mem_istreambuf delivers the buffer exactly, at every seek",
 "For every buffer (also beyond 4 GB) and every history of reads, gets, putbacks and in-range seeks, a stream over a mem_istreambuf delivers the same characters, positions and end-of-file states as a std::istringstream over the same data, and never reads outside the buffer or modifies it.",
 ["histories", "inputs"], "All buffers, read sizes (including larger than what remains, up to the maximum) and seek histories.",
 "Tests read a few numbers; boundaries depend on the interleaving of reads and seeks.",
 ["mem_streambuf.hpp"], [("clamped block read", "mem_streambuf.hpp: xsgetn"), ("positions", "mem_streambuf.hpp: seekpos, seekoff, goff")])

prop("P17", "rstream reads sequentially; redirect_rstream restores the position",
 "Reads through an rstream deliver the same data and stream states as reading the wrapped stream directly. A redirect_rstream reads from its own position, and after it is destroyed, whatever was read through it and however it ended, the wrapped stream continues from the position it had before.",
 ["histories", "inputs"], "All stream contents, positions, nested redirects and read histories, including reads past the end.",
 "Tests redirect once and read a few values; restoration must hold from every state.",
 ["rstream.hpp"], [("restore on destruction", "rstream.hpp: basic_redirect_rstream")])

prop("P18", "time_t arithmetic, ordering, calendar round-trips and strftime",
 "time_t arithmetic with durations, differences and comparisons agree with integer arithmetic on seconds, and converting to UTC or local calendar time and back is the identity for every representable time. strftime yields exactly what the C library would write into a sufficiently large buffer, for every format and result length, including an empty result.",
 ["inputs"], "All times in a wide range (incl. negative), durations of every unit, time zones, formats and result lengths.",
 "Tests check one date and short formats; buffer doubling and truncating conversions need specific lengths and values.",
 ["time_t.hpp"], [("duration conversion", "time_t.hpp: dc"), ("buffer growth", "time_t.hpp: strftime")])

prop("P19", "ufunction calls exactly the last stored callable and never copies it",
 "After any history of construction, assignment, move, swap-by-move and clearing, a ufunction is true exactly when it holds a callable, and calling it invokes the callable last stored, with the arguments forwarded (move-only and reference arguments included) and its result returned; calling an empty one throws bad_function_call. The stored callable is never copied and is destroyed exactly once.",
 ["histories", "inputs"], "All histories over several ufunctions and callable kinds (captureless, small, large, move-only, stateful, function pointers, empty).",
 "Tests wrap a few lambdas once.",
 ["ufunction.hpp"], [("non-copying wrapper", "ufunction.hpp: copy_wrapper")])

prop("P20", "sentry runs its function exactly once, at scope exit",
 "However the scope is left (normally, by return, or by exception), and however the sentry was made (directly, make_sentry, nested, from lvalue or rvalue callables, in C++11 with moves), its function runs exactly once, at destruction and in reverse order of construction.",
 ["histories", "configurations"], "All nestings, exits and creation kinds, C++11 and C++17.",
 "Tests use one scope.",
 ["sentry.hpp"], [("run in destructor", "sentry.hpp: ~sentry"), ("C++11 move disarm", "sentry.hpp: sentry(sentry&&)")])

prop("P21", "generator yields exactly the coroutine's sequence, lazily",
 "For every coroutine, a generator delivers through next(), iteration or any mix of both the values (or references) the coroutine yields, in order, each produced only when asked for, then reports the end; an exception leaves through the call that resumed the coroutine. Moving, resetting or abandoning a generator at any point destroys the coroutine's frame and yielded values exactly once.",
 ["histories", "inputs"], "All yield/throw/return scripts, value and reference yields, and consumption histories including early abandonment and moves.",
 "Tests consume a few generators completely.",
 ["generator.hpp"], [("resume and value slot", "generator.hpp: safe_resume, next, promise_type"), ("ownership of the frame", "generator.hpp: move, reset, destructor")])

prop("P22", "atomic_shared_ptr_storage is a linearizable shared_ptr cell",
 "Under any schedule of concurrent load, store, exchange and compare_exchange, the results are those of some sequential order of the calls, every loaded pointer is usable, and compare_exchange succeeds exactly when the stored pointer equals the expected one and otherwise reports the stored one. Reference counts stay exact: every object is destroyed exactly once, after the last holder lets go of it, and its destructor may itself use the cell.",
 ["schedules", "histories"], "All interleavings of up to several threads and all sequential histories; both the C++11 spinlock build and the C++20 build.",
 "The tests run a few threads once; exactness under contention and re-entrancy need particular schedules.",
 ["atomic_shared_ptr_storage.hpp"], [("spinlock around the pointer", "atomic_shared_ptr_storage.hpp: asps_holder")])

prop("P23", "strong_try_rec_mutex: exclusive, recursive, never spuriously failing",
 "In every schedule, try_lock succeeds exactly when the mutex is free or held by the calling thread, fails (without blocking for the owner) exactly while another thread holds it, and becomes free again exactly when the owner has unlocked as often as it locked.",
 ["schedules", "histories"], "All interleavings of lock/unlock histories of several threads at any recursion depth.",
 "Tests lock from two threads in one order.",
 ["mutex.hpp"], [("owner and depth under a mutex", "mutex.hpp: try_lock, unlock")])

prop("P24", "data_mutex access is always under the right lock, released once",
 "The data of a data_mutex is reachable only through an accessor obtained with the matching lock operation (exclusive, shared, or their try forms), an accessor of a failed try gives no access, and each acquired lock is released exactly once, by the matching unlock, when the last (moved-to) accessor dies. Concurrent modifications through accessors are never lost.",
 ["schedules", "histories"], "All histories of lock kinds, moves, nesting and failing tries; several threads.",
 "Tests take each lock once.",
 ["data_mutex.hpp"], [("RAII lock wrappers", "data_mutex.hpp: *_lock_t")])

prop("P25", "shared_from and make_ptr: correct ownership in every combination",
 "shared_from/weak_from give pointers to exactly the requested object that share ownership with the owning shared pointer and keep the owner alive as long as they live; make_shared/make_unique create a copy of an lvalue and move from an rvalue; make_aliased is empty exactly when the owner is. No object is destroyed early, late or twice in any history of taking and dropping such pointers.",
 ["histories"], "All histories of creating, copying, aliasing, dropping and locking pointers in any order.",
 "Tests check a few use counts.",
 ["shared_from.hpp", "make_ptr.hpp"], [("aliasing constructor", "shared_from.hpp: shared_from, weak_from; make_ptr.hpp: make_aliased")])

prop("P26", "qalgorithm functions agree with their definitions for every container",
 "For every container, contents, value and predicate: find functions return the first match (or end/nullptr), erase_first removes exactly the first match and reports whether there was one, erase_all removes exactly all matches keeping the order of the rest and returns their number, and the all/any/none checks agree with the elements. Predicates given as lvalues stay as they were, ones given away are not copied.",
 ["inputs"], "All contents, values (also ones that are elements of the container itself are excluded), predicates and container kinds.",
 "Tests use one or two vectors.",
 ["qalgorithm.hpp"], [("wrappers", "qalgorithm.hpp: qfind, pfind, erase_first, erase_all, qall_of...")])

prop("P27", "strutil functions agree with their definitions for every string",
 "For all strings (embedded zeros, empty, overlapping patterns), starts_with and ends_with hold exactly when the text begins/ends with the pattern, remove_prefix_all and remove_suffix_all strip exactly the maximal number of repetitions and always terminate, and make_string_view denotes exactly the range given, as a view into the original characters.",
 ["inputs"], "All pairs of strings over small alphabets and arbitrary bytes.",
 "Tests use a few literals.",
 ["strutil.hpp"], [("comparisons and stripping", "strutil.hpp")])

prop("P28", "pmr_allocator: every allocation reaches the resource and returns intact",
 "Every allocation made through a pmr_allocator (bytes, objects, new_object, or as a container's allocator) goes to the resource it was made with, with the right size and alignment, and is returned to it with the same size and alignment. new_object gives a fully constructed object, or, if construction throws, returns the memory and propagates the exception; delete_object destroys exactly once.",
 ["histories", "fault_sequences"], "All histories of allocations of types of various size/alignment over several resources, constructors throwing at any point.",
 "Tests allocate one or two objects.",
 ["pmr_allocator.hpp"], [("forwarding to the resource", "pmr_allocator.hpp: allocate_bytes, new_object, ...")])

prop("P29", "utility, type_traits, atomic counter and throw_ex do what they say",
 "bit_cast preserves every bit pattern, owner_from_member inverts member access for every member, force_move moves, is_noop_convertible is true only for conversions that keep the bytes, a relaxed counter behaves as an integer with wrap-around whose concurrent operations are never lost and return values which fit one order of them, and throw_ex throws exactly the requested exception type with exactly the text streamed into it.",
 ["inputs", "schedules"], "All bit patterns and types, all members, all counter histories, all streamed texts.",
 "Tests use one value per function.",
 ["utility.hpp", "type_traits.hpp", "atomic.hpp", "throw_ex.hpp"], [("bytewise copies", "utility.hpp: bit_cast, owner_from_member"), ("relaxed counter", "atomic.hpp"), ("throwing destructor", "throw_ex.hpp")])

prop("P30", "transparent_umap is an unordered_map with heterogeneous lookup",
 "For every history, a transparent_umap contains what std::unordered_map would contain given the same calls with keys converted to the key type; with a transparent hash and comparison, try_emplace, operator[] and at accept any comparable key, construct a key only when inserting, and at throws out_of_range exactly for absent keys.",
 ["histories", "inputs"], "All operation histories with keys given as key type, views and literals; transparent and ordinary hashes.",
 "The tests check a few calls.",
 ["transparent_umap.hpp"], [("overload constraints", "transparent_umap.hpp: enable_if_tr, try_emplace, operator[], at")])

prop("P31", "Every header is self-contained, in any combination and order",
 "Every header compiles when included first, alone, twice, and in any order with any others, in every language standard it supports, and programs made of several such translation units link and behave identically. Every library is standalone: its header alone, copied to a folder without the others, is all a program needs.",
 ["programs", "configurations"], "All subsets and orders of the headers, repeated inclusions, standards C++11/14/17/20 as applicable, compilers gcc and clang.",
 "The tests include one header after a test framework that already includes half the standard library.",
 ["*.hpp"], [("include guards and includes", "all headers")])

prop("P32", "Debug checks and error-handling settings do what they say",
 "With assertions on, indexing ([] and at) outside a small_vector, static_vector, span, stride_span, poly_span or memory_view fails an assertion before any memory is touched, whatever the index; indexing inside never does; NO_DEBUG_BOUNDS_CHECK and NDEBUG remove only these checks. The ERROR_HANDLING setting of small_vector and static_vector decides whether positions outside the vector or growth beyond the capacity throw out_of_range, assert, or both (throw if assertions are off), and FLAT_MAP_NO_THROW makes at() of a missing key assert instead of throw. In every configuration valid use gives the same results.",
 ["inputs", "histories", "configurations"], "All indices up to SIZE_MAX, sizes, positions and counts, in each documented configuration.",
 "The tests are built in one configuration and cannot survive an assertion; a check missing for one index or operation goes unnoticed.",
 ["small_vector.hpp", "static_vector.hpp", "span.hpp", "stride_span.hpp", "poly_span.hpp", "memory_view.hpp", "flat_map.hpp"],
 [("bounds check macros", "I_ITLIB_*_BOUNDS_CHECK in at() of each header"), ("error handling macros", "I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF, I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF, I_ITLIB_THROW_FLAT_MAP_OUT_OF_RANGE")])

prop("P33", "No hidden shared state: distinct objects and const reads are thread-safe",
 "Different threads may use different objects of every type of the library, call its free functions (time conversions, strftime, algorithms, string functions, throw_ex), and read the same object through const operations, concurrently: there is no data race, and each thread gets the results it would get alone.",
 ["schedules", "histories"], "All scripts of operations of several threads over all types of the library.",
 "The tests of these types are single-threaded; hidden static state (scratch buffers, non-reentrant C functions, lazily cached values) is invisible to them.",
 ["time_t.hpp", "any.hpp", "small_vector.hpp", "flat_map.hpp", "dynamic_bitset.hpp", "expected.hpp", "mem_streambuf.hpp", "throw_ex.hpp", "ufunction.hpp", "transparent_umap.hpp"],
 [("reentrant conversions", "time_t.hpp: gmtime, localtime"), ("no state outside of objects", "all headers")])

prop("P34", "A failed operation leaves every object valid and leaks nothing",
 "When memory runs out, or copying or constructing an element or comparing keys throws (moves and destructors do not throw), in an operation of small_vector, static_vector, pod_vector (with a throwing allocator), flat_map, flat_set, transparent_umap, dynamic_bitset, any, expected, make_unique/make_shared or mem_ostreambuf, the exception reaches the caller (a stream's badbit for stream output), no element or memory is leaked or destroyed twice, and every object stays usable. A failed reserve, shrink_to_fit, push_back, emplace or insert of a vector, map or set, a failed lookup or erasure by key, a failed resize or append of a bitset, a failed write to a stream buffer and a failed assignment to an any leave the contents as they were; a failed resize of a vector keeps the old elements; a failed assignment of a vector, map or set leaves a valid one (sorted by its comparator) of old or new elements. Growing a small_vector or dynamic_bitset to a size that cannot exist throws.",
 ["fault_sequences", "histories"], "Every place of every operation at which an allocation, element construction, element copy or key comparison can throw, over all histories.",
 "The tests inject no failures: what is left behind depends on which place fails and on the state (static or heap storage, position, capacity) at that moment.",
 ["small_vector.hpp", "static_vector.hpp", "pod_vector.hpp", "flat_map.hpp", "flat_set.hpp", "dynamic_bitset.hpp", "any.hpp", "expected.hpp", "mem_streambuf.hpp", "transparent_umap.hpp", "make_ptr.hpp"],
 [("holes closed on failure", "small_vector.hpp, static_vector.hpp: hole_filler, emplace"), ("storage adopted before elements", "small_vector.hpp: reset_data"), ("block freed when construction throws", "any.hpp: emplace, copy_from"),
  ("size set after the buffer", "dynamic_bitset.hpp: resize"), ("assignment through an empty container", "flat_map.hpp, flat_set.hpp: operator=")])

prop("P35", "Operations cost no more than their class promises",
 "For every size and contents: flat_map and flat_set lookups, insertions of present keys and erasures of missing ones take a logarithmic number of comparisons, building one from n elements takes O(n log n) and iterating none; appending n elements one by one to a small_vector, pod_vector, dynamic_bitset or mem_ostreambuf takes a logarithmic number of allocations and (amortised) a constant number of element operations each; inserting or erasing in a vector within its capacity touches only the elements inserted, erased or behind them and allocates nothing; moving or swapping heap-held small_vectors, flat maps and sets, any and ufunction touches no element and allocates nothing; library objects which are elements of a vector are moved, never copied, when it grows, shifts or is sorted; qalgorithm functions call the comparison or predicate at most once per element.",
 ["inputs", "histories"], "Every size, position and order of insertion: a cost class is a statement about growth, not about one size.",
 "The tests look at results of small objects, which stay right when a binary search becomes linear or growth becomes quadratic.",
 ["flat_map.hpp", "flat_set.hpp", "small_vector.hpp", "static_vector.hpp", "pod_vector.hpp", "dynamic_bitset.hpp", "mem_streambuf.hpp", "any.hpp", "ufunction.hpp", "qalgorithm.hpp"],
 [("binary search", "flat_map.hpp, flat_set.hpp: lower_bound, find"), ("growth by 1.5", "small_vector.hpp: choose_data; pod_vector.hpp: get_new_capacity"), ("adopting the container's growth", "mem_streambuf.hpp: cap_resize_by"),
  ("stealing buffers", "small_vector.hpp: move operations")])

prop("P36", "Library types compose: trees of them behave as trees of std types",
 "Library types can hold one another to any depth (small_vector, static_vector, pod_vector, dynamic_bitset, flat_map and flat_set over any of the containers, any, expected and ufunction as elements, mapped values, keys, contents, values, errors and captures). After any history of edits at any level (inserting, erasing, assigning, swapping, moving and copying subtrees) such a tree is exactly the tree the same calls give with std types: copies are deep and independent, moving a subtree carries it whole and leaves nothing behind, copying a tree with a content which cannot be copied throws bad_cast and changes nothing, and every leaf is destroyed exactly once. Written through a mem_ostreambuf and read back through a mem_istreambuf or a redirect_rstream it is equal, and spans, stride_spans, poly_spans and generators over it visit the same nodes in order.",
 ["histories", "inputs"], "Every nesting of the types and every history of edits at any level of the structure.",
 "The tests use each type with plain elements; that the copy, move and destruction of one type do the right thing for another type at every depth is a product of types, positions and histories.",
 ["any.hpp", "small_vector.hpp", "static_vector.hpp", "flat_map.hpp", "flat_set.hpp", "expected.hpp", "pod_vector.hpp", "dynamic_bitset.hpp", "ufunction.hpp", "mem_streambuf.hpp", "rstream.hpp", "generator.hpp"],
 [("cloning of contents", "any.hpp: clone_to, copy_from"), ("taking over buffers", "small_vector.hpp: take_impl; static_vector.hpp: move operations and swap"), ("union of value and error", "expected.hpp: move operations")])

# -------------------------------------------------------------------------------------------------
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    ids = [p["id"] for p in P]
    checks, na = [], []
    for i in ids:
        if i in CHECKS:
            c = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "model-based property testing with shrinking; coverage-guided fuzzing in the thorough tier"),
                           "level": "exploration", "level_note": c["note"]})
        else:
            na.append({"property": i, "reason": "property-based check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "Every check compiles its harnesses from /repo/include at run time; no hooks in /repo are needed. Replays: python3 run.py <id> replay <file>."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")

main()
