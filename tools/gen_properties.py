#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
I = "include/sfl/"
SEQ = [I+n+".hpp" for n in "vector devector compact_vector segmented_vector segmented_devector small_vector static_vector".split()]
ORD = [I+p+s+".hpp" for p in ("small_","static_") for s in "flat_set flat_map flat_multiset flat_multimap".split()]
UNO = [I+p+s+".hpp" for p in ("small_","static_") for s in "unordered_flat_set unordered_flat_map unordered_flat_multiset unordered_flat_multimap".split()]
PRIV = [I+"private.hpp"]
def P(id, title, stmt, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": stmt, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}
T = []
T.append(P("C01", "Sequence containers behave as the sequence they model",
 "After any history of valid operations, each of the seven sequence containers (vector, devector, compact_vector, segmented_vector, segmented_devector, small_vector, static_vector) holds exactly the elements, in exactly the order, that the same history produces on an abstract sequence. Every operation (construction, assign, insert, emplace, push, pop, erase, resize at either end, clear, swap, access, iteration in both directions, and non-member erase/erase_if) returns the position, reference, count or value that abstract sequence dictates. No operation disturbs elements it is not documented to touch.",
 ["inputs","histories"], "All histories of public operations with all valid arguments, for every sequence container, element type and inline/segment size.",
 "The tests check one hand-made state per operation; the branches depend on the combination of position, gap before/after, capacity, segment boundaries and size, which only arbitrary histories reach.",
 SEQ+PRIV, [("single-element and range insertion, in place and reallocating", "each sequence header, emplace / insert_range / insert_fill_n"),("devector shift/grow case split", I+"devector.hpp insert_aux*"),("segmented copy/move/fill algorithms", I+"private.hpp segmented_*")],
 ["return values of public members","full traversal after every operation"]))
T.append(P("C02", "Ordered flat sets and maps: sorted, unique-keyed, exact lookup",
 "After any history of valid operations the elements of an ordered flat set, map, multiset or multimap are sorted by the container's comparator, contain no two equivalent keys (set/map) or every inserted equivalent element with already present equivalents keeping their relative order (multiset/multimap), and each key keeps the mapped value the history gave it. find, count, contains, lower_bound, upper_bound, equal_range, at and subscript agree with a reference ordered container, and every insertion or erasure (hinted or not, single, range, or by key) reports the right position, count and success flag.",
 ["inputs","histories"], "All histories, all keys and hints (right, wrong, and at the ends), all comparators that are strict weak orders including reversed, modular and stateful ones.",
 "Tests insert short fixed sequences with correct hints; binary search and hint logic depend on the relation between key, hint and neighbours for every container content.",
 ORD+PRIV, [("hinted insertion-point search", "flat headers, calculate_position_for_insert_hint_*"),("binary searches", "flat headers, lower_bound/upper_bound/equal_range"),("range construction/insert", "flat headers, insert_range*/initialize_range")],
 ["full traversal after every operation","lookup results for every key of the domain"]))
T.append(P("C03", "Unordered flat containers: exact contents under the key equality",
 "After any history of valid operations an unordered flat set, map, multiset or multimap holds exactly the elements an abstract (multi)set or (multi)map under the container's key equality would hold, each key with its mapped value. Lookups, counts, insertion and erasure results agree with that abstract container; iterating while erasing through the returned iterators visits every element exactly once. Equality of two such containers holds exactly when one is a permutation of the other.",
 ["inputs","histories"], "All histories, keys, hints and key-equality predicates that are equivalence relations.",
 "Tests use a handful of keys in one order; erase fills holes from the end and equality is permutation-based, so errors show only for particular layouts and multiplicities.",
 UNO+PRIV, [("linear key search", "unordered headers, find"),("hole-filling erase", "unordered headers, erase"),("permutation equality", "unordered headers, operator==")],
 ["full traversal after every operation","lookup results for every key of the domain"]))
T.append(P("C04", "No memory error or undefined behaviour in any valid use",
 "No sequence of valid operations on any container, with any conforming element type (including over-aligned types, types overloading unary operator& or comma, trivial types and move-only types) and any valid inline or segment size, makes the library read or write outside live storage, read uninitialized or freed memory, misalign an object, form an invalid pointer offset, overflow a signed integer or otherwise execute undefined behaviour.",
 ["inputs","histories","configurations"], "All operation histories, element types, alignments, sizes and standards/compilers.",
 "Valgrind on the unit tests sees only the states those tests build and is blind to intra-allocation slack, inline-storage overflow and language-level undefined behaviour.",
 SEQ+ORD+UNO+PRIV, [("uninitialized storage management","private.hpp uninitialized_* and *_a helpers"),("inline storage","small_*/static_* headers"),("segment table arithmetic","private.hpp segmented_iterator; segmented_* headers")],
 ["AddressSanitizer/UndefinedBehaviorSanitizer reports","spare capacity poisoned by the harness allocator and element guards"]))
T.append(P("C05", "Every element is constructed once, used while alive, destroyed once",
 "Through any history, every element object the library creates is constructed exactly once at its address before any access, never assigned to, moved from, compared or read before construction or after destruction, and destroyed exactly once; no live object is overwritten by a new construction or relocated by copying bytes unless its type is trivially copyable. At every quiescent point the live element objects of a container are exactly the elements it reports, and when a container dies none survives. Elements never end an operation in moved-from state unless the caller moved from them.",
 ["histories","inputs"], "All histories of valid operations on all containers with non-trivial element types.",
 "Tests count constructions only in a few exact scenarios; leaks or double destruction depend on gap sizes, overlap of source and destination, and the chosen reallocation path.",
 SEQ+ORD+UNO+PRIV, [("construct/destroy helpers","private.hpp construct_at_a, destroy_a, uninitialized_*_a"),("shift helpers","insert/erase in all headers")],
 ["instrumented element type registry of live addresses"]))
T.append(P("C06", "Allocators are used exactly as the allocator model requires",
 "All dynamic storage comes from the container's allocator and returns, with the same size and exactly once, to an allocator that compares equal to the one that supplied it; nothing is left allocated when a container dies. Elements are constructed and destroyed through the allocator traits; copy, move, swap and allocator-extended operations propagate or keep allocators as the propagation traits, select_on_container_copy_construction and equality say, and elements move individually when allocators differ and do not propagate. This holds for stateful allocators and allocators with fancy pointers.",
 ["histories","configurations"], "All histories over several containers with different allocators, for every combination of propagation traits.",
 "Tests use one stateful allocator on a few operations; a wrong branch of the propagation matrix is visible only for unequal allocators combined with a later deallocation.",
 [f for f in SEQ+ORD+UNO if "static_" not in f]+PRIV, [("allocator holding base class","data_ in dynamic headers"),("propagation helpers","assign_copy/assign_move/swap; private.hpp")],
 ["instrumented allocator log: allocate, deallocate, construct, destroy, propagation"]))
T.append(P("C07", "Basic exception safety at every throwing point",
 "If a user-supplied operation (element construction, copy, move or assignment, comparator or predicate, allocation, iterator operation) throws at any point during any library operation, the exception reaches the caller unchanged, no memory or element is leaked or destroyed twice, and each container involved stays valid: its reported elements are exactly the live ones (still ordered and unique where the failure was in a comparator, key equality or allocation of a single insertion, lookup or erasure), and it can be queried, cleared, reassigned, refilled and destroyed. A constructor that throws leaves nothing behind. Observers, clear and the default constructors documented noexcept are declared noexcept for every element, comparator and allocator type.",
 ["fault_sequences","histories"], "Every operation from every reachable state, with the fault at every one of its throwing points.",
 "The tests contain no fault injection, so none of the roll-back code (scope guards, catch blocks) ever runs.",
 SEQ+ORD+UNO+PRIV, [("scope guards","private.hpp scope_guard; insertion paths"),("rollback in uninitialized algorithms","private.hpp SFL_TRY/SFL_CATCH")],
 ["element registry and allocator registry after each injected fault","follow-up operations on the surviving containers"]))
T.append(P("C08", "Documented strong exception guarantee of capacity changes",
 "When reserve, reserve_front, reserve_back or shrink_to_fit fails on a contiguous container whose element type is copyable or nothrow-movable, the container is left exactly as before: same elements, same values, same order, same capacity. On the segmented containers a failing capacity change leaves every element where and as it was. An argument above the maximum size fails with a length error and no effect.",
 ["fault_sequences","inputs"], "Every container with such an operation, every reachable state, every failing allocation or element operation.",
 "The tests never make an allocation or element operation fail during these calls.",
 [I+f+".hpp" for f in "vector devector segmented_vector segmented_devector small_vector".split()]+[f for f in ORD+UNO if "small_" in f]+PRIV,
 [("move_if_noexcept relocation","private.hpp uninitialized_move_if_noexcept_a; reserve/shrink_to_fit"),("rollback guards","same functions")],
 ["snapshot comparison around each injected fault"]))
T.append(P("C09", "References and iterators stay valid as documented",
 "Reserve and shrink operations that do not change the capacity invalidate nothing; on the segmented containers they never move elements; insertion at an end of a segmented container never moves existing elements. In the contiguous containers, operations that fit in the existing capacity never reallocate, elements before the insertion or erasure point keep their addresses and values (on the far side of the shift for the double-ended ones), and swap or move construction of dynamically stored elements hands the same element objects over without copying or moving them.",
 ["histories"], "All histories; every element address and iterator taken before the operation.",
 "Tests compare contents, not the addresses of surviving elements, so an unnecessary relocation is invisible to them.",
 SEQ+[f for f in ORD+UNO if "small_" in f]+PRIV, [("capacity-preserving fast paths","reserve/shrink_to_fit early returns"),("segment reuse","segmented headers, table growth")],
 ["addresses of all elements before and after each operation"]))
T.append(P("C10", "Capacity contract and growth",
 "size never exceeds capacity or max_size; reserve makes capacity at least the request, shrink_to_fit reduces it to the size (or to the inline or segment granularity), available counts are exactly what can be inserted without allocating, and clear, pop and erase never change capacity. After reserving, that many insertions at the reserved end perform no allocation; compact_vector always has capacity equal to size. Repeated insertion at an end performs a number of allocations logarithmic in the element count for contiguous growing containers and proportional to elements per segment for segmented ones.",
 ["histories","inputs"], "All histories of size- and capacity-affecting operations on all containers.",
 "Tests assert a few exact capacities; the accounting must hold after every mixture of front/back growth, shrink, move and swap.",
 SEQ+ORD+UNO+PRIV, [("growth computation","calculate_new_capacity; grow_storage_*"),("capacity accessors","capacity/available*")],
 ["allocation events of the instrumented allocator between operations","capacity/available queries"]))
T.append(P("C11", "Inline storage: small containers allocate only beyond N, static never",
 "A static container never allocates and keeps every element inside its own object, up to exactly N elements. A small container, whether fresh or at any later moment after shrink_to_fit with at most N elements, holds its elements inside its own object, and a history whose sizes and reservations never exceed N performs no allocation at all, including across copy, move, swap and assignment with other such containers.",
 ["histories","inputs"], "All histories that stay within N (no allocation) or cross N in both directions, for all N including 0 and 1.",
 "Tests check addresses or allocation counts only in few fixed scenarios at one N.",
 [I+"small_vector.hpp", I+"static_vector.hpp"]+ORD+UNO+PRIV, [("inline buffer","small_*: internal_storage; static_*: data_")],
 ["allocation log; element addresses against the container object's extent"]))
T.append(P("C12", "Documented complexity bounds",
 "Every operation performs a number of element, comparator and predicate operations within its documented complexity: amortized constant at the supported ends, constant for the segmented ends, linear in the distance to the nearer end for double-ended insertion and erasure, logarithmic comparisons for ordered lookups, linear for unordered ones, constant for swap, move and clear of trivial bookkeeping. No iterator or index operation depends on the container size.",
 ["inputs","histories"], "All sizes, positions and contents; counts rather than wall-clock.",
 "The tests use tiny containers and do not count operations; a quadratic loop or a wrong-side shift gives the same results.",
 SEQ+ORD+UNO+PRIV, [("nearer-end selection","devector/segmented_devector emplace/insert/erase"),("binary search","flat headers"),("geometric growth","calculate_new_capacity")],
 ["operation counters in elements, comparators, predicates and allocators"]))
T.append(P("C13", "Arguments may alias the container's own elements",
 "push, emplace, insert of single values and of n copies, insert_or_assign, try_emplace, erase by key and resize with a value give the same result when an argument refers, directly or indirectly, to an element of the same container as when it refers to an equal object elsewhere, whether or not storage is reallocated or elements shift. Copy-assigning a container to itself and swapping it with itself leave it unchanged.",
 ["inputs","histories"], "Every such operation, every aliased position, every insertion position and every capacity state.",
 "Aliasing tests exist for few operations at one position; corruption appears only for particular relations between alias position, insert position and spare capacity.",
 SEQ+ORD+UNO+PRIV, [("temporary value before shifting","emplace/insert in all headers (temporary_value, scoped copies)")],
 ["contents compared with the run that uses an external copy"]))
T.append(P("C14", "Iterators, positions and indices agree",
 "Iterators of every container satisfy the random-access laws: advancing, distance, difference, subscript, ordering and equality agree with element indices over all pairs of positions including both ends, increments and decrements are inverse, and const, mutable and reverse iterators denote the same elements. nth(i), index_of(it), begin()+i, operator[](i), at(i) and data()+i name the same element, and standard algorithms run over the iterators give the results they give on a plain array.",
 ["inputs","histories"], "All positions and pairs of positions in containers of every size and layout, for all segment sizes.",
 "Tests walk a container forward and back; segmented iterator arithmetic has boundary cases at each segment edge and at end-of-segment positions.",
 SEQ+ORD+UNO+PRIV, [("normal_iterator","private.hpp"),("segmented_iterator","private.hpp"),("nth/index_of","all headers")],
 ["results of iterator expressions against index arithmetic"]))
T.append(P("C15", "Result is independent of how a range is supplied",
 "Constructing from, assigning from or inserting a range gives the same contents and result whether the range comes from a single-pass input iterator, a forward, bidirectional, random-access, pointer or move iterator, an initializer list or equivalent single insertions. Single-pass ranges are read exactly once, in order, never past the end; every range element is dereferenced once where the category demands it; source elements are only moved from through move iterators.",
 ["inputs","histories"], "All ranges (empty, one element, beyond capacity), positions and container states, all iterator categories.",
 "Tests use one range per category in one state, and cannot see double reads of a single-pass source.",
 SEQ+ORD+UNO+PRIV, [("category dispatch","private.hpp is_exactly_input_iterator/is_forward_iterator; assign_range/insert_range")],
 ["instrumented iterators over a monitored source"]))
T.append(P("C16", "Errors are reported, not absorbed",
 "at() with an index out of range or an absent key throws out_of_range; any request whose resulting size or capacity would exceed max_size throws length_error, without overflow in the size computation, and capacity never exceeds max_size; the container is unchanged and nothing leaks (a refused single-pass range or a refused range insertion into an associative container may leave a part of the range inserted). With exceptions disabled by the library's configuration macro, the same errors end in abort and never in silent continuation.",
 ["inputs","histories","configurations"], "All indices and keys, all requested sizes up to the limits of the size type, from every container state and allocator maximum.",
 "Tests try a single bad index and one length error; arithmetic near the maxima and intermediate states are not exercised, and the no-exceptions configuration is not built.",
 SEQ+ORD+UNO+PRIV, [("check_size / calculate_new_capacity","dynamic headers"),("throw_length_error, throw_out_of_range","private.hpp")],
 ["exceptions observed by the caller; state before/after; abort in a child process"]))
T.append(P("C17", "Debug assertions: fire on documented misuse, silent on valid use",
 "With assertions enabled, calling an operation outside its documented precondition (empty pop/front/back, index or iterator position out of range, reversed or foreign erase range, overfilling a static container) terminates with an assertion failure before memory is corrupted. No assertion ever fires during valid use, and disabling assertions changes no result of valid use.",
 ["inputs","histories","configurations"], "Every operation with a documented precondition, each way of breaking it, from many states; all valid histories.",
 "Tests only exercise valid calls, so a missing or inverted assertion goes unnoticed.",
 SEQ+ORD+UNO+PRIV, [("SFL_ASSERT","all headers"),("SFL_ASSERT definition","private.hpp")],
 ["exit status and message of a forked child that commits one misuse"]))
T.append(P("C18", "Concurrent const access and disjoint containers are race-free",
 "Any number of threads may call const members of one container at once, and different threads may use different containers (even ones copied or moved from each other, or sharing a type) without synchronization, with no data race and with correct results. The library keeps no hidden shared mutable state.",
 ["schedules"], "All interleavings of const operations on a shared container and of mutating operations on distinct containers.",
 "The tests are single-threaded.",
 SEQ+ORD+UNO+PRIV, [("const members without mutable state","all headers"),("absence of static mutable data","private.hpp, all headers")],
 ["ThreadSanitizer reports and per-thread result checks"]))
T.append(P("C19", "Comparisons are value-based, consistent and total where ordered",
 "The comparison operators of every container depend only on element values and order (or on the multiset of elements, for unordered ones), never on capacity, storage location or history: == and != are complementary, the four ordering operators agree with lexicographical comparison and with each other. Sequences of differing lengths and common prefixes compare as lexicographical order dictates.",
 ["inputs","histories"], "All pairs of container states.",
 "Tests compare few fixed pairs, mostly with one difference at the end.",
 SEQ+ORD+UNO+PRIV, [("non-member comparison operators","end of each header")],
 ["results of all six operators on pairs of containers against the model"]))
T.append(P("C20", "Heterogeneous lookup equals lookup by key, without building a key",
 "With a transparent comparator or key equality, find, count, contains, lower_bound, upper_bound, equal_range, at, subscript, erase, insert_or_assign, try_emplace and set insertion by a comparable foreign object give the same result as the operation with an equivalent key, and no key object is constructed unless an element is inserted; then exactly one is, from the forwarded object with its value category. With a non-transparent one, keys convert as usual and the result is the same.",
 ["inputs","histories"], "All contents, foreign keys (present, absent, matching several elements) and hints.",
 "Tests call each overload once with a key matching one element.",
 ORD+UNO+PRIV, [("template overloads on K","all associative headers")],
 ["key constructions counted by the instrumented key type; results against key-typed calls"]))
T.append(P("C21", "Copy, move, swap and assignment transfer values and leave valid objects",
 "A copy equals its source and shares nothing with it: later changes to either do not show in the other. Move construction, move assignment and swap give the destination exactly the source's former value, work for move-only elements and use no copies; the moved-from container stays valid and can be queried, refilled and destroyed. Self-contained transfers between containers in any combination of storage states (empty, inline, dynamic, spare capacity at either end) keep comparator and predicate state with the elements. Inserting an rvalue, erasing and changing capacity move elements and never copy them (elements whose move may throw can be copied where storage is replaced), and constructor arguments are forwarded with their value category.",
 ["histories","inputs"], "All pairs of container states and all transfer operations, chained arbitrarily, for copyable and move-only element types.",
 "Tests transfer between containers in one or two storage-state combinations and rarely use the source afterwards.",
 SEQ+ORD+UNO+PRIV, [("initialize_copy/move, assign_copy/move, swap","all headers")],
 ["both containers' contents and usability after each transfer; copy/move counters"]))
T.append(P("C22", "Operations without effect leave container and arguments untouched",
 "An insertion into a set or map that does not insert because an equivalent key exists leaves the container bit-for-bit as it was and does not move from the arguments of try_emplace, insert_or_assign's key, or single-value insert; insert_or_assign then assigns only the mapped value and keeps the original key. Erasing an absent key, an empty range, inserting an empty range or zero copies, resizing to the current size and reserving less than the capacity change nothing, move no element and return the documented position.",
 ["inputs","histories"], "All container states and all no-effect calls, hinted and not.",
 "Tests check that the duplicate is not inserted, not what happened to the argument objects, addresses or operation counts.",
 SEQ+ORD+UNO+PRIV, [("existing-key checks","map/set insert, try_emplace, insert_or_assign"),("zero-length early returns","insert/erase/resize")],
 ["argument values after the call; element operation counters; addresses"]))
T.append(P("C23", "Results do not depend on build configuration",
 "For the same history of valid operations, every build configuration the library supports (C++11 through C++23, GCC or Clang, optimized or not, assertions on or off, exceptions on or off) produces identical contents, return values, sizes and capacities. No configuration changes which valid programs compile for the documented API.",
 ["configurations","histories"], "All supported configurations crossed with arbitrary histories.",
 "The test script runs two configurations and compares neither results nor capacities between them.",
 SEQ+ORD+UNO+PRIV, [("feature macros","private.hpp SFL_CXX_VERSION, SFL_NO_EXCEPTIONS, SFL_ASSERT")],
 ["digest of every return value, content, size and capacity per history, compared across builds"]))
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in T:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(T), "properties")
