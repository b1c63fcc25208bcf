"""What each check builds and runs. Case counts (not seconds) bound every workload."""
from run import Build, Run

SEQ = [("vector", 0), ("devector", 0), ("compact_vector", 0), ("segmented_vector", 1), ("segmented_vector", 3),
       ("segmented_devector", 1), ("segmented_devector", 4), ("small_vector", 0), ("small_vector", 5), ("static_vector", 10)]

def lab(c, n):
    return c if n is None or c in ("vector", "devector", "compact_vector") else "%s_N%d" % (c, n)

def seq_builds(src, cases, thorough, only=None, shards=2, defs=(), variants=SEQ, label_suffix="", **kw):
    out = []
    for c, n in variants:
        if only and c not in only:
            continue
        out.append(Build(lab(c, n) + label_suffix, src, ["VF_" + c, "VF_N=%d" % n] + list(defs), runs=[Run(cases, thorough, shards)], **kw))
    return out

def layout_builds(src, cases, thorough, defs=(), **kw):
    """histories of exact layouts of the double-ended containers (elements, spare capacity at either end), one insertion each"""
    return seq_builds(src, cases, thorough, defs=["VF_LAYOUTS"] + list(defs), variants=[("devector", 0), ("segmented_devector", 1), ("segmented_devector", 4)], label_suffix="_layouts", **kw)

ASSOC = ["%s_%sflat_%s" % (p, u, n) for p in ("small", "static") for u in ("", "unordered_") for n in ("set", "map", "multiset", "multimap")]

def assoc_builds(src, cases, thorough, only=None, shards=1, defs=(), label_suffix="", **kw):
    out = []
    for c in ASSOC:
        if only and not only(c):
            continue
        kind = ("map" in c) * 1 + ("multi" in c) * 2 + ("unordered" in c) * 4 + c.startswith("static") * 8
        out.append(Build(c + label_suffix, src, ["VF_AC=" + c, 'VF_HDR="sfl/%s.hpp"' % c, "VF_KIND=%d" % kind] + list(defs), runs=[Run(cases, thorough, shards)], **kw))
    return out

ordered = lambda c: "unordered" not in c
unordered = lambda c: "unordered" in c

MODEL = "runtime monitoring: random histories on the real headers under AddressSanitizer, compared after every operation with an abstract model (online oracle)"
FAULT = "runtime monitoring: fault injection at every throwing point of an operation (allocation, element, comparator, iterator) with live-object, allocation and contents monitors under AddressSanitizer"

def C01(tier):
    return dict(level="exploration", technique=MODEL,
        note="all histories are sampled, not enumerated; each operation of each history is checked for contents, return value and iteration in both directions",
        builds=seq_builds("seq_model.cpp", 6000, 400000) + layout_builds("seq_model.cpp", 6000, 300000)
             + seq_builds("seq_model.cpp", 1500, 100000, variants=[("segmented_vector", 128), ("segmented_devector", 100), ("small_vector", 300), ("static_vector", 700)]),
        rule="random histories (50-200 operations over three containers) of all public operations, 5 element/allocator configurations per container; "
             "evaluations = operations executed and compared with the abstract sequence; distinct = distinct (operation, size, spare capacity front/back, position, count, source category, aliasing) situations seen",
        assumptions=["element values are unique counters with deliberate repeats, so misplaced elements are visible"])

ASSOC_RULE = ("random histories (50-200 operations over three containers, five key/mapped/allocator/N configurations per container) of all public operations; keys carry a class and a tag, "
    "the comparator is a stateful object with four run-time orders (by class, reversed, modular, exact), lookups with key, foreign and group keys on const and non-const containers after half of all operations; "
    "evaluations = operations executed and compared; distinct = distinct (operation, size, spare capacity, hint position, count, source category, existing/aliased) situations")

def C02(tier):
    return dict(level="exploration", technique=MODEL,
        note="histories are sampled; every operation's result, order, uniqueness and lookups are compared with a sorted model",
        builds=assoc_builds("assoc_model.cpp", 6000, 300000, only=ordered, shards=2), rule=ASSOC_RULE,
        assumptions=["comparators are strict weak orders", "the order among equivalent elements is not documented; the returned iterator defines it, existing equivalents must keep theirs"])

def C03(tier):
    return dict(level="exploration", technique=MODEL,
        note="histories are sampled; contents compared as multisets with an abstract (multi)map after every operation",
        builds=assoc_builds("assoc_model.cpp", 6000, 300000, only=unordered, shards=2), rule=ASSOC_RULE,
        assumptions=["key equality predicates are equivalence relations", "iteration order is unspecified"])

def C07(tier):
    return dict(level="fault_enumeration", technique=FAULT,
        note="within one (history, operation) case every throwing point is enumerated; histories are sampled",
        builds=seq_builds("seq_fault.cpp", 1500, 120000) + layout_builds("seq_fault.cpp", 4000, 200000) + assoc_builds("assoc_fault.cpp", 1200, 60000),
        rule="each case is a random history plus one final operation that is re-executed with an exception injected at its 1st, 2nd, ... throwing point until it completes; "
             "after each fault: exception identity, live elements = reported elements, no leak, no double destroy, all containers usable afterwards; the documented noexcept operations are queried for their declaration (noexcept_documented); distinct = distinct (operation, throw point index, size, position, count)",
        assumptions=["destructors and swaps of allocators, comparators do not throw"])

def C08(tier):
    return dict(level="exploration", technique=FAULT,
        note="every throwing point of every sampled reserve/shrink call is enumerated",
        builds=seq_builds("seq_fault.cpp", 4000, 200000, defs=["VF_STRONG"], only=["vector", "devector", "segmented_vector", "segmented_devector", "small_vector"])
             + assoc_builds("assoc_fault.cpp", 1500, 80000, defs=["VF_STRONG"], only=lambda c: c.startswith("small")),
        rule="random history, then reserve/reserve_front/reserve_back/shrink_to_fit with an exception at each throwing point in turn; contents, order, capacity (contiguous) and element addresses (segmented) compared with the state before the call",
        assumptions=["guarantee claimed for copyable or nothrow-movable element types only, as documented"])

MON = "runtime monitoring: random histories on the real headers under AddressSanitizer with hooks before and after every library call; "
SMALLS = [("small_vector", 1), ("small_vector", 4), ("small_vector", 9), ("static_vector", 1), ("static_vector", 10)]
MRULE = ("random histories (50-200 operations over three containers, 3-6 element/allocator configurations per container type) on all 7 sequence and 16 associative containers; evaluations = library operations watched; "
    "distinct = distinct (operation, size, spare capacity, position, count, source category, aliasing) situations seen; ")
def mon(prop, sq, sqt, aq, aqt, defs=(), sdefs=(), only=None, aonly=None, variants=SEQ, ash=2, **kw):
    d = ["VF_PROP=%d" % prop] + list(defs)
    b = seq_builds("seq_mon.cpp", sq, sqt, defs=d + list(sdefs), only=only, variants=variants, **kw) if sq else []
    return b + (assoc_builds("assoc_mon.cpp", aq, aqt, defs=d, only=aonly, shards=ash, **kw) if aq else [])

MEMSEQ = [("vector", 0), ("devector", 0), ("compact_vector", 0), ("segmented_vector", 1), ("segmented_vector", 5),
          ("segmented_devector", 1), ("segmented_devector", 5), ("small_vector", 0), ("small_vector", 5), ("static_vector", 7)]
def C04(tier):
    AU = dict(san="address,undefined")
    MS = dict(san="memory", extra=["-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fsanitize-memory-track-origins=0"])
    b = []
    for h in (0, 1):
        b += seq_builds("seq_mem.cpp", 2500, 120000, defs=["VF_POISON", "VF_HALF=%d" % h], variants=MEMSEQ, label_suffix="_asan%d" % h, shards=1, **AU)
    b += seq_builds("seq_mem.cpp", 2500, 120000, variants=MEMSEQ, label_suffix="_msan", shards=1, **MS)
    b += seq_builds("seq_mem.cpp", 2500, 120000, variants=[("devector", 0), ("segmented_devector", 5)], defs=["VF_POISON", "VF_HALF=0", "VF_LAYOUTS"], label_suffix="_layouts", shards=1, **AU)
    b += assoc_builds("assoc_mem.cpp", 800, 50000, defs=["VF_POISON"], label_suffix="_asan", **AU)
    b += assoc_builds("assoc_mem.cpp", 800, 50000, label_suffix="_msan", **MS)
    if tier == "thorough":
        for o in ("-O2",):
            b += seq_builds("seq_mem.cpp", 2500, 60000, defs=["VF_POISON", "VF_HALF=0"], variants=MEMSEQ, label_suffix="_gcc", compiler="g++", opt=o, shards=1, **AU)
            b += assoc_builds("assoc_mem.cpp", 800, 30000, defs=["VF_POISON"], label_suffix="_gcc", compiler="g++", opt=o, **AU)
    return dict(level="exploration", technique="runtime monitoring: random histories under AddressSanitizer + UndefinedBehaviorSanitizer with spare element slots poisoned by the allocator, and under MemorySanitizer with raw storage undefined",
        note="the sanitizers decide; histories are sampled; inline spare slots are poisoned as well as heap ones",
        builds=b, rule=MRULE.replace("3-6", "3-5") + "element types: overloaded & and comma, over-aligned (64), padded, move-only, throwing, 1-8-16 byte trivial types, strings; raw and fancy pointers",
        assumptions=["addresses inside a partially used 8-byte granule are not distinguished by ASan", "MSan sees only instrumented code: element types avoid library code built without it"])

def C05(tier):
    return dict(level="exploration", technique=MON + "registry of live element objects, self-address and magic words detect every unconstructed access, double construction, double destruction, leak and byte-wise relocation",
        note="lifetimes are checked at every element operation of every sampled history",
        builds=mon(5, 6000, 300000, 1600, 80000) + layout_builds("seq_mon.cpp", 3000, 150000, defs=["VF_PROP=5"]), rule=MRULE + "element types: throwing-move, nothrow-move, move-only, copy-only, over-aligned, padded, overloaded & and comma",
        assumptions=["element operations are observed only for instrumented types"])

def C06(tier):
    b = []
    for h in (0, 1):
        for x in mon(6, 4000, 200000, 1500, 60000, defs=["VF_HALF=%d" % h]):
            x.label += "_h%d" % h; b.append(x)
    return dict(level="exploration", technique=MON + "monitored allocators record every block (address, count, size, allocator identity) and every construct/destroy; an allocator model predicts which allocator each container must hold",
        note="18 combinations of propagation traits, equality, copy-construction selection and pointer type",
        builds=b, rule=MRULE + "three or two allocator identities per history; every deallocation compared with its allocation, every get_allocator() with the model, live blocks zero at the end",
        assumptions=["swap of containers with unequal, non-propagating allocators is undefined and not exercised"])

def C09(tier):
    return dict(level="exploration", technique=MON + "addresses (and iterators) of all elements are recorded before each call and compared after it",
        note="compares element addresses, re-reads every old iterator where none may be invalidated, counts element operations of hand-overs",
        builds=mon(9, 6000, 300000, 1500, 80000), rule=MRULE + "counters addresses_compared, iterators_revalidated, fitting_insertions, handovers say what was seen",
        assumptions=["only documented stability: capacity-preserving operations, segmented ends, contiguous insertions within capacity, swap and move of dynamic storage"])

def C10(tier):
    return dict(level="exploration", technique=MON + "capacity, available counts and allocations are compared with the documented contract around each call; growth is counted over long runs of insertions",
        note="probes insert exactly the advertised number of elements; growth runs count allocations over thousands of insertions",
        builds=mon(10, 5000, 250000, 900, 50000) + growth_builds(), rule=MRULE + "probes = containers filled to exactly their advertised room",
        assumptions=["a moved-from small container may report capacity 0 until it is used again", "double-ended containers may use slack at the other end instead of allocating"])

COSTSEQ = [("vector", 0), ("devector", 0), ("compact_vector", 0), ("segmented_vector", 1), ("segmented_vector", 16),
           ("segmented_devector", 1), ("segmented_devector", 16), ("small_vector", 8), ("static_vector", 2100)]
def growth_builds():
    return seq_builds("cost_seq.cpp", 400, 30000, defs=["VF_PROP=10"], variants=COSTSEQ, opt="-O1", san="", label_suffix="_growth") + \
        assoc_builds("cost_assoc.cpp", 60, 3000, defs=["VF_PROP=10"], opt="-O1", san="", label_suffix="_growth")

def C12(tier):
    return dict(level="exploration", technique="runtime monitoring: instrumented elements, comparators and allocators count constructions, assignments, comparisons and allocations of single calls on large containers; an oracle compares the counts with the documented complexity; CPU time of constant-time members is compared between a small and a very large container",
        note="bounds are 2-4 times the documented cost so that any reasonable implementation stays below; asymptotic degradation exceeds them at the sizes used",
        builds=seq_builds("cost_seq.cpp", 600, 30000, defs=["VF_PROP=12"], variants=COSTSEQ, opt="-O1", san="") + assoc_builds("cost_assoc.cpp", 600, 30000, opt="-O1", san=""),
        rule="each case builds containers of 150-2000 elements (20000-400000 for the constant-time members) with spare capacity and measures every operation at a random position; evaluations = operations measured; distinct = distinct (operation, size, position, count)",
        assumptions=["costs with spare capacity; compact_vector reallocates on every size change by design"])

def C11(tier):
    return dict(level="exploration", technique=MON + "every element address is compared with the extent of the container object; allocator calls and global operator new are counted during each call",
        note="half of the histories never exceed N and must never allocate, the other half cross N and come back",
        builds=mon(11, 12000, 400000, 3000, 120000, defs=["VF_HOOK_NEW"], variants=SMALLS), rule=MRULE + "inline_checked, returned_inline, moved_from_refilled_inline count the storage checks",
        assumptions=["std::initializer_list and range arguments are built by the harness outside the watched call"])

def C13(tier):
    return dict(level="exploration", technique=MON + "arguments refer (directly or through another object) to the container's own elements in most calls; results are compared with the abstract model in which the value was captured first",
        note="aliasing insertions at every kind of position with and without spare capacity at either end",
        builds=mon(13, 8000, 400000, 2500, 120000) + layout_builds("seq_mon.cpp", 4000, 200000, defs=["VF_PROP=13"]), rule=MRULE + "75% of value arguments alias an own element",
        assumptions=["moving from an own element and assigning from it with assign(n, own) are the caller's error"])

ITSEQ = [("vector", 0), ("devector", 0), ("compact_vector", 0), ("segmented_vector", 1), ("segmented_vector", 3), ("segmented_vector", 16),
         ("segmented_devector", 1), ("segmented_devector", 4), ("segmented_devector", 7), ("small_vector", 4), ("static_vector", 12)]
def C14(tier):
    b = seq_builds("seq_iter.cpp", 1500, 100000, variants=ITSEQ) + assoc_builds("assoc_iter.cpp", 700, 50000)
    b += seq_builds("seq_iter.cpp", 400, 30000, variants=[("vector", 0), ("segmented_vector", 4), ("segmented_devector", 3), ("small_vector", 3)], std="c++20", label_suffix="_cxx20", shards=1)
    b += assoc_builds("assoc_iter.cpp", 300, 20000, only=lambda c: c in ("small_flat_map", "small_unordered_flat_set", "static_flat_multiset", "static_unordered_flat_multimap"), std="c++20", label_suffix="_cxx20")
    return dict(level="exploration", technique=MON.replace("with hooks before and after every library call", "interrupted by inspections") + "every iterator expression is evaluated for all pairs of positions and compared with index arithmetic; standard algorithms run over the iterators and over a plain array in lockstep",
        note="all pairs of positions in every container inspected up to 36 elements, sampled pairs above; C++17 and C++20 (iterator concepts, ranges)",
        builds=b, rule="containers reached by random histories are inspected: all pairs of positions for iterator, const_iterator and reverse_iterator expressions, all positions for nth/index_of/[]/at/data, 17 modifying and 12 reading algorithms on random subranges; "
            "distinct = distinct (operation, size, subrange) situations; iterator_pairs counts the pairs evaluated",
        assumptions=[])

def C15(tier):
    return dict(level="exploration", technique=MON + "instrumented iterators of every category record each dereference, increment, pass and overrun; results of the categories are compared with each other and with single insertions",
        note="single-pass ranges are checked for one dereference per element in order, others for not being changed",
        builds=mon(15, 8000, 400000, 1800, 90000), rule=MRULE + "sources: input, forward, bidirectional, random access, pointer, move, single-pass move, initializer list",
        assumptions=[])

MONSEQ_E = [("vector", 0), ("devector", 0), ("compact_vector", 0), ("segmented_vector", 1), ("segmented_vector", 4),
            ("segmented_devector", 1), ("segmented_devector", 5), ("small_vector", 0), ("small_vector", 5), ("static_vector", 10)]
def C16(tier):
    dyn = lambda c: c.startswith("small") or c in ("static_flat_map", "static_unordered_flat_map")
    b = seq_builds("err_seq.cpp", 1200, 100000, variants=MONSEQ_E, san="address,undefined")
    b += assoc_builds("err_assoc.cpp", 250, 20000, only=dyn, shards=2, san="address,undefined")
    for nd in (0, 1):
        d = ["SFL_NO_EXCEPTIONS"] + ["NDEBUG"] * nd
        b += seq_builds("err_seq.cpp", 60, 3000, variants=MONSEQ_E, defs=d, label_suffix="_noexc%d" % nd, san="undefined", shards=1)
        b += assoc_builds("err_assoc.cpp", 40, 2000, only=dyn, defs=d, label_suffix="_noexc%d" % nd, san="undefined")
    return dict(level="exploration", technique="runtime monitoring: hostile requests (bad indices, absent keys, sizes around max_size and at the limits of the size type) interleaved with random histories under a size-limited allocator; an oracle compares exception, contents, addresses, capacity, blocks and live elements before and after; with SFL_NO_EXCEPTIONS every request runs in a forked child whose termination signal is the verdict",
        note="the allocator's max_size is lowered to just above what is in use, so containers are filled to the limit",
        builds=b, rule="histories as for C01-C03 interrupted by bad at() calls and by requests of every sized operation with sizes max_size+1.., SIZE_MAX-.., PTRDIFF_MAX.., SIZE_MAX/sizeof.., and by filling containers to max_size; counters length_error, out_of_range (bad_at), success, filled_to_max, aborts_seen; distinct = distinct (operation, request, size)",
        assumptions=["a length_error may come earlier than required where spare capacity at the other end or inline storage counts towards max_size", "exceptions are compiled in for the harness; SFL_NO_EXCEPTIONS switches the library's code only"])

def C17(tier):
    b = seq_builds("death_seq.cpp", 70, 4000, defs=["VF_POISON"], variants=MONSEQ_E, shards=2)
    b += assoc_builds("death_assoc.cpp", 60, 3000, defs=["VF_POISON"])
    b += seq_builds("seq_model.cpp", 1200, 60000, variants=MONSEQ_E, label_suffix="_valid", shards=1) + assoc_builds("assoc_model.cpp", 800, 40000, label_suffix="_valid")
    b += seq_builds("seq_model.cpp", 1200, 60000, variants=MONSEQ_E, defs=["NDEBUG"], label_suffix="_ndebug", shards=1) + assoc_builds("assoc_model.cpp", 800, 40000, defs=["NDEBUG"], label_suffix="_ndebug")
    return dict(level="exploration", technique="runtime monitoring: death tests - in states reached by random histories every way of leaving a documented precondition is executed in a forked child under AddressSanitizer with poisoned spare storage; the monitor requires an assertion failure before any sanitizer report, crash, exception or return; valid histories run with and without NDEBUG against the abstract model",
        note="misuse kinds are enumerated, states are sampled; swap of unequal non-propagating allocators included",
        builds=b, rule="counters misuse:<operation>:<how> give the number of executed misuses per kind, assertions_seen those that asserted; the _valid and _ndebug builds execute the same valid histories with assertions on and off; distinct = distinct (misuse, assertion) and (operation, state) situations",
        assumptions=["iterators of other containers are foreign in the sense of the address order the library itself uses", "a full static container rejects insert/emplace/try_emplace of an existing key too, as documented"])

def C18(tier):
    b = seq_builds("par_seq.cpp", 160, 12000, variants=MONSEQ_E, opt="-O1", san="thread", libs=["-pthread"], shards=1)
    b += assoc_builds("par_assoc.cpp", 100, 8000, opt="-O1", san="thread", libs=["-pthread"])
    return dict(level="exploration", technique="runtime monitoring: ThreadSanitizer (happens-before race detector) over four threads calling const members of one container, and over threads mutating containers copied, moved or swapped from each other; results compared with per-thread models",
        note="the harness adds no synchronization between start and join, so any conflicting pair of accesses of the library is a reported race whatever the actual interleaving",
        builds=b, rule="each case: a random container is read by 4 threads (all const members, copies, comparisons, lookups by key and foreign key); 4 related containers are mutated by one thread each while reading and copying the shared one; then handed to other threads and destroyed there; overlapped_operations counts operations that started while another thread was inside one; distinct = distinct (operation, concurrent operation) pairs",
        assumptions=["ThreadSanitizer sees inlined and instrumented code only; element types own their memory through instrumented code"])

def C19(tier):
    return dict(level="exploration", technique=MON + "all comparison operators on pairs with related contents and different histories are compared with the abstract values",
        note="pairs are equal, differ in one element, or share a prefix; capacities, storage location and insertion history differ",
        builds=mon(19, 5000, 250000, 1500, 80000), rule=MRULE + "compared_equal/less/greater count the outcomes seen",
        assumptions=["ordered associative containers compare elements with the elements' own operators, as documented"])

def C20(tier):
    return dict(level="exploration", technique=MON + "lookups and modifications by foreign keys are compared with a model; constructions of key objects during each call are counted",
        note="foreign keys matching one key and, for multi containers, groups of keys",
        builds=mon(20, 0, 0, 4000, 150000), rule=MRULE + "hetero_* count the calls watched (by value category of the foreign key)",
        assumptions=["unique containers are given foreign keys that match at most one element, except for find/contains/bounds"])

def C21(tier):
    return dict(level="exploration", technique=MON + "element copies are counted during moves, swaps, rvalue insertions, erasures and capacity changes; addresses, contents and allocators of both parties and of bystanders are compared after each transfer",
        note="all ordered pairs of storage states reached by the histories",
        builds=mon(21, 6000, 300000, 2000, 100000), rule=MRULE + "copies_watched, moves_watched count the transfers",
        assumptions=["the contents of moved-from containers are unspecified"])

def C22(tier):
    return dict(level="exploration", technique=MON + "element operations, allocations, addresses and arguments are compared before and after each call that must have no effect",
        note="no-effect calls are made frequent by few key classes, empty ranges, satisfied reservations",
        builds=mon(22, 6000, 300000, 2200, 100000), rule=MRULE + "no_effect_calls counts the calls watched",
        assumptions=["emplace of an existing key may build a temporary element"])

NOEXC = ["SFL_NO_EXCEPTIONS"]
CONFIGS = [  # name, compiler, std, opt, defs, extra
    ("clang17_O0", "clang++", "c++17", "-O0", [], []), ("gcc11_O2_ndebug", "g++", "c++11", "-O2", ["NDEBUG"], []),
    ("gcc14_O0_noexc", "g++", "c++14", "-O0", NOEXC, ["-fno-exceptions"]), ("clang11_O1_noexc", "clang++", "c++11", "-O1", NOEXC, ["-fno-exceptions"]),
    ("gcc17_O1", "g++", "c++17", "-O1", [], []), ("clang14_O2_ndebug", "clang++", "c++14", "-O2", ["NDEBUG"], []),
    ("gcc20_O0_ndebug_noexc", "g++", "c++20", "-O0", ["NDEBUG"] + NOEXC, ["-fno-exceptions"]), ("clang20_O0", "clang++", "c++20", "-O0", [], []),
    ("gcc23_O1_ndebug_noexc", "g++", "c++23", "-O1", ["NDEBUG"] + NOEXC, ["-fno-exceptions"]), ("clang23_O0_ndebug", "clang++", "c++23", "-O0", ["NDEBUG"], [])]
CONFIGS_T = [("%s%d_%s%s%s" % ("gcc" if cc == "g++" else "clang", sd, op[1:], "_ndebug" * nd, "_noexc" * ne), cc, "c++%d" % sd, op, ["NDEBUG"] * nd + NOEXC * ne, ["-fno-exceptions"] * ne)
    for cc in ("g++", "clang++") for sd in (11, 14, 17, 20, 23) for op in ("-O0", "-O2", "-O3") for nd in (0, 1) for ne in (0, 1)]

def C23(tier):
    """the digests of all configurations of one container must agree, case by case"""
    import os, re, hashlib, run as R
    configs = CONFIGS if tier == "quick" else CONFIGS_T
    variants = [("vector", 0), ("devector", 0), ("compact_vector", 0), ("segmented_vector", 3), ("segmented_devector", 4), ("small_vector", 5), ("static_vector", 10)]
    groups, builds = {}, []
    for name, cc, std, opt, defs, extra in configs:
        kw = dict(compiler=cc, std=std, opt=opt, san="", defs=defs, extra=extra, label_suffix="@" + name, shards=1)
        bs = seq_builds("digest_seq.cpp", 500, 20000, variants=variants, **kw) + assoc_builds("digest_assoc.cpp", 500, 20000, **kw)
        kw.pop("label_suffix"); kw.pop("shards")
        bs.append(Build("headers@" + name, "headers_tu1.cpp", defs, cc, std, opt if tier != "quick" else "-O0", "", extra, [Run(1, 1, 1, tshards=1)], [os.path.join(R.H, "headers_tu2.cpp")]))
        for b in bs:
            for r in b.runs:
                r.tshards = r.shards
            groups.setdefault(b.label.split("@")[0], []).append(b)
        builds += bs
    def digs(b, tmpdir):
        d, f = {}, os.path.join(tmpdir, "%s-0-%s.bm.dig" % (re.sub(r"[^A-Za-z0-9_]", "_", b.label), hashlib.md5(repr([]).encode()).hexdigest()[:6]))
        if os.path.exists(f):
            for line in open(f):
                c, h = line.split(); d[int(c)] = h
        return d
    def trace(b, case, tier, seed):
        p, err = R.compile_build(b)
        return R.run_proc([p, "--seed", str(seed), "--only", str(case), "--trace"] + (["--thorough"] if tier == "thorough" else []), 120)[1].split("\n") if p else [err]
    def compare(b, ref, case, tier, seed):
        t, u, op = trace(b, case, tier, seed), trace(ref, case, tier, seed), "?"
        for i in range(max(len(t), len(u))):
            x, y = t[i] if i < len(t) else "", u[i] if i < len(u) else ""
            if x.startswith("VF-STATS") and y.startswith("VF-STATS"):
                break
            if y.startswith("op "):
                op = re.sub(r"^op \d+ | \d+ \d+$", "", y)
            if x != y:
                return op, "%s has '%s', %s has '%s'" % (b.label, x.strip(), ref.label, y.strip()), u[max(0, i - 12):i + 1] + ["%s: %s" % (b.label, x)]
        return None
    def post(res, tmpdir, tier, seed):
        known = R.Known("C23")
        for g, bs in sorted(groups.items()):
            ds = [(b, digs(b, tmpdir)) for b in bs]
            ds = [(b, d) for b, d in ds if d]
            if len(ds) < 2:
                continue
            # reference: the configuration whose digest is the majority
            for case in sorted(ds[0][1]):
                hs = [d.get(case) for _, d in ds]
                res.checks += len(hs) - 1
                res.counters["configurations_compared"] = res.counters.get("configurations_compared", 0) + len(hs) - 1
                if None in hs:
                    continue
                major = max(set(hs), key=lambda h: (hs.count(h), h == hs[0]))
                bad = [i for i, h in enumerate(hs) if h != major]
                if bad:
                    b, ref = ds[bad[0]][0], ds[hs.index(major)][0]
                    c = compare(b, ref, case, tier, seed) or ("?", "digests differ", [])
                    v = {"cont": g, "op": c[0], "kind": "configuration", "case": case, "msg": c[1], "log": "\n".join(c[2]), "label": b.label, "build": b.spec(), "build2": ref.spec(),
                         "seed": seed, "args": [], "tier": tier, "output": "configurations that differ: " + ", ".join(ds[i][0].label for i in bad)}
                    v["known"] = known.match(R.vkey(v)); res.violations.append(v)
                    break
    return dict(level="exploration", technique="runtime monitoring: the same random histories run in builds of every kind of configuration (standard, compiler, optimization, assertions, exceptions); an offline oracle compares the recorded digests of all return values, contents, sizes and capacities case by case",
        note="%d configurations; every non-template member of every container is instantiated in each, two translation units are linked" % len(configs),
        builds=builds, post=post, compare=compare, compile_is_violation=True,
        rule="500 (thorough 20000) histories of 60-200 operations per container and configuration, 4-5 element types; counters op:<operation>; configurations_compared counts digest comparisons; distinct = distinct (operation, sizes, position) situations",
        assumptions=["SFL_NO_EXCEPTIONS builds also use -fno-exceptions", "compilers: the installed gcc 13 and clang 18 with libstdc++"])

def spec(pid, tier):
    return globals()[pid](tier)
