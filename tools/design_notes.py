# per property: quick seconds, thorough time, why it reaches what the tests cannot
NOTES = {
"C01": (20, "10–20 min", "the tests build a few fixed lists; here thousands of histories put every operation into every combination of size, gap, capacity and position, which is where the branch-heavy shifting code (devector has over twenty insertion layouts) goes wrong."),
"C02": (16, "10–15 min", "sortedness, uniqueness and lookups are invariants over histories with hints, equivalents, aliasing and stateful orders; the tests use integers and a fixed order."),
"C03": (15, "10–15 min", "swap-with-last erasure and first-free insertion are order-sensitive in ways a fixed list of keys does not show."),
"C04": (115, "25 min", "spare slots inside live blocks and inside inline storage are poisoned, so accesses between size and capacity are seen, which valgrind on the tests cannot see; over-aligned and operator&-overloading types are not in the tests."),
"C05": (44, "15 min", "the registry knows the state of every address at every element operation."),
"C06": (66, "20 min", "eighteen allocator kinds; the tests use one stateful allocator."),
"C07": (32, "15 min", "every throwing point of an operation is enumerated in states reached at random; the tests inject no faults."),
"C08": (20, "15 min", "as C07 with the state compared exactly."),
"C09": (39, "15 min", "addresses and values behind old iterators are compared around every call of a history."),
"C10": (25, "15 min", "advertised room is used up exactly under an allocation counter; growth is followed over thousands of insertions through every insertion function."),
"C11": (30, "15 min", "every history that stays within N must not allocate at all, including transfers between containers."),
"C12": (12, "10 min", "counts operations on large containers; tests use tens of elements and count nothing."),
"C13": (41, "15 min", "most arguments alias own elements, in states with and without spare capacity at each end."),
"C14": (41, "15 min", "all pairs of positions, including both ends and segment boundaries, in containers with gaps; lockstep algorithms."),
"C15": (46, "15 min", "every iterator category monitors its own use; results of the categories are compared with each other."),
"C16": (110, "25 min", "the sizes that overflow cannot be reached with std::allocator in a test; a bounded allocator makes the limit reachable."),
"C17": (110, "25 min", "every way of violating a precondition is executed in a forked child in random states."),
"C18": (34, "15 min", "the race detector judges unsynchronized pairs independent of the actual interleaving; the tests are single-threaded."),
"C19": (40, "15 min", "pairs with equal values but different capacity, storage and history."),
"C20": (23, "10 min", "key constructions are counted during each call; foreign keys match one key or a group of keys."),
"C21": (40, "15 min", "all pairs of storage states, with bystanders watched and copies counted."),
"C22": (40, "15 min", "calls without effect are compared bit for bit, including arguments, allocations and element operations."),
"C23": (115, "60+ min", "ten (thorough: 120) configurations execute the same histories and must record identical digests; the stable tests cover two configurations and compare nothing between them."),
}
