T = "runtime monitoring: "
TECH = {
 "P01": T + "per-index counters and join/visibility checks on every parallel call, under plain, noise-injected and TSan builds",
 "P02": T + "recorded deque histories checked offline for exactly-once, owner LIFO and thief FIFO, with injected delays and TSan",
 "P03": T + "online monitor of worker-id ownership and scheduler nesting in every task body",
 "P04": T + "progress watchdogs, wake-up trials and scheduler life cycles with injected delays",
 "P05": T + "ThreadSanitizer over all units' workloads",
 "P06": T + "recorded id lifetimes and per-thread storage histories, noise injection, TSan and ASan",
 "P07": T + "shadow map of live blocks with canaries, ASan, TSan",
 "P08": T + "shadow accounting of live blocks compared with the allocator's figures at quiescent points",
 "P09": T + "linearizability search over recorded stack histories, conservation under stress, ASan and TSan",
 "P10": T + "operation histories of sequence mirrored on std::vector, with lifetime registry, ASan and UBSan",
 "P11": T + "lifetime registry of every tracked object and every owned token, per operation, under ASan and UBSan",
 "P12": T + "oracle std::stable_sort and friends over generated inputs, sizes and comparators, several worker counts, ASan",
 "P13": T + "stable-sort oracle over generated keys, widths, bit counts and bucket counts, ASan and UBSan",
 "P14": T + "sequential-fold oracle with non-commutative monoids and law monitors over the predefined monoids",
 "P15": T + "sequential oracles with guarded output buffers over generated inputs, ASan",
 "P16": T + "standard-library oracle over generated ranges, ASan",
 "P17": T + "ordered-map oracle over generated keys, skews, hashes and index types, ASan and UBSan",
 "P18": T + "eager oracle over generated compositions of delayed views and their copies and moves, ASan",
 "P19": T + "byte-exact oracles for tokens, numbers and files in a scratch directory, ASan and UBSan",
 "P20": T + "permutation, reproducibility and spread monitors across worker counts and schedules",
 "P21": T + "phase histories of the table compared with a sequential set, under noise and ASan",
 "P22": T + "recorded updates replayed against final and intermediate values, under noise and TSan",
 "P23": T + "digest comparison of the same inputs across back-ends, allocators, builds and worker counts",
 "P24": T + "AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck (uninitialised values, leaks) over the units' workloads",
 "P25": T + "sequential oracles over generated graphs for the example algorithms, ASan",
 "P26": T + "sequential oracles over generated inputs for the example algorithms, ASan",
}
