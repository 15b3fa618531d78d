#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

BF, PBF, SBF, DD = "src/bloom/bloom_filter.rs", "src/bloom/partitioned_bloom_filter.rs", "src/bloom/scalable_bloom_filter.rs", "src/bloom/dd_bloom_filter.rs"
CF, SCF, QF = "src/cuckoo/cuckoo_filter.rs", "src/cuckoo/scalable_cuckoo_filter.rs", "src/quotient.rs"
CMS, HLL, MH, SH, SIM, UT = "src/count_min_sketch.rs", "src/hyperloglog.rs", "src/similarity/min_hash.rs", "src/similarity/sim_hash.rs", "src/similarity/mod.rs", "src/util.rs"
BV, BSV = "src/bit_vec.rs", "src/bitstring_vec.rs"

p("C01", "Bloom filters never give a false negative",
  "Every item inserted into a Bloom filter or a partitioned Bloom filter since its construction or last clear is reported as contained, no matter which other items were inserted before, after or in between, and no matter how the filter was constructed. Insertion and lookup complete without panicking for every item and every valid parameter combination.",
  ["inputs", "histories", "configurations"],
  "All insert/clear/query histories, all pairs of 64-bit item hashes, all bit counts >= 1 (including ones not divisible by the storage word, and larger than 2^32), all hash function counts.",
  "The unit tests insert one or two fixed strings into three fixed sizes; a false negative that needs a particular hash residue, filter length, bit position or number of hash functions is never sampled.",
  [BF, PBF, UT, BV], [("probe positions of insert and contains agree", "insert/contains in " + BF + " and " + PBF), ("bit storage", BV)],
  ["contains()"], [("bit_vec", "the bits of the filter", BF)])

p("C02", "Bloom filter membership is exactly probe coverage",
  "A Bloom filter or partitioned Bloom filter reports an item as contained only if every one of the item's probe positions was set by items inserted since construction or last clear, so a filter never reports more items than double hashing over its length (respectively over each partition) justifies. The number of ones equals the number of distinct probe positions set, ones plus zeros equals the length, the order and repetition of insertions is irrelevant, and the estimated false positive probability is the fraction of ones to the power of the number of hash functions.",
  ["inputs", "histories", "configurations"],
  "All insert/clear histories over item hash pairs, all query items, all lengths and hash function counts, both filter kinds.",
  "Tests only assert positives for what was inserted and a couple of negatives; a filter that sets too many bits, drops a partition or miscounts ones still passes them.",
  [BF, PBF, UT, BV], [("enhanced double hashing", UT), ("partition offset", "insert in " + PBF), ("ones counter", "set/set_all in " + BV)],
  ["contains()", "count_ones()", "count_zeros()", "estimated_fpp()"])

p("C03", "Bloom filter sizing meets the requested error rate",
  "A Bloom filter sized from an item count and a target false positive probability has the least number of bits that the optimum n*log2(1/p)/ln 2 calls for (a partitioned one that number rounded up per partition), and uses the least whole number of hash functions not below the optimal one, never zero. A filter built from a bit count has exactly that many bits (per partition for a partitioned filter) and the hash function count that is optimal for the given item count or, if a probability is given, for the number of items (rounded up) that such a filter can hold at that probability. The stream filters have exactly the requested bits per partition and ceil((2+ln(p)/ln(1-1/e))/2) partitions.",
  ["configurations"],
  "All item counts, bit counts and probabilities in (0,1), for the six constructors of the two filter kinds.",
  "Tests construct three configurations; wrong rounding or a wrong constant shows only for other parameters and silently raises the error rate.",
  [BF, PBF], [("bit count and hash count formulas", "constructors and get_hasher_count in " + BF + ", " + PBF)],
  ["len()", "bit_count()", "hasher_count()"])

p("C04", "Scalable Bloom filter never loses an item as it grows",
  "Every item inserted into a scalable Bloom filter since construction or last clear is reported as contained, across any number of growth steps and for any growth and tightening ratio. Insertion and lookup never panic while the parameters are valid.",
  ["inputs", "histories", "configurations"],
  "All insert/clear histories over item hashes, all initial sizes, probabilities, growth ratios and tightening ratios, through several growth steps.",
  "The tests grow one filter once with a fixed key set; losing items needs a specific fill level at growth or an item that collides with an older component filter.",
  [SBF, BF], [("growth keeps older filters", "try_grow in " + SBF), ("skip only when some filter contains the item", "insert in " + SBF)],
  ["contains()", "filter_count()"])

p("C05", "Scalable Bloom filter grows exactly when half full and stays calibrated",
  "A scalable Bloom filter adds a component exactly when an insertion leaves the newest component at least half full; the new component has the previous length times the growth ratio (rounded up) and is sized for the initial probability times the tightening ratio to the number of earlier components. Length, ones and zeros are the sums over the components, the estimated false positive probability is one minus the product of the components' complements, and clearing returns to the single initial component.",
  ["inputs", "histories", "configurations"],
  "All insert/clear histories, all initial sizes, ratios and probabilities, several growth steps.",
  "One growth step at one ratio is tested; an off-by-one in the fill test, the exponent or the length of later components needs longer histories.",
  [SBF, BF], [("growth test and new component parameters", "try_grow in " + SBF), ("aggregates", "len/count_ones/estimated_fpp in " + SBF)],
  ["filter_count()", "len()", "count_ones()", "estimated_fpp()"], [("approximate_bits_used", "upper bound on ones in the newest component", SBF)])

p("C06", "Stream filters report the latest item and ignore duplicates",
  "In each of the three biased-sampling stream filters, an item is reported as contained immediately after its insertion whatever the random eviction choices, and inserting an item that is already reported as contained changes nothing at all. An item is reported as contained only if each of its probe positions was set by some earlier insertion since the last clear, and ones plus zeros always equals the length.",
  ["inputs", "histories", "configurations"],
  "All insert/clear histories, all outcomes of every random draw, all item hashes, all partition sizes and numbers of partitions.",
  "The random generator is seeded from entropy, so tests can assert only what holds for the one outcome they happen to see, on a filter that is nearly empty.",
  [DD, BV, UT], [("evict, then set the item's bits", "insert of BS/BSSD/RLBS in " + DD), ("duplicate test before eviction", "contains_hashes in " + DD)],
  ["contains()", "count_ones()", "count_zeros()"])

p("C07", "Stream filters evict with the documented bound and distribution",
  "Inserting a new item evicts at most one bit in each partition (biased sampling, load-balanced) or at most one bit in the whole filter (single deletion), and no bit outside those. The evicted position is uniform over the partition (and the partition uniform for single deletion), independently per partition, and the load-balanced filter evicts from a partition with probability equal to that partition's fraction of ones just before the insertion.",
  ["inputs", "histories", "configurations"],
  "All reachable filter contents, all item hashes and all random outcomes with their exact probabilities, for small partition sizes and counts.",
  "A test sees one random outcome per run; a biased victim, an unreachable victim position or a wrong eviction probability is invisible without enumerating all outcomes.",
  [DD], [("victim draw and reset probability", "insert of BS/BSSD/RLBS in " + DD)],
  ["contains()", "count_ones()"])

p("C08", "Cuckoo filter never loses an item that was added as new",
  "An item that was not contained when it was inserted into a cuckoo filter stays contained until it is removed itself or the filter is cleared, as long as the only items removed are ones that were likewise new when inserted. This holds for every relocation and every random choice, also when relocation gives up and the displaced entry spills into the overflow list, and also after the filter is full.",
  ["inputs", "histories", "configurations"],
  "All insert/remove/clear histories, all item hash pairs, all fingerprint hash functions, all random kick choices, all bucket counts, entries per bucket and fingerprint widths.",
  "The tests have one overflow and one removal scenario; relocation paths depend on the random generator and most are never taken.",
  [CF, BSV], [("relocation keeps each fingerprint in one of its two buckets", "insert in " + CF), ("overflow list", "extra_items in " + CF)],
  ["contains()"], [("fingerprint_vec", "the table of fingerprints", CF), ("extra_items", "entries that could not be placed", CF)])

p("C09", "Cuckoo filter stores each distinguishable item once and accounts for it",
  "A cuckoo filter reports an item as contained exactly when that item, or one with the same fingerprint and the same pair of buckets, was inserted and not since removed; inserting a contained item and removing an item that is not contained change nothing. Occupied entries plus overflow entries equals the number of such distinct stored items, occupied entries never exceed the capacity, overflow is used only when relocation fails (it may take 512 displacements), the filter is nearly full exactly when overflow is in use, and it is empty exactly when nothing is stored.",
  ["inputs", "histories", "configurations"],
  "All insert/remove/clear histories, all item hash pairs, all random kick choices, all bucket counts, entries per bucket and fingerprint widths.",
  "Tests count one or two items; double storage, a stale counter or removal of the wrong entry needs specific collisions or a filter under pressure.",
  [CF, BSV], [("set semantics", "insert/remove/contains in " + CF), ("occupied counter", "occupied_len in " + BSV)],
  ["contains()", "len()", "extra_items_len()", "is_nearly_full()", "is_empty()"])

p("C10", "Cuckoo filter sizing holds the requested items at the requested error",
  "A cuckoo filter's capacity is its bucket count times its entries per bucket, the bucket count is the least power of two that makes the capacity at least the requested item count, and requested entries per bucket and fingerprint width are honoured exactly. A filter built for a target false positive probability has an estimated probability at full occupancy not above the target, using at most one fingerprint bit more than necessary (or the most entries per bucket possible), and the estimate with fingerprint width f, b entries per bucket and occupied fraction x is 1-((2^f-2)/(2^f-1))^(2bx).",
  ["configurations", "histories"],
  "All item counts, entries per bucket, fingerprint widths and target probabilities for the five constructors; all fill levels.",
  "Four configurations are tested, all with table sizes that happen to be multiples of the storage word.",
  [CF, BSV], [("constructor formulas", "constructors in " + CF), ("capacity and estimate", "capacity/estimated_fpp in " + CF)],
  ["capacity()", "bucket_len()", "entries_per_index()", "fingerprint_bit_count()", "estimated_fpp()"])

p("C11", "Scalable cuckoo filter never loses an item that was added as new",
  "An item that was not contained when it was inserted into a scalable cuckoo filter stays contained until it is removed itself or the filter is cleared, as long as the only items removed are ones that were likewise new when inserted. This holds across growth, when components use different fingerprint widths, and for every random relocation choice; removing an item that is not contained changes nothing.",
  ["inputs", "histories", "configurations"],
  "All insert/remove/clear histories through several growth steps, all item hash pairs, all random choices, all sizes, entries per bucket and ratios.",
  "The tests for this type are flaky and cover one growth step without removal; losing an item needs an item in a newer component that collides with a removed item of an older one.",
  [SCF, CF], [("removal and growth", "remove/insert/try_grow in " + SCF)],
  ["contains()", "filter_count()"])

p("C12", "Scalable cuckoo filter growth and accounting are exact",
  "A scalable cuckoo filter has a new component after an insertion exactly when the newest component was then full or had overflowed; the new one is sized for the previous capacity times the growth ratio (rounded up) at the initial probability times the tightening ratio to the number of earlier components, with the same entries per bucket. Its length counts each stored item once including overflow, its capacity is the sum over components, it is empty exactly when nothing is stored, and clearing returns to the single initial component.",
  ["inputs", "histories", "configurations"],
  "All insert/remove/clear histories through several growth steps, all item hashes, random choices, sizes and ratios.",
  "The tests for this type are flaky and check one growth step at one ratio.",
  [SCF, CF], [("growth condition", "try_grow in " + SCF), ("aggregates", "len/capacity/estimated_fpp in " + SCF)],
  ["filter_count()", "len()", "capacity()", "estimated_fpp()"])

p("C13", "Quotient filter membership is exact on fingerprints",
  "A quotient filter reports an item as contained exactly when some item with the same fingerprint (the low quotient-plus-remainder bits of its hash) was inserted and not removed since construction or last clear. Removing an item whose fingerprint is not stored changes nothing, and every insertion within capacity, removal and lookup terminates without panicking.",
  ["inputs", "histories", "configurations"],
  "All insert/remove/clear histories including completely full and wrapped-around tables, all fingerprints, all quotient and remainder widths.",
  "The stress test inserts random keys and removes them in one order at one size; shifted runs, wrap-around and removal of absent keys between runs depend on exact table layouts.",
  [QF, BSV], [("run and cluster bookkeeping", "insert/contains/remove in " + QF)],
  ["contains()"], [("slot metadata bits", "occupied, continuation, shifted", QF)])

p("C14", "Quotient filter accounts for every fingerprint up to exactly its capacity",
  "A quotient filter with q quotient bits accepts any 2^q distinct fingerprints; its length is the number of distinct fingerprints stored and it is empty exactly when that is zero. When full it accepts duplicates silently and panics on a new fingerprint without changing anything, and every width pair with positive widths and sum at most 64 is usable while every other pair is refused at construction.",
  ["inputs", "histories", "configurations"],
  "All histories that reach a full table, all quotient/remainder width pairs, all fingerprints.",
  "Tests never fill a table, and use a handful of width pairs.",
  [QF, BSV], [("length counter and full check", "insert/remove in " + QF), ("width checks", "with_hasher in " + QF)],
  ["len()", "is_empty()", "capacity()", "contains()"])

p("C15", "Quotient filter sizing meets the requested error rate",
  "A quotient filter built for an item capacity and a target false positive probability in (0,1) has a table with room for at least that many items at no more than the load limit of 1/1.33, and its estimated false positive probability with that many items stored does not exceed the target; table and remainders are no wider than this limit and target call for. The estimate is 1-exp(-(stored/slots)/2^remainder_bits), and construction succeeds for every probability that needs at most 64 fingerprint bits.",
  ["configurations", "histories"],
  "All capacities and probabilities in (0,1); all fill levels.",
  "One (capacity, probability) pair is tested.",
  [QF], [("sizing formula", "from_fpp_with_hasher in " + QF), ("estimate", "estimated_fpp in " + QF)],
  ["quotient_bits()", "remainder_bits()", "estimated_fpp()"])

p("C16", "Count-min sketch never underestimates and overestimates only by collisions",
  "With the minimum strategy and as long as no item's true count is negative, the estimate of every item is at least its true count, and at most its true count plus the counts of items that collide with it in any one chosen row. An item that shares no cell with others in at least one row is counted exactly, also after removals, and an untouched sketch estimates zero for every item under every strategy.",
  ["inputs", "histories", "configurations"],
  "All insert/remove/clear histories with arbitrary values, all item hash pairs, all grid shapes.",
  "Tests insert one or two items into one fixed grid, where there are no collisions.",
  [CMS, UT], [("row/column addressing", "insert and ItemValueIter in " + CMS), ("minimum over rows", "CountMinStrategy in " + CMS)],
  ["count()"])

p("C17", "Count-min sketch is linear and its strategies follow their definition",
  "The state of a sketch depends only on the net amount added per item: insertions and removals commute, removing what was inserted cancels it exactly, and clearing equals never having inserted. For every content, the minimum strategy returns the least of the item's row values, the mean strategy their rounded mean, and the median-bias strategy the smaller of the least value and the lower median of the values after subtracting each row's estimated noise (total minus value, divided by columns minus one, rounded up).",
  ["inputs", "histories", "configurations"],
  "All histories of inserts and removes with positive and negative values, all item hash pairs, all grid shapes with at least one row and column, three strategies and user-defined strategies.",
  "Tests use values where all strategies agree; rounding, negative values and even row counts are not exercised.",
  [CMS, UT], [("additive cells", "insert/remove in " + CMS), ("strategies", "get_estimate in " + CMS)],
  ["count()"])

p("C18", "Count-min sketch dimensions meet the requested accuracy",
  "A sketch built from an error factor epsilon and a failure probability delta has the least number of columns not below e/epsilon and the least number of rows not below ln(1/delta), so its reported confidence does not exceed epsilon and its reported error does not exceed delta; a sketch built from dimensions has exactly those. The reported figures are e/columns and exp(-rows).",
  ["configurations"],
  "All epsilon and delta in (0,1), all dimensions, three strategies, with default and explicit hashers.",
  "One (epsilon, delta) pair is tested per strategy.",
  [CMS], [("sizing formulas", "from_error, from_error_with_hashers, confidence, error in " + CMS)],
  ["rows()", "cols()", "confidence()", "error()"])

p("C19", "HyperLogLog depends only on the set of distinct items",
  "The estimate of a HyperLogLog depends only on the set of distinct items inserted since construction or last clear: duplicates and insertion order make no difference, and inserting further items never lowers what a register has recorded. It is empty exactly when nothing was inserted, and insertion works for every 64-bit hash value.",
  ["inputs", "histories", "configurations"],
  "All insert/clear histories, all hash values including all-zero and all-one, all precisions.",
  "Tests insert the keys 0,1,2 twice in one order.",
  [HLL], [("register maximum", "insert in " + HLL)],
  ["len()", "is_empty()"], [("registers", "largest rank seen per bucket", HLL)])

p("C20", "HyperLogLog merge equals counting the union",
  "Merging one HyperLogLog into another gives exactly the counter that would have resulted from inserting both item sets into one, so merging is commutative, associative and idempotent, leaves the other operand unchanged, and an empty counter is neutral. Merging counters of different precision or different hash keys is refused with a panic and leaves the receiver unchanged.",
  ["inputs", "histories", "configurations"],
  "All pairs of insert histories with arbitrary overlap, all hash values, all precisions, interleaved with further inserts and merges.",
  "Tests merge one pair of three-item sets.",
  [HLL], [("register-wise maximum", "merge in " + HLL)],
  ["len()", "merge()"])

p("C21", "HyperLogLog estimate is finite, correctly computed and as precise as asked",
  "For every reachable content the estimate is a finite non-negative number: linear counting while the harmonic-mean estimate is at most 2.5 times the number of registers and some register is untouched, and the bias-corrected harmonic-mean estimate itself otherwise. The number of registers is the least power of two for which the standard error 1.04/sqrt(registers) does not exceed the requested error probability, and probabilities outside (0,1) are refused.",
  ["inputs", "histories", "configurations"],
  "All register contents reachable by inserting arbitrary 64-bit hashes, all requested error probabilities in (0,1).",
  "Tests stay at three or four items at one precision, so only linear counting with one register count is ever seen.",
  [HLL], [("estimator", "get_estimate/len in " + HLL), ("precision", "with_hasher/get_alpha in " + HLL)],
  ["len()"])

p("C22", "MinHash estimates Jaccard similarity without bias and lawfully",
  "The k-th min-hash of a set is the least k-th derived hash over its items, so signatures ignore order and repetition, the signature of a union is the element-wise minimum of the signatures, and extending the number of hash functions extends the signature without changing its prefix. Estimated similarity is the fraction of agreeing positions: symmetric, within [0,1], 1 for equal sets, equal whether computed from sets or from signatures, and its average over all equally likely rankings of the items is exactly the Jaccard similarity.",
  ["inputs", "configurations"],
  "All pairs of non-empty item sequences over a finite universe, all assignments of hash ranks to items, all numbers of hash functions.",
  "Tests compare two fixed sentences with one fixed seed.",
  [MH, UT], [("minimum per derived hash", "get_min_hashes in " + MH), ("match fraction", "get_similarity_from_hashes in " + MH)],
  ["get_min_hashes()", "get_similarity()"])

p("C23", "SimHash is the per-bit majority vote of its items",
  "Each of the 64 bits of a sim-hash is decided by the majority of the items' hash bits at one fixed position, counting repetitions, with one fixed outcome on ties; distinct sim-hash bits are decided by distinct hash bits. It does not depend on the order of the items, and a single item and any number of copies of it have the same sim-hash.",
  ["inputs"],
  "All item multisets up to a bounded size and all 64-bit hash values per item, at every bit position.",
  "Tests compare three fixed sentences with constants.",
  [SH], [("signed counts per bit", "get_sim_hash in " + SH)],
  ["get_sim_hash()"])

p("C24", "SimHash similarity report is complete and lists only neighbours",
  "The report over a list of items contains a pair exactly when for at least one of the 64 rotations of the sim-hashes both lie within a common window of the requested size in the list sorted by rotated sim-hash, ties by position; it has each pair once, smaller index first, and never a pair of an item with itself. Consequently items with equal sim-hashes next to each other are always reported, a window covering the whole list reports all pairs, and lists shorter than the window (including empty ones) are handled, while a window below two is refused.",
  ["inputs", "configurations"],
  "All lists up to a bounded length, all window sizes from 2 up to beyond the list length, sim-hash values drawn from a universe that differs at every bit position.",
  "One list of three with window two is tested.",
  [SH], [("sorted sliding window over rotations", "report_similarities in " + SH)],
  ["report_similarities()"])

p("C25", "Shingles and exact Jaccard similarity are correct",
  "A shingle iterator over n tokens with shingle length k>=1 yields exactly the n-k+1 contiguous token runs in order, or none when n<k, and then stays exhausted. The exact Jaccard similarity of two sequences is the size of the intersection of their item sets divided by the size of their union, ignoring order and repetition.",
  ["inputs", "configurations"],
  "All token sequences and shingle lengths up to a bound, all pairs of sequences over a finite universe that are not both empty.",
  "Tests use one sentence with shingle length two.",
  [SIM], [("window over tokens", "ShingleIterator in " + SIM), ("set algebra", "get_jaccard_similarity in " + SIM)],
  ["ShingleIterator::next()", "get_jaccard_similarity()"])

p("C26", "Serialised and cloned collections behave like the original",
  "A collection restored from its serialised form, and a clone of a collection, report the same parameters and give the same answers as the original at that moment and after every further identical history of operations, apart from random eviction or relocation choices. The copies are independent: changing one never changes another, and where equality is defined a copy equals its original until their contents differ.",
  ["histories", "inputs", "configurations"],
  "All operation histories before the copy is taken and all histories after it, for every collection and sketch type.",
  "Tests round-trip one lightly filled instance per type and do not continue to use the copy.",
  [BF, PBF, SBF, DD, CF, SCF, QF, CMS, HLL, MH, SH, UT, BV, BSV], [("serde derives and Clone", "struct definitions in all files")],
  ["all public observers"])

p("C27", "Hashing is reproducible, keyed and shared correctly by every collection",
  "With explicit hash builders the answers of a collection depend only on its parameters, builders and history, queries never influence later answers, and equal items hash equally in borrowed or owned form; the default builder is SipHash-2-4 under the two given keys, the hashers a collection was given are the ones it reports, and the i-th derived hash of an item is h1 + i*h2 + i(i-1)(i-2)/6 modulo 2^64. Without explicit builders every instance gets fresh random keys, different for its two hash functions.",
  ["inputs", "histories", "configurations"],
  "All items and keys within the enumerated set, all collections, all constructors, all query interleavings.",
  "Tests fix one seed pair and check constants for a few collections; they cannot notice a lookup that influences later answers or a shared key.",
  [UT, BF, PBF, SBF, DD, CF, SCF, QF, CMS, HLL, MH, SH], [("default hash builder and derived hash sequence", UT), ("hashers() accessors and constructors", "all collection files")],
  ["hashers()", "hasher()", "contains()", "get_min_hashes()"])

p("C28", "Collections use only the memory their parameters call for",
  "A fixed-size collection holds no more heap memory than its parameters imply: one bit per filter bit, one fingerprint width per cuckoo entry, remainder plus three bits per quotient slot, eight bytes per sketch counter and one byte per register, up to a small constant. Apart from cuckoo overflow entries, no history of operations makes it grow, and a scalable collection holds no more than the sum over its components.",
  ["configurations", "histories"],
  "All constructors over a grid of parameters, all bounded histories of operations.",
  "No test looks at memory; an oversized table behaves identically.",
  [BF, PBF, SBF, DD, CF, SCF, QF, CMS, HLL, BV, BSV], [("table allocation", "constructors in all collection files")],
  ["heap bytes held by an instance"])

p("C29", "A cleared collection is indistinguishable from a fresh one",
  "After clear, a collection answers every query and every further history of operations exactly like a newly constructed one with the same parameters and hashers, apart from random eviction or relocation choices. This includes the growth behaviour, counters, estimates, overflow and parameters.",
  ["histories", "inputs", "configurations"],
  "All histories before the clear and all histories after it, for every collection and sketch with a clear operation.",
  "Tests clear once and check one counter or one query; leftover state that matters only later (fill estimates, overflow, totals, metadata) is not seen.",
  [BF, PBF, SBF, DD, CF, SCF, QF, CMS, HLL, BV, BSV], [("clear", "clear in all collection files")],
  ["all public observers"])

p("C30", "Packed fixed-width integer storage behaves like a plain vector",
  "The packed vector of fixed-width integers behaves like an ordinary vector of integers below 2^width for every width from 1 to 64: reading returns the last value written at that position and writing one position never disturbs another. Pushing, popping, truncating, clearing and iterating agree with the ordinary vector, the count of non-zero elements is always exact, and vectors of the same width and elements are equal however they were produced.",
  ["inputs", "histories", "configurations"],
  "All widths 1..=64, all lengths in a range that covers every word alignment, all operation histories up to a depth.",
  "Tests use four widths with one write pattern each.",
  [BSV], [("word-crossing reads and writes", "get/set in " + BSV)],
  ["get()", "set()", "occupied_len()"], hook="cfg(vmc) re-export of the private storage types in src/lib.rs")

p("C31", "Packed bit storage behaves like a plain vector of booleans",
  "The packed bit vector behaves like an ordinary vector of booleans under every history of its operations: construction, reading, writing, flipping, pushing, popping, truncating, bulk assignment, set algebra, cloning, byte conversion and iteration. Its counts of ones and zeros are always exact, and two bit vectors with the same contents are equal however they were produced.",
  ["inputs", "histories", "configurations"],
  "All lengths in a range that covers every byte alignment, all contents for short lengths, all operation histories up to a depth.",
  "Tests call each operation once on one length.",
  [BV], [("extra-bit clearing and the ones counter", BV)],
  ["get()", "count_ones()", "count_zeros()", "eq"], hook="cfg(vmc) re-export of the private storage types in src/lib.rs")

p("C32", "Documented invalid arguments are refused, all others accepted",
  "A constructor or query whose documentation lists arguments on which it panics does panic on every one of them (an item count, entry count or capacity of 0; fingerprint, quotient or remainder widths outside their range; probabilities outside (0,1), including NaN and infinities; a probability that the given fingerprint width cannot reach; MinHash signatures of different lengths). It accepts all the others that fit in memory: with them it returns a collection with the requested parameters.",
  ["inputs", "configurations"],
  "All argument tuples of the constructors of the cuckoo filter, the quotient filter and HyperLogLog, and all pairs of signature lengths.",
  "No test passes an invalid argument; a dropped or weakened check shows only as a silently unusable collection, one that is too strict only for an argument at the end of the range.",
  [CF, QF, HLL, MH], [("argument assertions", "constructors in " + CF + ", " + QF + ", " + HLL), ("length assertion", "get_similarity_from_hashes in " + MH)],
  ["constructors", "get_similarity_from_hashes()"])

p("C33", "Equality follows contents and hash functions",
  "Two cuckoo filters compare equal only if they have the same parameters and hash functions and give the same answers now and after every further operation with the same random draws; a filter equals itself, its clone and its serialised copy, and any filter with the same history and draws; the relation is symmetric and transitive. Two Bloom filters compare equal exactly when they have the same length, number of hash functions, hash functions and set bits, and two hash builders exactly when they compute the same hash function.",
  ["histories", "inputs"],
  "All pairs of filters reachable by any histories, in particular ones that differ in a single aspect, and all pairs of keys.",
  "Tests compare a filter with its restored copy, where every definition of equality says yes; a dropped comparison shows only for two filters that differ in just that aspect.",
  [CF, "src/util.rs"], [("equality", "PartialEq for CuckooFilter in " + CF + ", derived PartialEq of BloomFilter and BitVec, PartialEq for SipHasherBuilder in src/util.rs"), ("derived equality of the table", "PartialEq of BitstringVec in src/bitstring_vec.rs")],
  ["==", "!="])

p("C34", "A counting strategy sees exactly the item's cells",
  "For every sketch content and every item, a counting strategy, the user's own or a built-in one, is given the total of all net amounts, the sketch's dimensions, and an iterator over exactly one value per row in row order: the net amount of all items that share the item's cell in that row. The iterator ends for good after the last row, its copies are independent and continue where the original stood, and the sketch returns the strategy's answer unchanged.",
  ["histories", "inputs", "configurations"],
  "All contents, items and shapes, and all ways a strategy can use its iterator.",
  "Tests use the three built-in strategies, which read the values once or twice from the start and hide a wrong total, order or copy.",
  [CMS], [("strategy interface", "CountStrategy and ItemValueIter in " + CMS), ("query", "count in " + CMS)],
  ["count() with user-defined CountStrategy"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
