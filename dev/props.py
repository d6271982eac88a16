#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, "/verif")
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Theta update sketch holds exactly the distinct hashes below its theta",
  "After any sequence of updates (through every typed update method), trims, resets and compactions, a theta update sketch retains exactly the distinct 63-bit hashes of the offered items that lie below its current theta, never more than about twice its nominal size, and at least the nominal number once theta has dropped below its starting value. Theta never rises except by reset, stays at its starting value until more than the nominal number of distinct hashes were retained, and is always either the starting value or one of the offered hashes. Every update call reports truthfully whether its item was inserted, already present, or rejected by theta, and order or repetition of items cannot change which hashes below theta are retained.",
  ["inputs", "histories", "configurations"], "all sequences of typed updates, duplicates, trims, resets, compactions; every lgK, resize factor, sampling probability and seed",
  "tests feed a few ascending integer streams at one or two sizes and compare estimates; table resizes, rebuild boundaries, collisions and mixed histories are sampled only incidentally",
  ["theta/update_sketch.go", "theta/hashtable.go", "theta/compact_sketch.go", "internal/quick_select.go", "internal/murmur3.go"],
  [("open-addressing table with stride probing, resize and quick-select rebuild", "theta/hashtable.go")],
  [("theta", "sampling threshold", "theta/hashtable.go"), ("entries", "retained hashes", "theta/hashtable.go")],
  ["Update* return values, All, Theta64, NumRetained, Compact"])
p("C02", "Theta set operations are exact set algebra on the retained hashes",
  "A union result holds exactly the k smallest (or all, if fewer) distinct hashes below the least theta among its starting theta and all its non-empty inputs, with theta at the next one when it had to cut; an intersection result is the common hashes below the least theta; A-not-B is A's hashes missing from B below the least theta; and each result is marked empty exactly when that set is known to be empty. Results do not depend on the order of the inputs, on whether they are update, compact, decoded or wrapped, ordered or unordered sketches, nor on the requested output order, and inputs built with another seed are refused. Jaccard similarity returns lower <= estimate <= upper within [0,1], the estimate being the fraction of common hashes in the pair's union, exact equality is reported exactly when both sketches hold the same set at the same theta, and the similarity test answers whether the lower bound reaches the threshold, the dissimilarity test whether the upper bound stays at or below it.",
  ["inputs", "histories", "configurations"], "all interleavings of union/intersection/A-not-B/Jaccard calls over sketches of every form and theta, with reuse of the stateful operators and of results as inputs",
  "tests combine two or three sketches with chosen overlaps; relative theta orders, early-stop on ordered inputs, emptiness corner cases and operator reuse multiply beyond what they sample",
  ["theta/union.go", "theta/intersection.go", "theta/a_not_b.go", "theta/jaccard_similarity.go"],
  [("union gadget + min theta", "theta/union.go"), ("hash join with theta cut", "theta/intersection.go, theta/a_not_b.go")])
p("C03", "Theta serialized images restore the same sketch",
  "Any compact theta sketch written with any encoder (uncompressed or compressed) and read back with any reader (slice, stream with arbitrary short reads, or zero-copy wrapper) restores the same emptiness, theta, retained hashes, order flag and seed hash, and behaves identically as an input of later set operations. The declared serialized size equals the number of bytes written and never exceeds the declared maximum size for the number of entries, encoding is deterministic, and an image of a non-empty sketch is refused when read with a different seed.",
  ["inputs", "configurations", "histories"], "all compact sketches: empty, single, exact, estimating, every entry bit width of the compressed form, every count modulo the packing block",
  "tests round-trip a handful of sizes; the 63 bit-packing widths times 8 tail positions and the preamble variants are not enumerated",
  ["theta/encoder.go", "theta/decoder.go", "theta/compact_sketch.go", "theta/wrapped_compact_sketch.go", "theta/bit_packing.go"],
  [("v3/v4 encoders, bit packing of deltas", "theta/encoder.go, theta/decoder.go, theta/bit_packing.go")])
p("C04", "Tuple sketches keep theta's key set and fold every update into its summary",
  "A tuple sketch of any kind retains exactly the keys a theta sketch would retain for the same offered keys, and the summary of each retained key is the fold, in order, of exactly the values offered with that key while it was retained. Table growth, rebuilds, trimming, compaction (ordered or not), filtering and reset never detach a summary from its key, drop it, apply a value twice or to another key; filtering keeps exactly the entries whose summary satisfies the predicate.",
  ["inputs", "histories", "configurations"], "all sequences of keyed updates, trims, filters, compactions and resets over generic, array-of-numbers and array-of-strings sketches",
  "tests check summaries of a few keys in small sketches; the pairing of key and summary across resizes and rebuilds is not enumerated",
  ["tuple/hashtable.go", "tuple/update_sketch.go", "tuple/compact_sketch.go", "tuple/arrayofnumbers_update_sketch.go", "tuple/arrayofnumbers_compact_sketch.go"],
  [("table of (hash, summary) entries", "tuple/hashtable.go")])
p("C05", "Tuple set operations combine summaries by policy and leave inputs alone",
  "Tuple union, intersection and A-not-B select keys exactly like the corresponding theta operations, and the summary of each result key is the policy applied to the summaries that key has in the inputs, in input order (A-not-B and theta-valued right operands leave A's summaries as they are). The operation never changes the summaries held by its inputs, a result is not changed by later use of the operator, and Jaccard agrees with theta's.",
  ["inputs", "histories", "configurations"], "all histories of union, intersection, A-not-B and Jaccard calls, with operators and results reused and inputs inspected after every call",
  "tests look at the result once and never at the inputs afterwards",
  ["tuple/union.go", "tuple/intersection.go", "tuple/a_not_b.go", "tuple/tuple_a_not_theta_b.go", "tuple/arrayofnumbers_union.go", "tuple/arrayofnumbers_intersection.go"],
  [("policy application on matching entries", "tuple/union.go, tuple/intersection.go")])
p("C06", "Tuple serialized images restore keys, summaries and theta",
  "Serializing any compact tuple sketch (generic, array of numbers, array of strings) and reading it back restores the same emptiness, theta, keys and order flag, and the same summary for each key; reading with another seed is refused. The restored sketch is interchangeable with the original in later operations. Summaries of strings hold and restore any list of up to 127 strings, longer ones are refused, and the key of a list of strings is its published hash.",
  ["inputs", "configurations"], "all compact tuple sketches, summary types and sizes, empty to estimating", "tests round-trip a few sketches per kind, with short lists",
  ["tuple/encoder.go", "tuple/decoder.go", "tuple/arrayofnumbers_encoder.go", "tuple/arrayofnumbers_decoder.go"],
  [("preamble + entries encoding", "tuple/encoder.go")])
p("C07", "HLL sketch state is the set of offered items, slot by slot the maximum",
  "Whatever the order, repetition and types of updates, an HLL sketch in list or set mode holds exactly the distinct coupons of the offered items, and in dense mode its register array is, slot by slot, the maximum value offered to that slot, identically for the 4-, 6- and 8-bit representations. Mode promotions, HLL_4 offset shifts and exceptions, copies and conversions between representations neither lose nor invent register content; the count of slots at the current minimum and the emptiness flag agree with the registers.",
  ["inputs", "histories", "configurations"], "all update orders and item sets, every lgK and register width, promotions at every size, conversions at every point",
  "tests compare estimates within percents; a wrong register, missed exception or lost coupon stays inside the tolerance",
  ["hll/hll_sketch.go", "hll/hll_array.go", "hll/hll_4array.go", "hll/hll_6array.go", "hll/hll_8array.go", "hll/aux_hash_map.go", "hll/coupon_list.go", "hll/coupon_hash_set.go"],
  [("register maximum, aux map, curMin", "hll/hll_*array.go"), ("coupon promotion", "hll/coupon_*.go")])
p("C08", "HLL union equals the sketch of all the items at the smallest lgK",
  "After merging any sketches of any size, mode and register width in any order, interleaved with direct updates, an HLL union's result holds, slot by slot, the maximum over all the inputs folded to the smallest lgK that a dense input or the union's limit imposes, and the requested result width does not matter. The union's own estimate and bounds answer for the current content at every moment, and merging never changes the source sketches (a dense source that would have to be folded may be refused, without effect).",
  ["inputs", "histories", "configurations"], "all sequences of merges, direct updates, results and resets over sources of all lgK, modes and widths",
  "tests use a few (lgK, n) combinations and compare estimates with tolerance",
  ["hll/union.go", "hll/hll_array.go"], [("union dispatch by mode and lgK, downsampling, rebuild flag", "hll/union.go")])
p("C09", "HLL images and copies restore an equivalent sketch",
  "A compact or updatable image of any HLL sketch, read back, has the same lgK, width, mode, coupons or registers, and the same estimate and bounds, as do copies; it then behaves like the original under further updates and merges. Originals, copies and images do not influence each other afterwards.",
  ["inputs", "histories", "configurations"], "all sketches in every mode and width at every point of their life", "tests round-trip a few sizes and compare estimates",
  ["hll/preamble_utils.go", "hll/to_byte_slice.go", "hll/hll_sketch.go", "hll/coupon_list.go", "hll/aux_hash_map.go"], [("image layout", "hll/preamble_utils.go")])
p("C10", "CPC sketch is exactly the set of offered coupons",
  "Whatever the order and repetition of updates of any type, the bit matrix a CPC sketch represents is exactly the set of (row, column) coupons of the offered items at every point: through sparse, hybrid, pinned and sliding forms and every window shift no coupon is lost or invented. Re-offering an item changes nothing, and the coupon count equals the number of distinct coupons.",
  ["inputs", "histories", "configurations"], "all streams and orders across every flavor and window offset", "tests compare estimates and reference merges at sampled stream lengths",
  ["cpc/cpc_sketch.go", "cpc/pair_table.go", "cpc/bit_matrix.go"], [("surprising-value table, sliding window, first interesting column", "cpc/cpc_sketch.go, cpc/pair_table.go")])
p("C11", "CPC union is the bitwise OR at the smallest lgK",
  "After merging any CPC sketches of any size and form in any order, a union's result represents exactly the union of their coupon sets folded to the smallest lgK involved, and a sketch with another seed is refused. The result can be merged and updated further like any sketch, and merging does not change the source sketches.",
  ["inputs", "histories", "configurations"], "all merge sequences over sketches of every lgK and flavor", "tests merge two streams and compare with a reference at a few sizes",
  ["cpc/cpc_union.go"], [("accumulator / bit-matrix cases, row folding", "cpc/cpc_union.go")])
p("C12", "CPC images and copies restore an equivalent sketch",
  "Compressing any CPC sketch to its image and reading it back gives the same lgK, coupon set, coupon count, estimate and bounds, and the same behaviour under further updates and merges; reading with another seed is refused. Copies are equally faithful and independent.",
  ["inputs", "histories", "configurations"], "all sketches of every flavor, window offset and pseudo-phase", "tests round-trip at sampled stream lengths; the entropy coder's table choices depend on the phase",
  ["cpc/cpc_compressed_state.go", "cpc/cpc_sketch.go", "cpc/utils.go"], [("entropy coding of window and surprising values", "cpc/cpc_compressed_state.go")])
p("C13", "KLL sketch is a weighted sample of its input that conserves weight",
  "At every moment of any history of updates and merges, the items a KLL sketch retains were all offered, their power-of-two weights sum to exactly the number of items offered, min and max are the exact extremes, everything is retained with weight one until the sketch first has to compact, and the retained count stays within the declared bound. Merging adds the counts and never changes the source sketch; reset returns to the fresh state.",
  ["inputs", "histories", "configurations"], "all update/merge/reset histories, all k and m, every random compaction choice", "tests check rank error on a few streams; weight loss in a rare compaction or merge path hides inside the error",
  ["kll/items_sketch.go", "kll/items_sketch_utils.go"], [("level compaction, general merge compress", "kll/items_sketch.go")])
p("C14", "REQ sketch is a weighted sample of its input that conserves weight",
  "At every moment of any history of updates and merges, the items a REQ sketch retains were all offered, their power-of-two weights sum to exactly the number of items offered, min and max are the exact extremes, everything is kept exactly until the first compaction, and the protected end (high ranks or low ranks, as configured) is never compacted away. Merging adds the counts, keeps the accuracy mode, and never changes the source.",
  ["inputs", "histories", "configurations"], "all update/merge/reset histories, k, accuracy modes and random compaction choices", "tests check rank error on a few streams",
  ["req/sketch.go", "req/compactor.go", "req/buffer.go"], [("relative compactors with section schedule", "req/compactor.go")])
p("C15", "Quantile queries agree with the weighted sample they summarise",
  "For KLL and REQ sketches every rank, quantile, CDF and PMF answer, inclusive or exclusive, is the exact answer for the retained weighted items: rank is the fraction of weight at or below (below) the item, quantile is the first retained item whose rank reaches the asked rank, CDF is rank at the split points, PMF its differences summing to one, and sorted views list all retained weight in order. Answers are monotone, stay within min and max, are within the declared rank error of the true ones, and asking never changes the sketch or later answers.",
  ["inputs", "histories"], "all retained multisets, query points (equal to, between, beyond items), both criteria, repeated and interleaved with updates", "tests ask a few points of a few streams",
  ["kll/items_sketch_sorted_view.go", "req/sorted_view.go", "internal/inequality_search.go", "kll/items_sketch.go", "req/sketch.go"], [("sorted view with cumulative weights and inequality search", "kll/items_sketch_sorted_view.go, req/sorted_view.go")])
p("C16", "KLL images restore an equivalent sketch",
  "The image of any KLL sketch, for every item type, restores the same k, count, min, max and retained weighted items, its length equals the declared size, and the restored sketch answers queries and accepts updates and merges like the original.",
  ["inputs", "histories", "configurations"], "all sketches: empty, single item, exact, estimating, any level structure, any item values including empty and multi-byte strings", "tests round-trip a few sizes per type",
  ["kll/items_sketch.go", "kll/items_sketch_heap.go", "common"], [("preamble, levels array, item serde", "kll/items_sketch.go, common/")])
p("C17", "t-digest conserves weight and keeps centroids and queries ordered",
  "Through any history of updates and merges (including of restored digests) the total weight of a t-digest equals the number of values absorbed, min and max are the exact extremes, centroids are in non-decreasing order inside [min, max] with positive weights summing to the total, the weighted mean is preserved, and their number stays bounded by the compression. Rank and quantile are monotone, rank is 0 below min and 1 above max, quantile(0) and quantile(1) are min and max, CDF and PMF agree with rank; NaN and infinite input is refused without effect.",
  ["inputs", "histories", "configurations"], "all update and merge histories for float32/float64, compressions, orders, repeated and extreme values", "tests check a few streams within tolerances",
  ["tdigest/double.go", "tdigest"], [("buffered merge with scale-function limits", "tdigest/")])
p("C18", "t-digest images restore an equivalent digest",
  "The image of any t-digest, with or without its buffer, via slice or stream, restores the same k, weight, min, max, centroids and buffered values, has the declared size, and the restored digest answers and continues exactly like the original; the reference implementation's compatibility images are read likewise.",
  ["inputs", "histories"], "all digests (empty, single, buffered, merged), both element types, both writers and readers", "tests round-trip a few sizes",
  ["tdigest"], [("encoder, decoder, compat decoder", "tdigest/")])
p("C19", "Frequent-items bounds always contain the true frequency",
  "After any history of weighted updates, merges and resets, for every item, tracked or not, lower bound <= true total weight <= upper bound, the difference never exceeds the reported maximum error, and the stream weight is the exact sum of all weights. Frequent-item queries return every item whose true weight exceeds the threshold in no-false-negatives mode, and only such items in no-false-positives mode, in descending order; while the number of distinct items has not exceeded the map's capacity everything is exact.",
  ["inputs", "histories", "configurations"], "all histories over items and longs sketches, any map size, skewed or adversarial weights, merges of sketches of different sizes", "tests check a few hand-made streams",
  ["frequencies/items_sketch.go", "frequencies/longs_sketch.go", "frequencies/reverse_purge_item_hash_map.go", "frequencies/reverse_purge_long_hash_map.go"], [("reverse-purge hash map and offset", "frequencies/")])
p("C20", "Frequent-items images restore an equivalent sketch",
  "The byte image (and, for longs, the string form) of any frequent-items sketch restores the same stream weight, error offset, map size limits and tracked items with their bounds, for every item value, and the restored sketch continues like the original under updates and merges.",
  ["inputs", "histories"], "all sketches including empty, fully purged and resized ones; negative, zero and extreme keys; empty and multi-byte strings", "tests round-trip a few",
  ["frequencies"], [("preamble and arrays", "frequencies/")])
p("C21", "Count-min counters are exact sums and estimates never underestimate",
  "After any sequence of weighted updates and merges of compatible sketches, the estimate of every item is at least its true total weight and at most that plus the collision weight its worst row allows (for non-negative weights), total weight is the sum of the absolute weights, and merging is the same as having absorbed both streams. Incompatible sketches are refused unchanged, updates through every key type agree with estimates through it, and serialization restores identical answers.",
  ["inputs", "histories", "configurations"], "all update/merge histories, widths, depths, seeds, key types", "tests check a few keys",
  ["count/count_min_sketch.go"], [("per-row hashing and cell addition", "count/count_min_sketch.go")])
p("C22", "Bloom filter never forgets and its set operations are bitwise",
  "After any sequence of updates through any key type, a Bloom filter reports every inserted item as present, query-and-update returns whether it was already present, and the number of used bits equals the set bits at all times. Union of compatible filters is the OR (so contains both), intersection the AND, inversion the complement, reset empties; incompatible filters are refused unchanged, and queries never change a filter; a filter built for n items and a rate p answers falsely at no more than about that rate after n items.",
  ["inputs", "histories", "configurations"], "all histories of updates, queries, unions, intersections, inversions, resets over sizes, hash counts, seeds and types", "tests check a few items per type",
  ["filters/bloom_filter.go", "filters/bit_array_ops.go", "filters/bloom_filter_builder.go"], [("double hashing into a bit array", "filters/")])
p("C23", "Bloom filter images restore an equivalent filter",
  "The image of any Bloom filter, empty or not, restores the same capacity, hash count, seed and bits (and so the same answers), and its bytes are the published cross-language layout, down to the bit positions an item sets. The declared size equals the bytes written, and the restored filter continues to behave like the original.",
  ["inputs", "histories"], "all filters, sizes and fill levels, including images whose bit count must be recomputed", "tests round-trip a few",
  ["filters/bloom_filter.go", "filters"], [("preamble + bit array", "filters/")])
p("C24", "Reservoir sampling keeps min(n,k) offered items and counts exactly",
  "At every moment a reservoir sketch reports exactly the number of items offered and holds exactly min(n, k) of them, each a distinct offered occurrence; while n <= k it holds all of them. A reservoir union's result obeys the same with the summed counts, never holds more than the union's maximum k (nor more than a sampling input it had to fold in at a smaller k), keeps only items from its inputs, every occurrence surviving with the same probability, and subset-sum estimates are ordered (lower <= estimate <= upper <= total) and exact while nothing was dropped.",
  ["inputs", "histories", "configurations"], "all update/union/reset/copy histories, every k, resize factor and random choice", "tests check sizes on a few runs; the random branches are not enumerated",
  ["sampling/reservoir_items_sketch.go", "sampling/reservoir_items_union.go"], [("reservoir replacement; union by sampling mode", "sampling/reservoir_items_*.go")])
p("C25", "VarOpt sampling conserves total weight and keeps heavy items exactly",
  "At every moment a VarOpt sketch holds exactly min(n, k) distinct offered occurrences, their adjusted weights sum to the total weight offered (up to rounding), items heavier than the threshold keep their exact weights and all others carry the common threshold weight, which never falls and is no less than the original weight of any item it represents. While n <= k every item and weight is exact; subset-sum estimates are ordered and exact for the whole stream; non-positive, NaN or infinite weights are refused without effect.",
  ["inputs", "histories", "configurations"], "all weighted streams (skewed, equal, increasing, huge ratios), k, resize factors, random choices", "tests check totals on a few streams",
  ["sampling/varopt_items_sketch.go"], [("heap of heavy items, light reservoir, tau", "sampling/varopt_items_sketch.go")])
p("C26", "VarOpt union conserves weight and count across any inputs",
  "After merging any VarOpt (and reservoir) sketches of any k in any order, the union's result reports the total count, holds at most the union's maximum number of items, all of them taken from the inputs, and conserves the total weight (up to rounding); items heavier than the result's threshold keep their exact weights. Inputs are not changed, and results and resets leave the union usable.",
  ["inputs", "histories", "configurations"], "all merge sequences over exact and sampling inputs of smaller and larger k, with results taken in between", "tests merge a few pairs",
  ["sampling/varopt_items_union.go"], [("gadget with marks, outer tau", "sampling/varopt_items_union.go")])
p("C27", "Sampling images restore an equivalent sketch or union",
  "The image of any reservoir or VarOpt sketch or union, for every item type and in every state (empty, exact, sampling, marked), restores the same k, counts, items and weights, and the restored object continues to obey the sampling guarantees under further updates and merges.",
  ["inputs", "histories"], "all sketches and unions at every point of their life", "tests round-trip a few and rarely continue afterwards",
  ["sampling"], [("preamble, weights, marks, item serde", "sampling/")])
p("C28", "Cardinality estimates lie between their bounds and are exact when they must be",
  "For theta, tuple, HLL and CPC sketches and unions in every state, lower bounds for 3, 2, 1 standard deviations, estimate, and upper bounds for 1, 2, 3 are in non-decreasing order and never below what is certainly known; in exact mode they all equal the true distinct count, and otherwise the estimate stays within the advertised relative error of the true count with the advertised confidence, and each side of the interval is as wide as the estimator's known error asks: theta and tuple bounds are those of a binomial sample (of the given rate, at the tail of 1, 2, 3 deviations), estimates of merged CPC and out-of-order HLL sketches and of HLL coupon lists are the cardinality whose expected state is the one held, the errors behind HLL and CPC bounds are the published ones, bounds of a subset of a tuple sketch's entries behave the same, and the bounds of Jaccard similarity cover the true similarity and are those of a sampled proportion at two deviations. An empty sketch estimates zero, and re-offering items does not move the estimate.",
  ["inputs", "histories", "configurations"], "all sketches and unions over lgK, modes, flavors, sampling probabilities and set-operation results", "tests check a few n per lgK with wide tolerances",
  ["internal/binomialbounds", "hll/hll_estimators.go", "cpc/cpc_confidence.go", "cpc/icon_estimator.go", "theta", "tuple"], [("estimators and bound tables", "internal/binomialbounds, hll, cpc")])
p("C29", "Truncated, foreign or wrong-seed images are refused without crashing",
  "For every serialized format of the library, a strict prefix of a valid image that lacks any of its content, and an image of another family or with an inconsistent serial version, preamble size or (where the format carries one and holds content under it) seed hash, make the reader return an error: it never panics, hangs, or silently yields a sketch that differs from the original, and where a format ends in unused room (updatable HLL images) a prefix lacking only such room reads as the same sketch or is refused.",
  ["fault_sequences", "inputs"], "every truncation point of valid images of every kind and size, and corruption of each identifying header field", "tests try one or two truncations per format",
  ["theta/decoder.go", "tuple/decoder.go", "hll", "cpc", "kll", "tdigest", "frequencies", "count", "filters", "sampling"], [("length and header validation in readers", "all readers")])
p("C30", "Operations change only the object they are called on",
  "Calling any operation on one sketch, union or filter changes the observable state of that object only: sources of a merge, objects returned earlier, copies, restored objects and slices or byte images handed in or out are unaffected, and pure queries (estimates, ranks, serialization, iteration, printing, results) change nothing observable, whatever history of calls connects the objects.",
  ["histories", "inputs"], "all histories over several live objects related by merge, copy, result, serialization and restoration", "tests look at the object under test only; aliasing shows when another object is inspected later",
  ["theta", "tuple", "hll", "cpc", "kll", "req", "tdigest", "frequencies", "count", "filters", "sampling"], [("copies of internal arrays and summaries at API boundaries", "all packages")])
p("C31", "Images are, byte for byte, the published cross-language layout",
  "What any serializer of the library writes is exactly the sequence of bytes the published DataSketches layout of that family prescribes for the sketch's content (preamble size, serial version, family number, flags, parameters, seed hash, counts, little-endian fields, entries; the order of entries is free only where the layout leaves it free, CPC payloads are judged by their preamble and lengths, count-min cells by their row sums, REQ has no image), for every content and parameter. Conversely an image of that layout by another or earlier writer (theta versions 1 and 2, legacy tuple images, version 1 reservoirs, entries in any order a format admits, Bloom filters with unknown bit count) is read as exactly its content.",
  ["inputs"], "all contents of all families and the parameters in the header, against an independent statement of the layouts", "round-trip tests do not notice a writer and a reader that agree on a wrong layout; golden files sample a few contents",
  ["theta/encoder.go", "theta/decoder.go", "tuple/encoder.go", "tuple/decoder.go", "hll", "cpc", "kll/items_sketch.go", "tdigest", "frequencies", "count", "filters", "sampling"], [("preamble field offsets and flag bits", "*/preamble_utils.go"), ("encoders and decoders", "theta, tuple, sampling"), ("bit packing", "theta/bit_packing.go")])

p("C32", "Parameters are accepted in their ranges, reported, and bound the size for life",
  "Every constructor (sketches, unions and filters of all families, with their options) succeeds exactly for the documented parameters - lgK 5..26 and probability in (0,1] for theta and tuple, lgK 4..26 for CPC and 4..21 for HLL, k 8..65535 with m even in 2..8 for KLL, even k 4..1024 for REQ, k at least 10 for t-digest, a power of two for frequency maps, at least one hash and three buckets and fewer than 2^30 cells for count-min, positive bits and hashes (or items and a rate in (0,1)) for Bloom, k at least 2 for reservoirs and 1..2^31-2 for VarOpt - and returns an error, without crashing, for any others, as HLL bounds do for other than 1, 2 or 3 deviations. Whatever is then done to the object (updates past its capacity, reset, copy, writing and reading its image), it reports exactly the parameters it was given and never holds more entries than they promise (theta and tuple sketches 15/8 of 2^lgK and their unions' results 2^lgK, frequency sketches 3/4 of the map, samples k, t-digest centroids about 2k).",
  ["inputs", "histories"], "every constructor over and around every border of its ranges, then histories of growth, reset, copy and restoration", "tests try one value on one side of some borders, on some constructors, and never follow the parameter through restore and growth",
  ["theta/update_sketch.go", "theta/union.go", "tuple", "hll/hll_sketch.go", "cpc/cpc_sketch.go", "kll/items_sketch.go", "req/sketch.go", "tdigest/double.go", "frequencies", "count/count_min_sketch.go", "filters/bloom_filter_builder.go", "sampling"], [("constructors' range checks", "New* of every package"), ("startingSubMultiple, table growth", "theta/hashtable.go"), ("parameters in images", "decoders of every package")])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
from registry import PROPS
notes = {}
checks, na = [], []
for x in P:
    i = x["id"]
    if i in PROPS:
        s = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique=s.get("technique", "TLA+ specification checked with TLC; spec-generated and random executions of the real code validated against it by TLC"),
            level=s.get("level", "model_checking"),
            level_note=s.get("note", "The specification is checked exhaustively for small constants; the code is checked on the executions of the run, each step of which must be a behaviour of the specification. Trusts the harness projection, TLC, Go and JVM.")))
    else:
        na.append(dict(property=i, reason="specification under construction; not claimed yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="See DESIGN.md. No hooks: checks use the public API only."), open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
