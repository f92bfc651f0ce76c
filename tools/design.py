# Per-property paragraphs of DESIGN.md (rendered by gen.py)
DESIGN = {
"C01": ("45 s", "Configurations with 2-4 indices of every kind, uniqueness pattern and order (3 unique indices with crossing keys; ordered+hashed+sequenced+ranked; random access first/last ...), all insertion forms through every index (lvalue, rvalue, emplace, element of the same container, hint at every position, position, range, initializer list), erase by iterator/range/key/key aliasing an element, clear. Fixpoint up to 2-3 elements (4-5 thorough). Which subset of indices bans an element, from which index, after which history: all combinations occur. `xfer.cpp`: construction, insertion and assignment of every sequence of up to 5 values (forward, single-pass and initializer-list forms, every position, plus sequences that cross the growth points) against one insertion after the other. `ints.cpp`: containers of plain integers, where counts and values are confused with iterators most easily: `assign(n,v)`, `insert(pos,n,v)`, `resize`, initializer lists, inserters with argument types int/size_t/short/char, on every content up to 4 elements over 4 values, then again with every allocation failing."),
"C02": ("40 s", "Single ordered indices to larger sizes so that every red-black tree shape reachable up to 13 nodes (16 thorough) by insertion at any position and erasure is visited (the key is the shape incl. colours); all lookups with present, absent and in-between keys, heterogenous keys and compatible comparisons; range with all bound pairs; hints at every position; descending comparison objects; compressed and uncompressed nodes; a logarithmic comparison bound derived from red-black height at each lookup. Lookups also go through comparison / hash functors whose argument type is converted from the key, and (ordered) through coarser orders for which runs of different keys are equivalent. `large.cpp`: five build orders at 65534, 65536 and 65537 elements (131071 to a million in the thorough run), every position and key asked after building, erasing, merging, copying."),
"C03": ("40 s", "As C02 for ranked indices, plus nth, rank, find_rank, lower/upper/equal_range_rank, range_rank in every state, so subtree counts are exercised through every rebalancing; including updates, node extraction, merge, copies and faults. Lookups also go through comparison / hash functors whose argument type is converted from the key, and (ordered) through coarser orders for which runs of different keys are equivalent. `large.cpp`: five build orders at 65534, 65536 and 65537 elements (131071 to a million in the thorough run), every position and key asked after building, erasing, merging, copying."),
"C04": ("50 s", "Hash functor with engineered collisions: equal hash for different keys, same bucket for different hashes at the initial bucket count only, separate bucket. All group sizes and adjacencies (group encodings of 1, 2, 3+ elements) to 7 elements, rehash / reserve / max_load_factor in all orders, faults during rehash. The state key includes how each bucket sees each element, so a damaged bucket list is never mistaken for a known state. Lookups also go through comparison / hash functors whose argument type is converted from the key, and (ordered) through coarser orders for which runs of different keys are equivalent. `buckets.cpp`: every bucket count of the library's table below 30 million (200 million), reached by rehash, reserve, growth, shrinking and copying, with keys at both ends of the bucket array and around multiples of the count, growth by insertion to 200000 elements, rehash requests that cannot be satisfied. 21 maximum load factors x every count to 300: reserve then insert without rehash, factor never exceeded, lowering it. `large.cpp`: five build orders at 65534, 65536 and 65537 elements (131071 to a million in the thorough run), every position and key asked after building, erasing, merging, copying and rehashing."),
"C05": ("25 s", "Every list operation with every position/range/source; sort and merge on all multisets to 7 elements with stability checked by element identity; relocation, rearrange with all permutations, splice between indices of the same and of another container. `ints.cpp`: list containers of plain integers, where counts and values are confused with iterators most easily: `assign(n,v)`, `insert(pos,n,v)`, `resize`, initializer lists, inserters with argument types int/size_t/short/char, on every content up to 4 elements over 4 values, then again with every allocation failing. `arr.cpp`: what only shows at sizes no state exploration reaches (the merge-sort carry chain, growth): sort, stable re-sort, merge at every split, unique, remove, rearrange on every content of three keys to 8 elements and a family of strided contents to 300 elements, and relocate / splice / erase of every range to every position to 14, against the standard algorithms. `large.cpp`: five build orders at 65534, 65536 and 65537 elements (131071 to a million in the thorough run), every position and key asked after building, erasing, merging, copying and sorting."),
"C06": ("25 s", "As C05 for random access indices plus capacity growth through 26 elements (38 thorough), reserve/shrink_to_fit at every size, swap of differing capacities, iterator arithmetic and comparisons for all pairs, at(), and 'no reallocation below capacity()' by allocation counts. `ints.cpp`: vector containers of plain integers, where counts and values are confused with iterators most easily: `assign(n,v)`, `insert(pos,n,v)`, `resize`, initializer lists, inserters with argument types int/size_t/short/char, on every content up to 4 elements over 4 values, then again with every allocation failing. `arr.cpp`: what only shows at sizes no state exploration reaches (the merge-sort carry chain, growth): sort, stable re-sort, merge at every split, unique, remove, rearrange on every content of three keys to 8 elements and a family of strided contents to 300 elements, and relocate / splice / erase of every range to every position to 14, against the standard algorithms. `large.cpp`: five build orders at 65534, 65536 and 65537 elements (131071 to a million in the thorough run), every position and key asked after building, erasing, merging, copying and sorting."),
"C07": ("66 s", "replace (copy, move, alias of another element), modify, modify_key with and without rollback, rollback to every other value, throwing rollback; every element x every value x every index; model decides collision, in-place position, rollback result."),
"C08": ("60 s", "fault injection at every tick of every insertion/erasure transition; strong guarantee = complete equality of contents, order, addresses, iterators; nothing leaked. Handle insertion into containers of other types (`xfer.cpp`) with a fault at every user operation. Where a failed operation has changed a capacity or bucket count, further insertions must find the space really there."),
"C09": ("60 s", "fault injection at every tick of replace/modify/modify_key incl. inside modifiers and rollbacks; after a failed modify the element is gone (or rolled back) and everything else is unchanged; states reached after faults are explored further (chains of faults)."),
"C10": ("150 s", "fault injection at every tick of range insertion, assign, sort, merge, splice, rehash, reserve, copy/assignment forms, with equal and unequal allocators. Transfers between different container types (`xfer.cpp`) with a fault at every user operation. Range construction, insertion and assignment of every sequence (`xfer.cpp`) with a fault at every user operation. After a failed rehash or reserve the exact order must be kept."),
"C11": ("45 s", "extract by iterator and by key from every position of every state; insertion plain, hinted and positional into the same or another container; handle move/swap/assignment/destruction; addresses, allocators, live objects. `xfer.cpp`: handles extracted by every index from every position of one container type and inserted by every index, position and hint into another, node-compatible type (other uniqueness, keys, directions, index orders)."),
"C12": ("50 s", "merge/splice of whole containers, single elements and ranges, between all pairs of states and all index pairs (source and destination index independently), lvalue and rvalue forms, self-merge, differing comparison objects, unequal allocators. `xfer.cpp`: merge and splice (whole, element, range; lvalue and rvalue) between eight ordered pairs of different node-compatible container types (unique / non-unique, other keys, directions, index orders), all 25 index pairs, all source contents to 3 and destination contents to 2 elements over 6 values."),
"C13": ("90 s", "copy/move construction, copy/move/initializer-list assignment, swap (member, free, per index), range construction between all pairs of states; comparison direction, functor state ids, max_load_factor and allocator of source and destination differ. `big.cpp`: containers of up to 300 (1500) elements whose six indices are in families of permutations of each other (strides, rotations, reversals, blocks, with groups of equivalent elements) are copied, assigned and moved."),
"C14": ("75 s", "the above with allocator identity tracked per block: five combinations of propagation traits, always-equal allocator, select_on_container_copy_construction, allocation failures; every deallocation is checked for allocator, size and red zone. Every allocation during an operation or a load must go through the allocator of a container the operation concerns; single-container runs of all operations (sort, merge, resize, reserve...) and archives included."),
"C15": ("100 s", "iterators to all elements of all indices, and end iterators, are captured before every transition and compared afterwards; project between all index pairs for all iterators."),
"C16": ("50 s", "Engine hook: each new canonical state is archived (text, binary or XML) and reloaded into empty, used, and larger-capacity containers; compared with the model (exact order in ordered/ranked/sequenced/random access indices, grouping in hashed ones), iterators, local iterators and element pointers archived afterwards; saved again; every operation of the alphabet applied to the restored container. All n! relative permutations of two indices to n=7 (8). Text archives are rewritten into the formats of container class versions 0 to 3 and must load alike; value and construct data must be given the right class version. `big.cpp` archives the large permuted containers described under C13. With --xfaults: exception at every user operation of save and load, truncation of text archives at every token."),
"C17": ("95 s", "the same explorer built in safe mode (assertions throw): every transition of correct use must be silent; captured iterators to erased elements and ends of destroyed containers must be invalid. `safe.inc` hooks each new state: every function x every kind of wrong iterator (default constructed, erased, extracted, destroyed container, other container, end, reversed range, out of bounds, same container where different are needed, unequal allocators) must report the documented code; the state must be unchanged. Not required (the library does not diagnose, and the documentation disclaims completeness): range `insert(pos,...)` of sequenced and random access indices."),
"C18": ("250 s", "the same explorer with a checked fancy-pointer allocator (`FP`: every pointer object knows its own address, a bitwise copy or a null dereference is caught), without node compression, with invariant checking and safe mode, with clang++ and C++20. Fault exploration is repeated in invariant-checking mode (the library's own invariant check must hold after every failed operation) and with fancy pointers."),
"C19": ("60 s", "`conc.cpp` is compiled with `-fsanitize=thread` but linked against our own callbacks (`conc_rt.cpp`) instead of libtsan: threads are fibers, the scheduler switches before every mutex acquisition / atomic operation and enumerates all interleavings depth-first with sleep sets (complete up to a cap per program, otherwise all schedules with at most 1 (2) preemptions), a vector-clock shadow memory reports every pair of conflicting unordered accesses. Programs: all pairs (and per-index triples, and two-action sequences) of 12 actions x 5 indices of one container holding all five index kinds, with and without safe mode; afterwards elements are erased one by one and exactly the right kept iterators must become invalid. `scoped_bilock` separately under all orders of three mutexes. Assumes sequential consistency for race-free programs. Excluded: modifying an iterator object while another thread modifies its container (not promised)."),
"C20": ("60 s", "`ck.cpp` (one build per number of keys 1..10): all key values over an alphabet of 2-9 digits against all other results, std::tuple and boost::tuple of every length from 1 to n+2, with compatible element types, other value types and other extractor states, in both argument orders: six operators, composite_key_compare in five direction patterns, composite_key_equal_to / composite_key_hash with four states, the std:: and boost:: specialisations and deprecated functors; extractions beyond the first difference are counted. `ckc.cpp`: five indices (ordered ascending, mixed directions, ranked descending, hashed default and with state) with every content up to 4 (sequences) / 7 (multisets) elements over {0,1}^3 and {0,1,2}^3, every prefix including absent digits, every single-element replacement, erase by key, unique indices."),
"C21": ("40 s", "`kx.cpp`: 22 extractors x up to 35 ways of reaching an object x 8 objects (value, address identity, constness, write-through, no copies; copies of the extractor); key<> resolution; containers of S, S*, shared_ptr, reference_wrapper and a derived class keyed by read/write extractors, all sequences of insert / modify_key through two indices / erase to depth 4. Known finding: see KNOWN_FINDINGS."),
"C22": ("45 s", "`cmp.inc` hooks every new canonical pair of container states and evaluates == != < > <= >= for every pair of indices of equal kind within and across the containers, and for the containers, against lexicographic / multiset comparison in the model. Value alphabets with equal keys but different payloads make groups whose permutations matter (`HP`, `HP2`, `HUP`, `KOP`, ...), with different bucket counts through rehash; mixed comparison directions."),
"C23": ("25 s", "`cost.cpp`: ordered, ranked, hashed (also with one bucket), sequenced and random access containers and three combinations; construction orders ascending, descending, from both ends, from the middle, bit-reversed, strided, all equal, four groups, pairs; for each, all operations at all positions with n and 16n elements. A step is a dereference of an allocator pointer (fancy pointers count them) or a call of a comparison, hash or equality function. Documented constant: at most twice the steps at the small size plus 30; logarithmic: 2.4 times plus 40 (log 16n / log n is at most 1.67); linear etc. accordingly; hinted insertion: the same number of comparisons. Where the documentation amortises or averages, sums over all positions are compared. Random access erasure of ranges, splicing and merging may be quadratic by the documentation. Amortisation is checked further: the average cost of building nine containers at every power of two to 65536. Known finding: see KNOWN_FINDINGS."),
}
