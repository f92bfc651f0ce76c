# The properties: source of properties.jsonl (written by tools/gen.py).
B = "include/boost/multi_index/"
MIC = "include/boost/multi_index_container.hpp"
D = B + "detail/"


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    return d


PROPS = [
    P("C01", "All indices always hold the same elements; insertion is all-or-nothing",
      "After any sequence of operations every index of a container holds exactly the same set of elements (the same objects, size() of them), each visible once through each index. An insertion succeeds exactly when no unique index bans it and then the element appears in every index with its value unchanged; when banned nothing at all changes and the result designates an element that bans it. Erasing or clearing removes elements from all indices at once and touches no other element.",
      ["histories", "inputs", "configurations"],
      "every operation history (insert, emplace, hinted, positional and range insertion, erase, clear) through every index of a container, every value, every combination and order of index types and uniqueness",
      "the tests insert a few dozen hand-picked elements into a few containers; whether an insertion banned by the k-th index rolls back from the others depends on which subset of indices bans it, from which index the call is made and on the history before it",
      [MIC, D + "index_base.hpp", D + "ord_index_impl.hpp", B + "hashed_index.hpp", B + "sequenced_index.hpp", B + "random_access_index.hpp"],
      [("index inheritance chain: insert_ goes down the chain, links on the way back", MIC + ": insert_, insert_nh_; " + D + "ord_index_impl.hpp: insert_"), ("erase_ chain", MIC + ": erase_"), ("clear_ / delete_all_nodes_", MIC + ": clear_")],
      [("node_count", "number of elements, maintained by the container", MIC), ("header node", "anchor of every index' structure", D + "header_holder.hpp")],
      ["size, iteration and find of every index", "pair<iterator,bool> results"]),
    P("C02", "Ordered indices: sorted order, insertion placement, lookup and range results",
      "An ordered index traverses its elements in the order of its comparison, equivalent elements of a non-unique index in the documented order (insertion order, or as close as possible to a hint), and a unique index holds no two equivalent elements. find, count, contains, lower_bound, upper_bound, equal_range and range (including unbounded ends and compatible keys) return exactly the positions the ordered sequence determines. Iterators visit the same sequence forwards and backwards.",
      ["histories", "inputs"],
      "every history of insertions (hinted or not), erasures and updates, every key and range argument; every tree shape reachable",
      "red-black rebalancing and hint placement depend on tree shape and on ties between equivalent keys; the tests visit few shapes and few ties",
      [B + "ordered_index.hpp", D + "ord_index_impl.hpp", D + "ord_index_node.hpp", D + "ord_index_ops.hpp"],
      [("link_point / hinted_link_point", D + "ord_index_impl.hpp"), ("red-black link, rebalance, rebalance_for_extract", D + "ord_index_node.hpp"), ("ordered_index_find/lower_bound/upper_bound/equal_range", D + "ord_index_ops.hpp"), ("range", D + "ord_index_impl.hpp: range")],
      [("color/parent/left/right", "red-black tree links, colour packed in the parent pointer when possible", D + "ord_index_node.hpp")],
      ["iteration, reverse iteration, lookup members"]),
    P("C03", "Ranked indices: ranks always match positions",
      "In a ranked index, nth(n) is the n-th element in order (end() past the end) and rank(it) is the position of it, for every element after every history. find_rank, lower_bound_rank, upper_bound_rank, equal_range_rank, range_rank and count agree with the positions of the corresponding lookup results.",
      ["histories", "inputs"],
      "every history of insertion, erasure, update, extraction, merge and whole-container operation, every rank and key",
      "subtree sizes are kept through rotations, link and unlink fix-ups; a wrong size shows only for particular tree shapes and erasure positions",
      [B + "ranked_index.hpp", D + "rnk_index_ops.hpp", D + "ord_index_node.hpp"],
      [("augment policy: add, remove, rotate_left, rotate_right, copy", B + "ranked_index.hpp: ranked_node_size / ranked_index augmentation"), ("ranked_index_nth, _rank, _find_rank, ...", D + "rnk_index_ops.hpp")],
      [("size per node", "number of nodes of the subtree", B + "ranked_index.hpp")],
      ["nth, rank, *_rank, count"]),
    P("C04", "Hashed indices: lookup, grouping of equivalents, rehashing",
      "In a hashed index find, count, contains and equal_range return exactly the elements equivalent to the key, equivalent elements are always contiguous in iteration order, and a unique index holds no two equivalent elements. rehash, reserve and automatic growth change no element and preserve the relative order of equivalent elements; load_factor() stays within max_load_factor() after insertions, and bucket, bucket_size and local iteration are consistent with the elements.",
      ["histories", "inputs"],
      "every history of insertion, erasure, update, rehash, reserve, max_load_factor change, copy, swap; every distribution of elements over hash values, buckets and groups of equivalents",
      "the group-threaded bucket lists have special cases for groups of size 1, 2 and more, at bucket begin or end, first or last bucket; tests with ordinary hash values hit few of the combinations",
      [B + "hashed_index.hpp", D + "hash_index_node.hpp", D + "hash_index_iterator.hpp", D + "bucket_array.hpp"],
      [("hashed_index_node_alg link/unlink/unlink_last_group", D + "hash_index_node.hpp"), ("unchecked_rehash, reserve_for_insert", B + "hashed_index.hpp"), ("bucket_array sizes and position", D + "bucket_array.hpp")],
      [("prior/next pointers", "prior points to previous group member, bucket or group end", D + "hash_index_node.hpp"), ("max_load", "size at which a rehash is due", B + "hashed_index.hpp")],
      ["lookup members, iteration, bucket interface, load_factor"]),
    P("C05", "Sequenced indices behave as a list over the shared elements",
      "A sequenced index keeps its elements in the sequence its list-like operations (push, insert, splice, relocate, rearrange, reverse, resize, assign, remove, unique, merge, sort, erase, pop) determine, exactly as std::list would with rejected insertions skipped. sort and merge are stable, splice and merge leave non-transferred elements in their container, and none of these operations copies or changes an element they do not create or erase.",
      ["histories", "inputs"],
      "every sequence of list operations with every iterator and range argument, on every ordering, including overlapping and empty ranges, self-transfer and elements banned by other indices",
      "positions, ranges and ties combine: the tests use one or two fixed sequences per operation",
      [B + "sequenced_index.hpp", D + "seq_index_node.hpp", D + "seq_index_ops.hpp"],
      [("node relink / reverse / swap", D + "seq_index_node.hpp"), ("sequenced_index_sort/merge/unique/remove", D + "seq_index_ops.hpp"), ("splice and relocate", B + "sequenced_index.hpp")],
      [], ["iteration in both directions, results of operations"]),
    P("C06", "Random access indices behave as a stable-node vector over the shared elements",
      "A random access index keeps its elements in the sequence its operations determine, with operator[], at, iterator arithmetic and comparison consistent with that sequence after every operation. capacity() >= size() always, reserve guarantees insertion without reallocation up to the reserved size, at() throws out_of_range exactly beyond the end, and sort and merge are stable.",
      ["histories", "inputs"],
      "every sequence of positional, rearranging, capacity and bulk operations with every iterator and range argument",
      "every node stores its slot address: each relocation, growth, shrink and transfer must rewrite all of them; tests use one or two fixed sequences per operation",
      [B + "random_access_index.hpp", D + "rnd_index_node.hpp", D + "rnd_index_ops.hpp", D + "rnd_index_ptr_array.hpp", D + "rnd_node_iterator.hpp"],
      [("relocate, extract, reverse", D + "rnd_index_node.hpp"), ("ptr array reserve / room_for_one / shrink_to_fit", D + "rnd_index_ptr_array.hpp"), ("random_access_index_remove/unique/inplace_merge/sort", D + "rnd_index_ops.hpp")],
      [("up pointers", "every node points to its slot in the pointer array", D + "rnd_index_node.hpp")],
      ["operator[], at, iterator arithmetic, capacity"]),
    P("C07", "replace, modify and modify_key relocate or reject consistently in every index",
      "replace puts the new value in place and repositions the element in every index if no unique index bans it, and otherwise returns false changing nothing at all. modify and modify_key apply the modifier exactly once and reposition the element in every index; on collision they return false and the element is erased from every index, unless a rollback is given and undoes the collision, in which case the element stays with its rolled-back value. Elements that need not move keep their position among equivalents.",
      ["histories", "inputs", "configurations"],
      "every state, every element, every new value, through every index, with and without rollback, every combination of indices that accept, move or ban the element",
      "the outcome depends on which subset of the indices is out of order and which bans the new value; the tests cover a handful",
      [MIC, D + "ord_index_impl.hpp", B + "hashed_index.hpp", D + "index_base.hpp", D + "modify_key_adaptor.hpp"],
      [("replace_, modify_, modify_rollback_, check_rollback_ chains", MIC), ("in_place tests and relink", D + "ord_index_impl.hpp, hashed_index.hpp: replace_, modify_, modify_rollback_")],
      [], ["return values and contents, order of every index"]),
    P("C08", "Single-element insertion has the strong exception guarantee",
      "If any user-supplied operation (element or key copy, comparison, hash, key extraction, allocation) throws during a single-element insertion, emplacement, hinted or positional insertion, node-handle insertion or erasure, the container is left exactly as it was in every index, all iterators stay valid, and nothing leaks. The exception reaches the caller.",
      ["fault_sequences", "histories", "configurations"],
      "every state, every such operation, every point of the operation at which a user-supplied operation or the allocator can throw",
      "no existing test throws from comparison, hashing, key extraction or allocation at all points of insertion",
      [MIC, D + "ord_index_impl.hpp", B + "hashed_index.hpp", B + "sequenced_index.hpp", B + "random_access_index.hpp", D + "auto_space.hpp"],
      [("try/catch around insert_ in the container", MIC + ": insert_, insert_rref_, emplace_"), ("link only after everything that can throw", D + "ord_index_impl.hpp: insert_"), ("bucket and slot reservation before linking", B + "hashed_index.hpp, random_access_index.hpp: insert_")],
      [], ["full observation of the container before and after the failed call"]),
    P("C09", "replace, modify and rollback keep their guarantees when user code throws",
      "If an exception is thrown during replace, the container is unchanged. If one is thrown during modify or modify_key, either the element is erased from every index or - when a rollback is given and succeeds - it is kept with its rolled-back value; every other element keeps its place in every index. In all cases the exception reaches the caller, all indices agree and nothing leaks.",
      ["fault_sequences", "histories", "configurations"],
      "every state, element, new value and index; every point at which a comparison, hash, key extraction, copy, modifier, rollback or allocation can throw, and pairs of such faults",
      "tests inject no exception into the reindexing phase of updates",
      [MIC, D + "ord_index_impl.hpp", B + "hashed_index.hpp"],
      [("try/catch and erase on failure", MIC + ": modify_, replace_"), ("per-index unlink/relink with restoration", D + "ord_index_impl.hpp: replace_, modify_rollback_; hashed_index.hpp: unlink_undo")],
      [], ["full observation before and after the failed call"]),
    P("C10", "Bulk, transfer and whole-container operations survive exceptions in user code",
      "If an exception is thrown during a range insertion, assignment, splice, merge, sort, rehash, reserve, copy construction, copy assignment or initializer-list assignment, it reaches the caller, every container involved stays valid with all its indices in agreement, every element is in exactly one container or destroyed, and nothing leaks. Operations documented as strong (copy and initializer-list assignment, copy construction of the source, rehash, reserve) leave their operands unchanged.",
      ["fault_sequences", "histories", "configurations"],
      "every state of one or two containers, every bulk, transfer and whole-container operation, every point at which a user-supplied operation or allocation can throw, with equal and unequal allocators",
      "the tests throw in none of these operations",
      [MIC, B + "sequenced_index.hpp", B + "random_access_index.hpp", B + "hashed_index.hpp", D + "copy_map.hpp", D + "seq_index_ops.hpp", D + "rnd_index_ops.hpp"],
      [("copy_map releases what it built", D + "copy_map.hpp"), ("external_splice, transfer_range, merge", MIC + ", sequenced_index.hpp, random_access_index.hpp"), ("scope guards", D + "scope_guard.hpp")],
      [], ["full observation of both containers before and after the failed call; live objects and blocks"]),
    P("C11", "Node handles own exactly one element and move it unchanged between containers",
      "extract unlinks exactly the designated element from every index without copying or moving it and hands it over; inserting a handle links that same object in every index, or, if banned, gives the handle back intact in the result together with the position of a banning element. A handle destroyed or overwritten while non-empty destroys its element and returns its memory to its allocator exactly once, and an empty handle changes nothing.",
      ["histories", "inputs"],
      "every state, element and index; every sequence of extract, value change, insert (with and without hint or position), handle move, swap, assignment and destruction, between one or two containers",
      "the tests extract and insert from one state per index; extraction from every structural position and reinsertion where some index bans are not enumerated",
      [D + "node_handle.hpp", MIC, D + "ord_index_impl.hpp", B + "hashed_index.hpp", D + "invalidate_iterators.hpp"],
      [("node_handle, insert_return_type", D + "node_handle.hpp"), ("extract_, insert_nh_", MIC)],
      [], ["empty(), value(), addresses, live objects and blocks"]),
    P("C12", "merge and splice transfer exactly the admissible elements, without copying",
      "merge and splice (whole, single-element and range forms, between containers of the same node type, including self) transfer to the destination exactly the elements that its unique indices admit, considered in source order, at the documented position, leaving the others in the source in their order. Transferred elements keep their address and value and are neither copied nor moved when allocators are equal, and iterators to them become iterators of the destination.",
      ["histories", "inputs", "configurations"],
      "every pair of container states, every operation, position and source range, including containers whose comparison objects or allocators differ",
      "the tests merge a few fixed containers",
      [MIC, D + "ord_index_impl.hpp", B + "hashed_index.hpp", B + "sequenced_index.hpp", B + "random_access_index.hpp", D + "any_container_view.hpp"],
      [("transfer_, transfer_range, final_transfer_range_", MIC), ("splice / merge of each index", D + "ord_index_impl.hpp, hashed_index.hpp, sequenced_index.hpp, random_access_index.hpp")],
      [], ["contents, order, addresses of both containers, returned pair"]),
    P("C13", "Copy, move, assignment and swap preserve value, order and every index' structure",
      "A copy has equal elements in the same order in every index, its own objects, and the source's key extractors, comparisons, hashes and load settings; source and copy are independent afterwards. Move and swap transfer the very elements (addresses and iterators preserved where documented) and the moved-from container is valid and empty. Assignment leaves the destination equal to the source whatever it held before.",
      ["histories", "inputs", "configurations"],
      "every pair of container states reached by any history, including comparison and hash objects that differ between the operands, self-assignment and self-swap",
      "copying relies on a map from original to copied nodes and each index replays its own structure; the tests copy a few containers",
      [MIC, D + "copy_map.hpp", D + "ord_index_impl.hpp", B + "hashed_index.hpp", B + "sequenced_index.hpp", B + "random_access_index.hpp", D + "bucket_array.hpp", D + "rnd_index_ptr_array.hpp"],
      [("copy_ of every index driven by copy_map", D + "copy_map.hpp"), ("swap_, swap_elements_", MIC)],
      [], ["contents, order, addresses, observers of both operands"]),
    P("C14", "Allocators: memory returned to where it came from, propagation honoured",
      "Every block of memory is obtained from, and returned exactly once with the same size to, an allocator equal to the container's, and every element is constructed and destroyed exactly once, over any history. Copy and move construction and assignment, allocator-extended constructors and swap select or propagate the allocator as its traits say, falling back to element-wise transfer when allocators differ and do not propagate.",
      ["histories", "configurations", "inputs", "fault_sequences"],
      "every history over two containers, for every combination of propagation traits, equal or unequal allocators, select_on_container_copy_construction results, and every allocation failure",
      "the existing tests perform one operation per propagation trait with element types and sizes that never reallocate afterwards",
      [MIC, D + "allocator_traits.hpp", D + "auto_space.hpp", D + "bucket_array.hpp", D + "rnd_index_ptr_array.hpp", D + "copy_map.hpp", D + "header_holder.hpp"],
      [("allocator-extended constructors and assignment dispatch", MIC), ("auto_space", D + "auto_space.hpp")],
      [], ["allocation log (allocator id, size), get_allocator(), live blocks"]),
    P("C15", "Iterators and references stay valid and project correctly across operations",
      "Iterators, references and pointers to an element stay valid, designate the same element and can be incremented, decremented and projected to any index until that element is erased, whatever other operations (insertion, update, rearrangement, rehash, reserve, merge, splice, move, swap) happen. project and iterator_to yield, for every element and index, the iterator to the same element, and end iterators project to end iterators.",
      ["histories", "inputs", "configurations"],
      "every history of operations, every iterator held from any index to any element at any earlier time, every pair of indices to project between",
      "tests check stability after single operations on one container; combinations with rehashing, capacity changes and transfers are not enumerated",
      [MIC, D + "bidir_node_iterator.hpp", D + "rnd_node_iterator.hpp", D + "hash_index_iterator.hpp", D + "converter.hpp"],
      [("project, get, converter", MIC + ", detail/converter.hpp"), ("iterator_to", D + "ord_index_impl.hpp, hashed_index.hpp, sequenced_index.hpp, random_access_index.hpp")],
      [], ["iterators kept across operations"]),
    P("C16", "Serialization restores contents, order, iterators and pointers",
      "A container saved to an archive and loaded again, into an empty or a used container, holds restored copies of exactly the saved elements, in the same order in every ordered, ranked, sequenced and random access index (also among equivalent elements) and grouped in every hashed index, and behaves like any other container afterwards. Iterators, local iterators and pointers to elements archived after it are restored to the corresponding positions. Archives written with earlier class versions of the container are still read. Saving changes nothing; a failing save or load (throwing user code, truncated archive) leaves a valid container and leaks nothing.",
      ["histories", "inputs", "fault_sequences"],
      "every reachable container state (hence every relative permutation of the indices), every archive type, every prior content of the destination, every point where user code throws or the archive ends",
      "restoring positions relies on a longest-increasing-subsequence encoding between each index and the first one; the tests archive a few fixed permutations",
      [MIC, D + "index_saver.hpp", D + "index_loader.hpp", D + "index_matcher.hpp", D + "ord_index_impl.hpp", B + "hashed_index.hpp", B + "sequenced_index.hpp", B + "random_access_index.hpp", D + "bidir_node_iterator.hpp", D + "rnd_node_iterator.hpp", D + "hash_index_iterator.hpp", D + "archive_constructed.hpp", D + "duplicates_iterator.hpp"],
      [("index_saver::save / index_loader::load", D + "index_saver.hpp, index_loader.hpp"), ("patience sorting of displaced elements", D + "index_matcher.hpp"), ("rearranger of each index", D + "ord_index_impl.hpp, sequenced_index.hpp, random_access_index.hpp, hashed_index.hpp"), ("save, load of the container", MIC)],
      [], ["contents, order, iterators of the restored container"]),
    P("C17", "Safe mode: every iterator misuse is diagnosed, no correct use is",
      "With safe mode enabled, every container operation behaves as without it and no use of valid iterators raises a diagnostic, whatever the history (updates, rearrangements, transfers between containers, swaps, restored archives). Iterators to erased or extracted elements, or of destroyed containers, are invalid from then on; transferred elements' iterators belong to the destination. Passing an invalid, end, foreign, out-of-range, or wrongly ordered iterator to any operation that documents the check reports the documented error code before anything changes.",
      ["histories", "inputs", "configurations"],
      "every reachable container state, every function taking iterators, every kind of wrong iterator, every iterator held from an earlier state",
      "safe mode keeps a list of iterators per container which every erasing, transferring and swapping operation must update; the tests check some functions with a few kinds of wrong iterator",
      [D + "safe_mode.hpp", B + "safe_mode_errors.hpp", MIC, D + "ord_index_impl.hpp", D + "rnk_index_ops.hpp", B + "hashed_index.hpp", B + "sequenced_index.hpp", B + "random_access_index.hpp"],
      [("safe_iterator, safe_container, detach_equivalent_iterators", D + "safe_mode.hpp"), ("BOOST_MULTI_INDEX_CHECK_* in every index", B + "hashed_index.hpp, sequenced_index.hpp, random_access_index.hpp, detail/ord_index_impl.hpp")],
      [], ["error codes passed to the safe mode assertion"]),
    P("C18", "Same behaviour in every build configuration",
      "The documented behaviour does not depend on the allocator's pointer type (fancy pointers that are not raw pointers), on compressed or plain tree nodes, on invariant-checking or safe mode being enabled, on the compiler or on the language standard; with invariant checking enabled the internal invariants of every index hold after every public operation, also after those that threw.",
      ["configurations", "histories", "inputs"],
      "every history in every build configuration",
      "the tests run in one or two configurations and never check invariants after arbitrary histories; nodes, buckets and pointer arrays are addressed through allocator-supplied pointers",
      [D + "ord_index_node.hpp", D + "hash_index_node.hpp", D + "seq_index_node.hpp", D + "rnd_index_node.hpp", D + "uintptr_type.hpp", D + "raw_ptr.hpp", D + "invariant_assert.hpp", MIC],
      [("compressed node (pointer and colour in one word)", D + "ord_index_node.hpp"), ("invariant_ of every index", MIC), ("node pointer types from the allocator", D + "allocator_traits.hpp")],
      [], ["contents, order, iterators; invariant assertions; dereferences of fancy pointers"]),
    P("C19", "Concurrent reads of one container and access to different ones are safe",
      "Read-only operations on one container (iteration, lookup, rank, range and bucket queries, projection, comparison, copying it, creating, copying, assigning and destroying iterators) from several threads, and any operations on different containers, are free of data races and deadlocks and give the results they give alone. This holds with safe mode enabled, whose bookkeeping of iterators must stay exact: afterwards erasing an element invalidates exactly the iterators to it.",
      ["schedules", "configurations", "histories"],
      "every interleaving of the threads' steps, for every combination of read-only operations and indices",
      "the existing tests are single-threaded; safe mode threads all iterators of a container through one list under a mutex",
      [D + "safe_mode.hpp", D + "scoped_bilock.hpp", D + "any_container_view.hpp", MIC, D + "ord_index_impl.hpp", D + "rnk_index_ops.hpp", B + "hashed_index.hpp", B + "sequenced_index.hpp", B + "random_access_index.hpp"],
      [("safe_iterator_base::attach, detach; transfer_equivalent_iterators", D + "safe_mode.hpp"), ("const members of every index", D + "ord_index_impl.hpp, hashed_index.hpp, random_access_index.hpp, sequenced_index.hpp")],
      [], ["memory accesses and their ordering", "results of every operation", "validity of iterators afterwards"]),
    P("C20", "Composite keys compare, order and hash lexicographically, also by partial keys",
      "Composite key results compare with each other and with tuples of their own or of smaller length as lexicographic sequences of the extracted keys (equality for equal lengths), with the operators or with the element-wise predicates given to composite_key_compare, composite_key_equal_to and composite_key_hash, whose state and argument order are respected; evaluation stops at the first difference. Equal keys and tuples hash equally. Lookups by a prefix of the key find exactly the elements with that prefix.",
      ["inputs", "configurations", "histories"],
      "all key values, all numbers of keys up to the limit of ten, all prefix lengths, std::tuple and boost::tuple, compatible types, every predicate state, every container content",
      "the operators are generated by macros and recursion for every combination of operand kinds; the tests sample a few values of each",
      [B + "composite_key.hpp", D + "cons_stdtuple.hpp"],
      [("compare_ckey_ckey, compare_ckey_cval, equal_*, hash_*", B + "composite_key.hpp"), ("cons_stdtuple", D + "cons_stdtuple.hpp")],
      [], ["results of comparisons and lookups, numbers of key extractions"]),
    P("C21", "Key extractors yield the element's own key however the element is reached",
      "identity, member, the member function and global function extractors, and key<>, applied to an object, a reference wrapper, or any chain of pointers, smart pointers and wrappers to it, yield the key of that very object: the documented value, or a reference to the key itself (no copy, no temporary), mutable exactly when documented; writing through a read/write extractor (modify_key) changes the element and repositions it in every index.",
      ["inputs", "configurations", "histories"],
      "every extractor, every shape of access to the object, constness, derived classes, noexcept variants, every container content and update",
      "overload resolution picks a different function for every access shape; the tests try some of the combinations on one object",
      [B + "identity.hpp", B + "member.hpp", B + "mem_fun.hpp", B + "global_fun.hpp", B + "key.hpp", D + "modify_key_adaptor.hpp"],
      [("operator() overloads", B + "identity.hpp, member.hpp, mem_fun.hpp, global_fun.hpp"), ("key_impl", B + "key.hpp")],
      [], ["extracted values, addresses, constness"]),
    P("C22", "Indices and containers compare as the sequences or sets they represent",
      "Two ordered, ranked, sequenced or random access indices (also of different positions or containers) are equal exactly when their element sequences are equal, and are ordered lexicographically; !=, >, <= and >= follow from == and <. Hashed indices compare equal exactly when their elements match as collections, whatever the insertion history, bucket count or order within a group of equivalent elements. Containers compare as their first index. Comparing changes nothing.",
      ["histories", "inputs"],
      "every pair of reachable container states, including equal contents reached by different histories and groups of equivalent elements in every relative permutation",
      "hashed comparison matches groups of equivalent elements as permutations across different bucket arrays; the tests compare a handful of containers",
      [MIC, D + "ord_index_impl.hpp", B + "hashed_index.hpp", B + "sequenced_index.hpp", B + "random_access_index.hpp"],
      [("operator== / operator< of each index", D + "ord_index_impl.hpp, sequenced_index.hpp, random_access_index.hpp"), ("hashed_index::equals", B + "hashed_index.hpp")],
      [], ["results of the six comparison operators"]),
    P("C23", "Operations stay within their documented complexity",
      "For every number of elements and every history: ordered index lookups, insertion and replacement take logarithmically many steps, insertion with a right hint and erasure amortised constant; ranked nth, rank, count and the rank operations logarithmic, also among equivalent elements; hashed lookup, insertion, erasure and begin() constant on average, whatever the size of groups of equivalent elements and however sparse the bucket array; sequenced operations constant (distance of the spliced range aside); random access indexing and iterator arithmetic constant, insertion and erasure linear in the distance to the end; iterator_to, project, swap and move constant; copies n log n.",
      ["histories", "inputs"],
      "every size, every position, every order of construction, every distribution of equivalent elements; the bound also limits tree height, group skipping and rebalancing",
      "the tests use small containers and observe results only: code that finds the right answer by walking, ignores a hint or rehashes too often passes",
      [D + "ord_index_node.hpp", D + "ord_index_ops.hpp", D + "rnk_index_ops.hpp", D + "hash_index_node.hpp", B + "hashed_index.hpp", B + "sequenced_index.hpp", B + "random_access_index.hpp"],
      [("ordered_index_node_impl::link, rebalance; hinted link_point", D + "ord_index_node.hpp, ord_index_impl.hpp"), ("ranked_nth, ranked_rank", D + "rnk_index_ops.hpp"), ("group skipping: next_to_inspect, end_of_range", D + "hash_index_node.hpp, hashed_index.hpp")],
      [], ["number of steps: dereferences, comparisons, hash calls"]),
]
