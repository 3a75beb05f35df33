#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
SW, DN, TC, UT = "tpp/detail/swiss_table.hpp", "tpp/detail/dense_table.hpp", "tpp/detail/table_common.hpp", "tpp/detail/utility.hpp"
PUB = ["tpp/sparse_set.hpp","tpp/sparse_map.hpp","tpp/stable_set.hpp","tpp/stable_map.hpp","tpp/dense_set.hpp","tpp/dense_map.hpp","tpp/dense_multiset.hpp","tpp/dense_multimap.hpp"]
P = []
def p(id, title, st, over, q, why, files, mech, state=None, obs=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs or ["public container API"], hook_needed=None)))

p("C01","Lookup agrees with the history of operations",
 "At any point, find, contains, at and size report exactly the elements that were inserted and not since erased, extracted or cleared: every such element is found under its key with its current value, and no other key is found. This holds whatever the quality of the hash function (colliding, constant, adversarial bits) and whatever mixture of insertions, erasures and growth went before.",
 ["histories","inputs"],"every container, every finite sequence of insertions, erasures, clears and lookups, every hash function that is consistent with the key equality",
 "The tests insert and erase monotonically with std::hash over a few strings or 0x1000 integers; they never reach a full group, a wrapped probe, tombstones in front of live elements, equal hash fragments, or an in-place reclaim.",
 [SW,DN]+PUB,[("probe loop / control bytes",SW+":find_node,find_available,set_metadata"),("bucket chains",DN+":find_node,insert_node,erase_node,move_chain")],
 [dict(name="metadata",meaning="control byte per slot: 7 hash bits, empty, deleted, sentinel",where=SW),dict(name="m_sparse/next",meaning="bucket heads and per-key chains",where=DN)])
p("C02","Insertion adds an element if and only if no equal key is present",
 "Every insertion form (insert, emplace, try_emplace, hinted and range forms) adds exactly one element when its key is absent, and otherwise leaves the container unchanged; the reported flag says which happened. The returned iterator designates the element now stored under that key, so no two stored elements ever have equal keys.",
 ["histories","inputs"],"every container, insertion form and reachable prior state, including keys equal under the comparator but not identical",
 "Tests call insert/emplace once per key on tiny tables and rarely look at the returned iterator; duplicates are only tried right after the insertion, never after erasures, tombstone reuse, growth or hash collisions.",
 [SW,DN]+PUB,[("find-before-insert",SW+":do_insert,do_emplace,do_try_emplace"),("find-before-insert",DN+":do_insert,do_emplace,do_try_emplace")])
p("C03","Iteration visits every element exactly once",
 "Iterating from begin to end visits each stored element exactly once and nothing else, with const and non-const iterators alike, and begin equals end exactly when the container is empty. Where the container offers bidirectional or random-access iteration, the reverse traversal and iterator arithmetic visit the same sequence.",
 ["histories","inputs"],"every container and every reachable state (empty, never allocated, full, sparse, after erasures, after clear, after growth)",
 "Tests iterate only freshly filled containers via is_permutation; gaps of a whole group, a table that was emptied by erasing, reverse iteration and iterator arithmetic are not exercised.",
 [SW,DN,TC],[("skip over available slots",SW+":swiss_node_iterator::next_occupied, meta_block::count_available"),("order links",TC+":ordered_iterator"),("random access",TC+":random_access_iterator_base, table_iterator")])
p("C04","Ordered containers preserve insertion order",
 "The ordered containers iterate, forwards and backwards, in insertion order: a new element goes last (or, with a hint, immediately after the hinted element, and first when the hint is end()), and front and back are the first and last of that order. Erasing, replacing values, growing, reserving, rehashing, copying, moving and swapping never change the relative order of the elements that remain.",
 ["histories"],"every ordered container (sparse, stable, dense; set and map) and every sequence of operations, hints included",
 "The tests check the order only after appending three elements and after a plain copy; no test combines order with erasure, hints, in-place reclaim, slot reuse, swap-removal or unequal capacities.",
 [TC,SW,DN],[("relative-offset links",TC+":ordered_link link/unlink/relink_from/swap"),("header fix-up on copy/move",SW+":copy_data,move_data"),("header fix-up on copy/move",DN+":copy_data,move_data,erase_node")])
p("C05","Erasure removes exactly what was asked and returns the successor",
 "Erasing by key, by iterator, by range, or with erase_if removes exactly the designated elements and nothing else; erasing an absent key changes nothing. The returned iterator is such that continuing from it visits exactly the elements that had not yet been visited, so erase-while-iterating loops terminate and see every element once; erase_if returns the number of removed elements.",
 ["histories","inputs"],"every container, every reachable state, every position, range and predicate, including the last element, the empty range and the whole container",
 "Tests erase by key on unordered tables and ignore the returned iterator; range erasure and erase_if have no test at all.",
 [SW,DN]+PUB,[("tombstones",SW+":erase_node,do_erase"),("swap-with-last removal",DN+":erase_node,do_erase"),("erase_if loops","tpp/*.hpp:erase_if")])
p("C06","Growth, reserve and rehash never change the contents",
 "Automatic growth, reserve, rehash, changing the maximum load factor and reclaiming of erased slots leave the set of elements and their values unchanged. After reserve(n) the container can hold n elements without invalidating references by growing; its size never exceeds its capacity and, in the dense containers, its load never exceeds the maximum load factor (unless that was lowered below the current load).",
 ["histories","inputs"],"every container, any n including 0 and values below the current size, any interleaving with insertions and erasures, tables at the in-place reclaim threshold",
 "Tests grow monotonically by insertion; reserve/rehash are never called on a table with erased slots or with small/zero arguments and the in-place reclaim never runs.",
 [SW,DN],[("resize / in-place rehash",SW+":do_rehash,rehash_deleted,reserve,rehash,emplace_node"),("resize",DN+":do_rehash,resize_data,maybe_resize,maybe_rehash,reserve,rehash")])
p("C07","Copies are equal and independent",
 "Copy construction and copy assignment, whatever the destination held before (nothing, fewer or more elements, a larger or smaller table, erased slots), make the destination hold exactly the source's elements - in the same order for ordered containers - and leave the source unchanged. Afterwards no operation on either container affects the other, and self-assignment is a no-op.",
 ["histories"],"every container, every pair of reachable source and destination states, followed by arbitrary operations on both",
 "Tests copy-construct a three-element container and compare; assignment over non-empty, larger, or emptied destinations and later mutation of either side are not tested.",
 [SW,DN,TC],[("copy_data",SW+":copy_data,operator=,erase_nodes"),("copy_data",DN+":copy_data,operator=,clear_data")])
p("C08","Moves and swaps transfer everything and leave usable containers",
 "Move construction, move assignment and swap (member and free, also with empty or identical operands) transfer all elements, their order and the container's configuration, without copying elements (except that the keys of stable maps have to be copied between unequal allocators). The destination's old elements are gone after a move, and the source is empty and fully usable; swap exchanges the two contents exactly.",
 ["histories"],"every container, every pair of reachable states (including empty, never allocated and self), equal and unequal allocators, followed by arbitrary operations on both",
 "Tests only move-construct a filled container; swap and reuse of the moved-from object are not tested for any container.",
 [SW,DN,TC],[("move_from/move_data/swap_buffers",SW),("move_from/move_data/swap_buffers",DN),("link hand-over",TC+":ordered_link::relink_from,swap")])
p("C09","Stable containers never move their elements",
 "In the stable containers, references and pointers to an element stay valid and designate the same element from its insertion until it is erased - through insertions, erasures of others, growth, rehash, reclaim, container move and swap with equal allocators, and through extraction and re-insertion of its node.",
 ["histories"],"stable_set/stable_map and their ordered versions, every history",
 "No test holds a pointer across an operation.",
 [TC,SW],[("heap-allocated values owned by slots",TC+":stable_node relocate/move_from/swap"),("node handles",TC+":stable_node::extracted_type")])
p("C10","Node handles and merge neither lose nor duplicate elements",
 "Extracting an element removes it from the container and the handle then owns exactly that element; inserting a handle transfers it when its key is absent and otherwise leaves the element in the handle (returned for insert, assigned for insert_or_assign); inserting an empty handle is a no-op. Merging moves exactly the elements whose keys are absent in the destination, keeps the others in the source, and appends them in source order for ordered containers.",
 ["histories"],"stable containers, all reachable states of both containers and the handle, hinted and unhinted forms, equal and overlapping key sets",
 "Tests extract one node and merge disjoint three-element containers once; conflicts, empty handles, hints and order of merged elements are not tested.",
 [SW,TC,"tpp/stable_map.hpp","tpp/stable_set.hpp"],[("extract/insert_node/merge",SW),("extracted_type, insert_return",TC)])
p("C11","Multi-key entries stay consistent across all of their keys",
 "In dense_multiset and dense_multimap an entry is inserted only if none of its keys collides with the key of the same position of another entry, and then it can be found, accessed and erased through every one of its keys. Erasing through any key (or iterator) removes the entry from all of its lookups and disturbs no other entry.",
 ["histories","inputs"],"multikeys of two and three keys, every history of insertions and erasures through any key, any hash function (also with keys of different positions sharing buckets)",
 "Tests use two std::string/int keys, few entries and no hash collisions; entries that collide only partly, erasure by the second/third key with long chains and swap-removal are not reached.",
 [DN,"tpp/dense_multiset.hpp","tpp/dense_multimap.hpp","tpp/detail/multikey.hpp"],[("per-key chains",DN+":find_chain_ptr,do_erase,commit_node,move_chain")])
p("C12","Updates change exactly the addressed value",
 "insert_or_assign, emplace_or_replace, operator[], at and writes through iterators change only the mapped value of the addressed key: an absent key is added with the given (or default) value, a present key keeps its stored key and position. Arguments passed as lvalues are never modified, and try_emplace leaves its arguments untouched when the key is present; at throws std::out_of_range exactly when the key is absent.",
 ["histories","inputs"],"every map, every form and overload (lvalue/rvalue, hinted), every reachable state",
 "Tests call each form once on a fresh map with string keys and never check the arguments afterwards.",
 [SW,DN]+[f for f in PUB if "map" in f],[("replace",TC+":packed_node::replace,stable_node::replace"),("do_insert_or_assign/do_try_emplace",SW),("do_insert_or_assign/do_try_emplace",DN),("operator[]","tpp/*_map.hpp")])
p("C13","Every element is constructed once and destroyed once; no memory leaks",
 "At any quiescent point the number of live key and value objects equals the number of stored elements (plus those held by node handles), no object is destroyed twice, used after destruction or overwritten while alive, and every allocation is returned exactly once to an equal allocator with the size it was requested with. After all containers and handles are gone nothing remains.",
 ["histories"],"every container, every history including copies, moves, merges, clears and replacement",
 "The tests use types with no instrumentation and check nothing about lifetime or allocation.",
 [SW,DN,TC,UT],[("erase_nodes/destructor/deallocate",SW),("clear_data/pop_node/realloc_buffer",DN+","+UT),("construct/destroy/relocate",TC)])
p("C14","A throwing hash, comparator, constructor or allocator leaves containers valid",
 "If a user-supplied hash, comparison, element constructor or copy constructor, or the allocator throws during an operation, the exception reaches the caller, the container remains valid and consistent, and no element or memory block is leaked or destroyed twice. A failed insertion of a single element, a failed lookup and a failed erasure have no effect on the contents.",
 ["fault_sequences","histories"],"every container, every operation, every point at which a user callback or an allocation can throw (moves, swaps and destructors of elements do not throw)",
 "No test throws.",
 [SW,DN,TC],[("try/catch in resize",SW+":swiss_table_buffer::resize"),("try/catch in resize_data",DN),("temporary in do_emplace",SW+","+DN)])
p("C15","Equality is equality of contents",
 "Two containers of the same type compare equal exactly when they hold equal elements (keys and mapped values), independently of the order or history by which they were built, of their capacity and of erased slots; != is the negation of ==.",
 ["histories"],"every container, every pair of reachable states",
 "Tests compare a container with its own copy.",
 PUB,[("operator== via is_permutation","tpp/*.hpp:operator=="),("packed_map_ref comparison",TC)])
p("C16","Allocator propagation follows the allocator's traits",
 "Memory owned by a container always comes from and returns to an allocator equal to its get_allocator(); copy construction uses select_on_container_copy_construction, allocator-extended constructors use the given allocator, and assignment and swap replace the allocator exactly when its propagation traits say so. Moves between unequal, non-propagating allocators still transfer every element.",
 ["configurations","histories"],"allocators with and without identity and with each combination of propagation traits, every container and reachable state",
 "Tests use std::allocator only.",
 [SW,DN],[("buffer assignment / can_swap",SW+":swiss_table_buffer"),("operator=, move_from, swap",DN)])
p("C17","Functor state travels with the contents; heterogeneous lookup agrees",
 "hash_function() and key_eq() return the functors the container was constructed with; copying, moving and swapping carry them along with the elements they organise, so lookups stay correct with stateful functors. With transparent functors, lookup, erasure and extraction by an equivalent key of another type give the same result as with the key itself.",
 ["configurations","histories"],"stateful and stateless functors, different functor states in source and destination, transparent and plain functors, every container",
 "Tests use stateless std::hash/std::equal_to of the key type only.",
 [SW,DN,TC],[("empty_base storage",TC+":empty_base"),("operator=/swap of functors",SW+","+DN),("transparent overloads","tpp/*.hpp")])
p("C18","All build configurations behave identically",
 "The observable behaviour of every operation is the same in all supported build configurations: SSE2, SSSE3 and portable (TPP_NO_SIMD) group matching, debug and release, gcc and clang, C++17 and C++20.",
 ["configurations","histories"],"the product of the configurations buildable on x86-64, every history",
 "The test build fixes one compiler, one SIMD level and debug mode.",
 ["tpp/detail/arch.hpp","tpp/detail/define.hpp",SW,UT],[("meta_block variants",SW+":meta_block"),("combined vs separate buffers",SW+":swiss_table_buffer"),("TPP_ASSERT/TPP_ASSUME",UT)])
p("C19","Bulk construction and assignment equal element-wise insertion",
 "Constructing from an initializer list or iterator range (of any iterator category and length, with any bucket count), inserting a range and assigning an initializer list give the same contents as inserting the elements one by one into an empty (or the existing) container, the first of several equal keys winning; assignment discards the previous contents.",
 ["inputs"],"every container, every list length (not only those that match an internal capacity), any bucket count argument, duplicates included",
 "Tests use three-element lists only, the one length for which the internal capacity happens to fit.",
 [SW,DN]+PUB,[("range constructors, distance_or_n",SW+","+DN+","+UT),("assign/insert(first,last)",SW+","+DN)])
p("C20","The bucket interface partitions the elements",
 "In the dense containers every element belongs to exactly one bucket: bucket(key) is below bucket_count(), iterating bucket(key) visits the element, bucket_size(n) is the number of elements visited in bucket n, and the sizes of all buckets add up to size().",
 ["histories","inputs"],"dense_set/dense_map and ordered versions, every reachable state and hash function",
 "No test touches the bucket interface.",
 [DN,"tpp/dense_set.hpp","tpp/dense_map.hpp"],[("bucket_iterator, begin(n)/end(n), bucket_size",DN)])
p("C21","Arguments may refer to elements of the container itself",
 "Insertion and assignment work when their arguments are references to keys or values stored in the same container, even if the operation grows the table or replaces that value: the result is as if the arguments had been copied beforehand.",
 ["inputs","histories"],"every container, every insertion/assignment form, arguments aliasing any stored element, at every table occupancy (growth due or not)",
 "No test passes an element of the container to itself.",
 [SW,DN,TC],[("rehash before construct",SW+":emplace_node"),("resize before construct",DN+":maybe_resize,push_node"),("replace",TC)])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
