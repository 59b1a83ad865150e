import json
D="include/boost/poly_collection/detail/"
def P(id,title,stmt,over,text,why,files,mech,obs=None):
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":m,"where":files[0]} for m in mech]}}
    if obs: d["anchors"]["observe_at"]=[obs]
    return d
L=[]
L.append(P("C01","Every reference handed out by a collection reaches the element at that position",
 "At every moment, the k-th position of a segment refers to the k-th stored element of that segment: dereferencing it through a base reference, a callable or type-erased wrapper, a local typed iterator or a local base iterator always designates the same live object. This holds after any sequence of insertions, erasures, reservations, shrinkings, clears, copies and moves, including those that relocate the stored elements.",
 ["inputs","histories"],"every collection kind, every element type, every segment size and capacity, every sequence of operations",
 "relocation happens only at particular size/capacity combinations; tests sample a handful of sizes and never all interleavings of growth, shrinking and erasure",
 [D+"split_segment.hpp",D+"packed_segment.hpp",D+"segment.hpp",D+"callable_wrapper.hpp"],
 ["parallel store and index vectors with one extra index entry for end; index rebuilt on relocation","stride iterators over the packed store"],
 "dereferencing iterators of all kinds"))
L.append(P("C02","Traversal visits each stored element exactly once and agrees with the sizes",
 "Iterating from begin to end of a collection visits every element of every segment exactly once, segment by segment in segment order and by position inside each segment, skipping empty segments, and then stops. The number of visited elements equals size(), empty() is true exactly when nothing is visited, and the per-segment sizes and segment traversal report the same elements.",
 ["inputs","histories"],"every number of segments, every pattern of empty and non-empty segments, every position",
 "bugs appear only for particular patterns of empty segments (leading, trailing, consecutive) at the boundary positions",
 [D+"iterator_impl.hpp",D+"poly_collection.hpp",D+"segment.hpp"],
 ["forward iterator with skipping over empty segments using a cached sentinel per segment","size() summed over segments"],
 "begin/end/++/size/empty/segment_traversal"))
L.append(P("C03","Insertion adds exactly the given elements, in place, and changes nothing else",
 "Inserting or emplacing an element adds exactly one element of its dynamic type, equal to the argument, to the segment of that type: before the given position when one is given or the hint lies in that segment, and at the segment's end otherwise; the returned iterator designates the new element. All other elements keep their values and relative order, range insertions add exactly the range in order, and this also holds when the argument is itself an element of the collection.",
 ["inputs","histories"],"every overload, position, size/capacity combination, value and aliasing of the argument",
 "the outcome depends on position, spare capacity and aliasing; tests sample few combinations and do not exercise an argument that lives in the collection being grown",
 [D+"poly_collection.hpp",D+"segment.hpp",D+"split_segment.hpp",D+"packed_segment.hpp"],
 ["lookup of the segment for the dynamic type","push_back/insert/emplace on the store followed by index update","range returned with new sentinel"],
 "returned iterators and contents after insert/emplace/emplace_hint/emplace_pos"))
L.append(P("C04","Erasure removes exactly the designated elements and returns the next position",
 "Erasing a position or a range, locally or across segments, and clearing a segment or the collection, removes exactly the designated elements and keeps all the others with their order; segments stay registered. The returned iterator designates the element that followed the last erased one in traversal order, or the end.",
 ["inputs","histories"],"every pair of positions, every number and pattern of empty segments between them",
 "range erasure across segments has several boundary cases (first/last in same segment, empty segments between, range ending at end) that tests only sample",
 [D+"poly_collection.hpp",D+"segment.hpp",D+"split_segment.hpp",D+"packed_segment.hpp",D+"iterator_impl.hpp"],
 ["erase/erase_till_end/erase_from_begin per segment and clear of the segments in between"],
 "returned iterators and contents after erase/clear"))
L.append(P("C05","One segment per type; unregistered types are always reported",
 "A collection holds at most one segment per type; registering a type or inserting an element of a statically known type creates the segment if missing and never disturbs existing segments. Any access by a type with no segment, and any insertion of an element whose dynamic type is unknown, throws unregistered_type carrying that type and leaves the collection unchanged.",
 ["inputs","histories"],"every set of registered types, every order of registrations, every operation that takes a type or element",
 "the number of types, order of registration and the mix of look-ups is unbounded; tests use a fixed set",
 [D+"poly_collection.hpp",D+"type_info_map.hpp","include/boost/poly_collection/exception.hpp"],
 ["get_map_iterator_for overloads","type_info_map find/insert"],
 "is_registered, register_types, unregistered_type"))
L.append(P("C06","Copy, move, assignment and swap transfer exactly the contents",
 "Copying yields an equal, independent collection and leaves the source untouched; moving yields the former contents of the source and leaves the source valid and usable; swapping exchanges contents; self-assignment changes nothing. This holds with and without an allocator argument, for equal and unequal allocators, and every reference in the result designates elements of the result.",
 ["inputs","histories"],"every content, every allocator propagation setting and equality relation, every later use of both objects",
 "combinations of allocator traits, empty/non-empty sides and later use of the moved-from object are not enumerated by the tests",
 [D+"type_info_map.hpp",D+"segment.hpp",D+"split_segment.hpp",D+"packed_segment.hpp",D+"poly_collection.hpp"],
 ["segment copy/move constructors and assignment through the backend's copy/move","cache rebuild after copy or move"],
 "contents, equality and later operations on both objects"))
L.append(P("C07","Equality holds exactly when the non-empty segments match",
 "Two collections compare equal exactly when, for every type, their segments of that type hold equal elements in the same order, a missing segment counting as an empty one; inequality is the negation. The result does not depend on registration order, capacities, or history.",
 ["inputs"],"every pair of collections: every set of types on either side, empty or non-empty, every contents",
 "asymmetric combinations (extra empty or non-empty segments on either side) are only sampled by tests",
 [D+"poly_collection.hpp",D+"segment.hpp",D+"split_segment.hpp",D+"packed_segment.hpp",D+"value_holder.hpp"],
 ["per-segment comparison plus total size comparison"],"operator== and operator!="))
L.append(P("C08","A failed operation leaves the collection valid",
 "If any element operation or allocation throws in the middle of any collection operation, the exception reaches the caller and the collection stays valid: every segment is still traversable, all references designate live elements, sizes agree with traversal, and later operations work as usual.",
 ["inputs","histories","fault_sequences"],"every operation, every throw point (copy, move, assignment, comparison, allocation), every size/capacity",
 "tests do not inject failures at each throw point of each operation",
 [D+"split_segment.hpp",D+"packed_segment.hpp",D+"segment.hpp",D+"type_info_map.hpp"],
 ["catch blocks rebuilding the index","cached sentinel refreshed after each backend call"],
 "traversal and further use after a caught exception"))
L.append(P("C09","Reserved capacity is honoured and no relocation happens within it",
 "After reserving n for a segment its capacity is at least n, reserving never shrinks and never changes contents, and shrinking keeps the contents. While a segment's size does not exceed its capacity, inserting at its end relocates none of its elements.",
 ["inputs","histories"],"every n, size and capacity, every later sequence of insertions",
 "depends on arbitrary size/capacity combinations",
 [D+"split_segment.hpp",D+"packed_segment.hpp",D+"segment.hpp",D+"poly_collection.hpp"],
 ["reserve/capacity/shrink_to_fit on the store and index"],"capacity(), addresses of elements"))
L.append(P("C10","Every element and allocation is released exactly once, through the allocator",
 "All memory a collection uses is obtained from and returned to its allocator exactly once with the same size, every constructed element is destroyed exactly once, and none is destroyed without having been constructed, over the collection's life including failed operations.",
 ["inputs","histories","fault_sequences"],"every operation sequence, allocator, and throw point",
 "leaks and double releases on rarely taken failure or propagation paths are invisible to functional tests",
 [D+"split_segment.hpp",D+"packed_segment.hpp",D+"segment.hpp",D+"allocator_adaptor.hpp",D+"value_holder.hpp",D+"type_info_map.hpp"],
 ["new_/delete_ pairs, allocator_traits construct/destroy forwarding"],"allocator and element life-cycle accounting"))
L.append(P("C11","Elements lacking an operation fail cleanly instead of being mishandled",
 "Elements that are not copyable or not equality comparable can be stored; an operation that needs the missing ability throws the corresponding documented exception naming the type, and never silently skips, truncates or corrupts. Elements without move assignment are moved by destroy-and-reconstruct with the same visible result.",
 ["inputs","histories"],"every element type lacking any of copy construction, equality, or nothrow/any move assignment, every operation",
 "each (missing ability, operation, position) combination is a separate path",
 [D+"value_holder.hpp","include/boost/poly_collection/exception.hpp"],
 ["value_holder overloads selected by trait; emulated move assignment"],"not_copy_constructible, not_equality_comparable"))
L.append(P("C12","Iterator arithmetic and conversions are consistent in every segment",
 "Local iterators behave as random access iterators: advancing by n then by m equals advancing by n+m, distance is the number of steps, comparison follows distance, and indexing equals advancing and dereferencing, whatever the size of the stored type. Converting between base, typed, const and non-const iterators preserves the designated position.",
 ["inputs"],"every position, offset, element size and conversion pair",
 "unbounded offsets and element sizes",
 [D+"stride_iterator.hpp",D+"callable_wrapper_iterator.hpp",D+"any_iterator.hpp",D+"iterator_impl.hpp",D+"base_model.hpp"],
 ["stride arithmetic over raw memory; pointer arithmetic over the index; recovery of the concrete address from the index entry"],"local iterator operations"))
L.append(P("C13","Type look-up gives the same answer regardless of history",
 "Looking up a type in a collection gives the segment of that type if and only if one was created, no matter which look-ups, insertions, growth, copies, moves, assignments or swaps happened before, and even if several descriptors denote the same type.",
 ["inputs","histories"],"every history of look-ups and modifications",
 "the look-up cache can only go stale after particular histories (growth, copy or move after look-up)",
 [D+"type_info_map.hpp"],["cache of descriptor address to map position, rebuilt on growth/copy/move"],"find/insert results"))
L.append(P("C14","Query algorithms give the standard results over the traversal order",
 "The collection-aware query algorithms (all_of, any_of, none_of, for_each, for_each_n, find and its variants, count, search, mismatch, equal, is_permutation, adjacent_find, partition queries) give the same results as their standard counterparts on the traversal sequence, for every subrange and whatever types are restituted. The for_each variants apply the function to exactly the elements of the range, in order.",
 ["inputs"],"every subrange, every segment layout including empty segments, every predicate and restitution list",
 "matches that straddle segment boundaries and empty segments form an unbounded family of layouts",
 ["include/boost/poly_collection/algorithm.hpp",D+"segment_split.hpp",D+"type_restitution.hpp",D+"functional.hpp"],
 ["for_each_segment/for_each_alg decomposition of the range into per-segment subranges, type restitution"],"algorithm results and functor calls"))
L.append(P("C15","Copying and partitioning algorithms produce the standard output sequence",
 "The collection-aware copying algorithms (copy, copy_n, copy_if, move, transform, replace_copy, remove_copy, unique_copy, rotate_copy, sample, partition_copy) write exactly the output of their standard counterparts on the traversal sequence, in the same order, and return the corresponding end of output, for every subrange and whatever types are restituted.",
 ["inputs"],"every subrange, segment layout, count and predicate",
 "segment boundaries, empty segments and counts form an unbounded family",
 ["include/boost/poly_collection/algorithm.hpp",D+"segment_split.hpp",D+"type_restitution.hpp"],
 ["per-segment application carrying output iterator and state across segments"],"output sequences and returned iterators"))
L.append(P("C16","Observers never modify the collection",
 "Operations on a constant collection (traversal, size and capacity queries, look-up, comparison, copying from it, non-modifying algorithms) write nothing reachable from the collection, so any number of threads may run them concurrently on it and repeated calls give the same answers.",
 ["inputs","schedules"],"every observer, every collection state, every number of concurrent readers",
 "hidden writes (lazy caches) are harmless in single-threaded tests and only break under particular interleavings",
 [D+"type_info_map.hpp",D+"poly_collection.hpp",D+"segment.hpp",D+"split_segment.hpp",D+"packed_segment.hpp",D+"iterator_impl.hpp"],
 ["const find does not populate the cache; backends' const members only read"],"frame of const member functions"))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in L:
    try: jsonschema.validate(x,sch)
    except Exception as e: print(x['id'],str(e)[:300])
