#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so the file stays valid against the schema).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in state],
      "mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":list(observe),"hook_needed":hook}})
VS,VM,TS,TM,DD,MS,IT="src/vec_set.rs","src/vec_map.rs","src/total_vec_set.rs","src/total_vec_map.rs","src/dedup.rs","src/merge_state.rs","src/iterators.rs"
RT,FR,AR,LR="src/radix_tree/mod.rs","src/radix_tree/flat_radix_tree.rs","src/radix_tree/arc_radix_tree.rs","src/radix_tree/lazy_radix_tree.rs"
inv=("sorted slice","strictly ascending, duplicate free backing storage",VS+" VecSet.0")
p("C01","VecSet union/intersection/difference/xor are the exact set operations",
 "For any two sets, the union, intersection, difference and symmetric difference (as methods, as methods of the abstract set trait, and as the operators |, &, -, ^ on references) contain exactly the elements the mathematical operation prescribes, in strictly ascending order without duplicates. This holds for every size and overlap of the operands, every combination of inline capacities, and whether storage is inline or on the heap, and the operands are unchanged.",
 ["inputs"],"all pairs of sets of any ordered element type, all inline capacities",
 "quickcheck samples i64 pairs with small sizes; which interleavings of the divide-and-conquer merge, which index splits and which inline/heap transitions are reached is luck, and each is a separate path.",
 [VS,MS],[("binary merge with Set*Op",VS+" impl MergeOperation"),("result building",MS+" SmallVecMergeState")],[inv])
p("C02","In-place set operations agree with the set algebra",
 "|=, &=, -= and ^= (with an owned or a borrowed right side), union_with, intersection_with, difference_with, xor_with and extend leave the left set holding exactly the elements of the corresponding mathematical operation, strictly ascending, for every pair of sets and every inline capacity on either side. None of them panics, and a borrowed right side is unchanged.",
 ["inputs"],"all pairs of sets, both storage modes on each side",
 "The tests compare assign operators with sampled operands of one array type; the *_with methods are not tested at all, and the in-place buffer has size-dependent gap handling.",
 [VS,MS],[("in place builder merge",MS+" InPlaceMergeState / InPlaceSmallVecMergeStateRef"),("assign operators and *_with",VS)],[inv])
p("C03","VecSet predicates are exact",
 "contains, is_subset, is_superset, is_disjoint, is_empty and len return exactly what the mathematical sets dictate, for every pair of sets and every probed element, including empty and identical operands and operands with different inline capacities.",
 ["inputs"],"all pairs of sets and all probe elements",
 "Sampled pairs rarely differ in exactly one element at a boundary position, which is where early-abort merging and binary search go wrong.",
 [VS,MS],[("early aborting merge",MS+" BoolOpMergeState"),("binary search",VS+" AbstractVecSet::contains")],[inv])
p("C04","Building a collection sorts and deduplicates exactly",
 "Collecting any sequence into a set (or building it from a vector, a BTreeSet or the vecset! macro) gives exactly the distinct elements of the sequence in strictly ascending order, and collecting any sequence of pairs into a map keeps for each key the last value given. sort_dedup and sort_dedup_by_key return the distinct keys in ascending order and keep the first or the last occurrence as asked, for every input order, length and duplicate pattern.",
 ["inputs"],"all input sequences: every length, order, duplicate pattern and requested keep mode",
 "Incremental compaction depends on the running ratio of sorted to unsorted elements and only starts at 16 elements; random samples rarely combine long inputs with distinguishable duplicates around a compaction.",
 [DD,VS,VM],[("incremental sort and dedup",DD+" SortAndDedup::push / sort_and_dedup"),("dedup_by",DD)],[("sorted prefix","number of leading elements known sorted",DD+" SortAndDedup.sorted")])
p("C05","insert, remove and retain keep a VecSet an exact sorted set",
 "From any set, insert makes exactly the given element present and reports whether it was absent, remove makes exactly that element absent and reports whether it was present, and retain keeps exactly the elements its predicate accepts. After any such step the set is again strictly ascending, every other element is untouched, and this holds across the inline-to-heap boundary and back after shrink_to_fit.",
 ["inputs","histories"],"one step from any set (hence every history) with any element and predicate",
 "Unit tests insert a handful of literals; no test covers remove, retain or insertion at the capacity boundary.",
 [VS],[("binary search then shift",VS+" VecSet::insert/remove/retain")],[inv])
p("C06","VecMap behaves as an ordered map under single-key operations",
 "From any map, get, get_mut and insert agree with a mathematical finite map: lookup returns exactly the value last stored for the key or nothing, insert returns the previous value and leaves all other mappings unchanged. retain, map_values, conversion from BTreeMap and conversion to a set of pairs keep exactly the prescribed pairs, with keys strictly ascending.",
 ["inputs","histories"],"one step from any map with any key and value",
 "No unit test exercises get, get_mut, insert on existing keys, retain or map_values beyond a literal; correctness depends on every binary-search outcome.",
 [VM],[("binary search",VM+" AbstractVecMap::get, VecMap::insert/get_mut"),("map_values/retain",VM)],[("sorted pairs","keys strictly ascending",VM+" VecMap.0")])
p("C07","VecMap joins produce exactly the relational result",
 "outer_join, left_join, right_join and inner_join call the given function exactly once for each key the join prescribes, with the key and the values (or absence) the two maps hold for it, and the result maps exactly those keys for which the function returned a value to that value, keys strictly ascending. This holds for every pair of maps and every function, including ones that drop arbitrary keys.",
 ["inputs"],"all pairs of maps and all combining functions",
 "Tests cover outer and inner join with one fixed always-Some function; left and right join and functions that drop keys are never run.",
 [VM,MS],[("join operations",VM+" OuterJoinOp/LeftJoinOp/RightJoinOp/InnerJoinOp for SmallVecMergeState")])
p("C08","In-place VecMap joins agree with the relational result",
 "outer_join_with, left_join_with, right_join_with, inner_join_with, merge_with, combine_with and extend leave the map holding exactly what the corresponding join of the old contents and the argument prescribes, calling the function once per key the join covers with the correct arguments. On a key collision merge_with and extend keep the right value and combine_with stores the function's result; keys stay strictly ascending for every pair of maps, inline or spilled.",
 ["inputs"],"all pairs of maps, all combining functions, both storage modes",
 "None of the in-place joins has a test; the in-place buffer moves the unread tail when a pushed result catches up with it, which needs particular length patterns.",
 [VM,MS],[("in-place join operations",VM+" MergeOperation impls for InPlaceSmallVecMergeStateRef and InPlaceMergeState")])
p("C09","Equality, ordering and hashing reflect contents only",
 "Two VecSets or VecMaps are equal exactly when they hold the same elements or mappings, whatever operations, inline capacity state or spare capacity produced them, and equal ones hash equally. The ordering is a total order, lexicographic in the ascending elements, consistent with equality; total maps are equal exactly when they are the same function, and total sets only when they have the same members.",
 ["inputs","histories"],"all pairs and triples of collections, however produced",
 "Equality is only used as a means in the tests; spilled-versus-inline representations and total maps that differ only in the default are never compared.",
 [VS,VM,TS,TM],[("PartialEq/Ord/Hash impls",VS+", "+VM+", "+TS+", "+TM)])
p("C10","TotalVecSet operations are exact over all values, with complement",
 "For total sets a and b, with or without complement, and any value x, membership of x in !a, a|b, a&b, a^b, a-b and the assigning forms is exactly the boolean combination of its membership in a and b. insert and remove change the membership of exactly the given value; constant, all and empty contain everything or nothing.",
 ["inputs"],"all pairs of total sets of either polarity and all values of the element type",
 "Tests sample a membership only at listed elements plus one constant, with sets of at most two elements.",
 [TS,VS],[("polarity case analysis",TS+" BitAnd/BitOr/BitXor/Sub/Not and *Assign, insert, remove")],[("negated flag","elements are listed exclusions",TS+" TotalVecSet.negated")])
p("C11","TotalVecSet predicates are exact",
 "is_subset, is_superset, is_disjoint, is_empty and is_all of total sets answer exactly according to membership over an element type with more values than either set lists, for every polarity combination; a is a superset of b exactly when b is a subset of a.",
 ["inputs"],"all pairs of total sets of either polarity",
 "is_superset, is_empty and is_all are not tested with sampled operands; polarity combinations multiply the interleavings.",
 [TS,VS],[("polarity case analysis",TS+" is_subset/is_superset/is_disjoint")])
p("C12","TotalVecMap is a total function combined pointwise",
 "Indexing a total map returns the stored value for a key or the default; combine_ref, +, -, *, /, negation, supremum, infimum and map_values produce the total map whose value at every key is the function applied to the operands' values at that key. A total map never stores a mapping to its default value, so zero/one tests and equality depend on the function only.",
 ["inputs"],"all pairs of total maps, all keys and all combining functions",
 "The tests sample supremum, infimum and index; arithmetic, map_values and results that become equal to the default are not covered, and the key quantifier is sampled.",
 [TM,VM],[("combine_ref over outer_join",TM),("canonicalisation",TM+" TotalVecMap::new / combine_ref / map_values")],[("default","value of all unlisted keys",TM+" TotalVecMap.1")])
p("C13","A radix tree is an ordered map from key sequences to values",
 "After any sequence of insertions, get and contains_key answer exactly as a map from key sequences to last-inserted values, and iteration by entries, by values or by consuming the tree yields every mapping exactly once in lexicographic key order. Trees with the same mappings built in any order compare equal, and trees with different mappings compare unequal.",
 ["inputs","histories"],"all insertion histories over all key sequences (including the empty key and shared prefixes)",
 "Tests use unit values, so value overwriting is untested, and random strings seldom share prefixes, so node splitting is sampled thinly.",
 [RT,FR],[("insert via single-key outer combine",RT+" AbstractRadixTreeMut::insert/outer_combine_with/split/unsplit"),("find",RT),("Iter/Values",RT)],[("prefix/children","children sorted by distinct first element; no value-less single-child nodes",FR)])
p("C14","Radix tree combines are exact, in place and by value",
 "union, intersection, difference and outer, inner and left combine of two trees yield exactly the mappings of the corresponding map operation (left-biased where no function is given), with the given function deciding keys present in both, and every key present in only one operand treated alike. The in-place forms leave the left tree equal to the tree the by-value forms return, a result equals a tree freshly built from the same mappings, and the right operand is unchanged.",
 ["inputs"],"all pairs of trees and all combining functions",
 "Tests use unit values and a constant function; the prefix-of/disjoint/identical case analysis times merge interleavings times value presence is far larger than the samples.",
 [RT,MS,FR],[("outer/inner/left combine",RT),("*_combine_with",RT),("VecMergeState/InPlaceVecMergeStateRef",MS)])
p("C15","Radix tree predicates are exact",
 "is_subset, is_superset, is_disjoint, intersects and is_empty of two trees answer exactly according to their key sets, for every pair of trees including empty ones, ones containing the empty key, and ones where one tree's keys extend the other's.",
 ["inputs"],"all pairs of trees",
 "Sampled trees with random keys are almost always disjoint, so positive answers and single-key differences deep in a shared path are rarely seen.",
 [RT,MS],[("is_subset0/intersects0 with early aborting merges",RT)])
p("C16","Prefix operations select exactly the keys with the prefix",
 "filter_prefix and scan_prefix return exactly the mappings whose key starts with the prefix (scan in key order, with full keys), prepend adds the prefix to every key of the tree, and remove_prefix_with / retain_prefix_with remove or keep exactly the keys that have some prefix-tree key accepted by the predicate as a prefix. Results compare equal to trees freshly built from the expected mappings, for every tree, prefix and predicate.",
 ["inputs"],"all trees, prefixes, prefix trees and predicates",
 "filter_prefix, scan_prefix and prepend have no assertions in the tests, and the predicate is always constant true.",
 [RT],[("find result classification",RT+" find/filter_prefix/scan_prefix"),("remove/retain_prefix_with",RT)])
p("C17","All radix tree flavours agree and snapshots are isolated",
 "The copy-on-write and the lazily loaded radix tree give the same mappings and answers as the plain radix tree for the same sequence of operations. A clone taken at any moment is never affected by later changes to the original and vice versa, even when both share structure.",
 ["inputs","histories"],"all operation sequences interleaved with clones",
 "No test touches the Arc or lazy flavour's mutation or cloning at all.",
 [AR,LR,RT],[("copy on write children",AR+" children_mut"),("Lazy::get_or_create",LR)],[("shared children","Arc shared between snapshots",AR+" ArcRadixTree.children")])
p("C18","Archiving and reading back preserves contents",
 "Serialising any VecSet, VecMap or radix tree (plain, copy-on-write or lazy) to an rkyv archive and reading it back gives equal contents, validation accepts the archive, and the archived form answers queries and serves as an operand of set, map and tree operations exactly as the original would.",
 ["inputs"],"all collection contents",
 "Round trips are sampled for sets and maps of integers; the radix tree round trip result is not compared, and archived forms are never used as operands.",
 [VS,VM,FR,AR,LR],[("rkyv Archive/Serialize/Deserialize impls",VS+", "+VM+", "+FR+", "+AR+", "+LR)])
p("C19","Validating an untrusted archive is memory safe and enforces the order invariant",
 "For any bytes at all, validated access to an archived set, map or radix tree never reads outside the buffer, never panics, and either returns an error or a collection whose elements or keys are strictly ascending (for trees: non-empty child prefixes with strictly ascending first elements at every node). Lookups on an accepted archive therefore agree with a linear scan of its contents.",
 ["inputs"],"all byte buffers",
 "The tests only validate archives the library itself produced; hostile bytes are never tried.",
 [VS,VM,FR,AR],[("CheckBytes impls",VS+", "+VM+", "+FR+", "+AR)])
p("C20","Serde round trips, and decoding normalises untrusted input",
 "Serialising any set, map, total set or total map with serde and deserialising the result gives an equal value. Deserialising an arbitrary sequence of elements or entries, in any order, with duplicates and with any claimed size hint, never crashes and gives a valid collection: strictly ascending, exactly the distinct elements or keys given, each key with one of its given values, and no total map storing its default.",
 ["inputs"],"all values, and all element or entry sequences a data format can deliver with any size hint",
 "Tests only decode JSON the library itself wrote, which is already sorted, unique and truthful about its length.",
 [VS,VM,TS,TM],[("Visitor impls",VS+" VecSetVisitor, "+VM+" VecMapVisitor"),("canonicalising new",TM)])
p("C21","Elements are dropped exactly once and memory stays valid, even on panics",
 "Across all set, map and radix tree operations, by value and in place, every element is dropped exactly once: none is leaked, dropped twice, or used after being dropped, and no operation touches memory outside its buffers. This also holds when a user-supplied comparison, clone, predicate or combining function panics in the middle of an operation, after which the collection is still a valid one that can be used and dropped, and for everything iterators hand out.",
 ["inputs","fault_sequences"],"all operand contents, and a panic at every call of user code",
 "No test counts drops in this crate or lets user code panic; the in-place buffers hold a moved-out gap in the middle while user code runs.",
 [MS,VS,VM,DD,RT],[("in place builders",MS+" (inplace-vec-builder)"),("pop_front/push around user functions",VM),("ObjAndIter",RT)])
p("C22","BTreeMap joins match their relational meaning",
 "The joins offered for BTreeMap and archived BTreeMap give exactly the relational result for every pair of maps and every function, independent of which operand is larger. The in-place forms leave in the map exactly the keys the join keeps, with the values the function left there: an in-place inner or right join keeps no key that is absent from the right map, a left or outer join covers all of them.",
 ["inputs"],"all pairs of maps and all combining functions",
 "src/btree_map.rs has no tests at all.",
 ["src/btree_map.rs"],[("AbstractBTreeMap joins","src/btree_map.rs"),("InPlaceRelationalOps","src/btree_map.rs")])
p("C23","Small collections and shrinking in-place operations do not allocate",
 "Building, cloning and combining sets and maps whose elements fit the declared inline capacity performs no heap allocation, and in-place intersection and difference (and in-place inner and left joins) never allocate whatever the sizes. shrink_to_fit returns a collection that fits to inline storage.",
 ["inputs","histories"],"all operands that fit the inline capacity; for shrinking operations all operands",
 "Allocation behaviour is documented in the crate docs but asserted by no test.",
 [VS,VM,DD,MS],[("SmallVec inline storage",VS+", "+VM),("capacity hint and shrink",DD+" sort_dedup_by, "+VS+" from_iter"),("in place builders",MS)])
p("C24","Iteration and conversion yield exactly the sorted contents",
 "Iterating a set or map by reference or by value, viewing it as a slice, and converting it into a vector or SmallVec all yield exactly its elements in strictly ascending order, with size hints equal to the number of elements still to come at every point. Sorted-iterator operations on these iterators therefore agree with the set and map operations.",
 ["inputs"],"all collections and all iteration prefixes",
 "No test checks iterators, size hints or conversions; the iterators assert sortedness to other crates by a marker trait.",
 [IT,VS,VM],[("VecSetIter/VecMapIter",IT),("conversions",VS+", "+VM)])
p("C25","Concurrent use of trees that share structure is race free",
 "When snapshots of a copy-on-write or lazily loaded radix tree that share structure are read, cloned, modified and dropped from several threads, or one copy-on-write tree is read by several threads, every thread sees exactly the mappings of its own snapshot. Nothing is read while another thread changes or frees it: loading of a shared node, the shared empty node and giving up the last but one reference are all free of data races and deadlocks whichever thread gets there first.",
 ["schedules"],"all thread interleavings of reads, clones and modifications on shared snapshots",
 "No test uses the lazy tree at all, let alone from several threads.",
 [LR,AR],[("mutex guarded lazy initialisation",LR+" Lazy"),("copy on write, shared empty node",AR)])
p("C26","Lookup, building and snapshots keep to the documented cost",
 "On a set or map of n entries, contains, get, get_mut, insert, remove and total map indexing need O(log n) comparisons; finding a key or prefix in a radix tree is logarithmic in the children of a node. Collecting an already sorted sequence needs O(n) comparisons, any sequence O(n log(n)^2), and while collecting, never more than about twice as many elements are held as there are distinct ones. Cloning a copy-on-write or lazy tree copies and allocates nothing below its root, a later change copies only the nodes on its path, and a change to a tree without snapshots, prepend and reading copy no values at all.",
 ["inputs"],"all collections, probes, sequences and keys",
 "Results stay right when these are lost, so no functional test can notice; the documentation promises them as the reason to use these types.",
 [DD,VS,VM,TM,TS,RT,AR,LR],[("binary search",VS+", "+VM+", "+RT+" find"),("incremental compaction",DD+" SortAndDedup::push"),("copy on write",AR+" children_mut, "+LR+" children_mut")])
with open(__file__.rsplit("/",2)[0]+"/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
