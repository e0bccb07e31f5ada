#!/usr/bin/env python3
"""source of properties.jsonl (kept as a script so that entries stay readable)"""
import json
import os

B = "include/fast_containers/btree.ipp"
BH = "include/fast_containers/btree.hpp"
D = "include/fast_containers/dense_map.ipp"
DH = "include/fast_containers/dense_map.hpp"
S = "include/fast_containers/dense_map_simd.ipp"
HP = "include/fast_containers/hugepage_pool.hpp"
HA = "include/fast_containers/hugepage_allocator.hpp"
MP = "include/fast_containers/multi_size_hugepage_pool.hpp"
MA = "include/fast_containers/multi_size_hugepage_allocator.hpp"
PA = "include/fast_containers/policy_based_hugepage_allocator.hpp"

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": list(files), "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": None}})


INV = [("parent/child links, leaf chain, separators", "shape of the tree", BH)]

p("C01", "Tree insertion adds exactly the requested element, in order",
  "Inserting a key that no stored key is equivalent to makes the tree hold exactly its previous elements plus that one, in strict comparator order, with every other element's value untouched. "
  "Inserting a key that is already present changes neither keys nor values and grows nothing. "
  "This holds whatever splits of leaves, inner nodes and the root the insertion causes.",
  ["inputs", "histories"], "every well-formed tree (any height, any legal fill of every node) and every key",
  "Tests insert a few fixed or seeded key sequences; which node splits at which position depends on the whole history, and cascaded splits at each boundary position are hit only by luck.",
  [B, D], [("insert / split_leaf_and_insert / insert_into_parent / split_internal", B), ("dense_map insert, split_at", D)], INV,
  ["iteration over the tree after insert", "find of every element"])
p("C02", "Tree erasure removes exactly the requested element",
  "Erasing a present key, or the element at an iterator, removes exactly that element and leaves every other key and value in place and in order; erasing an absent key changes nothing. "
  "Erase by key reports how many elements went (0 or 1), and erase by iterator returns the position of the element that followed the erased one, or the end position. "
  "This holds whatever borrowing, merging and root replacement the erasure causes.",
  ["inputs", "histories"], "every well-formed tree and every element position",
  "The combination of left/right borrow, left/right merge, cascade and root collapse with the position of the erased element is sampled sparsely; the returned iterator after a merge or borrow is only spot-checked.",
  [B, D], [("erase / handle_underflow / borrow_from_* / merge_with_*", B), ("transfer_prefix_from / transfer_suffix_from", D)], INV,
  ["iteration after erase", "returned iterator"])
p("C03", "Tree lookups agree with the sorted contents",
  "find returns the element equivalent to the key or the end position, lower_bound the first element not ordered before the key, upper_bound the first element ordered after it, equal_range both, and count/contains the matching 0/1 answer. "
  "The answers are right for every key, including keys below, above, between and exactly on the boundaries between nodes, and no lookup modifies the tree.",
  ["inputs", "histories"], "every well-formed tree and every key",
  "Lookup of a key that falls between two leaves, or on a separator, depends on the tree's history; tests query keys near those they inserted.",
  [B, D], [("find_leaf_for_key, find, lower_bound, upper_bound, equal_range", B), ("lower_bound / upper_bound of dense_map", D)], INV,
  ["return values"])
p("C04", "Leaf chain and traversal order are complete and exact",
  "After every insertion, erasure, copy, move or swap, walking forward from the first position visits every element exactly once in strict comparator order and ends at the end position, and walking backward from the end position visits the same elements in reverse. "
  "The first and last positions are the smallest and largest element, also after the outermost leaves were split or merged.",
  ["inputs", "histories"], "every well-formed tree and every modifying operation",
  "Backward links and the cached ends are only wrong after particular splits/merges at the edges, and reverse traversal after such histories is tested on a few shapes.",
  [B, BH], [("next/prev links and cached first/last leaf", B), ("iterator ++/--", BH)], INV, ["iteration", "reverse iteration"])
p("C05", "Inner-node structure stays consistent through every update",
  "After every insertion and erasure each inner node's keys are exactly the smallest keys below its children, every node knows its real parent, all leaves are at the same depth, and inner nodes whose children are leaves are marked so. "
  "A root that is an inner node has at least two children.",
  ["inputs", "histories"], "every well-formed tree and every modifying operation",
  "A stale separator or parent pointer does no visible harm until a later operation takes that path; the tests look at observable contents soon after, not at the structure.",
  [B], [("insert_into_parent, update_parent_key_recursive, merge/borrow helpers", B)], INV, ["later lookups and erasures"])
p("C06", "Node occupancy stays within the documented bounds",
  "No node ever holds more than its configured capacity, and after every operation each node other than the root holds at least the documented minimum less the documented hysteresis. "
  "An erase that leaves a node below that threshold repairs it by borrowing or merging before returning.",
  ["inputs", "histories"], "every well-formed tree and every modifying operation, every legal node size",
  "Lower bounds are not observable through the API, and no test checks them after arbitrary histories.",
  [B, BH], [("min sizes and hysteresis constants", BH), ("handle_underflow", B)], INV, ["node sizes"])
p("C07", "size() and empty() always report the number of elements",
  "At every moment between operations size() equals the number of elements a full traversal visits, and empty() is true exactly when that number is zero. "
  "Every insertion, erasure, copy, move, swap and clear keeps it so, also when the operation changes nothing.",
  ["inputs", "histories"], "every well-formed tree and every modifying operation",
  "Tests compare size after fixed sequences; a counter that drifts only on one rebalancing or duplicate-key path is not seen.",
  [B, BH], [("element counter", BH)], [("size_", "element count", BH)], ["size()", "empty()"])
p("C08", "Every tree node is released exactly once, through the matching allocator",
  "A node unlinked by a merge, a root collapse, clear or destruction is handed back to the allocator of its kind exactly once, and never used afterwards; a node still reachable is never handed back. "
  "No operation leaves a node that is neither reachable nor released.",
  ["inputs", "histories"], "every well-formed tree and every operation",
  "Leaks and double frees on rare cascades need that cascade to happen under a sanitizer; the suite's shapes exercise a few.",
  [B], [("deallocate_leaf_node / deallocate_internal_node / deallocate_tree", B)], INV, ["allocator calls"])
p("C09", "Copy, move and swap of trees transfer the contents exactly",
  "A copied tree holds equal contents in nodes of its own and leaves its source unchanged; a moved tree takes the source's contents and leaves a source that is empty and usable; swap exchanges the contents of two trees. "
  "Self-assignment changes nothing, and the target's previous contents are released.",
  ["inputs", "histories"], "every pair of well-formed trees, including empty, one-leaf and tall ones and the object itself",
  "Tests copy and move a few shapes with a stateless allocator; later use of a moved-from or swapped tree with its own memory resources is hardly exercised.",
  [B], [("copy/move constructors and assignments, swap", B)], INV, ["contents of both trees afterwards"])
p("C10", "A failing allocation or value construction leaves the containers intact",
  "If allocating a node, constructing or copying a value, or a capacity check throws during an insertion, the tree or dense map keeps its previous elements, structure and count, and nothing is leaked. "
  "A failing clear, copy construction or construction from a range releases every node it created and leaves no tree with a wrong count behind.",
  ["fault_sequences", "histories"], "every failing allocation or value construction in every inserting operation on every well-formed tree and dense map",
  "No test injects failures inside splits.",
  [B, D], [("split_leaf_and_insert, insert_into_parent, clear, copy constructor", B), ("insert_impl, operator[]", D)], INV, ["contents after the exception"])
p("C11", "emplace, try_emplace, insert_or_assign and operator[] follow the map rules",
  "For a new key each of them adds exactly one element with the given value (or a default value for the subscript operator); for a present key try_emplace and emplace leave the stored value alone, insert_or_assign replaces exactly that value, the subscript operator returns a reference to it, and try_emplace leaves an argument passed as an rvalue unused. "
  "The returned position or reference designates the element with the requested key, and the returned flag says whether an element was added.",
  ["inputs", "histories"], "every well-formed tree, every key, both outcomes",
  "The returned position after a split, which may be in either half, is checked only for a few histories.",
  [B, BH], [("insert_impl with its callbacks, split_leaf_and_insert", B)], INV, ["return values"])
p("C12", "Stepping an iterator moves to the adjacent element",
  "Incrementing an iterator at any element yields the next larger element or the end position, decrementing any position but the first yields the next smaller element, also across node boundaries and from the end position. "
  "Dereferencing gives that element's key and value.",
  ["inputs", "histories"], "every well-formed tree and every position",
  "Only a few boundary positions are walked backwards in tests.",
  [BH], [("iterator operator++ / operator--", BH)], INV, ["iteration"])
p("C13", "Function objects, allocators and observers report what the object uses",
  "key_comp, key_compare and value_comp of a tree order keys, and pairs by their keys alone, exactly as the tree's comparator orders the same keys in the same order; get_allocator returns an allocator equal to the one the tree takes its nodes from. "
  "A multi-size pool reports the configured huge-page setting, the number of its size classes and its own map of pools. None of these calls changes the object.",
  ["inputs", "histories"], "every tree and pool, every pair of keys and values, every comparator and allocator state",
  "Tests compare a few integers with std::less and use stateless allocators, for which a swapped argument, a compared value or a fresh allocator can go unseen.",
  [BH, MP], [("key_comp, value_comp, get_allocator", BH), ("using_hugepages, active_size_classes, get_pools", MP)], [], ["return values"])
p("C14", "Released nodes have destroyed their elements exactly once",
  "Whenever an operation of a tree gives a node back to its allocator, the node's keys and values have been destroyed before, exactly once; the elements of nodes that stay in the tree are never destroyed. "
  "This holds for erasures, clear, destruction and whole-tree moves and swaps, for leaves and both kinds of inner node.",
  ["inputs", "histories"], "every well-formed tree, every erased element, every whole-tree operation",
  "With plain integers a missing or doubled destructor has no effect, and tests with owning elements run without a leak checker.",
  [B, BH], [("deallocate_leaf_node, deallocate_internal_node, deallocate_internal_subtree", B), ("~internal_node", BH)], INV, ["memory"])
p("D01", "Modifying a dense map changes exactly the addressed element",
  "insert, insert with a correct hint, try_emplace, insert_or_assign, operator[], both erase forms, in-place key update and clear leave exactly the specified key/value sequence: untouched elements keep their values and relative order, keys stay sorted and keys and values stay paired. "
  "The returned position, reference, count or flag is the one of the element concerned; try_emplace of a present key leaves an argument passed as an rvalue unused.",
  ["inputs", "histories", "configurations"], "every occupancy from empty to full, every position of the key, every capacity",
  "Tests use small fixed maps; off-by-one shifts at particular fill/position/capacity combinations need every combination.",
  [D, DH], [("insert_impl, erase, operator[]", D)], [("keys_, values_, size_", "parallel arrays", DH)], ["contents afterwards", "return values"])
p("D02", "A dense map never touches memory outside its occupied slots",
  "No operation reads a slot that holds no element, nor reads or writes outside the two arrays, whatever the fill level. "
  "Operations that would exceed the capacity (or a source's size) throw and leave every map involved unchanged.",
  ["inputs", "histories", "configurations"], "every occupancy, every argument, every capacity",
  "Out-of-bounds access within the object is invisible to sanitizers and to value checks unless the clobbered bytes happen to be checked.",
  [D, DH], [("capacity checks in insert*, split_at, transfer_*", D)], [], ["memory accesses", "exceptions"])
p("D03", "Dense map lookups return the exact position in linear and binary mode",
  "find, lower_bound and upper_bound, const or not, return exactly the position defined by the comparator order for every key, present or not, in linear and binary search mode, and modify nothing.",
  ["inputs", "configurations"], "every sorted content, every key, every capacity, linear and binary mode",
  "Each test probes a handful of keys in a handful of maps.",
  [D, DH], [("lower_bound_key, find, lower_bound, upper_bound", D)], [], ["return values"])
p("D04", "Vectorised search finds the same position as scalar search",
  "For every supported key type, ascending or descending order, and every map content and search key, the vectorised search returns the same position as a scalar scan: the first element not ordered before the key. "
  "This covers signed, unsigned and floating-point keys, any size and any capacity.",
  ["inputs", "configurations"], "every supported key type x 2 orders x every content x every key",
  "Tests sample keys; a wrong sign handling, lane count or tail boundary shows only for particular values at particular positions.",
  [S, D], [("simd_lower_bound_{1,2,4,8}byte", S)], [], ["return values"])
p("D05", "Splitting and transferring conserve all elements in order",
  "split_at leaves the elements before the position in the map and moves the rest, in order, to the empty output; transferring a prefix or suffix moves exactly that many elements to the end or beginning of the destination and closes the gap in the source. "
  "No element is lost, duplicated or reordered and both sizes are updated.",
  ["inputs", "configurations"], "every pair of sizes, every position or count, every capacity",
  "Tests use a few size/count pairs.",
  [D], [("split_at, transfer_prefix_from, transfer_suffix_from", D)], [], ["contents of both maps"])
p("D06", "Copying or moving a dense map reproduces exactly its elements",
  "A copied map equals its source, which is unchanged; a moved map has the source's former elements and the source becomes empty; self-assignment changes nothing. "
  "This holds for construction and assignment, whatever either map held before.",
  ["inputs", "configurations"], "every pair of contents, every capacity",
  "Tests copy a few small maps.",
  [D], [("copy/move constructors and assignments", D)], [], ["contents of both maps"])
p("D07", "Keys cannot be changed through the public element handles",
  "No iterator, element proxy, or reference obtained from a container lets a program modify a stored key or, through a const container, a stored value; only values of a non-const container are assignable.",
  ["programs"], "every program that uses the public interface",
  "A run-time test cannot show that an assignment fails to compile for all handles.",
  [DH, BH], [("pair_proxy with const key reference", DH), ("btree iterator value_type", BH)], [], ["type checking"])
p("D08", "Vectorised search loads are aligned and inside the key array",
  "Every vector load of the search is fully inside the key array and meets the alignment its instruction requires, for every size and capacity, and never depends on the contents of slots beyond the last element.",
  ["inputs", "configurations"], "every size, capacity and key type",
  "An over-read inside the object, or a load aligned by luck of the allocation, passes every test.",
  [S, DH], [("64-byte aligned arrays and block loops", S)], [], ["memory accesses"])
p("D09", "A dense map releases the values it no longer holds",
  "When a dense map erases or clears elements, or hands them to another map by split, transfer or move, it releases the resources of those values before the operation returns: no slot behind its last element keeps a live value. "
  "Insertions and copies leave the slots behind the last element released too.",
  ["histories", "programs"], "every operation, every occupancy, with any value type whose moved-from and default states own nothing",
  "Tests use values without resources; a value kept alive in an unused slot is invisible to the contents and to leak checkers.",
  [D], [("erase, clear, split_at, transfer_*, move", D)], [], ["calls of the value type's special members"])
p("D10", "Dense map iterators behave as random-access positions",
  "Adding, subtracting, incrementing, decrementing, indexing and comparing iterators of a dense map follow the positions of the elements exactly, forward, reverse and const, and dereferencing yields the key and value at the position. "
  "size, capacity, empty and full report the true occupancy.",
  ["inputs", "configurations"], "every occupancy, every position and every distance",
  "Tests use few distances.",
  [DH], [("dense_map_iterator", DH)], [], ["return values"])
p("A01", "Pool blocks are inside mapped memory, disjoint and aligned",
  "Every block a memory pool hands out lies wholly inside one region the pool has mapped, is aligned as requested, and overlaps no other block currently handed out. "
  "A request the current region cannot satisfy makes the pool grow first.",
  ["inputs", "histories"], "every sequence of requests with any size and alignment",
  "Tests allocate a few uniform sizes; a request at the exact end of a region or with odd alignment is not tried.",
  [HP], [("allocate, grow", HP)], [("next_free_, bytes_remaining_", "unused tail of the current region", HP)], ["returned addresses"])
p("A02", "A recycled pool block is large and aligned enough for its new use",
  "A block taken from the free list satisfies the size and alignment of the request it is used for, and a released block becomes available exactly once.",
  ["inputs", "histories"], "every sequence of allocations and releases of any sizes and alignments",
  "Tests recycle blocks of one size.",
  [HP], [("free list", HP)], [], ["returned addresses"])
p("A03", "Pool statistics count exactly what happened",
  "The allocation, deallocation and growth counters and the in-use byte count change by exactly one event (or its size) per operation and never wrap below zero.",
  ["histories"], "every sequence of allocations and releases",
  "Tests check the counters after short sequences.",
  [HP], [("ALLOCATOR_STATS counters", HP)], [], ["get_* counters"])
p("A04", "Every mapped region is unmapped exactly once with its own size",
  "Each region obtained from the operating system is recorded before use, returned exactly once when the pool is destroyed with the length it was mapped with, and a failed mapping is reported by an exception without being recorded.",
  ["histories", "fault_sequences"], "every sequence of growth steps, including mapping failures",
  "Tests cannot observe unmapping or make mapping fail.",
  [HP], [("grow, destructor", HP)], [("regions_", "mapped regions", HP)], ["mmap/munmap calls"])
p("A05", "The multi-size pool serves each request from a fitting size class",
  "A request of any size is served by the pool of the smallest documented size class that fits (multiples of 64 bytes up to 512, of 256 up to 2048, powers of two above), whose blocks have exactly that size; releasing a block returns it to the same class; requests beyond the largest class are refused; pools made on demand have the configured sizes.",
  ["inputs", "histories"], "every request size",
  "Tests try a few sizes per class.",
  [MP], [("size class selection", MP)], [], ["returned blocks"])
p("A06", "Allocation and release of one object go to the same pool",
  "For every object type an allocator obtained by copying, converting or rebinding allocates from and releases to the pool its policy assigns to that type, so that memory always returns to the pool it came from. Copies, moves, assignments and swaps carry the pools along and leave no allocator without one; HugePageAllocator conversions give the other type a pool of its own with the same configuration; equality means sharing the pool that serves the type.",
  ["programs", "histories"], "every object type and every chain of allocator conversions",
  "Tests exercise one policy with two node types.",
  [PA, HA, MA], [("allocate/deallocate, rebinding constructors", PA)], [], ["pool calls"])
p("A07", "Allocators reject unsupported counts and size overflow",
  "allocate(n) asks the pool for at least n * sizeof(T) bytes at an alignment that suits T, or throws: a single-object allocator refuses every count above one, a size computation never wraps around, and deallocate gives a block back with the size it was requested with. No objects (n = 0) take no memory.",
  ["inputs"], "every count and object size",
  "Tests try one bad count.",
  [HA, MA, PA], [("allocate(n)", HA)], [], ["exceptions"])
p("K01", "Keys are related only through the comparator",
  "Beyond default construction and copying or moving, the containers need nothing of a key type but the comparator: two keys are treated as the same exactly when neither is ordered before the other, for every operation, even if the key type has no equality operator or one that disagrees.",
  ["programs", "inputs"], "every key type and comparator",
  "Tests use types whose equality agrees with the comparator.",
  [B, D], [("key comparisons in insert, find, erase, separators", B)], [], ["compilation with a key type without ==", "results with a coarser comparator"])
p("T01", "Unsupported instantiations are rejected at compile time",
  "Asking for vectorised search with a key type or comparator it does not support, a comparator that cannot compare the keys, or node sizes below the supported minimum fails to compile with a diagnostic, while every supported combination compiles.",
  ["programs", "configurations"], "every instantiation",
  "Run-time tests cannot contain programs that must not compile.",
  [DH, BH], [("static_asserts and concepts", DH)], [], ["compilation"])
p("N01", "Default node sizes are legal for every key and value size",
  "The default leaf and inner node capacities are multiples of eight within the documented limits for every key and value size, so every default-configured tree compiles and meets its minimum occupancy rules.",
  ["configurations", "programs"], "every key and value size",
  "Tests instantiate a handful of types.",
  [BH], [("default_leaf_node_size / default_internal_node_size", BH)], [], ["template constants"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
