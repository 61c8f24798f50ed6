#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
V = "nestl/implementation/vector.hpp"; L = "nestl/implementation/list.hpp"
S = "nestl/implementation/set.hpp"; T = "nestl/implementation/detail/red_black_tree.hpp"
P = "nestl/implementation/shared_ptr.hpp"; CO = "nestl/class_operations.hpp"
HX = "nestl/has_exceptions/detail/class_operations.hpp"; NX = "nestl/no_exceptions/detail/class_operations.hpp"
D = "nestl/detail/destroy.hpp"; U = "nestl/detail/uninitialised_copy.hpp"
HV = "nestl/has_exceptions/vector.hpp"; HL = "nestl/has_exceptions/list.hpp"
EP = "nestl/has_exceptions/exception_ptr_error.hpp"; EC = "nestl/no_exceptions/errc_based_error.hpp"
A = "nestl/allocator.hpp"; AL = "nestl/algorithm.hpp"; AT = "nestl/allocator_traits.hpp"

def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                        "mechanism": [{"name": a, "where": b} for a, b in mech],
                        "observe_at": observe, "hook_needed": None}}

props = [
p("C01", "Vector behaves as an ideal growable sequence",
  "After every history of successful vector operations (append, insert at any position by value or from any input range, assign, copy, resize, reserve, shrink, clear, swap, move, indexing, iteration in either direction) the vector's size, emptiness, order and values, the returned iterators, and equality comparison are exactly those of an ideal sequence given the same operations. This holds for every element type, every position and iterator category, and also when the argument is (by const reference) an element of the same vector, or an assignment or copy takes the vector's own contents as its source.",
  ["inputs", "histories", "programs"], "all operation histories, positions, range lengths, element types and aliasing arguments",
  "The tests push at most five ints or 1024 equal ints and never insert in the middle with reallocation, alias an element, clear, resize or iterate backwards.",
  [V, HV, "nestl/vector.hpp"],
  [("insertion shifts/reallocates then places the new element", V + " insert_value"), ("growth and relocation", V + " grow/do_reserve"), ("assign/resize loops", V + " assign_nothrow/do_resize")],
  ["public vector interface: size/empty/capacity/operator[]/front/back/data/iterators/operator== after every call"],
  [("start/finish/end-of-storage", "live prefix and storage extent", V)]),
p("C02", "List behaves as an ideal sequence, including splice, merge and sort",
  "After every history of successful list operations (insert/emplace/push/pop at either end or any position, insert and assign from counts or ranges, erase one or a range, clear, swap, splice in all forms including within one list (to a position outside the moved range), merge of two lists, sort, copy, move) the order, values, size, and returned iterators are exactly those of an ideal sequence, traversed forwards or backwards. Merge and sort are stable, apply exactly the given comparison, and leave the merged-from or spliced-from list holding exactly the elements not taken.",
  ["inputs", "histories"], "all operation histories over several lists, all positions and sub-ranges, all comparison functions that are strict weak orders, lists up to hundreds of thousands of elements",
  "The tests insert a few ints, merge one pair of 4-element lists and sort a single 5-element list; splice, erase of ranges, range insert, backward iteration and stability are never exercised.",
  [L, HL, "nestl/list.hpp"],
  [("doubly linked node relinking", L + " list_node_base::{swap,inject,remove,transfer}"), ("bottom-up merge sort", L + " sort"), ("merge", L + " merge")],
  ["public list interface; element identity carried by unique ids in elements"]),
p("C03", "Set behaves as an ordered collection of unique keys",
  "After every history of insertions, erasures (by key or by iterator), clears, copies and moves, a set iterates (forwards and backwards) exactly the distinct keys of an ideal ordered set under the set's own comparator, with matching size and emptiness. Insert reports whether a new key was added and returns an iterator to the equivalent element, keeping the first-inserted of equivalent keys; find returns the equivalent element or end; erase returns the number removed or the successor iterator.",
  ["inputs", "histories", "programs"], "all operation histories, key orders (random, sorted, zig-zag, duplicate-heavy), comparators (stateful, partial-key, reversed), set sizes",
  "The two set tests insert a single element; no test ever inserts a second element, erases, finds a missing key or iterates more than one element.",
  [S, T, "nestl/set.hpp"],
  [("unique insertion position search", T + " m_get_insert_unique_pos/m_insert_"), ("rebalance on insert/erase", T + " rb_tree_insert_and_rebalance/rb_tree_rebalance_for_erase"), ("in-order successor/predecessor", T + " rb_tree_increment/rb_tree_decrement"), ("structural copy", T + " m_copy")],
  ["public set interface"],
  [("leftmost/rightmost/root/count in the header", "begin, last, root, size", T)]),
p("C04", "Set lookups, insertions and erasures stay logarithmic",
  "For every history of insertions, erasures and copies, each find, insert or erase-by-key on a set of n elements compares with at most about 2*log2(n+1) of the keys in the set, and with each of them at most twice (twice as many for erase-by-key), whatever the order in which keys arrived or left.",
  ["inputs", "histories"], "all insertion/erasure orders including sorted, reverse, zig-zag, sliding-window and adversarial deletion patterns, up to hundreds of thousands of keys",
  "No test has a tree of more than one node, so no rotation or recolouring ever runs under test.",
  [T, S],
  [("red-black recolouring and rotation", T + " rb_tree_insert_and_rebalance, rb_tree_rebalance_for_erase, rotations"), ("colour-preserving copy", T + " m_clone_node/m_copy")],
  ["calls of a counting comparator during public set calls"]),
p("C05", "Every element is constructed once, destroyed once, used only while alive",
  "For every history of container and smart-pointer operations, including ones where an operation fails part-way, each element object the library creates is destroyed exactly once, no live element is overwritten by constructing another on top of it, and no element is copied, moved, assigned, compared or destroyed when it is not alive or at an address other than where it was constructed. Erased, replaced or cleared elements are destroyed by the time the call returns, and when all containers are gone no element remains.",
  ["histories", "fault_sequences", "inputs"], "all operation histories over vector, list, set, shared_ptr with injected allocation and construction failures at every point",
  "The tests use only ints and one trivially destructible class, for which a leaked, doubly destroyed or bitwise-moved element is invisible.",
  [V, L, T, P, D, U, CO],
  [("destroy helpers and scoped guards", D), ("construct-then-commit", U), ("node value destroy", L + " destroy_value/destroy_list_content"), ("tree erase", T + " m_destroy_node/m_erase")],
  ["constructors/destructors of a self-registering element type"]),
p("C06", "Storage is paired, sized and returned to the allocator it came from",
  "For every history, each block a container or shared pointer obtains is returned exactly once, with the element count it was requested with, to an allocator equal to the one it came from, and never used after return or outside its bounds. A container keeps using the allocator it was given (a copy-constructed one uses the source's, copying or assigning into a container keeps the target's - except that a set copied into takes the source's when the allocator type asks to be handed over on copying -, moved and swapped contents keep theirs), shared objects use the supplied allocator, and once all owners are gone no block is outstanding and every copy the library made of an allocator has been destroyed.",
  ["histories", "fault_sequences", "configurations"], "all operation histories, default and stateful allocators, with and without injected failures",
  "The stateful-allocator tests only construct and move a container; assign, swap, copy, splice, sort, make_shared with a stateful allocator and all failure paths are untested, and the size passed at deallocation is never checked.",
  [V, L, T, P, A, AT, D, "nestl/detail/allocator_traits_helper.hpp", HL, HV],
  [("deallocation guard", D + " deallocation_scoped_guard"), ("allocator copy/move/swap", V + " swap/move_assign, " + L + " swap/assign"), ("control block allocator", P + " destroy_self")],
  ["a recording allocator; global operator new/delete; AddressSanitizer"]),
p("C07", "An allocation failure is always reported and never corrupts",
  "If a container's or shared pointer's allocator fails at any point of any operation, the operation reports an out-of-memory error through its error object (never a false success, a crash or termination), leaks nothing, and leaves every container involved valid and usable. A failed single-element insertion, reserve or shrink leaves contents and order exactly as before and the inserted argument intact, a failed resize or range insertion never disturbs pre-existing elements, a failed copy or assign never alters another container it reads from, and a failed shared creation yields an empty pointer; conversely no error is reported when no allocation failed.",
  ["fault_sequences", "inputs", "histories"], "every operation, every pre-state, every allocation index within the operation",
  "The tests have a failing allocator but only default-construct empty containers with it; no operation is ever run to a failure.",
  [V, L, T, S, P, A, D],
  [("error check after each allocation", V + " do_reserve/grow, " + L + " create_node, " + T + " m_create_node, " + P + " make_shared_a_nothrow")],
  ["error object after each call; public container interface afterwards; recording allocator"]),
p("C08", "A failing element construction is always reported and never corrupts",
  "If constructing or copying an element fails at any point (by exception, or by a two-phase initialisation reporting an error), the operation reports that very failure through its error object without terminating, leaks nothing, and every container involved stays valid and usable. Appending to a vector, reserving, any reallocating insertion, and single insertion into a list or set leave the contents as before; a vector insertion without reallocation may only lose elements at or after the insertion point, and only if copying an existing element failed; list and set range insertions keep all pre-existing elements.",
  ["fault_sequences", "inputs", "histories"], "every operation, every pre-state, every construction index within the operation, throwing and two-phase element types",
  "No test element type can fail to construct.",
  [V, L, T, S, P, CO, HX, U, D],
  [("exception capture", HX + " construct/assign"), ("two-phase construct with rollback", CO + " construct"), ("rollback on partial copy", U), ("shift recovery", V + " insert_value")],
  ["error object; contents; element registry"]),
p("C09", "The throwing interface is the error interface plus a faithful throw",
  "With exceptions enabled, every throwing operation (push_back, copy construction, copy assignment, construction and assignment from the exception-free form) has the same effect on success as its error-object counterpart, and on failure throws exactly the failure that occurred (same type and value). A failed throwing copy assignment, push_back or copy construction leaves existing containers unchanged and leaks nothing.",
  ["inputs", "fault_sequences", "histories"], "all throwing operations, all states, failure at every allocation and element construction",
  "The tests only exercise the success paths with one element.",
  [HV, HL, EP, "nestl/has_exceptions/default_operation_error.hpp"],
  [("error to exception conversion", EP + " throw_exception"), ("copy and swap", HV + " operator=, " + HL + " operator=")],
  ["caught exception and container state"]),
p("C10", "A shared object lives exactly as long as it has an owner",
  "For every history of creating, copying, moving, converting, assigning (including self-assignment and assignment from a pointer stored inside the owned object), swapping and resetting shared pointers, the owned object is destroyed exactly once, at the moment its last owner lets go and never earlier. At every step each pointer designates the object it should, and use count, uniqueness and truth value reflect exactly the number of current owners, also for operations performed from within the object's own destructor.",
  ["histories", "inputs"], "all histories over any number of pointers, objects and types, including ownership graphs and re-entrant destruction",
  "The only test creates one shared_ptr<int>; copying, assignment, conversion and destruction order are never observed.",
  [P, "nestl/shared_ptr.hpp"],
  [("reference counting", P + " shared_count_base::{add_ref,release}"), ("assignment via temporary", P + " operator=")],
  ["public shared_ptr interface; destructor events of owned objects"]),
p("C11", "Weak pointers observe without owning and never resurrect",
  "For every history, a weak pointer never keeps its object alive and is expired exactly when no owner remains; lock yields an owner of the same object while one exists and an empty pointer afterwards, never a destroyed object. Copying, moving, assigning (including self-assignment), resetting and destroying weak pointers in any order, even inside the object's destructor, releases the bookkeeping storage exactly once, after the last owner and the last observer are gone.",
  ["histories"], "all interleavings of owner and observer operations, including observers stored inside the object they observe",
  "No test uses weak_ptr at all.",
  [P],
  [("weak count and control block release", P + " shared_count_base::{weak_add_ref,weak_release,release}"), ("lock", P + " weak_ptr::lock")],
  ["public weak_ptr interface; control-block allocation events"]),
p("C12", "Object construction is all-or-nothing and forwards its arguments",
  "Constructing an object through the library either yields exactly one live object built from exactly the given arguments (lvalues not modified, rvalues passed as rvalues) with the error object untouched, or sets the error and leaves no live object behind; when a type is built by default construction plus a user initialisation step, a failure of that step destroys the default-constructed object exactly once. Assignment through the library assigns exactly once or reports the failure; containers and shared pointers of such types, and nested containers, inherit this.",
  ["inputs", "fault_sequences", "programs"], "all argument lists and value categories, one- and two-phase types, failing and succeeding",
  "The class_operations test has four successful constructions and no failing initialiser.",
  [CO, HX, NX, "nestl/type_traits.hpp", D, V, L],
  [("direct or two-phase construction selection", CO), ("destruction guard", D + " destruction_scoped_guard"), ("container two-phase support", V + "/" + L + " two_phase_initializator")],
  ["construction events of instrumented types; error object"]),
p("C13", "Algorithms match their definitions and stop at the first error",
  "copy and copy_if write exactly the (selected) source elements, in order, each once, to consecutive destinations and return the position after the last element written; if assigning an element fails they stop there, report that error, and return the position of the failed element, with everything before it written and nothing after it touched. equal and lexicographical_compare return the mathematically correct answer for every pair of ranges, calling the predicate or comparison only on elements inside the ranges, in the documented argument order.",
  ["inputs", "fault_sequences"], "all ranges (empty, prefixes, equal, unequal lengths), iterator categories, predicates, failure positions",
  "The algorithms are not called by any test.",
  [AL, CO],
  [("element-wise assign with error check", AL + " copy/copy_if"), ("lexicographic loop", AL + " lexicographical_compare")],
  ["outputs, returned iterators, calls seen by instrumented iterators and predicates"]),
p("C14", "Impossible sizes are refused, and success always means real storage",
  "A request (reserve, resize, assign, direct allocation, or growth) whose byte size exceeds what can be allocated or represented is reported as an error and never wraps around; a refused reserve, resize or single insertion changes nothing. Whenever such an operation reports success the storage actually obtained is large enough for every element of the reported capacity.",
  ["inputs"], "all counts up to the maximum of the size type and all element sizes",
  "The tests request at most 1024 elements; the overflow is flagged as a known bug in a source comment.",
  [V, A],
  [("length check", V + " reserve_nothrow/max_size"), ("byte-size computation", A + " allocate"), ("growth computation", V + " grow")],
  ["error object, capacity, bytes requested from operator new"]),
p("C15", "References and iterators stay valid exactly as promised",
  "List and set elements never move: iterators, pointers and references to an element keep designating that same element through any operations that do not erase it, including insertions, erasures of others, sort, splice, merge, swap and move of the container, and a failed operation. A vector does not reallocate or move elements before the insertion point while the size stays within the capacity, so after reserve(n) references survive until the size exceeds n, and such insertions need no allocation.",
  ["histories", "inputs"], "all histories, all elements watched",
  "No test holds an iterator or reference across a mutating operation.",
  [V, L, T],
  [("node-based storage", L + "/" + T), ("capacity check before growth", V + " insert_value/do_resize")],
  ["addresses and identities of watched elements; allocator events"]),
p("C16", "Concurrent readers and unrelated objects never race",
  "Any number of threads may call const operations (iteration, lookup, size, comparison, element access, use count, expired) on the same container or pointer at the same time without a data race and with the results a single thread would see. Threads working on distinct containers, error objects, allocators and pointer groups do not affect one another.",
  ["schedules"], "all interleavings of const operations on shared objects and of arbitrary operations on distinct objects",
  "All tests are single-threaded.",
  [V, L, T, S, P, A, AL, EP, EC],
  [("const operations perform no hidden writes; no shared static state", V + ", " + L + ", " + T + ", " + P)],
  ["ThreadSanitizer; results compared to a single-threaded run"]),
p("C17", "The library behaves the same in every supported build mode",
  "The same program of library calls yields the same observable results (contents, return values, sizes, error outcomes and categories, element and allocation event counts) whether compiled with or without exception support, with or without assertions, and at any optimisation level or supported compiler. Assertions never fire on valid use.",
  ["configurations", "programs"], "all operation histories expressible in both modes, all build configurations",
  "The tests run a handful of calls in two modes at one optimisation level and never compare outcomes.",
  ["nestl/exception_support.hpp", "nestl/config.hpp", "nestl/detail/gcc.hpp", "nestl/detail/clang.hpp", HX, NX, "nestl/has_exceptions/vector.hpp", "nestl/has_exceptions/list.hpp", "nestl/no_exceptions/vector.hpp"],
  [("mode dispatch", "nestl/exception_support.hpp"), ("assertion macros with side-effect-free arguments", L + " NESTL_CHECK_LIST_NODE")],
  ["digest of all observations of identical histories across builds"]),
p("C18", "Move, swap and splice transfer contents without touching elements",
  "Moving or swapping a container, splicing or merging lists, sorting a list, and moving or swapping smart pointers transfer exactly the right contents without constructing, copying, assigning or destroying any transferred element and without allocating. The source of a move is left empty and fully usable, the previous contents of a move-assignment target are destroyed, and self-move or self-swap leaves the container valid and usable.",
  ["histories", "inputs"], "all source/target states (empty, one, many; self) for every container",
  "The tests move one-element int vectors and sets only and cannot see element events.",
  [V, L, T, S, P, HV, HL],
  [("pointer exchange", V + " swap_data, " + L + " list_node_base::swap/transfer, " + T + " m_move_data")],
  ["element and allocation event counts around the call; contents and addresses"]),
p("C19", "Appending and list reordering keep their promised cost",
  "Appending n elements to a vector one at a time costs O(n) element constructions and O(log n) reallocations in total. A successful shrink leaves no spare capacity. List insertion, erasure and splicing touch only a constant number of elements, list merge makes at most n+m-1 comparisons, and list sort makes O(n log n) comparisons, with no element copies.",
  ["inputs", "histories"], "all n up to hundreds of thousands; all input orders",
  "The tests never count operations.",
  [V, L],
  [("geometric growth", V + " grow"), ("bottom-up merge sort by relinking", L + " sort/merge")],
  ["counts of element constructions, allocations and comparator calls"]),
p("C20", "Error objects tell the truth about what happened",
  "An operation leaves its error object untouched when it succeeds and sets it when it fails, with the category of the cause: out of memory, over-long request, or the original exception (same type and content, also after copying the error object and when rethrown). This holds for both built-in error types and for any user-supplied error type meeting the documented requirements.",
  ["inputs", "fault_sequences", "programs"], "all operations, causes and error types",
  "The tests only check that no error is set after successful calls.",
  [EP, EC, "nestl/default_operation_error.hpp", HX, V, L, T, P, A],
  [("error builders found by ADL", EP + "/" + EC), ("capture of the in-flight exception", HX)],
  ["error objects after every call; calls received by an instrumented user error type"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in props:
        f.write(json.dumps(q, ensure_ascii=True) + "\n")
