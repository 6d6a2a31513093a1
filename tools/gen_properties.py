#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
A = "include/ktl/allocators/"
C = "include/ktl/containers/"
U = "include/ktl/utility/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None)))

prop("A01", "Live blocks are disjoint, usable and preserved",
 "For every sequence of valid allocate and deallocate calls on any raw or composite allocator, each non-null block is at least as large as requested, lies in memory the allocator may hand out, and overlaps no other live block nor the allocator's own bookkeeping. The bytes a user stores in a live block stay unchanged until that block is deallocated.",
 ["histories", "inputs", "configurations"], "all interleavings of allocate(n)/deallocate in any order, all sizes n (zero, odd, at and around the alignment, above capacity), all allocator compositions",
 "The tests make a few shuffled histories and only compare neighbouring pointers for inequality; overlap depends on the whole allocate/free history and on the sizes.",
 [A+"linear_allocator.h", A+"stack_allocator.h", A+"freelist.h", A+"cascading.h", A+"fallback.h", A+"segragator.h", A+"overflow.h", U+"alignment.h"],
 [("bump cursor and outstanding byte count", A+"linear_allocator.h allocate/deallocate"), ("free list of recycled blocks", A+"freelist.h"), ("chain of sub-allocators", A+"cascading.h")],
 ["allocate() results", "block contents"])

prop("A02", "Every block is aligned for any fundamental type",
 "Every non-null pointer returned by an untyped allocator, raw or composite, is aligned to the strictest fundamental alignment, whatever sizes were requested before and wherever the allocator object itself lives.",
 ["histories", "inputs", "configurations"], "all allocate/deallocate histories, all sizes, all allocator compositions",
 "The tests never look at alignment; misalignment only appears after particular odd sizes.",
 [U+"alignment.h", A+"linear_allocator.h", A+"stack_allocator.h", A+"overflow.h", U+"aligned_malloc.h"],
 [("rounding every request up to the alignment", U+"alignment.h"), ("guard area that is a multiple of the alignment", A+"overflow.h")],
 ["allocate() results"])

prop("A03", "A request that cannot be met yields null and leaves no trace",
 "An allocation that cannot be satisfied returns a null pointer, for every requested size up to the largest representable one and at every fill level; it never returns a block shorter than requested. The failed request has no side effect: all live blocks, ownership answers, later successes and failures and diagnostics are the same as if it had not been made.",
 ["inputs", "histories"], "every boundary size (capacity, capacity plus/minus one, sizes around the wrap-around of size arithmetic) in every reachable fill state",
 "The tests never request more than fits and never check for null.",
 [A+"linear_allocator.h", A+"stack_allocator.h", A+"type_allocator.h", A+"overflow.h", A+"cascading.h", A+"freelist.h", A+"fallback.h", A+"segragator.h"],
 [("capacity comparison", A+"linear_allocator.h allocate"), ("maximum size check", A+"cascading.h allocate"), ("null propagation", A+"overflow.h allocate")],
 ["allocate() results", "subsequent behaviour"])

prop("A04", "Bump allocators reclaim the last block and reset when empty",
 "A linear or stack allocator satisfies a request exactly when the request, rounded up to the alignment, fits behind the blocks still held: freeing the most recent block makes its space available again, freeing any other block does not, and once every block is freed the full capacity is available again.",
 ["histories", "inputs"], "all histories of allocate/deallocate in any order until the state space closes, for capacities that are and are not multiples of the alignment",
 "The tests only free in one or two orders and never fill the allocator to the brim.",
 [A+"linear_allocator.h", A+"stack_allocator.h"],
 [("cursor rollback of the last block", A+"linear_allocator.h deallocate"), ("reset when the outstanding byte count reaches zero", A+"linear_allocator.h deallocate")],
 ["allocate() success or failure"])

prop("A05", "Ownership answers are exact",
 "An allocator that answers ownership queries says yes for every byte of every live block it handed out, and no for memory that belongs to any other allocator, including the bytes immediately before and after its own storage; a composite owns exactly what its parts own. The answer for a live block does not change until that block is deallocated.",
 ["histories", "inputs", "configurations"], "every address in and around the storage, in every reachable state, for raw and composite allocators",
 "The tests query ownership of three pointers in total.",
 [A+"linear_allocator.h", A+"stack_allocator.h", A+"null_allocator.h", A+"cascading.h", A+"fallback.h", A+"segragator.h", A+"freelist.h", A+"overflow.h", A+"shared.h", A+"reference.h", A+"global.h", A+"threaded.h", A+"type_allocator.h"],
 [("address range comparison", A+"linear_allocator.h owns"), ("search over the chain", A+"cascading.h owns"), ("disjunction of both parts", A+"fallback.h owns")],
 ["owns() results"])

prop("A06", "A composite returns each block to the part that produced it, once",
 "Whatever composition of allocators is used, every block obtained from an underlying allocator is given back to that same underlying instance at most once, with the same pointer and the same size it was obtained with, and never while the user still holds it. When all user blocks have been deallocated and the composite is destroyed, every underlying block has been given back.",
 ["histories", "configurations"], "all allocate/deallocate histories over instrumented leaf allocators that succeed or fail by their own capacity, for nestings of all composites",
 "The tests use real leaf allocators that ignore the size and owner of what they are given back, so misrouted or unbalanced deallocation passes.",
 [A+"fallback.h", A+"segragator.h", A+"cascading.h", A+"freelist.h", A+"overflow.h", A+"shared.h", A+"reference.h", A+"global.h", A+"threaded.h", A+"type_allocator.h"],
 [("ownership query before deallocation", A+"fallback.h deallocate"), ("threshold comparison", A+"segragator.h deallocate"), ("search for the owning instance", A+"cascading.h deallocate")],
 ["allocate/deallocate calls seen by leaf allocators"])

prop("A07", "Composites pick the documented part for each request",
 "A fallback allocator uses its second part only for requests its first part refused; a size-segregating allocator sends every size up to and including the threshold to its first part and every larger size to its second. An allocator assembled by the variadic builders from any number of parts behaves as a linear scan over the listed parts in order, for both the left- and right-leaning builders.",
 ["inputs", "configurations"], "every size around every threshold, every pattern of exhausted parts, every number of builder parts up to a bound",
 "The tests compile a few builder types and compare two of them; no request is routed through them except three sizes.",
 [A+"fallback.h", A+"segragator.h", A+"fallback_fwd.h", A+"segragator_fwd.h", U+"builder.h"],
 [("primary first", A+"fallback.h allocate"), ("threshold comparison", A+"segragator.h allocate"), ("type list split", U+"builder.h")],
 ["which leaf allocator served a request"])

prop("A08", "A cascade grows on demand and shrinks when instances empty",
 "A cascading allocator satisfies any request that a fresh underlying instance could satisfy, creating a new instance only when its current one refuses, and keeps all earlier blocks valid. It never keeps an instance without live blocks except one, never destroys an instance that has live blocks, and destroys every instance exactly once, including when the cascade is destroyed or replaced by assignment, and when instances refuse requests that they could have served.",
 ["histories"], "all allocate/deallocate orders over several instances, including emptying the oldest, a middle and the newest instance",
 "The tests create two or three instances and free in one order; unlinking a middle instance or emptying the newest one is never exercised.",
 [A+"cascading.h"],
 [("new instance on refusal", A+"cascading.h allocate"), ("unlink and delete an emptied instance", A+"cascading.h deallocate"), ("release of the chain", A+"cascading.h release")],
 ["construction and destruction of underlying instances", "allocate() results"])

prop("A09", "A free list serves its size window and recycles blocks",
 "A free-list allocator serves exactly the sizes above its minimum and up to and including its maximum and refuses all others; a block freed to it can be reused for any size of the window. It never holds more underlying blocks than the largest number of simultaneously live blocks, and gives all of them back, at the size it obtained them with, when it is destroyed or assigned over.",
 ["histories", "inputs"], "all allocate/deallocate/move histories with sizes at both window edges",
 "The tests recycle one block once; window edges, several free blocks, and destruction with a non-empty list are not checked against the underlying allocator.",
 [A+"freelist.h"],
 [("size window test", A+"freelist.h allocate/deallocate"), ("intrusive list of free blocks", A+"freelist.h"), ("release on destruction", A+"freelist.h release")],
 ["calls seen by the underlying allocator", "allocate() results"])

prop("A10", "Guarded blocks: corruption is reported exactly, never invented",
 "When a block of an overflow-checking allocator is deallocated, a report is written to the stream if and only if some byte of the 64-byte guard areas before or after the block no longer has its fill value, and the report states the extent of the damage on each side, measured from the block outwards. Writing anywhere inside the block never triggers a report, and the block is released either way.",
 ["inputs", "histories"], "every position of damaged bytes on both sides, every single position and every pair, several block sizes including zero",
 "One test damages one byte and checks that some output exists.",
 [A+"overflow.h"],
 [("fill pattern around the block", A+"overflow.h allocate"), ("pattern scan", A+"overflow.h deallocate")],
 ["stream contents"])

prop("A11", "Leak and lifetime accounting is exact",
 "When an overflow-checking allocator is destroyed it reports outstanding memory if and only if the bytes allocated through it and not deallocated differ from zero, and unbalanced construction if and only if objects constructed and destroyed through it differ in number, each with the exact amount and direction. Requests that failed do not count.",
 ["histories"], "all sequences of allocate (succeeding and failing), deallocate, construct and destroy up to a bound, ended by destruction",
 "The tests only check that balanced use of allocators that never fail gives no output.",
 [A+"overflow.h"],
 [("byte and object counters", A+"overflow.h"), ("report in the destructor", A+"overflow.h ~overflow")],
 ["stream contents after destruction"])

prop("A12", "A shared allocator lives exactly as long as its last handle",
 "For every sequence of creating, copying, moving, assigning (including self-assignment) and destroying handles of a reference-counted allocator, the allocator behind them is destroyed exactly once, at the moment its last handle is destroyed or redirected, and not earlier; all handles of a group reach the same allocator state.",
 ["histories"], "all histories of handle operations over several handle slots and allocators",
 "The tests copy handles a few times and never look at the lifetime of the allocator behind them.",
 [A+"shared.h"],
 [("use count", A+"shared.h increment/decrement")],
 ["construction and destruction of the shared allocator"],
 [dict(name="use count", meaning="number of handles", where=A+"shared.h")])

prop("A13", "Allocator equality means interchangeable, and inequality its negation",
 "Two allocators of any kind compare equal only if memory obtained from one may be returned through the other; a copy of a shareable allocator (shared, reference, stack, malloc, null, global, and typed or rebound forms of them) always compares equal to its source, and two allocators with separate state compare unequal once either has handed out memory. In every reachable state equality is reflexive and symmetric, and 'not equal' is exactly the negation of 'equal'.",
 ["histories", "configurations"], "all pairs of handles in all states reached by copy, assign, move, allocate and deallocate histories, for every allocator type",
 "No test compares two allocators; standard containers consult equality only in splice, swap and move assignment.",
 [A+"linear_allocator.h", A+"stack_allocator.h", A+"mallocator.h", A+"null_allocator.h", A+"cascading.h", A+"fallback.h", A+"freelist.h", A+"global.h", A+"overflow.h", A+"reference.h", A+"segragator.h", A+"shared.h", A+"threaded.h", A+"type_allocator.h"],
 [("comparison operators", "every allocator header")],
 ["operator== and operator!= results"])

prop("A14", "Construct and destroy requests run exactly once in the right part",
 "Constructing or destroying an object through any allocator that offers it runs the object's constructor with the given arguments, or its destructor, exactly once at the given address. If the part that owns the memory customises construction or destruction, that customisation is what runs; otherwise the plain constructor or destructor runs, and the other part is not involved.",
 ["inputs", "configurations"], "all compositions where neither, one or both parts customise construction, for memory owned by each part, with lvalue, rvalue and multiple arguments",
 "One test constructs a double through one composition.",
 [A+"cascading.h", A+"fallback.h", A+"segragator.h", A+"freelist.h", A+"overflow.h", A+"shared.h", A+"reference.h", A+"global.h", A+"threaded.h", A+"type_allocator.h", U+"meta.h"],
 [("ownership-directed forwarding", A+"fallback.h construct/destroy"), ("detection of construct/destroy", U+"meta.h")],
 ["constructor and destructor calls", "hooks seen by leaf allocators"])

prop("A15", "Typed allocators count objects and ask for exactly their bytes",
 "A typed allocator asked for n objects obtains n times the object size in bytes from the allocator it wraps and returns the same number of bytes when those n objects are deallocated, also after rebinding to another type; if that byte count is not representable it returns null. Its reported maximum size is the wrapped maximum divided by the object size. Each of the shorthands for a typed allocator over one of the library's allocators (type_linear_allocator, type_shared_freelist_allocator and so on) behaves as the composition that it abbreviates.",
 ["inputs", "configurations"], "object sizes including odd ones, all counts at and around representability limits, all rebinds between several types",
 "The tests allocate single objects of four types and never inspect the byte counts.",
 [A+"type_allocator.h"],
 [("multiplication by the object size", A+"type_allocator.h allocate/deallocate"), ("rebind and converting constructors", A+"type_allocator.h")],
 ["sizes seen by the wrapped allocator"])

prop("A16", "The malloc-based allocator works in every platform configuration",
 "In each of the library's platform configurations for obtaining system memory (already-aligned malloc, posix_memalign, hand-aligned malloc), every non-null block has at least the requested size and the required alignment whatever alignment the system's malloc happens to give, keeps its contents, and is released back to the system exactly once. Requests too large to represent yield null.",
 ["inputs", "configurations", "histories"], "all sizes up to a bound and at the wrap-around, every residue of the address the system allocator returns, all allocate/deallocate orders of several blocks",
 "Only the glibc configuration is ever compiled by the tests.",
 [U+"aligned_malloc.h", A+"mallocator.h"],
 [("platform selection", U+"aligned_malloc.h"), ("hidden pointer to the original block", U+"aligned_malloc.h aligned_malloc/aligned_free")],
 ["allocate() results", "system allocation calls"])

prop("A17", "Running out of system memory is reported as null",
 "If the system refuses memory at any point in a sequence of allocations, the allocator in use returns null for that request without crashing, keeps every live block intact, and leaks nothing: when memory is available again it can be used normally, and after everything is deallocated and destroyed all system memory has been returned.",
 ["fault_sequences", "histories"], "every subset of failing system allocations along every short history of allocate/deallocate, for every composition that draws on system memory",
 "No test makes the system refuse memory.",
 [A+"mallocator.h", A+"cascading.h", A+"fallback.h", A+"freelist.h", A+"segragator.h", A+"overflow.h", U+"aligned_malloc.h"],
 [("null propagation", "allocate of every composite"), ("creation of a new instance", A+"cascading.h allocate")],
 ["allocate() results", "system allocation balance"])

prop("A18", "Reported maximum size is always available and never too small",
 "An allocator that reports a maximum allocation size can be asked in every state, including before its first allocation, after it has been emptied and after being moved from (except for a moved-from shared handle, which refers to no allocator), and gives the same answer each time. No request larger than the reported maximum ever succeeds.",
 ["histories", "configurations"], "all reachable states of every allocator type that reports a maximum; all sizes around the reported value",
 "No test calls it.",
 [A+"linear_allocator.h", A+"stack_allocator.h", A+"cascading.h", A+"fallback.h", A+"segragator.h", A+"freelist.h", A+"overflow.h", A+"shared.h", A+"reference.h", A+"global.h", A+"threaded.h", A+"type_allocator.h"],
 [("delegation to the parts", "max_size of every allocator")],
 ["max_size() results"])

prop("A19", "Moving an allocator hands over its blocks without loss or duplication",
 "When a cascading or free-list allocator is moved, by construction or assignment, the destination can use and deallocate every live block of the source, whatever the destination held before is released, and the source is left empty and usable. At the end each underlying block and instance has been released exactly once.",
 ["histories"], "all histories of allocate, deallocate, move-construct and move-assign over two or three allocator objects",
 "One test moves an unused allocator; moving one that holds instances or free blocks is never done.",
 [A+"cascading.h", A+"freelist.h", A+"fallback.h", A+"segragator.h"],
 [("ownership transfer", A+"cascading.h move operations"), ("release before assignment", A+"freelist.h operator=")],
 ["instances and blocks seen by leaf allocators"])

prop("A20", "An exception passes through an allocator without a trace",
 "If an underlying allocator throws while it is asked for memory, if the constructor of an object or a construction customisation throws, if an allocator's own constructor throws while an allocator composed of it is created, copied or moved in any of the forms offered or while a handle or an instance of it is created, or if the comparison of two allocators throws, the exception reaches the caller unchanged. All live blocks keep their contents and owners, locks are released, nothing is counted for the request that failed, later requests behave as if it had never been made, and after everything is deallocated and destroyed no memory, instance or object remains.",
 ["histories", "fault_sequences"], "every subset of throwing points along every short history of allocate, deallocate, construct and destroy, and every throwing point of every constructor form, copy, move and comparison, for every composition",
 "No test uses a part or an object that throws.",
 [A+"cascading.h", A+"fallback.h", A+"freelist.h", A+"segragator.h", A+"overflow.h", A+"shared.h", A+"threaded.h", A+"reference.h", A+"type_allocator.h", U+"aligned_malloc.h"],
 [("order of state changes and calls into the parts", "allocate of every composite"), ("conditional noexcept", "every operation of every composite"), ("release of memory when a constructor throws", U+"aligned_malloc.h aligned_new"), ("accounting", A+"overflow.h construct, allocate")],
 ["exceptions seen by the caller", "allocate() results", "blocks, instances and objects seen by instrumented parts", "the stream"])

prop("A21", "Construction arguments and copies reach the parts of an allocator unchanged",
 "An allocator built from arguments, in any constructor form it offers, hands exactly the arguments meant for each part to that part, in order and as passed: lvalues are referred to, rvalues are moved from, nothing else is touched. Copying, moving, assigning (also to itself) and converting an allocator to another type transfer the state of each part the same way; a handle refers to the same allocator as its source. The accessors for the underlying allocators and streams return the ones in use.",
 ["histories", "inputs", "configurations"], "every constructor form of every composition, with values, lvalues, move-only arguments and one or two tuples, followed by every short history of copies, moves, assignments, conversions and destructions of two or three allocators",
 "The tests build composites from one argument at most, and never read back what a part was built from.",
 [A+"cascading.h", A+"fallback.h", A+"freelist.h", A+"segragator.h", A+"overflow.h", A+"shared.h", A+"threaded.h", A+"reference.h", A+"global.h", A+"type_allocator.h"],
 [("forwarding constructors and tuples", "constructors of every composite"), ("copy and move operations", "every composite"), ("get_allocator, get_primary, get_fallback, get_stream", "every composite")],
 ["values the parts were built from", "which part serves a request", "addresses returned by accessors"])

prop("A22", "Debug assertions accept correct use and report violated preconditions",
 "When the library is compiled with its debug assertions, every correct use gives the same results as without them and no assertion fires, also when memory runs out, when allocators, free lists or containers are moved, and when handles or other allocators hold the memory. Whenever an asserted precondition is violated (an index or position out of range, an empty heap, a misaligned packed pointer, a buffer filled with another number of elements, a null or foreign block given back, raw memory moved while in use, blocks forgotten by a cascade) an assertion fires in that call.",
 ["histories", "inputs", "configurations", "fault_sequences"], "every history of the allocators and containers in the assertion configuration, and every argument around the limits of each asserted precondition",
 "The tests are built without assertions; no test violates a precondition.",
 [U+"assert.h", C+"trivial_vector.h", C+"trivial_array.h", C+"trivial_buffer.h", C+"binary_heap.h", C+"packed_ptr.h", A+"linear_allocator.h", A+"null_allocator.h", A+"cascading.h", A+"freelist.h", A+"overflow.h"],
 [("KTL_ASSERT", U+"assert.h"), ("conditions asserted", "every use of KTL_ASSERT")],
 ["SIGTRAP", "results of every operation"])

prop("A23", "Composites offer exactly the optional operations their parts make possible",
 "Every composite can be built over any allocator that provides allocate and deallocate (and owns, where it is documented as required), with whatever subset of the optional operations its parts define. It offers owns, max_size, construct and destroy exactly when the allocators underneath do: a single-part composite when its part does (overflow always offers construct and destroy), a two-part composite offers owns and max_size when both parts do, and construct and destroy when either part does and one can be asked for ownership. What is offered gives the answer of the parts, the size type is that of the (first) part, and a composite can be copied or moved exactly when its parts can (handles always, locked allocators never).",
 ["inputs", "configurations", "histories"], "every subset of the optional operations of every part, every composite, and the histories that use what is offered",
 "The tests use the library's own allocators, which define nearly everything.",
 [U+"meta.h", A+"reference.h", A+"shared.h", A+"global.h", A+"threaded.h", A+"freelist.h", A+"cascading.h", A+"overflow.h", A+"type_allocator.h", A+"fallback.h", A+"segragator.h"],
 [("detection of optional operations", U+"meta.h"), ("conditions of optional operations", "every composite")],
 ["which operations can be called", "which part is called"])

prop("T01", "A locked allocator is atomic under every thread interleaving",
 "When several threads allocate from and deallocate to the same thread-safe allocator (used through shared, referenced or global handles), every interleaving gives results that some sequential order of the same calls would give. No block is held by two threads at once, no update is lost, no deadlock occurs, and the allocator's state is never accessed without synchronisation.",
 ["schedules"], "all interleavings of two and three threads with one to three operations each, over several wrapped allocators",
 "The tests run real threads and see a handful of the schedules; a race needs a specific preemption.",
 [A+"threaded.h", A+"global.h", A+"shared.h"],
 [("mutex around allocate and deallocate", A+"threaded.h")],
 ["call/return histories", "data races"])

prop("T02", "An atomically shared allocator is destroyed once, after all uses",
 "When threads concurrently copy, assign, move, use and drop their own handles of an atomically reference-counted allocator, under every interleaving the allocator behind them is destroyed exactly once. The destruction happens after, and ordered behind, every use made through any handle.",
 ["schedules"], "all interleavings of two and three threads dropping, copying and redirecting handles; ordering judged by the happens-before relation of the memory model, not by x86 behaviour",
 "The tests copy one handle per thread at thread start; a lost decrement or a too-weak memory order does not show on the test machine.",
 [A+"shared.h", A+"shared_fwd.h"],
 [("atomic use count with acquire-release order", A+"shared.h increment/decrement")],
 ["destruction events", "happens-before order of accesses"])

prop("T03", "Queries on a locked allocator are safe next to concurrent changes",
 "While other threads allocate and deallocate, asking a thread-safe allocator for ownership of a live block, for its maximum size or for equality with another handle of the same allocator, and constructing or destroying objects through it, gives the right answer under every interleaving and touches no shared state without synchronisation.",
 ["schedules"], "all interleavings of one querying or constructing thread with one or two allocating/deallocating threads, over wrapped allocators with mutable internal structure",
 "The tests never query concurrently.",
 [A+"threaded.h", A+"cascading.h", A+"freelist.h", A+"overflow.h"],
 [("mutex", A+"threaded.h")],
 ["query results", "data races"])

prop("T04", "Allocators and containers that share nothing are independent across threads",
 "Threads that each create, use and destroy their own allocators or containers, with no lock and no object in common, never affect one another: under every interleaving each thread observes exactly the results it would observe running alone, no state common to the threads is touched without synchronisation, and all memory is returned. Only the explicitly global allocator has state shared between its objects.",
 ["schedules"], "all interleavings of two and three threads with all short operation histories between creation and destruction, over every allocator kind and every container",
 "The tests use one thread.",
 [A+"linear_allocator.h", A+"freelist.h", A+"cascading.h", A+"overflow.h", A+"shared.h", C+"trivial_vector.h", C+"binary_heap.h"],
 [("no static state", A), ("no static state", C)],
 ["operation results", "data races", "system memory"])

prop("C01", "trivial_vector behaves like a sequence under every history",
 "After any sequence of its documented operations (construction forms, pushing, emplacing, erasing, popping, resizing, reserving, clearing, element writes), a trivial_vector holds exactly the elements a plain sequence would hold, in order, with matching size, emptiness, indexing and iteration in both directions, and capacity never below size. Returned iterators refer to the element the documentation says, and elements up to the smaller of old and new size survive every resize or reallocation.",
 ["histories", "inputs"], "all operation histories up to closure of the size/capacity state space within bounds, every position and range, several element sizes",
 "The tests push eight elements and erase from the front.",
 [C+"trivial_vector.h"],
 [("three-pointer bookkeeping", C+"trivial_vector.h"), ("growth", C+"trivial_vector.h expand/set_size")],
 ["contents, size, capacity, iterators"])

prop("C02", "trivial_array behaves like a fixed sequence that can be resized",
 "After any sequence of its documented operations (construction forms, resize, assign, element writes), a trivial_array holds exactly the elements a plain sequence would hold, with matching size, emptiness, indexing and iteration in both directions; resizing keeps the common prefix.",
 ["histories", "inputs"], "all operation histories over sizes up to a bound, several element sizes",
 "The tests resize once from empty and write eight elements.",
 [C+"trivial_array.h"],
 [("reallocation on size change", C+"trivial_array.h resize/assign")],
 ["contents, size, iterators"])

prop("C03", "trivial_buffer is a properly aligned ring of elements for any type",
 "For any trivially copyable element type and size, a trivial_buffer stores its elements suitably aligned, supports all its documented accessors on const and non-const buffers, and index i always denotes element i modulo the size. Construction, copy, move and assignment reproduce exactly the given elements, and iteration in both directions visits all of them in order.",
 ["inputs", "configurations"], "all sizes up to a bound, all indices over several wrap-arounds, element types of several sizes and alignments, every preceding member layout",
 "The tests instantiate only indexing on double, at an aligned address.",
 [C+"trivial_buffer.h"],
 [("inline storage", C+"trivial_buffer.h"), ("index modulo size", C+"trivial_buffer.h")],
 ["contents, addresses, iterators"])

prop("C04", "binary_heap always yields the extreme element and keeps all others",
 "After any sequence of insertions, removals, clears and reservations, peeking or popping a binary_heap yields an element that no other element precedes in the given order (min, max or a custom, possibly stateful, comparison), and the heap holds exactly the multiset of inserted and not yet removed elements. Searching finds an equal element if and only if one is present, insertion returns a reference to the inserted element, and size and emptiness match.",
 ["histories", "inputs"], "all operation histories over a small totally preordered value domain with duplicates, until the layout state space closes within a size bound; all insertion permutations",
 "The tests insert eight distinct values in one random order and pop them all.",
 [C+"binary_heap.h"],
 [("sift up and sift down", C+"binary_heap.h percolateUp/percolateDown")],
 ["peek/pop/find/insert results"])

prop("C05", "binary_heap respects element lifetimes",
 "Whatever operations are performed on a binary_heap of class-type elements, every element constructed in it is destroyed exactly once, no element is read, assigned or destroyed outside its lifetime, and removed elements are handed out intact. Elements need only be movable.",
 ["histories", "inputs"], "all operation histories (insert, pop to empty, clear, reserve, copy, move, assignment, destruction) over lifetime-tracking elements, copyable and move-only",
 "The tests use one class type whose moved-from and destroyed states happen to be harmless.",
 [C+"binary_heap.h"],
 [("explicit construct and destroy of slots", C+"binary_heap.h")],
 ["constructor, assignment and destructor calls on elements"])

prop("C06", "Containers return exactly the memory they took",
 "Every container operation, including growth, copy, move (also to a different allocator) and assignment, gives each block back to an allocator equal to the one it came from, exactly once and with the element count it was obtained with. After a container is destroyed it holds no memory, and a container constructed with an allocator takes its memory only from that allocator.",
 ["histories", "configurations"], "all histories of constructions, growth, copies, moves and assignments over two or three containers and two allocators",
 "The tests use allocators that ignore the size they are given back.",
 [C+"trivial_vector.h", C+"trivial_array.h", C+"binary_heap.h"],
 [("allocate/deallocate pairs", "every container's special member functions and growth")],
 ["allocate/deallocate calls seen by the allocator"])

prop("C07", "Copies are equal and independent, moves transfer, self-assignment is harmless",
 "Copy construction and copy assignment of a container (also with another allocator) give an equal container whose later changes do not affect the source and vice versa; move construction and move assignment give the destination the source's former contents and leave the source empty and reusable; comparators travel with the contents. Assigning a container to itself by copy leaves it unchanged.",
 ["histories"], "all histories of mutation, copy, move and assignment over two or three containers, including empty ones and self-assignment",
 "The tests construct copies of one four-element container and compare once; assignment is not exercised on differing sizes or on itself.",
 [C+"trivial_vector.h", C+"trivial_array.h", C+"binary_heap.h", C+"trivial_buffer.h"],
 [("special member functions", "every container header")],
 ["contents of all containers after each step"])

prop("C08", "Inserting an element of the container itself is safe",
 "Passing a reference to an element of the container as the argument of an insertion (pushing, emplacing at the end or in the middle, heap insertion) inserts the value the element had at the time of the call, at every size and capacity, including when the insertion reallocates.",
 ["histories", "inputs"], "every size/capacity state reachable within bounds, every choice of aliased element, every insertion operation",
 "No test passes an element of the container; the failure needs a full container.",
 [C+"trivial_vector.h", C+"binary_heap.h"],
 [("growth before storing the argument", C+"trivial_vector.h push_back/emplace_back/emplace"), ("growth before construction", C+"binary_heap.h insert")],
 ["contents after insertion"])

prop("C09", "A packed pointer keeps pointer and integer independent",
 "For every alignment, bit count within it, suitably aligned pointer and integer, a packed_ptr returns the pointer and the low bits of the integer that were last stored, in any order of updates; setting one never disturbs the other.",
 ["inputs", "histories", "configurations"], "all alignments that are powers of two up to a large bound, all bit counts, all integers in and beyond range, pointer values with every address bit exercised",
 "The tests store the value 2 with one pointer each.",
 [C+"packed_ptr.h", U+"bits.h"],
 [("pointer and integer masks", C+"packed_ptr.h"), ("free bit count", U+"bits.h")],
 ["get_ptr/get_int results"])

prop("C10", "Standard containers work unchanged on KTL allocators",
 "A standard library container using a typed KTL allocator with shared state behaves exactly as with the standard allocator for every sequence of operations within the allocator's capacity, including copying, moving, swapping, splicing and merging between containers. When the containers are gone all memory has been returned to the allocator, which then offers its full capacity again.",
 ["histories", "configurations"], "all operation histories up to a depth over two containers of each standard kind (vector, deque, list, map, unordered map, string), several allocator compositions",
 "The tests push or insert a handful of values into vector and unordered maps.",
 [A+"type_allocator.h", A+"shared.h", A+"reference.h", A+"global.h", A+"stack_allocator.h", A+"mallocator.h"],
 [("rebind and equality", A+"type_allocator.h"), ("shared state", A+"shared.h")],
 ["container contents", "allocator capacity afterwards"])

prop("C11", "A container survives exceptions of its allocator and its elements",
 "If the allocator throws while a trivial_vector or trivial_array is being constructed, or while a trivial_array is resized or assigned a range, the exception reaches the caller, no memory is lost and an existing array keeps its elements. If the allocator, or copying or moving an element that is not declared noexcept, throws while a binary_heap is copied, moved to another allocator or copy-assigned, the exception reaches the caller, every element constructed is destroyed exactly once, no memory is lost, the source of a copy is unchanged, and the target of a failed assignment is still a valid heap.",
 ["histories", "fault_sequences"], "an exception at every point of every operation along every short history over two heaps, arrays or vectors",
 "No test uses an allocator or element that throws.",
 [C+"binary_heap.h", C+"trivial_array.h", C+"trivial_vector.h"],
 [("copy construction and assignment", C+"binary_heap.h"), ("allocate before release", C+"trivial_array.h resize, assign")],
 ["exceptions", "element lifetimes", "allocator balance", "contents afterwards"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
