"""The registered checks: sources, and what each one explores."""
CHECKS = {}
SEQ = ("Bounded-exhaustive: every operation history of the alphabet up to the depth (and, with states merged only on identical "
       "canonical memory images, up to the BFS bound) is executed on the real code and compared with the reference model after every step. "
       "Trusts the harness's deterministic world (interposed malloc, fixed addresses), AddressSanitizer and the compiler; nothing is claimed beyond the stated bounds. ")
def check(prop, sources, explain, note="", **kw):
    CHECKS[prop] = dict(sources=sources, explain=explain, note=SEQ + (note or explain), **kw)

SCHED = ("Stateless model checking of real threads: the harness is compiled with instrumentation and linked with our own scheduler, "
         "which runs one thread at a time and explores every inequivalent order of the operations on mutexes and atomics (dynamic partial-order "
         "reduction with source sets and sleep sets; the explorer checks itself against the unreduced search). A happens-before race detector with the "
         "C++ memory orders, use-after-free, double-free, deadlock and spin detection run in every execution. Trusts that detector and sequentially "
         "consistent values of atomics; nothing is claimed beyond the stated threads and calls. ")
def threads(prop, sources, explain, **kw):
    CHECKS[prop] = dict(sources=sources, explain=explain, note=SCHED + explain, engine="sched",
                        technique="stateless model checking of the real multithreaded code (dynamic partial-order reduction) with a happens-before race detector", **kw)

check("A01", ["A01.cpp"], "All histories of allocate(n)/deallocate over about 60 allocator compositions (raw, composite, over real and over instrumented parts); oracle: covered by memory the allocator may hand out, disjoint, contents preserved. Also 13 compositions holding up to 65537 blocks, freed in four orders.")
check("A02", ["A02.cpp"], "As A01, with objects placed at several residues modulo 64 and system blocks at several residues modulo 16; oracle: every pointer is aligned for max_align_t. Also four compositions holding up to 65537 blocks at once, and sizes up to 2^19.")
check("A03", ["A03.cpp"], "Lockstep exploration of two copies of each composition, one of which never sees the requests that fail; oracle: identical successes, ownership answers, diagnostics and memory; sizes at capacity and around every wrap-around of size_t.")
check("A04", ["A04.cpp"], "All allocate/deallocate histories of linear and stack allocators until the state space closes; oracle: a reference bump allocator predicts success exactly. Also every sequence of three requests of linear and stack allocators of 2^16, 2^31 and 2^32 bytes, and up to 65537 live blocks.")
check("A05", ["A05.cpp"], "As A01; oracle: owns() of every byte of live blocks, of neighbours, of memory of other allocators, and for instrumented parts the disjunction of the parts. Also five compositions holding up to 65537 blocks next to an idle one of the same type, and bump allocators of more than 4 GiB.")
check("A06", ["A06.cpp"], "As A01 over instrumented parts that verify pointer, size, owner and multiplicity of everything given back.")
check("A07", ["A07.cpp"], "Every size around every threshold against every pattern of exhausted parts, for fallback, segragator and the builders with up to 9 parts; oracle: a linear scan over the parts.")
check("A08", ["A08.cpp"], "All histories of allocate, deallocate, destroy, move over cascades of instrumented instances; oracle: instance life cycle model. Also up to 65537 blocks or instances, freed in four orders.")
check("A09", ["A09.cpp"], "All histories of allocate, deallocate, destroy, move over free lists on instrumented parts; oracle: window, reuse and high-water model. Also up to 65537 free blocks, in four orders, and windows between 0 and 2^64-1.")
check("A10", ["A10.cpp"], "Every single damaged byte, every pair of damaged bytes on both sides, every interior byte and all small histories; oracle: exact expected report.")
check("A11", ["A11.cpp"], "All histories of allocate (succeeding and failing), deallocate, construct, destroy ended by destruction; oracle: exact balances.")
check("A19", ["A19.cpp"], "All histories of allocate, deallocate, move-construct, move-assign over two and three cascades and free lists; oracle: ownership transfer model. Also moved, assigned and swapped with up to 65537 live or free blocks or instances.")
check("A20", ["A20.cpp", "A20b.cpp"], "All histories of allocate, deallocate, construct and destroy over 26 compositions of parts that may throw, in which every subset of the points passed by a request (allocation by each part, creation of an instance, construction customisation, object constructor) throws, in lockstep with a twin of the composition that is never asked for what threw; every creation of shared and locked allocators with every subset of constructors throwing; all histories of building 27 compositions in every constructor form, copying, moving and converting them in which any construction of a part throws. Oracle: the exception reaches the caller unchanged, the twin answers alike, live blocks stay intact and owned, nothing remains at the end.")
check("A21", ["A21.cpp"], "All histories of building three allocators of 40 compositions in every constructor form (values, lvalues, move-only arguments, const, mutable and rvalue parts, one and two tuples, behind a stream, nested), copying, moving, assigning (also to itself), converting between types and destroying them; after every step each part is asked by allocation and through every accessor. Oracle: each part holds exactly the arguments meant for it, arguments are moved from exactly when passed as such, handles share, nothing remains.")
check("A23", ["A23.cpp"], "Every composite over parts that define every subset of owns, max_size, construct and destroy (16 subsets, and 16 x 16 for two parts; also with a size type of their own): what is offered, and every short history that uses it (blocks of every routing class, ownership, maximum, construction and destruction); which composites can be copied and moved for parts that can or cannot. Oracle: offered exactly if the parts it needs define it; the answers are those of the serving part.")
check("A22", ["A22.cpp"] + ["ns:%s.cpp" % c for c in ("A04", "A08", "A09", "A10", "A12", "A17", "A19", "C01", "C02", "C03", "C04", "C07", "C08", "C09")], "The library compiled with its debug assertions: the histories of A04, A08, A09, A10, A12, A17, A19, C01-C04 and C07-C09 again (smaller bounds), in which any assertion that fires is a violation; and every asserted precondition, called with all arguments around its limits. Oracle: the same results as without assertions; an assertion fires exactly when the precondition is violated.", variants=["assert"], flags=["-DMC_LIGHT"], thorough_variants=[])
check("A12", ["A12.cpp"], "All histories of creating, copying, moving, assigning (also to itself), rebinding, using and destroying up to four handles of shared, atomic_shared and typed shared allocators over an instrumented instance; oracle: the instance exists exactly while its group has a handle.")
check("A13", ["A13.cpp"], "Two and three separate instances of about 50 compositions under all allocate/deallocate histories; three handles of every shareable allocator, typed and rebound, under all copy, move, assign, use histories (including moved-from handles); three cascades and free lists under moves. Oracle: reflexive, symmetric, inequality is the negation, copies equal, separate used state unequal.")
check("A14", ["A14.cpp"], "All histories of allocate, deallocate, construct (default, value, several arguments, lvalue, const lvalue, rvalue, move-only) and destroy at several offsets of every block, over compositions in which neither, either or both parts customise construction or destruction; oracle: exactly one constructor/destructor at the address with the arguments, and the customisation of the owning part exactly once, no other. Also an object in each instance of cascades of up to 257 instances.")
check("A15", ["A15.cpp"], "All allocate/deallocate histories with every rebinding route between six object types over instrumented allocators; every count from 0 to 70 and at every wrap-around of count times size for 17 object sizes and several capacities; the 20 typed shorthands over real allocators, and in lockstep with the composition each stands for, through every history of five requests and releases. Oracle: exact byte counts in both directions, null exactly when impossible, maximum = wrapped maximum / size.")
check("A16", ["A16.cpp"], "The library is compiled once per platform configuration (aligned malloc, posix_memalign, malloc aligned by hand, _mm_malloc) into its own namespace; all histories over mallocator and compositions, every size from 0 to 300, those around the powers of two up to 2^19 and every unrepresentable boundary, for every residue of the address malloc may return (multiples of 8 when aligned by hand, of 16 otherwise).")
check("A17", ["A17.cpp", "A17p.cpp"], "All allocate/deallocate histories in which every subset of the system calls made by every request is refused (alphabet: request size times refusal pattern), over 35 compositions that draw system memory; oracle: null exactly when refused (where the composition has no bounded part), contents and ownership of live blocks intact, everything returned to the system at the end.")
check("A18", ["A18.cpp"], "All allocate/deallocate histories over about 60 compositions that report a maximum, with the requests around the reported maximum in the alphabet; all histories of two allocators that are also moved, assigned, copied and dropped. Oracle: max_size() is the same in every state, and nothing larger ever succeeds. Also bump allocators of more than 4 GiB.")
check("C01", ["C01.cpp"], "Every constructor and every operation with every position and range, from every reachable (size, capacity) state until the space closes, for 18 element/allocator combinations (1 to 200 bytes), and patterns of special values (negative zero, NaN, null members and the like) of 15 unusual element types through every way in and out; elements are rewritten to distinct values after every operation, so each transition is checked with fully distinguishable elements. Oracle: a plain sequence, read back through every accessor. Also every operation at marked positions from sizes around 2^7, 2^8, 2^15, 2^16, and around 2^31 and 2^32 for 1 byte elements.")
check("C02", ["C02.cpp"], "Every constructor, every resize and assignment between every pair of sizes up to the bound and around every power of two up to 1025, and every element write through every accessor, for 20 element/allocator combinations, with fully distinguishable elements. Oracle: a plain sequence. Also every constructor, resize and assignment between sizes around 2^7, 2^8, 2^15, 2^16, and around 2^31 and 2^32 for 1 byte elements. Also values special to 15 unusual element types (negative zero, NaN, null member pointers, padding, operators that compare equal), compared byte for byte.")
check("C03", ["C03.cpp"], "Two buffers of 15 element types (1 to 64 bytes, alignment 1 to 64, also with default constructors) and lengths 1 to 40 at several object addresses, placed behind another member: all histories of construction, copy, move, assignment, self-assignment and writes through every accessor at indices up to the largest size_t; oracle: a plain ring, alignment and containment of the elements, every const and non-const accessor. Also lengths around 2^7, 2^8, 2^15, 2^16, and 2^32+5. Also values special to 15 unusual element types (negative zero, NaN, null member pointers, padding, operators that compare equal), compared byte for byte.")
check("C04", ["C04.cpp"], "All histories of construction (every constructor), insertion, pop, clear, reserve over key alphabets of 3 to 6 with states being heap layouts and capacities, for plain, stateful, function-pointer and std::function orders; every 0/1 sequence up to length 14, every sequence over 3 and 5 keys, every permutation up to 8, and every one or two odd keys in heaps of up to 40, inserted and drained, also with interleaved pops. Oracle: a multiset with identifiable elements. Also heaps of seven shapes with up to 400001 elements, and values special to 7 unusual element types.")
check("C05", ["C05.cpp"], "Two heaps of elements whose construction, destruction, moves, assignments and reads are all recorded (copyable and move-only): all histories of every constructor, copying, moving, moving to another allocator, assignment, insertion, pop, clear, reserve, destruction; every key sequence from every initial capacity. Oracle: the live elements are exactly the elements of the heaps after every operation, and nothing outside its lifetime or moved-from is read. Also heaps of up to 65537 recorded elements.")
check("C06", ["C06.cpp"], "Two containers (vector, array, heap) on two instrumented allocators (also without default constructor) or on library allocators over watched system memory: all histories of every constructor, copying and moving with the same or the other allocator, assignment, self-assignment, growth, shrinking, destruction. Oracle: every block goes back to its allocator once with its element count, memory is taken only from the allocator the container was given, nothing remains. Also containers of up to 65537 elements with every block accounted for.")
check("C07", ["C07.cpp"], "Two containers (vector, array, heap; heaps in either order through stateful comparators and std::function): all histories of construction, copying, moving (with the same or another allocator), assignment, self-assignment, and changes, with every element renamed after every step. Oracle: plain sequences and multisets; moved-from containers are empty and usable. Also of up to 65537 elements, and copies of more than 2^32 elements.")
check("C08", ["C08.cpp"], "Every insertion form with every element of the container itself as its argument (lvalue, const, rvalue, subobjects of two elements) and every position, from every reachable size and capacity, until the state space closes, for vectors of 1 to 200 byte elements and for heaps of plain, recorded and string-owning elements, over several allocators. Oracle: the value the argument had before the call is inserted; all other elements as before. Also from up to 65537 elements, each marked element to each marked position.")
check("C09", ["C09.cpp"], "Every alignment from 2^0 to 2^63 with up to five bit counts each (0, 1, half, all but one, all): every sequence of up to three updates of pointer and integer (every integer width) from a default, initialised or copied packed_ptr. Oracle: a pair of pointer and integer.")
check("C10", ["C10.cpp"], "Two standard containers (vector, vector<bool>, string, deque, list, forward_list, the eight associative ones, priority_queue; allocate_shared) on about 12 KTL allocators, with one state or two: all histories of construction, copying, moving (also with an allocator), assignment, swap, splice, merge, node extraction and the container's own operations. Oracle: the same containers on std::allocator; all memory returned and full capacity offered at the end; nothing reported by overflow allocators. Also containers of up to 65537 elements.")
check("C11", ["C11.cpp"], "Two heaps of elements whose copies, moves or both may throw, over an allocator that may throw: all histories of insertion, pop, clear, reserve, destruction and of every construction and assignment with an exception at every point it passes (until the space closes or the bound is reached); arrays and vectors: every constructor, resize and assign between all sizes with a throwing allocator. Oracle: the live elements are exactly those of the heaps, sources of copies unchanged, failed arrays unchanged, failed heaps valid, all memory returned.")

threads("T01", ["T01.cpp"], "All programs of two threads with up to three and three threads with up to two calls out of allocate (two sizes), free own newest, free own oldest, free a block of another thread, over 18 locked compositions reached directly and through shared, atomic_shared, reference, global and typed handles. Oracle: the results, addresses included, are those of some sequential order of the calls; contents are intact; everything is returned. Also the first calls ever on an allocator.")
threads("T02", ["T02.cpp"], "All programs of two threads with up to three and three threads with one operation out of use, copy (construction and assignment), move, assign back, drop, copy from a shared constant handle, self-assign, swap, rebind, compare, over one and two instances, with and without a handle of the main thread, for atomic_shared, typed handles and a locked instance. Every thread writes to its own place in the instance without synchronisation, so that a destruction not ordered behind all uses is a race. Oracle: destroyed exactly once, exactly when no handle is left. Also each pair of operations as the first use in a process of its own.")
threads("T03", ["T03.cpp"], "All programs of one asking and one or two changing threads (two calls and one call each), and of two threads doing both, over 17 locked compositions: owns (live block, foreign memory), max_size, equality of handles, construct and destroy next to allocate and deallocate; comparison of two different locked allocators under all schedules with at most two preemptions. Oracle: answers, sequential results, contents, everything returned; no race. Also on allocators nobody has used before, and as the first use in a process.")
threads("T04", ["T04.cpp"], "All programs of two threads with up to three and three threads with one operation, between creation and destruction by the thread itself, over 20 allocator compositions and the containers, where no two threads share an object and nothing is locked. Oracle: no race at all (no common state that is not synchronised), each thread observes exactly what it observes alone, everything is returned. Also each pair of operations as the first use in a process of its own.")
