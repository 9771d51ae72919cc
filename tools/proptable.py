P("C01", "Live blocks are disjoint and lie inside memory held from upstream",
  "At every point of every sequence of allocations, releases and moves on a memory resource of the core library (host, arena, pool, binary page, contiguous, the forwarding resources, and such resources stacked on one another), the blocks that were handed out and not yet released are pairwise disjoint. Each of them lies, with its full requested size, inside a single block that the resource holds from its upstream at that time.",
  ["histories", "configurations"],
  "All allocate/release/move histories, over all resource types and stackings, request sizes around their internal boundaries, and upstreams that place blocks adjacently upwards, downwards, with gaps, or reusing addresses.",
  "The tests run a handful of fixed allocation sequences on the malloc based host resource, which never hands out adjacent blocks; corruption shows only for particular orders of splitting, merging and reuse.",
  [M + "arena_memory_resource.cpp", M + "details/arena_memory_resource_impl.cpp", M + "details/pool_memory_resource_impl.cpp", M + "details/binary_page_memory_resource_impl.cpp", M + "details/contiguous_memory_resource_impl.cpp", M + "host_memory_resource.cpp"],
  [("free block splitting and coalescing", M + "details/arena_memory_resource_impl.cpp"),
   ("page tree states", M + "details/binary_page_memory_resource_impl.cpp"),
   ("free lists per block size", M + "details/pool_memory_resource_impl.cpp")])
P("C02", "Every returned address has the requested alignment",
  "Every allocation that succeeds on a memory resource of the core library returns an address that is a multiple of the requested alignment, for every power of two alignment and whatever was allocated and released before. This holds also when the upstream provides blocks that are aligned exactly as much as they were asked to be, and no more.",
  ["histories", "inputs", "configurations"],
  "All allocate/release histories over alignments 8 to 4096 and sizes around the internal boundaries of each resource, on an upstream that never over-aligns.",
  "The tests use malloc-backed upstreams and default alignments, for which any block is aligned well enough by accident.",
  [M + "details/arena_memory_resource_impl.cpp", M + "details/pool_memory_resource_impl.cpp", M + "details/binary_page_memory_resource_impl.cpp", M + "details/contiguous_memory_resource_impl.cpp", M + "host_memory_resource.cpp"],
  [("block selection by alignment", M + "details/"), ("aligned host allocation", M + "host_memory_resource.cpp")])
P("C03", "Memory taken from upstream is returned exactly once, as it was obtained",
  "Over the whole life of a memory resource, including being moved from, moved to and destroyed, every block that it releases to its upstream is one that it obtained from there, with the same size and alignment, and is released only once. When a resource that keeps memory (arena, pool, binary page, contiguous) is destroyed or replaced by move assignment, it holds no upstream memory any more, even if some of its own blocks were never released; when a forwarding resource has had all of its blocks released, it holds none either.",
  ["histories", "configurations"],
  "All allocate/release/move/destroy histories over all resource types, stackings and upstream placements within the bounds.",
  "The tests do not record upstream traffic; size or alignment mismatches and leaks are invisible with a malloc based upstream.",
  [M + "details/arena_memory_resource_impl.cpp", M + "details/pool_memory_resource_impl.cpp", M + "details/binary_page_memory_resource_impl.cpp", M + "details/contiguous_memory_resource_impl.cpp", M + "details/choice_memory_resource_impl.cpp", M + "details/coalescing_memory_resource_impl.cpp", M + "pool_memory_resource.cpp", M + "arena_memory_resource.cpp"],
  [("destructors and descriptor lists", M + "details/"), ("pimpl moves", M)])
P("C04", "Allocation failures are reported, contained and recoverable",
  "If an upstream allocation fails at any point, or a request is larger than anything the upstream can provide (including sizes close to the largest representable one), the allocation throws the standard out-of-memory exception and never returns a null or too small block; it does not fail otherwise. After any such failure the blocks handed out before stay valid and disjoint, the resource can still be used, and nothing is leaked or released twice.",
  ["fault_sequences", "histories"],
  "All histories in which any one (thorough: any two) upstream calls fail, and all histories mixed with requests of unsatisfiable size, over all resource types.",
  "The tests never make an upstream fail and never ask for sizes near the limits of the address space.",
  [M + "details/arena_memory_resource_impl.cpp", M + "details/pool_memory_resource_impl.cpp", M + "details/binary_page_memory_resource_impl.cpp", M + "details/coalescing_memory_resource_impl.cpp", M + "host_memory_resource.cpp"],
  [("upstream requests and the bookkeeping around them", M + "details/")])
P("C05", "Released memory is reused instead of growing for ever",
  "A caching memory resource (arena, pool, binary page, and stacks of them) serves requests from memory released to it earlier: if the same cycle of allocations and releases, ending with everything released, is repeated, it stops taking memory from upstream within 16 repetitions. While doing so it returns nothing to upstream either.",
  ["histories", "configurations"],
  "All allocate/release programs within the bounds, each repeated until no repetition takes memory from upstream.",
  "No test looks at how much memory a resource takes over several cycles; failures to coalesce or to find free blocks only show as growth.",
  [M + "details/arena_memory_resource_impl.cpp", M + "details/pool_memory_resource_impl.cpp", M + "details/binary_page_memory_resource_impl.cpp"],
  [("coalescing of free blocks", M + "details/arena_memory_resource_impl.cpp"),
   ("free lists and cached oversized blocks", M + "details/pool_memory_resource_impl.cpp"),
   ("page merging", M + "details/binary_page_memory_resource_impl.cpp")])
P("C06", "The contiguous resource packs blocks tightly inside one upstream block",
  "The contiguous memory resource takes a single block of its configured size from upstream when it is constructed, and gives it back when it is destroyed. Each allocation returns the lowest suitably aligned address after the end of the previous allocation if the request fits before the end of that block, and fails with the out-of-memory exception if it does not; releases and zero sized requests consume and recycle nothing.",
  ["histories", "inputs"],
  "All sequences of requests over sizes and alignments within the bounds, for several total sizes and upstream placements.",
  "The test allocates one sequence that always fits.",
  [M + "details/contiguous_memory_resource_impl.cpp", M + "contiguous_memory_resource.cpp"],
  [("bump pointer", M + "details/contiguous_memory_resource_impl.cpp")])
P("C07", "Pool options and the arena limit are enforced",
  "Constructing a pool memory resource fails with an invalid-argument exception exactly for inconsistent options (documented relations between the block sizes, alignment and chunk limits); otherwise every chunk it takes from upstream respects the configured minimum and maximum number of blocks and bytes (a chunk always holds at least one block, and the maximum counts where whole blocks cannot meet both), and a block is served from the cache of oversized blocks only if caching is on and the block is within the configured size and alignment cutoff factors. An arena never holds more upstream memory than its configured maximum, and a request that would not make it exceed that maximum succeeds.",
  ["configurations", "histories"],
  "All combinations of option values from a grid including zero, non powers of two and contradicting values, with all allocate/release histories within the bounds.",
  "The tests use the default options and one custom set, and never reach a limit.",
  [M + "details/pool_memory_resource_impl.cpp", I + "memory/pool_memory_resource.hpp", M + "details/arena_memory_resource_impl.cpp"],
  [("option validation, chunk sizing, cutoffs", M + "details/pool_memory_resource_impl.cpp"),
   ("superblock growth", M + "details/arena_memory_resource_impl.cpp")])
P("C08", "Forwarding resources pick the right upstream, and release to it",
  "The choice, conditional, coalescing and identity resources forward an allocation unchanged (same size and alignment, the resulting pointer returned as is) to the upstream that their rule designates: the decision function's choice (asked once per allocation), the only upstream when the predicate holds, or the first one in the given order that succeeds; otherwise, and always for a terminal resource, the out-of-memory exception is thrown. Every release is forwarded, unchanged and once, to exactly the upstream which provided that block, however the answers of the rule have changed since, even if another upstream reuses the same addresses, and also after the resource was moved. Zero sized requests and null pointers reach no upstream.",
  ["histories", "fault_sequences", "configurations"],
  "All allocate/release/move histories over three upstreams that share one address space, with all single (coalescing: multiple) upstream failures, over all the rules listed.",
  "The tests use one fixed rule, one upstream per block, and never fail, move or reuse an address.",
  [M + "details/choice_memory_resource_impl.cpp", M + "details/conditional_memory_resource_impl.cpp", M + "details/coalescing_memory_resource_impl.cpp", M + "identity_memory_resource.cpp", M + "terminal_memory_resource.cpp", M + "details/memory_resource_base.cpp"],
  [("pointer to upstream maps", M + "details/choice_memory_resource_impl.cpp"),
   ("ordered fallback", M + "details/coalescing_memory_resource_impl.cpp")])
P("C09", "The debug resource reports exactly the misuse that happens",
  "The debug memory resource forwards correct allocations and releases unchanged and never reports them. It reports, with a logic-error exception, every allocation whose block overlaps a live one and every release that does not match a live block in address, size and alignment (released before, never allocated, wrong size, wrong alignment, interior pointer); such a release never reaches the upstream and leaves the live blocks as they were.",
  ["histories", "inputs"],
  "All histories of correct and wrong uses within the bounds, over an upstream that can place blocks anywhere relative to each other.",
  "The tests try one double release and a few wrong arguments; overlap detection depends on the order of addresses of all live blocks.",
  [M + "details/debug_memory_resource_impl.cpp", M + "debug_memory_resource.cpp"],
  [("ordered map of live blocks", M + "details/debug_memory_resource_impl.cpp")])
P("C10", "Instrumentation and monitoring report exactly what happened",
  "An instrumenting memory resource records one event per forwarded allocation (null pointer if it failed, in which case the failure is passed on) and per release, in order, and calls every hook of the matching kind in the order of registration and with the values of that call: before the upstream allocation, after it (also when it failed), and before the upstream release. A memory monitor attached to it reports the total, outstanding, highest outstanding and average (rounded to nearest, zero without allocations) number of bytes over the successful allocations since it was attached. Moving the resource keeps its events and hooks; zero sized requests are not recorded.",
  ["histories", "fault_sequences"],
  "All sequences of allocations, failing allocations, releases, hook registrations, monitor attachments and moves within the bounds.",
  "The tests run a fixed sequence without failures or moves.",
  [M + "details/instrumenting_memory_resource_impl.cpp", "core/src/utils/memory_monitor.cpp", M + "instrumenting_memory_resource.cpp"],
  [("hooks and event log", M + "details/instrumenting_memory_resource_impl.cpp"),
   ("statistics", "core/src/utils/memory_monitor.cpp")])
P("C12", "Equal memory resources are interchangeable",
  "A memory resource equals itself. Whenever two resources of the core library, of whatever types and stacking, compare equal, memory allocated from either can be released through the other, reaching the upstream it came from and being available again. Host memory resources are all equal to one another, and so are terminal ones; identity and synchronized resources equal others of their own kind over the same upstream.",
  ["inputs", "configurations"],
  "All ordered pairs out of 90 resources of all core types and stackings over two distinguishable upstreams and two host resources.",
  "The tests compare a few pairs and never exchange memory between the resources that compare equal.",
  [M + "details/", M + "synchronized_memory_resource.cpp", M + "host_memory_resource.cpp", M + "terminal_memory_resource.cpp"],
  [("do_is_equal overrides", M)])
P("C13", "A device vector behaves like a standard vector within its capacity",
  "Every sequence of operations of the device vector that stays within the capacity of its view (appending with every variant, removing, resizing, assigning, clearing, element access and iteration in both directions) leaves the contents and size, and returns the values and references, that the same operations on a standard vector would. Each element is constructed and destroyed exactly when the vector's contents require it (the implicit operations leave that to the caller), and nothing outside of the view's elements and size is written. All objects over the same memory (copies, constant ones, views) show the same contents, and copying or assigning the vector object touches no element.",
  ["histories", "inputs"],
  "All operation histories within the bounds from every initial size of several capacities, for a trivial and a lifetime-tracking element type, checked after every step through every access path.",
  "The tests run a few fixed operations on integers; lifetime and aliasing errors (destroying twice, reading an element after it was moved) depend on the sizes and on the order of the operations.",
  [I + "containers/device_vector.hpp", I + "containers/impl/device_vector.ipp", I + "containers/data/vector_view.hpp", I + "containers/impl/vector_view.ipp", I + "containers/details/reverse_iterator.hpp"],
  [("element construction and size updates", I + "containers/impl/device_vector.ipp"),
   ("views and their conversions", I + "containers/data/vector_view.hpp")])
P("C16", "A static vector behaves like a standard vector stored inside the object",
  "For element types which may be relocated bitwise, every sequence of operations of the static vector that stays within its capacity (construction, copy, assignment, insertion and erasure at any position, also of the vector's own elements, resizing, appending, element access and iteration in both directions) gives the contents, sizes, returned iterators and references of a standard vector. Each element is constructed and destroyed exactly once and never overwritten without it, all storage is suitably aligned and lies inside the object, and nothing outside of it is written.",
  ["histories", "inputs", "configurations"],
  "All operation histories within the bounds, from every constructor and initial size, for several capacities, trivial, lifetime-tracking and over-aligned element types.",
  "The tests run a few fixed operations; lifetime, aliasing and alignment errors depend on position, sizes and element type.",
  [I + "containers/static_vector.hpp", I + "containers/impl/static_vector.ipp", I + "containers/details/static_vector_traits.hpp"],
  [("insertion and erasure by relocation", I + "containers/impl/static_vector.ipp"),
   ("in-object storage", I + "containers/details/static_vector_traits.hpp")])
P("C17", "Jagged device vectors and their iterators refer to exactly the right rows",
  "A jagged device vector shows, through every access path (indexing, checked access, front, back, iteration in both directions, constant or not), exactly the rows of its view, each with its own current contents, capacity and memory, and modifying a row changes that row only. Its iterators and the reverse iterators of all containers follow the arithmetic and equality of positions: any sequence of steps and jumps lands on the element at the resulting position, also through indexing and conversions to constant iterators, and nowhere else.",
  ["histories", "inputs"],
  "All shapes of up to 3 (thorough 4) rows of fixed or resizable kind with up to 2 elements and all short modification sequences; all sequences of 4 (thorough 5) iterator operations over 0 to 3 elements for each kind of iterator.",
  "The tests walk one fixed jagged vector and rarely jump, step backwards or use empty ranges.",
  [I + "containers/jagged_device_vector.hpp", I + "containers/impl/jagged_device_vector.ipp", I + "containers/details/jagged_device_vector_iterator.hpp", I + "containers/impl/jagged_device_vector_iterator.ipp", I + "containers/details/reverse_iterator.hpp", I + "containers/impl/reverse_iterator.ipp"],
  [("iterator arithmetic", I + "containers/impl/jagged_device_vector_iterator.ipp"),
   ("reverse iterators", I + "containers/impl/reverse_iterator.ipp")])
P("C18", "Arrays have their fixed size, own their memory and check their bounds",
  "The host array of a fixed or run-time size takes memory for all of its elements from its resource, constructs each element once, destroys it once, and gives the memory back; it, the static array and the device array show exactly their elements through every access path (fill, assignment through any path and, for static arrays, copies and comparisons included). Checked access throws the out-of-range exception for every index not below the size, except for device arrays, and the host array does so for front and back when empty. The device array refers to the leading elements of its view and touches nothing else.",
  ["inputs", "histories"],
  "All sizes 0 to 4 (where the type supports it) of every array type, with all short sequences of modifications; comparisons over all pairs of contents over two values.",
  "The tests use one size per type and integers.",
  [I + "containers/array.hpp", I + "containers/impl/array.ipp", I + "containers/static_array.hpp", I + "containers/impl/static_array.ipp", I + "containers/device_array.hpp", I + "containers/impl/device_array.ipp"],
  [("allocation and element lifetimes", I + "containers/impl/array.ipp"),
   ("element access", I + "containers/impl/static_array.ipp")])
P("C19", "Buffers lay out their memory aligned, disjoint and without leaks",
  "Every vector, jagged vector and SoA buffer, of fixed or resizable kind, gives each of its non-empty rows and variables memory for its full capacity, aligned for the element type (over-aligned types included) and inside of memory taken from the main resource; rows, variables, size counters and row descriptions never overlap. The descriptions of jagged rows that the host uses are in the separate host accessible resource if one is given, and creating a buffer over device memory never touches that memory. Moving a buffer keeps all addresses and contents, all memory is returned exactly once with the arguments it was taken with, and a failing allocation is passed on with nothing leaked.",
  ["inputs", "configurations", "fault_sequences"],
  "Twelve buffer types, all capacities and row shapes of a set, host, device and split memory, every failing allocation, followed by all short sequences of creations, moves and destructions.",
  "The tests use a few shapes of small types over host memory with generous alignment; placement depends on the alignment and order of all variables.",
  [I + "containers/impl/vector_buffer.ipp", I + "containers/impl/jagged_vector_buffer.ipp", I + "edm/impl/buffer.ipp", I + "edm/details/buffer_traits.hpp", I + "containers/impl/aligned_multiple_placement.ipp"],
  [("placement of several arrays in one block", I + "containers/impl/aligned_multiple_placement.ipp"),
   ("row descriptions", I + "edm/details/buffer_traits.hpp")])
P("C20", "Copies of vectors transfer exactly the source's elements",
  "Copying a vector between any two of host vectors, fixed and resizable host buffers and fixed and resizable device buffers gives the target the source's elements in order and, if it is resizable, its size, changes no other element of the target and nothing of the source; if the elements do not fit, the copy is refused with a length error and nothing changes. Setting up a resizable buffer makes it empty, setting its bytes sets all elements of the capacity and leaves the size alone, the size query returns the current size, and copying to a new buffer or to a standard vector of any size gives one of exactly the source's size. Device memory is only accessed through the copy object's low level operations, with the true direction or none, and these stay within source and target.",
  ["inputs", "histories"],
  "All pairs of kinds and sizes (including zero and too large) of four element types, and all sequences of 2 (thorough 3) operations on them.",
  "The tests copy a handful of fixed vectors in memory the host can access anyway, where a forbidden access or a wrong direction goes unnoticed.",
  [I + "utils/copy.hpp", I + "utils/impl/copy.ipp", "core/src/utils/copy.cpp"],
  [("vector copies", I + "utils/impl/copy.ipp")])
P("C21", "Copies of jagged vectors transfer every row",
  "Copying between any two of host jagged vectors, fixed and resizable host buffers and fixed and resizable device buffers with the same number of rows gives each row of the target the source row's elements in order and, if it is resizable, its size, leaving the source unchanged; copies with different positive numbers of rows, or with a row that does not fit, are refused with a length error and change nothing. Setting up a buffer makes resizable rows empty and the row descriptions usable on the device, setting its bytes sets the full capacity of every row, size queries and requests read and write exactly the rows' sizes (refusing a wrong count and sizes above a capacity), and copying to a new buffer or to nested host vectors reproduces the rows. Device memory is only accessed through the copy object's low level operations, with the true direction or none, and these stay within source and target.",
  ["inputs", "histories"],
  "All pairs of kinds and of 10 row shapes (thorough: all shapes of up to 3 rows of up to 2 elements) of three element types, with sizes below capacities, and all sequences of 2 operations.",
  "The tests copy a few fixed shapes; contiguous and row by row copies, empty rows and sizes below the capacity take different paths.",
  [I + "utils/impl/copy.ipp", "core/src/utils/copy.cpp", I + "containers/impl/jagged_vector_buffer.ipp"],
  [("jagged copies, contiguous and by rows", I + "utils/impl/copy.ipp"),
   ("sizes of rows", I + "utils/impl/copy.ipp")])
P("C22", "Copies of SoA containers transfer every variable",
  "Copying between any two of SoA host containers, fixed and resizable host buffers and fixed and resizable device buffers of the same schema gives every scalar, vector and jagged vector variable of the target the source's elements and, where it is resizable, the source's sizes, whatever the two layouts are, and leaves the source unchanged; a copy that does not fit is refused with a length error. Setting up a buffer makes resizable variables empty and the descriptions of rows usable on the device, setting its bytes sets all elements of all variables, the size query returns the current size, and copying into a host container of any size gives it the source's sizes and elements. Device memory is only accessed through the copy object's low level operations, with the true direction or none, and these stay within source and target.",
  ["inputs", "histories"],
  "Six schemas mixing scalars, vectors and jagged vectors of different alignments, all pairs of kinds and shapes, with sizes below the capacities, and all sequences of 2 operations (quick: the second is a copy).",
  "The tests use one schema and one pair of sizes; whether the single block shortcut may be used depends on the layouts of both sides.",
  [I + "utils/impl/copy.ipp", I + "edm/impl/buffer.ipp", I + "edm/impl/view.ipp"],
  [("block and variable wise copies", I + "utils/impl/copy.ipp"),
   ("buffer layouts", I + "edm/impl/buffer.ipp")])
P("C23", "Asynchronous copies are complete after their event, and not broken before",
  "When the low level operations of a copy object run late, those of one call also in another order, every copy, set-up, byte setting and size request of vectors, jagged vectors and SoA containers still has its full effect once the returned event has been waited for, in the order of the calls if earlier events were not waited for. Until then no operation reads or writes memory that no longer exists or host memory that the library itself has changed since. Queries and functions returning a new buffer do not return before their own operations are complete, and every internally created event is waited for or given up explicitly.",
  ["schedules", "histories"],
  "All pairs of kinds and shapes and all sequences of 2 operations with each event either waited for or ignored, with all operations delayed as long as possible, and those of each call run in their own or the opposite order (thorough: also every choice of how far the queue has run after each call).",
  "All copies in the tests are synchronous, so a temporary that dies too early or a missing wait has no effect there.",
  [I + "utils/impl/copy.ipp", "core/src/utils/copy.cpp", I + "utils/abstract_event.hpp"],
  [("life time of temporaries", I + "utils/impl/copy.ipp"),
   ("events", I + "utils/abstract_event.hpp")])
P("C11", "Threads can share a memory resource through a synchronized one",
  "When several threads use one synchronized memory resource, calls into the upstream resource never overlap and each happens after the one before it, so that an upstream that is not thread safe behaves as if it were used by one thread. Every thread receives its own memory from the upstream, with the size and alignment it asked for, and releases reach the upstream with the same arguments; an allocation that fails in the upstream fails in the thread that asked for it and in no other. No sequence of calls, failing ones included, blocks a thread forever.",
  ["schedules", "fault_sequences"],
  "Two or three threads with up to 3 (thorough 4) allocations and releases each over an instrumented upstream, with and without a failure, and over seven kinds of real resource, in all schedules.",
  "The tests use the resource from one thread; a missing lock shows only in particular interleavings.",
  ["core/src/memory/synchronized_memory_resource.cpp", I + "memory/synchronized_memory_resource.hpp"],
  [("locking", "core/src/memory/synchronized_memory_resource.cpp")])
P("C14", "Threads can append to a resizable device vector at the same time",
  "When several threads append to one resizable device vector, or to rows of a jagged one, through one object or an object each, single elements or several at once, each append gets its own range of consecutive elements inside of the previously unused capacity, the element or elements are constructed there with the right value, and the index or reference returned is theirs; afterwards the size has grown by exactly the number of appended elements. Reading the size during this is safe and gives no less than what the thread has seen or appended before. Threads which remove the last elements at the same time destroy each removed element exactly once and leave the right size.",
  ["schedules"],
  "Two threads with 2 (thorough 3) and three with 1 (thorough 2) operations out of seven kinds each, with trivial and other elements; concurrent removals; appends to two rows of a jagged vector; all schedules.",
  "The tests run on one thread in the core library; lost updates need a particular interleaving.",
  [I + "containers/impl/device_vector.ipp", I + "containers/device_vector.hpp", I + "containers/impl/jagged_device_vector.ipp", I + "memory/device_atomic_ref.hpp"],
  [("claiming elements", I + "containers/impl/device_vector.ipp"),
   ("atomic operations on the size", I + "memory/device_atomic_ref.hpp")])
P("C15", "Threads can append to a resizable SoA container at the same time",
  "When several threads append default elements to one resizable SoA device container, each append returns an index which no other append returns, inside of the previously unused capacity, with the element of every vector variable default constructed and free for that thread to fill in; other elements and scalar variables do not change. Afterwards the container and all of its variables have grown by exactly the number of appends. Reading the size during this is safe and gives no less than what the thread has seen or appended before.",
  ["schedules"],
  "Two threads with 3 (thorough 7) and three with 1 (thorough 4) appends each, with and without reads of the size, through one object or one each; all schedules.",
  "The tests append from one thread in the core library; lost updates need a particular interleaving.",
  [I + "edm/impl/device.ipp", I + "edm/device.hpp", I + "edm/details/device_traits.hpp"],
  [("appending", I + "edm/impl/device.ipp"),
   ("construction of the variables", I + "edm/details/device_traits.hpp")])
P("C26", "Atomic references make updates of one variable indivisible and ordered",
  "Loads, stores, assignments, exchanges, compare-and-exchange, additions, subtractions and bit operations through atomic references to one variable, from any number of threads and with any memory order that the operation allows, give the results and the final value of some order of the operations; a failing compare-and-exchange reports the current value and changes nothing. An operation with release order (or the default) makes everything before it visible to a thread whose operation with acquire order (or the default) sees its value.",
  ["schedules", "configurations"],
  "Two threads with 2 and three with 1 (thorough 2) operations of all kinds on four integer types, in all schedules, against all orders of the operations; both implementations of the references on the host.",
  "The tests use the references from one thread.",
  [I + "memory/device_atomic_ref.hpp", I + "memory/details/posix_device_atomic_ref.hpp", I + "memory/impl/posix_device_atomic_ref.ipp"],
  [("POSIX atomics", I + "memory/impl/posix_device_atomic_ref.ipp")])
P("C24", "Owning pointers hold and release exactly one allocation",
  "An owning pointer made by the library for an object, an array or plain memory (also filled by a copy helper, which is called once with the source, the new memory and the size in bytes) holds memory for all of its elements, aligned for their type (over-aligned ones included), from the resource it was made with; objects are constructed once, with the given arguments. However it is moved, swapped, reset or released afterwards, each object is destroyed once and the memory returned once, to the resource it came from and with the arguments it was taken with. If the allocation, a construction or the copy helper throws, or the size cannot be represented, the exception (out-of-memory for sizes) is passed on with every object already constructed destroyed and no memory kept.",
  ["histories", "fault_sequences"],
  "14 combinations of pointers and makers, arrays of up to 2 (thorough 5) elements, two resources, all sequences of 3 (thorough 4) operations, and a failure at every point.",
  "The tests make a few pointers of simple types which never fail; leaks, wrong alignment and wrong release arguments go unnoticed by the host resource.",
  [I + "memory/unique_ptr.hpp", I + "memory/details/unique_obj_deleter.hpp", I + "memory/details/unique_alloc_deleter.hpp"],
  [("making pointers", I + "memory/unique_ptr.hpp"),
   ("releasing objects", I + "memory/details/unique_obj_deleter.hpp"),
   ("releasing memory", I + "memory/details/unique_alloc_deleter.hpp")])
P("C25", "The allocator passes on exact requests and pairs objects with their memory",
  "The allocator takes memory for bytes or objects from its resource with exactly the size and alignment which the arguments or the type imply, and gives it back with the same ones, also through a copy of the allocator; no memory is taken for zero bytes and nothing is given back for a null pointer. A new object is constructed once, with the given arguments, in memory of its own, and deleting it destroys it once and gives the memory back. If the allocation or the construction fails the exception is passed on and no memory is kept, and a number of objects whose size cannot be represented is refused with the out-of-memory exception.",
  ["histories", "fault_sequences"],
  "Four element types, three allocators over two resources, all sequences of 3 (thorough 4) operations, and a failure at every point.",
  "The tests allocate a few objects which never fail, from a resource which ignores sizes and alignments of releases.",
  [I + "memory/allocator.hpp", I + "memory/impl/allocator.ipp", "core/src/memory/allocator.cpp"],
  [("objects", I + "memory/impl/allocator.ipp"), ("bytes", "core/src/memory/allocator.cpp")])
P("C27", "SoA containers show the same elements through every access path",
  "After any sequence of operations on an SoA host container (resizing, reserving, changing single variables, writing elements, copy assignments and moves) each element has the same value and address through its variable, the proxies of its index, data objects and views of the container, constant ones and copies included, and device containers over these, and a write through any of them is seen through all. Resizing gives all vector and jagged vector variables that size, keeping the leading elements, and leaves the scalars alone; the size is reported, or a length error thrown if the variables disagree, and checked access throws the out-of-range exception for every index not below it. Descriptions take memory from the given resource only (or else the container's own), keep it valid when moved, return it when destroyed, and keep nothing when an allocation fails.",
  ["histories", "inputs"],
  "Six schemas in which scalar, vector and jagged vector variables come in different numbers and orders, all sequences of 3 (thorough 4) operations, and every access path after each of them.",
  "The tests use one schema and a few fixed sizes, and read most of the elements through one path.",
  [I + "edm/host.hpp", I + "edm/data.hpp", I + "edm/view.hpp", I + "edm/device.hpp", I + "edm/proxy.hpp", I + "utils/tuple.hpp"],
  [("host containers and their descriptions", I + "edm/impl/host.ipp"),
   ("sizes of the variables", I + "edm/details/host_traits.hpp"),
   ("proxies", I + "edm/details/proxy_traits.hpp")])
P("C28", "Views describe exactly the data they were made from",
  "Getting the data of a vector, array, nested vector (of any allocator) or buffer, constant or not, gives a view with exactly its addresses, sizes and capacities, of each row for nested ones. Copies, assignments and conversions of views to constant ones describe the same, elements written through a view are seen in its source, a view of something resizable follows its size, and two views compare equal exactly when addresses, capacity and place of the size (for jagged ones: number and addresses of the row descriptions) are equal. The row descriptions of nested vectors take memory from the given resource, or else from the vector's own, keep it and their rows when moved, and return it once when destroyed or assigned over; if taking it fails the exception is passed on and nothing is kept.",
  ["histories", "inputs"],
  "Six kinds of sources and six shapes of nested vectors with both kinds of allocators, all sequences of 3 (thorough 4) operations on two views and two descriptions of each kind.",
  "The tests make single views of fixed containers and do not look at where the memory of row descriptions comes from.",
  [I + "containers/data/vector_view.hpp", I + "containers/data/jagged_vector_view.hpp", I + "containers/data/jagged_vector_data.hpp", I + "containers/vector.hpp", I + "containers/jagged_vector.hpp"],
  [("vector views", I + "containers/impl/vector_view.ipp"),
   ("jagged vector views", I + "containers/impl/jagged_vector_view.ipp"),
   ("row descriptions", I + "containers/impl/jagged_vector.ipp")])
P("C29", "CUDA, HIP and SYCL resources use the right kind of memory and device",
  "Resources for CUDA, HIP and SYCL take every block from the runtime as the kind of memory they stand for, at least as large as asked (SYCL: aligned as asked), on the device or queue they were made with, or the device that was current then if none was given, and give it back once, there and with the matching call. The current device is the same after every use, also when a call of the runtime fails; the failure is passed on as an exception (out-of-memory for SYCL) and no memory is kept. Requests for nothing take nothing, null pointers are ignored, resources of one kind for one device or queue compare equal, and resources which compare equal can release each other's memory.",
  ["histories", "fault_sequences"],
  "All kinds of resources of the three back ends on three devices, all sequences of 4 (thorough 5) operations, every call of the runtime failing.",
  "The tests need a real device, and so do not run here; failures and several devices are not covered by them.",
  ["cuda/src/memory/device_memory_resource.cpp", "cuda/src/memory/host_memory_resource.cpp", "cuda/src/memory/managed_memory_resource.cpp", "hip/src/memory/device_memory_resource.cpp", "sycl/src/memory/memory_resource_base.sycl"],
  [("CUDA device memory", "cuda/src/memory/device_memory_resource.cpp"),
   ("changing the device (CUDA)", "cuda/src/utils/select_device.cpp"),
   ("HIP device memory", "hip/src/memory/device_memory_resource.cpp"),
   ("changing the device (HIP)", "hip/src/utils/select_device.cpp"),
   ("SYCL memory", "sycl/src/memory/memory_resource_base.sycl")])
P("C30", "CUDA, HIP and SYCL copies do what was asked, in their stream or queue",
  "Copy objects for CUDA, HIP and SYCL copy and fill exactly the memory asked for, of any kind, with or without a declared direction. A synchronous one is done when its call returns; an asynchronous one works in the stream or queue it was made with, which it keeps usable, and once its event was waited for, or destroyed without having been ignored, every operation of its call has been run. Every event and stream made by the library is destroyed exactly once and not used afterwards, and a failing call of the runtime is passed on as an exception with none of them lost.",
  ["histories", "fault_sequences"],
  "Five copy classes, two objects each, all sequences of 2 or 3 (thorough 3 or 4) copies, fills, waits and early runs of pending operations, every call of the runtime failing.",
  "The tests need a real device, and so do not run here; on one, operations have mostly been run before anybody looks.",
  ["cuda/src/utils/cuda/copy.cpp", "cuda/src/utils/cuda/async_copy.cpp", "hip/src/utils/hip/copy.cpp", "sycl/src/utils/sycl/copy.sycl", "sycl/src/utils/sycl/async_copy.sycl"],
  [("CUDA copies", "cuda/src/utils/cuda/copy.cpp"),
   ("asynchronous CUDA copies", "cuda/src/utils/cuda/async_copy.cpp"),
   ("HIP copies", "hip/src/utils/hip/copy.cpp"),
   ("SYCL copies", "sycl/src/utils/sycl/copy.sycl"),
   ("asynchronous SYCL copies", "sycl/src/utils/sycl/async_copy.sycl")])
P("C31", "Stream and queue wrappers refer to the right stream and keep it alive",
  "A CUDA stream or SYCL queue wrapper made from nothing creates a stream or queue, on the device asked for (CUDA) and with the current device left as it was, or throws and keeps nothing if that fails; one made from an existing stream or queue refers to it and never destroys it. After copies, moves and assignments in any order, also to itself, a wrapper refers to the same stream or queue as its source did, and a created stream is destroyed exactly once, when the last wrapper sharing it is gone or refers to another. Synchronizing returns when everything in the stream has been run, or throws.",
  ["histories", "fault_sequences"],
  "Three wrappers, two foreign streams or queues, three devices, all sequences of 4 (thorough 5; SYCL one more) operations, every call of the runtime failing.",
  "The tests need a real device, and so do not run here; they make single wrappers.",
  ["cuda/src/utils/stream_wrapper.cpp", "cuda/src/utils/opaque_stream.cpp", "sycl/src/utils/sycl/queue_wrapper.sycl"],
  [("CUDA streams", "cuda/src/utils/stream_wrapper.cpp"),
   ("SYCL queues", "sycl/src/utils/sycl/queue_wrapper.sycl")])
P("C32", "Atomic operations in device code are indivisible with every backend",
  "In code for CUDA, HIP and SYCL devices, loads, stores, exchanges, compare-and-exchange, additions, subtractions and bit operations on one integer through the library's atomic objects and references, from any number of threads, give the results and the final value of some order of the operations; a failing compare-and-exchange reports the current value and changes nothing. Elements appended to or removed from device vectors, rows and SoA containers by several device threads are each given out exactly once. Where no atomic operations are available, the same results are given to a single thread.",
  ["schedules", "configurations"],
  "Four kinds of device code built with stand-ins for the functions of the devices, 3 integer types, 3 kinds of atomic objects, 2-3 threads with 1-2 operations each in all schedules; appends as for the host; one thread with 2 (thorough 3) operations, also without atomics.",
  "The tests of device code need devices; the others use the references of the host from one thread.",
  [I + "memory/device_atomic_ref.hpp", I + "memory/atomic.hpp", I + "memory/details/cuda_device_atomic_ref.hpp", I + "memory/details/sycl_custom_device_atomic_ref.hpp", I + "memory/impl/dummy_device_atomic_ref.ipp"],
  [("CUDA and HIP references", I + "memory/impl/cuda_device_atomic_ref.ipp"),
   ("SYCL references", I + "memory/impl/sycl_custom_device_atomic_ref.ipp"),
   ("atomic objects", I + "memory/impl/atomic.ipp"),
   ("without atomics", I + "memory/impl/dummy_device_atomic_ref.ipp"),
   ("built-in SYCL references", I + "memory/details/sycl_builtin_device_atomic_ref.hpp")])
P("C33", "Threads with objects of their own do not disturb each other",
  "Threads which use different objects, or only read the same ones, work as if each was alone, without data races: every memory resource, container, buffer, view, owning pointer and copy gives the same results and makes the same requests to its upstream as without the other threads. Threads may allocate from one host memory resource, copy through one copy object, and read containers, buffers, statistics and the same source of copies at the same time.",
  ["schedules"],
  "2 (thorough 3) threads, 13 kinds of resources with 3 programs, 12 kinds of programs with containers, pointers and copies; all schedules with at most 3 preemptions (1 for resources of different kinds; thorough 5 and 3), all plain accesses checked for races.",
  "The tests use one thread, with which state shared by accident between objects is not visible.",
  [M + "details/pool_memory_resource_impl.cpp", M + "details/arena_memory_resource_impl.cpp", M + "details/binary_page_memory_resource_impl.cpp", I + "utils/impl/copy.ipp", I + "edm/impl/host.ipp"],
  [("shared host resource", M + "host_memory_resource.cpp"),
   ("copies of vectors and jagged vectors", I + "utils/impl/copy.ipp"),
   ("instrumentation", M + "details/instrumenting_memory_resource_impl.cpp"),
   ("jagged buffers", I + "containers/impl/jagged_vector_buffer.ipp")])
P("C34", "Tuples hold their own elements, in order, behind every access",
  "A tuple made from values, from variables, from a first element and a tuple of the others, by make_tuple, or by copying, moving or converting another tuple holds exactly the corresponding values in order; constant and non-constant access by index reach the same element, and writing one changes no other. Making a tuple from variables or copying a tuple leaves the originals unchanged; a tuple made by tie refers to the given variables instead, as do its copies. Elements are created and destroyed exactly once.",
  ["histories", "configurations"],
  "Two tuples of each of 5 lists of element types, all sequences of 4 (thorough 5) operations of 11 kinds.",
  "The tests check four constructions of tuples of numbers.",
  [I + "utils/tuple.hpp", I + "utils/impl/tuple.ipp"],
  [("constructors", I + "utils/tuple.hpp"), ("access, tie and make_tuple", I + "utils/impl/tuple.ipp")])
P("C35", "Assertions and debug messages do not get in the way of valid use",
  "Built with assertions and with any level of debug messages, the library does the same for every valid use as in other builds: no assertion stops it, no message reads what is not there, and results, requests to upstream resources, exceptions and lifetimes of elements are the same. This holds for memory resources with any options they accept, containers, buffers, copies, owning pointers, allocators, views and the code for CUDA, HIP and SYCL.",
  ["inputs", "histories", "configurations"],
  "The explorations of the properties without threads, at one step less, on builds with assertions and the highest message level.",
  "The tests are built one way, usually with assertions, and use few options; what only fails with all messages, or what is lost with an assertion, is not seen.",
  [M + "details/pool_memory_resource_impl.cpp", M + "details/arena_memory_resource_impl.cpp", M + "details/binary_page_memory_resource_impl.cpp", I + "utils/debug.hpp", I + "utils/impl/copy.ipp"],
  [("pool resource", M + "details/pool_memory_resource_impl.cpp"),
   ("device vectors", I + "containers/impl/device_vector.ipp"),
   ("static vectors", I + "containers/impl/static_vector.ipp"),
   ("copies", I + "utils/impl/copy.ipp")])
NOT_APPLICABLE = {}
