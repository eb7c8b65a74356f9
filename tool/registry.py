"""What each property says and what its check is made of. properties.jsonl and MANIFEST.json are
generated from this file by tool/gen.py."""

# Harness crates under /verif/kani. "cfg": extra --cfg flags, "kani_args": extra arguments.
CRATES = {
    "sync": {},
    "conc": {},
    "unsync": {},
    "leaks": {"kani_args": ["--cbmc-args", "--memory-leak-check"]},
    "without": {},
    "exit": {},
    "fill": {},
    "unsize": {"kani_args": ["--cbmc-args", "--memory-leak-check"]},
    "traits": {},
}

TRUSTED = [
    "Kani 0.68.0 (translation of MIR to GOTO, models of intrinsics, of the Rust allocator and of pointer provenance)",
    "CBMC 6.11.0 with CaDiCaL (bit-precise, machine arithmetic is not idealised)",
    "rustc nightly 2026-08-21 front end; core and alloc are verified as compiled by it, not assumed",
    "x86_64 target: 64 bit pointers and usize",
]

TECHNIQUE = "function contracts and lemmas over them, discharged by Kani/CBMC on the real code"

COMMON = [
    "Monomorphic: generic code is verified at the instances named in the harnesses (storage and value types of "
    "different sizes and alignments); values, layouts and levels are unbounded within them.",
    "Addresses: CBMC places local objects at multiples of 2^48 and so base addresses are highly aligned; the storage is "
    "put at other offsets from such an address by surrounding it with foreign memory, where the harness says so.",
    "Obligations whose name ends in _bounded run the code on larger, fixed sizes (tens of elements, some hundred bytes, 70 lost races) "
    "to catch thresholds; they are bounded checks and not counted as proofs for all sizes.",
    "Panics abort the path (no unwinding in Kani): behaviour during unwinding is outside the proofs (bounded native runs for P17, P18, P19, P23).",
]

PROPERTIES = {}


def prop(pid, title, statement, over, text, why, files, mech, crates, how, assumptions=(), contracts=(),
         state="", observe="", hook=False, level="proof", note=None, layer=()):
    PROPERTIES[pid] = dict(
        title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, crates=crates,
        how=how, assumptions=list(assumptions) + COMMON, contracts=list(contracts), state=state, observe=observe,
        hook=hook, level=level, note=note or how, layer=list(layer))


BUMP = ["static-alloc/src/bump.rs"]

prop("P01", "A successful allocation is the allocator's own memory, aligned and large enough",
     "Whatever was allocated before, every region that the static allocator hands out lies completely inside the memory "
     "the allocator owns, has the requested size and alignment, and shares no byte with the allocator's own bookkeeping. "
     "This holds for raw, layout, typed, zero-sized, global-allocator and local-allocator requests of any size and alignment "
     "and any placement of the allocator itself; an allocator without memory never hands out any.",
     ["inputs", "histories"],
     "for all layouts, all fill states of the allocator reached by any history, and all listed storage types",
     "Tests allocate a few handpicked layouts from fresh allocators; huge sizes, huge alignments, odd bases and "
     "near-full states make up the rest of the input space.",
     BUMP, [("bounds and alignment arithmetic", "static-alloc/src/bump.rs: try_alloc_at, data_ptr"),
            ("typed entry points", "static-alloc/src/bump.rs: get, get_at, get_layout, alloc"),
            ("trait entry points", "static-alloc/src/bump.rs: impl GlobalAlloc, impl LocalAlloc")],
     ["sync"],
     "Every allocating entry point has the postcondition 'inside, aligned, disjoint from bookkeeping'. It is proved from an "
     "arbitrary fill level for an arbitrary layout. The level is the whole state, so every history is covered. Storage types range from no "
     "bytes to 2^40 bytes.",
     state="fill level", observe="returned pointers")

prop("P02", "Allocations between two resets never overlap",
     "Any two non-empty regions handed out by one static allocator since it was created or last reset are disjoint. "
     "It makes no difference which entry points they came from or what was requested in between.",
     ["histories", "inputs"],
     "for all pairs of allocations of any layouts in any history of operations",
     "Tests compare neighbouring allocations in a fixed sequence only.",
     BUMP, [("monotone level", "static-alloc/src/bump.rs: bump, try_alloc, try_alloc_at")],
     ["sync"],
     "Arbitrary state, allocation A through one entry point, an arbitrary rise of the level, allocation B through another entry "
     "point; A and B disjoint. Together with P03 (each operation only raises the level) this is the induction step for all histories.",
     state="fill level", observe="returned pointers")

prop("P03", "An allocation succeeds exactly when it fits, and takes exactly what it needs",
     "A request succeeds exactly if it fits behind the memory in use once aligned, is then placed at that first aligned address, and uses "
     "up the memory to its end and no more; a request that fails changes nothing, and zero-sized typed requests use nothing. "
     "A new and a reset allocator are empty and offer all of their memory again, and any level reported with an allocation is the level after it.",
     ["inputs", "histories"],
     "for all layouts, all fill levels and the storage types listed",
     "Tests sample few sizes; off-by-one and overflow conditions show at particular combinations of level, size and alignment.",
     BUMP, [("space computation", "static-alloc/src/bump.rs: try_alloc, try_alloc_at"), ("reset", "static-alloc/src/bump.rs: reset"),
            ("constructors", "static-alloc/src/bump.rs: uninit, zeroed, new")],
     ["sync"],
     "Each entry point is proved equal to a specification function over (base, level, size, alignment) giving success, address "
     "and new level, for every input and level.",
     state="fill level", observe="success, address and level()")

prop("P04", "Precise-location requests succeed only at exactly the given level",
     "A request for a given level succeeds only if the allocator is at exactly that level, so that a chain of requests each "
     "following the level returned by the previous one yields memory adjacent up to alignment padding. Otherwise nothing changes, any value passed "
     "in is returned or dropped as documented, a differing level is reported with the level observed, and exhaustion is reported "
     "only if the request does not fit at that level.",
     ["inputs", "histories"],
     "for all fill levels, all requested levels, all layouts",
     "Tests exercise matching and one mismatching level with one type.",
     BUMP, [("level comparison", "static-alloc/src/bump.rs: try_alloc_at, bump"), ("values", "static-alloc/src/bump.rs: leak_at, leak_box_at")],
     ["sync"],
     "Contract of each precise entry point over two independent arbitrary levels, plus a lemma for adjacency along returned levels.",
     state="fill level", observe="result, level()")

prop("P05", "Concurrent allocations never share memory and failures are honest",
     "When any number of threads allocate from one shared static allocator, regions handed out never overlap, no operation touches memory "
     "claimed by another, and the amount of memory in use never decreases. An operation that fails claims nothing; a general request fails only if "
     "it does not fit any more, a precise-location request succeeds only by claiming from exactly its level on and reports a mismatch only if another level was observed.",
     ["schedules", "histories", "inputs"],
     "for all interleavings of all operations of any number of threads, at the granularity of atomic steps",
     "The suite has no concurrent test of the allocator that controls the schedule; races need another thread between the load and the exchange.",
     BUMP, [("claim by compare-exchange", "static-alloc/src/bump.rs: bump"), ("retry loop", "static-alloc/src/bump.rs: try_alloc")],
     ["conc"],
     "Rely-guarantee: every atomic step may be preceded by an environment that raises the level arbitrarily; each operation's own atomic "
     "steps are checked against the same relation (guarantee), and its postcondition ties the region to the interval it claimed itself.",
     ["The crate is compiled with its own `polyfill` feature, whose atomic type is replaced by an instrumented one with the same interface; "
      "the code of static-alloc is unchanged.",
      "Atomics are sequentially consistent; the argument uses the modification order of one location only. Publication of the content of "
      "memory between threads through the allocator is not a claim.",
      "The retry loop of general requests is unrolled completely for memories of 3 and 8 bytes (each retry is caused by a rise of the level); "
      "precise requests do not loop and are verified for 64 bytes."],
     state="fill level shared between threads", observe="regions, levels and failures of each operation")

prop("P06", "Reallocation keeps content and harms nothing else",
     "Resizing a region through the global or local allocator interface yields a region for the new layout that holds the common "
     "prefix of the old content and overlaps no other live region; a failed resize changes nothing and the old region stays valid. "
     "Releasing a region affects no other region.",
     ["inputs", "histories"],
     "for all old and new layouts, all contents, with another live region before or behind",
     "Tests resize a few vectors; alignment changes, shrinking and failing requests with neighbours are not covered.",
     BUMP + ["alloc-traits/src/local.rs", "alloc-traits/src/util.rs"], [("realloc and dealloc", "static-alloc/src/bump.rs: impl GlobalAlloc, impl LocalAlloc"),
            ("default realloc", "alloc-traits/src/util.rs: realloc")],
     ["sync"],
     "Postconditions over an arbitrary byte of arbitrary old regions, arbitrary new layouts and an arbitrary victim region, memory of 24 bytes.",
     ["Memory of 24 bytes: layouts that fit are bounded by it, others are unbounded."],
     state="fill level and content of memory", observe="returned pointer, bytes of all regions")

prop("P07", "Fresh memory has the promised content; allocating writes no other region",
     "Memory of an allocator created zeroed is zero, and of one created from a value holds that value's bytes in order, when "
     "first handed out; a zeroed request gives zeros whatever the memory held. "
     "No allocation changes any byte of a region handed out before.",
     ["inputs", "histories"],
     "for all layouts, all levels, all storage contents, any byte",
     "Tests look at individual values only.",
     BUMP, [("constructors", "static-alloc/src/bump.rs: zeroed, new"), ("zeroed requests", "static-alloc/src/bump.rs: impl LocalAlloc; GlobalAlloc default")],
     ["sync"],
     "Postcondition on an arbitrary byte of an arbitrary allocation of memory with arbitrary content.",
     state="content of memory", observe="bytes of regions")

prop("P08", "A value placed into an allocator is shown unchanged or given back",
     "A reference or box obtained by placing a value in a static allocator shows exactly that value at a suitably aligned place in the "
     "allocator's memory and can be written through. If the value cannot be placed it is handed back intact, or for boxes dropped exactly once, "
     "and no memory is used; a leaked value is never dropped, also not with the allocator.",
     ["inputs", "histories"],
     "for all values of types of different size and alignment and zero-sized, and all fill levels",
     "Tests place a few values in fresh allocators.",
     BUMP + ["static-alloc/src/leaked.rs"], [("placing", "static-alloc/src/bump.rs: leak, leak_at, leak_box, leak_box_at, Allocation::leak/boxed/uninit")],
     ["sync"],
     "Contracts of the placing functions at five types with arbitrary values and levels; drops are counted by a ghost counter.",
     state="fill level and content", observe="references, drop counts")

prop("P09", "A box in allocator memory drops its value exactly once",
     "A value owned by a box over borrowed allocator memory is dropped exactly once when the box goes away, and not at all by the box if it was leaked, taken, "
     "forgotten or turned into a raw pointer; boxes over uninitialized memory drop nothing, and a box over a slice drops every element once. "
     "Content and address survive conversion to raw pointers and back, and pinning.",
     ["inputs", "histories"],
     "for all values, all constructors combined with all ways to end a box, all slice lengths up to 3",
     "Tests count drops for two of the paths.",
     ["static-alloc/src/leaked.rs"], [("ownership", "static-alloc/src/leaked.rs: LeakBox, Drop"), ("uninitialized", "static-alloc/src/leaked.rs: write, assume_init")],
     ["sync"],
     "Contracts of constructors and consumers with a ghost drop counter.",
     ["Slices of up to 3 elements (length arbitrary within)."],
     state="drop count", observe="drops, values, addresses")

UNSYNC = ["static-alloc/src/unsync/bump.rs"]

prop("P10", "The single-threaded allocator hands out exact, disjoint, aligned regions",
     "Over its own storage of any type and alignment, borrowed bytes or heap memory, the single-threaded bump allocator hands out only regions "
     "inside that memory, aligned as requested, disjoint from each other and from its bookkeeping, and zeroed if it was created zeroed. A request succeeds exactly if it fits "
     "at the first aligned address, uses up the memory to its end and no more, and changes nothing if it fails; zero-sized values and empty arrays always succeed and use nothing. "
     "At least the whole declared storage is available, arrays have the requested length for any length, and a new or reset allocator is empty.",
     ["inputs", "histories", "configurations"],
     "for all layouts, levels, array lengths, heap capacities, borrowed buffers of any alignment and length, storage types of different size and alignment",
     "Tests use word arrays and a few values; zero-sized, over-aligned and odd-sized storage and values, overflowing array lengths and unaligned buffers are untested.",
     UNSYNC, [("allocation", "static-alloc/src/unsync/bump.rs: try_alloc_at, bump"), ("typed and array requests", "static-alloc/src/unsync/bump.rs: get, bump_box, bump_array"),
              ("view of own storage", "static-alloc/src/unsync/bump.rs: Deref, DerefMut, zeroed")],
     ["unsync"],
     "Each entry point is proved equal to a specification function over (base, capacity, level, layout) for all layouts and levels and each kind of backing; "
     "two allocations of any history are proved disjoint.",
     ["Heap capacities are below 2^46 (the address space). Borrowed buffers: any place and up to 40 bytes in the quick check; any length below 2^46 in the thorough one, and P12 for their extent."],
     state="level", observe="pointers, level, capacity")

prop("P11", "Single-threaded precise requests hit their level and can be reacquired",
     "In the single-threaded allocator a request for a given level succeeds only if the allocator is at exactly that level and then lies directly behind it up to alignment padding; otherwise nothing changes, "
     "a differing level is reported with the actual one, and exhaustion only if the request does not fit there. "
     "An allocation made at a known level can be reacquired by that level and type: it is the same memory with the same content, whatever was allocated since, and no other allocation is touched.",
     ["inputs", "histories"],
     "for all levels, requested levels, layouts and values at several types",
     "Tests reacquire one word from a fresh allocator where no padding occurs.",
     UNSYNC, [("level comparison", "static-alloc/src/unsync/bump.rs: alloc_at, get_at, try_alloc_at"), ("reacquiring", "static-alloc/src/unsync/bump.rs: get_unchecked")],
     ["unsync"],
     "Contracts over two independent arbitrary levels; reacquiring proved for any level, type and intervening allocation.",
     state="level", observe="results, addresses, content")

prop("P12", "Allocators over borrowed or heap memory keep inside it and survive a round trip",
     "Wrapping a byte buffer of any alignment and length as an allocator fails only if there is no room for the bookkeeping; otherwise the allocator starts empty, lies completely inside the buffer and uses it up to rounding. "
     "Taking the memory back from an allocator and wrapping it again unchanged restores the same place, capacity, fill level and content. "
     "A heap allocator has exactly the requested capacity, all of it usable, starts empty, and gives its memory back when dropped.",
     ["inputs", "histories"],
     "for all buffers (any alignment, length and previous content), all capacities, all fill states",
     "Tests use one aligned 128 byte buffer with constant content.",
     UNSYNC, [("wrapping", "static-alloc/src/unsync/bump.rs: from_mem, from_mem_unchecked, from_aligned_mem"), ("unwrapping", "static-alloc/src/unsync/bump.rs: into_mem"),
              ("heap", "static-alloc/src/unsync/bump.rs: MemBump::new")],
     ["unsync", "leaks"],
     "Contracts of the constructors and of the round trip over arbitrary subslices of an uninitialized buffer, arbitrary fill level and one arbitrary content byte.",
     ["Buffers and heap capacities below 2^46 (the address space); buffers beyond 40 bytes begin aligned or at odd offsets 3 and 5."],
     state="header and memory", observe="addresses, capacity, level, content")

prop("P13", "Stack scratch space is aligned, of the requested length, and used exactly once",
     "Requesting stack scratch space for any number of elements is refused up front only if that many have no layout. Running with it calls the closure exactly once with a writable slice of exactly that "
     "many elements, correctly aligned for any element type including zero-sized and over-aligned, and passes on its result, for all sizes up to the documented limit of one mebibyte.",
     ["inputs"],
     "for all lengths on creation; on running, every length at the start and around the first boundaries of the size classes, and the largest length of every class up to the limit, for elements of different size and alignment",
     "One test runs a single length; the size classes and alignment slack are not exercised.",
     ["static-alloc/src/leaked.rs"], [("refusal", "static-alloc/src/leaked.rs: Alloca::new"), ("size classes", "static-alloc/src/leaked.rs: Alloca::run, run_with")],
     ["unsync"],
     "Creation is proved for all lengths. Running is verified for concrete lengths (every length of the smaller classes, the largest of each class, where room is tightest).",
     ["Concrete lengths for running (bounded), as the size classes give objects too large for symbolic lengths."],
     state="stack slot", observe="slice passed to the closure, result")

prop("P14", "Chained allocators keep all values and release all memory once",
     "Values placed in a chain of allocators keep their place and content, aligned and disjoint, when further memory is chained; new values come from the memory chained last, which is what the capacity figures report. "
     "A request fails only without space for it there and then changes nothing; impossible sizes are refused. Dropping the chain releases all of its memory exactly once, including memory of a chained chain that is not kept.",
     ["histories", "inputs"],
     "for all values; chains of up to three memories of different sizes; a single memory of any size",
     "One test chains once and checks three values; release of memory is not observed.",
     ["static-alloc/src/unsync/chain.rs"], [("links", "static-alloc/src/unsync/chain.rs: Link::alloc, set_next, take_next"), ("chaining", "static-alloc/src/unsync/chain.rs: Chain::chain"),
                                           ("release", "static-alloc/src/unsync/chain.rs: Drop for Chain, Drop for Link")],
     ["unsync", "leaks"],
     "Histories of up to three chained memories with arbitrary values; release is decided by CBMC's leak and double-free obligations.",
     ["Chains of up to three memories of concrete sizes (bounded); a single memory has any size."],
     state="list of memories", observe="values, addresses, capacity, release")

UNINIT = ["without-alloc/src/uninit.rs"]

prop("P15", "Splitting uninitialized memory partitions it exactly",
     "Whenever uninitialized memory is split, by byte offset, layout, type, slice element or to fit, the two parts together are exactly the memory from before, without gap or overlap, and "
     "the part split off for a layout or type begins at the first suitably aligned address and has room for it. A split succeeds exactly if what is asked for is there; a failed split leaves all of the memory unchanged, "
     "and the length of a slice always matches its memory.",
     ["inputs", "histories"],
     "for all memory of any alignment and length, all offsets, layouts and indices, elements of different size and alignment and zero-sized",
     "Tests split a few aligned buffers; unaligned starts, offsets into padding, zero-sized elements and impossible layouts are untested.",
     UNINIT, [("byte split", "without-alloc/src/uninit.rs: split_at_byte"), ("layout split", "without-alloc/src/uninit.rs: split_layout, split_cast, split_slice, split_to_fit"),
              ("slice split", "without-alloc/src/uninit.rs: split_at, split_first, split_last, shrink_to_fit")],
     ["without"],
     "Each splitting function, of unique and shared memory, has the postcondition 'exact partition, first aligned place, or failure and nothing changed', proved for arbitrary memory and arguments.",
     ["Memory of less than 2^46 bytes (the address space)."],
     state="pointer and length", observe="place and extent of both parts")

prop("P16", "Typed views and casts show exactly the memory they were made of",
     "A cast of uninitialized memory succeeds exactly if the memory is aligned and large enough for the type and keeps place and extent; a failed cast gives the memory back. A slice view has as many elements as fit. "
     "Conversions from and to standard types, borrows, views and untyped memory show the same memory, and values written through one are what is read through any other. "
     "Empty and zero-sized memory is well aligned.",
     ["inputs"],
     "for all memory of any alignment and length, all values of types of different size and alignment and zero-sized",
     "Tests cast one or two aligned buffers.",
     UNINIT, [("casts", "without-alloc/src/uninit.rs: cast, cast_slice, fits"), ("conversions", "without-alloc/src/uninit.rs: from_maybe_uninit, into_maybe_uninit, as_memory, borrow"),
              ("access", "without-alloc/src/uninit.rs: init, read, as_ref, as_mut, into_ref, into_mut")],
     ["without"],
     "Contract of each conversion: success condition, place, extent and content, for arbitrary memory and values.",
     ["Memory of less than 2^46 bytes (the address space); writing and reading values in memory of up to 40 bytes."],
     state="pointer and length", observe="place, extent and content")

VEC = ["without-alloc/src/fixed_vec.rs"]

prop("P17", "The fixed capacity vector is a bounded sequence that drops each element once",
     "A vector over given memory starts empty, has room for exactly the elements that fit there (any number of zero-sized ones), never moves or grows out of its memory, and refuses a push exactly when full, returning the value. Push, pop, truncate and clear act as "
     "on a sequence: they change the end only, and no other element. Every element is dropped exactly once, when it leaves or with the vector, and comparing, hashing, indexing and viewing as slice agree with the sequence of its elements.",
     ["inputs", "histories"],
     "for all memories of any alignment and length, any fill state and content, element types of different size and alignment and zero-sized",
     "Tests push and pop in one aligned array; unaligned memory, exact capacity, zero-sized elements and drop counts of each path are sampled or missing.",
     VEC, [("capacity", "without-alloc/src/fixed_vec.rs: new, from_unaligned, capacity"), ("changes", "without-alloc/src/fixed_vec.rs: push, pop, truncate, clear, Drop"),
           ("views", "without-alloc/src/fixed_vec.rs: Deref, as_slice, comparisons")],
     ["without"],
     "Operations are proved from any fill state and content; drops are counted with a ghost counter per element.",
     ["Memory below 2^46 bytes (26 for elements of three bytes); drop counts with up to 4 elements (any number within); at most 12 elements without destructor truncated at once."],
     state="length and content", observe="elements, length, capacity, drop counts")

prop("P18", "Draining a range removes exactly that range",
     "Draining any range of a vector yields exactly the elements of that range, in order from the front and from the back, with an exact length at any time. Once the drain is gone the vector consists of the elements before and behind the range, in order, "
     "whether or not the drain was used up, and every element is dropped exactly once. If the drain is leaked, elements may be lost but none is dropped twice or seen again.",
     ["inputs", "histories"],
     "for all ranges of every kind of bounds, all lengths up to 4, all numbers of items taken from either end",
     "Tests drain a few fixed ranges completely.",
     VEC, [("range", "without-alloc/src/fixed_vec.rs: drain"), ("iteration", "without-alloc/src/fixed_vec.rs: Drain: Iterator, DoubleEndedIterator"), ("closing the gap", "without-alloc/src/fixed_vec.rs: Drain: Drop")],
     ["without"],
     "Contract over any range and any consumption of the drain, with ghost drop counters per element.",
     ["Vectors of up to 4 elements with drop counts (any number within); up to 48 bytes without, of which up to 3 drained."],
     state="length and content", observe="items, remaining elements, drop counts")

prop("P19", "Filling, extending and dividing a vector loses no element or capacity",
     "Filling or extending a vector appends the items of the source in order until the vector is full or the source ends; nothing before changes, and no item taken from the source is lost when filling: the rest comes back. "
     "Dividing a vector divides its elements and its capacity exactly at the index: the second part directly follows the first, both are independent, and a borrowed part returns its capacity when it ends. "
     "Shrinking to fit keeps the capacity and gives back exactly the remainder that is too small for another element. Every element is dropped exactly once.",
     ["inputs", "histories"],
     "for all fill states, indices, source lengths and memory lengths within the bounds",
     "Tests use one length each.",
     VEC, [("filling", "without-alloc/src/fixed_vec.rs: fill, Extend"), ("dividing", "without-alloc/src/fixed_vec.rs: split_borrowed, split_and_shrink_to, shrink_to_fit")],
     ["without"],
     "Contracts over arbitrary fill state and arguments with ghost drop counters.",
     ["Vectors of up to 4 elements, sources of up to 6 items (any number within); dividing of capacity for vectors of any size."],
     state="length, capacity and content", observe="elements, capacities, places, drop counts")

prop("P20", "A box over given memory owns its value: one drop, no byte of memory lost",
     "A box placed into given memory shows its value at the place of that memory and can be written through. The value is dropped exactly once with the box, and not by the box if it was taken out, leaked, or the box was turned into raw memory, "
     "which gives back all of the memory, also what the value did not need. Boxes of slices drop each element once. Comparison and hashing are those of the values.",
     ["inputs", "histories"],
     "for all values at types of different size and alignment, any memory that fits, all ways in combined with all ways out",
     "Tests look at one type and memory of exactly its size.",
     ["without-alloc/src/boxed.rs"], [("ownership", "without-alloc/src/boxed.rs: new, from_raw, into_raw, take, leak, Drop"), ("comparison", "without-alloc/src/boxed.rs: PartialEq, Ord, Hash")],
     ["without"],
     "Contracts of constructors and consumers with a ghost drop counter, for memory of any place and length.",
     ["Memory of any length below 2^46 from an aligned address, and of any place and length within 40 bytes."],
     state="pointer and length", observe="value, memory, drop counts")

prop("P21", "Shared ownership is counted exactly, and the last one gets value and memory",
     "Strong and weak counts reported for a shared value always are the number of owners and of users of its memory. The value is dropped exactly once, when the last owner goes, or handed out intact to a sole owner; it is accessible as long as it has an owner and not after, also not while it is being dropped. "
     "Exclusive access is given exactly to the only reference. All of the memory comes back exactly to the last user and not while anyone, including a value being dropped, still uses it; refused requests change nothing. "
     "The value and its bookkeeping stay inside the memory given, and comparison and hashing are those of the value.",
     ["inputs", "histories"],
     "for all counts of owners and users, values of types of different size and alignment, any memory that fits",
     "Tests run short fixed sequences with one or two references.",
     ["without-alloc/src/rc.rs"], [("owners", "without-alloc/src/rc.rs: Clone, Drop for Rc, try_unwrap, get_mut"), ("users", "without-alloc/src/rc.rs: downgrade, Weak: Clone, Drop, upgrade, try_unwrap"),
                                   ("memory", "without-alloc/src/rc.rs: new, from_raw, into_raw, layout")],
     ["without"],
     "Each operation is proved from arbitrary counts (set in the memory of a live object; the counts that overflow are left out), so that any history of the operations is covered.",
     ["Memory of up to 56 bytes at any place, or of any size from an aligned address.",
      "The words of memory that hold the counters are found by observing which change when an owner or user is added."],
     state="counters", observe="counts, access, drop counts, memory returned")

prop("P22", "Values placed through any allocator get memory of their own, or fail cleanly",
     "Placing a value, box, shared value, vector, slice, copied slice or text, or dynamically sized value through any allocator uses only memory granted for it by one request of sufficient size and alignment, also if the allocator grants more or refuses; zero-sized requests need none. "
     "It fails only if the allocator refuses or the request is impossible, and a value that could not be placed is dropped once. "
     "Copies hold exactly the elements copied, in order, and vectors have room for all elements asked for.",
     ["inputs", "environments"],
     "for all behaviours of the allocator (refusal, any suitable place, over-granting), all values and element counts at types of different size and alignment",
     "Tests use one well-behaved bump allocator.",
     ["without-alloc/src/alloc.rs"], [("typed requests", "without-alloc/src/alloc.rs: alloc_t, alloc_layout"), ("containers", "without-alloc/src/alloc.rs: boxed, rc, fixed_vec"),
                                       ("copies", "without-alloc/src/alloc.rs: copy_slice, copy_str, copy_dst")],
     ["without"],
     "The contract of LocalAlloc is the environment: a symbolic allocator that does anything it permits. Postconditions tie each result to what was granted.",
     ["Granted memory of up to 48 bytes at any place and of any size from an aligned address; requests may have any size. Copies of up to 4 elements."],
     state="grants of the allocator", observe="result, its place and content, requests made")

EXIT = ["exit-stack/src/lib.rs"]

prop("P23", "Pinned values are dropped exactly once, the last pinned first",
     "Every value pinned to an exit stack is dropped exactly once: when all are popped, when a new memory is set, or when the stack itself goes. Values are dropped in reverse order of pinning, "
     "also when slots were reserved in another order than they were used or never used, whatever sizes and alignments the values have. No value is dropped before.",
     ["histories", "inputs"],
     "for all sequences of up to three values of different size and alignment and zero-sized, slots used in any order or not at all, popped or dropped",
     "Tests pin one kind of value in order.",
     EXIT, [("linking", "exit-stack/src/lib.rs: slot, Slot::pin"), ("popping", "exit-stack/src/lib.rs: pop_all, set, Drop")],
     ["exit"],
     "Histories with symbolic content; the order of drops is recorded and compared.",
     ["Up to three values at a time; types are concrete per harness."],
     state="list of pinned values", observe="order and number of drops")

prop("P24", "Pinned values never move and share no memory",
     "A value pinned to an exit stack stays, unchanged, at one aligned place inside the stack's own memory until it is dropped there, and no two values share memory. "
     "There always is room for one value of the type of the memory, wherever the stack is placed, and after all values were dropped there is again.",
     ["inputs", "histories"],
     "for stacks at any placement, memory of different size and alignment, pairs of values of different size and alignment",
     "Tests pin a few words into an aligned stack.",
     EXIT + UNSYNC, [("placing", "exit-stack/src/lib.rs: slot, Slot::pin"), ("room", "exit-stack/src/lib.rs: set"), ("allocation", "static-alloc/src/unsync/bump.rs: bump_box, reset")],
     ["exit"],
     "Places are recorded when pinned and checked when dropped, for each memory type and any placement of the stack.",
     ["Types are concrete per harness."],
     state="list of pinned values", observe="address and content of each value")

FILL = ["fill/src/lib.rs", "fill/src/fill.rs"]

prop("P25", "Filling takes exactly what can be stored, and never grows",
     "Filling a collection takes items from the source only as long as there is room and stores every item taken. A full collection takes nothing and does not even ask; otherwise it is filled until it is full or the source ends, is never asked again after the source ended or a failure was stored, "
     "never grows, and the iterator handed back has all the remaining items.",
     ["inputs", "environments"],
     "for vectors, queues, options, results, slices and unit; all fill states and all lengths of the source within the bounds",
     "Tests fill from iterators that are longer than the capacity.",
     FILL, [("one item at a time", "fill/src/fill.rs: impl Fill for Vec, VecDeque, Option, Result, ()"), ("interface", "fill/src/fill.rs: trait Fill")],
     ["fill"],
     "The source is an arbitrary iterator instrumented to count requests; postconditions relate the count to what is stored.",
     ["Capacities of up to 3, sources of up to 4 items."],
     state="fill state", observe="requests to the source, items stored, tail")

prop("P26", "Filled items are in order and counts, tails and checks tell the truth",
     "Filling puts the items of the source behind the old content, in order, and leaves the old content as it was; into slices it writes from the front, leaves the rest unchanged and advances behind what was written; replaced items are dropped once. "
     "The reported number of items is the number stored, the tail continues right where filling stopped, and checked filling succeeds exactly if it was filled, reporting the first failure of a source of results.",
     ["inputs", "environments"],
     "for all contents, fill states and lengths of the source within the bounds",
     "Tests compare a single outcome for each type.",
     FILL, [("items", "fill/src/fill.rs: impl Fill for Vec, VecDeque, Option, Result, slices"), ("counts and checks", "fill/src/fill.rs: fill_count, fill_and_keep_tail, checked_fill")],
     ["fill"],
     "Postconditions on an arbitrary element of an arbitrary fill state and source.",
     ["Capacities of up to 3, sources of up to 4 items."],
     state="fill state", observe="elements, counts, tails")

prop("P27", "Unsizing keeps place, content, memory and owners of a pointer",
     "Converting a pointer to a value of known type into one to a slice or trait object keeps the place, extent and content of the value, and calls on it reach the implementation of its type. "
     "References, pinned and raw pointers, boxes, shared and weak pointers keep what they own: counts of owners do not change, the value is dropped once by its last owner and its memory is released. "
     "Boxes and uninitialized memory of this project keep all of their memory.",
     ["inputs"],
     "for all values at types of different size and alignment, each kind of pointer, each provided coercion",
     "Tests unsize most pointers once and look at the formatted value only.",
     ["unsize/src/lib.rs", "unsize/src/alloc_impls.rs", "unsize/src/coercion_impls.rs", "without-alloc/src/boxed.rs", "without-alloc/src/uninit.rs"],
     [("pointers", "unsize/src/lib.rs: impl CoerciblePtr"), ("shared", "unsize/src/alloc_impls.rs"), ("coercions", "unsize/src/lib.rs: Coercion, coerce_to_dyn_trait")],
     ["unsize", "without"],
     "Contracts of the conversions with arbitrary values; counts and drops are observed, release of memory by CBMC's leak check.",
     ["without-alloc depends on the published release of unsize, not on the one in the tree: its own impls are verified against that release.",
      "Conversion of a dangling alloc::sync::Weak is not covered (solver limit); alloc::rc::Weak is."],
     state="pointer and metadata", observe="address, content, counts, drops")

prop("P28", "Layouts convert faithfully; default zeroing and reallocation keep their promise",
     "A layout keeps size and alignment through every conversion, layouts compare equal exactly if both agree, and a nonzero layout exists exactly if the size is not zero. "
     "On top of any allocator, the provided zeroed allocation gives memory that is zero in all of what was granted, and the provided reallocation moves the common prefix into a new allocation and only then gives the old one back, once and as it was. "
     "If the allocator refuses, nothing changes and nothing is given back.",
     ["inputs", "environments"],
     "for all layouts, all contents, all behaviours of the allocator (refusal, any suitable place, over-granting)",
     "There are no tests of these defaults with an allocator that refuses or grants more than asked for.",
     ["alloc-traits/src/layout.rs", "alloc-traits/src/local.rs", "alloc-traits/src/util.rs"],
     [("layouts", "alloc-traits/src/layout.rs"), ("defaults", "alloc-traits/src/util.rs: alloc_zeroed, realloc"), ("interface", "alloc-traits/src/local.rs: LocalAlloc")],
     ["traits"],
     "Layouts are arbitrary. The contract of LocalAlloc is the environment: a symbolic allocator that does anything it permits; memory given back is scrambled.",
     ["Memory of 20 bytes behind the symbolic allocator; requests may have any size."],
     state="grants of the allocator", observe="results, bytes, requests made")


# The contract layer: contracts written on the functions themselves, behind cfg(verif_contracts).
_BUMP = ["static_alloc::Bump::" + f for f in ("bump", "try_alloc_at", "try_alloc")]
_MEM = ["static_alloc::unsync::MemBump::" + f for f in ("bump", "try_alloc_at", "try_alloc")]
_VIEW = ["without_alloc::uninit::%s::%s" % (t, f) for t in ("UninitView", "Uninit")
         for f in ("split_layout", "split_cast", "split_slice", "split_at_byte", "split_at", "split_first", "split_last", "split_to_fit", "shrink_to_fit")]
_CAST = ["without_alloc::uninit::%s::%s" % (t, f) for t in ("UninitView", "Uninit") for f in ("cast", "cast_slice", "fits", "from_memory", "capacity", "empty", "invent_for_zst", "from_maybe_uninit", "from_maybe_uninit_slice")] + [
    "without_alloc::Uninit::as_memory"]
_COUNTED = ["new", "into_raw", "try_unwrap", "downgrade", "weak_count", "strong_count", "get_mut", "ptr_eq", "is_unique",
            "inc_strong", "dec_strong", "inc_weak", "dec_weak", "clone (triple)", "drop (triple)"]
_USERS = ["upgrade", "try_unwrap", "strong_count", "weak_count", "inc_weak", "dec_weak", "is_unique_to_rc_memory",
          "clone (triple)", "drop (triple)"]
LAYER = {
    "P01": ("sync", ["p03_"], _BUMP + ["static_alloc::Bump::" + f for f in ("alloc", "get_layout", "get")]),
    "P02": ("sync", ["p03_"], _BUMP + ["static_alloc::Bump::" + f for f in ("alloc", "get_layout", "get")]),
    "P03": ("sync", ["p03_"], _BUMP + ["static_alloc::Bump::" + f for f in ("alloc", "get_layout", "get", "reset")]),
    "P04": ("sync", ["ip03_", "p04_"], _BUMP + ["static_alloc::Bump::" + f for f in ("alloc_at", "get_layout_at", "get_at")]),
    "P06": ("sync", ["p06_layout_re"], ["static_alloc::bump::layout_reallocated"]),
    "P10": ("unsync", ["p10_"], _MEM + ["static_alloc::unsync::MemBump::" + f for f in ("alloc", "get", "reset", "bump_box", "bump_array")]),
    "P11": ("unsync", ["ip10_", "p11_"], _MEM + ["static_alloc::unsync::MemBump::" + f for f in ("alloc_at", "get_at")]),
    "P12": ("unsync", ["p12_layout"], ["static_alloc::unsync::MemBump::layout_from_size"]),
    "P13": ("unsync", ["p13_new", "p13_padded"], ["static_alloc::leaked::Alloca::" + f for f in ("new", "padded_layout")]),
    "P14": ("unsync", ["p14_new", "p14_capacity", "p14_remaining", "p14_layout"],
            ["static_alloc::unsync::Chain::" + f for f in ("new", "capacity", "remaining_capacity")] + ["static_alloc::unsync::chain::Link::layout_from_size"]),
    "P15": ("without", ["p15_"], _VIEW),
    "P16": ("without", ["p16_"], _CAST),
    "P17": ("without", ["p17_"], ["without_alloc::FixedVec::truncate (loop invariant)"] + ["without_alloc::FixedVec::" + f for f in (
        "clear", "new", "from_unaligned", "push", "pop", "set_len", "len", "capacity", "is_empty", "shrink_to_fit")]),
    "P18": ("without", ["p18_split"], ["without_alloc::FixedVec::" + f for f in ("split_borrowed", "split_and_shrink_to")]),
    "P20": ("without", ["p20_new", "p20_take", "p20_into", "p20_from"], ["without_alloc::boxed::Box::" + f for f in ("new", "take", "into_raw", "from_raw")]),
    "P21": ("without", ["p21_"], ["without_alloc::Rc::" + f for f in _COUNTED] + ["without_alloc::rc::Weak::" + f for f in _USERS]),
    "P24": ("unsync", ["p24_from_raw", "p24_into_raw", "p24_assume"], ["static_alloc::leaked::LeakBox::" + f for f in ("from_raw", "into_raw", "assume_init")]),
    "P28": ("traits", ["p28_"], ["alloc_traits::Layout::{new,size,align}", "alloc_traits::NonZeroLayout::{new,from_layout,size,align}"]),
}
for _p, (_crate, _patterns, _functions) in LAYER.items():
    PROPERTIES[_p]["layer"] = [(_crate, _patterns)]
    PROPERTIES[_p]["contracts"] = _functions
    PROPERTIES[_p]["how"] += (
        " In addition the functions carry their contracts in the source (cfg verif_contracts), each verified against its own body "
        "with callees replaced by their contracts.")

HOOKS = {
    "guard": "cfg(verif_contracts)",
    "enable": "RUSTFLAGS='--cfg verif_contracts' cargo kani (in the harness crates with a contracts module; cargo never sets it)",
    "source_commits": ["0210699ccc787b8eb10fa21b9d2ed7154bdb0f36", "84be43ba0c3a2e771f87c6c583a1b62da6f52ec3"],
}
