#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording stays in one place)."""
import json, os
L, E = "src/lib.rs", "emplacable/src/lib.rs"
U, A, S = "src/inner/unaligned.rs", "src/inner/aligned.rs", "src/inner/sized.rs"
H = ["src/helper.rs", "src/helper/valid_size.rs", "src/helper/valid_align.rs", "src/marker.rs"]
P = []
def p(id, title, statement, over, q, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

st = [("elems_info", "per-element pointer metadata and end offset", U + ", " + A),
      ("byte_capacity / align / ptr", "the element buffer", U + ", " + A)]

p("C01", "A vec behaves as the sequence its operation history describes",
  "After any history of construction, push, insert, pop, remove (each by value, by unsizing coercion, or through an Emplacable), in-place mutation, reserve and shrink operations, the vec's length and the value, size and metadata of every element read by get, index or iteration are exactly those of the mathematical sequence that history describes. This holds for sized element types, slices and strings, and for trait objects (and other dynamically aligned types) of any mix of sizes and alignments, including zero-sized and over-aligned values.",
  ["histories", "inputs"],
  "every finite operation history; every element kind, size and alignment, including zero; every index",
  "The tests run five fixed histories, insert only at index 0, never mix alignments above a pointer's, and never remove the last element of a trait-object vec.",
  [L, U, A, S] + H,
  [("insert_unchecked / insert_with_unchecked", U + ", " + A + ", " + S), ("remove_into_unchecked / pop_into_unchecked", U + ", " + A + ", " + S),
   ("realign_up / realign_down", U), ("MetadataFromSize / SplitMetadata", "src/helper.rs")],
  ["len", "get", "index", "iter", "pop_into", "remove_into"], st)
p("C02", "Every value is destroyed exactly once or handed out exactly once",
  "Over any history without unwinding, each value given to a vec is either still in it, has been moved out intact to exactly one new owner, or has had its destructor run exactly once; dropping the vec, or a pending pop or removal, destroys precisely the values it still owns. A value that the caller asked to forget is never destroyed.",
  ["histories", "inputs"],
  "every operation history ended by dropping the vec or converting it, for every element kind",
  "One test drops boxed integers from one history and asserts nothing about destructors.",
  [L, U, A, S, E],
  [("Drop for *VecInner", U + ", " + A), ("Emplacable::drop / forget", E), ("forget_unsized after move", U + ", " + A)],
  ["element destructors", "sinks of pop_into/remove_into"], st)
p("C03", "A vec survives user code that unwinds in the middle of an operation",
  "If an emplacable being written, a receiving emplacer, an element's destructor or clone, or an input iterator unwinds during a vec operation, the vec stays usable and holds, in order, exactly the elements that the operation had not already accepted or given up. No value is ever destroyed twice, observed after its destruction, or changed by the failed operation; values may be leaked only where the operation had already taken them out of the vec.",
  ["fault_sequences", "histories"],
  "every operation that runs user code, every point at which that code can unwind, every history before and after",
  "No test unwinds.",
  [L, U, A, S, E],
  [("ElementShifterBacker", U + ", " + A + ", " + S), ("metadata removed only after the emplacer ran", U + ", " + A), ("Realigner", U)],
  ["len", "get", "element destructors", "catch_unwind result"], st)
p("C04", "Elements are aligned, disjoint, in order and inside the vec's storage",
  "In every reachable state each element's address is a multiple of its alignment, elements occupy disjoint byte ranges in index order inside the vec's buffer, slice and string elements lie end to end without padding, and the reported alignment is at least every element's alignment. byte_len is what all elements take, padding included, and never exceeds byte_capacity.",
  ["histories", "inputs", "configurations"],
  "every reachable vec state, in particular after alignment raises, shrinks and reallocation to a new address",
  "Tests never look at addresses and never store anything aligned above 8.",
  [L, U, A] + H,
  [("realign_up / realign_down / len_after_realign_up", U), ("unchecked_pad_to", "src/helper/valid_size.rs"), ("Aligned::ALIGN", "src/marker.rs"), ("from_sized", U + ", " + A)],
  ["addresses of references from get and iter", "align", "byte_len", "byte_capacity"], st)
p("C05", "Reserved capacity is really there, and using it never reallocates",
  "After a successful reservation (or construction with capacity) the vec can take the promised number of elements, bytes and alignment, and as long as added elements stay within the reported element capacity, byte capacity and alignment, whichever adding operation is used, no capacity changes, nothing is reallocated and no element moves because of growth. A vec starts with the alignment asked for, or else that of a pointer (where the element type does not fix it). Reserving never lowers a capacity, neither reserving nor adding raises the alignment above what was asked for or added, reserving what is already there does nothing, and the exact variants do not allocate beyond what was asked for (byte reservations for zero-sized sized types are excluded).",
  ["histories", "inputs"],
  "every state and every (additional, additional_bytes, align) request, followed by every sequence of additions that fits it",
  "One test checks one preallocated slice vec with push only.",
  [L, U, A, S],
  [("try_reserve_capacity_bytes_align / try_reserve_exact_capacity_bytes_align", L), ("try_reserve_additional_bytes_align", U + ", " + A + ", " + S)],
  ["capacity", "byte_capacity", "align", "allocator calls", "element addresses"], st)
p("C06", "Shrinking keeps the elements and respects its lower bounds",
  "Every shrink operation keeps all elements and leaves each of the element capacity, byte capacity and alignment no larger than it was, and at least as large as both what the elements need and the smaller of the given lower bound and its previous value; unless the allocator refuses, what the operation may lower comes down to that (byte capacities padded to the alignment or to whole sized elements). shrink_to_fit lowers all three, shrink_to only the element capacity, shrink_capacity_bytes_to all but the alignment; a call that finds nothing above its bounds does nothing; and a vec can be grown again afterwards.",
  ["histories", "inputs"],
  "every state (any mix of alignments, spare capacities and lengths) and every triple of bounds",
  "Tests call shrink_to_fit three times and look only at one element afterwards.",
  [L, U, A, S],
  [("shrink_capacity_bytes_align_to", U + ", " + A + ", " + S), ("realign_down / max_align_of_elems", U)],
  ["capacity", "byte_capacity", "align", "get"], st)
p("C07", "Memory is released exactly once, with the layout it was obtained with",
  "Over any history each block the library obtains from the allocator is released or resized exactly once with exactly the size and alignment it was obtained with, and none is left when every vec, box and emplacable involved is gone. Creating an empty vec allocates nothing; a vec of a sized type holds at most one block and any other vec at most two.",
  ["histories", "inputs"],
  "every operation history over vecs, emplacables and the boxes made from them",
  "Tests cannot see the allocator; layout mismatches go unnoticed with the system allocator.",
  [L, U, A, S, E],
  [("Drop for *VecInner", U + ", " + A), ("grow/shrink/deallocate calls", U + ", " + A), ("box_new_with / PointerDeallocer", E), ("into_emplacable for Box and Vec", E)],
  ["global allocator calls"], st)
p("C08", "A reservation that cannot be met fails cleanly",
  "When a capacity request overflows or the allocator refuses, the try_ methods return an error (equal to an overflow error exactly if the allocator was not what refused) without panicking and the vec keeps its elements and loses no capacity, and unless its element type is sized (where the element part of the request may already have been met) its addresses, byte capacity and alignment are unchanged; the infallible methods panic on overflow, call the allocation-error handler with the refused layout (and never otherwise) when the allocator refuses, and never claim capacity they did not get. A shrink whose allocation fails leaves all elements readable and correctly placed.",
  ["fault_sequences", "inputs"],
  "every reservation request up to usize::MAX, every state, allocator failure at every allocation of every operation",
  "No test requests an impossible capacity or makes the allocator fail.",
  [L, U, A, S] + H,
  [("checked_add_pad / checked_pad_to / new_padded_to", "src/helper/valid_size.rs"), ("try_reserve_additional_bytes_align", U + ", " + A), ("Realigner", U), ("unwrap_try_reserve_result", L)],
  ["return value", "capacity", "get", "catch_unwind result"], st)
p("C09", "Iterators yield each remaining element once, in order, from either end",
  "For any interleaving of next, next_back, nth, nth_back and the consuming or searching adaptors on iter and iter_mut, the references produced are exactly those of the corresponding operations on the sequence of elements, no element is produced twice, the reported length is exact at every step, an exhausted iterator stays exhausted, and one whose closure unwound goes on after the element the closure was given.",
  ["histories", "inputs"],
  "every vec and every sequence of iterator calls with every skip count",
  "Tests iterate only front to back with a for loop or Debug.",
  [L, U, A],
  [("UnalignedIter / UnalignedIterMut", U), ("AlignedIter / AlignedIterMut", A), ("iter_ref! delegation", L)],
  ["iterator results", "size_hint", "len"], st)
p("C10", "Adding elements at the end has amortized constant cost",
  "For any long run of additions at the end without shrinking, by push, push_unsize, push_with, extend or insertion at the last position, the total size of the blocks the vec allocates or resizes is bounded by a constant factor of the space its elements finally need, apart from re-padding when the alignment is raised.",
  ["histories", "inputs"],
  "every run length and element size distribution, every starting capacity",
  "Timing is only benchmarked, and no test counts reallocations.",
  [L, U, A, S],
  [("doubling in try_reserve_capacity_bytes_align", L), ("push_with reservation", U + ", " + A + ", " + S)],
  ["allocator calls during push"], st)
p("C11", "Comparison, hashing, formatting and serialization follow the elements",
  "Two vecs compare equal exactly when they have the same length and pairwise equal elements, are ordered lexicographically (consistently between partial and total order, with incomparable elements giving no order), and equal vecs hash equally whatever their capacities and histories, with every element fed to the hasher. Debug output and serialization list exactly the elements in order, with the correct announced length, and a writer or serializer that fails stops them and gets its error passed on.",
  ["inputs", "histories"],
  "every pair of vecs of any kinds, lengths and capacities, reached by any histories",
  "No test compares, hashes or serializes a vec.",
  [L],
  [("PartialEq / PartialOrd / Ord / Hash / Debug / Serialize impls", L)],
  ["eq", "partial_cmp", "cmp", "hash", "fmt", "serialize"])
p("C12", "Conversions, clones and collecting preserve elements, order and ownership",
  "Converting between Vec and a vec of a sized type, unsizing a vec of sized values, cloning, collecting from or extending by an iterator of emplacables, and the construction macros produce a vec with exactly the source elements in order, each owned once. Converting moves without copying element storage, a clone is independent of its original, and every capacity query of the result is correct so that further operations work.",
  ["inputs", "histories"],
  "every source vec (length, spare capacity, element size including zero) and every later history of the result",
  "unsize appears only in a doc example that prints; clone and collect are untested.",
  [L, U, A, S],
  [("from_sized", U + ", " + A), ("Clone / FromIterator / Extend / From impls, macros", L)],
  ["get", "capacity", "byte_capacity", "element destructors", "addresses"], st)
p("C13", "An emplacable delivers exactly its value to any receiver",
  "For every way of making an emplacable (from a value, reference, box, vec, array, string-like reference, another emplacable, or an element leaving a vec) and every way of consuming it (box, pinned box, Rc, Arc, Vec, String-like owners, by-value get, or insertion into a vec), the receiver ends up owning a value equal to the source in contents and length, and the source no longer owns it.",
  ["inputs", "programs"],
  "every source/receiver combination, every value size, alignment, length and spare capacity",
  "The test builds boxes from most sources but never looks inside them.",
  [E, L],
  [("IntoEmplacable impls", E), ("box_new_with and the From impls into owners", E), ("CopyToBuf", E)],
  ["receiver contents", "destructors"])
p("C14", "Dropping an emplacable destroys its value once; forgetting never does",
  "Dropping an unused emplacable runs the destructor of each value it would have delivered exactly once, forgetting it runs none, and both release the memory of the box or vec it was made from. If a consumer or a value's code unwinds while an emplacable is being consumed, no value is destroyed twice.",
  ["inputs", "fault_sequences"],
  "every kind of emplacable, consumed, dropped, forgotten, or interrupted by unwinding at any point",
  "No test drops, forgets or interrupts an emplacable.",
  [E, U, A, S],
  [("Drop for Emplacable / Emplacable::forget", E), ("null-pointer branch of every inner closure", E)],
  ["element destructors", "global allocator calls"])
p("C15", "Composite emplacables place every part at its own position",
  "Emplacables built from arrays of emplacables, from iterators of emplacables, by unsizing, or by viewing a string as bytes deliver every part in order at its own place and with the right length. If an iterator lies about its length or a part unwinds, the operation panics instead of exposing uninitialized or duplicated parts, and parts not yet delivered are destroyed at most once.",
  ["inputs", "fault_sequences"],
  "every array length, iterator length and announced length, every part at which production unwinds",
  "Only one four-element array of emplacables is built, and its result is not inspected.",
  [E],
  [("Emplacable::from_iter", E), ("IntoEmplacable for arrays", E), ("Emplacable::unsize", E)],
  ["receiver contents", "destructors", "catch_unwind result"])
p("C16", "Out-of-range positions are rejected without touching the vec",
  "For any index and length, get and get_mut return nothing and indexing panics exactly when the index is not below the length; insert panics exactly when the index exceeds the length and remove exactly when it is not below it, and pop returns nothing exactly when the vec is empty. A rejected operation leaves the vec unchanged, and a value passed to a rejected insert is destroyed exactly once.",
  ["inputs", "histories"],
  "every state, every index up to usize::MAX, every element kind",
  "No test passes an out-of-range index.",
  [L],
  [("bounds checks in get / insert / insert_with / remove_into / pop_into", L)],
  ["return value", "catch_unwind result", "len", "get"])
p("C17", "By-value helpers move unsized values intact into their owner",
  "box_new, rc_new, arc_new and their pinned forms, the unsizing and string-literal macros, and the helper that lends a by-value argument as an emplacable move the value they are given unchanged into the result or to the closure: contents, size, alignment and metadata are preserved, and the value is destroyed exactly once, when its final owner goes away.",
  ["inputs"],
  "every value of every sized or unsized type, including zero-sized and over-aligned ones",
  "Doc examples print one string and one array.",
  [E],
  [("box_new / rc_new / arc_new / box_pin / rc_pin / arc_pin", E), ("unsize! / by_value_str! / with_emplacable_for", E)],
  ["receiver contents and address", "destructors", "global allocator calls"])
p("C18", "An emplacable announces exactly the value it writes",
  "Every emplacable calls the emplacer it is given at most once, announcing precisely the size, alignment and metadata of the value; when handed memory of exactly that layout it writes the whole value and nothing outside it, and when handed a null pointer it writes nothing. While an element leaving a vec is being delivered, the vec's other elements are untouched.",
  ["inputs", "programs"],
  "every kind of emplacable, every value, driven by a custom emplacer",
  "No test implements an emplacer.",
  [E, U, A, S],
  [("layout and metadata passed to EmplacerFn", E), ("pop_into_unchecked / remove_into_unchecked", U + ", " + A + ", " + S)],
  ["emplacer arguments", "guard bytes around the destination"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
