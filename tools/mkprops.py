#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand; the file is committed)."""
import json
L='src/lib.rs'; A='src/inner/aligned.rs'; U='src/inner/unaligned.rs'; S='src/inner/sized.rs'; I='src/inner.rs'
H='src/helper.rs'; VS='src/helper/valid_size.rs'; VA='src/helper/valid_align.rs'; M='src/marker.rs'; E='emplacable/src/lib.rs'
def p(id,title,st,over,q,why,files,mech,state=(),obs=()):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None))
INFO=('element table','end offset and pointer metadata of every element; element i starts where element i-1 ends (rounded up to the align)',f'{A} ElementInfo / {U} ElementInfo')
BUF=('buffer','pointer, byte capacity and align of the element allocation',f'{A} AlignedVecInner, {U} UnalignedVecInner')
hist="every history of vector operations, for every element type (all three storage strategies), every element size and alignment, and every length"
P=[]
P.append(p('C01','Sequence semantics of push, insert, remove, pop and indexing',
 "An UnsizedVec behaves as a sequence: after any history of push, insert, pop_into, remove_into (and their _with/_unsize forms) len, is_empty, byte_len, get and indexing report exactly the values, in order, that the same history leaves in a plain list, each with its original bytes, type and metadata. Out-of-range insert, remove and index panic without changing the vector, get returns None, and pop_into on an empty vector returns None. This holds for sized elements, for elements whose alignment is known at compile time (slices, str) and for trait objects alike.",
 ['inputs','histories'],hist,
 "The test suite pushes and pops a handful of values of a few fixed types; offset arithmetic errors need particular mixes of sizes, alignments and positions.",
 [L,A,U,S,I],[('push/insert/remove/pop (unchecked cores)',f'{A}, {U}, {S}: insert_unchecked, insert_with_unchecked, push_unchecked, push_with, remove_into_unchecked, pop_into_unchecked, get_unchecked_raw'),('bounds checks',f'{L} insert, insert_with, remove_into, pop_into, get, index')],[INFO,BUF],['len()','get(i)','v[i]','byte_len()']))
P.append(p('C02','Relocation preserves every element',
 "Whenever the buffer is reallocated or re-padded -- reserving any combination of elements, bytes and alignment, shrinking any of them, or implicitly while adding a larger or more strictly aligned element -- every element keeps its position in the sequence, its bytes, its size and its metadata. This includes raising and lowering the alignment with any number of elements, and an allocator that always moves the block or refuses to shrink it.",
 ['inputs','histories','configurations'],hist+"; every pair of old and new alignment, every allocator behaviour",
 "Tests reallocate one or two small vectors; the shifting of elements when padding changes depends on every element's size modulo both alignments.",
 [U,A,L],[('realign up / down',f'{U} len_after_realign_up, realign_up, realign_down'),('grow / shrink',f'{U}, {A} try_reserve_additional_bytes_align, shrink_capacity_bytes_align_to')],[INFO,BUF],['get(i) before and after reserve*/shrink*']))
P.append(p('C03','Alignment and placement of elements',
 "Every reference the vector hands out is aligned for its value and lies, together with its whole value, inside the vector's current allocation, and no two elements overlap. align() is always a power of two at least as large as the alignment of every element, and the buffer is really allocated with that alignment. The compile-time alignment assumed for a type equals the type's real alignment.",
 ['inputs','histories'],hist,
 "Whether a misplaced element is visible depends on where the allocator happens to put the block; tests never look at addresses.",
 [U,A,M,VA,VS],[('offset computation',f'{U} start_offset_of_unchecked, get_unchecked_raw; {A} likewise'),('alignment bookkeeping',f'{U} try_reserve_additional_bytes_align, shrink_capacity_bytes_align_to; {M} Aligned')],[INFO,BUF],['address of v[i]','align()','layout passed to the allocator']))
P.append(p('C04','Every value is destroyed exactly once',
 "A value moved into a vector is destroyed exactly once or handed out exactly once: by dropping the vector, by dropping the emplacable returned from pop_into/remove_into, or by whoever receives it from that emplacable. No operation (including reallocation, conversion, cloning and iteration) duplicates or loses a value; only an explicit forget skips a destructor. Dropping a vector also releases all its memory.",
 ['inputs','histories'],hist,
 "The test suite does not count destructor runs or allocations.",
 [A,U,S,L,E],[('Drop',f'{A}, {U} impl Drop'),('hand-over of removed values',f'{A}, {U}, {S} pop_into_unchecked, remove_into_unchecked; {E} Emplacable::drop, forget')],[INFO],['destructor counts','allocator balance']))
P.append(p('C05','Reserved capacity is really available and prevents reallocation',
 "After a successful reserve of n elements, b bytes and alignment a, capacity() is at least len()+n, byte_capacity() at least byte_len()+b (where bytes apply) and align() at least a (where alignment is dynamic); constructors with capacities give at least what was asked. Adding an element does not allocate or move existing elements as long as the element count, the bytes including padding, and the alignment fit the reported capacities. Reserving never lowers any capacity, and a reserve that is already satisfied changes nothing.",
 ['inputs','histories','configurations'],hist+"; every n, b, a that does not overflow",
 "The tests never check capacities after a reserve, and never count allocations.",
 [L,A,U,S],[('reserve family',f'{L} reserve*, try_reserve*, with_capacity*'),('growth',f'{A}, {U}, {S} try_reserve, try_reserve_exact, try_reserve_additional_bytes_align; push_with, insert_with_unchecked')],[BUF],['capacity()','byte_capacity()','align()','allocator calls']))
P.append(p('C06','Shrinking and exact reservation respect their bounds',
 "Shrinking never raises a capacity and never takes capacity, byte capacity or alignment below what the present elements need or below the smaller of the requested bound and the old value; apart from an allocator that refuses, capacities end up at that bound (bytes rounded up to the alignment). The exact reservation variants do not over-allocate: they give at most what was asked for beyond the present contents, or what was there before.",
 ['inputs','histories','configurations'],hist+"; every bound",
 "The tests call shrink on one vector and do not look at the result.",
 [L,A,U,S],[('shrink',f'{L} shrink_to_fit, shrink_to, shrink_capacity_bytes_to, shrink_capacity_bytes_align_to; {A}, {U}, {S} shrink_capacity_to, shrink_capacity_bytes_align_to'),('exact',f'{L} try_reserve_exact*')],[BUF],['capacity()','byte_capacity()','align()']))
P.append(p('C07','Capacity overflow and allocation failure are reported cleanly',
 "try_reserve* returns Err -- it neither panics nor wraps around -- when a request overflows or the allocator refuses, and then the vector's contents, length, bytes and alignment are unchanged and no capacity is reduced; when it returns Ok the capacity is really there. Every allocator request has a valid, non-zero layout, and every block is grown, shrunk and freed with exactly the size and alignment it was allocated with, and freed exactly once.",
 ['inputs','histories','fault_sequences'],hist+"; every requested amount up to usize::MAX, every position of an allocation failure",
 "The tests never request absurd amounts and never see an allocation fail.",
 [L,A,U,S,VS],[('checked arithmetic',f'{U} len_after_realign_up, try_reserve_additional_bytes_align; {A} try_reserve_additional_bytes_align; {S} same'),('layout bookkeeping',f'{A}, {U} Drop, shrink_capacity_bytes_align_to; {VS} as_layout*')],[BUF],['Result of try_reserve*','layouts seen by the global allocator']))
P.append(p('C08','Panic safety',
 "If user code panics in the middle of an operation -- while a value is being emplaced into push_with/insert_with, while a removed value is handed to its receiver or destroyed, while an element is cloned, or in a destructor when the vector is dropped -- the vector stays valid. A failed push_with/insert_with leaves exactly the previous elements; a removal that panics leaves all other elements intact and in order, and no value is ever destroyed twice or observed after destruction.",
 ['inputs','histories','crash_points'],hist+"; every point at which a user callback can panic",
 "No test panics inside a callback.",
 [A,U,S,L],[('unwind guards',f'{A}, {U} ElementShifterBacker, ElementRemover, ElementMoverBack'),('ordering of table and byte updates',f'{A}, {U} push_with, insert_with_unchecked, pop_into_unchecked, remove_into_unchecked')],[INFO],['contents after catch_unwind','destructor counts']))
P.append(p('C09','Iterators agree with indexing',
 "iter() and iter_mut() yield exactly the elements v[0], v[1], ... in order (reversed from the back) under any interleaving of next, next_back, nth, nth_back, last, count, and the searching and folding adaptors, and len() and size_hint() always report exactly what is left. After exhaustion they keep returning None, and two ends never yield the same element.",
 ['inputs','histories'],"every vector of every length and every sequence of iterator calls",
 "The tests only run plain for loops from the front.",
 [A,U,L],[('iterators',f'{A} AlignedIter/AlignedIterMut, {U} UnalignedIter/UnalignedIterMut, {L} UnsizedIter/UnsizedIterMut')],[INFO],['references yielded','len()']))
P.append(p('C10','Conversions between Vec and UnsizedVec and unsize keep the sequence',
 "Converting a Vec into an UnsizedVec of sized elements and back keeps the very same buffer, capacity and elements. unsize() turns a vector of sized elements into a vector of slices or trait objects that holds the same values in the same order, with correct metadata, offsets and alignment, and works like any other vector afterwards.",
 ['inputs','histories'],"every element type, length and capacity, and every history of operations after the conversion",
 "One test converts one vector and prints it.",
 [L,A,U,S],[('from_sized',f'{A}, {U}, {I} from_sized'),('From impls',f'{L} From<Vec<T>>, From<UnsizedVec<T>>, unsize')],[INFO,BUF],['v.unsize()[i]','byte_capacity()']))
P.append(p('C11','Trait implementations act elementwise like a list',
 "Equality, ordering, hashing consistency, Debug, Clone, Serialize, Extend and FromIterator on UnsizedVec give the results the same operation gives on a plain list of the same elements: == compares lengths and all elements, ordering is lexicographic with the shorter prefix first and stops at the first non-equal (or incomparable) pair, equal vectors hash equally, Debug and Serialize list every element once in order. A clone holds a clone of each element in order, and extending or collecting appends every element in order whatever the iterator's size hint.",
 ['inputs'],"every pair of vectors over every element type",
 "No test compares, orders, hashes, clones or serializes vectors of different lengths.",
 [L],[('trait impls',f'{L} PartialEq, PartialOrd, Ord, Hash, Debug, Clone, Serialize, Extend, FromIterator')],[],['results of the trait methods']))
P.append(p('C12','Emplacable conversions are faithful',
 "Converting a value, box, Vec, borrowed slice/str/CStr/OsStr/Path, array of emplacables, iterator of emplacables, or another emplacable into an Emplacable announces exactly the layout and metadata of the value and writes exactly its bytes to the destination once. If the emplacable is dropped the value is destroyed once and nothing is written; if it is forgotten nothing is destroyed; memory owned by the source is released with its original layout. Borrowed sources are copied or cloned element by element and left unchanged.",
 ['inputs'],"every source value, length and spare capacity, and every consumer",
 "The tests build a few emplacables from small sources and never check the layout, spare capacity or destructor counts.",
 [E],[('IntoEmplacable impls',f'{E} IntoEmplacable for T, &[T], &str, &CStr, &OsStr, &Path, Box, Vec, arrays; Emplacable::unsize, from_iter'),('CopyToBuf',f'{E} CopyToBuf')],[],['layout, metadata and bytes given to the emplacer']))
P.append(p('C13','Consumers of emplacables build the right value and leak nothing',
 "box_new(_with), box_pin(_with), rc_*, arc_*, get, into_vec, into_string and the conversions and collections into Box, Rc, Arc, Vec, String, CString, OsString and PathBuf produce exactly the emplaced value, correctly aligned and allocated with the value's own layout (no allocation for zero-sized values). If producing the value panics, the memory reserved for it is released and nothing else is destroyed. Dropping an Emplacable destroys its value exactly once and forget destroys nothing.",
 ['inputs','crash_points'],"every value of every size and alignment, and every point at which producing it can panic",
 "The tests box a few small values; zero-sized, over-aligned and panicking values are not tried.",
 [E],[('box_new / box_new_with',f'{E} box_new, box_new_with, PointerDeallocer'),('get, drop, forget',f'{E} Emplacable::get, drop, forget')],[],['value and address of the result','allocator balance']))
P.append(p('C14','Size and alignment arithmetic is exact',
 "All size, offset and padding arithmetic is exact: rounding up to an alignment gives the least multiple not below the value, sums and products of sizes are mathematical sums and products, and whenever a result would exceed the largest size a layout of that alignment may have, the operation reports overflow instead of wrapping. A layout built from a size and an alignment is always valid, and an element whose size does not fit beside the existing ones is refused before anything is changed.",
 ['inputs'],"every size, offset and power-of-two alignment representable in usize",
 "Tests use sizes of a few dozen bytes; boundary values near isize::MAX are never reached.",
 [VS,VA,H,U,A],[('valid sizes and aligns',f'{VS} ValidSize, ValidSizeUnaligned; {VA} ValidAlign'),('decompose and metadata split',f'{H} decompose, SplitMetadata')],[],['layouts given to the allocator','Err from try_reserve*']))
P.append(p('C15','By-value unsizing and the macros deliver the value intact',
 "unsize!, by_value_str!, push_unsize, insert_unsize, unsized_vec!, unsize_vec! and with_emplacable_for pass on exactly the value they were given, once: the unsized value has the same bytes, the right metadata and alignment, the macros build the vector in argument order, unsize! and by_value_str! use no heap memory, and with_emplacable_for returns its callback's result. Each value involved is destroyed exactly once.",
 ['inputs'],"every value and element type (with_emplacable_for: every callback that returns)",
 "The tests run each macro on one or two values and do not count destructor runs.",
 [E,L],[('macros',f'{E} unsize!, by_value_str!, macro_exports; {L} unsized_vec!, unsize_vec!'),('with_emplacable_for',f'{E} with_emplacable_for')],[],['value received','destructor counts','allocator calls']))
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
