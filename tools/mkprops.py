"""writes properties.jsonl (the text of the properties lives here)"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, st, over, text, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/" + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(obs), "hook_needed": hook}})

p("C01", "Vec edits behave as on a plain sequence, for every length and index",
  "Every editing operation of the vector (push, pop, insert, remove, swap_remove, truncate, clear, append, split_off, resize, resize_with, extend, clone, construction from slices, arrays and iterators, conversion to and from boxed slices, shrinking) leaves exactly the elements, in exactly the order, that the same operation on an abstract sequence would, and returns the element that sequence would. An index outside the range the operation accepts is refused by a panic that leaves the vector as it was. Spare capacity never influences the result.",
  ["inputs", "histories"], "every vector content, length, spare capacity, index and element value",
  "The tests run each operation once or twice on one literal vector with one index; off-by-one in tail moves, first/last element and empty-vector cases are not reached.",
  ["vec.rs", "boxed.rs", "ptr.rs"], [("element moves with ptr::copy / set_len", "Vec::{insert,remove,swap_remove,append,split_off}"), ("ResizeWith::do_resize", "vec.rs"), ("Vec::into_boxed_slice / From<Box<[T]>>", "vec.rs")],
  [("len", "number of initialized elements", "Vec.len"), ("ptr", "buffer and its capacity", "Vec.ptr")], ["Vec::as_slice", "Vec::len"])
p("C02", "retain and dedup keep exactly the right elements, in order, judged once each",
  "retain keeps exactly the elements the predicate accepts, in their order, and asks the predicate once per element in order. dedup, dedup_by and dedup_by_key remove exactly the elements that match the nearest kept predecessor, and pass the pair in that order. This holds alike for the heap vector and the small vector in both storage modes, and every removed element is dropped once.",
  ["inputs"], "every content, length and every answer sequence of predicate / comparison / key function",
  "Tests use one literal list per operation; the pattern of kept and discarded elements (2^n) decides which element is moved where.",
  ["vec.rs", "small_vec.rs"], [("RetainIter", "vec.rs"), ("Vecx trait objects", "vec.rs, small_vec.rs")],
  [("write/read/initial_len", "cursor positions while elements are moved", "RetainIter")], ["as_slice after the call", "arguments the callbacks see"])
p("C03", "Draining yields exactly the range and leaves exactly the rest",
  "drain(range) yields the elements of the range, in order from either end, with exact remaining length and slice view at every step; when the drain ends, whether exhausted, partly consumed or dropped untouched, the vector holds exactly the elements before and after the range. A range outside the vector is refused by a panic that leaves the vector as it was. A leaked drain leaves the vector holding a prefix of valid elements.",
  ["inputs", "histories"], "every length, every range in each of the range forms including extreme bounds, every interleaving of front and back steps, and every point at which the drain is dropped or leaked",
  "No existing test drains at all.",
  ["vec.rs", "small_vec.rs"], [("DrainInner::new range check and hiding of elements", "vec.rs"), ("DrainInner::drop tail move", "vec.rs")],
  [("slice", "elements not yet yielded", "DrainInner"), ("start/end/original_len", "range being removed", "DrainInner")], ["Drain::next/next_back/size_hint/as_slice", "vector after the drain"])
p("C04", "Consuming iteration yields each element once from either end",
  "Consuming a vector yields each element exactly once, in order from the front and in reverse order from the back, in any interleaving, and reports at every step the exact number and the exact slice of elements left. After exhaustion it keeps yielding nothing. Elements not taken are dropped with the iterator, once, and the memory is released.",
  ["inputs", "histories"], "every content and every interleaving of front and back steps, stopped anywhere",
  "No existing test uses the consuming iterator from both ends or drops it part-way.",
  ["vec.rs"], [("IntoIter", "vec.rs")], [("index", "elements taken from the front", "IntoIter"), ("vec.len", "end of the elements left", "IntoIter")], ["IntoIter::{next,next_back,size_hint,len,as_slice,as_slice_mut}"])
p("C05", "Every element is dropped exactly once over any sequence of operations",
  "Over any sequence of operations on vectors, small vectors and boxes, including moving elements between containers and converting one container into another, each element ever stored is either handed to the caller or dropped by the container, exactly once, and never touched after that. When the last owner is gone all memory has been released. This includes elements without size and over-aligned elements.",
  ["histories", "inputs"], "every sequence of two or three operations, applied to every small state, for sized, zero-sized and over-aligned elements",
  "Tests store integers, whose loss or duplication is invisible.",
  ["vec.rs", "small_vec.rs", "boxed.rs", "ptr.rs"], [("ManuallyDrop / mem::forget / ptr::read hand-overs", "vec.rs, small_vec.rs, ptr.rs"), ("Drop impls", "vec.rs, small_vec.rs, ptr.rs")],
  [("len", "elements owned", "Vec.len, StackVec.len")], ["destructor runs of an element type that records them", "allocator traffic"])
p("C06", "Capacity requests are exact, never wrap, and refuse what cannot exist",
  "For every requested capacity, reservation, resize or shrink amount up to the largest machine integer, the call either succeeds with capacity for at least what was asked (and length never above capacity) or reports failure (an error from the try_ form, a panic otherwise) with length, contents and capacity unchanged; byte sizes never wrap around. Reserving what is already there allocates nothing; shrinking never goes below the length nor below the requested minimum. Elements without size have unlimited capacity.",
  ["inputs"], "all 64-bit amounts, element sizes 0, 1, 4, 24, 32 and 2048 bytes, every small length and capacity",
  "Tests use amounts below 200; the arithmetic only goes wrong near the overflow limits and at specific relations of length, capacity and amount.",
  ["vec.rs", "small_vec.rs", "string.rs", "ptr.rs"], [("Layout::array and checked_add", "ScopePtr::alloc_array_uninit / realloc_array, Vec::try_reserve*"), ("MIN_NON_ZERO_CAP, doubling", "Vec::grow_amortized")],
  [("capacity", "length of the allocated slice", "ScopePtr<[T]>")], ["capacity()", "result of try_* calls", "sizes the allocator is asked for"])
p("C07", "The allocator contract is respected by every container",
  "Each block obtained from an allocator is released exactly once, to the same allocator, with the size and alignment it was last obtained with; resizing passes the true current size; no allocator is ever asked for zero bytes or for sizes that exceed the platform limit; values without size cause no allocator traffic at all. No container reads or writes outside its blocks, uses a block after release, or reads memory it never wrote.",
  ["histories", "inputs"], "every small sequence of creating, growing, shrinking, converting and dropping each container type, for elements of several sizes and alignments including zero size and over-alignment",
  "The tests' allocator accepts any layout and never checks; with a real allocator a wrong layout usually goes unnoticed.",
  ["ptr.rs", "vec.rs", "boxed.rs", "small_vec.rs", "rc.rs", "arc.rs", "urc.rs"], [("ScopePtr alloc_layout / dealloc / realloc_array", "ptr.rs"), ("capacity()>0 gate", "Vec::drop")],
  [("ptr,len", "block address and element count from which the layout is rebuilt", "ScopePtr")], ["calls on the GlobalAlloc the scope serves"])
p("C08", "Memory comes from the allocator the scope selects and goes back to it",
  "A container asks the scope that is current when it is created (a small vector: when its elements first move to the heap), with the element type and the marker given at creation, and all memory it takes from then on, also when it first allocates or grows later while another scope is current, comes from the allocator that was selected then and is returned to that one. The marker a container reports, and passes on when its storage moves between stack, heap and boxed form, is the one it was created with. A container created without a marker selects with none.",
  ["histories", "configurations"], "every marker choice, every container type, creation and growth inside or outside nested scopes, every small size",
  "The only test scope has one allocator and ignores the selector.",
  ["ptr.rs", "scope.rs", "vec.rs", "small_vec.rs", "boxed.rs", "string.rs"], [("AllocSelector / AllocMarker", "scope.rs"), ("ScopePtr.alloc, alloc_marker", "ptr.rs"), ("Storage moves with self.marker", "small_vec.rs")],
  [("alloc", "allocator the block belongs to", "ScopePtr.alloc"), ("marker", "marker used for later heap moves", "SmallVec.marker")], ["selector passed to Scope::alloc_for", "which allocator serves each request"])
p("C09", "Nested scopes: the new scope is current inside and the old one is back after",
  "While the function passed to spawn runs, the scope built for it is the current one, built from a view of the previous one, and selections go to it; when it returns, and also when it panics, the scope that was current before is current again and works as before. The result of the function is handed back. This holds for every nesting of spawns, and each thread (each environment the ENV function gives) has its own current scope, which the others do not change.",
  ["histories", "programs"], "every nesting depth up to the bound, every pattern of allocation before, inside and after, and panics at every level",
  "No existing test spawns a scope.",
  ["scope.rs", "marker.rs"], [("Env::spawn install/restore", "scope.rs")], [("cur", "the current scope", "Env.cur")], ["scope::current", "which allocator serves a request"])
p("C10", "Small vector: identical behaviour on the stack, on the heap and across the move",
  "Every editing operation of the small vector gives the same contents, order, results and refusals as on an abstract sequence, whatever its storage mode and when the operation itself moves the elements between stack and heap. Explicit moves to heap or stack preserve contents; moving to the stack is refused exactly when the elements do not fit. Conversions to and from vectors and boxed slices preserve contents.",
  ["inputs", "histories"], "every content, length on both sides of the inline capacity, storage mode, index and element value",
  "Tests exercise one literal sequence per operation, mostly in one storage mode.",
  ["small_vec.rs", "vec.rs"], [("redirect_fn!", "small_vec.rs"), ("StackVec element moves", "small_vec.rs"), ("try_move_to_heap_and_reserve_exact / try_move_to_stack", "small_vec.rs")],
  [("storage", "inline array or heap vector", "SmallVec.storage")], ["as_slice, is_stack/is_heap"])
p("C11", "Small vector uses the heap only when the elements do not fit inline",
  "A small vector whose elements, including those being added or reserved, fit its inline capacity touches no allocator and reports stack storage; one heap request is made when, and only when, they first do not fit. Capacity is the inline capacity on the stack and at least the length always. Once on the heap it stays there until explicitly moved back.",
  ["inputs", "histories"], "every length, reservation amount, and order of pushes, inserts, extends, resizes and reservations around the inline capacity",
  "Only one test looks at the storage mode, at one length.",
  ["small_vec.rs"], [("try_reserve / try_reserve_exact", "small_vec.rs")], [("storage", "inline or heap", "SmallVec.storage")], ["is_stack", "allocator traffic"])
p("C12", "Strings always hold valid UTF-8 and edits equal edits on character sequences",
  "After any sequence of edits (push, push_str, insert, insert_str, remove, pop, truncate, retain, split_off, extend, +, write) a string holds valid UTF-8 equal to what the same edits on a sequence of characters give. Positions that are not character boundaries or are out of range are refused by a panic, with the string unchanged.",
  ["inputs", "histories"], "every character of each encoded length, every byte position, every small string, every retain pattern",
  "There is no test of strings at all.",
  ["string.rs", "vec.rs"], [("is_char_boundary asserts", "String::{insert,insert_str,truncate,split_off}"), ("insert_bytes, remove, retain byte moves", "string.rs")],
  [("vec", "the bytes", "String.vec")], ["as_bytes / as_str"])
p("C13", "Text conversions accept exactly the well-formed input and preserve it",
  "from_utf8 accepts exactly the well-formed byte sequences and from_utf16 exactly the well-formed code unit sequences, and the resulting string denotes the same characters; conversions from characters, string slices, boxed strings, iterators of characters, slices or strings, and clones, preserve the text. Byte view, length and emptiness agree.",
  ["inputs"], "all byte sequences and code unit sequences up to the bound, all characters",
  "There is no test of strings at all.",
  ["string.rs", "vec.rs", "boxed.rs"], [("from_utf8 / from_utf16", "string.rs"), ("From/FromIterator/Extend impls", "string.rs")], [("vec", "the bytes", "String.vec")], ["result and as_bytes"])
p("C14", "A box gives its value back or drops it, once, and always frees its memory",
  "A box holds exactly the value put in; into_inner hands that value out without dropping it and releases the memory; dropping the box drops the value once and releases the memory; boxed slices and boxed strings convert to and from vectors without changing, losing or duplicating an element. Iterator and hasher calls through a box act on the boxed object. This includes values without size.",
  ["inputs", "histories"], "every value, element count and spare capacity; sized, zero-sized and over-aligned types",
  "No existing test checks that a boxed value is dropped or its memory released.",
  ["boxed.rs", "ptr.rs", "vec.rs"], [("ScopePtr::alloc/into_inner/drop", "ptr.rs")], [("ptr", "the block", "ScopePtr.ptr")], ["value seen through the box", "destructor runs", "allocator traffic"])
p("C15", "Rc: the value lives exactly as long as strong references, memory as long as any",
  "Strong and weak counts always equal the number of live strong and weak references; the value is dropped exactly when the last strong reference goes, the memory released exactly when the last reference of either kind goes. A weak reference upgrades exactly while a strong one exists, and the upgraded reference refers to the same value. This holds also when the value itself owns references to its own box.",
  ["histories"], "every sequence of clone, downgrade, upgrade and drop of any held reference up to the bound",
  "There is no test of Rc.",
  ["rc.rs"], [("Drop for Rc / Weak", "rc.rs"), ("Weak::upgrade", "rc.rs")], [("strong, weak", "reference counts", "RcBox")], ["strong_count / weak_count", "destructor runs", "allocator traffic"])
p("C16", "Rc: exclusive access is granted exactly when exclusive, and never duplicates",
  "get_mut grants access exactly when there is one strong and no weak reference; try_unwrap hands the value out exactly when there is one strong reference and otherwise returns the reference unharmed; make_mut gives access to a value no other reference can see, cloning only if other strong references exist, and disconnecting weak references. In all cases the value is neither dropped twice nor lost and the other references keep seeing their value.",
  ["histories"], "every reachable configuration of strong and weak references up to the bound, followed by further use of all of them",
  "There is no test of Rc.",
  ["rc.rs"], [("get_mut / try_unwrap / make_mut", "rc.rs")], [("strong, weak", "reference counts", "RcBox")], ["result, values seen through the other references, destructor runs"])
p("C17", "Arc: in one thread, counts, value lifetime and exclusive access are exact",
  "In one thread, strong and weak counts equal the live references, the value is dropped exactly with the last strong reference, the memory released with the last reference of either kind; get_mut, try_unwrap and make_mut grant or refuse exactly as uniqueness demands, neither losing nor duplicating the value, and refusal leaves the reference usable.",
  ["histories"], "every sequence of clone, downgrade, drop, get_mut, try_unwrap, make_mut up to the bound",
  "Tests use integers and never look at destruction or memory; weak references are only created, never followed.",
  ["arc.rs"], [("Drop for Arc / Weak", "arc.rs"), ("is_unique, try_unwrap, make_mut", "arc.rs")], [("strong, weak", "atomic reference counts", "ArcInner")], ["strong_count / weak_count", "destructor runs", "allocator traffic"])
p("C18", "Arc: under every schedule the value is dropped once and after every use",
  "When threads holding references to one shared value concurrently read it, clone, downgrade and drop references, or ask for exclusive access, then under every interleaving the value is dropped or handed out exactly once, after all uses through other references have finished and become visible, the memory is released exactly once after every access to it, exclusive access never overlaps any other access, and no operation waits forever.",
  ["schedules"], "all interleavings of the atomic steps of two threads (three for drops) each performing one or two operations, with release/acquire visibility tracked",
  "The tests start one thread and use no operation concurrently.",
  ["arc.rs"], [("Release decrement + Acquire fence", "Drop for Arc / Weak"), ("weak-count lock", "Arc::is_unique / downgrade"), ("compare_exchange", "Arc::try_unwrap")], [("strong, weak", "atomic reference counts", "ArcInner")], ["order of reads, drops and frees across threads"])
p("C19", "Urc: counts, value lifetime and exclusive access are exact across fences",
  "With references spread over any number of fences (thread groups, entered by enveloping) the value is dropped exactly when the last strong reference of all fences goes and all memory is released exactly when the last reference of any kind goes; counts of a fence equal its live references. get_mut, try_unwrap and make_mut grant or refuse exactly as uniqueness over all fences demands, neither losing nor duplicating the value, and refusal leaves the reference usable; a fence taken out and put back keeps the value.",
  ["histories"], "every sequence of clone, downgrade, envelop, drop, get_mut, try_unwrap, make_mut, fence conversion up to the bound",
  "One test reads one value in two threads; nothing looks at destruction, weak references or exclusive access.",
  ["urc.rs", "scope.rs"], [("Fence/Master counters", "urc.rs"), ("Envelop for Urc", "urc.rs")], [("strong, weak", "references of one fence", "Fence"), ("strong_fence, weak_fence", "fences", "Master")], ["fence counts", "destructor runs", "allocator traffic"])
p("C20", "Urc: under every schedule the value is dropped once and after every use",
  "When threads each holding a fence of one shared value concurrently read it, drop their strong and weak references or ask for exclusive access, then under every interleaving the value is dropped or handed out exactly once, after all uses through other fences have finished and become visible, all memory is released exactly once after every access to it, and exclusive access never overlaps any other access.",
  ["schedules"], "all interleavings of the atomic steps of two threads (three for drops) each performing one or two operations on its own fence, with release/acquire visibility tracked",
  "One test reads a value in two threads; no concurrent drop order is explored.",
  ["urc.rs"], [("Release decrement + Acquire fence on fence counters", "urc.rs")], [("strong_fence, weak_fence", "fences", "Master")], ["order of reads, drops and frees across threads"])
p("C21", "Comparison and hashing agree with the contents, for every container",
  "Equality, ordering and hashing of vectors, small vectors, strings, boxes and reference-counted pointers are those of the contents: equal exactly if the contents are equal, ordered as the contents are (with all comparison operators consistent), equal containers hash equally, and capacity, storage mode, marker, allocator or identity have no influence. Views (deref, slices, borrow, indexing by position and range, formatting with any options) show exactly the contents, and out-of-range positions panic.",
  ["inputs"], "every pair of contents up to the bound, all representations of each",
  "Tests compare only a few literals for equality; ordering and hashing are never used.",
  ["vec.rs", "small_vec.rs", "string.rs", "boxed.rs", "rc.rs", "arc.rs", "urc.rs"], [("PartialEq/PartialOrd/Ord/Hash/Index/Borrow impls", "all container files")], [], ["results of ==, <, <=, >, >=, cmp, hash, index"])
p("C22", "A failing allocator is reported and harms nothing",
  "When the allocator refuses any request, at any point of any operation, the try_ form returns an error and the plain form panics; every container involved keeps the contents, length and capacity it had, stays usable, no element is lost or duplicated, and nothing is leaked or released twice.",
  ["fault_sequences", "inputs"], "every pattern of refused requests over every allocating operation, on every small state",
  "The tests' allocator never fails.",
  ["ptr.rs", "vec.rs", "small_vec.rs", "string.rs", "boxed.rs", "rc.rs", "arc.rs", "urc.rs"], [("null check", "ScopePtr::alloc_layout / realloc_array"), ("error propagation", "try_* functions")], [], ["results, contents afterwards, allocator traffic"])
p("C23", "Panics in user code leave containers valid and drop nothing twice",
  "If a callback (predicate, key, comparison, constructor, clone) or an element's destructor panics in the middle of any operation, then afterwards every container involved holds only valid elements, can be used and dropped, and no element is dropped twice or observed after being dropped. Nothing outside the containers is touched.",
  ["fault_sequences", "inputs"], "every operation that runs user code, a panic at every call of it, every small state",
  "No test panics in user code.",
  ["vec.rs", "small_vec.rs", "string.rs", "rc.rs", "arc.rs", "urc.rs", "boxed.rs"], [("set_len before running user code", "Vec::truncate, RetainIter, DrainInner"), ("SetLenOnDrop", "String::retain")], [("len", "elements considered valid", "Vec.len")], ["contents after the panic, destructor runs"])
p("C24", "Collecting and extending take exactly what the iterator yields",
  "Building or extending a vector, small vector or string from an iterator stores exactly the items it yields, in order, whatever its size hint claims (too low, too high, or absurd), and asks it no further once it has ended. If the claimed size cannot be reserved, the call fails by panic before taking any item and what the container held stays.",
  ["inputs"], "every item sequence up to the bound with every size hint, all 64-bit values",
  "Tests use literal arrays with exact size hints.",
  ["vec.rs", "small_vec.rs", "string.rs"], [("size_hint().0 reserve then push", "FromIterator / Extend / extend_from_iter")], [], ["contents afterwards, calls on the iterator"])
p("C25", "Types cross threads only where that is sound",
  "Handles that are not safe to share or move between threads are rejected by the compiler when a program tries to, and handles that are safe are accepted.",
  ["programs"], "all programs that use the types across threads",
  "A test that compiles cannot show what must not compile.",
  ["arc.rs", "urc.rs", "scope.rs"], [("Send/Sync impls", "arc.rs, urc.rs, scope.rs")], [], ["whether the program compiles"])

with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
