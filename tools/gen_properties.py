#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

V = "src/Vector.c"; S = "src/String.c"; B = "src/Bitset.c"; L = "src/List.c"; F = "src/Format.c"
A = "src/ArgParse.c"; AL = "src/Allocator.c"; LC = "include/Zycore/LibC.h"

p("C01", "Vector operations implement exact sequence semantics",
  "For every well-formed vector of any element size, size and capacity, each successful init, duplicate, get, set, push, insert, emplace, swap, delete, pop, clear and resize operation produces exactly the element sequence its documentation describes: every element byte that should be kept, moved, inserted, removed or filled from the initializer is, and every other element keeps its value and order. The element-access macro yields the element at its index, and the iteration macros visit every element once, in order. The reported size always equals the length of that sequence, and read-only operations change nothing. This includes operations that cross a reallocation.",
  ["inputs", "histories"], "all element sizes >= 1, sizes, capacities, indices, counts, element contents, growth factors and shrink thresholds; all histories by induction over operations",
  "The gtest suite uses one element type (64-bit), sizes up to 100 and consecutive values; it never varies element size, growth or threshold and never checks untouched elements at arbitrary positions.",
  [V, "include/Zycore/Vector.h"],
  [("element shifting", "ZyanVectorShiftLeft/ShiftRight in src/Vector.c"), ("insert/delete/resize", "ZyanVectorInsertRange, ZyanVectorDeleteRange, ZyanVectorResizeEx, ZyanVectorEmplaceEx"), ("access and iteration", "ZYAN_VECTOR_GET, ZYAN_VECTOR_FOREACH, ZYAN_VECTOR_FOREACH_MUTABLE, ZYAN_VECTOR_INITIALIZER in include/Zycore/Vector.h")],
  "element bytes returned by Get/GetPointer, size, status")
p("C02", "Vector never touches memory outside its buffer and rejects bad ranges",
  "No vector operation reads or writes outside the element buffer (or outside the caller's own argument objects), for any index and count including values whose sum overflows, and size never exceeds capacity while capacity never exceeds what the buffer really holds. Null vectors or required pointers, zero element sizes and zero counts are rejected as invalid arguments, and any index or index/count range that does not lie inside the vector is rejected as out of range. A rejected call changes nothing.",
  ["inputs", "histories"], "all 64-bit index and count arguments against all well-formed vector states",
  "Tests only pass small in-range arguments (plus index == size probes); overflow of index + count or size * growth is never exercised, and out-of-bounds writes need not crash.",
  [V], [("range checks", "ZyanVectorDeleteRange, ZyanVectorFindEx, ZyanVectorBinarySearchEx, ZyanVectorInsertRange"), ("capacity bookkeeping", "ZyanVectorReallocate")],
  "status codes, memory accesses, size/capacity")
p("C03", "A failed vector operation leaves the vector unchanged and usable",
  "When the allocator or an element constructor reports failure, the vector operation returns exactly that failure status. After a failed operation that adds elements or memory (push, insert, emplace, growing resize, reserve, shrink-to-fit) the vector still holds the same elements in the same order with the same size and a capacity that matches the buffer it really owns. After an operation that removes elements (delete, pop, clear, shrinking resize) and then fails to give memory back, exactly the requested elements are gone, the others are intact and size and capacity match that state and the buffer. Either way the vector can be used and destroyed normally. This holds for a failure of any allocator or constructor call.",
  ["fault_sequences", "inputs"], "every allocator / constructor failure at every call, over all well-formed vector states and arguments",
  "No test injects an allocator or constructor failure.",
  [V], [("reallocation", "ZyanVectorReallocate"), ("constructor call", "ZyanVectorEmplaceEx"), ("resize", "ZyanVectorResizeEx")],
  "status, size, capacity and elements after a failed call")
p("C04", "Vector destroys each removed or overwritten element exactly once",
  "If a vector has an element destructor, then every element that set, delete, pop, clear, resize or destroy removes or overwrites is passed to the destructor exactly once, while its original bytes are still in place. Elements that stay in the vector are never passed to it, and neither are slots beyond the size; moving elements on insert, reallocation or growth calls no destructor. Destroying the vector additionally releases its buffer exactly once with the size it was allocated with, and never releases a caller-supplied buffer.",
  ["inputs", "histories", "fault_sequences"], "all vector states, indices and counts, with and without a destructor",
  "Tests only count destructor calls in one or two scenarios with small vectors; they do not identify which element was destroyed.",
  [V], [("destructor loops", "ZyanVectorDestroy, ZyanVectorDeleteRange, ZyanVectorResizeEx, ZyanVectorSet, ZyanVectorPopBack")],
  "sequence of destructor and deallocate calls")
p("C05", "Vector reallocates exactly as its growth and shrink policy says",
  "A vector with an allocator asks it for memory only when the needed size exceeds the capacity, when the new size times a non-zero shrink threshold falls below the capacity, or when reserve or shrink-to-fit demands it; the requested capacity is the new size times the growth factor (the requested capacity for reserve, the size for shrink-to-fit), never below one element, and always passed with the vector's element size. The capacity reported afterwards is the capacity requested. A vector over a caller-supplied buffer never calls an allocator, keeps its capacity forever and reports insufficient buffer size, unchanged, when an operation would need more.",
  ["inputs", "configurations", "histories"], "all growth factors 1..255, shrink thresholds 0..255, sizes and capacities",
  "Tests check a handful of size/capacity pairs with default settings only.",
  [V], [("policy macros", "ZYCORE_VECTOR_SHOULD_GROW / ZYCORE_VECTOR_SHOULD_SHRINK"), ("ZyanVectorReallocate", V)],
  "allocator call arguments, reported capacity, status")
p("C06", "Vector search finds the first match and the binary-search insertion point",
  "Linear search over a sub-range returns true with the index of the first element in that range equal to the given one, and false with -1 exactly when there is none. Binary search over a sorted sub-range returns the lowest position whose element is not less than the given one, and true exactly when an equal element exists in the range. Elements outside the range are never handed to the comparison function, and nothing is modified.",
  ["inputs"], "all vectors, sub-ranges, contents and comparison functions (for binary search: all contents sorted by the comparison)",
  "Tests search a few values in one 100-element vector; duplicates, sub-ranges and absent values are not covered.",
  [V], [("linear search loop", "ZyanVectorFindEx"), ("binary search loop", "ZyanVectorBinarySearchEx")], "status and found index")
p("C07", "Strings stay NUL-terminated with a size that counts the terminator",
  "After every string operation, successful or not, on a well-formed owned or buffer-backed string, the string is still well-formed: its stored size is its length plus one, it fits its capacity, and the character after the last one is NUL. Initialisation, duplication and concatenation yield such strings, a literal view is one over the literal's text, destruction releases the buffer exactly once, and no operation reads or writes outside the buffers involved. Null arguments and destination indices or index/count ranges that do not fit (including sums that overflow) are rejected without any change, and the source of an append or insert is not required to be terminated.",
  ["inputs", "histories", "fault_sequences"], "all string states (the source of an append or insert does not overlap the destination's buffer), 64-bit indices and counts, contents and allocator failures",
  "The repository has no string tests at all (tests/String.cpp is empty of cases).",
  [S, "include/Zycore/String.h"], [("terminator maintenance", "ZYCORE_STRING_NULLTERMINATE / ZYCORE_STRING_ASSERT_NULLTERMINATION in src/String.c"), ("literal views", "ZYAN_DEFINE_STRING_VIEW in include/Zycore/String.h")], "size, capacity, terminator byte, status")
p("C08", "String editing produces exactly the documented text",
  "Append, insert, delete, truncate, clear, resize, duplicate, concatenate, set-character and view creation produce exactly the text their documentation describes, byte for byte, at any position and with or without reallocation. Character reads return the character at that index, and reading or writing at or past the length is reported as out of range. Views describe exactly the requested part of the viewed text or buffer and share its bytes.",
  ["inputs", "histories"], "all string contents, lengths, indices and counts",
  "No string tests exist.", [S], [("editing", "ZyanStringAppend, ZyanStringInsert, ZyanStringDelete, ZyanStringTruncate, ZyanStringResize, ZyanStringConcat"), ("views", "ZyanStringViewInside*")], "text and length of the string or view")
p("C09", "String search returns the exact first or last occurrence",
  "Left search returns true and the smallest index in the searched range at which the needle occurs, and false and -1 if it does not occur there; right search likewise with the largest such index, its range being the `count` characters in front of `index`. An occurrence lies completely inside of the range, an empty needle never occurs, and a range that does not fit the haystack is reported as out of range. The case-insensitive variants do the same with ASCII letters compared without regard to case and all other bytes compared exactly. No search reads outside the two operands or modifies them.",
  ["inputs"], "all haystacks, needles, and sub-ranges",
  "No string tests exist.", [S], [("search loops", "ZyanStringLPosEx, ZyanStringLPosIEx, ZyanStringRPosEx, ZyanStringRPosIEx")], "status and found index")
p("C10", "String comparison is a consistent total order and case mapping is exact",
  "Comparing two strings reports zero and equality exactly when they have the same bytes. Otherwise the shorter string is ordered first, and among strings of equal length the first differing character (as a plain `char`, after folding ASCII letters to lower case in the case-insensitive variant) decides, so that the sign is antisymmetric and transitive; the case-insensitive comparison reports equality exactly when the strings differ only in ASCII letter case. Case conversion maps exactly the ASCII letters in the given range to the requested case and leaves every other byte, and everything outside the range, unchanged. Comparison never reads outside the two operands.",
  ["inputs"], "all pairs of strings and all conversion ranges",
  "No string tests exist.", [S], [("comparison", "ZyanStringCompare, ZyanStringCompareI"), ("case conversion", "ZyanStringToLowerCaseEx, ZyanStringToUpperCaseEx")], "status, comparison result, bytes")
p("C11", "Number formatting is exact for every 64-bit value",
  "Appending a number writes exactly its decimal or hexadecimal digits, most significant first, left-padded with zeros to the requested minimum width, preceded for the signed variants by the sign (minus, or plus if forced) and then the given prefix, after the unchanged existing text. Hexadecimal letter case follows the request. If the text does not fit or memory runs out, the error is reported and the string is still well-formed and starts with its previous text.",
  ["inputs"], "all 64-bit values, padding widths and destination strings",
  "No formatting tests exist; digit conversion cannot be sampled meaningfully over 2^64 values.",
  [F, "include/Zycore/Format.h"], [("digit conversion", "ZyanStringAppendDecU64, ZyanStringAppendHexU64"), ("wrappers", "ZyanStringAppendDecU/S, ZyanStringAppendHexU/S")], "text of the destination")
p("C12", "Formatted append keeps the text and never overruns the string",
  "Appending printf-style formatted text adds exactly the formatted output after the unchanged existing text and keeps the string well-formed, whatever the output length. If formatting fails or the output does not fit a caller-supplied buffer or memory runs out, the call reports failure and the string keeps its previous text. Nothing outside the string's buffer is written.",
  ["inputs", "fault_sequences"], "all output lengths (up to the limit of the C library call), string states and allocator outcomes",
  "No formatting tests exist.", [F], [("two-pass formatting", "ZyanStringAppendFormat in src/Format.c")], "text, size and status")
p("C13", "Bitset single-bit operations and sizes are exact for any bit count",
  "A bitset of n bits provides n usable bits, all zero after initialisation, for every n including those that are not multiples of eight. Set, reset, assign, toggle, test, push, pop, set-all, reset-all, flip and clear change exactly the bits they name to exactly the documented value, and no other bit and no size; and, or and xor combine the bits present in both operands and leave the source and both sizes alone (the destination's bits behind the source's size are unspecified, as documented). Calls with an out-of-range index, pops of an empty bitset and pushes that cannot get memory are reported and change nothing. Size and capacity queries are exact, and nothing outside the bitset's bytes is accessed.",
  ["inputs", "histories"], "all bit counts, bit indices and bit contents",
  "No bitset tests exist.", [B, "include/Zycore/Bitset.h"], [("bit addressing", "ZYAN_BITSET_* macros"), ("bit operations", "ZyanBitsetSet/Reset/Assign/Toggle/Test/Push/Pop/AND/OR/XOR/Flip")], "bits as reported by test, size, status")
p("C14", "Bitset aggregates report exactly the logical bits",
  "Count reports exactly the number of set bits among the bitset's bits. All, any and none report exactly whether all, at least one or no bit is set (all and none holding for the empty bitset). None of them is influenced by unused padding bits in the last byte, however they were produced.",
  ["inputs", "histories"], "all bit counts, bit contents and padding-bit contents",
  "No bitset tests exist.", [B], [("aggregate loops", "ZyanBitsetCount/All/Any/None")], "reported count / status")
p("C15", "List operations implement exact sequence semantics on a doubly linked chain",
  "Every list operation keeps a consistent doubly linked chain: following next links from the head or previous links from the tail visits the same size elements in opposite order and ends, and element access, push, emplace, pop, remove, clear, resize and destroy have exactly the documented effect on that sequence. Elements are neither lost, duplicated nor changed by operations on other elements, each removed element is passed to the destructor exactly once, and its node is released exactly once. Null-argument errors and allocation or constructor failures are reported and leave the list unchanged; if releasing a node fails, the failure is reported and the list is the rest without that node.",
  ["inputs", "histories", "fault_sequences"], "all list sizes, element sizes, contents, indices, and allocation/constructor failures",
  "No list tests exist.", [L, "include/Zycore/List.h"], [("chain maintenance", "ZyanListPushBack/Front, ZyanListEmplaceBack/Front, ZyanListPopBack/Front"), ("resize", "ZyanListResizeEx, ZyanListClear")], "sequence seen through Get/Next/Prev, size, status")
p("C16", "A list over a caller-supplied buffer hands out each slot to one live node",
  "A list over a caller-supplied buffer stores its nodes only inside that buffer, at non-overlapping slots, reuses slots of removed nodes, and reports insufficient buffer size, unchanged, exactly when no slot is left. It never calls an allocator. A list with an allocator obtains every node from it with the node size of its elements.",
  ["inputs", "histories"], "all buffer capacities, element sizes and histories of pushes, pops and removals",
  "No list tests exist.", [L], [("node allocation", "ZyanListAllocateNode, ZyanListDeallocateNode")], "node addresses, status")
p("C17", "Argument parsing follows the declared arguments exactly",
  "Parsing succeeds with exactly the sequence of (argument, value) pairs that the command line describes under the definitions: long and combined single-letter flags, values taken from the same or the next token, and unnamed arguments within the declared limits. Unknown or value-less arguments, too many or too few unnamed arguments and missing required arguments yield the documented error and report the offending token. Parsing never reads outside the argument strings and array.",
  ["inputs", "configurations"], "all argument vectors and definition tables",
  "The tests cover about twenty fixed command lines.", [A, "include/Zycore/ArgParse.h"], [("parser loop", "ZyanArgParse in src/ArgParse.c")], "status, parsed vector, error token")
p("C18", "The default allocator never hands out less memory than requested",
  "Allocating n elements of size s through the default allocator either fails with not-enough-memory or yields a block of at least n * s bytes in exact arithmetic, also when the product overflows. A failed reallocation keeps the old block valid and the caller's pointer unchanged, and a successful one preserves the content up to the smaller size. Custom allocators are accepted exactly when all three callbacks are given, are stored as given, and null arguments are rejected.",
  ["inputs", "fault_sequences"], "all element sizes and counts, all system allocator outcomes",
  "No allocator tests exist, and overflowing requests are never made.", [AL, "include/Zycore/Allocator.h"], [("default allocator", "ZyanAllocatorDefaultAllocate/Reallocate/Deallocate"), ("ZyanAllocatorInit", AL)], "status, block size, pointer")
p("C19", "The no-libc replacement functions match the C standard",
  "In the build without a C library, each replacement memory and string function (copy, move, set, compare, length, search, bounded and unbounded string copy/concat/compare, tokenising) returns the value and leaves memory as the C standard specifies for the function it replaces. They read and write nothing beyond what the standard allows. This includes overlapping moves, empty and unterminated-but-bounded operands, and bytes above 127.",
  ["inputs"], "all lengths, contents and overlaps",
  "The build used by the tests has a C library, so these functions are not even compiled.", [LC], [("ZYAN_MEM*/ZYAN_STR* fallbacks", "include/Zycore/LibC.h under ZYAN_NO_LIBC")], "return value and memory")
p("C20", "Generated comparison functions, arithmetic macros and status codes are exact",
  "The generated equality functions report equality and the generated three-way comparison functions report the sign of the exact order for every pair of values of their type, without overflow, for plain values and for struct members. The arithmetic helper macros (minimum, maximum, absolute value, power-of-two test, alignment test and up/down alignment) return the mathematically exact result for every in-range argument. Status codes decompose into exactly the module, code and error flag they were built from, and version numbers likewise.",
  ["inputs"], "all pairs of values of each supported type",
  "No tests exist for these headers; a subtraction-based comparison passes any sampled test with small values.", ["include/Zycore/Comparison.h", "include/Zycore/Defines.h", "include/Zycore/Status.h", "include/Zycore/Zycore.h", "src/Zycore.c"],
  [("ZYAN_DECLARE_*COMPARISON*", "include/Zycore/Comparison.h"), ("ZYAN_MIN/MAX/ABS/IS_POWER_OF_2/IS_ALIGNED_TO/ALIGN_UP/ALIGN_DOWN", "include/Zycore/Defines.h"), ("ZYAN_MAKE_STATUS/ZYAN_SUCCESS/...", "include/Zycore/Status.h")], "returned values")
p("C21", "Operating-system wrappers report exactly what the system call reported",
  "Each memory, thread-storage, critical-section and terminal wrapper passes its arguments unchanged to the corresponding system facility and calls it the documented number of times. It returns success exactly when the system call succeeded and the documented error otherwise, and writes its outputs only on success. Every resource it acquires internally is released on every path.",
  ["inputs", "fault_sequences"], "all argument values and all outcomes of the underlying system calls",
  "No tests call these wrappers, and system-call failures cannot be provoked by ordinary tests.", ["src/API/Memory.c", "src/API/Thread.c", "src/API/Synchronization.c", "src/API/Terminal.c", "src/API/Process.c"],
  [("POSIX branches of the wrappers", "src/API/*.c")], "status, outputs and the system calls made")
p("C22", "Atomic operations are linearizable between threads",
  "Each atomic compare-and-exchange, increment and decrement takes effect indivisibly with respect to all other atomic operations on the same cell from any thread. Compare-and-exchange stores the new value exactly if the cell held the comparand and always returns the previous value. Increment and decrement return the value their own update produced.",
  ["schedules", "inputs"], "all interleavings and memory orders", "No test uses threads.", ["include/Zycore/Atomic.h", "include/Zycore/Internal/AtomicGNU.h"],
  [("compiler atomics", "include/Zycore/Internal/AtomicGNU.h")], "returned and stored values")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
