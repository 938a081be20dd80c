VEC = "Every obligation of the contracts of the vector functions is discharged for all element sizes, sizes, capacities, indices, counts, policies and allocator outcomes (no bound; loops by inferred inductive invariants). Trusts the VC generator in /verif/zvc, clang's IR and the solvers; allocator, constructor, destructor and comparison callbacks are assumed to meet their documented contracts."
STR = "Every obligation of the contracts of the string functions is discharged for all lengths, contents, capacities, indices, counts and allocator outcomes (no bound; the vector code they call is verified with them). Trusts the VC generator in /verif/zvc, clang's IR and the solvers; the allocator is assumed to meet its documented contract, and the source of an append or insert not to overlap the destination."
BIT = "Every obligation of the contracts of the bitset functions is discharged for all bit counts, indices, contents (padding bits included), capacities and allocator outcomes (no bound; the vector code they call is verified with them). Trusts the VC generator in /verif/zvc, clang's IR and the solvers; the allocator and the byte-operation callback are assumed to meet their documented contracts."
MAC = "Every instantiation of the macros (equality, ordering, field variants, min/max/abs, alignment, status and version macros, for all integer types the headers name) is proved exact for every operand value by bit-vector reasoning, loop-free. Trusts clang's IR, the VC generator and the solvers; operands of mixed widths are outside the claim."
ALC = "Every obligation of the allocator contracts is discharged for all element sizes and counts (products in exact arithmetic) and every outcome of malloc, calloc, realloc and free, which are assumed to meet the C standard. Trusts the VC generator, clang's IR and the solvers."
SYS = "Every obligation of the wrapper contracts is discharged for all arguments and every outcome of the system functions, which are replaced by arbitrary-outcome contracts (mutex attribute type setting is assumed not to fail for valid arguments). Linux/POSIX branches only. Trusts the VC generator, clang's IR and the solvers."
ATO = "Rely-guarantee contract: the cell may change arbitrarily between any two accesses, and each operation must be explained by one indivisible read-modify-write, for all values and all interferences; memory-order strength is not part of the claim. The lowering of clang's cmpxchg and atomicrmw instructions to indivisible machine operations is trusted; gcc-compatible branch only; progress under permanent interference is not claimed."
LIB = "Every obligation of the contracts of the replacement functions is discharged for all lengths, contents, bounds and overlaps (no bound; loops by inferred inductive invariants), each operand being exactly as large as the C standard lets the function touch. The tokenizer is verified over two consecutive calls (its state in between is what the first call left); collation is that of the C locale. Trusts the VC generator, clang's IR and the solvers."
FMT = "Every obligation of the contracts of the number formatting functions is discharged for all 64-bit values (given by their digits, one case per number of digits), paddings, prefixes, strings and allocator outcomes; the signed functions are proved against the contract of the unsigned ones. 64-bit targets only (the 32-bit helpers are not compiled). Trusts the VC generator, clang's IR and the solvers; the allocator is assumed to meet its documented contract."
FMS = "Every obligation of the contract of ZyanStringAppendFormat is discharged for all strings, formats, text lengths and allocator outcomes. The C library's vsnprintf is assumed: for one format and argument list it either yields the same text at every call (truncated to the given room, terminated) or fails; an argument list may be consumed once per va_start. Text lengths above INT_MAX are outside the claim. Trusts the VC generator, clang's IR and the solvers."
LST = "Every obligation of the contracts of the list functions is discharged for all element sizes, list lengths, buffer capacities (with any part of a slot left over), slot permutations and reuse chains, positions, ranges and outcomes of the allocator and constructor (no bound; loops by inferred inductive invariants over the links of every node). Nodes are numbered objects of an arena; link addresses are only compared for equality. Node pointers given by the caller belong to the list. Trusts the VC generator, clang's IR and the solvers; allocator, constructor and destructor callbacks are assumed to meet their documented contracts."
ARG = "Every obligation of the contract of ZyanArgParse(Ex) is discharged for all command lines, definition tables, limits and allocator outcomes (no bound; token and definition loops by inferred inductive invariants over the recursion that defines the meaning of a command line, zvc/args.py). The vector functions it calls are represented by their contracts (C01 to C04), strlen, strcmp, memcmp and strncmp by the C standard. Token, name and table lengths up to 2^47. Trusts the VC generator, clang's IR and the solvers; the allocator is assumed to meet its documented contract."
CLAIMED = {
 "C17": {"note": ARG},
 "C15": {"note": LST}, "C16": {"note": LST},
 "C12": {"note": FMS},
 "C11": {"note": FMT},
 "C19": {"note": LIB},
 "C18": {"note": ALC}, "C20": {"note": MAC}, "C21": {"note": SYS}, "C22": {"note": ATO},
 "C13": {"note": BIT}, "C14": {"note": BIT},
 "C07": {"note": STR}, "C08": {"note": STR}, "C09": {"note": STR}, "C10": {"note": STR},
 "C01": {"note": VEC}, "C02": {"note": VEC}, "C03": {"note": VEC}, "C04": {"note": VEC}, "C05": {"note": VEC}, "C06": {"note": VEC},
}
NA = {
}
