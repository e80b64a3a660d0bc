#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

A="arena/arena.hpp"; AC="arena/arena.cc"
p("C01","Arena allocations are in bounds, disjoint and aligned",
 "Every non-null pointer an Arena hands out (AllocateAligned with alignment 8, 16 or 32, AllocateAlignedAndAddCleanup, Create, CreateArray, its memory_resource) is aligned as requested and addresses at least the requested number of bytes inside one single block obtained from block_alloc. The region overlaps no other region handed out since the last Reset, no block bookkeeping and no cleanup record, so writing all of it changes nothing else.",
 ["inputs","histories","configurations"],
 "every 64-bit request size (including sizes near 2^64), every alignment in {8,16,32}, every order of allocations, cleanup registrations and block sizes, every placement of blocks by the block allocator",
 "Tests use a handful of sizes with one block layout; the failing cases are specific size/position/alignment coincidences and arithmetic wrap-around near 2^64.",
 [A,AC,"align/align.hpp"],
 [("allocateAligned / newBlock size computation",AC),("Block::alloc, AlignPos, has_enough_space",A)],
 ["pointers returned by the allocation calls","arguments of block_alloc"],
 [dict(name="block cursor and limit",meaning="first unused byte / start of cleanup records",where=A)])
p("C02","Allocation failure is reported as null and leaves the Arena usable",
 "When a request cannot be satisfied, because block_alloc returns null or because the size is not representable, the Arena call returns null (or false) instead of a region that is too small. It creates no object, registers no cleanup and counts no allocation that did not happen, everything handed out before stays valid, and later requests that can be satisfied succeed.",
 ["inputs","fault_sequences","histories"],
 "every request size and element count, every position at which block_alloc fails within a bounded history",
 "Tests stub one failing allocator call; they do not combine failures with arbitrary positions, sizes and histories.",
 [A,AC],[("newBlock null check and size overflow check",AC),("Create / CreateArray / AllocateAlignedAndAddCleanup / Own failure paths",A)],
 ["return values","hook calls","later allocations"])
p("C03","Arena cleanups run exactly once, newest first",
 "Every cleanup accepted by an Arena (destructors of objects made with Create, Own-ed objects, AllocateAlignedAndAddCleanup callbacks) runs exactly once, with the argument it was registered with, at the next Reset or at destruction of the Arena, whichever comes first, and never before. Cleanups run in reverse order of registration across all blocks, while the memory of the Arena is still readable.",
 ["histories","inputs"],
 "every bounded history of registrations, allocations that force new blocks, Resets and destruction, for every size of the allocations in between",
 "Tests check counts on one or two fixed histories; order and exactly-once across block boundaries and repeated Resets is not determined by them.",
 [A,AC],[("register_cleanup / run_cleanups",A),("free_all_blocks / free_blocks_except_head / Block::Reset",A)],
 ["sequence of cleanup callbacks","destructor calls"])
p("C04","Arena returns every block exactly once and reuses only the first",
 "Every block obtained through block_alloc is passed to block_dealloc exactly once, with the address block_alloc returned: all but the first at Reset, all remaining ones at destruction, and no other pointer is ever passed. After Reset the first block is reused from its beginning, so the same sequence of requests that fit in it is served again without a new block, and an Arena that allocated nothing frees nothing.",
 ["histories","inputs"],
 "every bounded history of allocations of any size, Resets and destruction",
 "Tests count deallocations on one history with fixed sizes.",
 [A,AC],[("free_blocks_except_head, free_all_blocks, Block::Reset",A)],
 ["block_alloc / block_dealloc calls"])
p("C05","Arena space accounting and hooks describe what happened",
 "SpaceAllocated equals the sum of the sizes of the blocks currently held, Reset returns the value it had before, and SpaceRemains is exactly the contiguous 8-aligned space the current block can still serve without a new block. Each block is announced once to on_arena_newblock with its index in the chain and its size, each successful allocation once to on_arena_allocation with the requested size (and type), and the reset and destruction hooks receive the cookie made by on_arena_init, the space held and the space left unused.",
 ["histories","inputs"],
 "every bounded history of allocations of every size, Resets and destruction",
 "Tests compare a few fixed numbers; the relation must hold after every history.",
 [A,AC],[("_space_allocated updates",AC),("hook invocations",A)],
 ["SpaceAllocated, SpaceRemains, Reset result","hook arguments"])
p("C06","Objects created in an Arena are constructed as requested",
 "Create<T>(args...) yields a T constructed from exactly those arguments inside the Arena, properly aligned for T, given access to the Arena when T accepts an Arena reference or a polymorphic allocator; CreateArray<T>(n) yields n consecutive constructed elements. The destructor is scheduled exactly when T is not trivially destructible and has not opted out of destruction, and Own schedules deletion of the given object.",
 ["inputs","programs"],
 "every argument value and element count, for the supported kinds of types (trivial, tagged, arena-constructed, allocator-aware, over-aligned)",
 "Tests construct each kind with one set of values.",
 [A,"arena/arenahelper.hpp"],[("Create, CreateArray, Construct, RegisterDestructor",A),("ArenaHelper traits","arena/arenahelper.hpp")],
 ["object state after Create","cleanups run"])
p("C07","Arena::check classifies every address",
 "check(p) says 'used' for every byte of a region handed out since the last Reset, 'unused' for bytes of the block that are still available, 'cleanup' for bytes of cleanup records, 'header' for block bookkeeping and 'not contained' for every address outside the blocks the Arena currently holds.",
 ["inputs","histories"],
 "every address, after every bounded history of allocations, cleanup registrations and Resets",
 "Tests probe a few addresses.",
 [AC],[("Arena::check",AC)],["return value of check"])
p("C08","Moving an Arena transfers everything",
 "After constructing an Arena from another by move, the new one owns all blocks, cleanups, cookie and accounting of the old one: regions handed out before stay valid, allocation (directly and through its memory_resource) continues in the same block, and cleanups and block releases happen exactly once, when the new Arena is reset or destroyed. The moved-from Arena holds no memory and can be destroyed safely, also when hooks are installed.",
 ["histories","inputs"],
 "every bounded history before and after the move, both destruction orders",
 "Tests check a few fields after one move.",
 [A],[("Arena(Arena&&)",A)],["allocations after the move","cleanups, releases and hooks at destruction"])
p("C09","Arena memory_resource is a conforming, monotonic resource",
 "get_memory_resource() allocates from its Arena with the requested size and alignment under the same guarantees as direct allocation, treats deallocation as a no-op so later allocations never reuse live memory, throws std::bad_alloc when the Arena cannot satisfy the request, and compares equal exactly to resources of the same Arena.",
 ["inputs","histories"],
 "every size and supported alignment, every bounded interleaving of allocate/deallocate with direct allocation, every pair of arenas or foreign resources",
 "Tests run one pmr container scenario.",
 [A],[("Arena::memory_resource",A)],["pmr allocate/deallocate/is_equal"])
p("C10","Alignment helpers and size literals compute exact values",
 "AlignUpTo<N>(n) and AlignUp(n,b) return the smallest multiple not below n, for every n whose result is representable, and _KB, _MB, _GB multiply the decimal literal by 2^10, 2^20 and 2^30.",
 ["inputs"],
 "all 64-bit n, all N in 8..4096 powers of two, every block size; every decimal literal up to the bound whose product is representable",
 "Tests evaluate a few constants.",
 ["align/align.hpp","memory.hpp"],[("AlignUpTo, AlignUp","align/align.hpp"),("stoi, literal operators","memory.hpp")],["return values"])
p("C11","Per-thread arena metrics equal the sums of the observed events",
 "After any sequence of arena probe events on a thread, its metrics hold exactly the number of inits, allocations, new blocks, resets and destructions and the sums of allocated, reclaimed, used and wasted space; each allocation size is counted in the first size bucket whose bound is not below it, each arena lifetime, in whole milliseconds, in the first lifetime bucket whose bound is not below it, and allocated bytes are attributed to the source location that created the arena.",
 ["histories","inputs"],
 "every bounded sequence of probe events with every size and every lifetime",
 "Tests feed fixed sizes and short lifetimes.",
 ["arena/metrics.hpp"],[("metrics_probe_on_arena_*, LocalArenaMetrics","arena/metrics.hpp")],["fields of the per-thread metrics"])
p("C12","Reporting metrics conserves every counter",
 "Reporting per-thread metrics to the global metrics adds each local counter, bucket and per-location sum to its global counterpart and clears the local one, so that the total over local and global metrics never changes; resetting global metrics sets every counter to zero.",
 ["histories","inputs"],
 "every counter value and every bounded sequence of reports",
 "Tests check one or two reports with fixed numbers.",
 ["arena/metrics.hpp"],[("report_to_global_metrics, reset","arena/metrics.hpp")],["local and global metrics before/after"])
p("C31","The metrics report shows every global counter",
 "The text of GlobalArenaMetrics::string() shows each global counter on a line of its own with its current value, for every size and every lifetime bucket the percentage (rounded down) of all allocations or destructions that fall into this or a smaller bucket, and one line with the bytes of every source location. It can be produced at any time, also before the first allocation or destruction and after a reset, when every percentage is 0.",
 ["inputs","histories"],
 "every value of every counter and bucket, every number of locations, every bounded sequence of events, reports and resets",
 "No test looks at the text.",
 ["arena/metrics.hpp"],[("GlobalArenaMetrics::string","arena/metrics.hpp")],["returned text"])

V="container/stdb_vector.hpp"
p("C13","stdb_vector behaves as the sequence its operations describe",
 "For every operation of stdb_vector (construction, push/emplace/insert, erase, erase by value or predicate, pop, resize, assign, copy, move, swap, clear, reserve, shrink_to_fit), the resulting element sequence, the returned position or count and the contents of the other operand are those the same operation has on std::vector, also when an argument of push_back, emplace_back, emplace, insert or resize refers to an element of the vector itself; only erase of a range returns its second argument, as the tests fix it. Moved-from vectors are empty and reusable.",
 ["inputs","histories"],
 "every bounded sequence of operations with every element value, position, count and fill level, for trivially copyable and for class element types",
 "Tests run each operation on a few vectors; wrong results need particular combinations of position, count, spare capacity and aliasing.",
 [V],[("insert/erase/emplace/resize/assign",V),("move_forward/move_backward, realloc_with_move",V)],["element sequence, return values"])
p("C14","stdb_vector element lifetimes are balanced",
 "For class-type elements, whose constructors do not throw, every constructed element is destroyed exactly once and no operation reads, assigns to or destroys memory in which no element lives, so that after the vector is destroyed no element and no buffer is left. Operations neither duplicate nor lose ownership held by elements.",
 ["histories","inputs"],
 "every bounded sequence of operations, positions, counts and fill levels, for an element type that tracks its own lifetime",
 "Tests count constructions on a few sequences.",
 [V],[("destroy_range, copy_range, move_range_*",V)],["constructor/destructor events, allocations"])
p("C32","An element whose construction throws leaves the vector valid",
 "When constructing an element throws, from a value, from another element or by default, the exception reaches the caller and nothing is leaked or destroyed twice: an existing vector still consists of exactly the elements that are alive within its capacity and can be used, cleared and destroyed; after a failed push_back or emplace_back it is unchanged; a vector whose constructor fails releases its buffer and the elements already made. Moves must not throw.",
 ["histories","inputs"],
 "every operation with every position, count, fill level and spare room, the exception at every point at which an element is constructed",
 "No test has an element type that throws.",
 [V],[("construct_range, construct_in_gap, realloc_and_emplace_back",V)],["elements alive","contents","heap"])
p("C15","stdb_vector never leaves its buffer and keeps its capacity promises",
 "size() <= capacity() always, max_size() is never exceeded, reserve(n) gives capacity >= n without changing contents, elements do not move and no allocation happens while the size stays within capacity, growth by push is geometric (by at least a quarter beyond the first 64 bytes), shrink_to_fit releases spare space, and the write buffer returned by get_writebuffer(n) is n elements long, belongs to the vector and is appended after the existing contents. Elements are aligned for their type. No access leaves the allocated buffer, and when memory is exhausted or a size is not representable std::bad_alloc is thrown and the vector stays valid and usable, with its elements unchanged when reserve, shrink_to_fit, push_back, emplace_back or resize failed.",
 ["inputs","histories","fault_sequences"],
 "every size, capacity and request within the bound, every position of an allocation failure",
 "Tests check capacities of a few sequences and never let allocation fail.",
 [V],[("compute_next_capacity, reserve, realloc_with_move, get_writebuffer",V)],["capacity(), data(), allocator calls"])
p("C16","stdb_vector access, iteration and comparison agree",
 "Indexing, at, front, back, data, forward/reverse iterators (including arithmetic and comparison) and range-for all present the same elements in the same order; ==, <=> and the relational operators are the elementwise/lexicographic relations on that sequence, with unordered elements (NaN) as for std::vector.",
 ["inputs"],
 "every pair of bounded sequences with every element value",
 "Tests compare a few literal vectors.",
 [V],[("iterators, operator==, operator<=>",V)],["values seen through each access path"])

S="string/string.hpp"; AS="string/arena_string.hpp"
p("C17","string modifiers produce what std::string would",
 "Construction, assignment, append, push_back, insert, erase, replace, resize, reserve, clear, pop_back, swap, substr and concatenation of stdb::memory::string yield the same contents, size and return value as std::string given the same arguments, across all storage classes and their boundaries, also when an argument points into the string itself or the string shares its buffer with a copy. size() <= capacity(), c_str()[size()] is the terminator, and reserve(n) gives capacity >= n.",
 ["inputs","histories"],
 "all contents, positions and counts (full 64-bit, including npos and beyond-the-end), lengths around the small/medium/large boundaries, every source/target storage class and sharing state",
 "Tests use random strings of moderate length; boundary lengths combined with aliasing, sharing and extreme positions are not enumerated.",
 [S],[("string_core::{expandNoinit,shrink,reserve*,initSmall/Medium/Large}",S),("basic_string::{replaceAliased,insertImpl,replaceImpl}",S)],
 ["contents, size, capacity, terminator"])
p("C18","string searching matches std::string",
 "find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of, contains, starts_with, ends_with and copy return, for every needle form (string, pointer, pointer with length, character, view), position and length, the result std::string gives.",
 ["inputs"],
 "all haystack and needle contents and lengths up to the bound, embedded NULs included, every 64-bit position",
 "Tests sample random haystacks and positions.",
 [S],[("basic_string::find*, rfind, contains, copy",S)],["return values"])
p("C19","Copies of a string are independent",
 "Copying, assigning or sharing a string and then modifying or destroying one of the strings through any mutating member (including writes through references and iterators obtained from non-const accessors) never changes the contents observed through any other, whatever their storage class and the order of destruction.",
 ["histories","inputs"],
 "every bounded history of copies, mutations through every mutator, and destructions over up to three strings in every storage class",
 "Tests mutate a copy in a few ways; copy-on-write breaks only for particular mutators on shared large strings.",
 [S,AS],[("RefCounted::{incrementRefs,decrementRefs}, unshare, mutableDataLarge",S)],["contents of all strings after each step"])
p("C20","Strings own and release their storage exactly once",
 "Over any history every buffer a string allocates is released exactly once, no string reads or writes outside a live buffer, and moved-from, swapped, self-assigned, shrunk and cleared strings remain valid strings that can be reused and destroyed. When memory is exhausted std::bad_alloc, and when a size exceeds max_size() std::length_error, is thrown and the string stays valid.",
 ["histories","inputs","fault_sequences"],
 "every bounded history over the storage classes, every failing allocation within it",
 "Tests run under ASan on sampled histories without allocation failures.",
 [S],[("string_core ctor/dtor/move/swap, RefCounted::reallocate, smartRealloc",S)],["allocator calls, memory accesses"])
p("C21","Out-of-range string requests throw and change nothing",
 "Every member that takes a position (at, substr, copy, compare, insert, erase, replace, append/assign from a substring) throws std::out_of_range exactly when the position exceeds the size, and then, as for every request whose resulting size exceeds max_size, leaves all strings unchanged; positions equal to the size and counts reaching beyond the end are accepted and clipped.",
 ["inputs"],
 "every 64-bit position and count, every storage class",
 "Tests check single positions just past the end.",
 [S],[("enforce/out_of_range checks in basic_string",S)],["exceptions and contents"])
p("C22","String comparison is a total order consistent with equality and hash",
 "compare and the relational operators between strings, character pointers, views and std::string all implement the lexicographic order of the character sequences as std::string does (unsigned characters, embedded NULs included); equal strings, whatever their storage class or origin, have equal hashes, and string and arena_string hash equal for equal contents.",
 ["inputs"],
 "all contents up to the bound, including bytes >= 0x80 and NULs, every pair of storage classes",
 "Tests compare sampled ASCII strings.",
 [S,AS],[("operator==, <=>, compare, std::hash",S)],["comparison results, hash values"])
p("C23","arena_string is a string that lives in its Arena",
 "arena_string operations give the same results as string for the same arguments, take all their memory from the allocator they were constructed with, keep using it across copies, moves, growth, substr and assignment, and stay valid until the Arena is reset or destroyed.",
 ["inputs","histories"],
 "contents, positions, counts and lengths around the storage boundaries, every bounded history of operations on strings of one or two arenas",
 "Tests exercise a few operations on one arena.",
 [AS,S],[("arena_string_core, arena_smartRealloc, RefCounted::create",AS)],["contents; allocator calls; Arena::check of the data"])
p("C24","Conversions between string types preserve the characters",
 "Converting between string, arena_string, std::string, pmr strings, string_view, pointers and literals in either direction, and formatting with fmt, preserve every character and the length, including embedded NULs, whatever the storage class, and leave the source unchanged unless it is moved from.",
 ["inputs"],
 "all contents and lengths up to the bound in every storage class",
 "Tests convert a few fixed strings.",
 [S,AS],[("conversion constructors/operators, toStdString, to_string",S)],["contents after conversion"])

O="optparse/optparse.hpp"; OC="optparse/optparse.cc"
p("C25","Every command-line argument is consumed or reported as invalid",
 "parse_args accounts for each argv element after the program name exactly once: it is a registered option (its text up to '=', without trailing blanks, is one of the option's names), the value (or, for Append, one of the values) of the option before it, or it is returned by invalid_args as the very same pointer, in the original order. get_raw_argc/get_raw_argv return the program name followed by exactly those, a second parse (also by a copied or moved parser) starts afresh, and parsing throws std::logic_error exactly when an option that is not of type Bool is given without a value.",
 ["inputs"],
 "every bounded argument vector over arbitrary short argument strings and a fixed set of registered options",
 "Tests parse a handful of command lines.",
 [O,OC],[("parse_args, handle_opt, extract_arg_type",OC)],["invalid_args, get_raw_argc/argv, values"])
p("C26","Option values follow action, type and precedence",
 "For each registered option the value store holds what its action and type prescribe for the arguments given: Store keeps the last value, StoreTrue/StoreFalse the flag (or the given value), Append every value in order (splitting at commas, without empty parts and surrounding blanks), Count the number of occurrences, Choice only members of the choices; numbers are read as operator>> reads them, zero when there is no number. '--name=value' and '--name value' are equivalent. A value given on the command line always wins over default and environment, the default is used when nothing was given, the environment variable when there is neither, and user_set tells whether any of them stored a value. Single and list reads of the store, typed or not, give back exactly what was stored, and the lists given out are copies.",
 ["inputs","configurations"],
 "every bounded argument vector and option configuration within the bound",
 "Tests cover one command line per action.",
 [O,OC],[("process_opt, ValueStore, parse_args default/env passes",OC)],["ValueStore get/get_list/user_set"])
p("C27","Option registration keeps names unambiguous",
 "A parser accepts exactly the prefixes - + # $ & and %. Adding options accepts exactly the names an argument can match (one prefix character followed by anything but a second prefix for short names, two prefix characters and at least one more for long ones, no '=' and no trailing blank), rejects other names, options without names and, under the Error policy, duplicates with std::logic_error without changing the parser, and under Replace makes the name refer to the newest option; every registered name then resolves to the option that registered it, also after the parser was copied or moved. Parsing refuses exactly the options that have no action, no destination (the first long name by default) or choices without being of type Choice.",
 ["inputs","histories"],
 "every name up to the bound, every bounded sequence of registrations, both policies and any prefix character",
 "Tests register a few valid options.",
 [O,OC],[("add_option, extract_option_type, Option::validate",OC)],["exceptions, values reached through each name"])
p("C28","Help, usage and version texts describe the registered options",
 "format_help starts with the usage and lists every option once, in order of registration, with all its names, its type and its help text, the help texts starting in one column, for any parser including one without options; format_usage returns the text set by usage(), or else the program name followed by every option's first name (and upper-case destination for Bool options); format_verison returns the text set by version() or add_version_option(), or else the program name with 0.0.0. Texts that were set survive parsing, and generated ones follow options and program names added later.",
 ["inputs","histories"],
 "all short names, destinations and texts, every bounded sequence of setting, registering, parsing and formatting",
 "Tests print one help text and check that it is not empty.",
 [O,OC],[("format_help, format_usage, format_verison, add_help_option, add_usage_option, add_version_option",OC)],["returned texts"])
p("C29","Strings are read from and written to streams as std::string is",
 "operator>>, getline and operator<< of a string give the same as those of std::string: for every stream content, stream state, width, delimiter, fill, adjustment, skipws setting and exceptions mask the same characters end up in the string (which is left alone when the stream was not ready), the same characters are consumed or written, however long the text, the stream is left with the same state bits and width, and an exception is thrown exactly when std::string's would be. A copy made before keeps its contents.",
 ["inputs","faults"],
 "every bounded stream content and configuration, compared with std::string's own operators over the same libstdc++ stream code",
 "Tests read a few lines from a good stream.",
 ["string/string.hpp"],[("operator>>, operator<<, getline, getlineImpl","string/string.hpp")],["characters read, stream state, characters written"])
p("C30","A clone or an unshared string can be given to another thread",
 "Buffers of large strings are shared between copies and counted without atomics. A string made with clone(), or one whose buffer no copy shares, can nevertheless be given to another thread: whatever the two threads then do with their own strings (modify, copy, move, destroy, give back), no operation of one touches memory - characters or reference count - that belongs to the other, and contents change only by the owner's operations. With CROSS_THREAD_CHECKING, debug builds let all programs pass that hand over clones or strings never copied, and abort when a string copied by one thread is copied or destroyed by another.",
 ["histories","inputs","schedules"],
 "every storage state, length, way of handing over, following operation of either thread and order of the operations within the bound",
 "Tests start a thread for three strings; a data race or a shared counter does not show in their output.",
 ["string/string.hpp"],[("clone, unshare, RefCounted, cross-thread assertions","string/string.hpp")],["memory touched by each operation, contents, assertions"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
