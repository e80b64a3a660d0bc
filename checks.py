"""Which harness entry points decide which property, with their bounds."""
ARENA = ["arena/arena.cc"]
NA = {}
OPT = ["optparse/optparse.cc"]
OPTF = ["-DFMT_HEADER_ONLY", "-I" + __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/harness/shim"]
OPTO = "calling parse_args(vector, argv) directly (it takes the argument count of an earlier call), get_raw_argv before any parse, keeping the reference add_option returns beyond the next add_option, and number extraction by the string streams, which is modelled (harness/shim/sstream)"
NDT = ["ndebug", ("debug", "thorough")]
def E(name, src, quick=None, thorough=None, covers=(), **kw):
    return dict(name=name, src=src, quick=quick or {}, thorough=thorough if thorough is not None else (quick or {}), covers=list(covers), **kw)
CHECKS = {
    "C01": dict(
        repo=ARENA,
        bounds="K allocations per history (quick 2 of any 64-bit size and 3 of size < 1024; thorough 3 and 4), alignment 8/16/32; 4 option sets; blocks at the 16-byte phases of 64 bytes; histories of every kind of request and cleanup and Reset (quick 3, thorough 4) with sizes that leave 0, 8 or 16 bytes of the block; 4000 allocations in a row",
        entries=[
            E("c01_any_size", "c01.cc", dict(K=2, _split=[("opts", 0, 3)]), dict(K=3, _split=[("opts", 0, 3), ("skew", 0, 3)]), ["refused", "second block", "all served"]),
            E("c01_mixed", "c01.cc", dict(K=3, _split=[("opts", 0, 3)]), dict(K=4, _split=[("opts", 0, 3), ("op0", 0, 6)]), ["second block", "own", "reset"]),
            E("c01_history", "c01.cc", dict(K=3, _split=[("opts", 0, 3)]), dict(K=4, _split=[("opts", 0, 3), ("skew", 0, 3)]), ["refused", "second block", "all served"]),
            E("c01_many", "arena_many.cc", dict(K=4000), covers=["done"]),
        ]),
    "C02": dict(
        repo=ARENA,
        bounds="histories of K operations (quick 2, thorough 3; likewise with any 64-bit size or count), every choice of failing block_alloc calls",
        entries=[
            E("c02_history", "c02.cc", dict(K=2, _split=[("init", 0, 1)]), dict(K=3, _split=[("init", 0, 1), ("op0", 0, 4)]), ["failed", "served", "create failed late"]),
            E("c02_any_size", "c02.cc", dict(K=2, _split=[("init", 0, 1), ("op0", 0, 2)]), dict(K=3, _split=[("init", 0, 1), ("op0", 0, 2)]), ["failed", "served"]),
            E("c02_init", "c02.cc", covers=["done"]),
        ]),
    "C03": dict(
        repo=ARENA, bounds="histories of K operations (quick 4, thorough 5) with request sizes 0..95 and two block configurations; 400 (thorough 66000) cleanups in a row",
        entries=[
            E("c03_history", "c03.cc", dict(K=4, _split=[("cfg", 0, 1), ("op0", 0, 4)]), dict(K=5, _split=[("cfg", 0, 1), ("op0", 0, 4)]),
              ["reset with cleanups", "reset across blocks", "destroyed across blocks", "destroyed after reset"]),
            E("c03_odd_blocks", "c03.cc", covers=["two"]),
            E("c03_uses_memory", "c03.cc", covers=["newer block", "same block"]),
            E("c03_many", "arena_many.cc", dict(K=400), covers=["reset", "done"]),
            E("c03_most", "arena_many.cc", {}, dict(K=66000, _split=[("block", 0, 2)]), covers=["done"], tiers=("thorough",)),
        ]),
    "C04": dict(
        repo=ARENA, bounds="histories of K operations (quick 4, thorough 5; with any blocks refused 3 and 4) with request sizes 0..400; replay of 3 (thorough 4) requests after Reset; chains of 400 (thorough 66000) blocks, 400 Resets",
        entries=[
            E("c04_history", "c04.cc", dict(K=4, _split=[("cfg", 0, 1), ("op0", 0, 3)]), dict(K=5, _split=[("cfg", 0, 1), ("op0", 0, 3)]), ["reset releases", "reset of an empty arena", "unused"]),
            E("c04_refused", "c04.cc", dict(K=3, _split=[("op0", 0, 3)]), dict(K=4, _split=[("cfg", 0, 1), ("op0", 0, 3)]), ["reset releases", "reset of an empty arena", "own refused"]),
            E("c04_reuse", "c04.cc", dict(K=3), dict(K=4), ["all fitted", "more blocks"]),
            E("c04_many", "arena_many.cc", dict(K=400, R=3), dict(K=66000, R=1, _split=[("deep", 0, 1)]), ["done"]),
        ]),
    "C05": dict(
        repo=ARENA, bounds="histories of K operations (quick 3, thorough 4) with request sizes 0..511, three block configurations; every subset of the five hooks; chains of 300 (thorough 1000) blocks",
        entries=[
            E("c05_history", "c05.cc", dict(K=3, _split=[("cfg", 0, 2), ("op0", 0, 5)]), dict(K=4, _split=[("cfg", 0, 2), ("op0", 0, 5)]),
              ["reset of several blocks", "second block", "cleanup moves on", "cleanup in its own block", "destroyed"]),
            E("c05_remains", "c05.cc", covers=["grew", "fitted"]),
            E("c05_subset", "c05.cc", covers=["done"]),
            E("c05_many", "c05.cc", dict(K=300), dict(K=1000), covers=["done"]),
        ]),
    "C06": dict(
        repo=ARENA, bounds="twelve kinds of types with every combination of argument categories, five kinds of array elements with counts 0..5 (thorough 0..9), every argument value, every word position of the cursor modulo 48 bytes, every block phase modulo 64",
        entries=[
            E("c06_create", "c06.cc", dict(_split=[("kind", 0, 11)]), covers=["done"]),
            E("c06_array", "c06.cc", dict(N=5, _split=[("kind", 0, 4)]), dict(N=9, _split=[("kind", 0, 4)]), covers=["done"]),
            E("c06_own", "c06.cc", covers=["done"]),
        ]),
    "C07": dict(
        repo=ARENA, bounds="any 64-bit address, after histories of K operations (quick 3, thorough 4) with request sizes 0..127",
        entries=[E("c07_check", "c07.cc", dict(K=3, _split=[("cfg", 0, 1), ("op0", 0, 2), ("op1", 0, 2)]), dict(K=4, _split=[("cfg", 0, 1), ("op0", 0, 2), ("op1", 0, 2)]),
                   ["reset", "cleanup", "used", "unused", "outside", "cleanup after growth", "cleanup in place", "empty"])]),
    "C08": dict(
        repo=ARENA, bounds="histories of K operations before and K-1 after the move (quick 2, thorough 3), both destruction orders, with all hooks, only the destruction hook, only the reset hook, or neither",
        entries=[E("c08_move", "c08.cc", dict(K=2, _split=[("hooks", 0, 3)]), dict(K=3, _split=[("hooks", 0, 3)]), ["reset", "done"])]),
    "C09": dict(
        repo=ARENA, bounds="histories of K operations (quick 3, thorough 4) with sizes 0..255 and alignments 1..32; histories of 2 (thorough 3) requests of any 64-bit size with every choice of refused blocks; all pairs of resources of two arenas and a foreign one",
        entries=[
            E("c09_history", "c09.cc", dict(K=3, _split=[("skew", 0, 1), ("op0", 0, 1)]), dict(K=4, _split=[("skew", 0, 3), ("op0", 0, 1)]), ["deallocated", "second block"]),
            E("c09_equal", "c09.cc", covers=["done"]),
            E("c09_exhausted", "c09.cc", dict(K=2), dict(K=3), ["served", "refused"]),
        ]),
    "C10": dict(
        repo=[], bounds="AlignUpTo: all 64-bit n, N = 8..4096; AlignUp: all 64-bit n for powers of two up to 2^40 and (32-bit n in the quick tier) eight other block sizes, n < 256 (thorough 8192) with every b < 32 (thorough 128), the 2b topmost n for fourteen b; literals of up to 5 (thorough 9) digits",
        entries=[
            E("c10_align_up_to", "c10.cc", covers=["representable"]),
            E("c10_align_up_pow2", "c10.cc", covers=["rounded", "exact"]),
            E("c10_align_up_small", "c10.cc", dict(N=255, B=31), dict(N=8191, B=127), covers=["rounded", "exact"]),
            E("c10_align_up_wide", "c10.cc", dict(bits=32, _split=[("bi", 0, 7)]), dict(bits=64, _split=[("bi", 0, 7)]), covers=["wide"]),
            E("c10_align_up_top", "c10.cc", dict(_split=[("bi", 0, 13)]), dict(_split=[("bi", 0, 13)]), covers=["rounded", "exact"]),
            E("c10_literals", "c10.cc", dict(L=5, _split=[("len", 1, 5)]), dict(L=9, _split=[("len", 1, 9)]), covers=["done"]),
        ]),
    "C11": dict(
        repo=ARENA + ["arena/metrics.cc"], bounds="histories of K events (quick 3, thorough 4) over up to four arenas and three source locations, every 64-bit size, every lifetime",
        entries=[
            E("c11_probes", "c11.cc", dict(K=3, _split=[("loc0", 0, 1), ("op0", 0, 4)]), dict(K=4, _split=[("loc0", 0, 1), ("op0", 0, 4)]), ["allocation", "destroyed", "several locations"]),
            E("c11_arena", "c11.cc", dict(K=2), dict(K=3), ["reset", "done"]),
            E("c11_buckets", "c11.cc", covers=["done"]),
        ]),
    "C12": dict(
        repo=ARENA + ["arena/metrics.cc"], bounds="K reports (quick 1, thorough 2) with every value of every counter and every subset of three locations on each side; histories of K events (quick 3, thorough 4) with reports in between",
        outside="reports of several threads at the same time (the header documents the metrics as lock-free and racy)",
        entries=[
            E("c12_report", "c12.cc", dict(K=1), dict(K=2), ["reported", "reset"]),
            E("c12_history", "c12.cc", dict(K=3), dict(K=4), ["reported"]),
        ]),
    "C31": dict(
        repo=ARENA + ["arena/metrics.cc"], flags=["-DFMT_HEADER_ONLY"],
        bounds="any counter with every value of four ranges of 256 (from 2^10, 2^20, 2^40 and up to 2^64-1) and twenty values of one to twenty digits and up to three locations; every pair of buckets of either distribution with counts of up to 15 and 2 out of totals of 0, 1, 3, 31, 200, 10^9+7 and 2^40; up to two allocations, a reset and a destruction before the report, and the report after a reset of the metrics",
        outside="counters above 2^64/100 in the distributions (the percentage overflows); the number formatting itself is fmt's, encoded as it is",
        entries=[
            E("c31_counters", "c31.cc", covers=["no allocations", "no destructions"], variants=NDT),
            E("c31_digits", "c31.cc", dict(_split=[("which", 0, 9)]), covers=["done"], variants=NDT),
            E("c31_shares", "c31.cc", dict(mask=3, _split=[("life", 0, 1), ("all", 0, 6)]), dict(mask=15, _split=[("life", 0, 1), ("all", 0, 6)]), covers=["none", "some above all bounds"], variants=NDT),
            E("c31_events", "c31.cc", covers=["cleared"], variants=NDT),
        ]),
    "C32": dict(
        repo=[], bounds="two class element types (one moved by memcpy, one that knows its address) whose constructions from values and other elements may throw at any point: one operation out of 28 on up to N elements with counts up to C (quick 4, 4; thorough 7, 7) and 0 to 2 spare places",
        outside="element types whose move constructors throw or that have none (stdb_vector does not support the former and copies the latter)",
        entries=[
            E("c32_throw", "c32.cc", dict(N=4, C=4), dict(N=7, C=7, _split=[("n", 0, 7)]), covers=["caught", "done"], variants=NDT),
            E("c32_throw_rel", "c32.cc", dict(N=4, C=4), dict(N=7, C=7, _split=[("n", 0, 7)]), covers=["caught", "done"], variants=NDT),
        ]),
    "C13": dict(
        repo=[], bounds="five types that are easily mistaken for plain bytes (pointers to members, a struct holding one, a union with a constructor, enums and classes of one byte): two (thorough three) operations on up to 3 elements; eight element types (trivial ones of 1, 4, 28 and 64 bytes; copyable, move-only, copy-only and relocatable classes): one operation out of 28 on up to N elements with counts up to C (quick 5, 5; thorough 8, 8); sequences of two operations on up to 2 elements (thorough: 3 on up to 1, 2 on up to 3); one operation on 300 (ints and, thorough, bytes also 66000) elements with counts up to as many",
        entries=[e for t in ("int", "byte", "pod", "huge", "class", "moveonly", "copyonly", "relocatable") for e in (
            E("c13_" + t, "c13.cc", dict(K=1, N=5, C=5), dict(K=1, N=8, C=7, _split=[("n", 0, 8)]), ["done"]),
            E("c13_%s_seq" % t, "c13.cc", dict(K=2, N=2, C=1, _split=[("n", 0, 2)]), dict(K=2, N=3, C=2, _split=[("n", 0, 3), ("op0", 0, 27)]), ["done"]))] + [
            E("c13_many_" + t, "c13_many.cc", dict(N=300, C=300), covers=["done"], variants=NDT) for t in ("int", "byte", "pod", "class")] + [
            E("c13_most_int", "c13_many.cc", dict(N=66000, C=66000), covers=["done"], variants=["ndebug"]),
            E("c13_most_byte", "c13_many.cc", {}, dict(N=66000, C=66000), covers=["done"], variants=["ndebug"], tiers=("thorough",))] + [
            E("c13_" + t, "c13_types.cc", dict(K=2), dict(K=3), ["grown"], variants=NDT) for t in ("member", "holds_member", "union", "tiny", "odd")] + [
            E("c13_erase_other", "c13_types.cc", covers=["erased"], variants=NDT)]),
    "C14": dict(
        repo=[], bounds="a one-byte class that converts to int: two (thorough three) operations on up to 3 elements; five class element types (copyable, move-only, copy-only, relocatable, without memory of its own): one operation out of 28 on up to N elements with counts up to C (quick 5, 5; thorough 8, 8); sequences of two operations on up to 2 elements (thorough 3); one operation on 300 elements with counts up to 300",
        entries=[e for t in ("class", "moveonly", "copyonly", "relocatable", "plain") for e in (
            E("c14_" + t, "c14.cc", dict(K=1, N=5, C=5), dict(K=1, N=8, C=7, _split=[("n", 0, 8)]), ["done"]),
            E("c14_%s_seq" % t, "c14.cc", dict(K=2, N=2, C=1, _split=[("n", 0, 2)]), dict(K=2, N=3, C=2, _split=[("n", 0, 3), ("op0", 0, 27)]), ["done"]),
            E("c14_many_" + t, "c14_many.cc", dict(N=300, C=300), covers=["done"], variants=NDT))] + [
            E("c14_one_byte", "c13_types.cc", dict(K=2), dict(K=3), ["grown"])]),
    "C15": dict(
        repo=[], bounds="elements aligned to 32 and 64 bytes: every form of construction followed by two (thorough three) operations; histories of K operations (quick 1, thorough 2) on up to 3 elements; any 64-bit request with memory for 8 (thorough 16) elements; one failing allocation anywhere in one (thorough two) operations; growth from fifteen fill levels up to 256 KiB; two fills or write buffers of up to 4 (quick; thorough 8) and of up to 40 elements in vectors of up to 3, 15, 16 and 30",
        entries=[
            E("c15_promises_" + t, "c15.cc", dict(K=1, N=4, C=4), dict(K=2, N=2, C=2, _split=[("n", 0, 2)]), ["grown", "in place"]) for t in ("int", "class", "huge", "byte")] + [
            E("c15_any_" + t, "c15.cc", dict(M=8, _split=[("op0", 0, 7)]), dict(M=16, _split=[("op0", 0, 7), ("n", 0, 3)]), ["served", "refused"]) for t in ("int", "byte", "pod", "track")] + [
            E("c15_oom_" + t, "c15.cc", dict(K=1, N=3, C=3), dict(K=2, N=2, C=2, _split=[("n", 0, 2)]), ["exhausted"]) for t in ("int", "track", "rel")] + [
            E("c15_growth_" + t, "c15.cc", covers=["done"]) for t in ("int", "byte", "huge")] + [
            E("c15_align", "c15_align.cc", dict(K=2), dict(K=3), ["grown"]),
            E("c15_fill_few", "c15.cc", dict(C=4, B=0), dict(C=8, B=0), ["filled", "buffer"]),
            E("c15_fill", "c15.cc", dict(B=1), dict(B=1), ["filled", "buffer"]),
            E("c15_fill_huge", "c15.cc", dict(B=1), dict(B=1), ["filled", "buffer"]),
            E("c15_fill_class", "c15.cc", dict(C=4, B=0), dict(C=8, B=0), ["filled", "buffer"])]),
    "C16": dict(
        repo=[], bounds="vectors of up to 2 (thorough 3) doubles including NaN; vectors of up to N elements (quick 5, thorough 9) with every element value, index and pair of positions; every pair of vectors of up to N elements (quick 4, thorough 7); vectors around 256 (bytes also 65536) elements with any two elements at one place",
        entries=[
            E("c16_access_" + t, "c16.cc", dict(N=5), dict(N=9), ["done", "empty"]) for t in ("int", "byte", "pod", "class")] + [
            E("c16_compare_" + t, "c16.cc", dict(N=4), dict(N=7), ["less", "greater", "equal"]) for t in ("int", "byte", "class")] + [
            E("c16_compare_double", "c16.cc", dict(N=2), dict(N=3), ["less", "greater", "equal", "unordered"]),
            E("c16_many_int", "c16_many.cc", dict(W=256, _split=[("n", 0, 4)]), covers=[], variants=NDT),
            E("c16_many_byte", "c16_many.cc", dict(W=65536, _split=[("n", 0, 4)]), covers=[], variants=["ndebug"])]),
    "C17": dict(
        repo=[], bounds="one modifier out of 47 (with every form of its arguments) on strings of up to 2 characters with arguments of up to 2 (thorough: up to 3, and sequences of two on up to 1) in each of five storage states; one modifier on strings at ten lengths around the small/medium/large boundaries with arguments, positions and counts at the boundaries; char, char16_t and char32_t; one modifier on strings of 1000 (thorough 66000) characters with arguments as long; every character value of the first two and last characters",
        outside="input iterators that read from the string being modified; extraction from streams",
        entries=[
            E("c17_short", "c17.cc", dict(K=1, N=2, _split=[("state", 0, 4)]), dict(K=1, N=3, _split=[("state", 0, 4)]), ["done", "own contents"]),
            E("c17_seq", "c17.cc", {}, dict(K=2, N=1, _split=[("state", 0, 4), ("op0", 0, 46)]), ["done"], tiers=("thorough",)),
            E("c17_boundary", "c17.cc", dict(_split=[("state", 0, 4), ("len", 1, 9)]), dict(_split=[("state", 0, 4), ("len", 0, 9)]), ["done", "own contents"], variants=["ndebug", ("debug", "thorough")]),
            E("c17_short16", "c17.cc", dict(K=1, N=1), dict(K=1, N=2, _split=[("state", 0, 4)]), ["done", "own contents"], variants=["ndebug", ("debug", "thorough")]),
            E("c17_boundary16", "c17.cc", {}, dict(_split=[("state", 0, 4), ("len", 0, 9)]), ["done", "own contents"], tiers=("thorough",)),
            E("c17_short32", "c17.cc", dict(K=1, N=1), dict(K=1, N=2, _split=[("state", 0, 4)]), ["done", "own contents"], variants=["ndebug", ("debug", "thorough")]),
            E("c17_long", "c17_long.cc", dict(N=1000, C=1000, _split=[("state", 0, 4)]), dict(N=66000, C=66000, _split=[("state", 0, 4), ("op0", 0, 46)]), ["done"], variants=["ndebug"]),
            E("c17_long32", "c17_long.cc", dict(N=1000, C=1000, _split=[("state", 3, 4)]), dict(N=1000, C=1000, _split=[("state", 0, 4)]), ["done"], variants=["ndebug"]),
            E("c17_boundary32", "c17.cc", {}, dict(_split=[("state", 0, 4), ("len", 0, 9)]), ["done", "own contents"], tiers=("thorough",)),
        ]),
    "C18": dict(
        repo=[], bounds="texts of up to N characters and needles of up to M (quick 3, 2; thorough 5, 4) with every character value and every 64-bit position, in own and shared storage; texts around 254 characters whose last 4 (find: 6, thorough find and rfind: 9) characters and needles of up to 3 (5, thorough 6) vary, with every position from there on; needles far into texts of about 300 characters; char, char16_t, char32_t",
        entries=[
            E("c18_find", "c18.cc", dict(N=3, M=2, _split=[("family", 0, 5), ("state", 0, 1)]), dict(N=5, M=4, _split=[("family", 0, 5), ("state", 0, 1)]), ["found", "not found", "own letters"], variants=["ndebug", ("debug", "thorough")]),
            E("c18_find16", "c18.cc", dict(N=2, M=2, _split=[("family", 0, 5)]), dict(N=4, M=3, _split=[("family", 0, 5)]), ["found", "not found"], variants=["ndebug", ("debug", "thorough")]),
            E("c18_find32", "c18.cc", dict(N=2, M=2, _split=[("family", 0, 5)]), dict(N=4, M=3, _split=[("family", 0, 5)]), ["found", "not found"], variants=["ndebug", ("debug", "thorough")]),
            E("c18_long", "c18.cc", dict(N=4, M=3, _split=[("family", 0, 5)]), dict(N=5, M=3, _split=[("family", 0, 5)]), ["found", "not found"]),
            E("c18_deep", "c18.cc", dict(N=6, M=5, _split=[("family", 0, 0)]), dict(N=9, M=6, _split=[("family", 0, 1)]), ["found", "not found"], variants=["ndebug"]),
            E("c18_far", "c18.cc", dict(_split=[("family", 0, 6)]), covers=[], variants=NDT),
            E("c18_far16", "c18.cc", {}, dict(_split=[("family", 0, 6)]), covers=[], tiers=("thorough",), variants=["ndebug"]),
            E("c18_affix", "c18.cc", dict(N=4, M=3), dict(N=7, M=5), ["yes", "no"]),
            E("c18_affix16", "c18.cc", dict(N=3, M=2), dict(N=5, M=4), ["yes", "no"]),
            E("c18_copy", "c18.cc", dict(N=5), dict(N=9), ["done"]),
            E("c18_copy32", "c18.cc", dict(N=3), dict(N=6), ["done"]),
        ]),
    "C19": dict(
        repo=[], bounds="three strings with the same contents, made in four ways from a string in one of five storage states, of up to N characters (quick 2, thorough 3) or just above the large boundary: one modifier out of 47 on either of two of them (thorough: sequences of two on up to 1 character), then destruction and further modification in every order",
        outside="references, iterators and pointers obtained before the copy was made (the class is copy-on-write)",
        entries=[
            E("c19_copies", "c19.cc", dict(K=1, N=2, _split=[("state", 0, 4), ("kind", 0, 3)]), dict(K=1, N=3, _split=[("state", 0, 4), ("kind", 0, 3)]), ["done"], variants=["ndebug", ("debug", "thorough")]),
            E("c19_large", "c19.cc", dict(_split=[("kind", 0, 3)]), dict(_split=[("kind", 0, 3)]), ["done"], variants=["ndebug", ("debug", "thorough")]),
            E("c19_copies16", "c19.cc", dict(K=1, N=1, _split=[("kind", 0, 3)]), dict(K=1, N=2, _split=[("state", 0, 4), ("kind", 0, 3)]), ["done"], variants=["debug", ("ndebug", "thorough")]),
            E("c19_seq", "c19.cc", {}, dict(K=2, N=1, _split=[("state", 0, 4), ("kind", 0, 1), ("op0", 0, 46)]), ["done"], tiers=("thorough",), variants=["ndebug"]),
            E("c19_data", "c19.cc", covers=[]),
        ]),
    "C20": dict(
        repo=[], bounds="two strings in all pairs of five storage states, of up to one character or at two storage boundaries, through K moves, swaps, self-assignments, copies, clones, shrinks and clears (quick 3, thorough 4), or one of those and then one modifier out of 47 (quick: one of the strings large and shared); one modifier with any single allocation failing; any 64-bit count in the eight members that take one with memory for 700 characters",
        entries=[
            E("c20_history", "c20.cc", dict(K=3, F=0, _split=[("state0", 0, 4)]), dict(K=4, F=0, _split=[("state0", 0, 4), ("state1", 0, 4)]), ["done"], variants=["ndebug", ("debug", "thorough")]),
            E("c20_modifier", "c20.cc", dict(_split=[("state0", 0, 4), ("state1", 3, 3)]), dict(_split=[("state0", 0, 4), ("state1", 0, 4)]), ["done"], variants=["ndebug", ("debug", "thorough")]),
            E("c20_large", "c20.cc", dict(K=2, F=0), dict(K=1, F=1, _split=[("state0", 0, 4), ("state1", 0, 4)]), ["done"]),
            E("c20_oom", "c20.cc", dict(N=1, _split=[("state", 0, 4)]), dict(N=2, _split=[("state", 0, 4)]), ["done", "exhausted"]),
            E("c20_oom16", "c20.cc", dict(N=1), dict(N=2, _split=[("state", 0, 4)]), ["done", "exhausted"], variants=["ndebug", ("debug", "thorough")]),
            E("c20_sizes", "c20.cc", dict(N=2), dict(N=3), ["served", "exhausted", "too long"]),
            E("c20_sizes16", "c20.cc", dict(N=1), dict(N=3), ["served", "exhausted", "too long"]),
        ]),
    "C21": dict(
        repo=[], bounds="the 27 members that take a position, on strings of up to N characters (quick 2, thorough 4) in each of five storage states, with every 64-bit position and count, and on strings at and just above the small and medium boundaries; the five members that take a count beyond max_size()",
        entries=[
            E("c21_positions", "c21.cc", dict(N=2, _split=[("state", 0, 4)]), dict(N=4, _split=[("state", 0, 4), ("member", 0, 26)]), ["done", "thrown"]),
            E("c21_positions16", "c21.cc", dict(N=2), dict(N=3, _split=[("state", 0, 4)]), ["done", "thrown"], variants=["ndebug", ("debug", "thorough")]),
            E("c21_large", "c21.cc", dict(_split=[("state", 0, 3), ("member", 0, 26)]), dict(_split=[("state", 0, 4)]), ["done", "thrown"], variants=["ndebug", ("debug", "thorough")]),
            E("c21_beyond", "c21.cc", dict(N=2), dict(N=5), ["refused"]),
            E("c21_beyond16", "c21.cc", dict(N=2), dict(N=5), ["refused"]),
        ]),
    "C22": dict(
        repo=ARENA, bounds="every pair of texts of up to N characters each (quick 4 of char, 2 of char16_t, char32_t and wchar_t; thorough 7 and 4) with every character value, and pairs at ten lengths around the storage boundaries that differ in their first two or last characters or in length by one; pairs of about 256 and 65536 characters with any two characters at one place; the left operand in five storage states, the right one another string in three, a pointer, a view or a std::string; hashes of equal texts in five storage states built in seven ways, arena_string among them",
        outside="the quality of the hash (xxHash is taken to be a function of bytes, length and seed)",
        entries=[
            E("c22_order", "c22.cc", dict(N=4, _split=[("form", 0, 3)]), dict(N=7, _split=[("form", 0, 3), ("state", 0, 4)]), ["less", "greater", "equal"]),
            E("c22_order16", "c22.cc", dict(N=2), dict(N=4, _split=[("form", 0, 3)]), ["less", "greater", "equal"]),
            E("c22_order32", "c22.cc", dict(N=2), dict(N=4, _split=[("form", 0, 3)]), ["less", "greater", "equal"]),
            E("c22_orderw", "c22.cc", dict(N=2), dict(N=4, _split=[("form", 0, 3)]), ["less", "greater", "equal"]),
            E("c22_boundary", "c22.cc", dict(_split=[("form", 0, 3)]), covers=["less", "greater", "equal"]),
            E("c22_boundary32", "c22.cc", dict(_split=[("form", 0, 3)]), covers=["less", "greater", "equal"]),
            E("c22_arena", "c22.cc", dict(N=3), dict(N=5, _split=[("form", 0, 2), ("state", 0, 4)]), ["less", "greater", "equal"]),
            E("c22_arena_boundary", "c22.cc", dict(_split=[("form", 0, 2)]), covers=["less", "greater", "equal"]),
            E("c22_long", "c22_long.cc", dict(W=256), covers=["less", "greater", "equal"]),
            E("c22_longest", "c22_long.cc", dict(W=65536, _split=[("n", 0, 4)]), covers=[], variants=["ndebug"]),
            E("c22_hash", "c22.cc", dict(N=4), dict(N=8), ["done", "arena", "arena, grown"]),
            E("c22_hash_boundary", "c22.cc", covers=["done", "arena", "arena, grown"])] + [
            E("c22_hash" + t, "c22.cc", dict(N=3), dict(N=6), ["done", "arena"]) for t in ("16", "32", "w")]),
    "C23": dict(
        repo=ARENA, bounds="as C17, C18, C19 and C21, for strings in an arena with blocks of 256 bytes and more: one modifier out of 47 on strings of up to N characters (quick 2, thorough 3) in five storage states and at the storage boundaries; searches, positions, copies; 16 ways of giving a string of one arena the characters of another's, which is then reset or destroyed; any blocks refused during one modifier; in release builds the same with memory from the default resource",
        outside="swapping strings of two arenas (as for every pmr container, undefined); strings made without an allocator (debug builds refuse them with logic_error)",
        entries=[
            E("c23_short", "c23.cc", dict(K=1, N=2, _split=[("state", 0, 4)]), dict(K=1, N=3, _split=[("state", 0, 4), ("op0", 0, 46)]), ["done", "own contents"], variants=["debug", ("ndebug", "thorough")]),
            E("c23_boundary", "c23.cc", dict(_split=[("state", 0, 3), ("len", 3, 8)]), dict(_split=[("state", 0, 4), ("len", 0, 9)]), ["done"], variants=["ndebug", ("debug", "thorough")]),
            E("c23_find", "c23.cc", dict(N=2, M=2), dict(N=4, M=3, _split=[("family", 0, 5), ("state", 0, 1)]), ["found", "not found"], variants=["ndebug", ("debug", "thorough")]),
            E("c23_affix", "c23.cc", dict(N=2, M=2), dict(N=4, M=3), ["yes", "no"], variants=["ndebug", ("debug", "thorough")]),
            E("c23_copy", "c23.cc", dict(N=3), dict(N=6), ["done"], variants=["ndebug", ("debug", "thorough")]),
            E("c23_copies", "c23.cc", dict(N=1, _split=[("state", 0, 4)]), dict(N=2, _split=[("state", 0, 4), ("kind", 0, 3)]), ["done"], variants=["ndebug", ("debug", "thorough")]),
            E("c23_copies_large", "c23.cc", {}, dict(_split=[("kind", 0, 3)]), ["done"], variants=["ndebug", ("debug", "thorough")], tiers=("thorough",)),
            E("c23_positions", "c23.cc", dict(N=1, _split=[("state", 0, 4)]), dict(N=3, _split=[("state", 0, 4), ("member", 0, 26)]), ["done", "thrown"], variants=["debug", ("ndebug", "thorough")]),
            E("c23_beyond", "c23.cc", dict(N=1), dict(N=3), ["refused"]),
            E("c23_two", "c23.cc", dict(N=1), dict(N=2), ["done"]),
            E("c23_oom", "c23.cc", dict(N=1, _split=[("long", 0, 1)]), dict(N=2, _split=[("long", 0, 1), ("op", 0, 46)]), ["done", "exhausted"]),
            E("c23_long", "c23_long.cc", dict(N=1000, C=1000, _split=[("state", 0, 4)]), covers=["done"], variants=NDT),
            E("c23_created", "c23.cc", covers=["done"]),
            E("c23_heap", "c23.cc", dict(K=1, N=1), dict(K=1, N=2, _split=[("state", 0, 4)]), ["done"], variants=["ndebug"]),
            E("c23_heap_boundary", "c23.cc", dict(_split=[("len", 4, 8), ("state", 3, 3)]), dict(_split=[("len", 0, 9), ("state", 0, 4)]), ["done"], variants=["ndebug"]),
        ]),
    "C24": dict(
        repo=ARENA, flags=["-DFMT_HEADER_ONLY"],
        bounds="every conversion between string, arena_string, std::string, pmr strings, views, pointers and iterators, and five format specifications, on texts of up to N characters (quick 4, formats 3; thorough 8, formats 5) with every character value and at ten lengths around the storage boundaries, in five storage states; char, char16_t, char32_t",
        outside="formats with width or precision on non-ASCII text (they count code points)",
        entries=[
            E("c24_plain", "c24.cc", dict(N=4), dict(N=8), ["done"]),
            E("c24_plain16", "c24.cc", dict(N=4), dict(N=8), ["done"]),
            E("c24_plain32", "c24.cc", dict(N=4), dict(N=8), ["done"]),
            E("c24_boundary", "c24.cc", covers=["done"]),
            E("c24_boundary16", "c24.cc", covers=["done"]),
            E("c24_arena", "c24.cc", dict(N=4), dict(N=8), ["done"]),
            E("c24_arena_boundary", "c24.cc", covers=["done"]),
            E("c24_format", "c24.cc", dict(N=3), dict(N=5), ["done"]),
            E("c24_format_boundary", "c24.cc", covers=["done"]),
            E("c24_format_arena", "c24.cc", dict(N=3), dict(N=5), ["done"]),
        ]),
    "C25": dict(
        repo=OPT, flags=OPTF,
        bounds="command lines of up to 2 arguments of any characters of up to 3 each (thorough: 3 arguments, 7 characters together); of up to 3 (thorough 4) arguments out of 20 kinds; two parses by one parser, a copy or a moved parser, with each of the six prefixes; three registered options (Store, flag, Append) besides the parser's own",
        outside=OPTO,
        entries=[
            E("c25_any", "c25.cc", dict(K=2, L=3, sum=5, _split=[("args", 1, 2), ("len0", 0, 3)]), dict(K=3, L=4, sum=7, _split=[("args", 1, 3), ("len0", 0, 4), ("prefix", 0, 1)]), ["all invalid"], variants=NDT),
            E("c25_words", "c25.cc", dict(K=3, _split=[("word0", 0, 19)]), dict(K=4, _split=[("word0", 0, 19)]), ["some invalid"], variants=NDT),
            E("c25_again", "c25.cc", dict(_split=[("prefix", 0, 5)]), covers=["done"], variants=NDT),
            E("c25_none", "c25.cc", covers=["done"]),
        ]),
    "C26": dict(
        repo=OPT, flags=OPTF,
        bounds="one option of each action (Store, StoreTrue, StoreFalse, Append, Count) and type, with and without default and environment, given in eight ways with values of up to 2 (thorough 3) characters of any kind, and numbers around the limits of 32 and 64 bits with any last character; lists of up to 4 (thorough 6) characters; three options, also of one destination, with every presence of default, environment and up to 2 (thorough 3) arguments; a ValueStore of two keys after every history of 4 (thorough 5) set, append, append of several and increment operations of each type, with any value",
        outside=OPTO + "; Float and Double values other than short decimal texts; get<T> with a T other than the option's",
        entries=[
            E("c26_option", "c26.cc", dict(_split=[("action", 1, 5), ("type", 1, 7)]), dict(deep=1, _split=[("action", 1, 5), ("type", 1, 7), ("form", 0, 7)]), ["value"], variants=NDT),
            E("c26_list", "c26.cc", dict(N=4, _split=[("type", 0, 2)]), dict(N=6, _split=[("type", 0, 2), ("len", 0, 6)]), variants=NDT),
            E("c26_precedence", "c26.cc", dict(K=1, _split=[("shared", 0, 1), ("action", 1, 5)]), dict(K=3, _split=[("shared", 0, 1), ("action", 1, 5)]), variants=NDT),
            E("c26_number_default", "c26.cc", covers=["done"]),
            E("c26_store", "c26_store.cc", dict(K=4, _split=[("type", 0, 5)]), dict(K=5, _split=[("type", 0, 5)]), ["several"], variants=NDT),
        ]),
    "C27": dict(
        repo=OPT, flags=OPTF,
        bounds="every prefix character; names of up to 4 (thorough 5) characters of any kind, alone or beside another, under both policies and all six prefixes, used in three ways; 2 (thorough 3) registrations of up to 2 names out of 8; every combination of missing action, destination and choices; copies and moves before and after a parse",
        outside=OPTO,
        entries=[
            E("c27_prefix", "c27.cc", covers=["refused", "accepted"]),
            E("c27_name", "c27.cc", dict(_split=[("prefix", 0, 5), ("len", 0, 3)]), dict(_split=[("prefix", 0, 5), ("len", 0, 5)]), ["rejected"], variants=NDT),
            E("c27_name_long", "c27.cc", dict(_split=[("len", 4, 4), ("prefix", 0, 1)]), dict(_split=[("len", 4, 4), ("prefix", 0, 1)]), ["rejected", "short", "long"], variants=["ndebug"]),
            E("c27_history", "c27.cc", dict(K=2, _split=[("replace", 0, 1), ("first", 0, 7)]), dict(K=3, _split=[("replace", 0, 1), ("first", 0, 7)]), ["done"], variants=NDT),
            E("c27_incomplete", "c27.cc", covers=["complete", "incomplete"]),
            E("c27_moved", "c27.cc", covers=["done"]),
        ]),
    "C28": dict(
        repo=OPT, flags=OPTF,
        bounds="up to 2 options (thorough 3) of one to three names, every type, with names, destinations, help, usage, program and version texts of up to 2 printable characters; 3 (thorough 4) steps of setting, parsing and formatting the version",
        outside="printing to standard output (print_help, print_usage, print_version hand the same text to fmt::print)",
        entries=[
            E("c28_help", "c28.cc", dict(K=2, L=1, _split=[("options", 0, 2)]), dict(K=3, L=2, _split=[("options", 0, 3)]), ["done", "parsed"], variants=NDT),
            E("c28_version", "c28.cc", dict(K=3), dict(K=4), ["given", "default"]),
            E("c28_own", "c28.cc", covers=["done"]),
        ]),
    "C29": dict(
        repo=[], bounds="K reads (quick 2, thorough 3) in a row from up to N symbolic characters (quick 3, thorough 4; with exceptions or a throwing buffer 1 to 2), with and without a prefix that fills a small string, into an empty, small, medium or shared long string, from every stream state, width -1..2, skipws or not, any delimiter, any exceptions mask, a get area refilled one by one or at once (getline: a buffer that throws at one of the first reads); writing of up to N characters (quick 4, thorough 12) with every width -1..5, fill, adjustment and stream state, and of texts of any length up to 2^63-1; char, wchar_t",
        outside="the classic locale is modelled (libstdc++'s shared library is not encoded; the stream templates of its headers are); a streambuf that throws under operator>> (passed on; std::string sets badbit)",
        entries=[
            E("c29_extract", "c29.cc", dict(N=3, K=2, X=0, W=1), dict(N=4, K=3, X=0, W=1), ["last one", "none left", "more"], variants=NDT),
            E("c29_extract_throws", "c29.cc", dict(N=1, K=2), dict(N=2, K=2), ["last one", "none left", "more"]),
            E("c29_extract_wide", "c29.cc", dict(N=3, K=2, X=0), dict(N=4, K=3, X=0), ["last one", "none left", "more"]),
            E("c29_getline", "c29.cc", dict(N=3, K=2, X=0), dict(N=4, K=3, X=0), ["last one", "none left", "more"], variants=NDT),
            E("c29_getline_throws", "c29.cc", dict(N=2, K=1), dict(N=2, K=2), ["last one", "none left", "more"]),
            E("c29_getline_wide", "c29.cc", dict(N=3, K=2, X=0), dict(N=4, K=3, X=0), ["last one", "none left", "more"]),
            E("c29_insert", "c29.cc", dict(N=4), dict(N=12), ["done"], variants=NDT),
            E("c29_insert_huge", "c29.cc", covers=["large"]),
        ]),
    "C30": dict(
        repo=[], bounds="a string of up to N characters (quick 1, thorough 2) or at ten lengths around the storage boundaries, in each of five storage states, given to a second thread in seven ways (clones, strings never copied, copies that became independent); one modifier out of 47 by either thread, in both orders, copies and further changes by both, destruction in both orders or return to the first thread; the same in debug builds with CROSS_THREAD_CHECKING",
        outside="preemption inside an operation (threads take turns between operations: what one operation touches is compared with what belongs to the other thread, so any interleaving of operations that touch disjoint memory has the same result); arena strings (an Arena is used by one thread)",
        entries=[
            E("c30_clone", "c30.cc", dict(N=1, _split=[("state", 0, 4)]), dict(N=2, _split=[("state", 0, 4), ("how", 0, 6)]), ["done", "came back"], variants=NDT),
            E("c30_clone16", "c30.cc", dict(N=0, _split=[("state", 1, 3)]), dict(N=1, _split=[("state", 0, 4), ("how", 0, 6)]), ["done", "came back"], variants=["ndebug"]),
            E("c30_boundary", "c30.cc", dict(_split=[("state", 0, 3), ("len", 8, 8), ("how", 0, 2)]), dict(_split=[("state", 0, 4), ("len", 0, 9), ("how", 0, 6)]), ["done", "came back"], variants=["ndebug"]),
            E("c30_checked", "c30.cc", dict(N=0), dict(N=1, _split=[("state", 0, 4), ("how", 0, 4)]), ["done"], variants=["debug"], flags=["-DCROSS_THREAD_CHECKING"]),
            E("c30_refused", "c30.cc", dict(N=1), dict(N=3), ["tried"], variants=["debug"], flags=["-DCROSS_THREAD_CHECKING"]),
        ]),
}
