# Which harness (sources, flags) and which suites decide which property.
HARNESSES = {
    "heap": {"src": ["h_heap.cpp", "queue_bodies.cpp"]},
    "geo": {"src": ["h_geo.cpp", "queue_bodies.cpp"] + ["geo_%d.cpp" % i for i in range(6)]},
    "df": {"src": ["h_df.cpp", "df_model.cpp", "df_lists.cpp"] + ["df_trees%s.cpp" % x for x in ("B0", "B1", "B2", "P0", "P1", "P2", "Many", "Huge")]},
    "tree": {"src": ["h_tree.cpp", "queue_bodies.cpp"]},
    "same": {"src": ["h_same.cpp"]},
    "pqsim": {"src": ["h_pqsim.cpp"], "repo_src": ["src/pqsim/Item.cpp"]},
    "pq": {"src": ["h_pairqueue.cpp"]},
    "mask": {"src": ["h_mask.cpp"], "lib": True, "libs": ["DivMask"]},
    "columns": {"src": ["h_columns.cpp"], "lib": True, "libs": ["ColumnPrinter"]},
    "numbers": {"src": ["h_numbers.cpp"], "lib": True, "libs": ["ColumnPrinter"]},
    "display": {"src": ["h_display.cpp"], "lib": True, "libs": ["display", "error"]},
    "cli": {"src": ["h_cli.cpp"], "lib": True, "libs": ["Action", "BoolParameter", "CliParameter", "CliParser", "error", "HelpAction",
                                                         "IntegerParameter", "StringParameter", "display", "ColumnPrinter"]},
    "pqrun": {"src": ["h_pqrun.cpp"], "repo_src": ["src/pqsim/Item.cpp", "src/pqsim/Simulator.cpp", "src/pqsim/pqMain.cpp"], "lib": True,
              "libs": ["ColumnPrinter"], "flags": ["-Dmain=pqMainOfRepo"]},
    "divrun": {"src": ["h_divrun.cpp"], "repo_src": ["src/divsim/Simulation.cpp"], "lib": True, "libs": ["ColumnPrinter", "Timer", "DivMask"]},
    "names": {"src": ["h_names.cpp"], "lib": True, "libs": ["DivMask"]},
    "timer": {"src": ["h_timer.cpp"], "lib": True, "libs": ["Timer"]},
    "divsim": {"src": ["h_divsim.cpp"]},
    "hash": {"src": ["h_hash.cpp"]},
    "bits": {"src": ["h_bits.cpp"], "lib": True, "libs": ["BitTriangle"]},
    "interrupt": {"src": ["h_interrupt.cpp", "queue_bodies.cpp"], "lib": True, "libs": ["DivMask"]},
    "memfail": {"src": ["h_memfail.cpp", "queue_bodies.cpp"], "lib": True, "libs": ["DivMask", "BitTriangle", "Action", "BoolParameter", "CliParameter", "CliParser",
                                                     "error", "HelpAction", "IntegerParameter", "StringParameter", "display", "ColumnPrinter"]},
    "independent": {"src": ["h_independent.cpp", "queue_bodies.cpp"], "lib": True, "libs": ["DivMask", "BitTriangle", "Action", "BoolParameter", "CliParameter", "CliParser",
                                                    "error", "HelpAction", "IntegerParameter", "StringParameter", "display", "ColumnPrinter"]},
    "conf": {"src": ["h_conf.cpp"], "lib": True, "libs": ["DivMask"]},
    "cost": {"src": ["h_cost.cpp"], "lib": True, "libs": ["DivMask", "BitTriangle"]},
}
# Runs with the internal assertions on. Left out are the suites that make user functions fail
# (the assertions call them, too) and the one on inputs that an assertion rejects.
def debug(h, f, *tiers):
    return {"h": h, "v": "debug", "f": f, "tiers": tiers or ("quick", "thorough")}
DEBUG_RUNS = [debug("heap", "heap %s/%s" % (k, f)) for k in ("si16", "fi32") for f in ("weak", "hist", "seeded", "reuse")] + [debug("heap", f) for f in ("tour/weak", "tour/hist", "tour/seeded", "tour24/reuse")] + \
    [debug("heap", "heap %s/%s" % (k, f), "thorough") for k in ("fi16", "si24") for f in ("weak", "hist", "seeded", "reuse")] + [debug("heap", f, "thorough") for f in ("tour/reuse", "tour24/weak", "tour24/hist", "tour24/seeded")] + \
    [debug("geo", f) for f in ("geo/weak", "geo/seeded", "geo/reuse")] + [debug("geo", "geo/hist", "thorough")] + \
    [debug("tree", "move/"), debug("tree", "comtree/16 slow"), debug("tree", "comtree/", "thorough")] + \
    [debug("pq", f) for f in ("order/hist", "order/seeded", "retire/", "data/seeded")] + [debug("pq", f, "thorough") for f in ("order/five", "data/hist", "big/")] + \
    [debug("df", f) for f in ("list-query/inserts", "list-query/bulk", "tree-query/inserts", "tree-mutate/leaves", "same/many")] + \
    [debug("df", f, "thorough") for f in ("tree-query/bulk", "same/two", "query/seeded", "query/many", "mutate/hist", "-stop/")] + \
    [debug("hash", "pointer"), debug("hash", "int", "thorough"), debug("bits", "from 3"), debug("bits", "/words"), debug("mask", "mask/int 2"), debug("interrupt", "finders/nested", "thorough"), debug("mask", "mask/", "thorough")]
CHECKS = {
    "C01": {"runs": [{"h": "heap", "v": "asan", "f": "heap"}]},
    "C02": {"runs": [{"h": "heap", "v": "asan", "f": "tour"}]},
    "C03": {"runs": [{"h": "geo", "v": "asan"}]},
    "C04": {"runs": [{"h": "heap", "v": "asan", "f": "dheap"}, {"h": "geo", "v": "asan", "f": "dgeo/"}]},
    "C05": {"runs": [{"h": "same", "v": "asan"}, {"h": "pqsim", "v": "asan"}, {"h": "heap", "v": "asan", "f": "stl"}]},
    "C06": {"runs": [{"h": "tree", "v": "asan", "f": "move/"}, {"h": "tree", "v": "asan", "f": "comtree/"}]},
    "C07": {"runs": [{"h": "tree", "v": "asan", "f": "life/"}]},
    "C08": {"runs": [{"h": "pq", "v": "asan", "f": "order/"}]},
    "C09": {"runs": [{"h": "pq", "v": "asan", "f": "retire/"}]},
    "C10": {"runs": [{"h": "pq", "v": "asan", "f": "data/"}]},
    "C11": {"runs": [{"h": "pq", "v": "asan", "f": "big/"}]},
    "C12": {"runs": [{"h": "df", "v": "asan", "f": "list-query/"}]},
    "C13": {"runs": [{"h": "df", "v": "asan", "f": "list-mutate/"}]},
    "C14": {"runs": [{"h": "df", "v": "asan", "f": "tree-query/"}]},
    "C15": {"runs": [{"h": "df", "v": "asan", "f": "tree-mutate/"}]},
    "C16": {"runs": [{"h": "df", "v": "asan", "f": "same/"}]},
    "C17": {"runs": [{"h": "df", "v": "asan", "f": "-stop/"}]},
    "C18": {"runs": [{"h": "mask", "v": "asan"}]},
    "C19": {"runs": [{"h": "hash", "v": "asan"}]},
    "C20": {"runs": [{"h": "bits", "v": "asan"}]},
    "C21": {"runs": [{"h": "columns", "v": "asan"}]},
    "C22": {"runs": [{"h": "numbers", "v": "asan"}]},
    "C23": {"runs": [{"h": "display", "v": "asan"}]},
    "C24": {"runs": [{"h": "cli", "v": "asan", "f": "parse/"}]},
    "C25": {"runs": [{"h": "cli", "v": "asan", "f": "params/"}]},
    "C26": {"runs": [{"h": "cli", "v": "asan", "f": "factory/"}]},
    "C27": {"runs": [{"h": "cli", "v": "asan", "f": "help/"}]},
    "C28": {"runs": [{"h": "timer", "v": "asan"}]},
    "C29": {"runs": [{"h": "divsim", "v": "asan"}]},
    "C30": {"runs": [{"h": "cost", "v": "asan", "f": "memory/"}]},
    "C31": {"runs": [{"h": "cost", "v": "asan", "f": "cost/"}]},
    "C32": {"runs": DEBUG_RUNS},
    "C33": {"runs": [{"h": "interrupt", "v": "asan"}]},
    "C34": {"runs": [{"h": "pqrun", "v": "asan"}, {"h": "divrun", "v": "asan"}]},
    "C35": {"runs": [{"h": "names", "v": "asan"}]},
    "C36": {"runs": [{"h": "independent", "v": "asan"}]},
    "C37": {"runs": [{"h": "memfail", "v": "asan"}]},
    "C38": {"runs": [{"h": "conf", "v": "asan"}]},
}
# What each check enumerates (written to the evidence).  q: quick, t: thorough.
BOUNDS = {
    "C01": "weak orders of n<=7 (t 8) entries pushed singly, in one unsorted range or half and half, and popped; all histories of <=5 (t 7) operations over push of 3 keys, 8 ranges (one unsorted), pop, top, 3 decreaseTop, clear; fillings of 0..36, 63..65, 130 entries in 7 patterns, singly or by sorted or unsorted ranges, followed by all 2 (t 3) of 11 operations; 2 (t 3) rounds of refilling with 0..18 entries; heaps of 16, 24 and 32 byte entries, fastIndex on and off, with and without deduplication; large fillings: 255, 257, 1030, 5000 and 66000 (t 19 sizes up to 600000) entries x 2 (t 5) patterns, singly or in ranges, x 5 ways of emptying (drained, half emptied and refilled, decreased, cleared and refilled, interleaved)",
    "C02": "as C01 for TourTree of 16 and 24 byte entries; faults: a push at each size 0..18 (t 0..34) in 5 patterns failing at each comparison 0..6 and allocation 0..3, then retried, popped or drained",
    "C03": "120 option combinations x 3 (t 4..6) pairs of base and minimum bucket size: weak orders of n<=5 (t 6), all histories of <=4 (t 5) operations, seeded fillings followed by 1 (t 2) operations, refilling; large fillings: 257, 1100, 5000 and 66000 (t 8 sizes and up to 140000) entries x 1 (t 5) patterns, singly or in ranges, x 5 ways of emptying (drained, half emptied and refilled, decreased, cleared and refilled, interleaved)",
    "C04": "as C01 and C03 for the deduplicating heaps and geobuckets, every entry with a weight that is a bit of its own",
    "C05": "all histories of <=5 (t 6) operations in lockstep on every queue; seeded fillings of 1..40 (t 140); simulator models with spans of values, histories of <=5 (t 6) and seeded",
    "C06": "heap moves at each size 0..20 (t 36) for 4 entry types; tree storage: all histories of <=5 (t 7) operations on two trees of capacity 0, 20 or 40 against std::vector",
    "C07": "life-checked entries in each queue: histories of <=3 (t 5) and refilling rounds",
    "C08": "columns over subsets of rows with all priority assignments (2..4 values) interleaved with pops, <=10 (t 12) steps; five indices, <=7 (t 9) steps; seeded up to 24 columns; large fillings: 100, 260 and more columns of up to 400 rows in several patterns, drained or refilled",
    "C09": "as C08 with retireIndex: <=7 (t 9) steps over 4 indices; seeded up to 12 (t 20) columns with <=2 (t 3) retirements; all histories of <=4 (t 5) retirements and pops over columns on both sides of 65536 (16 and 32 bit rows); large fillings of hundreds of columns with bulk retirements",
    "C10": "as C09 with registered pair data; faults: adding a column at states with up to 18 columns failing at each of 8 (t 12) points of each kind, then continued",
    "C11": "columns at 65533..65544 with chosen rows below and above 65536, followed by retirements and pops",
    "C12": "all insertion sequences of <=4 (t 5) monomials over small grids in 1..3 variables, every query; bulk insertion, seeded sets, 4..40 variables; every list configuration (array/linked, masks, sorting by either of two orders, rebuild thresholds); large sets of 300 and 700 (t 9 sizes up to 3000) and of 66000 (t 200000) entries in 4 patterns, in leaves of up to 300 entries, inserted in 3 ways, every query",
    "C13": "all mutation histories of <=3 (t 4) operations from each start set, every list configuration; large sets of 300 (t 9 sizes up to 3000) and of 66000 (t 200000) entries in 4 patterns, in leaves of up to 300 entries, inserted in 3 ways, then 1 (t 2) of 5 bulk changes, then emptied and used again",
    "C14": "as C12 for KD trees: <=3 (t 5) insertions, packed and binary, leaf sizes 1.., masks, tree masks, sorting by either of two orders, cache, rebuild thresholds; large sets of 300 and 700 (t 9 sizes up to 3000) and of 66000 (t 200000) entries in 4 patterns, in leaves of up to 300 entries, inserted in 3 ways, every query",
    "C15": "all mutation histories of <=3 (t 4) operations from each start set, every tree configuration; leaves full of equal entries; leaves of 4..7 entries with every subset of entries removed by each way of removing; large sets of 300 (t 9 sizes up to 3000) and of 66000 (t 200000) entries in 4 patterns, in leaves of up to 300 entries, inserted in 3 ways, then 1 (t 2) of 5 bulk changes, then emptied and used again",
    "C16": "histories of <=3 (t 4) operations (two variables) and <=2 (t 3) (36..40 variables) in lockstep on all configurations; 12..50 entries in 6 patterns, inserted singly or by range, followed by 1 (t 2) operations",
    "C17": "stopping at each report for all sets of <=4 (lists) or <=3 (trees) entries (t 12 seeded)",
    "C18": "all pairs of monomials of the grids for every set of <=3 (t 4) monomials the calculator is rebuilt for; int, unsigned, unsigned char, unsigned short, long long; 1..65 variables; hundreds of monomials and variables for int, unsigned char and long long masks",
    "C19": "all histories of <=6 (t 7) operations over 4 keys and 7 hash functions; tables growing several times followed by 3 (t 4) operations; 300..70000 (t 600000) keys x 4 hash functions x 3 orders x 3 ways of removing, twice",
    "C20": "all histories of <=6 (t 7) operations, from triangles of 0..4 columns; each bit of triangles of up to 36 (t 70) columns; every bit and pair of neighbouring columns of triangles around 32..258 columns (word boundaries); all bits of triangles of 363, 700, 1025 and 2050 (t 5000) columns; 65600 columns with one of 28 bits set; read in both orders of the arguments",
    "C21": "all sequences of <=4 (t 6) pieces in one column, <=3 (t 4) in two and three columns, every alignment, prefix and suffix; hundreds of rows",
    "C22": "integers to 1.1 (t 20) million, all neighbourhoods of powers of 2, 10, 1000, 1024 and rounding limits, ratios of all pairs of those, grid of ratios to 260 (t 1100), doubles",
    "C23": "messages of <=3 (t 4) words of lengths 1,10,38,39,40,66,80 with separators, indentation and prefix; all pairs of lengths around the width; sentences of <=14 (t 40) words; errors and notes; messages of hundreds of words and of long words",
    "C24": "all command lines of <=4 (t 5) tokens over the full alphabet and <=6 (t 7) over a reduced one; lines of 120..300 (t 1000) tokens: direct tokens, repeated options, a mistake at the end",
    "C25": "all strings of <=5 (t 6) characters over digits, signs, spaces and letters; boundary numbers; sequences of 3 arguments; texts of up to 70000 characters; numbers of 11..74 digits",
    "C26": "all ordered selections of <=3 (t 5) of 9 names, all queries of length <=3; 254..300 (t 700) names with nested prefixes, every name and cut name as query",
    "C27": "all subsets and orders of the registered actions, all topics of the alphabet; all ordered selections of <=4 (t 5) of 11 parameters; actions of 100..257 (t 300) parameters with long names and values, each set by its name",
    "C28": "time spans at each format change with offsets up to 20 (t 200), each second of 3 (t 30) hours, histories of <=4 (t 5) operations of two timers",
    "C29": "all insertion sequences of <=4 in two, <=4 in three, <=5 (t 7) in one variable, every model configuration; seeded sequences of up to 24 (t 60)",
    "C30": "queues: sizes 0..40 and around 48..513 x 5 patterns x single or range x 4 ways of emptying x 2 rounds; pair queues of <=65 (t 100) columns; finders of 0..60 (t 120) entries followed by all sequences of 3 (t 4) of 8 operations; hash tables of 0..820 (t 5000) and 70000..140000 (t 280000) keys; triangles of 0..140 (t 300) columns",
    "C31": "heap and tournament tree: 24 (t 28) sizes up to 600 (t 4000) x 5 patterns, all sequences of 4 (t 5) of 6 operations, emptied; geobucket: 5 options x 5 parameters x 11 (t 12) sizes up to 20000 (t 100000) x 5 patterns x 4 mixtures; pair queues, hash tables and finders as C30",
    "C32": "histories, weak orders, fillings and refilling of C01..C04, C06, C08..C20 in a build with all assertions on (quick: a selection of the suites)",
    "C33": "finders: 11 kinds x 3 options x 6..8 sizes up to 30 in 3 patterns, with or without removals, x each search x 4 arguments x the callback throwing at each of its first 6 (t 12) calls once or twice, or the configuration at each of its first 16 (t 60) calls, or another search (complete or itself cut short) from within the callback at each of its first calls or at all; queues: 8 kinds x 7 (t 8) sizes up to 20 (t 34) x forAll or top interrupted at each of 4..6 places or forAll nested; hash tables of 0..40 keys, lookup interrupted at each of 8 places",
    "C34": "queues: 3 generators x up to 7 x 8 x 6 parameters x 3 percentages x 6 (t 30) seeds x 1..2 repeats; with small parameters each combination of 3 (t 4) values for the first 6 (t 8) calls of rand; 11 real queues; for small workloads each pop answered wrong in each of 4 ways, in each repeat; tables of 1..3 (t 4) queues; the program with 192 argument lists. Finders: 4 x 7 x 7 x 2 parameters, each combination of 3 values for the first 8 (t 10) calls of rand; 9 real finders; each event answered wrong in each way; tables of 1..3 (t 4) finders",
    "C35": "names of 51 queues, 48 lists and 256 trees (each option, several values of each parameter), compared with each other; printing: 49 queues of 0..40 entries in 3 patterns, then all sequences of 4 (t 7) pushes and pops, printed after each; tree storage of 0..39 entries",
    "C36": "two finders: 11 kinds x 3 options x 2..4 sizes x 3 (t 4) relations between the two, all sequences of 3 (t 4) of 11 operations on either; each of 8 operations of the one with each of 8 of the other at each of its first 5 (t 11) callbacks, or at 5 (t 11) of its configuration calls; two queues of 8 kinds, each with 3 (t 8): all sequences of 4 (t 5) of 10 operations, each operation within each of the first 8 (t 20) comparisons or visits of another; tournament trees of 0..33 entries copied or moved and followed by all sequences of 4..5 (t 7) of 6 operations on either; two hash tables and two pair queues: all sequences of 3..4 (t 5..6) operations, each within each of the first 24 (t 40..48) calls of another; triangles, calculators, factories, parsers (actions alive at the same time) and help actions: all sequences of 3..4 (t 4..6)",
    "C37": "each allocation 0..23 (t 29) of 6 operations on 3 kinds of DivList x 3 options of 13 (t 14) sizes in 0..71 in 3 patterns, followed by all 4 further operations; each allocation 0..3 of a push of one entry (2 keys) or of a range of 2, 3, 9 or 33 onto a heap (with and without deduplication), a tournament tree and 9 kinds of geobucket holding 0..39 (t 51) entries in 3 patterns, followed by 3 continuations; hash tables of 2^0..2^5 places, 3 hash functions and 0..79 (t 299) keys, each larger table that may be needed not to be had; triangles of 0..69 (t 199) columns; parsers of 0..3 actions, 6 operations, each allocation 0..119 (t 199); printers of 0..9 columns; construction of each structure",
    "C38": "all histories of <=4 (t 6) operations on 15 kinds of queue, empty or with 19 entries (then possibly emptied), of <=7 (t 9) on a pair queue, of <=4 (t 5) on 10 kinds of divisor finder x 3 options with 0, 3 or 8 entries, and of <=6 (t 8) on a hash table of 2..8 places; the operations include changing the order or hash function of an empty container by its access to the configuration, and moving a heap or tournament tree",
}
for _k, _v in BOUNDS.items():
    CHECKS[_k]["bounds"] = _v
