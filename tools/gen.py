#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run in /verif)."""
import json
M = "src/mathic/"
P = []
def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                 "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                 "observe_at": observe or [], "hook_needed": None}, note=note))

prop("C01", "Heap is a priority queue for every history and configuration",
  "After any sequence of push, push of a range, pop, top, decreaseTop and clear, a Heap holds exactly the entries that were added and not yet removed: top() and pop() give an entry that no other entry exceeds, empty() and forAll() agree with the contents, and popping until empty gives every entry exactly once in non-increasing order. This holds for every entry size, for both index computations (fastIndex on and off) and after every growth of the underlying storage; when deduplication is on, equal entries may be merged through the configuration's deduplicate but nothing else may be lost.",
  ["histories", "inputs", "configurations"],
  "all operation sequences up to the bound, all inputs up to order isomorphism up to the bound, all start sizes, all instantiations (entry size, fastIndex, deduplication)",
  "No test of the repository touches Heap at all; the simulators only time it and do not look at the results of most configurations.",
  [M + "Heap.h", M + "ComTree.h"],
  [("moveHoleDown / moveHoleUp", M + "Heap.h"), ("implicit tree indexing and fast index adjustment", M + "ComTree.h"), ("decreaseTop", M + "Heap.h")],
  "Every operation history of the bounded alphabet is executed on the real Heap under AddressSanitizer and compared with a multiset at each step; inputs beyond the bounds are not covered.")
prop("C02", "Tournament tree is a priority queue for every history",
  "After any sequence of push, push of a range, pop, top, decreaseTop and clear, a TourTree holds exactly the entries that were added and not yet removed, top() and pop() give an entry that no other entry exceeds, and popping until empty gives every entry exactly once in non-increasing order. This remains true across growth of the tree, while it shrinks and is refilled, after clear(), and when a comparison or a memory allocation throws during push: then the queue still holds what it held before, and remains usable.",
  ["histories", "inputs", "fault_sequences"],
  "all operation sequences up to the bound, all inputs up to order isomorphism, all sizes across several doublings, each point at which a push can fail",
  "No test uses TourTree directly and none makes a comparison or an allocation throw; PairQueue's test reaches only a handful of shapes.",
  [M + "TourTree.h"],
  [("push and increaseCapacity", M + "TourTree.h"), ("pop and the replay of matches", M + "TourTree.h")],
  "Every bounded history runs on the real TourTree under AddressSanitizer against a multiset; faults are enumerated at every comparison and allocation of a push.")
prop("C03", "Geobucket is a priority queue in every configuration",
  "After any sequence of push, push of a range sorted in decreasing order (possibly empty), pop, top, decreaseTop and clear, a Geobucket holds exactly the entries that were added and not yet removed, top() and pop() give an entry that no other entry exceeds, empty() and forAll() agree with the contents, and popping until empty gives every entry exactly once in non-increasing order. This holds for each combination of the compile-time options (tracking the front, binary search on insertion, deduplication, premerging, collecting the maximum, each bucket storage, each insert factor) and of geometric base and minimum bucket size, and after clear() the queue is as good as new.",
  ["histories", "inputs", "configurations"],
  "all operation sequences up to the bound for every combination of options, all inputs up to order isomorphism, seeded larger fillings that cross bucket boundaries",
  "Geobucket has no test; the bugs it can hide depend on options, on which bucket an entry is in and on what happened before (clear, an empty range), which sampling does not reach.",
  [M + "Geobucket.h", M + "GeoFront.h"],
  [("bucket insertion, merging and rollover", M + "Geobucket.h"), ("the front: tournament over bucket maxima", M + "GeoFront.h")],
  "120 instantiations times several parameters are driven through every bounded history under AddressSanitizer against a multiset.",
  [("mFront", "which bucket holds the maximum", M + "GeoFront.h")])
prop("C04", "Deduplication merges equal entries and conserves the total",
  "With deduplication enabled, a Heap or a Geobucket combines entries only when they compare equal and only by calling the configuration's deduplicate on entries it holds, so that the total weight of each key that was added is exactly what comes out or remains inside. No entry is combined with itself, used after it was given up in a merge, lost or produced twice, for any history of pushes, range pushes, pops and decreaseTop.",
  ["histories", "inputs", "configurations"],
  "all operation sequences up to the bound over keys that collide, for every deduplicating configuration of the heap and the geobucket",
  "Nothing in the test suite enables deduplication, and what is merged depends on the exact order of insertions and removals.",
  [M + "Heap.h", M + "Geobucket.h"],
  [("deduplication on push and decreaseTop", M + "Heap.h"), ("deduplication when merging and inserting", M + "Geobucket.h")],
  "Entries carry weights; conservation per key is checked after each step of every bounded history on the real code.")
prop("C05", "The priority queues are interchangeable",
  "Heap, TourTree, Geobucket and StlSet, in every configuration, produce the same sequence of keys for the same history of operations; StlSet itself is a correct priority queue. The queue models of the simulator, on elements or on spans of values, with and without deduplication and with and without decreaseTop, pop every value of every span that was pushed, in decreasing order.",
  ["histories", "configurations"],
  "all bounded histories run side by side on every queue and every simulator model; larger seeded fillings",
  "The simulator compares running times, not results, and there is no test of it.",
  [M + "StlSet.h", M + "Heap.h", M + "TourTree.h", M + "Geobucket.h", "src/pqsim/Model.h", "src/pqsim/Item.h"],
  [("StlSet push/pop", M + "StlSet.h"), ("ModelHelper::push/pop on spans", "src/pqsim/Model.h")],
  "All queues are driven in lockstep through every bounded history; any difference is reported.")
prop("C06", "Moving a heap and tree storage keep every entry",
  "Moving a Heap (construction) hands over all its entries and leaves no entry behind, duplicated or shared, and the tree storage behind the queues behaves as a growing array: pushing back, popping back, growing, clearing, swapping and indexing through nodes never lose, reorder or duplicate an element, with or without fast indexing, for every element size.",
  ["histories", "configurations"],
  "all histories up to the bound of operations on one or two objects, for element sizes on both sides of the fast index requirements",
  "No test moves a Heap or looks at the tree storage on its own.",
  [M + "Heap.h", M + "ComTree.h"],
  [("move constructor", M + "Heap.h"), ("reallocation, swap", M + "ComTree.h"), ("Node arithmetic", M + "ComTree.h")],
  "Bounded histories on the real classes against std::vector and a multiset, entries with checked lifetimes, AddressSanitizer.")
prop("C07", "Entries live exactly as long as the queue holds them",
  "For entries with constructors and destructors, every queue (Heap, TourTree, StlSet, Geobucket) constructs and destroys every object exactly once: none is used after its destruction, assigned to without having been constructed, or leaked when it is removed or when the queue is cleared or destroyed. All memory that a queue allocated is released with it.",
  ["histories", "configurations"],
  "all bounded histories of push, pop, decreaseTop, clear and destruction at any point",
  "The tests use plain integers, for which lifetime errors are invisible.",
  [M + "ComTree.h", M + "Heap.h", M + "TourTree.h", M + "StlSet.h", M + "Geobucket.h"],
  [("placement construction and destruction", M + "ComTree.h"), ("clear and destructors", M + "Geobucket.h")],
  "Each object records its state; the live count and the allocation count are compared with the model after every step of every bounded history.")
prop("C08", "Pair queue gives every pair exactly once in order",
  "Whatever columns of pairs are added and whenever pairs are popped in between, topPair() is always a pair that was added, has not been popped and is maximal among those, and topPairData() is the data computed for that very pair. Draining the queue gives every added pair exactly once, and empty(), pairCount() and columnCount() agree with the contents at every step.",
  ["histories", "inputs"],
  "all interleavings of column additions (each subset of rows, each assignment of priorities including ties) and pops up to the bound; larger seeded queues across growth of the tournament tree",
  "The tests run a few fixed triangles of pairs with distinct priorities in one order of operations.",
  [M + "PairQueue.h", M + "TourTree.h"],
  [("addColumnDescending", M + "PairQueue.h"), ("pop: advance the column and replay", M + "PairQueue.h")],
  "The real PairQueue is run through every bounded history with compare() checking that the data it is given belong to the pair; AddressSanitizer.")
prop("C09", "Retired indices disappear from the pair queue for good",
  "After retireIndex(i), no pair with i as column or row is ever the top pair, is popped, or makes the queue count as non-empty, and its data are not computed any more; all other pairs still come out exactly once in order. This holds whether pairs of i are at the top, inside, or the only ones left, and for retirements before, between and after additions and pops.",
  ["histories", "inputs"],
  "all interleavings of additions, pops and retirements up to the bound; seeded larger queues with up to three retirements",
  "The test retires indices in one fixed pattern only.",
  [M + "PairQueue.h"],
  [("retireIndex", M + "PairQueue.h"), ("skipping of retired rows and columns", M + "PairQueue.h")],
  "As C08 with retirement; the configuration reports any computation for a retired index.")
prop("C10", "Pair data are constructed once, destroyed once, even on failure",
  "Every pair-data object that the queue constructs is destroyed exactly once, through the configured functions and as the data of the pair that it was constructed for, at the latest when the queue is destroyed. If computing pair data, comparing or allocating throws while a column is added, the queue is as it was before the call: same columns, same pairs, same data, and everything can be continued, retried or destroyed.",
  ["histories", "fault_sequences"],
  "every point of failure (each user callback, each allocation) of adding a column, from many reachable states; all bounded histories with specialised construction and destruction",
  "No test throws from a callback or fails an allocation, or observes the construction and destruction of pair data.",
  [M + "PairQueue.h", M + "TourTree.h"],
  [("exception handling in addColumnDescending", M + "PairQueue.h"), ("ConstructPairDataFunction, DestructPairDataFunction", M + "PairQueue.h")],
  "Faults are enumerated exhaustively within the bound on the real code, with a registry of live pair data and AddressSanitizer.")
prop("C11", "Pair queue is right around the 16-bit index boundary",
  "Columns on both sides of index 65536, which are stored with different index widths, behave alike: pairs with rows and columns below, at and above the boundary come out exactly once, in order and with their true indices, and can be retired.",
  ["inputs", "histories"],
  "all bounded combinations of columns at 65533..65544 with rows below and above the boundary, followed by retirements and pops",
  "One test adds a single two-row column beyond the boundary; the columns next to the boundary, where the representation changes, are empty in it.",
  [M + "PairQueue.h"],
  [("choice between small and big columns", M + "PairQueue.h"), ("destruction of columns by type", M + "PairQueue.h")],
  "Every bounded case is run on the real queue after growing it to the boundary.")
prop("C12", "Divisor lists answer every divisor query correctly",
  "For any set of entries and any query monomial, findDivisor returns an entry of the list that divides the query exactly if there is one, findAllDivisors reports exactly the dividing entries once each, findAllMultiples exactly the multiples, forAll exactly the contents, and size() counts them. This holds for array and linked lists, with and without divisor masks, sorted or not (by any total order that puts divisors first), with automatic rebuilds at any threshold, after inserting singly or by range, through const and non-const access, and for queries outside the range of the entries.",
  ["inputs", "histories", "configurations"],
  "all insertion sequences over small exponent grids and all queries, for every configuration; larger seeded sets and up to 40 variables",
  "The only test of the divisor finders constructs an empty one.",
  [M + "DivList.h", M + "DivMask.h", M + "DivFinder.h"],
  [("findDivisor, findAllDivisors, findAllMultiples", M + "DivList.h"), ("divisor masks and their rebuild", M + "DivMask.h")],
  "Every bounded set and query is executed on the real list and compared with direct divisibility; AddressSanitizer.")
prop("C13", "Divisor lists keep contents and order under mutation",
  "After any sequence of insert, insert of a range, removeMultiples (with or without output), removeElement, moveToFront and rebuild, a DivList holds exactly the entries it should, each with its own payload: removals report and remove exactly the multiples, moving to the front keeps the order of the others, a list that sorts on insertion stays sorted, and iteration in either direction visits each entry once. Queries stay correct in every such state.",
  ["histories", "configurations"],
  "all sequences of mutations up to the bound, for array and linked lists with and without masks, sorting and automatic rebuilds",
  "No test mutates a divisor list; what goes wrong depends on order, ties and rebuild points.",
  [M + "DivList.h"],
  [("removeMultiples, removeElement, moveToFront", M + "DivList.h"), ("rebuild and automatic rebuild", M + "DivList.h")],
  "Every bounded mutation history runs on the real list against a vector model; entries with checked lifetimes.")
prop("C14", "KD trees answer every divisor query correctly",
  "For any set of entries and any query monomial, findDivisor returns an entry of the tree that divides the query exactly if there is one, findAllDivisors reports exactly the dividing entries once each, findAllMultiples exactly the multiples, and forAll exactly the contents. This holds for packed and binary trees, every leaf size, with and without masks on entries and on tree nodes, sorted (by any total order that puts divisors first) or unsorted leaves, with and without the divisor cache, with automatic rebuilds at any threshold, and for any number of variables.",
  ["inputs", "histories", "configurations"],
  "all insertion sequences over small exponent grids and all queries, for every configuration; larger seeded sets and up to 40 variables",
  "The only test constructs an empty tree; which branch of a tree is pruned depends on the exact shape, masks and the order of insertion.",
  [M + "KDTree.h", M + "BinaryKDTree.h", M + "PackedKDTree.h", M + "KDEntryArray.h", M + "DivMask.h"],
  [("split and insert", M + "KDEntryArray.h"), ("findDivisor, findAllDivisors, findAllMultiples", M + "PackedKDTree.h"), ("divisor cache", M + "KDTree.h")],
  "Every bounded set and query is executed on the real tree and compared with direct divisibility; AddressSanitizer.")
prop("C15", "KD trees keep contents under mutation",
  "After any sequence of insert, insert of a range, removeMultiples (with or without output), removeElement, clear and rebuild, a KDTree holds exactly the entries it should, each with its own payload, and size(), empty() and forAll agree: removals report and remove exactly the multiples, and clear leaves a tree as good as new. Queries stay correct in every such state, including any cached divisor; an insertion that a full leaf of equal entries refuses leaves the tree as it was.",
  ["histories", "configurations"],
  "all sequences of mutations up to the bound, for packed and binary trees with every combination of masks, leaf size, cache, sorting and rebuild settings",
  "No test mutates a tree; removeElement, clear and range insertion were not even compiled.",
  [M + "KDTree.h", M + "BinaryKDTree.h", M + "PackedKDTree.h", M + "KDEntryArray.h"],
  [("removeMultiples, removeElement", M + "PackedKDTree.h"), ("bookkeeping of size, cache and rebuilds", M + "KDTree.h"), ("bulk insertion", M + "BinaryKDTree.h")],
  "Every bounded mutation history runs on the real trees against a reference set; entries with checked lifetimes.")
prop("C16", "Divisor finders are interchangeable whatever the configuration",
  "For the same history, every divisor list and every KD tree in every configuration reports the same divisors, multiples, contents, removals and sizes: masks, tree masks, caches, sorting, leaf sizes, packing, memory layout and rebuild settings change speed only.",
  ["configurations", "histories"],
  "every bounded history run side by side on all configurations of both finders, also with up to 40 variables",
  "No test compares two configurations.",
  [M + "DivList.h", M + "KDTree.h", M + "DivMask.h"],
  [("compile-time and run-time options", M + "KDTree.h")],
  "All configurations are driven in lockstep and compared step by step.")
prop("C17", "Queries stop when their output asks to stop",
  "When the output object of findAllDivisors, findAllMultiples or forAll answers that it does not want to proceed, it is not called again for that query, and what it has received so far are distinct entries that belong to the answer. Stopping early has no effect on the container.",
  ["inputs", "configurations", "histories"],
  "stopping after each possible number of reports, for every bounded set of entries and query, for every list and tree configuration",
  "No test ever returns false from an output object in more than one place.",
  [M + "DivList.h", M + "KDTree.h", M + "BinaryKDTree.h", M + "PackedKDTree.h", M + "KDEntryArray.h"],
  [("proceed()", M + "KDEntryArray.h")],
  "All stop positions are enumerated on the real code.")
prop("C18", "Divisor masks never rule out an actual divisor",
  "If monomial a divides monomial b, then the mask of a can divide the mask of b, whatever entries the calculator was built or rebuilt for, whatever the exponent type, size of exponents and number of variables; Extender::divides is exactly divisibility. A lower bound that was updated with a set of entries never rules out a monomial that some of these entries divides, the maximal mask is a neutral start for such bounds, and recalculating gives the same mask as constructing.",
  ["inputs", "configurations"],
  "all pairs of monomials of small grids with extreme exponents, all bounded sets to rebuild for, 1 to 65 variables, five exponent types",
  "No test looks at masks; a wrong mask shows only as a divisor that is missed for particular exponents.",
  [M + "DivMask.h"],
  [("Calculator::compute, rebuild, rebuildDefault", M + "DivMask.h"), ("canDivide, combineAnd, updateToLowerBound", M + "DivMask.h")],
  "Every bounded combination is evaluated on the real classes.")
prop("C19", "Hash table behaves as a map with stable handles",
  "After any sequence of insertions, lookups, removals, value changes and resets, the table contains exactly the keys inserted and not removed since, each with its last value: insert says truthfully whether the key was new and never overwrites a value, lookup finds exactly the contained keys, and handles stay valid across growth. This holds for every hash function including constant ones, and for every initial size.",
  ["histories", "configurations", "inputs"],
  "all operation sequences up to the bound over colliding keys, seven hash functions, initial sizes from one bin; larger tables that grow several times",
  "The test inserts a dozen keys with one hash function, and removal was not even compiled.",
  [M + "HashTable.h"],
  [("insert, lookup, remove", M + "HashTable.h"), ("grow: rehashing of chains", M + "HashTable.h"), ("reset, hardReset", M + "HashTable.h")],
  "Every bounded history runs on the real table against std::map under AddressSanitizer.")
prop("C20", "Bit triangle stores each bit independently",
  "Reading a bit gives the value last written to exactly that (column, row) pair, or false if it was never written; writing one bit or adding a column changes no other bit. The unordered accessors address the same bit whichever way round the indices are given, and columnCount() and empty() count the columns added.",
  ["histories", "inputs"],
  "all histories up to the bound on triangles of up to five columns, each single write in triangles of up to 36 columns (70 thorough), filled in three ways",
  "The test writes a few chosen bits of one small triangle.",
  [M + "BitTriangle.h", M + "BitTriangle.cpp"],
  [("addressing of bits", M + "BitTriangle.h")],
  "Every bounded history is executed on the real class and every bit compared after each step.")
prop("C21", "Column printer lays out every text correctly",
  "Whatever texts, newlines and repeat-to-end-of-line marks are written to the columns in whatever order, the output has as many lines as the longest column; in each line the columns appear in order, each with its prefix and suffix and padded to the width of its widest line on the side given by its alignment, with the repeat character where one was asked for. A final newline adds no line, printing changes nothing, and all ways of printing give the same text.",
  ["inputs", "histories", "configurations"],
  "all sequences of text pieces and marks up to the bound for up to three columns with every alignment, prefix and suffix",
  "There is no test of the column printer.",
  [M + "ColumnPrinter.h", M + "ColumnPrinter.cpp"],
  [("print: widths, rows, padding", M + "ColumnPrinter.cpp"), ("repeatToEndOfLine", M + "ColumnPrinter.cpp")],
  "The real output is compared with an independent layout for every bounded input.")
prop("C22", "Numbers are formatted exactly",
  "commafy groups the decimal digits in threes; ratios and percentages are the exact value rounded to one decimal (up to the precision of double), with 0/0 and ?/0 for zero denominators; SI and byte units use the smallest unit in which the rounded amount stays below 1000 or 1024. This holds for all 64-bit arguments, including those at which a unit or a digit changes, and percentIntegerFixed always has the same width up to 999.9%.",
  ["inputs"],
  "all integers up to 1.1 million (20 million thorough), all neighbourhoods of powers of 2, 10, 1000 and 1024 and of rounding limits, all pairs of those as ratios, a full grid of small ratios",
  "There is no test of number formatting; errors sit at boundaries and at large numbers.",
  [M + "ColumnPrinter.h", M + "ColumnPrinter.cpp"],
  [("oneDecimal", M + "ColumnPrinter.cpp"), ("choice of unit", M + "ColumnPrinter.cpp")],
  "Each value of the enumerated set is formatted by the real code and compared with exact 128-bit arithmetic.")
prop("C23", "Messages are broken into lines without losing anything",
  "display prints the words of a message in order with their spacing, keeps the message's own line breaks, starts every line with the prefix and the indentation of the line it was broken from, and breaks exactly where the next word would pass column 79, so that only a single word too long for any line can. Notes, errors, internal errors and exceptions are shown with their kind in front and otherwise unchanged; the error functions throw the documented exception types with the given message.",
  ["inputs"],
  "all messages built from words of boundary lengths, separators, indentation and prefixes up to the bound; every pair of word lengths around the line width",
  "There is no test of display or of the error functions.",
  [M + "display.h", M + "display.cpp", M + "error.h", M + "error.cpp"],
  [("Printer: reading words, breaking lines", M + "display.cpp"), ("reportError, reportInternalError, throwError", M + "error.cpp")],
  "What the real functions write to stderr is captured and compared with an independent line breaker for every bounded message.")
prop("C24", "Command lines are parsed as specified",
  "For every command line, the first token selects the action whose name it is or of which it is the only prefix; later tokens that start with a dash select that action's options in the same way, an option takes the following token as argument unless that starts with a dash, empty tokens are ignored, and tokens before the first option go to the action itself. Every parameter ends up with the value given last or its default, and each malformed command line is rejected with the documented kind of exception.",
  ["inputs", "programs"],
  "all command lines of up to 5 tokens (6 thorough) over an alphabet of action names, prefixes, options, arguments, empty and malformed tokens",
  "There is no test of the command line parser.",
  [M + "CliParser.h", M + "CliParser.cpp", M + "Action.cpp", M + "NameFactory.h"],
  [("parse", M + "CliParser.cpp"), ("uniqueNameWithPrefix", M + "NameFactory.h")],
  "Each command line is parsed by the real parser and compared with an independent reading of the rules.")
prop("C25", "Parameters accept exactly the valid arguments",
  "A Boolean parameter accepts on, off and the empty argument (on); an integer parameter accepts exactly the canonical decimal numbers of its documented range [0, 2^31-1]; a string parameter accepts everything. Any other argument (signs, leading zeros, spaces, trailing characters, numbers too large for 32 bits) is rejected with an exception naming the option and leaves the value as it was; valueAsString can be read back.",
  ["inputs", "histories"],
  "all strings of up to 5 characters (6 thorough) over digits, signs, spaces and letters, all boundary numbers, sequences of up to three arguments",
  "There is no test of the parameter classes.",
  [M + "BoolParameter.cpp", M + "IntegerParameter.cpp", M + "StringParameter.cpp", M + "CliParameter.h"],
  [("processArgument", M + "IntegerParameter.cpp")],
  "Every string of the enumerated set is given to the real parameter objects.")
prop("C26", "Names are resolved exactly or by unique prefix",
  "A name factory creates the product registered under exactly the given name, and none for any other string; a prefix resolves to the name that equals it, else to the only name it is a prefix of, else it is refused as unknown or as ambiguous with all candidates listed. namesWithPrefix lists exactly the matching names in lexicographic order, whatever was registered in whatever order.",
  ["inputs", "configurations"],
  "all ordered selections of up to three (five thorough) of nine names that are prefixes of one another, all query strings up to length three",
  "There is no test of the name factory.",
  [M + "NameFactory.h"],
  [("namesWithPrefix, uniqueNameWithPrefix, create", M + "NameFactory.h")],
  "Each selection and query is evaluated on the real factory.")
prop("C27", "Help describes every action and parameter",
  "The help action lists each registered action exactly once, in alphabetical order with its short description, between the configured messages before and after. Help on an action, named by a unique prefix, shows its description and each of its parameters in alphabetical order with type, default value and description; unknown and ambiguous topics and extra arguments are refused with the documented exceptions.",
  ["configurations", "inputs"],
  "all subsets of registered actions in both orders, all topics of the alphabet",
  "There is no test of the help action; registering it with messages was not even possible to link.",
  [M + "HelpAction.h", M + "HelpAction.cpp", M + "CliParser.cpp"],
  [("performAction, displayActionHelp", M + "HelpAction.cpp")],
  "The captured output of the real action is compared for each case.")
prop("C28", "Timers report elapsed CPU time rounded and formatted correctly",
  "At any moment a timer reports the CPU time since it was created or last reset, rounded to the nearest millisecond, independently of other timers. Both ways of printing show that time in hours, minutes, seconds and three digits of milliseconds, leaving out leading units that are zero and no others.",
  ["histories", "inputs"],
  "all spans around each change of format up to 1000000 seconds, each second of three hours (30 thorough) with boundary fractions, all bounded histories of two timers",
  "There is no test of the timer and real time does not reach hours in one.",
  [M + "Timer.h", M + "Timer.cpp"],
  [("getMilliseconds, print", M + "Timer.cpp")],
  "The clock is replaced by one that the explorer sets; the real class is compared with integer arithmetic.")
prop("C29", "Minimizing divisor finder models hold the minimal generators",
  "A finder model of the divisor simulator that minimizes on insertion always holds exactly the minimal monomials among all that were inserted, none dividing another, and reports exactly those that an insertion displaced; one that does not minimize holds all of them. Moving found divisors to the front, sorting, caching and rebuilding change none of the answers.",
  ["histories", "configurations", "inputs"],
  "all insertion sequences up to the bound over small grids in one to three variables for every model configuration; larger seeded sequences",
  "The simulator is not tested; it only measures time.",
  ["src/divsim/DivListModel.h", "src/divsim/KDTreeModel.h", M + "DivList.h", M + "KDTree.h"],
  [("insert with minimization", "src/divsim/DivListModel.h"), ("insert with minimization", "src/divsim/KDTreeModel.h")],
  "Each bounded sequence runs on the real models against a reference set.")

prop("C30", "Reported memory use matches the memory allocated",
  "getMemoryUse of Heap, TourTree and Geobucket, and memoryUse of the other containers, never reports less than the contents take, nor more than the container has allocated, nor (apart from a kilobyte and a sixteenth for bookkeeping) less; Heap, TourTree, Geobucket and an array DivList without masks report exactly what they have allocated. StlSet gives an estimate. Growing, clearing, popping and rebuilding keep this true, and a destroyed container leaves nothing allocated.",
  ["histories", "configurations"],
  "every size in a range that covers all growth steps, filled in each of five patterns singly or by range, then emptied in each way and refilled; for finders all sequences of operations up to the bound from each start size",
  "getMemoryUse is called by no test.",
  [M + "Heap.h", M + "TourTree.h", M + "Geobucket.h", M + "PairQueue.h", M + "DivList.h", M + "KDTree.h", M + "HashTable.h", M + "BitTriangle.h"],
  [("getMemoryUse", M + "Heap.h"), ("getMemoryUse", M + "Geobucket.h"), ("getMemoryUse", M + "PairQueue.h")],
  "Every allocation of the real container is counted and compared with what it reports.")
prop("C31", "Operations take no more comparisons than their data structure promises",
  "On n entries push, pop and decreaseTop take at most 2 log2(n) + 3 comparisons for Heap and log2(n) + 2 for TourTree, apart from entries removed by deduplication; a column is added to and a pair removed from a PairQueue with at most log2(columns) + 2; a Geobucket takes O(base * log_base(n)) on average from empty to empty. A lookup or insertion in a HashTable compares at most one key whose hash value is not shared. A query of a divisor finder tests each entry for divisibility at most once, not counting a cached one.",
  ["histories", "configurations"],
  "each size around the powers of two filled in five patterns, then every sequence of operations up to the bound, then emptied; each operation's comparisons are counted",
  "Tests do not count comparisons and a test suite cannot see a loss of complexity on small inputs.",
  [M + "Heap.h", M + "TourTree.h", M + "Geobucket.h", M + "PairQueue.h", M + "DivList.h", M + "KDTree.h", M + "HashTable.h"],
  [("push, pop, decreaseTop", M + "Heap.h"), ("push, pop, decreaseTop", M + "TourTree.h"), ("push", M + "Geobucket.h"), ("lookup", M + "HashTable.h")],
  "The counting comparison of the configuration is part of every execution.")
prop("C32", "Internal consistency checks hold in debug builds for every valid history",
  "In a build with MATHIC_DEBUG or MATHIC_SLOW_DEBUG no valid history of operations on a queue, pair queue, divisor finder, mask calculator, hash table or bit triangle makes an internal assertion fail, and the results are those of an ordinary build: the structures' invariants (heap order, tournament winners, bucket sizes, sorted leaves, mask bounds) hold between operations.",
  ["histories", "configurations"],
  "the histories of the other properties executed once more in a build that checks every invariant after every step",
  "The tests run without the slow checks and only on their few histories.",
  [M + "stdinc.h", M + "Heap.h", M + "TourTree.h", M + "Geobucket.h", M + "PairQueue.h", M + "BinaryKDTree.h", M + "PackedKDTree.h", M + "KDEntryArray.h", M + "HashTable.h"],
  [("isValid", M + "Heap.h"), ("isValid", M + "TourTree.h"), ("debugIsValid", M + "Geobucket.h"), ("debugIsValid", M + "BinaryKDTree.h"), ("debugIsValid", M + "PackedKDTree.h")],
  "The harnesses of the other properties are compiled with the checks on.")

prop("C33", "Searches that are interrupted or nested change nothing and answer right",
  "A search of a divisor finder, top or forAll of a queue or a lookup in a hash table that ends because code of the user (the callback, a comparison, divides, getExponent, hash, keysEqual) throws passes the exception on and leaves the container as it was: all contents are still there, exactly once, and every later operation gives right results. Searches made from within the callback of another search of the same container give right results, and so does the outer one.",
  ["histories", "crash points", "configurations"],
  "every place among the first calls of user code at which a search can be interrupted, and every nesting of two searches, on containers of each size in a list filled in each of three patterns",
  "No test has a callback or configuration that throws, or that searches again.",
  [M + "BinaryKDTree.h", M + "PackedKDTree.h", M + "KDTree.h", M + "DivList.h", M + "GeoFront.h", M + "Geobucket.h", M + "Heap.h", M + "TourTree.h", M + "HashTable.h"],
  [("findDivisor, findAllDivisors, findAllMultiples, forAll", M + "BinaryKDTree.h"), ("findDivisor, findAllDivisors, findAllMultiples, forAll", M + "PackedKDTree.h"), ("computeMax", M + "GeoFront.h"), ("lookup", M + "HashTable.h")],
  "Each interruption is injected into the real container, which is then compared with its contents.")

prop("C34", "Simulated workloads are valid and wrong answers in them are noticed",
  "The events that the queue simulator makes for positive parameters are what a priority queue would see: spans of at least one value in strictly decreasing order, pops of the largest value present (with all equal ones, except in randomSpans), and an empty queue in the end. dupSpans pushes until its goal is reached and no further, with spans within 10 of the average size and without duplicates for 0 percent; orderSpans and randomSpans push the number and sizes of spans asked for. The finder simulator makes the insertions and then the queries asked for, the same each time. printEvents, the summary and the table of results (one line per run, sorted by time) say what happened. A run ends with a message that names the structure and an exit status that is not 0 at the first wrong value popped, or at the first answer that differs from that of the first finder in whether or how many divisors there are or how many entries were displaced; a right structure passes.",
  ["inputs", "configurations", "histories"],
  "every combination of parameters in a list with several seeds; all values of the first calls of rand from a small set; every event of small workloads answered wrong in every way",
  "The simulators have no tests; they are run by hand.",
  ["src/pqsim/Simulator.h", "src/pqsim/Simulator.cpp", "src/pqsim/pqMain.cpp", "src/divsim/Simulation.h", "src/divsim/Simulation.cpp"],
  [("dupSpans, orderSpans, randomSpans, printEvents, printData", "src/pqsim/Simulator.cpp"), ("run", "src/pqsim/Simulator.h"), ("run", "src/divsim/Simulation.h"), ("makeStandard", "src/divsim/Simulation.cpp")],
  "The real simulators run with recording and deliberately wrong structures.")

prop("C35", "Names tell the options of a structure and printed forms its contents",
  "The name of a queue, pair queue, hash table or divisor finder never changes, and two configurations of the same kind have the same name exactly if all their options that have an effect are equal. print of Heap and StlSet writes the name and each entry exactly once; that of Geobucket writes the name and a line for each bucket with its index, its smallest two and largest two entries (all if it has up to four), its size and its capacity, and the sizes add up to the number of entries. The storage of Heap and TourTree prints its entries in order. Printing changes nothing.",
  ["configurations", "histories"],
  "all options and several values of each parameter; all short histories after fillings of several sizes",
  "Names and print are used by no test.",
  [M + "Heap.h", M + "TourTree.h", M + "Geobucket.h", M + "StlSet.h", M + "ComTree.h", M + "DivList.h", M + "KDTree.h", M + "PairQueue.h", M + "HashTable.h"],
  [("getName, print", M + "Heap.h"), ("getName, print", M + "Geobucket.h"), ("getName", M + "KDTree.h"), ("getName", M + "DivList.h"), ("print", M + "ComTree.h")],
  "The names and texts of the real structures are compared with their options and contents.")

prop("C36", "Two instances of a structure never influence each other",
  "What one instance of a structure does never depends on another instance: two divisor finders, queues, hash tables, pair queues, bit triangles, mask calculators, name factories, command line parsers or help actions of the same or of different types and options, used in turn or with one used from within the other's calls of the user's code (comparisons, configuration calls, callbacks), each behave as if alone, and no configuration is asked for variables it does not have. A copy of a TourTree, BitTriangle, mask calculator, name factory or parser has the contents of the original, and neither is affected by later changes to or the destruction of the other.",
  ["histories", "configurations"],
  "all short histories on two instances, each pairing of an operation of the one with a call within an operation of the other",
  "Tests use one instance at a time, and copy none.",
  [M + "KDTree.h", M + "DivList.h", M + "Geobucket.h", M + "Heap.h", M + "TourTree.h", M + "HashTable.h", M + "PairQueue.h", M + "BitTriangle.h", M + "DivMask.h", M + "NameFactory.h", "src/mathic/CliParser.cpp", "src/mathic/HelpAction.cpp"],
  [("divisor cache, masks, splits", M + "KDTree.h"), ("copying", M + "TourTree.h"), ("scratch buffers", M + "Geobucket.h"), ("topic", "src/mathic/HelpAction.cpp")],
  "Histories of two real instances are run against two reference models.")
prop("C37", "An operation for which there is no memory leaves the container usable",
  "If a memory allocation made by mathic fails during a push of one entry onto a Heap, TourTree or Geobucket, or of a range onto a Geobucket, during the addition of a column to a BitTriangle or ColumnPrinter or of an action to a CliParser, while a DivList inserts, removes, rebuilds or searches, while a HashTable grows, while a column printer prints or a command line is parsed, then bad_alloc is passed on, the contents are what they were (or, for the insertion into a DivList or HashTable whose automatic rebuild or growth is what fails, the contents after the insertion), nothing leaks, and every later operation, including trying again, gives right results. A container whose construction fails leaves nothing allocated. Allocations inside of memtailor's arenas and pools are not meant.",
  ["faults", "histories"],
  "all sizes up to a bound times all positions of the failing allocation times what is done next",
  "No test lets an allocation fail.",
  [M + "BitTriangle.h", M + "HashTable.h", M + "DivMask.h", M + "DivList.h", M + "Geobucket.h", M + "GeoFront.h", M + "ComTree.h", M + "Heap.h", M + "TourTree.h", M + "NameFactory.h", "src/mathic/CliParser.cpp", "src/mathic/ColumnPrinter.cpp"],
  [("addColumn", M + "BitTriangle.h"), ("grow", M + "HashTable.h"), ("rebuild", M + "DivMask.h"), ("addBucket", M + "Geobucket.h"), ("increaseCapacity", M + "ComTree.h")],
  "The real operations run with a chosen allocation failing, against a reference model.")

prop("C38", "A container asks only the configuration that it holds, and never copies it again",
  "Each queue, pair queue, divisor finder and hash table copies the configuration that it is constructed from, which may then be changed or destroyed. From then on it calls only the methods of the one object that getConfiguration() or configuration() gives access to, const or not, and makes no further copy of it (except for the one that a container made by moving holds, which continues with the state of the old one). So whatever the configuration keeps, such as a count of comparisons, is complete, and a change made to it through the access, such as another order while the container is empty, takes effect. cmpEqual and deduplicate are only called if deduplication is on.",
  ["histories", "configurations"],
  "all sequences of operations up to the bound for every kind of container and option, each call of the configuration and each copy of it observed",
  "No test looks at which object is called or uses a configuration with a state of its own.",
  [M + "Heap.h", M + "TourTree.h", M + "Geobucket.h", M + "GeoFront.h", M + "StlSet.h", M + "PairQueue.h", M + "DivList.h", M + "KDTree.h", M + "PackedKDTree.h", M + "BinaryKDTree.h", M + "KDEntryArray.h", M + "Comparer.h", M + "HashTable.h"],
  [("getConfiguration", M + "KDTree.h"), ("documentation of Configuration", M + "Geobucket.h"), ("Comparer", M + "Comparer.h"), ("QueueConfiguration", M + "PairQueue.h")],
  "The real containers run with configurations that record which object is called and copied, against reference models.")

def main():
    with open("properties.jsonl", "w") as f:
        for p in P:
            q = dict(p); q.pop("note")
            assert len(q["title"]) <= 80, q["title"]
            for k in ("state", "observe_at"):
                if not q["anchors"][k]: q["anchors"].pop(k)
            f.write(json.dumps(q) + "\n")
    checks = [{"property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": "explicit enumeration (stateless model checking) of bounded histories/inputs/faults on the real code against a reference model",
        "level": "model_checking",
        "level_note": p["note"] + " Bounds are in DESIGN.md and in the evidence."} for p in P]
    man = {"version": 1, "setup_cmd": "python3 -c 'print(\"nothing to set up: every check compiles what it needs\")'",
        "hooks": {"guard": "MATHIC_VERIF", "enable": "no hooks were needed: the checks compile the sources of /repo as they are", "source_commits": []},
        "checks": checks, "not_applicable": [],
        "notes": "One driver (check.py) compiles the harnesses of a property from /repo's working tree and explores them exhaustively. check.py replay FILE replays a counterexample."}
    with open("MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
def syncDesign():
    """Copies the bounds of checks_table.py into the sections of DESIGN.md."""
    import re, sys, os
    sys.path.insert(0, os.getcwd())
    from checks_table import BOUNDS
    s = open("DESIGN.md").read()
    for k, b in BOUNDS.items():
        s, n = re.subn(r"(### %s .*?\n\* Enumerated: )[^\n]*" % k, lambda m: m.group(1) + b + ".", s, count=1, flags=re.S)
        assert n == 1, k
    open("DESIGN.md", "w").write(s)
if __name__ == "__main__":
    syncDesign()
    main()
