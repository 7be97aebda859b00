GENERAL = ("TLA+ specification in spec/, checked with TLC; the code is bound to it by validating recorded "
           "executions of the real library (built from /repo's working tree) against it. See DESIGN.md.")
TV = "explicit TLA+ specification; TLC validates recorded executions of the real library against it (one state per call)"
REST = " What is not executed is not judged; no proof about the implementation."


def _n(models, how, note):
    return (TV + "; " + how + ("; TLC model-checks the specification itself (%s)" % models if models else ""), note + REST)


NOTE = {
    "P01": _n("MCApi: every history of 2 calls", "systematic shapes, buffer lengths and types, histories drawn by TLC",
              "Exhaustive over types, devices and buffer lengths around the right one for small shapes; ranks to 50 and sizes to 2^30 by sampling; extents whose product agrees with the size only modulo 2^8, 2^16, 2^31, 2^32."),
    "P02": _n("MCHeap: allocation-level design and five flawed ones", "histories drawn by TLC from Gen.tla over all operations, with a recording allocator",
              "Every allocation and release is recorded, also those behind the installed allocator; histories of up to 30 calls are sampled."),
    "P03": _n("MCApi: every history of 2 calls with errors", "each operation x each error x each position of the bad element; histories run twice, with and without their failing calls",
              "Every error of every operation; positions exhaustively on small tensors and at powers of two and ends of large ones."),
    "P04": _n("MCHeap with refused allocations", "every single allocation of a call refused, and all from it on, for every operation and form",
              "Allocation index exhaustive for each call; shapes sampled, all ranks; single refusals within histories."),
    "P05": _n("MCApi: windows", "the same tensor as several operands or as output variable; writes and destructions afterwards in every order",
              "All bytes of all live tensors are compared around each call; histories sampled."),
    "P06": _n("Sched: all interleavings of two calls, private and shared scratch", "a call suspended at every basic block while a second thread runs another; repeated calls after other calls, failures and in patterned memory",
              "One interruption per call, exhaustive over basic blocks for small operands, thinned for long calls; more than one interruption only as TLC's schedules. Memory-model effects below the basic block are not explored."),
    "P07": _n("MCIndex: bijection on all small shapes", "all small shapes, all coordinates, random shapes to rank 12",
              "Exhaustive to rank 4; larger ones by sampling, with 64-bit sizes."),
    "P08": _n("MCIndex: algebraic laws of broadcasting", "all pairs of small shapes, random long ones, 64-bit extents",
              "Exhaustive to rank 3 and extents 1..3; sampled to rank 20."),
    "P09": _n("MCView: composition of slices; MCQuot", "all (begin, size, step) of small axes; int extremes, tensors of more than 2^31 elements by their quotients",
              "Exhaustive on one and two small axes; rank to 40 and sizes to 2^25 by sampling."),
    "P10": _n("MCView", "all small shapes by all small shapes, all lists of axes; more than 2^31 elements",
              "Exhaustive on shapes of 1s and 2s; sampled above."),
    "P11": _n("MCNum: wrap-around and rounding against independent definitions", "all type pairs with special and random bits, all 8- and 16-bit values, halfway points of every binade; more than 2^31 elements",
              "Exact rounding oracle; 32- and 64-bit values are sampled around every boundary."),
    "P12": _n("MCNum, MCApi: arith", "all 8-bit operand pairs, extremes, special floats; more than 2^31 elements by their quotients",
              "Exhaustive on 8-bit types; exact integers and correctly rounded floats elsewhere, on sampled operands."),
    "P13": _n("MCApi: products", "every rank pairing and broadcast pattern",
              "Integers exactly; floats within a bound on rounding that any order of summation meets."),
    "P14": _n("MCApi: products", "every rank pairing", "Integers exactly; floats within a bound on rounding that any order of summation meets."),
    "P15": _n("MCIndex: window counts, MCApi: windows", "every window of one axis, combinations of two and three, groups",
              "Exhaustive on one axis to extent 4; sampled above, with int extremes."),
    "P16": _n("MCIndex: window counts, MCApi: windows", "every window of one axis, combinations of two and three, both modes, all types",
              "Exhaustive on one axis to extent 4; sampled above, with int extremes."),
    "P17": _n("MCNum", "ranks 2 to 5, both axes, all types, each parameter error",
              "Oracle: exact rational with root to 2^-66 and a rounding bound; operands sampled."),
    "P18": _n("MCNum: rounding, exponential", "all 8- and 16-bit values, special and sampled floats",
              "relu and sqrt exactly; sigmoid and tanh to the precision of the type, by exact bounds of e^x."),
    "P19": _n("MCNum: exponential", "every axis and rank, all types, large and close values",
              "To the precision of the type, by exact bounds of e^x; operands sampled."),
    "P20": _n("", "rand replaced by chosen sequences, frequencies per element and per class of elements",
              "Values exactly for every drawn sequence; the distribution by statistics at 6.5 sigma with fixed seeds."),
    "P21": _n("MCSamples: the counting design against sharing, and its flaws", "every transition of all histories of 2-3 variables of each class, generated by TLC (SamplesGen)",
              "Exhaustive on small universes; 12 defects of auto_test (test code, not editable here) are recorded findings and their histories are asked for one by one."),
    "P22": _n("", "every type and buffer length", "Exhaustive on types and lengths to the bound; values by the specification's arithmetic."),
    "P23": _n("MCParts: every history of bounded length with refused allocations, and six flawed designs", "histories drawn by TLC (PartsGen) and systematic ones",
              "Every rank, layout code and allocation index; histories sampled."),
}
