"""property id -> (module, function, explanation, assumptions)"""

REG = {}


def reg(pid, mod, fn, expl, assume):
    REG[pid] = (mod, fn, expl, assume)


COMMON = ["rustc's MIR of the library at opt-level 0 is what the program does",
          "the models of std functions in sa/models.py and sa/engine.py",
          "floating-point arithmetic is compared as exact rational functions (round-off is out of scope)"]

for _p, _k in (("P01", "resistors, current sources and voltage sources"),
               ("P02", "voltage- and current-output controlled sources")):
    reg(_p, "checks_stamp", _p.lower(),
        "Value-flow fixpoint over the MIR of both analyses for circuits of %s, once per way the "
        "terminals can coincide with ground and with each other; every matrix entry handed to the "
        "linear solver is normalised to a rational function of the element's fields and compared "
        "with the element's equations." % _k, COMMON)
reg("P08", "checks_stamp", "p08",
    "For every element kind the construction of the matrix handed to the solver is unfolded to its "
    "base and the loops that add to it: the base must be zero or fully rebuilt, no entry may be "
    "carried from one attempt to the next, and each element must be visited exactly once.", COMMON)

reg("P05", "checks_time", "p05",
    "Stamps of the time-varying sources as for P01, plus the relation between the time a source is "
    "evaluated at in a matrix and the time its solution is recorded with, by simultaneous backward "
    "substitution of the (time, solution) pair through every join.", COMMON)
reg("P03", "checks_time", "p03",
    "Capacitor stamps as for P01, and by simultaneous backward substitution of (time, solution) pairs: the "
    "step length of the companion is the recorded time minus the previous point's time, and its history is "
    "the solution of that point, the DC solution at t=0 first.", COMMON)
reg("P10", "checks_time", "p10",
    "Reachability in the exploded control-flow graph with the edges carrying a positive convergence verdict "
    "removed: no waveform row, no next timestep and no unreported end of an analysis may be reachable from a "
    "solve; the verdict's arguments are the newest solution and the one before it.", COMMON)
reg("P11", "checks_time", "p11",
    "Recorded times: pair substitution shows each row's time is the time solved, a bound prover over the join "
    "operands and path facts shows it never exceeds the stop time, and reachability shows each accepted point is "
    "recorded exactly once and the analysis ends at the stop time or with an error.", COMMON)
reg("P12", "checks_time", "p12",
    "Step control: bound prover for the longest step, and the facts on every edge back to the iteration header: "
    "below the iteration limit, or a retry shortened by the step factor and not below the minimum step.", COMMON)
reg("P13", "checks_time", "p13",
    "Dominance of a converged DC solution over every timestep in the exploded graph, and pair substitution for "
    "the first row and the initial history.", COMMON)
reg("P14", "checks_time", "p14",
    "Dependence of matrices, waveform, verdicts and final engine state on the engine's state before the analysis, "
    "for every element kind: there must be none.", COMMON)
reg("P04", "checks_elem", "p04",
    "Stamps of the diode as for P01 and the voltage it is linearised at; the companion model function alone: every "
    "alternative value is normalised and compared with i=IS(exp(v/VT)-1) and its derivative, and the step limiting must "
    "be void once the voltage has settled.", COMMON)
reg("P06", "checks_elem", "p06",
    "The value functions of the sine sources, every alternative normalised to a rational function over the sine.", COMMON)
reg("P07", "checks_elem", "p07",
    "The value function of the piecewise-linear source: every alternative is classified as before/inside/after the "
    "pattern, the line through the neighbouring points is checked as a rational function, and the conditions by "
    "reachability with the edges of the right conditions removed.", COMMON)
reg("P09", "checks_elem", "p09",
    "The convergence test alone: limits compared as rational functions, and reachability of each verdict with the edges "
    "of passed (failed) comparisons removed.", COMMON)
reg("P16", "checks_solve", "p16",
    "The linear solver alone: every update of the matrix is normalised and must be a row minus [r][k]/[k][k] times the "
    "pivot row, the ranges of rows, columns and pivots come from loop counters and exit facts, the pivot search is "
    "checked as a maximum by induction, and the back-substitution as a recurrence.", COMMON)
reg("P15", "checks_size", "p15",
    "The two counting functions are run once per element kind: the change one element makes to the count is a normalised "
    "term compared with the element's terminals and branch current; the shape of every solved system is the term of the two "
    "counts; every function that can write a circuit's element list or branch counter keeps `numbers used are 0..counter`.",
    COMMON)
reg("P17", "checks_wave", "p17",
    "Every text written to the waveform file is unfolded, through loops and joins, to lines of columns; ranges of the column "
    "loops come from counters and exit facts and are compared with the numbers of nodes and branches; order and number of header "
    "lines by reachability.", COMMON)
reg("P18", "checks_io", "p18",
    "Every result of an input or output operation in the transient analysis and in reading a deck is followed through the "
    "exploded control-flow graph: no return and no next line may be reachable with the failure undecided, or decided "
    "without a message; data is written in whole and no buffer is dropped unflushed.", COMMON)
CARDS = COMMON + ["a line is analysed as a sequence of words of which only the stated prefixes are fixed, from an arbitrary "
                  "state of the reader"]
reg("P19", "checks_cards", "p19",
    "One value-flow fixpoint of the reader's loop body per kind of card, from an arbitrary reader state: every alternative "
    "value of the state at every way back to the next line must differ from the state before, or a message was printed.", CARDS)
reg("P20", "checks_cards", "p20",
    "The same fixpoints with a ghost flag set by printing an error: no way back to the next line, and no return, may have the "
    "ghost set and the deck not marked as bad; the mark is never taken back, is what reading returns, and ends the "
    "program with a bad status before any analysis.", CARDS)
reg("P21", "checks_values", "p21",
    "The reader's fixpoint per kind of element card, with every word symbolic: each field of what the card adds is a term that must "
    "be the node or the number of the word it denotes on every alternative; the flattening function is then analysed on an instance of that "
    "shape, and each terminal and value of the device it makes is compared with the instance's fields.", CARDS)
reg("P23", "checks_deck", "p23",
    "The reader's fixpoint per control command and per card, with every word symbolic: each field of the configuration afterwards must be "
    "the number of the word it is set from, or the field before; the block state and the dispatch of the engine are compared likewise.", CARDS)
reg("P24", "checks_deck", "p24",
    "The term that a line's words are cut from, the position of the first line read, the step to the next line and the condition under "
    "which the line loop is left; the reader's fixpoint on blank and comment lines must leave every part of its state as it was.", CARDS)
reg("P26", "checks_deck", "p26",
    "The reader's fixpoint per card: only the circuit being read may change; the circuit a .subckt card adds, where .ends returns to, and "
    "the reader's state transitions while reading a library file, from every state of the section being looked for.", CARDS)
FLAT = COMMON + ["one level of flattening is analysed from arbitrary circuits and an arbitrary scope, with the instance at hand of a stated "
                 "shape; deeper levels are the same function (induction over the nesting)"]
reg("P27", "checks_flat", "p27",
    "The flattening function from arbitrary circuits: loops over instances and elements must start at the first, advance by one and be left "
    "only at the end; each iteration adds exactly one device, one source, or one flattening of the named definition, whose terminals are the flat "
    "names of the local nodes.", FLAT)
reg("P28", "checks_flat", "p28",
    "The node table handed to the flattening of a definition, unfolded: one entry per port, keyed by the instance's scope and the port's "
    "name, whose value is the flat node of the connection at the port's position; the count of both is compared on every way in.", FLAT)
reg("P29", "checks_flat", "p29",
    "The parameter list handed to the flattening of a definition, unfolded for every shape of overrides and defaults: the latest "
    "entry of a name must be the override when there is one, else the default; names are looked up in the scope of the card.", FLAT)
reg("P25", "checks_nodes", "p25",
    "The lookup, the first mention and the aliasing of a node name are run once per way a name can end (each name of ground, any other "
    "text; with and without a scope): result, table and counter must be the terms stated; every other function that writes a node table is "
    "listed and judged; the reader's fixpoint on cards with a name of each printable character outside the alphabet must mark the deck.", CARDS)
reg("P22", "checks_num", "p22",
    "The readers of numbers and of bracket expressions are evaluated abstractly on every text of up to four characters over the classes that "
    "matter and on the longer shapes of numbers, digits and letters being symbols known only by their class: the result must be the parse of exactly "
    "the number part times the multiplier; on an arbitrary text no index or unwrap may fail.", COMMON)
reg("P30", "checks_det", "p30",
    "Every function of library and program is searched for calls whose answer is up to chance (time, threads, environment, addresses, random "
    "hash keys, directories) and for state that outlives an analysis; what comes out of a hash table is followed as a typed flow of keys, values "
    "and pairs through iterators, closures, lists and loops: a use that depends on the order is a violation unless the list was sorted by a key "
    "that tells all items apart before, or the use is a listing on the terminal.", COMMON)
reg("P31", "checks_eff", "p31",
    "Every call of every function of library and program is searched for effects on the world (removing, renaming, linking, starting programs, "
    "network, environment, exit); every place that makes a file must be reached from the transient analysis alone, and the path in the analysis's "
    "state there must be the configuration's waveform file, opened to be replaced, or the directory that holds it.", COMMON)
