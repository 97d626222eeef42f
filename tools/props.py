"""the properties: id -> (title, statement, over, quantifier text, why tests cannot, files, mechanism)"""
P = {}


def p(i, title, stmt, over, qt, why, files, mech):
    assert len(title) <= 80, (i, len(title))
    P[i] = dict(id=i, title=title, statement=stmt, quantifier={"over": over, "text": qt},
                why_tests_cant=why, anchors={"files": files, "mechanism": [
                    {"name": m.split("@")[0], "where": m.split("@")[1] if "@" in m else files[0]} for m in mech]})


ENG, CKT, RDR, EXP = "src/engine.rs", "src/circuit.rs", "src/spice.rs", "src/expander.rs"
CFG, PAR, EXR, WAV, MAIN = ("src/analysis.rs", "src/parameter.rs", "src/bracket_expression.rs",
                            "src/wavewriter.rs", "bin/tiny-spice.rs")
EL = "src/element/"

p("P01", "Resistors and independent sources contribute exactly their MNA equations",
  "In every system of equations the simulator solves, each resistor of value R adds 1/R between its two nodes, each "
  "current source adds its current out of its positive and into its negative node, and each voltage source adds its branch "
  "current to its two nodes and one equation v(p)-v(n)=V. Nothing is added to the ground row or column, whichever "
  "terminals are grounded or tied together, and every such element of the circuit is counted exactly once.",
  ["inputs", "programs"], "all circuits of these elements, all node assignments, values and element orders; every solve of a DC or transient analysis",
  "The decks fix a handful of topologies; a wrong sign or missing entry for one way of grounding terminals shows only there.",
  [ENG, CKT], ["Engine elaboration and the stamping of independent elements"])
p("P02", "Controlled sources contribute exactly their MNA equations",
  "A voltage-controlled current source adds k*(v(cp)-v(cn)) flowing from its positive to its negative node, and a "
  "voltage-controlled voltage source adds its branch current to its output nodes and one equation v(p)-v(n)=k*(v(cp)-v(cn)). "
  "This holds for every way the four terminals coincide with each other or with ground, in DC and in every transient timestep.",
  ["inputs", "programs"], "all circuits of controlled sources, all 52 terminal coincidence patterns",
  "Tests exercise one or two patterns with ground on the same side; 50 more exist.",
  [ENG, CKT], ["stamping of voltage-dependent elements"])
p("P03", "Capacitors follow backward Euler in transient and are open in DC",
  "In a transient timestep of length dt a capacitor C behaves as a conductance C/dt in parallel with a current source C/dt times "
  "its own voltage at the previously accepted time point, where dt is the length of the step actually being solved. "
  "In the DC solution a capacitor contributes nothing.",
  ["inputs", "histories"], "all capacitor circuits, every step length and step history incl. retried and stretched steps",
  "Tests run fixed RC decks; a companion model using a stale step length or voltage only differs after retries or step changes.",
  [ENG, EL + "capacitor.rs"], ["storage element companion models"])
p("P08", "Every system of equations is built afresh and counts each element once",
  "Each system of equations given to the linear solver starts from zero or from the fixed contributions of the linear elements, "
  "contains each element of the circuit exactly once, and carries nothing over from an earlier iteration, an "
  "earlier timestep or an abandoned attempt.",
  ["inputs", "histories"], "all circuits, every solve of every analysis, any number of Newton iterations and timesteps",
  "Accumulation shows only after several iterations, retries or analyses of particular element mixes.",
  [ENG], ["per-iteration copy of the base matrix", "element lists built at elaboration"])
p("P05", "Time-varying sources are solved at the time the solution is recorded with",
  "In DC every time-varying source (sine voltage or current, piecewise linear) contributes its t=0 value. In a transient timestep "
  "all of them contribute the equations of an ideal source of the value they have at one common time, and the "
  "solution of that system is recorded with exactly that time.",
  ["inputs", "histories"], "all circuits with such sources, all step lengths, retried and final steps included",
  "A wrong time differs from the right one only after a retried, stretched or clipped step, within the tolerances of the test decks.",
  [ENG, EL + "vsine.rs", EL + "isine.rs", EL + "vpwl.rs"], ["stamping of independent sources", "time labels of recorded points"])
p("P10", "Only converged solutions are accepted, and failures are reported",
  "A transient solution is recorded, and the next timestep entered, only when the convergence test accepted "
  "that solution against the one before it; a transient analysis does not start from a DC operating point that did not converge. "
  "An analysis that gives up on convergence, whether DC or transient, says so with an error message.",
  ["inputs", "histories"], "all circuits and configurations, every iteration history",
  "Test decks converge; the paths of failing iterations are not taken by them.",
  [ENG], ["Newton loop of the timestep and of the DC operating point"])
p("P11", "The recorded transient points cover the analysis window in order",
  "A transient waveform starts with the DC solution at t=0. After that every accepted timestep at or after the requested start time is recorded exactly "
  "once, with the time it was solved for, and no time is beyond the stop time. "
  "Unless it reports an error the analysis ends at the stop time, with that point recorded. "
  "The end time in the result is that of the last accepted timestep.",
  ["inputs", "histories"], "all transient set-ups, step histories and circuits",
  "The step at which a point is lost, doubled or mislabelled depends on the step history, which decks of fixed length do not vary.",
  [ENG, WAV], ["timestep loop", "final timestep handling"])
p("P12", "Timestep control keeps its bounds and always terminates an iteration",
  "No transient timestep is longer than the maximum factor RMAX times the requested step. A timestep still not converged after ITL4 iterations "
  "is retried with the step shortened by FT, and abandoned once the step falls below RMIN times the requested "
  "step; the DC iteration ends after about ITL1 iterations.",
  ["inputs", "histories"], "all configurations and circuits, every iteration history",
  "Bounds are only met on long runs of easy steps or repeated failures, which the test decks do not produce.",
  [ENG, CFG], ["step doubling and its cap", "step reduction on non-convergence", "DC iteration limit"])
p("P13", "A transient analysis starts from the converged DC operating point",
  "A transient analysis first solves the DC operating point with sources at t=0, does not proceed unless it converged, records it as the first row at "
  "t=0, and uses it as the history of energy-storing elements in the first timestep.",
  ["inputs", "histories"], "all circuits and configurations",
  "With test decks starting at or near zero a wrong starting point settles within tolerance.",
  [ENG], ["start of the transient analysis"])
p("P14", "Repeated analyses with one engine are independent",
  "The equations, verdicts, waveform and results of an analysis depend on the circuit and configuration given to it, and on nothing "
  "an earlier analysis left in the engine.",
  ["histories"], "all sequences of analyses run on one engine, all circuits",
  "The tests run one analysis per engine.",
  [ENG], ["Engine::elaborate", "engine state carried between analyses"])
p("P04", "Diodes follow the exponential junction law at the voltage of the iterate",
  "In every iteration a diode is replaced by its tangent: a conductance g and a current source i-g*v with i=IS*(exp(v/VT)-1), g its derivative "
  "(never below a small minimum) and VT=kT/q, taken at its voltage in the newest iterate, which the limiting of large steps changes only until "
  "that voltage has settled. Doubling the diode's saturation current doubles i; polarity follows its anode and cathode.",
  ["inputs", "histories"], "all diode circuits, bias voltages, saturation currents and temperatures; every iteration",
  "A wrong companion model can converge to nearly right values at the bias points sampled.",
  [EL + "diode.rs", ENG], ["Diode companion model and step limiting", "nonlinear stamping@" + ENG])
p("P06", "Sine sources follow offset + amplitude*sin(2*pi*f*t)",
  "At every time t a sine voltage or current source has the value offset + amplitude*sin(2*pi*frequency*t), in volts or amperes, "
  "with no other dependence on time or on earlier evaluations.",
  ["inputs"], "all offsets, amplitudes, frequencies and times",
  "A few decks at one frequency cannot tell a formula from one that agrees at the points sampled.",
  [EL + "vsine.rs", EL + "isine.rs"], ["value of the sine sources"])
p("P07", "Piecewise-linear sources interpolate their points, hold and repeat",
  "A piecewise-linear source is 0 before its delay. From there it goes through its points in straight lines, measured from the delay, and after "
  "the last point it holds that point's value, or starts again if it repeats. Its value is a "
  "finite number at every time, pattern ends and one-point patterns included.",
  ["inputs"], "all patterns of increasing times, delays, repeat settings and times",
  "Values at pattern boundaries, in later periods and for degenerate patterns need exact times that runs meet only by chance.",
  [EL + "vpwl.rs"], ["value of the piecewise-linear source"])
p("P09", "The convergence verdict compares every unknown with its own tolerance",
  "Two successive solutions are called converged exactly when every unknown differs by no more than its tolerance: RELTOL*|x|+VNTOL for node "
  "voltages and RELTOL*|x|+ABSTOL for branch currents. A solution with a component that is infinite or not a number is called divergent, never converged.",
  ["inputs"], "all pairs of solution vectors, circuit sizes and tolerance settings",
  "Which component decides, and non-finite components, depend on solutions the decks do not produce.",
  [ENG], ["Engine::convergence_check"])
p("P16", "Linear systems are solved by exact elimination with partial pivoting",
  "Every system of equations is reduced only by exchanging rows and subtracting from a row the multiple of the pivot row that clears its pivot column, "
  "over all columns and the right-hand side, with the largest available entry (in magnitude) of the column as pivot, for every unknown but ground. "
  "Back-substitution then gives every unknown the value its equation demands, so a singular system never yields a finite, wrong answer.",
  ["inputs"], "all matrices of all sizes",
  "Small well-conditioned test matrices rarely need pivoting and survive ranges that are off by one.",
  [ENG], ["Gaussian elimination", "pivot search", "back-substitution"])
p("P15", "Every unknown has a row: node and branch counts cover the whole circuit",
  "Every system of equations has exactly one row per node number in use and one per voltage-defined branch (independent, "
  "sine, piecewise-linear and voltage-controlled voltage sources), and one column more for the known currents and voltages. "
  "Every terminal of every element, controlling terminals included, is numbered below the node count, and branches get "
  "different numbers below the branch count in whatever order and by whatever route elements are added.",
  ["inputs", "programs"], "all circuits, all mixtures and orders of element kinds, hand-built, read or expanded",
  "The tests' decks have a few sources in one order; a kind left out of a count or a reused number shows only in mixtures.",
  [CKT, ENG, EXP], ["counts of nodes and branch unknowns", "branch numbering@" + CKT, "elaboration of the system@" + ENG])
p("P17", "Waveform files: header, units and every row describe the same unknowns",
  "A transient analysis writes one waveform file: first one line of column names (Time, v(name) of every node in the order of the node "
  "numbers, i(k) of every branch in order), one line of units, then one line per recorded point with the time and every unknown of that "
  "point in the same order, in full or to at least nine decimals. The table of node names covers every node of the circuit with a name of its own.",
  ["inputs", "histories"], "all circuits, any number of nodes and branches, all recorded points",
  "The tests never read the waveform file; a missing or shifted column mislabels every result.",
  [WAV, ENG, CKT], ["header and rows of the waveform file", "node number to name table@" + CKT])
p("P18", "Failures to read the deck or write the waveforms never pass unnoticed",
  "When the deck (or a library it refers to) can't be opened or one of its lines can't be read, or the waveform file can't be created or "
  "written, in part or in whole, the program stops or reports it; it never goes on as if the data had been read or written. "
  "Everything handed over for writing is written in whole and has reached the file when the analysis ends.",
  ["inputs", "fault_sequences"], "any failure of any input/output operation at any point of a run (full disk, missing permissions, invalid UTF-8)",
  "The tests run on a healthy file system and never read the waveform file.",
  [WAV, RDR, ENG], ["results of file operations while writing waveforms", "opening and reading decks@" + RDR])
p("P19", "No card of a deck is dropped silently",
  "Every line of a deck that is neither blank nor a comment nor outside the library section asked for has an effect or is reported: an element or "
  "instance card adds exactly one element or instance to the circuit being read or marks the deck as bad (or stops the program), and any other line "
  "changes the configuration or the state of the reader or is answered with a message. This holds for cards of any length and for names that are not known.",
  ["inputs", "programs"], "all decks, every card in every state of the reader",
  "The test decks contain only well-formed cards; what happens to the others is not exercised.",
  [RDR], ["line loop of the reader", "extraction of elements from cards"])
p("P20", "An error in the deck is remembered, returned, and prevents the simulation",
  "Whenever reading a deck prints an error, the deck is marked as bad; the mark is never taken back by later cards or by files read in between, it is what "
  "reading returns, and the program then ends with a non-zero status without running any analysis. It also ends with a non-zero "
  "status when there was nothing to simulate.",
  ["inputs", "programs", "histories"], "all decks with errors anywhere, in libraries too; every order of good and bad cards",
  "Needs bad decks of every kind, with good cards before and after; the tests read good decks.",
  [RDR, MAIN], ["error flag of the reader", "exit status of the program@" + MAIN])
p("P21", "Every field of an element card reaches the terminal or value it denotes",
  "An element card makes a device of the kind its first letter names, between the nodes named by the following words in their order (controlling "
  "nodes too), with the value of the word that denotes it: the constant of V, I, R, C, E and G cards, offset, amplitude and frequency of SIN, the time "
  "and value pairs, repeat time (none by default) and delay (0 by default) of PWL; an X card keeps its nodes in order, its definition's name and every name=value pair.",
  ["inputs", "programs"], "all element cards with any node names and values, in any circuit of any deck, and the devices they become when flattened",
  "Two fields exchanged give a circuit that runs; tests use symmetrical decks, zero offsets, and no delays.",
  [RDR, EXP, CKT], ["extraction of element cards", "making of devices@" + EXP])
p("P22", "A number with a suffix means its scaled value; no text stops the reader",
  "A value text is an optional sign, digits and an optional fraction, then an exponent `e` or one of the suffixes k, m, u, n, p, meaning the decimal value "
  "times 1e3, 1e-3, 1e-6, 1e-9 or 1e-12; what follows is ignored, and a text that does not start so is no number. {name} (letters and digits, perhaps with "
  "spaces around) stands for the parameter of that name; an unclosed or foreign expression is refused. No text whatever stops the program.",
  ["inputs"], "all texts, by the class of every character, up to four characters and the longer shapes of numbers; all texts for not stopping",
  "A wrong multiplier or a lost sign in one branch of the scanner gives a circuit that runs with other values; tests read a dozen texts.",
  [PAR, EXR], ["the scanner of numbers@" + EXR, "the scanner of bracket expressions@" + EXR])
p("P23", "A control block sets exactly the analysis and options it names",
  "Within .control and .endc, `op` asks for a DC operating point and `tran step stop [start]` for a transient analysis with these times (start is optional), "
  "each naming its waveform file waves/<deck>/dc.dat or tran.dat (wherever the deck is); `option ABSTOL|RELTOL|RMAX = value` sets that setting. Nothing else of the configuration changes, "
  "no circuit changes, cards outside a control block change no setting, and the engine runs the analysis that was asked for.",
  ["inputs", "programs"], "all control blocks with any values, before, between or after the cards",
  "A setting that lands in the wrong field still simulates; tests look at few settings of few decks.",
  [RDR, CFG, ENG], ["control block commands", "dispatch of analyses@" + ENG])
p("P24", "Title, comments and blank lines have no effect; every other line is read",
  "The first line of a file is its title and is never read as a card. Lines that start with * and lines without a word are skipped wherever they are, in control blocks "
  "too, and text after a semicolon is not part of a card. Every other line up to the end of the file is read once, in order, "
  "as words separated by white space.",
  ["inputs"], "all files, any number, order and mixture of lines",
  "A comment swallowed with the next card or a lost last line depends on positions that the test decks do not have.",
  [RDR], ["line loop of the reader"])
p("P25", "A node name denotes one node; ground's names denote ground everywhere",
  "`gnd`, `GND` and `0`, alone or as the last dotted part of the flat name of a node, are node 0 in every circuit at every depth. Any other name gets a number "
  "of its own where it is first mentioned, the next free one, and denotes that node from then on. An alias denotes the node it was made for, and a name that denotes a node "
  "can never be made an alias of another. On cards, node names consist of ASCII letters, digits and underscores; any other name is an error.",
  ["inputs", "programs", "histories"], "all names of any length and case, in any order of mention, at any depth; all characters at any place in a name",
  "Two names that collide or a ground that floats need particular spellings and orders; tests use a few names.",
  [CKT, RDR], ["node table", "names of nodes on cards@" + RDR])
p("P26", "Definitions and libraries: every card lands in the circuit it belongs to",
  "Between .subckt and .ends, cards are added to the definition named on the .subckt card, whose ports are its first nodes in their order and whose name=value words are "
  "its parameters with defaults; all others are added to the top level. Definitions in definitions, an .ends alone and a missing .ends are errors. "
  "A .lib card reads, from the file beside the deck, the named section alone, into the same list of definitions; a section that is not there is never passed over.",
  ["inputs", "programs", "histories"], "all decks and library files; every order of definitions, sections and cards",
  "Needs decks with several definitions, sections with common cards, and bad nesting; the tests have one library deck.",
  [RDR], ["subcircuit definitions", "library sections"])
p("P27", "Flattening keeps every device and source of every instance exactly once",
  "The simulated circuit holds, for every device, independent source and nested instance of the top level and of each instance of a definition, exactly one "
  "device, source or copy of the definition's content: none is dropped, doubled or merged with one of another instance. Nodes of a definition "
  "get names of their own per instance, ground stays ground, sources keep their kind and waveform, and an instance's content is that of the definition it names.",
  ["inputs", "programs"], "all hierarchies: any nesting, any number of instances, definitions and elements, in any order",
  "Needs several instances of several definitions at several depths; a node name that lacks its scope only shows with two instances.",
  [EXP, CKT], ["expansion of instances", "expansion of sources"])
p("P28", "An instance's connections reach the ports of its definition in order",
  "Inside an instance, the k-th port of the definition is the very node that the k-th connection of the X card names outside, for any number of ports. "
  "An instance with too few or too many connections, or of a definition that does not exist, stops the program; "
  "it is never simulated with some port unconnected or passed over.",
  ["inputs", "programs"], "all definitions and instances, any number and order of connections, ground and repeated nodes included",
  "The tests' definitions are mostly symmetrical two- and three-ports; exchanged or shifted ports go unnoticed.",
  [EXP], ["connection of ports", "instances of unknown definitions"])
p("P29", "Parameters: an override wins over the default, names are resolved in scope",
  "Inside an instance, a parameter of the definition has the value given on the X card if there is one, and the definition's default otherwise. A name used as a value "
  "on a card stands for the value of that parameter in the scope of the card (the enclosing instance for X cards), per instance, never for one of another "
  "instance; a parameter or device left without a value stops the program.",
  ["inputs", "programs"], "all mixtures of overrides, defaults and names, at any nesting, any number of instances",
  "Tests use one or two parameters with one instance each; an override that leaks into the next instance needs several.",
  [EXP, CKT], ["overrides and defaults of instances", "lookup of a parameter@" + CKT])

p("P30", "The outcome of a deck is the same every time it is simulated",
  "Reading, flattening and simulating depend only on the deck and the files it names: circuits, node numbers, equations, waveforms and the names shown in them "
  "never depend on the order in which a hash table is walked, on the time, the environment, addresses, threads or state left by something else (only the listing of "
  "nodes on the terminal may be in any order). A node known under several names is shown under the one with the fewest levels.",
  ["schedules", "inputs"], "all decks and circuits, all orders in which hash tables can be walked",
  "A hash table is walked in another order in another run; a test sees one order and often the right one.",
  [CKT, WAV, EXP, RDR, ENG], ["the table of node names@" + CKT, "walks over hash tables@" + CKT])
p("P31", "A simulation changes nothing but its own waveform file",
  "Reading and flattening a deck make, change and remove no file. A transient analysis makes one file, the waveform file its configuration names, replacing what an "
  "earlier analysis left there, and the directories leading to it. Nothing else is made, renamed or removed, no other program is started, and the library never ends "
  "the process that uses it with an exit status of its own.",
  ["inputs", "programs"], "all decks, configurations and call paths of library and program",
  "Tests look at results, not at what else was touched; an old file of the same name is rarely there.",
  [WAV, ENG, MAIN], ["opening of the waveform file@" + WAV])

p("P32", "Transient waveforms stay close to the exact solution of the circuit's equations",
  "At every recorded time the waveform differs from the exact solution of the circuit's differential equations by an amount that shrinks with the requested step "
  "and is bounded for steps small against the circuit's time constants.",
  ["inputs"], "all circuits with a unique solution, all steps",
  "Tests compare a few rows of a few decks with stored values.",
  [ENG], ["timestep control and backward Euler"])
p("P33", "Newton iteration finds the operating point of every well-posed circuit",
  "For every circuit with a unique DC solution the iteration converges to it within the iteration limit, whatever the diodes and sources.",
  ["inputs"], "all circuits with a unique DC solution",
  "A handful of diode circuits converge in the tests.",
  [ENG, EL + "diode.rs"], ["Newton iteration and step limiting"])
p("P34", "Round-off does not spoil the solution of a well-conditioned system",
  "The solution of every well-conditioned system of equations has a relative error of a modest multiple of the condition number times machine precision.",
  ["inputs"], "all well-conditioned systems",
  "Tests solve systems of two to four unknowns.",
  [ENG], ["Gaussian elimination in floating point"])
NA = {
 "P32": "the size of a discretisation error depends on run-time values (time constants, step sizes, derivatives) that no analysis of the source bounds; what is "
        "static about it (the formulas, times, history and step bounds) is P03, P05, P11 and P12",
 "P33": "convergence of Newton's method depends on the circuit's numbers; what is static about it (tangent, limiting, verdict, what happens on failure) is P04, P09, P10, P12",
 "P34": "error growth depends on the entries met at run time; what is static about it (exact elimination steps, largest pivot, no finite answer from a singular system) is P16",
}
