prop("C01", "Abandoned attempts leave nothing in the answer",
 "When a randomly chosen vector or perturbation turns out to be unsuitable and the computation starts over, nothing that was accumulated under the abandoned choice, and nothing left from a previously evaluated term, contributes to the final result. An unsuitable choice is always noticed and reported up to the place that starts over with a newly drawn choice; it never counts as a finished attempt.",
 ["histories", "inputs"], "every polytope, every sequence of unsuitable random choices before a suitable one",
 "An unsuitable choice has a tiny probability on the test inputs, so the retry paths run almost never in the suite.",
 ["barvinok/dec.cpp", "barvinok/barvinok.cpp", "ExponentialSubst.cpp", "ExponentialEhrhart.cpp", "ResSingle.cpp", "Residue.cpp", "RudyResNTL.cpp", "valuation/Perturbation.cpp", "valuation/PolytopeValuation.cpp", "top-knapsack/TopKnapsack.cpp"],
 [("InitializeComputation overrides and the retry loop", L + "barvinok/dec.cpp"), ("status -1 passed up the recursion", L + "barvinok/barvinok.cpp"), ("NotGenericException", L + "ExponentialSubst.cpp"), ("zero tests of dot products", L + "ResSingle.cpp")],
 "interprocedural side-effect summaries, must-overwrite dataflow on the CFG, status-propagation typestate",
 "Sound for the recognised retry structure: accumulators = arithmetic-typed locations an attempt may update; each must be overwritten on every path to the next attempt. Counters used for progress output and pools behind opaque pointers are outside it.")

prop("C02", "Exact rationals stay canonical and never hide a zero denominator",
 "Every exact rational number the library hands out or computes with is in lowest terms with a positive denominator, and any cached integer scaling of a rational vector is consistent with its current entries. A zero denominator is never turned into a finite value: it stops the computation with an error.",
 ["inputs", "histories"], "every sequence of arithmetic operations and element updates on every operand value",
 "The suite checks a few final results; a stale cache or non-reduced fraction shows only for particular operation orders and values.",
 ["rational.h", "rational.cpp", "interpolation/PolynomialInterpolation.cpp"],
 [("RationalNTL::canonicalize", L + "rational.cpp"), ("computed_integer_scale flag of rationalVector", L + "rational.cpp")],
 "typestate on the CFG of every method of the rational classes (dirty after a write, clean after canonicalisation / cache invalidation)",
 "Covers every write to numerator/denominator/cache fields in the program; arithmetic identities themselves are out of scope.")

prop("C03", "In-place operations are right when operands are the same object",
 "An operation that stores its result into one of its own operands gives the mathematically correct result even when another operand is that same object or one of its parts, as in dividing or subtracting a value by itself or assigning an object to itself.",
 ["inputs", "programs"], "every call of a mutating operation with every overlap between the operands",
 "Unit tests call the operations with distinct objects only.",
 ["rational.cpp", "rational.h", "top-knapsack/PeriodicFunction.cpp", "integration/GeneralMonomialSum.h", "integration/burstTrie.h", "interpolation/PolynomialInterpolation.cpp"],
 [("compound operators of the exact rational class", L + "rational.cpp"), ("assignment operators", L + "top-knapsack/PeriodicFunction.cpp")],
 "alias analysis: read-after-write of a by-reference operand that may alias the written location, on the CFG of every mutating method",
 "Sound up to one level of field structure for the classes that define mutating operators or methods with same-class reference parameters.")

prop("C04", "Copies are complete and independent, disposal is complete",
 "A copy of a cone, a list of vectors, a polynomial or any other composite value equals the original in every component and shares no storage that disposing of either releases or that later operations on either change. Where a type has an operation that disposes of a value, that operation releases all the storage the value was given for its own, and a value that owns storage is never copied member by member, nor is its storage handed to a second owner.",
 ["histories", "inputs"], "every sequence of copying, changing and disposing of composite values",
 "Sharing or a forgotten component shows only when the copy and the original are later changed or freed in a particular order.",
 ["cone.cpp", "cone.h", "Polyhedron.h", "top-knapsack/PeriodicFunction.cpp", "integration/burstTrie.hpp", "interpolation/PolynomialInterpolation.cpp", "vertices/cdd.cpp", "valuation/PolytopeValuation.cpp"],
 [("copyCone / copyListVector / freeCone", L + "cone.cpp"), ("copy constructor and destructor of Polyhedron", L + "Polyhedron.h"), ("PeriodicFunction", L + "top-knapsack/PeriodicFunction.cpp")],
 "must-write dataflow of every copying routine over the record layout, ownership analysis of pointer fields (depth, release, hand-over), absence of implicit copies of owning records",
 "Decides coverage of fields and deep/shallow treatment of owned pointers; it does not prove value equality of copied contents computed by library code.")

prop("C05", "Text from outside is never interpreted by a shell",
 "Whatever characters occur in file names, command-line arguments or other text from outside, a helper program started through the shell receives that text as exactly one literal argument: no character of it is interpreted by the shell, and an empty text still arrives as an argument.",
 ["inputs", "configurations"], "every file name, argument, environment value and line of input",
 "Tests only use plain file names.",
 ["latte_system.cpp", "latte_system.h", "ReadPolyhedron.cpp", "count.cpp", "triangulation/TriangulationWithTOPCOM.cpp", "normalize/normaliz_wrapper.cpp", "valuation/valuation.cpp", "buildPolytopes/BuildPolytope.cpp"],
 [("shell_quote", L + "latte_system.cpp"), ("system_with_error_check", L + "latte_system.cpp")],
 "whole-program taint analysis to shell sinks plus abstract interpretation of the quoting routine against the shell lexer",
 "Flow-insensitive and field-based over all translation units; external functions propagate everything. Numeric types are taken to carry no shell text.")

prop("C06", "Missing, unreadable or incomplete input and failing helpers stop the run",
 "When an input file, or a file a helper program was to produce, cannot be opened, ends before all the expected data was read, or holds text where a number is expected, or when a helper program cannot be run, reports failure or is killed, or a file cannot be renamed, the program stops with an error and a non-zero exit status. It never goes on with leftover, default or partially read values.",
 ["inputs", "faults"], "every input file and every failure of the file system or of a helper program",
 "Tests use complete files and helpers that work.",
 ["ReadLatteStyle.cpp", "ReadPolyhedron.cpp", "ReadingFile.cpp", "CheckEmpty.cpp", "latte_system.cpp", "vertices/cdd.cpp", "print.cpp", "dual.cpp", "normalize/normaliz_wrapper.cpp", "valuation/valuation.cpp", "top-knapsack/Driver.cpp"],
 [("check_stream", L + "ReadLatteStyle.cpp"), ("system_with_error_check", L + "latte_system.cpp"), ("readCddExtFile", L + "vertices/cdd.cpp")],
 "typestate analysis of every input stream and every result of a system service on the CFG, with function summaries",
 "Every stream that data is extracted from must be tested, by a test whose failing side stops the run, after its last read on every path; every status result must be compared against success on every path. Whether the data read is meaningful is not decided here.")

prop("C08", "Command-line options do what the help says",
 "Every option a program advertises in its help is recognised as that option and never mistaken for another one; its value is exactly the text after the equals sign and is stored where that option's value belongs; and what it sets is neither discarded nor overwritten before it is used. Different options, and the different choices listed for one option, never set exactly the same thing. An unknown option, or an unknown choice for an option with a fixed list of choices, stops the program with an error instead of being ignored or taken for something else.",
 ["inputs", "configurations"], "every advertised option and choice, in any combination and order, and every argument that is none of them",
 "Tests use a handful of the options, and a misread option usually still gives the right count by another method.",
 ["count.cpp", "ReadPolyhedron.cpp", "valuation/valuation.cpp", "dual.cpp", "genFunction/matrix_ops.cpp", "triangulation/triangulate.cpp", "normalize/normalize.cpp", "normalize/ReductionTest.cpp", "normalize/normaliz_wrapper.cpp", "polyhedron-to-cones.cpp", "triangulation/triangulate-boundary.cpp", "top-knapsack/Driver.cpp"],
 [("option loop of count", L + "count.cpp"), ("ReadPolyhedronData::parse_option", L + "ReadPolyhedron.cpp"), ("option loop of integrate", L + "valuation/valuation.cpp"), ("shared option parsers", L + "triangulation/triangulate.cpp")],
 "constant propagation of each option spelling through the CFG of the option-parsing code (delegated parsers included), effect comparison, dead-store analysis, cross-check against the spellings found in the help texts",
 "Decides recognition, value offsets, storage and survival of what an option sets up to its first possible use; it does not decide what the selected algorithm computes. Numbers given as values are not validated.")

prop("C10", "Same input, options and seed give the same run",
 "Every random choice the computation makes comes from one generator whose seed the user controls: a seed given with --random-seed is used and stays in force for the whole run. Nothing else that varies between runs (the clock, process numbers, memory addresses of objects) decides a result, a branch of the computation, or an order in which terms are processed; the clock only feeds reported timings.",
 ["histories", "configurations"], "every run repeated on the same input, options and seed, whatever the time of day and the memory layout",
 "Two runs of a test rarely differ in a way that shows; the result may agree although the run silently used a different seed.",
 ["Irrational.cpp", "count.cpp", "maximize.cpp", "minimize.cpp", "valuation/valuation.cpp", "valuation/PolytopeValuation.cpp", "print.cpp", "triangulation/RegularTriangulation.cpp", "timing.cpp"],
 [("seed option and srand/SetSeed calls", L + "barvinok/dec.cpp"), ("clock reads", L + "timing.cpp"), ("random heights and vectors", L + "triangulation")],
 "whole-program information-flow analysis from clock/process/address sources to branches, results and seeds; call-graph reachability of re-seeding",
 "Explicit and branch flows over all translation units; order of pointer-keyed containers is recognised by key type. External solver libraries are assumed deterministic.")

prop("C12", "Memory is not used after it has been released",
 "An object that has been released (deleted, freed, or consumed by a function that releases it, directly or through any function it calls) is not read, written, handed to a function that uses it, returned or released a second time, through whatever variable or member still refers to it. No method leaves a released object in a member its destructor releases again; copies of an object do not share what each of them releases; no function returns or stores the address of one of its own local objects or of the characters of a temporary string; and arrays are released as arrays, single objects as single objects, malloc memory by free.",
 ["inputs", "histories", "configurations"], "every path through every function, every combination of options, every sequence of calls on an object",
 "Released memory usually keeps its contents for a while, so a run that reads it passes; double releases often sit on paths of rare options.",
 ["cone.cpp", "barvinok/barvinok.cpp", "triangulation", "integration", "top-knapsack", "ReadPolyhedron.cpp", "count.cpp", "LattException.cpp", "valuation"],
 [("freeCone, copyCone", L + "cone.cpp"), ("barvinok_DFS", L + "barvinok/barvinok.cpp"), ("Residue consumes cones", L + "count.cpp"), ("LattException::what", L + "LattException.cpp")],
 "ownership typestate over a symbolic points-to store with release, use, dangling and kept-member summaries of functions; shared-ownership and new/delete matching rules",
 "Values are told apart by variable, member and constant or unchanged index; objects reached through other indices, containers of pointers and foreign libraries are not followed. Leaks are not violations.")

prop("C13", "Checking conditions does no work",
 "The conditions the program asserts about its own state have no effect besides stopping the program: a build without assertions performs exactly the same computation, reads the same input and produces the same results as a build with them, and no step of the computation happens only inside an assertion.",
 ["configurations", "inputs"], "every assertion in the program, with and without NDEBUG, on every input",
 "The suite runs one build, with assertions on; work lost in the other build is never seen.",
 ["valuation/PolytopeValuation.cpp", "cone.cpp", "dual.cpp", "integration/burstTrie.h", "triangulation/TriangulationWithTOPCOM.cpp", "vertices/cdd.cpp", "convert.cpp"],
 [("assert uses", L + "valuation/PolytopeValuation.cpp")],
 "interprocedural effect analysis of every assert condition and of code compiled only with assertions",
 "Every assertion in every compiled translation unit; an effect is a write to anything that outlives the condition, input/output, or a call into an unknown effectful function.")

prop("C14", "Reading a truncated or malformed file always ends",
 "Whatever the contents of an input file or of a helper program's output (empty, cut short anywhere, text in place of numbers), every reading step ends: the program goes on or stops with an error message; it never waits or repeats forever because an expected marker or number does not arrive.",
 ["inputs", "faults"], "every content of every file the program reads, cut off at any point",
 "Tests read well-formed files, in which every marker is found.",
 ["ReadLatteStyle.cpp", "ReadPolyhedron.cpp", "ReadingFile.cpp", "vertices/cdd.cpp", "print.cpp", "dual.cpp", "Grobner.cpp", "IntegralHull.cpp", "binarySearchIP.cpp", "barvinok/Triangulation.cpp", "buildPolytopes/BuildPolytope.cpp", "buildPolytopes/GraphMaker.cpp", "integration/PolyTrie.cpp", "triangulation/TriangulationWithTOPCOM.cpp", "normalize/normalize.cpp"],
 [("loops that wait for a marker", L + "vertices/cdd.cpp"), ("token readers", L + "ReadLatteStyle.cpp")],
 "loop-exit dataflow: each loop controlled by stream input must leave on every edge of a failed read; stream-state abstraction over the CFG",
 "Covers all loops whose continuation depends on a stream; a loop counted by a value read once is bounded by that value. Termination of arithmetic loops is outside it.")

prop("C17", "Failures reported by libraries stop what depends on them",
 "When cddlib, SQLite or an exact division reports through its status that it could not do what was asked, that report is looked at before the function that asked goes on to its normal end: the run stops with an error, an exception is raised, or the failure is passed on to callers that do the same. A status is not overwritten by the next call before it has been examined, an incomplete set of database rows is not taken for the whole, and the quotient of a division that is not exact is not used.",
 ["inputs", "faults"], "every polyhedron and database state for which a library call fails, at every call",
 "No test makes cddlib or SQLite fail, so an ignored status is never seen.",
 ["latte_cddlib.cpp", "ReadPolyhedron.cpp", "vertices/cdd.cpp", "triangulation/RegularTriangulationWithCddlib.cpp", "normalize/normalize.cpp", "sqlite/SqliteDB.cpp", "valuation/PolytopeValuation.cpp"],
 [("check_cddlib_error", L + "latte_cddlib.cpp"), ("cddlib calls with an error argument", L + "vertices/cdd.cpp"), ("SqliteDB::query", L + "sqlite/SqliteDB.cpp")],
 "typestate of library status values on the CFG, with edge refinement by comparisons and interprocedural summaries of functions a status is handed to or handed back by",
 "Covers cddlib calls with an error argument, SQLite result codes and NTL's divide. Calls whose failure cannot be ignored (NTL raises an error itself, a zero determinant is divided by) are left out.")

prop("C11", "Nothing is read before it has been given a value",
 "A component of an object (a member of a class or structure, also one created inside another function or handed out of a pool) is not read, and the object is not stored where others read the component, while the component has never been given a value; every local variable of simple type has been given a value on every path on which it is read; elements of a local array are not read when nothing can have been stored in the array.",
 ["inputs", "configurations"], "every path through every function, every combination of options, every object created",
 "An indeterminate value is often zero by accident, so a run with it passes; the combination of options that reads it is rarely in a test.",
 ["barvinok/barvinok.cpp", "valuation/valuation.cpp", "valuation/PolytopeValuation.cpp", "integration/newIntegration.cpp", "ReadPolyhedron.cpp", "cone.cpp", "ResSingle.cpp", "timing.cpp"],
 [("BarvinokParameters::BarvinokParameters", L + "barvinok/barvinok.cpp"), ("Valuation::IntegrationInput::IntegrationInput", L + "valuation/valuation.cpp"), ("PolytopeValuation::PolytopeValuation", L + "valuation/PolytopeValuation.cpp"), ("createListCone", L + "cone.cpp")],
 "typestate of created objects (set of components without a value) with constructor and method summaries; definite assignment of locals by property simulation with value sets of flags",
 "Array elements are not told apart; a value read from a stream counts as given (whether reading succeeded is property C01's).")

prop("C16", "Exact numbers do not pass through machine precision",
 "Coordinates, coefficients, determinants, indices, factorials, binomial coefficients, powers and scalar products that take part in an exact result are computed with arbitrary-precision integers or rationals. Where such a number is turned into a machine integer (an array index, an exponent, a count), a value that does not fit is refused or handled before the machine integer is used; such a number is not turned into a floating-point number that is then compared, turned back into an integer, combined with exact numbers or printed as a result; and a machine integer that enters an exact computation is not a product, power or factorial that grows with the input and may have wrapped.",
 ["inputs"], "every magnitude of every coordinate, coefficient, degree and determinant",
 "Tests use small numbers, on which machine arithmetic and exact arithmetic agree.",
 ["latte_ntl.h", "latte_ntl.cpp", "genFunction/maple.cpp", "convert.cpp", "binarySearchIP.cpp", "barvinok/Triangulation.cpp", "integration/PolyRep.cpp", "top-knapsack/TopKnapsack.cpp", "valuation/PolytopeValuation.cpp"],
 [("convert_ZZ_to_int", L + "latte_ntl.cpp"), ("binary search bounds", L + "binarySearchIP.cpp"), ("_parseLinForms", L + "integration/PolyRep.cpp")],
 "origin (taint) dataflow of exact, floating and machine values; dominance of range guards over narrowing conversions; growth of machine operands over loops and recursion",
 "A machine number the program reads as such (exponents, dimensions, indices into files) is checked for growth, not for having been read without overflow. Two tables list conversions whose value orders a queue or only shrinks, with the reason.")

prop("C30", "Lattice point counts are exact",
 "The number printed by count equals the number of integer points of the polytope described by the input file, whatever the polytope and the chosen method.",
 ["inputs", "configurations"], "every rational polytope and every combination of methods", "Only a sample of polytopes with known counts is run.",
 ["count.cpp", "ReadingFile.cpp"], [("count pipeline", L + "count.cpp")],
 na="The count is the value of a rational generating function over an unbounded set of cones; no dataflow or typing argument over the source bounds it. The structural preconditions (retry, canonical rationals, apex and sign kept, statuses propagated) are checked as properties of their own.")
prop("C31", "Integrals and volumes are exact",
 "The rational number printed by integrate equals the integral (or volume) of the given polynomial, linear forms or products of linear forms over the polytope, whichever of the algorithms is chosen.",
 ["inputs", "configurations"], "every polytope, every polynomial, every algorithm", "Only a sample of integrands is run.",
 ["valuation/valuation.cpp", "valuation/PolytopeValuation.cpp"], [("integration pipeline", L + "valuation/valuation.cpp")],
 na="Equality of a computed number with an integral is a statement about arithmetic on unbounded values; static analysis of the source cannot decide it.")
prop("C32", "Ehrhart polynomials, series and Taylor terms are right",
 "The printed Ehrhart polynomial, quasi-polynomial coefficients or Taylor terms are those of the polytope.",
 ["inputs", "configurations"], "every polytope and every requested number of terms", "Only a sample is run.",
 ["ehrhart.cpp", "ExponentialEhrhart.cpp", "top-knapsack/TopKnapsack.cpp"], [("Ehrhart computation", L + "ExponentialEhrhart.cpp")],
 na="A numerical identity over all inputs; out of reach of a static argument over the source.")
prop("C33", "Signed decomposition is an identity and ends",
 "Every cone is written as a signed combination of cones of the requested index whose indicator functions add up to the original's (modulo lower-dimensional cones where announced), and every step strictly reduces the index.",
 ["inputs"], "every simplicial cone, every maximal index", "Only a few cones are decomposed in tests.",
 ["barvinok/barvinok.cpp", "barvinok/dec.cpp"], [("barvinok_DFS", L + "barvinok/barvinok.cpp")],
 na="Relies on lattice-basis reduction producing a short enough vector and on determinants of runtime matrices; a runtime quantity no sound static argument in reach bounds.")
prop("C34", "Optimisation answers are optimal and feasible",
 "maximize, minimize and the digging, bisection and summation variants print an optimal value and, where announced, an optimal feasible integer point.",
 ["inputs", "configurations"], "every integer program within the documented input class", "Only a sample is solved.",
 ["maximize.cpp", "minimize.cpp", "binarySearchIP.cpp"], [("optimisation drivers", L + "maximize.cpp")],
 na="Optimality of a runtime value over an unbounded search space cannot be decided from the source without running or solving.")
prop("C35", "Different methods agree",
 "Primal and dual decompositions, irrational perturbation, all-primal computation, and every triangulation method give the same answer for the same input.",
 ["inputs", "configurations"], "every input and every pair of methods", "Tests compare a few methods on a few inputs.",
 ["count.cpp", "valuation/valuation.cpp"], [("method selection", L + "count.cpp")],
 na="A relation between the results of two runs with unbounded arithmetic in between; it needs execution or proof of the underlying mathematics, not a static analysis of the source.")
