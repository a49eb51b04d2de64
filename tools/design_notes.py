# what each check does in more detail than the one-line technique; exemptions and limits included
N = {}
N["C01"] = """Retry places are found structurally (a handler or status test that draws a new random vector / perturbation and goes round again).  For each:
(1) every arithmetic-typed location an attempt may update (transitive may-write summary of what the attempt calls) is overwritten with a fresh
value on every path from the handler to the next attempt (must-overwrite dataflow, `InitializeComputation` overrides included, and member by
member for the object behind it); (2) a scalar product or denominator that is tested for zero throws or returns the failure status on its zero
edge before it is divided by; (3) a status of failure reaches the retry place: no caller drops, negates or overwrites it; (4) for the boolean tests of the perturbed integration,
a finite abstract run (flags, outcomes of the zero tests, outcomes of called tests) shows that a test answers true whenever it saw a dot product with
a ray vanish, never answers with a flag left by an earlier term, looks at every term, and that the function which draws again is not left while the
last answer was true.
Oracle: the two failure protocols of the code (exception `NotGenericException`, status -1)."""
N["C02"] = """Typestate per RationalNTL object: sign set of the denominator, reduced or not, known gcd, unknown parts; each method must leave the object
canonical on every normal exit, zero denominators may only leave through an error.  Per rationalVector / rational matrix: a write to an entry must be
followed by invalidation of the cached integer scale on every path to a reader.  Uses of `canonicalize`-free GMP constructors are obligations as well."""
N["C03"] = """For every mutating member with a by-reference operand of the same (or a contained) class, and every free function with output parameters:
CFG alias analysis `write region; read overlapping region through the operand`.  Guards `if (this == &x)` and early copies are understood.  A function
that is not alias-safe is accepted only if each call in the program passes visibly different objects."""
N["C04"] = """Six rules (R1-R6, listed in `lib/checks/c04.py`): field coverage of copying routines, depth of owned pointers, disposal of fresh storage,
no member-wise copies of owning records, no second owner, no write in place to shared nodes.  Ownership is inferred from what disposal routines release."""
N["C05"] = """Whole-program origin analysis (argv, environment, file contents, directory entries) to `system`/`popen` arguments; a text that reaches a sink must
have passed the quoting routine exactly once, outside quotes.  The quoting routine itself is abstractly interpreted per byte against the shell lexer, the empty
text included."""
N["C06"] = """Typestate of input streams (`opened`, `read since last test`, `verified`); every stream data was read from must be verified before its owner lets it
go; stream parameters via summaries.  Test = state test whose failing edge cannot reach the normal continuation (exit, throw, error return that the
callers test in turn).  `bad()` alone is no test.  Helper programs: exit status, signals, shell pipelines that hide a status, rename/fopen/popen results."""
N["C08"] = """Each spelling that occurs in a comparison or in a help text is propagated as a constant through the option loop: which branch takes it, which
stores happen (location, value, offset of the value text), whether a store survives up to the first possible use.  Obligations: recognised by a branch of its
own, offset = length of the spelling, unknown spellings and choices reach the error exit, two spellings never have the same effects (documented
synonyms listed in the check), what is set is read somewhere."""
N["C10"] = """Origins clock/time/pid/address to branches, stored results and seeds; draws must come from the two generators the seed governs; no re-seeding after
the user's seed; pointer-keyed ordered containers are not iterated into results.  Timers feed only output."""
N["C11"] = """(a) Objects: for each object the program creates (local, `new`, `malloc`, member, base; 500 of them) the set of scalar components without a value is
propagated through constructors, methods and every function that receives it (summaries keyed by the set and the constants the object's own flags hold, so
`started == false` keeps `Timer::stop` from being reached).  Finding: a read of such a component, or the object is still incomplete when it has been
stored where others read it.  (b) Locals: definite assignment; candidates are re-examined with value sets for flags, loop counters and the first characters of
the yes/no strings (whose possible values come from all `strcpy` calls through parameters).  (c) Arrays: a read no store can have reached.
Listed correlations (four variables, two list links, one node pool) carry their reason in the check.
False alarms removed while building: yes/no strings, pooled tree nodes, timers."""
N["C12"] = """Every function is interpreted over a store of symbols (incoming value of a variable, member of a symbol, allocation, call result, merge of a
block); releases mark symbols, so aliases in other variables or members are marked with them.  Summaries, to a fixpoint over the call graph: released
paths, dangling members, values used, values kept in parameters or the result, members written (in any object / in `this` only).  Findings: a use of a marked
symbol (U), a released member left to a destructor (D), addresses of locals (L), member-by-member copies of owning objects (C), new/delete mismatch (M), one
owned object in the same member of two owners (S).  A release and a use under mutually exclusive, unchanged conditions (`if (p) free; … if (!p) use`) are
correlated on the CFG.
False alarms removed while building: loops over lists that save `rest`, phi merges of disjoint branches, containers, reference-to-pointer parameters, list pops
(a member of one owner moved from the link of another; only equal members are compared).  Real defects found and fixed: `LattException::what` returned the
characters of a local string, `GeneralMonomialSum::setToConstant` left the deleted list in place, `count rem` released the cones twice."""
N["C13"] = """Effect analysis of each `assert` argument: assignments, increments, stream operations, and calls whose transitive write summary is not empty."""
N["C14"] = """Each loop that reads a stream is analysed under the assumption that the stream is exhausted: impossible edges are dropped and no cycle may remain
except one bounded by a counter that was read before or is compared against a fixed size."""
N["C16"] = """(N) each conversion of an exact value (ZZ, mpz, mpq, RationalNTL) to a machine integer is an obligation: on every path to the conversion, or
to every use of its result, the same value was compared with a bound that fits the narrowest type it is stored in (directly, through `NumBits`, `fits_*`,
`IsOneWord`, a round trip, a flag, a limit variable, a helper predicate or a refusing helper; callers are consulted for parameters).  (F) the
values obtained from exact ones by conversion to double/RR are followed: not compared, not turned back, not mixed into exact operations, not printed
except under a label that names a ratio/percentage/logarithm.  (G) machine operands of exact operations: no loop-carried product, shift or power, no
recursive product, no product of narrowed values, no `double` read from a stream, no `atoi` result of the same function.
Genuine defects repaired: four silent `conv` truncations of matrix entries, a binomial coefficient kept in an `int`, search bounds rounded through RR, a factorial in a `long`."""
N["C17"] = """Typestate of the reported status (set of values it may have) refined by comparisons; on exit or overwrite it may not contain a failure value.
Functions a status is handed to (`check_cddlib_error`) are summarised, functions that hand it back make their callers subject to the same rule."""
