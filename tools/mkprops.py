#!/usr/bin/env python3
"""Writes properties.jsonl (the one place the properties are stated)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": hook}})


WR = ["cadical/src/lib.rs", "kissat/src/lib.rs", "ipasir/src/lib.rs", "minisat/src/core.rs", "minisat/src/simp.rs",
      "glucose/src/core.rs", "glucose/src/simp.rs", "batsat/src/lib.rs", "src/solvers/external.rs"]

prop("S01", "Models only in the SAT state, cores only in the UNSAT state",
     "For every solver shipped with the library, asking for a literal's value (or flipping a literal of the model) succeeds only while the solver is in its satisfiable state, and asking for a core only while it is in its unsatisfiable state. In every other state the call returns a state error that names the required and the actual state, and neither the solving backend nor a stored model or core is consulted.",
     ["histories"], "all sequences of calls on a solver object, for each of the shipped solvers",
     "Tests query models and cores after one SAT or UNSAT answer; the wrong order of calls is an unbounded set of histories, differs per backend, and asking the C/C++ backend in the wrong state aborts the process.",
     WR, [("guard on the recorded state in lit_val, core, flip_lit, is_flippable", "impls of Solve, SolveIncremental and FlipLit in the solver crates")],
     [("state", "the recorded solver state", "struct of each solver wrapper")],
     ["return values of lit_val, core, flip_lit, is_flippable"])

prop("S02", "Changing the formula invalidates the previous answer",
     "Whenever an operation of a solver hands something to the backend that changes the formula or leaves the backend's satisfied or unsatisfied state (a clause, a temporary clause, an assumption, a new variable, propagation, simplification, or a new solve call), the solver's recorded state afterwards is not a satisfiable or unsatisfiable state left over from before. This holds on every way out of the operation, including when it fails.",
     ["histories", "fault_sequences"], "all sequences of solver operations including failing ones, for each of the shipped solvers",
     "A stale SAT/UNSAT state shows only when a particular mutation follows an answer, and on error paths (out of memory in the backend) that tests cannot provoke.",
     WR, [("state reset to Input in every mutating operation", "add_clause_ref, solve, solve_assumps, propagate, simplify, add_tmp_clause, declare_more_variables")],
     [("state", "the recorded solver state", "struct of each solver wrapper")], ["next solve(), lit_val() or core() call"])

prop("S03", "Verdict codes map to exactly one result, state and statistic",
     "A solve call reports satisfiable exactly when the backend returned its SAT code, unsatisfiable exactly for its UNSAT code, and interrupted exactly for its unknown code; any other code is an error. On each of these outcomes the recorded solver state agrees with the reported verdict, and exactly the matching counter of the solver statistics goes up by one.",
     ["inputs", "schedules"], "all formulas, assumptions and interruption points, for each of the shipped solvers",
     "Interrupted and invalid codes occur only under timing or faults; statistics and state after each verdict are sampled for few formulas and backends.",
     WR, [("match on the backend's return code", "solve, solve_assumps, simplify, simplify_assumps, propagate in the solver crates")],
     [("state", "recorded state", "solver structs"), ("stats", "n_sat, n_unsat, n_terminated", "solver structs")], ["SolverResult, stats()"])

prop("S04", "Clauses and assumptions reach the backend complete and terminated",
     "Adding a clause to a solver hands every literal of the clause to the backend, each once and with its sign, and then closes the clause exactly once. Solving under assumptions hands every assumption to the backend, with its sign, before the backend is started.",
     ["inputs"], "all clauses and assumption lists, for each of the shipped solvers",
     "Tests add particular clauses; a literal that is dropped or a sign that is flipped only for particular positions or literals changes the formula silently.",
     WR, [("loop over the clause followed by a terminating call", "add_clause_ref, add_tmp_clause, solve_assumps, propagate, simplify_assumps")],
     (), ["the calls made on the backend"])

prop("S05", "A cached verdict is only reused when it answers the question asked",
     "A solver returns a verdict without consulting its backend only from the plain solve call (or simplification without assumptions), and only if it is in the satisfiable state, or in the unsatisfiable state with an empty core and, for CaDiCaL, no failed temporary clause. A call that takes assumptions always passes them to the backend and asks it, and an answer obtained under a non-empty set of assumptions is never recorded as unconditional unsatisfiability.",
     ["histories"], "all sequences of incremental solve calls, for each of the shipped solvers",
     "Needs a specific order of solve calls with and without assumptions; tests exercise few such histories and not on every backend.",
     WR, [("early returns on the recorded state", "solve, solve_assumps, simplify, simplify_assumps")],
     [("state", "recorded state with core", "solver structs")], ["SolverResult, core()"])

prop("S06", "A backend's out-of-memory report always becomes an out-of-memory error",
     "Every call into a C or C++ backend that can report running out of memory is followed by a test of that report, and when it is set the operation fails with an out-of-memory error instead of going on or reporting success.",
     ["fault_sequences"], "all allocation failures inside the backends",
     "Allocation failure in the backend is not provoked by any test.",
     ["cadical/src/lib.rs", "glucose/src/core.rs", "glucose/src/simp.rs", "minisat/src/core.rs", "minisat/src/simp.rs"],
     [("handle_oom macros", "cadical/src/lib.rs, minisat/src/lib.rs, glucose/src/lib.rs")], (), ["returned errors"])

prop("S07", "Truth values and cores keep their meaning",
     "Querying a literal's value reports true, false or don't-care exactly as the backend reports it for that literal, sign included, through the Rust wrapper and the C/C++ glue alike; a variable the backend's model does not cover is don't-care. A core consists of the negations of exactly those assumptions that the backend reports as failed.",
     ["inputs", "histories"], "all literals, models and failed-assumption sets, for each of the shipped solvers",
     "Tests read models mostly through positive literals of known variables and check cores on a few formulas.",
     WR + ["minisat/vendor/minisat/cminisat.cc", "glucose/vendor/cglucose4.cc"],
     [("match on the backend's value code", "lit_val of each wrapper; *_val in the glue"), ("loop over failed assumptions", "core / get_core_assumps")],
     (), ["return values of lit_val and core"])

prop("S08", "Limits, phases and freezing reach the backend with their meaning",
     "Setting a limit on conflicts, propagations or decisions configures exactly that limit in the backend with the given amount, and removing a limit (no amount) removes it. Setting, clearing or querying the preferred phase or the frozen status of a variable acts on exactly that variable with that polarity, and an interrupter interrupts exactly the solver it was made from. Named limits and configurations are passed under their own name, and the backend's counters of conflicts, decisions and propagations are returned as the backend reports them.",
     ["inputs", "histories"], "all limits, variables, literals and histories, for each of the shipped solvers",
     "Limits and phases influence only the search effort, so a swapped or ignored setting changes no verdict a test compares.",
     ["cadical/src/lib.rs", "minisat/src/core.rs", "minisat/src/simp.rs", "glucose/src/core.rs", "glucose/src/simp.rs", "kissat/src/lib.rs",
      "minisat/vendor/minisat/cminisat.cc", "glucose/vendor/cglucose4.cc"],
     [("limit_*, phase_lit, unphase_var, freeze_var, melt_var, is_frozen, interrupt", "impls in the solver crates"), ("*_limit, *_phase, *_set_frozen", "C/C++ glue")],
     (), ["calls made on the backend"])

prop("F05", "Backend arrays are only indexed with variables the backend knows",
     "Before the C/C++ glue or a wrapper calls a backend operation that indexes per-variable storage (clauses, assumptions, propagation, model values, phases, freezing, elimination status) in Minisat or Glucose, the variables involved have been created in the backend, or the operation is skipped for variables it does not know.",
     ["inputs", "histories"], "all literals and variables, known to the backend or not, for Minisat and Glucose",
     "Indexing past the known variables is undefined behaviour that usually goes unnoticed; tests use variables that occur in clauses.",
     ["minisat/src", "glucose/src", "minisat/vendor/minisat/cminisat.cc", "glucose/vendor/cglucose4.cc"],
     [("ensure_vars, reserve and max_var guards", "glue and wrappers")], (), ["memory accesses of the backend"])

prop("F01", "Backend handles are created checked and released exactly once",
     "A solver object owns its backend handle: every construction obtains the handle from the backend's initialiser, refuses a null handle before any use, and dropping the object releases the handle exactly once. No other operation releases it, and the object cannot be duplicated.",
     ["histories", "fault_sequences"], "all constructions, uses and drops of solver objects",
     "A double or missing release is visible only as memory corruption or a leak; allocation failure is not tested.",
     ["cadical/src/lib.rs", "kissat/src/lib.rs", "ipasir/src/lib.rs", "minisat/src/core.rs", "minisat/src/simp.rs", "glucose/src/core.rs", "glucose/src/simp.rs"],
     [("Default/new and Drop of each wrapper", "solver crates")], (), ["calls to the backend's init and release functions"])

prop("F02", "Callbacks registered with a backend live as long as their registration",
     "Attaching a terminator or learner registers with the backend a pointer to a callback that the solver object keeps alive; attaching again registers the new callback, and detaching unregisters that kind of callback in the backend and drops it. Attaching or detaching one kind never touches the other.",
     ["histories"], "all sequences of attach, detach and solve calls with arbitrary closures",
     "Use-after-free depends on the order of attach and detach calls of two kinds; tests attach one callback and solve.",
     ["cadical/src/lib.rs", "ipasir/src/lib.rs"], [("terminate_cb and learner_cb fields", "Terminate and Learn impls")],
     [("terminate_cb, learner_cb", "boxed closures the backend points to", "CaDiCaL and IpasirSolver structs")], ["callback invocation during solve()"])

prop("F03", "Both sides of every foreign interface agree",
     "Every foreign function the wrappers declare by hand has a definition or declaration in the bundled C/C++ sources with the same number of parameters and compatible parameter and result types, every callback table passed across has the same entries in the same order, and the status constants have the same values. Every name of an option, limit or statistic that a wrapper passes as a string is one the bundled backend knows.",
     ["programs", "configurations"], "all foreign functions, callback tables, constants and name strings",
     "A mismatch is undefined behaviour or a silently ignored option and shows up only when that very entry is exercised.",
     ["cadical/src/ffi", "cadical/cpp-extension", "minisat/src/ffi.rs", "minisat/vendor/minisat/cminisat.cc", "glucose/vendor/cglucose4.cc", "kissat/src/lib.rs", "capi/rustsat.h"],
     [("extern blocks, repr(C) types, string tables", "ffi modules")], (), ["link-time symbol tables"])

prop("F04", "C++ exceptions never cross the foreign interface",
     "Every C entry point of the bundled C++ glue from which the backend can throw an allocation failure catches it and reports it through its return value.",
     ["fault_sequences"], "all allocation failures inside the C++ backends",
     "Allocation failure in the backend is not provoked by any test; an escaping exception aborts the process.",
     ["cadical/cpp-extension/ccadical_extension.cpp", "minisat/vendor/minisat/cminisat.cc", "glucose/vendor/cglucose4.cc"],
     [("try/catch in the C wrappers", "extern \"C\" functions of the glue code")], (), ["OUT_OF_MEM return values"])

prop("I01", "Whole-instance operations cover every kind of constraint",
     "Every operation on an instance as a whole (extending or merging it, reindexing, converting it to another form, collecting its variables, evaluating it, normalising or shuffling it, writing it out) covers its clauses, its cardinality constraints and its pseudo-Boolean constraints alike; on optimisation instances it covers the hard constraints and every objective, with all its soft literals and soft clauses. No kind is dropped or left untouched, and no single element is skipped.",
     ["inputs"], "all instances, in particular those mixing several kinds of constraints and objectives",
     "Tests use instances with one or two kinds of constraints; dropping a kind in one of the many operations goes unnoticed.",
     ["src/instances/sat.rs", "src/instances/opt.rs", "src/instances/multiopt.rs"],
     [("field-wise handling of cnf, cards, pbs, constrs, obj(s)", "impls of Instance, OptInstance and MultiOptInstance")],
     [("cnf, cards, pbs", "the constraints", "sat::Instance")], ["the resulting instance, CNF or file"])

prop("I02", "Adding a constraint records its variables as used",
     "Every operation that adds a clause, cardinality constraint or pseudo-Boolean constraint to an instance also records each of that constraint's variables as used in the instance's variable manager, so that a variable drawn later never occurs in a constraint already present.",
     ["histories", "inputs"], "all sequences of additions and variable draws, through every entry point",
     "A missing record shows only when a fresh variable is drawn after using that particular entry point.",
     ["src/instances/sat.rs", "src/instances/opt.rs", "src/instances/multiopt.rs"],
     [("mark_used / increase_next_free on insertion", "Instance::add_* methods, Extend and CollectClauses impls")],
     [("var_manager", "next free variable", "sat::Instance")], ["ManageVars::new_var after an insertion"])

prop("I03", "Conversions reserve all variables in use before drawing auxiliary ones",
     "When an optimisation instance is converted to clauses and soft clauses or handed to a search algorithm, every variable occurring in its constraints and in all of its objectives is reserved before the first auxiliary variable is drawn, so no auxiliary variable coincides with a variable of the instance. Decomposing an optimisation instance likewise hands out constraints whose variable manager has all variables of all objectives reserved.",
     ["inputs"], "all optimisation instances, in particular objectives over variables that occur in no constraint",
     "Needs an objective whose variables lie beyond those of the constraints together with constraints that need encoding.",
     ["src/instances/opt.rs", "src/instances/multiopt.rs", "src/algs/maxsat.rs"],
     [("increase_next_free before encoding", "into_hard_cls_soft_cls, into_hard_cls_soft_lits, into_unweighted, solve_maxsat")], (), ["the clauses produced"])

prop("I04", "Operations on objectives keep the function they stand for",
     "An objective stands for the function that gives every assignment its offset plus the weights of the true soft literals and of the falsified soft clauses, where repeated occurrences add up. Changing between the weighted and unweighted representation, normalising, re-indexing (up to the renaming), and converting to soft clauses, to unweighted soft clauses, or to soft literals (with or without unit weight) leave that function unchanged; in conversions that introduce relaxation literals, the least cost over those literals under the returned hard clauses is meant. Increasing the weight of a soft literal (by a positive or negative amount) or of a soft clause adds exactly that amount wherever the literal is true or the clause falsified; adding a soft literal or clause sets its weight (zero removes it), leaves the rest alone, and returns the weight it had before; setting or increasing the offset changes the function by exactly that amount. Evaluation gives the function's value at the assignment, with or without the offset, and the reported weights, weight sums, numbers of soft literals and clauses, and offset agree with the objective. This holds for repeated and conflicting soft literals, and repeated, unit, tautological and empty soft clauses, in both representations.",
     ["inputs"], "all objectives and operations on them",
     "The two representations, repeated literals and unit or tautological clauses combine into many cases, most of which tests never build.",
     ["src/instances/opt.rs"], [("IntObj::Weighted and IntObj::Unweighted", "Objective")], [("cost function of the resulting objective", "each public operation")], ["costs of assignments"])

prop("V01", "Variable managers hand out every variable at most once",
     "A variable drawn from a variable manager is at least the manager's next free variable, and afterwards the next free variable is strictly larger. Recording a variable as used, or raising the next free variable, never lowers it; only the explicit forget operation may. Raising it to a variable leaves it at least there and says truthfully whether it moved, merging two managers leaves it at or above both, and the reported number of used variables and greatest used variable agree with it. A manager that ties objects to variables gives an object the same variable every time, a newly drawn one the first time, and forgets the object together with its variable.",
     ["histories"], "all sequences of operations on each of the variable managers",
     "Freshness quantifies over all histories of draws, reservations and merges.",
     ["src/instances/mod.rs"], [("next_var handling", "impls of ManageVars")], [("next_var", "next free variable", "BasicVarManager and wrappers")], ["new_var results"])

prop("V03", "Re-indexing is one-to-one and can be reversed",
     "A re-indexing variable manager maps a variable to the same variable every time and maps no two variables to the same one: a variable without a mapping gets a newly drawn one, which is recorded in both directions, and existing mappings are never overwritten by re-indexing. Reversing a re-indexed variable gives the variable it was made for, whatever other variables were drawn, forgotten or merged in between. Re-indexing or reversing a literal does so for its variable and keeps its sign.",
     ["histories"], "all sequences of re-indexing, drawing, forgetting and reversing",
     "The one existing test re-indexes once with a fresh manager; misaligned maps show only when other draws happen in between.",
     ["src/instances/mod.rs"], [("in_map / out_map", "ReindexingVarManager, RandReindVarManager"), ("reindex_lit / reverse_lit", "ReindexVars")],
     [("in_map", "forward mapping", "ReindexingVarManager"), ("out_map", "reverse mapping", "ReindexingVarManager")], ["Result of reverse"])

prop("V02", "Encodings introduce variables only through the variable manager",
     "Every literal in a clause that an encoding emits is a literal of its input, an auxiliary variable drawn from the variable manager passed by the caller (or stored from such a draw), or the negation of one of these. No encoding makes up a variable by index arithmetic.",
     ["inputs"], "all encodings over all inputs",
     "A made-up index collides only for particular inputs and variable managers.",
     ["src/encodings"], [("var_manager.new_var() / new_lit()", "encoding modules")], (), ["clauses passed to the collector"])

prop("E01", "Encodings never report enforcing a bound they have not encoded",
     "Asking an encoding for the assumptions that enforce a bound (`enforce_ub`, `enforce_lb`, `enforce_eq`) returns Ok only if the bound cannot be violated anyway, or with output literals of exactly that bound (in the polarity that enforces it) whose clauses in the needed direction have been generated; otherwise it returns a not-encoded (or unsatisfiable-bound) error. Input literals that are not yet part of the encoding's structure make a bound not enforceable unless they cannot matter. The directions `sum >= k -> output` (upper bounds) and `output -> sum >= k` (lower bounds) are tracked separately for every output: an output is recorded as encoded in a direction only once all clauses of this direction have been handed to the collector (so not if the collector runs out of memory), an output already recorded is reused without clauses only for recorded directions, and the record is forgotten when the encoding is built anew (`encode_ub`, `encode_lb`, `encode_both`).",
     ["histories"], "all sequences of extending, encoding and enforcing, for every encoding",
     "Tests encode and then enforce in the intended order; enforcing too early or after extension returns assumptions that enforce nothing, which no test of satisfiable results notices.",
     ["src/encodings/card", "src/encodings/pb", "src/encodings/totdb/mod.rs"], [("NotEncoded checks", "enforce_ub / enforce_lb of each encoding")], (), ["Result of enforce_ub/enforce_lb"])

prop("E02", "Encoding statistics count exactly the clauses and variables produced",
     "After a successful call to encode (or to reserve variables), the number of clauses and of auxiliary variables that the encoding reports through `EncodeStats` has grown by exactly what the call added to the clause collector and drew from the variable manager. This holds for every call: a repeated, incremental or extended encoding adds to the statistics instead of overwriting them, and nothing is left out or counted twice.",
     ["inputs", "histories"], "all encodings, inputs, bounds and incremental call sequences",
     "Counts are compared with expectations for a handful of inputs; an unaccounted path shows only for particular bounds.",
     ["src/encodings/card", "src/encodings/pb"], [("difference of n_clauses/n_used around the generation", "encode_ub/encode_lb/encode_both and *_change")], (), ["EncodeStats::n_clauses, n_vars"])

prop("E03", "Repeated input literals accumulate their weights",
     "Wherever weighted literals or weighted soft clauses are collected into a pseudo-Boolean encoding or an objective, giving the same literal or clause several times (in one call or over several) adds up its weights: no way of constructing, extending, re-indexing, normalizing, reading or converting them keeps only one of the weights. The only functions that may replace a weight are those documented to set it and to return the old one (`add_soft_lit`, `add_soft_clause`).",
     ["inputs"], "all lists of weighted literals with repetitions, through every constructor and extension",
     "Tests use distinct literals; a lost weight makes the bound unsound only with duplicates.",
     ["src/encodings/pb", "src/instances/opt.rs"], [("Extend impls summing weights", "FromIterator/Extend/From impls of the pseudo-Boolean encodings")], (), ["enforced bound"])

prop("E04", "Bound ranges, constraints and inputs reach the encoding that has to honour them",
     "An encoding that is built on another one (the inverted, double, and cardinality-based simulators) or that encodes a constraint in one shot passes on everything it was asked for. (1) Encoding (also incrementally, and with proof logging) upper, lower, or both bounds over a range asks the wrapped encoding, in the direction that enforces it, for a range that contains the image of every non-trivial bound of the requested range (for inverted encodings the image of `b` is the number of inputs or the sum of weights minus `b`), for every form of range, and nothing underflows. (2) The functions that normalise a range of bounds keep every non-trivial bound in it. (3) The one-shot encoders of a cardinality or pseudo-Boolean constraint without proof logging add clauses and enforced bounds that together state exactly that constraint, report it as unsatisfiable only if it is, and panic for no constraint over distinct variables. (4) Constructing or extending such an encoding hands every input literal to the wrapped encoding exactly once (negated for inverted encodings, once per unit of weight for cardinality encodings, to both halves of double ones), and keeps the number of inputs and the sum of weights right.",
     ["inputs"], "all ranges, constraints and input lists, for every wrapped encoding",
     "Tests use a few bounds per encoding; a lost range end or a flipped direction is visible for particular bounds only.",
     ["src/encodings/card", "src/encodings/pb"], [("simulators", "src/encodings/card/simulators.rs, src/encodings/pb/simulators.rs"), ("one-shot encoders", "encode_*_constr, encode_cardinality_constraint, encode_pb_constraint")], (), ["ranges and bounds passed to wrapped encodings", "clauses added"])

prop("E05", "Atomic and at-most-one encodings state exactly what they are named after",
     "The clauses of an implication `X -> Y` between literals, clauses (disjunctions) and cubes (conjunctions), whether returned by the building-block functions or added to a CNF or SAT instance, hold under exactly the assignments that satisfy the implication, for any number of literals on either side including none; adding a unit, binary or ternary clause adds that clause. The pseudo-Boolean constraint returned for `literal -> constraint` or `constraint -> literal` is equivalent to the implication, for every satisfiable upper or lower bound (cardinality or pseudo-Boolean), tautologies included. The clauses that an at-most-one encoding (pairwise, ladder, bitwise, bimander, commander, two-product) adds for a collection of input literals, with any group size, can be satisfied by some values of the auxiliary variables exactly if at most one input literal is true; sub-encodings are taken to do the same.",
     ["inputs"], "all literals, numbers of literals, group sizes, weights and bounds",
     "Tests count clauses or check four inputs; a group that is cut short, a literal with the wrong sign or a missing case shows for particular sizes only.",
     ["src/encodings/atomics.rs", "src/encodings/am1", "src/instances/sat.rs"], [("building blocks", "src/encodings/atomics.rs; Cnf::add_*, SatInstance::add_*"), ("at-most-one encoders", "src/encodings/am1: Encode::encode")], (), ["clauses added", "constraints returned"])

prop("T02", "Constraint predicates, transformations and evaluation agree with what the constraint means",
     "For cardinality and pseudo-Boolean constraints over distinct variables with positive weights, of any bound: `is_tautology`, `is_unsat`, `is_positive_assignment`, `is_negative_assignment` and `is_clause` answer yes only for constraints with the meaning they name, and (equalities aside) the first two answer yes for every such constraint and the others for every such constraint that is neither a tautology nor unsatisfiable; inverting, splitting, normalising a constraint, turning it into a clause or cardinality constraint, and converting between the kinds of constraint keep its meaning and the stored sum of weights, and refuse only what cannot be converted; evaluating a constraint or clause under a (partial) assignment yields true or false exactly if every completion of the assignment satisfies or violates it by its bounds on the sum, and undetermined otherwise. Normalising or sanitising a clause keeps its set of literals and drops exactly the tautologies; removing a literal from a clause takes out one (or every) occurrence of it and nothing else, and tells whether there was one.",
     ["inputs"], "all constraints and all partial assignments",
     "Bounds at and beyond the ends of the possible sums, negative bounds and partial assignments are rarely tested.",
     ["src/types/constraints.rs"], [("constraint types", "src/types/constraints.rs: CardConstraint, PbConstraint and their variants"), ("clauses", "src/types/constraints.rs: Clause, Cl")], (), ["values of predicates", "converted constraints", "ternary values"])

prop("X01", "No error is silently discarded",
     "When a callee reports a failure (a `Result` with an error, an item of an iterator over such results), the failure reaches the caller: the calling function returns a failure, hands on the result it received, or panics. No function of the library or the tools drops such an error, turns it into success, or goes on as if nothing had happened, and none ends successfully while a buffered writer it filled is still unflushed. Failed conversions of numbers and constraints and the alternatives of backtracking parsers, which are answers rather than failures, are not meant.",
     ["fault_sequences", "inputs"], "all failures of all callees that report errors",
     "Error paths need faults (full disk, failed allocation, backend errors) that the tests do not inject.",
     ["src", "cadical/src", "kissat/src", "ipasir/src", "minisat/src", "glucose/src", "batsat/src", "pigeons/src", "capi/src", "tools/src"],
     [("Result propagation with ?", "all crates")], (), ["returned Result values"])

prop("P01", "Malformed input never panics a parser",
     "Reading a DIMACS, WCNF, MCNF, OPB, solver-output or proof file, in whatever way it is malformed, ends in a value or an error, never in a panic: no reachable operation of the readers panics on unexpected content, oversized numbers or truncated input.",
     ["inputs"], "all byte strings given to any reader",
     "Tests parse well-formed files and few malformed ones; the set of byte strings is unbounded.",
     ["src/instances/fio", "src/instances/sat.rs", "src/instances/opt.rs", "src/instances/multiopt.rs", "src/types/mod.rs", "pigeons/src"],
     [("checked constructors and error returns", "parser modules")], (), ["Result of the read functions"])

prop("P02", "Writers emit only well-formed lines of their file format",
     "Whatever instance, objective, constraint or one-line comment they are given, the DIMACS, WCNF, MCNF and OPB writers emit a byte stream that follows the grammar of the file format: a header with the numbers of variables and clauses, in this order, where one is due; every comment, clause, soft clause, constraint and objective on one complete line with its marker, weight, one-based objective index, literals or terms, separators, operator and terminator, and nothing else. Literals are written in the notation of the format and OPB variables relative to the chosen first index. A write that succeeds has completed its last line.",
     ["inputs"], "all instances, objectives, constraints and comments given to the writers",
     "Snapshot tests cover particular instances; empty constraints, empty objectives, comments and mixed kinds are combinations they do not reach.",
     ["src/instances/fio/dimacs.rs", "src/instances/fio/opb.rs"], [("write!/writeln! sequences", "write_* functions")], (), ["the bytes written"])

prop("P03", "OPB constraints and objectives keep their meaning",
     "Reading a pseudo-Boolean constraint turns each relational operator into the constraint it stands for: at least b for >=, at most b for <=, exactly b for =, at most b-1 for <, at least b+1 for >. Terms with signed coefficients and marked literals are normalised to the same linear function, constant included, and an objective to be maximised becomes the minimisation of its negation, constant included. Writing a clause, a cardinality or pseudo-Boolean constraint or an objective, with or without negated literals, gives terms, operator, bound and offset that state the same constraint or objective.",
     ["inputs"], "all constraints, operators and bounds",
     "Tests parse a few operators on sample bounds.",
     ["src/instances/fio/opb.rs"], [("operator match", "opb parser and writers")], (), ["the parsed constraint; the written line"])

prop("P04", "DIMACS files are read as what their lines say",
     "The CNF, WCNF (old and new format) and MCNF readers turn every clause line, in its place and exactly once, into an item with the weight, objective index and literals that stand on the line: a line marked h is a hard clause, in the old WCNF format a clause is hard if and only if its weight is at least the top value of the header, every other weighted clause is soft. An empty list of literals is read as the empty clause, and numbers and literals need space between them. The numbers of a header line reach the caller in their roles, and a first clause met while looking for the header is the first item of the body, whether or not the comments before it were iterated over. Only blank lines and comments are passed over; after a malformed line has been reported, reading goes on with the line after it. Instances read from such files contain every hard clause, every soft clause in the objective of its (one-based) index, with weights of equal soft clauses adding up, and have all variables of the header reserved; no instance is returned if a line could not be read.",
     ["inputs", "histories"], "all lines accepted by the readers, and all orders of iterating over comments, going on to the body and errors",
     "Tests read a few sample files; a weight equal to the top value, iterating over header comments before a file without header, equal soft clauses or reading on after an error are combinations they do not reach.",
     ["src/instances/fio/dimacs.rs", "src/instances/sat.rs", "src/instances/opt.rs", "src/instances/multiopt.rs"],
     [("Parser, forward_to_body, Iterator impls and parser combinators", "src/instances/fio/dimacs.rs"), ("from_dimacs", "src/instances")],
     [("buffer, variant", "current line and what was found while looking for the header", "dimacs::Parser")], ["items returned by the parsers", "instances returned by from_dimacs"])

prop("L01", "Every proof step that adds a constraint takes exactly one fresh id",
     "Each operation of the proof writer advances the id counter by exactly the number of constraints a proof checker numbers for the lines the operation writes: one for each line that adds a constraint, one for each negated goal and each derivation step inside a subproof it writes, none for the lines that add no constraint (comments, deletions, checks, level and order commands, solutions that are only logged). An operation that adds a constraint returns the id of that constraint, so returned ids agree with the numbering a proof checker derives from the lines, whatever the sequence of operations.",
     ["histories"], "all sequences of proof operations, with and without subproofs",
     "A wrong id shifts all later references; only a proof that uses that operation followed by a reference shows it.",
     ["pigeons/src/lib.rs", "pigeons/src/types.rs"], [("next_id handling, new_id, write_subproof", "impl Proof")], [("next_id", "id of the next constraint", "pigeons Proof")], ["ids returned and lines written"])

prop("L02", "The text of a proof denotes the values it was built from",
     "What the proof writer writes states exactly the values it was given. A literal is written with ~ if and only if it is negated; a clause, cardinality or pseudo-Boolean constraint of the library is written as the equivalent greater-or-equal constraint with its coefficients, literals and right-hand side over the library's proof variable names (x followed by the 1-based index); an objective is written with all its terms and its constant offset. Adding, multiplying, dividing, saturating and weakening sequences of operations appends exactly the operator of that name after its operands, and nothing if there is no operand; multiplying by one leaves a sequence as it is and by zero empties it. Relative ids denote the id that many places before the next one, incrementing an id denotes the following constraint whatever its form, and a range of ids given with included, excluded or missing bounds is written as the half-open range it stands for. Every argument given to an operation of the proof writer appears in the line the operation writes; conclusions, output guarantees, substitutions, goals and order variables are written with the keyword that belongs to them.",
     ["inputs"], "all literals, constraints, objectives, operation sequences, ids and ranges",
     "Tests log a few sample proofs; a wrong sign, bound, id or operator is legal text that only a checker run on exactly that case rejects (or, worse, accepts).",
     ["pigeons/src/types.rs", "pigeons/src/ops.rs", "pigeons/src/lib.rs", "src/types/constraints.rs", "src/types/mod.rs", "src/instances/opt.rs"],
     [("Display impls, OperationLike impls, ConstraintLike and ObjectiveLike impls", "pigeons crate and the library's proof-logging impls")], (), ["the proof file"])

prop("C01", "The C-API hands through what it is given and reports every failure",
     "Every exported C function performs the one encoding operation it is named for, on the object it is given, with the literal, weight, bound or inclusive range, variable counter and clause collector it is given, and does nothing else to the object. Functions with a status code return Ok exactly if no step failed, and otherwise the code that names the failure: an invalid literal, an encoding in a state that does not allow adding, a bound not encoded, an unsatisfiable bound, a precision that is no power of two or was decreased. Enforcing a bound passes the caller every assumption it takes, in IPASIR form, and is total: it does not abort for a bound that takes no assumption. Every object handed out by a constructor function is released, once, by its own drop function and by no other function. Clauses reach the caller's collector one after the other, each as its literals in IPASIR form followed by one zero, with the data pointer given. The functions, their parameter and result types, and the status codes declared in the C header are those the library exports.",
     ["inputs", "fault_sequences", "programs"], "all calls of the C-API within its safety contract, and all outcomes of the encodings called",
     "C tests call a few functions on successful paths with few inputs.",
     ["capi/src/encodings/mod.rs", "capi/src/encodings/am1.rs", "capi/src/encodings/card.rs", "capi/src/encodings/pb.rs", "capi/src/encodings/dpw.rs", "capi/rustsat.h"], [("exported functions, MaybeError conversions, ClauseCollector", "capi/src/encodings")], (), ["status codes, collected literals, assumptions; C header"])

prop("T01", "Literals and variables are always in range",
     "No safe function creates a variable with an index above the maximum, or a literal that does not denote such a variable: constructors, arithmetic, conversions from integers and deserialisation either check the range, in release builds too, or start from a valid literal or variable. The checked constructors accept every index up to the maximum.",
     ["inputs"], "all integers and serialised forms given to the constructors and conversions",
     "Boundary values of every constructor, conversion and operator are not all tested; later code relies on the range for conversions that would otherwise overflow.",
     ["src/types/mod.rs"], [("checked constructors", "impl Lit, impl Var")], (), ["values returned"])

prop("X02", "External solver runs are only trusted after the process ended properly",
     "The result of an external solver is reported only after the solver process has been started with the given command (its program, arguments in order, environment and working directory, with the path of the instance first or last where a file is used), given the complete instance (all clauses added and a header covering all their variables) through the file or pipe asked for, and waited for, and it is exactly what the output it produced was parsed to; the input is closed and piped output read to the end before waiting, a temporary instance file is kept until the process has ended, and a process that could not be started or fed, that was ended by a signal or with an exit code other than 0, 10 or 20, or whose output could not be read or parsed yields an error. Solver output is trusted only by its solution line: satisfiable with the assignment of all value lines, unsatisfiable, or unknown; no solution line, an invalid one, or a satisfiable one without value lines is an error. After a run neither solving again nor adding clauses succeeds, and values are given only from the parsed solution of a satisfiable answer.",
     ["fault_sequences"], "all behaviours of the external process and outcomes of the operating-system calls",
     "Tests run one well-behaved external solver.",
     ["src/solvers/external.rs", "src/instances/fio/mod.rs"], [("call_external", "src/solvers/external.rs"), ("parse_sat_solver_output", "src/instances/fio/mod.rs")], [("process, instance file and output", "call_external")], ["SolverResult", "SolverOutput"])

# ---- properties this family cannot decide here
prop("N01", "Encodings are equisatisfiable with the constraint they encode",
     "For every cardinality, pseudo-Boolean and at-most-one encoding, and every bound in the encoded range, the generated clauses together with the enforcing assumptions are satisfied by exactly the input assignments that satisfy the bound.",
     ["inputs"], "all inputs, weights, bounds and assignments", "Tests check few sizes and bounds.",
     ["src/encodings"], [("clause generation", "src/encodings/card, src/encodings/pb, src/encodings/am1")])
prop("N02", "Writing an instance and reading it back gives the same instance",
     "Reading what any writer wrote for an instance gives an instance with the same constraints, objectives and variable range.",
     ["inputs"], "all instances", "Round trips are tested on sample files.",
     ["src/instances/fio"], [("writers and parsers", "src/instances/fio")])
prop("N03", "Solver answers are correct",
     "A satisfiable answer comes with an assignment that satisfies the formula and the assumptions, an unsatisfiable one is given only for an unsatisfiable formula, and a core is a subset of the assumptions that is unsatisfiable with the formula.",
     ["inputs", "histories"], "all formulas and assumption sequences", "Tests solve sample instances.",
     ["cadical", "kissat", "minisat", "glucose", "batsat"], [("the search procedures of the backends", "vendored solvers")])
prop("N04", "Conversions between instance kinds preserve models and costs",
     "Converting an instance (to CNF, to soft clauses, to unweighted or weighted form, normalising, or sanitising it) keeps its set of models over the original variables and the cost of each.",
     ["inputs"], "all instances and assignments", "Tests convert sample instances.",
     ["src/instances/sat.rs", "src/instances/opt.rs"], [("conversion functions", "src/instances")])
prop("N05", "Proof logs are accepted by a proof checker",
     "The proofs produced with the certified encodings and by the proof-tracing backends are accepted by a checker for the instance written.",
     ["inputs"], "all instances and runs", "Tests check a few proofs with an external checker.",
     ["pigeons", "src/encodings/card/cert.rs", "src/encodings/pb/cert.rs"], [("proof logging", "cert modules")])
prop("N06", "Solution-improving search returns an optimal solution",
     "The solution-improving search ends with a solution of minimal cost, or reports that none exists.",
     ["inputs"], "all optimisation instances", "Tests solve sample instances.",
     ["src/algs/maxsat.rs"], [("search loop", "src/algs/maxsat.rs")])
prop("N07", "Interrupts and limits stop a running solve",
     "A solve call ends with the interrupted result within bounded time after an interrupt from another thread, a terminator callback returning stop, or reaching a limit.",
     ["schedules"], "all interleavings of the interrupt with the search", "Tests interrupt one run.",
     ["cadical/src/lib.rs", "minisat/src", "glucose/src", "kissat/src/lib.rs"], [("interrupter and limits", "solver crates")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as h:
    for p in P:
        h.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
