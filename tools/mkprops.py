#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Reported energy is the energy of the returned assignment",
  "Whenever a solve succeeds, the energy it reports is the value the problem has at the returned assignment: objective plus penalties plus each constraint at the weight it had in the round the solution came from; so with every constraint exactly zero it is simply objective plus penalties. It is exact for problems of degree two or less, never below the true value for problems that needed auxiliary variables, and exact there too when the backend set those optimally. This holds for every numeric type, sample count, random stream, thread schedule and backend answer, including answers that arrive with their energy filled in.",
  ["inputs", "schedules", "histories", "fault_sequences"], "every problem, entropy stream, worker schedule, and sequence of backend answers",
  "The tests solve three fixed problems and compare one final number after real annealing; they never see the energy of a non-optimal, tied, weight-adapted or high-degree answer.",
  ["src/solve.rs", "src/expanded.rs", "annealers/src/solution.rs"],
  [("energy of the winning sample plus the constant of the same round", "src/solve.rs solve_with_constraints"), ("energy evaluation over all products", "annealers/src/solution.rs calculate_energy"), ("constant split off", "src/expanded.rs generate_qubo")],
  ["first element of the solve result", "SolutionView::get", "coefficients handed to a user-supplied solver"])

p("C02", "Compilation preserves the energy landscape",
  "For every expression, of any degree, built from numbers, binary and spin variables, constraints and penalties with any of the operators, the quadratic problem handed to the solver has, for every assignment of the user's variables, exactly the expression's value as its minimum over the auxiliary variables (up to one constant, which the reported energy restores). This holds whatever order the process's randomised hash maps iterate in, and no user variable is ever lost in compilation.",
  ["inputs", "schedules"], "all expressions and all hash-map iteration orders (process entropy), hence all reduction paths",
  "No test compiles a problem of degree above two, and every test run sees one random hash order; which pair or group is substituted first depends on that order.",
  ["src/expr.rs", "src/expanded.rs", "src/compiled.rs", "src/model.rs"],
  [("order reduction by substitution", "src/compiled.rs reduce_order, generate_replace"), ("expansion to multilinear form", "src/expr.rs to_model; src/expanded.rs MulAssign/AddAssign"), ("coefficient simplification", "src/expr.rs StaticExpr::simplify")],
  ["coefficients handed to a user-supplied solver", "SolutionView::keys"])

p("C03", "The best sample wins",
  "The solution a successful solve returns is one of the answers the backend gave in a single round of that solve, unaltered, and no answer of that round, from any worker, has lower energy. When the search ends without satisfying every constraint, no answer of the final restart has an energy below the returned one, each measured under its own round's weights. This holds for any number of answers per sample, including none from some of them, and for any completion order.",
  ["schedules", "histories", "fault_sequences"], "all backend answers (count, order, ties), worker counts and schedules",
  "Tests only see the final optimum of tiny problems; choosing a wrong sample is masked because 64 samples all find it.",
  ["src/solve.rs"],
  [("minimum over the round's samples", "src/solve.rs"), ("strict improvement inside one restart", "src/solve.rs old_energy")],
  ["solve result", "answers given by a user-supplied solver"])

p("C04", "The violation report is exact",
  "The labels returned with a solution name exactly the constraints whose expression is non-zero (beyond 1e-4) at the returned assignment: one entry per violated constraint occurrence, none missing, none extra. It is the report for the returned assignment, not for any other sample or round of the solve.",
  ["inputs", "histories", "schedules"], "all problems with constraints, all backend answers over several rounds, all schedules",
  "Tests assert an empty list on problems that the annealer solves, so a report that is always empty, stale or off by one constraint passes.",
  ["src/solve.rs", "src/compiled.rs", "src/model.rs", "src/expr.rs"],
  [("constraint evaluation at the assignment", "src/model.rs is_satisfied; src/expr.rs calculate"), ("label collection", "src/solve.rs")],
  ["third element of the solve result"])

p("C05", "The search stops exactly when satisfied or out of budget",
  "A round whose winning sample violates no labelled constraint ends the solve at once and that sample is the answer, even if an earlier infeasible answer had lower energy. Until that happens exactly iterations times generations rounds are run, then the solve returns; it never runs more, never fewer, and never hangs.",
  ["histories", "schedules", "configurations"], "all sequences of feasible and infeasible winners, all iteration/generation settings, all schedules",
  "Tests never reach a second round with a chosen outcome; the round sequence is hidden behind random annealing.",
  ["src/solve.rs"],
  [("round loops and early return", "src/solve.rs solve_with_constraints")],
  ["number of rounds seen by a user-supplied solver", "solve result"])

p("C06", "Backend failures surface and leave the solver usable",
  "If creating or running any sample of a round fails, the solve returns an error that one of that round's backend calls actually produced (or, if a backend panicked, propagates a panic raised in that round); it never returns a solution, starts no further round, and never hangs. Without a backend failure a solve never returns an error, and a later solve on the same solver object, once the faults stop, succeeds as if nothing had happened.",
  ["fault_sequences", "schedules", "histories"], "all placements of errors, panics and stalls over rounds and samples, all schedules, repeated solves",
  "The built-in annealer cannot fail, so no test ever takes the error or unwinding path.",
  ["src/solve.rs", "annealers/src/solver.rs"],
  [("collect into Result over generated solvers and parallel runs", "src/solve.rs"), ("panic propagation by the thread pool", "src/solve.rs par_iter")],
  ["solve result", "calls seen by a user-supplied solver"])

p("C07", "Every round runs its samples once on one live, unchanging problem",
  "Each round creates exactly the configured number of samples, runs each of them exactly once, and finishes with all of them before the next round starts or the solve returns. All samples of a round are given the same problem, and that problem stays alive and unchanged from a sample's creation until the sample has been dropped; every sample is dropped before the solve returns, even when a backend fails.",
  ["schedules", "fault_sequences", "configurations"], "all schedules, sample and worker counts, failures and panics",
  "The lifetime of the problem is promised by an unsafe cast, which tests cannot observe; no test counts runs.",
  ["src/solve.rs", "annealers/src/solver.rs"],
  [("unsafe lifetime extension of the round's problem", "src/solve.rs transmute"), ("take(samples) and par_iter", "src/solve.rs")],
  ["generate / solve_with_rng / drop calls of a user-supplied solver"])

p("C08", "Every sample gets its own fresh randomness",
  "Every sample run of every solve receives a random stream seeded from fresh operating-system entropy: no two runs in a process, in one round, across rounds, across solves or concurrent callers, share a stream, and streams change completely when the entropy changes. Interrupted or short entropy reads are absorbed; if entropy is unavailable the solve fails loudly and never returns an answer based on predictable numbers.",
  ["schedules", "fault_sequences", "histories"], "all entropy sources including interrupted, short and failing reads, all schedules and histories",
  "A test cannot tell 64 independent samples from 64 copies of one sample on tiny problems, and cannot make the kernel's entropy fail.",
  ["src/solve.rs"],
  [("per-sample generator seeded from the OS", "src/solve.rs StdRng::from_rng(OsRng)")],
  ["random numbers drawn by a user-supplied solver", "getrandom calls"])

p("C09", "Results do not depend on threads, scheduling or hash order",
  "Given the same problem and the same answers from the backend for each sample, a solve gives the same result (energy, assignment, violated labels, including which of several equally good answers is chosen) for every worker-thread count, every interleaving and every stall of workers. For problems of degree two or less the result is also the same for every hash-map iteration order.",
  ["schedules", "configurations"], "all worker counts, interleavings, stalls, and hash seeds",
  "Each test run observes one uncontrolled schedule and compares only an optimum that almost any selection rule finds.",
  ["src/solve.rs", "src/expanded.rs", "src/compiled.rs"],
  [("order-preserving parallel collection", "src/solve.rs par_iter().map().collect()"), ("first minimum in sample order", "src/solve.rs"), ("ordered variable list", "src/compiled.rs get_qubits")],
  ["solve result"])

p("C10", "Cold annealing descends to a local minimum",
  "Run at effectively zero temperature, the annealer never ends above the energy it started from; where no single-variable flip is cost-free, enough sweeps end in a state that no single-variable flip improves. This holds for every quadratic problem, dense or sparse (its variables numbered without gaps), every numeric type, start state and random stream, including degenerate streams of all zeros or all ones.",
  ["inputs", "fault_sequences", "schedules"], "all problems, start states and random streams (including broken ones)",
  "The only annealer test is one three-variable problem with an unseeded generator, excluded from the stable set because it flakes.",
  ["classical_solver/src/algo.rs", "classical_solver/src/sa.rs"],
  [("incremental flip costs", "classical_solver/src/algo.rs calculate_flip_cost and neighbour update"), ("acceptance rule", "classical_solver/src/algo.rs")],
  ["final state of the annealer"], )

p("C11", "At a fixed temperature the annealer samples the Boltzmann law",
  "After enough sweeps at the last inverse temperature of its schedule, the states the annealer returns over many independent runs follow the Boltzmann distribution of the problem's energies at that temperature; a run of no sweeps returns uniformly drawn states. This holds however the schedule is specified (explicit list, or a count and a range, whose upper end is the last inverse temperature when it has two steps or more), for dense and sparse problems and every numeric type.",
  ["inputs", "schedules", "configurations"], "all small problems, temperatures, schedule forms and random streams",
  "A distribution cannot be asserted from a handful of runs with an unseeded generator; existing tests only look at final optima.",
  ["classical_solver/src/algo.rs", "classical_solver/src/beta.rs", "classical_solver/src/sa.rs", "annealers/src/repr.rs"],
  [("Metropolis acceptance", "classical_solver/src/algo.rs"), ("schedule generation", "classical_solver/src/beta.rs generate_beta_schedule"), ("uniform random start", "annealers/src/repr.rs new_random")],
  ["final states over many runs"])

p("C12", "Constraint weights adapt as a fair share of the strength",
  "In the first round of every restart all constraints with distinct labels carry the same positive weight, and in every round the weights total the configured strength (up to rounding in integer types). When a round's winner becomes the restart's best answer so far and violates some but not all labels, the violated labels gain weight relative to the satisfied ones, whose weights go down; after a round that brought no new best answer the weights stay as they were.",
  ["histories", "inputs", "configurations"], "all sequences of violated sets over rounds and restarts, numeric types and strengths",
  "Weights are never observable in the tests, which pass with weights of zero (integer problems with two constraints do pass by luck).",
  ["src/solve.rs", "src/expr.rs"],
  [("share of strength per label", "src/solve.rs phdict/size"), ("increment on violation", "src/solve.rs"), ("placeholder substitution", "src/expr.rs StaticExpr::calculate")],
  ["coefficients handed to a user-supplied solver in each round"])

p("C13", "Feeding placeholders early or late gives the same problem",
  "A placeholder may be given its (positive) value in the expression before compiling or in the compiled model after it, wherever it occurs: objective, constraint, penalty, or inside high-degree terms. Either way the energy landscape, the violation report and the reported energies are those of the expression with the number written in its place, for every hash-map iteration order; a compiled model whose meaning depends on a placeholder that was given no value is refused with a panic rather than solved.",
  ["inputs", "histories", "schedules"], "all expressions with placeholders, values, feeding stages, and hash orders",
  "No test uses a placeholder.",
  ["src/expr.rs", "src/compiled.rs", "src/expanded.rs", "src/model.rs"],
  [("substitution in expressions", "src/expr.rs Expr::feed_dict, StaticExpr::feed_dict"), ("substitution in compiled models", "src/compiled.rs feed_dict"), ("refusal", "src/wrapper.rs drop_placeholder")],
  ["coefficients handed to a user-supplied solver", "solve result"])

p("C14", "A solution is complete and its flip costs are right",
  "A returned solution has a value for exactly the user's variables (every variable in the problem, no auxiliary one), the same through every accessor, and it is the bit the backend returned for that variable; the solver lists the same variables; how often the backend saw the answer is passed through. The flip cost it reports for a variable is exactly the change in energy from flipping that variable alone in the problem of the round the solution came from, and an energy it carries is the energy of its state in that problem.",
  ["inputs", "histories", "schedules"], "all problems, label types, backend answers, rounds and hash orders",
  "Tests read one or two variables of an optimum; nothing reads flip costs.",
  ["src/solution.rs", "src/solve.rs", "annealers/src/solution.rs", "annealers/src/repr.rs"],
  [("label to index map", "src/solve.rs qubit_map"), ("local field computation", "annealers/src/solution.rs calculate_local_field"), ("bit packing", "annealers/src/repr.rs")],
  ["SolutionView::get/keys/local_field/occurrences/Index"])

p("C15", "The default solver finds the optimum of small problems",
  "With default settings and enough samples, solving any small problem (zero variables up, any numeric type, coefficients of any common scale or moderate spread) finds its optimum in a bounded number of attempts, again and again in one process and from several callers at once. A constrained problem with a feasible optimum, whose constraint weights outweigh its objective, comes back with no violated constraint.",
  ["inputs", "schedules", "histories"], "small problems of every numeric type and scale, entropy streams, worker counts and schedules, repeated solves",
  "The tests cover three fixed problems at one scale; integer problems pass only because 64 random samples of 2 variables almost always include the optimum.",
  ["classical_solver/src/beta.rs", "classical_solver/src/algo.rs", "src/solve.rs", "annealers/src/model.rs"],
  [("automatic temperature range", "classical_solver/src/beta.rs generate_beta_range"), ("annealing", "classical_solver/src/algo.rs"), ("enumeration of products", "annealers/src/model.rs Prods")],
  ["solve result"])

p("C16", "An annealing run depends only on its problem and random numbers",
  "With a given problem, settings and random stream the annealer always returns the same states: independent of other runs in progress on other threads, of runs done earlier in the process, of what uninitialised memory holds, and of hash order. A solver object may be used by several threads at once, each with its own random stream, with the same results as alone.",
  ["schedules", "histories"], "all interleavings of concurrent runs, all earlier histories, all memory contents and hash orders",
  "No test runs two anneals at once with a known stream; hidden shared state or uninitialised reads show up only under particular interleavings and memory contents.",
  ["classical_solver/src/sa.rs", "classical_solver/src/algo.rs", "annealers/src/repr.rs", "annealers/src/model.rs"],
  [("solver holds only immutable state", "classical_solver/src/sa.rs"), ("state built over uninitialised bytes", "annealers/src/repr.rs with_len_unchecked")],
  ["states returned by the annealer for a seeded generator"])

p("C17", "Concurrent callers do not disturb each other",
  "Several threads may compile, feed and solve at the same time, sharing one compiled model, one solver object or the process's thread pool; each gets exactly the result it would get alone with the same backend answers. A failing, panicking or stalled backend in one caller's solve affects no other caller: theirs complete normally, without deadlock.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of concurrent callers and all placements of failures and stalls among them",
  "All tests are single-threaded callers with a backend that cannot fail.",
  ["src/solve.rs", "src/compiled.rs"],
  [("immutable sharing of the compiled model", "src/solve.rs &CompiledModel"), ("per-call search state", "src/solve.rs solve_with_constraints")],
  ["solve results of each caller"])

p("C18", "Numeric conversions are faithful",
  "Converting between supported numeric types keeps every value the target type can represent, mixed-type promotion picks a type that holds both operands, and the extremes reported for a type are its real extremes.",
  ["inputs"], "all values of all supported numeric types",
  "There are no tests of the conversions.",
  ["annealers/src/variable.rs"], [("cast macros", "annealers/src/variable.rs")], ["conversion results"])

p("C19", "Node sets and product enumeration are canonical",
  "Enumerating the products of a problem of n variables yields each single variable and each unordered pair exactly once, neighbours of a variable are exactly the products containing it, and node sets keep their canonical sorted form however they are built.",
  ["inputs"], "all sizes and index sets",
  "One test enumerates size four.",
  ["annealers/src/model.rs", "annealers/src/set.rs", "annealers/src/solver.rs"], [("Prods, Neighbors", "annealers/src/model.rs"), ("NodeSet", "annealers/src/set.rs")], ["iterators"])

p("C20", "The structured view of an unstructured solver lists every node and pair",
  "Viewing an unstructured solver as a structured one lists each of its nodes once and each pair of nodes exactly once, in a fair order when the size is unbounded, and generates the same solvers.",
  ["inputs"], "all solver sizes",
  "One test enumerates three nodes.",
  ["annealers/src/solver.rs"], [("UnstructuredEdgeIter", "annealers/src/solver.rs")], ["iterators"])

p("C21", "Models, states and solutions hold what was put into them",
  "A model holds, for every product of variables, the total of the weights added to it so far, whatever the order, the portions and the products added before; listed, every product appears once, and those around a variable are exactly those that contain it; a state holds, for every position, the value last written there, and a position outside it is refused; a solution keeps the energy and the flip costs computed for it until it is dropped, and they are those of its own state on the model it was computed with. Clones never share anything: no later operation on one value changes what another, earlier or later cloned, or used by another task, reads. This holds for every sequence of operations, every variable kind, order and numeric type, and for several tasks working at once on values of their own and reading shared ones.",
  ["histories", "inputs", "schedules"], "all sequences of operations on models, states and solutions, over one or several tasks, and all memory contents",
  "The tests write and read one model of two or three variables; carried-over bits, weights lost on a second addition, stale energies and shared clones need longer histories or sizes that cross a byte or word.",
  ["annealers/src/model.rs", "annealers/src/repr.rs", "annealers/src/solution.rs", "annealers/src/set.rs"],
  [("weights by product", "annealers/src/model.rs SingleModel add_weight, get_weight, prods, neighbors"), ("bits packed over uninitialised bytes", "annealers/src/repr.rs BinaryRepr"), ("energy and local field cached in the solution", "annealers/src/solution.rs SingleSolution")],
  ["weights, bits, energies and local fields read back through the public functions"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
