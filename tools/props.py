#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the text of both lives here)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PAR, BAR, ALL, WB = "src/solver/parallel.rs", "src/solver/barrier.rs", "src/mdd/with_all.rs", "src/mdd/with_barrier.rs"
ND, SF = "src/frontier/no_dup.rs", "src/frontier/simple.rs"
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, state=None, note=None, technique=None):
    P.append(dict(row=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])], observe_at=observe, hook_needed=None)),
        note=note, technique=technique))

TEST = "The repository's tests cover node flags, lexicographic bit sets and matrices; no test runs a solver, let alone under a controlled schedule."

prop("C01", "The parallel solver proves the true optimum",
     "For every problem whose model honours its contract, a resolution by the parallel solver that nobody interrupts returns normally, reports as best value exactly the optimum of the problem (none if it is infeasible), with a feasible solution of that value, and lower and upper bounds both equal to it. This holds whatever the frontier (with or without duplicate elimination), the cutset (last exact layer or frontier), the maximum width (at least one), the number of workers and the way the solver was constructed. Each open node the solver keeps is reached by its path with its value.",
     ["inputs", "schedules", "configurations"],
     "all well-formed dynamic programs (any sign of costs, infeasible transitions, rough bounds absent to exact), all solver configurations, all interleavings of the workers",
     TEST + " A wrong optimum needs a particular combination of model, width, cutset and interleaving of bounds and open nodes.",
     [PAR, ALL, ND, SF], [("branch and bound loop", PAR + " get_workload/process_one_node"), ("incumbent and pruning", PAR + " maybe_update_best/enqueue_cutset"), ("restriction, relaxation, cutsets and local bounds", ALL)],
     ["Solver::maximize, best_value, best_solution, best_lower_bound, best_upper_bound"])
prop("C02", "The barrier solver proves the true optimum",
     "For every problem whose model honours its contract, a resolution by the barrier-based solver that nobody interrupts returns normally and reports exactly the optimum (none if infeasible), with a feasible solution of that value, and both bounds equal to it. Pruning by barriers never loses the optimum, whatever the cutset, width (at least one), number of workers, construction and the interleaving of the threshold updates of the workers.",
     ["inputs", "schedules", "configurations"],
     "all well-formed dynamic programs, all configurations of the barrier solver, all interleavings of the workers",
     TEST + " A threshold that prunes too much only shows for particular models, incumbents and interleavings.",
     [BAR, WB], [("barriers shared by the workers", BAR + " barriers, get_workload"), ("thresholds", WB + " compute_local_bounds_and_theta/try_update_barrier")],
     ["Solver::maximize, best_value, best_solution, bounds"])
prop("C03", "Anytime solution: the incumbent is feasible and worth what is claimed",
     "Whenever a resolution ends, whether it proved optimality, was interrupted at any moment or failed to start one of its threads, the reported best value and best solution are both present or both absent; the solution assigns every variable exactly once, is feasible, and its cost is exactly the reported value, which equals the reported lower bound and never exceeds the optimum. The best-so-far and final accessors agree.",
     ["inputs", "schedules", "fault_sequences", "configurations"],
     "all models and configurations, all interleavings, all moments of interruption, thread creation failures",
     TEST + " The value and the solution are written separately by concurrent workers and read after an interruption at an arbitrary point.",
     [PAR, BAR, ALL, WB], [("incumbent updated under the lock", PAR + ", " + BAR + " maybe_update_best"), ("best path of a diagram appended to the path of its root", ALL + ", " + WB + " _best_solution")],
     ["Solver::best_value/best_solution, InterruptibleSolver::best_*_so_far/best_lower_bound"])
prop("C04", "Every resolution terminates",
     "Every call to maximize or maximize_with_interrupt returns after finitely many steps under every fair schedule: no deadlock, lost wake-up, livelock or premature abandonment, for any number of workers (including none, which counts as one, and more than there are open nodes, or than processors), any way of constructing the solver, repeated calls, and when the system refuses to create some of its threads. If nobody interrupted it and all threads started, it ended because the optimum is proved.",
     ["schedules", "fault_sequences", "inputs", "configurations"],
     "all interleavings including starvation and spurious wake-ups, all models, numbers of workers, constructions, interruption instants and thread creation failures",
     TEST + " A lost wake-up or a miscounted worker needs one particular interleaving.",
     [PAR, BAR], [("waiting for open nodes of other workers", PAR + ", " + BAR + " get_workload/monitor"), ("wake-ups", PAR + ", " + BAR + " notify_node_finished")],
     ["return of Solver::maximize / InterruptibleSolver::maximize_with_interrupt"])
prop("C05", "Bounds of an interrupted resolution bracket the optimum",
     "Whenever maximize_with_interrupt returns, the reported lower bound (minus infinity without solution) is at most the optimum and the reported upper bound at least the optimum; once the root has been split into subproblems, the upper bound is no larger than the largest of their bounds (or the lower bound). The status is Proved only if the best value is the optimum and both bounds coincide, and Interrupted only if the interruption callback returned true during that call.",
     ["schedules", "inputs", "fault_sequences", "configurations"],
     "all models and configurations, all interleavings, all instants and sources of interruption (poll count, clock, another thread, amount of work), clock jumps",
     TEST + " The upper bound must account for the nodes other workers hold at the very moment of the interruption.",
     [PAR, BAR], [("upper bound at interruption", PAR + ", " + BAR + " get_workload"), ("bounds of the ongoing nodes", PAR + ", " + BAR + " upper_bounds")],
     ["ResolutionStatus, best_lower_bound, best_upper_bound"])
prop("C06", "An interruption is honoured promptly",
     "The interruption callback is consulted before each subproblem is processed; once it returned true to a worker, that worker starts no further subproblem and every other worker starts at most the one it had already taken, after which the call returns (when the callback says so only once, the other workers are told when that worker leaves). The status says interrupted only if the callback said so.",
     ["schedules", "inputs", "configurations"],
     "all interleavings of the workers and instants of the interruption, all models and configurations",
     TEST + " How much work starts after the interruption depends on what each worker was doing at that moment.",
     [PAR, BAR], [("poll before taking work", PAR + ", " + BAR + " get_workload")],
     ["calls of the interruption callback versus calls of the width heuristic and expansions"])
prop("C07", "A resolution can be resumed after interruptions",
     "Calling maximize or maximize_with_interrupt again on a solver whose previous resolutions were interrupted, at any points and any number of times, returns normally and, if not interrupted any more, proves the true optimum with both bounds equal to it. Across the calls the lower bound never decreases and after every call the bounds bracket the optimum.",
     ["histories", "schedules", "inputs", "configurations"],
     "all histories of interrupted calls followed by an uninterrupted one, all interruption instants, interleavings, models and configurations",
     TEST + " No test calls a solver twice.",
     [PAR, BAR], [("reset of the search state", PAR + ", " + BAR + " initialize")],
     ["ResolutionStatus, best_value, bounds after each call"])
prop("C08", "A panic in the user's model is propagated, never a hang or a wrong answer",
     "If any callback of the user's problem, relaxation, heuristics, ranking or interruption panics in any worker at any moment, the call terminates (no worker waits forever) and the panic is reported to the caller instead of being swallowed. No other panic arises, the solution reported so far remains feasible and worth its value, and the reported bounds bracket the optimum. The solver stays usable: a later resolution by it, if nothing panics any more, proves the optimum.",
     ["fault_sequences", "schedules", "inputs", "configurations"],
     "every callback, every occurrence, every interleaving of the failing worker with the others",
     TEST + " The failure has to hit while the other workers wait for the failing one.",
     [PAR, BAR], [("abort on unwinding", PAR + ", " + BAR + " process_or_abort"), ("scoped threads", PAR + ", " + BAR + " maximize")],
     ["outcome of maximize under catch_unwind, best_solution afterwards"])
prop("C09", "Decision diagrams bound their subproblem and their cutset covers it",
     "A diagram compiled from any subproblem reports as best value: exactly the optimum of the subproblem when exact or when it claims to be exact, a feasible value when restricted, an upper bound on the optimum when relaxed (up to solutions not better than the incumbent or ruled out by a barrier, which may be cut). The best solution of an exact or restricted diagram is feasible and worth its value. The cutset of a relaxed diagram contains only nodes reached by their path with their value and valid upper bounds, and covers every completion that beats the incumbent.",
     ["inputs", "configurations", "schedules"],
     "all models, subproblems, incumbents, widths, cutsets, compilation types and successive reuses of one diagram; concurrent workers for barrier diagrams",
     TEST + " No test compiles a diagram; failures need specific merges, prunings and incumbents.",
     [ALL, WB], [("compilation", ALL + ", " + WB + " _compile/restrict/relax"), ("local bounds and cutset", ALL + ", " + WB + " compute_local_bounds/_drain_cutset")],
     ["DecisionDiagram::compile, is_exact, best_value, best_solution, drain_cutset"])
prop("C10", "A frontier is a priority queue of the open nodes, duplicates merged",
     "For every sequence of push, pop, clear and length queries, a frontier loses no node and invents none: pop returns a node of maximal upper bound among those it holds, and nothing exactly when it is empty. The duplicate-free frontier holds each state at most once, with the largest value pushed for it and a path of that value, and the largest of its upper bounds; the simple one holds every pushed node unchanged.",
     ["histories", "inputs", "schedules"],
     "all sequences of operations by concurrent workers, including those of whole resolutions, with colliding hashes, ties and extreme bounds",
     TEST + " The heap invariants depend on the whole history of updates of duplicates.",
     [ND, SF, "src/frontier/mod.rs"], [("heap with positions and states", ND + " push/pop/bubble_up/bubble_down"), ("order", "src/frontier/mod.rs MaxUB")],
     ["Frontier::push/pop/clear/len/is_empty"])
prop("C11", "With barriers, a state is not explored again for the same value",
     "During one resolution by the barrier solver, the workers together process a subproblem rooted in a given state at most once per distinct value with which that state can be reached, whatever the interleaving; every subproblem they process is rooted in an exact state.",
     ["schedules", "inputs", "configurations"],
     "all interleavings of the workers, all models (in particular those where many paths lead to one state) and configurations",
     TEST + " Two workers must meet on one state between a check and an update of its threshold.",
     [BAR, WB], [("explored flag and threshold checked and updated under the lock", BAR + " get_workload"), ("atomic update of a threshold", WB + " try_update_barrier")],
     ["states for which the width heuristic is consulted"])
prop("C12", "Search statistics and diagram widths are what they claim",
     "The number of explored diagram nodes equals the number of nodes actually expanded, the number of explored subproblems is at least the number processed, and equal to it with a single worker. No layer of a restricted diagram has more nodes expanded than the maximum width, nor has a layer of a relaxed one beyond its first layer below the root.",
     ["schedules", "inputs", "histories", "configurations"],
     "all models, configurations, interleavings, interrupted and repeated resolutions",
     TEST + " Lost updates of the counters need interleaved workers; the width must hold for each layer of each diagram.",
     [PAR, BAR, ALL, WB], [("counters", PAR + ", " + BAR + " notify_node_finished"), ("squashing of a layer", ALL + ", " + WB + " _compile")],
     ["get_explored, get_explored_dd; callbacks of the problem"])
prop("C13", "A barrier threshold never rules out an improving completion",
     "After any sequence of compilations of diagrams by concurrent workers sharing barriers and an incumbent, a threshold recorded for a state is justified: no feasible completion of that state from a path of value at most the threshold can beat the incumbent unless it is still represented by an open node. Thresholds only grow and the bounds and coverage of the diagrams remain valid under them.",
     ["schedules", "histories", "inputs", "configurations"],
     "all models, histories of subproblems, widths, cutsets and interleavings of workers updating the shared barriers",
     TEST + " A wrong threshold is silent until another path reaches the same state later.",
     [WB], [("theta propagation", WB + " compute_local_bounds_and_theta"), ("shared maps", WB + " try_update_barrier")],
     ["the shared barrier maps given to the diagram, drain_cutset, best_value"])

prop("C20", "The model is only asked what it can answer",
     "During every resolution and every compilation of a diagram, the functions of the model are only called with arguments that belong together: next_variable with the states of one layer of the diagram; for_each_in_domain with the variable chosen for that layer and one of its states; transition and transition_cost with a state and a decision of the domain of that state; merge with at least one state, all of one layer; relax with the source and the destination of an existing arc, the state they are merged into, the decision of that arc and its current cost (as adjusted by former merges); estimate with a state reached; max_width with the exact state of the subproblem about to be processed.",
     ["inputs", "schedules", "configurations", "histories"],
     "all models, including those where the order of the variables depends on the states and those where the cost of an arc depends on where it leads, all configurations, interleavings and instants of interruption",
     TEST + " A model cannot tell that its answers are used for something else than what it was asked; most models tolerate wrong arguments most of the time.",
     [PAR, BAR, ALL, WB], [("expansion of a layer", ALL + ", " + WB + " branch_on"), ("merging and redirecting arcs", ALL + ", " + WB + " relax"), ("width of a subproblem", PAR + ", " + BAR + " process_one_node")],
     ["arguments of the functions of Problem, Relaxation and WidthHeuristic"])
prop("C21", "Resolutions do not interfere",
     "Resolutions of the same process are independent of each other: when two solvers of any kinds run at the same time, on two problems or on the same one, each ends with the result it would reach alone: the exact optimum with both bounds equal to it, or if it is interrupted bounds that bracket it; interrupting one does not affect the other. A frontier which was used for a previous resolution, be it complete, interrupted or ended by a panic of the model, may be given to a new solver.",
     ["schedules", "inputs", "histories", "fault_sequences", "configurations"],
     "all pairs of solvers, models and configurations, all interleavings of the threads of both, all instants of interruption and panics of the first one",
     TEST + " State shared by accident (statics, thread locals, leftovers in the frontier) only shows when two resolutions overlap or follow each other.",
     [PAR, BAR, ND, SF], [("shared state of a resolution", PAR + ", " + BAR + " Shared/Critical"), ("reset of the frontier", PAR + " initialize")],
     ["results of both solvers"])

NOTE = "Seeded exploration: each run is the real code under one controlled schedule, judged by an exhaustive oracle; bounded by the seeds run. Trusts the simulated scheduler and parking_lot stand-in, the oracle, and sequential consistency between basic blocks."
TECH = "deterministic simulation with fault injection: seeded search over schedules, models and faults of the real library on simulated threads and clocks, against an exact dynamic-programming oracle"
CLI_NOTE = "Seeded exploration of whole runs of the shipped program, one process per run, judged by an independent oracle in Python; bounded by the seeds run. Trusts the simulated scheduler, clock and parking_lot stand-in, and the oracle."
CLI_TECH = "deterministic simulation with fault injection: seeded search over instances, arguments, schedules and injected faults of the real program in a simulated process (threads, clock, file reads), against an independent exact oracle"
XP = "src/xputils.rs"
def example(id, name, what, files, cond):
    prop(id, "The %s program reports the true optimum" % name,
     "For every well-formed instance file (%s), %s, run with any solver, cutset, width and number of threads (or the default number, one per processor), exits successfully before its time limit with exactly one report line: name of the instance, solver, status Proved, best value and both bounds equal to the exact optimum (or \"not found\" when the instance is infeasible), gap zero. It neither panics nor hangs." % (cond, what),
     ["inputs", "schedules", "configurations"],
     "all well-formed instances, all combinations of arguments, all interleavings of the workers",
     TEST + " No test runs a shipped program; the model, its relaxation and its bounds must agree with each other on every instance.",
     files + [XP, PAR, BAR], [("model, relaxation, bounds and parser", ", ".join(files)), ("resolution and report", XP + " solve_timeout")],
     ["exit status and output of the program"], note=CLI_NOTE, technique=CLI_TECH)
example("C14", "travelling salesman with time windows", "the tsptw program", ["examples/tsptw"], "distances satisfying the triangle inequality")
example("C15", "pigment sequencing", "the psp program", ["examples/psp"], "changeover costs satisfying the triangle inequality")
example("C16", "single row facility layout", "the srflp program", ["examples/srflp"], "symmetric, triangular or asymmetric flows")
prop("C17", "A time limit is respected and the report stays truthful",
     "With a time limit, a shipped program still exits successfully with exactly one report line. It says Proved only if the best value is the optimum, and Timeout only if at least the limit has elapsed; in either case the best value never exceeds the optimum, equals the lower bound, the bounds bracket the optimum, the gap is their difference relative to the larger of their magnitudes (zero if they coincide), and the duration does not exceed the elapsed time. The same holds for every model given to solve_timeout, which moreover returns the reported upper bound, reports the numbers of subproblems and of diagram nodes really explored, uses the number of workers asked for (one per processor by default), and lets each worker start at most one subproblem after the limit.",
     ["schedules", "fault_sequences", "inputs", "configurations"],
     "all limits including zero, all speeds and forward jumps of the clock, all interleavings, instances and arguments",
     TEST + " The limit can strike at any point of the search; the clock cannot be controlled in a test.",
     [XP, PAR, BAR], [("interruption by the clock", XP + " solve_timeout"), ("report", XP + " gap/solve_timeout")],
     ["exit status and output of the program"], note=CLI_NOTE, technique=CLI_TECH)
prop("C18", "Input errors never turn into a wrong answer",
     "When reading the instance file is interrupted or returns fewer bytes than asked, a shipped program reports exactly what it would have reported otherwise. When opening or reading it fails, the program exits unsuccessfully without printing a report: a failure is never ignored, whatever part of the file it hits.",
     ["fault_sequences", "inputs"],
     "all placements of short reads, interruptions, input errors and failures to open, all instances",
     TEST + " No test reads an instance, let alone from a failing file.",
     ["examples/psp/psp.rs", "examples/tsptw/instance.rs", "examples/srflp/instance.rs"], [("parsers", "TryFrom/From<Lines> of the instances")],
     ["exit status and output of the program"], note=CLI_NOTE, technique=CLI_TECH)
prop("C19", "The timeout helper runs the exit action once, or not at all",
     "xputils::timeout ends the process with status 0 exactly when the action finished, without having run the exit action; or with status 1 after having run the exit action exactly once and completely, and not before the delay has elapsed. It never returns, deadlocks or runs both endings.",
     ["schedules", "fault_sequences", "configurations"],
     "all interleavings of the action with the timer, all delays, durations of the action and of the exit action, clock jumps",
     TEST + " The two endings race; the loser must not interfere.",
     [XP], [("switch between the two endings", XP + " timeout")],
     ["exit status and output of the process"], note=CLI_NOTE, technique=CLI_TECH)

prop("C22", "The command line means what it says",
     "A shipped program run on a readable instance with any valid spelling of its arguments (long or short options, in any order, value attached or not) exits successfully with one report line that names the instance and the solver asked for (parallel by default), having used the number of workers asked for (zero counting as one, one per processor by default), the maximum width asked for (with an unlimited one the first diagram is exact and settles the problem), and having timed out only after the limit asked for (60 seconds by default). print-header prints the names of the columns of that line. Invalid or missing arguments and unreadable files end it unsuccessfully without report.",
     ["inputs", "schedules", "configurations"],
     "all command lines, instances, interleavings, numbers of processors and speeds of the clock",
     TEST + " No test runs a program; the number of workers, the processors and the clock can only be varied under simulation.",
     [XP, "examples/tsptw/main.rs", "examples/psp/main.rs", "examples/srflp/main.rs"], [("arguments", XP + " Args/SolverType"), ("number of workers, limit, report", XP + " solve_timeout/resolution_header")],
     ["exit status, output and threads of the program"], note=CLI_NOTE, technique=CLI_TECH)

def na(id, title, statement, why_tests, files, mech, reason):
    return (dict(id=id, title=title, statement=statement, quantifier=dict(over=["inputs"], text="all inputs of the functions concerned"),
        why_tests_cant=why_tests, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[], observe_at=[], hook_needed=None)), reason)
NA = [
 na("C90", "Bit sets iterate over their elements and compare lexicographically",
    "Iterating over a bit set yields exactly the indices of its set bits in increasing order, and the lexicographic wrapper is a total order consistent with equality that compares two sets by their elements.",
    "The unit tests sample a few sets.", ["src/utils.rs"], [("iterator and order", "src/utils.rs BitSetIter/LexBitSet")],
    "Pure sequential functions of their argument: no concurrency, time, I/O or party whose nondeterminism a simulator could control; deciding it is property-based testing or proof, not simulation."),
 na("C91", "Node flags are independent of each other",
    "Setting, adding or removing one flag of a node changes no other flag, and a node is exact exactly when marked so and not relaxed.",
    "The unit tests sample combinations.", ["src/mdd/node_flags.rs"], [("bit masks", "src/mdd/node_flags.rs")],
    "Pure sequential bit operations on one byte: nothing for a schedule or a fault to vary. (Their use inside the diagrams is exercised by C09 and C13.)"),
]
def main():
    P.sort(key=lambda p: p["row"]["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["row"]) + "\n")
        for r, _ in NA:
            f.write(json.dumps(r) + "\n")
    m = dict(version=1, setup_cmd="sim/build.sh", checks=[
        dict(property=p["row"]["id"], quick_cmd="python3 check.py %s quick" % p["row"]["id"], thorough_cmd="python3 check.py %s thorough" % p["row"]["id"],
             technique=p["technique"] or TECH, level="exploration", level_note=p["note"] or NOTE) for p in P],
        not_applicable=[dict(property=r["id"], reason=why) for r, why in NA],
        notes="No hooks in /repo: every seam is a link-time interposition of libc and a [patch] of parking_lot in /verif/sim. Repairs are the fix: commits listed in KNOWN_FINDINGS.txt.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
main()
