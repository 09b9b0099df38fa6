prop("P01", "Parallel verification returns the same tree as sequential verification",
     "For every scenario, verifying it with parallel workers yields the same reachability tree (modes, initial sets, start times, tubes, assertion hits, branches) as verifying it sequentially, whatever order the workers finish in, however many tasks are dispatched ahead, and even if workers die and their tasks are run again. Only the order of sibling branches and the numbering of nodes may differ.",
     ["schedules", "fault_sequences", "inputs", "configurations"],
     "all completion orders, worker counts, look-ahead limits, worker crashes with re-execution, lost objects and duplicate executions; all generated scenarios (agents, guards, resets, assertions)",
     "the tests run a few scenarios once, under whichever completion order the machine happens to produce, and never compare the two modes or kill a worker",
     [VER, SCN, TREE],
     [("tasks carry snapshots, results are written back by node id on the driver", VER + " proc_result"), ("queue of nodes and window of outstanding tasks", VER + " compute_full_reachtube")],
     "seeded search over simulated cluster schedules with worker crashes, lost objects and duplicates; oracle: the sequential run of the same scenario")
prop("P02", "Parallel simulation returns the same trees as sequential simulation",
     "For every scenario and sampling seed, simulating it (once or as a batch) with parallel workers yields the same simulation trees, including every assertion violation, as simulating it sequentially, whatever order the workers finish in and even if workers die and their tasks are run again. Only the order of sibling branches and the numbering of nodes may differ.",
     ["schedules", "fault_sequences", "inputs", "configurations"],
     "all completion orders, worker counts, look-ahead limits, worker crashes with re-execution, lost objects and duplicate executions; all generated scenarios and seeds",
     "the tests run a few scenarios once, under whichever completion order the machine happens to produce, and never compare the two modes or kill a worker",
     [SIM, SCN, UT],
     [("tasks carry snapshots, results are written back by node id on the driver", SIM + " proc_result"), ("queue of nodes and window of outstanding tasks", SIM + " simulate")],
     "seeded search over simulated cluster schedules with worker crashes, lost objects and duplicates; oracle: the sequential run of the same scenario")
prop("P04", "Simulation explores exactly the branches the decision logic defines",
     "A simulation tree contains, for every mode combination entered, the sampled trajectory of each agent up to the first sampled instant at which an assertion fails or a permitted transition is enabled, and one child per combination of enabled discrete and continuous updates of the agents that can switch then; nothing is missed and nothing else is added. A failing assertion is reported with its label for its agent and ends that branch, an update the map refuses does not happen and hides nothing else, and the plain-Python simulation follows the decision logic executed as Python code in the same way.",
     ["schedules", "inputs", "programs", "fault_sequences"],
     "all generated decision programs (nested and flat conditions, any/all over other agents, nondeterministic branches, affine resets, several mode variables, map-dependent tracks, assertions with preconditions), initial points, depth bounds, sequential, parallel under any schedule, and plain-Python execution",
     "the tests simulate a handful of fixed scenarios and never compare the resulting tree with an independent semantics",
     [SIM, PAR, SCN, "verse/sensor/base_sensor.py"],
     [("per-sample evaluation of assertions, guards and resets", SIM + " check_sim_transitions, get_transition_simulate"), ("construction of children from transition combinations", SIM + " simulate_one"), ("extraction of paths from the decision logic", PAR + " ControllerIR.from_dl")],
     "reference executor of the sampled hybrid semantics, compared node by node over seeded runs, a share of them in the simulated cluster with crashes")

VPAR = "all generated scenarios (one to three agents, affine guards over several variables and over other agents, resets, several mode variables, map-dependent tracks), initial rectangles, depth bounds, sequential and parallel under any schedule with worker crashes; all points of the initial rectangles"
prop("P03", "Verification tubes contain every behaviour of the scenario",
     "Every behaviour of the decision logic that starts in the initial set and takes each switch at a time at which its guard holds is contained in the verification tree: at each instant its state lies in the tube of a node with the same modes, reached by a branch with the same switches. This holds whatever the schedule of the parallel workers and whichever of them die.",
     ["inputs", "programs", "schedules", "fault_sequences"], VPAR,
     "the tests verify a few fixed scenarios and never execute a behaviour against the resulting tubes",
     [VER, SCN, PAR, DRY, "verse/sensor/base_sensor.py"],
     [("hit detection on tube segments, reset computation and grouping", VER + " get_transition_verify_opt, check_cache_bloated_tube"), ("construction of the children's initial sets", VER + " compute_full_reachtube_step")],
     "seeded search over scenarios and schedules with crashes; oracle: an independent executor of the decision logic steps sampled and corner behaviours through the tree")
prop("P05", "verify() misses no reachable assertion violation",
     "If some behaviour that starts in the initial set violates an assertion within the horizon, then verify() reports a violation with that label for that agent, in a node with the modes of the behaviour. A violation is only reported where the tube touches the states that violate the assertion, and with unsafe_continue the verdict and the branches are the same and the tubes reach at least as far.",
     ["inputs", "programs", "schedules", "fault_sequences", "configurations"], VPAR,
     "the tests check a few verdicts on fixed scenarios; none searches for a violating behaviour that a safe verdict excludes",
     [VER, SCN, PAR],
     [("satisfiability of negated assertions on tube segments", VER + " check_sat, get_transition_verify_opt"), ("verdict", "verse/scenario/scenario.py verify")],
     "seeded search over scenarios and schedules with crashes; oracle: violating behaviours found by an independent executor, and interval evaluation of reported violations")
prop("P14", "Partitioned verification covers the whole initial set",
     "The trees returned by verify_partitioned() together contain every behaviour that starts in the initial set, as the tree of verify() does: partitioning a set, at the start or after a switch, loses no part of it.",
     ["inputs", "programs"], "all generated single-agent scenarios, initial rectangles and numbers of partitions",
     "one example uses the function; no test compares its result with anything",
     [SCN, VER, UT],
     [("partition of initial sets and of hitting sets", "verse/scenario/scenario.py verify_partitioned, verse/analysis/utils.py")],
     "seeded search over scenarios; oracle: sampled behaviours and corners of partitions followed through the tree")
prop("P17", "Every branch of a verification tree is justified by its parent's tube",
     "Each child of a verification node has modes and initial sets that some combination of enabled transitions of the decision logic produces from states in the parent's tube, and it starts at a time at which the parent's tube meets the guard. Verification invents no switch which no state of the tube can take.",
     ["inputs", "programs", "schedules", "fault_sequences"], VPAR,
     "the tests check the verdict or the number of branches on a few fixed scenarios",
     [VER, SCN, PAR],
     [("guard evaluation over tube segments", VER + " get_transition_verify_opt, check_guard"), ("children", VER + " compute_full_reachtube_step")],
     "seeded search over scenarios and schedules with crashes; oracle: interval evaluation of the decision logic over the parent's tube")

HIST_OVER = ["histories", "configurations", "inputs", "schedules", "fault_sequences"]
prop("P06", "A run depends only on the scenario, its configuration and the seed",
     "Running the same simulation or verification of the same scenario, with the same configuration and sampling seed, gives the same trees: again on the same scenario object, on a new one, in another process with another string hash seed, and whatever other runs and other uses of the random number generators happened before. The order of sibling branches may differ only in parallel runs.",
     HIST_OVER, "all generated scenarios and histories of runs, all states of the global random number generators, string hash seeds, sequential and parallel under any schedule with worker crashes",
     "the tests run each scenario once in one process and compare nothing between processes or after other runs",
     [SCN, SIM, VER, UT], [("sampling of initial points", UT + " sample_rect, verse/scenario/scenario.py simulate"), ("module and object state kept between runs", SIM + ", " + VER)],
     "seeded search over histories of runs; oracle: the same run in a process forked from a pristine interpreter with another hash seed")
prop("P07", "Runs leave earlier trees, inputs and other scenarios untouched",
     "No operation on a scenario (running it, setting other initial conditions, adding an agent, changing a returned tree, cleaning up) changes trees returned earlier, the initial conditions the user passed in, or the results of another scenario; each run computes what a new scenario with the current agents and initial conditions would, and changing a tree that was returned does not change later results.",
     HIST_OVER, "all histories of operations on one to three scenarios, with or without a shared configuration object, sequential and parallel",
     "the tests use one scenario per test, run it once and look at the tree only right afterwards",
     [SCN, SIM, VER, TREE], [("inputs and agents are copied into the tree", SCN + " simulate, verify; verse/analysis/analysis_tree.py root_from_inits")],
     "seeded search over histories of operations; oracle: snapshots of every earlier tree and input, and the same operation in a pristine process")
prop("P08", "A run that fails leaves no trace in later runs",
     "When a run ends with an error (an agent raises, the user interrupts it, memory runs out, a worker dies for good), the error reaches the caller, later runs on the same scenario object give exactly what they would have given without the failed run, and earlier trees stay as they were.",
     HIST_OVER, "failures at every call of an agent's dynamics or decision logic and at every task; all generated scenarios and histories, sequential and parallel under any schedule",
     "no test makes a run fail and then uses the scenario again",
     [SCN, SIM, VER], [("state of a run is rebuilt when the next one starts", SIM + " simulate; " + VER + " compute_full_reachtube")],
     "fault injection at a seeded call (exceptions, interrupts, allocation failures, unrecoverable worker deaths) in histories of runs; oracle: the same later run in a pristine process")
prop("P09", "Every tree is well formed",
     "Every tree returned by a run, sequential or parallel, is well formed: each node is reachable exactly once and in the list of nodes, ids are unique, the root is at time 0 and height 0, children are one level deeper and start within their parent's time, all agents' traces cover the same consecutive times from the node's start to no later than the horizon, a simulation trace starts at the node's initial state and each child starts where its parent ends, tube segments have lower bounds below upper bounds, and agents that do not switch keep mode and state. A branch ends only at the horizon, the depth limit or an assertion violation.",
     ["inputs", "schedules", "fault_sequences", "configurations"], "all generated scenarios, run operations (simulate, batches, plain-Python simulation, verify), depth bounds, sequential and parallel under any schedule with worker crashes and duplicate executions",
     "the tests count nodes or leaves of a few fixed trees",
     [TREE, SIM, VER], [("numbering and linking of nodes", SIM + " proc_result; " + VER + " proc_result"), ("start times and truncation of traces", SIM + " simulate_one; " + VER + " compute_full_reachtube_step")],
     "seeded search over scenarios and schedules with crashes; structural invariants checked on every node of every tree")
prop("P10", "Parallel runs dispatch each branch once within the configured window",
     "A parallel run dispatches exactly one task per explored node, never has more tasks outstanding than parallel_sim_ahead or parallel_ver_ahead allow, waits for all of them before it returns, computes no trajectory twice, and terminates whatever order tasks finish in; a sequential run starts no tasks.",
     ["schedules", "fault_sequences", "configurations", "inputs"], "all completion orders, numbers of workers, windows, worker crashes, lost objects and duplicate executions; all generated scenarios",
     "the tests never observe the tasks a run dispatches",
     [SIM, VER, SCN], [("window of outstanding tasks and result loop", SIM + " simulate; " + VER + " compute_full_reachtube")],
     "seeded search over cluster schedules; counters of the simulated cluster are checked as invariants")
prop("P13", "A dumped tree is loaded back unchanged",
     "Once dump() returns, load() gives a tree with the same nodes, structure, ids, times, modes, initial states, traces and assertion hits, equal according to is_equal(), and dumping does not change the tree. If the disk fails, dump() or load() raises an error, and a file cut off by a crash or a full disk is never loaded as a different tree.",
     ["inputs", "crash_points", "fault_sequences"], "all trees of generated runs (simulation and verification, depth bounds, assertion hits), write errors, full disks, failing close, power loss at any byte, short reads and writes",
     "no test dumps a tree under disk faults, and the tests compare reloaded trees for a few fixed scenarios only",
     [TREE], [("conversion of nodes to and from JSON", TREE + " _to_dict, _from_dict"), ("writing and reading", TREE + " dump, load")],
     "seeded disk fault injection below the io stack (torn writes, ENOSPC, EIO, power loss, short reads and writes); oracle: the tree in memory")
prop("P16", "Comparing trees tells equal trees from different ones",
     "is_equal() holds between a tree and itself, its parallel computation and any reordering of its branches, and fails when a state, a time span or a branch differs. contains() of verification trees holds exactly when at each time the other tree's tubes lie within the union of this tree's tubes, branches that start later or were cut off included.",
     ["inputs", "schedules"], "all trees of generated runs, their reorderings, single changes of a value, a bound or a branch, and trees of changed scenarios",
     "the tests compare a few fixed trees that are far apart or the same",
     [TREE], [("pairing of branches of simulation trees", TREE + " contains"), ("union of tubes per time step", TREE + " collect_ranges")],
     "seeded search over trees and changes to them, parallel results under any schedule; oracle: independent comparison per time step")
prop("P11", "Incremental simulation gives the trees of a simulation from scratch",
     "With incremental=True, simulating a scenario again after its decision logics, assertions, initial states, horizon or time step were changed, or with nothing changed, gives the trees that a new scenario without incremental would give, up to rounding: no transition, assertion violation or trajectory of an earlier run is kept where it no longer applies or missed where it is new. This holds sequentially and in parallel, after failed runs, and whatever the user does with the trees he was given. (The map, the sensor and the agents' dynamics are not exchanged.)",
     HIST_OVER, "all generated scenarios, all histories of edits (thresholds, destinations, resets, blocks and assertions added, removed or changed and changed back, agents replaced), initial states, horizons, time steps and runs; sequential and parallel under any schedule with worker crashes",
     "no test uses the incremental mode; whether reuse is right depends on which runs came before",
     [INC, SIM], [("cached trajectories and checked nodes", INC + " SimTraceCache"), ("which guards and assertions are evaluated again", SIM + " simulate, get_transition_simulate")],
     "seeded search over histories of edits and runs; oracle: the same run of a new scenario without incremental in a pristine process")
prop("P12", "Incremental verification is as sound as verification from scratch",
     "With incremental=True, verifying a scenario again after its decision logics, assertions, initial sets, horizon or time step were changed gives a tree which starts at the current initial sets, contains every behaviour of the current scenario, reports every reachable assertion violation, and whose branches and reported violations are backed by its tubes and the current decision logic. Trees returned earlier stay as they were.",
     HIST_OVER, "all generated scenarios, all histories of edits, initial sets (inside, around, overlapping, apart from earlier ones), horizons, time steps, segment lengths; sequential and parallel under any schedule with worker crashes",
     "no test uses the incremental mode; whether reuse is right depends on which runs came before",
     [INC, VER], [("cached tubes and checked tubes", INC + " TubeCache, ReachTubeCache"), ("use of cached tubes and transitions", VER + " check_cache_bloated_tube, calculate_full_bloated_tube, compute_full_reachtube_step")],
     "seeded search over histories of edits and verifications; oracles: an independent executor of the current decision logic and interval evaluation over the tubes of the new tree")
prop("P15", "Changing the configuration of a scenario acts like creating it that way",
     "After the configuration of a scenario is changed (parallel or sequential, look-ahead windows, segment length of initial sets, going on after violations), its runs give what a new scenario created with that configuration gives, in any order of changes and runs.",
     HIST_OVER, "all sequences of configuration changes and runs of generated scenarios, sequential and parallel under any schedule",
     "the tests create one scenario per configuration",
     [SCN], [("update_config", SCN + " update_config")],
     "seeded search over histories of configuration changes and runs; oracle: a new scenario with the final configuration in a pristine process")

NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))
