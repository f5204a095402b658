"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [f if "/" in f and not f.startswith("lib/") else "task_models/" + f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook}})


prop("C01", "A POMDP object is always a well-formed stochastic model",
     "Building a POMDP succeeds exactly when the transition, observation, reward and start arrays have mutually consistent shapes, every transition row, observation row and the start belief is a probability distribution (non-negative, summing to one), names are unique and the discount lies in [0, 1]; every other description is rejected with a ValueError. "
     "An accepted model exposes exactly the given names (or 0..n-1 when none are given) and arrays, costs being stored as negated rewards, and randomising a model leaves every transition and observation row a distribution in which every outcome is possible, and changes neither the arrays it was built from nor other models.",
     ["inputs", "configurations"],
     "for all array shapes, contents, single- and multi-point corruptions of a valid model, name lists, discounts, value conventions and randomisation levels",
     "The tests build three fixed models and a couple of bad ones; the stable suite cannot even construct a POMDP because the solver binary is absent. A corruption in one row of one action among thousands is never sampled.",
     ["lib/pomdp.py", "lib/utils.py"],
     [("POMDP constructor validation", "POMDP.__init__, _assert_shapes, _assert_normal, _assert_unique"), ("randomize", "POMDP.randomize")],
     observe=["POMDP(...)", "POMDP.states/actions/observations/T/O/R/start/discount"])

prop("C02", "Belief tracking is exact Bayesian filtering",
     "For every model, belief, action and observation, the updated belief equals the Bayes posterior over next states given that action and observation, is a probability distribution, and does not alter the model or the prior belief. "
     "An update is refused with Impossible exactly when the observation has probability zero after that action from that belief; an exact belief object's successor agrees with the model's update and equal beliefs compare and hash equal.",
     ["inputs", "histories"],
     "for all POMDPs (including sparse, deterministic and near-impossible ones), beliefs and action/observation histories",
     "Existing belief-update tests cannot run without the solver and use one 2-state model; they never explore long histories, sparse models or impossible observations.",
     ["lib/pomdp.py", "lib/belief.py"],
     [("belief_update", "POMDP.belief_update"), ("ArrayBelief.successor/sample/eq/hash", "lib/belief.py")],
     observe=["POMDP.belief_update", "ArrayBelief"])

prop("C03", "The simulator samples from the model it is given",
     "Every simulated step of an explicit model returns a next state of positive transition probability, an observation of positive probability for the action and that next state, and exactly the reward the model assigns to that (action, state, next state, observation); every simulated start has positive start probability. "
     "Over repeated simulation the joint frequencies of next state and observation, and of start states, converge to the model's probabilities, and reseeding reproduces the same trajectory.",
     ["inputs", "histories"],
     "for all POMDPs, states and actions, and all random streams",
     "Distributional correctness cannot be asserted from a handful of draws; tests draw a few samples of one model.",
     ["lib/pomdp.py", "lib/belief.py"],
     [("sample_transition / sample_start", "POMDP.sample_transition, POMDP.sample_start"), ("belief sampling", "ArrayBelief.sample")],
     observe=["POMDP.sample_transition", "POMDP.sample_start"])

prop("C04", "The exported solver file denotes the same model",
     "The text produced for the external solver, read by an independent reader of the POMDP file format, describes the same model: the same names or counts, the same discount, and the same start, transition, observation and reward numbers up to the printed precision. "
     "Every printed probability is in [0, 1] and every printed distribution sums to one, whatever the size of the model.",
     ["inputs", "configurations"],
     "for all models (names or counts, reward or cost, any number of states/actions/observations, dense, sparse and very fine probabilities)",
     "One golden file for a single 2x3x2 model is compared textually; rounding compensation and section ordering on other shapes and sizes are never exercised.",
     ["lib/pomdp.py"],
     [("dump", "POMDP.dump, dump_to"), ("rounding compensation", "_dump_1d_array")],
     observe=["POMDP.dump", "POMDP.dump_to"])

prop("C05", "Saved models and policies reload to equals",
     "Saving a model or a policy graph as JSON (string or file) and loading it back yields an object with the same names, numbers, transitions, value vectors, initial node and discount, that behaves identically on every query. "
     "Saving never changes the object saved, and the text is valid JSON.",
     ["inputs", "histories"],
     "for all models and policy graphs, with or without unreachable observations, default or explicit names, through any number of save/load cycles",
     "Tests round-trip at most one small object.",
     ["lib/pomdp.py", "lib/utils.py"],
     [("model JSON", "POMDP.to_dict/from_dict/as_json/save_as_json"), ("policy JSON", "GraphPolicy.to_dict/from_dict/to_json")],
     observe=["POMDP.from_json", "GraphPolicy.from_json", "load_from_json"])

prop("C06", "Solving loads exactly the solver's policy or raises, and leaves nothing behind",
     "Solving hands the external solver a file describing this model together with exactly the requested time limit, horizon, seed and method options, and returns a policy graph whose actions, value vectors and successor nodes are those the solver wrote, starting at the node of highest value for the start belief. The solver run is the first found in the directories given (absolute or relative), and a model for which there is none is refused. "
     "If the solver fails, writes nothing, or writes truncated, mismatched or out-of-range output, solving raises instead of returning a policy; whatever happens no temporary file remains.",
     ["inputs", "fault_sequences", "configurations"],
     "for all models, option combinations and solver outcomes: normal output, non-zero exit, missing or truncated output, mismatched action lists, out-of-range actions or successors, value vectors of the wrong dimension, blank lines, policies without transitions",
     "The solver binary is not installed where the tests run, so no solving path is exercised; two sample result files are the only parser inputs.",
     ["lib/pomdp.py", "lib/py23.py"],
     [("solver invocation", "POMDP.solve"), ("result parsing and validation", "POMDP.load_policy_from, parse_value_function, parse_policy_graph"), ("temporary directory", "lib/py23.py TemporaryDirectory")],
     observe=["POMDP.solve", "POMDP.load_policy_from", "parse_value_function", "parse_policy_graph", "stand-in solver argv"])

prop("C07", "Policy-graph execution follows the graph and the tracked belief",
     "A policy-graph runner always offers the action of its current node and moves only along the graph's edge for the observation received; an observation for which the graph has no edge raises Impossible and leaves the runner where it was. "
     "The belief-tracking runner's belief is always the Bayes posterior of its history and its action is the one of greatest value at that belief; the trajectory trees and the visited-belief graph it exports contain exactly the possible observations, each leading to the node and belief the runner would reach, and reset returns to the start.",
     ["inputs", "histories"],
     "for all models and policy graphs, all observation sequences (including impossible ones), all trajectory horizons and visit bounds",
     "Only a 2-state model with a fixed policy is tried, and only where the solver is installed.",
     ["lib/pomdp.py"],
     [("graph runner", "GraphPolicyRunner"), ("belief runner", "GraphPolicyBeliefRunner.step/reset/trajectory_tree/visit"), ("belief merging", "_Aux")],
     observe=["get_action", "step", "reset", "trajectory_tree", "trajectory_trees_from_starts", "visit"])

prop("C08", "Role-assignment POMDPs encode the task's execution semantics",
     "For every hierarchical task built from sequences, alternatives and parallels and every option setting, the generated collaboration model is a valid POMDP whose transitions follow exactly the task: work on a subtask can only complete into the subtasks the hierarchy allows next (or the end), with the probabilities given by the human/robot durations and failure parameters, alternatives being entered uniformly. "
     "Observations and costs are exactly those documented for waiting, acting, asking and telling (error, none, yes, no, done; durations, intrinsic costs, end and subtask rewards), independent of where the subtask sits in the hierarchy.",
     ["inputs", "configurations"],
     "for all task trees of sequence/alternative/parallel nodes, all durations and probabilities and all combinations of deterministic / structured / loop / reward-state / subtask-reward options",
     "Tests check three hand-computed trees with default options, and cannot run where the solver is missing; nesting and option combinations are unexplored.",
     ["task_to_pomdp.py", "task.py", "stool_scenarios.py"],
     [("leaf dynamics", "task_to_pomdp.py _LeafToPOMDP"), ("composition", "_SequenceToPOMDP, _AlternativesToPOMDP"), ("end state", "HTMToPOMDP.update_T_end/update_R_end")],
     observe=["HTMToPOMDP.task_to_pomdp"])

prop("C09", "Bring-next POMDPs encode the task's execution semantics",
     "For every hierarchical task over objects and every option setting, the generated bring-next model is a valid POMDP in which fetching the object of the current step is the only way to advance and leads exactly to the steps the hierarchy allows next, while every other action leaves the step unchanged. "
     "Answers, errors, costs and end rewards are the documented ones and, when looping, completing the task returns to the initial steps as a fresh start would distribute them; the tower and hold-and-release scenarios are instances with the documented structure.",
     ["inputs", "configurations"],
     "for all task trees over any assignment of objects to steps (shared and unused objects included), all costs, discounts, and loop / no-answer options, all tower sizes",
     "A handful of fixed trees is checked and only where the solver binary exists.",
     ["bring_next_to_pomdp.py", "tower_problem.py", "hold_and_release.py", "task.py"],
     [("leaf dynamics", "bring_next_to_pomdp.py _LeafToPOMDP"), ("composition", "_SequenceToPOMDP, _AlternativesToPOMDP"), ("end state", "HTMToPOMDP.update_T_end/update_R_end"), ("towers", "TowerProblem"), ("hold and release", "hold_and_release_pomdp")],
     observe=["HTMToPOMDP.task_to_pomdp", "TowerProblem.vertical_horizontal_task", "hold_and_release_pomdp"])

prop("C10", "Expanding a hierarchical task preserves its execution orders",
     "Replacing a parallel combination by its alternative of sequences denotes exactly the same set of execution orders (every interleaving of whole children once, each child's own structure and action attributes kept, all leaf names distinct), and flattening a task into the step graph used by the supportive simulator generates exactly the orders of the hierarchy. "
     "Copies are independent and equal in structure, names, flags, probabilities and action attributes, and neither copying nor expanding changes the original; alternative probabilities are accepted exactly when they form a distribution and are kept.",
     ["inputs"],
     "for all trees of sequence/alternative/parallel nodes with every action class, any rename format and any probabilities",
     "Tests cover two or three trees of fixed shape; the number of trees and permutations is unbounded.",
     ["task.py", "supportive.py", "task_to_pomdp.py", "bring_next_to_pomdp.py"],
     [("to_alternative", "ParallelCombination.to_alternative"), ("deep_copy", "*Combination.deep_copy, Action.copy"), ("flattening", "supportive.py _HTMToDAG"), ("probabilities", "AlternativeCombination.proba")],
     observe=["to_alternative", "deep_copy", "SupportivePOMDP.htm_nodes/htm_succs/htm_init"])

prop("C11", "The supportive-robot simulator follows the documented human-robot process",
     "Every step of the supportive simulator returns a next state, observation and reward allowed by the documented process: task progress only on wait or a suitable hold and only to a successor of the current step, objects consumed, used or brought as the step requires, holding / asking / bringing / clearing answered and rewarded as specified, cleaning then a final absorbing state. "
     "With randomness disabled the objects (except which supplies a step uses up), preference, observation and reward follow deterministically, with randomness enabled outcome frequencies match the documented probabilities, starts are initial steps with preferences drawn at their rate, and each simulated step is counted once.",
     ["inputs", "histories", "configurations"],
     "for all tasks, object sets, states, actions, parameter settings and random streams",
     "Tests force a few transitions on one four-leg task; the state space is exponential in the objects and the process stochastic.",
     ["supportive.py"],
     [("sample_transition", "SupportivePOMDP.sample_transition"), ("conditions", "SupportivePOMDP._update_for_condition"), ("sample_start", "SupportivePOMDP.sample_start"), ("action tables", "SupportivePOMDP._init_object_actions_indices")],
     observe=["SupportivePOMDP.sample_transition/sample_start/actions/observations/is_final"])

prop("C12", "Supportive states encode and decode without interference",
     "State numbers and (step, preferences, body features, objects) descriptions are in one-to-one correspondence over exactly the model's states; setting one feature changes that feature and nothing else, and a copy is equal to and independent of its original, finality and state count included. "
     "Marginalising a belief over steps or preferences sums exactly the probability of the states having that feature.",
     ["inputs", "histories"],
     "for all numbers of steps, preferences, body features and objects, all states, and all sequences of feature writes",
     "Tests read and write a few features of one layout with at most one preference.",
     ["supportive.py"],
     [("bit packing", "_SupportivePOMDPState"), ("marginals", "belief_quotient, belief_preferences")],
     state=[("s", "integer packing objects | body | preferences | step", "_SupportivePOMDPState")],
     observe=["to_int", "has_*/set_*", "htm", "copy", "belief_quotient", "belief_preferences"])

prop("C13", "The search tree's statistics are exactly the simulations that were run",
     "After any amount of planning, every visit count and value estimate in the search tree equals what the recorded sequence of simulated transitions implies: each simulation contributes its discounted return once to each node on its path, simulated states are drawn from the belief of the node searched from, and the visits of a node are conserved between parents and children. "
     "Planning never exceeds its simulation budget and a node's statistics are kept when it becomes the current node.",
     ["histories", "inputs", "configurations"],
     "for all models, horizons, exploration settings, rollout counts, belief types, discounts, budgets, and interleavings of planning and stepping",
     "Tests check a few counters after a handful of simulations; a mis-discounted backup or double update only shows against the full trace.",
     ["lib/pomcp.py"],
     [("simulation and backup", "_SearchTree._simulate_from_node"), ("rollouts", "_SearchTree.rollout_from_node"), ("running average", "_ValueAverage.update")],
     observe=["POMCPPolicyRunner.get_action/step", "tree.to_dict", "model.sample_transition trace"])

prop("C14", "Action choice is UCB during search and greedy when acting",
     "While searching, an action never tried from a node is tried before any tried action is repeated, and otherwise the action chosen maximises value plus the exploration bonus (scaled by the value spread in relative mode). "
     "The action returned to the user is always a legal action of the highest estimated value at the current node once every action has been tried, and exploration settings never change estimates.",
     ["histories", "inputs", "configurations"],
     "for all models, exploration constants, relative or absolute, budgets, and tree states reached by planning",
     "Tests inspect one or two hand-made nodes; the choice interacts with every statistic of the tree.",
     ["lib/pomcp.py"],
     [("get_best_action / augmented_values", "_SearchObservationNode"), ("final choice", "POMCPPolicyRunner.get_action")],
     observe=["POMCPPolicyRunner.get_action", "tree.to_dict", "simulated action trace"])

prop("C15", "The online planner tracks the belief of the real history",
     "With exact beliefs, the planner's belief is always the Bayes posterior given the actions it returned and the observations it was given; an impossible or unknown observation raises and leaves history, belief and position unchanged, stepping before acting is refused, and reset returns to the start belief with an empty history while keeping what was learnt. "
     "With belief sharing, histories of equal belief share one node and histories of different beliefs never do. Unknown kinds of belief or horizon, and sharing of particle beliefs, are refused.",
     ["histories", "inputs"],
     "for all models, action/observation histories, resets and failures interleaved with planning",
     "Tests follow one or two steps.",
     ["lib/pomcp.py", "lib/belief.py"],
     [("step / reset", "POMCPPolicyRunner.step, _reset"), ("node lookup", "_SearchTree.get_node"), ("belief sharing", "_ObservationLookupSearchTree")],
     observe=["POMCPPolicyRunner.belief/history/step/reset"])

prop("C16", "Particle beliefs are fixed-size samples of the posterior",
     "A particle belief always holds exactly the requested number of particles, each a possible state given the history, and its distribution is the particles' empirical frequencies; over repetitions these frequencies converge to the Bayes posterior. "
     "Updating draws a bounded number of simulator samples, succeeds by reusing the particles found if at least one was found, and raises the dedicated error only when none was found, leaving the previous belief untouched.",
     ["inputs", "histories", "fault_sequences"],
     "for all models, particle counts, observations from likely to impossible, and histories",
     "Tests use one model and likely observations; sample exhaustion and statistical bias are not reached.",
     ["lib/belief.py", "lib/pomcp.py"],
     [("population and duplication", "ParticleBelief._populate"), ("rejection sampling", "_SuccessorSampler")],
     observe=["ParticleBelief.array/sample/successor", "MaxSamplesReached"])

prop("C17", "Background planning is race-free and always stops",
     "With the background-planning runner, under any interleaving of exploration with stepping, acting and resetting, the planner behaves as some sequential execution would: the current node is always the one reachable in the shared tree by the real history, statistics are never lost or corrupted, actions are legal and the belief is that of the history. "
     "A background simulation starts from the current node (while a step or reset is in progress, from the one before or after it), free in its first action or limited to the action last chosen at that node. Work submitted for exclusive execution never overlaps exploration and its result is returned; stopping always terminates the background work and nothing is simulated afterwards.",
     ["schedules", "histories"],
     "for all interleavings of the exploring thread with step, get_action, reset, execute and stop",
     "No test runs the asynchronous runner; races need particular interleavings that only forced delays expose.",
     ["lib/pomcp.py"],
     [("lock", "AsyncPOMCPPolicyRunner._Thread.execute/run"), ("stop", "AsyncPOMCPPolicyRunner.stop"), ("step/reset/get_action", "AsyncPOMCPPolicyRunner")],
     state=[("tree", "search tree shared by both threads", "AsyncPOMCPPolicyRunner.tree"), ("node/action", "where the explorer simulates from", "_Thread")],
     observe=["AsyncPOMCPPolicyRunner API", "model simulator calls per thread"])

prop("C18", "Horizons bound every simulation exactly",
     "Every planning simulation and evaluation runs for exactly as many transitions as its horizon allows: a transition horizon stops after n steps, a task horizon after n task-step changes or on completion, a finished-or-n horizon after n steps or on completion. "
     "Copies of a horizon are equal to and independent from the original at any point, and every horizon drawn from a generator is fresh.",
     ["inputs", "histories", "configurations"],
     "for all horizon kinds and lengths, transition sequences and copy points, and all simulations run by the planner",
     "Tests decrement a fresh horizon a few times and never copy one midway.",
     ["lib/pomcp.py", "supportive.py", "evaluation.py"],
     [("NTransitionsHorizon", "lib/pomcp.py"), ("NHTMHorizon", "supportive.py"), ("FinishedOrNTransitionsHorizon", "evaluation.py")],
     observe=["is_reached/decrement/copy/generator", "lengths of simulations in the simulator trace"])

prop("C19", "Exported planner trees are faithful, valid JSON",
     "Exporting the search tree (as action values, as a policy, or with beliefs grouped by task step) produces valid JSON in which every node's visits, value, belief, action, labels and children are those of the tree, each child labelled with the observation or action that leads to it and its position or index among the model's observations. "
     "Exporting never changes what the planner would do next, and terminates for shared-belief trees too.",
     ["histories", "inputs", "configurations"],
     "for all trees grown by planning, both belief types, shared or unshared nodes, and all export modes",
     "Tests compare two small hand-made trees.",
     ["lib/pomcp.py", "lib/utils.py"],
     [("to_dict", "_SearchObservationNode.to_dict, _SearchActionNode.to_dict"), ("export", "export_pomcp"), ("trajectory trees", "trajectory_trees_from_starts")],
     observe=["tree.to_dict", "trajectory_trees_from_starts", "export_pomcp"])

prop("C20", "A task graph accepts exactly the paths it should",
     "A sequence is accepted as a path exactly when it alternates states and actions, starts and ends with a state, and every action's check admits its surrounding states, whatever its length; adding a valid path makes it a member, keeps earlier members, and adding an invalid one raises and changes nothing. "
     "A path is a member exactly when it starts in a recorded initial state, ends in a recorded terminal state and uses only recorded transitions, and the non-determinism check raises exactly when some state has one action leading to two states.",
     ["inputs", "histories"],
     "for all path sets, path lengths (thousands of transitions included), malformed paths and orders of insertion",
     "Tests use paths of at most a few steps.",
     ["task.py", "action.py"],
     [("check_path", "task.py check_path"), ("add_path / has_path", "TaskGraph"), ("determinism check", "TaskGraph.check_only_deterministic_transitions")],
     observe=["check_path", "TaskGraph.add_path/has_path/all_transitions"])

prop("C21", "The conjugate graph is exact",
     "For every deterministic task graph, the conjugate graph has exactly one transition from the initial marker to each action available in an initial state, one from each action to each action available in the state it leads to, and one to the terminal marker for each action leading to a terminal state, each labelled by the intermediate state, and nothing else. "
     "Hence every accepted path with at least one action reads as a marker-to-marker walk with its labels; non-deterministic graphs are refused and the source graph is untouched.",
     ["inputs"],
     "for all task graphs, including single-state paths, terminal states with outgoing transitions, initial states that are terminal, and cycles",
     "Two fixed graphs are tested.",
     ["task.py"],
     [("from_task_graph", "ConjugateTaskGraph.from_task_graph")],
     observe=["TaskGraph.conjugate", "all_transitions"])

prop("C22", "Cliques and chains found are exactly the maximal ones",
     "The cliques reported for a graph are exactly its maximal sets of at least two pairwise mutually connected nodes, each reported once. "
     "The chains reported are, for an initial marker without predecessors, exactly the maximal paths of at least two nodes, reachable from the initial marker, in which each node is the only successor of the previous one and has no other predecessor, each reported once; both searches terminate on every graph and leave it unchanged.",
     ["inputs"],
     "for all directed graphs, including cycles, self-loops, parallel transitions, unreachable parts and the empty graph, and all set iteration orders",
     "Tests compare a few small graphs; results depend on hash order.",
     ["task.py"],
     [("cliques", "max_cliques, _bron_kerbosch, ConjugateTaskGraph.get_max_cliques"), ("chains", "ConjugateTaskGraph.get_max_chains")],
     observe=["max_cliques", "get_max_cliques", "get_max_chains"])

prop("C23", "Graph edits and compaction keep exactly the right transitions",
     "After any sequence of additions, removals and compactions, the transitions and nodes a graph reports are exactly those the sequence implies: compaction redirects every transition between the group and the outside to the new node, drops inner ones and leaves all others, and markers follow the group that absorbs them. "
     "Two graphs with the same content compare equal however they were built, and the dictionary export lists every node and transition once with consistent identifiers; actions grouped into a meta-action convert back to the combination they name.",
     ["histories", "inputs"],
     "for all edit sequences on all graphs, all groups of nodes (markers included) and all nestings of meta-actions",
     "Tests perform one or two edits.",
     ["task.py"],
     [("edits", "BaseGraph.add_transition/remove_transition/compact"), ("export", "BaseGraph.as_dictionary"), ("meta-actions", "MetaAction.to_combination")],
     observe=["has_transition", "all_transitions", "all_nodes", "as_dictionary", "__eq__"])

prop("C24", "Equality and hashing agree for states, actions and conditions",
     "For every pair of states, conditions, actions, parts or meta-actions of the library, equality is reflexive, symmetric and transitive, never raises, and equal objects always hash equally, so that sets, dictionaries and graphs treat equal objects as one. "
     "Objects differing in the identity they represent (features, mask or value, pre/post-condition, name, kind and members, parts and board) are never equal.",
     ["inputs"],
     "for all pairs and triples of objects across classes, however they were constructed (construction order, numeric type, signed zeros)",
     "Tests compare a few hand-built objects of one class at a time.",
     ["action.py", "state.py", "task.py", "snap_circuit.py"],
     [("__eq__ / __hash__", "action.py, state.py, task.py, snap_circuit.py")],
     observe=["==", "hash()", "set/dict membership"])

prop("C25", "Repeated parallel evaluation returns exactly one result per run or fails",
     "Repeating a function n times in worker processes returns exactly n results, each produced by one distinct run of the function with its own random stream; whether it returns or raises, the call leaves no worker behind; a seeded caller gets the same multiset of results every time. "
     "If any run raises or its process exits abnormally before delivering its result, an exception is raised instead of a partial list, and the call always terminates.",
     ["schedules", "fault_sequences", "inputs"],
     "for all repetition counts, run durations, completion orders, result sizes and worker failures (exceptions, exits, signals) at any run",
     "Tests repeat a quick function a few times at most; failures, large results and completion orders are not exercised.",
     ["utils/multiprocess.py"],
     [("pool loop", "RepeatPool.run/_clean/_fill/_clean_job"), ("seeding", "RepeatPool._start_or_None/work")],
     observe=["repeat(func, n)", "child processes", "per-run log files"])

prop("C26", "Evaluation reports describe the episode that was simulated",
     "An evaluation episode starts in a sampled start state, chains each state, action, observation and reward exactly as simulated, tells the policy every observation, stops at the final state or the step limit and not before, and counts exactly the simulator calls made; its reported return is the discounted sum of its rewards in order. "
     "Repeated evaluation and experiment runs produce the requested number of such episodes, and the result file is valid JSON holding the same values. The log of a trajectory that a planner plays by itself shows each simulated transition, the planner's belief after it and the total of the rewards.",
     ["histories", "inputs", "configurations"],
     "for all models, policies, discounts, step limits and random streams",
     "No test covers the evaluation module at all.",
     ["evaluation.py", "utils/multiprocess.py", "lib/utils.py"],
     [("episode loop", "simulate_one_evaluation"), ("experiment", "SupportiveExperiment.run/write_result"), ("repeat", "evaluate")],
     observe=["simulate_one_evaluation", "evaluate", "SupportiveExperiment.run", "result JSON"])

prop("C27", "The scripted supportive policy completes the task",
     "Against any admissible sequence of observations, the scripted policy only offers legal actions: it first brings every tool, then for each step brings a leg and supports the step, then clears every tool and finally waits, repeating an action until it succeeded and never skipping or repeating a phase otherwise. "
     "Observations that are unknown, answers to a question that was not asked, and a missing part when supporting raise, reset restarts the script, and on the simulator the script brings the task to its final state once steps and clean-up succeed.",
     ["histories", "fault_sequences"],
     "for all observation sequences (failures and not-found at any point), numbers of steps, and resets at any time",
     "No test covers the scripted policy.",
     ["policy.py", "supportive.py"],
     [("script", "PolicyLongSupportiveSequence.get_action/step/reset")],
     observe=["get_action", "step", "reset", "history"])

prop("C28", "Hierarchical task files load to the task they describe",
     "Loading a task description file yields a hierarchy with exactly the described nodes: same structure, names, kinds, identifiers, parents, highlighting and acting agents, for every task file in the current format shipped with the repository and for every exported hierarchy, whose file keeps its structure, names, kinds, highlighting and acting agents. "
     "Looking up a node's parent by identifier, a node by a part of its lower-cased name, or the human's next action (a leaf of the human with a greater identifier) returns the first match among the descendants in depth-first order, or nothing when there is none, without altering the hierarchy.",
     ["inputs"],
     "for all task files and hierarchies (leaves with or without agents, highlighted nodes, any identifiers and nesting) and all queries",
     "No test loads any file; lookups are untested.",
     ["json_to_htm.py", "task.py"],
     [("import", "build_htm, json_to_htm"), ("export", "as_dictionary"), ("lookups", "HierarchicalTask.find_parent_node/find_next_human_action/find_node_by_name")],
     observe=["json_to_htm", "as_dictionary", "find_*"])

prop("C29", "Snap-circuit features and conditions reflect the board",
     "A board state's feature vector has a one exactly for each placed part at its location and orientation and zeros elsewhere, is the same whatever order parts were listed in, and cannot be altered through the parts it exposes. "
     "A presence (absence) condition holds exactly on boards where that part is (is not) at that location, a placing action is admitted exactly between boards without and with it, and generic conditions hold exactly when the masked features equal their value, conditions with masked-out values being refused.",
     ["inputs"],
     "for all boards, part sets, locations, orientations, masks and values",
     "Tests use a single small board.",
     ["snap_circuit.py", "action.py", "state.py"],
     [("features", "SnapCircuitState.features"), ("conditions", "PartPresenceCondition, Condition.check"), ("placing", "PlaceAction")],
     observe=["get_features", "Condition.check", "PlaceAction.check"])

prop("C30", "Seeded runs are reproducible in every process",
     "With numpy's global random generator seeded, every use of the library (building, converting, expanding and exporting models and tasks, simulating, filtering, planning with every kind of belief, running policies, evaluating) gives the same results in every run and every process. "
     "Results do not depend on the interpreter's hash seed, the environment, the working directory or what was done before in the process; only measured times and the order of results from concurrent workers may vary.",
     ["configurations", "histories"],
     "for all models, tasks and settings, hash seeds, environments and previous uses in the same process",
     "Tests run in one process with one hash seed and never compare two runs.",
     ["lib/pomdp.py", "lib/pomcp.py", "lib/belief.py", "supportive.py", "task.py", "task_to_pomdp.py", "bring_next_to_pomdp.py", "evaluation.py", "policy.py", "utils/multiprocess.py"],
     [("random choices", "np.random in sample_*, get_best_action, rollouts, ParticleBelief, PolicyLongSupportiveSequence"), ("order of states, steps and actions", "HTMToPOMDP, SupportivePOMDP, to_alternative")],
     observe=["all public operations"])

prop("C31", "Independent uses of the library do not interfere",
     "Planners, policy runners, horizons, simulations, evaluations and conversions that are separate objects behave as if each were alone, however their calls are interleaved, even when they use the same model object (whose only shared state is its counter of simulator calls). "
     "Creating or using one object never changes defaults, options or results of another.",
     ["histories", "schedules"],
     "for all sets of objects, shared or separate models, and interleavings of their calls in one thread",
     "Tests use one object at a time; state shared through defaults, classes or caches only shows when two uses alternate.",
     ["lib/pomdp.py", "lib/pomcp.py", "lib/belief.py", "supportive.py", "task.py", "evaluation.py", "policy.py"],
     [("per-object state", "POMCPPolicyRunner, _SearchTree, ParticleBelief, Horizon._Generator, GraphPolicyRunner, PolicyLongSupportiveSequence"), ("defaults", "belief_params, node_params, class attributes of SupportivePOMDP")],
     observe=["all public operations"])

prop("C32", "Planning converges to the best action",
     "For every explicit model and transition horizon, the online planner with unshared exact or particle beliefs and an exploration weight of the order of the returns chooses, given enough simulations from a node not explored before, an action of (nearly) the greatest expected discounted return within that horizon for the node's belief, information gathered on the way included. "
     "The estimated value of the chosen action converges to that return.",
     ["inputs", "configurations"],
     "for all models with clearly different actions, discounts, horizons and beliefs",
     "Tests run a few simulations on one model and never compare with the optimum.",
     ["lib/pomcp.py", "lib/belief.py", "lib/pomdp.py"],
     [("search", "_SearchTree._simulate_from_node, rollout_from_node"), ("choice", "_SearchObservationNode.get_best_action")],
     observe=["POMCPPolicyRunner.get_action", "values of the children of the current node"])

prop("C33", "Progress, time and plot displays show the data they are given",
     "A progress bar shows done/todo as marks, percentage and counts, keeps its width, is printed once per step, ends its line when complete, and clearing it leaves an empty line; the elapsed time of a process is the time since it started whatever its length (days, hours). "
     "Belief and mesh plots show each value in its own cell with its row and column labels, average plots show the means and standard deviations of the rows, box plots the medians, on the axes asked for and without touching others; only the parts of the axes named are removed.",
     ["inputs", "configurations"],
     "for all data shapes and values, sizes, counts, labels, styles and process ages",
     "No test covers these modules.",
     ["plot.py", "utils/plot.py", "utils/term.py", "utils/multiprocess.py"],
     [("bars", "utils/term.py"), ("elapsed time", "get_process_elapsed_time"), ("plots", "plot_beliefs, plot_var, pcolormesh, boxplot, remove_chartjunk")],
     observe=["printed text", "matplotlib axes", "get_process_elapsed_time"])

prop("C34", "Hierarchies are recovered from demonstrations",
     "When a task alternating sequences and parallels is demonstrated by action sequences that together show every possible first and last action and succession, repeatedly compacting maximal chains into sequences and maximal cliques into parallels in the conjugate graph, until neither is left, always ends with a single meta-action holding both markers, whose hierarchy (nested same-kind groups merged, markers removed) is the demonstrated one, whatever the kind of states, the order of demonstrations and the choices among chains and cliques. "
     "Converted to a task it has no order that was not possible. Compacting chains, and whole parallels, keeps every demonstration readable as a walk from marker to marker, and the demonstrations themselves stay valid paths of the task graph.",
     ["inputs", "histories"],
     "for all such hierarchies, covering sets of demonstrations, state representations and orders of compaction",
     "Tests check conjugates, chains, cliques and compaction separately on two small graphs; no test extracts a hierarchy.",
     ["task.py", "state.py"],
     [("conjugate graph", "TaskGraph.conjugate"), ("compaction", "BaseGraph.compact / ConjugateTaskGraph.compact"), ("chains and cliques", "get_max_chains, get_max_cliques"), ("conversion", "MetaAction.to_combination")],
     observe=["graph nodes after each compaction", "kind and actions of the meta-action left", "orders of the converted task"])

prop("C35", "The sample scripts run and store what they compute",
     "From a clean checkout, from any directory, each script of samples/ that needs no job scheduler runs to completion. Scripts that solve a task pose to the solver the model of the announced task with the announced costs and options, fail without writing anything when the solver fails, and otherwise store in the visualization folder exactly the policy it returned, the trajectories of the beliefs under this policy from every start up to the horizon, and the graph of visited beliefs; those that plan online store the tree of the planner with the names and settings used; those that show graphs print the demonstrations and the hierarchy extracted from them, and plots show the values computed. No other file of the checkout is changed.",
     ["inputs", "configurations"],
     "for all answers of the solver, seeds, working directories and amounts of planning",
     "No test runs a script; several did not even start.",
     ["stool_scenarios.py", "tower_problem.py", "task_to_pomdp.py", "bring_next_to_pomdp.py", "lib/pomdp.py", "lib/pomcp.py", "plot.py", "snap_circuit.py", "task.py"],
     [("scripts", "samples/icra_scenario2pomdp.py, htm2pomdp.py, tower_scenario.py, pomcp.py, supportive.py, snap_circuit_scenarii.py, test_hierarchies.py, plot_exploration_term.py"), ("storing", "save_as_json, save_trajectories_from_starts, export_pomcp")],
     observe=["files of visualization/ after the script", "model file given to the solver", "printed text", "figures"])

prop("C36", "Visualization pages display exactly what is in the data they load",
     "The pages of visualization/, given a file written by the library or a message with a task, display exactly the data. For trees (tasks, trajectories, planners): each visible node once, with its name, attributes, combination and marks (initial, collapsed exactly when nodes below are hidden), siblings in order, and one link to each visible child, labelled with the observation leading to it. A click hides or shows what is below a node, refreshing or loading other data shows that data as if it were the first loaded, nothing of other data remains, and the whole task fits in the picture. Policies: one node per action, one arrow per transition with its observation ('done' ones hidden on demand), an error for transitions to missing nodes. Hovering a planner node shows its belief, values, values with exploration bonus, visits and the best of each. Nothing undefined is ever displayed.",
     ["inputs", "histories"],
     "for all tasks, policies, trajectories and planner trees the library exports, and all sequences of clicks, buttons, selected files, messages, zooms and drags",
     "No test runs the pages.",
     ["visualization/htm/htm.js", "visualization/htm-ros-subscriber/ros.js", "visualization/policy/policy.js", "visualization/pomcp/pomcp.js", "visualization/trajectories/trajectories.js"],
     [("task tree", "htm.js loadhtm, update, click, collapseLevel, scaletofit"), ("messages", "ros.js"), ("policy graph", "policy.js loadpolicy"), ("planner tree and tables", "pomcp.js update, displayValues"), ("trajectories", "trajectories.js update")],
     observe=["document after each action", "files requested"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
