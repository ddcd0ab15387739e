import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
PO="task_models/lib/pomcp.py"; BE="task_models/lib/belief.py"; PD="task_models/lib/pomdp.py"; MP="task_models/utils/multiprocess.py"; EV="task_models/evaluation.py"; SU="task_models/supportive.py"; PL="task_models/policy.py"; TP="task_models/task_to_pomdp.py"; BN="task_models/bring_next_to_pomdp.py"; TK="task_models/task.py"

p("C01","Background explorations and caller operations never interleave",
"While an asynchronous planner explores in the background, every simulation and every caller operation (choosing an action, stepping, resetting, running a function exclusively) takes effect as one indivisible unit, whatever the thread schedule. Each time the caller looks at the search tree exclusively, its visit counts and values are exactly those produced by the simulations that have completed, each counted once, none lost, none half applied. A function run exclusively hands its result or its exception back to the caller.",
["schedules","fault_sequences"],"all interleavings of the explorer thread with one or more caller threads at source-line granularity, with stalls and with simulator errors inside explorations",
"tests run the asynchronous runner once under whatever schedule the OS picks, and only look at it through execute(); no test can place a context switch inside a step or a simulation",
[PO],[("AsyncPOMCPPolicyRunner._Thread lock around explore/execute",PO),("AsyncPOMCPPolicyRunner.step/reset/get_action/execute",PO)],
["visit counts and values of tree nodes read inside runner.execute","order of model calls"],[("tree.root","search tree shared by explorer and callers",PO)])
p("C02","Background exploration follows the caller's position and commitment",
"Once step or reset has returned, every simulation the background explorer starts begins at the node of the caller's current history and is free to try any action first. Once an action has been chosen and returned, every background simulation starts at that same node and takes the returned action first, until the next step or reset; and exploration goes on for as long as the planner is neither stopped nor broken by its model.",
["schedules","histories"],"all interleavings of the explorer with every sequence of get_action, step, failed step and reset calls",
"the explorer's start node is a cross-thread variable: tests never observe which node a background simulation started from",
[PO],[("set_node / set_action executed under the explorer lock",PO),("simulate_from_node(node, action)",PO)],["node and first action of each simulation started by the explorer thread"])
p("C03","The background explorer can always be stopped and never blocks its caller",
"Stopping an asynchronous planner returns after a bounded number of explorations, whether or not the planner was stepped, reset or stopped before and whether or not its explorer has died of an error, and afterwards no exploration starts and the thread has ended; abandoning the planner ends its thread without raising. Every other caller operation also completes after a bounded number of explorations, with no deadlock, even when the simulated model stalls or raises inside an exploration.",
["schedules","fault_sequences","crash_points"],"all schedules, with stop called at any instant (including twice, concurrently, after the explorer died, or through object finalisation) and model errors at any simulator call",
"tests can only stop an idle healthy runner once; deadlock and lost-wakeup windows need a chosen schedule",
[PO],[("AsyncPOMCPPolicyRunner.stop/__del__ and _Thread.run",PO)],["thread liveness after stop","steps to completion of each call"])
p("C04","A rejected step leaves the policy runner exactly as it was",
"When a policy runner (tree search, asynchronous tree search, policy graph, policy graph with belief) is given an observation it cannot accept - unknown, impossible after the last action, not reachable by sampling, or because the model fails while updating - the call raises and the runner's history, belief, position and recommended behaviour are exactly those before the call. A later acceptable observation is then processed as if the rejected one had never been given.",
["histories","fault_sequences"],"every sequence of actions, valid and invalid observations and resets, with a model fault at any call made by step",
"tests check that an impossible observation raises, not the state left behind nor the next steps, and never make the model fail midway",
[PO,PD],[("history updated after get_node succeeds",PO),("GraphPolicyRunner.step, GraphPolicyBeliefRunner.step",PD)],["runner.history, runner.belief, current node","behaviour after recovery"])
p("C05","The runner's belief is the Bayesian posterior of its history",
"For a planner with exact beliefs, after any sequence of chosen actions, accepted observations and resets, its belief equals the Bayesian posterior computed from the model's transition and observation probabilities and the start distribution for exactly that history since the last reset, however much the tree has been searched (in the foreground or background), with or without sharing of nodes between histories. Observations of zero probability are always rejected, and observations produced by a real execution are never rejected and never leave the true state with zero belief. Histories share a node of the search exactly when sharing by belief is configured and their beliefs are equal.",
["histories","schedules","configurations"],"all action/observation/reset histories over random models, all amounts of interleaved search, shared or unshared nodes, synchronous or asynchronous",
"tests check one update on a fixed model; wrong sharing or creation of nodes during search only shows after particular histories",
[PO,BE,PD],[("_SearchTree.get_node",PO),("_ObservationLookupSearchTree node sharing by belief",PO),("ArrayBelief.successor / POMDP.belief_update",BE)],["runner.belief after each step and reset"])
p("C06","Particle beliefs are complete, consistent and built with bounded work",
"A particle belief always holds exactly the requested number of particles, each of them a state that the model's own simulator actually produced, from a particle of the previous belief, under the given action and together with the given observation (or drawn from the start distribution initially). Building one makes a bounded number of simulator calls: it keeps at least one freshly sampled particle or reports explicitly that none could be sampled, in which case no belief and no tree node is created and searching simply continues without that branch.",
["histories","inputs","fault_sequences"],"all action/observation histories including very rare and impossible observations, all random outcomes, model errors at any simulator call",
"tests use easy observations; the duplicate and give-up paths depend on rare sampling outcomes",
[BE,PO],[("ParticleBelief._populate and _SuccessorSampler budget",BE),("MaxSamplesReached handling in _simulate_from_node",PO)],["part_states versus the recorded simulator calls","number of simulator calls"])
p("C07","Search statistics are exactly the backed-up returns of the simulations",
"After any search, each tree node's visit count and value are the recency-weighted average of the discounted returns of precisely the simulations that passed through it: starting at the current node, following the model's sampled transitions within the horizon, adding one new node per simulation valued by the averaged rollout return. This holds for every horizon type, belief type, node sharing, number of rollouts and sequence of steps and resets, and a simulation aborted by a model error contributes nothing.",
["histories","configurations","fault_sequences"],"all random outcomes of search over random models and configurations, with model errors at any simulator call",
"tests only bound values or counts for a few fixed trees; no test recomputes the statistics from the sampled trajectories",
[PO,EV,SU],[("_simulate_from_node, rollout_from_node, _ValueAverage",PO),("Horizon classes",PO)],["visit counts and values of every node versus a reference tree fed with the recorded model calls"])
p("C08","Planning effort and action choice follow the stated search rule",
"Choosing an action from a runner runs exactly the requested number of simulations from the current node (the configured number when none is given) for synchronous and asynchronous planners alike, and then returns an untried action if there is one and otherwise an action of greatest current value. Within simulations every untried action of a node is tried before any action is repeated there, and otherwise the first action maximises the value plus the (absolute or relative) exploration bonus.",
["histories","configurations","schedules"],"all random outcomes, configurations, iteration counts, and interleavings with a background explorer",
"tests check best action on hand-built nodes; they cannot relate each of thousands of sampled decisions to the statistics at that instant",
[PO],[("get_action(iterations)",PO),("get_best_action / augmented_values",PO)],["first action of each simulation and returned action versus node statistics at that moment"])
p("C09","Repeated runs return exactly one result per requested repetition",
"Repeating a function n times over worker processes runs it exactly n times and returns exactly the n values those runs produced, none lost, duplicated or invented, for any finishing order, result size, delay in delivering results or number of processors. At no moment are there more running workers than processors, and no worker is left running when the call returns.",
["schedules","configurations"],"all worker durations, completion orders, result-delivery delays, pipe capacities, processor counts and n (including 0, and n below, equal to and above the processor count)",
"the repository has no test of the pool; real runs do not control when a worker exits relative to its result being delivered",
[MP],[("RepeatPool.run / _clean / _fill",MP)],["returned list versus values put by workers","number of live workers over simulated time"])
p("C10","A failing worker surfaces as an error instead of a short or hung result",
"If a worker process of a repeated run raises, exits abnormally or is killed by a signal at any point before its result is delivered, or cannot be started, the call raises an error within bounded time after the workers finish; it never returns a list with missing or wrong entries and never waits forever.",
["fault_sequences","crash_points"],"worker exception, non-zero exit, kill before, during or after posting the result, silent exit, and failure to start a process, for any subset of workers at any time",
"no test makes a worker fail; a crash at a given instant relative to the result queue cannot be arranged with real processes",
[MP],[("RepeatPool._clean_job exit code check and final collection",MP)],["outcome of repeat() and simulated time taken"])
p("C11","Every repetition is independently seeded and reproducible",
"The repetitions of a function run over worker processes each start from their own random seed drawn from the parent's random state, so two repetitions do not share a random stream, and the collection of results for a given parent seed is the same whatever the number of processors, the worker speeds, or the order in which they finish, with the parent's random state advancing by one draw per repetition.",
["schedules","configurations"],"all worker schedules and processor counts for each parent seed",
"schedule independence compares many executions under controlled schedules; no test exists for the pool",
[MP],[("per-worker np.random.seed from parent draws",MP)],["multiset of results across simulated schedules"])
p("C12","An evaluation record describes the episode that was really executed",
"Each evaluation of a policy on a model reports the states, actions, observations and rewards of one real closed-loop episode, in order: every action is the one the policy chose after seeing all earlier observations, every transition was sampled from the model, and the episode ends exactly on reaching a final state or the maximum horizon. The reported return is the sum of the rewards discounted by the model's discount to the power of their time step (undiscounted on request), and the reported number of simulator calls and elapsed time are those of that episode and process; repeating evaluations over processes returns one such record per evaluation.",
["histories","schedules"],"all random episodes, policies, models, discounts and horizons, and all worker schedules",
"there is no test of the evaluation module; it relates the record to the interaction that actually took place, through time and processes",
[EV],[("simulate_one_evaluation",EV),("FinishedOrNTransitionsHorizon",EV),("evaluate",EV)],["record returned versus log of policy and model calls"])
p("C13","A published experiment result is complete or recognisably absent",
"After an experiment run returns, the result file at its path reads back as exactly its parameters and all its evaluations; if warm-up, an evaluation, a worker process or the writing of the file fails at any point, the run raises, and no file that reads back as a valid result with missing or altered evaluations is ever left in place of the results. A run configured from a serialised parameter file uses exactly those parameters over the defaults.",
["crash_points","fault_sequences"],"failures of the model, policy, workers and of every file operation and byte written (short write, full disk, I/O error, crash)",
"there is no test; faults at chosen bytes of the output or chosen evaluations cannot be produced by ordinary tests",
[EV],[("SupportiveExperiment.run then write_result",EV),("ExpLauncher.get_results_from_one",EV)],["file content read back through the project's reader"])
p("C14","A solver run yields the solver's policy or an error, and leaves nothing behind",
"Solving a model with the external solver either returns a policy graph whose actions, transitions, values and start node are exactly those the solver wrote, or raises: if the solver exits with an error, is killed, or leaves output that is missing, cut short so that an entry is incomplete, or mutually inconsistent (action mismatch, action or node number out of range), the caller never receives a policy. In every case the temporary working directory is removed, and the solver is invoked with the requested seed, time limit, horizon and method.",
["fault_sequences","crash_points"],"solver exit status, signal, absence or truncation of either output file at any byte, inconsistent output, full disk when writing the input, for random models and options",
"the solver is absent here so its tests fail at baseline; none of them injects a solver failure",
[PD],[("POMDP.solve with subprocess.check_call in TemporaryDirectory",PD),("load_policy_from / parse_value_function / parse_policy_graph",PD)],["returned GraphPolicy or exception","contents of the temp root after the call"])
p("C15","The solver is given the same model that the program holds",
"The description handed to the external solver defines, under the solver's file format, the same states, actions, observations, discount, start distribution, transition and observation probabilities and rewards as the in-memory model, up to the printed precision, with every probability row non-negative and summing to one and rewards never expressed as costs. This holds for every model built or transformed by the program (reward or cost input, task-derived models, randomised models).",
["inputs","histories"],"all models reachable by construction, randomisation and conversion, read by an independent implementation of the format at the moment the solver process starts",
"tests compare two literal dumps; the reader on the other side of the process boundary is never exercised",
[PD],[("POMDP.dump / _dump_1d_array compensation",PD)],["model file as read by the simulated solver"])
p("C16","Saved models and policies load back identical or fail loudly",
"A model or policy saved to a file and loaded back in a later run is identical (same probabilities, rewards, discount, names, and same decisions for every observation history). If saving is interrupted by an I/O error, a full disk, a short or torn write or a crash at any byte, saving or loading raises; loading never returns anything but the object being saved or, where it was overwriting one, the object saved before.",
["crash_points","fault_sequences","inputs"],"every byte position and kind of write failure, for random models and policies, including overwriting an earlier save",
"tests round-trip a string in memory; nothing exercises the files or a failure while writing them",
[PD],[("save_as_json/load_from_json of POMDP and GraphPolicy",PD)],["loaded object versus saved object"])
p("C17","Supportive-task executions follow the task and end exactly when it is done",
"In every execution of the supportive-robot model, the sequence of subtasks performed is a legal ordering of the task (sequences in order, exactly one branch of an alternative, all members of a parallel in some order), followed by cleaning and then the final state, which is never left. The task position changes only on wait or an accepted hold, one subtask at a time, objects and preference change only through the acting rules or the modelled random changes, and every state stays within the declared state space.",
["histories","programs"],"all task trees, all action sequences and all random outcomes (changes by the human, failures, rare errors)",
"tests force a handful of transitions with randomness off; a rare random change combined with a task position is not reached",
[SU,TK],[("_HTMToDAG",SU),("SupportivePOMDP.sample_transition / sample_start",SU),("ParallelCombination.to_alternative",TK)],["state sequence of closed-loop executions against an independent enumeration of the task's words"])
p("C18","Supportive-task rewards and observations are those of the real event",
"For every transition of the supportive-robot model, the observation and reward are the ones prescribed for what actually happened: subtask, preference and final bonuses, hold and intrinsic costs, and object-fetching costs for each missing required (or left over, when cleaning) object, with failure, not-found, yes, no and none observations reported only in their situations. The simulator-call counter advances by exactly one per transition, and switching randomness off makes the outcome follow only the acting rules. Every object of the task can be brought, and cleared exactly when some subtask needs it without consuming it.",
["histories","programs"],"all task trees with and without preference correction, all states reached by executions, all actions and random outcomes",
"tests check individual rewards for the default task with randomness off",
[SU],[("SupportivePOMDP.sample_transition, _update_for_condition",SU)],["(state, action, next state, observation, reward) of every step against a relational specification"])
p("C19","The scripted supportive policy drives the task to completion",
"The scripted supportive policy brings every tool before the first subtask, brings a leg before each subtask, advances exactly when an accepted hold is observed, clears every tool afterwards and finally waits; failures are retried and never skip or repeat a stage, and observations it cannot explain are reported as such. In closed loop with the supportive model it reaches the final state within a bounded number of steps once random failures stop, and a reset restarts the whole script. Its history lists the actions and observations since the last reset.",
["histories","fault_sequences"],"all sequences of failures, not-found answers and unexpected observations, resets at any point",
"there is no test of the policy",
[PL],[("PolicyLongSupportiveSequence.get_action/step/reset",PL)],["sequence of actions against a reference automaton","steps to the final state after faults stop"])
p("C20","Executing a policy graph follows its edges, and beliefs stay consistent",
"A policy-graph execution performs, after any observation history since the last reset, exactly the action reached by following the graph's edges from its start (the given belief's best node, or the initial node), and the belief-tracking variant performs the best action for the exact Bayesian belief. Trajectory trees and visited-graph summaries contain exactly the possible observation histories with the beliefs, actions and successors that such executions would show, and computing them never depends on where the runner stood before.",
["histories","inputs"],"all observation histories (possible and impossible) and resets over random graphs and models",
"tests run a couple of fixed histories and are mostly failing at baseline because the solver is absent",
[PD],[("GraphPolicyRunner",PD),("GraphPolicyBeliefRunner.trajectory_tree / visit",PD)],["actions and beliefs along executions","trees and graphs returned versus replayed executions"])
p("C21","Human-robot task models execute the task they were built from",
"In every execution of the model built from a hierarchical task for human-robot collaboration subtasks are performed in a legal order of the task, each alternative having the same chance whoever performs the subtask before it, and the end is reached exactly when all are done, staying there (or restarting, or passing through the reward state, when so configured). A subtask is completed only by a robot action after the robot has the turn or by the human after the human has it, observations tell the truth about declared intentions and completion as configured, and rewards equal minus the durations and costs incurred, with the end reward collected only on waiting at the end (with the structured option, what it costs to tell an intention at a wrong moment is left open).",
["histories","programs","configurations"],"all task trees, option combinations, action sequences and random outcomes",
"tests compare a few matrices of fixed tasks; executions over arbitrary trees and options are not checked",
[TP],[("HTMToPOMDP.task_to_pomdp and node converters",TP)],["executions sampled from the built model against an independent task automaton"])
p("C22","Bring-next models execute the task they were built from",
"In every execution of the model built from a hierarchical task for bringing parts, fetching the part of the current step advances to a legal next step of the task and fetching any other part changes nothing and is reported as an error (unless it is the part that leads to the current step, where the report is mostly none); asking never changes the step and is answered truthfully (or, when silence is enabled, sometimes not at all). The end reward is collected exactly once per completion, after which the task restarts in a legal first step or stays ended as configured, and all costs are those configured (without a discount given, a task that ends is undiscounted and one that restarts is discounted).",
["histories","programs","configurations"],"all task trees, option combinations, action sequences and random outcomes",
"tests compare matrices of fixed small tasks",
[BN],[("HTMToPOMDP.task_to_pomdp and node converters",BN)],["executions sampled from the built model against an independent task automaton"])
p("C23","Demonstrations merge into the same task graph in any order",
"Recording a set of valid demonstrations from any number of demonstrators, in any arrival order and with any repetitions, yields the same task graph and the same conjugate graph: exactly the demonstrated states, actions, start and end states, and adjacency, with states that are equal always treated as one. Every recorded demonstration is then recognised, an invalid demonstration is rejected and changes nothing, and an ambiguous graph is reported when converted.",
["histories","schedules","fault_sequences"],"all arrival orders and interleavings of demonstrations, with malformed demonstrations injected anywhere, over snap-circuit and vector states",
"tests add one or two fixed paths in one order; equality and hashing of states built in different orders depend on set internals",
[TK,"task_models/snap_circuit.py","task_models/state.py","task_models/action.py"],[("TaskGraph.add_path/has_path/conjugate",TK),("SnapCircuitState.__hash__/__eq__","task_models/snap_circuit.py")],["graphs after each arrival versus a set model"])
p("C24","Reported process age equals the process's real age",
"The elapsed time reported for a process (the current one by default) equals its age on the system clock at the moment of the query, to the second, from less than a second to many days and across minute, hour and day boundaries, and if the process does not exist or the system query fails the call raises instead of reporting a time.",
["inputs","fault_sequences","schedules"],"all process ages under a simulated clock including jumps between the start and the query, and failures of the external query",
"real processes in tests are only seconds old, so minutes, hours and days never occur",
[MP],[("get_process_elapsed_time parsing of ps output",MP)],["returned duration versus simulated clock"])
p("C25","Hierarchy extraction finds exactly the maximal chains and cliques",
"From the conjugate graph of any set of demonstrations, extraction ends and yields exactly the non-trivial maximal chains and the non-trivial maximal cliques of interchangeable actions, each once, whatever the order in which the demonstrations arrived and in which sets happen to be iterated. Merging a chain or a clique into one meta-action leaves every connection between the other actions, and from and to the merged ones, as it was, any number of times. Meta-actions convert into the same nested combination of the demonstrated actions.",
["inputs","schedules"],"all finite conjugate graphs, with repeated actions and cycles, under all iteration orders of sets (hash values) and all sequences of merges",
"tests use a few fixed graphs under the one iteration order the interpreter happens to give them",
[TK],[("get_max_chains / get_max_cliques / max_cliques",TK),("compact",TK),("MetaAction.to_combination",TK)],["chains, cliques, graphs after merging and converted combinations versus an independent statement of them"])
p("C26","Inconsistent models are rejected, consistent ones always accepted",
"A model whose arrays have inconsistent shapes, negative, undefined or unnormalised probabilities, missing or duplicate names, or an undefined or out-of-range discount is rejected with an error when it is built, whether from arrays, from a description, from text or from a file damaged in any way while stored. A consistent description is always accepted and gives exactly the described model.",
["inputs","fault_sequences","crash_points"],"all descriptions of models and all damage to stored ones: lost, repeated, stale and exchanged records, flipped bits, digits and signs, saves cut at any byte",
"tests try a handful of malformed arguments and never load a damaged description",
[PD],[("POMDP._assert_shapes/_assert_normal/_assert_unique",PD),("POMDP.from_dict/from_json/load",PD),("assert_normal/assert_shape","task_models/lib/utils.py")],["model built, or error raised, versus an independent validation of the same description"])
p("C27","Task trees survive export, storage and copies; queries follow the tree",
"A hierarchical task read from its description - exported by the package or written by hand, through a storage that may fail at any byte - is exactly the described tree (structure, names, agents, highlights) or reading fails with an error, never another tree. Exports and copies preserve structure, names, highlights, agents and branch probabilities, number every node once with its right parent, share no node with the original and can be read back; branch probabilities of an alternative are accepted exactly when they are a distribution over its branches, and a refused assignment leaves the previous ones. Queries (parent, by name, next human action) always answer according to that structure.",
["inputs","histories","fault_sequences"],"all task trees, all sequences of navigation queries, storage faults at any byte of writing and at any read",
"tests check one or two fixed trees on a healthy disk",
[TK,"task_models/json_to_htm.py"],[("build_htm / json_to_htm","task_models/json_to_htm.py"),("as_dictionary / deep_copy / to_alternative / find_*",TK)],["trees read back, descriptions and answers versus an independent tree"])
p("C28","Equal conditions, actions, states and beliefs behave and hash identically",
"Conditions, actions (with conditions, placements of parts, abstract), meta-actions, states of demonstrations, parts and boards of the circuit, and beliefs exchanged between observers compare equal exactly when they stand for the same thing, whatever the array types and layouts, the order in which sets were filled, and whether they were copied or sent to another process; equal ones hash identically, so that sets and dictionaries keep one of each. Equal ones accept exactly the same states and transitions, those their conditions state. Conditions whose values do not fit their mask are rejected.",
["inputs","histories","schedules"],"all conditions, actions, meta-actions, states, parts and beliefs in all encodings, all arrival orders with duplicated and damaged messages, all states",
"tests check a few pairs built the same way",
["task_models/action.py",TK,"task_models/snap_circuit.py"],[("Condition/PrePostConditionAction __eq__/__hash__/check","task_models/action.py"),("MetaAction/AbstractAction __eq__/__hash__",TK)],["membership in sets and dictionaries, pairwise comparison, verdicts of check"])
p("C29","Pages show exactly what was exported, whatever happens to them",
"Whenever a page of the visualisations comes to rest it shows exactly the last document that was asked for: for tasks, searches and trajectories the nodes that are open, each once, with its own name, marks, combination, explanation and observation, linked to its own parts and no others; for policies every node, the start, and every transition with its observation (without those of 'done' when hidden) and the legend; for searches the beliefs, values, augmented values, visits and best action of the node that is pointed at, under their headings. What a click opens or closes, and the levels shown at first, depend on the clicks alone and not on when they fall. Late, failed or truncated answers, messages of the robot that are repeated, reordered or malformed, slow frames and stalls change nothing else. Transitions to nodes that do not exist are reported. The connection's state is the one that was last announced.",
["histories","schedules","fault_sequences","inputs"],"all exported documents and all histories of choices, clicks, drags, answers, messages and delays","there is no test of the JavaScript part",
["visualization"],[("loadhtm, update, click","visualization/htm/htm.js"),("loadpolicy","visualization/policy/policy.js"),("loadtrajectory","visualization/trajectories/trajectories.js"),("loadpomcp, displayValues","visualization/pomcp/pomcp.js"),("subscription","visualization/htm-ros-subscriber/ros.js")],["the drawing read back from the page versus the exported document and an account of what was opened and closed"])
p("C30","The exported search is the search, and exporting changes nothing in it",
"The dictionary or file exported from a planner after any amount of search, including during background exploration and after searches aborted by model errors, describes exactly the tree at that moment: every node's belief, value, visits, action values, exploration terms, best action, and for each branch the observation that leads to it. Grouped nodes are described once. Exporting or failing to save changes neither the tree nor later choices, and a save that fails raises an error.",
["histories","schedules","fault_sequences","crash_points"],"all searches (exact or particle beliefs, shared nodes, aborted simulations, background exploration), the full and the policy exports, and storage faults at any byte",
"tests export one small tree of a fixed model and look at a few keys",
[PO,"task_models/lib/pomdp.py"],[("_SearchObservationNode.to_dict / _SearchActionNode.to_dict",PO),("export_pomcp",PO)],["exported dictionary and file versus the live tree read through the exclusive function"])
p("C31","A supportive state is exactly its fields",
"A state of the supportive task is exactly its task position, preferences, body features and objects: after any sequence of writes, copies, conversions to integers and back, and random changes, by any number of holders, every field reads as last written, no write or change touches another field or another holder's copy, and equal fields mean equal integers within the declared number of states. Random changes flip each field independently at the given rate. A state is final exactly at the last position, and summaries of a belief over states are its marginals.",
["histories","inputs"],"all layouts and all interleaved programs of writes, copies, exchanges and random changes, and all beliefs over the states",
"tests set a few bits of one small state; mixing of fields shows only for particular layouts and sequences",
[SU],[("_SupportivePOMDPState fields packed in one integer",SU)],["fields and integer of every holder after every operation"])
p("C32","The hold-and-release model asks for a release exactly when the human is done",
"In every execution of the hold-and-release model the human finishes with the configured probability at each step, whatever the robot does; acting physically before that costs the configured failure and never ends the task, acting afterwards ends it at no cost, and nothing else does; the end is never left. Waiting is silent, and communicating or acting tells the truth about the human's progress. Costs are those configured at every step, undiscounted.",
["histories","configurations"],"all costs and speeds of the human, all robots, executions past the end",
"no test of the suite runs this model in closed loop",
["task_models/hold_and_release.py"],[("hold_and_release_pomdp","task_models/hold_and_release.py")],["states, observations and rewards of every step versus an independent automaton"])
p("C33","Random outcomes occur as often as stated",
"Every random outcome of a model, a belief or the planner has the probability stated for it: starts, next states and observations of matrix models, draws from exact and particle beliefs, particles of new beliefs and of their successors (Bayes' rule), and actions of roll-outs (all alike). In supportive tasks preferences, changes of each object and preference by the human, failures of actions and partial consumption occur independently at their configured rates, unneeded holds are seldom accepted, questions seldom go unanswered, and every subtask that may come first or next sometimes does; interleaving the use of several models changes nothing.",
["inputs","histories","configurations"],"all models and rates including 0 and 1, all states and actions, all interleavings of several sources of random outcomes, all seeds",
"a test sees one outcome or a few; frequencies and independence only show over many draws compared with an exact distribution",
[PD,BE,PO,SU],[("POMDP.sample_transition / sample_start",PD),("ArrayBelief.sample, ParticleBelief.sample, _SuccessorSampler",BE),("_SearchTree.random_action",PO),("SupportivePOMDP.sample_transition / sample_start",SU)],["frequency of every outcome, feature and pair of features versus the exact distribution"])
p("C34","A task graph is exactly the transitions it was given",
"After any program of additions, removals, added paths, mergings of nodes and copies (also to another process), a task graph holds exactly the transitions that were added and not removed, each once, with merged nodes replaced and their inner transitions gone. All queries (transitions, nodes, membership, path recognition, determinism, description) agree with that set, initial and terminal states are the ends of the added paths, refused operations change nothing, and two graphs of a kind are equal exactly when their contents are, however they were built.",
["histories","inputs"],"all programs over several graphs of all kinds with any nodes and labels, including repeated, refused and reordered operations",
"tests apply one or two operations to one small graph; stale entries and wrong equality only show after particular sequences",
[TK],[("BaseGraph, TaskGraph, ConjugateTaskGraph",TK)],["contents, answers and pairwise equality of every graph after every operation"])
p("C35","Sample experiments carry out the configuration they are launched with",
"Each experiment job prepared by the sample launchers runs the requested number of episodes of the requested task, human preference, policy and planner settings, each until the end or the step limit, and publishes exactly those with their parameters and returns: never-hold never holds, always-hold and repeat support every subtask by holding horizontally, random holds either way, and none of these asks or lets the human work alone. Unknown tasks and policies are refused and publish nothing; an interrupted job leaves the earlier result, the complete one, or none that can be read, and run again it completes. Tables and figures show the published results of each configuration.",
["configurations","histories","fault_sequences","crash_points"],"all prepared configurations and documented parameters, all seeds, interruptions of any worker and of storage at any byte, restarts, and all results to draw",
"no test runs the launchers, the jobs or the drawing of their results",
["samples/supportive_evaluation_*.py",EV if 'EV' in globals() else "task_models/evaluation.py","task_models/utils/plot.py"],[("SupportiveExperiment.init_pomcp_policy / run_from_arguments / ExpLauncher","task_models/evaluation.py"),("plot_var, plot_curve_with_error and boxplots","task_models/utils/plot.py")],["published files, episodes versus the relational model, and drawn curves versus the results"])
p("C36","Sample programs publish what they solved, or fail visibly",
"Each sample program, run to its end, leaves exactly what it is for: the task it states with the costs it states, given to the solver or the search; the policy the solver found, the tree of its executions with their probabilities, the policy seen from the reachable beliefs, the search that was made, the figures and the printed task graphs. When the solver, the storage or the process fails, the program raises an error, nothing wrong is published and what was published earlier is kept or replaced by what was solved; run again it completes.",
["inputs","histories","fault_sequences","crash_points"],"all sample programs with all costs and tasks, all policies of the solver, all endings of the solver and faults of storage at any byte, and restarts",
"no test runs a sample program",
["samples/*.py","task_models/stool_scenarios.py","task_models/tower_problem.py","task_models/plot.py"],[("sample programs","samples"),("iterative_dfs and tower plans","task_models/tower_problem.py"),("tasks of the stool","task_models/stool_scenarios.py"),("plot_values","task_models/plot.py")],["files, figures and printed graphs of a program versus the model given to the solver, its policy, and the search that was made"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,x['id']
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
print(len(P))
