t('C01', 'runtime monitoring: constructor outcome and exposed arrays of generated and corrupted models against an independent validity oracle',
  'Held on the generated models and corruptions (shapes up to 6x4x4, single and multiple corruptions). Trusts numpy and the harness oracle.')
t('C02', 'runtime monitoring: every belief update observed in generated histories compared with an independent Bayes filter',
  'Held on the generated models and histories; tolerance 1e-9 relative.')
t('C03', 'runtime monitoring: support and reward assertions on every simulated step, Chernoff-bounded frequency monitor, seeded replay',
  'Support and rewards are checked exactly on each observed step; frequencies up to a deviation of negligible probability (e^-32).')
t('C04', 'runtime monitoring: every dumped text is parsed by an independent reader and compared with the model',
  'Held on the generated models up to 400 states; the reader covers the fully specified subset of the format.')
t('C05', 'runtime monitoring: round-trip oracle over save/load cycles with query comparison',
  'Held on the generated models, policies and the shipped policy files.')
t('C06', 'runtime monitoring with fault injection: instrumented stand-in solver recording argv, model file and temporary files, and writing valid or faulty output',
  'The real pomdp-solve is absent: the stand-in writes well-formed and corrupted .alpha/.pg files; its argv and the filesystem are monitored.')
t('C07', 'runtime monitoring: every step of policy-graph and belief runners compared with an independent walk of the graph and a Bayes filter; exported trees walked against the runner',
  'Held on the generated models, policies (partial graphs included) and histories; exports compared up to depth 3.')
t('C08', 'runtime monitoring: transition, observation and reward tables of generated tasks against independent semantics derived from the task structure',
  'Held on generated hierarchies and option settings; the oracle is independent of the library code. One known finding (cost of telling about subtasks in structured parallel branches).')
t('C09', 'runtime monitoring: tables of generated bring-next tasks, towers and hold-and-release against independent semantics',
  'Held on generated hierarchies and option settings.')
t('C10', 'runtime monitoring: execution orders enumerated independently from the original hierarchy compared with the expanded one and the step graph; snapshots before and after copies',
  'Held on generated hierarchies up to a bounded number of interleavings.')
t('C11', 'runtime monitoring: every simulator step checked for membership in the exact outcome distribution of a reference process, plus Chernoff-bounded frequency monitors',
  'The reference process is written from the documentation and tests; held on generated and shipped models.')
t('C12', 'runtime monitoring: encode/decode, set/get interference and marginalisation oracles over enumerated and random states',
  'Small models are enumerated completely, larger ones sampled.')
t('C13', 'runtime monitoring: every simulated transition recorded and replayed on a shadow tree; all visits and values of the real tree compared after every call',
  'Held on generated models, planner settings and call sequences; replay is exact for exact, shared and particle beliefs.')
t('C14', 'runtime monitoring: every simulated and returned action compared with the UCB and greedy rules evaluated on statistics recomputed from the recorded simulations',
  'Held on generated models and settings, and on random node statistics.')
t('C15', 'runtime monitoring: belief, history and tree snapshots after every call (valid, impossible, unknown, premature) against an independent Bayes filter',
  'Held on generated models and call sequences; sharing is checked over whole trees.')
t('C16', 'runtime monitoring: samples drawn by every particle update recorded and compared with the particles kept; Chernoff-bounded frequency monitors against the Bayes posterior',
  'Held on generated models; frequencies up to deviations of probability below e^-32.')
t('C17', 'runtime monitoring of the threaded planner: global event log under injected delays, short switch intervals, forced schedules and simulator faults; overlap detector and sequential replay (linearisation) oracle',
  'Held on the interleavings observed; not exhaustive.')
t('C18', 'runtime monitoring: independent counters follow horizons along real trajectories and copies; lengths of all recorded planning simulations, rollouts and episodes',
  'Held on generated models, horizon kinds and lengths, copy points and supportive tasks.')
t('C19', 'runtime monitoring: every export parsed by a strict JSON reader and walked along with the nodes of the live search tree; planning after an export compared with planning without',
  'Held on generated models and search trees (unshared, shared, particles).')

t('C20', 'runtime monitoring: acceptance and membership of generated and corrupted paths compared with sets of keys of the recorded states and transitions after every addition',
  'Held on generated graphs, conditions and paths (some of several thousand actions).')
t('C21', 'runtime monitoring: conjugate graphs of generated task graphs compared with the set of transitions derived independently; source snapshots',
  'Held on generated graphs.')
t('C22', 'runtime monitoring: cliques and chains compared with brute-force enumeration on generated graphs; graph snapshots, CPU watchdog for termination',
  'Brute force on graphs up to about 8 nodes, constructed answers on larger ones.')
t('C23', 'runtime monitoring: after every addition, removal and compaction, nodes, transitions, markers, equality and export compared with a reference set of triples',
  'Held on generated histories of edits and nested meta-actions.')
t('C24', 'runtime monitoring: equality, hashing, copying and container behaviour of generated objects compared with reference keys',
  'Held on generated pairs and triples, equal by construction and near misses.')
t('C25', 'runtime monitoring with fault injection: worker runs, failures, signals and leftover processes recorded in per-run logs and compared with what the caller receives; wall-clock watchdog',
  'Held on generated schedules of run durations, result sizes and failures; not exhaustive.')
t('C26', 'runtime monitoring: every policy and simulator call of an episode recorded and replayed against its report; result files read back by a strict reader',
  'Held on generated models, policies and limits and on the shipped experiment scripts with reduced settings.')
t('C27', 'runtime monitoring: every offered action of the scripted policy compared with a pointer in the list of phases under generated observation sequences and on the simulator',
  'Held on generated tasks and observation sequences.')
t('C28', 'runtime monitoring: loaded hierarchies compared node by node with their description, lookups with a depth-first enumeration; snapshots',
  'Held on the shipped files of the current format, generated files and exported hierarchies.')
t('C29', 'runtime monitoring: features, conditions and placing actions of generated boards compared with set membership',
  'Held on generated boards, conditions and states.')
t('C30', 'runtime monitoring: traces of seeded sessions over the whole library recorded in several processes (hash seed, order of sessions, environment and memory layout varied) and compared',
  'Held on generated sessions; a dependence that shows only on another machine is not observed.')
t('C31', 'runtime monitoring: traces of sessions interleaved step by step, some over the same model object, compared with the traces of each session alone',
  'Held on generated sessions and interleavings within one thread.')
t('C32', 'runtime monitoring: action taken and estimated values compared with the exact optimum of small models, the number of simulations being raised before a verdict',
  'Convergence is decided by tolerances (15% and 25% of the span of returns) on models with up to 3 states and horizon 3.')
t('C33', 'runtime monitoring: printed bars interpreted by a terminal model, drawn artists read back, measured times of real processes and of a stand-in for ps compared with the clock',
  'Held on generated data and options.')
t('C34', 'runtime monitoring: extraction of hierarchies from generated demonstrations compared with the demonstrated hierarchy; after every compaction an independent reader walks the demonstrations through the graph',
  'Held on generated hierarchies up to 30 actions; demonstrations are re-read after a compaction only as long as whole parallels were compacted.')
t('C35', 'runtime monitoring: the sample scripts are run in copies of a clean checkout with a recording stand-in solver; stored files, printed graphs and figures are compared with independent references and with the recorded planner',
  'Held on generated answers of the solver; the scripts plan with fewer iterations than they ask for, and scripts that need a job scheduler are covered by C26.')
t('C36', 'runtime monitoring: the pages are run in node with stand-ins for the document, d3, jQuery and roslib; after every action of generated sessions the displayed elements are compared with an independent model of what should be visible',
  'Held on generated files and sessions; layout and animations are those of stand-ins, browsers were not used.')
