NA = {}
NOTE = 'Deductive part: holds for all inputs under the assumptions in the evidence file (reals for floats, abstract user hooks as ' \
       'arbitrary functions). The replay layer is bounded and only supplies failing inputs. '
PROPS = []


def P(id, title, statement, over, forall, why, files, mech, note='', **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech,
                      note=NOTE + note, **kw))


P('C01', 'Transition values and outcome defaults are complete and consistent',
  'A transition value built from a reward, a cost, both or neither always exposes both, with the cost equal to the negated reward '
  '(a given reward wins over a given cost, and zero is used when neither is given). An outcome built without a value gets a zero '
  'value and without info gets no info, independently for each agent when its observation or state is a per-agent dictionary, and '
  'every field that is given is kept as given. Replacing fields of an outcome changes only those fields.',
  ['inputs'], 'every number, every combination of given and omitted fields, any number of agents',
  'The existing tests only run solvers through the cast layer; no test builds values from arbitrary numbers or multi-agent '
  'outcomes with omitted fields.',
  ['skdecide/core.py'],
  [('TransitionValue.__post_init__', 'skdecide/core.py'), ('EnvironmentOutcome.__post_init__', 'skdecide/core.py'),
   ('TransitionOutcome.__post_init__', 'skdecide/core.py'), ('ExtendedDataclass.replace', 'skdecide/core.py')])

P('C02', 'Distributions sample only what they contain and survive casting',
  'Sampling a discrete distribution only ever returns one of its given elements with positive probability, in proportion to its '
  'given weight (normalised if needed), and the listed (element, probability) pairs are exactly the given ones before and after '
  'sampling. A single-value distribution always returns its value and lists it with probability one, and an implicit distribution '
  'calls its function exactly once per draw. Converting a distribution to another domain shape converts each element in place and '
  'keeps the kind, the order and the probabilities.',
  ['inputs'], 'every list of weighted elements with positive total weight, every sample function, every cast of elements',
  'No test samples a distribution with zero, unnormalised or repeated entries; only three fixed grid transitions are cast.',
  ['skdecide/core.py'],
  [('DiscreteDistribution', 'skdecide/core.py'), ('SingleValueDistribution', 'skdecide/core.py'),
   ('ImplicitDistribution', 'skdecide/core.py')], note='random.choices itself is trusted.')

P('C03', 'Space membership, enumeration, sampling and serialization agree',
  'Membership of an enumerable space is exactly membership in its listed elements (an empty space contains nothing, an implicit '
  'space contains exactly what its predicate accepts), and the `in` operator gives the same answer. Everything a space samples is a '
  'member of it. Converting a batch of members to JSON or to the underlying numeric encoding and back gives the same batch, and '
  'every wrapper of an external space answers exactly like the space it wraps.',
  ['inputs'], 'every list of elements (with repetitions), every enumeration or dataclass, every queried value, every batch',
  'The existing tests use two small spaces and never query non-members or serialize.',
  ['skdecide/core.py', 'skdecide/hub/space/gym/gym.py'],
  [('Space hierarchy', 'skdecide/core.py'), ('gym space wrappers', 'skdecide/hub/space/gym/gym.py')],
  note='Box/Discrete/Multi*/Tuple/Dict constructors and DataSpace are covered by the bounded layer only (gym internals).')

P('C04', 'Constraints are checked exactly as declared',
  'A bound constraint is satisfied by a transition if and only if its evaluation stands in the declared inequality (<, <=, > or >=, '
  'nothing else is accepted) with its bound, and an implicit constraint if and only if its function accepts the transition. The '
  'declared dependence on the next state, the inequality and the bound are reported as given, on every call. Converting a constraint '
  'to another domain shape evaluates the same function on the arguments converted back, with the same inequality, bound and dependence.',
  ['inputs'], 'every evaluation function, inequality, bound, transition and next-state form',
  'No existing test builds a constraint.',
  ['skdecide/core.py'],
  [('BoundConstraint', 'skdecide/core.py'), ('ImplicitConstraint', 'skdecide/core.py'), ('Constraint.is_constraint_dependent_on_next_state', 'skdecide/core.py')])

P('C05', 'Automatic casting preserves values between domain shapes',
  'When a solver sees a domain through characteristics of a different generality (history or Markovian memory, one or several agents, '
  'parallel or sequential actions), every argument and result of every public domain or solver function is converted to the '
  "receiver's shape without losing or changing anything inside it: containers are converted element by element in the same order, a "
  'bare value becomes a one-element container and back, a history seen by a Markovian domain becomes its current (last) state, '
  'absent optional values stay absent, and a value that needs no conversion is passed as is. Converting there and back gives the same '
  'value. Only the cast object is affected, and only in the functions meant for it, however they are called or decorated.',
  ['inputs', 'configurations'], 'every public function, every pair of domain shapes, every value (any number of agents, states and actions)',
  'The existing tests check call compatibility of three toy solvers on one domain family; values inside are never compared for '
  'multi-element containers.',
  ['skdecide/core.py', 'skdecide/builders', 'skdecide/domains.py', 'skdecide/solvers.py'],
  [('cast_dict and cast', 'skdecide/core.py'), ('parse_hint', 'skdecide/core.py'), ('autocast', 'skdecide/core.py'),
   ('Castable implementations', 'skdecide/core.py')],
  note='Whole-interface contracts are instantiated for every function of contracts/iface.py; nested containers inside others are '
       'instantiated with two elements, the unbounded case follows from the container-rule contracts by induction on the hint.')

P('C06', 'A domain used as an environment remembers exactly what its memory kind says',
  'Resetting a domain puts exactly the initial state in its memory and returns the observation of that state. Each step starts from '
  'the current memory, returns the observation of the state it reaches together with the value, termination and info of that '
  'transition, and then remembers that state: appended to the whole history, or to the last N states, or as the only state, or not '
  'at all for a memoryless domain. Setting the memory makes the next step start from it, and sampling from a given memory changes '
  "neither the domain's memory nor the caller's object; later steps never alter an object the caller passed in.",
  ['histories', 'inputs'], 'every sequence of resets, steps, memory assignments and samples, every memory kind and length, every dynamics',
  'Tests run short rollouts on Markovian toy domains only; histories and finite histories are never stepped.',
  ['skdecide/builders/domain/dynamics.py', 'skdecide/builders/domain/initialization.py', 'skdecide/builders/domain/memory.py'],
  [('Environment._step', 'skdecide/builders/domain/dynamics.py'), ('Simulation._set_memory', 'skdecide/builders/domain/dynamics.py'),
   ('Initializable._reset', 'skdecide/builders/domain/initialization.py'), ('memory kinds', 'skdecide/builders/domain/memory.py')],
  note='Arbitrary operation sequences follow by induction from the per-operation contracts over an arbitrary legal memory.')

P('C07', 'Simulated behaviour follows the white-box model',
  'For a domain that gives its transition model, every simulated or executed transition reaches a next state drawn from the '
  'distribution of the source memory and action, carries the value of exactly that source, action and reached state, terminates '
  'exactly when the reached state is terminal, and yields the observation of that state and action. Deterministic transitions, '
  'deterministic initial states and deterministic observations are reported as certain distributions of the same value, a fully '
  'observable domain observes its state itself, and every reset draws the initial state anew from the initial distribution.',
  ['inputs'], 'every model (arbitrary functions), memory, action and combination of dynamics, initialization and observability levels',
  'Tests only use one grid domain family whose model pieces agree by construction and never compare samples with the model.',
  ['skdecide/builders/domain/dynamics.py', 'skdecide/builders/domain/initialization.py', 'skdecide/builders/domain/observability.py'],
  [('UncertainTransitions._state_sample', 'skdecide/builders/domain/dynamics.py'),
   ('DeterministicTransitions._get_next_state_distribution', 'skdecide/builders/domain/dynamics.py'),
   ('UncertainInitialized._state_reset', 'skdecide/builders/domain/initialization.py'),
   ('TransformedObservable._get_observation_distribution', 'skdecide/builders/domain/observability.py')])

P('C08', 'Applicability, goals, observations and values are decided by the right spaces',
  'Queries about enabled events, applicable actions and rendering use the memory they are given, whatever it is, and the '
  "domain's own memory only when none is given. An event is enabled, an action applicable, an event an action, an observation a goal "
  'or a legal observation if and only if it belongs to the corresponding space; for several agents, if and only if this holds for '
  'the part of each agent. A domain with unrestricted actions accepts exactly its action space, a domain with actions only never '
  'enables any other event, and a domain with positive costs accepts a transition value if and only if its cost is not negative.',
  ['inputs'], 'every space (arbitrary membership), every memory (falsy ones included), any number of agents, every cost',
  'Tests use one-agent grids; falsy memories, several agents and non-members never occur.',
  ['skdecide/builders/domain/events.py', 'skdecide/builders/domain/goals.py', 'skdecide/builders/domain/observability.py',
   'skdecide/builders/domain/value.py', 'skdecide/builders/domain/renderability.py'],
  [('Events', 'skdecide/builders/domain/events.py'), ('Goals._is_goal', 'skdecide/builders/domain/goals.py'),
   ('PartiallyObservable._is_observation', 'skdecide/builders/domain/observability.py'),
   ('PositiveCosts', 'skdecide/builders/domain/value.py'), ('Renderable._render', 'skdecide/builders/domain/renderability.py')])

P('C09', 'Constant domain queries are computed once per domain and never mixed up',
  'The action space, goals, observation space, constraints, memory length, initial state, initial state distribution and '
  'value-dependence flag that a domain reports are exactly the ones its author defined: the definition is evaluated once per domain '
  'object, every later query returns that same object, and two domains of the same class never see each other\'s answers, in '
  'whatever order they are queried.',
  ['histories', 'inputs'], 'every value of every constant query, several domains of one class, interleaved queries',
  'Tests build one domain per class and query it a few times; a shared cache would be invisible.',
  ['skdecide/builders/domain'],
  [('cached getters', 'skdecide/builders/domain')],
  note='The proof uses two domains and fixed interleavings with arbitrary values; lru_cache itself is assumed.')

P('C10', 'A solver is offered exactly for the domains that meet its requirements',
  'The requirements of a solver are exactly the most specific class of each characteristic that its domain type has. A solver '
  'accepts a domain if and only if the domain has every required characteristic (at that level or a more specific one) and the '
  "solver's own additional check accepts it, and matching returns exactly the candidates that accept the domain, whatever the "
  'candidates are.',
  ['configurations', 'inputs'], 'every combination of characteristic levels, every domain, every list of candidate solvers',
  'Tests check a few fixed solver and domain pairs out of tens of thousands of combinations.',
  ['skdecide/solvers.py', 'skdecide/utils.py', 'skdecide/domains.py'],
  [('Solver._get_domain_requirements', 'skdecide/solvers.py'), ('Solver._check_domain', 'skdecide/solvers.py'),
   ('match_solvers', 'skdecide/utils.py')],
  note='get_domain_requirements is proved by complete enumeration of the finite space of library characteristic combinations; '
       'check_domain and match_solvers for arbitrary requirement and candidate lists.')

P('C11', 'Rollouts are faithful traces of the policy in the domain',
  'An episode starts with the reset observation, or with the observation of the last state of the given memory (and given last '
  'action) after the domain was set to that memory. At every step the policy is asked exactly once, for the current observation, and '
  'the domain executes that very action. The episode ends right after the first terminating step or after the maximum number of '
  'steps, never earlier or later, every requested episode is run with a fresh policy reset, and the returned (or saved) observations, '
  'actions and values are exactly those exchanged, in order. Without a policy, each action is sampled from the actions applicable at '
  'that moment, for every agent.',
  ['histories', 'inputs'], 'every domain and policy behaviour, episode length, step limit, starting memory',
  'Tests only check that rollouts run; traces, limits, starting memories and episode ends are not compared with anything.',
  ['skdecide/utils.py'], [('rollout_episode', 'skdecide/utils.py'), ('rollout', 'skdecide/utils.py'), ('RandomWalk', 'skdecide/utils.py')],
  note='rollout_episode is proved for any number of steps (one episode); rollout is unrolled to at most three episodes and steps.')

P('C12', 'Solving and policies go through the right domain, level and policy',
  'Solving (or restoring) runs the algorithm exactly once on the domain produced by the given factory (or by the domain class), seen '
  'at the level of generality the solver asked for, and solve_with returns the same solver usable at the level of the domain, however '
  'often solver or domain are reused. A deterministic policy is its own single-value distribution, sampling an uncertain policy draws '
  'once from the distribution for that observation, and every public solver query is answered by the hook for the given arguments. A '
  'solver context initializes before its body and cleans up after it even when it fails, and a parallel solver launches one parallel '
  'domain, returns the result of the call it launched and closes it once.',
  ['inputs', 'histories'], 'every domain/solver level pair, policy, observation, sequence of solve and load calls',
  'Tests solve once per solver with fixed observations; reuse, restoring, contexts and parallel solvers are not exercised.',
  ['skdecide/solvers.py', 'skdecide/domains.py', 'skdecide/core.py'] + ['skdecide/builders/solver/%s.py' % k for k in
   ('assessability', 'parallelability', 'policy', 'restorability')],
  [('Solver.solve', 'skdecide/solvers.py'), ('Domain.solve_with', 'skdecide/domains.py'), ('autocast_all', 'skdecide/core.py'),
   ('policies', 'skdecide/builders/solver/policy.py'), ('ParallelSolver', 'skdecide/builders/solver/parallelability.py')])

P('C13', 'A call on a parallel domain returns what that domain would return',
  'A call made on a parallel (piped or shared-memory) domain executes exactly that method or lambda, once, with exactly the given '
  'arguments, on the requested domain process or on a free one, and its result is the result of that call: any number and types of '
  'arguments and results, calls pending at the same time on other processes, the order in which results are fetched, and failed or '
  'empty calls do not mix anything up. A domain is busy exactly between the call and the fetching of its result. Every register of a shared '
  'type can be used. If notifications are asked for, each call is notified exactly once, as a success or with its error, on the address of its '
  'domain. Closing ends every process, after which the parallel domain can be used again.',
  ['schedules', 'inputs'], 'every value, sequence of calls, assignment to processes, order of execution and fetching',
  'No existing test starts a parallel domain.',
  ['skdecide/domains.py'],
  [('ShmParallelDomain', 'skdecide/domains.py'), ('PipeParallelDomain', 'skdecide/domains.py'), ('ParallelDomain', 'skdecide/domains.py'),
   ('domain servers', 'skdecide/domains.py')],
  note='Values are arbitrary; call shapes, register layouts, two concurrent calls and three successive ones are enumerated. Processes '
       'are replaced by sequential stand-ins in the proof; the bounded layer uses real ones (notifications and reuse: bounded layer only).')

SCH = 'skdecide/builders/scheduling/scheduling_domains.py'
SB = 'skdecide/builders/scheduling/'
SCHNOTE = 'Symbolic states (any tasks, resources, numbers); each update function is proved against its own contract and _get_next_state / ' \
          '_get_next_state_distribution / _state_sample against those contracts. '

P('C14', 'Scheduling actions move tasks through their life cycle exactly',
  'In every scheduling domain (deterministic, uncertain or simulated) each task is at any time in exactly one of remaining, ongoing, '
  'paused, complete (or does not exist yet). A START moves a remaining task to ongoing and records its mode and start time, a PAUSE an '
  'ongoing one to paused and records the time, a RESUME a paused one back to ongoing and records the time, and an ongoing task becomes '
  'complete, with its end time recorded, when its execution is over (at once if its duration is zero). A START or RESUME that its '
  'resources or skills do not allow leaves the state as it was. Nothing else about any task changes, and the state an action is applied '
  'to is not modified unless in-place mode was asked for.',
  ['inputs', 'histories'], 'every state, task set, action, duration, kind of domain and sequence of actions',
  'The tests of the repository never execute a scheduling domain.',
  [SCH, SB + 'scheduling_domains_modelling.py', SB + 'task.py'],
  [('update_*_tasks', SCH), ('_get_next_state', SCH), ('_get_next_state_distribution', SCH), ('_state_sample', SCH)], note=SCHNOTE)

P('C15', 'Resource use always equals what the running tasks hold, within capacity',
  'The use recorded for a resource is changed only by what tasks take and give back: a started or resumed task takes exactly what its '
  'mode needs at that moment of its execution plus one of each unit named in the action, only if all of it is available and its skills '
  'are covered, so a START or RESUME never takes a resource above its availability. As a task executes, its use follows the needs of its '
  'mode over its execution time. A task that pauses or completes gives its renewable resources back at once (non-renewable ones only on '
  'pause and only if the task returns them). Whether a state is over-consuming and how much of a resource is available at a time are '
  'answered from these numbers and the availability calendar.',
  ['inputs', 'histories'], 'every state, set of resources, need over time, availability, allocation of units, skills',
  'The tests of the repository never execute a scheduling domain.',
  [SCH, SB + 'modes.py', SB + 'skills.py', SB + 'resource_availability.py'],
  [('update_start_tasks/update_resume_tasks/update_pause_tasks', SCH), ('update_res_consumption', SCH),
   ('update_complete_tasks', SCH), ('check_if_action_can_be_started', SCH), ('get_resource_used', SCH)],
  note=SCHNOTE + 'The sum over the ongoing tasks is an uninterpreted fold with its defining equation.')

P('C16', 'Tasks execute for exactly their duration',
  'Time advances by one exactly when an action lets time pass. While time passes every ongoing task progresses by the pace of its '
  'domain (one over its duration by default) and no other task does; a task completes at the end of the last time unit of its duration, '
  'not earlier or later, however often it was paused, and a task of duration zero completes when it is started. The active time of a task '
  'is the time since its start during which it was executing: it grows by one per time unit of execution and not while paused or after '
  'completion. Durations sampled for a task stay the same until sampled anew, and lie within the distribution and bounds declared.',
  ['inputs', 'histories'], 'every duration (up to 10000), start time, number and length of pauses, duration distribution',
  'The tests of the repository never execute a scheduling domain.',
  [SCH, SB + 'task.py', SB + 'task_duration.py', SB + 'task_progress.py'],
  [('update_time', SCH), ('update_progress', SCH), ('Task.get_task_active_time', SB + 'task.py'),
   ('SimulatedTaskDuration', SB + 'task_duration.py')], note=SCHNOTE + 'Progress is a real number in the proof; the replay uses floats.')

P('C17', 'Only and all executable scheduling actions are offered',
  'A START of a task in a mode is offered if and only if the task remains, its predecessors that exist under the current conditions are '
  'complete and all resource types the mode needs at its start are available; a RESUME if and only if the task is paused, its predecessors '
  'that exist are complete and what its own mode needs at its active time is available; a PAUSE if and only if the task is ongoing and may '
  'be preempted; passing time is always offered, and in a state that over-consumes a resource no START or RESUME is. When resource units have to be allocated, each offered START or RESUME names '
  'units that are free and together cover the skills of the task, and every action a space samples is one it could offer.',
  ['inputs', 'histories'], 'every state, precedence graph, mode, need, availability, set of units and skills',
  'The tests of the repository never execute a scheduling domain.',
  [SCH], [('get_possible_starting_tasks', SCH), ('get_possible_resume_tasks', SCH), ('SchedulingActionSpace', SCH),
          ('SchedulingActionSpaceWithResourceUnit', SCH), ('SchedulingActionSpaceWithResourceUnitSamplable', SCH)],
  note='Needs, uses and availabilities are arbitrary; the numbers of tasks, modes, resource types and units are at most three.')

P('C18', 'Scheduling starts, ends, costs and copies are right',
  'The initial state is at time zero, with every resource unused at its availability of time zero, every unconditional task remaining and '
  'nothing started. A state is a goal if and only if nothing remains, executes or is paused, and terminal if and only if it is a goal, is '
  'past the horizon, or some remaining task can no longer be done with the non-renewable resources that are left. A transition costs '
  'exactly the elapsed time (makespan objective) plus the cost of a started mode, of renewable use and of newly used non-renewable resources '
  '(cost objective). A copy of a state is equal to it, with the same hash, and neither is affected by changes of the other.',
  ['inputs', 'histories'], 'every state, horizon, set of objectives, price, resource set',
  'The tests of the repository never execute a scheduling domain.',
  [SCH, SB + 'scheduling_domains_modelling.py', SB + 'resource_renewability.py'],
  [('_get_initial_state_', SCH), ('_is_terminal', SCH), ('_get_transition_value', SCH), ('State.copy', SB + 'scheduling_domains_modelling.py')],
  note='Prices and quantities are arbitrary; at most three resources where they are looped over.')

P('C19', 'Conditional tasks appear exactly when their conditions hold',
  'A task exists exactly when all of its existence conditions are among the current conditions (unconditional tasks from the start). '
  'Completing a task (one of duration zero included) adds exactly one outcome of each of its condition distributions to the current '
  'conditions, and nothing ever removes one. When time has passed, exactly the existing tasks that were not considered yet become remaining. In an uncertain domain the next '
  'states cover every combination of sampled durations and conditions, each with its product probability, and do not affect one another; a '
  'simulated domain draws one of them.',
  ['inputs', 'histories'], 'every set of conditions, condition distribution, duration distribution, number of tasks completing together',
  'The tests of the repository never execute a scheduling domain.',
  [SCH, SB + 'conditional_tasks.py'],
  [('update_conditional_tasks_uncertain', SCH), ('update_complete_tasks_uncertain', SCH), ('get_available_tasks', SB + 'conditional_tasks.py')],
  note='Task sets and conditions are arbitrary; combinations: at most three distributions with arbitrary probabilities.')

P('C20', 'Scheduling problem data is reported as its author gave it',
  'Modes, needs, durations, precedence (direct and transitive, in both directions, and loops), time windows, time lags, preemptivity, '
  'resource names, availability, renewability, skills and costs that a scheduling domain reports are exactly those its author gave, and the '
  'characteristics that stand for the absence of a feature report the neutral value for every task and resource: no predecessors, the '
  'whole horizon as window, no preemption, everything renewable, no cost, no skill needed. Tasks ready for launch are exactly the remaining '
  'ones all of whose predecessors are complete.',
  ['inputs', 'configurations'], 'every set of tasks and resources, every precedence graph, every number given by the author',
  'The tests of the repository never query a scheduling domain.',
  [SB + 'precedence.py', SB + 'graph_toolbox.py', SB + 'time_windows.py', SB + 'time_lag.py', SB + 'modes.py', SB + 'preemptivity.py',
   SB + 'resource_costs.py', SB + 'resource_renewability.py', SB + 'skills.py', SB + 'resource_type.py'],
  [('Graph', SB + 'graph_toolbox.py'), ('WithPrecedence', SB + 'precedence.py'), ('time windows', SB + 'time_windows.py')],
  note='Transitive maps come from networkx, run as it is on every digraph of three tasks (bounded).')

HD = 'skdecide/hub/domain/'
HS = 'skdecide/hub/solver/'
P('C21', 'The bundled example domains implement the rules of their games',
  'A move in a maze or in a grid goes one cell in the chosen direction if that cell exists and is free and stays otherwise; it costs the '
  'distance moved, or two when nothing moved; the goal is the goal cell and only there is the state terminal. A maze text gives exactly the '
  'cells, start and goal drawn. A MasterMind score counts the pegs with the right colour at the right place, and those with a right colour at '
  'a wrong place, each peg of the hidden code used once; the game ends exactly when the code is found, and each score is among the possible '
  'observations. In rock-paper-scissors the two players get opposite rewards decided by the standard rules and see the move of the other.',
  ['inputs'], 'every state, action, maze layout, size of the grid, hidden code and guess, pair of moves',
  'The tests of the repository run a few solvers on one maze, with no check of the moves or costs.',
  [HD + 'maze/maze.py', HD + 'simple_grid_world/simple_grid_world.py', HD + 'mastermind/mastermind.py', HD + 'rock_paper_scissors/rock_paper_scissors.py'],
  [('Maze._get_next_state', HD + 'maze/maze.py'), ('SimpleGridWorld._get_next_state', HD + 'simple_grid_world/simple_grid_world.py'),
   ('MasterMind._get_next_state', HD + 'mastermind/mastermind.py'), ('RockPaperScissors._state_step', HD + 'rock_paper_scissors/rock_paper_scissors.py')],
  note='MasterMind scores are proved for at most three positions; larger boards by bounded replay.')

P('C22', 'LazyA* finds a cheapest plan and reports exactly that plan',
  'After a solve from a state from which a goal can be reached, the policy is defined exactly on the states of the plan; following it from '
  'the start leads to a goal and, with a consistent heuristic that is zero on goals (none by default) and weight one, no path to a goal '
  'costs less. The utility of a state of the plan is what remains to be paid on it, and the heuristic elsewhere. If no goal can be reached '
  'there is no plan. Each solve starts afresh, from the given state or else from the initial state of the domain.',
  ['inputs'], 'every graph (any number of states and of actions per state), non-negative costs, consistent heuristic',
  'The tests of the repository run the solver on one maze and look at no cost.',
  [HS + 'lazy_astar/lazy_astar.py'], [('LazyAstar._solve_domain', HS + 'lazy_astar/lazy_astar.py')],
  note='Termination on infinite graphs is not claimed. The heap is used through its contract.')

P('C23', 'LRTA* plans reach the goal; SimpleGreedy picks the best immediate reward',
  'LRTA*: every trial is a path of applicable actions from the start, along transitions, that visits no state twice and ends in a goal, at '
  'the depth limit or in a reported dead end. Once a trial succeeded, following the policy from the start repeats such a path up to a goal '
  '(or the depth limit); before, no policy is defined. Trials go on until one changes no value or the number allowed is reached. The utility '
  'of a state is its learned value, else the heuristic, and each solve forgets the earlier ones. SimpleGreedy: the action taken is always an '
  'applicable one for which the expected immediate reward, over the next states with their probabilities, is highest.',
  ['inputs', 'histories'], 'every graph, non-negative costs, heuristic, limits; every applicable-action set, distribution and reward',
  'The tests of the repository run neither solver.',
  [HS + 'lrtastar/lrtastar.py', HS + 'simple_greedy/simple_greedy.py'],
  [('LRTAstar._solve_domain', HS + 'lrtastar/lrtastar.py'), ('LRTAstar.doTrial', HS + 'lrtastar/lrtastar.py'),
   ('SimpleGreedy._get_next_action', HS + 'simple_greedy/simple_greedy.py')],
  note='Optimality of LRTA* is not claimed, nor bounds on its values.')

DO = 'skdecide/builders/discrete_optimization/'
GT = DO + 'generic_tools/'

P('C24', 'Project schedules (RCPSP) are feasible, early and kept current',
  'From a permutation and modes, the serial scheme schedules the first activity of the permutation whose predecessors are scheduled, at the '
  'earliest time after them at which every resource suffices for its whole duration; the schedule found respects precedences, capacities '
  '(calendars included) and non-renewable totals, or the solution is flagged infeasible. satisfy accepts a schedule exactly when it is not '
  'flagged, no resource is exceeded at any time or in total, and successors start after their predecessors end. Evaluation reports the makespan '
  'and mean resource reserve of the schedule of the current permutation and modes, also after these changed and for copies; rescheduling keeps '
  'finished and running activities; aggregated, uncertain and helper variants follow their definition.',
  ['inputs', 'histories'], 'every instance (any number of activities, modes, resources), permutation, modes and schedule',
  'No test of the repository runs the scheduling model.',
  [DO + 'rcpsp/rcpsp_model.py'],
  [('RCPSPSolution.generate_schedule_from_permutation_serial_sgs', DO + 'rcpsp/rcpsp_model.py'), ('RCPSPModel.satisfy', DO + 'rcpsp/rcpsp_model.py'),
   ('RCPSPModelCalendar.satisfy', DO + 'rcpsp/rcpsp_model.py'), ('RCPSPModel.evaluate', DO + 'rcpsp/rcpsp_model.py')],
  note='Activities of zero duration require nothing. Aggregated models are proved for their evaluation, encodings and dummy; the helper and uncertain variants and the rescheduling are decided by the bounded layer.')

P('C25', 'Knapsack values and weights are those of the items taken, within capacity',
  'The evaluation of a selection is the total value and weight of its items and the penalty of the weight above the capacity, also when cached, '
  'after copies, changes of problem and flips; satisfy means within capacity. Solutions can be written in any item order and converted without '
  'loss. Greedy solvers take every item that still fits in their order and never exceed the capacity. The dynamic program returns a selection '
  'within capacity of the highest value; switching a bit or mutating keeps value and weight current, and moves can be undone.',
  ['inputs'], 'every number of items, values, positive weights, capacity, selection, sequence of flips',
  'No test of the repository runs the knapsack model.',
  [DO + 'knapsack/knapsack_model.py', DO + 'knapsack/solvers/greedy_solvers.py', DO + 'knapsack/solvers/dyn_prog_knapsack.py', DO + 'knapsack/mutation/mutation_knapsack.py'],
  [('KnapsackModel.evaluate', DO + 'knapsack/knapsack_model.py'), ('KnapsackDynProg.solve', DO + 'knapsack/solvers/dyn_prog_knapsack.py'),
   ('GreedyBest.solve', DO + 'knapsack/solvers/greedy_solvers.py'), ('MutationKnapsack.mutate', DO + 'knapsack/mutation/mutation_knapsack.py')],
  note='Values are mathematical reals in the proof. MutationKnapsack may leave its weights untouched; only which items it flips is specified.')

P('C26', 'Objectives, result storages and Pareto fronts keep and rank what was stored',
  'The aggregated objective of a solution is the weighted combination of its objectives in the order of the parameters; fitness vectors are '
  'compared by Pareto dominance (a strict partial order). A result storage keeps every solution once with its fitness, in order, and its best '
  'solutions and fitness are the extreme ones in its sense, whether given at construction or added later. A Pareto front holds exactly the points '
  'seen that no other dominates, in the order seen; comparators take the best per storage and objective. A robust problem evaluates the '
  'chosen statistic of each objective over its problems.',
  ['inputs', 'histories'], 'every number of objectives, weights, storages and fitnesses, every sequence of additions',
  'No test of the repository runs these classes.',
  [GT + 'do_problem.py', GT + 'result_storage/result_storage.py', GT + 'result_storage/multiobj_utils.py', GT + 'result_storage/resultcomparator.py'],
  [('build_evaluate_function_aggregated', GT + 'do_problem.py'), ('ResultStorage.add_solution', GT + 'result_storage/result_storage.py'),
   ('ParetoFront.add_point', GT + 'result_storage/result_storage.py'), ('TupleFitness', GT + 'result_storage/multiobj_utils.py')],
  note='Statistics are numpy ones. The contents of the heap beyond its extreme are not specified.')

P('C27', 'Mutations give valid encodings and their moves can be undone and redone exactly',
  'A mutated permutation is a permutation of the same values (swaps of any positions, a reversed segment, a full shuffle, a shuffle of the share of '
  'positions asked for); mutated bits and modes stay in their ranges and flips happen only below the probability. Undoing the returned move '
  'gives back the encoding of before, applying it again the mutated one. The objective returned is that of the mutated solution, never of a stale '
  'schedule. Mutations act on the first attribute of their kind unless one is given; a portfolio applies one of its mutations.',
  ['inputs', 'histories'], 'every permutation, vector, list of swaps, segments or flips, and random draws',
  'No test of the repository runs a mutation.',
  [GT + 'mutations/permutation_mutations.py', GT + 'mutations/mutation_bool.py', GT + 'mutations/mutation_integer.py', GT + 'mutations/mixed_mutation.py', GT + 'do_mutation.py'],
  [('SwapsLocalMove', GT + 'mutations/permutation_mutations.py'), ('TwoOptMove', GT + 'mutations/permutation_mutations.py'),
   ('PermutationPartialShuffleMutation.mutate', GT + 'mutations/permutation_mutations.py'), ('BitFlipMove', GT + 'mutations/mutation_bool.py')],
  note='PermutationPartialShuffleMutation also changes the solution it is given.')

P('C28', 'Local and large neighbourhood searches keep the best solution they evaluate',
  'Hill climbing moves to the mutated solution exactly when it improves the current one (for fitness vectors: when it is not dominated), otherwise it '
  'undoes the move; simulated annealing also moves when the drawn number is below exp(-loss/temperature) and multiplies the temperature by the '
  'coefficient once per iteration; a restart goes back to a copy of the best solution when either counter of iterations without improvement exceeds the '
  'limit. Every stored solution is a copy made before its move is undone, with its own objective; the best evaluated solution is always stored and the '
  'initial one untouched. Large neighbourhood search adds exactly the solutions of each (post-processed) result to its store, applies and removes '
  'constraints per iteration, and stops only at its iteration, time or no-improvement limit.',
  ['inputs', 'histories'], 'every mutation (also in place), objective, random draw, sub-solver result or failure, clock, sense and limit',
  'No test of the repository runs a local search.',
  [GT + 'ls/local_search.py', GT + 'ls/hill_climber.py', GT + 'ls/simulated_annealing.py', GT + 'lns_cp.py', GT + 'lns_mip.py'],
  [('HillClimber.solve', GT + 'ls/hill_climber.py'), ('SimulatedAnnealing.solve', GT + 'ls/simulated_annealing.py'), ('RestartHandlerLimit.restart', GT + 'ls/local_search.py'),
   ('LNS_CP.solve_lns', GT + 'lns_cp.py'), ('LNS_MILP.solve_lns', GT + 'lns_mip.py')],
  note='Fitnesses are reals in the proof (any partial order for the Pareto variant); math.exp is an uninterpreted function.')

COL, FAC, VRP = DO + 'coloring/', DO + 'facility/', DO + 'vrp/'
P('C29', 'Colourings are judged by their graph and the greedy solver returns a proper one',
  'A graph has exactly the nodes, edges, neighbours, predecessors and attributes it was given (in both directions when undirected). A colouring is feasible '
  'iff no edge joins nodes of one colour; it evaluates to its number of distinct colours and of violated edges, whatever was known before, also after it is '
  'moved to another problem. Renumbering keeps the partition and numbers colours in the order of their first node. The greedy solver returns a proper, renumbered '
  'colouring of all nodes with its fitness, of the strategy asked for or of one using fewest colours among those that work. Listed cliques are the first of '
  'networkx, with a truthful completeness flag.',
  ['inputs'], 'every graph, colouring and strategy', 'No test of the repository uses the colouring problem.',
  [COL + 'coloring_model.py', COL + 'coloring_toolbox.py', COL + 'solvers/greedy_coloring.py', GT + 'graph_api.py'],
  [('ColoringProblem.evaluate', COL + 'coloring_model.py'), ('transform_color_values_to_value_precede', COL + 'coloring_model.py'), ('Graph.build_edges', GT + 'graph_api.py'),
   ('GreedyColoring.solve', COL + 'solvers/greedy_coloring.py')],
  note='networkx colourings, cliques, cycles and ancestors are assumed.')

P('C30', 'Assignments and vehicle tours evaluate to their costs, loads and violations',
  'An assignment evaluates to the cost of every customer at its facility, the setup cost of the facilities used once each, the load and customers of each, and '
  'the sum of the loads beyond capacity. Tours evaluate to the sum of the distances between consecutive stops from start to end and the demand of every stop '
  'beyond capacity. Both are feasible iff no capacity is exceeded, and are evaluated anew in another problem. The greedy facility solver serves every customer '
  'within capacity, leaving a facility only for a customer who does not fit; the greedy tours respect the capacities, visit no customer twice and leave out '
  'only customers who fit nowhere.',
  ['inputs'], 'every number of customers, facilities, vehicles, demands, capacities and (asymmetric) distances', 'No test of the repository uses these problems.',
  [FAC + 'facility_model.py', FAC + 'solvers/greedy_solvers.py', VRP + 'vrp_model.py'],
  [('FacilityProblem.evaluate_cost', FAC + 'facility_model.py'), ('GreedySolverFacility.solve', FAC + 'solvers/greedy_solvers.py'), ('compute_length', VRP + 'vrp_model.py'),
   ('trivial_solution', VRP + 'vrp_model.py')],
  note='Reals in the proof; the numba variant of compute_length is covered by the bounded layer.')

POL = 'skdecide/hub/solver/'
P('C31', 'Scheduling policies start the first task their rule allows, or wait',
  'In every state a list-based policy starts the first task of its permutation (in the planned mode, with the planned units) that remains, whose predecessors are '
  'complete, which its rule considers and whose start the domain accepts; if there is none, time progresses. The rules consider: every such task (ready), those '
  'with the planned start of the first one (precedence, strict; only the first without a plan), those planned at most delta after it, or those at most delta '
  'places after it. A policy that follows a plan starts tasks only at their planned start, and repeats a schedule exactly. The pile policy starts a startable task with '
  'most successors, shortest duration, drawn by successors, or any; it waits only if none is startable. The state is not changed.',
  ['inputs'], 'every state, permutation, plan, mode table, unit allocation, delta and domain', 'No test of the repository uses these policies.',
  [POL + 'sgs_policies/sgs_policies.py', POL + 'pile_policy/pile_policy.py'],
  [('next_action_sgs_strict', POL + 'sgs_policies/sgs_policies.py'), ('next_action_sgs_time_freedom', POL + 'sgs_policies/sgs_policies.py'),
   ('next_action_follow_static_gantt', POL + 'sgs_policies/sgs_policies.py'), ('PilePolicy._get_next_action', POL + 'pile_policy/pile_policy.py')],
  note='What the domain accepts is arbitrary here (C17, C18 say what it is); exact repetition of a schedule is covered by the bounded layer.')

P('C32', 'Policies are explored and evaluated exactly; meta policies pick the best',
  'Exploring a policy from the initial state visits exactly the non-terminal states it can reach, with their true predecessors and successors. The expected cost of a '
  'state is the probability-weighted cost plus value over its outcomes, goals cost nothing, and a state lacks a value only if a possible outcome lacks one. A rollout '
  'executes the policy and ends at the first goal or terminal state; its cost is the sum over its transitions (plus the penalty if it missed the goal). The estimated '
  'value of a state averages the costs that followed each visit. A meta policy returns the action its policies agree on, or the first action of the policy whose '
  'simulations of a copy of the observation are shortest; the observation does not change.',
  ['inputs'], 'every policy, decision process with finitely many states, outcome probabilities (also 0), costs and number of rollouts', 'No test of the repository evaluates a policy.',
  [POL + 'policy_evaluators/policy_evaluator.py', POL + 'meta_policy/meta_policies.py'],
  [('construct_dict_policy', POL + 'policy_evaluators/policy_evaluator.py'), ('expected_costs_for_policy', POL + 'policy_evaluators/policy_evaluator.py'),
   ('my_custom_rollout', POL + 'policy_evaluators/policy_evaluator.py'), ('MetaPolicy._get_next_action', POL + 'meta_policy/meta_policies.py')],
  note='Costs are reals in the proof. Partial correctness: exploring infinitely many states does not end. Estimates from rollouts are covered by the bounded layer.')

P('C33', 'Scheduling domains and project models convert into each other faithfully',
  'Turning a project model of any kind (one or several modes, constant or calendar quantities, with or without skills) into a scheduling domain, and a domain into '
  'a model, keeps the tasks, modes, durations, successors, horizon, skills, the need of every mode for every resource (0 where none is given), the renewability '
  'and the quantity of every resource and unit at every instant (constant domains take the largest entry of a calendar, or its first with skills). Past its end a '
  'calendar keeps its last entry. Executing a feasible schedule in the domain gives back that schedule as a feasible solution. Noisy versions change only the '
  'durations (uniform within 10 of the original, at least 1, 0 stays 0) and double the horizon; projects sampled from them change only durations. Copies and '
  'variants of multi-skill models keep every field.',
  ['inputs'], 'every project model and domain of these kinds, with needs constant over time', 'No test of the repository converts a model or a domain.',
  ['skdecide/hub/solver/do_solver/sk_to_do_binding.py', 'skdecide/hub/domain/rcpsp/rcpsp_sk.py', DO + 'rcpsp_multiskill/rcpsp_multiskill.py'],
  [('build_do_domain', 'skdecide/hub/solver/do_solver/sk_to_do_binding.py'), ('build_sk_domain', 'skdecide/hub/solver/do_solver/sk_to_do_binding.py'),
   ('MRCPSPCalendar', 'skdecide/hub/domain/rcpsp/rcpsp_sk.py'), ('build_stochastic_from_deterministic', 'skdecide/hub/domain/rcpsp/rcpsp_sk.py'),
   ('MS_RCPSPModel.copy', DO + 'rcpsp_multiskill/rcpsp_multiskill.py')],
  note='Unit names are concrete in the proof of the multi-skill conversions. Executions of schedules are covered by the bounded layer.')

GYM = 'skdecide/hub/domain/gym/gym.py'
P('C34', 'Gym environments become domains, and domains environments, faithfully',
  'A wrapped environment behaves as the environment: a reset gives its observation, a step its observation, reward, end and info; spaces, rendering and closing are its '
  'own. Wrapped states are equal, and hashed alike, exactly when their contents are. A deterministically initialised domain returns at every reset to the state and '
  'environment of the first reset, or of the state given. In deterministic domains next state, reward and end depend on memory and action alone, whatever was explored '
  'before, and memories do not change; planning domains count the depth and have as goals the states at the maximum depth (or ended ones, if asked). Discretised '
  'actions are exactly the combinations of the values of each component, or a sample of the size asked for. Binary features encode every observation distinctly in '
  'the announced number of bits; interval features number the layer or interval of each variable, elliptical ones the bands passed. A domain as environment gives its '
  'own outcomes with unwrapped observations.',
  ['inputs'], 'every deterministic environment, state, action, order of exploration, observation space and history of observations',
  'No test of the repository wraps an environment.', [GYM],
  [('DeterministicInitializedGymDomain._state_reset', GYM), ('DeterministicGymDomain._get_next_state', GYM), ('GymPlanningDomain._get_goals_', GYM),
   ('GymDiscreteActionDomain._discretize_action_space', GYM), ('GymWidthDomain._bee1_features', GYM), ('AsGymEnv.step', GYM)],
  note='Environments are arbitrary deterministic transition functions in the proof; interval features at fidelity 1, arrays of two cells and spaces of three parts; '
       'binary codes, finer fidelities and the enumeration of composite action spaces are covered by the bounded layer.')

TTP = 'skdecide/builders/discrete_optimization/ttp/ttp_model.py'
P('C35', 'A travelling thief earns its items less the rent of a slowed trip',
  'For every closed tour and packing plan, with any items and towns: the profit is that of the items planned at the towns visited, the distance the sum of the straight '
  'legs, the weight after each town that of all items taken so far, the travel time the sum of the legs over the speed at that weight (falling linearly from the '
  'fastest at no weight to the slowest at capacity), the objective the profit less rent times travel time, the room left the capacity less the weight. Evaluation, with '
  'or without the weights, stores exactly these values in the solution, whatever it held before, returns the objective, and keeps tour and plan; copies hold the same '
  'values and share neither tour nor plan.',
  ['inputs'], 'every closed tour, plan, table of towns and items, capacity, speeds and rent', 'No test of the repository uses this problem.',
  [TTP], [('evaluate', TTP), ('evaluate_with_details', TTP), ('TTPModel.evaluate', TTP), ('TTPModel.evaluate_details', TTP), ('TTPSolution.copy', TTP)],
  note='Reals in the proof, which reads the Python functions under numba\'s decorator; the compiled functions are run by the bounded layer. Whether an item may be '
       'picked at a town is not checked by the code and not claimed.')
