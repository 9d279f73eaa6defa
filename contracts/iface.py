"""Public interface of domains and solvers: how each argument and result is shaped (domain characteristics).
Specification data written from the documentation of the functions; not read from the code under test."""
IFACE = {
    'skdecide.builders.domain.constraints:Constrained.get_constraints': {'return': 'List[Constraint[D.T_memory[D.T_state],D.T_agent[D.T_concurrency[D.T_event]],D.T_state]]'},
    'skdecide.builders.domain.dynamics:DeterministicTransitions.get_next_state': {'memory': 'D.T_memory[D.T_state]', 'action': 'D.T_agent[D.T_concurrency[D.T_event]]', 'return': 'D.T_state'},
    'skdecide.builders.domain.dynamics:EnumerableTransitions.get_next_state_distribution': {'memory': 'D.T_memory[D.T_state]', 'action': 'D.T_agent[D.T_concurrency[D.T_event]]', 'return': 'DiscreteDistribution[D.T_state]'},
    'skdecide.builders.domain.dynamics:Environment.step': {'action': 'D.T_agent[D.T_concurrency[D.T_event]]', 'return': 'EnvironmentOutcome[D.T_agent[D.T_observation],D.T_agent[TransitionValue[D.T_value]],D.T_agent[D.T_info]]'},
    'skdecide.builders.domain.dynamics:Simulation.sample': {'memory': 'D.T_memory[D.T_state]', 'action': 'D.T_agent[D.T_concurrency[D.T_event]]', 'return': 'EnvironmentOutcome[D.T_agent[D.T_observation],D.T_agent[TransitionValue[D.T_value]],D.T_agent[D.T_info]]'},
    'skdecide.builders.domain.dynamics:Simulation.set_memory': {'memory': 'D.T_memory[D.T_state]'},
    'skdecide.builders.domain.dynamics:UncertainTransitions.get_next_state_distribution': {'memory': 'D.T_memory[D.T_state]', 'action': 'D.T_agent[D.T_concurrency[D.T_event]]', 'return': 'Distribution[D.T_state]'},
    'skdecide.builders.domain.dynamics:UncertainTransitions.get_transition_value': {'memory': 'D.T_memory[D.T_state]', 'action': 'D.T_agent[D.T_concurrency[D.T_event]]', 'next_state': 'Optional[D.T_state]', 'return': 'D.T_agent[TransitionValue[D.T_value]]'},
    'skdecide.builders.domain.dynamics:UncertainTransitions.is_terminal': {'state': 'D.T_state'},
    'skdecide.builders.domain.events:Events.get_action_space': {'return': 'D.T_agent[Space[D.T_event]]'},
    'skdecide.builders.domain.events:Events.get_applicable_actions': {'memory': 'Optional[D.T_memory[D.T_state]]', 'return': 'D.T_agent[Space[D.T_event]]'},
    'skdecide.builders.domain.events:Events.get_enabled_events': {'memory': 'Optional[D.T_memory[D.T_state]]', 'return': 'Space[D.T_event]'},
    'skdecide.builders.domain.events:Events.is_action': {'event': 'D.T_event'},
    'skdecide.builders.domain.events:Events.is_applicable_action': {'action': 'D.T_agent[D.T_event]', 'memory': 'Optional[D.T_memory[D.T_state]]'},
    'skdecide.builders.domain.events:Events.is_enabled_event': {'event': 'D.T_event', 'memory': 'Optional[D.T_memory[D.T_state]]'},
    'skdecide.builders.domain.goals:Goals.get_goals': {'return': 'D.T_agent[Space[D.T_observation]]'},
    'skdecide.builders.domain.goals:Goals.is_goal': {'observation': 'D.T_agent[D.T_observation]'},
    'skdecide.builders.domain.initialization:DeterministicInitialized.get_initial_state': {'return': 'D.T_state'},
    'skdecide.builders.domain.initialization:Initializable.reset': {'return': 'D.T_agent[D.T_observation]'},
    'skdecide.builders.domain.initialization:UncertainInitialized.get_initial_state_distribution': {'return': 'Distribution[D.T_state]'},
    'skdecide.builders.domain.observability:PartiallyObservable.get_observation_distribution': {'state': 'D.T_state', 'action': 'Optional[D.T_agent[D.T_concurrency[D.T_event]]]', 'return': 'Distribution[D.T_agent[D.T_observation]]'},
    'skdecide.builders.domain.observability:PartiallyObservable.get_observation_space': {'return': 'D.T_agent[Space[D.T_observation]]'},
    'skdecide.builders.domain.observability:PartiallyObservable.is_observation': {'observation': 'D.T_agent[D.T_observation]'},
    'skdecide.builders.domain.observability:TransformedObservable.get_observation': {'state': 'D.T_state', 'action': 'Optional[D.T_agent[D.T_concurrency[D.T_event]]]', 'return': 'D.T_agent[D.T_observation]'},
    'skdecide.builders.domain.renderability:Renderable.render': {'memory': 'Optional[D.T_memory[D.T_state]]'},
    'skdecide.builders.domain.value:Rewards.check_value': {'value': 'TransitionValue[D.T_value]'},
    'skdecide.builders.solver.assessability:QValues.get_q_value': {'observation': 'D.T_agent[D.T_observation]', 'action': 'D.T_agent[D.T_concurrency[D.T_event]]', 'return': 'D.T_value'},
    'skdecide.builders.solver.assessability:Utilities.get_utility': {'observation': 'D.T_agent[D.T_observation]', 'return': 'D.T_value'},
    'skdecide.builders.solver.policy:DeterministicPolicies.get_next_action': {'observation': 'D.T_agent[D.T_observation]', 'return': 'D.T_agent[D.T_concurrency[D.T_event]]'},
    'skdecide.builders.solver.policy:Policies.is_policy_defined_for': {'observation': 'D.T_agent[D.T_observation]'},
    'skdecide.builders.solver.policy:Policies.sample_action': {'observation': 'D.T_agent[D.T_observation]', 'return': 'D.T_agent[D.T_concurrency[D.T_event]]'},
    'skdecide.builders.solver.policy:UncertainPolicies.get_next_action_distribution': {'observation': 'D.T_agent[D.T_observation]', 'return': 'Distribution[D.T_agent[D.T_concurrency[D.T_event]]]'},
    'skdecide.solvers:Solver.solve_from': {'memory': 'D.T_memory[D.T_state]'},
}
