From 02faddabadb6c327fcb831c3d0a1c9b1704cc085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 01/77] fix: membership queries on an empty space answer False
 instead of raising

---
 skdecide/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/core.py b/skdecide/core.py
index 6ed60c0..499bef0 100644
--- a/skdecide/core.py
+++ b/skdecide/core.py
@@ -102,8 +102,8 @@ class EnumerableSpace(Space[T]):
         return x in self.get_elements()
 
 
-class EmptySpace(Space[T]):
-    """A space which elements can be enumerated."""
+class EmptySpace(EnumerableSpace[T]):
+    """A space which contains no element."""
 
     def get_elements(self) -> Iterable[T]:
         return ()
-- 
2.43.0


From 5a1ede09f437e86a8e945498127812e8190ad4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 02/77] fix: stepping a domain with an unbounded history, or a
 finite history of length 1, appends to its memory

---
 skdecide/builders/domain/dynamics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/domain/dynamics.py b/skdecide/builders/domain/dynamics.py
index f85a2d2..e04d462 100644
--- a/skdecide/builders/domain/dynamics.py
+++ b/skdecide/builders/domain/dynamics.py
@@ -8,7 +8,7 @@ import functools
 from typing import Optional
 
 from skdecide.core import D, Distribution, DiscreteDistribution, SingleValueDistribution, TransitionValue, \
-    EnvironmentOutcome, TransitionOutcome, autocastable
+    EnvironmentOutcome, TransitionOutcome, Memory, autocastable
 
 __all__ = ['Environment', 'Simulation', 'UncertainTransitions', 'EnumerableTransitions', 'DeterministicTransitions']
 
@@ -75,10 +75,10 @@ class Environment:
         transition_outcome = self._state_step(action)
         next_state = transition_outcome.state
         observation = self._get_observation_distribution(next_state, action).sample()
-        if self._get_memory_maxlen() == 1:
-            self._memory = next_state
-        elif self._get_memory_maxlen() > 1:
+        if self.T_memory == Memory:
             self._memory.append(next_state)
+        elif self._get_memory_maxlen() == 1:
+            self._memory = next_state
         return EnvironmentOutcome(observation, transition_outcome.value, transition_outcome.termination,
                                   transition_outcome.info)
 
-- 
2.43.0


From f12feafab886c5833a33a74200ab3d41525a2e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 03/77] fix: set_memory no longer keeps the caller's history
 object, which later steps extended

---
 skdecide/builders/domain/dynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/domain/dynamics.py b/skdecide/builders/domain/dynamics.py
index e04d462..b3e89db 100644
--- a/skdecide/builders/domain/dynamics.py
+++ b/skdecide/builders/domain/dynamics.py
@@ -155,7 +155,8 @@ class Simulation(Environment):
             simulation_domain._step(my_action)
         ```
         """
-        self._memory = memory
+        # history memories are copied (later steps extend them in place) and keep the domain's maximum length
+        self._memory = Memory(memory, maxlen=self._get_memory_maxlen()) if self.T_memory == Memory else memory
 
     @autocastable
     def sample(self, memory: D.T_memory[D.T_state], action: D.T_agent[D.T_concurrency[D.T_event]]) -> \
-- 
2.43.0


From 3379c62c001be19d71fa5029194acadb39dce515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 04/77] fix: rollout_episode resets the domain when no starting
 memory is given and leaves its memory alone

---
 skdecide/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index f5f3e74..229f856 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -306,8 +306,7 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
         # Initialize episode
         solver.reset()
         if from_memory is None:
-            #observation = domain.reset()
-            pass
+            observation = domain.reset()
         else:
             domain.set_memory(from_memory)
             last_state = from_memory[-1] if has_memory else from_memory
@@ -331,7 +330,6 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
             action = solver.sample_action(observation)
             if action_formatter is not None:
                 logger.debug('Action: {}'.format(action_formatter(action)))
-            domain.set_memory(observations[-1])
             outcome = domain.step(action)
             observation = outcome.observation
             observations.append(observation)
-- 
2.43.0


From f1737a839e160373956c7d3dc755543749a661ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 05/77] fix: autocasting a bound method whose function is
 decorated no longer shifts its arguments

---
 skdecide/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/core.py b/skdecide/core.py
index 499bef0..fb5eb42 100644
--- a/skdecide/core.py
+++ b/skdecide/core.py
@@ -594,9 +594,11 @@ def parse_hint(obj: object, hint: str, hint_obj: str) -> Tree:
 
 
 def get_args_dict(func: Callable, args: Tuple, kwargs: Dict) -> Dict:
+    is_method = inspect.ismethod(func)
     while hasattr(func, '__wrapped__'):  # get to the core function even if it was decorated
         func = func.__wrapped__
-    args_names = func.__code__.co_varnames[inspect.ismethod(func):func.__code__.co_argcount]
+        is_method = is_method or inspect.ismethod(func)
+    args_names = func.__code__.co_varnames[is_method:func.__code__.co_argcount]
     return {**dict(zip(args_names, args)), **kwargs}
 
 
-- 
2.43.0


From 9cdb88c842965185eee177fd5469c9e42fdd550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 06/77] fix: casting a history to a Markovian memory keeps the
 current state, not the oldest one

---
 skdecide/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/core.py b/skdecide/core.py
index fb5eb42..044f9b9 100644
--- a/skdecide/core.py
+++ b/skdecide/core.py
@@ -558,7 +558,7 @@ class BoundConstraint(Constraint[D.T_memory, D.T_event, D.T_state]):
 
 # (auto)cast-related objects/functions
 cast_dict = {
-    (Memory, Union): lambda obj, src, dst: cast(obj[0], src[0], dst[0]),
+    (Memory, Union): lambda obj, src, dst: cast(obj[-1], src[0], dst[0]),
     (Union, Memory): lambda obj, src, dst: Memory([cast(obj, src[0], dst[0])]),
     (Memory, Memory): lambda obj, src, dst: Memory([cast(x, src[0], dst[0]) for x in obj]),
     (StrDict, Union): lambda obj, src, dst: cast(next(iter(obj.values())), src[0], dst[0]),
-- 
2.43.0


From d67915923414c745744ea6f34b721832e71953d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 07/77] fix: casting a solver or domain a second time starts
 from its own functions, not from the previous cast

---
 skdecide/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/core.py b/skdecide/core.py
index 044f9b9..e284168 100644
--- a/skdecide/core.py
+++ b/skdecide/core.py
@@ -647,12 +647,14 @@ def autocast(func: Callable, src: object, dst: object, hint_obj: str = 'D') -> C
         result = func(**cast_args_dict)
         return cast(result, src_hintrees['return'], dst_hintrees['return']) if 'return' in cast_args else result
 
+    wrapper_autocast._uncast = func
     return wrapper_autocast if len(cast_args) > 0 else func
 
 
 def autocast_all(obj: object, src: object, dst: object):
     for name, f in inspect.getmembers(obj, lambda x: inspect.isfunction(x) or inspect.ismethod(x)):
         if getattr(f, '_autocastable', None):
+            f = getattr(f, '_uncast', f)  # never cast a function on top of a previous cast (object reused)
             setattr(obj, name, autocast(f, src, dst))
 
 
-- 
2.43.0


From 0a119b6710357be09659ac08c0932a56c6955e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:46 +0000
Subject: [PATCH 08/77] fix: ParallelSolver.get_domain creates the domain when
 it does not exist yet

---
 skdecide/builders/solver/parallelability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/solver/parallelability.py b/skdecide/builders/solver/parallelability.py
index 4e3134c..2a530ce 100644
--- a/skdecide/builders/solver/parallelability.py
+++ b/skdecide/builders/solver/parallelability.py
@@ -66,7 +66,7 @@ class ParallelSolver:
         Returns the domain, optionnally creating a parallel domain if not already created.
         """
         if self._domain is None:
-            self._create_domain()
+            self._initialize()
         return self._domain
     
     def call_domain_method(self, name, *args):
-- 
2.43.0


From 6b2ba44a074709eec76cf2d0a2cf8d19ef4bcbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 09/77] fix: several shared-memory results of the same type no
 longer overwrite each other's cells

---
 skdecide/domains.py | 1692 +++++++++++++++++++++----------------------
 1 file changed, 846 insertions(+), 846 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 80314b4..1de9511 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -1,846 +1,846 @@
-# Copyright (c) AIRBUS and its affiliates.
-# This source code is licensed under the MIT license found in the
-# LICENSE file in the root directory of this source tree.
-
-"""This module contains base classes for quickly building domains."""
-from __future__ import annotations
-
-import os
-import logging
-from typing import NewType, Optional, Callable
-
-from pathos.helpers import mp
-import tempfile
-from pynng import Push0
-
-# Following import is required to make Enum objects serializable
-# (useful when multiprocessing and pickling domains that use Enum classes)
-import dill
-dill.settings['byref'] = True
-
-from skdecide.core import autocast_all
-from skdecide.builders.domain.agent import MultiAgent, SingleAgent
-from skdecide.builders.domain.concurrency import Parallel, Sequential
-from skdecide.builders.domain.dynamics import Environment, Simulation, EnumerableTransitions, DeterministicTransitions
-from skdecide.builders.domain.events import Events, Actions
-from skdecide.builders.domain.goals import Goals
-from skdecide.builders.domain.initialization import Initializable, UncertainInitialized, DeterministicInitialized
-from skdecide.builders.domain.memory import History, Markovian
-from skdecide.builders.domain.observability import PartiallyObservable, TransformedObservable, FullyObservable
-from skdecide.builders.domain.value import Rewards, PositiveCosts
-if False:  # trick to avoid circular import & IDE error ("Unresolved reference 'Solver'")
-    from skdecide.solvers import Solver
-
-__all__ = ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain',
-           'GoalMDPDomain', 'GoalPOMDPDomain', 'DeterministicPlanningDomain']
-
-logger = logging.getLogger('skdecide.domains')
-
-logger.setLevel(logging.INFO)
-
-if not len(logger.handlers):
-    ch = logging.StreamHandler()
-    # create formatter and add it to the handlers
-    formatter = logging.Formatter('%(asctime)s | %(name)s | %(levelname)s | %(message)s')
-    ch.setFormatter(formatter)
-    # add the handlers to the logger
-    logger.addHandler(ch)
-    logger.propagate = False
-
-
-# MAIN BASE CLASS
-
-class Domain(MultiAgent, Parallel, Environment, Events, History, PartiallyObservable, Rewards):
-    """This is the highest level domain class (inheriting top-level class for each mandatory domain characteristic).
-
-    This helper class can be used as the main base class for domains.
-
-    Typical use:
-    ```python
-    class D(Domain, ...)
-    ```
-
-    with "..." replaced when needed by a number of classes from following domain characteristics (the ones in
-    parentheses are optional):
-
-    - **agent**: MultiAgent -> SingleAgent
-    - **concurrency**: Parallel -> Sequential
-    - **(constraints)**: Constrained
-    - **dynamics**: Environment -> Simulation -> UncertainTransitions -> EnumerableTransitions
-      -> DeterministicTransitions
-    - **events**: Events -> Actions -> UnrestrictedActions
-    - **(goals)**: Goals
-    - **(initialization)**: Initializable -> UncertainInitialized -> DeterministicInitialized
-    - **memory**: History -> FiniteHistory -> Markovian -> Memoryless
-    - **observability**: PartiallyObservable -> TransformedObservable -> FullyObservable
-    - **(renderability)**: Renderable
-    - **value**: Rewards -> PositiveCosts
-    """
-    T_state = NewType('T_state', object)
-    T_observation = NewType('T_observation', object)
-    T_event = NewType('T_event', object)
-    T_value = NewType('T_value', object)
-    T_info = NewType('T_info', object)
-
-    @classmethod
-    def solve_with(cls, solver: Solver,
-                   domain_factory: Optional[Callable[[], Domain]] = None, load_path: Optional[str] = None) -> Solver:
-        """Solve the domain with a new or loaded solver and return it auto-cast to the level of the domain.
-
-        By default, #Solver.check_domain() provides some boilerplate code and internally
-        calls #Solver._check_domain_additional() (which returns True by default but can be overridden  to define
-        specific checks in addition to the "domain requirements"). The boilerplate code automatically checks whether all
-        domain requirements are met.
-
-        # Parameters
-        solver: The solver.
-        domain_factory: A callable with no argument returning the domain to solve (factory is the domain class if None).
-        load_path: The path to restore the solver state from (if None, the solving process will be launched instead).
-
-        # Returns
-        The new solver (auto-cast to the level of the domain).
-        """
-        if domain_factory is None:
-            domain_factory = cls
-        if load_path is not None:
-
-            # TODO: avoid repeating this code somehow (identical in solver.solve(...))? Is factory necessary (vs cls)?
-            def cast_domain_factory():
-                domain = domain_factory()
-                autocast_all(domain, domain, solver.T_domain)
-                return domain
-
-            solver.load(load_path, cast_domain_factory)
-        else:
-            solver.solve(domain_factory)
-        autocast_all(solver, solver.T_domain, cls)
-        return solver
-
-
-# ALTERNATE BASE CLASSES (for typical combinations)
-
-class RLDomain(Domain, SingleAgent, Sequential, Environment, Actions, Initializable, Markovian, TransformedObservable,
-               Rewards):
-    """This is a typical Reinforcement Learning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - Environment
-    - Actions
-    - Initializable
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(RLDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class MultiAgentRLDomain(Domain, MultiAgent, Sequential, Environment, Actions, Initializable, Markovian,
-                         TransformedObservable, Rewards):
-    """This is a typical multi-agent Reinforcement Learning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - MultiAgent
-    - Sequential
-    - Environment
-    - Actions
-    - Initializable
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(RLDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class StatelessSimulatorDomain(Domain, SingleAgent, Sequential, Simulation, Actions, Markovian, TransformedObservable,
-                               Rewards):
-    """This is a typical stateless simulator domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - Simulation
-    - Actions
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(StatelessSimulatorDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class MDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
-                FullyObservable, Rewards):
-    """This is a typical Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(MDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class POMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, UncertainInitialized, Markovian,
-                  PartiallyObservable, Rewards):
-    """This is a typical Partially Observable Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - UncertainInitialized
-    - Markovian
-    - PartiallyObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(POMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class GoalMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, DeterministicInitialized,
-                    Markovian, FullyObservable, PositiveCosts):
-    """This is a typical Goal Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - Goals
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(GoalMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class GoalPOMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized,
-                      Markovian, PartiallyObservable, PositiveCosts):
-    """This is a typical Goal Partially Observable Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - Goals
-    - UncertainInitialized
-    - Markovian
-    - PartiallyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(GoalPOMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class DeterministicPlanningDomain(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals,
-                                  DeterministicInitialized, Markovian, FullyObservable, PositiveCosts):
-    """This is a typical deterministic planning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - DeterministicTransitions
-    - Actions
-    - Goals
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(DeterministicPlanningDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class ParallelDomain:
-    """Base class for creating and launching n domains in separate processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain i is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        self._domain_factory = domain_factory
-        self._lambdas = lambdas
-        self._active_domains = mp.Array('b', [False for i in range(nb_domains)], lock=True)
-        self._temp_connections = [None] * nb_domains
-        self._ipc_connections = [None] * nb_domains
-        self._processes = [None] * nb_domains
-        self._ipc_notify = ipc_notify
-    
-    def open_ipc_connection(self, i):
-        self._temp_connections[i] = tempfile.NamedTemporaryFile()
-        self._ipc_connections[i] = 'ipc://' + self._temp_connections[i].name + '.ipc'
-    
-    def close_ipc_connection(self, i):
-        self._temp_connections[i].close()
-        self._ipc_connections[i] = None
-    
-    def _launch_processes(self):
-        raise NotImplementedError
-    
-    def close(self):
-        raise NotImplementedError
-
-    def __enter__(self):
-        self._launch_processes()
-        return self
-        
-    def __exit__ (self, type, value, tb):
-        self.close()
-
-    def launch(self, i, name, *args):
-        raise NotImplementedError
-
-    def get_proc_connections(self):  # process connections for use in python
-        raise NotImplementedError
-    
-    def get_ipc_connections(self):  # inter-process connections for use with C++
-        return self._ipc_connections
-    
-    def get_parallel_capacity(self):
-        return self.nb_domains()
-    
-    def nb_domains(self):
-        return len(self._processes)
-    
-    def wake_up_domain(self, i=None):
-        if i is None:
-            while True:
-                for j, v in enumerate(self._active_domains):
-                    if not v:
-                        self._active_domains[j] = True
-                        return j
-        else:
-            self._active_domains[i] = True
-            return i
-    
-    def reset(self, i=None):
-        return self.launch(i, 'reset')
-    
-    def get_initial_state_distribution(self, i=None):
-        return self.launch(i, 'get_initial_state_distribution')
-    
-    def get_initial_state(self, i=None):
-        return self.launch(i, 'get_initial_state')
-    
-    def get_observation_space(self, i=None):
-        return self.launch(i, 'get_observation_space')
-    
-    def is_observation(self, observation, i=None):
-        return self.launch(i, 'is_observation', observation)
-    
-    def get_observation_distribution(self, state, action, i=None):
-        return self.launch(i, 'get_observation_distribution', state, action)
-    
-    def get_observation(self, state, action, i=None):
-        return self.launch(i, 'get_observation', state, action)
-    
-    def get_enabled_events(self, memory, i=None):
-        return self.launch(i, 'get_enabled_events', memory)
-    
-    def is_enabled_event(self, event, memory, i=None):
-        return self.launch(i, 'is_enabled_event', event, memory)
-    
-    def get_action_space(self, i=None):
-        return self.launch(i, 'get_action_space')
-
-    def is_action(self, event, i=None):
-        return self.launch(i, 'is_action', event)
-    
-    def get_applicable_actions(self, memory, i=None):
-        return self.launch(i, 'get_applicable_actions', memory)
-    
-    def is_applicable_action(self, action, memory, i=None):
-        return self.launch(i, 'is_applicable_action', action, memory)
-    
-    def step(self, action, i=None):
-        return self.launch(i, 'step', action)
-    
-    def sample(self, memory, action, i=None):
-        return self.launch(i, 'sample', memory, action)
-    
-    def get_next_state_distribution(self, memory, action, i=None):
-        return self.launch(i, 'get_next_state_distribution', memory, action)
-    
-    def get_next_state(self, memory, action, i=None):
-        return self.launch(i, 'get_next_state', memory, action)
-    
-    def get_transition_value(self, memory, action, next_state, i=None):
-        return self.launch(i, 'get_transition_value', memory, action, next_state)
-    
-    def is_transition_value_dependent_on_next_state(self, i=None):
-        return self.launch(i, 'is_transition_value_dependent_on_next_state')
-    
-    def get_goals(self, i=None):
-        return self.launch(i, 'get_goals')
-    
-    def is_goal(self, observation, i=None):
-        return self.launch(i, 'is_goal', observation)
-    
-    def is_terminal(self, state, i=None):
-        return self.launch(i, 'is_terminal', state)
-    
-    def check_value(self, value, i=None):
-        return self.launch(i, 'check_value', value)
-    
-    def render(self, memory, i=None):
-        return self.launch(i, 'render', memory)
-
-    # Call a lambda function (usually involves the original domain)
-    def call(self, i, lambda_id, *args):
-        return self.launch(i, lambda_id, *args)
-    
-    # The original sequential domain may have methods we don't know
-    def __getattr__(self, name):
-        def method(*args, i=None):
-            return self.launch(i, name, *args)
-        return method
-    
-    # Bypass __getattr_.method() when serializing the class.
-    # Required on Windows when spawning the main process.
-    def __getstate__(self):
-        d = self.__dict__.copy()
-        del d['_temp_connections']  # we cannot serialize a file
-        return d
-
-    # Bypass __getattr_.method() when serializing the class.
-    # Required on Windows when spawning the main process.
-    def __setstate__(self, state):
-        self.__dict__ = state
-        # TODO: reopen the temp connection from _ipc_connections
-
-def _launch_domain_server_(domain_factory, lambdas, i,
-                           job_results, conn, ipc_conn, logger):
-    domain = domain_factory()
-    if ipc_conn is not None:
-        pusher = Push0()
-        pusher.dial(ipc_conn)
-    while True:
-        job = conn.recv()
-        job_results[i] = None
-        if job is None:
-            if ipc_conn is not None:
-                pusher.close()
-            conn.close()
-            break
-        else:
-            try:
-                if isinstance(job[0], str):  # job[0] is a domain class' method
-                    r = getattr(domain, job[0])(*job[1])
-                else:  # job[0] is a lambda function
-                    r = lambdas[job[0]](domain, *job[1])
-                job_results[i] = r
-                if ipc_conn is not None:
-                    pusher.send(b'0')  # send success
-                conn.send('0')  # send success
-            except Exception as e:
-                logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
-                if ipc_conn is not None:
-                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-                else:
-                    conn.send(str(e))  # send failure (!= 0)
-
-class PipeParallelDomain(ParallelDomain):
-    """This class can be used to create and launch n domains in separate processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain i is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
-        self._manager = mp.Manager()
-        self._waiting_jobs = [None] * nb_domains
-        self._job_results = self._manager.list([None for i in range(nb_domains)])
-        logger.info(rf'Using {nb_domains} parallel piped domains')
-    
-    def get_proc_connections(self):
-        return self._waiting_jobs
-    
-    def launch(self, i, function, *args):
-        if not any(self._processes):
-            self._launch_processes()
-        try:
-            mi = self.wake_up_domain(i)
-            self._waiting_jobs[mi].send((function, args))
-            return mi
-        except Exception as e:
-            if isinstance(function, str):
-                logger.error(rf'/!\ Unable to launch job {function}: {e}')
-            else:
-                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
-    
-    def get_result(self, i):
-        self._waiting_jobs[i].recv()
-        r = self._job_results[i]
-        self._job_results[i] = None
-        self._active_domains[i] = False
-        return r
-    
-    def _launch_processes(self):
-        for i in range(len(self._job_results)):
-            self.open_ipc_connection(i)
-            pparent, pchild = mp.Pipe()
-            self._waiting_jobs[i] = pparent
-            self._processes[i] = mp.Process(target=_launch_domain_server_,
-                                            args=[self._domain_factory, self._lambdas, i,
-                                                    self._job_results, pchild,
-                                                    self._ipc_connections[i] if self._ipc_notify else None, logger])
-            self._processes[i].start()
-        # Waits for all jobs to be launched and waiting each for requests
-        while True in set(self._active_domains):
-            continue
-    
-    def close(self):
-        for i in range(len(self._job_results)):
-            self._waiting_jobs[i].send(None)
-            self._processes[i].join()
-            self._processes[i].close()
-            self._waiting_jobs[i].close()
-            self._processes[i] = None
-            self.close_ipc_connection(i)
-
-
-def _shm_launch_domain_server_(domain_factory, lambdas, i,
-                               shm_proxy, shm_registers, shm_types, shm_sizes,
-                               rsize, shm_arrays, shm_lambdas, shm_names, shm_params,
-                               activation, done, cond, ipc_conn, logger):
-    domain = domain_factory()
-    if ipc_conn is not None:
-        pusher = Push0()
-        pusher.dial(ipc_conn)
-    
-    def get_string(s):
-        for i, c in enumerate(s):
-            if c == b'\x00':
-                return s[:i].decode()
-        return s.decode()
-
-    while True:
-        with cond:
-            cond.wait_for(lambda: bool(activation.value) == True)
-            activation.value = False
-        if int(shm_lambdas[i].value) == -1 and shm_names[i][0] == b'\x00':
-            if ipc_conn is not None:
-                pusher.close()
-            break
-        else:
-            try:
-                job_args = []
-                for p in shm_params[i]:
-                    if p >= 0:
-                        sz = shm_sizes[shm_types[p].__name__]
-                        if sz > 1:
-                            si = (i * rsize) + p
-                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[si:(si + sz)]))
-                        else:
-                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[(i * rsize) + p]))
-                    else:
-                        break  # no more args
-                if int(shm_lambdas[i].value) == -1:  # we are working with a domain class' method
-                    result = getattr(domain, get_string(shm_names[i]))(*job_args)
-                else:  # we are working with a lambda function
-                    result = lambdas[int(shm_lambdas[i].value)](domain, *job_args)
-                shm_params[i][:] = [-1] * len(shm_params[i])
-                if type(result) is not tuple:
-                    result = (result,)
-                if result[0] is not None:
-                    type_counters = {}
-                    for j, r in enumerate(result):
-                        res_name = type(r).__name__
-                        (start, end) = shm_registers[res_name]
-                        if res_name in type_counters:
-                            type_counters[res_name] += 1
-                            k = type_counters[res_name]
-                            if (k >= end):
-                                raise IndexError('''No more available register for type {}. 
-                                                    Please increase the number of registers 
-                                                    for that type.'''.format(res_name))
-                        else:
-                            type_counters[res_name] = start
-                            k = start
-                        shm_params[i][j] = k
-                        sz = shm_sizes[res_name]
-                        if sz > 1:
-                            si = (i * rsize) + k
-                            shm_proxy.encode(r, shm_arrays[si:(si + sz)])
-                        else:
-                            shm_proxy.encode(r, shm_arrays[(i * rsize) + k])
-                if ipc_conn is not None:
-                    pusher.send(b'0')  # send success
-            except Exception as e:
-                if int(shm_lambdas[i].value) == -1:
-                    logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
-                else:
-                    logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
-                if ipc_conn is not None:
-                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-            with cond:
-                done.value = True
-                cond.notify_all()  # send finished status (no success nor failure information)
-                
-
-class ShmParallelDomain(ParallelDomain):
-    """This class can be used to create and launch n domains in separate processes
-    with shared memory between the Python processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 shm_proxy,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
-        self._activations = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
-        self._dones = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
-        self._conditions = [mp.Condition() for i in range(nb_domains)]
-        self._shm_proxy = shm_proxy
-        self._shm_registers = {}  # Maps from registered method parameter types to vectorized array ranges
-        self._shm_types = {}  # Maps from register index to type
-        self._shm_sizes = {}  # Maps from register method parameter types to number of arrays encoding each type
-        self._shm_arrays = []  # Methods' vectorized parameters
-        self._rsize = 0  # Total size of the register (updated below)
-        self._shm_lambdas = [None] * nb_domains  # Vectorized lambdas' ids
-        self._shm_names = [None] * nb_domains  # Vectorized methods' names
-        self._shm_params = [None] * nb_domains  # Indices of methods' vectorized parameters
-        for i in range(nb_domains):
-            j = 0
-            for r in shm_proxy.register():
-                for k in range(r[1]):
-                    m = shm_proxy.initialize(r[0])
-                    if type(m) == list or type(m) == tuple:
-                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
-                            self._shm_sizes[r[0].__name__] = len(m)
-                            self._shm_registers[r[0].__name__] = (j, j + (r[1] * len(m)))
-                            self._shm_types.update({kk: r[0] for kk in range(j, j + (r[1] * len(m)), len(m))})
-                            self._rsize += (r[1] * len(m))
-                        self._shm_arrays.extend(m)
-                        j += len(m)
-                    else:
-                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
-                            self._shm_sizes[r[0].__name__] = 1
-                            self._shm_registers[r[0].__name__] = (j, j + r[1])
-                            self._shm_types.update({kk: r[0] for kk in range(j, j + r[1])})
-                            self._rsize += r[1]
-                        self._shm_arrays.append(m)
-                        j += 1
-            self._shm_lambdas[i] = mp.Value('i', -1, lock=True)
-            self._shm_names[i] = mp.Array('c', bytearray(100))
-            self._shm_params[i] = mp.Array('i', [-1] * sum(r[1] for r in shm_proxy.register()))
-        logger.info(rf'Using {nb_domains} parallel shared memory domains')
-    
-    def get_proc_connections(self):
-        return (self._activations, self._conditions)
-    
-    def launch(self, i, function, *args):
-        if not any(self._processes):
-            self._launch_processes()
-        try:
-            mi = self.wake_up_domain(i)
-            if isinstance(function, str):  # function is a domain class' method
-                self._shm_lambdas[mi].value = -1
-                self._shm_names[mi][:] = bytearray(function, encoding='utf-8') + \
-                                         bytearray(len(self._shm_names[mi]) - len(function))
-            else:  # function is a lambda id
-                self._shm_lambdas[mi].value = int(function)
-                self._shm_names[mi][:] = bytearray(len(self._shm_names[mi]))  # reset with null bytes
-            self._shm_params[mi][:] = [-1] * len(self._shm_params[mi])
-            type_counters = {}
-            for j, a in enumerate(args):
-                arg_name = type(a).__name__
-                (start, end) = self._shm_registers[arg_name]
-                if arg_name in type_counters:
-                    type_counters[arg_name] += self._shm_sizes[arg_name]
-                    k = type_counters[arg_name]
-                    if (k >= end):
-                        raise IndexError('''No more available register for type {}. 
-                                            Please increase the number of registers 
-                                            for that type.'''.format(arg_name))
-                else:
-                    type_counters[arg_name] = start
-                    k = start
-                self._shm_params[mi][j] = k
-                sz = self._shm_sizes[arg_name]
-                if sz > 1:
-                    si = (mi * self._rsize) + k
-                    self._shm_proxy.encode(a, self._shm_arrays[si:(si + sz)])
-                else:
-                    self._shm_proxy.encode(a, self._shm_arrays[(mi * self._rsize) + k])
-            with self._conditions[mi]:
-                self._activations[mi].value = True
-                self._conditions[mi].notify_all()
-            return mi
-        except Exception as e:
-            if isinstance(function, str):
-                logger.error(rf'/!\ Unable to launch job {function}: {e}')
-            else:
-                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
-    
-    def get_result(self, i):
-        with self._conditions[i]:
-            self._conditions[i].wait_for(lambda: bool(self._dones[i].value) == True)
-            self._dones[i].value = False
-        results = []
-        for r in self._shm_params[i]:
-            if r >= 0:
-                sz = self._shm_sizes[self._shm_types[r].__name__]
-                if sz > 1:
-                    si = (i * self._rsize) + r
-                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[si:(si + sz)]))
-                else:
-                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[(i * self._rsize) + r]))
-            else:
-                break  # no more params
-        self._active_domains[i] = False
-        return results if len(results) > 1 else results[0] if len(results) > 0 else None
-    
-    def _launch_processes(self):
-        for i in range(len(self._processes)):
-            self.open_ipc_connection(i)
-            self._processes[i] = mp.Process(target=_shm_launch_domain_server_,
-                                            args=[self._domain_factory, self._lambdas, i,
-                                                    self._shm_proxy.copy(),
-                                                    dict(self._shm_registers),
-                                                    dict(self._shm_types),
-                                                    dict(self._shm_sizes),
-                                                    self._rsize, list(self._shm_arrays),
-                                                    list(self._shm_lambdas), list(self._shm_names), list(self._shm_params),
-                                                    self._activations[i], self._dones[i], self._conditions[i],
-                                                    self._ipc_connections[i] if self._ipc_notify else None,
-                                                    logger])
-            self._processes[i].start()
-        # Waits for all jobs to be launched and waiting each for requests
-        while True in set(self._active_domains):
-            continue
-    
-    def close(self):
-        for i in range(len(self._processes)):
-            self._shm_lambdas[i].value = -1
-            self._shm_names[i][:] = bytearray(len(self._shm_names[i]))  # reset with null bytes
-            self._shm_params[i][:] = [-1] * len(self._shm_params[i])
-            with self._conditions[i]:
-                self._activations[i].value = True
-                self._conditions[i].notify_all()
-            self._processes[i].join()
-            self._processes[i].close()
-            self._processes[i] = None
-            self.close_ipc_connection(i)
+# Copyright (c) AIRBUS and its affiliates.
+# This source code is licensed under the MIT license found in the
+# LICENSE file in the root directory of this source tree.
+
+"""This module contains base classes for quickly building domains."""
+from __future__ import annotations
+
+import os
+import logging
+from typing import NewType, Optional, Callable
+
+from pathos.helpers import mp
+import tempfile
+from pynng import Push0
+
+# Following import is required to make Enum objects serializable
+# (useful when multiprocessing and pickling domains that use Enum classes)
+import dill
+dill.settings['byref'] = True
+
+from skdecide.core import autocast_all
+from skdecide.builders.domain.agent import MultiAgent, SingleAgent
+from skdecide.builders.domain.concurrency import Parallel, Sequential
+from skdecide.builders.domain.dynamics import Environment, Simulation, EnumerableTransitions, DeterministicTransitions
+from skdecide.builders.domain.events import Events, Actions
+from skdecide.builders.domain.goals import Goals
+from skdecide.builders.domain.initialization import Initializable, UncertainInitialized, DeterministicInitialized
+from skdecide.builders.domain.memory import History, Markovian
+from skdecide.builders.domain.observability import PartiallyObservable, TransformedObservable, FullyObservable
+from skdecide.builders.domain.value import Rewards, PositiveCosts
+if False:  # trick to avoid circular import & IDE error ("Unresolved reference 'Solver'")
+    from skdecide.solvers import Solver
+
+__all__ = ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain',
+           'GoalMDPDomain', 'GoalPOMDPDomain', 'DeterministicPlanningDomain']
+
+logger = logging.getLogger('skdecide.domains')
+
+logger.setLevel(logging.INFO)
+
+if not len(logger.handlers):
+    ch = logging.StreamHandler()
+    # create formatter and add it to the handlers
+    formatter = logging.Formatter('%(asctime)s | %(name)s | %(levelname)s | %(message)s')
+    ch.setFormatter(formatter)
+    # add the handlers to the logger
+    logger.addHandler(ch)
+    logger.propagate = False
+
+
+# MAIN BASE CLASS
+
+class Domain(MultiAgent, Parallel, Environment, Events, History, PartiallyObservable, Rewards):
+    """This is the highest level domain class (inheriting top-level class for each mandatory domain characteristic).
+
+    This helper class can be used as the main base class for domains.
+
+    Typical use:
+    ```python
+    class D(Domain, ...)
+    ```
+
+    with "..." replaced when needed by a number of classes from following domain characteristics (the ones in
+    parentheses are optional):
+
+    - **agent**: MultiAgent -> SingleAgent
+    - **concurrency**: Parallel -> Sequential
+    - **(constraints)**: Constrained
+    - **dynamics**: Environment -> Simulation -> UncertainTransitions -> EnumerableTransitions
+      -> DeterministicTransitions
+    - **events**: Events -> Actions -> UnrestrictedActions
+    - **(goals)**: Goals
+    - **(initialization)**: Initializable -> UncertainInitialized -> DeterministicInitialized
+    - **memory**: History -> FiniteHistory -> Markovian -> Memoryless
+    - **observability**: PartiallyObservable -> TransformedObservable -> FullyObservable
+    - **(renderability)**: Renderable
+    - **value**: Rewards -> PositiveCosts
+    """
+    T_state = NewType('T_state', object)
+    T_observation = NewType('T_observation', object)
+    T_event = NewType('T_event', object)
+    T_value = NewType('T_value', object)
+    T_info = NewType('T_info', object)
+
+    @classmethod
+    def solve_with(cls, solver: Solver,
+                   domain_factory: Optional[Callable[[], Domain]] = None, load_path: Optional[str] = None) -> Solver:
+        """Solve the domain with a new or loaded solver and return it auto-cast to the level of the domain.
+
+        By default, #Solver.check_domain() provides some boilerplate code and internally
+        calls #Solver._check_domain_additional() (which returns True by default but can be overridden  to define
+        specific checks in addition to the "domain requirements"). The boilerplate code automatically checks whether all
+        domain requirements are met.
+
+        # Parameters
+        solver: The solver.
+        domain_factory: A callable with no argument returning the domain to solve (factory is the domain class if None).
+        load_path: The path to restore the solver state from (if None, the solving process will be launched instead).
+
+        # Returns
+        The new solver (auto-cast to the level of the domain).
+        """
+        if domain_factory is None:
+            domain_factory = cls
+        if load_path is not None:
+
+            # TODO: avoid repeating this code somehow (identical in solver.solve(...))? Is factory necessary (vs cls)?
+            def cast_domain_factory():
+                domain = domain_factory()
+                autocast_all(domain, domain, solver.T_domain)
+                return domain
+
+            solver.load(load_path, cast_domain_factory)
+        else:
+            solver.solve(domain_factory)
+        autocast_all(solver, solver.T_domain, cls)
+        return solver
+
+
+# ALTERNATE BASE CLASSES (for typical combinations)
+
+class RLDomain(Domain, SingleAgent, Sequential, Environment, Actions, Initializable, Markovian, TransformedObservable,
+               Rewards):
+    """This is a typical Reinforcement Learning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - Environment
+    - Actions
+    - Initializable
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(RLDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class MultiAgentRLDomain(Domain, MultiAgent, Sequential, Environment, Actions, Initializable, Markovian,
+                         TransformedObservable, Rewards):
+    """This is a typical multi-agent Reinforcement Learning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - MultiAgent
+    - Sequential
+    - Environment
+    - Actions
+    - Initializable
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(RLDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class StatelessSimulatorDomain(Domain, SingleAgent, Sequential, Simulation, Actions, Markovian, TransformedObservable,
+                               Rewards):
+    """This is a typical stateless simulator domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - Simulation
+    - Actions
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(StatelessSimulatorDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class MDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
+                FullyObservable, Rewards):
+    """This is a typical Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(MDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class POMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, UncertainInitialized, Markovian,
+                  PartiallyObservable, Rewards):
+    """This is a typical Partially Observable Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - UncertainInitialized
+    - Markovian
+    - PartiallyObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(POMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class GoalMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, DeterministicInitialized,
+                    Markovian, FullyObservable, PositiveCosts):
+    """This is a typical Goal Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - Goals
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(GoalMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class GoalPOMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized,
+                      Markovian, PartiallyObservable, PositiveCosts):
+    """This is a typical Goal Partially Observable Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - Goals
+    - UncertainInitialized
+    - Markovian
+    - PartiallyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(GoalPOMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class DeterministicPlanningDomain(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals,
+                                  DeterministicInitialized, Markovian, FullyObservable, PositiveCosts):
+    """This is a typical deterministic planning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - DeterministicTransitions
+    - Actions
+    - Goals
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(DeterministicPlanningDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class ParallelDomain:
+    """Base class for creating and launching n domains in separate processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain i is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        self._domain_factory = domain_factory
+        self._lambdas = lambdas
+        self._active_domains = mp.Array('b', [False for i in range(nb_domains)], lock=True)
+        self._temp_connections = [None] * nb_domains
+        self._ipc_connections = [None] * nb_domains
+        self._processes = [None] * nb_domains
+        self._ipc_notify = ipc_notify
+    
+    def open_ipc_connection(self, i):
+        self._temp_connections[i] = tempfile.NamedTemporaryFile()
+        self._ipc_connections[i] = 'ipc://' + self._temp_connections[i].name + '.ipc'
+    
+    def close_ipc_connection(self, i):
+        self._temp_connections[i].close()
+        self._ipc_connections[i] = None
+    
+    def _launch_processes(self):
+        raise NotImplementedError
+    
+    def close(self):
+        raise NotImplementedError
+
+    def __enter__(self):
+        self._launch_processes()
+        return self
+        
+    def __exit__ (self, type, value, tb):
+        self.close()
+
+    def launch(self, i, name, *args):
+        raise NotImplementedError
+
+    def get_proc_connections(self):  # process connections for use in python
+        raise NotImplementedError
+    
+    def get_ipc_connections(self):  # inter-process connections for use with C++
+        return self._ipc_connections
+    
+    def get_parallel_capacity(self):
+        return self.nb_domains()
+    
+    def nb_domains(self):
+        return len(self._processes)
+    
+    def wake_up_domain(self, i=None):
+        if i is None:
+            while True:
+                for j, v in enumerate(self._active_domains):
+                    if not v:
+                        self._active_domains[j] = True
+                        return j
+        else:
+            self._active_domains[i] = True
+            return i
+    
+    def reset(self, i=None):
+        return self.launch(i, 'reset')
+    
+    def get_initial_state_distribution(self, i=None):
+        return self.launch(i, 'get_initial_state_distribution')
+    
+    def get_initial_state(self, i=None):
+        return self.launch(i, 'get_initial_state')
+    
+    def get_observation_space(self, i=None):
+        return self.launch(i, 'get_observation_space')
+    
+    def is_observation(self, observation, i=None):
+        return self.launch(i, 'is_observation', observation)
+    
+    def get_observation_distribution(self, state, action, i=None):
+        return self.launch(i, 'get_observation_distribution', state, action)
+    
+    def get_observation(self, state, action, i=None):
+        return self.launch(i, 'get_observation', state, action)
+    
+    def get_enabled_events(self, memory, i=None):
+        return self.launch(i, 'get_enabled_events', memory)
+    
+    def is_enabled_event(self, event, memory, i=None):
+        return self.launch(i, 'is_enabled_event', event, memory)
+    
+    def get_action_space(self, i=None):
+        return self.launch(i, 'get_action_space')
+
+    def is_action(self, event, i=None):
+        return self.launch(i, 'is_action', event)
+    
+    def get_applicable_actions(self, memory, i=None):
+        return self.launch(i, 'get_applicable_actions', memory)
+    
+    def is_applicable_action(self, action, memory, i=None):
+        return self.launch(i, 'is_applicable_action', action, memory)
+    
+    def step(self, action, i=None):
+        return self.launch(i, 'step', action)
+    
+    def sample(self, memory, action, i=None):
+        return self.launch(i, 'sample', memory, action)
+    
+    def get_next_state_distribution(self, memory, action, i=None):
+        return self.launch(i, 'get_next_state_distribution', memory, action)
+    
+    def get_next_state(self, memory, action, i=None):
+        return self.launch(i, 'get_next_state', memory, action)
+    
+    def get_transition_value(self, memory, action, next_state, i=None):
+        return self.launch(i, 'get_transition_value', memory, action, next_state)
+    
+    def is_transition_value_dependent_on_next_state(self, i=None):
+        return self.launch(i, 'is_transition_value_dependent_on_next_state')
+    
+    def get_goals(self, i=None):
+        return self.launch(i, 'get_goals')
+    
+    def is_goal(self, observation, i=None):
+        return self.launch(i, 'is_goal', observation)
+    
+    def is_terminal(self, state, i=None):
+        return self.launch(i, 'is_terminal', state)
+    
+    def check_value(self, value, i=None):
+        return self.launch(i, 'check_value', value)
+    
+    def render(self, memory, i=None):
+        return self.launch(i, 'render', memory)
+
+    # Call a lambda function (usually involves the original domain)
+    def call(self, i, lambda_id, *args):
+        return self.launch(i, lambda_id, *args)
+    
+    # The original sequential domain may have methods we don't know
+    def __getattr__(self, name):
+        def method(*args, i=None):
+            return self.launch(i, name, *args)
+        return method
+    
+    # Bypass __getattr_.method() when serializing the class.
+    # Required on Windows when spawning the main process.
+    def __getstate__(self):
+        d = self.__dict__.copy()
+        del d['_temp_connections']  # we cannot serialize a file
+        return d
+
+    # Bypass __getattr_.method() when serializing the class.
+    # Required on Windows when spawning the main process.
+    def __setstate__(self, state):
+        self.__dict__ = state
+        # TODO: reopen the temp connection from _ipc_connections
+
+def _launch_domain_server_(domain_factory, lambdas, i,
+                           job_results, conn, ipc_conn, logger):
+    domain = domain_factory()
+    if ipc_conn is not None:
+        pusher = Push0()
+        pusher.dial(ipc_conn)
+    while True:
+        job = conn.recv()
+        job_results[i] = None
+        if job is None:
+            if ipc_conn is not None:
+                pusher.close()
+            conn.close()
+            break
+        else:
+            try:
+                if isinstance(job[0], str):  # job[0] is a domain class' method
+                    r = getattr(domain, job[0])(*job[1])
+                else:  # job[0] is a lambda function
+                    r = lambdas[job[0]](domain, *job[1])
+                job_results[i] = r
+                if ipc_conn is not None:
+                    pusher.send(b'0')  # send success
+                conn.send('0')  # send success
+            except Exception as e:
+                logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
+                if ipc_conn is not None:
+                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
+                else:
+                    conn.send(str(e))  # send failure (!= 0)
+
+class PipeParallelDomain(ParallelDomain):
+    """This class can be used to create and launch n domains in separate processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain i is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
+        self._manager = mp.Manager()
+        self._waiting_jobs = [None] * nb_domains
+        self._job_results = self._manager.list([None for i in range(nb_domains)])
+        logger.info(rf'Using {nb_domains} parallel piped domains')
+    
+    def get_proc_connections(self):
+        return self._waiting_jobs
+    
+    def launch(self, i, function, *args):
+        if not any(self._processes):
+            self._launch_processes()
+        try:
+            mi = self.wake_up_domain(i)
+            self._waiting_jobs[mi].send((function, args))
+            return mi
+        except Exception as e:
+            if isinstance(function, str):
+                logger.error(rf'/!\ Unable to launch job {function}: {e}')
+            else:
+                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
+    
+    def get_result(self, i):
+        self._waiting_jobs[i].recv()
+        r = self._job_results[i]
+        self._job_results[i] = None
+        self._active_domains[i] = False
+        return r
+    
+    def _launch_processes(self):
+        for i in range(len(self._job_results)):
+            self.open_ipc_connection(i)
+            pparent, pchild = mp.Pipe()
+            self._waiting_jobs[i] = pparent
+            self._processes[i] = mp.Process(target=_launch_domain_server_,
+                                            args=[self._domain_factory, self._lambdas, i,
+                                                    self._job_results, pchild,
+                                                    self._ipc_connections[i] if self._ipc_notify else None, logger])
+            self._processes[i].start()
+        # Waits for all jobs to be launched and waiting each for requests
+        while True in set(self._active_domains):
+            continue
+    
+    def close(self):
+        for i in range(len(self._job_results)):
+            self._waiting_jobs[i].send(None)
+            self._processes[i].join()
+            self._processes[i].close()
+            self._waiting_jobs[i].close()
+            self._processes[i] = None
+            self.close_ipc_connection(i)
+
+
+def _shm_launch_domain_server_(domain_factory, lambdas, i,
+                               shm_proxy, shm_registers, shm_types, shm_sizes,
+                               rsize, shm_arrays, shm_lambdas, shm_names, shm_params,
+                               activation, done, cond, ipc_conn, logger):
+    domain = domain_factory()
+    if ipc_conn is not None:
+        pusher = Push0()
+        pusher.dial(ipc_conn)
+    
+    def get_string(s):
+        for i, c in enumerate(s):
+            if c == b'\x00':
+                return s[:i].decode()
+        return s.decode()
+
+    while True:
+        with cond:
+            cond.wait_for(lambda: bool(activation.value) == True)
+            activation.value = False
+        if int(shm_lambdas[i].value) == -1 and shm_names[i][0] == b'\x00':
+            if ipc_conn is not None:
+                pusher.close()
+            break
+        else:
+            try:
+                job_args = []
+                for p in shm_params[i]:
+                    if p >= 0:
+                        sz = shm_sizes[shm_types[p].__name__]
+                        if sz > 1:
+                            si = (i * rsize) + p
+                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[si:(si + sz)]))
+                        else:
+                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[(i * rsize) + p]))
+                    else:
+                        break  # no more args
+                if int(shm_lambdas[i].value) == -1:  # we are working with a domain class' method
+                    result = getattr(domain, get_string(shm_names[i]))(*job_args)
+                else:  # we are working with a lambda function
+                    result = lambdas[int(shm_lambdas[i].value)](domain, *job_args)
+                shm_params[i][:] = [-1] * len(shm_params[i])
+                if type(result) is not tuple:
+                    result = (result,)
+                if result[0] is not None:
+                    type_counters = {}
+                    for j, r in enumerate(result):
+                        res_name = type(r).__name__
+                        (start, end) = shm_registers[res_name]
+                        if res_name in type_counters:
+                            type_counters[res_name] += shm_sizes[res_name]
+                            k = type_counters[res_name]
+                            if (k >= end):
+                                raise IndexError('''No more available register for type {}. 
+                                                    Please increase the number of registers 
+                                                    for that type.'''.format(res_name))
+                        else:
+                            type_counters[res_name] = start
+                            k = start
+                        shm_params[i][j] = k
+                        sz = shm_sizes[res_name]
+                        if sz > 1:
+                            si = (i * rsize) + k
+                            shm_proxy.encode(r, shm_arrays[si:(si + sz)])
+                        else:
+                            shm_proxy.encode(r, shm_arrays[(i * rsize) + k])
+                if ipc_conn is not None:
+                    pusher.send(b'0')  # send success
+            except Exception as e:
+                if int(shm_lambdas[i].value) == -1:
+                    logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
+                else:
+                    logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
+                if ipc_conn is not None:
+                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
+            with cond:
+                done.value = True
+                cond.notify_all()  # send finished status (no success nor failure information)
+                
+
+class ShmParallelDomain(ParallelDomain):
+    """This class can be used to create and launch n domains in separate processes
+    with shared memory between the Python processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 shm_proxy,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
+        self._activations = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
+        self._dones = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
+        self._conditions = [mp.Condition() for i in range(nb_domains)]
+        self._shm_proxy = shm_proxy
+        self._shm_registers = {}  # Maps from registered method parameter types to vectorized array ranges
+        self._shm_types = {}  # Maps from register index to type
+        self._shm_sizes = {}  # Maps from register method parameter types to number of arrays encoding each type
+        self._shm_arrays = []  # Methods' vectorized parameters
+        self._rsize = 0  # Total size of the register (updated below)
+        self._shm_lambdas = [None] * nb_domains  # Vectorized lambdas' ids
+        self._shm_names = [None] * nb_domains  # Vectorized methods' names
+        self._shm_params = [None] * nb_domains  # Indices of methods' vectorized parameters
+        for i in range(nb_domains):
+            j = 0
+            for r in shm_proxy.register():
+                for k in range(r[1]):
+                    m = shm_proxy.initialize(r[0])
+                    if type(m) == list or type(m) == tuple:
+                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
+                            self._shm_sizes[r[0].__name__] = len(m)
+                            self._shm_registers[r[0].__name__] = (j, j + (r[1] * len(m)))
+                            self._shm_types.update({kk: r[0] for kk in range(j, j + (r[1] * len(m)), len(m))})
+                            self._rsize += (r[1] * len(m))
+                        self._shm_arrays.extend(m)
+                        j += len(m)
+                    else:
+                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
+                            self._shm_sizes[r[0].__name__] = 1
+                            self._shm_registers[r[0].__name__] = (j, j + r[1])
+                            self._shm_types.update({kk: r[0] for kk in range(j, j + r[1])})
+                            self._rsize += r[1]
+                        self._shm_arrays.append(m)
+                        j += 1
+            self._shm_lambdas[i] = mp.Value('i', -1, lock=True)
+            self._shm_names[i] = mp.Array('c', bytearray(100))
+            self._shm_params[i] = mp.Array('i', [-1] * sum(r[1] for r in shm_proxy.register()))
+        logger.info(rf'Using {nb_domains} parallel shared memory domains')
+    
+    def get_proc_connections(self):
+        return (self._activations, self._conditions)
+    
+    def launch(self, i, function, *args):
+        if not any(self._processes):
+            self._launch_processes()
+        try:
+            mi = self.wake_up_domain(i)
+            if isinstance(function, str):  # function is a domain class' method
+                self._shm_lambdas[mi].value = -1
+                self._shm_names[mi][:] = bytearray(function, encoding='utf-8') + \
+                                         bytearray(len(self._shm_names[mi]) - len(function))
+            else:  # function is a lambda id
+                self._shm_lambdas[mi].value = int(function)
+                self._shm_names[mi][:] = bytearray(len(self._shm_names[mi]))  # reset with null bytes
+            self._shm_params[mi][:] = [-1] * len(self._shm_params[mi])
+            type_counters = {}
+            for j, a in enumerate(args):
+                arg_name = type(a).__name__
+                (start, end) = self._shm_registers[arg_name]
+                if arg_name in type_counters:
+                    type_counters[arg_name] += self._shm_sizes[arg_name]
+                    k = type_counters[arg_name]
+                    if (k >= end):
+                        raise IndexError('''No more available register for type {}. 
+                                            Please increase the number of registers 
+                                            for that type.'''.format(arg_name))
+                else:
+                    type_counters[arg_name] = start
+                    k = start
+                self._shm_params[mi][j] = k
+                sz = self._shm_sizes[arg_name]
+                if sz > 1:
+                    si = (mi * self._rsize) + k
+                    self._shm_proxy.encode(a, self._shm_arrays[si:(si + sz)])
+                else:
+                    self._shm_proxy.encode(a, self._shm_arrays[(mi * self._rsize) + k])
+            with self._conditions[mi]:
+                self._activations[mi].value = True
+                self._conditions[mi].notify_all()
+            return mi
+        except Exception as e:
+            if isinstance(function, str):
+                logger.error(rf'/!\ Unable to launch job {function}: {e}')
+            else:
+                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
+    
+    def get_result(self, i):
+        with self._conditions[i]:
+            self._conditions[i].wait_for(lambda: bool(self._dones[i].value) == True)
+            self._dones[i].value = False
+        results = []
+        for r in self._shm_params[i]:
+            if r >= 0:
+                sz = self._shm_sizes[self._shm_types[r].__name__]
+                if sz > 1:
+                    si = (i * self._rsize) + r
+                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[si:(si + sz)]))
+                else:
+                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[(i * self._rsize) + r]))
+            else:
+                break  # no more params
+        self._active_domains[i] = False
+        return results if len(results) > 1 else results[0] if len(results) > 0 else None
+    
+    def _launch_processes(self):
+        for i in range(len(self._processes)):
+            self.open_ipc_connection(i)
+            self._processes[i] = mp.Process(target=_shm_launch_domain_server_,
+                                            args=[self._domain_factory, self._lambdas, i,
+                                                    self._shm_proxy.copy(),
+                                                    dict(self._shm_registers),
+                                                    dict(self._shm_types),
+                                                    dict(self._shm_sizes),
+                                                    self._rsize, list(self._shm_arrays),
+                                                    list(self._shm_lambdas), list(self._shm_names), list(self._shm_params),
+                                                    self._activations[i], self._dones[i], self._conditions[i],
+                                                    self._ipc_connections[i] if self._ipc_notify else None,
+                                                    logger])
+            self._processes[i].start()
+        # Waits for all jobs to be launched and waiting each for requests
+        while True in set(self._active_domains):
+            continue
+    
+    def close(self):
+        for i in range(len(self._processes)):
+            self._shm_lambdas[i].value = -1
+            self._shm_names[i][:] = bytearray(len(self._shm_names[i]))  # reset with null bytes
+            self._shm_params[i][:] = [-1] * len(self._shm_params[i])
+            with self._conditions[i]:
+                self._activations[i].value = True
+                self._conditions[i].notify_all()
+            self._processes[i].join()
+            self._processes[i].close()
+            self._processes[i] = None
+            self.close_ipc_connection(i)
-- 
2.43.0


From aeedb2db0789fbb7b3ee8ba3d7f9d0c318a0fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 10/77] fix: a failed shared-memory job returns no result
 instead of its own arguments

---
 skdecide/domains.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 1de9511..058a818 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -691,6 +691,7 @@ def _shm_launch_domain_server_(domain_factory, lambdas, i,
                     logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
                 if ipc_conn is not None:
                     pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
+                shm_params[i][:] = [-1] * len(shm_params[i])  # no result (neither arguments nor partial results)
             with cond:
                 done.value = True
                 cond.notify_all()  # send finished status (no success nor failure information)
-- 
2.43.0


From 579c75f262f07d791fa430d9f82a2221d5447c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 11/77] fix: every feasible mode of a task can be started or
 resumed, not only the last one

---
 skdecide/builders/scheduling/scheduling_domains.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 2557166..6a86682 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -672,8 +672,10 @@ class SchedulingDomain(WithPrecedence,
                                                                           time=state.t) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
-        return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
-                for n, mode in possible_task_with_ressource}
+        possible_tasks = {}
+        for n, mode in possible_task_with_ressource:
+            possible_tasks.setdefault(n, {})[mode] = self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)
+        return possible_tasks
 
     def get_possible_resume_tasks(self, state: State):
         possible_task_precedence = [(n, mode)
@@ -691,8 +693,10 @@ class SchedulingDomain(WithPrecedence,
                                                                           time=state.t) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
-        return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
-                for n, mode in possible_task_with_ressource}
+        possible_tasks = {}
+        for n, mode in possible_task_with_ressource:
+            possible_tasks.setdefault(n, {})[mode] = self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)
+        return possible_tasks
 
     def state_is_overconsuming(self, state: State):
         return any(state.resource_used[k] > state.resource_availability[k] for k in state.resource_used)
-- 
2.43.0


From 403ff31fc3e2a20ebf061ed319a3e65cec62320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 12/77] fix: resource needs of startable and resumable tasks
 are read at the time since their start, not at the current time

---
 skdecide/builders/scheduling/scheduling_domains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 6a86682..dbea47f 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -669,7 +669,7 @@ class SchedulingDomain(WithPrecedence,
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.t) >= 0
+                                                                          time=0) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
         possible_tasks = {}
@@ -690,7 +690,8 @@ class SchedulingDomain(WithPrecedence,
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.t) >= 0
+                                                                          time=state.tasks_details[n]
+                                                                          .get_task_active_time(state.t)) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
         possible_tasks = {}
-- 
2.43.0


From cdc03639ef557287d8078576742cd4c05e0081f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 13/77] fix: the active time of a currently paused task no
 longer raises IndexError

---
 skdecide/builders/scheduling/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/task.py b/skdecide/builders/scheduling/task.py
index c86d367..0e0f6ec 100644
--- a/skdecide/builders/scheduling/task.py
+++ b/skdecide/builders/scheduling/task.py
@@ -41,7 +41,7 @@ class Task:
         time_since_start = tt - self.start
         time_paused = 0
         for i in range(len(self.paused)):
-            time_paused += self.resumed[i] - self.paused[i]
+            time_paused += (self.resumed[i] if i < len(self.resumed) else tt) - self.paused[i]
         total_active_time = time_since_start - time_paused
         return total_active_time
 
-- 
2.43.0


From eff3100a1c41d2aac874464bb224f01f2ec2719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 14/77] fix: a task that cannot be resumed stays paused, and
 resuming without a mode uses the task's current mode

---
 skdecide/builders/scheduling/scheduling_domains.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index dbea47f..a308b3e 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -488,13 +488,17 @@ class SchedulingDomain(WithPrecedence,
             mode = action.mode  # use mode specified in action if any
             if mode is None:
                 mode = state.tasks_mode[resumed_task]  # or use previous mode
-            next_state.tasks_ongoing.add(resumed_task)
-            next_state.tasks_paused.remove(resumed_task)
-            next_state.tasks_details[resumed_task].resumed.append(next_state.t) # Need to call this before get_task_active_time()
-            time_since_start = next_state.tasks_details[resumed_task].get_task_active_time(next_state.t)
-            b, resource_to_use = self.check_if_action_can_be_started(next_state, action=action)
+            b, resource_to_use = self.check_if_action_can_be_started(
+                next_state, action=SchedulingAction(task=resumed_task,
+                                                    action=action.action,
+                                                    mode=mode,
+                                                    time_progress=action.time_progress,
+                                                    resource_unit_names=action.resource_unit_names))
             if not b:
                 return next_state
+            next_state.tasks_ongoing.add(resumed_task)
+            next_state.tasks_paused.remove(resumed_task)
+            next_state.tasks_details[resumed_task].resumed.append(next_state.t)
             for res in resource_to_use:
                 next_state.resource_used[res] += resource_to_use[res]
             next_state.resource_used_for_task[resumed_task] = resource_to_use
-- 
2.43.0


From c021aca329fcf54890d23983cf35c174d14c63b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 15/77] fix: pausing a task looks up by task whether its
 non-renewable resources are returned

---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index a308b3e..4ac94e2 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -460,7 +460,7 @@ class SchedulingDomain(WithPrecedence,
             for res in next_state.resource_used_for_task[paused_task]:
                 res_consumption = next_state.resource_used_for_task[paused_task][res]
                 if self.is_renewable(res) or (not self.is_renewable(res)
-                                              and self.get_task_paused_non_renewable_resource_returned()[res]):
+                                              and self.get_task_paused_non_renewable_resource_returned()[paused_task]):
                     next_state.resource_used[res] -= res_consumption
             next_state.resource_used_for_task.pop(paused_task)
             next_state.tasks_details[paused_task].paused.append(next_state.t)
-- 
2.43.0


From c45c7eeb789c7edf42f305841ffa0f5ff83320a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 16/77] fix: tasks of duration zero give their renewable
 resources back when they complete

---
 skdecide/builders/scheduling/scheduling_domains.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 4ac94e2..e449d86 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -425,7 +425,9 @@ class SchedulingDomain(WithPrecedence,
                 next_state.tasks_progress[task] = 1
                 next_state.tasks_ongoing.remove(task)
                 next_state.tasks_details[task].end = next_state.t
-                next_state.resource_used_for_task.pop(task)
+                for res, res_consumption in next_state.resource_used_for_task.pop(task).items():
+                    if self.is_renewable(res):
+                        next_state.resource_used[res] -= res_consumption
         return next_state
 
     def update_complete_dummy_tasks_uncertain(self, states: DiscreteDistribution[State], action: SchedulingAction):
@@ -440,7 +442,9 @@ class SchedulingDomain(WithPrecedence,
                     next_state.tasks_progress[task] = 1
                     next_state.tasks_ongoing.remove(task)
                     next_state.tasks_details[task].end = next_state.t
-                    next_state.resource_used_for_task.pop(task)
+                    for res, res_consumption in next_state.resource_used_for_task.pop(task).items():
+                        if self.is_renewable(res):
+                            next_state.resource_used[res] -= res_consumption
         return next_states
 
     def update_complete_dummy_tasks_simulation(self, state: State, action: SchedulingAction):
-- 
2.43.0


From 01725b13a02866bfead5acb2b9e5eba5faf91d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 17/77] fix: the outcomes of a time step keep their
 probabilities, and independent completion conditions of a task combine

---
 skdecide/builders/scheduling/scheduling_domains.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index e449d86..d3d96cb 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -360,7 +360,7 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
 
         states_and_proba = []
-        for next_state, _ in next_states.get_values():
+        for next_state, prob in next_states.get_values():
             completed_tmp = []
             for task_id in next_state.tasks_ongoing:
                 if next_state.tasks_progress[task_id] >= 0.9999:
@@ -379,15 +379,15 @@ class SchedulingDomain(WithPrecedence,
                 next_state.resource_used_for_task.pop(completed_task)
                 next_state.tasks_details[completed_task].end = next_state.t+1  # WARNING : considering how it's coded, we should put +1 here.
                 if completed_task in self.get_task_on_completion_added_conditions():
-                    all_models[completed_task] = []
                     for i in range(len(self.get_task_on_completion_added_conditions()[completed_task])):
+                        all_models[(completed_task, i)] = []
                         for j in range(len(self.get_task_on_completion_added_conditions()[completed_task][i].get_values())):
                             all_values.append({'task': completed_task,
                                                'cond': self.get_task_on_completion_added_conditions()[completed_task][i]
                                               .get_values()[j][0],
                                                'prob': self.get_task_on_completion_added_conditions()[completed_task][i]
                                               .get_values()[j][1]})
-                            all_models[completed_task].append(len(all_values)-1)
+                            all_models[(completed_task, i)].append(len(all_values)-1)
 
             combinations = list(product(*all_models.values()))
             # for comb in combinations:
@@ -400,7 +400,7 @@ class SchedulingDomain(WithPrecedence,
             for comb in combinations:
                 do_copy = len(comb) > 0
                 next_state_2 = next_state.copy() if do_copy else next_state
-                proba = 1.
+                proba = prob
                 for i in comb:
                     next_state_2._current_conditions.add(all_values[i]['cond'])
                     proba *= all_values[i]['prob']
-- 
2.43.0


From a02920fb6ae53d5a9a2836121337789c84efc46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 18/77] fix: the cost of a transition reads the source state
 instead of indexing it

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index d3d96cb..f40730a 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -797,14 +797,14 @@ class SchedulingDomain(WithPrecedence,
                 if self.is_renewable(res):
                     renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
                 else:
-                    nonrenewable_type_cost_val += (next_state.resource_used[res] - memory[-1].resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
+                    nonrenewable_type_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             renewable_unit_cost_val = 0.
             nonrenewable_unit_cost_val = 0.
             for res in self.get_resource_units_names():
                 if self.is_renewable(res):
                     renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
                 else:
-                    nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory[-1].resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
+                    nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             transition_cost = mode_cost_val + renewable_type_cost_val + nonrenewable_type_cost_val + renewable_unit_cost_val + nonrenewable_unit_cost_val
 
         # TODO: Handle more than 1 objective in the transition value (need weights ?)
-- 
2.43.0


From ebbcb2bf0003743529bd898232710f4eb9c1a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 19/77] fix: the action space with resource units resumes
 paused tasks instead of starting them

---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index f40730a..bb58555 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -1002,7 +1002,7 @@ class SchedulingActionSpaceWithResourceUnit(EnumerableSpace[SchedulingAction], S
                                                                              self.state.tasks_mode[possible_to_resume])
 
                     list_action += [SchedulingAction(task=possible_to_resume,
-                                                     action=SchedulingActionEnum.START,
+                                                     action=SchedulingActionEnum.RESUME,
                                                      mode=self.state.tasks_mode[possible_to_resume],
                                                      time_progress=False,
                                                      resource_unit_names={r} if r is not None else None)
-- 
2.43.0


From 257dca28cedf673eabf244d765b5a280d18a0fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 20/77] fix: a minimum-only time lag can be built

---
 skdecide/builders/scheduling/time_lag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/time_lag.py b/skdecide/builders/scheduling/time_lag.py
index 83e71d8..e9aa0e8 100644
--- a/skdecide/builders/scheduling/time_lag.py
+++ b/skdecide/builders/scheduling/time_lag.py
@@ -17,7 +17,7 @@ class MinimumOnlyTimeLag(TimeLag):
 
     def __init__(self, minimum_time_lag):
         self.minimum_time_lag = minimum_time_lag
-        self.maximum_time_lags = self.get_max_horizon()
+        self.maximum_time_lags = float('inf')
 
 
 class MaximumOnlyTimeLag(TimeLag):
-- 
2.43.0


From c625e1d0deb91e175ad437b330baf66bf16f7ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 21/77] fix: completing tasks no longer look up a resource
 consumption beyond their duration

---
 skdecide/builders/scheduling/scheduling_domains.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index bb58555..d4c22bd 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -234,8 +234,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         if action.time_progress:
             next_state = self.update_progress(next_state)
-            next_state = self.update_res_consumption(next_state)
             next_state = self.update_complete_tasks(next_state)
+            next_state = self.update_res_consumption(next_state)
             next_state.t = state.t+1
         return next_state
 
@@ -244,8 +244,8 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
         if action.time_progress:
             next_states = self.update_progress_uncertain(next_states)
-            next_states = self.update_res_consumption_uncertain(next_states)
             next_states = self.update_complete_tasks_uncertain(next_states)
+            next_states = self.update_res_consumption_uncertain(next_states)
             for next_state, _ in next_states.get_values():
                 next_state.t = next_state.t+1
         return next_states
@@ -256,8 +256,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         if action.time_progress:
             next_state = self.update_progress_simulation(next_state)
-            next_state = self.update_res_consumption_simulation(next_state)
             next_state = self.update_complete_tasks_simulation(next_state)
+            next_state = self.update_res_consumption_simulation(next_state)
             next_state.t = state.t+1
         return next_state
 
-- 
2.43.0


From 7756a3c9aae338d0d3ecdba2cdd1c9ba7317153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 22/77] fix: the possible states after starting a task no
 longer share its resource consumption

---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index d4c22bd..26152d6 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -627,7 +627,7 @@ class SchedulingDomain(WithPrecedence,
                 next_state.tasks_details[started_task].sampled_duration = value_duration[0]
                 for res in resource_to_use:
                     next_state.resource_used[res] += resource_to_use[res]
-                next_state.resource_used_for_task[started_task] = resource_to_use
+                next_state.resource_used_for_task[started_task] = dict(resource_to_use)
                 next_state.tasks_progress[started_task] = 0.
 
                 states_and_proba += [(next_state, value_duration[1])]
-- 
2.43.0


From 667a9d04466b043252be4c80670ab016e4883ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:34 +0000
Subject: [PATCH 23/77] fix: a paused task whose conditional predecessor does
 not exist can be resumed

get_possible_starting_tasks ignores predecessors that are not part of the schedule, so such a task can be
started and paused; get_possible_resume_tasks waited for them forever.
---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 26152d6..69962d6 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -690,7 +690,7 @@ class SchedulingDomain(WithPrecedence,
                                     for n in state.tasks_paused
                                     for mode in self.get_task_modes(n).keys()
                                     if all(m in state.tasks_complete
-                                           for m in self.ancestors[n])]
+                                           for m in set(self.ancestors[n]).intersection(self.get_available_tasks(state)))]
         # print("Possible task precedence : ", possible_task_precedence)
         possible_task_with_ressource = [(n, mode)
                                         for n, mode in possible_task_precedence
-- 
2.43.0


From 18858aa2d498719d6c1caa07e8d72305eb9b8e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:58 +0000
Subject: [PATCH 24/77] fix: paused tasks are resumed in the mode they were
 started in

get_possible_resume_tasks offered every mode, unlike the enumerable action spaces. Duration, progress and
consumption keep following the mode of the start, so resuming in another mode over-consumes resources at the
next time step, and looking up a shorter varying consumption raises IndexError.
---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 69962d6..f1ad460 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -688,7 +688,7 @@ class SchedulingDomain(WithPrecedence,
     def get_possible_resume_tasks(self, state: State):
         possible_task_precedence = [(n, mode)
                                     for n in state.tasks_paused
-                                    for mode in self.get_task_modes(n).keys()
+                                    for mode in [state.tasks_mode[n]]
                                     if all(m in state.tasks_complete
                                            for m in set(self.ancestors[n]).intersection(self.get_available_tasks(state)))]
         # print("Possible task precedence : ", possible_task_precedence)
-- 
2.43.0


From 20ccd004f3c9e404d6be2de70016340320e735f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 25/77] fix: equal scheduling states are equal whatever the
 iteration order of their sets

__eq__ and __hash__ compare strings of sets, whose order depends on the history of insertions: a copy of a
state could differ from it.
---
 .../scheduling/scheduling_domains_modelling.py        | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains_modelling.py b/skdecide/builders/scheduling/scheduling_domains_modelling.py
index 925823a..789bdb8 100644
--- a/skdecide/builders/scheduling/scheduling_domains_modelling.py
+++ b/skdecide/builders/scheduling/scheduling_domains_modelling.py
@@ -19,6 +19,15 @@ class SchedulingActionEnum(Enum):
     TIME_PR = 3
 
 
+def _ordered_str(value):
+    """String of a value that does not depend on the iteration order of the sets and dictionaries in it."""
+    if isinstance(value, (set, frozenset)):
+        return "{"+", ".join(sorted(_ordered_str(v) for v in value))+"}"
+    if isinstance(value, dict):
+        return "{"+", ".join(sorted(_ordered_str(k)+": "+_ordered_str(v) for k, v in value.items()))+"}"
+    return str(value)
+
+
 class State:
     """Class modelling a scheduling state and used by sk-decide scheduling domains.
 
@@ -119,7 +128,7 @@ class State:
                 for key2 in sorted(self.tasks_details.keys()):
                     s += str(self.tasks_details[key2])+"\t"
             else:
-                s += str(key)+":"+str(getattr(self, key))+"\n"
+                s += str(key)+":"+_ordered_str(getattr(self, key))+"\n"
         return s
 
     def __repr__(self):
-- 
2.43.0


From 31e9c44201cd695257313108dd4416cba1ad2f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:58 +0000
Subject: [PATCH 26/77] fix: every MasterMind score, the winning one included,
 is in the observation space

---
 skdecide/hub/domain/mastermind/mastermind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/mastermind/mastermind.py b/skdecide/hub/domain/mastermind/mastermind.py
index 6f36ade..e46ff6f 100644
--- a/skdecide/hub/domain/mastermind/mastermind.py
+++ b/skdecide/hub/domain/mastermind/mastermind.py
@@ -81,7 +81,7 @@ class MasterMind(D):
         return self._calc_score(state, action)
 
     def _get_observation_space_(self) -> D.T_agent[Space[D.T_observation]]:
-        return MultiDiscreteSpace([self._n_positions, self._n_positions])
+        return MultiDiscreteSpace([self._n_positions + 1, self._n_positions + 1])  # scores range from 0 to n_positions
 
     def _list_hidden_solutions(self):
         """Return a list of all possible hidden solutions (n_colours ** n_positions)."""
-- 
2.43.0


From 590fc00b56c87f704e41817fb3f3f5686b983cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:58 +0000
Subject: [PATCH 27/77] fix: LazyAstar handles a start state that is a goal and
 starts each solve afresh

---
 skdecide/hub/solver/lazy_astar/lazy_astar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/lazy_astar/lazy_astar.py b/skdecide/hub/solver/lazy_astar/lazy_astar.py
index f090105..b077d92 100644
--- a/skdecide/hub/solver/lazy_astar/lazy_astar.py
+++ b/skdecide/hub/solver/lazy_astar/lazy_astar.py
@@ -85,8 +85,9 @@ class LazyAstar(Solver, DeterministicPolicies, Utilities):
             if self._verbose:
                 print(curnode, f'- cumulated cost: {dist} - estimated total cost: {estim_total}')
             if self._domain.is_goal(curnode):
-                path = [(parent, label),
-                        (curnode, None)]
+                path = [(curnode, None)]
+                if parent is not None:
+                    path.insert(0, (parent, label))
                 node = parent
                 while node is not None:
                     (parent, label) = explored[node]
@@ -115,6 +116,8 @@ class LazyAstar(Solver, DeterministicPolicies, Utilities):
                 enqueued[neighbor] = ncost, h
                 push(queue, (ncost + (self._weight * h), next(c), neighbor, ncost, curnode, lbl))
         self._policy = {}
+        self._values = {}
+        self._plan = []
         for node, label in path:
             self._policy[node] = label['action'] if label is not None else None
             self._values[node] = estim_total - enqueued[node][0]
-- 
2.43.0


From fdc4484d5af2bd0a27b55a083cef9dde0f318496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:58 +0000
Subject: [PATCH 28/77] fix: LRTAstar knows where its policy is defined and
 handles a start state that is a goal

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index 21d909f..8992cee 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -26,7 +26,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
         return self._policy.get(observation, None)
 
     def _is_policy_defined_for(self, observation: D.T_agent[D.T_observation]) -> bool:
-        return observation is self._policy
+        return observation in self._policy
 
     def _get_utility(self, observation: D.T_agent[D.T_observation]) -> D.T_value:
         if observation not in self.values:
@@ -127,5 +127,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
             current_roll.append(current_state)
         current_roll_and_action.append((current_state,
                                         {"action": None}))
+        if current_state not in self.values:
+            self.values[current_state] = self._heuristic(self._domain, current_state)
         cumulated_reward += self.values[current_state]
         return dead_end, cumulated_reward, current_roll_and_action, list_action
-- 
2.43.0


From 0bd13b2a21084e21b8f18f3de2940478b272828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:58 +0000
Subject: [PATCH 29/77] fix: SimpleGreedy evaluates actions whose value does
 not depend on the next state

---
 skdecide/hub/solver/simple_greedy/simple_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/simple_greedy/simple_greedy.py b/skdecide/hub/solver/simple_greedy/simple_greedy.py
index e92e5dd..5085dcb 100644
--- a/skdecide/hub/solver/simple_greedy/simple_greedy.py
+++ b/skdecide/hub/solver/simple_greedy/simple_greedy.py
@@ -36,7 +36,7 @@ class SimpleGreedy(DeterministicPolicySolver):
                 expected_value = sum(p * domain.get_transition_value(memory, [a], s).reward for s, p in next_state_prob)
                 values.append(expected_value)
         else:
-            values = [domain.get_transition_value(memory, a).reward for a in applicable_actions]
+            values = [domain.get_transition_value(memory, [a]).reward for a in applicable_actions.get_elements()]
         argmax = max(range(len(values)), key=lambda i: values[i])
         return [applicable_actions.get_elements()[argmax]]  # list of action here because we handle Parallel domains
 
-- 
2.43.0


From 44868503a690839d7c195e8855473bcaadbe06df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 30/77] fix: LRTAstar forgets the policy of an earlier solve,
 as it forgets its values

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index 8992cee..e3aafa2 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -56,6 +56,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
     def _solve_domain(self, domain_factory: Callable[[], D]) -> None:
         self._domain = domain_factory()
         self.values = {}
+        self._policy = {}
         iteration = 0
         best_cost = float('inf')
         if self._from_state is None:
-- 
2.43.0


From daa7dd5da001a2620862d8655d98e8f239e4c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 31/77] fix: changing the modes of an RCPSPSolution makes its
 schedule stale like changing the permutation

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 517d25b..79b45f1 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -37,7 +37,6 @@ class RCPSPSolution(Solution):
         self.problem = problem
         self.rcpsp_permutation = rcpsp_permutation
         self.rcpsp_schedule = rcpsp_schedule
-        self._schedule_to_recompute = rcpsp_schedule is None
         self.rcpsp_modes = rcpsp_modes
         self.rcpsp_schedule_feasible = rcpsp_schedule_feasible
         self.standardised_permutation = standardised_permutation
@@ -49,6 +48,7 @@ class RCPSPSolution(Solution):
             else:
             # elif isinstance(self.problem, MultiModeRCPSPModel):
                 self.rcpsp_modes = self.problem.fixed_modes
+        self._schedule_to_recompute = rcpsp_schedule is None
 
         if self.rcpsp_permutation is None:
             if isinstance(self.problem, MultiModeRCPSPModel):
@@ -75,7 +75,7 @@ class RCPSPSolution(Solution):
 
     def __setattr__(self, key, value):
         super.__setattr__(self, key, value)
-        if key == "rcpsp_permutation":
+        if key in ("rcpsp_permutation", "rcpsp_modes"):
             self._schedule_to_recompute = True
 
     def copy(self):
-- 
2.43.0


From 4e8ca831a4a1b47c36aa9b37d4d25e314f1e99a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 32/77] fix: a copy of an RCPSPSolution remembers that its
 schedule has to be recomputed

---
 .../rcpsp/rcpsp_model.py                      | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 79b45f1..6c66fc6 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -79,20 +79,24 @@ class RCPSPSolution(Solution):
             self._schedule_to_recompute = True
 
     def copy(self):
-        return RCPSPSolution(problem=self.problem,
-                             rcpsp_permutation=deepcopy(self.rcpsp_permutation),
-                             rcpsp_modes=deepcopy(self.rcpsp_modes),
-                             rcpsp_schedule=self.rcpsp_schedule,
-                             rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
-                             standardised_permutation=self.standardised_permutation)
+        sol = RCPSPSolution(problem=self.problem,
+                            rcpsp_permutation=deepcopy(self.rcpsp_permutation),
+                            rcpsp_modes=deepcopy(self.rcpsp_modes),
+                            rcpsp_schedule=self.rcpsp_schedule,
+                            rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
+                            standardised_permutation=self.standardised_permutation)
+        sol._schedule_to_recompute = self._schedule_to_recompute
+        return sol
 
     def lazy_copy(self):
-        return RCPSPSolution(problem=self.problem,
-                             rcpsp_permutation=self.rcpsp_permutation,
-                             rcpsp_modes=self.rcpsp_modes,
-                             rcpsp_schedule=self.rcpsp_schedule,
-                             rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
-                             standardised_permutation=self.standardised_permutation)
+        sol = RCPSPSolution(problem=self.problem,
+                            rcpsp_permutation=self.rcpsp_permutation,
+                            rcpsp_modes=self.rcpsp_modes,
+                            rcpsp_schedule=self.rcpsp_schedule,
+                            rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
+                            standardised_permutation=self.standardised_permutation)
+        sol._schedule_to_recompute = self._schedule_to_recompute
+        return sol
 
     def __str__(self):
         if self.rcpsp_schedule is None:
-- 
2.43.0


From 14e54de0da828240cf56fc7251c77464fe083f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 33/77] fix: RCPSPModel.satisfy reports the non-renewable usage
 it computed

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 6c66fc6..42a6a7a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -585,7 +585,7 @@ class RCPSPModel(Problem):
                     mode = modes_extended[act_id-1]
                     usage += self.mode_details[act_id][mode][res]
                 if usage > self.resources[res]:
-                    print('Non-renewable resource violation: act_id: ', act_id, 'res', res, 'res_usage: ', resource_usage[res], 'res_avail: ', self.resources[res])
+                    print('Non-renewable resource violation: act_id: ', act_id, 'res', res, 'res_usage: ', usage, 'res_avail: ', self.resources[res])
                     return False
 
             # Check precedences / successors
@@ -764,7 +764,7 @@ class RCPSPModelCalendar(RCPSPModel):
                     mode = modes_extended[act_id-1]
                     usage += self.mode_details[act_id][mode][res]
                 if usage > self.resources[res][0]:
-                    print('Non-renewable resource violation: act_id: ', act_id, 'res', res, 'res_usage: ', resource_usage[res], 'res_avail: ', self.resources[res])
+                    print('Non-renewable resource violation: act_id: ', act_id, 'res', res, 'res_usage: ', usage, 'res_avail: ', self.resources[res])
                     return False
 
             # Check precedences / successors
-- 
2.43.0


From 6f4c665470288cea7cb58b0e0fb754267b3ab29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 34/77] fix: the knapsack greedy solver no longer fails when an
 item is heavier than the capacity

---
 .../discrete_optimization/knapsack/solvers/greedy_solvers.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
index a29c174..e3af871 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
@@ -26,7 +26,7 @@ def greedy_using_queue(knapsack_model: KnapsackModel, method_queue=None)->Knapsa
     weight = 0
     taken = [0]*knapsack_model.nb_items
     sorted_per_density = method_queue(knapsack_model)
-    for i in range(len(taken)):
+    for i in range(len(sorted_per_density)):
         if sorted_per_density[i].weight+weight<=knapsack_model.max_capacity:
             taken[sorted_per_density[i].index] = 1
             value += sorted_per_density[i].value
-- 
2.43.0


From 59018f9fb00da5a1e71bae8cdf2eeb478d5b9eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 35/77] fix: knapsack solvers mark the position of the chosen
 item, not its index attribute

---
 .../knapsack/solvers/dyn_prog_knapsack.py                     | 4 ++--
 .../discrete_optimization/knapsack/solvers/greedy_solvers.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index 2397a27..e776cf8 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -69,7 +69,7 @@ class KnapsackDynProg(SolverDO):
             value_left = self.table[cur_indexes[0]-1, cur_indexes[1]]
             if cur_value != value_left:
                 index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0]-1]] 
-                taken[self.knapsack_model.list_items[index_item].index] = 1
+                taken[index_item] = 1
                 value += self.knapsack_model.list_items[index_item].value
                 weight += self.knapsack_model.list_items[index_item].weight
                 cur_indexes = (cur_indexes[0]-1, 
@@ -126,7 +126,7 @@ class KnapsackDynProg(SolverDO):
             value_left = self.table[cur_indexes[0]-1, cur_indexes[1]]
             if cur_value != value_left:
                 index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0]-1]] 
-                taken[self.knapsack_model.list_items[index_item].index] = 1
+                taken[index_item] = 1
                 value += self.knapsack_model.list_items[index_item].value
                 weight += self.knapsack_model.list_items[index_item].weight
                 cur_indexes = (cur_indexes[0]-1, 
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
index e3af871..0e2a4ab 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
@@ -28,7 +28,7 @@ def greedy_using_queue(knapsack_model: KnapsackModel, method_queue=None)->Knapsa
     sorted_per_density = method_queue(knapsack_model)
     for i in range(len(sorted_per_density)):
         if sorted_per_density[i].weight+weight<=knapsack_model.max_capacity:
-            taken[sorted_per_density[i].index] = 1
+            taken[knapsack_model.index_to_index_list[sorted_per_density[i].index]] = 1
             value += sorted_per_density[i].value
             weight += sorted_per_density[i].weight
         else:
-- 
2.43.0


From 421e413a714a2c8c71bbd1ca99a0d40bd9bd9fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 36/77] fix: the knapsack dynamic program with greedy_start
 stops after the items that fit

---
 .../discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index e776cf8..601881b 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -44,6 +44,7 @@ class KnapsackDynProg(SolverDO):
         if do_time:
             t_start = time.time()
         cur_indexes = (0, 0)
+        max_items = min(len(index_promising)+1, max_items)
         for nb_item in range(1, max_items):
             if do_time:
                 if time.time()-t_start > max_time_seconds:
@@ -105,6 +106,7 @@ class KnapsackDynProg(SolverDO):
         if do_time:
             t_start = time.time()
         cur_indexes = (0, 0)
+        max_items = min(len(index_promising)+1, max_items)
         for nb_item in range(1, max_items):
             if do_time:
                 if time.time()-t_start > max_time_seconds:
-- 
2.43.0


From 40fd59eaeb25c5e1aab384ad7da73b04d667d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 37/77] fix: KnapsackDynProg.solve_np does not take items
 heavier than the capacity left

---
 .../discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index 601881b..4f3e9c7 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -116,7 +116,7 @@ class KnapsackDynProg(SolverDO):
             value = self.knapsack_model.list_items[index_item].value
             vec_1 = self.table[nb_item-1, :]
             ind = [max(capacity-weight, 0) for capacity in range(self.capacity+1)]
-            vec_2 = vec_1[ind]+value*(ind!=0)
+            vec_2 = np.where(np.arange(self.capacity+1) >= weight, vec_1[ind]+value, vec_1)
             self.table[nb_item, :] = np.maximum(vec_1, vec_2)
             cur_indexes = (nb_item, self.capacity)
             print("Cur obj : ", self.table[nb_item, self.capacity])
-- 
2.43.0


From 8ad72c520c248520b02faea050aad0402963de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 38/77] fix: KnapsackModel_Mobj gives the sense of its
 objectives

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index 2c16f42..cbe9806 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -154,7 +154,8 @@ class KnapsackModel_Mobj(KnapsackModel):
                           "heaviest_item": {"type": TypeObjective.OBJECTIVE, "default_weight": 1},
                           "weight": {"type": TypeObjective.OBJECTIVE, "default_weight": -1},
                           "value": {"type": TypeObjective.OBJECTIVE, "default_weight": 1}}
-        return ObjectiveRegister(objective_handling=ObjectiveHandling.MULTI_OBJ,
+        return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION,
+                                 objective_handling=ObjectiveHandling.MULTI_OBJ,
                                  dict_objective_to_doc=dict_objective)
 
     def evaluate(self, knapsack_solution: KnapsackSolution):
-- 
2.43.0


From 8ffe713a69ac5d0c4d7994fceebe6606c89ff7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 39/77] fix: KnapsackSolution.change_problem forgets the value
 and weight in the old problem

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py   | 2 --
 1 file changed, 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index cbe9806..8a20183 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -38,8 +38,6 @@ class KnapsackSolution(Solution):
 
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
-                      value=self.value,
-                      weight=self.weight,
                       list_taken=list(self.list_taken))
 
     def __str__(self):
-- 
2.43.0


From 07900177ef9f4e840da9cd6e066b3ba014973349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 40/77] fix: KnapsackMutationSingleBitFlip evaluates the
 mutated solution

---
 .../knapsack/mutation/mutation_knapsack.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
index 78eb63b..616a5d4 100644
--- a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
@@ -51,7 +51,7 @@ class KnapsackMutationSingleBitFlip(Mutation):
             obj = {'value': new_value,
                    'weight_violation': max(0, new_weight - self.problem.max_capacity)}
         else:
-            obj = self.problem.evaluate(solution)
+            obj = self.problem.evaluate(new_sol)
         return new_sol, move, obj
 
     @staticmethod
-- 
2.43.0


From ef1a0f1d6648aaf4a5cdc3aec90a25bec99dfab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 41/77] fix: solutions can be added to an empty ResultStorage

---
 .../generic_tools/result_storage/result_storage.py            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
index 96f6dae..728ffa9 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
@@ -53,6 +53,10 @@ class ResultStorage:
         if solution not in self.map_solutions:
             self.map_solutions[solution] = fitness
             self.list_solution_fits += [(solution, fitness)]
+        if self.size_heap == 0:
+            self.min = self.max = fitness
+            if self.best_solution is None:
+                self.best_solution = solution
         if self.maximize and fitness > self.max \
                 or (not self.maximize and fitness < self.min):
             self.best_solution = solution
-- 
2.43.0


From d652fb4733bc99d7b35010d0da196f2c172866e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 42/77] fix: ResultComparator builds the super pareto front in
 the sense of the compared storages

---
 .../generic_tools/result_storage/resultcomparator.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
index dd488a5..db93e63 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
@@ -89,7 +89,8 @@ class ResultComparator:
         for rs in self.list_result_storage:
             for s in rs.list_solution_fits:
                 sols.append(s)
-        rs = ResultStorage(list_solution_fits=sols, best_solution=None)
+        rs = ResultStorage(list_solution_fits=sols, best_solution=None,
+                           mode_optim=self.list_result_storage[0].mode_optim)
         # print('len(rs): ', len(rs.list_solution_fits))
         pareto_store = result_storage_to_pareto_front(result_storage=rs, problem=None)
         # print('len(pareto_store): ', len(pareto_store.list_solution_fits))
-- 
2.43.0


From 54b9aeeb0adec9d6c63a87aeecc3ef8e3b6ac631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 43/77] fix: local searches store their solutions in the sense
 of the objective function

---
 .../discrete_optimization/generic_tools/ls/hill_climber.py     | 3 +++
 .../generic_tools/ls/simulated_annealing.py                    | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index 0944e6f..dbfe941 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -39,12 +39,14 @@ class HillClimber:
         if self.store_solution:
             store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
             store = ResultStorage(list_solution_fits=[(initial_variable,
                                                        objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1)
         cur_best_variable = initial_variable.copy()
@@ -125,6 +127,7 @@ class HillClimberPareto(HillClimber):
         pareto_front = ParetoFront(list_solution_fits=
                                    [(initial_variable, objective)],
                                    best_solution=initial_variable.copy(),
+                                   mode_optim=self.mode_optim,
                                    limit_store=True,
                                    nb_best_store=1000)
         cur_variable = initial_variable.copy()
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index fed5413..c07e46a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -55,12 +55,14 @@ class SimulatedAnnealing:
         if self.store_solution:
             store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
             store = ResultStorage(list_solution_fits=[(initial_variable,
                                                        objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1)
         self.restart_handler.best_fitness = objective
-- 
2.43.0


From 5dd35f54b4838413a1f96a8b8ff90f0f537126fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 44/77] fix: HillClimber stores copies, later moves change the
 current solution in place

---
 .../discrete_optimization/generic_tools/ls/hill_climber.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index dbfe941..b68b2d5 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -78,14 +78,14 @@ class HillClimber:
             else:
                 cur_variable = move.backtrack_local_move(nv)
             if self.store_solution:
-                store.add_solution(nv, objective)
+                store.add_solution(nv.copy(), objective)
             if global_improvement: 
                 print("iter ", iteration)
                 print("new obj ", objective, " better than ", cur_best_objective)
                 cur_best_objective = objective
                 cur_best_variable = cur_variable.copy()
                 if not self.store_solution:
-                    store.add_solution(cur_variable, objective)
+                    store.add_solution(cur_variable.copy(), objective)
             # Update the temperature
             self.restart_handler.update(nv, objective, 
                                         global_improvement,
-- 
2.43.0


From 58affdb85dba0c1322bfe8902b6019c5a4df9183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 45/77] fix: SwapsLocalMove undoes its swaps in the reverse
 order

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index fd85ef7..1befb6a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -146,7 +146,7 @@ class SwapsLocalMove(LocalMove):
 
     def backtrack_local_move(self, solution: Solution) -> Solution:
         current = getattr(solution, self.attribute)
-        for i1, i2 in self.list_index_swap:
+        for i1, i2 in self.list_index_swap[::-1]:
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
         return solution
-- 
2.43.0


From 6c2ab718cba1f0096c761680999644d3b8aa2a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 46/77] fix: SwapsLocalMove tells the solution that its
 attribute changed

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index 1befb6a..49be560 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -142,6 +142,7 @@ class SwapsLocalMove(LocalMove):
         for i1, i2 in self.list_index_swap:
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
+        setattr(solution, self.attribute, current)
         return solution
 
     def backtrack_local_move(self, solution: Solution) -> Solution:
@@ -149,6 +150,7 @@ class SwapsLocalMove(LocalMove):
         for i1, i2 in self.list_index_swap[::-1]:
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
+        setattr(solution, self.attribute, current)
         return solution
 
 
-- 
2.43.0


From c43abf7b7439892e7bcd7d3274ebd9b10e8bfd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 47/77] fix: PermutationSwap can swap the last position

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index 49be560..c376f62 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -180,7 +180,7 @@ class PermutationSwap(Mutation):
         self.length = len(self.register.dict_attribute_to_type[self.attribute]["range"])
 
     def mutate(self, solution: Solution)->Tuple[Solution, LocalMove]:
-        swaps = np.random.randint(low=0, high=self.length-1, size=(self.nb_swap, 2))
+        swaps = np.random.randint(low=0, high=self.length, size=(self.nb_swap, 2))
         move = SwapsLocalMove(self.attribute, [(swaps[i, 0], swaps[i, 1]) for i in range(self.nb_swap)])
         next_sol = move.apply_local_move(solution)
         return (next_sol, move)
-- 
2.43.0


From 3317ab6f39730ab982ae8220c27c512926e57bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 48/77] fix: portfolio mutations no longer use the removed
 np.int

---
 .../generic_tools/mutations/mixed_mutation.py                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
index 85f5b64..24601b6 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
@@ -14,7 +14,7 @@ class BasicPortfolioMutation(Mutation):
         if isinstance(self.weight_mutation, list):
             self.weight_mutation = np.array(self.weight_mutation)
         self.weight_mutation = self.weight_mutation/np.sum(self.weight_mutation)
-        self.index_np = np.array(range(len(self.list_mutation)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_mutation)), dtype=int)
         print(len(self.list_mutation), " mutation available")
 
     def mutate(self, solution: Solution):
@@ -35,7 +35,7 @@ class BasicPortfolioMutationTrack(Mutation):
         if isinstance(self.weight_mutation, list):
             self.weight_mutation = np.array(self.weight_mutation)
         self.weight_mutation = self.weight_mutation/np.sum(self.weight_mutation)
-        self.index_np = np.array(range(len(self.list_mutation)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_mutation)), dtype=int)
 
     def mutate(self, solution: Solution):
         choice = np.random.choice(self.index_np, 
-- 
2.43.0


From 72f4fa9563d5b98ebe407c6499d3c45f3dc318a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 49/77] fix: local searches store a candidate before its move
 is undone in place

---
 .../discrete_optimization/generic_tools/ls/hill_climber.py    | 4 ++--
 .../generic_tools/ls/simulated_annealing.py                   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index b68b2d5..105a1a1 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -72,13 +72,13 @@ class HillClimber:
                 accept = True 
                 local_improvement = True
                 global_improvement = objective > cur_best_objective
+            if self.store_solution:
+                store.add_solution(nv.copy(), objective)
             if accept:
                 cur_objective = objective
                 cur_variable = nv
             else:
                 cur_variable = move.backtrack_local_move(nv)
-            if self.store_solution:
-                store.add_solution(nv.copy(), objective)
             if global_improvement: 
                 print("iter ", iteration)
                 print("new obj ", objective, " better than ", cur_best_objective)
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index c07e46a..330604a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -91,6 +91,8 @@ class SimulatedAnnealing:
                 p = math.exp(fac*(objective-cur_objective)/self.temperature_handler.temperature)
                 accept = p > r
                 local_move_accepted = accept
+            if self.store_solution:
+                store.add_solution(nv.copy(), objective)
             if accept:
                 cur_objective = objective
                 cur_variable = nv
@@ -100,8 +102,6 @@ class SimulatedAnnealing:
                 cur_variable = move.backtrack_local_move(nv)
                 # print(move)
                 # print("cur_variable", cur_variable)
-            if self.store_solution:
-                store.add_solution(nv.copy(), objective)
             if global_improvement: 
                 print("iter ", iteration)
                 # print(cur_variable)
-- 
2.43.0


From 6b1d9373ffbe4235d17b47f3ab3edd7ad7b49ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 50/77] fix: LNS_MILP counts worse iterations and starts from
 the worst objective of its sense

---
 .../discrete_optimization/generic_tools/lns_mip.py        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
index 866977e..d0e3105 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
@@ -87,7 +87,7 @@ class LNS_MILP(SolverDO):
             best_solution = init_solution.copy()
             best_objective = objective
         else:
-            best_objective = float('inf')
+            best_objective = float('inf') if sense == ModeOptim.MINIMIZATION else -float('inf')
             best_solution = None
             constraint_iterable = {"empty": []}
             store_lns = None
@@ -108,13 +108,17 @@ class LNS_MILP(SolverDO):
                     current_nb_iteration_no_improvement += 1
                 best_solution = bsol
                 best_objective = fit
-            if sense == ModeOptim.MINIMIZATION and fit <= best_objective:
+            elif sense == ModeOptim.MAXIMIZATION:
+                current_nb_iteration_no_improvement += 1
+            elif sense == ModeOptim.MINIMIZATION and fit <= best_objective:
                 if fit < best_objective:
                     current_nb_iteration_no_improvement = 0
                 else:
                     current_nb_iteration_no_improvement += 1
                 best_solution = bsol
                 best_objective = fit
+            elif sense == ModeOptim.MINIMIZATION:
+                current_nb_iteration_no_improvement += 1
             if skip_first_iteration and iteration == 0:
                 store_lns = result_store
             for s, f in result_store.list_solution_fits:
-- 
2.43.0


From c52a77e7c9bf28cd0dc3ba9af3eccae5f2e51c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 51/77] fix: evaluating a coloring recomputes what is missing,
 a changed problem everything

---
 .../discrete_optimization/coloring/coloring_model.py         | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_model.py b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
index 0733eb8..6d445cc 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_model.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
@@ -53,8 +53,7 @@ class ColoringSolution(Solution):
         self.__init__(problem=new_problem,
                       colors=list(self.colors),
                       # colors_from0=list(self.colors_from0),
-                      nb_color=self.nb_color,
-                      nb_violations=self.nb_violations)
+                      )
 
 
 def transform_color_values_to_value_precede(color_vector: List[int]):
@@ -85,7 +84,7 @@ class ColoringProblem(Problem):
         #     counter += 1
 
     def evaluate(self, variable: ColoringSolution) -> Dict[str, float]:
-        if variable.nb_color is None:
+        if variable.nb_color is None or variable.nb_violations is None:
             variable.nb_color = len(set(variable.colors))
             variable.nb_violations = self.count_violations(variable)
         return {"nb_colors": variable.nb_color, "nb_violations": variable.nb_violations}
-- 
2.43.0


From 3db045f5859a4f57d74dd2b44a4f40d7fb731642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 52/77] fix: compute_cliques returns when it enumerates all
 cliques

---
 .../builders/discrete_optimization/coloring/coloring_toolbox.py  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py b/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
index 2509957..50fcfe2 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
@@ -4,6 +4,7 @@ import networkx as nx
 def compute_cliques(g, nb_max=None):
     cliques = []
     nb = 0
+    not_all = False
     for c in nx.algorithms.clique.find_cliques(g):
         print(c)
         cliques += [c]
-- 
2.43.0


From c3ad4b15cb6817de4856d4dfa8a1bc9949c34a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 53/77] fix: the capacity violation of a facility solution sums
 over all facilities

---
 .../builders/discrete_optimization/facility/facility_model.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/facility/facility_model.py b/skdecide/builders/discrete_optimization/facility/facility_model.py
index 3df6b88..6fe6432 100644
--- a/skdecide/builders/discrete_optimization/facility/facility_model.py
+++ b/skdecide/builders/discrete_optimization/facility/facility_model.py
@@ -61,7 +61,7 @@ class FacilityProblem(Problem):
         d = self.evaluate_cost(variable)
         capacity_constraint_violation = 0
         for f in d["details"]:
-            capacity_constraint_violation = max(d["details"][f]["capacity_used"]-self.facilities[f].capacity, 0)
+            capacity_constraint_violation += max(d["details"][f]["capacity_used"]-self.facilities[f].capacity, 0)
         d["capacity_constraint_violation"] = capacity_constraint_violation
         return d
 
-- 
2.43.0


From 34da5fcc6ad7df883c6c4e1e105b574606377603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 54/77] fix: a facility solution moved to another problem is
 evaluated again

---
 .../builders/discrete_optimization/facility/facility_model.py  | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/facility_model.py b/skdecide/builders/discrete_optimization/facility/facility_model.py
index 6fe6432..12e8959 100644
--- a/skdecide/builders/discrete_optimization/facility/facility_model.py
+++ b/skdecide/builders/discrete_optimization/facility/facility_model.py
@@ -38,8 +38,7 @@ class FacilitySolution(Solution):
     
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
-                      facility_for_customers=list(self.facility_for_customers),
-                      dict_details=deepcopy(self.dict_details))
+                      facility_for_customers=list(self.facility_for_customers))
 
 class FacilityProblem(Problem):
     def __init__(self, facility_count: int,
-- 
2.43.0


From e3a0d97bbc88b4926673429fa7bf1f4d13e29244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 55/77] fix: the greedy facility solver skips facilities that
 are too small

---
 .../facility/solvers/greedy_solvers.py                 | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py
index 754caa2..a0d32d2 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py
@@ -22,14 +22,10 @@ class GreedySolverFacility(SolverDO):
         facility_index = 0
         for index in range(len(self.facility_problem.customers)):
             customer = self.facility_problem.customers[index]
-            if capacity_remaining[facility_index] >= customer.demand:
-                solution[index] = facility_index
-                capacity_remaining[facility_index] -= customer.demand
-            else:
+            while capacity_remaining[facility_index] < customer.demand:
                 facility_index += 1
-                assert capacity_remaining[facility_index] >= customer.demand
-                solution[index] = facility_index
-                capacity_remaining[facility_index] -= customer.demand
+            solution[index] = facility_index
+            capacity_remaining[facility_index] -= customer.demand
         sol = FacilitySolution(problem=self.facility_problem,
                                facility_for_customers=solution)
         fit = self.aggreg_sol(sol)
-- 
2.43.0


From 684232bfedfe4b8d91016a81a54526f3d9a6dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 56/77] fix: a vehicle routing solution moved to another
 problem is evaluated again

---
 skdecide/builders/discrete_optimization/vrp/vrp_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_model.py b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
index 11d0ac5..644fe0c 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_model.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
@@ -49,8 +49,7 @@ class VrpSolution(Solution):
         self.__init__(problem=new_problem,
                       list_start_index=self.list_start_index,
                       list_end_index=self.list_end_index,
-                      list_paths=deepcopy(self.list_paths), lengths=deepcopy(self.lengths),
-                      length=self.length, capacities=deepcopy(self.capacities))
+                      list_paths=deepcopy(self.list_paths))
 
 
 class BasicCustomer:
-- 
2.43.0


From e71121b585ee2d4f264955d6032270be0f5c6040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 57/77] fix: the last leg of a tour is measured from the last
 customer to the end

---
 skdecide/builders/discrete_optimization/vrp/vrp_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_model.py b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
index 644fe0c..a50ab41 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_model.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
@@ -247,7 +247,7 @@ def compute_length(start_index,
             obj += ll
             lengths += [ll]
             capacity += list_customers[solution[index+1]].demand
-        lengths += [method(end_index, solution[-1])]
+        lengths += [method(solution[-1], end_index)]
         if end_index != start_index:
             capacity += list_customers[end_index].demand
         obj += lengths[-1]
-- 
2.43.0


From 425186a71ab40da77341c4c534e44c2e403119d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 58/77] fix: the greedy colouring solver passes the networkx
 name of its strategy

---
 .../discrete_optimization/coloring/solvers/greedy_coloring.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
index 4f6c6f7..6494537 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
@@ -44,7 +44,7 @@ class GreedyColoring(SolverDO):
         strategy: NXGreedyColoringMethod = kwargs.get("strategy", NXGreedyColoringMethod.best)
         print(strategy)
         verbose: bool = kwargs.get("verbose", False)
-        strategy_name = strategy.name
+        strategy_name = strategy.value
         if strategy_name == "best":
             strategies_to_test = strategies
         else:
-- 
2.43.0


From 4be8ed9c1d2558fb62b0a842da18ed94bfe4f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 59/77] fix: restore the line endings of domains.py

---
 skdecide/domains.py | 1694 +++++++++++++++++++++----------------------
 1 file changed, 847 insertions(+), 847 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 058a818..101b32c 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -1,847 +1,847 @@
-# Copyright (c) AIRBUS and its affiliates.
-# This source code is licensed under the MIT license found in the
-# LICENSE file in the root directory of this source tree.
-
-"""This module contains base classes for quickly building domains."""
-from __future__ import annotations
-
-import os
-import logging
-from typing import NewType, Optional, Callable
-
-from pathos.helpers import mp
-import tempfile
-from pynng import Push0
-
-# Following import is required to make Enum objects serializable
-# (useful when multiprocessing and pickling domains that use Enum classes)
-import dill
-dill.settings['byref'] = True
-
-from skdecide.core import autocast_all
-from skdecide.builders.domain.agent import MultiAgent, SingleAgent
-from skdecide.builders.domain.concurrency import Parallel, Sequential
-from skdecide.builders.domain.dynamics import Environment, Simulation, EnumerableTransitions, DeterministicTransitions
-from skdecide.builders.domain.events import Events, Actions
-from skdecide.builders.domain.goals import Goals
-from skdecide.builders.domain.initialization import Initializable, UncertainInitialized, DeterministicInitialized
-from skdecide.builders.domain.memory import History, Markovian
-from skdecide.builders.domain.observability import PartiallyObservable, TransformedObservable, FullyObservable
-from skdecide.builders.domain.value import Rewards, PositiveCosts
-if False:  # trick to avoid circular import & IDE error ("Unresolved reference 'Solver'")
-    from skdecide.solvers import Solver
-
-__all__ = ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain',
-           'GoalMDPDomain', 'GoalPOMDPDomain', 'DeterministicPlanningDomain']
-
-logger = logging.getLogger('skdecide.domains')
-
-logger.setLevel(logging.INFO)
-
-if not len(logger.handlers):
-    ch = logging.StreamHandler()
-    # create formatter and add it to the handlers
-    formatter = logging.Formatter('%(asctime)s | %(name)s | %(levelname)s | %(message)s')
-    ch.setFormatter(formatter)
-    # add the handlers to the logger
-    logger.addHandler(ch)
-    logger.propagate = False
-
-
-# MAIN BASE CLASS
-
-class Domain(MultiAgent, Parallel, Environment, Events, History, PartiallyObservable, Rewards):
-    """This is the highest level domain class (inheriting top-level class for each mandatory domain characteristic).
-
-    This helper class can be used as the main base class for domains.
-
-    Typical use:
-    ```python
-    class D(Domain, ...)
-    ```
-
-    with "..." replaced when needed by a number of classes from following domain characteristics (the ones in
-    parentheses are optional):
-
-    - **agent**: MultiAgent -> SingleAgent
-    - **concurrency**: Parallel -> Sequential
-    - **(constraints)**: Constrained
-    - **dynamics**: Environment -> Simulation -> UncertainTransitions -> EnumerableTransitions
-      -> DeterministicTransitions
-    - **events**: Events -> Actions -> UnrestrictedActions
-    - **(goals)**: Goals
-    - **(initialization)**: Initializable -> UncertainInitialized -> DeterministicInitialized
-    - **memory**: History -> FiniteHistory -> Markovian -> Memoryless
-    - **observability**: PartiallyObservable -> TransformedObservable -> FullyObservable
-    - **(renderability)**: Renderable
-    - **value**: Rewards -> PositiveCosts
-    """
-    T_state = NewType('T_state', object)
-    T_observation = NewType('T_observation', object)
-    T_event = NewType('T_event', object)
-    T_value = NewType('T_value', object)
-    T_info = NewType('T_info', object)
-
-    @classmethod
-    def solve_with(cls, solver: Solver,
-                   domain_factory: Optional[Callable[[], Domain]] = None, load_path: Optional[str] = None) -> Solver:
-        """Solve the domain with a new or loaded solver and return it auto-cast to the level of the domain.
-
-        By default, #Solver.check_domain() provides some boilerplate code and internally
-        calls #Solver._check_domain_additional() (which returns True by default but can be overridden  to define
-        specific checks in addition to the "domain requirements"). The boilerplate code automatically checks whether all
-        domain requirements are met.
-
-        # Parameters
-        solver: The solver.
-        domain_factory: A callable with no argument returning the domain to solve (factory is the domain class if None).
-        load_path: The path to restore the solver state from (if None, the solving process will be launched instead).
-
-        # Returns
-        The new solver (auto-cast to the level of the domain).
-        """
-        if domain_factory is None:
-            domain_factory = cls
-        if load_path is not None:
-
-            # TODO: avoid repeating this code somehow (identical in solver.solve(...))? Is factory necessary (vs cls)?
-            def cast_domain_factory():
-                domain = domain_factory()
-                autocast_all(domain, domain, solver.T_domain)
-                return domain
-
-            solver.load(load_path, cast_domain_factory)
-        else:
-            solver.solve(domain_factory)
-        autocast_all(solver, solver.T_domain, cls)
-        return solver
-
-
-# ALTERNATE BASE CLASSES (for typical combinations)
-
-class RLDomain(Domain, SingleAgent, Sequential, Environment, Actions, Initializable, Markovian, TransformedObservable,
-               Rewards):
-    """This is a typical Reinforcement Learning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - Environment
-    - Actions
-    - Initializable
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(RLDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class MultiAgentRLDomain(Domain, MultiAgent, Sequential, Environment, Actions, Initializable, Markovian,
-                         TransformedObservable, Rewards):
-    """This is a typical multi-agent Reinforcement Learning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - MultiAgent
-    - Sequential
-    - Environment
-    - Actions
-    - Initializable
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(RLDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class StatelessSimulatorDomain(Domain, SingleAgent, Sequential, Simulation, Actions, Markovian, TransformedObservable,
-                               Rewards):
-    """This is a typical stateless simulator domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - Simulation
-    - Actions
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(StatelessSimulatorDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class MDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
-                FullyObservable, Rewards):
-    """This is a typical Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(MDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class POMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, UncertainInitialized, Markovian,
-                  PartiallyObservable, Rewards):
-    """This is a typical Partially Observable Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - UncertainInitialized
-    - Markovian
-    - PartiallyObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(POMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class GoalMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, DeterministicInitialized,
-                    Markovian, FullyObservable, PositiveCosts):
-    """This is a typical Goal Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - Goals
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(GoalMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class GoalPOMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized,
-                      Markovian, PartiallyObservable, PositiveCosts):
-    """This is a typical Goal Partially Observable Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - Goals
-    - UncertainInitialized
-    - Markovian
-    - PartiallyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(GoalPOMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class DeterministicPlanningDomain(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals,
-                                  DeterministicInitialized, Markovian, FullyObservable, PositiveCosts):
-    """This is a typical deterministic planning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - DeterministicTransitions
-    - Actions
-    - Goals
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(DeterministicPlanningDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class ParallelDomain:
-    """Base class for creating and launching n domains in separate processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain i is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        self._domain_factory = domain_factory
-        self._lambdas = lambdas
-        self._active_domains = mp.Array('b', [False for i in range(nb_domains)], lock=True)
-        self._temp_connections = [None] * nb_domains
-        self._ipc_connections = [None] * nb_domains
-        self._processes = [None] * nb_domains
-        self._ipc_notify = ipc_notify
-    
-    def open_ipc_connection(self, i):
-        self._temp_connections[i] = tempfile.NamedTemporaryFile()
-        self._ipc_connections[i] = 'ipc://' + self._temp_connections[i].name + '.ipc'
-    
-    def close_ipc_connection(self, i):
-        self._temp_connections[i].close()
-        self._ipc_connections[i] = None
-    
-    def _launch_processes(self):
-        raise NotImplementedError
-    
-    def close(self):
-        raise NotImplementedError
-
-    def __enter__(self):
-        self._launch_processes()
-        return self
-        
-    def __exit__ (self, type, value, tb):
-        self.close()
-
-    def launch(self, i, name, *args):
-        raise NotImplementedError
-
-    def get_proc_connections(self):  # process connections for use in python
-        raise NotImplementedError
-    
-    def get_ipc_connections(self):  # inter-process connections for use with C++
-        return self._ipc_connections
-    
-    def get_parallel_capacity(self):
-        return self.nb_domains()
-    
-    def nb_domains(self):
-        return len(self._processes)
-    
-    def wake_up_domain(self, i=None):
-        if i is None:
-            while True:
-                for j, v in enumerate(self._active_domains):
-                    if not v:
-                        self._active_domains[j] = True
-                        return j
-        else:
-            self._active_domains[i] = True
-            return i
-    
-    def reset(self, i=None):
-        return self.launch(i, 'reset')
-    
-    def get_initial_state_distribution(self, i=None):
-        return self.launch(i, 'get_initial_state_distribution')
-    
-    def get_initial_state(self, i=None):
-        return self.launch(i, 'get_initial_state')
-    
-    def get_observation_space(self, i=None):
-        return self.launch(i, 'get_observation_space')
-    
-    def is_observation(self, observation, i=None):
-        return self.launch(i, 'is_observation', observation)
-    
-    def get_observation_distribution(self, state, action, i=None):
-        return self.launch(i, 'get_observation_distribution', state, action)
-    
-    def get_observation(self, state, action, i=None):
-        return self.launch(i, 'get_observation', state, action)
-    
-    def get_enabled_events(self, memory, i=None):
-        return self.launch(i, 'get_enabled_events', memory)
-    
-    def is_enabled_event(self, event, memory, i=None):
-        return self.launch(i, 'is_enabled_event', event, memory)
-    
-    def get_action_space(self, i=None):
-        return self.launch(i, 'get_action_space')
-
-    def is_action(self, event, i=None):
-        return self.launch(i, 'is_action', event)
-    
-    def get_applicable_actions(self, memory, i=None):
-        return self.launch(i, 'get_applicable_actions', memory)
-    
-    def is_applicable_action(self, action, memory, i=None):
-        return self.launch(i, 'is_applicable_action', action, memory)
-    
-    def step(self, action, i=None):
-        return self.launch(i, 'step', action)
-    
-    def sample(self, memory, action, i=None):
-        return self.launch(i, 'sample', memory, action)
-    
-    def get_next_state_distribution(self, memory, action, i=None):
-        return self.launch(i, 'get_next_state_distribution', memory, action)
-    
-    def get_next_state(self, memory, action, i=None):
-        return self.launch(i, 'get_next_state', memory, action)
-    
-    def get_transition_value(self, memory, action, next_state, i=None):
-        return self.launch(i, 'get_transition_value', memory, action, next_state)
-    
-    def is_transition_value_dependent_on_next_state(self, i=None):
-        return self.launch(i, 'is_transition_value_dependent_on_next_state')
-    
-    def get_goals(self, i=None):
-        return self.launch(i, 'get_goals')
-    
-    def is_goal(self, observation, i=None):
-        return self.launch(i, 'is_goal', observation)
-    
-    def is_terminal(self, state, i=None):
-        return self.launch(i, 'is_terminal', state)
-    
-    def check_value(self, value, i=None):
-        return self.launch(i, 'check_value', value)
-    
-    def render(self, memory, i=None):
-        return self.launch(i, 'render', memory)
-
-    # Call a lambda function (usually involves the original domain)
-    def call(self, i, lambda_id, *args):
-        return self.launch(i, lambda_id, *args)
-    
-    # The original sequential domain may have methods we don't know
-    def __getattr__(self, name):
-        def method(*args, i=None):
-            return self.launch(i, name, *args)
-        return method
-    
-    # Bypass __getattr_.method() when serializing the class.
-    # Required on Windows when spawning the main process.
-    def __getstate__(self):
-        d = self.__dict__.copy()
-        del d['_temp_connections']  # we cannot serialize a file
-        return d
-
-    # Bypass __getattr_.method() when serializing the class.
-    # Required on Windows when spawning the main process.
-    def __setstate__(self, state):
-        self.__dict__ = state
-        # TODO: reopen the temp connection from _ipc_connections
-
-def _launch_domain_server_(domain_factory, lambdas, i,
-                           job_results, conn, ipc_conn, logger):
-    domain = domain_factory()
-    if ipc_conn is not None:
-        pusher = Push0()
-        pusher.dial(ipc_conn)
-    while True:
-        job = conn.recv()
-        job_results[i] = None
-        if job is None:
-            if ipc_conn is not None:
-                pusher.close()
-            conn.close()
-            break
-        else:
-            try:
-                if isinstance(job[0], str):  # job[0] is a domain class' method
-                    r = getattr(domain, job[0])(*job[1])
-                else:  # job[0] is a lambda function
-                    r = lambdas[job[0]](domain, *job[1])
-                job_results[i] = r
-                if ipc_conn is not None:
-                    pusher.send(b'0')  # send success
-                conn.send('0')  # send success
-            except Exception as e:
-                logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
-                if ipc_conn is not None:
-                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-                else:
-                    conn.send(str(e))  # send failure (!= 0)
-
-class PipeParallelDomain(ParallelDomain):
-    """This class can be used to create and launch n domains in separate processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain i is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
-        self._manager = mp.Manager()
-        self._waiting_jobs = [None] * nb_domains
-        self._job_results = self._manager.list([None for i in range(nb_domains)])
-        logger.info(rf'Using {nb_domains} parallel piped domains')
-    
-    def get_proc_connections(self):
-        return self._waiting_jobs
-    
-    def launch(self, i, function, *args):
-        if not any(self._processes):
-            self._launch_processes()
-        try:
-            mi = self.wake_up_domain(i)
-            self._waiting_jobs[mi].send((function, args))
-            return mi
-        except Exception as e:
-            if isinstance(function, str):
-                logger.error(rf'/!\ Unable to launch job {function}: {e}')
-            else:
-                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
-    
-    def get_result(self, i):
-        self._waiting_jobs[i].recv()
-        r = self._job_results[i]
-        self._job_results[i] = None
-        self._active_domains[i] = False
-        return r
-    
-    def _launch_processes(self):
-        for i in range(len(self._job_results)):
-            self.open_ipc_connection(i)
-            pparent, pchild = mp.Pipe()
-            self._waiting_jobs[i] = pparent
-            self._processes[i] = mp.Process(target=_launch_domain_server_,
-                                            args=[self._domain_factory, self._lambdas, i,
-                                                    self._job_results, pchild,
-                                                    self._ipc_connections[i] if self._ipc_notify else None, logger])
-            self._processes[i].start()
-        # Waits for all jobs to be launched and waiting each for requests
-        while True in set(self._active_domains):
-            continue
-    
-    def close(self):
-        for i in range(len(self._job_results)):
-            self._waiting_jobs[i].send(None)
-            self._processes[i].join()
-            self._processes[i].close()
-            self._waiting_jobs[i].close()
-            self._processes[i] = None
-            self.close_ipc_connection(i)
-
-
-def _shm_launch_domain_server_(domain_factory, lambdas, i,
-                               shm_proxy, shm_registers, shm_types, shm_sizes,
-                               rsize, shm_arrays, shm_lambdas, shm_names, shm_params,
-                               activation, done, cond, ipc_conn, logger):
-    domain = domain_factory()
-    if ipc_conn is not None:
-        pusher = Push0()
-        pusher.dial(ipc_conn)
-    
-    def get_string(s):
-        for i, c in enumerate(s):
-            if c == b'\x00':
-                return s[:i].decode()
-        return s.decode()
-
-    while True:
-        with cond:
-            cond.wait_for(lambda: bool(activation.value) == True)
-            activation.value = False
-        if int(shm_lambdas[i].value) == -1 and shm_names[i][0] == b'\x00':
-            if ipc_conn is not None:
-                pusher.close()
-            break
-        else:
-            try:
-                job_args = []
-                for p in shm_params[i]:
-                    if p >= 0:
-                        sz = shm_sizes[shm_types[p].__name__]
-                        if sz > 1:
-                            si = (i * rsize) + p
-                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[si:(si + sz)]))
-                        else:
-                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[(i * rsize) + p]))
-                    else:
-                        break  # no more args
-                if int(shm_lambdas[i].value) == -1:  # we are working with a domain class' method
-                    result = getattr(domain, get_string(shm_names[i]))(*job_args)
-                else:  # we are working with a lambda function
-                    result = lambdas[int(shm_lambdas[i].value)](domain, *job_args)
-                shm_params[i][:] = [-1] * len(shm_params[i])
-                if type(result) is not tuple:
-                    result = (result,)
-                if result[0] is not None:
-                    type_counters = {}
-                    for j, r in enumerate(result):
-                        res_name = type(r).__name__
-                        (start, end) = shm_registers[res_name]
-                        if res_name in type_counters:
-                            type_counters[res_name] += shm_sizes[res_name]
-                            k = type_counters[res_name]
-                            if (k >= end):
-                                raise IndexError('''No more available register for type {}. 
-                                                    Please increase the number of registers 
-                                                    for that type.'''.format(res_name))
-                        else:
-                            type_counters[res_name] = start
-                            k = start
-                        shm_params[i][j] = k
-                        sz = shm_sizes[res_name]
-                        if sz > 1:
-                            si = (i * rsize) + k
-                            shm_proxy.encode(r, shm_arrays[si:(si + sz)])
-                        else:
-                            shm_proxy.encode(r, shm_arrays[(i * rsize) + k])
-                if ipc_conn is not None:
-                    pusher.send(b'0')  # send success
-            except Exception as e:
-                if int(shm_lambdas[i].value) == -1:
-                    logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
-                else:
-                    logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
-                if ipc_conn is not None:
-                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-                shm_params[i][:] = [-1] * len(shm_params[i])  # no result (neither arguments nor partial results)
-            with cond:
-                done.value = True
-                cond.notify_all()  # send finished status (no success nor failure information)
-                
-
-class ShmParallelDomain(ParallelDomain):
-    """This class can be used to create and launch n domains in separate processes
-    with shared memory between the Python processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 shm_proxy,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
-        self._activations = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
-        self._dones = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
-        self._conditions = [mp.Condition() for i in range(nb_domains)]
-        self._shm_proxy = shm_proxy
-        self._shm_registers = {}  # Maps from registered method parameter types to vectorized array ranges
-        self._shm_types = {}  # Maps from register index to type
-        self._shm_sizes = {}  # Maps from register method parameter types to number of arrays encoding each type
-        self._shm_arrays = []  # Methods' vectorized parameters
-        self._rsize = 0  # Total size of the register (updated below)
-        self._shm_lambdas = [None] * nb_domains  # Vectorized lambdas' ids
-        self._shm_names = [None] * nb_domains  # Vectorized methods' names
-        self._shm_params = [None] * nb_domains  # Indices of methods' vectorized parameters
-        for i in range(nb_domains):
-            j = 0
-            for r in shm_proxy.register():
-                for k in range(r[1]):
-                    m = shm_proxy.initialize(r[0])
-                    if type(m) == list or type(m) == tuple:
-                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
-                            self._shm_sizes[r[0].__name__] = len(m)
-                            self._shm_registers[r[0].__name__] = (j, j + (r[1] * len(m)))
-                            self._shm_types.update({kk: r[0] for kk in range(j, j + (r[1] * len(m)), len(m))})
-                            self._rsize += (r[1] * len(m))
-                        self._shm_arrays.extend(m)
-                        j += len(m)
-                    else:
-                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
-                            self._shm_sizes[r[0].__name__] = 1
-                            self._shm_registers[r[0].__name__] = (j, j + r[1])
-                            self._shm_types.update({kk: r[0] for kk in range(j, j + r[1])})
-                            self._rsize += r[1]
-                        self._shm_arrays.append(m)
-                        j += 1
-            self._shm_lambdas[i] = mp.Value('i', -1, lock=True)
-            self._shm_names[i] = mp.Array('c', bytearray(100))
-            self._shm_params[i] = mp.Array('i', [-1] * sum(r[1] for r in shm_proxy.register()))
-        logger.info(rf'Using {nb_domains} parallel shared memory domains')
-    
-    def get_proc_connections(self):
-        return (self._activations, self._conditions)
-    
-    def launch(self, i, function, *args):
-        if not any(self._processes):
-            self._launch_processes()
-        try:
-            mi = self.wake_up_domain(i)
-            if isinstance(function, str):  # function is a domain class' method
-                self._shm_lambdas[mi].value = -1
-                self._shm_names[mi][:] = bytearray(function, encoding='utf-8') + \
-                                         bytearray(len(self._shm_names[mi]) - len(function))
-            else:  # function is a lambda id
-                self._shm_lambdas[mi].value = int(function)
-                self._shm_names[mi][:] = bytearray(len(self._shm_names[mi]))  # reset with null bytes
-            self._shm_params[mi][:] = [-1] * len(self._shm_params[mi])
-            type_counters = {}
-            for j, a in enumerate(args):
-                arg_name = type(a).__name__
-                (start, end) = self._shm_registers[arg_name]
-                if arg_name in type_counters:
-                    type_counters[arg_name] += self._shm_sizes[arg_name]
-                    k = type_counters[arg_name]
-                    if (k >= end):
-                        raise IndexError('''No more available register for type {}. 
-                                            Please increase the number of registers 
-                                            for that type.'''.format(arg_name))
-                else:
-                    type_counters[arg_name] = start
-                    k = start
-                self._shm_params[mi][j] = k
-                sz = self._shm_sizes[arg_name]
-                if sz > 1:
-                    si = (mi * self._rsize) + k
-                    self._shm_proxy.encode(a, self._shm_arrays[si:(si + sz)])
-                else:
-                    self._shm_proxy.encode(a, self._shm_arrays[(mi * self._rsize) + k])
-            with self._conditions[mi]:
-                self._activations[mi].value = True
-                self._conditions[mi].notify_all()
-            return mi
-        except Exception as e:
-            if isinstance(function, str):
-                logger.error(rf'/!\ Unable to launch job {function}: {e}')
-            else:
-                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
-    
-    def get_result(self, i):
-        with self._conditions[i]:
-            self._conditions[i].wait_for(lambda: bool(self._dones[i].value) == True)
-            self._dones[i].value = False
-        results = []
-        for r in self._shm_params[i]:
-            if r >= 0:
-                sz = self._shm_sizes[self._shm_types[r].__name__]
-                if sz > 1:
-                    si = (i * self._rsize) + r
-                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[si:(si + sz)]))
-                else:
-                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[(i * self._rsize) + r]))
-            else:
-                break  # no more params
-        self._active_domains[i] = False
-        return results if len(results) > 1 else results[0] if len(results) > 0 else None
-    
-    def _launch_processes(self):
-        for i in range(len(self._processes)):
-            self.open_ipc_connection(i)
-            self._processes[i] = mp.Process(target=_shm_launch_domain_server_,
-                                            args=[self._domain_factory, self._lambdas, i,
-                                                    self._shm_proxy.copy(),
-                                                    dict(self._shm_registers),
-                                                    dict(self._shm_types),
-                                                    dict(self._shm_sizes),
-                                                    self._rsize, list(self._shm_arrays),
-                                                    list(self._shm_lambdas), list(self._shm_names), list(self._shm_params),
-                                                    self._activations[i], self._dones[i], self._conditions[i],
-                                                    self._ipc_connections[i] if self._ipc_notify else None,
-                                                    logger])
-            self._processes[i].start()
-        # Waits for all jobs to be launched and waiting each for requests
-        while True in set(self._active_domains):
-            continue
-    
-    def close(self):
-        for i in range(len(self._processes)):
-            self._shm_lambdas[i].value = -1
-            self._shm_names[i][:] = bytearray(len(self._shm_names[i]))  # reset with null bytes
-            self._shm_params[i][:] = [-1] * len(self._shm_params[i])
-            with self._conditions[i]:
-                self._activations[i].value = True
-                self._conditions[i].notify_all()
-            self._processes[i].join()
-            self._processes[i].close()
-            self._processes[i] = None
-            self.close_ipc_connection(i)
+# Copyright (c) AIRBUS and its affiliates.
+# This source code is licensed under the MIT license found in the
+# LICENSE file in the root directory of this source tree.
+
+"""This module contains base classes for quickly building domains."""
+from __future__ import annotations
+
+import os
+import logging
+from typing import NewType, Optional, Callable
+
+from pathos.helpers import mp
+import tempfile
+from pynng import Push0
+
+# Following import is required to make Enum objects serializable
+# (useful when multiprocessing and pickling domains that use Enum classes)
+import dill
+dill.settings['byref'] = True
+
+from skdecide.core import autocast_all
+from skdecide.builders.domain.agent import MultiAgent, SingleAgent
+from skdecide.builders.domain.concurrency import Parallel, Sequential
+from skdecide.builders.domain.dynamics import Environment, Simulation, EnumerableTransitions, DeterministicTransitions
+from skdecide.builders.domain.events import Events, Actions
+from skdecide.builders.domain.goals import Goals
+from skdecide.builders.domain.initialization import Initializable, UncertainInitialized, DeterministicInitialized
+from skdecide.builders.domain.memory import History, Markovian
+from skdecide.builders.domain.observability import PartiallyObservable, TransformedObservable, FullyObservable
+from skdecide.builders.domain.value import Rewards, PositiveCosts
+if False:  # trick to avoid circular import & IDE error ("Unresolved reference 'Solver'")
+    from skdecide.solvers import Solver
+
+__all__ = ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain',
+           'GoalMDPDomain', 'GoalPOMDPDomain', 'DeterministicPlanningDomain']
+
+logger = logging.getLogger('skdecide.domains')
+
+logger.setLevel(logging.INFO)
+
+if not len(logger.handlers):
+    ch = logging.StreamHandler()
+    # create formatter and add it to the handlers
+    formatter = logging.Formatter('%(asctime)s | %(name)s | %(levelname)s | %(message)s')
+    ch.setFormatter(formatter)
+    # add the handlers to the logger
+    logger.addHandler(ch)
+    logger.propagate = False
+
+
+# MAIN BASE CLASS
+
+class Domain(MultiAgent, Parallel, Environment, Events, History, PartiallyObservable, Rewards):
+    """This is the highest level domain class (inheriting top-level class for each mandatory domain characteristic).
+
+    This helper class can be used as the main base class for domains.
+
+    Typical use:
+    ```python
+    class D(Domain, ...)
+    ```
+
+    with "..." replaced when needed by a number of classes from following domain characteristics (the ones in
+    parentheses are optional):
+
+    - **agent**: MultiAgent -> SingleAgent
+    - **concurrency**: Parallel -> Sequential
+    - **(constraints)**: Constrained
+    - **dynamics**: Environment -> Simulation -> UncertainTransitions -> EnumerableTransitions
+      -> DeterministicTransitions
+    - **events**: Events -> Actions -> UnrestrictedActions
+    - **(goals)**: Goals
+    - **(initialization)**: Initializable -> UncertainInitialized -> DeterministicInitialized
+    - **memory**: History -> FiniteHistory -> Markovian -> Memoryless
+    - **observability**: PartiallyObservable -> TransformedObservable -> FullyObservable
+    - **(renderability)**: Renderable
+    - **value**: Rewards -> PositiveCosts
+    """
+    T_state = NewType('T_state', object)
+    T_observation = NewType('T_observation', object)
+    T_event = NewType('T_event', object)
+    T_value = NewType('T_value', object)
+    T_info = NewType('T_info', object)
+
+    @classmethod
+    def solve_with(cls, solver: Solver,
+                   domain_factory: Optional[Callable[[], Domain]] = None, load_path: Optional[str] = None) -> Solver:
+        """Solve the domain with a new or loaded solver and return it auto-cast to the level of the domain.
+
+        By default, #Solver.check_domain() provides some boilerplate code and internally
+        calls #Solver._check_domain_additional() (which returns True by default but can be overridden  to define
+        specific checks in addition to the "domain requirements"). The boilerplate code automatically checks whether all
+        domain requirements are met.
+
+        # Parameters
+        solver: The solver.
+        domain_factory: A callable with no argument returning the domain to solve (factory is the domain class if None).
+        load_path: The path to restore the solver state from (if None, the solving process will be launched instead).
+
+        # Returns
+        The new solver (auto-cast to the level of the domain).
+        """
+        if domain_factory is None:
+            domain_factory = cls
+        if load_path is not None:
+
+            # TODO: avoid repeating this code somehow (identical in solver.solve(...))? Is factory necessary (vs cls)?
+            def cast_domain_factory():
+                domain = domain_factory()
+                autocast_all(domain, domain, solver.T_domain)
+                return domain
+
+            solver.load(load_path, cast_domain_factory)
+        else:
+            solver.solve(domain_factory)
+        autocast_all(solver, solver.T_domain, cls)
+        return solver
+
+
+# ALTERNATE BASE CLASSES (for typical combinations)
+
+class RLDomain(Domain, SingleAgent, Sequential, Environment, Actions, Initializable, Markovian, TransformedObservable,
+               Rewards):
+    """This is a typical Reinforcement Learning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - Environment
+    - Actions
+    - Initializable
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(RLDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class MultiAgentRLDomain(Domain, MultiAgent, Sequential, Environment, Actions, Initializable, Markovian,
+                         TransformedObservable, Rewards):
+    """This is a typical multi-agent Reinforcement Learning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - MultiAgent
+    - Sequential
+    - Environment
+    - Actions
+    - Initializable
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(RLDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class StatelessSimulatorDomain(Domain, SingleAgent, Sequential, Simulation, Actions, Markovian, TransformedObservable,
+                               Rewards):
+    """This is a typical stateless simulator domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - Simulation
+    - Actions
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(StatelessSimulatorDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class MDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
+                FullyObservable, Rewards):
+    """This is a typical Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(MDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class POMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, UncertainInitialized, Markovian,
+                  PartiallyObservable, Rewards):
+    """This is a typical Partially Observable Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - UncertainInitialized
+    - Markovian
+    - PartiallyObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(POMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class GoalMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, DeterministicInitialized,
+                    Markovian, FullyObservable, PositiveCosts):
+    """This is a typical Goal Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - Goals
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(GoalMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class GoalPOMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized,
+                      Markovian, PartiallyObservable, PositiveCosts):
+    """This is a typical Goal Partially Observable Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - Goals
+    - UncertainInitialized
+    - Markovian
+    - PartiallyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(GoalPOMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class DeterministicPlanningDomain(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals,
+                                  DeterministicInitialized, Markovian, FullyObservable, PositiveCosts):
+    """This is a typical deterministic planning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - DeterministicTransitions
+    - Actions
+    - Goals
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(DeterministicPlanningDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class ParallelDomain:
+    """Base class for creating and launching n domains in separate processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain i is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        self._domain_factory = domain_factory
+        self._lambdas = lambdas
+        self._active_domains = mp.Array('b', [False for i in range(nb_domains)], lock=True)
+        self._temp_connections = [None] * nb_domains
+        self._ipc_connections = [None] * nb_domains
+        self._processes = [None] * nb_domains
+        self._ipc_notify = ipc_notify
+    
+    def open_ipc_connection(self, i):
+        self._temp_connections[i] = tempfile.NamedTemporaryFile()
+        self._ipc_connections[i] = 'ipc://' + self._temp_connections[i].name + '.ipc'
+    
+    def close_ipc_connection(self, i):
+        self._temp_connections[i].close()
+        self._ipc_connections[i] = None
+    
+    def _launch_processes(self):
+        raise NotImplementedError
+    
+    def close(self):
+        raise NotImplementedError
+
+    def __enter__(self):
+        self._launch_processes()
+        return self
+        
+    def __exit__ (self, type, value, tb):
+        self.close()
+
+    def launch(self, i, name, *args):
+        raise NotImplementedError
+
+    def get_proc_connections(self):  # process connections for use in python
+        raise NotImplementedError
+    
+    def get_ipc_connections(self):  # inter-process connections for use with C++
+        return self._ipc_connections
+    
+    def get_parallel_capacity(self):
+        return self.nb_domains()
+    
+    def nb_domains(self):
+        return len(self._processes)
+    
+    def wake_up_domain(self, i=None):
+        if i is None:
+            while True:
+                for j, v in enumerate(self._active_domains):
+                    if not v:
+                        self._active_domains[j] = True
+                        return j
+        else:
+            self._active_domains[i] = True
+            return i
+    
+    def reset(self, i=None):
+        return self.launch(i, 'reset')
+    
+    def get_initial_state_distribution(self, i=None):
+        return self.launch(i, 'get_initial_state_distribution')
+    
+    def get_initial_state(self, i=None):
+        return self.launch(i, 'get_initial_state')
+    
+    def get_observation_space(self, i=None):
+        return self.launch(i, 'get_observation_space')
+    
+    def is_observation(self, observation, i=None):
+        return self.launch(i, 'is_observation', observation)
+    
+    def get_observation_distribution(self, state, action, i=None):
+        return self.launch(i, 'get_observation_distribution', state, action)
+    
+    def get_observation(self, state, action, i=None):
+        return self.launch(i, 'get_observation', state, action)
+    
+    def get_enabled_events(self, memory, i=None):
+        return self.launch(i, 'get_enabled_events', memory)
+    
+    def is_enabled_event(self, event, memory, i=None):
+        return self.launch(i, 'is_enabled_event', event, memory)
+    
+    def get_action_space(self, i=None):
+        return self.launch(i, 'get_action_space')
+
+    def is_action(self, event, i=None):
+        return self.launch(i, 'is_action', event)
+    
+    def get_applicable_actions(self, memory, i=None):
+        return self.launch(i, 'get_applicable_actions', memory)
+    
+    def is_applicable_action(self, action, memory, i=None):
+        return self.launch(i, 'is_applicable_action', action, memory)
+    
+    def step(self, action, i=None):
+        return self.launch(i, 'step', action)
+    
+    def sample(self, memory, action, i=None):
+        return self.launch(i, 'sample', memory, action)
+    
+    def get_next_state_distribution(self, memory, action, i=None):
+        return self.launch(i, 'get_next_state_distribution', memory, action)
+    
+    def get_next_state(self, memory, action, i=None):
+        return self.launch(i, 'get_next_state', memory, action)
+    
+    def get_transition_value(self, memory, action, next_state, i=None):
+        return self.launch(i, 'get_transition_value', memory, action, next_state)
+    
+    def is_transition_value_dependent_on_next_state(self, i=None):
+        return self.launch(i, 'is_transition_value_dependent_on_next_state')
+    
+    def get_goals(self, i=None):
+        return self.launch(i, 'get_goals')
+    
+    def is_goal(self, observation, i=None):
+        return self.launch(i, 'is_goal', observation)
+    
+    def is_terminal(self, state, i=None):
+        return self.launch(i, 'is_terminal', state)
+    
+    def check_value(self, value, i=None):
+        return self.launch(i, 'check_value', value)
+    
+    def render(self, memory, i=None):
+        return self.launch(i, 'render', memory)
+
+    # Call a lambda function (usually involves the original domain)
+    def call(self, i, lambda_id, *args):
+        return self.launch(i, lambda_id, *args)
+    
+    # The original sequential domain may have methods we don't know
+    def __getattr__(self, name):
+        def method(*args, i=None):
+            return self.launch(i, name, *args)
+        return method
+    
+    # Bypass __getattr_.method() when serializing the class.
+    # Required on Windows when spawning the main process.
+    def __getstate__(self):
+        d = self.__dict__.copy()
+        del d['_temp_connections']  # we cannot serialize a file
+        return d
+
+    # Bypass __getattr_.method() when serializing the class.
+    # Required on Windows when spawning the main process.
+    def __setstate__(self, state):
+        self.__dict__ = state
+        # TODO: reopen the temp connection from _ipc_connections
+
+def _launch_domain_server_(domain_factory, lambdas, i,
+                           job_results, conn, ipc_conn, logger):
+    domain = domain_factory()
+    if ipc_conn is not None:
+        pusher = Push0()
+        pusher.dial(ipc_conn)
+    while True:
+        job = conn.recv()
+        job_results[i] = None
+        if job is None:
+            if ipc_conn is not None:
+                pusher.close()
+            conn.close()
+            break
+        else:
+            try:
+                if isinstance(job[0], str):  # job[0] is a domain class' method
+                    r = getattr(domain, job[0])(*job[1])
+                else:  # job[0] is a lambda function
+                    r = lambdas[job[0]](domain, *job[1])
+                job_results[i] = r
+                if ipc_conn is not None:
+                    pusher.send(b'0')  # send success
+                conn.send('0')  # send success
+            except Exception as e:
+                logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
+                if ipc_conn is not None:
+                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
+                else:
+                    conn.send(str(e))  # send failure (!= 0)
+
+class PipeParallelDomain(ParallelDomain):
+    """This class can be used to create and launch n domains in separate processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain i is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
+        self._manager = mp.Manager()
+        self._waiting_jobs = [None] * nb_domains
+        self._job_results = self._manager.list([None for i in range(nb_domains)])
+        logger.info(rf'Using {nb_domains} parallel piped domains')
+    
+    def get_proc_connections(self):
+        return self._waiting_jobs
+    
+    def launch(self, i, function, *args):
+        if not any(self._processes):
+            self._launch_processes()
+        try:
+            mi = self.wake_up_domain(i)
+            self._waiting_jobs[mi].send((function, args))
+            return mi
+        except Exception as e:
+            if isinstance(function, str):
+                logger.error(rf'/!\ Unable to launch job {function}: {e}')
+            else:
+                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
+    
+    def get_result(self, i):
+        self._waiting_jobs[i].recv()
+        r = self._job_results[i]
+        self._job_results[i] = None
+        self._active_domains[i] = False
+        return r
+    
+    def _launch_processes(self):
+        for i in range(len(self._job_results)):
+            self.open_ipc_connection(i)
+            pparent, pchild = mp.Pipe()
+            self._waiting_jobs[i] = pparent
+            self._processes[i] = mp.Process(target=_launch_domain_server_,
+                                            args=[self._domain_factory, self._lambdas, i,
+                                                    self._job_results, pchild,
+                                                    self._ipc_connections[i] if self._ipc_notify else None, logger])
+            self._processes[i].start()
+        # Waits for all jobs to be launched and waiting each for requests
+        while True in set(self._active_domains):
+            continue
+    
+    def close(self):
+        for i in range(len(self._job_results)):
+            self._waiting_jobs[i].send(None)
+            self._processes[i].join()
+            self._processes[i].close()
+            self._waiting_jobs[i].close()
+            self._processes[i] = None
+            self.close_ipc_connection(i)
+
+
+def _shm_launch_domain_server_(domain_factory, lambdas, i,
+                               shm_proxy, shm_registers, shm_types, shm_sizes,
+                               rsize, shm_arrays, shm_lambdas, shm_names, shm_params,
+                               activation, done, cond, ipc_conn, logger):
+    domain = domain_factory()
+    if ipc_conn is not None:
+        pusher = Push0()
+        pusher.dial(ipc_conn)
+    
+    def get_string(s):
+        for i, c in enumerate(s):
+            if c == b'\x00':
+                return s[:i].decode()
+        return s.decode()
+
+    while True:
+        with cond:
+            cond.wait_for(lambda: bool(activation.value) == True)
+            activation.value = False
+        if int(shm_lambdas[i].value) == -1 and shm_names[i][0] == b'\x00':
+            if ipc_conn is not None:
+                pusher.close()
+            break
+        else:
+            try:
+                job_args = []
+                for p in shm_params[i]:
+                    if p >= 0:
+                        sz = shm_sizes[shm_types[p].__name__]
+                        if sz > 1:
+                            si = (i * rsize) + p
+                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[si:(si + sz)]))
+                        else:
+                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[(i * rsize) + p]))
+                    else:
+                        break  # no more args
+                if int(shm_lambdas[i].value) == -1:  # we are working with a domain class' method
+                    result = getattr(domain, get_string(shm_names[i]))(*job_args)
+                else:  # we are working with a lambda function
+                    result = lambdas[int(shm_lambdas[i].value)](domain, *job_args)
+                shm_params[i][:] = [-1] * len(shm_params[i])
+                if type(result) is not tuple:
+                    result = (result,)
+                if result[0] is not None:
+                    type_counters = {}
+                    for j, r in enumerate(result):
+                        res_name = type(r).__name__
+                        (start, end) = shm_registers[res_name]
+                        if res_name in type_counters:
+                            type_counters[res_name] += shm_sizes[res_name]
+                            k = type_counters[res_name]
+                            if (k >= end):
+                                raise IndexError('''No more available register for type {}. 
+                                                    Please increase the number of registers 
+                                                    for that type.'''.format(res_name))
+                        else:
+                            type_counters[res_name] = start
+                            k = start
+                        shm_params[i][j] = k
+                        sz = shm_sizes[res_name]
+                        if sz > 1:
+                            si = (i * rsize) + k
+                            shm_proxy.encode(r, shm_arrays[si:(si + sz)])
+                        else:
+                            shm_proxy.encode(r, shm_arrays[(i * rsize) + k])
+                if ipc_conn is not None:
+                    pusher.send(b'0')  # send success
+            except Exception as e:
+                if int(shm_lambdas[i].value) == -1:
+                    logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
+                else:
+                    logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
+                if ipc_conn is not None:
+                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
+                shm_params[i][:] = [-1] * len(shm_params[i])  # no result (neither arguments nor partial results)
+            with cond:
+                done.value = True
+                cond.notify_all()  # send finished status (no success nor failure information)
+                
+
+class ShmParallelDomain(ParallelDomain):
+    """This class can be used to create and launch n domains in separate processes
+    with shared memory between the Python processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 shm_proxy,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
+        self._activations = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
+        self._dones = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
+        self._conditions = [mp.Condition() for i in range(nb_domains)]
+        self._shm_proxy = shm_proxy
+        self._shm_registers = {}  # Maps from registered method parameter types to vectorized array ranges
+        self._shm_types = {}  # Maps from register index to type
+        self._shm_sizes = {}  # Maps from register method parameter types to number of arrays encoding each type
+        self._shm_arrays = []  # Methods' vectorized parameters
+        self._rsize = 0  # Total size of the register (updated below)
+        self._shm_lambdas = [None] * nb_domains  # Vectorized lambdas' ids
+        self._shm_names = [None] * nb_domains  # Vectorized methods' names
+        self._shm_params = [None] * nb_domains  # Indices of methods' vectorized parameters
+        for i in range(nb_domains):
+            j = 0
+            for r in shm_proxy.register():
+                for k in range(r[1]):
+                    m = shm_proxy.initialize(r[0])
+                    if type(m) == list or type(m) == tuple:
+                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
+                            self._shm_sizes[r[0].__name__] = len(m)
+                            self._shm_registers[r[0].__name__] = (j, j + (r[1] * len(m)))
+                            self._shm_types.update({kk: r[0] for kk in range(j, j + (r[1] * len(m)), len(m))})
+                            self._rsize += (r[1] * len(m))
+                        self._shm_arrays.extend(m)
+                        j += len(m)
+                    else:
+                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
+                            self._shm_sizes[r[0].__name__] = 1
+                            self._shm_registers[r[0].__name__] = (j, j + r[1])
+                            self._shm_types.update({kk: r[0] for kk in range(j, j + r[1])})
+                            self._rsize += r[1]
+                        self._shm_arrays.append(m)
+                        j += 1
+            self._shm_lambdas[i] = mp.Value('i', -1, lock=True)
+            self._shm_names[i] = mp.Array('c', bytearray(100))
+            self._shm_params[i] = mp.Array('i', [-1] * sum(r[1] for r in shm_proxy.register()))
+        logger.info(rf'Using {nb_domains} parallel shared memory domains')
+    
+    def get_proc_connections(self):
+        return (self._activations, self._conditions)
+    
+    def launch(self, i, function, *args):
+        if not any(self._processes):
+            self._launch_processes()
+        try:
+            mi = self.wake_up_domain(i)
+            if isinstance(function, str):  # function is a domain class' method
+                self._shm_lambdas[mi].value = -1
+                self._shm_names[mi][:] = bytearray(function, encoding='utf-8') + \
+                                         bytearray(len(self._shm_names[mi]) - len(function))
+            else:  # function is a lambda id
+                self._shm_lambdas[mi].value = int(function)
+                self._shm_names[mi][:] = bytearray(len(self._shm_names[mi]))  # reset with null bytes
+            self._shm_params[mi][:] = [-1] * len(self._shm_params[mi])
+            type_counters = {}
+            for j, a in enumerate(args):
+                arg_name = type(a).__name__
+                (start, end) = self._shm_registers[arg_name]
+                if arg_name in type_counters:
+                    type_counters[arg_name] += self._shm_sizes[arg_name]
+                    k = type_counters[arg_name]
+                    if (k >= end):
+                        raise IndexError('''No more available register for type {}. 
+                                            Please increase the number of registers 
+                                            for that type.'''.format(arg_name))
+                else:
+                    type_counters[arg_name] = start
+                    k = start
+                self._shm_params[mi][j] = k
+                sz = self._shm_sizes[arg_name]
+                if sz > 1:
+                    si = (mi * self._rsize) + k
+                    self._shm_proxy.encode(a, self._shm_arrays[si:(si + sz)])
+                else:
+                    self._shm_proxy.encode(a, self._shm_arrays[(mi * self._rsize) + k])
+            with self._conditions[mi]:
+                self._activations[mi].value = True
+                self._conditions[mi].notify_all()
+            return mi
+        except Exception as e:
+            if isinstance(function, str):
+                logger.error(rf'/!\ Unable to launch job {function}: {e}')
+            else:
+                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
+    
+    def get_result(self, i):
+        with self._conditions[i]:
+            self._conditions[i].wait_for(lambda: bool(self._dones[i].value) == True)
+            self._dones[i].value = False
+        results = []
+        for r in self._shm_params[i]:
+            if r >= 0:
+                sz = self._shm_sizes[self._shm_types[r].__name__]
+                if sz > 1:
+                    si = (i * self._rsize) + r
+                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[si:(si + sz)]))
+                else:
+                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[(i * self._rsize) + r]))
+            else:
+                break  # no more params
+        self._active_domains[i] = False
+        return results if len(results) > 1 else results[0] if len(results) > 0 else None
+    
+    def _launch_processes(self):
+        for i in range(len(self._processes)):
+            self.open_ipc_connection(i)
+            self._processes[i] = mp.Process(target=_shm_launch_domain_server_,
+                                            args=[self._domain_factory, self._lambdas, i,
+                                                    self._shm_proxy.copy(),
+                                                    dict(self._shm_registers),
+                                                    dict(self._shm_types),
+                                                    dict(self._shm_sizes),
+                                                    self._rsize, list(self._shm_arrays),
+                                                    list(self._shm_lambdas), list(self._shm_names), list(self._shm_params),
+                                                    self._activations[i], self._dones[i], self._conditions[i],
+                                                    self._ipc_connections[i] if self._ipc_notify else None,
+                                                    logger])
+            self._processes[i].start()
+        # Waits for all jobs to be launched and waiting each for requests
+        while True in set(self._active_domains):
+            continue
+    
+    def close(self):
+        for i in range(len(self._processes)):
+            self._shm_lambdas[i].value = -1
+            self._shm_names[i][:] = bytearray(len(self._shm_names[i]))  # reset with null bytes
+            self._shm_params[i][:] = [-1] * len(self._shm_params[i])
+            with self._conditions[i]:
+                self._activations[i].value = True
+                self._conditions[i].notify_all()
+            self._processes[i].join()
+            self._processes[i].close()
+            self._processes[i] = None
+            self.close_ipc_connection(i)
-- 
2.43.0


From 4003b5611f68fa9b80ca527a6d4bc24dfe0a3661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 60/77] fix: exploring a policy accepts outcomes of probability
 zero

---
 skdecide/hub/solver/policy_evaluators/policy_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
index 700b876..29c983d 100644
--- a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
+++ b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
@@ -31,7 +31,7 @@ def construct_dict_policy(domain: GoalMDPDomain, policy: DeterministicPolicies)-
     # Sanity check that successors and predecessors are equal
     for state, successor_pairs in succs.items():
         for succ, prob in successor_pairs:
-            assert (state in preds[succ])
+            assert prob == 0 or state in preds[succ]
     return policy_dict, preds, succs
 
 
-- 
2.43.0


From 9394e5d4282726096af7be6000363a27a26b81ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 61/77] fix: the expected cost of a policy ignores outcomes of
 probability zero

---
 skdecide/hub/solver/policy_evaluators/policy_evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
index 29c983d..14d359a 100644
--- a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
+++ b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
@@ -55,6 +55,8 @@ def expected_costs_for_policy(domain,
         a = policy_dict[s]
         main_cost = 0
         for succ, prob in succs[s]:
+            if prob == 0:
+                continue
             # evaluate objective function on transition
             val = domain.get_transition_value(s, a, succ)
             main_cost += prob * (val.cost + opt_val[succ])
-- 
2.43.0


From b0d51c4a880ac8d0545f3b9fbfa862b982826535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 62/77] fix: a resource calendar keeps its last entry past its
 end

---
 skdecide/hub/domain/rcpsp/rcpsp_sk.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/skdecide/hub/domain/rcpsp/rcpsp_sk.py b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
index 59ea74a..309edc3 100644
--- a/skdecide/hub/domain/rcpsp/rcpsp_sk.py
+++ b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
@@ -77,7 +77,8 @@ class D(MultiModeRCPSPCalendar):
 
 class MRCPSPCalendar(D):
     def _get_quantity_resource(self, resource: str, time: int, **kwargs) -> int:
-        return self.resource_availability[resource][time]
+        availability = self.resource_availability[resource]
+        return availability[min(time, len(availability) - 1)]
 
     def __init__(self,
                  resource_names: List[str]=None,
@@ -297,7 +298,8 @@ class SMRCPSPCalendar(D):
         return self.duration_distribution[task][mode]
 
     def _get_quantity_resource(self, resource: str, time: int, **kwargs) -> int:
-        return self.resource_availability[resource][time]
+        availability = self.resource_availability[resource]
+        return availability[min(time, len(availability) - 1)]
 
     def __init__(self,
                  resource_names: List[str]=None,
@@ -456,7 +458,8 @@ class MSRCPSPCalendar(D):
         return self.max_horizon
 
     def _get_quantity_resource(self, resource: str, time: int, **kwargs) -> int:
-        return self.resource_availability[resource][time]
+        availability = self.resource_availability[resource]
+        return availability[min(time, len(availability) - 1)]
 
     def __init__(self,
                  skills_names: List[str] = None,
-- 
2.43.0


From adef1d3f752e048778080fa4881b58a1a292c7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 63/77] fix: project models built from domains list every
 resource, needed or not

---
 skdecide/hub/solver/do_solver/sk_to_do_binding.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/solver/do_solver/sk_to_do_binding.py b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
index 858a12b..c2b0f32 100644
--- a/skdecide/hub/solver/do_solver/sk_to_do_binding.py
+++ b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
@@ -38,7 +38,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
             mode_details_do[task] = {}
             for mode in modes_details[task]:
                 mode_details_do[task][mode] = {}
-                for r in modes_details[task][mode].get_ressource_names():
+                for r in scheduling_domain.get_resource_types_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0) # should be constant anyway
                 mode_details_do[task][mode]["duration"] = scheduling_domain.get_task_duration(task=task, mode=mode)
         return SingleModeRCPSPModel(resources={r: scheduling_domain.get_original_quantity_resource(r)
@@ -57,7 +57,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
             mode_details_do[task] = {}
             for mode in modes_details[task]:
                 mode_details_do[task][mode] = {}
-                for r in modes_details[task][mode].get_ressource_names():
+                for r in scheduling_domain.get_resource_types_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0) # should be constant anyway
                 mode_details_do[task][mode]["duration"] = scheduling_domain.sample_task_duration(task=task, mode=mode)
         return SingleModeRCPSPModel(resources={r: scheduling_domain.get_original_quantity_resource(r)
@@ -76,7 +76,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
             mode_details_do[task] = {}
             for mode in modes_details[task]:
                 mode_details_do[task][mode] = {}
-                for r in modes_details[task][mode].get_ressource_names():
+                for r in scheduling_domain.get_resource_types_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0) # should be constant anyway
                 mode_details_do[task][mode]["duration"] = scheduling_domain.get_task_duration(task=task, mode=mode)
         return MultiModeRCPSPModel(resources={r: scheduling_domain.get_original_quantity_resource(r)
@@ -95,7 +95,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
             mode_details_do[task] = {}
             for mode in modes_details[task]:
                 mode_details_do[task][mode] = {}
-                for r in modes_details[task][mode].get_ressource_names():
+                for r in scheduling_domain.get_resource_types_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r,
                                                                                                          time=0)  # should be constant anyway
                 mode_details_do[task][mode]["duration"] = scheduling_domain.get_task_duration(task=task, mode=mode)
-- 
2.43.0


From 87f5a5d9e726c3983d1271abad7eaf15dd7d1217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 64/77] fix: project models built from calendar domains include
 the last instant

---
 skdecide/hub/solver/do_solver/sk_to_do_binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/do_solver/sk_to_do_binding.py b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
index c2b0f32..61aa559 100644
--- a/skdecide/hub/solver/do_solver/sk_to_do_binding.py
+++ b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
@@ -101,7 +101,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
                 mode_details_do[task][mode]["duration"] = scheduling_domain.get_task_duration(task=task, mode=mode)
         horizon = scheduling_domain.get_max_horizon()
         return RCPSPModelCalendar(resources={r: [scheduling_domain.get_quantity_resource(r, time=t)
-                                                 for t in range(horizon)]
+                                                 for t in range(horizon + 1)]
                                              for r in scheduling_domain.get_resource_types_names()},
                                   non_renewable_resources=[r
                                                            for r in scheduling_domain.get_resource_renewability()
-- 
2.43.0


From 015d787a09dd353b1ee4ce4e7571a36f8297994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 65/77] fix: multi-skill models and variants keep their source,
 sink and unit limit when copied

---
 .../rcpsp_multiskill/rcpsp_multiskill.py             | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 51dde23..9d00e03 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -593,7 +593,10 @@ class MS_RCPSPModel(Problem):
                              mode_details=self.mode_details,
                              successors=self.successors,
                              horizon=self.horizon,
-                             horizon_multiplier=self.horizon_multiplier)
+                             horizon_multiplier=self.horizon_multiplier,
+                             sink_task=self.sink_task,
+                             source_task=self.source_task,
+                             one_unit_per_task_max=self.one_unit_per_task_max)
 
     def to_variant_model(self):
         return MS_RCPSPModel_Variant(skills_set=self.skills_set,
@@ -606,6 +609,8 @@ class MS_RCPSPModel(Problem):
                                      successors=self.successors,
                                      horizon=self.horizon,
                                      horizon_multiplier=self.horizon_multiplier,
+                                     sink_task=self.sink_task,
+                                     source_task=self.source_task,
                                      one_unit_per_task_max=self.one_unit_per_task_max)
 
     def get_dummy_solution(self):
@@ -639,7 +644,10 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
                              mode_details=mode_details,
                              successors=successors,
                              horizon=horizon,
-                             horizon_multiplier=horizon_multiplier)
+                             horizon_multiplier=horizon_multiplier,
+                             sink_task=sink_task,
+                             source_task=source_task,
+                             one_unit_per_task_max=one_unit_per_task_max)
         self.fixed_modes = None
         self.fixed_permutation = None
         self.fixed_priority_worker_per_task = None
-- 
2.43.0


From 64bceffcd2a43149d4a251e7f2cdde7905c005da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 66/77] fix: stochastic project domains keep the renewability
 of resources

---
 skdecide/hub/domain/rcpsp/rcpsp_sk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skdecide/hub/domain/rcpsp/rcpsp_sk.py b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
index 309edc3..2b8adfd 100644
--- a/skdecide/hub/domain/rcpsp/rcpsp_sk.py
+++ b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
@@ -207,6 +207,9 @@ class Stochastic_RCPSP(MultiModeRCPSP_Stochastic_Durations):
     def _get_resource_types_names(self) -> List[str]:
         return self.resource_names
 
+    def _get_resource_renewability(self) -> Dict[str, bool]:
+        return self.resource_renewable
+
     def __init__(self,
                  resource_names: List[str]=None,
                  task_ids: List[int]=None,
-- 
2.43.0


From 7846814647069c6ef562b606a3f48977a50603cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 67/77] fix: a copied employee keeps its salary

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 9d00e03..b04dfd8 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -334,7 +334,8 @@ class Employee:
     def copy(self):
         return Employee(dict_skill={s: self.dict_skill[s].copy()
                                     for s in self.dict_skill},
-                        calendar_employee=list(self.calendar_employee))
+                        calendar_employee=list(self.calendar_employee),
+                        salary=self.salary)
 
 
 def intersect(i1, i2):
-- 
2.43.0


From 39b016619b508ce91b3825c15981fcb4a5106bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 68/77] fix: multi-skill project models list the needs of every
 resource type

---
 skdecide/hub/solver/do_solver/sk_to_do_binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/do_solver/sk_to_do_binding.py b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
index 61aa559..4c85c61 100644
--- a/skdecide/hub/solver/do_solver/sk_to_do_binding.py
+++ b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
@@ -118,7 +118,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
             mode_details_do[task] = {}
             for mode in modes_details[task]:
                 mode_details_do[task][mode] = {}
-                for r in modes_details[task][mode].get_ressource_names():
+                for r in scheduling_domain.get_resource_types_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r,
                                                                                                          time=0)  # should be constant anyway
                 skills = scheduling_domain.get_skills_of_task(task=task, mode=mode)
-- 
2.43.0


From 5d67d8c195fb7a682abafb9ff4b8417c3843303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 69/77] fix: add the on-completion conditions of tasks of
 duration zero

---
 .../builders/scheduling/scheduling_domains.py | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index f1ad460..5dacd9a 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -432,11 +432,12 @@ class SchedulingDomain(WithPrecedence,
 
     def update_complete_dummy_tasks_uncertain(self, states: DiscreteDistribution[State], action: SchedulingAction):
         """In an uncertain scheduling environment, update the status of newly started tasks whose duration is 0
-         from ongoing to complete."""
-        next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
-        if action.action == SchedulingActionEnum.START:
-            task = action.task
-            for next_state, _ in next_states.get_values():
+         from ongoing to complete and update on-completion conditions."""
+        states_and_proba = []
+        for next_state, prob in states.get_values():
+            outcomes = [()]
+            if action.action == SchedulingActionEnum.START:
+                task = action.task
                 if next_state.tasks_details[task].sampled_duration == 0:
                     next_state.tasks_complete.add(task)
                     next_state.tasks_progress[task] = 1
@@ -445,12 +446,23 @@ class SchedulingDomain(WithPrecedence,
                     for res, res_consumption in next_state.resource_used_for_task.pop(task).items():
                         if self.is_renewable(res):
                             next_state.resource_used[res] -= res_consumption
-        return next_states
+                    if task in self.get_task_on_completion_added_conditions():
+                        outcomes = list(product(*[distribution.get_values() for distribution
+                                                  in self.get_task_on_completion_added_conditions()[task]]))
+            for outcome in outcomes:
+                next_state_2 = next_state.copy() if len(outcome) > 0 else next_state
+                proba = prob
+                for condition, condition_prob in outcome:
+                    next_state_2._current_conditions.add(condition)
+                    proba *= condition_prob
+                states_and_proba += [(next_state_2, proba)]
+        return DiscreteDistribution(states_and_proba)
 
     def update_complete_dummy_tasks_simulation(self, state: State, action: SchedulingAction):
         """In a simulated scheduling environment, update the status of newly started tasks whose duration is 0
-        from ongoing to complete."""
-        return self.update_complete_dummy_tasks(state, action)
+        from ongoing to complete and update on-completion conditions."""
+        return self.update_complete_dummy_tasks_uncertain(
+            states=DiscreteDistribution([(state, 1.)]), action=action).sample()
 
     def update_pause_tasks(self, state: State, action: SchedulingAction):
         """Update the status of a task from ongoing to paused if specified in the action
-- 
2.43.0


From d4dacdcd742304e145739a4d6ae08f4a73a6e928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 70/77] fix: offer to resume only tasks whose resources are
 available

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 5dacd9a..584611a 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -944,7 +944,7 @@ class SchedulingActionSpace(EnumerableSpace[SchedulingAction], SamplableSpace[Sc
                                 for t in task_possible_to_pause
                                 if self.domain.get_task_preemptivity()[t]]
             if choice == SchedulingActionEnum.RESUME:
-                task_possible_to_resume = self.state.tasks_paused
+                task_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
                 list_action += [SchedulingAction(task=t, action=SchedulingActionEnum.RESUME,
                                                  mode=self.state.tasks_mode[t],
                                                  time_progress=False)
@@ -1006,7 +1006,7 @@ class SchedulingActionSpaceWithResourceUnit(EnumerableSpace[SchedulingAction], S
                                 for t in task_possible_to_pause
                                 if self.domain.get_task_preemptivity()[t]]
             if choice == SchedulingActionEnum.RESUME:
-                task_possible_to_resume = self.state.tasks_paused
+                task_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
 
                 for possible_to_resume in task_possible_to_resume:
                     possible = self.domain.find_one_ressource_to_do_one_task(task=possible_to_resume,
-- 
2.43.0


From 3b40a4b6b3a14a080424aba672a77b9dc2554c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:04 +0000
Subject: [PATCH 71/77] fix: count the binary features of an observation and
 encode dictionaries and negative zero

---
 skdecide/hub/domain/gym/gym.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 7ba20a0..a9e111c 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -439,10 +439,8 @@ class GymWidthDomain:
     def nb_of_binary_features(self) -> int:
         """Return the size of the bit vector encoding an observation
         """
-        return self._binary_features(self._gym_env.observation_space,
-                                                self._gym_env.observation_space.sample(),
-                                                0,
-                                                lambda i: None)
+        return len(self._binary_features(self._gym_env.observation_space,
+                                         self._gym_env.observation_space.sample()))
 
     def binary_features(self, memory: D.T_memory[D.T_state]):
         """Transform state in a bit vector and call f on each true value of this vector
@@ -459,8 +457,8 @@ class GymWidthDomain:
                                           element: Any) -> int:
         if isinstance(space, gym.spaces.box.Box):
             features = []
-            # compute the size of the bit vector encoding the largest float
-            maxlen = len(bin(struct.unpack('!i', struct.pack('!f', float('inf')))[0])[2:])
+            # compute the size of the bit vector encoding the float of largest absolute code (negative zero)
+            maxlen = len(bin(struct.unpack('!i', struct.pack('!f', -0.0))[0])[3:])
             for cell in np.nditer(element):
                 # convert float to string of 1s and 0s
                 float_bin = bin(struct.unpack('!i', struct.pack('!f', cell))[0])
@@ -509,7 +507,7 @@ class GymWidthDomain:
             return features
         elif isinstance(space, gym.spaces.dict.Dict):
             features = []
-            for k, v in space.spaces:
+            for k, v in space.spaces.items():
                 l = self._binary_features(v, element[k])
                 features += l
             return features
-- 
2.43.0


From 4baf8f8bb858fb6c0d9fd2f5cc0df1ddd07fb352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:04 +0000
Subject: [PATCH 72/77] fix: initialise the interval features of dictionary and
 discrete observations

---
 skdecide/hub/domain/gym/gym.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index a9e111c..b851dc1 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -279,8 +279,12 @@ class GymWidthDomain:
             for s in range(len(space.spaces)):
                 self._init_bee1_features(space.spaces[s], state[s])
         elif isinstance(space, gym.spaces.dict.Dict):
-            for k, s in space.spaces:
+            for k, s in space.spaces.items():
                 self._init_bee1_features(s, state[k])
+        elif isinstance(space, (gym.spaces.discrete.Discrete,
+                                gym.spaces.multi_discrete.MultiDiscrete,
+                                gym.spaces.multi_binary.MultiBinary)):
+            pass  # these features are the values themselves
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
 
@@ -391,8 +395,12 @@ class GymWidthDomain:
             for s in range(len(space.spaces)):
                 self._init_bee2_features(space.spaces[s], state[s])
         elif isinstance(space, gym.spaces.dict.Dict):
-            for k, s in space.spaces:
+            for k, s in space.spaces.items():
                 self._init_bee2_features(s, state[k])
+        elif isinstance(space, (gym.spaces.discrete.Discrete,
+                                gym.spaces.multi_discrete.MultiDiscrete,
+                                gym.spaces.multi_binary.MultiBinary)):
+            pass  # these features are the values themselves
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
 
-- 
2.43.0


From ec194a5e19018ae650fdd3b596dc0c213ef223ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:04 +0000
Subject: [PATCH 73/77] fix: elliptical features of tuple and dictionary
 observations

---
 skdecide/hub/domain/gym/gym.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index b851dc1..cc57b75 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -543,7 +543,7 @@ class GymWidthDomain:
                                        xG: D.T_memory[D.T_state]):
         v0 = np.array(self._get_variables(self._gym_env.observation_space, x0))
         vG = np.array(self._get_variables(self._gym_env.observation_space, xG))
-        d = xG.shape[0] # column vector
+        d = len(vG)
         self._elliptical_features = []
         for i in range(d):
             for j in range(i+1, d):
@@ -586,7 +586,7 @@ class GymWidthDomain:
         elif isinstance(space, gym.spaces.dict.Dict):
             var = []
             for k in space.spaces.keys():
-                index, l = self._get_variables(space.spaces[k], element[k])
+                l = self._get_variables(space.spaces[k], element[k])
                 var += l
             return var
         else:
-- 
2.43.0


From 76d8558a93c885908020293226066a3d00d22205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:04 +0000
Subject: [PATCH 74/77] fix: fill every component of discretized box actions

---
 skdecide/hub/domain/gym/gym.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index cc57b75..bd7994c 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -664,16 +664,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                 clist.append(a)
                 self._generate_box_action_combinations(actions, shape, dtype, index+1, clist, rlist)
         else:
-            ar = np.ndarray(shape=shape, dtype=dtype)
-            if len(shape) == 1:
-                ar[0] = alist[0]
-            else:
-                k = 0
-                for i, in np.nditer(ar, op_flags=['readwrite']):
-                    print(str(i))
-                    i = alist[k]
-                    k += 1
-            rlist += [ar]
+            rlist += [np.array(alist).astype(dtype).reshape(shape)]
 
 
 class D(Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized,
-- 
2.43.0


From 51cd154a62e10a8ba725fc306dad2bc4e2eba5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:04 +0000
Subject: [PATCH 75/77] fix: enumerate multi-binary and dictionary actions

---
 skdecide/hub/domain/gym/gym.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index bd7994c..e6abbb0 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -641,7 +641,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.multi_binary.MultiBinary):
             generate = lambda d: ([[e] + g for e in [True, False] for g in generate(d+1)]
-                                  if d < len(action_space.n)-1 else
+                                  if d < action_space.n-1 else
                                   [[e] for e in [True, False]])
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.tuple.Tuple):
@@ -650,10 +650,11 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                                   [[e] for e in self._discretize_action_space(action_space.spaces[d]).get_elements()])
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.dict.Dict):
-            dkeys = action_space.spaces.keys()
-            generate = lambda d: ([[e] + g for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements() for g in generate(d+1)]
+            dkeys = list(action_space.spaces.keys())
+            generate = lambda d: ([{dkeys[d]: e, **g} for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements() for g in generate(d+1)]
                                   if d < len(dkeys)-1 else
-                                  [[e] for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements()])
+                                  [{dkeys[d]: e} for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements()])
+            return ListSpace(generate(0))
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(action_space)))
     
-- 
2.43.0


From 8a2363207eb66a40a5c39230d6602cf87a9bf7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:04 +0000
Subject: [PATCH 76/77] fix: compare multi-discrete observations in
 deterministic gym domains

---
 skdecide/hub/domain/gym/gym.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index e6abbb0..5fea653 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -761,7 +761,8 @@ class DeterministicGymDomain(D):
             return (e1 == e2).all()
         elif isinstance(space, gym.spaces.discrete.Discrete):
             return e1 == e2
-        elif isinstance(space, gym.spaces.multi_binary.MultiBinary):
+        elif isinstance(space, (gym.spaces.multi_discrete.MultiDiscrete,
+                                gym.spaces.multi_binary.MultiBinary)):
             return (e1 == e2).all()
         elif isinstance(space, gym.spaces.tuple.Tuple):
             assert len(e1) == len(e2) == len(space)
-- 
2.43.0


From 63081e0e5c4e79fc64be0185141adb1b49a6492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:04 +0000
Subject: [PATCH 77/77] fix: unwrap the observation of a domain reset as a gym
 environment

---
 skdecide/hub/domain/gym/gym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 5fea653..d4fdb79 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -931,7 +931,7 @@ class AsGymEnv(gym.Env):
         # Returns
         observation (object): The initial observation of the space.
         """
-        return self._domain.reset()
+        return next(iter(self._domain.get_observation_space().to_unwrapped([self._domain.reset()])))
 
     def render(self, mode='human'):
         """Render the environment.
-- 
2.43.0

