"""Status of tasks (SchedulingDomain): pausing, resuming, starting, completing."""
from pyvc.contract import Registry
from contracts.sched import *

CONTRACTS = contract = Registry()
ASSUMPTIONS = list(ASSUME)
MBQI, FEAS_MS = False, 2000
P = LIFE
V = ('', '_uncertain', '_simulation')


@contract('pausing', *[SDM + 'update_pause_tasks' + v for v in V])
def _(c): pause(c, P)


@contract('resuming', *[SDM + 'update_resume_tasks' + v for v in V], SDM + 'check_if_action_can_be_started')
def _(c): resume(c, P)


@contract('starting', *[SDM + 'update_start_tasks' + v for v in V], SDM + 'check_if_action_can_be_started')
def _(c): start(c, P)


@contract('completing', *[SDM + 'update_complete_tasks' + v for v in V])
def _(c): complete(c, P)


@contract('zero duration', *[SDM + 'update_complete_dummy_tasks' + v for v in V])
def _(c): complete_dummy(c, P)


@contract('progressing', *[SDM + 'update_progress' + v for v in V])
def _(c): progress(c, P)


@contract('consuming', *[SDM + 'update_res_consumption' + v for v in V])
def _(c): consumption(c, P)


@contract('passing time', *[SDM + 'update_time' + v for v in V])
def _(c): passing(c, P)


@contract('transition', SDM + '_get_next_state', SDM + '_get_next_state_distribution', SDM + '_state_sample')
def _(c): transition(c, P)
