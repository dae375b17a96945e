"""C05: session discipline - every input is executed inside a session, and sessions do not overlap."""
from ..core import Violation, Discard, SutError
from ..models import gen_ref
from ..oraclebox import make_oracle, NAMES
from ..world import SimSUL, Teacher
from .c01 import learner_config, learn


class Disciplined(SimSUL):
    def pre(self):
        if self.open:
            raise Violation('overlapping-session', f'pre() was called while the session that executed {self.cur[0]!r} was not '
                                                   f'closed by post()')
        super().pre()

    def step(self, letter):
        if not self.open:
            raise Violation('step-outside-session', f'input {letter!r} was executed ' + ('before the first pre()' if not self.words
                            else f'after post() (previous word {self.cur[0]!r})'))
        return super().step(letter)


def s_deterministic(sim):
    ref = gen_ref(sim, max_states=7, max_alpha=3, big=0.05)
    cfg = learner_config(sim)
    name = sim.pick(NAMES + ['teacher'])
    if name == 'CacheBased':
        cfg['cache'] = True
    sul = Disciplined(sim, ref, max_steps=400_000)
    if name == 'teacher':
        oracle, params = Teacher(sim, ref.alphabet, sul, ref, ref.kind), None
    else:
        oracle, params = make_oracle(sim, name, ref, sul, cached=cfg['cache'])
    sim.log('system', ref.describe())
    sim.log('config', cfg, name, params)
    sim.features.update(alg=cfg['alg'], kind=ref.kind, oracle=name, cache=cfg['cache'])
    sim.model, sim.info = sim.sut(learn, cfg, list(ref.alphabet), sul, oracle, ref.kind, max_rounds=2 * ref.n + 4, return_data=True)
    sim.meta['nontrivial'] = sul.step_calls > 20


def s_other(sim):
    """The non-deterministic, stochastic and visibly pushdown learners; other broken properties are not judged here."""
    from . import c09, c10, c15
    k = sim.choose(3)
    sim.feature('alg', ['onfsm-lstar', 'stochastic-lstar', 'kv-vpa'][k])
    try:
        [c09.scenario, c10.scenario, c15.s_shipped][k](sim)
    except Violation as v:
        if v.cls in ('overlapping-session', 'step-outside-session'):
            raise
        raise Discard('run broken by another property')
    except SutError as e:
        raise Discard('run broken by another property')


def scenario(sim):
    if sim.flip(0.25):
        s_other(sim)
    else:
        s_deterministic(sim)


RUNS = {'quick': 48_000, 'thorough': 600_000}
