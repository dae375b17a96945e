"""C04: failures of the system surface unchanged, never corrupt what was learned, and learning can be resumed."""
from aalpy.base.SUL import CacheSUL

from ..core import Violation, SutError, SulDown, SulTimeout, SimFault
from ..models import gen_ref, model_view, difference
from ..oraclebox import make_oracle, NAMES
from ..world import SimSUL, Teacher
from .c01 import learner_config, learn, check_exact


class DriverCrash(BaseException):
    """Something like an operator interrupt."""
    simulated = True


class FlakySUL(SimSUL):
    """Fails at calls chosen by the simulator; a failing step may or may not have taken effect before the failure."""

    def __init__(self, sim, ref, **k):
        super().__init__(sim, ref, **k)
        self.arm = None              # calls until failure
        self.kinds = None
        self.exc = None
        self.raised = None

    def _maybe(self, point):
        if self.raised is not None:
            raise Violation('failure-swallowed', f'{type(self.raised).__name__} raised by the system did not end the run: '
                                                 f'{point} was called afterwards')
        if self.arm is None:
            return
        self.arm -= 1
        if self.arm < 0:
            self.arm = None
            self.raised = self.exc
            self.sim.fault(f'{type(self.exc).__name__} in {point}')
            raise self.exc

    def pre(self):
        self._maybe('pre')
        super().pre()

    def post(self):
        self._maybe('post')
        super().post()

    def step(self, letter):
        late = self.arm == 0 and self.late
        if late:
            super().step(letter)       # takes effect, the answer is lost
        self._maybe('step')
        return super().step(letter)


def draw_exc(sim):
    k = sim.choose(6)
    return [SulDown('connection lost'), SulTimeout('timed out'), ValueError('driver bug'), KeyError('k'), DriverCrash('interrupt'),
            StopIteration('done')][k]


def attempt(sim, sul, fn):
    """-> ('done', result) or ('failed', exc); the failure must be the system's own exception object."""
    sul.raised = None
    try:
        r = fn()
    except SulDown as e:
        got = e
    except SulTimeout as e:
        got = e
    except DriverCrash as e:
        got = e
    except SutError as e:
        got = e.exc
        if got is not sul.raised:
            if sul.raised is not None:
                raise Violation('failure-replaced', f'the system raised {sul.raised!r}, the caller saw {got!r} from {e.where}')
            raise
    else:
        if sul.raised is not None:
            raise Violation('failure-swallowed', f'the system raised {sul.raised!r}, but a result was returned')
        return 'done', r
    if got is not sul.raised:
        raise Violation('failure-replaced', f'the system raised {sul.raised!r}, the caller saw {got!r}')
    return 'failed', got


def guarded(sim, sul, fn, *a, **k):
    """Call the product; exceptions this harness injected travel as they are."""
    try:
        return fn(*a, **k)
    except (Violation, DriverCrash, SulDown, SulTimeout):
        raise
    except SystemExit:
        raise
    except Exception as e:
        if e is sul.raised:
            raise SutError(e) from e
        return sim.sut(_reraise, e)


def _reraise(e):
    raise e


def cache_words(c):
    """every maximal recorded trace, read through the cache's own public structure"""
    out = []
    todo = [(c.root_node, (), ())]
    while todo:
        n, w, o = todo.pop()
        if w:
            out.append((w, o))
        for a, ch in n.children.items():
            todo.append((ch, w + (a,), o + (ch.value,)))
    return out


def scenario(sim):
    ref = gen_ref(sim, max_states=8, max_alpha=3, big=0.04)
    cfg = learner_config(sim)
    own_cache = sim.flip(0.5)            # the caller keeps its own caching wrapper over the attempts
    sul = FlakySUL(sim, ref, max_steps=400_000)
    c = CacheSUL(sul, sim.pick(['tree', 'dict'])) if own_cache else sul
    exact = not sim.flip(0.4)
    name = 'teacher' if exact else sim.pick([n for n in NAMES if n not in ('CacheBased',)])

    def new_oracle():
        if exact:
            return Teacher(sim, ref.alphabet, c, ref, ref.kind, max_rounds=3 * ref.n + 10, execute=True)
        return make_oracle(sim, name, ref, c)[0]

    oracle = new_oracle()
    keep_oracle = sim.flip(0.5)
    sim.features.update(alg=cfg['alg'], kind=ref.kind, oracle=name, cache=cfg['cache'], own_cache=own_cache, keep_oracle=keep_oracle)
    sim.log('system', ref.describe())
    sim.log('config', cfg, name, own_cache, keep_oracle)
    failures = 0
    attempts = sim.int(1, 4)
    for k in range(attempts + 1):
        last = k == attempts
        if not last:
            sul.exc = draw_exc(sim)
            sul.late = sim.flip(0.5)
            sul.arm = [sim.int(0, 12), sim.int(0, 120), sim.int(0, 500)][sim.choose(3)]
        else:
            sul.arm = None
        sim.log('attempt', k, sul.arm)
        if isinstance(oracle, Teacher):
            oracle.rounds = 0
        st, r = attempt(sim, sul, lambda: guarded(sim, sul, learn, cfg, list(ref.alphabet), c, oracle, ref.kind,
                                                  max_rounds=None if exact else 2 * ref.n + 4))
        sul.arm = None
        if st == 'failed':
            failures += 1
            sul.raised = None
            sim.log('attempt failed', type(r).__name__)
        else:
            if exact:
                check_exact(r, ref, ref.kind, 'after %d failed attempts: ' % failures if failures else '')
            if failures:
                sim.probe('learned after failure')
        if own_cache:
            sul.raised = None
            seen = {}
            for w, _ in sul.words:
                w = tuple(w)
                for i in range(1, len(w) + 1):
                    seen[w[:i]] = 1
            for w in seen:
                got = sim.sut(c.cache.in_cache, w)
                if got is not None and list(got) != ref.run(w):
                    raise Violation('cache-corrupted', f'after a failure the cache answers {got!r} for {w!r}; the system '
                                                       f'says {ref.run(w)!r}')
        if not keep_oracle or (not last and exact is False and st == 'done'):
            oracle = new_oracle()
        else:
            oracle.sul = c
    sim.meta['nontrivial'] = failures > 0
    sim.meta['failures'] = failures


RUNS = {'quick': 30_000, 'thorough': 600_000}
