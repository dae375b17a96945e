"""C20: active extensions of passive learning: what they add to the log is what the system did, and the model explains it."""
import contextlib
import io

from aalpy.automata import Dfa, MealyMachine, MooreMachine, Mdp, StochasticMealyMachine
from aalpy.learning_algs import run_active_RPNI, run_active_Alergia
from aalpy.learning_algs.deterministic_passive.active_RPNI import RandomWordSampler as RpniWords, RpniActiveSampler
from aalpy.learning_algs.stochastic_passive.ActiveAleriga import RandomWordSampler as AlergiaWords, Sampler

from ..core import Violation, SulDown, SutError
from ..models import gen_ref
from ..world import SimSUL
from .c10 import gen_pref, PSystem
from .c18 import answer, out_of, same
from .c19 import check, translate

CLASS = {'dfa': Dfa, 'mealy': MealyMachine, 'moore': MooreMachine}


def outages(sim):
    """at most two outages of the system, at drawn interactions"""
    left = [sim.int(1, 400) for _ in range(sim.choose(3, p0=0.6))]

    def injector(point, sul):
        for i in range(len(left)):
            left[i] -= 1
            if left[i] == 0:
                sim.fault('system down at ' + point)
                raise SulDown('system down')
    return injector


def attempts(sim, call):
    """The user restarts the loop with the same data when the system was down."""
    for k in range(4):
        try:
            return sim.sut(call), k
        except SulDown:
            sim.log('restart')
    raise AssertionError('more outages than injected')


def deterministic(sim):
    ref = gen_ref(sim, max_states=6, max_alpha=3)
    kind = ref.kind
    learn_log = []
    sul = SimSUL(sim, ref, injector=outages(sim))
    data = []
    for _ in range(sim.int(1, 12)):
        w = tuple(ref.alphabet[sim.choose(len(ref.alphabet))] for _ in range(sim.int(1, 8)))
        if kind == 'mealy':
            data += [(w[:i + 1], out_of(ref, w[:i + 1])) for i in range(len(w))]
        else:
            data += [(w[:i], out_of(ref, w[:i])) for i in range(len(w) + 1)] if sim.flip(0.5) else [(w, out_of(ref, w))]
    walks, lo = sim.int(1, 6), sim.int(1, 5)
    hi = lo + sim.choose(5)
    iters = sim.int(1, 5)
    contradiction = sim.flip(0.06)
    if contradiction and kind == 'dfa':
        data.append((data[0][0], not data[0][1]))
        sim.fault('contradicting record')
    else:
        contradiction = False
    silent = sim.flip(0.5)
    sim.log('system', ref.describe())
    sim.log('loop', iters, walks, lo, hi, len(data))
    sim.features.update(kind=kind, learner='active RPNI', n=ref.n, contradiction=contradiction)
    initial = list(data)
    added = []          # returned by the sampler, also in runs that failed later

    class Spy(RpniActiveSampler):
        def __init__(self):
            self.inner = RpniWords(walks, lo, hi)

        def sample(self, s, model):
            before = len(sul.words)
            if model is None:
                raise Violation('sampled-without-model', 'the sampler was called without a model')
            judge(model, list(data), 'hypothesis')
            new = self.inner.sample(s, model)
            done = sul.words[before:]
            if len(done) != walks or any(not lo <= len(w) <= hi for w, _ in done):
                raise Violation('wrong-samples', f'{len(done)} sessions of lengths {[len(w) for w, _ in done]} instead of {walks} of {lo}..{hi}')
            want = {(tuple(w[:i + 1]), o[i]) for w, o in done for i in range(len(w))}
            got = {(tuple(w), o) for w, o in new}
            if got != want:
                raise Violation('made-up-records', f'sampling returned {sorted(got ^ want, key=repr)[:3]!r}, which is not what the system did')
            learn_log.append(list(data) + new)
            added.extend(list(new))
            return new

    def judge(model, log, what):
        if not isinstance(model, CLASS[kind]):
            raise Violation('wrong-model-type', f'{type(model).__name__} for {kind}')
        for w, o in log:
            got = answer(model, tuple(w), kind)
            if got[0] != 'out' or not same(got[1], o):
                raise Violation('log-contradicted', f'{what}: the log says {o!r} for {w!r}, the model {got!r}')

    out = io.StringIO()

    def call():
        learn_log.clear()
        sul.open = False
        with contextlib.redirect_stdout(out):
            return run_active_RPNI(data, sul, Spy(), iters, kind, print_info=not silent)

    model, restarts = attempts(sim, call)
    if contradiction:
        if model is not None:
            raise Violation('contradiction-accepted', 'the log contains two verdicts for one sequence')
        sim.meta['nontrivial'] = True
        return
    if model is None:
        raise Violation('consistent-log-rejected', 'no model')
    if silent and out.getvalue():
        raise Violation('not-silent', f'print_info=False, but {out.getvalue()[:80]!r} was printed')
    if len(learn_log) != iters:
        raise Violation('wrong-number-of-iterations', f'{len(learn_log)} sampling rounds instead of {iters}')
    judge(model, learn_log[-2] if iters > 1 else initial if not restarts else [], 'model')
    if any(data.count(x) < initial.count(x) for x in initial):
        raise Violation('log-modified', 'records of the initial log were changed')
    if sorted(map(repr, data)) != sorted(map(repr, initial + added)):
        raise Violation('samples-not-in-log', f'{len(initial)} initial records, {len(added)} records sampled, {len(data)} in the log')
    for w, o in data:
        if not same(out_of(ref, w), o):
            raise Violation('made-up-records', f'the log contains {(w, o)!r}, the system gives {out_of(ref, w)!r}')
    if sul.step_outside is not None or sul.pre_calls < sul.post_calls:
        raise Violation('session-discipline', 'steps outside of a session')
    if sul.open:
        raise Violation('session-left-open', 'a session was not closed')
    sim.model = model
    sim.meta['records'] = len(data)
    sim.meta['nontrivial'] = len(model.states) > 1 and iters > 1


class Flaky(PSystem):
    def __init__(self, sim, ref, injector):
        super().__init__(sim, ref, 0)
        self.injector = injector
        self.done = []

    def pre(self):
        self.injector('pre', self)
        super().pre()

    def step(self, a):
        if a is not None or self.ref.kind == 'mdp':
            self.injector('step', self)
        elif a is None:
            raise Violation('illegal-input', 'empty-word step executed on a stochastic Mealy system')
        if a is not None and a not in self.ref.alphabet:
            raise Violation('illegal-input', f'input {a!r} is not in the input alphabet')
        return super().step(a)

    def post(self):
        self.injector('post', self)
        self.done.append(tuple(zip(self.tr[::2], self.tr[1::2])))
        super().post()


def stochastic(sim):
    ref = gen_pref(sim)
    kind = ref.kind
    if any(type(a) is not type(ref.alphabet[0]) for a in ref.alphabet):
        ref = translate(ref)
    sul = Flaky(sim, ref, lambda *a: None)
    init = [ref.lab[0]] if kind == 'mdp' else []
    data = []
    for _ in range(sim.int(1, 30)):
        sul.pre()
        for _ in range(sim.int(1, 6)):
            sul.step(ref.alphabet[sim.choose(len(ref.alphabet))])
        sul.post()
        data.append(init + list(sul.done[-1]))
    sul.injector = outages(sim)
    walks, lo = sim.int(1, 8), sim.int(1, 5)
    hi = lo + sim.choose(5)
    iters = sim.int(1, 4)
    eps = sim.pick([0.05, 0.005, 0.5, 'auto'])
    silent = sim.flip(0.5)
    default = kind == 'mdp' and sim.flip(0.3)
    sim.log('system', ref.describe())
    sim.log('loop', iters, walks, lo, hi, eps, len(data))
    sim.features.update(kind=kind, learner='active Alergia', n=ref.n)
    initial = [list(x) for x in data]
    log = []
    added = []          # returned by the sampler, also in runs that failed later

    class Spy(Sampler):
        def __init__(self):
            self.inner = AlergiaWords(walks, lo, hi)

        def sample(self, s, model):
            judge(model, data, 'hypothesis')
            before = len(sul.done)
            new = self.inner.sample(s, model)
            done = [d for d in sul.done[before:] if d]
            if len(done) != walks or any(not lo <= len(w) <= hi for w in done):
                raise Violation('wrong-samples', f'{len(done)} sessions of lengths {[len(w) for w in done]} instead of {walks} of {lo}..{hi}')
            want = [init + list(w) for w in done]
            if [list(x) for x in new] != want:
                bad = next((a, b) for a, b in zip([list(x) for x in new] + [None], want + [None]) if a != b)
                raise Violation('made-up-records', f'the sampler recorded {bad[0]!r} for {bad[1]!r}')
            log.append([list(x) for x in data] + want)
            added.extend(want)
            return new

    def judge(model, d, what):
        k = len(init)
        check(sim, model, kind, [tuple(t[k:]) for t in d], init[0] if init else None, what)

    out = io.StringIO()

    def call():
        log.clear()
        sul.open = False
        kw = {} if default else {'automaton_type': kind}
        with contextlib.redirect_stdout(out):
            return run_active_Alergia(data, sul, Spy(), iters, eps=eps, print_info=not silent, **kw)

    model, restarts = attempts(sim, call)
    if silent and out.getvalue():
        raise Violation('not-silent', f'print_info=False, but {out.getvalue()[:80]!r} was printed')
    if len(log) != iters:
        raise Violation('wrong-number-of-iterations', f'{len(log)} sampling rounds instead of {iters}')
    judge(model, log[-2] if iters > 1 else initial, 'model') if iters > 1 or not restarts else None
    if data[:len(initial)] != initial:
        raise Violation('log-modified', 'records of the initial log were changed')
    if [list(x) for x in data] != initial + added:
        raise Violation('samples-not-in-log', f'{len(initial)} initial records, {len(added)} records sampled, {len(data)} in the log')
    if sul.open:
        raise Violation('session-left-open', 'a session was not closed')
    sim.model = model
    sim.meta['records'] = len(data)
    sim.meta['nontrivial'] = len(model.states) > 1 and iters > 1


def scenario(sim):
    return stochastic(sim) if sim.flip(0.5) else deterministic(sim)


RUNS = {'quick': 60_000, 'thorough': 500_000}
