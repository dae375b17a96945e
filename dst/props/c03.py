"""C03: non-deterministic behaviour is reported at the first observation that contradicts an earlier one."""
from aalpy.base.SUL import CacheSUL
from aalpy.learning_algs import run_Lstar, run_Lsharp

from ..core import Violation, SutError, Discard
from ..models import gen_ref, minimise, Ref
from ..oraclebox import make_oracle, NAMES
from ..world import SimSUL
from .c01 import learner_config, learn


class Flaky(SimSUL):
    """A system whose answers change at times the simulator decides; keeps its own log of all observations."""

    def __init__(self, sim, ref, other, plan, **k):
        super().__init__(sim, ref, **k)
        self.other, self.plan = other, plan
        self.seen = {}                 # word -> output observed first (samples included)
        self.contradiction = None
        self.conflict = None
        self.glitches = 0

    def emit(self, o):
        n = self.step_calls
        p = self.plan
        if p[0] == 'glitch' and n in p[1]:
            alt = [x for x in p[2] if x != o]
            if alt:
                self.sim.fault('wrong output once')
                o = alt[n % len(alt)]
        elif p[0] == 'switch' and n >= p[1]:
            if n == p[1]:
                self.sim.fault('system replaced during learning')
            o = self.other.run(self.cur[0] + [self.letter])[-1]
        elif p[0] == 'sticky' and n >= p[1]:
            # state is not reset any more: outputs depend on what ran before
            if n == p[1]:
                self.sim.fault('reset stops working')
            o = self.other.run(([p[2]] * (self.pre_calls % 3)) + self.cur[0] + [self.letter])[-1]
        return super().emit(o)

    def pre(self):
        if self.step_calls > 2500:
            raise Discard('the misbehaving system is consistent but huge')
        if self.contradiction is not None:
            raise Violation('contradiction-not-reported', f'{self.contradiction}; the next session was started all the same')
        super().pre()

    def step(self, letter):
        self.letter = letter
        o = super().step(letter)
        if letter is not None:
            w = tuple(self.cur[0])
            first = self.seen.setdefault(w, o)
            if first != o and self.contradiction is None:
                self.contradiction = f'after {w!r} the output was {first!r} and then {o!r}'
                self.conflict = (w, first, o)
                self.sim.log('CONTRADICTION', w, first, o)
        return o


def draw_plan(sim, ref, outputs):
    kind = sim.choose(4)
    if kind == 0:
        return ('none',)
    if kind == 1:
        return ('glitch', sorted({sim.int(1, 120) for _ in range(sim.int(1, 3))}), outputs)
    if kind == 2:
        return ('switch', sim.int(1, 120))
    return ('sticky', sim.int(1, 60), ref.alphabet[sim.choose(len(ref.alphabet))])


def outputs_of(ref):
    if ref.kind == 'mealy':
        o = [x for row in ref.out for x in row.values()]
    else:
        o = list(ref.lab)
    if ref.kind == 'dfa':
        return [False, True]
    return sorted(set(o), key=str) + ['glitched']


def verdict(sim, sul, run):
    """run() must end with SystemExit iff an observation contradicted an earlier one."""
    try:
        run()
    except SystemExit as e:
        if sul.contradiction is None:
            raise Violation('false-alarm', f'non-determinism was reported, but every observation is consistent: {str(e)[:300]}')
        w, first, o = sul.conflict
        if repr(tuple(w)) not in str(e) or str(first) not in str(e) or str(o) not in str(e):
            raise Violation('misleading-report', f'{sul.contradiction}; reported was {str(e)[:400]}')
        sim.probe('contradiction reported')
        sim.meta['nontrivial'] = True
        return 'exit'
    except SutError:
        if sul.contradiction is not None:
            raise Violation('contradiction-not-reported', f'{sul.contradiction}; the run failed in another way')
        raise
    if sul.contradiction is not None:
        raise Violation('contradiction-not-reported', f'{sul.contradiction}; the run finished normally')
    sim.probe('consistent run finished')
    return 'ok'


def s_learning(sim):
    ref = gen_ref(sim, max_states=6, max_alpha=3, big=0.05)
    other = gen_ref(sim, kind=ref.kind, max_states=6, alphabet=ref.alphabet,
                    outputs=None if ref.kind == 'dfa' else outputs_of(ref))
    cfg = learner_config(sim)
    cfg['cache'] = True
    plan = draw_plan(sim, ref, outputs_of(ref))
    sul = Flaky(sim, ref, other, plan, max_steps=60_000)
    exact = ('Perfect', 'W', 'Wp', 'BFE')        # know the system or its size: meaningless for one that changes
    name = sim.pick([n for n in NAMES if n not in exact])
    oracle, params = make_oracle(sim, name, ref, sul, cached=True, exclude=exact)
    samples = None
    if cfg['alg'] != 'kv' and sim.flip(0.3):
        samples = []
        for _ in range(sim.int(1, 5)):
            w = tuple(ref.alphabet[sim.choose(len(ref.alphabet))] for _ in range(sim.int(1, 6)))
            o = ref.run(w)
            if sim.flip(0.25):
                alt = [x for x in outputs_of(ref) if x != o[-1]]
                o[-1] = alt[sim.choose(len(alt))]
                sim.fault('recorded sample is wrong')
            samples.append((w, tuple(o)))
    sim.features.update(mode='learning', alg=cfg['alg'], kind=ref.kind, oracle=name, plan=plan[0])
    sim.log('system', ref.describe())
    sim.log('other', other.describe())
    sim.log('config', cfg, name, params, plan, samples)
    for w, o in samples or []:
        for i in range(len(w)):
            first = sul.seen.setdefault(w[:i + 1], o[i])
            if first != o[i] and sul.contradiction is None:
                sul.contradiction = f'samples give {first!r} and {o[i]!r} for {w[:i + 1]!r}'
                sul.conflict = (w[:i + 1], first, o[i])
    verdict(sim, sul, lambda: sim.sut(learn, cfg, list(ref.alphabet), sul, oracle, ref.kind, samples=samples, max_rounds=12))


def s_client(sim):
    """Any client of CacheSUL with both cache types."""
    ref = gen_ref(sim, max_states=5, max_alpha=3, big=0.05)
    other = gen_ref(sim, kind=ref.kind, max_states=5, alphabet=ref.alphabet,
                    outputs=None if ref.kind == 'dfa' else outputs_of(ref))
    plan = draw_plan(sim, ref, outputs_of(ref))
    sul = Flaky(sim, ref, other, plan)
    ct = sim.pick(['tree', 'dict'])
    c = CacheSUL(sul, ct)
    sim.features.update(mode='client', cache_type=ct, kind=ref.kind, plan=plan[0])
    sim.log('system', ref.describe(), other.describe(), plan)

    def imported(w, o):
        for i in range(len(w)):
            first = sul.seen.setdefault(w[:i + 1], o[i])
            if first != o[i] and sul.contradiction is None:
                sul.contradiction = f'imported trace gives {o[i]!r} for {w[:i + 1]!r}, observed was {first!r}'
                sul.conflict = (w[:i + 1], first, o[i])

    def run():
        for _ in range(sim.int(1, 25)):
            w = tuple(ref.alphabet[sim.choose(len(ref.alphabet))] for _ in range(sim.int(1, 5)))
            op = sim.choose(5)
            sim.log('op', op, w)
            if op <= 1:
                sim.sut(c.query, w)
            elif op <= 3:
                sim.sut(c.pre)
                for a in w:
                    sim.sut(c.step, a)
                sim.sut(c.post)
            else:
                o = ref.run(w)
                if sim.flip(0.3):
                    alt = [x for x in outputs_of(ref) if x != o[-1]]
                    o[-1] = alt[0]
                    sim.fault('recorded sample is wrong')
                imported(w, o)
                sim.sut(c.cache.add_to_cache, w, tuple(o))
            if sul.contradiction is not None:
                return

    verdict(sim, sul, run)


def scenario(sim):
    if sim.flip(0.4):
        s_client(sim)
    else:
        s_learning(sim)


RUNS = {'quick': 80_000, 'thorough': 600_000}
HANG_IS_DISCARD = True
