"""C02: the caching wrapper is transparent and never asks the system what it was already told."""
from aalpy.base.SUL import CacheSUL
from aalpy.learning_algs import run_adaptive_Lsharp

from ..core import Violation, SulDown, SulTimeout
from ..models import gen_ref
from ..oraclebox import aalpy_machine, make_oracle, NAMES
from ..world import SimSUL, Teacher
from .c01 import learner_config, learn, check_exact
from .c14 import draw_reference


class Known:
    """What the client side has been told so far: every prefix of every delivered trace."""

    def __init__(self):
        self.d = {}

    def tell(self, word, outs):
        for i in range(len(word) and len(outs)):
            self.d[tuple(word[:i + 1])] = outs[i]

    def has(self, word):
        return len(word) > 0 and tuple(word) in self.d


class WatchedSUL(SimSUL):
    """Flags membership queries (SUL.query) that reach the system although their answer was delivered before."""

    known = None
    in_query = 0
    executed_queries = 0
    asked = 0

    def query(self, word):
        if self.known is not None and self.known.has(word):
            raise Violation('known-word-executed', f'membership query {tuple(word)!r} was executed although its outputs '
                                                   f'were observed before')
        self.executed_queries += 1
        self.in_query += 1
        try:
            out = super().query(word)
        finally:
            self.in_query -= 1
        if self.known is not None:
            self.known.tell(word, out)
        return out

    def step(self, letter):
        o = super().step(letter)
        if not self.in_query and self.known is not None and letter is not None:
            self.known.tell(self.cur[0], self.cur[1])
        return o


def word_of(sim, alphabet, hi=6):
    return tuple(alphabet[sim.choose(len(alphabet))] for _ in range(sim.int(0, hi)))


def s_protocol(sim):
    """A free client of CacheSUL: queries, step sessions, abandoned sessions, failures, imported traces."""
    ref = gen_ref(sim, max_states=6, max_alpha=3, big=0.06)
    arm = {'n': None}

    def injector(point, s):
        if arm['n'] is not None:
            arm['n'] -= 1
            if arm['n'] < 0:
                arm['n'] = None
                sim.fault('system fails in ' + point)
                raise SulDown('link reset')

    sul = WatchedSUL(sim, ref, injector=injector)
    sul.known = known = Known()
    ct = sim.pick(['tree', 'dict'])
    c = CacheSUL(sul, cache_type=ct)
    sim.features.update(mode='protocol', cache_type=ct, kind=ref.kind)
    sim.log('system', ref.describe(), ct)
    hits = misses = steps = 0
    pool = []

    def draw():
        if pool and sim.flip(0.5):
            w = pool[sim.choose(len(pool))]
            return w[:sim.int(0, len(w))] if sim.flip(0.5) else w + word_of(sim, ref.alphabet, 2)
        return word_of(sim, ref.alphabet)

    for _ in range(sim.int(2, 25)):
        op = sim.choose(5)
        w = draw()
        if not w and ref.kind == 'mealy':
            continue
        pool.append(w)
        arm['n'] = sim.int(0, 8) if sim.flip(0.15) else None
        if op <= 1:
            was = known.has(w)
            sim.log('query', w, 'known' if was else 'new')
            try:
                out = sim.sut(c.query, w)
            except SulDown:
                if was:
                    raise Violation('known-word-executed', f'query {w!r} was known but failed with the system')
                continue
            truth = ref.run(w) if w else [ref.lab[0]]
            if list(out) != truth:
                raise Violation('wrong-answer', f'query {w!r} answered {out!r}, the system says {truth!r}')
            hits += was
            misses += not was
            steps += 0 if was else len(w)
        elif op <= 3:
            sim.log('session', w)
            try:
                sim.sut(c.pre)
                if ref.kind != 'mealy' and sim.flip(0.2):
                    if sim.sut(c.step, None) != ref.lab[0]:
                        raise Violation('wrong-answer', 'empty-word step at the start of a session')
                    sim.probe('empty-word step')
                for i, a in enumerate(w):
                    o = sim.sut(c.step, a)
                    if o != ref.run(w[:i + 1])[-1]:
                        raise Violation('wrong-answer', f'step {i} of {w!r} answered {o!r}')
                if sim.flip(0.6):
                    sim.sut(c.post)
                else:
                    sim.probe('session left open')
            except SulDown:
                continue
        else:
            if not w or arm['n'] is not None:
                continue
            outs = ref.run(w)
            sim.log('import', w, outs)
            sim.sut(c.cache.add_to_cache, w, tuple(outs) if sim.flip(0.5) else list(outs))
            known.tell(w, outs)
        got = (c.num_cached_queries, c.num_queries, c.num_steps)
        if got != (hits, misses, steps):
            raise Violation('wrong-counters', f'(cached queries, queries, query steps) = {got}, performed {(hits, misses, steps)}')
        if hits:
            sim.probe('query answered from cache')
    # finally every delivered trace is still answered from the cache, correctly
    sul.injector = None
    for w in list(known.d):
        out = sim.sut(c.query, w)
        if list(out) != ref.run(w):
            raise Violation('wrong-answer', f'query {w!r} answered {out!r} at the end, the system says {ref.run(w)!r}')
    sim.meta['nontrivial'] = bool(hits)


ask = CacheSUL.query


def counted(wrapper, word):
    """Counts the membership queries put to the wrapper of a watched system (other runs may be interleaved with this one)."""
    if isinstance(wrapper.sul, WatchedSUL):
        wrapper.sul.asked += 1
    return ask(wrapper, word)


CacheSUL.query = counted


def adaptive(sim, ref, cfg):
    refs = [aalpy_machine(draw_reference(sim, ref)) for _ in range(sim.int(1, 3))]
    matching = sim.pick(['Approximate', 'Total', None])
    cfg.update(alg='adaptive', rebuilding=matching is None or not sim.flip(0.35), state_matching=matching)

    def run(cfg, alphabet, sul, oracle, kind, samples=None, max_rounds=None, return_data=False):
        kw = {k: v for k, v in cfg.items() if k not in ('alg', 'cache')}
        return run_adaptive_Lsharp(alphabet, sul, refs, oracle, kind, samples=samples, max_learning_rounds=max_rounds,
                                   return_data=return_data, print_level=0, **kw)
    return run


def s_learning(sim):
    ref = gen_ref(sim, max_states=8, max_alpha=3, big=0.06)
    cfg = learner_config(sim)
    cfg['cache'] = True
    run = adaptive(sim, ref, cfg) if cfg['alg'] == 'lsharp' and sim.flip(0.3) else learn
    if cfg['alg'] in ('lsharp', 'adaptive') and 'ADS' in (cfg['extension_rule'], cfg['separation_rule']):
        sim.feature('adaptive queries')
    sul = WatchedSUL(sim, ref, max_steps=400_000)
    sul.known = known = Known()
    exact = not sim.flip(0.4)
    if exact:
        name = 'teacher'
        oracle = Teacher(sim, ref.alphabet, sul, ref, ref.kind, max_rounds=3 * ref.n + 10)
        execute = oracle.execute
    else:
        name = sim.pick(NAMES)
        oracle, params = make_oracle(sim, name, ref, sul, cached=True)
    samples = None
    if cfg['alg'] != 'kv' and sim.flip(0.4):
        samples = []
        for _ in range(sim.int(1, 8)):
            w = word_of(sim, ref.alphabet, 8)
            samples.append((w, tuple(ref.run(w))))
            known.tell(w, ref.run(w))
        sim.probe('recorded samples supplied')
    sim.features.update(mode='learning', alg=cfg['alg'], kind=ref.kind, oracle=name)
    sim.log('system', ref.describe())
    sim.log('config', cfg, name, samples)
    model, info = sim.sut(run, cfg, list(ref.alphabet), sul, oracle, ref.kind, samples=samples, return_data=True,
                          max_rounds=None if exact else 2 * ref.n + 4)
    if exact:
        check_exact(model, ref, ref.kind)
    if not sim.features.get('adaptive queries') and info['queries_learning'] != sul.executed_queries:
        raise Violation('wrong-counters', f'{info["queries_learning"]} learning queries reported, {sul.executed_queries} '
                                          f'membership queries reached the system')
    if info.get('cache_saved') != sul.asked - sul.executed_queries:
        raise Violation('wrong-counters', f"{info.get('cache_saved')!r} queries reported as saved by the cache: {sul.asked} were asked, "
                                          f'{sul.executed_queries} of them executed')
    sim.meta['nontrivial'] = info.get('cache_saved', 0) > 0
    if info.get('cache_saved'):
        sim.probe('query answered from cache')


def scenario(sim):
    if sim.flip(0.5):
        s_learning(sim)
    else:
        s_protocol(sim)


RUNS = {'quick': 20_000, 'thorough': 600_000}
