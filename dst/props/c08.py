"""C08: an oracle that accepts a hypothesis has really run the tests its parameters promise."""
from itertools import product, permutations, combinations
from math import ceil, log

from aalpy.automata import Mdp, MdpState, Onfsm, OnfsmState, StochasticMealyMachine, StochasticMealyState
from aalpy.base import SUL
from aalpy.base.SUL import CacheSUL

from ..core import Violation
from ..models import gen_ref, model_view, Ref
from ..oraclebox import make_oracle, draw_params, Watch, aalpy_machine, CLASSES
from ..world import SimSUL
from .c01 import learner_config, learn
from .c09 import gen_nref
from .c10 import gen_pref

NAMES = ['RandomWord', 'RandomWalk', 'StatePrefix', 'RandomW', 'RandomWp', 'TransitionFocus', 'Pac', 'KWayState',
         'KWayTransition', 'CacheBased', 'Provided']


class RecordingCache(CacheSUL):
    """The shipped caching wrapper; records which words are asked through its step interface."""

    def __init__(self, sul):
        super().__init__(sul)
        self.words = []
        self.asked = []

    def pre(self):
        self.words.append(([], []))
        super().pre()

    def step(self, letter):
        o = super().step(letter)
        if letter is not None:
            self.words[-1][0].append(letter)
            self.words[-1][1].append(o)
        return o


def maximal(words):
    """Words that are no proper prefix of another word."""
    ws = {tuple(w) for w in words}
    pre = {w[:i] for w in ws for i in range(len(w))}
    return {w for w in ws if w not in pre}


class Check:
    """Judges the tests of every find_cex call from the words that reached the system."""

    def __init__(self, sim, name, params, ref, sul):
        self.sim, self.name, self.p, self.ref, self.sul = sim, name, params, ref, sul
        self.rounds = 0
        self.all = []                 # tests of earlier calls
        self.tests = 0
        self.steps = 0
        self.prefix_tests = []
        self.keys = set()
        self.accepted = False
        self.pending = [tuple(s) for s in params.get('sequences', [])]

    def before(self, hyp):
        self.mark = len(self.sul.words)
        if self.name == 'CacheBased':
            self.known = maximal([tuple(w[0]) for w in self.sul.words + self.sul.sul.words]) or {()}
        self.rounds += 1
        self.hyp_states = [(s, tuple(s.prefix) if s.prefix is not None else None) for s in hyp.states]

    def fail(self, text):
        raise Violation('promise-not-kept', f'{self.name} {self.p}: ' + text)

    def after(self, hyp, cex):
        words = [tuple(w[0]) for w in self.sul.words[self.mark:] if w[0]]
        if self.name in ('StatePrefix', 'RandomW') and any(p is None for _, p in self.hyp_states):
            self.complete(hyp)
        self.sim.log('EQ', len(hyp.states), None if cex is None else tuple(cex), len(words))
        getattr(self, self.name)(hyp, cex, words)
        self.all += words
        self.tests += len(words)
        self.steps += sum(map(len, words))
        if cex is None:
            self.accepted = True

    def complete(self, hyp):
        """the hypothesis was given without access sequences: the oracle found some"""
        for s, p in self.hyp_states:
            x = hyp.initial_state
            for a in p or s.prefix or ():
                x = x.transitions[a]
            if s.prefix is None or x is not s:
                self.fail(f'{s.prefix!r} taken as access sequence of state {s.state_id}, but it leads to {x.state_id}')
        self.hyp_states = [(s, tuple(s.prefix)) for s, _ in self.hyp_states]
        self.sim.probe('access sequences found by the oracle')

    # every test but the refuting one has full length
    def lengths(self, words, cex, lo, hi):
        full = words[:-1] if cex is not None else words
        for w in words:
            if len(w) > hi:
                self.fail(f'a test has length {len(w)}, allowed are {lo}..{hi}')
        for w in full:
            if len(w) < lo:
                self.fail(f'a test that found nothing has length {len(w)}, promised are {lo}..{hi}')

    def RandomWord(self, hyp, cex, words):
        self.lengths(words, cex, self.p['min_walk_len'], self.p['max_walk_len'])
        n = self.p['num_walks']
        if self.p['reset_after_cex']:
            if len(words) > n:
                self.fail(f'{len(words)} walks in one search')
            if cex is None and len(words) != n:
                self.fail(f'accepted after {len(words)} walks instead of {n}')
        else:
            t = self.tests + len(words)
            if t > n:
                self.fail(f'{t} walks in total')
            if cex is None and t != n:
                self.fail(f'accepted after {t} walks in total instead of {n}')

    def RandomWalk(self, hyp, cex, words):
        n = self.p['num_steps']
        s = sum(map(len, words))
        if not self.p['reset_after_cex']:
            s += self.steps
        if s > n:
            self.fail(f'{s} inputs executed')
        if cex is None and s != n:
            self.fail(f'accepted after {s} inputs instead of {n}')
        if self.p['reset_prob'] == 1.0 and any(len(w) != 1 for w in words):
            self.fail('no reset between inputs although the reset probability is 1')
        if self.p['reset_prob'] == 0.0 and len(words) > 1:
            self.fail('reset between inputs although the reset probability is 0')

    def _per_state(self, hyp, cex, words, lo, hi_extra):
        """walks_per_state tests over the whole history start at each state's access sequence"""
        self.prefix_tests += [(w, cex is not None and i == len(words) - 1) for i, w in enumerate(words)]
        prefixes = {p for _, p in self.hyp_states if p is not None}
        longest = max(map(len, prefixes))
        self.keys |= prefixes
        if self.tests + len(words) > self.p['walks_per_state'] * len(self.keys):
            self.fail(f'{self.tests + len(words)} walks by round {self.rounds}, the states were reached by {len(self.keys)} different '
                      f'access sequences')
        for w in words:
            if len(w) > longest + hi_extra:
                self.fail(f'test {w!r} is longer than any access sequence plus {hi_extra}')
        if cex is not None:
            return
        for p in prefixes:
            n = sum(1 for w, c in self.prefix_tests if w[:len(p)] == p and (len(w) >= len(p) + lo or c))
            if n < self.p['walks_per_state']:
                self.fail(f'accepted, but only {n} of {self.p["walks_per_state"]} promised walks start from the state '
                          f'reached by {p!r}')
        total = self.p['walks_per_state'] * len(prefixes)
        if self.rounds == 1 and len(words) != total:
            self.fail(f'{len(words)} walks for {len(prefixes)} states')

    def StatePrefix(self, hyp, cex, words):
        m = self.p['max_tests']
        t = self.tests + len(words)
        if m and t > m:
            self.fail(f'{t} tests, max_tests is {m}')
        if m and t >= m - 1:
            return                      # budget used up
        n = self.p['walk_len']
        self._per_state(hyp, cex, words, n, n)
        if self.p['depth_first'] and len(words) > 1 and cex is None and self.rounds == 1:
            seq = sorted((len(p) for _, p in self.hyp_states for _ in range(self.p['walks_per_state'])), reverse=True)
            if [len(w) - n for w in words] != seq:
                self.fail('tests are not ordered by decreasing access sequence length')

    def RandomW(self, hyp, cex, words):
        longest = max(map(len, hyp.characterization_set))
        self._per_state(hyp, cex, words, 1, self.p['walk_len'] + longest)

    def RandomWp(self, hyp, cex, words):
        if len(words) > self.p['num_tests']:
            self.fail(f'{len(words)} tests')
        for w in (words[:-1] if cex is not None else words):
            if not any(w[:len(p)] == p and len(w) >= len(p) + self.p['min_length'] for _, p in self.hyp_states):
                self.fail(f'test {w!r} does not extend an access sequence by {self.p["min_length"]} inputs')

    def TransitionFocus(self, hyp, cex, words):
        self.lengths(words, cex, self.p['walk_len'], self.p['walk_len'])
        if len(words) > self.p['num_random_walks'] or (cex is None and len(words) != self.p['num_random_walks']):
            self.fail(f'answered {cex!r} after {len(words)} walks instead of {self.p["num_random_walks"]}')
        sp = self.p['same_state_prob']
        if sp not in (0.0, 1.0):
            return
        v = model_view(hyp, self.ref.kind, self.ref.alphabet)
        for w in words:
            s = 0
            for i, a in enumerate(w):
                loops = [x for x in v.alphabet if v.delta[s][x] == s]
                focus = loops if sp == 1.0 else [x for x in v.alphabet if x not in loops]
                if focus and a not in focus:
                    self.fail(f'test {w!r} takes {a!r} at position {i}, but the hypothesis offers {focus!r} there for '
                              f'same_state_prob={sp}')
                s = v.delta[s][a]
            self.sim.probe('focused walk checked')

    def Pac(self, hyp, cex, words):
        n = ceil(1 / self.p['epsilon'] * (log(1 / self.p['delta']) + self.rounds * log(2)))
        self.lengths(words, cex, self.p['min_walk_len'], self.p['max_walk_len'])
        if len(words) > n or (cex is None and len(words) != n):
            self.fail(f'answered {cex!r} in round {self.rounds} after {len(words)} tests, the bound asks for {n}')

    def CacheBased(self, hyp, cex, words):
        n = self.p['num_walks']
        t = len(words) if self.p['reset_after_cex'] else self.tests + len(words)
        if t > n or (cex is None and t != n):
            self.fail(f'answered {cex!r} after {t} walks instead of {n}')
        depth = max(map(len, self.known), default=0)
        for i, w in enumerate(words):
            last = cex is not None and i == len(words) - 1
            if len(w) > depth + self.p['depth_increase'] or (not last and len(w) != depth + self.p['depth_increase']):
                self.fail(f'test {w!r} has length {len(w)}, the deepest known trace {depth}')
            if not any(w[:len(x)] == x for x in self.known):
                self.fail(f'test {w!r} does not extend a trace observed before the search')

    def KWayState(self, hyp, cex, words):
        if cex is not None or self.rounds > 1:
            return
        v = model_view(hyp, self.ref.kind, self.ref.alphabet)
        k, wl = self.p['k'], self.p['random_walk_len']
        n = v.n
        if n == 1:
            if len(words) < wl:
                self.fail(f'{len(words)} random walks on a one-state hypothesis')
            return
        reach = [self.closure(v, s) for s in range(n)]
        runs = []
        for w in words:
            st, s = [0], 0
            for a in w[:len(w) - wl]:
                s = v.delta[s][a]
                st.append(s)
            runs.append(st)
        for comb in permutations(range(n), k):
            if not all(comb[i + 1] in reach[comb[i]] for i in range(k - 1)):
                continue
            alts = [comb]
            if self.p['method'] == 'combinations':
                alts = list(permutations(comb))
                if not all(b in reach[a] for a in comb for b in comb):
                    continue            # the order is the oracle's choice and may be impossible
            if not any(self.visits(st, c) for st in runs for c in alts):
                self.fail(f'no test visits the states {comb!r}')
            self.sim.probe('k-way state tuple covered')

    @staticmethod
    def visits(run, comb):
        i = 0
        for s in run:
            if i < len(comb) and s == comb[i]:
                i += 1
        return i == len(comb) and run[-1] == comb[-1]

    @staticmethod
    def closure(v, s):
        seen, order = {s}, [s]
        for x in order:
            for a in v.alphabet:
                t = v.delta[x][a]
                if t not in seen:
                    seen.add(t)
                    order.append(t)
        return seen

    def KWayTransition(self, hyp, cex, words):
        m = self.p['max_number_of_steps']
        if m and sum(map(len, words)) > m:
            self.fail(f'{sum(map(len, words))} inputs executed in round {self.rounds}')
        if cex is not None or m:
            return
        v = model_view(hyp, self.ref.kind, self.ref.alphabet)
        k = self.p['k']
        cov = set()
        for w in words:
            s = 0
            for i in range(len(w) - k + 1):
                cov.add((s, w[i:i + k]))
                s = v.delta[s][w[i]]
        for s in sorted(self.closure(v, 0)):          # unreachable states cannot be covered
            for w in product(v.alphabet, repeat=k):
                if (s, w) not in cov:
                    self.fail(f'accepted in round {self.rounds}, but no test runs {w!r} from state {s} of the hypothesis')
        self.sim.probe('k-way transitions covered')

    def Provided(self, hyp, cex, words):
        v = model_view(hyp, self.ref.kind, self.ref.alphabet)
        while self.pending and self.ref.run(self.pending[0]) == v.run(self.pending[0]):
            done = self.pending.pop(0)
            if done not in words:
                self.fail(f'the provided sequence {done!r} was not executed')
        if self.pending:
            if cex is None or self.pending[0][:len(cex)] != tuple(cex):
                self.fail(f'the provided sequence {self.pending[0]!r} is a counterexample, the answer was {cex!r}')
            self.sim.probe('provided sequence refutes')
            return
        self.inner_calls = getattr(self, 'inner_calls', 0)


class Choosing(SUL):
    """A system with several possible outputs; the simulator's seed decides which one occurs."""

    def __init__(self, sim, rows, lab):
        super().__init__()
        self.sim, self.rows, self.lab = sim, rows, lab
        self.words = []

    def pre(self):
        self.s = 0
        self.words.append(([], []))

    def post(self):
        pass

    def step(self, a):
        self.sim.tick(0.01)
        opts = self.rows[self.s][a]
        o, self.s = opts[self.sim.choose(len(opts))]
        self.words[-1][0].append(a)
        self.words[-1][1].append(o)
        self.sim.log(a, o)
        return o


def with_choices(rows, kind, lab):
    """[{input: [(output, successor)]}] as an Onfsm, Mdp or StochasticMealyMachine"""
    st = [MdpState(f'q{i}', lab[i]) if kind == 'mdp' else (OnfsmState if kind == 'onfsm' else StochasticMealyState)(f'q{i}')
          for i in range(len(rows))]
    for s, row in zip(st, rows):
        for a, l in row.items():
            for o, t in l:
                s.transitions[a].append((o, st[t]) if kind == 'onfsm' else (st[t], 1 / len(l)) if kind == 'mdp' else (st[t], o, 1 / len(l)))
    return {'onfsm': Onfsm, 'mdp': Mdp, 'smm': StochasticMealyMachine}[kind](st[0], st)


def several(sim):
    """Random testing of non-deterministic and stochastic hypotheses: budgets over several searches."""
    kind = sim.pick(['onfsm', 'mdp', 'smm'])
    if kind == 'onfsm':
        ref = gen_nref(sim)
        rows, lab = ref.trans, None
    else:
        ref = gen_pref(sim)
        kind, lab = ref.kind, ref.lab
        rows = [{a: [(o, t) for o, _, t in l] for a, l in r.items()} for r in ref.trans]
    name = sim.pick(['RandomWord', 'RandomWalk'])
    params = draw_params(sim, name, ref)
    sul = Choosing(sim, rows, lab)
    oracle = CLASSES[name](list(ref.alphabet), sul, **params)
    sim.log('system', ref.describe())
    sim.log('oracle', name, params)
    sim.features.update(oracle=name, kind=kind, mode='several outputs')
    chk = Check(sim, name, params, ref, sul)
    found = 0
    for _ in range(sim.int(2, 5)):
        hyp = [{a: list(l) for a, l in r.items()} for r in rows]
        for _ in range(sim.choose(4)):
            l = hyp[sim.choose(len(hyp))][ref.alphabet[sim.choose(len(ref.alphabet))]]
            if len(l) > 1:
                l.pop(sim.choose(len(l)))
                sim.fault('hypothesis lacks a behaviour')
        m = with_choices(hyp, kind, lab)
        chk.before(m)
        cex = sim.sut(oracle.find_cex, m)
        chk.after(m, cex)
        if cex is not None:
            found += 1
            w, outs = sul.words[-1]
            want = (w, outs) if kind == 'onfsm' else ([lab[0]] if kind == 'mdp' else []) + [x for p in zip(w, outs) for x in p]
            if (tuple(map(list, cex)) if kind == 'onfsm' else list(cex)) != want:
                chk.fail(f'the last test was {w!r} with outputs {outs!r}, the answer {cex!r}')
            s = 0
            for i, (a, o) in enumerate(zip(w, outs)):
                t = [t for x, t in hyp[s][a] if x == o]
                if bool(t) != (i < len(w) - 1):
                    chk.fail(f'{cex!r} is no counterexample that ends at the first impossible output')
                s = t[0] if t else s
        elif params['reset_after_cex']:         # the budget is used up until the learner that goes on all the same resets it
            if sim.flip(0.5):
                break
            sim.sut(oracle.reset_counter)
            sim.probe('counter reset by the learner')
    if chk.accepted:
        sim.probe('accepted: ' + name + ' (several outputs)')
    sim.meta['nontrivial'] = found > 0


def scenario(sim):
    if sim.flip(0.15):
        return several(sim)
    ref = gen_ref(sim, max_states=6, max_alpha=3)
    name = sim.pick(NAMES)
    cfg = learner_config(sim)
    cfg['cache'] = False
    base = SimSUL(sim, ref, max_steps=400_000)
    sul = RecordingCache(base) if name == 'CacheBased' else base
    oracle, params = make_oracle(sim, name, ref, sul)
    sim.log('system', ref.describe())
    sim.log('oracle', name, params, cfg)
    chk = Check(sim, name, params, ref, sul)
    Watch(oracle, before=chk.before, after=chk.after)
    if sim.flip(0.25):
        sim.features.update(oracle=name, kind=ref.kind, mode='single hypothesis')
        hyp = aalpy_machine(ref)
        if name in ('StatePrefix', 'RandomW') and sim.flip(0.5):
            for s in hyp.states[sim.choose(ref.n):]:
                s.prefix = None
        sim.sut(oracle.find_cex, hyp)
        sim.meta['nontrivial'] = True
    else:
        sim.features.update(oracle=name, kind=ref.kind, mode='learning', alg=cfg['alg'])
        sim.sut(learn, cfg, list(ref.alphabet), sul, oracle, ref.kind, max_rounds=2 * ref.n + 4)
        sim.meta['nontrivial'] = chk.rounds > 1
    if chk.accepted:
        sim.probe('accepted: ' + name)


RUNS = {'quick': 80_000, 'thorough': 300_000}
