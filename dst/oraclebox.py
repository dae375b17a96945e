"""Shipped equivalence oracles with seed-drawn parameters, and observation of their answers at the interface."""
from math import ceil, log

from aalpy.oracles import *

from .core import Violation
from .models import model_view, BadModel

NAMES = ['RandomWalk', 'RandomWord', 'StatePrefix', 'TransitionFocus', 'W', 'RandomW', 'Wp', 'RandomWp', 'BFE',
         'KWayState', 'KWayTransition', 'CacheBased', 'Pac', 'Provided', 'Perfect']


def aalpy_machine(ref):
    """The reference machine as an AALpy automaton (used where the API takes a model)."""
    from aalpy.automata import Dfa, DfaState, MooreMachine, MooreState, MealyMachine, MealyState
    if ref.kind == 'mealy':
        st = [MealyState(f's{i}') for i in range(ref.n)]
        for i, s in enumerate(st):
            for a in ref.alphabet:
                s.transitions[a] = st[ref.delta[i][a]]
                s.output_fun[a] = ref.out[i][a]
        m = MealyMachine(st[0], st)
    elif ref.kind == 'dfa':
        st = [DfaState(f's{i}', ref.lab[i]) for i in range(ref.n)]
        for i, s in enumerate(st):
            for a in ref.alphabet:
                s.transitions[a] = st[ref.delta[i][a]]
        m = Dfa(st[0], st)
    else:
        st = [MooreState(f's{i}', ref.lab[i]) for i in range(ref.n)]
        for i, s in enumerate(st):
            for a in ref.alphabet:
                s.transitions[a] = st[ref.delta[i][a]]
        m = MooreMachine(st[0], st)
    for i, s in enumerate(st):
        s.prefix = access(ref, i)
    return m


def access(ref, target):
    from collections import deque
    q, seen = deque([(0, ())]), {0}
    while q:
        s, w = q.popleft()
        if s == target:
            return w
        for a in ref.alphabet:
            t = ref.delta[s][a]
            if t not in seen:
                seen.add(t)
                q.append((t, w + (a,)))
    return None


def draw_params(sim, name, ref):
    k = len(ref.alphabet)
    p = {}
    big = sim.flip(0.12)              # longer tests than the system is deep
    sim.features['long tests'] = big
    if name == 'RandomWalk':
        p = dict(num_steps=sim.int(1, 400 if big else 60), reset_after_cex=not sim.flip(0.4), reset_prob=[0.09, 0.5, 0.0, 1.0][sim.choose(4)])
    elif name == 'RandomWord':
        lo = sim.int(1, 25 if big else 6)
        p = dict(num_walks=sim.int(1, 15), min_walk_len=lo, max_walk_len=lo + sim.int(0, 5), reset_after_cex=not sim.flip(0.4))
    elif name == 'StatePrefix':
        p = dict(walks_per_state=sim.int(1, 6), walk_len=sim.int(1, 40 if big else 8), max_tests=[None, 5, 20][sim.choose(3, p0=0.7)],
                 depth_first=not sim.flip(0.5))
    elif name == 'TransitionFocus':
        p = dict(num_random_walks=sim.int(1, 15), walk_len=sim.int(1, 50 if big else 10), same_state_prob=[0.2, 0.0, 1.0, 0.6][sim.choose(4)])
    elif name in ('W', 'Wp'):
        p = dict(max_number_of_states=ref.n + sim.choose(2, p0=0.7))
        # the number of tests grows with k ** (bound - size of the hypothesis)
        while p['max_number_of_states'] > 1 and k ** (p['max_number_of_states'] - 1) > 3000:
            p['max_number_of_states'] -= 1
        if name == 'W':
            p['shuffle_test_set'] = sim.flip(0.5)
    elif name == 'RandomW':
        p = dict(walks_per_state=sim.int(1, 6), walk_len=sim.int(1, 40 if big else 8))
    elif name == 'RandomWp':
        p = dict(min_length=sim.int(1, 3), expected_length=sim.int(1, 30 if big else 8), num_tests=sim.int(1, 30))
    elif name == 'BFE':
        d = sim.int(1, 5)
        while d > 1 and k ** d > 400:
            d -= 1
        p = dict(depth=d)
    elif name == 'KWayState':
        p = dict(k=2 + sim.choose(2, p0=0.7), random_walk_len=sim.int(1, 30 if big else 8), method=sim.pick(['permutations', 'combinations']))
    elif name == 'KWayTransition':
        p = dict(k=2 + sim.choose(2, p0=0.8), method=sim.pick(['random', 'prefix']), num_generate_paths=sim.int(1, 20),
                 max_path_len=sim.int(4, 12), optimize=sim.pick(['steps', 'queries']), random_walk_len=sim.int(1, 5),
                 max_number_of_steps=[0, sim.int(5, 80)][sim.choose(2, p0=0.75)])
        if k ** p['k'] > 30:
            p['k'] = 2
    elif name == 'CacheBased':
        p = dict(num_walks=sim.int(1, 15), depth_increase=sim.int(1, 30 if big else 6), reset_after_cex=not sim.flip(0.4))
    elif name == 'Pac':
        lo = sim.int(1, 20 if big else 6)
        p = dict(epsilon=[0.5, 0.2, 0.1][sim.choose(3)], delta=[0.5, 0.1][sim.choose(2)], min_walk_len=lo, max_walk_len=lo + sim.int(0, 6))
    return p


CLASSES = {'RandomWalk': RandomWalkEqOracle, 'RandomWord': RandomWordEqOracle, 'StatePrefix': StatePrefixEqOracle,
           'TransitionFocus': TransitionFocusOracle, 'W': WMethodEqOracle, 'Wp': WpMethodEqOracle,
           'RandomW': RandomWMethodEqOracle, 'RandomWp': RandomWpMethodEqOracle, 'BFE': BreadthFirstExplorationEqOracle,
           'KWayState': KWayStateCoverageEqOracle, 'KWayTransition': KWayTransitionCoverageEqOracle,
           'CacheBased': CacheBasedEqOracle, 'Pac': PacOracle}


def make_oracle(sim, name, ref, sul, cached=False, exclude=()):
    """-> (oracle, params)"""
    alpha = list(ref.alphabet)
    if name == 'Perfect':
        return PerfectKnowledgeEqOracle(alpha, sul, aalpy_machine(ref)), {}
    if name == 'Provided':
        seqs = [[alpha[sim.choose(len(alpha))] for _ in range(sim.int(1, 6))] for _ in range(sim.int(0, 5))]
        inner_name = sim.pick([n for n in NAMES if n not in ('Provided',) + (() if cached else ('CacheBased',)) + tuple(exclude)])
        inner, ip = make_oracle(sim, inner_name, ref, sul)
        return ProvidedSequencesOracleWrapper(alpha, sul, inner, [list(s) for s in seqs]), \
            {'sequences': seqs, 'inner': inner_name, 'inner_params': ip}
    p = draw_params(sim, name, ref)
    return CLASSES[name](alpha, sul, **p), p


def meaning(hyp):
    """Everything about a hypothesis that matters for its answers; an oracle must leave it as it is."""
    rows = []
    for s in hyp.states:
        rows.append((id(s), repr(getattr(s, 'output', None)), getattr(s, 'is_accepting', None),
                     sorted((repr(a), repr(o)) for a, o in getattr(s, 'output_fun', {}).items()),
                     sorted((repr(a), id(t)) for a, t in s.transitions.items())))
    return id(hyp.initial_state), sorted(rows)


def same_hypothesis(was, hyp, name):
    if meaning(hyp) != was:
        raise Violation('hypothesis-changed', f'{name} changed the hypothesis it was given to test: {len(was[1])} states before, '
                                              f'{len(hyp.states)} after the search')


class Watch:
    """Records every equivalence query at the oracle's public method; calls hooks around it."""

    def __init__(self, oracle, before=None, after=None):
        self.oracle = oracle
        self.before, self.after = before, after
        self.rounds = 0
        self.orig = oracle.find_cex
        oracle.find_cex = self.find_cex

    def find_cex(self, hyp):
        self.rounds += 1
        if self.before:
            self.before(hyp)
        cex = self.orig(hyp)
        if cex is not None and not isinstance(cex, (list, tuple)):
            raise Violation('bad-counterexample', f'answer {cex!r} is neither a sequence nor None')
        if self.after:
            self.after(hyp, cex)
        return cex


def check_cex(ref, hyp, cex, kind, name):
    """A returned counterexample must be real: from reset, system and hypothesis disagree on its last input."""
    if len(cex) == 0:
        raise Violation('bad-counterexample', f'{name} returned an empty counterexample')
    for a in cex:
        if a not in ref.delta[0]:
            raise Violation('bad-counterexample', f'{name} returned {cex!r}: {a!r} is not an input')
    try:
        v = model_view(hyp, kind, ref.alphabet)
    except BadModel as e:
        raise Violation('malformed-hypothesis', str(e))
    a, b = ref.run(cex), v.run(cex)
    if a == b:
        raise Violation('false-counterexample', f'{name} returned {tuple(cex)!r}, but system and hypothesis both answer {a!r}')
    if a[-1] == b[-1]:
        raise Violation('counterexample-not-at-end', f'{name} returned {tuple(cex)!r}, but after the last input system and '
                                                     f'hypothesis agree (system {a!r}, hypothesis {b!r})')
    return v
