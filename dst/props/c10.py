"""C10: stochastic L* returns well-formed models whose probabilities are the observed frequencies."""
import contextlib
import io
import math
import random as pyrandom
import re

from aalpy.automata import Mdp, StochasticMealyMachine
from aalpy.base import SUL, Oracle
from aalpy.learning_algs import run_stochastic_Lstar
from aalpy.learning_algs.stochastic.DifferenceChecker import AdvancedHoeffdingChecker, HoeffdingChecker, ChiSquareChecker
from aalpy.oracles import RandomWordEqOracle, RandomWalkEqOracle

from ..core import Violation, Discard
from ..world import unchanged
from ..models import gen_alphabet


class PRef:
    """Stochastic reference. kind 'mdp': lab[s], trans[s][a] = [(label, weight, successor)] with different labels;
    kind 'smm': trans[s][a] = [(output, weight, successor)] with different outputs."""

    def __init__(self, kind, alphabet, trans, lab):
        self.kind, self.alphabet, self.trans, self.lab = kind, alphabet, trans, lab

    @property
    def n(self):
        return len(self.trans)

    def describe(self):
        return self.kind + ' ' + ' | '.join((f'{s}[{self.lab[s]!r}]: ' if self.lab else f'{s}: ') + ', '.join(
            f'{a!r}->{self.trans[s][a]!r}' for a in self.alphabet) for s in range(self.n))


def gen_pref(sim, max_states=4, max_alpha=2):
    kind = sim.pick(['mdp', 'smm'])
    alphabet = gen_alphabet(sim, 1, max_alpha)
    n = sim.int(1, max_states)
    K = 3
    wide = sim.choose(6, p0=0.8)
    if wide == 1:
        n = sim.int(1, 8)
    elif wide in (2, 3):
        K = 5
    outs = [list('xyzuv'), list(range(5))][sim.choose(2, p0=0.7)][:K]
    top = 4 if sim.flip(0.85) else 40            # rare branches
    nd = [0.0, 0.4, 0.8][sim.choose(3)]
    if kind == 'mdp':
        outs = [str(o) for o in outs]
        lab = [outs[sim.choose(K)] for _ in range(n)]
        trans = []
        for s in range(n):
            row = {}
            for a in alphabet:
                succ = [sim.choose(n)]
                while len(succ) < K and sim.flip(nd):
                    t = sim.choose(n)
                    if lab[t] not in [lab[x] for x in succ]:
                        succ.append(t)
                row[a] = [(lab[t], sim.int(1, top), t) for t in succ]
            trans.append(row)
    else:
        lab, trans = None, []
        for s in range(n):
            row = {}
            for a in alphabet:
                k = 1
                while k < K and sim.flip(nd):
                    k += 1
                row[a] = [(o, sim.int(1, top), sim.choose(n)) for o in sim.shuffle(outs)[:k]]
            trans.append(row)
    return PRef(kind, alphabet, trans, lab)


class PSystem(SUL):
    """Outputs are drawn from the simulator's seed; `skew` starves one branch during the first sessions (drifting odds)."""

    def __init__(self, sim, ref, skew, max_steps=400_000):
        super().__init__()
        self.sim, self.ref, self.skew, self.max_steps = sim, ref, skew, max_steps
        self.rng = pyrandom.Random(sim.choose(1 << 30))
        self.count = {}              # trace -> {input: {output: n}}
        self.sessions = 0
        self.steps = 0
        self.open = False
        self.forced = None

    def pre(self):
        if self.open:
            raise Violation('overlapping-session', 'pre() while a session is open')
        self.sessions += 1
        self.sim.tick(0.01)
        self.open = True
        self.s = 0
        self.tr = ()

    def post(self):
        self.open = False

    def step(self, a):
        if not self.open:
            raise Violation('step-outside-session', f'input {a!r} executed outside a session')
        if a is None:
            return self.ref.lab[self.s]
        self.sim.tick(0.01)
        self.steps += 1
        if self.steps > self.max_steps:
            raise Discard('too many steps')
        opts = self.ref.trans[self.s][a]
        if self.forced:
            o = self.forced.pop(0)
        elif len(opts) == 1:
            o = opts[0][0]
        else:
            w = [x[1] for x in opts]
            if self.sessions < self.skew:
                w[-1] = 0
            o = self.rng.choices([x[0] for x in opts], w)[0]
        self.s = next(t for x, _, t in opts if x == o)
        c = self.count.setdefault(self.tr, {}).setdefault(a, {})
        c[o] = c.get(o, 0) + 1
        self.tr += (a, o)
        if self.steps <= 2000:
            self.sim.log(a, o)
        return o


class View:
    """hypothesis / model read through its public structure"""

    def __init__(self, model, ref, what):
        self.kind = ref.kind
        ids = {id(s) for s in model.states}
        if id(model.initial_state) not in ids:
            raise Violation('malformed-model', f'{what}: the initial state is not among the states')
        self.states, self.init = model.states, model.initial_state
        self.tr = {}
        self.chaos = []
        for s in model.states:
            if (ref.kind == 'mdp' and s.output == 'chaos') or (ref.kind == 'smm' and s.state_id == 'chaos'):
                self.chaos.append(s)
        for s in model.states:
            row = {}
            for a in ref.alphabet:
                ts = [(t.output, p, t) if ref.kind == 'mdp' else (t[0], t[1], t[2]) for t, p in []]
                for x in s.transitions.get(a, []):
                    t, o, p = (x[0], x[0].output, x[1]) if ref.kind == 'mdp' else x
                    if id(t) not in ids:
                        raise Violation('malformed-model', f'{what}: {s.state_id} --{a!r}--> leaves the model')
                    ts.append((o, p, t))
                if not ts:
                    raise Violation('malformed-model', f'{what}: {s.state_id} has no transition for {a!r}')
                if len({o for o, _, _ in ts}) != len(ts):
                    raise Violation('malformed-model', f'{what}: {s.state_id} has two transitions for {a!r} with the same output: {ts!r}')
                if any(not 0 < p <= 1 + 1e-12 for _, p, _ in ts) or abs(sum(p for _, p, _ in ts) - 1) > 1e-9:
                    raise Violation('bad-probability', f'{what}: {s.state_id} on {a!r}: {[(o, p) for o, p, _ in ts]!r}')
                row[a] = ts
            self.tr[id(s)] = row

    def next(self, s, a, o):
        return next((t for x, _, t in self.tr[id(s)][a] if x == o), None)


def empirical(view, ref, sysm, what):
    """every state's probabilities are the frequencies observed after the trace that represents the state"""
    n = 0
    for s in view.states:
        if s in view.chaos:
            continue
        p = tuple(s.prefix)
        if ref.kind == 'mdp':
            if not p or p[0] != ref.lab[0]:
                raise Violation('malformed-model', f'{what}: access trace {p!r} does not start with the initial output')
            if s.output != p[-1]:
                raise Violation('wrong-output', f'{what}: state with access trace {p!r} has output {s.output!r}')
            p = p[1:]
        for a in ref.alphabet:
            got = {o: q for o, q, _ in view.tr[id(s)][a]}
            if set(got) == {'chaos'}:
                continue
            cnt = sysm.count.get(p, {}).get(a, {})
            tot = sum(cnt.values())
            want = {o: c / tot for o, c in cnt.items()}
            if set(got) != set(want) or any(abs(got[o] - want[o]) > 1e-9 for o in got):
                raise Violation('wrong-probability', f'{what}: state reached by {p!r} on {a!r}: model {got!r}, observed {cnt!r}')
            n += 1
    return n


def lacking(ref, view):
    """shortest trace of the system that the model cannot follow"""
    if ref.kind == 'mdp' and view.init.output != ref.lab[0]:
        raise Violation('wrong-output', f'initial state has output {view.init.output!r}, the system {ref.lab[0]!r}')
    seen = {(0, id(view.init))}
    q = [(0, view.init, ())]
    for s, h, tr in q:
        for a in ref.alphabet:
            for o, _, t in ref.trans[s][a]:
                nx = view.next(h, a, o)
                if nx is None:
                    return tr + (a, o)
                if (t, id(nx)) not in seen:
                    seen.add((t, id(nx)))
                    q.append((t, nx, tr + (a, o)))
    return None


def quantile(p, k):
    """chi-square quantile by bisection on the regularised incomplete gamma function"""
    if (p, k) not in _Q:
        def cdf(x):
            a, x = k / 2, x / 2
            term = tot = 1 / a
            n = a
            while term > tot * 1e-16:
                n += 1
                term *= x / n
                tot += term
            return tot * math.exp(-x + a * math.log(x) - math.lgamma(a))
        lo, hi = 1e-9, 200.0
        for _ in range(200):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if cdf(mid) < p else (lo, mid)
        _Q[(p, k)] = lo
    return _Q[(p, k)]


_Q = {}
EDGE = 1e-7


def chi2_value(c1, c2):
    outs = set(c1) | set(c2)
    n1, n2 = sum(c1.values()), sum(c2.values())
    small = len(outs) == 2 and any(c.get(o, 0) < 5 for o in outs for c in (c1, c2))
    q = 0.0
    for o in outs:
        share = (c1.get(o, 0) + c2.get(o, 0)) / (n1 + n2)
        for c, n in ((c1, n1), (c2, n2)):
            q += (abs(c.get(o, 0) - n * share) - (0.5 if small else 0)) ** 2 / (n * share)
    return q


def hoeffding(c1, c2, alpha):
    """largest difference of two relative frequencies over the bound; None without data"""
    n1, n2 = sum(c1.values()), sum(c2.values())
    if not n1 or not n2:
        return None
    bound = (1 / math.sqrt(n1) + 1 / math.sqrt(n2)) * math.sqrt(math.log(2 / alpha) / 2)
    return max(abs(c1.get(o, 0) / n1 - c2.get(o, 0) / n2) for o in set(c1) | set(c2)) / bound


def differs(kind, c1, c2, alpha=None):
    """Are the two samples significantly different? True / False, None on the edge."""
    if kind == 'classic':
        if set(c1) != set(c2):
            return True
        x = hoeffding(c1, c2, alpha or 0.05)
    elif kind == 'normal':
        x = hoeffding(c1, c2, alpha or 0.05)
    else:
        outs = set(c1) | set(c2)
        if not c1 or not c2 or len(outs) == 1:
            return False
        if set(c1) & set(c2):
            x = chi2_value(c1, c2) / quantile(1 - (alpha or 0.001), len(outs) - 1)
        else:
            x = hoeffding(c1, c2, 0.05)
    if x is None:
        return False
    return None if abs(x - 1) < EDGE else x > 1


def checkers(sim):
    """the three tests on arbitrary pairs of samples"""
    outs = ['x', 'y', 'z', 'u', 'v', '', 1, '1', 0][:sim.int(1, 9)]
    sim.features.update(kind='samples', outputs=len(outs))
    first = True
    for _ in range(12):
        kind = sim.pick(['normal', 'classic', 'chi2'])
        alpha = sim.pick([None, 0.05, 0.01, 0.001]) if kind == 'chi2' else sim.pick([None, 0.05, 0.01, 0.2])
        use = sim.flip(0.3)
        cls = {'normal': AdvancedHoeffdingChecker, 'classic': HoeffdingChecker, 'chi2': ChiSquareChecker}[kind]
        kw = {} if alpha is None else {'alpha': alpha}
        if kind == 'normal':
            kw['use_diff'] = use
        elif kind == 'chi2':
            kw['use_diff_value'] = use
        ck = sim.sut(cls, **kw)
        if bool(sim.sut(ck.use_diff_value)) != (use and kind != 'classic'):
            raise Violation('wrong-option', f'{kind}: use_diff_value() is {ck.use_diff_value()!r}, asked for {use}')
        size = [3, 10, 60, 1000][sim.choose(4)]
        cell = lambda: {o: sim.int(1, size) for o in outs if sim.flip(0.75)}
        c1 = cell()
        c2 = {o: max(1, c * sim.int(1, 3) + sim.int(0, 3)) for o, c in c1.items()} if sim.flip(0.5) else cell()
        if sim.flip(0.2):
            c2 = {o: c for o, c in c2.items() if sim.flip(0.5)}
        k1, k2 = dict(c1), dict(c2)
        got = sim.sut(ck.are_cells_different, c1, c2)
        want = differs(kind, c1, c2, alpha)
        sim.log(kind, alpha, c1, c2, got)
        if (c1, c2) != (k1, k2):
            raise Violation('changed-argument', f'{kind}: {k1!r}, {k2!r} became {c1!r}, {c2!r}')
        if want is not None and bool(got) != want:
            raise Violation('wrong-judgement', f'{kind} (alpha {alpha}): {c1!r} and {c2!r} are {"" if got else "not "}different')
        if bool(sim.sut(ck.are_cells_different, c2, c1)) != bool(got) and want is not None:
            raise Violation('wrong-judgement', f'{kind} (alpha {alpha}): not symmetric for {c1!r} and {c2!r}')
        if want:
            sim.probe('samples found different')
        if kind == 'classic' or not c1 and not c2:
            continue
        v, n1, n2 = sim.sut(ck.difference_value, c1, c2), sum(c1.values()), sum(c2.values())
        if kind == 'normal':
            if n1 and n2:
                w = sum(abs(c1.get(o, 0) / n1 - c2.get(o, 0) / n2) for o in outs)
            else:
                w = 2 * math.sqrt(math.log(2 / (alpha or 0.05)) / (2 * max(n1, n2)))
        elif c1 and c2:
            w = chi2_value(c1, c2) if len(set(c1) | set(c2)) > 1 else 0
        else:
            w = quantile(1 - (alpha or 0.001), max(1, len(set(c1) | set(c2))))
        if abs(v - w) > 1e-6 * max(1, abs(w)):
            raise Violation('wrong-difference', f'{kind} (alpha {alpha}): difference of {c1!r} and {c2!r} is {v!r}, not {w!r}')
    sim.meta['nontrivial'] = len(outs) > 1


def cells(sysm, p, tails):
    """what was observed after trace p + tail"""
    return {e: sysm.count.get(p + e[:-1], {}).get(e[-1], {}) for e in tails}


def tails_of(sysm, p, depth):
    out, level = [], [()]
    for _ in range(depth):
        nxt = []
        for e in level:
            for a, os in sysm.count.get(p + e, {}).items():
                out.append(e + (a,))
                nxt += [e + (a, o) for o in os]
        level = nxt[:60]
    return out


def told_apart(sim, view, ref, sysm, kind, n_c, what):
    """states are merged only if the samples allow it, and kept apart only if some sample demands it"""
    known = [s for s in view.states if s not in view.chaos]
    trace = {id(s): tuple(s.prefix)[1 if ref.kind == 'mdp' else 0:] for s in known}
    for s in known:
        p = trace[id(s)]
        if p and not sysm.count.get(p[:-2], {}).get(p[-2], {}).get(p[-1]):
            raise Violation('made-up-trace', f'{what}: {s.state_id} has the access trace {p!r}, which was never observed')
        for a in ref.alphabet:
            tot = sum(sysm.count.get(p, {}).get(a, {}).values())
            unknown = {o for o, _, _ in view.tr[id(s)][a]} == {'chaos'}
            if unknown != (tot < (n_c if kind == 'classic' else 1)):
                raise Violation('wrong-completeness', f'{what}: {a!r} was executed {tot} times after {p!r} (n_c {n_c}, {kind}), behaviour '
                                                      f'{"un" if unknown else ""}known in the model')
            if unknown:
                continue
            for o, _, t in view.tr[id(s)][a]:
                if id(t) not in trace:
                    continue
                q = trace[id(t)]
                if ref.kind == 'mdp' and t.output != o:
                    raise Violation('wrong-output', f'{what}: transition with output {o!r} to a state with output {t.output!r}')
                for b in ref.alphabet:
                    c1, c2 = (sysm.count.get(x, {}).get(b, {}) for x in (p + (a, o), q))
                    if kind == 'classic' and min(sum(c1.values()), sum(c2.values())) < n_c:
                        continue
                    if differs(kind, c1, c2):
                        raise Violation('merged-different', f'{what}: {p + (a, o)!r} leads to the state of {q!r}, but on {b!r} the samples '
                                                            f'{c1!r} and {c2!r} differ significantly')
                    sim.probe('successor compared')
    for i, s in enumerate(known):
        for t in known[:i]:
            if ref.kind == 'mdp' and s.output != t.output:
                continue
            p, q = trace[id(s)], trace[id(t)]
            for e in tails_of(sysm, p, 6) + ([] if kind != 'classic' else tails_of(sysm, q, 6)):
                c1, c2 = (sysm.count.get(x + e[:-1], {}).get(e[-1], {}) for x in (p, q))
                if kind == 'classic' and min(sum(c1.values()), sum(c2.values())) < n_c and e[:-1] == ():
                    continue
                if differs(kind, c1, c2) is not False:
                    sim.probe('states told apart by samples')
                    break
            else:
                raise Violation('split-equal', f'{what}: the samples after {p!r} and {q!r} do not differ, but they are two states')


def all_samples_explained(sim, view, ref, sysm, kind, what):
    """breadth-first search for counterexamples in the samples: the oracle is asked only when there is none"""
    q, n = [((), view.init)], 0
    for tr, h in q:
        rep = tuple(h.prefix)[1 if ref.kind == 'mdp' else 0:]
        for a, os in sysm.count.get(tr, {}).items():
            if tr != rep and differs(kind, os, sysm.count.get(rep, {}).get(a, {})):
                raise Violation('sample-not-explained', f'{what}: the oracle was asked although the samples {os!r} for {a!r} after {tr!r} differ '
                                                        f'significantly from those of the state, {sysm.count.get(rep, {}).get(a, {})!r}')
            for o in os:
                nx = view.next(h, a, o)
                if nx is None:
                    raise Violation('sample-not-explained', f'{what}: the oracle was asked although the observed trace {tr + (a, o)!r} is no '
                                                            f'run of the hypothesis')
                q.append((tr + (a, o), nx))
        n += 1
    sim.probe('sampled traces explained', n)


class PTeacher(Oracle):
    def __init__(self, ref, sysm):
        super().__init__(ref.alphabet, sysm)
        self.ref, self.system = ref, sysm

    def find_cex(self, hyp):
        tr = lacking(self.ref, View(hyp, self.ref, 'hypothesis'))
        if tr is None:
            return None
        self.reset_hyp_and_sul(hyp)
        self.system.forced = list(tr[1::2])
        for a, o in zip(tr[::2], tr[1::2]):
            self.num_steps += 1
            if self.sul.step(a) != o:
                raise Violation('wrapper-changed-output', f'{a!r}')
        self.system.forced = None
        self.sul.post()
        return ([self.ref.lab[0]] if self.ref.kind == 'mdp' else []) + list(tr)

    def reset_counter(self):
        pass


class Recorder:
    """a user-supplied difference test: the built-in one, with every call recorded against the samples taken so far"""

    @staticmethod
    def make(sim, base, kind, ref, sysm, **kw):
        class Own(base):
            def are_cells_different(self, c1, c2, **k):
                if not k:
                    return super().are_cells_different(c1, c2)
                if set(k) != {'s1', 's2', 'e'}:
                    raise Violation('difference-test-arguments', f'got {sorted(k)!r}')
                for s, c in ((k['s1'], c1), (k['s2'], c2)):
                    tr = (tuple(s) + tuple(k['e']))[1 if ref.kind == 'mdp' else 0:]
                    real = sysm.count.get(tr[:-1], {}).get(tr[-1], {})
                    # the table is filled after sampling, so it can only lag behind
                    if any(n > real.get(o, 0) for o, n in c.items()):
                        raise Violation('wrong-cell', f'cell of {s!r}, {k["e"]!r} is {c!r}, observed {real!r}')
                sim.probe('call of a user-supplied difference test')
                return super().are_cells_different(c1, c2)
        return Own(**kw)


def scenario(sim):
    if sim.flip(0.15):
        return checkers(sim)
    ref = gen_pref(sim)
    skew = sim.int(1, 400) if sim.flip(0.3) else 0
    if skew:
        sim.fault('branch starved at first')
    sysm = PSystem(sim, ref, skew)
    strategy = sim.pick(['normal', 'chi2', 'classic'])
    cexp = sim.pick([None, None, 'longest_prefix'])
    cexs = sim.pick([None, 'bfs', 'random:20:0.2'])
    min_r = sim.int(1, 4)
    top = max_r = min_r + sim.int(0, 5)
    name = sim.pick(['teacher', 'RandomWord', 'RandomWalk'])
    sim.log('system', ref.describe())
    sim.log('config', strategy, cexp, cexs, min_r, max_r, name, skew)
    sim.features.update(kind=ref.kind, strategy=strategy, cexp=str(cexp), cexs=str(cexs)[:6], oracle=name, skew=bool(skew), n=ref.n)
    if name == 'teacher':
        oracle = PTeacher(ref, sysm)
    elif name == 'RandomWord':
        lo = sim.int(1, 4)
        oracle = RandomWordEqOracle(list(ref.alphabet), sysm, num_walks=sim.int(1, 40), min_walk_len=lo, max_walk_len=lo + sim.int(0, 5),
                                    reset_after_cex=not sim.flip(0.3))
    else:
        oracle = RandomWalkEqOracle(list(ref.alphabet), sysm, num_steps=sim.int(1, 200), reset_after_cex=not sim.flip(0.3),
                                    reset_prob=[0.09, 0.5][sim.choose(2)])
    orig, calls, in_oracle = oracle.find_cex, [], [0]
    n_c, n_resample = sim.int(2, 8), sim.int(5, 40)
    test = strategy
    if strategy != 'classic' and sim.flip(0.25):
        base = AdvancedHoeffdingChecker if strategy == 'normal' else ChiSquareChecker
        diff = sim.flip(0.5)
        test = Recorder.make(sim, base, strategy, ref, sysm, **({'use_diff': diff} if strategy == 'normal' else {'use_diff_value': diff}))
        sim.features['own difference test'] = True

    # when may (and has to) learning stop
    stop = {}
    if sim.flip(0.4):
        kind = sim.choose(6)
        k = sim.int(1, 4)
        stop = [dict(target_unambiguity=2.0, stopping_range_dict={}), dict(target_unambiguity=0.0, stopping_range_dict={}),
                dict(target_unambiguity=2.0, stopping_range_dict={k: 1.0}),
                dict(stopping_range_dict=sim.pick(['strict', 'relaxed'])),
                dict(target_unambiguity=sim.pick([0.5, 0.99, 1.0]), stopping_range_dict={}),
                dict(target_unambiguity=2.0, stopping_range_dict={k: sim.pick([0, 0.01])})][kind]
        sim.features['stopping'] = kind
        # in the last two cases only where every row of the table has exactly one representative, for certain
        due = [lambda n: False, lambda n: True, lambda n: n >= k and strategy != 'classic', None,
               lambda n: True if clear[-1] else None,
               lambda n: False if n < k or strategy == 'classic' else True if all(clear[-k:]) else None][kind]
        if kind in (1, 2) and strategy != 'classic' and sim.flip(0.15):
            top, max_r = None, 10 ** 9
    single = all(len(x) == 1 for row in ref.trans for x in row.values())
    progress = []                   # (round, clean, all rows clear) of every query
    level = 2 if stop else 0
    buf = io.StringIO()

    def find_cex(hyp):
        if calls and calls[-1][1] is None and sysm.sessions == calls[-1][2]:
            raise Violation('idle-round', f'query {len(calls)} refuted nothing, no further sample was taken, but learning goes on')
        v = View(hyp, ref, 'hypothesis')
        if v.chaos:
            raise Violation('malformed-model', 'a hypothesis with a chaos state was given to the oracle')
        if sim.probes.get('probability rows compared') is None or len(calls) < 6:
            sim.probe('probability rows compared', empirical(v, ref, sysm, f'hypothesis of query {len(calls) + 1}'))
        if len(calls) < 6:
            told_apart(sim, v, ref, sysm, strategy, n_c, f'hypothesis of query {len(calls) + 1}')
            if cexs == 'bfs':
                all_samples_explained(sim, v, ref, sysm, strategy, f'hypothesis of query {len(calls) + 1}')
        if calls and calls[-1][1] is not None:
            tr, h = calls[-1][1][1 if ref.kind == 'mdp' else 0:-2], v.init
            for a, o in zip(tr[::2], tr[1::2]):
                h = h and v.next(h, a, o)
            if h is None:
                raise Violation('counterexample-dropped', f'the oracle is asked again, but the new hypothesis has no run for {tr!r}, the part '
                                                          f'of the last counterexample the previous one had')
        mark = sysm.sessions
        cex = orig(hyp)
        in_oracle[0] += sysm.sessions - mark
        calls.append((hyp, None if cex is None else tuple(cex), sysm.sessions))
        shown = re.findall(r'Hypothesis:? (\d+)', buf.getvalue())
        apart = len({s.output for s in hyp.states}) == len(hyp.states) if ref.kind == 'mdp' else len(hyp.states) == 1
        progress.append((int(shown[-1]) if shown else None, cex is None, single and apart))
        sim.log('EQ', len(hyp.states), cex)
        if cex is not None:
            tr = tuple(cex)
            if ref.kind == 'mdp':
                if not tr or tr[0] != ref.lab[0]:
                    raise Violation('false-counterexample', f'{tr!r} does not start with the initial output {ref.lab[0]!r}')
                tr = tr[1:]
            h, ok = v.init, len(tr) >= 2 and len(tr) % 2 == 0
            for k in range(0, len(tr), 2):
                if not ok or not sysm.count.get(tr[:k], {}).get(tr[k], {}).get(tr[k + 1]):
                    ok = False
                    break
                nx = v.next(h, tr[k], tr[k + 1])
                if (nx is None) != (k + 2 == len(tr)):
                    ok = False
                    break
                h = nx
            if not ok:
                raise Violation('false-counterexample', f'{cex!r} is no observed trace that leaves the hypothesis in its last step')
            sim.probe('counterexample')
        return cex

    oracle.find_cex = find_cex
    alphabet = list(ref.alphabet)
    # the standard output belongs to the process: nothing is said about it while other sessions print
    with contextlib.nullcontext() if sim.shared else contextlib.redirect_stdout(buf):
        r = sim.sut(run_stochastic_Lstar, alphabet, sysm, oracle, min_rounds=min_r, max_rounds=top, automaton_type=ref.kind,
                    strategy=test, cex_processing=cexp, samples_cex_strategy=cexs, custom_oracle=True, return_data=True,
                    n_c=n_c, n_resample=n_resample, print_level=level, **stop)
    unchanged(alphabet=(list(ref.alphabet), alphabet))
    model, info = sim.model, sim.info = r
    if buf.getvalue() and not level:
        raise Violation('output-not-asked-for', f'print_level=0 prints {buf.getvalue()[:300]!r}')
    if type(model) is not (Mdp if ref.kind == 'mdp' else StochasticMealyMachine):
        raise Violation('wrong-model-type', type(model).__name__)
    v = View(model, ref, 'model')
    rounds = info['learning_rounds']
    if rounds > max_r or len(calls) > rounds:
        raise Violation('too-many-rounds', f'{rounds} rounds, {len(calls)} equivalence queries, max_rounds {max_r}')
    learning = sysm.sessions - in_oracle[0] - (1 if ref.kind == 'mdp' else 0)
    if strategy == 'classic' and (learning % n_resample or not n_resample <= learning <= (rounds + 1) * n_resample):
        raise Violation('wrong-sample-size', f'{learning} sampling sessions in {rounds} rounds with n_resample={n_resample}')
    if stop and due and cexs is None and all(r for r, _, _ in progress):
        clean, clear = 0, []
        for i, (r, ok, sure) in enumerate(progress):
            clean += ok
            if ok:
                clear.append(sure)
            last = i + 1 == len(progress) and r == rounds
            want = r == max_r or ok and r >= min_r and due(clean)
            if want is None:
                continue
            if want != last and (want or r < max_r) and not (strategy == 'classic' and last and ok and sysm.sessions == calls[-1][2]):
                raise Violation('wrong-stop', f'{stop!r}, min_rounds {min_r}, max_rounds {max_r}, {strategy}: learning '
                                              f'{"stops" if last else "goes on"} after round {r}; queries (round, no counterexample, every row clear): '
                                              f'{progress!r}')
            sim.probe('stopping decision checked', kind > 3 or i == 0)
        for share, n, m in re.findall(r'Unambiguous rows: ([\d.]+)%; (\d+) out of (\d+)', buf.getvalue()):
            if int(n) > int(m) or abs(float(share) - 100 * int(n) / int(m)) > 0.006 or all(x[2] for x in progress) and n != m:
                raise Violation('wrong-unambiguity', f'{n} of {m} rows are unambiguous ({share}%)')
            sim.probe('reported unambiguity checked')
    if strategy != 'classic' and rounds < min(min_r, max_r):
        raise Violation('stopped-too-early', f'{rounds} rounds, min_rounds is {min_r}')
    if cexs is None and not v.chaos and not (calls and calls[-1][0] is model):
        last = calls[-1][1] if calls else None
        h = v.init
        for a, o in zip(*((last[1 if ref.kind == 'mdp' else 0:-2][i::2] for i in (0, 1)) if last else ((), ()))):
            h = h and v.next(h, a, o)
        if h is not None:
            raise Violation('not-tested', f'the oracle was never asked about the model of round {rounds}; last counterexample: {last!r}')
    sim.meta['nontrivial'] = rounds > 1 and any(len(x) > 1 for row in ref.trans for x in row.values())
    sim.meta['rounds'] = rounds
    sim.feature('stopped early', rounds < max_r)
    if rounds < max_r:
        if v.chaos:
            raise Violation('chaos-left', f'learning stopped after {rounds} of {max_r} rounds with a chaos state in the model')
        if calls and calls[-1][0] is model and calls[-1][1] is not None:
            raise Violation('refuted-model-returned', f'learning stopped after {rounds} of {max_r} rounds with the model for which the '
                                                      f'oracle returned {calls[-1][1]!r}')
        if name == 'teacher' and cexs is None:
            tr = lacking(ref, v)
            if tr is not None:
                raise Violation('refuted-model-returned', f'learning stopped after {rounds} of {max_r} rounds, but the model has no run '
                                                          f'for {tr!r}')
            sim.probe('early stop with an accepted model')


RUNS = {'quick': 4_000, 'thorough': 40_000}
