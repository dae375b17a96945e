"""C19: passively learned stochastic models carry exactly the frequencies of the log."""
import contextlib
import io
from math import sqrt, log

from aalpy.automata import Mdp, MarkovChain, StochasticMealyMachine
from aalpy.learning_algs import run_Alergia, run_GSM
from aalpy.learning_algs.general_passive.GeneralizedStateMerging import Instrumentation
from aalpy.learning_algs.general_passive.GsmAlgorithms import run_Alergia_EDSM
from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import (ScoreCalculation, hoeffding_compatibility, EDSM_score, AIC_score,
                                                                   EDSM_frequency_score)

from ..core import Violation
from ..logs import deliver
from ..models import shape
from .c10 import gen_pref

CLASS = {'mc': MarkovChain, 'mdp': Mdp, 'smm': StochasticMealyMachine}
STEP = 'step'


def edges(model, kind):
    """{state id: {input: [(output, target, probability)]}} of the returned model"""
    out = {}
    for s in model.states:
        if kind == 'mc':
            row = {STEP: [(t.output, t, p) for t, p in s.transitions]} if s.transitions else {}
        elif kind == 'mdp':
            row = {a: [(t.output, t, p) for t, p in l] for a, l in s.transitions.items() if l}
        else:
            row = {a: [(o, t, p) for t, o, p in l] for a, l in s.transitions.items() if l}
        out[id(s)] = row
    return out


class Tree:
    """Counts of the log per trace."""

    def __init__(self, traces):
        self.n = {(): len(traces)}
        self.succ = {}
        for t in traces:
            for i in range(len(t)):
                p = tuple(t[:i + 1])
                if p not in self.n:
                    self.n[p] = 0
                    self.succ.setdefault(p[:-1], []).append(p[-1])
                self.n[p] += 1

    def row(self, p):
        out = {}
        for a, o in self.succ.get(p, ()):
            out.setdefault(a, {})[o] = self.n[p + ((a, o),)]
        return out

    def different(self, p, q, eps, first=True):
        """Hoeffding test on the futures of two traces: True, False or None (on the border)"""
        a, b = self.row(p), self.row(q)
        border = False
        c = sqrt(0.5 * log(2 / eps))
        for i in a:
            if i in b:
                n, m = sum(a[i].values()), sum(b[i].values())
                lim = (sqrt(1 / n) + sqrt(1 / m)) * c
                for o in set(a[i]) | set(b[i]):
                    d = abs(a[i].get(o, 0) / n - b[i].get(o, 0) / m) - lim
                    if abs(d) < 1e-9:
                        border = True
                    elif d > 0:
                        return True
        for i in a:
            if i in b:
                for o in a[i]:
                    if o in b[i]:
                        r = self.different(p + ((i, o),), q + ((i, o),), eps)
                        if r:
                            return True
                        border = border or r is None
        return None if border else False


def translate(ref):
    new = {a: str(a) for a in ref.alphabet}
    ref.alphabet = [new[a] for a in ref.alphabet]
    ref.trans = [{new[a]: l for a, l in row.items()} for row in ref.trans]
    return ref


def record(sim, ref, kind, sessions, max_len):
    logs = []
    for _ in range(sessions):
        s, tr = 0, []
        for _ in range(sim.int(0, max_len)):
            a = ref.alphabet[sim.choose(len(ref.alphabet))]
            opts = ref.trans[s][a]
            w = sim.choose(sum(x[1] for x in opts)) if len(opts) > 1 else 0
            for o, k, t in opts:
                if w < k:
                    break
                w -= k
            tr.append((STEP if kind == 'mc' else a, o))
            s = t
        if tr and sim.flip(0.08):
            tr = tr[:sim.choose(len(tr))]
            sim.fault('logger crashed during the session')
        sim.tick(0.01 * (len(tr) + 1))
        logs.append(tuple(tr))
    return logs


class Promotions(Instrumentation):
    def __init__(self):
        super().__init__()
        self.red = []

    def pta_construction_done(self, root):
        self.name, todo = {root: ()}, [root]
        while todo:
            n = todo.pop()
            for a, o, t in n.transition_iterator():
                self.name[t.target] = self.name[n] + ((a, o),)
                todo.append(t.target)

    def log_promote(self, node):
        self.red.append(self.name[node])


def walk(model, kind, rows, trace):
    s = model.initial_state
    for a, o in trace:
        s = next(t for x, t, _ in rows[id(s)][a] if x == o)
    return s


def check(sim, model, kind, traces, init, what):
    if not isinstance(model, CLASS[kind]):
        raise Violation('wrong-model-type', f'{type(model).__name__} for {kind}')
    rows = edges(model, kind)
    ids = {id(s) for s in model.states}
    if id(model.initial_state) not in ids:
        raise Violation('malformed-model', 'initial state is not a state of the model')
    if kind != 'smm' and model.initial_state.output != init:
        raise Violation('wrong-initial-output', f'{what}: {model.initial_state.output!r} instead of {init!r}')
    if len({s.state_id for s in model.states}) != len(model.states):
        raise Violation('malformed-model', 'state ids are not unique')
    for s in model.states:
        for a, l in rows[id(s)].items():
            if len({o for o, _, _ in l}) != len(l):
                raise Violation('malformed-model', f'{what}: state {s.state_id} has two transitions with the same input and output: {a!r}')
            if any(id(t) not in ids for _, t, _ in l):
                raise Violation('malformed-model', f'{what}: a transition of {s.state_id} leaves the model')
            if abs(sum(p for _, _, p in l) - 1) > 1e-9 or any(p <= 0 for _, _, p in l):
                raise Violation('malformed-distribution', f'{what}: state {s.state_id}, input {a!r}: {[(o, p) for o, _, p in l]!r}')
    count = {}
    for t in traces:
        s = model.initial_state
        for i, (a, o) in enumerate(t):
            e = [(x, y, p) for x, y, p in rows[id(s)].get(a, ()) if x == o]
            if not e:
                raise Violation('log-impossible', f'{what}: the logged trace {t[:i + 1]!r} is impossible in the model')
            k = (id(s), a)
            count.setdefault(k, {})[o] = count.get(k, {}).get(o, 0) + 1
            s = e[0][1]
    for s in model.states:
        for a, l in rows[id(s)].items():
            c = count.get((id(s), a))
            if c is None:
                raise Violation('made-up-transition', f'{what}: state {s.state_id} has transitions for {a!r} that no logged trace takes')
            n = sum(c.values())
            for o, _, p in l:
                if abs(p - c.get(o, 0) / n) > 1e-9:
                    raise Violation('probability-not-frequency', f'{what}: state {s.state_id}, {a!r} -> {o!r}: probability {p}, but '
                                    f'{c.get(o, 0)} of the {n} logged steps')
    return rows


class Evidence(ScoreCalculation):
    """nodes are compatible by Hoeffding's bound on the recorded counts; the merge with the most compatible pairs wins"""

    def __init__(self, eps):
        super().__init__()
        self.factor, self.pairs = sqrt(log(2 / eps) / 2), 0

    def reset(self):
        self.pairs = 0

    def local_compatibility(self, a, b):
        self.pairs += 1
        for i in a.transitions:
            if i in b.transitions:
                x, y = ({o: t.original_count for o, t in n.transitions[i].items()} for n in (a, b))
                m, n = sum(x.values()), sum(y.values())
                if m and n and any(abs(x.get(o, 0) / m - y.get(o, 0) / n) > self.factor * (sqrt(1 / m) + sqrt(1 / n)) + 1e-12 for o in [*x, *y]):
                    return False
        return True

    def score_function(self, part):
        return self.pairs


def scenario(sim):
    ref = gen_pref(sim)
    kind = ref.kind
    if any(type(a) is not type(ref.alphabet[0]) for a in ref.alphabet):
        ref = translate(ref)         # Alergia sorts prefixes: symbols have to be comparable
    if kind == 'mdp' and sim.flip(0.25):
        kind = 'mc'
        ref.alphabet = ref.alphabet[:1]
    learner = sim.pick(['alergia', 'alergia', 'edsm', 'gsm'])
    eps = sim.pick([0.05, 0.005, 0.5, 2, 1.5, 1e-6, 'auto']) if learner == 'alergia' else sim.pick([0.05, 0.005, 0.5, 2, 1e-6])
    logs = record(sim, ref, kind, [sim.int(1, 40), sim.int(1, 150)][sim.choose(2, p0=0.8)], sim.int(1, 8))
    traces = deliver(sim, logs) or [logs[0]]
    init = ref.lab[0] if kind != 'smm' else None
    sim.log('system', ref.describe())
    sim.log('learner', kind, learner, eps, len(traces))
    for t in traces[:60]:
        sim.log('trace', *t)
    sim.features.update(kind=kind, learner=learner, eps=str(eps), n=ref.n)

    def data(ts):
        if kind == 'smm':
            return [list(t) for t in ts]
        if kind == 'mc':
            return [[init] + [o for _, o in t] for t in ts]
        return [[init] + list(t) for t in ts]

    given = data(traces)
    copy = [list(x) for x in given]
    red = None
    opts = {}
    if learner == 'gsm':
        if kind == 'mc':
            kind = 'mdp'
            given = [[init] + list(t) for t in traces]
            copy = [list(x) for x in given]
        red = Promotions()
        opts = dict(compatibility_on_pta=sim.flip(0.6), compatibility_on_futures=sim.flip(0.6),
                    consider_only_min_blue=sim.flip(0.3), depth_first=sim.flip(0.3))
        score = sim.pick([None, None, EDSM_score(), AIC_score(), EDSM_frequency_score()])
        opts['score_calc'] = ScoreCalculation(hoeffding_compatibility(eps, opts['compatibility_on_pta']), score)
        sim.log('options', *sorted((k, v) for k, v in opts.items() if k != 'score_calc'), score.__qualname__.split('.')[0] if score else None)

    def learn(d):
        with contextlib.redirect_stdout(io.StringIO()):
            if learner == 'alergia':
                return run_Alergia(d, kind, eps=eps, print_info=sim.flip(0.1))
            if learner == 'edsm':
                return run_Alergia_EDSM(d, kind, eps=eps, print_info=sim.flip(0.1))
            return run_GSM(d, output_behavior='mealy' if kind == 'smm' else 'moore', transition_behavior='stochastic',
                           instrumentation=red, data_format='io_traces', **opts)

    model = sim.sut(lambda: learn(given))
    if given != copy:
        raise Violation('log-modified', f'{learner} changed the log it was given')
    what = f'{learner} ({kind}, eps={eps})'
    rows = check(sim, model, kind, traces, init, what)
    if learner == 'edsm' and kind != 'mc' and sim.flip(0.5):
        def stated():
            with contextlib.redirect_stdout(io.StringIO()):
                return run_GSM(data(traces), output_behavior='mealy' if kind == 'smm' else 'moore', transition_behavior='stochastic',
                               score_calc=Evidence(eps), compatibility_on_pta=True, compatibility_on_futures=True, data_format='io_traces')
        other = sim.sut(stated)
        if shape(other) != shape(model):
            raise Violation('not-edsm', f'{what}: {len(model.states)} states, merging by the number of compatible nodes gives {len(other.states)}')
        sim.probe('compared with the criterion')
    tree = Tree(traces)
    if len(model.states) > len(tree.n):
        raise Violation('made-up-states', f'{what}: {len(model.states)} states for {len(tree.n)} logged prefixes')

    # the statistical test decides: states that were kept apart differ, merged ones do not
    value = eps
    if eps == 'auto':
        steps = sum(len(d) - 1 for d in given)
        value = 10 / steps if steps >= 5 else None
    access = None
    if learner == 'alergia':
        access = [tuple((STEP, e) for e in s.prefix) if kind == 'mc' else tuple(s.prefix) for s in model.states]
        for s, p in zip(model.states, access):
            if p not in tree.n or walk(model, kind, rows, p) is not s:
                raise Violation('wrong-prefix', f'{what}: the prefix {p!r} does not lead to its state {s.state_id}')
    elif learner == 'gsm' and opts['compatibility_on_pta'] and opts['compatibility_on_futures'] and score is None:
        access = red.red
        if len(access) != len(model.states):
            raise Violation('malformed-model', f'{what}: {len(access)} promotions, {len(model.states)} states')
    if access is not None and value is not None:
        def out(p):
            return (p[-1][1] if p else init) if kind != 'smm' else None
        for i, p in enumerate(access):
            for q in access[:i]:
                if out(p) == out(q) and tree.different(p, q, value) is False:
                    raise Violation('similar-states-not-merged', f'{what}: {p!r} and {q!r} are states of their own, but their logged futures '
                                    'do not differ significantly')
            for e in tree.succ.get(p, ()):
                t = p + (e,)
                if t in access:
                    continue
                s = walk(model, kind, rows, t)
                k = [q for q in access if walk(model, kind, rows, q) is s]
                if len(k) == 1 and (out(t) != out(k[0]) or tree.different(t, k[0], value)):
                    raise Violation('different-states-merged', f'{what}: {t!r} was merged with {k[0]!r}, but their logged futures differ')
        sim.probe('merge decisions checked')
    sim.model = model
    sim.meta['records'] = len(traces)
    sim.meta['nontrivial'] = len(model.states) > 1


RUNS = {'quick': 60_000, 'thorough': 1_000_000}
