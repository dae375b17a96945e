"""C27: state merging obeys the criteria it is given, whoever supplies them and however they fail, and explains the log."""
import contextlib
import io
import math
import zlib

import pydot

from aalpy.automata import MealyMachine, MooreMachine, Mdp, NDMooreMachine, Onfsm, StochasticMealyMachine
from aalpy.learning_algs import run_GSM
from aalpy.learning_algs.general_passive.GeneralizedStateMerging import GeneralizedStateMerging, Instrumentation
from aalpy.learning_algs.general_passive.GsmNode import GsmNode
from aalpy.learning_algs.general_passive.Instrumentation import MergeViolationDebugger, ProgressReport
from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import (
    AIC_score, EDSM_frequency_score, EDSM_score, hoeffding_compatibility, ScoreCalculation, ScoreCombinator, ScoreWithKTail, ScoreWithSinks,
    local_to_global_compatibility, lower_threshold, make_greedy)

from ..core import Violation, SimFault, SutError
from ..logs import collect, deliver
from ..models import gen_ref, shape
from . import c18, c19
from .c10 import gen_pref

CLASS = {('moore', 'deterministic'): MooreMachine, ('mealy', 'deterministic'): MealyMachine, ('moore', 'nondeterministic'): NDMooreMachine,
         ('mealy', 'nondeterministic'): Onfsm, ('moore', 'stochastic'): Mdp, ('mealy', 'stochastic'): StochasticMealyMachine}


class CriterionFailed(SimFault):
    pass


def number(salt, *x):
    return zlib.crc32(repr((salt,) + x).encode())


def trace(node):
    return [repr(p) for p in node.get_prefix()]


def name(node, det):
    """outputs may be unknown and become known by a merge"""
    return tuple(repr(a) if det else repr((a, o)) for a, o in node.get_prefix())


# -- criteria: (constructor of the library's object, what it has to answer) -----------------------------------------------
class Plain:
    """User-written local compatibility and one of several scores."""

    def __init__(self, sim, level=0, numeric=False):
        self.salt = sim.choose(1 << 20)
        self.refuse = [0.3, 0.7, 0.0, 1.0, None, 'counts'][sim.choose(6, p0=0.45)]       # None: no function
        self.vague = sim.flip(0.5) if level else False
        self.eps, self.original = sim.pick([0.1137, 0.6137, 1.2137, 1.7137]), sim.flip(0.5)
        self.score = sim.pick(['none', 'user', 'edsm', 'frequency', 'aic', 'global'] if not numeric else ['user', 'edsm', 'frequency'])
        self.bound = sim.int(-2, 2)
        self.name = f'plain({self.refuse}{" vague" if self.vague else ""}, {self.score}, {self.bound})'
        if self.refuse == 'counts':
            self.name = f'plain(hoeffding {self.eps} {"original counts" if self.original else "counts"}, {self.score}, {self.bound})'
            self.library = hoeffding_compatibility(self.eps, self.original)

    def verdict(self, a, b):
        if self.refuse is None:
            return True
        if self.refuse == 'counts':
            return self.similar(a, b)
        k = number(self.salt, trace(a), trace(b)) % 1000
        if self.vague and k % 3 == 0:
            return None
        return k >= 1000 * self.refuse

    def similar(self, a, b):
        field = 'original_count' if self.original else 'count'
        for i in a.transitions:
            if i not in b.transitions:
                continue
            x, y = ({o: getattr(t, field) for o, t in n.transitions[i].items()} for n in (a, b))
            m, n = sum(x.values()), sum(y.values())
            if m and n:
                limit = math.sqrt(math.log(2 / self.eps) / 2) * (1 / math.sqrt(m) + 1 / math.sqrt(n))
                if any(abs(x.get(o, 0) / m - y.get(o, 0) / n) > limit + 1e-12 for o in [*x, *y]):
                    return False
        return True

    def user_score(self, part):
        k = number(self.salt, sorted(trace(n) for n in part))
        return k % 5 != 0 and (k % 7 == 0 or k)

    def make(self):
        score = {'none': None, 'user': self.user_score, 'edsm': EDSM_score(self.bound), 'frequency': EDSM_frequency_score(self.bound),
                 'aic': AIC_score(self.bound + 0.37), 'global': local_to_global_compatibility(self.library if self.refuse == 'counts' else self.verdict)}[self.score]
        return ScoreCalculation(None if self.refuse is None else self.library if self.refuse == 'counts' else self.verdict, score)

    def reset(self):
        pass

    def local(self, a, b):
        return self.verdict(a, b)

    def total(self, part):
        if self.score == 'none':
            return True
        if self.score == 'user':
            return self.user_score(part)
        if self.score == 'global':
            return all(self.verdict(new, old) is not False for old, new in part.items())
        if self.score == 'edsm':
            x = len(part) - len({id(n) for n in part.values()})
        elif self.score == 'frequency':
            x = 0
            for old, new in part.items():
                for a, row in old.transitions.items():
                    for o, t in row.items():
                        if a in new.transitions and o in new.transitions[a] and new.transitions[a][o].count != t.count:
                            x += t.count
        else:
            x = self.information(part.keys()) - self.information({id(n): n for n in part.values()}.values())
        bound = self.bound + 0.37 if self.score == 'aic' else self.bound        # away from the differences that occur by themselves
        return x if x > bound else False

    @staticmethod
    def information(nodes):
        """number of transitions minus log likelihood"""
        n = ll = 0
        for s in nodes:
            for row in s.transitions.values():
                c = [t.count for t in row.values()]
                n += len(c)
                ll += sum(x * math.log(x) for x in c) - sum(c) * math.log(sum(c))
        return n - ll

    def scored(self):
        return self.score != 'none'


class KTail:
    def __init__(self, sim, level):
        self.inner = criterion(sim, level + 1)
        self.k = sim.int(0, 4)
        self.first = None
        self.name = f'k-tail({self.k}, {self.inner.name})'

    def make(self):
        return ScoreWithKTail(self.inner.make(), self.k)

    def reset(self):
        self.first = None
        self.inner.reset()

    def local(self, a, b):
        if self.first is None:
            self.first = len(trace(b))
        return True if len(trace(b)) - self.first >= self.k else self.inner.local(a, b)

    def total(self, part):
        return self.inner.total(part)

    def scored(self):
        return self.inner.scored()


class Sinks:
    def __init__(self, sim, level):
        self.inner = criterion(sim, level + 1)
        self.merge = sim.flip(0.5)
        self.salt = sim.choose(1 << 20)
        self.first = True
        self.name = f'sinks({self.merge}, {self.inner.name})'

    def sink(self, node):
        return not node.transitions or number(self.salt, trace(node)) % 4 == 0

    def make(self):
        return ScoreWithSinks(self.inner.make(), self.sink, self.merge) if not self.merge else ScoreWithSinks(self.inner.make(), self.sink)

    def reset(self):
        self.first = True
        self.inner.reset()

    def local(self, a, b):
        if self.first:
            self.first = False
            x, y = self.sink(a), self.sink(b)
            if x != y or x and not self.merge:
                return False
        return self.inner.local(a, b)

    def total(self, part):
        return self.inner.total(part)

    def scored(self):
        return self.inner.scored()


class Combined:
    def __init__(self, sim, level):
        self.parts = [criterion(sim, level + 1) for _ in range(sim.int(1, 3))]
        self.how = sim.pick(['default', 'all'])
        self.score = sim.pick(['default', 'weakest'])
        self.name = f'combined({self.how}, {self.score}, {", ".join(p.name for p in self.parts)})'

    @staticmethod
    def every(verdicts):
        return all(v is not False for v in verdicts)

    @staticmethod
    def weakest(scores):
        return min(([x] if not isinstance(x, list) else x for x in scores), key=repr)

    def make(self):
        return ScoreCombinator([p.make() for p in self.parts], self.every if self.how == 'all' else None,
                               self.weakest if self.score == 'weakest' else None)

    def reset(self):
        for p in self.parts:
            p.reset()

    def local(self, a, b):
        for p in self.parts:
            v = p.local(a, b)
            if self.how == 'all':
                if v is False:
                    return False
            elif v is not None:
                return v
        return True

    def total(self, part):
        scores = [p.total(part) for p in self.parts]
        return self.weakest(scores) if self.score == 'weakest' else scores

    def scored(self):
        return True


class Transformed:
    def __init__(self, sim, level):
        self.inner = Plain(sim, level, numeric=True)
        self.bound = [None, sim.int(-2, 6)][sim.choose(2)]
        self.name = f'{"greedy" if self.bound is None else "at least " + str(self.bound)}({self.inner.name})'

    def make(self):
        c = self.inner.make()
        return make_greedy(c) if self.bound is None else lower_threshold(c, self.bound)

    def reset(self):
        self.inner.reset()

    def local(self, a, b):
        return self.inner.local(a, b)

    def total(self, part):
        x = self.inner.total(part)
        return x is not False if self.bound is None else x if self.bound < x else False

    def scored(self):
        return True


def criterion(sim, level=0):
    k = sim.choose(10)
    if level < 2:
        if k == 9:
            return Transformed(sim, level)
        if k == 8:
            return Combined(sim, level)
        if k == 7:
            return Sinks(sim, level)
        if k == 6:
            return KTail(sim, level)
    return Plain(sim, level)


# -- observation -----------------------------------------------------------------------------------------------------------
class Failing:
    """Every call into code of the user is counted; one of them may fail."""

    def __init__(self, sim):
        self.sim, self.calls, self.at = sim, 0, None

    def __call__(self, where):
        self.calls += 1
        if self.at is not None and self.calls == self.at:
            self.sim.fault(f'{where} of the user fails')
            self.error = CriterionFailed(where)
            raise self.error


class Watch(ScoreCalculation):
    """Hands every question to the library's object and compares the answer with the one it has to give."""

    def __init__(self, spec, failing):
        super().__init__()
        self.spec, self.lib, self.failing, self.key = spec, spec.make(), failing, None
        self.begin()

    def begin(self):
        self.refused = False
        self.attempts = []                # (mapping, score) since the last merge
        self.asked = set()                # (state, candidate) since the last merge
        self.sequence = []                # (key of the candidate, key of the state) since the last decision
        self.fresh = False
        self.merges = self.questions = 0

    def reset(self):
        self.lib.reset()
        self.spec.reset()
        self.refused = False
        self.fresh = True

    def has_score_function(self):
        return self.lib.has_score_function()

    def local_compatibility(self, a, b):
        self.failing('local compatibility')
        self.questions += 1
        if self.fresh:
            self.fresh = False
            self.asked.add((name(a, self.det), id(b)))
            if self.key is not None:
                self.sequence.append((self.key(b), self.key(a)))
        got, want = self.lib.local_compatibility(a, b), self.spec.local(a, b)
        if got is not want:
            raise Violation('criterion-misjudges', f'{self.spec.name}: {trace(a)} and {trace(b)} are judged {got!r}, not {want!r}')
        self.refused = self.refused or got is False
        return got

    def score_function(self, part):
        self.failing('score')
        got, want = self.lib.score_function(part), self.spec.total(part)
        if not close(got, want):
            raise Violation('criterion-misjudges', f'{self.spec.name}: a merge of {len(part)} nodes has score {got!r}, not {want!r}')
        self.attempts.append((part, got, self.refused))
        return got


def close(x, y):
    if isinstance(x, list) or isinstance(y, list):
        return type(x) is type(y) and len(x) == len(y) and all(map(close, x, y))
    if isinstance(x, bool) or isinstance(y, bool) or x is None or y is None:
        return x is y
    return abs(x - y) < 1e-6


class Log(Instrumentation):
    """Judges every decision when it is announced."""

    def __init__(self, watch, failing, opts, world):
        super().__init__()
        self.watch, self.failing, self.opts = watch, failing, opts
        self.red, self.decisions, self.done = [], [], 0
        self.world, self.nodes = world, 0

    def look(self):
        """The states and merge candidates as they are now, for the next decision."""
        if self.watch is None:
            return
        reds = {id(r) for r in self.red}
        blue = {id(t.target): t.target for r in self.red for _, _, t in r.transition_iterator() if id(t.target) not in reds}
        key = self.watch.key
        self.least = min(blue.values(), key=key) if key and blue else None
        self.possible = {(name(r, self.watch.det), i) for i, b in blue.items() for r in self.red if self.locally(r, b)}
        self.watch.sequence = []

    def locally(self, a, b):
        if self.opts['output_behavior'] == 'moore':
            x, y = a.prefix_access_pair[1], b.prefix_access_pair[1]
            if x is not None and y is not None and x != y:
                return False
        if self.opts['transition_behavior'] == 'deterministic':
            for i in a.transitions:
                if i in b.transitions:
                    x, y = set(a.transitions[i]), set(b.transitions[i])
                    if None not in x and None not in y and x != y:
                        return False
        return True

    def order(self, node):
        """A user's order rules; the candidates of one kind have been judged before anything was decided about them."""
        w = self.watch
        if w.sequence != sorted(w.sequence):
            raise Violation('order-ignored', f'the candidates were considered in the order {w.sequence!r}')
        if self.opts['consider_only_min_blue'] and self.least is not None and node is not self.least:
            raise Violation('order-ignored', f'decided about {trace(node)}, the first candidate is {trace(self.least)}')

    def complete(self, what, pairs):
        missing = [p for p in pairs if p not in self.watch.asked]
        if missing:
            raise Violation('candidate-not-considered', f'{what}: the merge with the state {missing[0][0]} was never judged')

    def pta_construction_done(self, root):
        self.failing('instrumentation')
        self.nodes = tree_counts(self.world, root)

    def log_promote(self, node):
        self.failing('instrumentation')
        first = not self.red
        if not first and self.watch is not None:
            self.order(node)
            self.complete(f'promoted {trace(node)}', [p for p in self.possible if p[1] == id(node)])
        self.red.append(node)
        self.look()
        self.decisions.append(('promote', trace(node)))
        if self.watch is not None:
            for part, score, refused in self.watch.attempts:
                if node in part and score is not False and not refused and any(part.get(r) is part[node] for r in self.red[:-1]):
                    raise Violation('promoted-although-mergeable', f'{trace(node)} was promoted, a merge with score {score!r} was possible')

    def log_merge(self, part):
        self.failing('instrumentation')
        self.decisions.append(('merge', trace(part.red), trace(part.blue)))
        w = self.watch
        if not any(part.red is r for r in self.red):
            raise Violation('wrong-merge', f'{trace(part.red)} is no state')
        if any(part.blue is r for r in self.red):
            raise Violation('wrong-merge', f'the state {trace(part.blue)} was merged away')
        if part.score is False:
            raise Violation('merged-although-refused', f'{trace(part.red)} with {trace(part.blue)}: score {part.score!r}')
        if w is not None:
            w.merges += 1
            self.order(part.blue)
            if part.score is not True:
                self.complete(f'merged {self.decisions[-1][1:]}', [p for p in self.possible if not self.opts['consider_only_min_blue'] or p[1] == id(part.blue)])
            mine = [(m, s, r) for m, s, r in w.attempts if part.blue in m and m.get(part.red) is m[part.blue]]
            if w.attempts and any(m for m, _, _ in w.attempts):
                if not mine or mine[-1][2] or not close(mine[-1][1], part.score):
                    raise Violation('merged-although-refused', f'{trace(part.red)} with {trace(part.blue)}: score {part.score!r}, '
                                                               f'judged {[(s, r) for _, s, r in mine]!r}')
                if part.score is not True:
                    better = [s for m, s, r in w.attempts if s is True or s is not False and s > part.score]
                    if better:
                        raise Violation('worse-merge-preferred', f'merge with score {part.score!r} performed, possible were {better!r}')
            w.attempts = []
            w.asked = set()
            self.look()

    def learning_done(self, root):
        self.failing('instrumentation')
        self.done += 1
        if root is not self.red[0]:
            raise Violation('wrong-result', 'the initial state of the result is not the first state')


# -- the world -------------------------------------------------------------------------------------------------------------
class World:
    pass


def draw_data(sim):
    w = World()
    w.trans = sim.pick(['deterministic', 'deterministic', 'nondeterministic', 'stochastic'])
    w.contradiction = None
    if w.trans == 'deterministic':
        ref = gen_ref(sim, kind=sim.pick(['mealy', 'moore']), max_states=6, max_alpha=3)
        w.out = ref.kind
        w.init = ref.lab[0] if ref.lab else None
        logs = collect(sim, ref.alphabet, ref.run, sim.int(1, 25), sim.int(1, 7))
        w.format = sim.pick(['labeled_sequences', 'io_traces'])
        if w.format == 'labeled_sequences':
            w.data = deliver(sim, c18.records(sim, ref, logs), lossy=ref.kind != 'mealy')
        else:
            w.data = deliver(sim, logs)
        if not w.data:
            w.data = [((ref.alphabet[0],), ref.run((ref.alphabet[0],))[0])] if w.format == 'labeled_sequences' else [[(ref.alphabet[0], ref.run((ref.alphabet[0],))[0])]]
        if sim.flip(0.08):
            others = ['other']
            k = sim.choose(len(w.data))
            if w.format == 'labeled_sequences' and (w.data[k][0] or w.out == 'moore'):
                w.contradiction = w.data[k][0]
                w.data.insert(sim.choose(len(w.data) + 1), (w.data[k][0], others[0]))
            elif w.format == 'io_traces' and w.data[k]:
                w.contradiction = w.data[k]
                w.data.insert(sim.choose(len(w.data) + 1), list(w.data[k][:-1]) + [(w.data[k][-1][0], others[0])])
            if w.contradiction is not None:
                sim.fault('contradicting record')
        w.traces = w.data if w.format == 'io_traces' else None
    else:
        ref = gen_pref(sim)
        if any(type(a) is not type(ref.alphabet[0]) for a in ref.alphabet):
            ref = c19.translate(ref)
        w.out = 'mealy' if ref.kind == 'smm' else 'moore'
        w.init = ref.lab[0] if ref.lab else None
        w.format = sim.pick(['io_traces', 'io_traces', 'traces'])
        if w.format == 'traces':
            ref.alphabet = ref.alphabet[:1]
        logs = c19.record(sim, ref, 'mc' if w.format == 'traces' else ref.kind, sim.int(1, 30), sim.int(1, 7))
        w.traces = [list(t) for t in deliver(sim, logs) or [logs[0]]]
    w.ref = ref
    return w


def given(w):
    """the data as a user would write it down; a new object every time"""
    if w.format == 'labeled_sequences':
        return [(tuple(x), o) for x, o in w.data]
    head = [w.init] if w.out == 'moore' else []
    if w.format == 'traces':
        return [head + [o for _, o in t] for t in w.traces]
    return [head + [tuple(p) for p in t] for t in w.traces]


def prefixes(w):
    """how often each prefix was recorded"""
    n = {}
    for t in [x for x, _ in w.data] if w.format == 'labeled_sequences' else w.traces:
        t = [('step', o) for _, o in t] if w.format == 'traces' else list(t)
        for i in range(len(t) + 1):
            n[tuple(t[:i])] = n.get(tuple(t[:i]), 0) + 1
    return n


def tree_counts(w, root):
    """The prefix tree has a node for every recorded prefix and knows how often it was recorded."""
    want, todo, n = prefixes(w), [((), root)], 0
    for p, node in todo:
        n += 1
        for a, row in node.transitions.items():
            for o, t in row.items():
                q = p + ((a,) if w.format == 'labeled_sequences' else ((a, o),))
                if (t.count, t.original_count) != (want.get(q),) * 2 or t.original_target is not t.target:
                    raise Violation('wrong-prefix-tree', f'{q!r} was recorded {want.get(q)} times, the tree has {t.count} ({t.original_count})')
                todo.append((q, t.target))
    if n != len(want):
        raise Violation('wrong-prefix-tree', f'{n} nodes for {len(want)} recorded prefixes')
    return n


def variant(sim, w, spec, opts, ready, what, log):
    """Other ways to hand over the same log and to get the same result."""
    how = sim.pick(['format', 'tree', 'node', 'report', 'debug'])
    args = dict(score_calc=spec.make(), data_format=w.format, **opts)
    data = given(w)
    with contextlib.redirect_stdout(io.StringIO()):
        if how == 'format':
            outputs = {type(o) for _, o in w.data} if w.format == 'labeled_sequences' else {type(o) for t in w.traces for _, o in t} | {type(w.init)}
            if w.format == 'traces' or tuple in outputs or list in outputs:
                return
            args['data_format'] = None
            try:
                model = sim.sut(lambda: run_GSM(data, **args))
            except SutError as e:
                if isinstance(e.__cause__, ValueError) and 'ambiguous' in str(e.__cause__):
                    if w.format == 'labeled_sequences' or w.out == 'moore' or any(len(t) != 2 for t in data):
                        raise Violation('format-not-recognised', f'{what}: {e}')
                    return
                raise
        elif how == 'tree':
            tree = sim.sut(lambda: GsmNode.createPTA(data, w.out, w.format))
            args['data_format'] = sim.pick([None, 'tree'])
            model = sim.sut(lambda: run_GSM(tree, **args))
        elif how == 'node':
            root = sim.sut(lambda: run_GSM(data, convert=False, **args))
            if not isinstance(root, GsmNode):
                raise Violation('wrong-model-type', f'{type(root).__name__} with convert=False')
            model = sim.sut(lambda: root.to_automaton(w.out, w.trans, set_prefix=True))
            access(w, model)
            if sim.flip(0.3):
                drawn(sim, w, root, model)
            if sim.flip(0.3):
                flat = sum(len(r) for n in root.get_all_nodes() for r in n.transitions.values()) == len(model.states) - 1
                try:
                    again = sim.sut(GsmNode.createPTA, root, w.out, 'tree')
                except SutError as e:
                    if flat or not isinstance(e.__cause__, ValueError):
                        raise
                else:
                    if not flat or again is not root:
                        raise Violation('wrong-prefix-tree', 'a model with joins or loops was accepted as a tree')
        elif how == 'report':
            report = ProgressReport(sim.int(0, 2))
            model = sim.sut(lambda: run_GSM(data, instrumentation=report, **args))
            seen = [[x[0], *([repr(p) for p in q] for q in x[1])] for x in report.log]
            if seen != [list(d) for d in log.decisions]:
                raise Violation('wrong-report', f'{what}: reported are {seen!r}, performed were {log.decisions!r}')
            merges = sum(d[0] == 'merge' for d in log.decisions)
            if (report.nr_red_states, report.nr_merged_states) != (len(log.red), merges):
                raise Violation('wrong-report', f'{what}: {report.nr_red_states} states and {report.nr_merged_states} merges, '
                                                f'not {len(log.red)} and {merges}')
            if not (opts['compatibility_on_futures'] and not spec.scored()) and report.nr_merged_states_total + report.nr_red_states != log.nodes:
                raise Violation('wrong-report', f'{what}: {report.nr_merged_states_total} nodes merged into {report.nr_red_states} states of {log.nodes}')
        else:
            if w.format == 'labeled_sequences':
                return
            truth = sim.sut(lambda: run_GSM(data, convert=False, **args))
            report = MergeViolationDebugger(truth)
            args['score_calc'] = spec.make()
            model = sim.sut(lambda: run_GSM(given(w), instrumentation=report, **args))
            seen = [[x[0], *([repr(p) for p in q] for q in x[1:])] for x in report.log]
            if seen != [list(d) for d in log.decisions]:
                raise Violation('wrong-report', f'{what}: reported are {seen!r}, performed were {log.decisions!r}')
    if shape(model) != ready:
        raise Violation('run-not-repeatable', f'{what}: {len(ready)} states, then {len(model.states)} ({how})')
    sim.probe('variant ' + how)


def drawn(sim, w, root, model):
    """The picture of the result shows its states and transitions."""
    shown = []
    real = pydot.Dot.write
    pydot.Dot.write = lambda graph, path, prog=None, format='raw', **_: shown.append((graph, path, format))
    try:
        sim.sut(root.visualize, 'picture', w.out, 'dot')
    finally:
        pydot.Dot.write = real
    (graph, path, form), = shown
    edges = []
    for n in root.get_all_nodes():
        for a, row in n.transitions.items():
            for o, t in row.items():
                edges.append(f'{a} [{t.count}]' if w.out == 'moore' else f'{a} / {o} [{t.count}]')
    nodes = [n for n in graph.get_nodes() if n.get_name() != '__start0']
    labels = [e.get('label') for e in graph.get_edges() if e.get_source() != '__start0']
    starts = [e.get_destination() for e in graph.get_edges() if e.get_source() == '__start0']
    if path != 'picture.dot' or form != 'raw' or len(nodes) != len(model.states) or len({n.get_name() for n in nodes}) != len(nodes) \
            or sorted(labels) != sorted(edges) or starts != [nodes[0].get_name()]:
        raise Violation('wrong-picture', f'{path!r} ({form}) shows {len(nodes)} nodes, edges {labels!r}, start {starts!r} for {len(model.states)} states and {edges!r}')
    if w.out == 'moore' and sorted(str(n.get('label')).rsplit(' ', 1)[0] for n in nodes) != sorted(str(s.output) for s in model.states):
        raise Violation('wrong-picture', f'labels {[n.get("label") for n in nodes]!r}')
    sim.probe('picture')


def access(w, model):
    """the prefix of a state leads to it"""
    for s in model.states:
        cur = model.initial_state
        for p in s.prefix:
            nxt = None
            if w.trans == 'deterministic':
                nxt = cur.transitions.get(p)
            else:
                for e in cur.transitions.get(p[0], []):
                    t = next(x for x in e if hasattr(x, 'transitions')) if isinstance(e, tuple) else e
                    o = next(x for x in e if x is not t) if w.out == 'mealy' else t.output
                    if w.out == 'mealy' and w.trans == 'stochastic':
                        o = e[1]
                    if o == p[1]:
                        nxt = t
            if nxt is None:
                raise Violation('wrong-prefix', f'the prefix {s.prefix!r} is not possible')
            cur = nxt
        if cur is not s:
            raise Violation('wrong-prefix', f'the prefix {s.prefix!r} of {s.state_id} leads to {cur.state_id}')


def judge(sim, w, model, what):
    if type(model) is not CLASS[w.out, w.trans]:
        raise Violation('wrong-model-type', f'{type(model).__name__} for {w.out}, {w.trans}')
    ids = {id(s) for s in model.states}
    if id(model.initial_state) not in ids or len({s.state_id for s in model.states}) != len(model.states):
        raise Violation('malformed-model', f'{what}: initial state or state ids')
    if w.trans == 'stochastic':
        return c19.check(sim, model, 'mdp' if w.out == 'moore' else 'smm', w.traces, w.init, what)
    if w.trans == 'deterministic':
        records = w.data if w.format == 'labeled_sequences' else [(tuple(a for a, _ in t[:i]), t[i - 1][1] if i else w.init)
                                                                  for t in w.traces for i in range(w.out == 'mealy', len(t) + 1)]
        for word, o in records:
            got = c18.answer(model, word, w.out)
            if got[0] != 'out' or not c18.same(got[1], o):
                raise Violation('log-contradicted', f'{what}: the log says {o!r} for {word!r}, the model {got!r}')
        return
    seen = {(a, o) for t in w.traces for a, o in t}
    for t in w.traces:
        cur = [model.initial_state]
        if w.out == 'moore' and model.initial_state.output != w.init:
            raise Violation('log-contradicted', f'{what}: initial output {model.initial_state.output!r}, logged {w.init!r}')
        for a, o in t:
            cur = [e[1] if w.out == 'mealy' else e for s in cur for e in s.transitions.get(a, [])
                   if (e[0] if w.out == 'mealy' else e.output) == o]
            if not cur:
                raise Violation('log-contradicted', f'{what}: the logged trace {t!r} is impossible')
    for s in model.states:
        for a, l in s.transitions.items():
            for e in l:
                o, t = e if w.out == 'mealy' else (e.output, e)
                if id(t) not in ids or (a, o) not in seen:
                    raise Violation('made-up-output', f'{what}: state {s.state_id} gives {o!r} on {a!r}')


def scenario(sim):
    w = draw_data(sim)
    spec = criterion(sim)
    opts = dict(output_behavior=w.out, transition_behavior=w.trans, consider_only_min_blue=sim.flip(0.3), depth_first=sim.flip(0.3),
                compatibility_on_pta=sim.flip(0.3))
    # futures are judged pairwise, which does not exclude contradictory merges of deterministic data
    opts['compatibility_on_futures'] = w.trans != 'deterministic' and sim.flip(0.4)
    order = sim.pick([None, None, 'short', 'long'])
    failing = Failing(sim)
    calls = {'pre': 0, 'post': 0}

    def node_order(a, b):
        failing('order')
        x, y = trace(a), trace(b)
        return (len(x), x) < (len(y), y) if order == 'short' else (-len(x), x) < (-len(y), y)

    def pre(root):
        failing('preprocessing')
        calls['pre'] += 1
        return root

    def post(root):
        failing('postprocessing')
        calls['post'] += 1
        return root

    if order:
        opts['node_order'] = node_order
    if sim.flip(0.4):
        opts.update(pta_preprocessing=pre, postprocessing=post)
    what = f'{spec.name}, {sorted((k, v if not callable(v) else k) for k, v in opts.items())}'
    sim.log('system', w.ref.describe())
    sim.log('criteria', what)
    for t in given(w)[:60]:
        sim.log('record', *t)
    sim.features.update(out=w.out, trans=w.trans, format=w.format, criterion=type(spec).__name__, futures=opts['compatibility_on_futures'])

    def learn(gsm, data, log):
        with contextlib.redirect_stdout(io.StringIO()):
            return gsm.run(data, instrumentation=log, data_format=w.format)

    # 1 - every answer of the criteria and every decision is watched
    watch = Watch(spec, failing)
    watch.det = w.trans == 'deterministic'
    if order:
        watch.key = lambda n: ((len(trace(n)) * (1 if order == 'short' else -1)), trace(n))
    log = Log(watch, failing, opts, w)
    data = given(w)
    gsm = GeneralizedStateMerging(score_calc=watch, **opts)
    try:
        model = sim.sut(learn, gsm, data, log)
    except SutError as e:
        if w.contradiction is not None and isinstance(e.__cause__, ValueError):
            sim.probe('contradiction reported')
            return
        raise
    if w.contradiction is not None:
        raise Violation('contradiction-accepted', f'the log contradicts itself on {w.contradiction!r}, a model was returned')
    if repr(data) != repr(given(w)):
        raise Violation('log-modified', 'the log given by the user was changed')
    judge(sim, w, model, what)
    if len(model.states) != len(log.red) or log.done != 1:
        raise Violation('wrong-result', f'{what}: {len(log.red)} states promoted, {len(model.states)} states returned, learning done {log.done} times')
    if 'postprocessing' in opts and calls != {'pre': 1, 'post': 1}:
        raise Violation('criterion-misused', f'pre- and postprocessing were called {calls!r} times')
    extremes(sim, w, spec, model, what)
    ready = shape(model)

    # 2 - the same criteria, not watched; the convenience function
    total = failing.calls
    failing.calls = 0
    other = Log(None, failing, opts, w)
    with contextlib.redirect_stdout(io.StringIO()):
        second = sim.sut(lambda: run_GSM(given(w), score_calc=spec.make(), instrumentation=other if sim.flip(0.5) else None,
                                         data_format=w.format, **opts))
    if shape(second) != ready:
        raise Violation('run-not-repeatable', f'{what}: {len(ready)} states, then {len(second.states)} with the same criteria')

    if sim.flip(0.4):
        failing.calls = 0
        variant(sim, w, spec, opts, ready, what, log)

    # 3 - a criterion fails at some point; the object is used again
    if sim.flip(0.5):
        failing.calls, failing.at = 0, sim.int(1, total)
        watch.begin()
        try:
            sim.sut(learn, gsm, given(w), Log(watch, failing, opts, w))
        except CriterionFailed as e:
            if e is not failing.error:
                raise Violation('error-replaced', f'{e!r} instead of {failing.error!r}')
        else:
            raise Violation('error-swallowed', f'{what}: the criterion failed at call {failing.at} of {total}, a model was returned')
        failing.calls, failing.at = 0, None
        watch.begin()
        again = sim.sut(learn, gsm, given(w), Log(watch, failing, opts, w))
        if shape(again) != ready:
            raise Violation('run-not-repeatable', f'{what}: {len(ready)} states, then {len(again.states)} after a failure')
        sim.probe('repeated after a failure')
    sim.model = model
    sim.meta['nontrivial'] = watch.merges > 0 and len(model.states) > 1


def extremes(sim, w, spec, model, what):
    """Criteria that refuse everything or nothing have only one possible result."""
    if type(spec) is not Plain:
        return
    if spec.refuse == 1.0:
        nodes = {()}
        if w.format == 'labeled_sequences':
            nodes |= {tuple(x[:i]) for x, _ in w.data for i in range(len(x) + 1)}
        else:
            nodes |= {tuple(t[:i]) for t in w.traces for i in range(len(t) + 1)}
        if len(model.states) != len(nodes):
            raise Violation('merged-although-refused', f'{what}: {len(model.states)} states, the log has {len(nodes)} prefixes')
        sim.probe('everything refused')
    elif spec.refuse in (0.0, None) and spec.score in ('none', 'global') and w.trans != 'deterministic':
        n = 1 if w.out == 'mealy' else len({w.init} | {o for t in w.traces for _, o in t})
        if len(model.states) != n:
            raise Violation('promoted-although-mergeable', f'{what}: {len(model.states)} states, {n} expected: nothing was refused')
        sim.probe('nothing refused')


RUNS = {'quick': 16_000, 'thorough': 400_000}
