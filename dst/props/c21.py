"""C21: external tools (PRISM, JAlergia) get the true model or data, and their failures are never taken for results."""
import io
import os
import re
import shutil
import subprocess
import tempfile

import aalpy.paths
from aalpy.automata import Mdp, MdpState, StochasticMealyMachine, StochasticMealyState
from aalpy.learning_algs import run_stochastic_Lstar, run_JAlergia
from aalpy.utils import model_check_experiment, model_check_properties, save_automaton_to_file
from aalpy.utils.ModelChecking import stop_based_on_confidence

from ..core import Violation, SimFault, SutError
from .c10 import PRef, PSystem, PTeacher, View, lacking
from .c11 import build, view, TYPES

KEYWORDS = {'mdp', 'init', 'module', 'endmodule', 'label', 'dtmc', 'formula', 'const'}
IDENT = re.compile(r'^[A-Za-z_][A-Za-z0-9_]*$')


class NoTool(SimFault, FileNotFoundError):
    pass


def gen_system(sim):
    """stochastic system with outputs PRISM can use as labels"""
    kind = sim.pick(['mdp', 'smm'])
    n = sim.int(1, 5)
    alphabet = sim.shuffle(['a', 'b', 'init', 'x_1', 'module'])[:sim.int(1, 3)]
    outs = sim.shuffle(['goal', 'grass', 'sand__goal', 'crash', 'mdp', 'sand'])[:4]
    top = 4 if sim.flip(0.7) else 5000
    trans, lab = [], None
    if kind == 'mdp':
        lab = [outs[sim.choose(4)] for _ in range(n)]
        for s in range(n):
            row = {}
            for a in alphabet:
                succ = [sim.choose(n)]
                while len(succ) < 3 and sim.flip(0.6):
                    t = sim.choose(n)
                    if lab[t] not in [lab[x] for x in succ]:
                        succ.append(t)
                row[a] = [(lab[t], sim.int(1, top), t) for t in succ]
            trans.append(row)
    else:
        for s in range(n):
            trans.append({a: [(o, sim.int(1, top), sim.choose(n)) for o in sim.shuffle(outs)[:sim.int(1, 3)]] for a in alphabet})
    return PRef(kind, alphabet, trans, lab), outs


def machine(sim, ref):
    ids = sim.pick([[f'q{i}' for i in range(ref.n)], [f's{i * 7}' for i in range(ref.n)], [str(i) for i in range(ref.n)]])
    partial = sim.flip(0.2)
    if ref.kind == 'mdp':
        st = [MdpState(i, o) for i, o in zip(ids, ref.lab)]
    else:
        st = [StochasticMealyState(i) for i in ids]
    for s, row in zip(st, ref.trans):
        for a, l in row.items():
            if partial and sim.flip(0.3):
                continue
            w = sum(x[1] for x in l)
            s.transitions[a] = [(st[t], k / w) if ref.kind == 'mdp' else (st[t], o, k / w) for o, k, t in l]
    order = sim.shuffle(st) if sim.flip(0.5) else st
    return (Mdp if ref.kind == 'mdp' else StochasticMealyMachine)(st[0], order)


def labels(o):
    return {x for x in o.split('__') if x}


def value(model, avoid, goal, steps):
    """max. probability to see `goal` within `steps` steps and `avoid` not before, read off the model itself"""
    mdp = isinstance(model, Mdp)

    def hit(o):
        if goal in labels(o):
            return 1.0
        return 0.0 if avoid is not None and avoid in labels(o) else None

    v = {id(s): 0.0 for s in model.states}
    if mdp:
        v = {id(s): hit(s.output) or 0.0 for s in model.states}
    for _ in range(steps):
        new = {}
        for s in model.states:
            h = hit(s.output) if mdp else None
            if h is not None:
                new[id(s)] = h
                continue
            best = 0.0
            for l in s.transitions.values():
                q = 0.0
                for x in l:
                    if mdp:
                        q += x[1] * v[id(x[0])]
                    else:
                        e = hit(x[1])
                        q += x[2] * (v[id(x[0])] if e is None else e)
                best = max(best, q)
            new[id(s)] = best
        v = new
    return v[id(model.initial_state)]


PROP = re.compile(r'Pmax=\?\s*\[\s*(?:!\("(\w+)"\)\s*U<=(\d+)\s*\("(\w+)"\)|F<(\d+)\s*\("(\w+)"\))\s*\]')


def sanitize(x):
    return '___' + x + '___' if x in ('mdp', 'init', 'module', 'endmodule', 'label') else x


def gen_property(sim, outs):
    ls = sorted({x for o in outs for x in labels(o)})
    g, k = ls[sim.choose(len(ls))], sim.int(1, 12)
    if sim.flip(0.5):
        return (None, g, k), f'Pmax=?[F<{k + 1}("{sanitize(g)}")]'
    a = ls[sim.choose(len(ls))]
    return (a, g, k), f'Pmax=? [ !("{sanitize(a)}") U<={k} ("{sanitize(g)}") ]'


def java(x):
    """Double.toString"""
    if x == 0 or 1e-3 <= abs(x) < 1e7:
        return repr(float(x)) if 'e' not in repr(float(x)) else f'{x:.17f}'
    m, e = f'{x:.15e}'.split('e')
    m = m.rstrip('0')
    return (m + '0' if m.endswith('.') else m) + 'E' + str(int(e))


class Module:
    """A model file as PRISM reads it."""

    def __init__(self, text):
        t = ' '.join(text.split())
        m = re.fullmatch(r'mdp module (\w+) loc : \[0\.\.(\d+)\] init (\d+);(.*?)endmodule(.*)', t)
        if not m:
            raise ValueError('syntax error')
        name, top, self.init, body, tail = m.group(1), int(m.group(2)), int(m.group(3)), m.group(4), m.group(5)
        if name in KEYWORDS or not IDENT.match(name):
            raise ValueError('module name')
        self.tr, self.lab = {}, {}
        for c in [x.strip() for x in body.split(';') if x.strip()]:
            m = re.fullmatch(r'\[(.*?)\] loc=(\d+) -> (.*)', c)
            if not m:
                raise ValueError('syntax error in ' + c)
            a, s = m.group(1), int(m.group(2))
            if not IDENT.match(a) or a in KEYWORDS:
                raise ValueError('action name ' + a)
            upd = []
            for u in m.group(3).split(' + '):
                k = re.fullmatch(r"\s*([0-9.eE+-]+) : \(loc'=(\d+)\)\s*", u)
                if not k or not 0 <= int(k.group(2)) <= top:
                    raise ValueError('syntax error in ' + u)
                upd.append((float(k.group(1)), int(k.group(2))))
            if abs(sum(p for p, _ in upd) - 1) > 1e-6 or any(p < 0 for p, _ in upd):
                raise ValueError('probabilities sum to %r in %s' % (sum(p for p, _ in upd), c))
            self.tr.setdefault(s, []).append(upd)
        for c in [x.strip() for x in tail.split(';') if x.strip()]:
            m = re.fullmatch(r'label "(\w+)" = (loc=\d+(?:\|loc=\d+)*)', c)
            if not m or m.group(1) in KEYWORDS or m.group(1) in self.lab:
                raise ValueError('label ' + c)
            self.lab[m.group(1)] = {int(x[4:]) for x in m.group(2).split('|')}

    def check(self, avoid, goal, steps):
        if goal not in self.lab or (avoid is not None and avoid not in self.lab):
            raise ValueError('Undeclared label')
        g, a = self.lab[goal], self.lab.get(avoid, set())
        locs = set(self.tr) | {t for l in self.tr.values() for u in l for _, t in u} | {self.init}
        v = {s: 1.0 if s in g else 0.0 for s in locs}
        for _ in range(steps):
            v = {s: 1.0 if s in g else 0.0 if s in a else
                 max([sum(p * v[t] for p, t in u) for u in self.tr.get(s, [])] or [0.0]) for s in locs}
        return v[self.init]


class World:
    """Scratch directory and external programs."""

    def __init__(self, sim):
        self.sim = sim
        self.plan = []               # faults of the next invocations
        self.calls = []              # per PRISM invocation: {index: value} as reported
        self.failed = []
        self.jar = None

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='dst-ext-')
        self.cwd = os.getcwd()
        self.saved = subprocess.Popen, aalpy.paths.path_to_prism
        os.chdir(self.dir)
        self.outer = os.path.join(self.dir, 'bin')
        os.mkdir(self.outer)
        aalpy.paths.path_to_prism = self.outer + '/prism.sh'
        subprocess.Popen = lambda *a, **k: Process(self, *a, **k)
        return self

    def __exit__(self, *a):
        subprocess.Popen, aalpy.paths.path_to_prism = self.saved
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)
        return False

    def prism(self, args):
        sim = self.sim
        fault = self.plan.pop(0) if self.plan else None
        if fault and fault[0] == 'missing':
            sim.fault('model checker cannot be started')
            raise NoTool(2, 'No such file or directory')
        out = ['PRISM', '=====', '', 'Version: 4.8', '', f'Parsing model file "{args[1]}"...']
        reported = {}
        self.calls.append(reported)
        self.unknown = []
        sim.tick(1.0)
        if fault and fault[0] == 'dies' and fault[1] == 0:
            sim.fault('model checker dies')
            return out
        try:
            module = Module(open(args[1]).read())
        except ValueError as e:
            raise Violation('model-rejected', f'the model checker cannot read the model: {e}')
        props = [l for l in open(args[2]).read().splitlines() if l.strip()]
        out += ['', f'{len(props)} properties:']
        for i, p in enumerate(props):
            m = PROP.fullmatch(p.strip())
            a, g, k = (None, m.group(5), int(m.group(4)) - 1) if m.group(5) else (m.group(1), m.group(3), int(m.group(2)))
            out += ['', '-' * 69, '', 'Model checking: ' + p.strip(), '', 'Building model...', 'Starting iterations...',
                    'Value in the initial state: 0.5']
            if fault and fault[0] == 'dies' and fault[1] == i + 1:
                sim.fault('model checker dies')
                return out
            if fault and fault[0] == 'error' and fault[1] == i:
                sim.fault('property fails in the model checker')
                out += ['', 'Error: Iterative method did not converge.']
                continue
            try:
                v = module.check(a, g, k)
            except ValueError as e:
                out += ['', f'Error: {e}.']
                self.unknown.append(i)
                sim.probe('unknown label')
                continue
            reported[i] = v
            out += ['', f'Result: {java(v)} (exact floating point)']
            if 0 < v < 1e-3:
                sim.probe('result in scientific notation')
        return out

    def java(self, args):
        o = dict(zip(args[4::2], args[5::2]))
        return self.jar(o)


class Process:
    def __init__(self, world, args, **kw):
        self.args = args
        self.pid = 4242
        self.returncode = None
        self.killed = False
        text = world.java(args) if args[0] == 'java' else world.prism(args)
        if args[0] == 'java':
            self.code, lines = text, []
        else:
            self.code, lines = 0, text
        self.stdout = io.BytesIO('\n'.join(lines + ['']).encode()) if kw.get('stdout') == subprocess.PIPE else None
        if self.stdout is not None and (kw.get('text') or kw.get('universal_newlines') or kw.get('encoding')):
            self.stdout = io.StringIO('\n'.join(lines + ['']))
        self.stderr = self.stdin = None

    def wait(self, timeout=None):
        self.returncode = self.code
        return self.code

    poll = wait

    def kill(self):
        self.killed = True

    terminate = kill

    def communicate(self, input=None, timeout=None):
        return (self.stdout.read() if self.stdout else None), None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()
        return False


def draw_fault(sim, k):
    f = sim.pick([None, None, 'missing', 'dies', 'error'])
    if f is None:
        return None
    return (f, sim.choose(k + 1) if f == 'dies' else sim.choose(k))


def leftovers(w, keep):
    left = set(os.listdir(w.dir)) - {'bin'} - set(keep)
    if left:
        raise Violation('files-left-behind', f'{sorted(left)!r} left in the working directory')


def checking(sim):
    """model checking of given models"""
    ref, outs = gen_system(sim)
    model = machine(sim, ref)
    k = sim.int(1, 4)
    props = [gen_property(sim, outs + (['never'] if sim.flip(0.2) else [])) for _ in range(k)]
    sim.log('system', ref.describe())
    sim.log('properties', *[p for _, p in props])
    sim.features.update(kind=ref.kind, what='checking', n=ref.n, properties=k)
    with World(sim) as w:
        with open('eval.props', 'w') as f:
            f.write('\n\n'.join(p for _, p in props) + '\n')
        true = [value(model, a, g, s) for (a, g, s), _ in props]
        correct = [t if sim.flip(0.7) else max(0.0, t - sim.pick([0.004, 0.02, 0.3])) for t in true]
        bound = sim.pick([0.01, 0.05, 0.0005])
        for _ in range(sim.int(1, 3)):
            fault = draw_fault(sim, k)
            w.plan = [fault]
            op = sim.choose(3)
            if ref.kind == 'smm' and op != 2:
                op = 2
            try:
                if op == 0:
                    r, diff = sim.sut(model_check_properties, model, 'eval.props'), None
                elif op == 1:
                    r, diff = sim.sut(model_check_experiment, 'eval.props', correct, model)
                else:
                    stop = sim.sut(stop_based_on_confidence, model, ('eval.props', correct, bound), sim.choose(3))
            except NoTool:
                if fault != ('missing', fault[1]):
                    raise
                leftovers(w, ['eval.props'])
                sim.log('not started')
                continue
            leftovers(w, ['eval.props'])
            rep = w.calls[-1]
            sim.log('op', op, fault, sorted(rep.items()))
            known = set().union(*[labels(s.output) for s in model.states]) if ref.kind == 'mdp' else set()
            for i in w.unknown:
                lost = [x for x in props[i][0][:2] if x in known]
                if len(lost) == len([x for x in props[i][0][:2] if x is not None]):
                    raise Violation('label-missing', f'property {props[i][1]}: the model handed to the checker does not know {lost!r}')
            for i, v in rep.items():
                if abs(v - true[i]) > 1e-6:
                    raise Violation('wrong-model-checked', f'property {props[i][1]}: {v} in the model given to the checker, {true[i]} in the model')
            if op == 2:
                errs = [abs(correct[i] - true[i]) for i in rep]
                want = len(rep) == k and all(e <= bound for e in errs)
                close = any(abs(e - bound) < 1e-4 for e in errs)
                if stop != want and not close:
                    raise Violation('wrong-stop-decision', f'errors {errs} of {len(rep)}/{k} checked properties, bound {bound}: stop={stop}')
                continue
            want = {f'prop{i + 1}': rep[i] for i in rep}
            if set(r) != set(want) or any(abs(r[x] - want[x]) > (1e-9 if op == 0 else 1e-4) for x in r):
                raise Violation('wrong-results', f'the model checker reported {want!r}, the result is {r!r}')
            if diff is not None:
                want = {f'prop{i + 1}': abs(correct[i] - rep[i]) for i in rep}
                if set(diff) != set(want) or any(abs(diff[x] - want[x]) > 1e-4 for x in diff):
                    raise Violation('wrong-results', f'errors of the reported properties are {want!r}, the result is {diff!r}')
    sim.meta['nontrivial'] = ref.n > 1


def learning(sim):
    """stochastic L* stops when the properties of the model are right"""
    ref, outs = gen_system(sim)
    skew = 0
    sysm = PSystem(sim, ref, skew)
    target = machine_of(ref)
    k = sim.int(1, 3)
    props = [gen_property(sim, outs) for _ in range(k)]
    min_r = sim.int(1, 3)
    max_r = min_r + sim.int(0, 5)
    bound = sim.pick([0.02, 0.1, 0.3])
    correct = [value(target, a, g, s) for (a, g, s), _ in props]
    sim.log('system', ref.describe())
    sim.log('properties', *[p for _, p in props])
    sim.features.update(kind=ref.kind, what='learning', n=ref.n, properties=k)
    with World(sim) as w:
        with open('eval.props', 'w') as f:
            f.write('\n\n'.join(p for _, p in props) + '\n')
        w.plan = [draw_fault(sim, k) if sim.flip(0.3) else None for _ in range(12)]
        oracle = PTeacher(ref, sysm)
        orig, eqs = oracle.find_cex, []

        def find_cex(hyp):
            cex = orig(hyp)
            eqs.append((hyp, cex, len(w.calls)))
            sim.log('EQ', cex, [sorted(c.items()) for c in w.calls])
            return cex
        oracle.find_cex = find_cex
        plan = list(w.plan)
        try:
            model, info = sim.sut(run_stochastic_Lstar, list(ref.alphabet), sysm, oracle, min_rounds=min_r, max_rounds=max_r,
                                  automaton_type=ref.kind, strategy=sim.pick(['normal', 'chi2', 'classic']), custom_oracle=True, return_data=True,
                                  n_c=sim.int(2, 8), n_resample=sim.int(5, 40), print_level=0,
                                  property_based_stopping=('eval.props', correct, bound))
        except NoTool:
            leftovers(w, ['eval.props'])
            return
        leftovers(w, ['eval.props'])
        rounds = info['learning_rounds']
        if rounds > max_r:
            raise Violation('too-many-rounds', f'{rounds} rounds, max_rounds={max_r}')

        def ok(c, slack):
            return len(c) == k and all(abs(correct[i] - c[i]) <= bound + slack for i in c)
        for c in w.calls[:-1]:
            if ok(c, -1e-4):
                raise Violation('learning-continued', f'all properties were within {bound}: {c!r}, but learning continued')
        if len(w.calls) > max(0, rounds - min_r + 1):
            raise Violation('checked-too-early', f'{len(w.calls)} model checks in {rounds} rounds, min_rounds={min_r}')
        if rounds < max_r:
            if not (w.calls and ok(w.calls[-1], 1e-4)):
                if not eqs or eqs[-1][0] is not model or eqs[-1][1] is not None:
                    raise Violation('stopped-without-reason', f'learning stopped after {rounds} of {max_r} rounds, errors '
                                    f'{[(i, abs(correct[i] - v)) for i, v in (w.calls[-1] if w.calls else {}).items()]} of {k} properties, bound {bound}')
            else:
                sim.probe('stopped by properties')
        if w.calls and rounds >= min_r:
            for i, v in w.calls[-1].items():
                t = value(model, *props[i][0])
                if abs(v - t) > 1e-6:
                    raise Violation('wrong-model-checked', f'property {props[i][1]}: {v} in the model given to the checker, {t} in the model')
    sim.model, sim.info = model, info
    sim.meta['nontrivial'] = rounds > 1


def machine_of(ref):
    if ref.kind == 'mdp':
        st = [MdpState(f'q{i}', o) for i, o in enumerate(ref.lab)]
    else:
        st = [StochasticMealyState(f'q{i}') for i in range(ref.n)]
    for s, row in zip(st, ref.trans):
        for a, l in row.items():
            w = sum(x[1] for x in l)
            s.transitions[a] = [(st[t], k / w) if ref.kind == 'mdp' else (st[t], o, k / w) for o, k, t in l]
    return (Mdp if ref.kind == 'mdp' else StochasticMealyMachine)(st[0], st)


def jalergia(sim):
    kind = sim.pick(['mdp', 'smm', 'mc'])
    sim.features.update(kind=kind, what='JAlergia')
    with World(sim) as w:
        open('bin/alergia.jar', 'w').close()
        for _ in range(sim.int(1, 3)):
            fault = sim.pick([None, None, 'missing', 'fails', 'truncated'])
            m = build(sim, kind)
            data = [[f'{"io"[(j + 1) % 2]}{sim.choose(4)}' for j in range(sim.int(1, 7))] for _ in range(sim.int(1, 5))]
            eps = sim.pick([0.05, 0.5])
            given = [list(x) for x in data] if not sim.flip(0.3) else [tuple(x) for x in data]
            file = sim.flip(0.3)
            if file:
                with open('data.txt', 'w') as f:
                    f.write('\n'.join(','.join(x) for x in data) + '\n')
            if sim.flip(0.2):
                save_automaton_to_file(build(sim, kind), 'jAlergiaModel')
                sim.probe('stale result present')

            def jar(o):
                sim.tick(1.0)
                if fault == 'missing':
                    sim.fault('java cannot be started')
                    raise NoTool(2, 'No such file or directory')
                got = [l.split(',') for l in open(o['-input']).read().splitlines()]
                if got != data:
                    raise Violation('wrong-data-passed', f'{data!r} was passed on as {got!r}')
                if o['-type'] != kind or float(o['-eps']) != eps:
                    raise Violation('wrong-options-passed', repr(o))
                if fault == 'fails':
                    sim.fault('JAlergia fails')
                    return 1
                save_automaton_to_file(m, 'jAlergiaModel')
                if fault == 'truncated':
                    sim.fault('JAlergia dies while writing')
                    t = open('jAlergiaModel.dot').read()
                    with open('jAlergiaModel.dot', 'w') as f:
                        f.write(t[:sim.choose(len(t))])
                return 0
            w.jar = jar
            want = view(m, kind)
            r = err = None
            try:
                r = sim.sut(run_JAlergia, 'data.txt' if file else given, kind, 'bin/alergia.jar', eps=eps)
            except NoTool:
                err = 'missing'
            except SutError as e:
                if fault != 'truncated':
                    raise
                err = str(e)
            sim.log('JAlergia', kind, fault, len(data), r is not None, err)
            left = set(os.listdir(w.dir)) - {'bin', 'data.txt'}
            if fault != 'truncated':
                if left:
                    raise Violation('files-left-behind', f'{sorted(left)!r} left in the working directory')
            elif left - {'jAlergiaModel.dot'}:
                raise Violation('files-left-behind', f'{sorted(left)!r} left in the working directory')
            if file and open('data.txt').read().split() != [','.join(x) for x in data]:
                raise Violation('log-modified', 'the file given by the user was changed')
            if r is not None and fault in ('missing', 'fails'):
                raise Violation('failure-taken-for-result', f'JAlergia ({fault}) produced no model, but one was returned')
            if r is None and fault is None:
                raise Violation('result-lost', 'JAlergia wrote a model, but none was returned')
            if r is not None and view(r, kind) != want:
                raise Violation('wrong-model', f'JAlergia wrote {want!r}, returned was {view(r, kind)!r}')
    sim.meta['nontrivial'] = True


def scenario(sim):
    return [checking, checking, learning, jalergia][sim.choose(4)](sim)


RUNS = {'quick': 6_000, 'thorough': 200_000}
