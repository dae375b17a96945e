"""C28: abstracted non-deterministic L*: states are classes of abstracted observations, transitions are concrete observations."""
import contextlib
import io
import re

from aalpy.automata import Onfsm
from aalpy.learning_algs import run_abstracted_ONFSM_Lstar
from aalpy.oracles import RandomWordEqOracle, RandomWalkEqOracle

from ..core import Discard, Violation
from . import c09


def sampled(hyp, ref, system):
    """everything possible was observed for the states, their successors, and the characterization set"""
    tree = Tree(system.traces)
    todo = []
    for s in hyp.states:
        p = tuple(zip(*s.prefix)) if s.prefix[0] else ()
        q = 0
        for a, o in p:
            q = dict(ref.trans[q][a])[o]
        todo += [(p, q)] + [(p + ((a, o),), t) for a in ref.alphabet for o, t in ref.trans[q][a]]
    for p, q in todo:
        d = tree.at(p)
        for e in hyp.characterization_set:
            level = [((), q)]
            for a in e:
                level = [(w + (o,), t) for w, x in level for o, t in ref.trans[x][a]]
            if d is None or tree.tails(d, e) != {w for w, _ in level}:
                return False
    return True


class ATeacher(c09.NTeacher):
    """shows a behaviour of the system for which the hypothesis offers no output at its last step"""

    same, last = 0, None

    def find_cex(self, hyp):
        self.rounds += 1
        num = {id(s): i for i, s in enumerate(hyp.states)}
        shape = ([[(a, [(o, num.get(id(t))) for o, t in s.transitions.get(a, [])]) for a in self.ref.alphabet] for s in hyp.states],
                 list(hyp.characterization_set))
        self.same = self.same + 1 if shape == self.last else 0
        self.last = shape
        if self.same == 25:
            if not sampled(hyp, self.ref, self.system):
                raise Discard('no progress, but not everything that is possible was observed (all-weather assumption)')
            raise Violation('no-progress', f'the same refuted hypothesis was given to the oracle {self.same + 1} times in a row')
        if self.rounds > 400:
            raise Discard('more than 400 rounds')
        tr = c09.missing_trace(self.ref, hyp, self.wander, self.sim)
        self.sim.log('EQ', len(hyp.states), tr)
        if tr is None:
            return None
        self.reset_hyp_and_sul(hyp)
        self.system.forced = [o for _, o in tr]
        for a, o in tr:
            got = self.sul.step(a)
            self.num_steps += 1
            if got != o:
                raise Violation('wrapper-changed-output', f'step {a!r} answered {got!r}, the system produced {o!r}')
        self.system.forced = None
        self.sul.post()
        return [a for a, _ in tr], [o for _, o in tr]


class System(c09.NSystem):
    """rare traces can take long to sample: such runs say nothing"""

    def step(self, a):
        if self.steps > self.max_steps:
            raise Discard('sampling takes too long')
        if self.steps > 3000:
            self.sim.features['big system'] = True      # long counterexamples: huge tables are legitimate work
        return super().step(a)


class Tree:
    """everything observed so far"""

    def __init__(self, traces):
        self.root = {}
        self.size = 0
        for t in traces:
            d = self.root
            for a, o in t:
                row = d.setdefault(a, {})
                if o not in row:
                    row[o] = [0, {}]
                    self.size += 1
                row[o][0] += 1
                d = row[o][1]

    def at(self, tr):
        d = self.root
        for a, o in tr:
            if o not in d.get(a, {}):
                return None
            d = d[a][o][1]
        return d

    @staticmethod
    def outputs(d, a):
        return d.get(a, {}).keys()

    @staticmethod
    def tails(d, e):
        """output words observed for the input word e after the node"""
        level = [((), d)]
        for a in e:
            level = [(w + (o,), x[1]) for w, n in level for o, x in n.get(a, {}).items()]
        return {w for w, _ in level}

    def nodes(self):
        q = [((), self.root)]
        for tr, d in q:
            yield tr, d
            for a, row in d.items():
                for o, x in row.items():
                    q.append((tr + ((a, o),), x[1]))


def examine(sim, hyp, ref, tree, mapping, n_sampling, what, deep):
    ids = {id(s) for s in hyp.states}
    if id(hyp.initial_state) not in ids:
        raise Violation('malformed-model', f'{what}: the initial state is not among the states')
    E = [tuple(e) for e in hyp.characterization_set]
    if not all(a in ref.alphabet for e in E for a in e):
        raise Violation('malformed-model', f'{what}: characterization set {E!r}')
    low = lambda words: frozenset(tuple(mapping.get(o, o) for o in w) for w in words)
    row = lambda d: tuple(low(tree.tails(d, e)) for e in E)
    known, trace = {}, {}
    for s in hyp.states:
        p = tuple(zip(*s.prefix)) if s.prefix[0] else ()
        trace[id(s)] = p
        d = tree.at(p)
        if d is None:
            raise Violation('made-up-trace', f'{what}: the access trace {p!r} of {s.state_id} was never observed')
        r = row(d)
        if r in known:
            raise Violation('split-equal', f'{what}: the abstracted observations after {p!r} and {known[r]!r} are the same for all of {E!r}, '
                                           f'but they are two states')
        known[r] = p
        for a in ref.alphabet:
            n = sum(x[0] for x in d.get(a, {}).values())
            if n < n_sampling:
                raise Violation('undersampled', f'{what}: {a!r} was executed only {n} times after {p!r}, n_sampling is {n_sampling}')
            ts = s.transitions.get(a, [])
            if any(id(t) not in ids for _, t in ts):
                raise Violation('malformed-model', f'{what}: {s.state_id} --{a!r}--> leaves the model')
            if len({(repr(o), id(t)) for o, t in ts}) != len(ts):
                raise Violation('malformed-model', f'{what}: {s.state_id} has the same transition for {a!r} twice: {[o for o, _ in ts]!r}')
            for o in tree.outputs(d, a):
                if o not in [x for x, _ in ts]:
                    raise Violation('observed-output-missing', f'{what}: {o!r} was observed for {a!r} after {p!r}, but is no output of the state')
    if trace[id(hyp.initial_state)] != ():
        raise Violation('malformed-model', f'{what}: the access trace of the initial state is {trace[id(hyp.initial_state)]!r}')
    if not deep:
        return
    # what was observed after the extensions of the states counts for the states they are merged with
    by_row = {r: s for s in hyp.states for r in [row(tree.at(trace[id(s)]))]}
    for s in hyp.states:
        p = trace[id(s)]
        d = tree.at(p)
        for a in ref.alphabet:
            for o in tree.outputs(d, a):
                x = d[a][o][1]
                t = by_row.get(row(x))
                if t is None:
                    raise Violation('not-closed', f'{what}: no state has the abstracted observations of {p + ((a, o),)!r}')
                targets = [y for z, y in s.transitions[a] if z == o]
                if t not in targets:
                    raise Violation('wrong-successor', f'{what}: {p!r} --{a!r}/{o!r}--> state of {[trace[id(y)] for y in targets]!r}, but the '
                                                       f'observations afterwards are those of {trace[id(t)]!r}')
                sim.probe('ambiguous successor', len(targets) - 1)
                for b in ref.alphabet:
                    for q in tree.outputs(x, b):
                        if q not in [z for z, _ in t.transitions[b]]:
                            raise Violation('not-complete', f'{what}: {q!r} was observed for {b!r} after {p + ((a, o),)!r}, but the state of '
                                                            f'{trace[id(t)]!r}, which it is merged with, does not offer it')
    # every transition is an observation in a row of the same class, and leads to the class of what follows
    real = {}
    for tr, d in tree.nodes():
        r = row(d)
        if r in known:
            p = known[r]
            for a, outs in d.items():
                for o, x in outs.items():
                    real.setdefault((p, a, o), set()).add(known.get(row(x[1])))
    merged = 0
    for s in hyp.states:
        p = trace[id(s)]
        for a in ref.alphabet:
            for o, t in s.transitions[a]:
                if trace[id(t)] not in real.get((p, a, o), ()):
                    raise Violation('made-up-transition', f'{what}: {p!r} --{a!r}/{o!r}--> state of {trace[id(t)]!r}, but in no trace with the '
                                                          f'abstracted observations of {p!r} this was observed')
                merged += o not in tree.outputs(tree.at(p), a)
    sim.probe('output taken from an equivalent trace', merged)
    sim.probe('transitions justified')


def scenario(sim):
    ref = c09.gen_nref(sim)
    try:
        sorted(ref.alphabet), sorted({o for r in ref.trans for a in ref.alphabet for o, _ in r[a]})
    except TypeError:
        raise Discard('symbols of different types: the table sorts its rows')
    late = sim.int(1, 8) if sim.flip(0.3) else None
    if late:
        sim.fault('outputs appear late')
    system = System(sim, ref, late, max_steps=8_000)
    outs = sorted({o for r in ref.trans for a in ref.alphabet for o, _ in r[a]}, key=repr)
    mode = sim.choose(4)
    if mode == 0:
        mapping = {}
    elif mode == 1:
        mapping = {o: outs[0] if sim.flip(0.5) else o for o in outs}
    elif mode == 2:
        mapping = {o: 'abs' + str(sim.choose(2)) for o in outs if sim.flip(0.6)}
    else:
        mapping = {o: 0 for o in outs}
    n_sampling = sim.int(1, 6)
    name = sim.pick(['teacher', 'RandomWord', 'RandomWalk'])
    limit = sim.int(1, 4) if sim.flip(0.2) else None if name == 'teacher' else 12
    sim.log('system', ref.describe())
    sim.log('config', name, late, n_sampling, mapping, limit)
    sim.features.update(oracle=name, late=bool(late), n=ref.n, mapping=mode, n_sampling=n_sampling, limit=bool(limit and limit < 12))
    if name == 'teacher':
        wander = 4 if sim.flip(0.5) else 0
        oracle = ATeacher(sim, ref, system, wander)
    elif name == 'RandomWord':
        lo = sim.int(1, 4)
        oracle = RandomWordEqOracle(list(ref.alphabet), system, num_walks=sim.int(1, 30), min_walk_len=lo, max_walk_len=lo + sim.int(0, 4),
                                    reset_after_cex=not sim.flip(0.3))
    else:
        oracle = RandomWalkEqOracle(list(ref.alphabet), system, num_steps=sim.int(1, 120), reset_after_cex=not sim.flip(0.3),
                                    reset_prob=[0.09, 0.5][sim.choose(2)])
    orig, eqs, own = oracle.find_cex, [], [0, 0]

    def find_cex(hyp):
        tree = Tree(system.traces)
        examine(sim, hyp, ref, tree, mapping, n_sampling, f'hypothesis of round {len(eqs) + 1}', len(eqs) < 5 and tree.size < 3000)
        mark, steps = len(system.traces), system.steps
        cex = orig(hyp)
        own[0] += len(system.traces) - mark
        own[1] += system.steps - steps
        eqs.append((hyp, cex))
        if cex is not None:
            ins, os = cex
            tr = list(zip(ins, os))
            if len(ins) != len(os) or not ref.accepts(ins, os) or not any(t[:len(tr)] == tr for t in system.traces[mark:]):
                raise Violation('false-counterexample', f'{cex!r} was not observed')
            hyp.reset_to_initial()
            got = [hyp.step_to(a, o) for a, o in tr]
            if got[-1] is not None or None in got[:-1]:
                raise Violation('false-counterexample', f'{cex!r} does not end at the first step the hypothesis cannot follow')
            sim.probe('counterexample')
        return cex

    oracle.find_cex = find_cex
    level = sim.choose(4, p0=0.7)
    buf, given, alphabet = io.StringIO(), dict(mapping), list(ref.alphabet)
    with contextlib.nullcontext() if sim.shared else contextlib.redirect_stdout(buf):
        model, info = sim.sut(run_abstracted_ONFSM_Lstar, alphabet, system, oracle, given, n_sampling=n_sampling,
                              max_learning_rounds=limit, return_data=True, print_level=level)
    if buf.getvalue() and not level:
        raise Violation('output-not-asked-for', f'print_level=0 prints {buf.getvalue()[:300]!r}')
    if given != mapping or alphabet != list(ref.alphabet):
        raise Violation('changed-argument', f'{mapping!r} became {given!r}, {ref.alphabet!r} became {alphabet!r}')
    if level > 1 and not sim.shared:
        shown = [int(x) for x in re.findall(r'Hypothesis \d+ has (\d+) states', buf.getvalue())]
        if shown != [len(h.states) for h, _ in eqs]:
            raise Violation('wrong-report', f'hypotheses of {shown!r} states were reported, the oracle was given '
                                            f'{[len(h.states) for h, _ in eqs]!r}')
    sim.model, sim.info = model, info
    if type(model) is not Onfsm:
        raise Violation('wrong-model-type', type(model).__name__)
    if not eqs or model is not eqs[-1][0]:
        raise Violation('wrong-model', 'the returned model is not the last hypothesis')
    done = eqs[-1][1] is None
    if not done and (limit is None or len(eqs) < limit):
        raise Violation('stopped-too-early', f'a counterexample was found in round {len(eqs)}, max_learning_rounds is {limit}')
    if limit and len(eqs) > limit:
        raise Violation('round-limit-exceeded', f'{len(eqs)} equivalence queries, max_learning_rounds is {limit}')
    if done:
        last = c09.missing_trace(ref, model, 0, sim) if name == 'teacher' else None
        if last is not None:
            raise Violation('behaviour-missing', f'the model has no run for {last!r}')
    want = dict(automaton_size=len(model.states), queries_learning=len(system.traces) - own[0], steps_learning=system.steps - own[1],
                queries_eq_oracle=own[0], steps_eq_oracle=own[1])
    for k, v in want.items():
        if info[k] != v:
            raise Violation('wrong-statistics', f'{k} is reported as {info[k]}, it is {v}')
    if info['learning_rounds'] not in (len(eqs), len(eqs) + (not done)):
        raise Violation('wrong-statistics', f"learning_rounds is reported as {info['learning_rounds']}, {len(eqs)} queries were asked")
    sim.meta['nontrivial'] = len(eqs) > 1 or c09.nondeterministic(ref)
    sim.feature('states', len(model.states))


RUNS = {'quick': 15_000, 'thorough': 200_000}
