"""C18: passively learned deterministic models conform to everything in the log, however it was collected."""
import contextlib
import io
import itertools

from aalpy.automata import Dfa, MealyMachine, MooreMachine, VpaAlphabet
from aalpy.learning_algs import run_RPNI, run_EDSM, run_GSM, run_PAPNI, run_k_tails
from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation

from ..core import Violation, Discard
from ..logs import collect, deliver
from ..models import gen_ref, model_view, difference, shape
from ..vpa import gen_vref

CLASS = {'dfa': Dfa, 'mealy': MealyMachine, 'moore': MooreMachine}


def out_of(ref, word):
    """output after the word; for dfa/moore defined for the empty word too"""
    if ref.kind == 'mealy':
        return ref.run(word)[-1]
    s = 0
    for a in word:
        s = ref.delta[s][a]
    return ref.lab[s]


def records(sim, ref, logs):
    """Labelled sequences of recorded sessions: all prefixes, or (dfa/moore) only the last verdict of a session."""
    every = ref.kind == 'mealy' or sim.flip(0.6)
    out = []
    for tr in logs:
        w = tuple(a for a, _ in tr)
        if ref.kind == 'mealy':
            out += [(w[:i + 1], tr[i][1]) for i in range(len(w))]
        elif every:
            out += [(w[:i], out_of(ref, w[:i])) for i in range(len(w) + 1)]
        else:
            out.append((w, out_of(ref, w)))
    return out


def answer(model, word, kind):
    """Output of the model after the word; KeyError -> undefined"""
    s = model.initial_state
    o = None
    for a in word:
        if a not in s.transitions:
            return ('undefined',)
        if kind == 'mealy':
            o = s.output_fun[a]
        s = s.transitions[a]
    if kind == 'mealy':
        return ('out', o)
    return ('out', s.is_accepting if kind == 'dfa' else s.output)


def same(a, b):
    return a == b and type(a) is type(b)


def characteristic(sim, ref):
    """The least log from which RPNI has to identify the system: every transition of every shortest access word, and for every access
    word and every such continuation that ends in another state one common suffix with different verdicts. Nothing is recorded
    about the prefixes in between."""
    access, level = {0: [()]}, [((), 0)]
    while level:
        found = {}
        for w, s in level:
            for a in ref.alphabet:
                t = ref.delta[s][a]
                if t not in access:
                    found.setdefault(t, []).append(w + (a,))
        access.update(found)
        level = [(w, t) for t, ws in found.items() for w in ws]
    state = {w: s for s, ws in access.items() for w in ws}
    kernel = dict(state)
    kernel.update({w + (a,): ref.delta[s][a] for w, s in state.items() for a in ref.alphabet})

    def apart(s, t):
        todo, seen = [((), s, t)], {(s, t)}
        for w, x, y in todo:
            if ref.kind != 'mealy' and ref.lab[x] != ref.lab[y]:
                return w
            for a in ref.alphabet:
                if ref.kind == 'mealy' and ref.out[x][a] != ref.out[y][a]:
                    return w + (a,)
                z = ref.delta[x][a], ref.delta[y][a]
                if z not in seen:
                    seen.add(z)
                    todo.append((w + (a,), *z))
        raise Discard('not minimal')

    words = list(kernel)
    suffix = {}
    for x, s in state.items():
        for y, t in kernel.items():
            if s != t:
                if (s, t) not in suffix:
                    suffix[s, t] = suffix[t, s] = apart(s, t)
                words += [x + suffix[s, t], y + suffix[s, t]]
    for _ in range(sim.geo(10, 0.5)):
        words.append(tuple(sim.pick(ref.alphabet) for _ in range(sim.int(1, 10))))
    return list(dict.fromkeys(words))


def deterministic(sim):
    ref = gen_ref(sim, max_states=7, max_alpha=3)
    kind = ref.kind
    learner = sim.pick(['gsm', 'classic', 'edsm'])
    complete = sim.pick([None, None, 'self_loop', 'sink_state'])
    exact = ref.n <= 4 and sim.flip(0.3)
    if not exact and learner != 'edsm' and sim.flip(0.2):
        exact = 'characteristic'
        words = characteristic(sim, ref)
    elif exact:
        # every word up to the length that identifies the system
        depth = 2 * ref.n
        words = [w for n in range(depth + 1) for w in itertools.product(ref.alphabet, repeat=n)]
        if len(words) > 1500:
            exact = False
    if exact:
        data = [(w, out_of(ref, w)) for w in words if w or kind != 'mealy']
        data = deliver(sim, data, lossy=False)
    else:
        logs = collect(sim, ref.alphabet, ref.run, sim.int(1, 60), sim.int(1, 12))
        data = deliver(sim, records(sim, ref, logs), lossy=kind != 'mealy')
    contradiction = None
    if not exact and data and sim.flip(0.12):
        k = sim.choose(len(data))
        w, o = data[k]
        others = [x for x in {repr(y): y for y in (ref.lab or [v for r in ref.out for v in r.values()])}.values() if x != o]
        if others:
            contradiction = w
            data.insert(sim.choose(len(data) + 1), (w, others[sim.choose(len(others))]))
            sim.fault('contradicting record')
    if not data:
        data = [((), out_of(ref, ()))] if kind != 'mealy' else [((ref.alphabet[0],), out_of(ref, (ref.alphabet[0],)))]
    listed = sim.flip(0.3)
    given = [([*w], o) if listed else (w, o) for w, o in data] if not sim.flip(0.3) else [[w, o] for w, o in data]
    sim.log('system', ref.describe())
    sim.log('learner', learner, complete, exact or '', len(data))
    sim.features['big system'] = learner == 'classic'      # copies and replays the tree for every merge
    sim.features.update(kind=kind, learner=learner, complete=str(complete), exact=str(exact), contradiction=contradiction is not None, n=ref.n)
    for d in data[:60]:
        sim.log('record', *d)

    def call():
        with contextlib.redirect_stdout(io.StringIO()):
            if learner == 'edsm':
                return run_EDSM(given, kind, input_completeness=complete, print_info=sim.flip(0.2))
            return run_RPNI(given, kind, algorithm=learner, input_completeness=complete, print_info=sim.flip(0.2))

    model = sim.sut(call)
    if contradiction is not None:
        if model is not None:
            raise Violation('contradiction-accepted', f'the log contains two verdicts for {contradiction!r}, but {learner} returned a model')
        sim.probe('contradiction reported')
        sim.meta['records'] = len(data)
        sim.meta['nontrivial'] = True
        return
    if model is None:
        raise Violation('consistent-log-rejected', f'{learner}: no model for a log without contradictions')
    if not isinstance(model, CLASS[kind]):
        raise Violation('wrong-model-type', f'{type(model).__name__} for {kind}')
    ids = {id(s) for s in model.states}
    if id(model.initial_state) not in ids or any(id(t) not in ids for s in model.states for t in s.transitions.values()):
        raise Violation('malformed-model', 'a transition leads to a state that is not part of the model')
    for w, o in data:
        got = answer(model, w, kind)
        if got[0] != 'out' or not same(got[1], o):
            raise Violation('log-contradicted', f'{learner} ({kind}): the log says {o!r} for {w!r}, the model {got!r}')
    if complete:
        alpha = {a for w, _ in data for a in w}
        for s in model.states:
            miss = alpha - set(s.transitions)
            if miss:
                raise Violation('not-input-complete', f'input_completeness={complete}, but state {s.state_id} has no transition for {miss!r}')
    nodes = {w[:i] for w, _ in data for i in range(len(w) + 1)}
    if len(model.states) > len(nodes) + 1:
        raise Violation('made-up-states', f'{len(model.states)} states for {len(nodes)} logged prefixes')
    if learner == 'edsm' and kind != 'dfa' and not complete and sim.flip(0.5):
        def stated():
            with contextlib.redirect_stdout(io.StringIO()):
                return run_GSM([(tuple(w), o) for w, o in data], output_behavior=kind, transition_behavior='deterministic',
                               score_calc=ScoreCalculation(score_function=evidence), data_format='labeled_sequences')
        other = sim.sut(stated)
        if shape(other) != shape(model):
            raise Violation('not-edsm', f'{len(model.states)} states, merging by the number of merged nodes gives {len(other.states)}')
        sim.probe('compared with the criterion')
    if exact:
        if len(model.states) != ref.n:
            raise Violation('not-identified', f'{learner}: {len(model.states)} states from a complete log of a {ref.n}-state system')
        d = difference(ref, model_view(model, kind, ref.alphabet))
        if d is not None:
            raise Violation('not-identified', f'{learner}: the model learned from a complete log differs on {d!r}')
        sim.probe('identified from a complete log')
    sim.model = model
    sim.meta['records'] = len(data)
    sim.meta['nontrivial'] = len(model.states) > 1


def walk_word(sim, ref, max_len):
    """Words that are mostly balanced."""
    w, depth = [], []
    for _ in range(sim.int(0, max_len)):
        k = sim.choose(3)
        if k == 0 and ref.internal:
            w.append(ref.internal[sim.choose(len(ref.internal))])
        elif not ref.calls:
            continue
        elif k == 1 or not depth:
            c = ref.calls[sim.choose(len(ref.calls))]
            w.append(c)
            depth.append(c)
        else:
            c = depth.pop()
            w.append(ref.exclusive[c] if ref.exclusive and not sim.flip(0.1) else ref.returns[sim.choose(len(ref.returns))])
    if not sim.flip(0.15):
        while depth:
            c = depth.pop()
            w.append(ref.exclusive[c] if ref.exclusive else ref.returns[sim.choose(len(ref.returns))])
    return tuple(w)


def pushdown(sim):
    ref = gen_vref(sim, style=0)          # PAPNI uses tuples for its own purpose
    logs = []
    for _ in range(sim.int(1, 60)):
        w = walk_word(sim, ref, 12)
        logs.append((w, ref.run(w)[-1] if w else ref.accepting(0)))
    data = deliver(sim, logs)
    contradiction = None
    learner = sim.pick(['gsm', 'classic', 'edsm'])
    alpha = VpaAlphabet(ref.internal, ref.calls, ref.returns, ref.exclusive)
    good = [(w, o) for w, o in data if balanced(ref, w)]
    if good and sim.flip(0.1):
        contradiction, o = good[sim.choose(len(good))]
        data.insert(sim.choose(len(data) + 1), (contradiction, not o))
        sim.fault('contradicting record')
    if not good:
        raise Discard('no usable record')
    sim.log('system', ref.describe())
    sim.log('learner', learner, len(data))
    sim.features.update(kind='vpa', learner=learner, contradiction=contradiction is not None, n=ref.n)
    given = [(list(w) if sim.flip(0.3) else w, o) for w, o in data]

    def call():
        with contextlib.redirect_stdout(io.StringIO()):
            return run_PAPNI(given, alpha, algorithm=learner, print_info=sim.flip(0.2))

    model = sim.sut(call)
    if contradiction is not None:
        if model is not None:
            raise Violation('contradiction-accepted', f'the log contains two verdicts for {contradiction!r}, but {learner} returned a model')
        return
    if model is None:
        raise Violation('consistent-log-rejected', f'PAPNI {learner}: no model for a log without contradictions')
    for w, o in good:
        model.reset_to_initial()
        got = model.step(None) if not w else [model.step(a) for a in w][-1]
        if bool(got) is not o:
            raise Violation('log-contradicted', f'PAPNI {learner}: the log says {o!r} for {w!r}, the model {got!r}')
    sim.model = model
    sim.meta['records'] = len(data)
    sim.meta['nontrivial'] = len(model.states) > 1


def balanced(ref, w):
    d = 0
    for a in w:
        d += (a in ref.calls) - (a in ref.returns)
        if d < 0:
            return False
    return d == 0


class Tail(ScoreCalculation):
    """k-tails as described: the outputs of two nodes have to agree up to depth k"""

    def __init__(self, k):
        super().__init__()
        self.k, self.first = k, None

    def reset(self):
        self.first = None

    def local_compatibility(self, a, b):
        depth, x = 0, b
        while x.predecessor is not None:
            depth, x = depth + 1, x.predecessor
        if self.first is None:
            self.first = depth
        return depth - self.first >= self.k or all(set(a.transitions[i]) == set(b.transitions[i]) for i in b.transitions if i in a.transitions)


def evidence(part):
    return len(part) - len({id(x) for x in part.values()})


def completed(model, base, alphabet, how, kind):
    """Only undefined inputs were added, and they go where they have to go."""
    if {s.state_id for s in base.states} - {s.state_id for s in model.states}:
        raise Violation('wrong-completion', f'{how}: states of the learned model are missing')
    by, sinks = {s.state_id: s for s in base.states}, [s for s in model.states if s.state_id not in {x.state_id for x in base.states}]
    if len(sinks) > (how == 'sink_state'):
        raise Violation('wrong-completion', f'{how}: {len(sinks)} new states')
    for s in model.states:
        for a in alphabet:
            l = s.transitions.get(a)
            if not l:
                raise Violation('not-input-complete', f'input_completeness={how}, but state {s.state_id} has no transition for {a!r}')
            b = by[s.state_id].transitions.get(a) if s.state_id in by else None
            ends = [(e[0], e[1].state_id) if kind == 'mealy' else e.state_id for e in l]
            if b:
                if ends != [(e[0], e[1].state_id) if kind == 'mealy' else e.state_id for e in b]:
                    raise Violation('wrong-completion', f'{how}: the transitions of {s.state_id} for {a!r} changed')
            else:
                target = s if how == 'self_loop' or not sinks else sinks[0]
                if ends != [('epsilon', target.state_id) if kind == 'mealy' else target.state_id]:
                    raise Violation('wrong-completion', f'{how}: {s.state_id} goes to {ends!r} on the undefined input {a!r}')


def tails(sim):
    """k-tails: the (possibly non-deterministic) model explains every trace and invents no output."""
    kind = sim.pick(['mealy', 'moore'])
    ref = gen_ref(sim, kind=kind, max_states=7, max_alpha=3)
    noise = sim.flip(0.3)
    logs = []
    for tr in collect(sim, ref.alphabet, ref.run, sim.int(1, 40), sim.int(1, 10)):
        if noise and tr and sim.flip(0.2):
            k = sim.choose(len(tr))
            tr = tr[:k] + [(tr[k][0], ['noise', 0][sim.choose(2)])] + tr[k + 1:]
            sim.fault('noisy output')
        logs.append(tr if kind == 'mealy' else [ref.lab[0]] + tr)
    data = deliver(sim, logs) or [logs[0]]
    k = sim.int(0, 4)
    sim.log('system', ref.describe())
    sim.log('k-tails', k, len(data))
    sim.features.update(kind=kind, learner='k-tails', noise=noise, n=ref.n)
    given = [list(t) for t in data]

    def call():
        with contextlib.redirect_stdout(io.StringIO()):
            return run_k_tails(given, kind, k, print_info=sim.flip(0.2))

    def stated():
        with contextlib.redirect_stdout(io.StringIO()):
            return run_GSM([list(t) for t in data], output_behavior=kind, transition_behavior='nondeterministic', score_calc=Tail(k),
                           data_format='io_traces')

    def whole(how):
        with contextlib.redirect_stdout(io.StringIO()):
            return run_k_tails([list(t) for t in data], kind, k, input_completeness=how, print_info=sim.flip(0.2))

    model = sim.sut(call)
    if sim.flip(0.5):
        other = sim.sut(stated)
        if shape(other) != shape(model):
            raise Violation('not-k-tails', f'k={k}: {len(model.states)} states, merging nodes whose outputs agree up to depth k gives {len(other.states)}')
        sim.probe('compared with the criterion')
    if sim.flip(0.4):
        how = sim.pick(['self_loop', 'sink_state'])
        alphabet = [a for s in model.states for a in s.transitions]
        completed(sim.sut(whole, how), model, alphabet, how, kind)
        sim.probe('completed')
    seen = {(a, o) for t in data for a, o in (t if kind == 'mealy' else t[1:])}
    for t in data:
        cur = [model.initial_state]
        if kind == 'moore':
            if model.initial_state.output != t[0]:
                raise Violation('log-contradicted', f'k-tails: initial output {model.initial_state.output!r}, logged {t[0]!r}')
            t = t[1:]
        for a, o in t:
            nxt = []
            for s in cur:
                for e in s.transitions.get(a, []):
                    if kind == 'mealy':
                        if e[0] == o:
                            nxt.append(e[1])
                    elif e.output == o:
                        nxt.append(e)
            cur = nxt
        if not cur:
            raise Violation('log-contradicted', f'k-tails (k={k}): the model has no run for the logged trace {t!r}')
    for s in model.states:
        for a, l in s.transitions.items():
            for e in l:
                o = e[0] if kind == 'mealy' else e.output
                if not any(a == x and o == y for x, y in seen):
                    raise Violation('made-up-output', f'k-tails: state {s.state_id} gives {o!r} on {a!r}, which was never logged')
    sim.model = model
    sim.meta['records'] = len(data)
    sim.meta['nontrivial'] = len(model.states) > 1


def scenario(sim):
    k = sim.choose(8)
    if k == 6:
        return pushdown(sim)
    if k == 7:
        return tails(sim)
    return deterministic(sim)


RUNS = {'quick': 40_000, 'thorough': 2_000_000}
