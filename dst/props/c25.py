"""C25: models, logs and words that are generated for the user are what was asked for, and logs are read from files as written."""
import builtins
import io
import contextlib
import random
import warnings

from aalpy.automata import (Dfa, MealyMachine, MooreMachine, Mdp, StochasticMealyMachine, Onfsm, MarkovChain, Sevpa)
from aalpy.learning_algs import run_RPNI
from aalpy.utils import (generate_random_deterministic_automata, generate_random_mealy_machine, generate_random_moore_machine,
                         generate_random_dfa, generate_random_mdp, generate_random_smm, generate_random_ONFSM, generate_random_markov_chain,
                         CharacterTokenizer, DelimiterTokenizer, IODelimiterTokenizer, convert_i_o_traces_for_RPNI)
from aalpy.utils.AutomatonGenerators import generate_random_sevpa
from aalpy.utils.HelperFunctions import generate_input_output_data_from_automata, generate_input_output_data_from_vpa
from aalpy.utils import Sampling

from ..core import Violation
from ..disk import Disk, DiskError
from .c11 import build, view
from .c23 import Meaning

NAMED = ['a', 'b', 'go', 'x y', '0']


def bad(cls, msg):
    raise Violation(cls, msg)


# -- random models --------------------------------------------------------------------------------------------------------
def reachable(first, succ):
    seen, todo = [first], [first]
    for s in todo:
        for t in succ(s):
            if not any(t is x for x in seen):
                seen.append(t)
                todo.append(t)
    return seen


def deterministic(sim):
    kind = sim.pick(['dfa', 'moore', 'mealy'])
    n, k, o = sim.int(1, 7), sim.int(1, 4), sim.int(2, 5)
    minimal = sim.flip(0.7)
    how = sim.choose(3)
    accepting = None
    # options with their default value are sometimes left out
    option = {} if minimal and sim.flip(0.5) else dict(ensure_minimality=minimal)
    size = (o,)
    if how == 0 and o == 2 and sim.flip(0.5):
        size = ()
    ins, outs = [f'i{i + 1}' for i in range(k)], [f'o{i + 1}' for i in range(o)]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        if how == 0:
            kw = {}
            if kind == 'dfa' and sim.flip(0.5):
                accepting = kw['num_accepting_states'] = sim.int(0, n)
            m = sim.sut(generate_random_deterministic_automata, kind, n, k, *size, **option, **kw)
        else:
            ins = [sim.pick([i, NAMED[i]]) for i in range(k)]
            outs = [sim.pick([i, NAMED[i]]) for i in range(o)]
            if kind == 'dfa':
                accepting = sim.int(0, n)
                m = sim.sut(generate_random_dfa, n, list(ins), *(() if accepting == 1 and sim.flip(0.5) else (accepting,)), **option)
            else:
                m = sim.sut(generate_random_moore_machine if kind == 'moore' else generate_random_mealy_machine, n, list(ins), list(outs),
                            **option)
            if kind == 'dfa' and n <= accepting:
                accepting = None
    warned = any('Non-minimal' in str(w.message) for w in caught)
    what = f'{kind} with {n} states, inputs {ins!r}, outputs {outs!r}, {accepting!r} accepting'
    sim.log('model', what, minimal, view(m, kind))
    sim.features.update(what=kind)
    if type(m) is not {'dfa': Dfa, 'moore': MooreMachine, 'mealy': MealyMachine}[kind]:
        bad('wrong-type', f'{what}: {type(m).__name__}')
    if len(m.states) != n or len({s.state_id for s in m.states}) != n:
        bad('wrong-size', f'{what}: {len(m.states)} states')
    for s in m.states:
        if list(s.transitions) != ins:
            bad('wrong-alphabet', f'{what}: {s.state_id} has the inputs {list(s.transitions)!r}')
        for t in s.transitions.values():
            if not any(t is x for x in m.states):
                bad('foreign-state', f'{what}: transition to a state that is not in the model')
        os_ = [s.is_accepting] if kind == 'dfa' else [s.output] if kind == 'moore' else [s.output_fun[a] for a in ins]
        for x in os_:
            if not any(x == y and type(x) is type(y) for y in ([True, False] if kind == 'dfa' else outs)):
                bad('wrong-alphabet', f'{what}: output {x!r}')
    if len(reachable(m.initial_state, lambda s: s.transitions.values())) != n:
        bad('unreachable-states', f'{what}: not all states are reachable')
    mean = Meaning(m, kind)
    for s in m.states:
        d = mean.reachable(mean.initial, s.state_id)
        if s.prefix is None or len(s.prefix) != d:
            bad('wrong-prefix', f'{what}: prefix {s.prefix!r} of {s.state_id}, its distance is {d}')
    if accepting is not None and sum(s.is_accepting for s in m.states) != accepting:
        bad('wrong-outputs', f'{what}: {sum(s.is_accepting for s in m.states)} accepting states')
    if kind != 'dfa':
        used = {repr(s.output) for s in m.states} if kind == 'moore' else {repr(x) for s in m.states for x in s.output_fun.values()}
        if len(used) < min(len(outs), n * (1 if kind == 'moore' else k)):
            bad('wrong-outputs', f'{what}: only {sorted(used)} are used')
    if minimal and not warned:
        ids = list(mean.rows)
        same = [(x, y) for i, x in enumerate(ids) for y in ids[:i] if mean.distinguishable(x, y, ins) is None and
                (kind == 'mealy' or mean.label[x] == mean.label[y])]
        if same:
            bad('not-minimal', f'{what}: {same!r} are equivalent and nothing was said')
    if not minimal and warned:
        bad('unexpected-warning', f'{what}: {[str(w.message) for w in caught]!r}')


def stochastic(sim):
    kind = sim.pick(['mdp', 'smm', 'onfsm', 'mc'])
    n, k, o = sim.int(1, 6), sim.int(1, 3), sim.int(2, 4)
    given = None
    if kind in ('mdp', 'smm') and sim.flip(0.4):
        lim = min(n * (k if kind == 'smm' else 1), o)
        given = [p for p in [(1.0,), (0.25, 0.75), (0.5, 0.3, 0.2)] if len(p) <= lim][:sim.int(1, 3)]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if kind == 'mdp':
            m = sim.sut(generate_random_mdp, n, k, o, given)
        elif kind == 'smm':
            m = sim.sut(generate_random_smm, n, k, o, given)
        elif kind == 'onfsm':
            p = sim.pick([0.0, 0.33, 1.0])
            m = sim.sut(generate_random_ONFSM, n, k, o, *(() if p == 0.33 and sim.flip(0.5) else (p,)))
        else:
            n = max(3, n)
            m = sim.sut(generate_random_markov_chain, n)
    what = f'{kind} with {n} states, {k} inputs, {o} outputs, {given!r}'
    sim.log('model', what, view(m, kind))
    sim.features.update(what=kind)
    if type(m) is not {'mdp': Mdp, 'smm': StochasticMealyMachine, 'onfsm': Onfsm, 'mc': MarkovChain}[kind]:
        bad('wrong-type', f'{what}: {type(m).__name__}')
    if len(m.states) != n or len({s.state_id for s in m.states}) != n or m.initial_state is not m.states[0]:
        bad('wrong-size', f'{what}: states {[s.state_id for s in m.states]}')
    ins = {f'i{i + 1}' for i in range(k)}
    outs = {f'o{i + 1}' for i in range(o)}
    for s in m.states:
        if kind == 'mc':
            rows = {'tick': [(t, t.output, p) for t, p in s.transitions]} if s.transitions else {}
            if not s.transitions and s is not m.states[-1]:
                bad('wrong-alphabet', f'{what}: {s.state_id} has no successor')
        else:
            rows = {a: ([(t, t.output, p) for t, p in l] if kind == 'mdp' else list(l) if kind == 'smm' else [(t, x, None) for x, t in l])
                    for a, l in s.transitions.items()}
            if set(rows) != ins:
                bad('wrong-alphabet', f'{what}: {s.state_id} has the inputs {sorted(rows)!r}')
        for a, l in rows.items():
            if any(not any(t is x for x in m.states) for t, _, _ in l):
                bad('foreign-state', f'{what}: transition to a state that is not in the model')
            if kind != 'mc' and not {x for _, x, _ in l} <= outs:
                bad('wrong-alphabet', f'{what}: outputs {l!r}')
            if len({repr(x) for _, x, _ in l}) != len(l) or not l:
                bad('ambiguous', f'{what}: {s.state_id}, {a!r}: {[(t.state_id, x, p) for t, x, p in l]!r}')
            if kind != 'onfsm':
                if abs(sum(p for _, _, p in l) - 1) > 1e-9 or any(p <= 0 for _, _, p in l):
                    bad('wrong-probabilities', f'{what}: {[(x, p) for _, x, p in l]!r}')
                if given and sorted(p for _, _, p in l) not in [sorted(g) for g in given]:
                    bad('wrong-probabilities', f'{what}: {[(x, p) for _, x, p in l]!r}')
            elif (p == 0.0 and len(l) != 1) or (p == 1.0 and len(l) < 2):
                bad('wrong-outputs', f'{what}, probability {p} of several outputs: {l!r}')
    if kind in ('mdp', 'smm') and len(reachable(m.initial_state, lambda s: [l[0] for r in s.transitions.values() for l in r])) != n:
        bad('unreachable-states', f'{what}: not all states are reachable')


def pushdown(sim):
    n, i, c, r = sim.int(1, 4), sim.int(0, 3), sim.int(1, 2), sim.int(1, 2)
    acc, ret = sim.pick([0.0, 0.5, 1.0]), sim.pick([0.0, 0.5, 1.0])
    m = sim.sut(generate_random_sevpa, n, i, c, r, acc, ret)
    what = f'sevpa with {n} states, {i}/{c}/{r} letters, {acc} {ret}'
    sim.log('model', what, view(m, 'sevpa'))
    sim.features.update(what='sevpa')
    if type(m) is not Sevpa or len(m.states) != n:
        bad('wrong-size', f'{what}: {type(m).__name__} with {len(m.states)} states')
    A = m.get_input_alphabet()
    want = [[f'i{j}' for j in range(i)], [f'c{j}' for j in range(c)], [f'r{j}' for j in range(r)]]
    got = [sorted(A.internal_alphabet), sorted(A.call_alphabet), sorted(A.return_alphabet)]
    if got != want:
        bad('wrong-alphabet', f'{what}: {got!r}')
    if (acc == 0.0 and any(s.is_accepting for s in m.states)) or (acc == 1.0 and not all(s.is_accepting for s in m.states)):
        bad('wrong-outputs', f'{what}: accepting {[s.is_accepting for s in m.states]}')
    for s in m.states:
        for a in want[0]:
            if len(s.transitions.get(a, ())) != 1:
                bad('ambiguous', f'{what}: {len(s.transitions.get(a, ()))} transitions of {s.state_id} for {a}')
        for a in want[2]:
            guards = [t.stack_guard for t in s.transitions.get(a, ())]
            if sorted(guards) != sorted((q.state_id, x) for q in m.states for x in want[1]):
                bad('ambiguous', f'{what}: {s.state_id}, {a}: guards {guards!r}')


# -- logs of models -------------------------------------------------------------------------------------------------------
MOORE_LIKE = ('dfa', 'moore', 'ndmoore', 'mdp', 'mc')


def genuine(mean, word, outs, what):
    """outs is a possible answer to word"""
    if len(outs) != len(word):
        bad('wrong-trace', f'{what}: {word!r} with the outputs {outs!r}')
    confs = [mean.start()]
    for a, o in zip(word, outs):
        confs = [c2 for c in confs for _, c2, x in mean.step(c, a) if x == o and type(x) is type(o)]
        confs = list(dict.fromkeys(confs))
        if not confs:
            bad('wrong-trace', f'{what}: {word!r} cannot be answered with {outs!r}')


def disturb(sim, m, mean):
    """the model was used before"""
    if sim.flip(0.5):
        return
    sim.fault('model in the middle of an execution')
    m.reset_to_initial()
    for _ in range(sim.int(1, 5)):
        sim.sut(m.step, mean.letters[sim.choose(len(mean.letters))])


def words(sim, mean, letters, ws, lo, hi, n, what, uniform=True):
    if len(ws) != n:
        bad('wrong-number', f'{what}: {len(ws)} words instead of {n}')
    for w in ws:
        if not lo <= len(w) <= hi or any(not any(a == b and type(a) is type(b) for b in letters) for a in w):
            bad('wrong-word', f'{what}: {w!r} is not over {letters!r} with length {lo} to {hi}')
    if n >= 400 and uniform:
        if {len(w) for w in ws} != set(range(lo, hi + 1)):
            bad('never-sampled', f'{what}: lengths {sorted({len(w) for w in ws})} of {lo} to {hi}')
        total = [a for w in ws for a in w]
        if len(total) >= 400:
            for a in letters:
                x, p = sum(b == a and type(b) is type(a) for b in total), 1 / len(letters)
                if abs(x - len(total) * p) > 6.5 * (len(total) * p * (1 - p)) ** 0.5 + 6:
                    bad('never-sampled', f'{what}: {a!r} {x} times in {len(total)}')


def logs(sim):
    kind = sim.pick(['dfa', 'moore', 'mealy', 'ndmoore', 'mdp', 'smm', 'onfsm'])
    m = build(sim, kind)
    with contextlib.suppress(Exception):
        m.make_input_complete()
    mean = Meaning(m, kind)
    letters = mean.letters
    if not letters or len(mean.everywhere()) != len(letters):
        return
    sim.features.update(what='log of ' + kind)
    v = view(m, kind)
    disturb(sim, m, mean)
    how = sim.pick(['length', 'term', 'io', 'labelled', 'generated', 'generated', 'complete', 'rpni'])
    n = 400 if sim.flip(0.05) else sim.int(0, 6)
    lo = sim.int(0, 3)
    hi = lo + sim.int(0, 3)
    label = lambda: mean.label[mean.initial]
    sim.log(how, kind, v, n, lo, hi)
    if how == 'length':
        src = m if sim.flip(0.5) else list(letters)
        if src is m and sim.flip(0.5):
            ts = sim.sut(Sampling.sample_with_length_limits, m, n, lo, hi, include_outputs=True)
            ws = traces(mean, kind, ts, how)
        else:
            ws = sim.sut(Sampling.sample_with_length_limits, src, n, lo, hi)
        words(sim, mean, letters, ws, lo, hi, n, how)
    elif how == 'term':
        p = sim.pick([0.1, 0.5, 0.9])
        ws = sim.sut(Sampling.sample_with_term_prob, m if sim.flip(0.5) else list(letters), n, p)
        words(sim, mean, letters, ws, 0, 10 ** 6, n, how, uniform=False)
        if n >= 400:
            x = sum(not w for w in ws)
            if abs(x - n * p) > 6.5 * (n * p * (1 - p)) ** 0.5 + 6:
                bad('never-sampled', f'{how}: {x} of {n} words are empty, termination probability {p}')
    elif how in ('io', 'labelled', 'rpni'):
        ws = [tuple(letters[sim.choose(len(letters))] for _ in range(sim.int(1 if how == 'labelled' and kind not in MOORE_LIKE else 0, 6)))
              for _ in range(min(n, 20))]
        if how == 'labelled':
            data = sim.sut(Sampling.get_data_from_input_sequence, m, ws, 'labeled_sequences')
            if [tuple(w) for w, _ in data] != ws:
                bad('wrong-trace', f'{how}: {data!r} for {ws!r}')
            labels(mean, kind, data, how)
        else:
            data = sim.sut(Sampling.get_data_from_input_sequence, m, ws, 'io_sequences')
            got = traces(mean, kind, data, how)
            if [tuple(w) for w in got] != ws:
                bad('wrong-trace', f'{how}: {data!r} for {ws!r}')
            if how == 'rpni' and kind in ('dfa', 'moore', 'mealy'):
                conv = sim.sut(convert_i_o_traces_for_RPNI, data, kind)
                want = []
                for t in data:
                    rest = t
                    if kind != 'mealy':
                        want.append(((), t[0]))
                        rest = t[1:]
                    for i in range(len(rest)):
                        want.append((tuple(a for a, _ in rest[:i + 1]), rest[i][1]))
                if sorted(map(repr, conv)) != sorted(set(map(repr, want))):
                    bad('wrong-trace', f'converted {data!r} to {conv!r}')
    elif how == 'generated':
        typ = sim.pick(['io_traces', 'labeled_sequences'])
        lo, hi = max(1, lo), max(1, hi)
        data = sim.sut(generate_input_output_data_from_automata, m, n, lo, hi, typ)
        if typ == 'io_traces':
            ws = [tuple(a for a, _ in t) for t in data]
            for w, t in zip(ws, data):
                genuine(mean, w, [o for _, o in t], how)
        else:
            ws = [w for w, _ in data]
            labels(mean, kind, data, how)
        words(sim, mean, letters, ws, lo, hi, n, how)
    elif kind in ('dfa', 'moore', 'mealy'):
        ids = list(mean.rows)
        if any(mean.reachable(mean.initial, s) is None for s in ids) or any(
                mean.distinguishable(x, y, letters) is None and (kind == 'mealy' or mean.label[x] == mean.label[y]) for i, x in enumerate(ids) for y in ids[:i]):
            return
        ws = sim.sut(Sampling.get_complete_sample, m)
        ws = {tuple(w) for w in ws}
        # every two states, reached in any way the sample knows, are told apart by words of the sample
        for s in ids:
            for a in [None] + letters:
                acc = [w for w in access(mean, s, ws)]
                if not acc:
                    bad('incomplete-sample', f'{s!r} is not reached by the sample')
        begun = {w[:i + 1] for w in ws for i in range(len(w))}
        for i, x in enumerate(ids):
            for y in ids[:i]:
                if not apart(mean, kind, x, y, begun):
                    bad('incomplete-sample', f'{x!r} and {y!r} are not told apart by {sorted(ws, key=repr)!r}')
        for s in ids:
            for a in letters:
                if not any(w[:len(p) + 1] == p + (a,) for p in access(mean, s, ws) for w in ws):
                    bad('incomplete-sample', f'{a!r} in {s!r} is not part of the sample')
        data = sim.sut(convert_i_o_traces_for_RPNI, sim.sut(Sampling.get_io_traces, m, sorted(ws, key=repr)), kind)
        alg = sim.pick(['gsm', 'classic'])
        with contextlib.redirect_stdout(io.StringIO()):
            learned = sim.sut(run_RPNI, data, kind, algorithm=alg, print_info=False)
        if learned is None or not equal(mean, Meaning(learned, kind), kind, letters):
            bad('incomplete-sample', f'{alg} RPNI did not find the model again from its complete sample {sorted(ws, key=repr)!r}')
        sim.probe('model found again from its complete sample')
    if repr(view(m, kind)) != repr(v):
        bad('model-changed', f'{how} changed the model')


def equal(x, y, kind, letters):
    seen, todo = {(x.initial, y.initial)}, [(x.initial, y.initial)]
    for s, t in todo:
        if kind != 'mealy' and x.label[s] != y.label[t]:
            return False
        for a in letters:
            l, r = x.step((s, ()), a), y.step((t, ()), a)
            if len(r) != 1 or l[0][2] != r[0][2]:
                return False
            n = (l[0][1][0], r[0][1][0])
            if n not in seen:
                seen.add(n)
                todo.append(n)
    return True


def access(mean, s, ws):
    """all prefixes of the sample that lead to s"""
    out = set()
    for w in ws:
        c = mean.start()
        for i in range(len(w) + 1):
            if c[0] == s:
                out.add(w[:i])
            if i < len(w):
                c = mean.step(c, w[i])[0][1]
    return out


def apart(mean, kind, x, y, ws):
    """two words p.e and q.e with p to x, q to y and different last outputs; runs of the sample show the outputs
    of all beginnings of its words too"""
    if kind != 'mealy' and mean.label[x] != mean.label[y]:
        return True
    for p in access(mean, x, ws):
        for q in access(mean, y, ws):
            for w in ws:
                if w[:len(p)] == p and len(w) > len(p) and q + w[len(p):] in ws:
                    c, d = (x, ()), (y, ())
                    for a in w[len(p):]:
                        _, c, o1 = mean.step(c, a)[0]
                        _, d, o2 = mean.step(d, a)[0]
                    if o1 != o2:
                        return True
    return False


def traces(mean, kind, ts, what):
    """the words of i/o traces, which have to be genuine"""
    ws = []
    for t in ts:
        t = list(t)
        if kind in MOORE_LIKE:
            first = t.pop(0)
            if first != mean.label[mean.initial] or type(first) is not type(mean.label[mean.initial]):
                bad('wrong-trace', f'{what}: initial output {first!r}')
        w = [a for a, _ in t]
        genuine(mean, w, [o for _, o in t], what)
        ws.append(w)
    return ws


def labels(mean, kind, data, what):
    for w, o in data:
        confs = [mean.start()]
        last = [mean.label[mean.initial]] if not w else None
        for a in w:
            nxt = [(c2, x) for c in confs for _, c2, x in mean.step(c, a)]
            confs, last = list(dict.fromkeys(c for c, _ in nxt)), [x for _, x in nxt]
        if not any(x == o and type(x) is type(o) for x in last):
            bad('wrong-trace', f'{what}: {w!r} is labelled {o!r}, possible {last!r}')


# -- words of pushdown automata -------------------------------------------------------------------------------------------
def member(mean, w):
    c = mean.start()
    o = mean.label_of(c)
    for a in w:
        _, c, o = mean.step(c, a)[0]
    return o


def walks(mean, lo, hi):
    """words of random walks over the transitions that are possible, up to the first time they are accepted"""
    now, done = {((), mean.start()): 1.0}, {}
    for i in range(hi):
        nxt = {}
        for (w, c), p in now.items():
            if i >= lo and mean.label_of(c):
                done[w] = done.get(w, 0.0) + p
                continue
            ways = [r[0] for r in mean.rows[c[0]] if r[3] != 'pop' or (c[1] and r[4] == c[1][-1])]
            for a in ways:
                d = mean.step(c, a)[0][1]
                if d[1] is not None:
                    nxt[w + (a,), d] = nxt.get((w + (a,), d), 0.0) + p / len(ways)
        now = nxt
    return done


def pd_words(sim):
    kind = sim.pick(['sevpa', 'sevpa', 'vpa'])
    if kind == 'sevpa' and sim.flip(0.5):
        # also models of the generator
        m = sim.sut(generate_random_sevpa, sim.int(1, 3), sim.int(1, 2), sim.int(1, 2), sim.int(1, 2), 0.5, 0.5)
    else:
        m = build(sim, kind)
    mean = Meaning(m, kind)
    sim.features.update(what='words of ' + kind)
    v = view(m, kind)
    disturb(sim, m, mean)
    how = sim.pick(['data', 'random', 'bfs'] if kind == 'sevpa' else ['data', 'random'])
    sim.log(how, kind, v)
    if how == 'data':
        n, hi = sim.int(0, 30), sim.int(1, 6)
        tries = sim.pick([None, 3, 200])
        data = sim.sut(generate_input_output_data_from_vpa, m, n, hi, tries)
        k = len(mean.letters)
        if n and not data or len(data) >= n + hi or (tries is None and len(data) < n and k ** hi >= 2 * n):
            bad('wrong-number', f'{how}: {len(data)} words, {n} of length at most {hi} over {k} letters were asked for')
        seen = {tuple(w) for w, _ in data}
        if len(seen) != len(data):
            bad('duplicate-word', f'{how}: {data!r}')
        for w, o in data:
            if not 1 <= len(w) <= hi or any(a not in mean.letters for a in w):
                bad('wrong-word', f'{how}: {w!r}')
            if len(w) > 1 and w[:-1] not in seen:
                bad('wrong-word', f'{how}: {w!r} without its prefix')
            if o != member(mean, w) or type(o) is not bool:
                bad('wrong-trace', f'{how}: {w!r} is labelled {o!r}')
    elif kind == 'vpa':
        lo = sim.int(0, 5)
        hi = lo + sim.int(1, 12)
        for _ in range(4):
            w = sim.sut(m.generate_random_accepting_word, lo, hi)
            sim.log('word', w)
            if w is not None and (not lo <= len(w) <= hi or not member(mean, w)):
                bad('wrong-word', f'{how}: {w!r}, accepted: {member(mean, w)}, length {lo} to {hi}')
        if hi <= 5:
            likely = [w for w, p in walks(mean, lo, hi).items() if p > 0.12]
            if likely:
                got = {tuple(x) for x in (sim.sut(m.generate_random_accepting_word, lo, hi) for _ in range(250)) if x is not None}
                sim.probe('random words sampled')
                for w in likely:
                    if w not in got:
                        bad('wrong-word', f'{how}: {w!r} is not among 250 random words of length {lo} to {hi}: {got!r}')
    else:
        # the searches only end if the words exist: complete, all states reached by internal letters, acceptance always possible
        if not friendly(mean):
            sim.log('not friendly')
            return
        if how == 'random':
            lo = sim.int(0, 5)
            for _ in range(2):
                w = sim.sut(m.get_random_accepting_word, sim.pick([0.2, 0.5]), lo)
                sim.log('word', w)
                if len(w) < lo or not member(mean, w):
                    bad('wrong-word', f'{how}: {w!r}, accepted: {member(mean, w)}, length at least {lo}')
        else:
            lo, n = sim.int(0, 3), sim.int(1, 5)
            ref = shortest(mean, max(1, lo), n)
            if ref is None:
                return
            ws = sim.sut(m.get_accepting_words_bfs, lo, n) if lo or sim.flip(0.5) else sim.sut(m.get_accepting_words_bfs, num_words=n)
            sim.log('words', ws)
            if len(ws) != n or len({tuple(w) for w in ws}) != n:
                bad('wrong-number', f'{how}: {ws!r}, {n} words were asked for')
            for w in ws:
                if len(w) < lo or not member(mean, w):
                    bad('wrong-word', f'{how}: {w!r}, accepted: {member(mean, w)}, length at least {lo}')
            if [len(w) for w in ws] != ref:
                bad('wrong-word', f'{how}: lengths {[len(w) for w in ws]}, the shortest have {ref}')
    if repr(cleaned(view(m, kind))) != repr(cleaned(v)):
        bad('model-changed', f'{how} changed the model')


def cleaned(v):
    return v[0], sorted(v[1].items(), key=repr)


def friendly(mean):
    ids = list(mean.rows)
    if len(ids) > 3 or len(mean.letters) > 5 or not any(mean.label.values()):
        return False
    internal = sorted({r[0] for s in ids for r in mean.rows[s] if r[3] is None})
    returns = sorted({r[0] for s in ids for r in mean.rows[s] if r[3] == 'pop'})
    if not internal or not returns:
        return False
    for s in ids:
        for a in internal:
            if not any(r[0] == a for r in mean.rows[s]):
                return False
        for a in returns:
            if {r[4] for r in mean.rows[s] if r[0] == a} != {(q, c) for q in ids for c in mean.calls}:
                return False
    seen, todo = {mean.initial}, [mean.initial]
    for s in todo:
        for r in mean.rows[s]:
            if r[3] is None and r[2] not in seen:
                seen.add(r[2])
                todo.append(r[2])
    if len(seen) != len(ids):
        return False
    for s in ids:
        seen, todo = {s}, [s]
        for x in todo:
            for r in mean.rows[x]:
                if r[2] not in seen:
                    seen.add(r[2])
                    todo.append(r[2])
        if not any(mean.label[x] for x in seen):
            return False
    return True


def shortest(mean, lo, n):
    """lengths of the n shortest accepted words of length lo or more; None if they are too long to be found quickly"""
    layer, out, d, cost = {mean.start(): 1}, [], 0, 0
    total = 1
    while len(out) < n:
        d += 1
        if d > 6 or total > 3000:
            return None
        nxt = {}
        for c, k in layer.items():
            for a in mean.letters:
                _, c2, _ = mean.step(c, a)[0]
                if c2[1] is not None:
                    nxt[c2] = nxt.get(c2, 0) + k
        layer = nxt
        total = sum(layer.values())
        if d >= lo:
            out += [d] * sum(k for c, k in layer.items() if mean.label_of(c))
    return out[:n]


# -- logs in files --------------------------------------------------------------------------------------------------------
TOKENS = ['a', 'b', '0', '7', 'on', 'x y', 'q-1', '-3', '1.5', 'A']
CHARSET = list('ab01 xX-.')


def ended(code=None):
    raise SystemExit(code)


def files(sim):
    what = sim.pick(['characters', 'delimited', 'io'])
    sim.features.update(what='file of ' + what)
    d1, d2 = sim.pick([(',', '/'), (';', ':'), ('|', '='), ('\t', '->')])
    num = lambda x: int(x) if x.isdigit() else x
    tok = lambda: TOKENS[sim.choose(len(TOKENS))]
    n = sim.int(0, 6)
    damaged = False
    if what == 'characters':
        data = [[CHARSET[sim.choose(len(CHARSET))] for _ in range(sim.int(0, 8))] for _ in range(n)]
        lines = [''.join(x) for x in data]
        read = lambda p: CharacterTokenizer().tokenize_data(p)
    elif what == 'delimited':
        data = [[tok() for _ in range(sim.int(1, 6))] for _ in range(n)]
        lines = [d1.join(x) for x in data]
        read = (lambda p: DelimiterTokenizer().tokenize_data(p)) if d1 == ',' else (lambda p: DelimiterTokenizer().tokenize_data(p, d1))
    else:
        raw = [[tok()] + [(tok(), tok()) for _ in range(sim.int(0, 5))] for _ in range(n)]
        data = [[num(r[0])] + [(num(a), num(b)) for a, b in r[1:]] for r in raw]
        lines = [d1.join([r[0]] + [a + d2 + b for a, b in r[1:]]) for r in raw]
        read = (lambda p: IODelimiterTokenizer().tokenize_data(p)) if d1 == ',' else \
            (lambda p: IODelimiterTokenizer().tokenize_data(p, io_delimiter=d2, word_delimiter=d1))
        if n and sim.flip(0.15):
            i = sim.choose(n)
            lines[i] += d1 + sim.pick(['x', f'x{d2}y{d2}z', ''])
            damaged = True
    sim.log(what, lines, damaged)
    with Disk(sim) as disk:
        path = disk.root + '/log.txt'
        end = sim.pick(['\n', '\n', '\r\n', ''])
        with disk.saved[0](path, 'w', newline='') as f:
            f.write(''.join(l + (end or '\n') for l in lines)[:None if end or not lines else -1])
        if not end and lines and lines[-1] == '':
            data = data[:-1]                 # an empty last line without its end is no line
        for _ in range(2):
            disk.fired = None
            if sim.flip(0.3):
                disk.plan = (sim.pick(['read-open', 'read']), sim.choose(4))
            buf = io.StringIO()
            leave = getattr(builtins, 'exit', None)
            builtins.exit = ended                # the real one closes stdin, too
            try:
                with contextlib.redirect_stdout(buf):
                    got = read(path)
            except DiskError:
                if disk.fired is None:
                    raise
                continue
            except SystemExit as e:
                if not damaged:
                    bad('log-refused', f'{lines!r}: the process was ended ({e.code!r})')
                if e.code in (0, None):
                    bad('damage-hidden', f'{lines!r}: the process ended as if all was well')
                sim.fault('damaged line')
                continue
            finally:
                disk.plan = None
                builtins.exit = leave
            if disk.fired:
                bad('failure-swallowed', f'{disk.fired}: {got!r} was returned')
            if damaged:
                bad('damage-hidden', f'{lines!r} was read as {got!r}')
            if repr(got) != repr(data):
                bad('log-misread', f'{lines!r} was read as {got!r}, not {data!r}')


def scenario(sim):
    f = sim.pick([deterministic, deterministic, stochastic, stochastic, pushdown, logs, logs, logs, pd_words, pd_words, files, files])
    f(sim)
    sim.events += 5
    sim.meta['nontrivial'] = True


RUNS = {'quick': 90_000, 'thorough': 1_000_000}
