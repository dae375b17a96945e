"""C11: saved models come back unchanged; failed or interrupted saves are reported and never yield another machine."""
import copy
import os
import sys

from aalpy.automata import (Dfa, DfaState, MealyMachine, MealyState, MooreMachine, MooreState, Mdp, MdpState, StochasticMealyMachine,
                            StochasticMealyState, Onfsm, OnfsmState, MarkovChain, McState, Sevpa, SevpaState, SevpaTransition, Vpa,
                            VpaState, VpaTransition, NDMooreMachine, NDMooreState)
from aalpy.utils import save_automaton_to_file, load_automaton_from_file

from ..core import Violation, SutError
from ..disk import Disk, DiskError, SimCrash

TYPES = ['dfa', 'mealy', 'moore', 'mdp', 'smm', 'onfsm', 'ndmoore', 'mc', 'sevpa', 'vpa']


def names(sim, k, ints=True):
    style = sim.choose(5 if ints else 4, p0=0.4)
    if style == 4:
        return list(range(k))
    return [[f'a{i}' for i in range(k)], ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm'][:k],
            [f'Cmd_{i}' for i in range(k)], [('x' * (i + 1)) for i in range(k)]][style]


def state_ids(sim, n):
    style = sim.choose(4, p0=0.5)
    return [[f's{i}' for i in range(n)], [f'q{i}' for i in range(n)], [f'S_{i}_x' for i in range(n)],
            ['s' + '1' * (i + 1) for i in range(n)]][style]


def probs(sim, k):
    """positive numbers that sum to one; sometimes extremely small or periodic"""
    w = [[1, 1], [1, 3], [2, 1], [1, 10 ** 9], [7, 3]][sim.choose(5)] + [3, 5]
    w = [w[i] for i in range(k)]
    t = sum(w)
    return [x / t for x in w]


def build(sim, kind):
    n = sim.int(1, 6) if sim.flip(0.8) else sim.int(7, 24)
    ids = state_ids(sim, n)
    k = sim.int(1, 3)
    ins = names(sim, k)
    outs = names(sim, sim.int(2, 4), ints=kind not in ('mdp', 'mc'))
    if sim.flip(0.3):
        outs = [f'{o}-{i}.x' if isinstance(o, str) else o for i, o in enumerate(outs)]
    elif sim.flip(0.15):
        # separators of the format that are not ambiguous where they stand
        sep = {'mealy': ['/', ':'], 'onfsm': ['/', ':'], 'smm': ['/', ':'], 'moore': ['|', '/', ':'], 'ndmoore': ['|', '/', ':'], 'mdp': ['/', ':'], 'mc': ['/']}
        if kind in sep:
            sep = sim.pick(sep[kind])
            outs = [f'{o}{sep}{i}' if isinstance(o, str) else o for i, o in enumerate(outs)]
            if kind in ('mdp', 'dfa', 'moore', 'ndmoore') and sep != '|' or kind != 'mc' and sep == ':':
                ins = [f'{a}{sep}{i}' if isinstance(a, str) else a for i, a in enumerate(ins)]
    partial = sim.flip(0.2)
    skip = lambda: partial and sim.flip(0.3)
    T = lambda: sim.choose(n)
    O = lambda: outs[sim.choose(len(outs))]
    if kind == 'dfa':
        st = [DfaState(i, sim.flip(0.5)) for i in ids]
        for s in st:
            for a in ins:
                if not skip():
                    s.transitions[a] = st[T()]
        cls = Dfa
    elif kind == 'moore':
        st = [MooreState(i, O()) for i in ids]
        for s in st:
            for a in ins:
                if not skip():
                    s.transitions[a] = st[T()]
        cls = MooreMachine
    elif kind == 'mealy':
        st = [MealyState(i) for i in ids]
        for s in st:
            for a in ins:
                if not skip():
                    s.transitions[a] = st[T()]
                    s.output_fun[a] = O()
        cls = MealyMachine
    elif kind == 'onfsm':
        st = [OnfsmState(i) for i in ids]
        for s in st:
            for a in ins:
                for o in outs[:sim.int(1, len(outs))]:
                    s.transitions[a].append((o, st[T()]))
        cls = Onfsm
    elif kind == 'ndmoore':
        st = [NDMooreState(i, O()) for i in ids]
        for s in st:
            for a in ins:
                for _ in range(sim.int(1, 3)):
                    t = st[T()]
                    if t not in s.transitions[a]:
                        s.transitions[a].append(t)
        cls = NDMooreMachine
    elif kind == 'mc':
        st = [McState(i, O()) for i in ids]
        for s in st:
            for p in probs(sim, sim.int(1, 3)):
                s.transitions.append((st[T()], p))
        cls = MarkovChain
    elif kind == 'mdp':
        st = [MdpState(i, O()) for i in ids]
        for s in st:
            for a in ins:
                for p in probs(sim, sim.int(1, 3)):
                    s.transitions[a].append((st[T()], p))
        cls = Mdp
    elif kind == 'smm':
        st = [StochasticMealyState(i) for i in ids]
        for s in st:
            for a in ins:
                for j, p in enumerate(probs(sim, sim.int(1, min(3, len(outs))))):
                    s.transitions[a].append((st[T()], outs[j], p))
        cls = StochasticMealyMachine
    elif kind == 'sevpa':
        calls, rets = [f'c{i}' for i in range(sim.int(1, 2))], [f'r{i}' for i in range(sim.int(1, 2))]
        if sim.flip(0.3):
            calls, rets, ins = [([40, 41], [50, 51], ins), ([40, 41], rets, ins), (calls, [50, 51], ins), (['push', 'pop_c'], ['pop', 'return'], ins)][sim.choose(4)]
        st = [SevpaState(i, sim.flip(0.5)) for i in ids]
        m = min(n, 5)
        for s in st:
            for a in ins:
                s.transitions[a].append(SevpaTransition(st[T()], a, None))
            for r in rets:
                for c in calls:
                    for q in ids[:m]:
                        if not skip():
                            s.transitions[r].append(SevpaTransition(st[T()], r, 'pop', (q, c)))
        cls = Sevpa
    else:
        calls, rets = [f'c{i}' for i in range(sim.int(1, 2))], [f'r{i}' for i in range(sim.int(1, 2))]
        if sim.flip(0.3):
            calls, rets = [(['(', '['][:len(calls)], [')', ']'][:len(rets)]), (['push_c', 'pop'], ['push', 'pop(r']), ([40, 41], [50])][sim.choose(3)]
            if calls[0] == 'push_c' and sim.flip(0.5):
                ins = ['push_button', 'x.pop', 'repush'][:len(ins)]
        st = [VpaState(i, sim.flip(0.5)) for i in ids]
        for s in st:
            for a in ins:
                s.transitions[a].append(VpaTransition(s, st[T()], a, None))
            for c in calls:
                s.transitions[c].append(VpaTransition(s, st[T()], c, 'push', c))
            for r in rets:
                for c in calls:
                    if not skip():
                        s.transitions[r].append(VpaTransition(s, st[T()], r, 'pop', c))
        cls = Vpa
    order = sim.choose(3, p0=0.7)
    init = st[0] if order == 0 else st[T()]
    return cls(init, st)


def view(m, kind):
    """everything a model means, read through its public structure"""
    d = {}
    for s in m.states:
        if kind == 'vpa' and s.state_id == 'ErrorSinkState':
            continue
        if kind in ('dfa', 'sevpa', 'vpa'):
            lab = bool(s.is_accepting)
        elif kind in ('moore', 'ndmoore', 'mc', 'mdp'):
            lab = s.output
        else:
            lab = None
        rows = []
        if kind == 'mc':
            rows = [(t.state_id, p) for t, p in s.transitions]
        else:
            for a, x in s.transitions.items():
                if kind in ('dfa', 'moore'):
                    rows.append((a, x.state_id))
                elif kind == 'mealy':
                    rows.append((a, x.state_id, s.output_fun[a]))
                elif kind == 'onfsm':
                    rows += [(a, o, t.state_id) for o, t in x]
                elif kind == 'ndmoore':
                    rows += [(a, t.state_id) for t in x]
                elif kind == 'mdp':
                    rows += [(a, t.state_id, p) for t, p in x]
                elif kind == 'smm':
                    rows += [(a, t.state_id, o, p) for t, o, p in x]
                else:
                    rows += [(a, t.letter, t.target_state.state_id, t.action, t.stack_guard) for t in x]
        d[s.state_id] = (lab, sorted(rows, key=repr))
    return m.initial_state.state_id, d


def diff(a, b):
    if a[0] != b[0]:
        return f'initial state {a[0]!r} became {b[0]!r}'
    for s in a[1]:
        if s not in b[1]:
            return f'state {s!r} is missing'
        if a[1][s] != b[1][s]:
            if a[1][s][0] != b[1][s][0] or type(a[1][s][0]) is not type(b[1][s][0]):
                return f'state {s!r}: label {a[1][s][0]!r} became {b[1][s][0]!r}'
            x = [r for r in a[1][s][1] if r not in b[1][s][1]]
            y = [r for r in b[1][s][1] if r not in a[1][s][1]]
            return f'state {s!r}: transitions {x!r} became {y!r}'
    for s in b[1]:
        if s not in a[1]:
            return f'state {s!r} was invented'
    return None


def alter(sim, m, kind):
    a, b = m.states[sim.choose(len(m.states))], m.states[sim.choose(len(m.states))]
    if sim.flip(0.5) and kind in ('dfa', 'moore', 'mealy', 'onfsm', 'ndmoore', 'mc', 'mdp', 'smm'):
        a.transitions, b.transitions = b.transitions, a.transitions
        if kind == 'mealy':
            a.output_fun, b.output_fun = b.output_fun, a.output_fun
    elif kind in ('dfa', 'vpa', 'sevpa'):
        a.is_accepting, b.is_accepting = b.is_accepting, a.is_accepting
    elif kind in ('moore', 'ndmoore', 'mc', 'mdp'):
        a.output, b.output = b.output, a.output
    else:
        m.initial_state = a


def rounded_text(sim, m, kind, k, p):
    """the text of the same model with its probabilities rounded; the model is put back as it was"""
    where = 2 if kind == 'smm' else 1
    low = lambda t: t[:where] + (round(t[where], k),) + t[where + 1:]
    kept = [(s, s.transitions) for s in m.states]
    try:
        for s, t in kept:
            if kind == 'mc':
                s.transitions = [low(x) for x in t]
            else:
                s.transitions = {a: [low(x) for x in v] for a, v in t.items()}
        return sim.sut(save_automaton_to_file, m, p, file_type='string')
    finally:
        for s, t in kept:
            s.transitions = t


def output_of(m, kind, letters, sim):
    """outputs on a word, for the types whose runs are deterministic"""
    m.reset_to_initial()
    out = []
    for a in letters:
        out.append(m.step(a))
    return out


def scenario(sim):
    with Disk(sim) as disk:
        run(sim, disk)


def run(sim, disk):
    files = ['m.dot', 'other.dot', 'hyp_2.dot'][:sim.int(1, 3)]
    expect = {}            # file -> list of acceptable (kind, view, model) | 'error' allowed when flagged
    sim.meta['nontrivial'] = True
    kinds = set()
    last = {}
    for op in range(sim.int(2, 7)):
        what = sim.choose(5, p0=0.45)
        name = files[sim.choose(len(files))]
        path = os.path.join(disk.root, name)
        disk.plan = disk.fired = None
        if what in (0, 1, 2):          # save
            kind = TYPES[sim.choose(len(TYPES))]
            if name in last and sim.flip(0.3):
                # the next version of a model saved (and perhaps read) before: same size, other meaning
                kind, m = last[name]
                if name in expect and sim.flip(0.6):
                    check_load(sim, disk, name, path, expect, False)
                    disk.plan = disk.fired = None
                if sim.flip(0.8):
                    alter(sim, m, kind)
                sim.probe('new version of a saved model')
            else:
                m = build(sim, kind)
            kinds.add(kind)
            last[name] = (kind, m)
            before = view(m, kind)
            if sim.flip(0.5):
                f = sim.choose(6)
                disk.plan = [('write', sim.choose(5000), sim.choose(3)), ('open', sim.choose(4)), ('close', sim.choose(5000), sim.choose(3)),
                             ('crash-write', sim.choose(5000)), ('crash-close', sim.choose(5000)), ('crash-open',)][f]
            sim.log('save', name, kind, before)
            o = sys.stdout
            mark = len(o.getvalue())
            p = path if sim.flip(0.5) else path[:-4]
            crashed, api = False, sim.flip(0.5)
            try:
                if api:
                    sim.sut(m.save, p)
                else:
                    # whatever is asked for a picture, a file has all transitions
                    options = {} if sim.flip(0.5) else dict(file_type=sim.pick(['dot', 'DOT']), display_same_state_trans=sim.flip(0.5))
                    sim.log('options', options)
                    sim.sut(save_automaton_to_file, m, p, **options)
            except SimCrash:
                crashed = True
            said = o.getvalue()[mark:]
            if view(m, kind) != before:
                raise Violation('save-changes-model', f'{kind}: {diff(before, view(m, kind))}')
            entry = (kind, before)
            if disk.fired is None:
                if sim.flip(0.2):
                    text = sim.sut(save_automaton_to_file, m, p, file_type='string')
                    with open(path) as f:
                        saved = f.read()
                    if type(text) is not str or text.split() != saved.split():
                        raise Violation('wrong-text', f'{kind} as a string: {text!r}, in the file: {saved!r}')
                    if kind in ('mdp', 'mc', 'smm'):
                        k = sim.int(1, 3)
                        text = sim.sut(save_automaton_to_file, m, p, file_type='string', round_floats=k)
                        want = rounded_text(sim, m, kind, k, p)
                        if text != want:
                            raise Violation('wrong-text', f'{kind} rounded to {k} places: {text!r}, expected {want!r}')
                if 'Model saved to' not in said:
                    raise Violation('save-not-confirmed', f'{kind} written without error, but: {said!r}')
                expect[name] = ([entry], False)
            else:
                if not crashed and 'Model saved to' in said:
                    raise Violation('failed-save-confirmed', f'{disk.fired}, but the caller is told {said[-200:]!r}')
                if not crashed and 'Could not write' not in said:
                    raise Violation('failed-save-not-reported', f'{disk.fired}, but nothing was reported')
                old = expect.get(name, ([], True))
                expect[name] = (old[0] + [entry], True)
        elif what == 3:                # power loss: the tail of a file that was not synced
            if name in expect and os.path.exists(path):
                n = os.path.getsize(path)
                disk.tear(path, n - 1 - (sim.choose(40) if sim.flip(0.6) else sim.choose(5000)) % (n + 1) if n else 0)
                sim.fault('power loss truncates the file')
                expect[name] = (expect[name][0], True)
        else:
            check_load(sim, disk, name, path, expect, sim.flip(0.3))
    for name in files:
        check_load(sim, disk, name, os.path.join(disk.root, name), expect, False)
    sim.features.update({k: True for k in kinds})


def check_load(sim, disk, name, path, expect, faulty):
    disk.plan = disk.fired = None
    if name not in expect:
        return
    options, may_fail = expect[name]
    if faulty:
        disk.plan = [('read-open', sim.choose(4)), ('read',)][sim.choose(2)]
    errs = []
    prefixes = sim.flip(0.3)
    for kind in dict.fromkeys(k for k, _ in reversed(options)):
        try:
            m = sim.sut(load_automaton_from_file, path, kind, compute_prefixes=prefixes)
        except DiskError:
            sim.log('load failed as injected')
            return
        except SutError as e:
            if isinstance(e.exc, FileNotFoundError) and may_fail and not os.path.exists(path):
                return
            if not may_fail:
                raise
            errs.append(e)
            continue
        if disk.fired:
            raise Violation('read-failure-swallowed', f'{disk.fired}, but a {kind} was returned')
        got = view(m, kind)
        cand = [v for k, v in options if k == kind]
        if any(diff(v, got) is None and view_types(v) == view_types(got) for v in cand):
            if prefixes and kind in ('dfa', 'moore', 'mealy'):
                check_prefixes(m, kind)
            sim.log('load', name, kind, 'ok')
            sim.probe('loaded ' + kind)
            if kind in ('dfa', 'moore', 'mealy', 'sevpa', 'vpa') and len(cand) == 1:
                run_both(sim, m, kind, got)
            return
        if len(set(k for k, _ in options)) > 1 and may_fail:
            # the file may hold the other machine: reading it as the wrong type proves nothing
            errs.append(None)
            continue
        if may_fail:
            raise Violation('damaged-file-accepted', f'{kind} {name}: an incomplete file was loaded as another machine: {diff(cand[-1], got)}')
        raise Violation('load-differs', f'{kind} {name}: {diff(cand[-1], got) or "types of labels or letters changed"}')
    if not may_fail:
        raise Violation('load-differs', f'{name} could not be loaded')
    sim.log('load refused', name)
    sim.probe('damaged file refused')


def view_types(v):
    return [(type(s), type(l), [tuple(type(x) for x in r) for r in rows]) for s, (l, rows) in sorted(v[1].items(), key=repr)]


def check_prefixes(m, kind):
    """compute_prefixes: a shortest access sequence for every reachable state"""
    from collections import deque
    dist = {id(m.initial_state): 0}
    q = deque([m.initial_state])
    while q:
        s = q.popleft()
        for t in s.transitions.values():
            if id(t) not in dist:
                dist[id(t)] = dist[id(s)] + 1
                q.append(t)
    for s in m.states:
        if id(s) not in dist:
            continue
        if s.prefix is None:
            raise Violation('prefix-missing', f'compute_prefixes=True, but {s.state_id} of the loaded {kind} has no prefix')
        t = m.initial_state
        for a in s.prefix:
            t = t.transitions.get(a)
        if t is not s or len(s.prefix) != dist[id(s)]:
            raise Violation('prefix-wrong', f'prefix {s.prefix!r} of {s.state_id} is not a shortest access sequence')


def run_both(sim, m, kind, v):
    """stepping the loaded object follows the loaded structure"""
    init, d = v
    letters = sorted({r[0] for _, rows in d.values() for r in rows}, key=repr)
    if kind == 'sevpa':
        letters += sorted({r[4][1] for _, rows in d.values() for r in rows if r[4]})
    if not letters:
        return
    for _ in range(3):
        w = [letters[sim.choose(len(letters))] for _ in range(sim.int(1, 8))]
        s, st, want, ok = init, [], [], True
        for a in w:
            rows = d[s][1]
            if kind in ('dfa', 'moore', 'mealy'):
                r = [x for x in rows if x[0] == a]
                if not r:
                    ok = False
                    break
                s = r[0][1]
                want.append(d[s][0] if kind != 'mealy' else r[0][2])
                continue
            if kind == 'sevpa' and not any(x[0] == a for _, rr in d.values() for x in rr):
                st.append((s, a))
                s = init
            else:
                r = [x for x in rows if x[0] == a and (x[3] != 'pop' or (st and st[-1] == x[4]))]
                if not r:
                    break
                if len({x[2] for x in r}) > 1:
                    ok = False
                    break
                s = r[0][2]
                if r[0][3] == 'pop':
                    st.pop()
                elif r[0][3] == 'push':
                    st.append(r[0][4])
            want.append(d[s][0] and not st)
        if not ok:
            continue
        want += [False] * (len(w) - len(want))
        sim.sut(m.reset_to_initial)
        got = [sim.sut(m.step, a) for a in w]
        if [g for g in got] != want:
            raise Violation('loaded-model-steps-differently', f'{kind} on {w!r}: {got!r}, by its structure {want!r}')


RUNS = {'quick': 24_000, 'thorough': 600_000}
