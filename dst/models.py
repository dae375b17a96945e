"""Reference machines: small, independent executable models used as the ground truth of the simulated world.

Nothing here uses the code under test.
"""
from collections import deque


class Ref:
    """Deterministic complete machine. kind 'mealy': out[s][a]; 'moore'/'dfa': lab[s]."""

    def __init__(self, kind, alphabet, delta, out=None, lab=None):
        self.kind, self.alphabet, self.delta, self.out, self.lab = kind, list(alphabet), delta, out, lab

    @property
    def n(self):
        return len(self.delta)

    def step_from(self, s, a):
        t = self.delta[s][a]
        return t, (self.out[s][a] if self.kind == 'mealy' else self.lab[t])

    def run(self, word, s=0):
        outs = []
        for a in word:
            s, o = self.step_from(s, a)
            outs.append(o)
        return outs

    def state_after(self, word, s=0):
        for a in word:
            s = self.delta[s][a]
        return s

    def describe(self):
        rows = []
        for s in range(self.n):
            if self.kind == 'mealy':
                rows.append(f'{s}: ' + ', '.join(f'{a!r}/{self.out[s][a]!r}->{self.delta[s][a]}' for a in self.alphabet))
            else:
                rows.append(f'{s}[{self.lab[s]!r}]: ' + ', '.join(f'{a!r}->{self.delta[s][a]}' for a in self.alphabet))
        return f'{self.kind} ' + ' | '.join(rows)


def minimise(ref):
    """Reachable part + partition refinement; state 0 stays initial (BFS numbering)."""
    alpha = ref.alphabet
    seen, order = {0}, [0]
    for s in order:
        for a in alpha:
            t = ref.delta[s][a]
            if t not in seen:
                seen.add(t)
                order.append(t)
    cls = {}
    for s in order:
        cls[s] = tuple(ref.out[s][a] for a in alpha) if ref.kind == 'mealy' else ref.lab[s]
    while True:
        sig = {s: (cls[s],) + tuple(cls[ref.delta[s][a]] for a in alpha) for s in order}
        ids = {}
        new = {s: ids.setdefault(sig[s], len(ids)) for s in order}
        if len(ids) == len(set(cls.values())):
            cls = new
            break
        cls = new
    rep, num = {}, {}
    for s in order:
        if cls[s] not in num:
            num[cls[s]] = len(num)
            rep[cls[s]] = s
    delta = [dict() for _ in num]
    out = [dict() for _ in num] if ref.kind == 'mealy' else None
    lab = [None] * len(num) if ref.kind != 'mealy' else None
    for c, i in num.items():
        s = rep[c]
        for a in alpha:
            delta[i][a] = num[cls[ref.delta[s][a]]]
            if out is not None:
                out[i][a] = ref.out[s][a]
        if lab is not None:
            lab[i] = ref.lab[s]
    return Ref(ref.kind, alpha, delta, out, lab)


ALPHABETS = [
    lambda k: ['a', 'b', 'c', 'd', 'e', 'f'][:k],
    lambda k: list(range(k)),
    lambda k: [f'in{i}' for i in range(k)],
    lambda k: [(f'cmd{i}', i) for i in range(k)],
    lambda k: [1, '1', 2, '2', 3, '3'][:k],                       # same text, different inputs
]


def gen_alphabet(sim, lo=1, hi=4):
    k = sim.int(lo, hi) if sim.flip(0.9) else lo
    return ALPHABETS[sim.choose(len(ALPHABETS), p0=0.55)](k)


def fresh(o):
    """an equal object, as a system that computes its outputs returns it"""
    if type(o) is str:
        return ''.join(list(o))
    if type(o) is tuple:
        return tuple([fresh(x) for x in o])
    if type(o) in (int, float):
        return type(o)(repr(o))
    return o


def gen_outputs(sim, lo=2, hi=4, none_ok=False):
    k = sim.int(lo, hi)
    kind = sim.choose(7, p0=0.5)
    if kind == 5:
        return ['door open', 'door closed', 'alarm 1', 'alarm 2'][:k]
    if kind == 6:
        return [(0, 'x'), (), 1000, -2.75][:k]
    if kind == 4:
        return [1, '1', 'None', '0'][:k]                  # outputs that only differ in type
    if kind == 0:
        return [f'o{i}' for i in range(k)]
    if kind == 1:
        return list(range(k))
    if kind == 2:
        return [''] + [f'x{i}' for i in range(1, k)]      # falsy outputs are legal outputs
    return ([None] + [False, True, 'z'][:k - 1]) if none_ok else [False, 0.5, 'z', -1][:k]


def gen_ref(sim, kind=None, max_states=8, alphabet=None, outputs=None, min_alpha=1, max_alpha=4, plain_out=False,
            big=0.0):
    """Random minimal reachable machine; shapes chosen so that distinguishing sequences are sometimes long."""
    kind = kind or sim.pick(['dfa', 'moore', 'mealy'])
    if big and sim.flip(big):
        max_states, max_alpha = max_states * 2 + 2, max_alpha + 2
        sim.features['big system'] = True
    alphabet = alphabet or gen_alphabet(sim, min_alpha, max_alpha)
    n = sim.int(1, max_states)
    if kind == 'dfa':
        outputs = [False, True]
    elif outputs is None:
        outputs = [f'o{i}' for i in range(sim.int(2, 4))] if plain_out else gen_outputs(sim)
    shape = sim.choose(4)
    delta = []
    for s in range(n):
        row = {}
        for j, a in enumerate(alphabet):
            if shape == 0:
                row[a] = sim.choose(n)
            elif shape == 1:      # chain / counter: one letter advances, others mostly stay or reset
                row[a] = (s + 1) % n if j == 0 else (s if sim.flip(0.6) else sim.choose(n))
            elif shape == 2:      # combination lock: one right letter per state, others back to start
                right = sim.choose(len(alphabet)) if j == 0 else row.get('__r')
                if j == 0:
                    row['__r'] = right
                row[a] = (s + 1) % n if j == row['__r'] else 0
            else:                 # tree-like, spread out
                row[a] = (s * len(alphabet) + j + 1) % n if sim.flip(0.7) else sim.choose(n)
        row.pop('__r', None)
        delta.append(row)
    if kind == 'mealy':
        if shape in (1, 2) and sim.flip(0.6):   # outputs differ at one place only
            out = [{a: outputs[0] for a in alphabet} for _ in range(n)]
            out[n - 1][alphabet[sim.choose(len(alphabet))]] = outputs[1]
        else:
            out = [{a: outputs[sim.choose(len(outputs))] for a in alphabet} for _ in range(n)]
        return minimise(Ref(kind, alphabet, delta, out=out))
    if shape in (1, 2) and sim.flip(0.6):
        lab = [outputs[0]] * n
        lab[n - 1] = outputs[1]
    else:
        lab = [outputs[sim.choose(len(outputs))] for _ in range(n)]
    return minimise(Ref(kind, alphabet, delta, lab=lab))


class BadModel(Exception):
    pass


def model_view(model, kind, alphabet):
    """Reads a learned dfa/moore/mealy through its public structure into a Ref-like view over state objects."""
    states = list(model.states)
    index = {id(s): i for i, s in enumerate(states)}
    if len(index) != len(states):
        raise BadModel('a state object occurs twice in model.states')
    if id(model.initial_state) not in index:
        raise BadModel('initial state is not among model.states')
    order = [model.initial_state] + [s for s in states if s is not model.initial_state]
    num = {id(s): i for i, s in enumerate(order)}
    delta, out, lab = [], [], []
    for s in order:
        row, orow = {}, {}
        for a in alphabet:
            if a not in s.transitions:
                raise BadModel(f'state {s.state_id!r} has no transition for input {a!r}')
            t = s.transitions[a]
            if id(t) not in num:
                raise BadModel(f'transition {s.state_id!r} --{a!r}--> leaves the model')
            row[a] = num[id(t)]
            if kind == 'mealy':
                if a not in s.output_fun:
                    raise BadModel(f'state {s.state_id!r} has no output for input {a!r}')
                orow[a] = s.output_fun[a]
        for a in s.transitions:
            if a not in row:
                raise BadModel(f'state {s.state_id!r} has a transition for {a!r}, which is no input of the system')
        delta.append(row)
        out.append(orow)
        lab.append(None if kind == 'mealy' else (s.is_accepting if kind == 'dfa' else s.output))
    return Ref(kind, alphabet, delta, out=out if kind == 'mealy' else None, lab=lab if kind != 'mealy' else None)


def same(x, y):
    return x == y and type(x) is type(y)


def difference(a, b):
    """Shortest word on which two Refs over the same alphabet differ at the last symbol; () if their initial labels
    differ; None if equivalent."""
    if a.kind != 'mealy' and a.lab[0] != b.lab[0]:
        return ()
    seen = {(0, 0)}
    q = deque([((0, 0), ())])
    while q:
        (s, t), w = q.popleft()
        for x in a.alphabet:
            s2, o1 = a.step_from(s, x)
            t2, o2 = b.step_from(t, x)
            if o1 != o2:
                return w + (x,)
            if (s2, t2) not in seen:
                seen.add((s2, t2))
                q.append(((s2, t2), w + (x,)))
    return None


def differing_pairs(a, b):
    """For every reachable pair of the product: length of the shortest differing word from it (missing: none)."""
    seen = {(0, 0)}
    order = [(0, 0)]
    edges = {}
    dist = {}
    for p in order:
        s, t = p
        succ = []
        for x in a.alphabet:
            s2, o1 = a.step_from(s, x)
            t2, o2 = b.step_from(t, x)
            if o1 != o2:
                dist[p] = 1
                succ.append((x, None))
            else:
                succ.append((x, (s2, t2)))
                if (s2, t2) not in seen:
                    seen.add((s2, t2))
                    order.append((s2, t2))
        edges[p] = succ
    changed = True
    while changed:
        changed = False
        for p in order:
            for x, q in edges[p]:
                if q is not None and q in dist and dist[q] + 1 < dist.get(p, 1 << 30):
                    dist[p] = dist[q] + 1
                    changed = True
    return edges, dist


def shape(model):
    """Structure of a model, independent of the order in which transitions are stored."""
    num, todo, out = {id(model.initial_state): 0}, [model.initial_state], []
    for s in todo:
        row = []
        edges = []
        for a, l in s.transitions.items():
            for e in l if isinstance(l, list) else [l]:
                t, rest = e, ()
                if isinstance(e, tuple):
                    t = next(x for x in e if hasattr(x, 'transitions'))
                    rest = tuple(x for x in e if not hasattr(x, 'transitions'))
                o = getattr(s, 'output_fun', {}).get(a) if hasattr(s, 'output_fun') else getattr(t, 'output', None)
                edges.append((repr((a, o, rest)), t))
        for k, t in sorted(edges, key=lambda x: x[0]):
            if id(t) not in num:
                num[id(t)] = len(num)
                todo.append(t)
            row.append((k, num[id(t)]))
        out.append((repr(getattr(s, 'output', None)), row))
    return out
