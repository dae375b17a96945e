"""Reference one-module single-entry visibly pushdown machines and an exact teacher for them (no code under test)."""
from aalpy.base import Oracle

from .core import Violation
from .models import BadModel


class _Lab:
    def __init__(self, ref):
        self.ref = ref

    def __getitem__(self, state):
        return self.ref.accepting(state)


class VRef:
    """Complete machine: a call pushes (state, letter) and enters the module at state 0; a return pops and moves by
    (state, return letter, popped pair); accepting only with an empty stack; a return on the empty stack is fatal."""
    kind = 'vpa'

    def __init__(self, internal, calls, returns, acc, din, dret, exclusive=None):
        self.internal, self.calls, self.returns = internal, calls, returns
        self.alphabet = internal + calls + returns
        self.acc, self.din, self.dret, self.exclusive = acc, din, dret, exclusive
        self.lab = _Lab(self)

    @property
    def n(self):
        return len(self.acc)

    def describe(self):
        return f'vpa int {self.internal} call {self.calls} ret {self.returns} excl {self.exclusive} ' + ' | '.join(
            f'{s}[{self.acc[s]}] {self.din[s]} {self.dret[s]}' for s in range(self.n))

    def accepting(self, state):
        if state is None:
            return False
        if state == 0:
            state = (0, ())
        return self.acc[state[0]] and not state[1]

    def step_from(self, state, a):
        if state is None:
            return None, False
        s, st = (0, ()) if state == 0 else state
        if a in self.internal:
            n = (self.din[s][a], st)
        elif a in self.calls:
            n = (0, st + ((s, a),))
        elif not st:
            n = None
        elif self.exclusive and self.exclusive[st[-1][1]] != a:
            n = None
        else:
            n = (self.dret[s][(a, st[-1])], st[:-1])
        return n, self.accepting(n)

    def run(self, word):
        s, out = 0, []
        for a in word:
            s, o = self.step_from(s, a)
            out.append(o)
        return out

    def pop(self, s, r, q, c):
        if q is None or s is None or (self.exclusive and self.exclusive[c] != r):
            return None
        return self.dret[s][(r, (q, c))]

    def minimal_size(self):
        """-> (states of the minimal complete machine, has a dead state). Congruence over well-matched words: every
        context (as running state and as pushed state) counts; None stands for the fatal state."""
        reach, todo = {0}, True
        dead = False
        while todo:
            todo = False
            for s in list(reach):
                for a in self.internal:
                    t = self.din[s][a]
                    if t not in reach:
                        reach.add(t)
                        todo = True
                for c in self.calls:
                    for q in list(reach):
                        for r in self.returns:
                            t = self.pop(s, r, q, c)
                            if t is None:
                                dead = True
                            elif t not in reach:
                                reach.add(t)
                                todo = True
        states = sorted(reach) + ([None] if dead else [])
        cls = {s: (s is not None and self.acc[s]) for s in states}
        nxt = lambda s, a: None if s is None else self.din[s][a]
        while True:
            sig = {}
            for s in states:
                sig[s] = (cls[s], tuple(cls[nxt(s, a)] for a in self.internal),
                          tuple(cls[self.pop(s, r, q, c)] for r in self.returns for c in self.calls for q in states),
                          tuple(cls[self.pop(q, r, s, c)] for r in self.returns for c in self.calls for q in states))
            ids = {}
            new = {s: ids.setdefault(sig[s], len(ids)) for s in states}
            if len(ids) == len(set(cls.values())):
                break
            cls = new
        # a dead class: not accepting, closed under everything
        k = len(set(cls.values()))
        isdead = False
        for s in states:
            if s is not None and self.acc[s]:
                continue
            ok = all(cls[nxt(s, a)] == cls[s] for a in self.internal)
            ok = ok and all(cls[self.pop(s, r, q, c)] == cls[s] and cls[self.pop(q, r, s, c)] == cls[s]
                            for r in self.returns for c in self.calls for q in states)
            isdead = isdead or ok
        return k, isdead


def gen_vref(sim, max_states=5, style=None):
    from .models import gen_alphabet
    ni, nc, nr = sim.int(0, 2), sim.int(1, 2), sim.int(1, 2)
    if sim.flip(0.1):
        nc = nr = 0
        ni = max(1, ni)
    exclusive = None
    style = sim.choose(2, p0=0.7) if style is None else style
    name = (lambda p, i: f'{p}{i}') if style == 0 else (lambda p, i: (p, i))
    internal = [name('i', k) for k in range(ni)]
    calls = [name('c', k) for k in range(nc)]
    if nc and sim.flip(0.3):
        nr = nc
        exclusive = {name('c', k): name('r', k) for k in range(nc)}
    returns = [name('r', k) for k in range(nr)]
    n = sim.int(1, max_states)
    sink = n - 1 if n > 1 and sim.flip(0.6) else None
    p_sink = [0.0, 0.3, 0.7][sim.choose(3)] if sink is not None else 0.0
    acc = [sim.flip(0.4) for _ in range(n)]
    if sink is not None:
        acc[sink] = False

    def target():
        if sink is not None and sim.flip(p_sink):
            return sink
        return sim.choose(n)
    din = [{a: (sink if s == sink else target()) for a in internal} for s in range(n)]
    dret = [{(r, (q, c)): (sink if s == sink or q == sink else target()) for r in returns for q in range(n) for c in calls}
            for s in range(n)]
    return VRef(internal, calls, returns, acc, din, dret, exclusive)


class VView:
    """A Sevpa object read through its public structure."""

    def __init__(self, model, ref):
        self.model, self.ref = model, ref
        ids = {id(s) for s in model.states}
        if len(ids) != len(model.states):
            raise BadModel('a state object occurs twice in model.states')
        if id(model.initial_state) not in ids:
            raise BadModel('initial state is not among model.states')
        if len({s.state_id for s in model.states}) != len(model.states):
            raise BadModel('two states have the same state_id')
        self.states, self.init = list(model.states), model.initial_state
        self.by_id = {s.state_id: s for s in self.states}
        self.tin, self.tret = {}, {}
        for s in self.states:
            for a, ts in s.transitions.items():
                for t in ts:
                    if a not in ref.alphabet or t.letter != a:
                        raise BadModel(f'{s.state_id} has a transition for {a!r}/{t.letter!r}, which is no input of the system')
                    if id(t.target_state) not in ids:
                        raise BadModel(f'transition {s.state_id} --{a!r}--> leaves the model')
                    if a in ref.internal:
                        key, tab = (id(s), a), self.tin
                    elif a in ref.returns:
                        g = t.stack_guard
                        if g[0] not in self.by_id or g[1] not in ref.calls:
                            raise BadModel(f'{s.state_id} pops {g!r}, which is never pushed')
                        key, tab = (id(s), a, g[0], g[1]), self.tret
                    else:
                        raise BadModel(f'{s.state_id} has a transition for the call {a!r}')
                    if key in tab and tab[key] is not t.target_state:
                        raise BadModel(f'{s.state_id} has two transitions for {key[1:]!r}')
                    tab[key] = t.target_state

    def internal(self, h, a):
        return None if h is None else self.tin.get((id(h), a))

    def pop(self, h, r, q, c):
        return None if h is None or q is None else self.tret.get((id(h), r, q.state_id, c))

    def acc(self, h):
        return h is not None and h.is_accepting

    def run(self, word):
        h, st, out = self.init, [], []
        dead = False
        for a in word:
            if not dead:
                if a in self.ref.internal:
                    h = self.internal(h, a)
                elif a in self.ref.calls:
                    st.append((h, a))
                    h = self.init
                elif not st:
                    h = None
                else:
                    q, c = st.pop()
                    h = self.pop(h, a, q, c)
                dead = h is None
            out.append(not dead and not st and self.acc(h))
        return out


def product(ref, view, sim=None, cap=80):
    """All pairs (system state, model state) reachable by well-matched words, each with one such word.
    sim given: derivations in scheduler order (long, nested words), otherwise shortest words first."""
    import heapq
    key = lambda p: (p[0], id(p[1]))
    R, words, order = {}, {}, []
    if sim is None:
        cnt = 0
        heap = [(0, 0, (0, view.init), ())]
        while heap:
            _, _, p, w = heapq.heappop(heap)
            if key(p) in R:
                continue
            R[key(p)] = p
            words[key(p)] = w
            order.append(p)
            new = []
            for a in ref.internal:
                new.append(((None if p[0] is None else ref.din[p[0]][a], view.internal(p[1], a)), w + (a,)))
            for q in order:
                for c in ref.calls:
                    for r in ref.returns:
                        for caller, body in ((p, q), (q, p)):
                            t = (ref.pop(body[0], r, caller[0], c), view.pop(body[1], r, caller[1], c))
                            new.append((t, words[key(caller)] + (c,) + words[key(body)] + (r,)))
            for t, tw in new:
                if key(t) not in R:
                    cnt += 1
                    heapq.heappush(heap, (len(tw), cnt, t, tw))
        return [(p, words[key(p)]) for p in order]
    start = (0, view.init)
    pool = [(start, ())]
    for _ in range(sim.int(1, 60)):
        p, w = pool[sim.choose(len(pool))]
        k = sim.choose(2) if ref.internal and ref.calls else (0 if ref.internal else 1)
        if k == 0:
            a = ref.internal[sim.choose(len(ref.internal))]
            t, tw = (None if p[0] is None else ref.din[p[0]][a], view.internal(p[1], a)), w + (a,)
        else:
            b, bw = pool[sim.choose(len(pool))]
            c, r = ref.calls[sim.choose(len(ref.calls))], ref.returns[sim.choose(len(ref.returns))]
            t, tw = (ref.pop(b[0], r, p[0], c), view.pop(b[1], r, p[1], c)), w + (c,) + bw + (r,)
        if len(tw) <= cap:
            pool.append((t, tw))
    return pool


def difference_v(ref, view, sim=None):
    """a word ending at the first difference of system and model, or None"""
    bad = lambda p: (p[0] is not None and ref.acc[p[0]]) != view.acc(p[1])
    if sim is not None:
        pool = product(ref, view, sim)
        c = [w for p, w in pool if bad(p)]
        if c:
            return first_difference(ref, view, c[sim.choose(len(c))])
    for p, w in product(ref, view):
        if bad(p):
            return first_difference(ref, view, w)
    return None


def first_difference(ref, view, w):
    if ref.acc[0] != view.acc(view.init):
        return ()
    a, b = ref.run(w), view.run(w)
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return w[:i + 1]
    raise RuntimeError(f'reference computation broken: {w!r}')


class VTeacher(Oracle):
    def __init__(self, sim, ref, sul, size, execute=True):
        super().__init__(ref.alphabet, sul)
        self.sim, self.ref, self.size, self.execute = sim, ref, size, execute
        self.sizes = []
        self.wander = sim.flip(0.6)
        self.junk = sim.flip(0.2)

    def find_cex(self, hyp):
        self.sizes.append(len(hyp.states))
        try:
            v = VView(hyp, self.ref)
        except BadModel as e:
            raise Violation('malformed-hypothesis', f'round {len(self.sizes)}: {e}')
        z = self.sizes
        if z[-1] > self.size:
            raise Violation('hypothesis-too-large', f'hypothesis {len(z)} has {z[-1]} states, the system needs {self.size}')
        if len(z) > 1 and z[-1] <= z[-2]:
            raise Violation('no-progress', f'a counterexample was processed, but hypothesis sizes are {z}')
        w = difference_v(self.ref, v, self.sim if self.wander else None)
        if w == ():
            raise Violation('wrong-initial-output', 'hypothesis and system disagree on the empty word')
        self.sim.log('EQ', len(hyp.states), w)
        if w is None:
            return None
        if self.execute:
            self.reset_hyp_and_sul(hyp)
            for a in w:
                ho = hyp.step(a)
                self.num_steps += 1
                so = self.sul.step(a)
            self.sul.post()
            if ho == so:
                raise Violation('model-steps-differently', f'on {w!r} the stepped hypothesis answers {ho!r}; by its transitions it '
                                                           f'must differ from the system')
        return tuple(w)
