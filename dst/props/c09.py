"""C09: learning observable non-deterministic systems: every recorded or legal behaviour is in the model, nothing made up."""
from aalpy.automata import Onfsm, StochasticMealyMachine
from aalpy.base import SUL, Oracle
from aalpy.learning_algs import run_non_det_Lstar
from aalpy.oracles import RandomWordEqOracle, RandomWalkEqOracle

from ..core import Violation, Discard
from ..world import unchanged
from ..models import gen_alphabet


class NRef:
    """Observable non-deterministic machine: trans[s][a] = list of (output, successor), outputs pairwise different."""

    def __init__(self, alphabet, trans):
        self.alphabet, self.trans = alphabet, trans

    @property
    def n(self):
        return len(self.trans)

    def describe(self):
        return ' | '.join(f'{s}: ' + ', '.join(f'{a!r}->{self.trans[s][a]!r}' for a in self.alphabet) for s in range(self.n))

    def accepts(self, ins, outs):
        s = 0
        for a, o in zip(ins, outs):
            nx = [t for x, t in self.trans[s][a] if x == o]
            if not nx:
                return False
            s = nx[0]
        return True


def gen_nref(sim, max_states=4, max_alpha=2, max_out=3, nondet=0.4):
    wide = sim.choose(8, p0=0.75)
    sim.features['wide system'] = wide in (1, 2, 3, 4)
    if wide == 1:
        max_states, nondet = 8, nondet / 2
    elif wide == 2:
        max_alpha, nondet = 4, nondet / 2
    elif wide == 3:
        max_out, nondet = 6, 0.8
    elif wide == 4:
        max_out, nondet, max_states = 5, 0.7, 2
    alphabet = gen_alphabet(sim, 1, max_alpha)
    n = sim.int(1, max_states)
    outs = [list('xyzuvw'), list(range(6)), ['', 'p', 'q', 'r', 's', 't'], [1, '1', 2, '2', 3, '3']][sim.choose(4, p0=0.6)]
    outs = outs[:max(2, sim.int(2, max_out))]
    trans = []
    for s in range(n):
        row = {}
        for a in alphabet:
            k = 1
            while k < len(outs) and sim.flip(nondet):
                k += 1
            row[a] = [(o, sim.choose(n)) for o in sim.shuffle(outs)[:k]]
        trans.append(row)
    reach, seen = [0], {0}
    for s in reach:
        for a in alphabet:
            for _, t in trans[s][a]:
                if t not in seen:
                    seen.add(t)
                    reach.append(t)
    num = {s: i for i, s in enumerate(reach)}
    return NRef(alphabet, [{a: [(o, num[t]) for o, t in trans[s][a]] for a in alphabet} for s in reach])


def nondeterministic(ref):
    return any(len(r[a]) > 1 for r in ref.trans for a in ref.alphabet)


class NSystem(SUL):
    """The scheduler decides every output. Each history node is fair: in every block of visits all outputs appear once;
    `late` outputs join only after some visits (the all-weather assumption is violated for a while)."""

    def __init__(self, sim, ref, late=None, max_steps=250_000):
        super().__init__()
        self.sim, self.ref, self.late, self.max_steps = sim, ref, late, max_steps
        self.nodes = {}
        self.forced = None
        self.traces = []
        self.open = False
        self.steps = 0
        self.easy = False

    def pre(self):
        if self.open:
            raise Violation('overlapping-session', 'pre() while a session is open')
        self.sim.tick(0.01)
        self.s = 0
        self.open = True
        self.tr = []
        self.traces.append(self.tr)

    def post(self):
        self.open = False

    def step(self, a):
        if not self.open:
            raise Violation('step-outside-session', f'input {a!r} executed outside a session')
        self.sim.tick(0.01)
        self.steps += 1
        if self.steps > self.max_steps:
            if self.easy or not nondeterministic(self.ref):
                if self.steps < 20 * self.max_steps:
                    return self.answer(a)
                raise Violation('no-termination', f'more than {self.steps} inputs executed on a {self.ref.n}-state system')
            raise Discard('rare trace: sampling it often enough takes too long')
        return self.answer(a)

    def answer(self, a):
        if a not in self.ref.alphabet:
            raise Violation('unknown-input', f'input {a!r} executed, the alphabet is {self.ref.alphabet!r}')
        opts = self.ref.trans[self.s][a]
        if self.forced:
            o = self.forced.pop(0)
        elif len(opts) == 1:
            o = opts[0][0]
        else:
            key = (tuple(self.tr), a)
            nd = self.nodes.get(key)
            if nd is None:
                nd = self.nodes[key] = [0, [], {x: self.sim.int(0, self.late) for x, _ in opts} if self.late else {}]
                if self.late:
                    nd[2][opts[self.sim.choose(len(opts))][0]] = 0
            if not nd[1]:
                av = [x for x, _ in opts if nd[2].get(x, 0) <= nd[0]]
                nd[1] = self.sim.shuffle(av)
            nd[0] += 1
            o = nd[1].pop()
        self.s = next(t for x, t in opts if x == o)
        self.tr.append((a, o))
        self.sim.log('step', a, o)
        return o


def missing_trace(ref, hyp, wander, sim):
    """A trace of the system the hypothesis has no run for, or None. Which one is a scheduler decision."""
    start = (0, hyp.initial_state)
    key = lambda p: (p[0], id(p[1]))
    order, seen, edges, dist = [start], {key(start)}, {}, {}
    for p in order:
        s, h = p
        succ = []
        for a in ref.alphabet:
            hopts = {}
            for o, t in h.transitions.get(a, []):
                hopts.setdefault(o, t)
            for o, t in ref.trans[s][a]:
                if o in hopts:
                    q = (t, hopts[o])
                    succ.append((a, o, q))
                    if key(q) not in seen:
                        seen.add(key(q))
                        order.append(q)
                else:
                    succ.append((a, o, None))
                    dist[key(p)] = 1
        edges[key(p)] = succ
    changed = True
    while changed:
        changed = False
        for p in order:
            for a, o, q in edges[key(p)]:
                if q is not None and key(q) in dist and dist[key(q)] + 1 < dist.get(key(p), 1 << 30):
                    dist[key(p)] = dist[key(q)] + 1
                    changed = True
    if key(start) not in dist:
        return None
    p, tr, left = start, [], sim.int(0, wander)
    while True:
        succ = edges[key(p)]
        if left:
            opt = [e for e in succ if e[2] is None or key(e[2]) in dist]
            left -= 1
        else:
            d = dist[key(p)]
            opt = [e for e in succ if (e[2] is None and d == 1) or (e[2] is not None and dist.get(key(e[2]), -1) == d - 1)]
        a, o, q = opt[sim.choose(len(opt))]
        tr.append((a, o))
        if q is None:
            return tr
        p = q


class NTeacher(Oracle):
    """Exact for traces: shows a behaviour of the system that the hypothesis lacks, if there is one."""

    def __init__(self, sim, ref, system, wander):
        super().__init__(ref.alphabet, system)
        self.sim, self.ref, self.system, self.rounds, self.wander = sim, ref, system, 0, wander

    def find_cex(self, hyp):
        self.rounds += 1
        check_shape(hyp, self.ref, 'hypothesis')
        if self.rounds > 60:
            raise Violation('too-many-rounds', f'{self.rounds} equivalence queries for {self.ref.n} states')
        tr = missing_trace(self.ref, hyp, self.wander, self.sim)
        self.sim.log('EQ', len(hyp.states), tr)
        if tr is None:
            return None
        self.reset_hyp_and_sul(hyp)
        self.system.forced = [o for _, o in tr]
        for a, o in tr:
            got = self.sul.step(a)
            self.num_steps += 1
            if got != o:
                raise Violation('wrapper-changed-output', f'step {a!r} answered {got!r}, the system produced {o!r}')
        self.system.forced = None
        self.sul.post()
        return [a for a, _ in tr], [o for _, o in tr]


def check_shape(hyp, ref, what):
    ids = {id(s) for s in hyp.states}
    if id(hyp.initial_state) not in ids:
        raise Violation('malformed-' + what, 'initial state is not among the states')
    for s in hyp.states:
        for a in ref.alphabet:
            tr = s.transitions.get(a)
            if not tr:
                raise Violation('malformed-' + what, f'{s.state_id} has no transition for {a!r}')
            outs = [t[0] for t in tr]
            if len(outs) != len(set(outs)):
                raise Violation('not-observable', f'{s.state_id} has two transitions for {a!r} with the same output: {outs!r}')
            for _, t in tr:
                if id(t) not in ids:
                    raise Violation('malformed-' + what, f'{s.state_id} --{a!r}--> leaves the model')


def runs(hyp, tr):
    s = hyp.initial_state
    for a, o in tr:
        nx = [t for x, t in s.transitions.get(a, []) if x == o]
        if not nx:
            return None
        s = nx[0]
    return s


def scenario(sim):
    ref = gen_nref(sim)
    late = sim.int(1, 8) if sim.flip(0.3) else None
    if late:
        sim.fault('outputs appear late')
    system = NSystem(sim, ref, late)
    n_sampling = sim.int(1, 6)
    name = sim.pick(['teacher', 'RandomWord', 'RandomWalk'])
    samples = None
    if sim.flip(0.2):
        samples = []
        for _ in range(sim.int(1, 4)):
            s, ins, outs = 0, [], []
            for _ in range(sim.int(1, 5)):
                a = ref.alphabet[sim.choose(len(ref.alphabet))]
                o, s = ref.trans[s][a][sim.choose(len(ref.trans[s][a]))]
                ins.append(a)
                outs.append(o)
            samples.append((tuple(ins), tuple(outs)))
    stochastic = sim.flip(0.3)
    rounds = None if name == 'teacher' else 12
    sim.log('system', ref.describe())
    sim.log('config', name, late, n_sampling, samples, stochastic)
    sim.features.update(oracle=name, late=bool(late), n=ref.n, stochastic=stochastic, samples=bool(samples), n_sampling=n_sampling)
    # long counterexamples and wide systems can take very long without being stuck
    sim.features['big system'] = bool(late or name == 'RandomWalk')
    eqs = []
    if name == 'teacher':
        wander = 4 if sim.flip(0.5) else 0
        system.easy = not wander and not samples and not late and n_sampling <= 3 and not sim.features['wide system']
        oracle = NTeacher(sim, ref, system, wander)
    elif name == 'RandomWord':
        lo = sim.int(1, 4)
        oracle = RandomWordEqOracle(list(ref.alphabet), system, num_walks=sim.int(1, 30), min_walk_len=lo, max_walk_len=lo + sim.int(0, 4),
                                    reset_after_cex=not sim.flip(0.3))
    else:
        oracle = RandomWalkEqOracle(list(ref.alphabet), system, num_steps=sim.int(1, 120), reset_after_cex=not sim.flip(0.3),
                                    reset_prob=[0.09, 0.5][sim.choose(2)])
    orig = oracle.find_cex

    def known():
        return system.traces + [list(zip(*x)) for x in samples or []]

    def find_cex(hyp):
        # before asking, everything observed so far has to be explained by the hypothesis
        for tr in known():
            if runs(hyp, tr) is None:
                raise Violation('observed-trace-missing', f'the hypothesis of round {len(eqs) + 1} has no run for the observed '
                                                          f'trace {tr!r}')
        for s in hyp.states:
            pre = list(zip(*s.prefix)) if s.prefix[0] else []
            if runs(hyp, pre) is not s:
                raise Violation('wrong-access-trace', f'round {len(eqs) + 1}: the access trace {pre!r} of {s.state_id} does not lead there')
            for a in ref.alphabet if len(eqs) < 6 else []:
                n = sum(1 for t in known() if len(t) > len(pre) and t[:len(pre)] == pre and t[len(pre)][0] == a)
                if n < n_sampling:
                    raise Violation('undersampled', f'round {len(eqs) + 1}: {a!r} was executed only {n} times after {pre!r}, '
                                                    f'n_sampling is {n_sampling}')
        mark = len(system.traces)
        cex = orig(hyp)
        eqs.append(cex)
        if cex is not None:
            ins, outs = cex
            tr = list(zip(ins, outs))
            if len(ins) != len(outs) or not ref.accepts(ins, outs) or not any(t[:len(tr)] == tr for t in system.traces[mark:]):
                raise Violation('false-counterexample', f'{cex!r} was not observed')
            if runs(hyp, tr) is not None or runs(hyp, tr[:-1]) is None:
                raise Violation('false-counterexample', f'{cex!r} does not end at the first step the hypothesis cannot follow')
            sim.probe('counterexample')
        return cex

    oracle.find_cex = find_cex
    alphabet = list(ref.alphabet)
    model = sim.sut(run_non_det_Lstar, alphabet, system, oracle, n_sampling=n_sampling, samples=samples,
                    stochastic=stochastic, max_learning_rounds=rounds, print_level=0)
    unchanged(alphabet=(list(ref.alphabet), alphabet))
    sim.model = model
    if stochastic:
        if not isinstance(model, StochasticMealyMachine):
            raise Violation('wrong-model-type', type(model).__name__)
        view = stochastic_view(model, ref)
    else:
        if not isinstance(model, Onfsm):
            raise Violation('wrong-model-type', type(model).__name__)
        view = model
    check_shape(view, ref, 'model')
    if eqs and eqs[-1] is None:
        # accepted: all observed traces are explained
        for tr in system.traces:
            if runs(view, tr) is None:
                raise Violation('observed-trace-missing', f'the model has no run for the observed trace {tr!r}')
        if name == 'teacher':
            tr = missing_trace(ref, view, 0, sim)
            if tr is not None:
                raise Violation('behaviour-missing', f'the model has no run for {tr!r}')
            sim.probe('accepted by the exact teacher')
    # nothing made up: every output offered anywhere was seen after the access trace of that state
    for s in view.states:
        pin, pout = s.prefix
        pre = list(zip(pin, pout))
        for a in ref.alphabet:
            seen = {t[len(pre)][1] for t in known()
                    if len(t) > len(pre) and t[:len(pre)] == pre and t[len(pre)][0] == a}
            for o, _ in s.transitions[a]:
                if o not in seen:
                    raise Violation('made-up-output', f'state {s.state_id} (reached by {pre!r}) offers output {o!r} for {a!r}, '
                                                      f'observed there: {sorted(seen, key=str)!r}')
            if stochastic:
                cnt = [t[len(pre)][1] for t in known()
                       if len(t) > len(pre) and t[:len(pre)] == pre and t[len(pre)][0] == a]
                cnt = [o for o in cnt if o in [x for x, _ in s.probs[a]]]      # a refuted model may miss the last output
                for o, p in s.probs[a]:
                    if abs(p - cnt.count(o) / len(cnt)) > 1e-9:
                        raise Violation('wrong-probability', f'state {s.state_id} (reached by {pre!r}) gives {o!r} on {a!r} probability '
                                                             f'{p!r}, observed {cnt.count(o)} of {len(cnt)} times')
    sim.meta['nontrivial'] = len(eqs) > 1 or nondeterministic(ref)
    if not nondeterministic(ref) and name == 'teacher' and extra(ref, view):
        raise Violation('made-up-output', 'the model of a deterministic system has additional behaviour')


def stochastic_view(model, ref):
    class S:
        pass
    m = {}
    for s in model.states:
        m[id(s)] = S()
    for s in model.states:
        v = m[id(s)]
        v.state_id, v.prefix, v.transitions, v.probs = s.state_id, s.prefix, {}, {}
        for a, ts in s.transitions.items():
            tot = 0
            for t, o, p in ts:
                if not 0 < p <= 1:
                    raise Violation('bad-probability', f'{s.state_id} --{a!r}/{o!r}--> has probability {p!r}')
                tot += p
            if ts and abs(tot - 1) > 1e-9:
                raise Violation('bad-probability', f'probabilities of {s.state_id} for {a!r} sum up to {tot!r}')
            v.transitions[a] = [(o, m[id(t)]) for t, o, p in ts]
            v.probs[a] = [(o, p) for t, o, p in ts]
    r = S()
    r.states, r.initial_state = [m[id(s)] for s in model.states], m[id(model.initial_state)]
    return r


def extra(ref, hyp):
    seen = {(0, id(hyp.initial_state))}
    q = [(0, hyp.initial_state)]
    for s, h in q:
        for a in ref.alphabet:
            ro = dict(ref.trans[s][a])
            for o, t in h.transitions.get(a, []):
                if o not in ro:
                    return True
                if (ro[o], id(t)) not in seen:
                    seen.add((ro[o], id(t)))
                    q.append((ro[o], t))
    return False


RUNS = {'quick': 12_000, 'thorough': 200_000}
