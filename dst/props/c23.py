"""C23: a model that is executed answers by its structure, whatever was done with it before."""
import copy
import pickle
import random

from aalpy.SULs import AutomatonSUL
from aalpy.oracles import RandomWordEqOracle, StatePrefixEqOracle, WMethodEqOracle
from aalpy.utils import bisimilar, compare_automata, generate_test_cases

from ..core import Violation, SutError
from .c11 import TYPES, alter, build, view, diff

DETERMINISTIC = ('dfa', 'moore', 'mealy')
LABELLED = ('dfa', 'moore', 'mdp', 'sevpa', 'vpa')          # answer the empty word
RANDOM = ('onfsm', 'ndmoore', 'mdp', 'smm', 'mc')
COPYABLE = ('dfa', 'moore', 'mealy', 'ndmoore', 'mdp', 'smm', 'sevpa', 'vpa')


class Meaning:
    """Executable definition of all ten model types, over plain data taken from the model before it was used.

    A configuration is (state id, stack); stack is None once a pushdown automaton got stuck.
    """

    def __init__(self, model, kind):
        self.kind = kind
        self.view = view(model, kind)
        self.initial = self.view[0]
        self.label = {s: lab for s, (lab, _) in self.view[1].items()}
        self.rows = {s: rows for s, (_, rows) in self.view[1].items()}
        self.letters, self.calls = [], []
        if kind == 'mc':
            self.letters = ['tick']
        for s in self.rows:
            for r in (self.rows[s] if kind != 'mc' else ()):
                if r[0] not in self.letters:
                    self.letters.append(r[0])
                if kind == 'sevpa' and r[4] is not None and r[4][1] not in self.calls:
                    self.calls.append(r[4][1])
        self.letters += [c for c in self.calls if c not in self.letters]

    def start(self, state=None):
        return (self.initial if state is None else state, ())

    def defined(self, conf, a):
        return self.kind in ('mc', 'sevpa', 'vpa') or any(r[0] == a for r in self.rows[conf[0]])

    def everywhere(self):
        return [a for a in self.letters if all(self.defined((s, ()), a) for s in self.rows)]

    def label_of(self, conf):
        if self.kind in ('sevpa', 'vpa'):
            return conf[1] == () and self.label[conf[0]]
        return self.label[conf[0]]

    def step(self, conf, a):
        """-> [(probability or None, next configuration, output)]; [] if the input is not defined there"""
        s, stack = conf
        k, rows = self.kind, self.rows[s]
        if k == 'mc':
            if not rows:
                return [(1.0, conf, self.label[s])]
            return [(p, (t, ()), self.label[t]) for t, p in rows]
        if k in ('dfa', 'moore'):
            return [(None, (r[1], ()), self.label[r[1]]) for r in rows if r[0] == a]
        if k == 'mealy':
            return [(None, (r[1], ()), r[2]) for r in rows if r[0] == a]
        if k == 'onfsm':
            return [(None, (r[2], ()), r[1]) for r in rows if r[0] == a]
        if k == 'ndmoore':
            return [(None, (r[1], ()), self.label[r[1]]) for r in rows if r[0] == a]
        if k == 'mdp':
            return [(r[2], (r[1], ()), self.label[r[1]]) for r in rows if r[0] == a]
        if k == 'smm':
            return [(r[3], (r[1], ()), r[2]) for r in rows if r[0] == a]
        stuck = [(None, (s, None), False)]
        if stack is None:
            return stuck
        if k == 'sevpa' and a in self.calls:
            return [(None, (self.initial, stack + ((s, a),)), False)]
        for letter, _, target, action, guard in rows:
            if letter != a:
                continue
            if action == 'push':
                return [(None, (target, stack + (guard,)), False)]
            if action is None:
                new = (target, stack)
            elif stack and stack[-1] == guard:
                new = (target, stack[:-1])
            else:
                continue
            return [(None, new, self.label_of(new))]
        return stuck

    def reachable(self, s, t):
        """length of the shortest path, None if there is none (deterministic types)"""
        dist, q = {s: 0}, [s]
        for x in q:
            for r in self.rows[x]:
                if r[1] not in dist:
                    dist[r[1]] = dist[x] + 1
                    q.append(r[1])
        return dist.get(t)

    def distinguishable(self, s, t, letters):
        """length of the shortest distinguishing sequence, None if there is none (deterministic, all letters defined)"""
        seen, q = {(s, t)}, [(s, t, 0)]
        for x, y, d in q:
            for a in letters:
                (_, x2, o1), = self.step((x, ()), a)
                (_, y2, o2), = self.step((y, ()), a)
                if o1 != o2:
                    return d + 1
                if (x2[0], y2[0]) not in seen:
                    seen.add((x2[0], y2[0]))
                    q.append((x2[0], y2[0], d + 1))
        return None


class World:
    def __init__(self, sim, model, kind):
        self.sim, self.kind = sim, kind
        self.mean = Meaning(model, kind)
        self.adopt(model)
        self.steps = self.faults = 0

    def adopt(self, model):
        self.m = model
        self.sul = AutomatonSUL(model)
        self.conf = None                     # unknown until the first reset
        self.session = False

    def state(self, sid):
        for s in self.m.states:
            if s.state_id == sid:
                return s
        raise Violation('state-lost', f'no state {sid!r} in the model')

    def where(self):
        """the position of a model with random choices is read from current_state"""
        return self.m.current_state.state_id

    def follow(self, a, o, what):
        """One observed output: the configuration after it."""
        options = [(c, out) for _, c, out in self.mean.step(self.conf, a)]
        fits = [c for c, out in options if out == o and type(out) is type(o)]
        if not fits:
            raise Violation('wrong-output', f'{what}: {a!r} in {self.conf!r} answered {o!r}, possible: {[x[1] for x in options]!r}')
        if self.kind in RANDOM:
            at = self.where()
            fits = [c for c in fits if c[0] == at]
            if not fits:
                raise Violation('wrong-state', f'{what}: {a!r} in {self.conf!r} answered {o!r} and went to {at!r}: {options!r}')
        self.conf = fits[0]
        self.steps += 1

    def follow_all(self, start, word, outs, what):
        """A complete execution whose intermediate states were not seen."""
        if len(outs) != len(word):
            raise Violation('wrong-output', f'{what}: {len(word)} inputs, answers {outs!r}')
        confs = [start]
        for a, o in zip(word, outs):
            nxt = []
            for c in confs:
                for _, c2, out in self.mean.step(c, a):
                    if out == o and type(out) is type(o) and c2 not in nxt:
                        nxt.append(c2)
            if not nxt:
                raise Violation('wrong-output', f'{what}: {list(word)!r} from {start!r} answered {outs!r}')
            confs = nxt
        self.steps += len(word)
        return confs

    def settle(self, confs, what):
        if self.kind in RANDOM:
            confs = [c for c in confs if c[0] == self.where()]
            if not confs:
                raise Violation('wrong-state', f'{what}: ends in {self.where()!r}')
        self.conf = confs[0]

    # -- operations -----------------------------------------------------------------------------------------------
    def reset(self):
        got = self.sim.sut(self.m.reset_to_initial)
        if got is not None and self.kind in ('sevpa', 'vpa') and bool(got) != bool(self.mean.label[self.mean.initial]):
            raise Violation('wrong-answer', f'reset_to_initial returned {got!r} for the empty word')
        self.conf = self.mean.start()

    def one_step(self, through):
        a = self.pick_letter()
        call = self.sul.step if through else self.m.step
        if not self.mean.defined(self.conf, a):
            return self.undefined(call, a)
        o = self.sim.sut(call, a)
        self.sim.log('step', a, o)
        self.follow(a, o, 'AutomatonSUL.step' if through else 'step')

    def pick_letter(self):
        L = self.mean.letters
        return L[self.sim.choose(len(L))] if L else 'tick'

    def undefined(self, call, a):
        """An input without transition is refused and leaves everything as it is."""
        self.sim.fault('input that is not defined in the state')
        try:
            o = call(a)
        except Exception as e:
            self.sim.log('refused', a, type(e).__name__)
        else:
            raise Violation('undefined-input-answered', f'{self.kind}: {a!r} is not defined in {self.conf!r}, answered {o!r}')
        if self.where() != self.conf[0]:
            raise Violation('wrong-state', f'refused input {a!r} moved the model from {self.conf!r} to {self.where()!r}')

    def empty(self, through):
        o = self.sim.sut(self.sul.step if through else self.m.step, None)
        want = self.mean.label_of(self.conf)
        if o != want or type(o) is not type(want):
            raise Violation('wrong-output', f'empty step in {self.conf!r} answered {o!r}, not {want!r}')

    def step_to(self):
        kind, m = self.kind, self.mean
        a = self.pick_letter()
        if kind == 'mc':
            pool = sorted({lab for lab in m.label.values()}, key=repr)
            o = pool[self.sim.choose(len(pool))]
            options = [c for _, c, out in m.step(self.conf, a) if out == o] if m.rows[self.conf[0]] else []
            got = self.sim.sut(self.m.step_to, o)
        else:
            pool = sorted({repr(x): x for s in m.rows for b in m.letters for _, _, x in m.step((s, ()), b)}.items())
            o = pool[self.sim.choose(len(pool))][1]
            options = [c for _, c, out in m.step(self.conf, a) if out == o]
            got = self.sim.sut(self.m.step_to, a, o)
        self.sim.log('step_to', a, o, got)
        if not options:
            if got is not None or self.where() != self.conf[0]:
                raise Violation('wrong-output', f'step_to({a!r}, {o!r}) in {self.conf!r}: {got!r}, now in {self.where()!r}; impossible there')
            return
        if got != o or self.where() not in [c[0] for c in options]:
            raise Violation('wrong-output', f'step_to({a!r}, {o!r}) in {self.conf!r}: {got!r}, now in {self.where()!r}, not {options!r}')
        self.conf = (self.where(), ())

    def word(self, letters, lo=0, hi=8):
        return tuple(letters[self.sim.choose(len(letters))] for _ in range(self.sim.int(lo, hi))) if letters else ()

    def execute(self):
        letters = self.mean.everywhere()
        start = None
        if self.kind not in ('sevpa', 'vpa') and self.sim.flip(0.5):
            start = self.some_state()
        w = self.word(letters)
        outs = self.sim.sut(self.m.execute_sequence, self.m.initial_state if start is None else self.state(start), w)
        self.sim.log('execute', start, w, outs)
        self.settle(self.follow_all(self.mean.start(start), w, outs, 'execute_sequence'), 'execute_sequence')

    def some_state(self):
        ids = list(self.mean.rows)
        return ids[self.sim.choose(len(ids))]

    def query(self):
        letters = self.mean.everywhere()
        w = self.word(letters, 0 if self.kind in LABELLED else 1)
        if not w and self.kind not in LABELLED:
            return
        before = self.sul.num_queries, self.sul.num_steps
        io = self.sim.flip(0.2) and w
        outs = self.sim.sut(self.sul.io_query if io else self.sul.query, w)
        self.sim.log('query', w, outs)
        if io:
            if [x for x, _ in outs] != list(w):
                raise Violation('wrong-output', f'io_query({w!r}) is {outs!r}')
            outs = [o for _, o in outs]
        if w:
            self.settle(self.follow_all(self.mean.start(), w, outs, 'query'), 'query')
        else:
            want = self.mean.label_of(self.mean.start())
            if outs != [want] or type(outs[0]) is not type(want):
                raise Violation('wrong-output', f'query of the empty word answered {outs!r}, not {want!r}')
            self.conf = self.mean.start()
        if (self.sul.num_queries, self.sul.num_steps) != (before[0] + 1, before[1] + len(w)):
            raise Violation('wrong-count', f'{before} queries and steps became {(self.sul.num_queries, self.sul.num_steps)} by {w!r}')

    def look(self):
        """Questions about a deterministic model, which must not disturb an execution."""
        m, mean = self.m, self.mean
        letters = mean.everywhere()
        what = self.sim.choose(6)
        s, t = self.some_state(), self.some_state()
        if what == 0 and letters:
            a = letters[self.sim.choose(len(letters))]
            o = self.sim.sut(m.output_step, self.state(s), a)
            if o != mean.step((s, ()), a)[0][2]:
                raise Violation('wrong-answer', f'output_step({s!r}, {a!r}) is {o!r}')
        elif what == 1:
            w = self.word(letters)
            outs = self.sim.sut(m.compute_output_seq, self.state(s), w)
            if not w:
                want = [] if self.kind == 'mealy' else [mean.label[s]]
                if outs != want:
                    raise Violation('wrong-answer', f'compute_output_seq({s!r}, ()) is {outs!r}')
            else:
                self.follow_all((s, ()), w, outs, 'compute_output_seq')
        elif what == 2 and self.sim.flip(0.1):
            alien = copy.copy(self.state(t))
            p = self.sim.sut(m.get_shortest_path, *((self.state(s), alien) if self.sim.flip(0.5) else (alien, self.state(s))))
            if p is not None:
                raise Violation('wrong-answer', f'path {p!r} between a state of the model and one that is not')
        elif what == 2:
            p = self.sim.sut(m.get_shortest_path, self.state(s), self.state(t))
            d = mean.reachable(s, t)
            if (p is None) != (d is None) or (p is not None and (len(p) != d or self.run((s, ()), p) != t)):
                raise Violation('wrong-answer', f'shortest path from {s!r} to {t!r}: {p!r}, length should be {d!r}')
        elif what == 3 and letters:
            w = self.sim.sut(m.find_distinguishing_seq, self.state(s), self.state(t), letters)
            d = mean.distinguishable(s, t, letters)
            if (w is None) != (d is None) or (w is not None and (len(w) != d or self.last((s, ()), w) == self.last((t, ()), w))):
                raise Violation('wrong-answer', f'distinguishing sequence of {s!r} and {t!r}: {w!r}, length should be {d!r}')
        elif what == 4:
            self.sim.sut(m.compute_prefixes)
            for x in m.states:
                d = mean.reachable(mean.initial, x.state_id)
                if (x.prefix is None) != (d is None) or (d is not None and (len(x.prefix) != d or self.run(mean.start(), x.prefix) != x.state_id)):
                    raise Violation('wrong-answer', f'prefix of {x.state_id!r} is {x.prefix!r}, length should be {d!r}')
        elif len(letters) == len(mean.letters):
            self.separate()

    def equivalent_states(self):
        mean, ids = self.mean, list(self.mean.rows)
        letters = mean.letters
        return [(x, y) for i, x in enumerate(ids) for y in ids[:i] if mean.distinguishable(x, y, letters) is None and
                (self.kind == 'mealy' or mean.label[x] == mean.label[y])]

    def separate(self):
        """characterization sets"""
        m, mean = self.m, self.mean
        kw, first = {}, None
        if self.sim.flip(0.5):
            first = [self.word(mean.letters, 1, 3) for _ in range(self.sim.int(1, 3))]
            if self.sim.flip(0.3) and self.kind != 'mealy':
                first.insert(0, ())
            kw = dict(char_set_init=first, online_suffix_closure=self.sim.flip(0.5), split_all_blocks=self.sim.flip(0.5))
            given = list(first)
        E = self.sim.sut(m.compute_characterization_set, raise_warning=False, **kw)
        ids = list(mean.rows)
        if first is not None:
            if first != given:
                raise Violation('argument-changed', f'the list {given!r} of the caller became {first!r}')
            if E is not None and any(x not in E for x in given):
                raise Violation('wrong-answer', f'characterization set {E!r} without the sequences asked for, {given!r}')
            if E is not None and kw['online_suffix_closure']:
                for e in E:
                    if e not in given and any(tuple(e[i:]) not in E for i in range(len(e))):
                        raise Violation('wrong-answer', f'characterization set {E!r} ({kw!r}) is not closed under suffixes')
        same = self.equivalent_states()
        if not same and (E is None or (not E and len(ids) > 1)):
            raise Violation('wrong-answer', f'no characterization set for a minimal model ({kw!r}): {E!r}')
        if same and E is not None:
            raise Violation('wrong-answer', f'characterization set {E!r} although {same!r} are equivalent')
        if E:
            for i, x in enumerate(ids):
                for y in ids[:i]:
                    if all(self.outs((x, ()), e) == self.outs((y, ()), e) for e in E):
                        raise Violation('wrong-answer', f'characterization set {E!r} does not separate {x!r} and {y!r}')
        if bool(self.sim.sut(m.is_minimal)) != (not same):
            raise Violation('wrong-answer', f'is_minimal is {bool(same)}, equivalent states: {same!r}')

    def relate(self):
        """the model is compared with a variant of itself, or reduced"""
        m, mean, kind = self.m, self.mean, self.kind
        complete = len(mean.everywhere()) == len(mean.letters)
        what = self.sim.pick(['bisimilar', 'compare', 'minimize', 'connected', 'tests'])
        self.sim.log(what)
        if what == 'connected':
            ids = list(mean.rows)
            want = all(mean.reachable(x, y) is not None for x in ids for y in ids)
            if bool(self.sim.sut(m.is_strongly_connected)) != want:
                raise Violation('wrong-answer', f'is_strongly_connected is {not want}')
            return
        if what == 'tests':
            return self.test_cases() if complete and reached(mean) else None
        if what == 'minimize':
            if not complete:
                return
            same = self.equivalent_states()
            classes = []
            for s in mean.rows:
                for c in classes:
                    if (s, c[0]) in same or (c[0], s) in same:
                        c.append(s)
                        break
                else:
                    classes.append([s])
            before = m.current_state
            self.sim.sut(m.minimize)
            after = Meaning(m, kind)
            if len(m.states) != len(classes) or not any(m.initial_state is s for s in m.states):
                raise Violation('wrongly-minimized', f'{len(classes)} classes {classes!r}, states {[s.state_id for s in m.states]}, initial {m.initial_state.state_id!r}')
            if any(not any(t is x for x in m.states) for s in m.states for t in s.transitions.values()):
                raise Violation('wrongly-minimized', 'a transition leads to a removed state')
            if different(mean, after, kind) is not None:
                raise Violation('wrongly-minimized', f'the behaviour changed: {different(mean, after, kind)!r}')
            for x in m.states:
                if x.prefix is not None and self.run(after.start(), x.prefix, after) != x.state_id:
                    raise Violation('wrongly-minimized', f'the prefix {x.prefix!r} does not lead to {x.state_id!r}')
                x.prefix = None              # not always a shortest one any more
            self.mean, self.conf = after, None
            self.given = {s.state_id: list(s.transitions) for s in m.states}
            self.adopt(m)
            return
        other = m.copy()
        if self.sim.flip(0.6):
            alter(self.sim, other, kind)
        if kind in ('dfa', 'moore', 'mealy'):
            if self.sim.flip(0.4):
                drop_state(self.sim, other)
            if self.sim.flip(0.08):
                lost = self.sim.pick(mean.letters) if mean.letters else None
                for x in other.states:
                    x.transitions.pop(lost, None)
        om = Meaning(other, kind)
        shape = view(other, kind)
        cex = different(mean, om, kind)
        if what == 'bisimilar':
            a, b = (m, other) if self.sim.flip(0.5) else (other, m)
            r = self.sim.sut(bisimilar, a, b)
            c = self.sim.sut(bisimilar, a, b, return_cex=True)
            if r != (cex is None) or (c is None) != (cex is None) or (a == b) != r:
                raise Violation('wrong-answer', f'bisimilar: {r!r} {c!r}, a difference is {cex!r}')
            if c is not None and not split(mean, om, kind, c):
                raise Violation('wrong-answer', f'bisimilar: {c!r} shows no difference, {cex!r} does')
        elif complete and reached(mean) and reached(om) and om.letters and all(x in om.everywhere() for x in mean.letters) and len(om.letters) == len(mean.letters):
            n = self.sim.int(1, 6)
            if self.sim.flip(0.3):
                for x in m.states + other.states:
                    x.prefix = None
            found = self.sim.sut(compare_automata, m, other, n)
            if len(found) > n or found != sorted(found, key=len) or len({tuple(w) for w in found}) != len(found):
                raise Violation('wrong-answer', f'compare_automata({n}): {found!r}')
            for w in found:
                if not split(mean, om, kind, w):
                    raise Violation('wrong-answer', f'compare_automata: {w!r} shows no difference')
            if not found:
                # every random word of some state shows this one
                for big, test in ((mean, m), (om, other)):
                    if len(big.rows) > len(mean.rows if test is other else om.rows):
                        for x in test.states:
                            ws = words_to(big, x.state_id)
                            if ws and all(any(split(mean, om, kind, w[:i]) for i in range(1, len(w) + 1))
                                          or all(split(mean, om, kind, w + (a,)) for a in mean.letters) for w in ws):
                                raise Violation('wrong-answer', f'compare_automata found nothing, but every word that continues {ws[0]!r} '
                                                                f'shows a difference')
                        self.sim.probe('compared with a smaller automaton')
            # a difference that every, or every second, of the random words shows
            k = len(mean.letters)
            if cex and not found and (k == 1 and len(cex) < 8 or k == 2 and len(cex) == 1):
                raise Violation('wrong-answer', f'compare_automata found nothing, {cex!r} shows a difference')
        elif complete and other.states and set(om.letters) != set(mean.letters):
            try:
                compare_automata(m, other)
            except AssertionError:
                pass
            else:
                raise Violation('wrong-answer', f'automata over {mean.letters!r} and {om.letters!r} were compared')
        if diff(shape, view(other, kind)):
            raise Violation('model-changed', f'{what} changed the other model: {diff(shape, view(other, kind))}')
        self.conf = None                     # the execution of the model was used for the comparison

    def test_cases(self):
        m, mean = self.m, self.mean
        oracle = self.sim.pick([lambda: StatePrefixEqOracle(list(mean.letters), None, walks_per_state=2, walk_len=3),
                                lambda: RandomWordEqOracle(list(mean.letters), None, num_walks=5, min_walk_len=1, max_walk_len=4),
                                lambda: WMethodEqOracle(list(mean.letters), None, max_number_of_states=len(mean.rows))])
        if self.equivalent_states():
            return
        m.compute_prefixes()
        oracle = self.sim.sut(oracle)
        cases = self.sim.sut(generate_test_cases, m, oracle)
        if sum(len(c[0]) for c in cases) != oracle.num_steps or len(cases) > oracle.num_queries:
            raise Violation('wrong-answer', f'{len(cases)} test cases with {sum(len(c[0]) for c in cases)} inputs, the oracle made {oracle.num_steps} steps')
        for ins, outs in cases:
            self.follow_all(mean.start(), ins, outs, 'generate_test_cases')
        self.conf = None

    def outs(self, c, w):
        o = [] if self.kind == 'mealy' else [self.mean.label[c[0]]]
        for a in w:
            _, c, x = self.mean.step(c, a)[0]
            o.append(x)
        return o

    def last(self, c, w):
        return self.outs(c, w)[-1]

    def run(self, c, w, mean=None):
        for a in w:
            nxt = (mean or self.mean).step(c, a)
            if not nxt:
                return None
            c = nxt[0][1]
        return c[0]

    def possible(self):
        """What an observable non-deterministic machine may do, asked of the state."""
        s = self.some_state()
        a = self.pick_letter()
        rows = [r for r in self.mean.rows[s] if r[0] == a]
        st = self.state(s)
        got = [(o, t.state_id) for o, t in self.sim.sut(st.get_transition, a)]
        if got != [(r[1], r[2]) for r in rows]:
            raise Violation('wrong-answer', f'get_transition({a!r}) of {s!r} is {got!r}, not {rows!r}')
        for r in rows:
            t = self.sim.sut(st.get_transition, a, r[1])
            if t is None or not isinstance(t, tuple) or (t[0], t[1].state_id) != (r[1], r[2]):
                raise Violation('wrong-answer', f'get_transition({a!r}, {r[1]!r}) of {s!r} is {t!r}')
        if self.conf is not None:
            got = self.sim.sut(self.m.outputs_on_input, a)
            want = [r[1] for r in self.mean.rows[self.conf[0]] if r[0] == a]
            if got != want:
                raise Violation('wrong-answer', f'outputs_on_input({a!r}) in {self.conf!r} is {got!r}, not {want!r}')

    def alphabet(self):
        got = self.sim.sut(self.m.get_input_alphabet)
        if self.kind in ('sevpa', 'vpa'):
            got = self.sim.sut(got.get_merged_alphabet)
        if sorted(got, key=repr) != sorted(self.mean.letters, key=repr):
            raise Violation('wrong-answer', f'input alphabet {got!r}, the model has {self.mean.letters!r}')
        if self.kind not in ('sevpa', 'vpa'):
            want = len(self.mean.everywhere()) == len(self.mean.letters)
            if bool(self.sim.sut(self.m.is_input_complete)) != want:
                raise Violation('wrong-answer', f'is_input_complete is {not want}')

    def complete(self):
        """make_input_complete adds what is missing, and nothing else"""
        to = self.sim.pick(['self_loop', 'sink_state'])
        if to == 'sink_state' and any(s.state_id == 'sink' for s in self.m.states):
            return
        v = self.mean.view
        letters = self.mean.letters
        rows = {s: (lab, list(r)) for s, (lab, r) in v[1].items()}
        missing = [(s, a) for s in rows for a in letters if not any(x[0] == a for x in rows[s][1])]
        if missing and to == 'sink_state':
            rows['sink'] = ({'dfa': False}.get(self.kind, None if self.kind in ('mealy', 'onfsm', 'smm') else 'sink_state'), [])
            missing += [('sink', a) for a in letters]
        for s, a in missing:
            t = s if to == 'self_loop' else 'sink'
            rows[s][1].append({'mealy': (a, t, 'epsilon'), 'onfsm': (a, 'epsilon', t), 'mdp': (a, t, 1.0),
                               'smm': (a, t, 'epsilon', 1.0)}.get(self.kind, (a, t)))
        self.sim.log('complete', to, missing)
        self.sim.probe('made input complete' if missing else 'was input complete')
        same = self.sim.sut(self.m.make_input_complete, to)
        if same is not None and same is not self.m:
            raise Violation('wrong-answer', f'make_input_complete returned {same!r}')
        got = view(self.m, self.kind)
        norm = lambda x: (x[0], {s: (lab, sorted(r, key=repr)) for s, (lab, r) in x[1].items()})
        want = (v[0], {s: (lab, r) for s, (lab, r) in rows.items()})
        if repr(sorted(norm(got)[1].items(), key=repr)) != repr(sorted(norm(want)[1].items(), key=repr)) or got[0] != v[0]:
            raise Violation('wrongly-completed', f'{to} of {v!r} gave {got!r}')
        conf, self.mean = self.conf, Meaning(self.m, self.kind)
        self.given = {s.state_id: list(s.transitions) for s in self.m.states}

    def duplicate(self):
        """A copy (or one restored from a pickle) replaces the model, or the original stays in use."""
        how = self.sim.pick(['copy', 'pickle', 'deepcopy', 'setup'])
        self.sim.fault('restart from a pickle' if how == 'pickle' else f'duplicate ({how})')
        self.sim.log(how)
        f = {'copy': lambda: self.m.copy(), 'pickle': lambda: pickle.loads(pickle.dumps(self.m)), 'deepcopy': lambda: copy.deepcopy(self.m),
             'setup': lambda: type(self.m).from_state_setup(self.m.to_state_setup(), **(
                 {'init_state_id': self.mean.initial} if self.kind in ('sevpa', 'vpa') else {}))}[how]
        other = self.sim.sut(f)
        if type(other) is not type(self.m):
            raise Violation('wrong-copy', f'{how} of a {self.kind} is a {type(other).__name__}')
        d = diff(self.mean.view, view(other, self.kind))
        if d:
            raise Violation('wrong-copy', f'{how}: {d}')
        if type(other.states) is not list:
            raise Violation('wrong-copy', f'{how}: states are a {type(other.states).__name__}')
        if self.kind in ('dfa', 'mealy', 'moore') and how != 'deepcopy':
            # access sequences are used by oracles: they are those of the model itself
            mean = Meaning(other, self.kind)
            for x in other.states:
                d = mean.reachable(mean.initial, x.state_id)
                if (x.prefix is None) != (d is None) or (d is not None and (len(x.prefix) != d or self.run(mean.start(), x.prefix) != x.state_id)):
                    raise Violation('wrong-copy', f'{how}: the access sequence of {x.state_id!r} is {x.prefix!r}, length should be {d!r}')
        if any(a is b for a in self.m.states for b in other.states if a.state_id != 'ErrorSinkState'):
            raise Violation('wrong-copy', f'{how}: shares states with the original')
        if self.sim.flip(0.5):
            self.adopt(other)

    def unchanged(self, op):
        d = diff(self.mean.view, view(self.m, self.kind))
        if d:
            raise Violation('model-changed', f'{op} changed the model: {d}')
        if self.kind != 'mc':
            for s in self.m.states:
                extra = [a for a in s.transitions if not any(r[0] == a for r in self.mean.rows.get(s.state_id, ()))]
                if extra and self.kind not in ('sevpa', 'vpa') and not all(a in self.given.get(s.state_id, ()) for a in extra):
                    raise Violation('model-changed', f'{op}: state {s.state_id!r} now knows the inputs {extra!r}')
        if self.kind in DETERMINISTIC and self.conf is not None and self.where() != self.conf[0]:
            raise Violation('wrong-state', f'{op}: the model is in {self.where()!r}, should be in {self.conf[0]!r}')


def different(x, y, kind):
    """shortest word on which two deterministic meanings differ: outputs, or an input that only one of them defines; None if there is none"""
    labels = lambda s, t: kind != 'mealy' and x.label[s] != y.label[t]
    if labels(x.initial, y.initial):
        return ()
    seen, todo = {(x.initial, y.initial)}, [((x.initial, ()), (y.initial, ()), ())]
    for s, t, w in todo:
        for a in list(dict.fromkeys(x.letters + y.letters)):
            l, r = x.step(s, a), y.step(t, a)
            if not l and not r:
                continue
            if not l or not r or (kind == 'mealy' and l[0][2] != r[0][2]):
                return w + (a,)
            n = (l[0][1][0], r[0][1][0])
            if labels(*n):
                return w + (a,)
            if n not in seen:
                seen.add(n)
                todo.append((l[0][1], r[0][1], w + (a,)))
    return None


def reached(x):
    return all(x.reachable(x.initial, s) is not None for s in x.rows)


def split(x, y, kind, w):
    """w ends in a difference of two meanings"""
    s, t = x.start(), y.start()
    for i, a in enumerate(w):
        l, r = x.step(s, a), y.step(t, a)
        if not l or not r:
            return bool(l) != bool(r) and i == len(w) - 1
        s, t = l[0][1], r[0][1]
        if i == len(w) - 1 and l[0][2] != r[0][2]:
            return True
    return not w and kind != 'mealy' and x.label[s[0]] != y.label[t[0]]


def words_to(x, state, most=40):
    """all shortest access words of a state; nothing if there are too many"""
    level, seen = [((), x.initial)], {x.initial}
    while level:
        if any(s == state for _, s in level):
            return [w for w, s in level if s == state]
        level = [(w + (a,), x.step((s, ()), a)[0][1][0]) for w, s in level for a in x.letters]
        level = [(w, s) for w, s in level if s not in seen]
        seen |= {s for _, s in level}
        if len(level) > most:
            return None
    return None


def drop_state(sim, m):
    """one state of the model is lost, another one takes its place"""
    if len(m.states) > 1:
        gone = sim.pick([x for x in m.states if x is not m.initial_state])
        stays = sim.pick([x for x in m.states if x is not gone])
        m.states.remove(gone)
        for x in m.states:
            for a, t in list(x.transitions.items()):
                if t is gone:
                    x.transitions[a] = stays


def thin_out(sim, model, kind):
    """some inputs are not defined in some states"""
    if kind == 'mc':
        for s in model.states:
            if sim.flip(0.2):
                s.transitions = []
        return
    if kind in ('onfsm', 'ndmoore', 'mdp', 'smm'):
        for s in model.states:
            for a in list(s.transitions):
                if sim.flip(0.2):
                    del s.transitions[a]


def frequencies(sim, w):
    """The choices of a model are those of its probabilities."""
    m, kind = w.mean, w.kind
    spots = [(s, a) for s in m.rows for a in m.letters if len(m.step((s, ()), a)) > 1]
    if not spots:
        return
    s, a = spots[sim.choose(len(spots))]
    n = 1500
    seen = {}
    st = w.state(s)
    for _ in range(n):
        o = w.m.execute_sequence(st, (a,))[0]
        k = (repr(o), w.where())
        seen[k] = seen.get(k, 0) + 1
    options = m.step((s, ()), a)
    want = {}
    for p, c, o in options:
        k = (repr(o), c[0])
        want[k] = want.get(k, 0.0) + (1.0 / len(options) if p is None else p)
    for k in seen:
        if k not in want:
            raise Violation('wrong-output', f'{a!r} in {s!r} gave {k!r}, possible {want!r}')
    if kind in ('mdp', 'smm', 'mc', 'onfsm'):                # ndmoore makes no promise about frequencies
        for k, p in want.items():
            x = seen.get(k, 0)
            if abs(x - n * p) > 6.5 * (n * p * (1 - p)) ** 0.5 + 6:
                raise Violation('wrong-distribution', f'{a!r} in {s!r}: {k!r} taken {x} times in {n}, probability {p}')
    sim.probe('frequencies compared')
    w.conf = (w.where(), ())


def scenario(sim):
    kind = sim.pick(TYPES)
    model = build(sim, kind)
    if sim.flip(0.3):
        thin_out(sim, model, kind)
    w = World(sim, model, kind)
    w.given = {s.state_id: list(s.transitions) for s in model.states} if kind != 'mc' else {}
    sim.log('model', kind, w.mean.view)
    sim.features.update(kind=kind, states=len(model.states), partial=len(w.mean.everywhere()) < len(w.mean.letters))
    if not w.mean.letters:
        return
    ops = ['reset', 'pre', 'step', 'sul step', 'step', 'sul step', 'step', 'query', 'execute']
    if kind in LABELLED:
        ops += ['empty', 'sul empty']
    if kind in ('onfsm', 'mdp', 'smm', 'mc'):
        ops += ['step_to', 'step_to']
    if kind in DETERMINISTIC:
        ops += ['look', 'look', 'look']
    if kind == 'onfsm':
        ops += ['possible']
    if kind in COPYABLE:
        ops.append('duplicate')
    if kind != 'mc':
        ops.append('alphabet')
    if kind not in ('mc', 'sevpa', 'vpa') and sim.flip(0.4):
        ops.append('complete')
    history = []
    for _ in range(sim.int(8, 40)):
        op = ops[sim.choose(len(ops))]
        if w.conf is None and op in ('step', 'sul step', 'empty', 'sul empty', 'step_to'):
            op = 'reset'
        history.append(op)
        if op == 'reset':
            w.reset()
        elif op == 'pre':
            if w.session and sim.flip(0.5):
                sim.sut(w.sul.post)
            elif w.session:
                sim.fault('session abandoned without post')
            sim.sut(w.sul.pre)
            w.session, w.conf = True, w.mean.start()
        elif op in ('step', 'sul step'):
            w.one_step(op == 'sul step')
        elif op in ('empty', 'sul empty'):
            w.empty(op == 'sul empty')
        elif op == 'step_to':
            w.step_to()
        elif op == 'query':
            w.query()
        elif op == 'execute':
            w.execute()
        elif op == 'look':
            w.look()
        elif op == 'complete':
            w.complete()
        elif op == 'possible':
            w.possible()
        elif op == 'duplicate':
            w.duplicate()
        else:
            w.alphabet()
        w.unchanged(op)
    if kind in RANDOM and sim.flip(0.25):
        frequencies(sim, w)
        w.unchanged('frequencies')
    sim.log('history', history)
    sim.meta['nontrivial'] = w.steps >= 5


RUNS = {'quick': 80_000, 'thorough': 2_000_000}
