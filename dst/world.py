"""Simulated parties a learner talks to: the system under learning and the equivalence teacher."""
from aalpy.base import SUL, Oracle

from .core import Violation, SulDown, SulTimeout, Discard
from .models import Ref, fresh, model_view, differing_pairs, BadModel


class SimSUL(SUL):
    """A simulated deterministic system behind the SUL interface.

    It owns the execution history (`words`: one record per session), simulated time, and the injection points: every
    call to pre/step/post can be hit by a fault chosen by the scenario's `injector(point, sul)` callback.
    """

    def __init__(self, sim, ref, injector=None, latency=0.01, max_steps=60_000, check_input=True, name=''):
        super().__init__()
        self.sim, self.ref, self.injector = sim, ref, injector
        self.latency = latency
        self.max_steps = max_steps
        self.name = name
        self.alphabet = set(ref.alphabet)
        self.state = 0
        self.open = False
        self.pre_calls = self.post_calls = self.step_calls = self.none_steps = 0
        self.cur = None                    # current session record: (inputs, outputs)
        self.words = []
        self.step_outside = None           # first step executed outside a session
        self.check_input = check_input
        self.last_event = None

    # -- interface ------------------------------------------------------------------------------------------------
    def pre(self):
        self.last_event = 'pre'
        self.pre_calls += 1
        self.sim.tick(self.latency)
        if self.injector:
            self.injector('pre', self)
        self.sim.log(self.name + 'pre')
        self.state = 0
        self.open = True
        self.cur = ([], [])
        self.words.append(self.cur)

    def post(self):
        self.last_event = 'post'
        self.post_calls += 1
        self.sim.tick(self.latency)
        if self.injector:
            self.injector('post', self)
        self.sim.log(self.name + 'post')
        self.open = False

    def step(self, letter):
        self.last_event = 'step'
        self.step_calls += 1
        self.sim.tick(self.latency)
        if self.step_calls > self.max_steps:
            raise Violation('no-termination', f'more than {self.max_steps} inputs executed on a {self.ref.n}-state '
                                              f'system without finishing')
        if not self.open and self.step_outside is None:
            self.step_outside = letter
        if letter is None:
            if self.ref.kind == 'mealy':
                raise Violation('illegal-input', 'empty-word step executed on a Mealy system')
            self.none_steps += 1
            if self.injector:
                self.injector('step', self)
            o = fresh(self.ref.lab[self.state])
            self.sim.log(self.name + 'step', None, o)
            return o
        try:
            legal = letter in self.alphabet
        except TypeError:
            legal = False
        if not legal:
            raise Violation('illegal-input', f'input {letter!r} is not in the input alphabet')
        if self.injector:
            self.injector('step', self)
        self.state, o = self.ref.step_from(self.state, letter)
        o = self.emit(o)
        if self.cur is not None:
            self.cur[0].append(letter)
            self.cur[1].append(o)
        self.sim.log(self.name + 'step', letter, o)
        return o

    def emit(self, o):
        return fresh(o)


class Teacher(Oracle):
    """Exact equivalence teacher; which valid counterexample it returns is a decision of the simulator.

    Every counterexample ends at the first position where the hypothesis and the system differ.
    """

    def __init__(self, sim, alphabet, sul, ref, kind, max_rounds=None, execute=None, form=None, wander=None,
                 on_query=None):
        super().__init__(alphabet, sul)
        self.sim, self.ref, self.kind = sim, ref, kind
        self.rounds = 0
        self.max_rounds = max_rounds
        self.execute = sim.flip(0.5) if execute is None else execute   # like the shipped oracles: run it on the system
        self.form = sim.choose(2, p0=0.7) if form is None else form    # tuple or list (both documented)
        self.wander = [0, 3, 8, 20][sim.choose(4)] if wander is None else wander
        self.on_query = on_query
        self.sizes = []
        self.answers = []

    def find_cex(self, hypothesis):
        self.rounds += 1
        self.sizes.append(len(hypothesis.states))
        try:
            hyp = model_view(hypothesis, self.kind, self.alphabet)
        except BadModel as e:
            raise Violation('malformed-hypothesis', f'round {self.rounds}: {e}')
        if self.on_query:
            self.on_query(self, hypothesis, hyp)
        if self.max_rounds is not None and self.rounds > self.max_rounds:
            raise Violation('too-many-rounds', f'{self.rounds} equivalence queries for a {self.ref.n}-state system '
                                               f'(hypothesis sizes {self.sizes})')
        cex = self.choose_cex(hyp)
        self.sim.log('EQ', len(hypothesis.states), cex)
        if cex is None:
            self.answers.append(None)
            return None
        self.answers.append(cex)
        if len(cex) > 8:
            self.sim.probe('counterexample longer than 8')
        if self.execute:
            self.reset_hyp_and_sul(hypothesis)
            for a in cex:
                hypothesis.step(a)
                self.num_steps += 1
                self.sul.step(a)
            self.sul.post()
        return list(cex) if self.form else tuple(cex)

    def choose_cex(self, hyp):
        edges, dist = differing_pairs(self.ref, hyp)
        if (0, 0) not in dist:
            if self.kind != 'mealy' and self.ref.lab[0] != hyp.lab[0]:
                raise Violation('wrong-initial-output',
                                f'the hypothesis gives {hyp.lab[0]!r} on the empty word, the system {self.ref.lab[0]!r}')
            return None
        pos, word = (0, 0), []
        left = self.sim.int(0, self.wander) if self.wander else 0
        while True:
            succ = edges[pos]
            if left > 0:
                options = [(x, q) for x, q in succ if q is None or q in dist]
                left -= 1
            else:
                d = dist[pos]
                options = [(x, q) for x, q in succ if (q is None and d == 1) or (q is not None and dist.get(q, -1) == d - 1)]
            x, q = options[self.sim.choose(len(options))]
            word.append(x)
            if q is None:
                return tuple(word)
            pos = q


def unchanged(**args):
    """name=(as given, now): what a user hands to a learner stays as it was"""
    for name, (was, now) in args.items():
        if was != now:
            raise Violation('argument-changed', f'the {name} of the caller was {was!r}, is {now!r}'[:700])
