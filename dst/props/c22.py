"""C22: learning with a human: the interactive oracle does what the user enters, whatever mistakes are made on the way."""
import builtins
import sys

from aalpy.oracles import UserInputEqOracle

from ..core import Violation, SimFault
from ..models import gen_ref, model_view
from ..world import SimSUL, Teacher
from .c01 import learner_config, learn, check_exact

module = sys.modules['aalpy.oracles.UserInputEqOracle']        # the package attribute of this name is the class


class Terminal(SimFault, EOFError):
    pass


class User:
    """Types words into the terminal; `plan` is the counterexample the user has in mind (None: no counterexample)."""

    def __init__(self, sim, ref, sul, mess):
        self.sim, self.ref, self.sul, self.mess = sim, ref, sul, mess
        self.hyp = None
        self.prompts = 0
        self.pending = None
        self.gone = False

    def begin(self, hyp, plan):
        self.hyp, self.plan = hyp, plan
        self.entered = []
        self.queue = []
        self.said = None
        self.executed = 0
        self.mark = len(sys.stdout.getvalue())
        self.last = None
        self.start_sessions = len(self.sul.words)

    def judge_output(self):
        """what was printed since the last prompt"""
        text = sys.stdout.getvalue()[self.mark:]
        self.mark = len(sys.stdout.getvalue())
        if self.last is None:
            return
        kind, x = self.last
        if kind == 'input':
            w = tuple(self.entered)
            a, b = self.ref.run(w)[-1], self.hyp.run(w)[-1]
            if str(a) not in text or str(b) not in text:
                raise Violation('wrong-output-shown', f'after {w!r} the system gives {a!r} and the hypothesis {b!r}, shown was {text!r}')
            if ('Counterexample' in text) != (a != b):
                raise Violation('counterexample-misreported', f'after {w!r} the system gives {a!r} and the hypothesis {b!r}, shown was {text!r}')
            if not self.sul.open or tuple(self.sul.cur[0]) != w:
                raise Violation('wrong-inputs-executed', f'entered {w!r}, executed {self.sul.cur[0]!r} (session open: {self.sul.open})')
        elif kind == 'current inputs':
            if repr(list(self.entered)) not in text:
                raise Violation('wrong-inputs-shown', f'entered {self.entered!r}, shown {text!r}')
        elif kind == 'print alphabet':
            if any(a not in text for a in self.ref.alphabet):
                raise Violation('wrong-alphabet-shown', text)
        elif kind == 'rejected':
            if not text.strip():
                raise Violation('mistake-not-reported', f'{x!r} was accepted silently')
        cur = tuple(self.sul.cur[0]) if self.sul.cur else ()
        if cur != tuple(self.entered):
            raise Violation('wrong-inputs-executed', f'entered {self.entered!r}, executed {cur!r} after {self.last!r}')

    def __call__(self, prompt=''):
        sim = self.sim
        self.prompts += 1
        if self.prompts > 3000:
            raise Violation('no-termination', 'more than 3000 prompts')
        self.judge_output()
        x = self.next()
        sim.log('user', x)
        sim.tick(2.0)
        if x is None:
            sim.fault('terminal closed')
            self.gone = True
            raise Terminal('EOF when reading a line')
        self.said = x
        if x in self.ref.alphabet:
            self.entered.append(x)
            self.executed += 1
            self.last = ('input', x)
        elif x == 'reset':
            self.entered = []
            self.last = ('reset', x)
        elif x in ('help', 'current inputs', 'print alphabet'):
            self.last = (x, x)
        elif x == 'cex' and self.entered or x == 'end':
            self.last = ('done', x)
        else:
            self.last = ('rejected', x)
        return x

    def next(self):
        sim = self.sim
        if self.mess and sim.flip(0.25):
            k = sim.choose(8)
            if k == 0:
                sim.fault('user mistyped')
                return sim.pick(['', ' ', 'zz', self.ref.alphabet[0] + ' ', 'CEX', 'quit'])
            if k == 1:
                return 'help'
            if k == 2:
                return 'current inputs'
            if k == 3:
                return 'print alphabet'
            if k == 4:
                sim.fault('user started over')
                return 'reset'
            if k == 5 and not self.entered:
                sim.fault('cex without inputs')
                return 'cex'
            if k == 6 and sim.flip(0.05):
                return None
            if k == 7:
                return self.ref.alphabet[sim.choose(len(self.ref.alphabet))]
        if self.plan is None:
            return 'end'
        n = len(self.entered)
        if tuple(self.entered) == tuple(self.plan[:n]):
            return self.plan[n] if n < len(self.plan) else 'cex'
        return 'reset'


def scenario(sim):
    ref = gen_ref(sim, max_states=6, max_alpha=3)
    names = [f'in{i}' for i in range(len(ref.alphabet))] if sim.flip(0.5) else ['x', 'y', 'z'][:len(ref.alphabet)]
    new = dict(zip(ref.alphabet, names))
    ref.alphabet = names
    ref.delta = [{new[a]: t for a, t in r.items()} for r in ref.delta]
    if ref.out:
        ref.out = [{new[a]: o for a, o in r.items()} for r in ref.out]
    cfg = learner_config(sim)
    kind = ref.kind
    sul = SimSUL(sim, ref)
    user = User(sim, ref, sul, mess=sim.flip(0.8))
    teacher = Teacher(sim, ref.alphabet, sul, ref, kind, max_rounds=ref.n, execute=False)
    sim.log('system', ref.describe())
    sim.log('config', sorted(cfg.items(), key=str))
    sim.features.update(alg=cfg['alg'], kind=kind, cache=cfg['cache'], n=ref.n)
    oracle = UserInputEqOracle(list(ref.alphabet), sul)
    orig = oracle.find_cex
    shown, files, counted = [], [], [0]

    def find_cex(hyp):
        plan = teacher.find_cex(hyp)
        v = model_view(hyp, kind, ref.alphabet)
        user.begin(v, plan)
        before = len(shown)
        got = orig(hyp)
        if len(shown) != before + 1 or shown[-1] is not hyp:
            raise Violation('hypothesis-not-shown', 'the hypothesis was not drawn for the user')
        if len(set(files)) != len(files):
            raise Violation('hypothesis-not-shown', f'the drawing of an earlier hypothesis was overwritten: {files!r}')
        if user.said == 'end':
            if got is not None:
                raise Violation('wrong-counterexample', f'the user entered "end", but {got!r} was returned')
        elif got is None or tuple(got) != tuple(user.entered):
            raise Violation('wrong-counterexample', f'the user entered {user.entered!r}, but {got!r} was returned')
        if oracle.num_steps - counted[0] != user.executed:
            raise Violation('wrong-counters', f'{oracle.num_steps - counted[0]} steps counted, the user had {user.executed} inputs executed')
        counted[0] = oracle.num_steps
        if got is not None and sul.open:
            raise Violation('session-left-open', 'a counterexample was returned while its session is open')
        sim.log('EQ', got)
        return got

    oracle.find_cex = find_cex
    saved = builtins.input, module.visualize_automaton
    builtins.input = user

    def draw(h, path='LearnedModel', *a, **k):
        shown.append(h)
        files.append(path)

    module.visualize_automaton = draw
    try:
        model = sim.sut(learn, cfg, list(ref.alphabet), sul, oracle, kind)
    except Terminal:
        if not user.gone:
            raise
        sim.log('aborted')
        return
    finally:
        builtins.input, module.visualize_automaton = saved
    check_exact(model, ref, kind)
    sim.model = model
    sim.meta['rounds'] = teacher.rounds
    sim.meta['nontrivial'] = teacher.rounds > 1


RUNS = {'quick': 60_000, 'thorough': 300_000}
