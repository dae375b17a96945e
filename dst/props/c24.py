"""C24: the systems under learning that come with the library answer a word as the thing they wrap does when it is fresh."""
import re

from aalpy.SULs import FunctionDecorator, PyClassSUL, RegexSUL, TomitaSUL
from aalpy.base import SUL, Oracle
from aalpy.base.SUL import CacheSUL
from aalpy.learning_algs import run_Lstar, run_KV, run_Lsharp

from ..core import Violation

# -- regular expressions: abstract syntax, text and meaning ---------------------------------------------------------------
CHARS = ('a', 'b', '0', '1', '.', '$', '+', '|', 'ab', ' ', '\n', '\\', '^')


def random_regex(sim, letters, depth):
    """('lit', s) | ('any',) | ('set', [s], negated) | ('cat'/'alt', [..]) | ('star'/'plus'/'opt', x) | ('rep', x, lo, hi) | ('grp', x)"""
    k = sim.choose(12 if depth > 0 else 3)
    if k <= 1:
        return ('lit', letters[sim.choose(len(letters))])
    if k == 2:
        single = [x for x in letters if len(x) == 1 and x.isalnum()]
        if not single or sim.flip(0.3):
            return ('any',)
        return ('set', sorted({single[sim.choose(len(single))] for _ in range(sim.int(1, 2))}), sim.flip(0.3))
    if k in (3, 4, 5, 6):
        return ('cat', [random_regex(sim, letters, depth - 1) for _ in range(sim.int(0 if k == 6 else 2, 3))])
    if k in (7, 8):
        return ('alt', [random_regex(sim, letters, depth - 1) for _ in range(sim.int(2, 3))])
    if k == 9:
        return (sim.pick(['star', 'plus', 'opt']), random_regex(sim, letters, depth - 1))
    if k == 10:
        lo = sim.int(0, 2)
        return ('rep', random_regex(sim, letters, depth - 1), lo, lo + sim.int(0, 2))
    return ('grp', random_regex(sim, letters, depth - 1))


def text(n, atom=False, top=False):
    t = n[0]
    if t == 'lit':
        s = re.escape(n[1])
        return f'(?:{s})' if atom and len(n[1]) != 1 else s
    if t == 'any':
        return '.'
    if t == 'set':
        return '[' + ('^' if n[2] else '') + ''.join(re.escape(x) for x in n[1]) + ']'
    if t == 'grp':
        return '(' + text(n[1]) + ')'
    if t == 'cat':
        s = ''.join(text(x, False) if x[0] != 'alt' else f'(?:{text(x)})' for x in n[1])
    elif t == 'alt':
        s = '|'.join(text(x) for x in n[1])
    elif t == 'rep':
        s = text(n[1], True) + '{%d,%d}' % (n[2], n[3])
    else:
        s = text(n[1], True) + {'star': '*', 'plus': '+', 'opt': '?'}[t]
    return f'(?:{s})' if atom else s


def ends(n, s, i):
    """positions at which a match of n that begins at i may end"""
    t = n[0]
    if t == 'lit':
        return {i + len(n[1])} if s.startswith(n[1], i) else set()
    if t == 'any':
        return {i + 1} if i < len(s) and s[i] != '\n' else set()
    if t == 'set':
        return {i + 1} if i < len(s) and (s[i] in n[1]) != n[2] else set()
    if t == 'grp':
        return ends(n[1], s, i)
    if t == 'cat':
        at = {i}
        for x in n[1]:
            at = set().union(*(ends(x, s, j) for j in at)) if at else at
        return at
    if t == 'alt':
        return set().union(*(ends(x, s, i) for x in n[1]))
    if t == 'opt':
        return {i} | ends(n[1], s, i)
    if t == 'rep':
        at, out = {i}, {i} if n[2] == 0 else set()
        for r in range(1, n[3] + 1):
            at = set().union(*(ends(n[1], s, j) for j in at)) if at else at
            if r >= n[2]:
                out |= at
        return out
    out, at = ({i} if t == 'star' else set()), {i}
    seen = set()
    while at:
        at = set().union(*(ends(n[1], s, j) for j in at)) - seen
        seen |= at
        out |= at
    return out


def tomita(k, w):
    """the grammars as they are usually defined"""
    runs = []
    for c in w:
        if runs and runs[-1][0] == c:
            runs[-1][1] += 1
        else:
            runs.append([c, 1])
    odd = [r[0] for r in runs if r[1] % 2]
    three = not any(x == '1' and '0' in odd[i + 1:] for i, x in enumerate(odd))
    return {1: set(w) <= {'1'}, 2: all(c == '10'[i % 2] for i, c in enumerate(w)) and len(w) % 2 == 0, 3: three, -3: not three,
            4: not any(r[0] == '0' and r[1] >= 3 for r in runs), 5: w.count('0') % 2 == 0 and w.count('1') % 2 == 0,
            6: (w.count('0') - w.count('1')) % 3 == 0,
            7: [r[0] for r in runs] in [list(x) for x in ('', '0', '1', '01', '10', '010', '101', '0101')]}[k]


# -- Python classes -------------------------------------------------------------------------------------------------------
class Failure(Exception):
    """the wrapped object fails"""


ARGS = [0, 1, False, True, '', 'x', 0.0, (), [], [0], ['', 0], (1, 'x'), [[1, 2]], [[]], {'k': 1}, {}, (0, 0, 0), ('x', 1), [2, 1], (True, 0, 'b', 'a'), [False], [None]]


def python_class(sim, rec):
    """A class whose instances are a Mealy machine over the calls they receive."""
    n = sim.int(1, 4)
    names = ['m', 'get', 'put_'][:sim.int(1, 3)]
    letters = []
    for nm in names:
        for _ in range(sim.int(1, 3)):
            a = None if sim.flip(0.3) else ARGS[sim.choose(len(ARGS))]
            if (nm, repr(a)) not in [(x, repr(b)) for x, b in letters]:
                letters.append((nm, a))
    outs = [0, 1, '', 'ok', False, (1,), 2.5]
    delta = {}
    for s in range(n):
        for i in range(len(letters)):
            delta[s, i] = (sim.choose(n), outs[sim.choose(len(outs))])

    def expected(i):
        """the arguments with which letter i has to arrive"""
        a = letters[i][1]
        return () if a is None else tuple(a) if isinstance(a, (list, tuple)) else (a,)

    class Thing:
        def __init__(self):
            rec['born'] += 1
            if rec['fail_init']:
                rec['fail_init'] = False
                raise Failure('constructor')
            self.q = 0
            self.dead = False
            rec['alive'] = self

        def got(self, name, args, kwargs):
            if self is not rec['alive']:
                raise Violation('old-instance-used', f'{name}{args!r} was called on an instance of an earlier session')
            if rec['fail_call']:
                rec['fail_call'] = False
                raise Failure(name)
            rec['calls'].append((name, args))
            fits = [i for i, (nm, _) in enumerate(letters) if nm == name and same(expected(i), args)]
            if not fits or kwargs:
                raise Violation('wrong-call', f'{name} was called with {args!r} {kwargs!r}, letters are {letters!r}')
            self.q, o = delta[self.q, fits[0]]
            return o

    for nm in names:
        def method(self, *args, _nm=nm, **kwargs):
            return self.got(_nm, args, kwargs)
        method.__name__ = nm
        setattr(Thing, nm, method)
    # two letters with the same call are one letter
    keep = []
    for i in range(len(letters)):
        if not any(letters[i][0] == letters[j][0] and same(expected(i), expected(j)) for j in keep):
            keep.append(i)
    alphabet = [FunctionDecorator(getattr(Thing, letters[i][0])) if letters[i][1] is None else
                FunctionDecorator(getattr(Thing, letters[i][0]), letters[i][1]) for i in keep]
    if len({repr(a) for a in alphabet}) != len(alphabet):
        raise Violation('letters-look-alike', f'{alphabet!r} for {[letters[i] for i in keep]!r}')
    index = {a: i for a, i in zip(alphabet, keep)}

    def answers(word):
        q, out = 0, []
        for a in word:
            q, o = delta[q, index[a]]
            out.append(o)
        return out

    return Thing, alphabet, answers, (n, names, [letters[i] for i in keep], delta)


def same(x, y):
    return type(x) is type(y) and repr(x) == repr(y)


# -- worlds ---------------------------------------------------------------------------------------------------------------
class Wrapped:
    def __init__(self, sim, rec):
        self.sim = sim
        self.kind = sim.pick(['pyclass', 'regex', 'regex', 'tomita'])
        self.rec = rec
        if self.kind == 'pyclass':
            cls, self.alphabet, self.answers, shape = python_class(sim, rec)
            self.make = lambda: PyClassSUL(cls)
            self.default = None
        elif self.kind == 'tomita':
            k = sim.pick([1, 2, 3, 4, 5, 6, 7, -3])
            self.alphabet = sim.pick([['0', '1'], [0, 1], ['1', '0']])
            self.make = lambda: TomitaSUL(k)
            self.accepts = lambda s: tomita(k, s)
            shape = k
        else:
            letters = list(dict.fromkeys(CHARS[sim.choose(len(CHARS))] for _ in range(sim.int(1, 3))))
            ast = random_regex(sim, letters, sim.int(1, 3))
            expr = text(ast)
            if expr.endswith(('\\', '\\$')) is False and sim.flip(0.3) and expr:
                expr += '$'
            self.alphabet = [int(x) if x.isdigit() and sim.flip(0.5) else x for x in letters]
            if sim.flip(0.2):
                self.alphabet.append('z')
            self.make = lambda: RegexSUL(expr)
            self.accepts = lambda s: len(s) in ends(ast, s, 0)
            shape = (expr, ast)
        if self.kind != 'pyclass':
            self.answers = lambda word: [self.accepts(''.join(str(x) for x in word[:i + 1])) for i in range(len(word))]
        sim.log('world', self.kind, shape, [repr(a) for a in self.alphabet])
        sim.features.update(kind=self.kind, letters=len(self.alphabet))


class Session:
    """One SUL object and what was executed on it since the last pre()."""

    def __init__(self, sim, wrapped, rec, i):
        self.sim, self.w, self.rec, self.i = sim, wrapped, rec, i
        self.sul = sim.sut(wrapped.make)
        self.cached = sim.flip(0.2)
        if self.cached:
            self.sul = CacheSUL(self.sul)
        self.word = None
        self.n = self.steps = 0

    def word_(self, lo):
        A = self.w.alphabet
        return tuple(A[self.sim.choose(len(A))] for _ in range(self.sim.int(lo, 7)))

    def judge(self, got, want, what):
        if len(got) != len(want) or any(x != y or type(x) is not type(y) for x, y in zip(got, want)):
            raise Violation('wrong-output', f'{self.w.kind}: {what} answered {got!r}, not {want!r}')
        self.steps += len(want)

    def fails(self, f, *args):
        """a call in which the wrapped object fails has to fail"""
        try:
            r = f(*args)
        except Failure:
            self.word = None
            return
        except Violation:
            raise
        except Exception as e:
            raise Violation('failure-changed', f'a failure of the object became {e!r}')
        raise Violation('failure-swallowed', f'the object failed, the SUL answered {r!r}')

    def act(self):
        sim, rec = self.sim, self.rec
        op = sim.pick(['query', 'query', 'query', 'pre', 'step', 'step', 'step', 'post', 'io'])
        fail = None
        if self.w.kind == 'pyclass' and not self.cached and sim.flip(0.12):
            fail = sim.pick(['fail_init', 'fail_call'])
        if op in ('query', 'io'):
            word = self.word_(1 if op == 'io' or self.w.kind == 'pyclass' else 0)
            sim.log(self.i, op, [repr(a) for a in word], fail)
            if fail:
                sim.fault(f'object fails ({fail})')
                rec[fail] = True
                self.fails(self.sul.query, word)
                return
            born = rec['born']
            outs = sim.sut(self.sul.query if op == 'query' else self.sul.io_query, word)
            if op == 'io':
                if tuple(a for a, _ in outs) != word:
                    raise Violation('wrong-output', f'io_query({word!r}) is {outs!r}')
                outs = [o for _, o in outs]
            want = self.w.answers(word) if word else [self.w.accepts('')]
            self.judge(list(outs), want, f'{op} {[repr(a) for a in word]!r}')
            if self.w.kind == 'pyclass' and not self.cached and rec['born'] != born + 1:
                raise Violation('not-fresh', f'{rec["born"] - born} instances were created for one query')
            self.word = None
            self.n += 1
            if self.cached:
                return
            if self.sul.num_queries != self.n:
                raise Violation('wrong-count', f'{self.sul.num_queries} queries counted, {self.n} asked')
        elif op == 'pre':
            if self.word:
                sim.fault('session abandoned without post')
            sim.log(self.i, op, fail)
            if fail == 'fail_init':
                sim.fault(f'object fails ({fail})')
                rec[fail] = True
                return self.fails(self.sul.pre)
            sim.sut(self.sul.pre)
            self.word = ()
        elif op == 'post':
            if self.word is not None:
                sim.sut(self.sul.post)
                self.word = None
        elif self.word is not None and not self.cached:
            # the cached SUL may be stepped too, C02 and C05 are about that
            if self.w.kind == 'pyclass' and rec['alive'] is not self.alive():
                return
            if self.w.kind != 'pyclass' and sim.flip(0.2):
                o = sim.sut(self.sul.step, None)
                self.judge([o], [self.w.answers(self.word)[-1] if self.word else self.w.accepts('')], f'empty step after {self.word!r}')
                return
            a = self.w.alphabet[sim.choose(len(self.w.alphabet))]
            sim.log(self.i, op, repr(a), fail)
            if fail == 'fail_call':
                sim.fault(f'object fails ({fail})')
                rec[fail] = True
                return self.fails(self.sul.step, a)
            o = sim.sut(self.sul.step, a)
            self.word += (a,)
            self.judge([o], self.w.answers(self.word)[-1:], f'step {a!r} after {self.word[:-1]!r}')

    def alive(self):
        return getattr(self.sul, 'sul', None)


class Exhaustive(Oracle):
    """compares with the definition on all words up to a length"""

    def __init__(self, sul, wrapped, n):
        super().__init__(wrapped.alphabet, sul)
        self.w, self.n = wrapped, n

    def find_cex(self, hypothesis):
        layer = [()]
        while layer:
            for word in layer:
                if not word:
                    continue
                want = self.w.answers(word)
                if hypothesis.execute_sequence(hypothesis.initial_state, word) != want:
                    return word
            layer = [w + (a,) for w in layer for a in self.alphabet] if len(layer[0]) < self.n else []
        return None


def learn(sim, w):
    sul = w.make()
    typ = 'mealy' if w.kind == 'pyclass' else sim.pick(['dfa', 'dfa', 'moore', 'mealy'])
    n = {1: 8, 2: 5, 3: 4}.get(len(w.alphabet), 3)
    alg = sim.pick([run_Lstar, run_KV, run_Lsharp])
    sim.log('learn', alg.__name__, typ)
    kw = dict(automaton_type=typ, print_level=0)
    eo = Exhaustive(sul, w, n)
    model = sim.sut(alg, list(w.alphabet), sul, eo, max_learning_rounds=40, **kw)
    if typ != 'mealy':
        got, want = model.initial_state.output, w.accepts('')
        if got != want:
            raise Violation('wrong-model', f'the model answers {got!r} for the empty word, not {want!r}')
    cex = eo.find_cex(model)
    if cex is not None and model.size < 40:
        raise Violation('wrong-model', f'{alg.__name__}: the model is wrong for {[repr(a) for a in cex]!r}')
    sim.probe('learned ' + typ)


def scenario(sim):
    rec = dict(born=0, alive=None, calls=[], fail_init=False, fail_call=False)
    w = Wrapped(sim, rec)
    suls = [Session(sim, w, rec, i) for i in range(sim.int(1, 2))]
    for _ in range(sim.int(6, 30)):
        suls[sim.choose(len(suls))].act()
        if rec['fail_init'] or rec['fail_call']:
            raise Violation('failure-avoided', 'the scheduled call of the wrapped object did not happen')
    if sim.flip(0.1):
        learn(sim, w)
    sim.meta['nontrivial'] = sum(s.steps for s in suls) >= 5


RUNS = {'quick': 100_000, 'thorough': 1_000_000}
