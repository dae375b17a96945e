"""Mutation analysis of the checks (dev tool): mutants of library files that no world notices are printed for review.

  tools/mutate.py <fraction> <seed> <budget seconds per mutant> [file substring ...]
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V, R, PY = os.environ.get('MV', '/verif'), os.environ.get('AALPY_REPO', '/repo'), '/opt/venv/bin/python'

WHERE = [
    ('base/SUL.py', 'C02 C03 C04 C05 C16 C13 C24'), ('base/CacheTree.py', 'C02 C03 C04'), ('base/Oracle.py', 'C05 C06 C16'),
    ('base/Automaton.py', 'C26 C23 C01 C07 C06 C08 C14 C11 C18'),
    ('learning_algs/deterministic/', 'C01 C02 C15 C17 C16 C04 C03'), ('learning_algs/adaptive/', 'C14 C17 C16'),
    ('learning_algs/non_deterministic/', 'C28 C09 C17 C16 C12'), ('learning_algs/stochastic/', 'C10 C17 C16 C21'),
    ('learning_algs/deterministic_passive/', 'C18 C20 C12'), ('learning_algs/general_passive/', 'C27 C18 C19 C12'),
    ('learning_algs/stochastic_passive/', 'C19 C20 C21 C12'), ('utils/ModelChecking.py', 'C21 C26'), ('utils/FileHandler.py', 'C11'),
    ('utils/HelperFunctions.py', 'C25 C26 C23 C10 C16 C18 C20 C19 C01'), ('oracles/UserInput', 'C22'), ('oracles/', 'C08 C07 C06 C05 C16 C12 C10'),
    ('automata/Sevpa', 'C23 C26 C25 C11 C15'), ('automata/', 'C23 C26 C11 C25 C01 C21 C09 C19 C15'), ('utils/Sampling', 'C25'), ('utils/AutomatonGen', 'C25'), ('utils/DataHandler', 'C25'), ('SULs/', 'C24 C23'),
]
SKIP = ['Instrumentation.py', 'StatisticalModel', 'BenchmarkSulModels', 'BenchmarkSevpa', 'BenchmarkVpa', '__init__', 'paths.py']


def props_for(f):
    for k, v in WHERE:
        if k in f:
            return v.split()
    return None


def more(tree, infn, docs, text, sub, out):
    """second set of operators: whole statements, arguments, slices, ends of lists"""
    pairs = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}
    for n in ast.walk(tree):
        for body in (n.body,) if os.environ.get("MUT_SWAP") and isinstance(getattr(n, "body", None), list) else ():
            if n in infn and isinstance(body, list):
                for a, b in zip(body, body[1:]):
                    if a not in docs and a.lineno != b.lineno and not isinstance(b, (ast.Return, ast.Break, ast.Continue, ast.Raise)) \
                            and not isinstance(a, ast.FunctionDef) and 'print' not in text(a) + text(b):
                        class Two:
                            pass
                        t = Two()
                        t.lineno, t.col_offset, t.end_lineno, t.end_col_offset = a.lineno, a.col_offset, b.end_lineno, b.end_col_offset
                        sub(t, text(b) + '\n' + ' ' * a.col_offset + text(a), f'swap with {text(b)[:40]!r}')
        if n not in infn:
            continue
        if isinstance(n, ast.If):
            sub(n.test, '(True)', 'if True')
            sub(n.test, '(False)', 'if False')
        elif isinstance(n, (ast.For, ast.While)) and not isinstance(n, ast.While):
            sub(n.iter, f'list({text(n.iter)})[1:]', 'skip first')
            sub(n.iter, f'list({text(n.iter)})[:-1]', 'skip last')
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                sub(c, '(True)', 'no filter')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            sub(n, text(n.value), 'no slice')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == 0 and isinstance(n.ctx, ast.Load):
            sub(n, text(n.value) + '[-1]', 'last')
        elif isinstance(n, ast.Subscript) and text(n.slice) == '-1' and isinstance(n.ctx, ast.Load):
            sub(n, text(n.value) + '[0]', 'first')
        elif isinstance(n, ast.IfExp):
            sub(n, f'({text(n.body)})', 'then')
            sub(n, f'({text(n.orelse)})', 'else')
        elif isinstance(n, (ast.Break, ast.Continue)):
            sub(n, 'pass', 'no break')
        elif isinstance(n, ast.Return) and n.value is None:
            sub(n, 'pass', 'no return')
        elif isinstance(n, ast.Raise):
            sub(n, 'pass', 'no raise')
        elif isinstance(n, ast.Assert):
            sub(n, 'pass', 'no assert')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant) and type(n.value.value) is bool:
            sub(n, 'pass', 'delete ' + text(n)[:40])
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in pairs:
            sub(n.func, pairs[n.func.id], 'min/max any/all')
        if isinstance(n, ast.Call) and 'print' not in text(n.func):
            for k in n.keywords:
                if k.arg:
                    rest = [text(a) for a in n.args] + [(f'{q.arg}=' if q.arg else '**') + text(q.value) for q in n.keywords if q is not k]
                    sub(n, text(n.func) + '(' + ', '.join(rest) + ')', f'drop {k.arg}=')
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and len(n.args) == 1:
                sub(n, f'{text(n.func.value)}.insert(0, {text(n.args[0])})', 'insert first')
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and len(n.args) == 1 and text(n.args[0]) == '0':
                sub(n, f'{text(n.func.value)}.pop()', 'pop last')
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and isinstance(n.func, (ast.Name, ast.Attribute)) \
                    and text(n.func) not in ('isinstance', 'zip', 'hasattr', 'getattr'):
                sub(n, f'{text(n.func)}({text(n.args[1])}, {text(n.args[0])}' + ''.join(f', {q.arg}={text(q.value)}' for q in n.keywords if q.arg) + ')', 'swap args')
    return out


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()

    out = []

    def sub(n, new, what):
        s, e = span(n)
        out.append((n.lineno, what, (b[:s] + new.encode() + b[e:]).decode()))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    infn = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for m in ast.walk(n):
                infn.add(m)
    if os.environ.get('MUT_OPS') == '2':
        return more(tree, infn, docs, text, sub, out)
    swap = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
    for n in ast.walk(tree):
        if n not in infn:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sub(n, f'({text(n.left)} {swap[type(n.ops[0])]} {text(n.comparators[0])})', 'cmp')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            sub(n, '(' + op.join('(' + text(v) + ')' for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                sub(n, '(' + o2.join('(' + text(v) + ')' for v in rest) + ')', f'drop operand {text(n.values[i])}')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            sub(n, f'({text(n.operand)})', 'not')
        elif isinstance(n, (ast.If,)) and not isinstance(n.test, (ast.Compare, ast.BoolOp)):
            sub(n.test, f'(not ({text(n.test)}))', 'if')
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            sub(n, str(n.value + 1), 'const+1')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            sub(n, str(not n.value), 'bool const')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            sub(n, f'({text(n.left)} {"-" if isinstance(n.op, ast.Add) else "+"} {text(n.right)})', 'arith')
        elif isinstance(n, (ast.Break,)):
            sub(n, 'continue', 'break')
        elif isinstance(n, ast.Continue):
            sub(n, 'break', 'continue')
        elif isinstance(n, ast.Expr) and n not in docs and isinstance(n.value, ast.Call) and 'print' not in text(n):
            sub(n, 'pass', f'delete {text(n)[:50]}')
        elif isinstance(n, (ast.AugAssign,)):
            sub(n, 'pass', f'delete {text(n)[:50]}')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            sub(n, 'pass', f'delete {text(n)[:50]}')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'set', 'sorted', 'reversed', 'copy', 'deepcopy', 'dict') and len(n.args) == 1 and not n.keywords:
            sub(n, f'({text(n.args[0])})', f'unwrap {n.func.id}')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            sub(n, text(n.func.value), 'no copy')
    return out


WORKER = r'''
import json, os, signal, sys, time
sys.path[:0] = [os.environ.get('MV', '/verif'), os.environ['AALPY_REPO']]
import importlib
props, budget, seed = sys.argv[1].split(','), float(sys.argv[2]), int(sys.argv[3])
from dst import core, runner
runner.limit_memory(2)
mods = {p: importlib.import_module('dst.props.' + p.lower()) for p in props}
t0 = time.perf_counter() if not hasattr(runner, 'REAL_TIME') else runner.REAL_TIME()
i = 0
class H(BaseException): pass
n = {p: 0 for p in props}
spent = {p: 0.0 for p in props}
while runner.REAL_TIME() - t0 < budget:
    p = min(props, key=lambda q: spent[q])
    i += 1
    a = runner.REAL_TIME()
    def al(*_): raise core.HangTimeout()
    signal.signal(signal.SIGALRM, al)
    signal.setitimer(signal.ITIMER_REAL, 8)
    try:
        r = core.run_one(mods[p].scenario, seed=runner.H(seed, p, i))
    except core.HangTimeout:
        if getattr(mods[p], 'HANG_IS_DISCARD', False): continue
        print('KILLED', p, 'hang', n); sys.exit(0)
    except MemoryError:
        print('KILLED', p, 'memory', n); sys.exit(0)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    spent[p] += runner.REAL_TIME() - a
    n[p] += 1
    if r.status == 'violation':
        print('KILLED', p, r.cls, n); sys.exit(0)
    if r.status == 'harness':
        print('HARNESS', p, str(r.detail)[-300:].replace('\n', ' | ')); sys.exit(0)
print('SURVIVED', n)
'''


def main():
    frac, seed, budget = float(sys.argv[1]), int(sys.argv[2]), float(sys.argv[3])
    want = sys.argv[4:]
    jobs = []
    rnd = random.Random(seed)
    for d, _, fs in sorted(os.walk(R + '/aalpy')):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), R)
            if not f.endswith('.py') or any(s in rel for s in SKIP) or (want and not any(w in rel for w in want)):
                continue
            pr = props_for(rel)
            if not pr:
                continue
            src = open(os.path.join(R, rel)).read()
            for m in mutants(src):
                if rnd.random() < frac:
                    jobs.append((rel, pr) + m)
    print(len(jobs), 'mutants', flush=True)
    base = tempfile.mkdtemp(prefix='mut-')
    free = []
    W = int(os.environ.get('MUT_WORKERS', '7'))
    for k in range(W):
        shutil.copytree(R, f'{base}/r{k}', ignore=shutil.ignore_patterns('.git', '__pycache__', 'Examples', 'DotModels'))
        free.append(f'{base}/r{k}')
    open(f'{base}/w.py', 'w').write(WORKER)

    def run(job):
        rel, pr, line, what, text = job
        r = free.pop()
        try:
            orig = open(os.path.join(R, rel)).read()
            open(os.path.join(r, rel), 'w').write(text)
            try:
                p = subprocess.run([PY, '-B', '-W', 'ignore', f'{base}/w.py', ','.join(pr), str(budget), str(seed)], capture_output=True, text=True, cwd=base,
                                   env=dict(os.environ, AALPY_REPO=r, PYTHONHASHSEED=str(rnd.randrange(1000))), timeout=budget + 60)
                res = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else 'CRASH ' + p.stderr.strip()[-200:].replace('\n', ' | ')
            except subprocess.TimeoutExpired:
                res = 'TIMEOUT'
            open(os.path.join(r, rel), 'w').write(orig)
            a, b = orig.split('\n')[line - 1].strip(), text.split('\n')[line - 1].strip()
            print(res.split(' ')[0], f'{rel}:{line} [{what}] {a}  ==>  {b}  ## {res[:160]}', flush=True)
        finally:
            free.append(r)

    try:
        with ThreadPoolExecutor(W) as ex:
            list(ex.map(run, jobs))
    finally:
        shutil.rmtree(base)


main()
