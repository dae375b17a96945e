"""Lines of the library that no world executes (dev tool): tools/cover.py <runs per property> [Cxx ...]"""
import ast, collections, importlib, os, signal, sys
sys.path.insert(0, '/verif'); R = os.environ.get('AALPY_REPO', '/repo'); sys.path.insert(0, R)
mon = sys.monitoring
seen = collections.defaultdict(set)
mon.use_tool_id(3, 'cover')


def line(code, no):
    if code.co_filename.startswith(R + '/aalpy'):
        seen[code.co_filename].add(no)
    return mon.DISABLE


mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)
from dst.core import run_one, HangTimeout
signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(HangTimeout()))
for p in sys.argv[2:] or [f'c{i:02}' for i in range(1, 23)]:
    m = importlib.import_module('dst.props.' + p.lower())
    for i in range(int(sys.argv[1])):
        signal.alarm(20)
        try:
            run_one(m.scenario, seed=i)
        except HangTimeout:
            pass
        signal.alarm(0)
    print(p, sum(map(len, seen.values())), file=sys.stderr, flush=True)
for d, _, fs in sorted(os.walk(R + '/aalpy')):
    for f in sorted(fs):
        if not f.endswith('.py'):
            continue
        p = os.path.join(d, f)
        tree = ast.parse(open(p).read())
        src = open(p).read().split('\n')
        stm = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef,)):
                for s in ast.walk(n):
                    if isinstance(s, ast.stmt) and s is not n and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        stm.add(s.lineno)
        miss = sorted(stm - seen[p])
        print(f'{p[len(R)+1:]}: {len(stm) - len(miss)}/{len(stm)}')
        for n in miss:
            print('   ', n, src[n - 1].strip()[:120])
