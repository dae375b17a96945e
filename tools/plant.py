"""Builds /verif/seeded/<id>/ from tools/bugs/<id>.py (dev tool; no check uses it).

A bug file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source run with cwd = repository).
Confirms in a scratch copy: patch applies, stable tests pass with it, demo passes without and fails with it.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
V = '/verif'
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def load(i):
    s = importlib.util.spec_from_file_location(i, f'{V}/tools/bugs/{i}.py')
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def one(i):
    m = load(i)
    d = f'{V}/seeded/{i}'
    work = tempfile.mkdtemp(prefix='plant-')
    try:
        r = f'{work}/repo'
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        subprocess.run(['git', '-C', r, 'checkout', '-q', '--', '.'], check=True)
        for f, a, b in m.EDITS:
            s = open(f'{r}/{f}').read()
            if s.count(a) != 1:
                return f'{i}: {f}: text occurs {s.count(a)} times'
            open(f'{r}/{f}', 'w').write(s.replace(a, b))
        patch = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True).stdout
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(patch)
        open(f'{d}/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\n' + m.DEMO.lstrip('\n'))
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexec timeout 250 /opt/venv/bin/python -W ignore -B "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': m.PROPERTY, 'needs': m.NEEDS, 'what_it_breaks': m.BREAKS}, open(f'{d}/meta.json', 'w'), indent=1)
        # touches original lines?
        base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
        removed = [l[1:] for l in patch.splitlines() if l.startswith('-') and not l.startswith('---')]
        orig = subprocess.run(['git', '-C', '/repo', 'show', f'{base}:{m.EDITS[0][0]}'], capture_output=True, text=True).stdout.splitlines()
        if not any(l in orig for l in removed):
            print(i, 'WARNING: touches no original line')
        def demo(cwd):
            p = subprocess.run(['bash', f'{d}/demo.sh'], cwd=cwd, capture_output=True, text=True)
            return p.returncode, (p.stdout + p.stderr)[-600:]
        ok = demo('/repo')
        bad = demo(r)
        if ok[0] != 0:
            return f'{i}: demo fails on the unchanged tree: {ok}'
        if bad[0] == 0:
            return f'{i}: demo passes with the bug'
        # stable tests, in the scratch copy
        t = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-B', '-m', 'pytest', '-q', '-x', '--no-header', '-p', 'no:cacheprovider'] +
                           [stable(s) for s in STABLE], cwd=r + '/tests', capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=r), timeout=280)
        if t.returncode:
            return f'{i}: tests fail with the bug: {t.stdout[-800:]}'
        return f'{i}: good ({bad[0]}: {bad[1].strip().splitlines()[-1][:200] if bad[1].strip() else ""})'
    finally:
        shutil.rmtree(work)


def stable(s):
    parts = s.split('.')
    cls, rest = parts[-1].split('::')
    return '/'.join(parts[1:-1]) + '.py::' + cls + '::' + rest


if __name__ == '__main__':
    for i in sys.argv[1:] or sorted(f[:-3] for f in os.listdir(f'{V}/tools/bugs') if f.endswith('.py')):
        print(one(i), flush=True)
