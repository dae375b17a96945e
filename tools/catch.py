"""Runs the check of each planted bug against a scratch copy of /repo with the bug applied (dev tool)."""
import json, os, shutil, subprocess, sys, tempfile, time
V = '/verif'
for i in sys.argv[1:] or sorted(os.listdir(f'{V}/seeded')):
    p = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
    work = tempfile.mkdtemp(prefix='catch-')
    try:
        r = f'{work}/repo'
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        subprocess.run(['git', '-C', r, 'apply', f'{V}/seeded/{i}/patch.diff'], check=True)
        v2 = f'{work}/verif'
        subprocess.run(['git', 'clone', '-q', V, v2], check=True) if os.environ.get('COMMITTED') else shutil.copytree(V, v2, ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__'))
        t = time.time()
        c = subprocess.run([f'{v2}/check', p, 'quick'], capture_output=True, text=True, cwd=v2,
                           env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', AALPY_REPO=r))
    finally:
        shutil.rmtree(work)
    v = [l for l in c.stdout.splitlines() if l.startswith('violation class')]
    print(i, p, 'CAUGHT' if c.returncode == 1 else f'MISSED rc={c.returncode} {c.stdout[-300:]}', v, f'{time.time()-t:.0f}s', flush=True)
    if c.returncode == 1 and v:
        cat = json.load(open(f'{V}/tools/catch.json'))
        cat[i] = v[0].split(': ', 1)[1].strip()
        json.dump(dict(sorted(cat.items())), open(f'{V}/tools/catch.json', 'w'), indent=1)
