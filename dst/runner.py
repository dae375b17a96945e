"""Batch runner, minimiser, replayer and evidence writer.

  runner.py check  <prop> [--tier quick|thorough]     seeded search (VERIF_SEED decides everything)
  runner.py batch  ...                                one worker process (internal)
  runner.py shrink ...                                minimise one failure (internal)
  runner.py replay <file>                             re-execute a recorded run exactly
  runner.py digests <prop> --runs N [--workers W]     event-log digests (determinism proof)
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('AALPY_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
EVENT_BUDGET = 60_000_000
RUN_WALL = 12.0
REAL_TIME = time.time          # the seams patch time.*; the runner keeps the real one


def H(*parts):
    return int.from_bytes(hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()[:8], 'big')


def load(prop):
    for p in (VERIF, REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
    import aalpy
    got = os.path.realpath(os.path.dirname(os.path.dirname(aalpy.__file__)))
    if got != os.path.realpath(REPO):
        raise RuntimeError(f'aalpy was imported from {got}, not from {REPO}')
    return importlib.import_module(f'dst.props.{prop.lower()}')


def worker_env(hashseed):
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = str(hashseed)
    e['PYTHONPATH'] = VERIF + os.pathsep + REPO
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONWARNINGS'] = 'ignore'
    e['AALPY_REPO'] = REPO
    return e


def hashseed_for(master, prop, batch):
    return 0 if batch == 0 else H(master, prop, 'hashseed', batch) % 4294967295


# ---------------------------------------------------------------------------------------------------------------------
class Budget:
    """Deterministic work meter: counts Python function starts and jumps; raises HangTimeout in the running code."""

    def __init__(self, limit):
        self.limit = limit
        self.count = 0

    def __enter__(self):
        from dst.core import HangTimeout
        mon = sys.monitoring
        self.tool = 4
        mon.use_tool_id(self.tool, 'dst-budget')
        ev = mon.events

        def tick(*_):
            self.count += 1
            if self.count > self.limit and (self.count - self.limit) % 200_000 == 1:
                raise HangTimeout()

        mon.register_callback(self.tool, ev.PY_START, tick)
        mon.register_callback(self.tool, ev.JUMP, tick)
        mon.set_events(self.tool, ev.PY_START | ev.JUMP)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.tool, 0)
        mon.register_callback(self.tool, mon.events.PY_START, None)
        mon.register_callback(self.tool, mon.events.JUMP, None)
        mon.free_tool_id(self.tool)
        return False


def _hang_result(seed, choices, why):
    from dst.core import RunResult
    r = RunResult()
    r.status, r.cls, r.detail = 'violation', 'no-termination', why
    r.choices, r.digest, r.trace, r.faults, r.probes, r.features = choices, '', [], {}, {}, {}
    r.sim_time, r.events, r.meta, r.seed = 0.0, 0, {}, seed
    return r


def run_guarded(scenario, seed=None, choices=None, wall=RUN_WALL, budget=EVENT_BUDGET):
    """Wall watchdog first (cheap); if it fires, the run is repeated under the deterministic work meter, which decides."""
    from dst import core

    def on_alarm(*_):
        raise core.HangTimeout()

    if wall is not None:
        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, wall)
        try:
            return core.run_one(scenario, seed=seed, choices=choices)
        except core.HangTimeout:
            pass
        except MemoryError:
            pass
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    keep = []
    orig = core.Sim.__init__

    def init(self, *a, **k):
        orig(self, *a, **k)
        keep.append(self)

    core.Sim.__init__ = init
    b = Budget(budget)
    try:
        with b:
            return core.run_one(scenario, seed=seed, choices=choices)
    except core.HangTimeout:
        r = _hang_result(seed, list(keep[0].choices), f'more than {budget} program events without an answer')
        r.trace = keep[0].trace
        r.digest = keep[0].digest()
        r.features = keep[0].features
        return r
    except MemoryError:
        r = _hang_result(seed, list(keep[0].choices), 'memory limit exceeded')
        r.cls = 'no-termination (memory)'
        r.trace = keep[0].trace
        r.features = keep[0].features
        return r
    finally:
        core.Sim.__init__ = orig


def limit_memory(gb=3):
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))


# ---------------------------------------------------------------------------------------------------------------------
def cmd_batch(a):
    limit_memory()
    mod = load(a.prop)
    out = {'runs': 0, 'ok': 0, 'discard': 0, 'violations': [], 'harness': None, 'faults': collections.Counter(),
           'probes': collections.Counter(), 'features': {}, 'sim_time': 0.0, 'events': 0, 'digests': [],
           'samples': [], 'meta': collections.Counter(), 'discards': collections.Counter(), 'all_digests': []}
    t0 = REAL_TIME()
    known = load_known(a.prop)
    for i in range(a.start, a.start + a.runs):
        if REAL_TIME() - t0 > a.cap and out['runs'] > 0:
            break
        if os.path.exists(a.out + '.stop'):
            break
        seed = H(a.seed, a.prop, i)
        r = run_guarded(mod.scenario, seed=seed)
        if r.cls and r.cls.startswith('no-termination') and \
                (getattr(mod, 'HANG_IS_DISCARD', False) or r.features.get('big system')):
            # the property says nothing about duration, and the simulated system may legitimately be huge
            r.status, r.detail, r.cls = 'discard', 'work budget', None
        out['runs'] += 1
        out['sim_time'] += r.sim_time
        out['events'] += r.events
        out['faults'].update(r.faults)
        out['probes'].update(r.probes)
        for k, v in r.features.items():
            out['features'].setdefault(k, collections.Counter())[str(v)] += 1
        for k, v in r.meta.items():
            if type(v) in (int, float) and not k.startswith('_'):
                out['meta'][k] += v
        if a.digests:
            out['all_digests'].append([i, r.status, r.digest])
        if r.status == 'ok':
            out['ok'] += 1
            if r.meta.get('nontrivial'):
                out['digests'].append(r.digest[:16])
                if len(out['samples']) < 2 and r.choices:
                    out['samples'].append({'run': i, 'seed': seed, 'history': [t[:300] for t in r.trace[:14]],
                                           'events': r.events})
        elif r.status == 'discard':
            out['discard'] += 1
            out['discards'][str(r.detail)[:80]] += 1
        elif r.status == 'harness':
            out['harness'] = {'run': i, 'seed': seed, 'detail': r.detail, 'hashseed': os.environ.get('PYTHONHASHSEED')}
            break
        else:
            k = match_known(known, r)
            out['violations'].append({'run': i, 'seed': seed, 'cls': r.cls, 'detail': r.detail[:600],
                                      'choices': r.choices, 'known': k['id'] if k else None})
            if not k:
                break
    out['discards'] = dict(out['discards'])
    tmp = a.out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(out, f)
    os.rename(tmp, a.out)


# ---------------------------------------------------------------------------------------------------------------------
def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop and k['kind'] == 'known']


def match_known(known, r):
    import re
    for k in known:
        m = k.get('match')
        if m and r.cls == m['cls'] and re.search(m['detail'], r.detail or ''):
            return k
    return None


# ---------------------------------------------------------------------------------------------------------------------
def cmd_shrink(a):
    limit_memory()
    mod = load(a.prop)
    job = json.load(open(a.inp))
    best, cls = job['choices'], job['cls']
    t0 = REAL_TIME()
    hang = cls.startswith('no-termination (memory)') or job.get('hang')
    wall = 6.0 if not hang else RUN_WALL
    cap = a.cap
    tried = 0
    seen = set()

    def ok(c):
        nonlocal tried
        key = tuple(c)
        if key in seen or REAL_TIME() - t0 > cap:
            return None
        seen.add(key)
        tried += 1
        from dst import core

        def on_alarm(*_):
            raise core.HangTimeout()

        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, wall)
        try:
            r = core.run_one(mod.scenario, choices=c)
        except (core.HangTimeout, MemoryError):
            return None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if r.status == 'violation' and r.cls == cls:
            # normalise: what the run really consumed, trailing zeros dropped (replay pads with 0)
            n = list(r.choices)
            while n and n[-1] == 0:
                n.pop()
            return n
        return None

    if not hang:
        first = ok(list(best))
        if first is not None:
            best = first
        progress = True
        while progress and REAL_TIME() - t0 < cap:
            progress = False
            # delete spans
            size = max(1, len(best) // 2)
            while size >= 1 and REAL_TIME() - t0 < cap:
                i = 0
                while i < len(best):
                    c = ok(best[:i] + best[i + size:])
                    if c is not None and (len(c), sum(c)) < (len(best), sum(best)):
                        best = c
                        progress = True
                    else:
                        i += size
                size //= 2
            # lower values
            i = 0
            while i < len(best) and REAL_TIME() - t0 < cap:
                if best[i]:
                    for v in (0, best[i] // 2, best[i] - 1):
                        c = ok(best[:i] + [v] + best[i + 1:])
                        if c is not None and (len(c), sum(c)) < (len(best), sum(best)):
                            best = c
                            progress = True
                            break
                i += 1
    r = run_guarded(mod.scenario, choices=best)
    res = {'choices': best, 'tried': tried, 'cls': r.cls, 'status': r.status, 'detail': r.detail, 'digest': r.digest,
           'trace': r.trace[:400], 'features': {k: str(v) for k, v in r.features.items()},
           'faults': r.faults}
    with open(a.out, 'w') as f:
        json.dump(res, f)


def cmd_replay(a):
    job = json.load(open(a.file))
    if os.environ.get('PYTHONHASHSEED') != str(job['hashseed']):
        os.execve(PY, [PY, '-B', os.path.abspath(__file__), 'replay', os.path.abspath(a.file)] + (['-v'] if a.v else []),
                  worker_env(job['hashseed']))
    limit_memory()
    mod = load(job['property'])
    r = run_guarded(mod.scenario, choices=job['choices'], wall=60)
    same = r.status == 'violation' and r.cls == job['violation'] and (r.digest == job['digest'])
    if a.v or True:
        for t in r.trace[:200]:
            print('   ', t[:400])
    print(f'replay: status={r.status} class={r.cls} detail={r.detail}')
    print(f'replay: event log {"identical" if r.digest == job["digest"] else "DIFFERENT"} ({r.digest[:16]})')
    if r.status == 'violation':
        print(f'VIOLATION property={job["property"]} replay={a.file}')
        return 1 if same else 3
    return 0 if r.status in ('ok', 'discard') else 2


# ---------------------------------------------------------------------------------------------------------------------
def spawn(args, hashseed, logf):
    return subprocess.Popen([PY, '-B', os.path.abspath(__file__)] + args, env=worker_env(hashseed), cwd=VERIF,
                            stdin=subprocess.DEVNULL, stdout=logf, stderr=subprocess.STDOUT)


def search(prop, master, total, batch_size, cap, workers, scratch, digests=False, start=0):
    """Runs `total` seeds split over fresh worker processes; returns the list of batch results."""
    n_batches = (total + batch_size - 1) // batch_size
    todo = list(range(n_batches))
    active, results, stop = {}, {}, False
    t0 = REAL_TIME()
    err = None
    while (todo and not stop) or active:
        while todo and not stop and len(active) < workers and REAL_TIME() - t0 < cap:
            b = todo.pop(0)
            out = os.path.join(scratch, f'b{b}.json')
            logf = open(out + '.log', 'w')
            left = max(5.0, cap - (REAL_TIME() - t0))
            args = ['batch', prop, '--seed', str(master), '--start', str(start + b * batch_size), '--runs',
                    str(min(batch_size, total - b * batch_size)), '--out', out, '--cap', str(left)]
            if digests:
                args.append('--digests')
            active[b] = (spawn(args, hashseed_for(master, prop, b), logf), out, logf, REAL_TIME())
        if REAL_TIME() - t0 >= cap:
            todo = []
        for b, (p, out, logf, st) in list(active.items()):
            rc = p.poll()
            if rc is None:
                if REAL_TIME() - st > cap + 200:
                    p.kill()
                    p.wait()
                    err = err or f'batch {b} exceeded its wall limit'
                    del active[b]
                continue
            logf.close()
            del active[b]
            if rc != 0 or not os.path.exists(out):
                err = err or f'batch {b} ended with {rc}: ' + open(out + '.log').read()[-2000:]
                stop = True
                continue
            r = json.load(open(out))
            r['batch'] = b
            results[b] = r
            if r['harness'] or any(not v['known'] for v in r['violations']):
                stop = True
        if stop:
            for b, (p, out, logf, st) in active.items():
                open(out + '.stop', 'w').close()
        time.sleep(0.02)
    return [results[b] for b in sorted(results)], err


def merge(results):
    m = {'runs': 0, 'ok': 0, 'discard': 0, 'sim_time': 0.0, 'events': 0}
    faults, probes, meta, disc = (collections.Counter() for _ in range(4))
    feats, digs, samples, viol = {}, set(), [], []
    for r in results:
        for k in m:
            m[k] += r[k]
        faults.update(r['faults'])
        probes.update(r['probes'])
        meta.update(r['meta'])
        disc.update(r['discards'])
        for k, v in r['features'].items():
            feats.setdefault(k, collections.Counter()).update(v)
        digs.update(r['digests'])
        samples += r['samples'][:1]
        for v in r['violations']:
            v['batch'] = r['batch']
            viol.append(v)
    m.update(faults=dict(faults), probes=dict(probes), meta=dict(meta), discards=dict(disc),
             features={k: dict(v.most_common(40)) for k, v in feats.items()}, distinct=len(digs), samples=samples[:4],
             violations=viol)
    return m


def cmd_check(a):
    prop = a.prop
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    master = int(os.environ.get('VERIF_SEED', '1'))
    print(f'check {prop} tier={tier} VERIF_SEED={master}', flush=True)
    scratch = tempfile.mkdtemp(prefix=f'dst-{prop}-')
    t0 = REAL_TIME()
    try:
        return _check(prop, tier, master, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(prop, ev):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f'.{prop}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    os.rename(tmp, os.path.join(d, f'{prop}.json'))


def _check(prop, tier, master, scratch, t0):
    os.environ.setdefault('PYTHONHASHSEED', '0')
    mod = load(prop)
    from dst.about import P
    ab = P[prop]
    runs = mod.RUNS[tier]
    cap = {'quick': 240.0, 'thorough': 780.0}[tier]
    if tier == 'thorough' and os.environ.get('DST_CAP'):
        cap = float(os.environ['DST_CAP'])
    workers = min(8, os.cpu_count() or 1)
    n_batches = 16 if tier == 'quick' else 64
    bs = max(1, (runs + n_batches - 1) // n_batches)
    results, err = search(prop, master, runs, bs, cap, workers, scratch)
    m = merge(results)
    wall = REAL_TIME() - t0
    harness = next((r['harness'] for r in results if r['harness']), None)
    new = [v for v in m['violations'] if not v['known']]
    known = load_known(prop)

    ev = {
        'property': prop, 'tier': tier, 'seed': master, 'level': 'exploration', 'wall_s': round(wall, 2),
        'violations': len(new),
        'assumptions': ab['assume'],
        'coverage': {
            'evaluations': m['runs'], 'distinct_nontrivial': m['distinct'], 'rule': ab['rule'],
            'samples': m['samples'] or [{'note': 'no non-trivial run'}],
            'runs_requested': runs, 'runs_ok': m['ok'], 'runs_discarded': m['discard'],
            'discard_reasons': m['discards'],
            'runs_per_hour': round(m['runs'] / max(wall, 1e-6) * 3600),
            'seeds_per_hour': round(m['runs'] / max(wall, 1e-6) * 3600),
            'hash_seeds_used': len(results), 'worker_processes': len(results),
            'simulated_seconds': round(m['sim_time'], 1), 'simulated_events': m['events'],
            'faults_injected': m['faults'], 'probes_hit': m['probes'],
            'distinct_histories_measure': 'sha256 of the complete event log of a run (all interactions, answers, '
                                          'faults and decisions); distinct_nontrivial counts distinct values',
            'configuration_coverage': m['features'], 'totals': m['meta'],
            'components_real': ab['real'], 'components_simulated': ab['stub'],
        },
    }

    def finish(code):
        write_evidence(prop, ev)
        print(f'{prop}: {m["runs"]} runs, {m["distinct"]} distinct non-trivial histories, {m["discard"]} discarded, '
              f'{sum(m["faults"].values())} faults, {m["events"]} events, {wall:.1f}s', flush=True)
        return code

    # known findings: re-executed from their recorded history so that the line reports what the tree does now
    kf_lines = []
    for k in known:
        hit = [v for v in m['violations'] if v['known'] == k['id']]
        if hit:
            kf_lines.append(f'KNOWN-FINDING: property={prop} {k["id"]}: {k["what"]}')
        elif k.get('replay'):
            job = json.load(open(os.path.join(VERIF, k['replay'])))
            p = subprocess.run([PY, '-B', os.path.abspath(__file__), 'replay', os.path.join(VERIF, k['replay'])],
                               env=worker_env(job['hashseed']), capture_output=True, text=True, timeout=300)
            if p.returncode in (1, 3):
                kf_lines.append(f'KNOWN-FINDING: property={prop} {k["id"]}: {k["what"]}')
    for line in kf_lines:
        print(line, flush=True)
    ev['coverage']['known_findings_seen'] = kf_lines

    if new:
        v = min(new, key=lambda v: len(v['choices']))
        hs = hashseed_for(master, prop, v['batch'])
        inp, outp = os.path.join(scratch, 'shrink.in'), os.path.join(scratch, 'shrink.out')
        json.dump({'choices': v['choices'], 'cls': v['cls'], 'hang': v['cls'].startswith('no-termination') and
                   'program events' in v['detail']}, open(inp, 'w'))
        with open(os.path.join(scratch, 'shrink.log'), 'w') as lf:
            p = spawn(['shrink', prop, '--inp', inp, '--out', outp, '--cap', '45'], hs, lf)
            try:
                p.wait(timeout=300)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        if os.path.exists(outp):
            s = json.load(open(outp))
        else:
            s = None
        if not s or s['status'] != 'violation':
            s = {'choices': v['choices'], 'tried': 0, 'cls': v['cls'], 'detail': v['detail'], 'digest': '', 'trace': [],
                 'features': {}, 'faults': {}, 'note': 'not minimised'}
        rp_dir = os.path.join(VERIF, 'replays')
        os.makedirs(rp_dir, exist_ok=True)
        name = f'{prop}-{H(v["seed"], v["cls"]) % 10**8:08d}.json'
        path = os.path.join(rp_dir, name)
        rec = {'property': prop, 'hashseed': hs, 'master_seed': master, 'run': v['run'], 'seed': v['seed'],
               'violation': s['cls'], 'detail': s['detail'], 'choices': s['choices'], 'digest': s['digest'],
               'minimised_from': len(v['choices']), 'minimised_to': len(s['choices']), 'shrink_runs': s['tried'],
               'trace': s['trace'], 'features': s['features'], 'faults': s['faults']}
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        p = subprocess.run([PY, '-B', os.path.abspath(__file__), 'replay', path], env=worker_env(hs),
                           capture_output=True, text=True)
        rec_ok = p.returncode == 1
        print(f'violation class: {s["cls"]}\n  {s["detail"]}')
        print(f'  run {v["run"]} seed {v["seed"]} PYTHONHASHSEED {hs}; choices {len(v["choices"])} -> {len(s["choices"])} '
              f'({s["tried"]} shrink runs); fresh-process replay {"identical" if rec_ok else "NOT identical"}')
        for t in s['trace'][:40]:
            print('    ' + t[:300])
        ev['coverage']['violation'] = {k: rec[k] for k in ('violation', 'detail', 'run', 'seed', 'hashseed')}
        ev['coverage']['replay_identical'] = rec_ok
        print(f'VIOLATION property={prop} replay={path}', flush=True)
        return finish(1)
    if harness or err:
        print('HARNESS ERROR', harness['detail'] if harness else err)
        ev['coverage']['harness_error'] = str(harness or err)[:2000]
        return finish(2)
    missing = [p for p in getattr(mod, 'REQUIRED_PROBES', []) if not m['probes'].get(p)]
    missing += [f'fault {f}' for f in getattr(mod, 'REQUIRED_FAULTS', []) if not m['faults'].get(f)]
    if missing:
        ev['coverage']['probes_never_hit'] = missing
        print('note: never reached:', missing)
    return finish(0)


def cmd_digests(a):
    """Determinism proof: the same runs under several worker counts; compares the event logs."""
    load(a.prop)
    master = int(os.environ.get('VERIF_SEED', '1'))
    ref = None
    for workers in (1, 3, 8):
        scratch = tempfile.mkdtemp(prefix='dst-dig-')
        try:
            res, err = search(a.prop, master, a.runs, max(1, a.runs // a.batches), 3000, workers, scratch, digests=True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        d = {}
        for r in res:
            for i, st, dg in r['all_digests']:
                d[i] = (st, dg)
        print(a.prop, 'workers', workers, 'runs', len(d), 'err', err, flush=True)
        if ref is None:
            ref = d
        else:
            bad = [i for i in ref if ref[i] != d.get(i)]
            print('  differing runs:', len(bad), bad[:10], flush=True)
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    p = sub.add_parser('check'); p.add_argument('prop'); p.add_argument('--tier')
    p = sub.add_parser('batch'); p.add_argument('prop'); p.add_argument('--seed', type=int); p.add_argument('--start', type=int)
    p.add_argument('--runs', type=int); p.add_argument('--out'); p.add_argument('--cap', type=float)
    p.add_argument('--digests', action='store_true')
    p = sub.add_parser('shrink'); p.add_argument('prop'); p.add_argument('--inp'); p.add_argument('--out')
    p.add_argument('--cap', type=float)
    p = sub.add_parser('replay'); p.add_argument('file'); p.add_argument('-v', action='store_true')
    p = sub.add_parser('digests'); p.add_argument('prop'); p.add_argument('--runs', type=int, default=400)
    p.add_argument('--batches', type=int, default=16)
    a = ap.parse_args()
    rc = {'check': cmd_check, 'batch': cmd_batch, 'shrink': cmd_shrink, 'replay': cmd_replay,
          'digests': cmd_digests}[a.cmd](a)
    sys.exit(rc or 0)


if __name__ == '__main__':
    main()
