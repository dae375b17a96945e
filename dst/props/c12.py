"""C12: a run is a function of the random seed and the system's answers: it repeats exactly, also in another process, after
other runs, and with a misbehaving clock."""
import atexit
import json
import os
import random
import subprocess
import sys
import time

from ..core import Sim, Violation, Discard, SutError, HarnessBug, HangTimeout
from ..models import gen_ref

WORLDS = ['deterministic', 'onfsm', 'stochastic', 'vpa', 'adaptive', 'passive', 'stochastic passive', 'active passive', 'generated data', 'abstracted']


def world(sim, which):
    from . import c05, c09, c10, c14, c15, c18, c19, c20, c25, c28
    if which == 'deterministic':
        c05.s_deterministic(sim)
    elif which == 'onfsm':
        c09.scenario(sim)
    elif which == 'stochastic':
        c10.scenario(sim)
    elif which == 'vpa':
        c15.s_shipped(sim)
    else:
        {'adaptive': c14, 'passive': c18, 'stochastic passive': c19, 'active passive': c20, 'generated data': c25, 'abstracted': c28}[which].scenario(sim)


def describe(m):
    if m is None:
        return None
    from .c11 import view
    from aalpy.utils.FileHandler import automaton_types
    kind = automaton_types[type(m)]
    init, d = view(m, kind)
    # the order of states and transitions belongs to the result: it decides what is printed, drawn and saved
    order = [s.state_id for s in m.states]
    return repr((kind, init, order, sorted(d.items(), key=repr)))


class Clock:
    """another wall clock: runs at another speed, stands still, or jumps (also backwards)"""
    NAMES = ['time', 'perf_counter', 'monotonic', 'process_time']

    def __init__(self, mode):
        self.mode = mode

    def __enter__(self):
        self.saved = {n: getattr(time, n) for n in self.NAMES}
        g = random.Random(self.mode)
        now = [1e9]

        def clock():
            if self.mode == 1:
                now[0] += 3600.0
            elif self.mode == 2:
                now[0] += g.choice([-1e5, -1.0, 0.0, 1e-3, 5e4])
            return now[0]
        if self.mode:
            for n in self.NAMES:
                setattr(time, n, clock)

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(time, n, f)
        return False


INTS = ('learning_rounds', 'automaton_size', 'queries_learning', 'steps_learning', 'queries_eq_oracle', 'steps_eq_oracle', 'cache_saved')


def execute(choices, which, seed, rng_seed, clock):
    """-> (outcome, digest, trace, choices)"""
    sim = Sim(seed=seed, choices=choices)
    random.seed(rng_seed)
    with Clock(clock):
        try:
            world(sim, which)
            out = 'ok'
        except Violation as v:
            out = f'violation {v.cls} {v.detail}'
        except SutError as e:
            out = f'exception {e.sig}'
        except Discard:
            out = 'discard'
    m = getattr(sim, 'model', None)
    sim.log('outcome', out)
    sim.log('model', describe(m))
    info = getattr(sim, 'info', None)
    if info:
        sim.log('info', [(k, info.get(k)) for k in INTS])
    sim.log('next random', random.random())
    return out, sim.digest(), sim.trace, list(sim.choices), dict(sim.features)


# ---- another process with another hash seed --------------------------------------------------------------------------
_helper = None


def helper():
    global _helper
    if _helper is None or _helper.poll() is not None:
        env = dict(os.environ)
        own = int(env.get('PYTHONHASHSEED') or 0)
        env['PYTHONHASHSEED'] = str((own + 123457) % 4294967295)
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        _helper = subprocess.Popen([sys.executable, '-B', '-W', 'ignore', '-c', f'import sys; sys.path[:0]=[{here!r}, {os.environ.get("AALPY_REPO", "/repo")!r}]\n'
                                    'from dst.props.c12 import serve; serve()'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, env=env, text=True)
        atexit.register(stop)
    return _helper


def stop():
    global _helper
    if _helper is not None:
        _helper.kill()
        _helper.wait()
        _helper = None


def serve():
    import warnings
    real_out = sys.stdout
    warnings.simplefilter('ignore')
    from ..core import Seams
    for line in sys.stdin:
        job = json.loads(line)
        s = Sim(seed=0)
        with Seams(s, 0):
            r = execute(job['choices'], job['which'], None, job['rng'], job['clock'])
        real_out.write(json.dumps([r[0], r[1], r[2][:4000]]) + '\n')
        real_out.flush()


def remote(choices, which, rng, clock):
    h = helper()
    try:
        h.stdin.write(json.dumps({'choices': choices, 'which': which, 'rng': rng, 'clock': clock}) + '\n')
        h.stdin.flush()
        line = h.stdout.readline()
    except BaseException:
        stop()
        raise
    if not line:
        stop()
        raise HarnessBug('helper process died')
    return json.loads(line)


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f'event {i}: {x[:150]!r} / {y[:150]!r}'
    return f'lengths {len(a)} / {len(b)}'


def scenario(sim):
    which = WORLDS[sim.choose(len(WORLDS), p0=0.45)]
    rng = sim.choose(1 << 20)
    other = sim.choose(1 << 30)
    clock = sim.choose(3)
    # the inner world draws through the same choice list, so that failures can be minimised
    start = len(sim.choices)
    inner = Sim(seed=0)
    inner.choose, inner.flip = sim.choose, sim.flip
    random.seed(rng)
    with Clock(0):
        try:
            world(inner, which)
            out = 'ok'
        except Violation as v:
            out = f'violation {v.cls} {v.detail}'
        except SutError as e:
            out = f'exception {e.sig}'
        except Discard:
            raise
    inner.log('outcome', out)
    inner.log('model', describe(getattr(inner, 'model', None)))
    info = getattr(inner, 'info', None)
    if info:
        inner.log('info', [(k, info.get(k)) for k in INTS])
    inner.log('next random', random.random())
    choices = sim.choices[start:]
    for t in inner.trace[:40]:
        sim.log(t)
    sim.log('digest', inner.digest())
    sim.features.update(inner.features)
    sim.features.update(world=which, clock=['normal', 'fast', 'jumping'][clock])
    sim.events += inner.events
    sim.now += inner.now
    # the same run again in this process: after another run, with another clock
    if other % 3:
        execute(None, WORLDS[other // 3 % len(WORLDS)], other, other % 1000, 0)
        sim.probe('unrelated run in between')
    if clock:
        sim.fault('clock ' + ['', 'runs fast', 'jumps'][clock])
    r = execute(choices, which, None, rng, clock)
    if r[1] != inner.digest():
        raise Violation('not-reproducible', f'the same run in the same process differs: {first_diff(inner.trace, r[2])}')
    r = remote(choices, which, rng, clock)
    if r[1] != inner.digest():
        raise Violation('not-reproducible-across-processes', f'the same run in another process differs: {first_diff(inner.trace, r[2])}')
    sim.meta['nontrivial'] = inner.events > 60 or which == 'generated data'


RUNS = {'quick': 12_000, 'thorough': 250_000}
