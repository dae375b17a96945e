"""C13: learning sessions that run concurrently in one process do not influence each other."""
import importlib
import random
import resource
import sys
import threading

from ..core import Sim, Violation, Discard, SutError, HangTimeout, HarnessBug, REPO

WORLDS = ['c01', 'c04', 'c06', 'c09', 'c10', 'c15', 'c02', 'c05', 'c08']


POINTS = 60_000          # scheduling decisions of one run


class Abort(BaseException):
    pass


class Baton:
    """Exactly one session runs at a time; at every yield point the scheduler decides who continues.

    The random generator of the process is multiplexed: each session sees its own stream.
    """

    def __init__(self, sim, switch):
        self.sim, self.switch = sim, switch
        self.threads = {}
        self.locks = {}
        self.rng = {}
        self.ready = []
        self.current = None
        self.dead = False
        self.main = threading.Semaphore(0)
        self.switches = 0
        self.points = 0
        self.inside = 0

    def add(self, k, fn, rng_seed):
        self.locks[k] = threading.Semaphore(0)
        self.rng[k] = random.Random(rng_seed).getstate()
        self.ready.append(k)

        def body():
            self.locks[k].acquire()
            try:
                if not self.dead:
                    fn()
            except Abort:
                pass
            finally:
                sys.settrace(None)
                self.finish(k)

        t = threading.Thread(target=body, daemon=True)
        self.threads[k] = t
        t.start()

    def resume(self, k):
        self.current = k
        random.setstate(self.rng[k])
        self.locks[k].release()

    def run(self):
        first = self.ready[self.sim.choose(len(self.ready))]
        self.resume(first)
        try:
            self.main.acquire()
        except BaseException:
            self.dead = True
            for k in list(self.ready):
                self.locks[k].release()
            raise

    def finish(self, k):
        self.ready.remove(k)
        if self.dead or not self.ready:
            self.main.release()
            return
        self.sim.log('session ends', k)
        self.resume(self.ready[self.sim.choose(len(self.ready))])

    def point(self, k, where=''):
        if self.dead:
            raise Abort()
        self.points += 1
        # the scheduler of a run has a bounded number of decisions; after them the sessions end one after the other
        if len(self.ready) < 2 or self.switches > 4000 or self.points > POINTS or not self.sim.flip(self.switch):
            return
        nxt = self.ready[self.sim.choose(len(self.ready))]
        if nxt == k:
            return
        self.switches += 1
        if where:
            self.inside += 1
        self.rng[k] = random.getstate()
        self.resume(nxt)
        self.locks[k].acquire()
        if self.dead:
            raise Abort()


class SessionSim(Sim):
    """The simulator of one session: its decisions depend on its own seed only; every event is a yield point."""
    baton = None
    key = None

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.shared = True

    def tick(self, dt):
        super().tick(dt)
        if self.baton:
            self.baton.point(self.key)

    def log(self, *what):
        super().log(*what)
        if self.baton:
            self.baton.point(self.key)


def preempt(baton, k, every):
    """Line-level preemption inside the code under test."""
    root = REPO + '/aalpy/'
    count = [every]

    def local(frame, event, arg):
        if event == 'line':
            count[0] -= 1
            if count[0] <= 0:
                count[0] = 1 + (baton.sim.choose(2 * every) if baton.points <= POINTS else every)
                baton.point(k, 'line')
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(root):
            return local
        return None

    return tracer


def session(world, sub):
    """-> comparable result of one session"""
    try:
        world.scenario(sub)
        return ('ok', sub.digest(), sub.events, tuple(sorted((k, v) for k, v in sub.meta.items() if type(v) in (int, bool))))
    except Violation as v:
        return ('violation', v.cls, v.detail, sub.digest())
    except Discard as d:
        return ('discard', repr(d), '', sub.digest())
    except SutError as e:
        return ('exception', e.sig, str(e), sub.digest())
    except SystemExit as e:
        return ('exit', str(e)[:200], '', sub.digest())


def alone(plan, sim=None):
    out = []
    for w, seed in plan:
        state = random.getstate()
        random.seed(seed)
        sub = SessionSim(seed=seed)
        out.append(session(w, sub))
        random.setstate(state)
        if sim is not None:
            sim.faults.update(sub.faults)
            sim.events += sub.events
            sim.now += sub.now
        if sub.events > 30_000:
            raise Discard('long session')
    return out


def scenario(sim):
    plan = []
    same = sim.flip(0.3)
    for k in range(sim.int(2, 3) if sim.flip(0.8) else 4):
        if same and plan and sim.flip(0.7):
            plan.append(plan[0])                      # the same session twice at the same time
        else:
            name = WORLDS[sim.choose(len(WORLDS), p0=0.2)]
            plan.append((importlib.import_module('dst.props.' + name), sim.choose(1 << 24)))
    names = [w.__name__[-3:] for w, _ in plan]
    sim.log('sessions', names, [s for _, s in plan])
    sim.features['big system'] = True          # a session that takes too long alone says nothing about interference
    t0 = resource.getrusage(resource.RUSAGE_SELF).ru_utime
    want = alone(plan, sim)
    # only decides whether too much work is reported: preemption at every few lines costs much more than the sessions themselves
    if resource.getrusage(resource.RUSAGE_SELF).ru_utime - t0 < 1:
        sim.features['big system'] = False
    if any(w[0] in ('violation', 'exception', 'exit') for w in want):
        # whatever is wrong with a session that runs alone is another property's business
        raise Discard('a session fails when it runs alone: ' + str([w[:3] for w in want if w[0] not in ('ok', 'discard')])[:400])
    lines = sim.flip(0.35)
    baton = Baton(sim, [0.3, 0.05, 0.9][sim.choose(3)] if not lines else 0.6)
    every = [50, 400, 7][sim.choose(3)] if lines else 0
    got = {}
    broken = []

    def start(k):
        w, seed = plan[k]
        sub = SessionSim(seed=seed)
        sub.baton, sub.key = baton, k

        def fn():
            if lines:
                sys.settrace(preempt(baton, k, every))
            try:
                got[k] = session(w, sub)
            except Abort:
                raise
            except BaseException as e:
                broken.append(e)
                baton.dead = True
                for o in baton.ready:
                    if o != k:
                        baton.locks[o].release()
            finally:
                sys.settrace(None)

        baton.add(k, fn, seed)

    for k in range(len(plan)):
        start(k)
    state = random.getstate()
    try:
        baton.run()
    finally:
        random.setstate(state)
        for t in baton.threads.values():
            t.join(2)
    if broken:
        raise broken[0]
    sim.log('switches', baton.switches, baton.points, baton.inside)
    sim.probe('context switches', baton.switches)
    sim.probe('context switches inside a product function', baton.inside)
    sim.features.update(lines=lines, sessions=len(plan), same=same, **{'world ' + n: True for n in names})
    sim.meta['nontrivial'] = baton.switches > 2
    for k in range(len(plan)):
        if got.get(k) != want[k]:
            raise Violation('session-disturbed', f'session {k} ({names[k]}, seed {plan[k][1]}) alone: {want[k]!r}, next to '
                                                 f'{names[:k] + names[k + 1:]}: {got.get(k)!r}'[:1500])
    again = alone(plan)
    if again != want:
        k = next(i for i in range(len(plan)) if again[i] != want[i])
        raise Violation('session-disturbed', f'session {k} ({names[k]}) alone: {want[k]!r}, again after the concurrent run: {again[k]!r}'[:1500])


RUNS = {'quick': 2_500, 'thorough': 60_000}
