"""Deterministic simulator core.

Every decision of a simulated run (which scenario, which system, which answers the environment gives, which fault
happens when, which session runs next, the value the product's random generator is seeded with) is drawn through
Sim.choose, so one integer seed is one execution, and the recorded list of choices is a replayable, shrinkable trace.
"""
import builtins
import hashlib
import io
import os
import random
import sys
import time
import traceback

REPO = os.environ.get('AALPY_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))


class Violation(BaseException):
    """The property is broken: raised by the simulated environment or by the history check.

    cls: stable class of the violation (kept while a failure is minimised), e.g. 'wrong-model'
    """

    def __init__(self, cls, detail):
        super().__init__(f'{cls}: {detail}')
        self.cls = cls
        self.detail = str(detail)


class Discard(BaseException):
    """The run cannot say anything about the property (counted, never a verdict)."""


class ChoiceOverrun(Discard):
    """A run drew too many choices (only possible for broken shrunk inputs)."""


class SutError(Exception):
    """An exception that came out of the code under test."""

    def __init__(self, exc):
        super().__init__(f'{type(exc).__name__}: {exc}')
        self.exc = exc
        self.where = site_of(exc)
        self.sig = f'{type(exc).__name__}@{self.where}'


def site_of(exc):
    """file:function of the innermost frame that belongs to the code under test (no line numbers: stable)."""
    site = '?'
    for fs in traceback.extract_tb(exc.__traceback__):
        fn = os.path.realpath(fs.filename)
        if fn.startswith(os.path.realpath(REPO) + os.sep):
            site = f'{os.path.relpath(fn, os.path.realpath(REPO))}:{fs.name}'
    return site


def innermost_is_harness(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    return bool(tb) and os.path.realpath(tb[-1].filename).startswith(HERE + os.sep)


MAX_CHOICES = 400_000


class Sim:
    def __init__(self, seed=None, choices=None, verbose=False):
        self.seed = seed
        self.replaying = choices is not None
        self._in = list(choices) if choices is not None else None
        self._pos = 0
        self.gen = random.Random(seed if seed is not None else 0)
        self.choices = []
        self.verbose = verbose
        self.trace = []                 # readable history (bounded)
        self.trace_dropped = 0
        self._h = hashlib.sha256()
        self.events = 0
        self.faults = {}
        self.probes = {}
        self.features = {}
        self.now = 0.0                  # simulated seconds
        self.shared = False             # other runs take place at the same time in this process
        self.second = None              # a second run inside this one, whose clock is ticking
        self.meta = {}

    # ---- choices -------------------------------------------------------------------------------------------------
    def choose(self, n, p0=None):
        """An integer in [0, n). Index 0 must be the simplest alternative. p0: probability of 0 when generating."""
        if n <= 1:
            return 0
        if len(self.choices) >= MAX_CHOICES:
            raise ChoiceOverrun()
        if self._in is not None:
            v = self._in[self._pos] if self._pos < len(self._in) else 0
            self._pos += 1
            v = v % n if v >= 0 else 0
        elif p0 is not None:
            v = 0 if self.gen.random() < p0 else 1 + self.gen.randrange(n - 1)
        else:
            v = self.gen.randrange(n)
        self.choices.append(v)
        return v

    def flip(self, p):
        """True with probability p (True is the 'complicated' alternative)."""
        if len(self.choices) >= MAX_CHOICES:
            raise ChoiceOverrun()
        if self._in is not None:
            v = self._in[self._pos] if self._pos < len(self._in) else 0
            self._pos += 1
            v = 1 if v else 0
        else:
            v = 1 if self.gen.random() < p else 0
        self.choices.append(v)
        return bool(v)

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def int(self, lo, hi):
        """Uniform in [lo, hi], lo simplest."""
        return lo + self.choose(hi - lo + 1)

    def geo(self, cap, p=0.5):
        """Small number, usually near 0, at most cap."""
        n = 0
        while n < cap and self.flip(p):
            n += 1
        return n

    def shuffle(self, seq):
        out = list(seq)
        for i in range(len(out) - 1):
            j = i + self.choose(len(out) - i)
            out[i], out[j] = out[j], out[i]
        return out

    # ---- log -----------------------------------------------------------------------------------------------------
    def log(self, *what):
        self.events += 1
        s = ' '.join(w if type(w) is str else repr(w) for w in what)
        self._h.update(s.encode('utf8', 'replace'))
        self._h.update(b'\n')
        if len(self.trace) < 4000:
            self.trace.append(s)
        else:
            self.trace_dropped += 1

    def digest(self):
        return self._h.hexdigest()

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log('FAULT', kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def feature(self, name, value=True):
        """Configuration dimension exercised by the run (reported as counts)."""
        self.features[name] = value

    def tick(self, dt):
        self.now += dt

    # ---- product calls -------------------------------------------------------------------------------------------
    def sut(self, fn, *a, **k):
        """Call the code under test; its exceptions come back as SutError, everything of ours passes through."""
        try:
            return fn(*a, **k)
        except (Violation, Discard, HangTimeout):
            raise
        except (SimFault, SystemExit, KeyboardInterrupt):
            raise
        except RecursionError as e:
            raise SutError(e) from e
        except Exception as e:
            if innermost_is_harness(e) and not getattr(e, 'simulated', False):
                if isinstance(e, (AttributeError, TypeError, KeyError, IndexError, ValueError)):
                    # the product called a simulated part with something no system, oracle or disk can make sense of
                    raise Violation(f'malformed-call {type(e).__name__}', ''.join(traceback.format_exception(e))[-1500:])
                raise HarnessBug(''.join(traceback.format_exception(e))) from e
            raise SutError(e) from e


class HarnessBug(BaseException):
    pass


class HangTimeout(BaseException):
    """Wall watchdog inside a worker; never a verdict by itself."""


class SimFault(Exception):
    """Base of exceptions injected by simulated systems (a real deployment would raise e.g. ConnectionError)."""
    simulated = True


class SulDown(SimFault, ConnectionError):
    pass


class SulTimeout(SimFault, TimeoutError):
    pass


# ---------------------------------------------------------------------------------------------------------------------
# process-wide seams

class Seams:
    """Installs virtual time, seeded randomness, captured output and blocked ambient effects around one run."""

    TIME_NAMES = ['time', 'perf_counter', 'monotonic', 'process_time']

    def __init__(self, sim, rng_seed):
        self.sim = sim
        self.rng_seed = rng_seed

    def __enter__(self):
        sim = self.sim
        self.saved_time = {n: getattr(time, n) for n in self.TIME_NAMES}
        self.saved_sleep = time.sleep
        base = 1_600_000_000.0

        def vclock():
            at = sim.second or sim
            at.now += 1e-6
            return base + at.now + sim.meta.get('clock_skew', 0.0)

        for n in self.TIME_NAMES:
            setattr(time, n, vclock)

        def vsleep(s):
            at = sim.second or sim
            at.now += max(0.0, s)

        time.sleep = vsleep
        self.saved_out, self.saved_err = sys.stdout, sys.stderr
        self.out = io.StringIO()
        sys.stdout = self.out
        sys.stderr = self.out
        self.saved_input = builtins.input

        def no_input(*_a):
            raise HarnessBug('code under test asked for real user input')

        builtins.input = no_input
        self.rng_state = random.getstate()
        random.seed(self.rng_seed)
        import warnings
        self._w = warnings.catch_warnings()
        self._w.__enter__()
        warnings.simplefilter('ignore')
        self.rec = sys.getrecursionlimit()
        return self

    def __exit__(self, *a):
        for n, f in self.saved_time.items():
            setattr(time, n, f)
        time.sleep = self.saved_sleep
        sys.stdout, sys.stderr = self.saved_out, self.saved_err
        builtins.input = self.saved_input
        random.setstate(self.rng_state)
        self._w.__exit__(None, None, None)
        sys.setrecursionlimit(self.rec)
        return False


class RunResult:
    __slots__ = ('status', 'cls', 'detail', 'choices', 'digest', 'trace', 'faults', 'probes', 'features', 'sim_time',
                 'events', 'meta', 'seed')

    def as_dict(self):
        return {k: getattr(self, k, None) for k in self.__slots__}


def run_one(scenario, seed=None, choices=None):
    """One simulated run. status: ok | violation | discard | harness"""
    sim = Sim(seed=seed, choices=choices)
    res = RunResult()
    res.cls = res.detail = None
    try:
        rng_seed = sim.choose(1 << 20)
        with Seams(sim, rng_seed):
            scenario(sim)
        res.status = 'ok'
    except Violation as v:
        res.status, res.cls, res.detail = 'violation', v.cls, v.detail
    except Discard as d:
        res.status, res.detail = 'discard', repr(d)
    except SutError as e:
        # an exception no scenario expected: the product failed where the property promises an answer
        res.status, res.cls, res.detail = 'violation', 'unexpected-exception ' + e.sig, str(e)
    except SystemExit as e:
        res.status, res.cls, res.detail = 'violation', 'unexpected-exit@' + site_of(e), str(e)[:300]
    except HangTimeout:
        raise
    except MemoryError:
        raise
    except (AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
        # what the product handed over has not the documented shape (None instead of a model, a tuple instead of a
        # model, a state without its label, ...): the scenario could not even look at it
        res.status, res.cls = 'violation', f'malformed-result {type(e).__name__}'
        res.detail = ''.join(traceback.format_exception(e))[-1500:]
    except BaseException as e:
        res.status, res.detail = 'harness', ''.join(traceback.format_exception(e))[-4000:]
    res.choices = sim.choices
    res.digest = sim.digest()
    res.trace = sim.trace
    res.faults, res.probes, res.features = sim.faults, sim.probes, sim.features
    res.sim_time, res.events, res.meta, res.seed = sim.now, sim.events, sim.meta, seed
    return res
