"""Complete learning sessions of every learner, repeatable with other options (round limit, verbosity, ...)."""
import random

from aalpy.learning_algs import run_adaptive_Lsharp, run_KV, run_non_det_Lstar, run_stochastic_Lstar
from aalpy.oracles import RandomWordEqOracle, RandomWalkEqOracle

from .core import Sim, Violation
from .models import gen_ref
from .oraclebox import make_oracle, NAMES, aalpy_machine
from .world import SimSUL, Teacher

KINDS = ['lstar', 'kv', 'lsharp', 'adaptive', 'onfsm', 'stochastic', 'vpa']


def snap(model):
    """What a model of any learned type means and how its states are named; repeatable text."""
    num = {id(s): i for i, s in enumerate(model.states)}
    rows = []
    for s in model.states:
        tr = []
        for a, x in sorted(s.transitions.items(), key=lambda e: repr(e[0])):
            if isinstance(x, list):
                items = []
                for e in x:
                    if isinstance(e, tuple):
                        items.append(tuple(num.get(id(y), '!') if hasattr(y, 'transitions') else y for y in e))
                    else:
                        items.append((e.letter, num.get(id(e.target_state), '!'), e.action, repr(e.stack_guard)))
                tr.append((a, items))
            else:
                tr.append((a, num.get(id(x), '!')))
        rows.append((s.state_id, getattr(s, 'output', None), getattr(s, 'is_accepting', None),
                     sorted(getattr(s, 'output_fun', {}).items(), key=repr), tr))
    return repr((num.get(id(model.initial_state), '!'), sorted(rows, key=repr) if False else rows))


class Counter:
    """Counts what is executed on the system, by phase."""

    def __init__(self, sul):
        self.phase = 'learning'
        self.sessions = {'learning': 0, 'oracle': 0}
        self.steps = {'learning': 0, 'oracle': 0}
        pre, step = sul.pre, sul.step

        def cpre():
            self.sessions[self.phase] += 1
            return pre()

        def cstep(letter):
            if letter is not None:
                self.steps[self.phase] += 1
            return step(letter)

        sul.pre, sul.step = cpre, cstep


class Record:
    pass


def play(sim, alg, limit=None, print_level=0, return_data=True, only=None):
    """One session; everything is drawn from sim. -> Record"""
    rec = Record()
    rec.alg, rec.eqs, rec.info = alg, [], None
    rec.name = None
    from .props.c01 import without_defaults
    kw = without_defaults(print_level=print_level, return_data=return_data)
    if alg in ('lstar', 'kv', 'lsharp', 'adaptive'):
        from .props.c01 import learner_config, learn
        ref = gen_ref(sim, max_states=8, max_alpha=3)
        cfg = learner_config(sim, ['lsharp' if alg == 'adaptive' else alg])
        name = sim.pick(only or NAMES + ['teacher', 'teacher', 'teacher'])
        if name == 'CacheBased':
            cfg['cache'] = True
        sul = SimSUL(sim, ref, max_steps=400_000)
        count = Counter(sul)
        rec.params = None
        if name == 'teacher':
            oracle = Teacher(sim, ref.alphabet, sul, ref, ref.kind)
        else:
            oracle, rec.params = make_oracle(sim, name, ref, sul, cached=cfg['cache'])
        samples = None
        if alg in ('lstar', 'lsharp', 'adaptive') and sim.flip(0.15):
            samples = []
            for _ in range(sim.int(1, 4)):
                w = tuple(ref.alphabet[sim.choose(len(ref.alphabet))] for _ in range(sim.int(1, 6)))
                samples.append((w, tuple(ref.run(w))))
        rec.cached = cfg['cache'] or samples is not None
        rec.cfg, rec.ref, rec.kind, rec.alphabet = cfg, ref, ref.kind, list(ref.alphabet)
        if alg == 'adaptive':
            from .props.c14 import draw_reference
            refs = [aalpy_machine(draw_reference(sim, ref)) for _ in range(sim.int(1, 2))]

            def call():
                return run_adaptive_Lsharp(list(ref.alphabet), sul, refs, oracle, ref.kind, samples=samples,
                                           **without_defaults(max_learning_rounds=limit, cache_and_non_det_check=cfg['cache']),
                                           state_matching=sim.pick(['Approximate', 'Total', None]), **kw)
        else:
            def call():
                return learn(cfg, list(ref.alphabet), sul, oracle, ref.kind, samples=samples, max_rounds=limit,
                             return_data=return_data, print_level=print_level)
    elif alg == 'onfsm':
        from .props.c09 import gen_nref, NSystem, NTeacher
        ref = gen_nref(sim)
        sul = NSystem(sim, ref, sim.int(1, 8) if sim.flip(0.2) else None)
        count = Counter(sul)
        name = sim.pick(['teacher', 'RandomWord', 'RandomWalk'])
        oracle = other_oracle(sim, name, ref, sul) or NTeacher(sim, ref, sul, 0)
        n_sampling, stochastic = sim.int(1, 6), sim.flip(0.3)
        rec.cached, rec.ref, rec.kind, rec.cfg, rec.alphabet = False, ref, 'smm' if stochastic else 'onfsm', None, list(ref.alphabet)

        def call():
            return run_non_det_Lstar(list(ref.alphabet), sul, oracle, n_sampling=n_sampling, stochastic=stochastic,
                                     max_learning_rounds=limit, **kw)
    elif alg == 'stochastic':
        from .props.c10 import gen_pref, PSystem, PTeacher
        ref = gen_pref(sim)
        sul = PSystem(sim, ref, 0)
        count = Counter(sul)
        name = sim.pick(['teacher', 'RandomWord', 'RandomWalk'])
        oracle = other_oracle(sim, name, ref, sul) or PTeacher(ref, sul)
        strategy, cexp = sim.pick(['normal', 'chi2', 'classic']), sim.pick([None, 'longest_prefix'])
        min_r = sim.int(1, 3)
        max_r = min_r + sim.int(0, 3)
        n_c, n_r = sim.int(2, 8), sim.int(5, 40)
        rec.cached, rec.ref, rec.kind, rec.cfg, rec.alphabet = False, ref, ref.kind, (strategy, cexp, min_r, max_r), list(ref.alphabet)

        def call():
            return run_stochastic_Lstar(list(ref.alphabet), sul, oracle, min_rounds=min(min_r, limit or min_r), max_rounds=limit or max_r,
                                        automaton_type=ref.kind, strategy=strategy, cex_processing=cexp, custom_oracle=True, n_c=n_c,
                                        n_resample=n_r, **kw)
    else:
        from .props.c15 import valphabet
        from .props.c01 import CEX_KV
        from .vpa import gen_vref, VTeacher
        ref = gen_vref(sim)
        k, _ = ref.minimal_size()
        sul = SimSUL(sim, ref, max_steps=400_000)
        count = Counter(sul)
        name = sim.pick(['teacher', 'RandomWord', 'RandomWalk'])
        oracle = other_oracle(sim, name, ref, sul) or VTeacher(sim, ref, sul, k)
        cexp, cache = sim.pick(CEX_KV), not sim.flip(0.35)
        rec.cached, rec.ref, rec.kind, rec.cfg, rec.alphabet = cache, ref, 'vpa', cexp, list(ref.alphabet)

        def call():
            return run_KV(valphabet(ref), sul, oracle, 'vpa', cex_processing=cexp,
                          **without_defaults(cache_and_non_det_check=cache, max_learning_rounds=limit), **kw)
    rec.name, rec.count, rec.sul, rec.oracle = name, count, sul, oracle
    sim.log('session', alg, rec.ref.describe(), rec.cfg, name, getattr(rec, 'params', None))
    orig = oracle.find_cex

    def find_cex(hyp):
        count.phase = 'oracle'
        began = sim.now
        try:
            before = snap(hyp)
            cex = orig(hyp)
        finally:
            count.phase = 'learning'
            rec.oracle_time += sim.now - began
        rec.eqs.append((before, None if cex is None else repr(tuple(cex)), len(hyp.states)))
        rec.last_hyp = hyp
        return cex

    oracle.find_cex = find_cex
    rec.oracle_time, began = 0.0, sim.now
    out = sim.sut(call)
    rec.total_time = sim.now - began
    if return_data:
        if not isinstance(out, tuple) or len(out) != 2 or not isinstance(out[1], dict):
            raise Violation('no-data-returned', f'{alg}: return_data=True returned {type(out).__name__}')
        rec.model, rec.info = out
    else:
        rec.model = out
    return rec


def other_oracle(sim, name, ref, sul):
    if name == 'RandomWord':
        lo = sim.int(1, 4)
        return RandomWordEqOracle(list(ref.alphabet), sul, num_walks=sim.int(1, 30), min_walk_len=lo, max_walk_len=lo + sim.int(0, 4),
                                  reset_after_cex=not sim.flip(0.3))
    if name == 'RandomWalk':
        return RandomWalkEqOracle(list(ref.alphabet), sul, num_steps=sim.int(1, 120), reset_after_cex=not sim.flip(0.3),
                                  reset_prob=[0.09, 0.5][sim.choose(2)])
    return None


def twice(sim, first, second):
    """Runs two variants of a session from the same decisions and the same random stream."""
    state = random.getstate()
    mark = len(sim.choices)
    a = first(sim)
    used = sim.choices[mark:]
    end = random.getstate()
    random.setstate(state)
    other = Sim(choices=used)
    other.now = sim.now
    sim.second = other
    try:
        b = second(other)
    finally:
        sim.second = None
        sim.now = other.now
        for t in other.trace[:400]:
            sim.log('  second:', t)
        random.setstate(end)
    return a, b, other
