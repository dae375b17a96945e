"""C06: every counterexample an oracle hands out is real."""
from ..core import Violation, SutError, SulDown, SimFault
from ..models import gen_ref, model_view, difference
from ..oraclebox import NAMES, make_oracle, Watch, check_cex, aalpy_machine, meaning, same_hypothesis
from ..world import SimSUL, unchanged
from .c01 import learner_config, learn


def mutate(sim, ref):
    """A different machine over the same alphabet: a wrong hypothesis."""
    from ..models import Ref, minimise
    delta = [dict(r) for r in ref.delta]
    out = [dict(r) for r in ref.out] if ref.out else None
    lab = list(ref.lab) if ref.lab else None
    for _ in range(sim.int(1, 3)):
        s = sim.choose(len(delta))
        a = ref.alphabet[sim.choose(len(ref.alphabet))]
        if sim.flip(0.5):
            delta[s][a] = sim.choose(len(delta))
        elif out:
            out[s][a] = out[sim.choose(len(out))][ref.alphabet[sim.choose(len(ref.alphabet))]]
        else:
            lab[s] = lab[sim.choose(len(lab))]
    if lab:
        lab[0] = ref.lab[0]            # every learner knows the output of the empty word
    return minimise(Ref(ref.kind, ref.alphabet, delta, out, lab))


def passed_over(ref, hyp, cex, kind, name, words):
    """a test that shows a difference is the end of the search; two oracles do not compare outputs on the way to where their walks begin"""
    v = model_view(hyp, kind, ref.alphabet)
    for w, _ in words if cex is None else words[:-1]:
        w = tuple(w)
        if not w or any(a not in ref.delta[0] for a in w):
            continue
        a, b = ref.run(w), v.run(w)
        if a[-1] != b[-1] or name not in ('StatePrefix', 'CacheBased') and a != b:
            raise Violation('difference-passed-over', f'{name} executed {w!r}: system {a!r}, hypothesis {b!r}, and then returned {cex!r}')


def s_learning(sim):
    ref = gen_ref(sim, max_states=8, max_alpha=3, big=0.05)
    name = sim.pick(NAMES)
    cfg = learner_config(sim)
    if name == 'CacheBased':
        cfg['cache'] = True
    sul = SimSUL(sim, ref, max_steps=400_000)
    oracle, params = make_oracle(sim, name, ref, sul, cached=cfg['cache'])
    sim.log('system', ref.describe())
    sim.log('oracle', name, params, cfg)
    sim.features.update(oracle=name, kind=ref.kind, alg=cfg['alg'], mode='learning')
    found, was = [], []

    def before(hyp):
        was[:] = [meaning(hyp), len(sul.words)]

    def after(hyp, cex):
        same_hypothesis(was[0], hyp, name)
        sim.log('EQ', len(hyp.states), None if cex is None else tuple(cex))
        if cex is not None:
            check_cex(ref, hyp, cex, ref.kind, name)
            found.append(cex)
        passed_over(ref, hyp, cex, ref.kind, params.get('inner', name), sul.words[was[1]:])

    w = Watch(oracle, before=before, after=after)
    alphabet = oracle.alphabet if isinstance(getattr(oracle, 'alphabet', None), list) else list(ref.alphabet)
    sim.sut(learn, cfg, alphabet, sul, oracle, ref.kind, max_rounds=2 * ref.n + 6)
    unchanged(alphabet=(list(ref.alphabet), alphabet))
    sim.meta['nontrivial'] = bool(found)
    sim.meta['counterexamples'] = len(found)


def s_standalone(sim):
    """One oracle object against an arbitrary sequence of hypotheses, with the system failing in between."""
    ref = gen_ref(sim, max_states=7, max_alpha=3, big=0.05)
    name = sim.pick([n for n in NAMES if n != 'CacheBased'])
    state = {'arm': None}

    def injector(point, sul):
        if state['arm'] is not None:
            state['arm'] -= 1
            if state['arm'] <= 0:
                state['arm'] = None
                sim.fault('system unreachable in ' + point)
                raise SulDown('connection lost')

    sul = SimSUL(sim, ref, injector=injector, max_steps=400_000)
    oracle, params = make_oracle(sim, name, ref, sul)
    sim.log('system', ref.describe())
    sim.log('oracle', name, params)
    sim.features.update(oracle=name, kind=ref.kind, mode='standalone')
    found = 0
    for _ in range(sim.int(1, 5)):
        hyp_ref = mutate(sim, ref)
        hyp = aalpy_machine(hyp_ref)
        state['arm'] = sim.int(1, 30) if sim.flip(0.3) else None
        sim.log('hypothesis', hyp_ref.describe())
        was = meaning(hyp)
        mark = len(sul.words)
        try:
            cex = sim.sut(oracle.find_cex, hyp)
        except SulDown:
            continue
        finally:
            state['arm'] = None
            same_hypothesis(was, hyp, name)
        sim.log('EQ', None if cex is None else tuple(cex))
        if cex is not None:
            check_cex(ref, hyp, cex, ref.kind, name)
            found += 1
            sim.probe('counterexample after an earlier failed query' if sim.faults else 'counterexample')
        passed_over(ref, hyp, cex, ref.kind, params.get('inner', name), sul.words[mark:])
    sim.meta['nontrivial'] = found > 0
    sim.meta['counterexamples'] = found


def scenario(sim):
    if sim.flip(0.4):
        s_standalone(sim)
    else:
        s_learning(sim)


RUNS = {'quick': 60_000, 'thorough': 400_000}
