"""C07: conformance-testing oracles deliver the coverage they promise, over a whole learning history."""
from aalpy.oracles import WMethodEqOracle, WpMethodEqOracle, BreadthFirstExplorationEqOracle

from ..core import Violation
from ..models import gen_ref, model_view, difference
from ..oraclebox import Watch, aalpy_machine
from ..world import SimSUL
from .c01 import learner_config, learn
from .c06 import mutate


def oracle_for(sim, ref, sul):
    """-> (oracle, name, check(view) -> word the oracle had to find or None)"""
    which = sim.choose(3)
    if which == 2:
        depth = sim.int(1, 6)
        while depth > 1 and len(ref.alphabet) ** depth > 260:
            depth -= 1
        o = BreadthFirstExplorationEqOracle(list(ref.alphabet), sul, depth)

        def must(v):
            w = difference(ref, v)          # a shortest one
            return w if w is not None and len(w) <= depth else None
        return o, f'BFE depth {depth}', must
    m = ref.n + sim.choose(3, p0=0.6)
    while m > ref.n and len(ref.alphabet) ** (m - 1) > 200:
        m -= 1
    if which == 0:
        o = WMethodEqOracle(list(ref.alphabet), sul, m, shuffle_test_set=sim.flip(0.5))
    else:
        o = WpMethodEqOracle(list(ref.alphabet), sul, m)
    return o, f'{type(o).__name__} bound {m}', lambda v: difference(ref, v)


def judge(sim, hyp, cex, ref, must, name, when):
    if cex is not None:
        return
    v = model_view(hyp, ref.kind, ref.alphabet)
    w = must(v)
    if w is not None:
        raise Violation('missed-counterexample', f'{name} {when} accepted a {v.n}-state hypothesis of the {ref.n}-state system; '
                                                 f'they differ on {w!r}')


def s_learning(sim):
    ref = gen_ref(sim, max_states=9, max_alpha=3)
    cfg = learner_config(sim)
    sul = SimSUL(sim, ref, max_steps=3_000_000)
    o, name, must = oracle_for(sim, ref, sul)
    sim.log('system', ref.describe())
    sim.log('config', name, cfg)
    sim.features.update(alg=cfg['alg'], kind=ref.kind, oracle=name.split()[0], cexp=str(cfg.get('cex_processing')), cache=cfg['cache'], mode='learning')

    def after(hyp, cex):
        sim.log('EQ', len(hyp.states), None if cex is None else tuple(cex))
        judge(sim, hyp, cex, ref, must, name, f'in round {w.rounds}')

    w = Watch(o, after=after)
    model = sim.sut(learn, cfg, list(ref.alphabet), sul, o, ref.kind)
    judge(sim, model, None, ref, must, name, 'after learning')
    sim.meta['nontrivial'] = w.rounds > 1


def s_sequence(sim):
    """One oracle object asked about a sequence of unrelated hypotheses (an oracle reused for several learning runs)."""
    ref = gen_ref(sim, max_states=8, max_alpha=3)
    sul = SimSUL(sim, ref, max_steps=3_000_000)
    o, name, must = oracle_for(sim, ref, sul)
    sim.log('system', ref.describe())
    sim.log('config', name)
    sim.features.update(kind=ref.kind, oracle=name.split()[0], mode='sequence')
    for i in range(sim.int(1, 5)):
        hyp_ref = mutate(sim, ref)
        if hyp_ref.n > ref.n:
            continue
        hyp = aalpy_machine(hyp_ref)
        sim.log('hypothesis', hyp_ref.describe())
        cex = sim.sut(o.find_cex, hyp)
        sim.log('EQ', None if cex is None else tuple(cex))
        judge(sim, hyp, cex, ref, must, name, f'as query {i + 1}')
        if cex is not None:
            sim.meta['nontrivial'] = True


def scenario(sim):
    if sim.flip(0.25):
        s_sequence(sim)
    else:
        s_learning(sim)


RUNS = {'quick': 25_000, 'thorough': 900_000}
