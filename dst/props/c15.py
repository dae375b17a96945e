"""C15: exact learning of visibly pushdown languages (1-SEVPA) with KV."""
from aalpy.automata import SevpaAlphabet, Sevpa
from aalpy.learning_algs import run_KV

from ..core import Violation
from ..models import BadModel
from ..vpa import gen_vref, VTeacher, VView, difference_v
from ..oraclebox import Watch
from ..world import SimSUL, unchanged
from .c01 import CEX_KV


def valphabet(ref):
    return SevpaAlphabet(list(ref.internal), list(ref.calls), list(ref.returns),
                         dict(ref.exclusive) if ref.exclusive else None)


def no_error_state(model):
    """the sink every ill-formed or hopeless word ends in is part of the hypotheses, not of the delivered model"""
    for s in model.states:
        if s.is_accepting or s is model.initial_state:
            continue
        if all(t.target_state is s for ts in s.transitions.values() for t in ts) and \
                all(t.target_state is s for o in model.states for ts in o.transitions.values() for t in ts
                    if t.stack_guard and t.stack_guard[0] == s.state_id):
            raise Violation('error-state-delivered', f'{s.state_id} of the returned model is an error state')


def s_exact(sim):
    ref = gen_vref(sim)
    k, dead = ref.minimal_size()
    cexp = sim.pick(CEX_KV)
    cache = not sim.flip(0.35)
    sul = SimSUL(sim, ref, max_steps=400_000)
    teacher = VTeacher(sim, ref, sul, k)
    sim.log('system', ref.describe())
    sim.log('config', cexp, cache, teacher.wander)
    sim.features.update(cexp=cexp, cache=cache, n=k, dead=dead, exclusive=bool(ref.exclusive), wander=teacher.wander,
                        alphabet=f'{len(ref.internal)}{len(ref.calls)}{len(ref.returns)}')
    alphabet = valphabet(ref)
    model = sim.sut(run_KV, alphabet, sul, teacher, 'vpa', cex_processing=cexp, cache_and_non_det_check=cache, print_level=0)
    unchanged(alphabet=tuple([list(a.internal_alphabet), list(a.call_alphabet), list(a.return_alphabet)] for a in (valphabet(ref), alphabet)))
    try:
        v = VView(model, ref)
    except BadModel as e:
        raise Violation('malformed-model', str(e))
    w = difference_v(ref, v)
    if w is not None:
        raise Violation('wrong-model', f'model and system differ on {w!r}: system {ref.run(w)!r} model {v.run(w)!r}')
    no_error_state(model)
    # the delivered object behaves like its transitions say
    for _ in range(4):
        w = tuple(ref.alphabet[sim.choose(len(ref.alphabet))] for _ in range(sim.int(1, 10)))
        sim.sut(model.reset_to_initial)
        got = [sim.sut(model.step, a) for a in w]
        if [bool(g) for g in got] != ref.run(w):
            raise Violation('model-steps-differently', f'{w!r}: model object {got!r}, system {ref.run(w)!r}')
    if len(model.states) > k or len(model.states) < k - (1 if dead else 0):
        raise Violation('not-minimal', f'{len(model.states)} states, the minimal machine has {k} (dead state: {dead})')
    sim.meta['nontrivial'] = len(teacher.sizes) > 1
    sim.meta['rounds'] = len(teacher.sizes)


def s_shipped(sim):
    """Shipped oracles: nothing observed may contradict the model, counterexamples are real, sessions are disciplined."""
    from aalpy.oracles import RandomWordEqOracle, RandomWalkEqOracle, BreadthFirstExplorationEqOracle, StatePrefixEqOracle
    from .c05 import Disciplined
    ref = gen_vref(sim)
    k, dead = ref.minimal_size()
    alpha = list(ref.alphabet)
    sul = Disciplined(sim, ref, max_steps=400_000)
    name = sim.pick(['RandomWord', 'RandomWalk', 'BFE', 'StatePrefix'])
    lo = sim.int(1, 8)
    compared = 0
    if name == 'RandomWord':
        oracle = RandomWordEqOracle(alpha, sul, num_walks=sim.int(1, 40), min_walk_len=lo, max_walk_len=lo + sim.int(0, 8),
                                    reset_after_cex=not sim.flip(0.4))
    elif name == 'RandomWalk':
        oracle = RandomWalkEqOracle(alpha, sul, num_steps=sim.int(1, 200), reset_after_cex=not sim.flip(0.4), reset_prob=[0.09, 0.3][sim.choose(2)])
    elif name == 'BFE':
        oracle = BreadthFirstExplorationEqOracle(alpha, sul, depth=sim.int(1, 3))
    else:
        walks, compared = sim.int(1, 5), sim.int(1, 8)
        oracle = StatePrefixEqOracle(alpha, sul, walks_per_state=walks, walk_len=compared)       # the outputs of the access sequence itself are not compared by this oracle
    cexp = sim.pick(CEX_KV)
    cache = not sim.flip(0.35)
    sim.log('system', ref.describe())
    sim.log('config', name, cexp, cache)
    sim.features.update(oracle=name, cexp=cexp, cache=cache, n=k, exclusive=bool(ref.exclusive))
    sizes = []

    def after(hyp, cex):
        sizes.append(len(hyp.states))
        v = view(hyp, ref, 'hypothesis')
        sim.log('EQ', len(hyp.states), cex)
        if cex is None:
            return
        w = tuple(cex)
        if not w or any(a not in alpha for a in w):
            raise Violation('bad-counterexample', f'{name}: {cex!r}')
        a, b = ref.run(w), v.run(w)
        if a[-1] == b[-1]:
            raise Violation('false-counterexample', f'{name} returned {w!r}: both answer {a!r}')
        sim.probe('counterexample')

    Watch(oracle, after=after)
    model, sim.info = sim.sut(run_KV, valphabet(ref), sul, oracle, 'vpa', cex_processing=cexp, cache_and_non_det_check=cache, print_level=0,
                              return_data=True)
    sim.model = model
    v = view(model, ref, 'model')
    no_error_state(model)
    if len(model.states) > k:
        raise Violation('not-minimal', f'{len(model.states)} states, the minimal machine has {k}')
    last = sul.words[-1]
    if tuple(last[1])[-compared:] != tuple(v.run(last[0]))[-compared:]:
        raise Violation('refuted-model-returned', f'the last test {last[0]!r} was answered {last[1]!r}, the model says {v.run(last[0])!r}')
    sim.meta['nontrivial'] = len(sizes) > 1


def view(model, ref, what):
    try:
        return VView(model, ref)
    except BadModel as e:
        raise Violation('malformed-' + what, str(e))


def scenario(sim):
    if sim.choose(3, p0=0.6) == 0:
        s_exact(sim)
    else:
        s_shipped(sim)


RUNS = {'quick': 48_000, 'thorough': 600_000}
