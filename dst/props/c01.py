"""C01: exact active learning of deterministic systems against a free-choice teacher."""
from aalpy.learning_algs import run_Lstar, run_KV, run_Lsharp

from ..core import Violation
from ..models import gen_ref, model_view, difference, BadModel
from ..world import SimSUL, Teacher, unchanged

CEX_LSTAR = ['rs', None, 'longest_prefix', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']
CEX_KV = ['rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']


def learner_config(sim, algs=('lstar', 'kv', 'lsharp')):
    alg = sim.pick(list(algs))
    cfg = {'alg': alg, 'cache': not sim.flip(0.35)}
    if alg == 'lstar':
        cfg['cex_processing'] = sim.pick(CEX_LSTAR)
        cfg['closing_strategy'] = sim.pick(['shortest_first', 'longest_first', 'single', 'single_longest'])
        cfg['e_set_suffix_closed'] = not sim.flip(0.5)
        cfg['all_prefixes_in_obs_table'] = not sim.flip(0.5)
    elif alg == 'kv':
        cfg['cex_processing'] = sim.pick(CEX_KV)
    else:
        cfg['extension_rule'] = sim.pick(['SepSeq', None, 'ADS'])
        cfg['separation_rule'] = sim.pick(['SepSeq', 'ADS'])
    return cfg


def without_defaults(**options):
    """Options that have their documented default value are left to the learner."""
    default = dict(cache_and_non_det_check=True, print_level=2, max_learning_rounds=None, return_data=False)
    return {k: v for k, v in options.items() if v is not default[k]}


def learn(cfg, alphabet, sul, oracle, kind, samples=None, max_rounds=None, return_data=False, print_level=0):
    kw = {k: v for k, v in cfg.items() if k not in ('alg', 'cache')}
    kw.update(without_defaults(cache_and_non_det_check=cfg['cache'], print_level=print_level, max_learning_rounds=max_rounds,
                               return_data=return_data))
    if cfg['alg'] == 'lstar':
        return run_Lstar(alphabet, sul, oracle, kind, samples=samples, **kw)
    if cfg['alg'] == 'kv':
        return run_KV(alphabet, sul, oracle, kind, **kw)
    return run_Lsharp(alphabet, sul, oracle, kind, samples=samples, **kw)


def check_exact(model, ref, kind, what=''):
    try:
        v = model_view(model, kind, ref.alphabet)
    except BadModel as e:
        raise Violation('malformed-model', f'{what}{e}')
    w = difference(ref, v)
    if w is not None:
        raise Violation('wrong-model', f'{what}model and system differ on {w!r}: system {ref.run(w)!r} '
                                       f'(initial {None if kind == "mealy" else ref.lab[0]!r}) model {v.run(w)!r}')
    if v.n != ref.n:
        raise Violation('not-minimal', f'{what}learned model has {v.n} states, the system has {ref.n}')


def progress(teacher, hypothesis, hyp):
    """every hypothesis has more states than the refuted one before it, and never more than the system"""
    z = teacher.sizes
    if z[-1] > teacher.ref.n:
        raise Violation('hypothesis-too-large', f'hypothesis {len(z)} has {z[-1]} states, the system {teacher.ref.n}')
    if len(z) > 1 and z[-1] <= z[-2]:
        raise Violation('no-progress', f'a counterexample was processed, but hypothesis sizes are {z}')


def scenario(sim):
    ref = gen_ref(sim, max_states=12, big=0.06)
    cfg = learner_config(sim)
    kind = ref.kind
    sim.log('system', ref.describe())
    sim.log('config', sorted(cfg.items(), key=str))
    sul = SimSUL(sim, ref, max_steps=400_000 if ref.n <= 12 else 4_000_000)
    teacher = Teacher(sim, ref.alphabet, sul, ref, kind, max_rounds=ref.n, on_query=progress)
    samples = None
    if cfg['alg'] != 'kv' and sim.flip(0.3):
        samples = []
        for _ in range(sim.int(1, 6)):
            w = tuple(ref.alphabet[sim.choose(len(ref.alphabet))] for _ in range(sim.int(1, 8)))
            samples.append((w, tuple(ref.run(w))))
        sim.log('samples', samples)
    sim.features.update({'alg': cfg['alg'], 'kind': kind, 'cache': cfg['cache'],
                         'cexp': str(cfg.get('cex_processing')), 'ext': str(cfg.get('extension_rule')), 'sep': str(cfg.get('separation_rule')),
                         'n': ref.n, 'samples': bool(samples)})
    alphabet = sim.shuffle(ref.alphabet) if sim.flip(0.3) else list(ref.alphabet)
    was = list(alphabet)
    given = samples and [(list(w), list(o)) if i % 2 else (w, o) for i, (w, o) in enumerate(samples)]
    model = sim.sut(learn, cfg, alphabet, sul, teacher, kind, samples=given)
    unchanged(alphabet=(was, alphabet), samples=(samples, given and [(tuple(w), tuple(o)) for w, o in given]))
    check_exact(model, ref, kind)
    sim.meta['rounds'] = teacher.rounds
    sim.meta['steps'] = sul.step_calls
    sim.meta['nontrivial'] = teacher.rounds > 1


RUNS = {'quick': 24_000, 'thorough': 900_000}
