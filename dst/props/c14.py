"""C14: adaptive L# is exact whatever the reference models say."""
from aalpy.learning_algs import run_adaptive_Lsharp

from ..core import Violation
from ..models import gen_ref, minimise, Ref, gen_alphabet
from ..oraclebox import aalpy_machine
from ..world import SimSUL, Teacher, unchanged
from .c01 import check_exact, progress


def evolve(sim, ref):
    """A version of the system: some transitions redirected, outputs changed, states added."""
    delta = [dict(r) for r in ref.delta]
    out = [dict(r) for r in ref.out] if ref.out else None
    lab = list(ref.lab) if ref.lab else None
    vals = sorted({repr(x): x for r in out for x in r.values()}.items()) if out else sorted({repr(x): x for x in lab}.items())
    vals = [v for _, v in vals]
    if ref.kind == 'dfa':
        vals = [False, True]
    for _ in range(sim.int(0, 4)):
        what = sim.choose(3)
        s = sim.choose(len(delta))
        a = ref.alphabet[sim.choose(len(ref.alphabet))]
        if what == 0:
            delta[s][a] = sim.choose(len(delta))
        elif what == 1:
            if out:
                out[s][a] = vals[sim.choose(len(vals))]
            else:
                lab[s] = vals[sim.choose(len(vals))]
        else:
            delta.append(dict(delta[s]))
            if out:
                out.append(dict(out[s]))
            else:
                lab.append(lab[s])
            delta[sim.choose(len(delta))][a] = len(delta) - 1
    return Ref(ref.kind, ref.alphabet, delta, out=out, lab=lab)


def restrict(ref, alpha):
    delta = [{a: r[a] for a in alpha} for r in ref.delta]
    out = [{a: r[a] for a in alpha} for r in ref.out] if ref.out else None
    return Ref(ref.kind, alpha, delta, out=out, lab=ref.lab)


def draw_reference(sim, ref):
    what = sim.choose(5)
    sim.fault(['stale reference', 'reference of another system', 'reference over fewer inputs', 'reference over other inputs',
               'exact reference'][what])
    if what == 0:
        r = evolve(sim, ref)
        return minimise(r) if sim.flip(0.4) else r
    if what == 1:
        return gen_ref(sim, kind=ref.kind, max_states=6, alphabet=ref.alphabet, outputs=None if ref.kind == 'dfa' else values(ref))
    if what == 2:
        r = evolve(sim, ref)
        k = sim.int(1, len(ref.alphabet))
        r = restrict(r, sim.shuffle(ref.alphabet)[:k])
        return minimise(r) if sim.flip(0.6) else r
    if what == 3:
        keep = sim.shuffle(ref.alphabet)[:sim.int(0, len(ref.alphabet))]
        return gen_ref(sim, kind=ref.kind, max_states=5, alphabet=keep + ['other1', 'other2'][:sim.int(1, 2)],
                       outputs=None if ref.kind == 'dfa' else values(ref) + ['new'])
    return ref


def values(ref):
    seen = []
    for x in ([x for r in ref.out for x in r.values()] if ref.out else ref.lab):
        if not any(x == y and type(x) is type(y) for y in seen):
            seen.append(x)
    return seen if len(seen) > 1 else seen + ['new']


def snapshot(m):
    num = {id(s): i for i, s in enumerate(m.states)}
    return (num[id(m.initial_state)], [(s.state_id, getattr(s, 'output', None), getattr(s, 'is_accepting', None),
                                        dict(getattr(s, 'output_fun', {})), {a: num.get(id(t)) for a, t in s.transitions.items()})
                                       for s in m.states])


def scenario(sim):
    ref = gen_ref(sim, max_states=9, max_alpha=4)
    kind = ref.kind
    refs = [draw_reference(sim, ref) for _ in range(sim.int(1, 3) if sim.flip(0.95) else 0)]
    cfg = dict(rebuilding=not sim.flip(0.35), state_matching=sim.pick(['Approximate', 'Total', None]),
               extension_rule=sim.pick([None, 'SepSeq', 'ADS']), separation_rule=sim.pick(['SepSeq', 'ADS']),
               cache_and_non_det_check=not sim.flip(0.35))
    if not cfg['rebuilding'] and not cfg['state_matching']:
        cfg['rebuilding'] = True
    sim.log('system', ref.describe())
    for r in refs:
        sim.log('reference', r.alphabet, r.describe())
    sim.log('config', sorted(cfg.items(), key=str))
    sim.features.update({k: str(v) for k, v in cfg.items()}, kind=kind, references=len(refs), n=ref.n)
    sul = SimSUL(sim, ref, max_steps=400_000)
    teacher = Teacher(sim, ref.alphabet, sul, ref, kind, max_rounds=ref.n, on_query=progress)
    samples = None
    if sim.flip(0.2):
        samples = []
        for _ in range(sim.int(1, 6)):
            w = tuple(ref.alphabet[sim.choose(len(ref.alphabet))] for _ in range(sim.int(1, 8)))
            samples.append((w, tuple(ref.run(w))))
    models = [aalpy_machine(r) for r in refs]
    given = list(models)
    before = [snapshot(m) for m in models]
    alphabet = list(ref.alphabet)
    r = sim.sut(run_adaptive_Lsharp, alphabet, sul, given, teacher, kind, samples=samples, return_data=True, print_level=0, **cfg)
    unchanged(alphabet=(list(ref.alphabet), alphabet))
    model, info = r
    sim.model, sim.info = model, info
    check_exact(model, ref, kind)
    if len(given) != len(models) or any(a is not b for a, b in zip(given, models)):
        raise Violation('references-changed', f'the list of references has {len(given)} of {len(models)} models after learning')
    for i, m in enumerate(models):
        if snapshot(m) != before[i]:
            raise Violation('references-changed', f'reference {i} was {before[i]!r}, is {snapshot(m)!r}'[:600])
    counts = {k: info.get(k, 0) for k in ('rebuild_states', 'matching_states')}
    if any(type(n) is not int or n < 0 for n in counts.values()) or sum(counts.values()) > ref.n - 1:
        raise Violation('wrong-statistics', f'{counts!r} for a system with {ref.n} states')
    if ('rebuild_states' in info) != cfg['rebuilding'] or info.get('matching_type') != cfg['state_matching']:
        raise Violation('wrong-statistics', f'{info!r} with {cfg!r}')
    if not refs and any(counts.values()) or not cfg['state_matching'] and counts['matching_states']:
        raise Violation('wrong-statistics', f'{counts!r} with {len(refs)} references, {cfg!r}')
    if cfg['rebuilding'] and refs == [ref]:
        sim.probe('exact reference')
        if kind == 'mealy' and counts['rebuild_states'] != ref.n - 1:
            raise Violation('wrong-statistics', f'{counts!r}, although the reference has all {ref.n} states of the system')
        if teacher.rounds > 1:
            raise Violation('reference-not-used', f'{counts!r}, {teacher.rounds} equivalence queries, although the reference is the system '
                                                  f'itself ({ref.n} states)')
    sim.meta['rounds'] = teacher.rounds
    sim.probe('states found by rebuilding', info.get('rebuild_states', 0))
    sim.probe('states found by matching', info.get('matching_states', 0))
    sim.meta['nontrivial'] = bool(refs) and ref.n > 1


RUNS = {'quick': 16_000, 'thorough': 400_000}
