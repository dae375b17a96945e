"""C16: the reported statistics are those of the run, and asking for them (or for output) does not change the run."""
import contextlib
import io
import re

from ..core import Violation, Discard, SutError
from ..sessions import play, twice, snap


def quietly(s, alg, **kw):
    """A session whose output is captured. -> (record, text)"""
    import aalpy.learning_algs.deterministic.KV as kv
    buf = io.StringIO()
    draw = getattr(kv, 'visualize_classification_tree', None)
    if draw:
        kv.visualize_classification_tree = lambda root: None      # would call graphviz
    try:
        with contextlib.redirect_stdout(buf):
            rec = play(s, alg, **kw)
    finally:
        if draw:
            kv.visualize_classification_tree = draw
    return rec, buf.getvalue()


def scenario(sim):
    alg = sim.pick(['lstar', 'kv', 'lsharp', 'adaptive', 'onfsm', 'vpa', 'stochastic'])
    limit = 1 + sim.geo(6, 0.6) if sim.flip(0.25) else None
    level = sim.int(0, 3)
    data = sim.flip(0.5)
    sim.features.update(alg=alg, level=level, data=data, limited=limit is not None)

    def plain(s):
        try:
            return quietly(s, alg, limit=limit, print_level=0, return_data=True)
        except (Violation, SutError) as e:
            raise Discard(f'the session fails: {e}')

    (a, text), (b, shown), _ = twice(sim, plain, lambda s: quietly(s, alg, limit=limit, print_level=level, return_data=data))
    sim.features.update(oracle=a.name, cache=a.cached)
    if [t for t in text.splitlines() if not t.startswith('Warning')]:
        raise Violation('output-not-asked-for', f'{alg} prints at print_level=0: {text[:200]!r}')
    if [e[:2] for e in a.eqs] != [e[:2] for e in b.eqs] or snap(a.model) != snap(b.model) or \
            (a.count.sessions, a.count.steps) != (b.count.sessions, b.count.steps):
        raise Violation('options-change-run', f'{alg}: with print_level={level}, return_data={data}: '
                                              f'{b.count.sessions} {b.count.steps} {len(b.eqs)} queries, {snap(b.model)}; with 0, True: '
                                              f'{a.count.sessions} {a.count.steps} {len(a.eqs)} queries, {snap(a.model)}'[:900])
    for r in [a] + ([b] if data else []):
        check_info(sim, r, alg)
    if level and data:
        check_text(b, alg, level, shown)
    check_progress(b, alg, level, shown)
    sim.meta['nontrivial'] = len(a.eqs) > 1


def check_info(sim, r, alg):
    info, c = r.info, r.count

    def same(key, want, why):
        if info.get(key) != want or isinstance(info.get(key), bool):
            raise Violation('wrong-statistics', f'{alg} ({r.name}, cache {r.cached}): info[{key!r}] is {info.get(key)!r}, {why}: {want!r}')

    same('automaton_size', len(r.model.states), 'states of the returned model')
    if alg in ('lstar', 'lsharp', 'adaptive', 'onfsm'):
        same('learning_rounds', len(r.eqs), 'equivalence queries asked')
    elif alg == 'stochastic':
        if info['learning_rounds'] < len(r.eqs):
            raise Violation('wrong-statistics', f"{alg}: {info['learning_rounds']} rounds reported, {len(r.eqs)} equivalence queries asked")
    elif max(len(r.eqs) - 1, 0) > info['learning_rounds']:
        raise Violation('wrong-statistics', f"{alg}: {info['learning_rounds']} rounds reported, {len(r.eqs)} equivalence queries asked")
    if alg != 'stochastic' or r.name != 'teacher':        # the teacher of the stochastic world counts nothing
        # the session that observes the initial output of an MDP is not counted as query
        same('queries_learning', c.sessions['learning'] - (r.kind == 'mdp'), 'sessions executed for learning')
        same('steps_learning', c.steps['learning'], 'inputs executed for learning')
    if r.name != 'teacher':
        same('queries_eq_oracle', c.sessions['oracle'], 'sessions executed by the oracle')
        same('steps_eq_oracle', c.steps['oracle'], 'inputs executed by the oracle')
    if 'cache_saved' in info and not r.cached:
        same('cache_saved', 0, 'no cache was used')
    for key, want in (('total_time', r.total_time), ('eq_oracle_time', r.oracle_time)):
        if abs(info[key] - want) > 0.011:
            raise Violation('wrong-statistics', f'{alg} ({r.name}): {key}={info[key]!r}, {want:.4f} s passed')
    if info['total_time'] < 0 or abs(info['learning_time'] + info['eq_oracle_time'] - info['total_time']) > 0.02:
        raise Violation('wrong-statistics', f"{alg}: times do not add up: {info['learning_time']} + {info['eq_oracle_time']} is not "
                                            f"{info['total_time']}")


def check_text(r, alg, level, shown):
    """The printed summary shows the values of the returned data."""
    nums = re.findall(r'-?\d+(?:\.\d+)?', shown)
    for key in ('learning_rounds', 'automaton_size', 'queries_learning', 'steps_learning', 'queries_eq_oracle', 'steps_eq_oracle'):
        if str(r.info[key]) not in nums:
            raise Violation('wrong-summary', f'{alg}, print_level={level}: {key}={r.info[key]} does not appear in {shown[-700:]!r}')


def check_progress(r, alg, level, shown):
    """2 - current round and hypothesis size: one line per hypothesis; not at lower verbosity."""
    lines = re.findall(r'Hypothesis:? (\d+): (\d+) states', shown)
    if level < 2:
        if lines:
            raise Violation('output-not-asked-for', f'{alg}, print_level={level} prints the hypotheses: {shown[:300]!r}')
        return
    want = [e[2] for e in r.eqs]
    got = [int(z) for _, z in lines]
    if alg in ('kv', 'vpa'):                # the one-state hypothesis is not printed; refinements between queries are
        want = want[1:]
    it = iter(got)
    if (alg in ('kv', 'vpa', 'stochastic') and not all(z in it for z in want)) or (alg not in ('kv', 'vpa', 'stochastic') and got != want):
        raise Violation('wrong-progress', f'{alg}, print_level={level}: hypotheses of sizes {want} were asked about, printed were {got}')


RUNS = {'quick': 16_000, 'thorough': 300_000}
