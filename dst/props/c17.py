"""C17: a round limit only cuts learning short."""
from ..core import Violation, Discard, SutError
from ..sessions import play, twice, snap, KINDS


def scenario(sim):
    alg = sim.pick(['lstar', 'kv', 'lsharp', 'adaptive', 'onfsm', 'vpa', 'stochastic'])
    limit = 1 + sim.geo(6, 0.6)
    sim.features.update(alg=alg, limit=limit)

    def free(s):
        try:
            return play(s, alg)
        except (Violation, SutError) as e:
            # an unlimited session that fails is judged by the other properties
            raise Discard(f'the unlimited session fails: {e}')

    a, b, _ = twice(sim, free, lambda s: play(s, alg, limit=limit))
    sim.features.update(oracle=a.name)
    asked = len(b.eqs)
    sim.log('limit', limit, 'free', len(a.eqs), 'limited', asked)
    # KV proposes its one-state initial hypothesis before the first learning round
    allowed = limit + (1 if alg in ('kv', 'vpa') else 0)
    if asked > allowed:
        raise Violation('round-limit-exceeded', f'{alg}: {asked} equivalence queries with max_learning_rounds={limit}')
    n = min(asked, len(a.eqs))
    if alg != 'stochastic' and [e[:2] for e in b.eqs[:n]] != [e[:2] for e in a.eqs[:n]]:
        k = next(i for i in range(n) if b.eqs[i][:2] != a.eqs[i][:2])
        raise Violation('limit-changes-learning', f'{alg}: query {k + 1} differs with max_learning_rounds={limit}: {b.eqs[k]!r} instead of '
                                                  f'{a.eqs[k]!r}'[:900])
    if alg != 'stochastic':
        if asked < min(limit, len(a.eqs)) and alg not in ('kv', 'vpa'):
            raise Violation('stopped-before-limit', f'{alg}: only {asked} equivalence queries with max_learning_rounds={limit}, '
                                                    f'{len(a.eqs)} without a limit')
        if a.info['learning_rounds'] <= limit and snap(a.model) != snap(b.model):
            raise Violation('limit-changes-result', f'{alg}: {len(a.eqs)} queries suffice, but with max_learning_rounds={limit} the model '
                                                    f'differs: {snap(b.model)} instead of {snap(a.model)}'[:900])
    if b.model is None or not b.model.states:
        raise Violation('no-model', f'{alg}: returned {b.model!r}')
    if alg in ('lstar', 'lsharp', 'adaptive') and b.model is not b.last_hyp:
        raise Violation('not-the-last-hypothesis', f'{alg}: with max_learning_rounds={limit} the returned model is not the last hypothesis '
                                                   f'given to the oracle')
    if alg in ('kv', 'vpa', 'onfsm') and asked and not b.kind == 'smm':
        # the model is at least as far as the last hypothesis the oracle saw
        if len(b.model.states) + (1 if alg == 'vpa' else 0) < b.eqs[-1][2]:
            raise Violation('not-the-last-hypothesis', f'{alg}: the returned model has {len(b.model.states)} states, the last hypothesis '
                                                       f'{b.eqs[-1][2]}')
    sim.meta['nontrivial'] = len(a.eqs) > asked
    sim.probe('learning cut short', int(len(a.eqs) > asked))


RUNS = {'quick': 16_000, 'thorough': 300_000}
