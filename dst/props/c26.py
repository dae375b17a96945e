"""C26: comparing, reducing, converting and testing from models is right whatever the models were used for before."""
from aalpy.automata import Dfa, DfaState, MooreMachine, MooreState, VpaAlphabet
from aalpy.automata.StochasticMealyMachine import smm_to_mdp_conversion
from aalpy.automata.Vpa import vpa_from_dfa_representation
from aalpy.utils import statistical_model_checking
from aalpy.utils.HelperFunctions import dfa_from_moore, is_balanced, mc_from_mdp

from ..core import Violation
from .c11 import build, diff, view
from .c23 import DETERMINISTIC, Meaning, World, different, thin_out


def disturb(sim, w):
    """the model is in the middle of something"""
    for _ in range(sim.int(0, 3)):
        w.session, w.conf = True, w.mean.start()
        sim.sut(w.sul.pre)
        for _ in range(sim.int(0, 4)):
            w.one_step(True)
        if sim.flip(0.5):
            sim.fault('session abandoned without post')
        else:
            sim.sut(w.sul.post)
            w.session = False


def deterministic(sim, w, kind):
    mean = w.mean
    for _ in range(sim.int(2, 6)):
        op = ['relate', 'relate', 'relate', 'separate', 'look', 'disturb', 'loops'][sim.choose(7)]
        if op == 'relate':
            w.relate()
        elif op == 'separate' and len(w.mean.everywhere()) == len(w.mean.letters):
            w.separate()
        elif op == 'look':
            w.look()
        elif op == 'disturb':
            disturb(sim, w)
        elif op == 'loops':
            for s in w.m.states:
                want = {r[0] for r in w.mean.rows[s.state_id] if r[1] == s.state_id}
                same, other = sim.sut(s.get_same_state_transitions), sim.sut(s.get_diff_state_transitions)
                if set(same) != want or set(other) != {r[0] for r in w.mean.rows[s.state_id]} - want or len(same) + len(other) != len(w.mean.rows[s.state_id]):
                    raise Violation('wrong-answer', f'{s.state_id!r}: self loops {same!r}, others {other!r}, structure {w.mean.rows[s.state_id]!r}')
        w.unchanged(op)
    if kind == 'moore':
        to_dfa(sim, w)
        w.unchanged('conversion')


def to_dfa(sim, w):
    outs = {x for x in w.mean.label.values()}
    if not all(x is None or x in (True, False) for x in outs):
        try:
            r = dfa_from_moore(w.m)
        except ValueError:
            r = None
        if r is not None:
            raise Violation('wrongly-converted', f'a machine with the outputs {outs!r} became a Dfa')
    # the same machine with yes and no as outputs
    names = sorted(outs, key=repr)
    yes = {o: sim.flip(0.5) for o in names}
    nothing = sim.flip(0.2)
    new = {s.state_id: MooreState(s.state_id, (None if nothing and not yes[s.output] else yes[s.output])) for s in w.m.states}
    for s in w.m.states:
        new[s.state_id].transitions.update({a: new[t.state_id] for a, t in s.transitions.items()})
    moore = MooreMachine(new[w.m.initial_state.state_id], list(new.values()))
    before, mean = view(moore, 'moore'), Meaning(moore, 'moore')
    mean.label = {s: bool(x) for s, x in mean.label.items()}
    dfa = sim.sut(dfa_from_moore, moore)
    if not isinstance(dfa, Dfa) or [s.state_id for s in dfa.states] != [s.state_id for s in moore.states]:
        raise Violation('wrongly-converted', f'dfa_from_moore: {dfa!r}')
    cex = different(mean, Meaning(dfa, 'dfa'), 'dfa')
    if cex is not None:
        raise Violation('wrongly-converted', f'dfa_from_moore: the Dfa differs on {cex!r}')
    if diff(before, view(moore, 'moore')):
        raise Violation('model-changed', f'dfa_from_moore: {diff(before, view(moore, "moore"))}')
    if any(s is t for s in dfa.states for t in moore.states):
        raise Violation('wrongly-converted', 'the Dfa shares states with the Moore machine')


def outcomes(mean, word):
    """probability of every output sequence"""
    dist = {((), mean.start()): 1.0}
    for a in word:
        nxt = {}
        for (o, c), p in dist.items():
            for q, d, x in mean.step(c, a):
                k = (o + (x,), d)
                nxt[k] = nxt.get(k, 0.0) + p * q
        dist = nxt
    r = {}
    for (o, _), p in dist.items():
        r[o] = r.get(o, 0.0) + p
    return r


def alike(x, y):
    return all(abs(x.get(k, 0.0) - y.get(k, 0.0)) < 1e-9 for k in list(x) + list(y))


def stochastic(sim, w, kind):
    m, mean = w.m, w.mean
    disturb(sim, w)
    if kind == 'smm':
        mdp = sim.sut(m.to_mdp) if sim.flip(0.5) else sim.sut(smm_to_mdp_conversion, m)
        md = Meaning(mdp, 'mdp')
        if len(md.rows) != len(mdp.states):
            raise Violation('wrongly-converted', f'states of the mdp: {[s.state_id for s in mdp.states]!r}')
        if len(mean.everywhere()) == len(mean.letters) and set(md.everywhere()) != set(mean.everywhere()):
            raise Violation('wrongly-converted', f'inputs of the mdp: {md.letters!r}')
        for _ in range(6):
            word = w.word(mean.letters, 1, 5)
            x, y = outcomes(mean, word), outcomes(md, word)
            if not alike(x, y):
                raise Violation('wrongly-converted', f'the mdp answers {word!r} with {y!r}, the smm with {x!r}')
    if kind == 'mdp':
        a = sim.pick(mean.letters)
        if len(mean.letters) == 1 and sim.flip(0.5):
            mc = sim.sut(mc_from_mdp, m)
        else:
            mc = sim.sut(mc_from_mdp, m, a)
        cm = Meaning(mc, 'mc')
        if list(cm.rows) != list(mean.rows) or cm.initial != mean.initial or cm.label != mean.label:
            raise Violation('wrongly-converted', f'mc_from_mdp: states {cm.label!r} of {mean.label!r}')
        for s in mean.rows:
            x, y = {}, {}
            for p, c, _ in mean.step((s, ()), a):
                x[c[0]] = x.get(c[0], 0.0) + p
            for t, p in cm.rows[s]:
                y[t] = y.get(t, 0.0) + p
            if not alike(x, y):
                raise Violation('wrongly-converted', f'mc_from_mdp({a!r}): {s!r} goes on with {y!r} instead of {x!r}')
    if len(mean.everywhere()) == len(mean.letters):
        # the share of random tests that reach a goal is the probability of reaching it
        outs = sorted({repr(x): x for q in mean.rows for b in mean.letters for _, _, x in mean.step((q, ()), b)}.items())
        goals = {outs[sim.choose(len(outs))][1] for _ in range(sim.int(1, 2))}
        k, n = sim.int(0, 4), sim.pick([1, 10, 800])
        p = {q: 0.0 for q in mean.rows}
        for _ in range(k):
            p = {q: sum(pr * (1.0 if o in goals else p[c[0]]) for b in mean.letters for pr, c, o in mean.step((q, ()), b)) / len(mean.letters) for q in p}
        p = min(1.0, p[mean.initial])
        x = sim.sut(statistical_model_checking, m, goals, k, n)
        if abs(x * n - n * p) > 6.5 * (n * p * (1 - p)) ** 0.5 + (6 if 1e-6 < p < 1 - 1e-6 else 1e-9 + n * min(p, 1 - p) * 100):
            raise Violation('wrong-distribution', f'{goals!r} within {k} steps: {x} of {n} tests, probability {p}')
        sim.probe('model checked statistically')
    w.unchanged('conversion')


def words_of_states(mean):
    """well matched access word of every state of a 1-SEVPA that has one"""
    word = {mean.initial: ()}
    while True:
        n = len(word)
        for s in list(word):
            for a, _, t, action, guard in mean.rows[s]:
                if action is None and t not in word:
                    word[t] = word[s] + (a,)
                elif action == 'pop' and guard[0] in word and t not in word:
                    word[t] = word[guard[0]] + (guard[1],) + word[s] + (a,)
        if len(word) == n:
            return word


def hopeless(mean, s):
    """an error state: left by nothing, also not by returning from a call made in it"""
    if s == mean.initial or mean.label[s] or any(r[2] != s for r in mean.rows[s]):
        return False
    return all(r[2] == s for q in mean.rows for r in mean.rows[q] if r[4] and r[4][0] == s)


def pushdown(sim, w):
    m, mean = w.m, w.mean
    if sim.flip(0.6) and len(m.states) > 1:
        # one of the states is made an error state
        e = m.states[sim.choose(len(m.states))]
        if e is not m.initial_state:
            e.is_accepting = sim.flip(0.15)
            for s in m.states:
                for rows in s.transitions.values():
                    for t in rows:
                        if (s is e or (t.stack_guard and t.stack_guard[0] == e.state_id)) and not sim.flip(0.05):
                            t.target_state = e
            w.mean = mean = Meaning(m, 'sevpa')
    disturb(sim, w)
    # access strings of configurations
    word = words_of_states(mean)
    for s in m.states:
        s.prefix = word.get(s.state_id)
    for _ in range(sim.int(0, 3)):
        c = mean.start()
        sim.sut(m.reset_to_initial)
        for a in w.word(mean.letters, 0, 8):
            n = mean.step(c, a)[0][1]
            if n[1] is None:
                break
            sim.sut(m.step, a)
            c = n
        if c[0] not in word or any(q not in word for q, _ in c[1]):
            continue
        st = w.state(c[0])
        if sim.flip(0.5):
            access = sim.sut(m.transform_access_string, st)
        else:
            stack = ['_'] + list(c[1]) if c[1] else list(m.stack)
            sim.sut(m.reset_to_initial)
            access = sim.sut(m.transform_access_string, state=st, stack_content=stack)
        d = mean.start()
        for a in access:
            d = mean.step(d, a)[0][1]
        if d != c:
            raise Violation('wrong-answer', f'access string {access!r} leads to {d!r} instead of {c!r}')
    bad = [s for s in mean.rows if hopeless(mean, s)]
    e = sim.sut(m.get_error_state)
    if (e is None) != (not bad) or (e is not None and e.state_id not in bad):
        raise Violation('wrong-answer', f'error state {e and e.state_id!r}, error states are {bad!r}')
    for s in list(mean.rows) + ['nowhere']:
        x = sim.sut(m.get_state_by_id, s)
        if (x is None) != (s == 'nowhere') or (x is not None and x.state_id != s):
            raise Violation('wrong-answer', f'get_state_by_id({s!r}) is {x!r}')
    w.conf = None
    w.unchanged('questions')
    sim.sut(m.delete_state, e)
    if e is not None:
        after = Meaning(m, 'sevpa')
        if list(after.rows) != [s for s in mean.rows if s != e.state_id]:
            raise Violation('wrongly-reduced', f'states {list(after.rows)} instead of all of {list(mean.rows)} but {e.state_id!r}')
        for s in after.rows:
            for r in after.rows[s]:
                if r[2] == e.state_id or (r[4] and r[4][0] == e.state_id):
                    raise Violation('wrongly-reduced', f'{s!r} still has the transition {r!r}')
        sim.probe('error state removed')
    for _ in range(6):
        c, v = mean.start(), w.word(mean.letters, 1, 10)
        sim.sut(m.reset_to_initial)
        for i, a in enumerate(v):
            _, c, want = mean.step(c, a)[0]
            got = sim.sut(m.step, a)
            if bool(got) != bool(want):
                raise Violation('wrongly-reduced', f'without the error state {v[:i + 1]!r} is answered {got!r}')


def from_representation(sim):
    """pushdown automata that were learned as finite automata"""
    n = sim.int(1, 6)
    internal, calls, rets = ['a', 'b'][:sim.int(0, 2)], ['(', '['][:sim.int(1, 2)], [')', ']'][:sim.int(1, 2)]
    ids = [f's{i}' for i in range(n)]
    letters = internal + calls + [(r, c) for r in rets for c in calls]
    st = {i: DfaState(i, sim.flip(0.5)) for i in ids}
    for i in ids:
        for a in letters:
            if sim.flip(0.8):
                st[i].transitions[a] = st[sim.pick(ids)]
    dfa = Dfa(st[sim.pick(ids)], list(st.values()))
    before = view(dfa, 'dfa')
    alphabet = VpaAlphabet(internal, calls, rets)
    vpa = sim.sut(vpa_from_dfa_representation, dfa, alphabet)
    if diff(before, view(dfa, 'dfa')):
        raise Violation('model-changed', diff(before, view(dfa, 'dfa')))
    for _ in range(10):
        word = [sim.pick(internal + calls + rets) for _ in range(sim.int(0, 9))]
        bal, depth = True, 0
        for a in word:
            depth += (a in calls) - (a in rets)
            bal = bal and depth >= 0
        bal = bal and depth == 0
        if bool(sim.sut(vpa.is_balanced, word)) != bal or bool(sim.sut(is_balanced, word, alphabet)) != bal:
            known = [a for s in vpa.states for a in s.transitions]
            if all(a in known for a in word) or bool(is_balanced(word, alphabet)) != bal:
                raise Violation('wrong-answer', f'is_balanced({word!r}) is {not bal}')
        s, stack = dfa.initial_state.state_id, ()
        sim.sut(vpa.reset_to_initial)
        for i, a in enumerate(word):
            key = a
            if a in rets:
                key = (a, stack[-1]) if stack else None
            t = st[s].transitions.get(key) if s is not None and key is not None else None
            if t is None:
                s = None
            else:
                s = t.state_id
                stack = stack + (a,) if a in calls else stack[:-1] if a in rets else stack
            want = s is not None and not stack and st[s].is_accepting
            got = sim.sut(vpa.step, a)
            if bool(got) != want:
                raise Violation('wrongly-converted', f'{word[:i + 1]!r} is answered {got!r}, the finite automaton is {before!r}')
    sim.meta['nontrivial'] = True


KINDS = ['dfa', 'moore', 'mealy', 'dfa', 'moore', 'mealy', 'smm', 'mdp', 'sevpa', 'representation']


def scenario(sim):
    kind = sim.pick(KINDS)
    if kind == 'representation':
        sim.features.update(kind=kind)
        return from_representation(sim)
    model = build(sim, kind)
    if kind == 'mdp' and sim.flip(0.2):
        for s in model.states:                     # the order of the inputs does not matter
            s.transitions = type(s.transitions)(list, reversed(list(s.transitions.items())))
    if kind in ('smm', 'mdp') and sim.flip(0.2):
        thin_out(sim, model, kind)
    w = World(sim, model, kind)
    w.given = {s.state_id: list(s.transitions) for s in model.states}
    sim.log('model', kind, w.mean.view)
    sim.features.update(kind=kind, states=len(model.states), partial=len(w.mean.everywhere()) < len(w.mean.letters))
    sim.meta['nontrivial'] = True
    if not w.mean.letters:
        return
    if kind in DETERMINISTIC:
        deterministic(sim, w, kind)
    elif kind == 'sevpa':
        pushdown(sim, w)
    else:
        stochastic(sim, w, kind)


RUNS = {'quick': 100_000, 'thorough': 2_000_000}
