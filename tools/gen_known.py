"""Writes known_findings.json: repaired defects from the fix: commits of /repo, open findings from KNOWN below."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {   # start of commit subject after 'fix: ' -> (property, what failed)
    'Wp-method executes second phase': ('C07', 'Wp-method accepted non-equivalent hypotheses: second-phase tests of states without identifiers were never executed'),
    'W-method and Wp-method compare already': ('C07', 'W/Wp-method skipped tests executed in earlier rounds, accepting later hypotheses they refute'),
    'W-method and Wp-method test minimal': ('C07', 'W/Wp-method lost states of non-minimal hypotheses and missed counterexamples'),
    'TransitionFocusOracle focuses': ('C08', 'TransitionFocusOracle chose focus transitions of the initial state instead of the reached one'),
    'CacheBasedEqOracle extends': ('C08', 'CacheBasedEqOracle walked words that extend no observed trace'),
    'KWayTransitionCoverageEqOracle recomputes': ('C08', 'KWayTransition oracle counted coverage of cached paths on outdated hypotheses'),
    'KWayStateCoverageEqOracle distinguishes': ('C08', 'KWayState oracle treated permutations of the same states as already covered'),
    'BreadthFirstExplorationEqOracle compares': ('C07', 'BreadthFirstExploration oracle skipped test cases in later rounds'),
    'ProvidedSequencesOracleWrapper passes': ('C02', 'the wrapped oracle of ProvidedSequencesOracleWrapper bypassed the cache'),
    'CacheDict detects': ('C03', 'CacheDict did not report contradictions in imported traces'),
    'CacheDict stores the output': ('C02', 'CacheDict raised KeyError for the empty word'),
    'CacheDict accepts': ('C04', 'CacheDict failed on queries given as lists'),
    'W-method and Wp-method close': ('C05', 'W/Wp-method left a session open when returning a remembered counterexample'),
    'ProvidedSequencesOracleWrapper closes': ('C05', 'ProvidedSequencesOracleWrapper left sessions open'),
    'random oracles close': ('C05', 'stochastic learner started a session while the last one of the random oracles was open'),
    'RandomWordEqOracle.reset_counter': ('C10', 'IndexError in RandomWordEqOracle after reset_counter'),
    'stochastic longest prefix': ('C10', 'IndexError with longest_prefix counterexample processing of stochastic L*'),
    'stochastic observation table': ('C10', 'KeyError in stochastic L*: rows first observed during resampling had no cells'),
}
sys.path.insert(0, os.path.join(V, 'tools'))
try:
    from more_fixes import MORE
    MAP.update(MORE)
except ImportError:
    pass
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    m = [v for k, v in MAP.items() if s[5:].startswith(k)]
    assert len(m) == 1, (s, m)
    fixed.append(f'fixed: property={m[0][0]} {h} {m[0][1]}')
p = os.path.join(V, 'known_findings.json')
old = json.load(open(p)) if os.path.exists(p) else {'findings': []}
json.dump({'findings': old['findings'], 'fixed': fixed}, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
print(len(fixed))
