"""tools/design_costs.json from the evidence of the last quick checks."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = {}
for f in sorted(glob.glob(f'{V}/evidence/*.json')):
    e = json.load(open(f)); c = e['coverage']
    o[os.path.basename(f)[:-5]] = dict(runs=c['evaluations'], seconds=round(3600 * c['evaluations'] / max(1, c['runs_per_hour'])), distinct=c['distinct_nontrivial'], faults=c['faults_injected'])
json.dump(o, open(f'{V}/tools/design_costs.json', 'w'), indent=0)
