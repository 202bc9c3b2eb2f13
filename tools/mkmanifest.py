#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the check modules."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
DIFF = 'property-based differential testing against the system C compiler'
TECH = {
    'E02': DIFF + ' on side-effect traces', 'C01': DIFF + ' on statement traces', 'C02': DIFF + ' on call graphs',
    'C03': DIFF + ' on scope arrangements', 'T03': DIFF + ' on histories of writes and reads (stateful generation)',
    'F01': DIFF + ' with a generated logging library', 'F02': DIFF + ' on script/library interleavings with a generated library',
    'F03': DIFF + ' with a generated calling library',
    'G01': 'metamorphic property-based testing over garbage collection schedules',
    'G02': 'property-based fuzzing under AddressSanitizer over random collection schedules',
    'G03': 'metamorphic property-based testing: peak memory for N and k*N repetitions',
    'R01': 'stateful model-based testing of prompt sessions', 'R02': 'stateful model-based testing of inspection',
    'R03': 'metamorphic stateful testing: sessions with and without invalid lines',
    'R04': 'stateful model-based testing of completion on a pseudo terminal',
    'R05': 'stateful model-based testing of sessions over generated headers',
    'X01': 'mutation-based property testing and grammar fuzzing with an exit-status oracle',
    'X02': 'fault-injection property testing of diagnostics against known positions',
    'D01': 'property-based testing of dumps against a reference tree (model)', 'D02': 'property-based testing: graph dump isomorphic to textual dump',
    'S01': 'property-based testing of argument vectors and exit statuses', 'S02': DIFF + ' over preprocessing and top-level arrangements',
    'S03': 'property-based testing over generated sets of libraries against a resolution model',
}
NOTE = ('Random search over the generated domain: a violation is a shrunk, 3x confirmed counterexample on the real binary; '
        'silence means none was found in the number of cases given in the evidence. Trusts gcc %s, Hypothesis and the harness in lib/.')
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--grep=^hook:'], stdout=subprocess.PIPE).stdout.decode().split()
m = {'version': 1, 'setup_cmd': 'sh tools/setup.sh',
     'hooks': {'guard': 'BIC_VERIF', 'enable': 'lib/bic.mk compiles /repo/src with -DBIC_VERIF', 'source_commits': hooks},
     'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'checks', i + '.py')):
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
            'technique': TECH.get(i, DIFF), 'level': 'exploration',
            'level_note': NOTE % ('as the reference' if i[0] in 'ECTNLFS' else 'and the models in the check')})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks;', [x['property'] for x in m['not_applicable']])
