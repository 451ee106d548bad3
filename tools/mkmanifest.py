"""Regenerates MANIFEST.json from the registered checks and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import checks, core  # noqa
NA = {
    'C30': 'End-to-end signature correctness is a composition over all messages, keys and hash values; the static obligations that imply '
           'it (C02, C04-C08, C20) are decided separately, and "for no other message" is a cryptographic assumption no static argument can discharge.',
    'C31': 'Timing depends on compiler and processor; the code also branches on public digits in ways a static source-level rule cannot '
           'separate from secret-dependent ones without declassification of every WOTS+ digit, so no sound static verdict is in reach.',
}
TODO = 'No check registered (yet): the static analysis for it is not built.'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 sa/main.py list', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in core.CHECKS:
        c = core.CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 sa/main.py check %s quick' % i,
                                thorough_cmd='python3 sa/main.py check %s thorough' % i,
                                technique=c['technique'], level=c['level'], level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, TODO)))
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks')
