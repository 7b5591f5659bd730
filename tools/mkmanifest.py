"""Writes MANIFEST.json."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from vf import scripts  # noqa: E402
try:
    from vf import special
    SPECIAL = special.ABOUT
except ImportError:
    SPECIAL = {}

TECH = 'TLA+ model checked with TLC; traces of the real code validated against the specification'
NOTE = ('The property, stated in spec/Props.tla, is checked exhaustively by TLC on small bitfields of the specification '
        '(spec/Bitfield.tla). The real macro is bound to the same specification by compiling generated declarations over all '
        'backings, types, widths, orders and accesses, recording calls with boundary and random arguments and having TLC accept '
        'or reject every recorded step (result and whole state). Assurance on the code is that of the sampled declarations and '
        'calls; trusted: rustc, TLC, the harness in vf/.')
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in scripts.TRACED:
        tech, note = TECH, NOTE
    elif i in SPECIAL:
        tech, note = SPECIAL[i]
    else:
        na.append({'property': i, 'reason': 'its check is not built yet'})
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                   'technique': tech, 'level': 'model_checking', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks use the public interface of the generated types', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
