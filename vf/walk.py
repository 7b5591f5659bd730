"""Behaviours generated by TLC's simulator from spec/Walk.tla, as calls for
the real code."""
import json
import os
import re

from . import ops, tlc
from .rust import ToolError


def possible(d, names):
    out = set(names)
    if not d.new:
        out -= {'new', 'newwo'}
    if d.kind != 'arr':
        out -= {'fslice', 'islice'}
    if not d.ig:
        out -= {'igset'}
    return sorted(out | {'inject'})


def num(bits):
    return sum(1 << b for b in bits)


def event(c):
    return ops.ev(c['op'], c['f'] - 1, num(c['x']), c['o'], c['l'], c['en'], int(c['wd']), int(c['ck']),
                  [(s['f'] - 1, int(s['ck']), num(s['x'])) for s in c['st']])


def behaviours(run, ds, names, count, depth, seed, tag='walk'):
    """[(index of the declaration, calls)], count behaviours in all."""
    work = '%s/%s' % (run.work, tag)
    os.makedirs(work, exist_ok=True)
    path = work + '/decls.json'
    with open(path, 'w') as f:
        json.dump({'decls': [d.spec() for d in ds], 'ops': [possible(d, names) for d in ds]}, f)
    rc, out = tlc.run('Walk.tla', 'Walk.cfg', work, env={'TRACES': path}, workers=1, timeout=300,
                      extra=['-simulate', 'num=%d' % count, '-depth', str(depth), '-seed', str(seed)])
    if rc != 0 or 'Error:' in out:
        raise ToolError('the simulator failed:\n' + out[-4000:])
    res = []
    for m in re.finditer(r'<<\s*"CALL",\s*"((?:[^"\\]|\\.)*)"\s*>>', out):
        c = json.loads(json.loads('"' + m.group(1) + '"'))
        if c['k'] == 0:
            res.append((c['d'] - 1, []))
        res[-1][1].append(event(c['call']))
    return res
