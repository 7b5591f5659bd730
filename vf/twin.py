"""The same declaration on an integer, an array and a boxed array (P16)."""
import copy
import random
import shutil

from . import decls, ops, rust, scripts, tlc
from .decls import INTS

OTHER = {'big': 'little', 'little': 'big', 'le': 'be', 'be': 'le'}


def twins(d):
    """The array- and heap-backed twins of an integer-backed declaration."""
    for f in d.fields:
        if f.ty == 'a' and f.hd:
            f.df &= (1 << f.n) - 1
            f.dsrc = '0x%x' % f.df
    d.consts = [c for c in d.consts if ' KI' not in c]
    out = []
    for heap in (False, True):
        t = copy.deepcopy(d)
        t.kind, t.heap = 'arr', heap
        t.args = [a for a in t.args if not a.startswith('array_heap')]
        # the byte order of whole-value conversions counts from the other end
        t.fe, t.ie = OTHER[d.fe], OTHER[d.ie]
        for f in t.fields:
            if f.ty == 'a' and f.hd:
                f.dsrc = '[%s]' % ', '.join('0x%02x' % b for b in f.df.to_bytes(f.w // 8, 'little'))
        out.append(t)
    return out


def mirror(e):
    return dict(e, en=OTHER.get(e['en'], e['en'])) if e['op'] in ('from', 'into') else e


OPS = [o for o in scripts.EVERY if o not in ('fslice', 'islice')]


def script(rng, d, scale):
    out = []
    for _ in range(3 * scale):
        out.append([ops.inject(rng, d)] + scripts.all_ops(rng, d, 38, OPS))
    for p in (scripts.p02, scripts.p05, scripts.p06, scripts.p10, scripts.p13, scripts.p14, scripts.p15, scripts.p17):
        q = [x for x in p(rng, d, 1) if x]
        out += rng.sample(q, min(len(q), 2 * scale))
    out += rng.sample(scripts.p08(rng, d, 1), 1)
    return [[e for e in evs if e['op'] not in ('fslice', 'islice')] for evs in out]


def round_(run, rng, count, seed, scale):
    from . import runner
    base = decls.pool(seed, count, backings=INTS * 2, weights=dict(a=3, c=3), p_acc=0.4, p_def=0.4, p_ig=0.12)
    ds = []
    for d in base:
        ds += [d] + twins(d)
    for k, d in enumerate(ds):
        d.nm = 'S%d' % k
    h = rust.Harness(run.work + '/h', ds, set(OPS))
    h.build()
    for k, msg in h.failed.items():
        run.violation('a valid declaration does not compile: ' + runner.first_line(msg),
                      declaration=ds[k].rust() if k >= 0 else decls.PRELUDE, compiler=msg)
    if h.failed:
        return
    lines, plan = {k: [] for k in range(len(ds))}, []
    for k in range(0, len(ds), 3):
        for evs in script(rng, ds[k], scale):
            init = ops.rstate(rng, ds[k])
            for j in range(3):
                q = [mirror(e) for e in evs] if j else evs
                plan.append((k + j, init, q))
                lines[k + j].append('@ %d %s' % (k + j, ops.hx(init, ds[k].nb)))
                lines[k + j] += [ops.line(ds[k + j], e) for e in q]
    got = h.run(lines)
    shutil.rmtree(h.root, ignore_errors=True)
    # plan is in the order of the lines of each declaration
    traces = runner.collect(ds, plan, lines, got)
    runner.check(run, ds, traces)
    pairs = []
    for k in range(0, len(traces), 3):
        for j in (1, 2):
            a, b = traces[k], traces[k + j]
            pairs.append({'d': 0, 'of': (a['d'], b['d']), 'init': a['init'], 'ev': [{'a': x, 'b': y, 'v': x['v'] * 2} for x, y in zip(a['ev'], b['ev'])]})
    s, g, rej = tlc.check_traces([{}], pairs, run.work + '/tlc', spec='TwinTrace')
    run.states += s
    run.transitions += g
    run.validated += len(pairs) - len(rej)
    run.add('pairs_in_lockstep', len(pairs))
    for r in rej:
        p = pairs[r['trace']]
        a, b = ds[p['of'][0]], ds[p['of'][1]]
        run.violation('%s on %s: %s; on its twin %s: %s' % (runner.describe(a, r['a']), runner.one_line(a), runner.outcome(r['a']),
                                                          b.attr(), runner.outcome(r['b'])),
                      declaration=a.rust(), twin=b.rust(), a=r['a'], b=r['b'], before=r['before'], events=[e['a'] for e in p['ev'][:r['i']]])


def check(run):
    from .runner import Background, model
    mc = Background(model, run, 'P16', workers=4 if not run.thorough else 3)
    rng = random.Random('P16-%d' % run.seed)
    k = 0
    while k == 0 or (run.thorough and run.left(600) > 0 and not run.violations):
        round_(run, rng, 36 if not run.thorough else 90, 'P16-%d-%d' % (run.seed, k), 1 + (k % 3 if run.thorough else 0))
        k += 1
    mc.get()
