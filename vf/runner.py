"""The checks: what runs for each property, and what it reports."""
import json
import os
import random
import re
import shutil
import sys
import threading
import time
import traceback

from . import decls, ops, rust, scripts, tlc, walk
from .rust import VERIF, ToolError

# Values of fields of many kilobytes are written out in the reports.
if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)

MC_PROPS = ['P%02d' % k for k in range(1, 18)] + ['P19', 'P24']


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.work = '%s/.work/%s-%d' % (VERIF, prop, os.getpid())
        self.states = self.transitions = self.validated = 0
        self.samples = []
        self.cov = {}
        self.violations = []        # (title, detail dict)
        self.known = []
        self.assumptions = []
        self.lock = threading.Lock()

    def say(self, *a):
        print('[%s %.0fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def add(self, key, n=1):
        with self.lock:
            self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, title, **detail):
        with self.lock:
            self.violations.append((title, detail))

    # ------------------------------------------------------------ reporting
    def finish(self):
        coverage = dict(states=self.states, transitions=self.transitions,
                        traces_validated_against_impl=self.validated, samples=self.samples[:4])
        coverage.update(self.cov)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': coverage, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, self.prop), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if self.violations:
            os.makedirs(VERIF + '/replays', exist_ok=True)
            for n, (title, detail) in enumerate(self.violations[:5]):
                path = '%s/replays/%s-%d.json' % (VERIF, self.prop, n)
                with open(path, 'w') as f:
                    json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, what=title, **detail), f, indent=1)
                print('  ' + title)
                print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
            return 1
        self.say('held: %d model states, %d transitions, %d traces of the real code accepted' % (
            self.states, self.transitions, self.validated))
        return 0


# ------------------------------------------------------- the model (MC.tla)
def model(run, prop, spec='MC', workers=4, consts=None, timeout=600):
    """Model-checks the property on the specification."""
    cfg = open('%s/spec/%s.cfg' % (VERIF, spec)).read()
    c = {'Prop': '"%s"' % prop}
    if run.thorough:
        c.update({'Sizes': '{1, 2}', 'Deep': 'TRUE'})
    c.update(consts or {})
    for k, v in c.items():
        cfg = re.sub(r'\b%s = .*' % k, lambda m: '%s = %s' % (k, v), cfg)
    os.makedirs(run.work + '/mc', exist_ok=True)
    path = '%s/mc/%s.cfg' % (run.work, spec)
    with open(path, 'w') as f:
        f.write(cfg)
    rc, out = tlc.run(spec + '.tla', path, run.work + '/mc', workers=workers, heap='6g', timeout=timeout)
    g, n = tlc.counts(out)
    if not tlc.finished(out):
        # the specification itself does not have the property: an error of
        # this framework, not of the code
        raise ToolError('the specification violates %s:\n%s' % (prop, out[-6000:]))
    with run.lock:
        run.states += n
        run.transitions += g
        run.cov['model_states'] = run.cov.get('model_states', 0) + n
    return n, g


class Background(threading.Thread):
    def __init__(self, fn, *a, **k):
        super().__init__()
        self.call = (fn, a, k)
        self.ex = None
        self.start()

    def run(self):
        try:
            fn, a, k = self.call
            self.value = fn(*a, **k)
        except BaseException as ex:     # noqa
            self.ex = ex

    def get(self):
        self.join()
        if self.ex:
            raise self.ex
        return self.value


# --------------------------------------------------- traces of the real code
def traced_round(run, c, ds, rng, scale, tag='h', walks=100, script=None):
    """Builds the declarations into the harness, runs the script of the
    property on each, and behaviours of the specification, and has TLC check
    every recorded trace."""
    walker = Background(walk.behaviours, run, [d for d in ds if d.nb <= 128], c['ops'], walks, 30, rng.getrandbits(30)) if walks else None
    h = rust.Harness('%s/%s' % (run.work, tag), ds, set(c['ops']) | {'inject'})
    h.build()
    for k, msg in h.failed.items():
        src = ds[k].rust() if k >= 0 else decls.PRELUDE
        run.violation('a valid declaration does not compile: ' + first_line(msg), declaration=src, compiler=msg)
    walked = {}
    for k, evs in walker.get() if walker else []:
        walked.setdefault(k, []).append(evs)
    if -1 in h.failed:
        return
    lines, plan = {}, []
    for k, d in enumerate(ds):
        if k in h.failed:
            continue
        out = []
        run.add('behaviours_generated_by_the_specification', len(walked.get(k, [])))
        calls = scripts.far(rng, d, c['ops']) if d.nb > 128 else (script or c['script'])(rng, d, scale)
        for evs in calls + walked.get(k, []):
            if not evs:
                continue
            init = ops.rstate(rng, d)
            plan.append((k, init, evs))
            out.append('@ %d %s' % (k, ops.hx(init, d.nb)))
            out += [ops.line(d, e) for e in evs]
        lines[k] = out
    got = h.run(lines)
    traces = collect(ds, plan, lines, got)
    check(run, ds, traces)
    shutil.rmtree(h.root, ignore_errors=True)


def collect(ds, plan, lines, got):
    pos = {k: 0 for k in lines}
    traces = []
    for k, init, evs in plan:
        o, p = got.get(k, []), pos[k] + 1
        rec = []
        for j, e in enumerate(evs):
            rec.append(ops.record(ds[k], e, o[p + j] if p + j < len(o) else None))
            if rec[-1]['rk'] in ('panic', 'died'):
                break
        pos[k] = p + len(evs)
        traces.append({'d': k, 'init': ops.positions(init), 'ev': rec, 'calls': (init, evs)})
    return traces


def check(run, ds, traces):
    s, g, rej = tlc.check_traces([d.spec() for d in ds], traces, run.work + '/tlc')
    with run.lock:
        run.states += s
        run.transitions += g
        run.validated += len(traces) - len(rej)
        run.cov['declarations'] = run.cov.get('declarations', 0) + len(ds)
        run.cov['calls_of_the_real_code'] = run.cov.get('calls_of_the_real_code', 0) + sum(len(t['ev']) for t in traces)
    if traces and not run.samples:
        t = traces[len(traces) // 2]
        run.samples.append({'declaration': ds[t['d']].rust(), 'init': t['init'], 'events': t['ev'][:4]})
    rej.sort(key=lambda r: r['call']['rk'] == 'died')
    for r in rej:
        t = traces[r['trace']]
        d = ds[t['d']]
        run.violation('%s on %s: the real code did %s, the specification allows %s' % (
            describe(d, r['call']), one_line(d), outcome(r['call']), allowed(r['allowed'])),
            declaration=d.rust(), spec=d.spec(), init=t['init'], events=t['ev'][:r['i']], call=r['call'],
            before=r['before'], allowed=r['allowed'], again=replayable(d, t, r['i']))


def replayable(d, t, n):
    """What --replay needs to repeat the first n calls of trace t."""
    if 'calls' not in t or type(d) is not decls.Decl:
        return None
    return {'declaration': d.dump(), 'init': t['calls'][0], 'calls': t['calls'][1][:n]}


def replay(run, path):
    """Repeats the calls of a replay file on the current tree and has TLC
    judge them again; for a check that does not record calls, repeats the
    whole check with its seed."""
    a = json.load(open(path)).get('again')
    if not a:
        return dispatch(run)
    d = decls.Decl.load(a['declaration'])
    h = rust.Harness(run.work + '/h', [d], set(e['op'] for e in a['calls']) | {'inject'})
    h.build()
    for k, msg in h.failed.items():
        run.violation('a valid declaration does not compile: ' + first_line(msg), declaration=d.rust(), compiler=msg)
        return
    lines = ['@ 0 ' + ops.hx(a['init'], d.nb)] + [ops.line(d, e) for e in a['calls']]
    got = h.run({0: lines})
    check(run, [d], collect([d], [(0, a['init'], a['calls'])], {0: lines}, got))


def dispatch(run):
    if run.prop in scripts.TRACED:
        traced(run)
    else:
        from . import special
        special.CHECKS[run.prop](run)


def first_line(msg):
    return msg.strip().splitlines()[0] if msg.strip() else ''


def one_line(d):
    return re.sub(r'\s+', ' ', d.rust())[:300]


def number(bits):
    return hex(sum(1 << b for b in bits))


def describe(d, e):
    f = ' of field %s' % d.fields[e['f'] - 1].nm if 0 < e['f'] <= len(d.fields) and e['op'] != 'igset' else ''
    return '%s%s (x=%s o=%d l=%d en=%s wd=%s ck=%s)' % (e['op'], f, number(e['x']), e['o'], e['l'], e['en'], e['wd'], e['ck'])


def outcome(e):
    return 'result %s %s %s, value %s' % (e['rk'], number(e['rb']), e['rs'] or '', number(e['v']))


def allowed(x):
    return 'result %s %s %s, value %s' % (x['r']['k'], number(x['r']['b']), x['r']['s'] or '', number(x['v']))


def tables(run, c, rng):
    """One-byte declarations, exhaustively."""
    one = [b for b in (c.get('backings') or decls.INTS + decls.ARRS + decls.HEAPS) if b[1] == 1]
    if not one:
        return
    ds = decls.pool('%s-%d-table' % (run.prop, run.seed), 6, backings=one, ops=c['ops'], **c['kw'])
    before = run.cov.get('calls_of_the_real_code', 0)
    traced_round(run, c, ds, rng, 1, walks=50, script=lambda rng, d, scale: scripts.table(rng, d, c['ops']))
    run.cov['calls_in_exhaustive_one_byte_tables'] = run.cov.get('calls_of_the_real_code', 0) - before
    run.say('tables: %d calls' % run.cov['calls_in_exhaustive_one_byte_tables'])


def far(run, c, k, n):
    """Array-backed declarations with fields beyond 2^11 and 2^16 bits (last
    in a round: the specification does not walk them)."""
    if c.get('backings') == decls.INTS or run.prop in ('P19', 'P24'):
        return []
    seed = '%s-%d-far%s' % (run.prop, run.seed, k)
    wide = decls.ladder(seed, 1, ops=c['ops'], **c['kw'])
    return decls.huge(seed, n, ops=c['ops'], **c['kw']) + wide


def traced(run):
    c = scripts.TRACED[run.prop]
    mc = Background(model, run, run.prop, workers=4 if not run.thorough else 3)
    quick_n, deep_n = c['n']
    rng = random.Random('%s-%d' % (run.prop, run.seed))
    if not run.thorough:
        ds = scripts.fixed(run.prop) + decls.pool('%s-%d' % (run.prop, run.seed), quick_n, backings=c.get('backings'), ops=c['ops'], **c['kw'])
        if c.get('backings') is None or decls.INTS[4] in c['backings']:
            ds += decls.broad('%s-%d-broad' % (run.prop, run.seed), 6, ops=c['ops'], **c['kw'])
        ds += far(run, c, '', 3)
        for k, d in enumerate(ds):
            d.nm = 'S%d' % k
        traced_round(run, c, ds, rng, 1)
    else:
        tables(run, c, rng)
        if c.get('backings') is None or decls.INTS[4] in c['backings']:
            traced_round(run, c, decls.rungs('%s-%d-rungs' % (run.prop, run.seed), ops=c['ops'], **c['kw']), rng, 1, walks=0)
            run.say('every width in u128: %d traces' % run.validated)
        k = 0
        while k == 0 or (run.left(600) > 0 and not run.violations):
            ds = decls.pool('%s-%d-%d' % (run.prop, run.seed, k), deep_n // 2, backings=c.get('backings'), ops=c['ops'], **c['kw'])
            traced_round(run, c, ds + far(run, c, k, 2), rng, 1 + k % 3, walks=300)
            run.say('round %d: %d traces' % (k, run.validated))
            k += 1
    mc.get()


def main(argv):
    again = None
    if argv and argv[0] == '--replay':
        again = argv[1]
        f = json.load(open(again))
        argv = [f['property'], f['tier'], '--seed=%d' % f['seed']]
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    for a in argv[1:]:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('--seed='):
            seed = int(a[7:])
    run = Run(prop, tier, seed)
    try:
        if again:
            replay(run, again)
        else:
            dispatch(run)
        return run.finish()
    except ToolError as ex:
        if run.violations:
            return run.finish()
        print('ERROR: ' + str(ex), file=sys.stderr)
        return 2
    except Exception:
        if run.violations:
            return run.finish()
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(run.work, ignore_errors=True)
