"""Flag enums (P18): generation, harness and checks."""
import random
import shutil

from . import ops, rust, tlc
from .decls import UNS, WID, expression, literal, positions, swap

NAMES = ['Alpha', 'Beta', 'Gamma', 'Delta', 'Eps', 'Zeta', 'Eta', 'Theta', 'Iota', 'Kappa', 'Lam', 'Mu']


def off(cfg):
    return cfg in ('#[cfg(any())]', '#[cfg(not(all()))]')


class Flag:
    def __init__(self, rng, w, n, conditional=0.25):
        self.w, self.nb = w, w // 8
        self.fe, self.ie = 'big', 'big'
        if rng.random() < 0.6:
            self.fe, self.ie = rng.choice(['big', 'little']), rng.choice(['big', 'little'])
        self.vals = []
        while len(self.vals) < n:
            v = rng.choice([0, 1, 2, 3, (1 << w) - 1, 1 << (w - 1), rng.getrandbits(w), rng.getrandbits(w), rng.getrandbits(8),
                            1 << rng.randrange(w), rng.getrandbits(8) << (w - 8), swap(rng.getrandbits(w) & 0x10ff, max(2, w // 8)) % (1 << w)])
            if rng.random() < 0.25 and self.vals:       # the byte-swapped twin of another variant
                v = swap(rng.choice(self.vals), w // 8)
            if v not in self.vals:
                self.vals.append(v)
        # variants under #[cfg], in or out; one that is out may have another's value
        self.cfg, self.on = [''] * n, list(range(1, n + 1))
        if rng.random() < conditional:
            self.cfg = [rng.choice(['', '', '', '#[cfg(all())]', '#[cfg(not(any()))]', '#[cfg(target_pointer_width = "64")]',
                                    '#[cfg(any())]', '#[cfg(any())]', '#[cfg(not(all()))]']) for _ in range(n)]
            if all(off(c) for c in self.cfg):
                self.cfg[rng.randrange(n)] = ''
            self.on = [k + 1 for k in range(n) if not off(self.cfg[k])]
            for k in range(n):
                if off(self.cfg[k]) and rng.random() < 0.5:
                    self.vals[k] = rng.choice(self.vals)
        self.base = rng.choice(self.on) if rng.random() < 0.7 else 0
        self.dflt = rng.choice(self.on) if self.base == 0 or rng.random() < 0.4 else 0
        self.copy = rng.random() < 0.75
        self.consts, self.src = [], []
        for k, v in enumerate(self.vals):
            if rng.random() < 0.2:
                self.consts.append('const KV%d: %s = 0x%x;' % (k, UNS[w], v))
                self.src.append('KV%d' % k)
            elif rng.random() < 0.3:
                self.src.append(expression(rng, v, w))
            elif rng.random() < 0.15:
                self.src.append('%d%s' % (v, UNS[w]))
            else:
                self.src.append(literal(rng, v))
        self.cin = []           # inputs evaluated in constants
        self.explicit = rng.random() < 0.3

    def text(self):
        a = [UNS[self.w]]
        for k, v in (('from_endian', self.fe), ('into_endian', self.ie)):
            if v != 'big' or self.explicit:
                a.append('%s = %s' % (k, v))
        if not self.copy or self.explicit:
            a.append('copy = ' + str(self.copy).lower())
        s = ''.join(c + '\n' for c in self.consts) + '#[bitflag(%s)]\n#[derive(Debug, PartialEq%s)]\npub enum E {\n' % (
            ', '.join(a), ', Default' if self.dflt else '')
        for k, v in enumerate(self.src):
            at = ['#[base]'] * (k + 1 == self.base) + ['#[default]'] * (k + 1 == self.dflt)
            if len(at) == 2 and v.startswith('0'):
                at.reverse()
            if self.cfg[k]:
                at.insert(len(v) % (len(at) + 1), self.cfg[k])
            s += '    %s%s = %s,\n' % (''.join(x + ' ' for x in at), NAMES[k], v)
        return s + '}\n'

    rust = text

    def spec(self):
        return {'nb': self.nb, 'by': 8, 'vals': [positions(v) for v in self.vals], 'on': self.on, 'base': self.base, 'dflt': self.dflt,
                'fe': self.fe, 'ie': self.ie}

    def module(self):
        u = UNS[self.w]
        L = ['#![allow(dead_code, unused, clippy::all)]', 'use bitfields::bitflag; use crate::support::*;', self.text()]
        w = L.append
        w('fn ix(e: &E) -> usize { match e { %s } }' % ', '.join('E::%s => %d' % (NAMES[k - 1], k) for k in self.on))
        w('fn mk(k: usize) -> E { match k { %s _ => unreachable!() } }' % ' '.join('%d => E::%s,' % (k, NAMES[k - 1]) for k in self.on))
        for j, x in enumerate(self.cin):
            w('const CF%d: E = E::from_bits(0x%x);' % (j, x))
        for k in self.on:
            w('const CI%d: %s = E::%s.into_bits();' % (k, u, NAMES[k - 1]))
        w('thread_local! { static ST: std::cell::Cell<usize> = std::cell::Cell::new(%d); }' % self.on[0])
        w('pub fn run(c: &[&str]) -> String { ST.with(|st| {')
        w('  if c[0] == "@" { st.set(c[2].parse().unwrap()); return "ok - 0".to_string(); }')
        w('  let r = guard(|| match c[0] {')
        w('    "from" => { let e = E::from_bits(p::<%s>(c[1])); st.set(ix(&e)); "ok -".to_string() }' % u)
        w('    "cfrom" => { let e = match c[1] { %s _ => unreachable!() }; st.set(ix(&e)); "ok -".to_string() }' % ' '.join(
            '"%d" => CF%d,' % (j, j) for j in range(len(self.cin))))
        w('    "assign" => { st.set(c[1].parse().unwrap()); "ok -".to_string() }')
        w('    "into" => format!("ok {}", hex(&mk(st.get()).into_bits().e())),')
        w('    "cinto" => { let x = match st.get() { %s _ => unreachable!() }; format!("ok {}", hex(&x.e())) }' % ' '.join(
            '%d => CI%d,' % (k, k) for k in self.on))
        w('    _ => unreachable!() });')
        w('  let r = if r.starts_with("panic") { "panic -".to_string() } else { r };')
        w('  format!("{} {}", r, st.get()) }) }')
        return '\n'.join(L) + '\n'


def script(rng, f, scale):
    """Lists of (harness line, event) pairs."""
    m = (1 << f.w) - 1
    pts = []
    for v in f.vals:
        for z in (v, swap(v, f.nb)):
            pts += [z, z ^ 1, (z + 1) & m, (z - 1) & m, z ^ (1 << rng.randrange(f.w)), z ^ m]
    pts += [0, 1, m, m >> 1, 1 << (f.w - 1)] + [rng.getrandbits(f.w) for _ in range(10 * scale)]
    if f.w == 8:
        pts += list(range(256))
    if f.w == 16 and scale > 2:
        pts += list(range(65536))
    pts = list(dict.fromkeys(pts))
    ev = []
    for x in pts:
        ev.append(('from ' + ops.hx(x, f.nb), {'op': 'from', 'x': positions(x), 'k': 0}))
        if rng.random() < 0.3:
            ev.append(('into', {'op': 'into', 'x': [], 'k': 0}))
    for j, x in enumerate(f.cin):
        ev.append(('cfrom %d' % j, {'op': 'from', 'x': positions(x), 'k': 0}))
        ev.append(('cinto', {'op': 'into', 'x': [], 'k': 0}))
    for k in f.on:
        enc = swap(f.vals[k - 1], f.nb) if f.ie == 'little' else f.vals[k - 1]
        ev += [('assign %d' % k, {'op': 'assign', 'x': [], 'k': k}), ('into', {'op': 'into', 'x': [], 'k': 0}),
               ('cinto', {'op': 'into', 'x': [], 'k': 0}),
               ('from ' + ops.hx(enc, f.nb), {'op': 'from', 'x': positions(enc), 'k': 0}), ('into', {'op': 'into', 'x': [], 'k': 0})]
    return [ev[a:a + 60] for a in range(0, len(ev), 60)]


def pool(rng, count):
    out = []
    for k in range(count):
        w = WID[k % 5]
        f = Flag(rng, w, rng.choice([1, 2, 2, 3, 4, 5, 8, 12]))
        pts = f.vals + [swap(v, f.nb) for v in f.vals] + [rng.getrandbits(w) for _ in range(4)]
        f.cin = list(dict.fromkeys(rng.sample(pts, min(len(pts), 8))))
        out.append(f)
    return out


def round_(run, fs, rng, scale):
    h = rust.Harness(run.work + '/h', fs, ())
    h.build()
    for k, msg in h.failed.items():
        run.violation('a valid flag enum does not compile: ' + msg.strip().splitlines()[0],
                      declaration=fs[k].text() if k >= 0 else '', compiler=msg)
    if -1 in h.failed:
        return
    lines, plan = {}, []
    for k, f in enumerate(fs):
        if k in h.failed:
            continue
        lines[k] = []
        for evs in script(rng, f, scale):
            init = rng.choice(f.on)
            plan.append((k, init, evs))
            lines[k] += ['@ %d %d' % (k, init)] + [e[0] for e in evs]
    got = h.run(lines)
    pos = {k: 0 for k in lines}
    traces = []
    for k, init, evs in plan:
        o, p = got.get(k, []), pos[k] + 1
        rec = []
        for j, (_, e) in enumerate(evs):
            x = o[p + j].split(' ') if p + j < len(o) else ['died', '-', '0']
            rec.append(dict(e, rk=x[0], rb=positions(ops.num(x[1])), v=int(x[2])))
            if x[0] != 'ok':
                break
        pos[k] = p + len(evs)
        traces.append({'d': k, 'init': init, 'ev': rec})
    # check_traces weighs events by the length of v
    s, g, rej = tlc.check_traces([f.spec() for f in fs], traces, run.work + '/tlc', spec='FlagTrace')
    run.states += s
    run.transitions += g
    run.validated += len(traces) - len(rej)
    run.add('flag_enums', len(fs))
    run.add('conversions_of_the_real_code', sum(len(t['ev']) for t in traces))
    if not run.samples:
        t = traces[len(traces) // 2]
        run.samples.append({'declaration': fs[t['d']].text(), 'events': t['ev'][:4]})
    for r in rej:
        t = traces[r['trace']]
        f = fs[t['d']]
        run.violation('%s of variant %s / bits %s: the real code gave variant %s bits %s (%s), the specification variant %s bits %s; %s' % (
            r['call']['op'], r['before'], num(r['call']['x']), r['call']['v'], num(r['call']['rb']), r['call']['rk'],
            r['allowed']['k'], num(r['allowed']['b']), ' '.join(f.text().split())[:300]),
            declaration=f.text(), spec=f.spec(), init=t['init'], events=t['ev'][:r['i']], call=r['call'], allowed=r['allowed'])
    shutil.rmtree(h.root, ignore_errors=True)


def num(bits):
    return hex(sum(1 << b for b in bits))


def check(run):
    from .runner import Background, model
    mc = Background(model, run, 'P18', spec='FlagMC', consts={
        'Shapes': '{12, 21, 31, 22}' if run.thorough else '{12, 21, 31}',
        'MaxVariants': '3' if run.thorough else '2'})
    rng = random.Random('P18-%d' % run.seed)
    if not run.thorough:
        round_(run, pool(rng, 80), rng, 1)
    else:
        k = 0
        while k == 0 or (run.left(600) > 0 and not run.violations):
            round_(run, pool(rng, 100), rng, 1 + k % 3)
            run.say('round %d: %d traces' % (k, run.validated))
            k += 1
    mc.get()
