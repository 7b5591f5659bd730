"""Calls: generation, the text form the harness reads, and the recorded form
the specification checks."""
import re

from .decls import positions

BIG = 1 << 20           # offsets and lengths from here on look alike to TLC


def ev(op, f=-1, x=0, o=0, l=0, en='def', wd=0, ck=0, st=()):
    return {'op': op, 'f': f, 'x': x, 'o': o, 'l': l, 'en': en, 'wd': wd, 'ck': ck, 'st': list(st)}


def hx(x, n):
    return x.to_bytes(n, 'little').hex() if n else '-'


def line(d, e):
    op = e['op']
    if op in ('const', 'get', 'ginv', 'clearf', 'clearfd', 'invf'):
        return '%s %d' % (op, e['f'])
    if op in ('set', 'cset'):
        return '%s %d %s' % (op, e['f'], hx(e['x'], d.fields[e['f']].nbytes()))
    if op == 'inject':
        return 'inject ' + hx(e['x'], d.nb)
    if op == 'build':
        return ' '.join(['build', str(e['wd'])] + ['%d %d %s' % (f, ck, hx(x, d.fields[f].nbytes())) for f, ck, x in e['st']])
    if op in ('from', 'write'):
        return '%s %s %d %s' % (op, e['en'], e['wd'], hx(e['x'], d.nb))
    if op == 'into':
        return 'into ' + e['en']
    if op == 'fslice':
        return 'fslice %s %d %d %s' % (e['en'], e['wd'], e['ck'], hx(e['x'], e['l']))
    if op == 'islice':
        return 'islice %s %d %s' % (e['en'], e['ck'], hx(e['x'], e['l']))
    if op in ('sbit', 'csbit'):
        return '%s %d %d' % (op, e['o'], e['x'])
    if op in ('gbit', 'cgbit'):
        return '%s %d' % (op, e['o'])
    if op in ('srange', 'csrange'):
        return '%s %d %d %s' % (op, e['o'], e['l'], hx(e['x'], d.nb))
    if op in ('grange', 'cgrange'):
        return '%s %d %d' % (op, e['o'], e['l'])
    if op == 'debug':
        return 'debug %d' % e['wd']
    if op == 'igset':
        return 'igset %d %d' % (e['f'], e['l'])
    return op


def num(h):
    return 0 if h == '-' else int.from_bytes(bytes.fromhex(h), 'little')


def parse_debug(text):
    """[name, bits, bytes] of everything in a Debug output; None if it does not
    have the shape Name { field: number-or-[bytes], ... }."""
    t = re.sub(r'\s+', ' ', text.strip())
    m = re.fullmatch(r'(\w+) \{ (.*?),? \}', t)
    if not m:
        return None
    out = [{'n': m.group(1), 'b': [], 'l': 0}]
    pos = 0
    body = m.group(2)
    item = re.compile(r'(r#)?(\w+): (\d+|\[[\d, ]*\])(, |$)')
    while pos < len(body):
        k = item.match(body, pos)
        if not k:
            return None
        v = k.group(3)
        if v[0] == '[':
            bs = [int(x) for x in v[1:-1].replace(' ', '').split(',') if x]
            if any(b > 255 for b in bs):
                return None
            out.append({'n': (k.group(1) or '') + k.group(2), 'b': positions(int.from_bytes(bytes(bs), 'little')), 'l': len(bs)})
        else:
            out.append({'n': (k.group(1) or '') + k.group(2), 'b': positions(int(v)), 'l': 0})
        pos = k.end()
    return out


def record(d, e, out):
    """The JSON event for call e and the harness output line out."""
    r = {'op': e['op'], 'f': e['f'] + 1, 'x': positions(e['x']), 'o': min(e['o'], BIG), 'l': min(e['l'], BIG),
         'en': 'def' if e['en'].startswith('tr') else e['en'], 'wd': e['wd'] > 0, 'ck': e['ck'] > 0,
         'st': [{'f': f + 1, 'ck': ck > 0, 'x': positions(x)} for f, ck, x in e['st']]}
    if out is None:
        r.update({'rk': 'died', 'rb': [], 'rs': [], 'v': [], 'ig': []})
        return r
    p = out.split(' ')
    k, b, s, v = p[0], p[1], p[2], p[3]
    igs = [] if p[4] == '-' else [int(q) for q in p[4:]]
    if k == 'dbg':
        s = parse_debug(bytes.fromhex(b).decode('utf8', 'replace'))
        k, b = ('val' if s is not None else 'unparsable'), '-'
        r['text'] = bytes.fromhex(p[1]).decode('utf8', 'replace')
        if s is None:
            s = []
    else:
        s = [] if s == '-' else [int(q) for q in s.split(',')]
    r.update({'rk': k, 'rb': positions(num(b)), 'rs': s, 'v': positions(num(v)), 'ig': igs})
    return r


# ------------------------------------------------------------ random values
def values(rng, f, count=None):
    """Values of field f's type worth trying, as unsigned numbers."""
    w, n = f.vw(), f.n
    if f.ty == 'b':
        return [0, 1]
    if f.ty == 'c' and f.cust.ck == 'tab':
        vs = list(f.cust.vals)
        if count and len(vs) > count:
            vs = rng.sample(vs, count)
        return vs
    m = (1 << w) - 1
    if w > 1024:
        return [0] + [sum(1 << b for b in set(rng.randrange(w) for _ in range(5))) for _ in range((count or 4) - 1)]
    lo = (1 << min(n, w)) - 1
    vs = [0, lo, m, 1, (1 << (min(n, w) - 1)), (lo >> 1), (1 << n) & m, ((1 << n) + 1) & m, m ^ lo, (m ^ (lo >> 1)),
          (m ^ (lo >> 1)) - 1 & m, 1 << (w - 1), m - 1,
          rng.getrandbits(w), rng.getrandbits(w), rng.getrandbits(min(n, w)), rng.getrandbits(min(n, w)),
          rng.getrandbits(min(n, w)) | (1 << rng.randrange(w)),
          (1 << rng.randrange(w)), m ^ (1 << rng.randrange(w))]
    if f.ty == 'c' and f.cust.ck == 'inv':
        vs = [v ^ m for v in vs]
    vs = list(dict.fromkeys(v & m for v in vs))
    if count and len(vs) > count:
        vs = rng.sample(vs, count)
    return vs


def sparse(rng, d):
    """A backing value of a huge declaration with few bits set, most of them
    in and around the small fields."""
    x = 0
    for _ in range(3):
        x |= 1 << rng.randrange(d.size)
    small = [k for k, f in enumerate(d.fields) if f.n <= 1024]
    lo = min(d.offset(k) for k in small)
    hi = max(d.offset(k) + d.fields[k].n for k in small)
    lo, hi = max(0, lo - 16), min(d.size, hi + 16)
    w = hi - lo
    return x | rng.choice([0, (1 << w) - 1, rng.getrandbits(w), rng.getrandbits(w), 1 << rng.randrange(w)]) << lo


def states(rng, d, count):
    if d.nb > 128:
        return [0] + [sparse(rng, d) for _ in range(count - 1)]
    m = (1 << d.size) - 1
    vs = [0, m, rng.getrandbits(d.size), rng.getrandbits(d.size), int('55' * d.nb, 16), int('aa' * d.nb, 16)]
    while len(vs) < count:
        vs.append(rng.getrandbits(d.size))
    return vs[:count]


def rstate(rng, d):
    if d.nb > 128:
        return sparse(rng, d)
    c = rng.random()
    m = (1 << d.size) - 1
    if c < 0.12:
        return 0
    if c < 0.24:
        return m
    if c < 0.32:
        return 1 << rng.randrange(d.size)
    if c < 0.4:
        return m ^ (1 << rng.randrange(d.size))
    return rng.getrandbits(d.size)


def inject(rng, d):
    return ev('inject', x=rstate(rng, d))


def offsets(rng, d):
    """Every boundary of a field, the ends, and offsets beyond."""
    o = set([0, d.size - 1, d.size, d.size + 1, 7, 8, 31, 32, 63, 64, 127, 128, 255, 256, 1 << 16, (1 << 31) - 1, 1 << 31,
             (1 << 32) - 1, (1 << 32) - d.size, (1 << 32) - 2, (1 << 31) + 7])
    for k, f in enumerate(d.fields):
        a = d.offset(k)
        o |= {a, a + f.n - 1, a + f.n, max(a - 1, 0), a + f.n // 2}
    return sorted(o)


def ranges(rng, d, count):
    out = []
    size = d.size
    edges = sorted(set([0, size] + [d.offset(k) for k in range(len(d.fields))] + [d.offset(k) + f.n for k, f in enumerate(d.fields)]))
    top = [(1 << 32) - 1, (1 << 32) - 2, 1 << 31, (1 << 31) - 1, size, size + 1, (1 << 32) - size]
    for o in (0, 1, size - 1, size, size + 1, (1 << 32) - 1, 1 << 31):
        for l in (0, 1, size - 1, size, size + 1, (1 << 32) - 1, 1 << 31):
            out.append((o, l))
    out += [(o, (1 << 32) - o) for o in (1, 2, size - 1, 7)]
    out += [(o, (1 << 32) - o + 1) for o in (2, size - 1)]
    fixed = list(dict.fromkeys(out))
    rng.shuffle(fixed)
    rand = []
    while len(rand) < count:
        c = rng.random()
        if c < 0.45:
            a, b = rng.choice(edges), rng.choice(edges)
            a += rng.choice([-1, 0, 0, 1])
            b += rng.choice([-1, 0, 0, 1])
            a, b = max(0, min(a, b)), max(0, a, b)
            rand.append((a, b - a))
        elif c < 0.85:
            a = rng.randrange(size)
            rand.append((a, rng.randint(0, size - a)))
        elif c < 0.93:
            rand.append((rng.randrange(size), rng.choice(top)))
        else:
            rand.append((rng.choice(top), rng.randrange(size + 2)))
    half = count // 2
    return rand[:count - min(half, len(fixed))] + fixed[:half]
