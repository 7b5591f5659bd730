"""What is recorded for each property: which declarations, which calls."""
from .ops import ev, inject, values, states, rstate, offsets, ranges, BIG
from .decls import INTS, ARRS, HEAPS

ENS = ['def', 'le', 'be']


def pick(rng, q):
    return q[rng.randrange(len(q))]


def setters(d):
    return [k for k, f in enumerate(d.fields) if f.setter()]


def getters(d):
    return [k for k, f in enumerate(d.fields) if f.getter()]


def builders(d):
    return [k for k, f in enumerate(d.fields) if f.builder()]


def chop(evs, n=40):
    return [evs[k:k + n] for k in range(0, len(evs), n)]


# Each script returns lists of events; every list becomes one trace, which
# starts from a random backing value.
def p01(rng, d, scale):
    out = []
    for k, f in enumerate(d.fields):
        if not f.builder():
            continue
        e = [ev('const', k)]
        bs = list(range(f.n)) if f.n <= 12 * scale else sorted(set([0, 1, f.n // 2, f.n - 2, f.n - 1] + [rng.randrange(f.n) for _ in range(7 * scale)]))
        m = (1 << f.vw()) - 1
        if f.setter():
            for v in values(rng, f, 6):
                e += [ev('inject', x=0), ev('set', k, v), ev('inject', x=(1 << d.size) - 1), ev('set', k, v)]
            if not (f.ty == 'c' and f.cust.ck == 'tab'):
                for b in bs:
                    if b < f.vw():
                        e += [ev('inject', x=0), ev('set', k, 1 << b)]
        if f.getter():
            for b in bs:
                e += [ev('inject', x=1 << (d.offset(k) + b)), ev('get', k)]
            o = d.offset(k)
            for p in (o - 1, o + f.n):
                if 0 <= p < d.size:
                    e += [ev('inject', x=1 << p), ev('get', k), ev('inject', x=((1 << d.size) - 1) ^ (1 << p)), ev('get', k)]
        out += chop(e)
    return out


def p02(rng, d, scale):
    out = []
    ss, gs = setters(d), getters(d)
    for k in ss:
        e = []
        for v in values(rng, d.fields[k], 10 * scale):
            e += [inject(rng, d), ev('set', k, v)]
            if d.fields[k].getter():
                e.append(ev('get', k))
        out += chop(e)
    for _ in range(3 * scale):
        e = [inject(rng, d)]
        for _ in range(30):
            if ss and (not gs or rng.random() < 0.6):
                k = pick(rng, ss)
                e.append(ev('set', k, pick(rng, values(rng, d.fields[k]))))
            elif gs:
                e.append(ev('get', pick(rng, gs)))
        out.append(e)
    return out


def p03(rng, d, scale):
    out = []
    for k, f in enumerate(d.fields):
        if f.ty != 'i':
            continue
        e = []
        vs = values(rng, f)
        if f.n <= 5:
            vs = list(dict.fromkeys(vs + [x % (1 << f.w) for x in range(-(1 << (f.n - 1)), 1 << (f.n - 1))]))
        for v in vs:
            for _ in range(scale):
                e.append(inject(rng, d))
                if f.setter():
                    e.append(ev('set', k, v))
                if f.getter():
                    e.append(ev('get', k))
        out += chop(e)
    return out


def p04(rng, d, scale):
    out = []
    for k in setters(d):
        f = d.fields[k]
        e = []
        for v in values(rng, f):
            e += [inject(rng, d), ev('cset', k, v)]
        for _ in range(6 * scale):
            # a value that fits, and one that just does not
            m = (1 << f.vw()) - 1
            v = rng.getrandbits(max(1, min(f.n, f.vw())))
            if f.ty == 'i' and v >> (f.n - 1):
                v |= m ^ ((1 << f.n) - 1)
            if f.ty == 'c' and f.cust.ck == 'tab':
                v = pick(rng, f.cust.vals)
            elif f.ty == 'c':
                v = into_c_inverse(f.cust, v)
            if f.ty == 'b':
                v &= 1
            e += [inject(rng, d), ev('cset', k, v & m)]
            if f.n < f.vw() and not (f.ty == 'c' and f.cust.ck == 'tab'):
                v ^= 1 << rng.randrange(f.n, f.vw())
                e += [inject(rng, d), ev('cset', k, v & m)]
        out += chop(e)
    bs = builders(d)
    e = []
    for k in bs:
        for v in values(rng, d.fields[k], 8 * scale):
            e.append(ev('build', wd=pick(rng, [0, 1]), st=[(k, 1, v)]))
    for _ in range(4 * scale):
        if bs:
            st = []
            for _ in range(rng.randrange(1, 5)):
                k = pick(rng, bs)
                st.append((k, pick(rng, [0, 1, 1]), pick(rng, values(rng, d.fields[k]))))
            e.append(ev('build', wd=pick(rng, [0, 1]), st=st))
    return out + chop(e)


def into_c_inverse(c, bits):
    """The value of custom type c whose bits conversion is bits."""
    from .decls import swap
    bits &= (1 << c.cw) - 1
    if c.ie == 'little':
        bits = swap(bits, c.cw // 8)
    if c.ck == 'inv':
        bits ^= (1 << c.cw) - 1
    return bits


def bit_ops(rng, d, n):
    e = []
    os = offsets(rng, d)
    for _ in range(n):
        o = pick(rng, os) if rng.random() < 0.5 else rng.randrange(d.size)
        e.append(pick(rng, [ev('sbit', o=o, x=rng.randrange(2)), ev('csbit', o=o, x=rng.randrange(2)), ev('gbit', o=o), ev('cgbit', o=o)]))
    return e


def range_ops(rng, d, n):
    e = []
    for o, l in ranges(rng, d, n):
        x = rstate(rng, d)
        e.append(pick(rng, [ev('srange', o=o, l=l, x=x), ev('csrange', o=o, l=l, x=x), ev('grange', o=o, l=l), ev('cgrange', o=o, l=l)]))
    return e


def weave(rng, d, evs, p=0.25, n=40):
    """Traces of the events with fresh backing values now and then."""
    out = []
    for c in chop(evs, n):
        t = [inject(rng, d)]
        for e in c:
            if rng.random() < p:
                t.append(inject(rng, d))
            t.append(e)
        out.append(t)
    return out


def p05(rng, d, scale):
    e = []
    # every field: bits, and ranges over its edges, in both polarities
    for k, f in enumerate(d.fields):
        a, b = d.offset(k), d.offset(k) + f.n
        for o in sorted(set([a, b - 1, (a + b) // 2])):
            for x in (0, 1):
                e += [ev('sbit', o=o, x=x), ev('csbit', o=o, x=x)]
            e += [ev('gbit', o=o), ev('cgbit', o=o)]
        for o, l in ((a, b - a), (max(a - 1, 0), min(b + 1, d.size) - max(a - 1, 0)), (a, 1), (b - 1, 1)):
            for op in ('srange', 'csrange'):
                e.append(ev(op, o=o, l=l, x=pick(rng, [0, (1 << d.size) - 1, rng.getrandbits(d.size)])))
            e += [ev('grange', o=o, l=l), ev('cgrange', o=o, l=l)]
    e += range_ops(rng, d, 10 * scale)
    for en in ENS:
        for x in states(rng, d, 3 + scale):
            e.append(ev('write', en=en, x=x))
    for _ in range(3):
        e.append(ev('inv'))
    rng.shuffle(e)
    out = weave(rng, d, e, 0.35)
    for s in states(rng, d, 4):
        out.append([ev('inject', x=s), ev('inv'), ev('inv'), ev('write', x=s ^ ((1 << d.size) - 1)), ev('inv')])
    return out


def p06(rng, d, scale):
    out = []
    for s in states(rng, d, 3):
        t = [ev('inject', x=s), ev('deft')]
        if d.new:
            t += [ev('inject', x=s), ev('new'), ev('inject', x=s), ev('newwo')]
        out.append(t)
    return out


def chain(rng, d, ck=True):
    bs = builders(d)
    st = []
    if bs:
        for _ in range(rng.randrange(0, min(8, len(bs) + 3))):
            k = pick(rng, bs)
            st.append((k, pick(rng, [0, 0, 1]) if ck else 0, pick(rng, values(rng, d.fields[k]))))
    return st


def p07(rng, d, scale):
    e = [ev('build', wd=w) for w in (0, 1, 2)]
    for k in builders(d):
        for v in values(rng, d.fields[k], 6 * scale):
            e += [ev('build', wd=pick(rng, [0, 1, 2]), st=[(k, 0, v)]), ev('build', wd=pick(rng, [0, 1]), st=[(k, 1, v)])]
        v, w = pick(rng, values(rng, d.fields[k])), pick(rng, values(rng, d.fields[k]))
        e.append(ev('build', wd=pick(rng, [0, 1]), st=[(k, 0, v), (k, 0, w)]))
    for _ in range(12 * scale):
        e.append(ev('build', wd=pick(rng, [0, 1]), st=chain(rng, d)))
    return weave(rng, d, e, 0.1)


def conv_ops(rng, d, scale):
    e = []
    for en in ENS + ['tr', 'tr2']:
        for wd in ((0, 1) if en in ENS else (0,)):
            for x in states(rng, d, 3 + 2 * scale):
                e.append(ev('from', en=en, wd=wd, x=x))
                e.append(ev('into', en=pick(rng, ENS + ['tr', 'tr2'])))
        for _ in range(1 + scale):
            e += [inject(rng, d), ev('into', en=en)]
    # walking bits: every byte
    for b in range(d.nb):
        e.append(ev('from', en=pick(rng, ENS), x=0x80 << (8 * b)))
        e.append(ev('into', en=pick(rng, ENS)))
    return e


def p08(rng, d, scale):
    return chop(conv_ops(rng, d, scale))


def slice_ops(rng, d, scale):
    e = []
    lens = sorted(set([0, 1, d.nb - 1, d.nb, d.nb + 1, d.nb // 2, d.nb + 7, 2 * d.nb]))
    for en in ENS:
        for l in lens:
            for ck in (0, 1):
                for wd in (0, 1):
                    e.append(ev('fslice', en=en, wd=wd, ck=ck, l=l, x=rng.getrandbits(8 * l) if l else 0))
                e.append(inject(rng, d))
                e.append(ev('islice', en=en, ck=ck, l=l, x=rng.getrandbits(8 * l) if l else 0))
    return e


def p09(rng, d, scale):
    e = conv_ops(rng, d, scale) + [x for _ in range(scale) for x in slice_ops(rng, d, scale)]
    return chop(e)


def write_ops(rng, d, scale):
    e = [ev('wdef')]
    for en in ENS:
        for wd in (0, 1):
            for x in states(rng, d, 3 + 2 * scale):
                e.append(ev('write', en=en, wd=wd, x=x))
    for b in range(d.nb):
        e.append(ev('write', en=pick(rng, ENS), x=0x81 << (8 * b) & ((1 << d.size) - 1)))
    e += [ev('wdef'), ev('wdef')]
    return e


def p10(rng, d, scale):
    return weave(rng, d, write_ops(rng, d, scale), 0.5)


def p11(rng, d, scale):
    e = []
    os = offsets(rng, d)
    if d.size <= 64:
        os = sorted(set(os) | set(range(d.size)))
    for o in os:
        e += [ev('sbit', o=o, x=0), ev('sbit', o=o, x=1), ev('csbit', o=o, x=1), ev('csbit', o=o, x=0), ev('gbit', o=o), ev('cgbit', o=o)]
    rng.shuffle(e)
    if len(e) > 220 * scale:
        e = e[:220 * scale]
    return weave(rng, d, e, 0.3)


def p12(rng, d, scale):
    return weave(rng, d, range_ops(rng, d, 120 * scale), 0.4)


def clear_ops(rng, d):
    e = []
    for k, f in enumerate(d.fields):
        if f.setter():
            e += [ev('clearf', k)] * 2
            if f.hd:
                e += [ev('clearfd', k)] * 2
    e += [ev('clear'), ev('clearwd')] * 2
    return e


def p13(rng, d, scale):
    out = []
    for s in states(rng, d, 4 + 4 * scale):
        t = []
        for e in clear_ops(rng, d):
            t += [ev('inject', x=s), e]
        out += chop(t)
    e = clear_ops(rng, d)
    rng.shuffle(e)
    return out + weave(rng, d, e, 0.3)


def inv_ops(rng, d):
    e = [ev('inv')] * 2
    for k, f in enumerate(d.fields):
        if f.setter():
            e += [ev('invf', k)] * 2
        if f.getter():
            e += [ev('ginv', k)] * 2
    return e


def p14(rng, d, scale):
    out = []
    for s in states(rng, d, 4 + 4 * scale):
        t = []
        for e in inv_ops(rng, d):
            t += [ev('inject', x=s), e]
        out += chop(t)
    e = inv_ops(rng, d) * 2
    rng.shuffle(e)
    return out + weave(rng, d, e, 0.2)


def all_ops(rng, d, n, ops):
    """n random calls of every kind."""
    ss, gs, bs = setters(d), getters(d), builders(d)
    out = []
    while len(out) < n:
        op = pick(rng, ops)
        if op in ('set', 'cset') and ss:
            k = pick(rng, ss)
            out.append(ev(op, k, pick(rng, values(rng, d.fields[k]))))
        elif op in ('clearf', 'invf') and ss:
            out.append(ev(op, pick(rng, ss)))
        elif op == 'clearfd':
            q = [k for k in ss if d.fields[k].hd]
            if q:
                out.append(ev(op, pick(rng, q)))
        elif op in ('get', 'ginv') and gs:
            out.append(ev(op, pick(rng, gs)))
        elif op == 'build':
            out.append(ev(op, wd=rng.randrange(2), st=chain(rng, d)))
        elif op in ('new', 'newwo'):
            if d.new:
                out.append(ev(op))
        elif op in ('deft', 'clear', 'clearwd', 'inv', 'wdef', 'debug'):
            out.append(ev(op))
        elif op == 'from':
            out.append(ev(op, en=pick(rng, ENS + ['tr']), wd=0, x=rstate(rng, d)))
            if out[-1]['en'] != 'tr':
                out[-1]['wd'] = rng.randrange(2)
        elif op == 'into':
            out.append(ev(op, en=pick(rng, ENS + ['tr'])))
        elif op == 'write':
            out.append(ev(op, en=pick(rng, ENS), wd=rng.randrange(2), x=rstate(rng, d)))
        elif op in ('fslice', 'islice') and d.kind == 'arr':
            l = pick(rng, [0, d.nb - 1, d.nb, d.nb, d.nb + 3])
            out.append(ev(op, en=pick(rng, ENS), ck=rng.randrange(2), wd=rng.randrange(2), l=l, x=rng.getrandbits(8 * l) if l else 0))
        elif op in ('sbit', 'csbit', 'gbit', 'cgbit'):
            o = rng.randrange(d.size + 2)
            out.append(ev(op, o=o, x=rng.randrange(2) if op in ('sbit', 'csbit') else 0))
        elif op in ('srange', 'csrange', 'grange', 'cgrange'):
            o, l = pick(rng, ranges(rng, d, 8))
            out.append(ev(op, o=o, l=l, x=rstate(rng, d)))
        elif op == 'igset' and d.ig:
            k = rng.randrange(len(d.ig))
            out.append(ev(op, k, l=1 if d.ig[k] == 'bool' else rng.randrange(0, 200)))
        elif op == 'inject':
            out.append(inject(rng, d))
    return out


def table(rng, d, ops, cap=70000):
    """Every backing value of a one-byte declaration with every call on it
    (every field, offset, range and mode; every value of a field where that is
    not more than cap calls, a sample otherwise)."""
    fs = range(len(d.fields))
    ss, gs = setters(d), getters(d)
    full = range(1 << d.size)
    pure, calls = [], []        # do not, do depend on the backing value
    for op in ops:
        if op == 'const':
            pure += [ev(op, k) for k in builders(d)]
        elif op in ('set', 'cset'):
            for k in ss:
                f = d.fields[k]
                vs = list(range(1 << f.vw())) if f.vw() <= 8 and not (f.ty == 'c' and f.cust.ck == 'tab') else sorted(set(values(rng, f)))
                q = max(4, cap // (len(full) * len(ss)))
                calls.append(lambda op=op, k=k, vs=vs, q=q: [ev(op, k, v) for v in (vs if len(vs) <= q else rng.sample(vs, q))])
        elif op in ('clearf', 'invf'):
            calls += [lambda e=ev(op, k): [dict(e)] for k in ss]
        elif op == 'clearfd':
            calls += [lambda e=ev(op, k): [dict(e)] for k in ss if d.fields[k].hd]
        elif op in ('get', 'ginv'):
            calls += [lambda e=ev(op, k): [dict(e)] for k in gs]
        elif op in ('clear', 'clearwd', 'inv', 'wdef'):
            calls.append(lambda e=ev(op): [dict(e)])
        elif op == 'debug':
            calls.append(lambda e=ev(op): [dict(e)])
        elif op == 'into':
            calls += [lambda e=ev(op, en=en): [dict(e)] for en in ENS]
        elif op == 'from':
            pure += [ev(op, en=en, wd=wd, x=x) for x in full for en in ENS for wd in (0, 1)]
        elif op == 'write':
            calls.append(lambda op=op: [ev(op, en=pick(rng, ENS), wd=wd, x=pick(rng, full)) for wd in (0, 1) for _ in range(4)])
        elif op == 'fslice' and d.kind == 'arr':
            pure += [ev(op, en=en, wd=wd, ck=ck, l=d.nb, x=x) for x in full for en in ENS for wd in (0, 1) for ck in (0, 1)]
        elif op == 'islice' and d.kind == 'arr':
            calls += [lambda e=ev(op, en=en, ck=ck, l=l): [dict(e, x=rng.getrandbits(8 * e['l']))] for en in ENS for ck in (0, 1) for l in (d.nb, d.nb + 1)]
        elif op in ('gbit', 'cgbit'):
            calls += [lambda e=ev(op, o=o): [dict(e)] for o in range(d.size + 1)]
        elif op in ('sbit', 'csbit'):
            calls += [lambda e=ev(op, o=o, x=x): [dict(e)] for o in range(d.size + 1) for x in (0, 1)]
        elif op in ('grange', 'cgrange'):
            calls += [lambda e=ev(op, o=o, l=l): [dict(e)] for o in range(d.size) for l in range(d.size - o + 2)]
        elif op in ('srange', 'csrange'):
            calls += [lambda e=ev(op, o=o, l=l): [dict(e, x=pick(rng, full))] for o in range(d.size) for l in range(d.size - o + 2)]
    out = list(pure)
    for s in full:
        for c in calls:
            for e in c():
                out += [ev('inject', x=s), e]
    return chop(out, 1000)


def far(rng, d, ops):
    """Calls on a declaration with fields beyond 2^11 or 2^16 bits; backing
    values have few bits set."""
    out = []
    small = [k for k, f in enumerate(d.fields) if f.n <= 1024]
    edges = sorted(set(o for k in small for o in (d.offset(k), d.offset(k) + d.fields[k].n)))
    near = sorted(set(x for o in edges for x in (o - 1, o, o + 1) if 0 <= x <= d.size) | {0, d.size - 1, d.size, d.size // 2, 255, 256, 2047, 2048, 65535, 65536})

    def put(*evs):
        for e in evs:
            out.extend([inject(rng, d), e])
    for op in ops:
        if op == 'const':
            put(*[ev(op, k) for k in builders(d)])
        elif op in ('set', 'cset'):
            for k in setters(d):
                put(*[ev(op, k, v) for v in values(rng, d.fields[k], 5)])
        elif op in ('clearf', 'invf'):
            put(*[ev(op, k) for k in setters(d) if k in small or op == 'clearf'])
        elif op == 'clearfd':
            put(*[ev(op, k) for k in setters(d) if d.fields[k].hd])
        elif op == 'get':
            put(*[ev(op, k) for k in getters(d) for _ in (0, 1)])
        elif op == 'ginv':
            put(*[ev(op, k) for k in getters(d) if k in small])
        elif op == 'build':
            for _ in range(4):
                put(ev(op, wd=rng.randrange(2), st=chain(rng, d)))
        elif op in ('new', 'newwo'):
            if d.new:
                put(ev(op))
        elif op in ('deft', 'clear', 'clearwd', 'wdef'):
            put(ev(op), ev(op))
        elif op == 'into':
            put(*[ev(op, en=en) for en in ENS])
        elif op in ('from', 'write'):
            put(*[ev(op, en=en, wd=wd, x=rstate(rng, d)) for en in ENS for wd in (0, 1)])
        elif op in ('fslice', 'islice'):
            put(*[ev(op, en=en, wd=rng.randrange(2), ck=ck, l=d.nb, x=rstate(rng, d)) for en in ENS for ck in (0, 1)])
        elif op in ('gbit', 'cgbit'):
            put(*[ev(op, o=o) for o in near])
        elif op in ('sbit', 'csbit'):
            put(*[ev(op, o=o, x=rng.randrange(2)) for o in near])
        elif op in ('grange', 'cgrange', 'srange', 'csrange'):
            for _ in range(12):
                a, b = sorted((pick(rng, near), pick(rng, near)))
                put(ev(op, o=a, l=b - a, x=rstate(rng, d) if op in ('srange', 'csrange') else 0))
    return chop(out, 20)


def p15(rng, d, scale):
    out = []
    for k, f in enumerate(d.fields):
        if f.ty != 'a':
            continue
        e = []
        for v in values(rng, f):
            e.append(inject(rng, d))
            if f.setter():
                e += [ev('set', k, v), ev('inject', x=rstate(rng, d)), ev('cset', k, v)]
            if f.getter():
                e += [ev('get', k), ev('ginv', k)]
            if f.builder():
                e += [ev('build', wd=pick(rng, [0, 1]), st=[(k, pick(rng, [0, 0, 1]), v)])]
        for _ in range(3):
            e.append(inject(rng, d))
            if f.setter():
                e += [ev('invf', k), ev('clearf', k)]
                if f.hd:
                    e += [inject(rng, d), ev('clearfd', k)]
        # the whole value at once
        for op in ('write', 'from', 'write', 'from'):
            x = pick(rng, [(1 << d.size) - 1, rng.getrandbits(d.size), rstate(rng, d)])
            e += [inject(rng, d), ev(op, en=pick(rng, ENS), wd=rng.randrange(2), x=x)]
        out += chop(e)
    ops = ['from', 'into', 'write', 'wdef', 'inv', 'clear', 'clearwd', 'deft', 'build', 'fslice', 'islice']
    if d.kind == 'int':
        ops = ops[:-2]
    return out + weave(rng, d, all_ops(rng, d, 40 * scale, ops), 0.3)


def p17(rng, d, scale):
    out = []
    for k, f in enumerate(d.fields):
        if f.ty != 'c':
            continue
        e = []
        for v in values(rng, f, 8 * scale):
            e.append(inject(rng, d))
            if f.setter():
                e += [ev('set', k, v), inject(rng, d), ev('cset', k, v)]
            if f.builder():
                e += [ev('build', wd=pick(rng, [0, 1]), st=[(k, pick(rng, [0, 0, 1]), v)])]
        for _ in range(6 * scale):
            e.append(inject(rng, d))
            if f.getter():
                e += [ev('get', k), ev('ginv', k)]
            if f.setter():
                e += [ev('invf', k), inject(rng, d), ev('clearf', k)]
                if f.hd:
                    e += [inject(rng, d), ev('clearfd', k)]
        # the raw bits the type maps specially
        if f.getter() and f.cust.ck == 'tab':
            for v in f.cust.vals + [f.cust.fb + 1]:
                for z in (v, int.from_bytes(v.to_bytes(f.cust.cw // 8, 'little'), 'big')):
                    e += [ev('inject', x=(z & ((1 << f.n) - 1)) << d.offset(k)), ev('get', k)]
        out += chop(e)
    ops = ['from', 'into', 'write', 'wdef', 'inv', 'clear', 'clearwd', 'deft', 'new', 'newwo', 'build', 'fslice', 'islice']
    if d.kind == 'int':
        ops = ops[:-2]
    return out + weave(rng, d, all_ops(rng, d, 50 * scale, ops), 0.3)


def p19(rng, d, scale):
    e = []
    for s in states(rng, d, 8 + 8 * scale):
        e += [ev('inject', x=s), ev('debug', wd=rng.randrange(2))]
    for k, f in enumerate(d.fields):
        e += [ev('inject', x=((1 << f.n) - 1) << d.offset(k)), ev('debug'),
              ev('inject', x=1 << d.offset(k)), ev('debug', wd=1), ev('inject', x=1 << (d.offset(k) + f.n - 1)), ev('debug')]
    return chop(e)


EVERY = ['set', 'cset', 'get', 'ginv', 'clearf', 'clearfd', 'invf', 'new', 'newwo', 'deft', 'clear', 'clearwd', 'inv', 'wdef',
         'from', 'into', 'write', 'build', 'fslice', 'islice', 'sbit', 'csbit', 'gbit', 'cgbit', 'srange', 'csrange', 'grange',
         'cgrange', 'debug', 'inject']


def p24(rng, d, scale):
    out = []
    ops = EVERY + ['igset'] * 4
    if d.kind == 'int':
        ops = [o for o in ops if o not in ('fslice', 'islice')]
    for _ in range(4 * scale):
        out.append([inject(rng, d)] + all_ops(rng, d, 38, ops))
    # every way of constructing, after every ignored field was changed
    t = []
    mk = [ev('deft'), ev('build', wd=0), ev('build', wd=1)] + [ev('from', en=en, wd=wd, x=rstate(rng, d)) for en in ENS for wd in (0, 1)] + [
        ev('from', en='tr', x=rstate(rng, d))]
    if d.new:
        mk += [ev('new'), ev('newwo')]
    if d.kind == 'arr':
        mk += [ev('fslice', en=en, wd=wd, ck=ck, l=d.nb, x=rstate(rng, d)) for en in ENS for wd in (0, 1) for ck in (0, 1)]
    for m in mk:
        t += [ev('igset', i, l=1 if d.ig[i] == 'bool' else 1 + rng.randrange(99)) for i in range(len(d.ig))] + [m]
    return out + chop(t)


BITS = ['sbit', 'csbit', 'gbit', 'cgbit']
RANGES = ['srange', 'csrange', 'grange', 'cgrange']

# property -> script, operations the harness must offer, pool settings,
# number of declarations (quick, thorough)
TRACED = {
    'P01': dict(script=p01, ops=['const', 'get', 'set'], kw=dict(p_res=0.1), n=(120, 480)),
    'P02': dict(script=p02, ops=['get', 'set'], kw=dict(p_acc=0.15), n=(120, 480)),
    'P03': dict(script=p03, ops=['get', 'set'], kw=dict(weights=dict(i=20, u=2, c=0.5, a=0.5), p_acc=0.05, p_res=0.03), n=(140, 480)),
    'P04': dict(script=p04, ops=['cset', 'build'], kw=dict(p_acc=0.15), n=(120, 480)),
    'P05': dict(script=p05, ops=BITS + RANGES + ['write', 'inv'], kw=dict(p_acc=0.75, p_res=0.25), n=(110, 400)),
    'P06': dict(script=p06, ops=['new', 'newwo', 'deft'], kw=dict(p_def=0.75, p_res=0.2, p_acc=0.4), n=(240, 800)),
    'P07': dict(script=p07, ops=['build'], kw=dict(p_nonew=0.3, p_acc=0.5), n=(120, 480)),
    'P08': dict(script=p08, ops=['from', 'into'], kw=dict(p_acc=0.4, p_def=0.45), backings=INTS, n=(100, 400)),
    'P09': dict(script=p09, ops=['from', 'into', 'fslice', 'islice'], kw=dict(p_acc=0.4, p_def=0.45), backings=ARRS + HEAPS, n=(72, 320)),
    'P10': dict(script=p10, ops=['write', 'wdef'], kw=dict(p_acc=0.5, p_def=0.5), n=(120, 480)),
    'P11': dict(script=p11, ops=BITS, kw=dict(p_acc=0.45), n=(100, 400)),
    'P12': dict(script=p12, ops=RANGES, kw=dict(p_acc=0.4), n=(100, 400)),
    'P13': dict(script=p13, ops=['clear', 'clearwd', 'clearf', 'clearfd'], kw=dict(p_def=0.5, p_acc=0.3), n=(120, 480)),
    'P14': dict(script=p14, ops=['inv', 'invf', 'ginv'], kw=dict(p_acc=0.3), n=(120, 480)),
    'P15': dict(script=p15, ops=[o for o in EVERY if o not in BITS + RANGES + ['debug']], kw=dict(weights=dict(a=12, u=3, i=2, c=1)), n=(90, 360)),
    'P17': dict(script=p17, ops=[o for o in EVERY if o not in BITS + RANGES + ['debug']], kw=dict(weights=dict(c=12, u=3, i=2, a=1)), n=(90, 360)),
    'P19': dict(script=p19, ops=['debug'], kw={}, n=(150, 480)),
    'P24': dict(script=p24, ops=EVERY + ['igset'], kw=dict(ig=2), n=(90, 360)),
}


def fixed(prop):
    """Hand-picked declarations that every run includes."""
    return []
