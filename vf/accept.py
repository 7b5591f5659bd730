"""Which declarations compile (P20): valid declarations and single-fault
mutations of them, the compiler's verdict on each, and TLC's."""
import copy
import random
import re
import shutil

from . import decls, flags, rust, tlc
from .decls import BY, UNS, SIG, WID, literal, positions
from .rust import ToolError


class Ty:
    def __init__(self, text, t, w=0, et='', ln=0):
        self.text, self.t, self.w, self.et, self.len = text, t, w, et, ln

    def spec(self):
        return {'t': self.t, 'w': self.w, 'et': self.et, 'len': self.len}


def uint(w):
    return Ty(UNS[w], 'u', w)


def sint(w):
    return Ty(SIG[w], 'i', w)


def arr(n):
    return Ty('[u8; %d]' % n, 'arr', 0, 'u8', n)


BOOL = Ty('bool', 'bool', 1)
NOTHING = Ty('', 'none')


def bad_array(rng, n):
    return rng.choice([Ty('[u16; %d]' % max(1, n // 2), 'arr', 0, 'u16', max(1, n // 2)), Ty('[i8; %d]' % n, 'arr', 0, 'i8', n),
                       Ty('[u8; 0]', 'arr', 0, 'u8', 0), Ty('[u8; %d / 1]' % n, 'arr', 0, 'u8', -1), Ty('[bool; %d]' % n, 'arr', 0, 'bool', n),
                       Ty('[u8; %d]' % rng.choice([1 << 32, (1 << 29) + n, 1 << 29, (1 << 61) + n]), 'arr', 0, 'u8', -1), Ty('[f32; %d]' % n, 'arr', 0, 'f32', n), Ty('[usize; %d]' % n, 'arr', 0, 'usize', n),
                       Ty('[I8; %d]' % n, 'arr', 0, 'I8', n), Ty('[[u8; %d]; 1]' % n, 'arr', 0, 'arr', 1), Ty('[u32; 1]', 'arr', 0, 'u32', 1)])


def odd(rng):
    return rng.choice([Ty("&'static u8", 'odd'), Ty('(u8,)', 'odd'), Ty('()', 'odd'), Ty('&[u8]', 'odd'), Ty('fn()', 'odd'), Ty('*const u8', 'odd')])


class Arg:
    def __init__(self, k, v, shape='kv'):
        self.k, self.v, self.shape = k, v, shape

    def rust(self):
        return {'kv': '%s = %s' % (self.k, self.v), 'noeq': self.k, 'noval': self.k + ' =', 'colon': '%s: %s' % (self.k, self.v),
                'call': '%s(%s)' % (self.k, self.v), 'lit': self.v}[self.shape]

    def spec(self):
        return {'k': self.k, 'v': self.v, 'shape': self.shape}


class F:
    def __init__(self, nm, ty, n=None):
        self.nm, self.ty, self.n = nm, ty, n or 0
        self.attr, self.bk = ('list', 'ok') if n is not None else ('none', 'no')
        self.btext = str(n)
        self.args = []
        self.dk, self.neg, self.mag = 'none', False, 0
        self.vis = ''

    @property
    def res(self):
        return self.nm.startswith('_') and not self.ignored()

    def ignored(self):
        return any(a.k == 'ignore' and a.v == 'true' for a in self.args)

    def width(self):
        return self.n if self.bk == 'ok' else tybits(self.ty)

    def has(self, k):
        return any(a.k == k for a in self.args)

    def default(self, text, dk='int', neg=False, mag=0):
        self.args = [a for a in self.args if a.k != 'default'] + [Arg('default', text)]
        if self.attr == 'none':
            self.attr = 'list'
        self.dk, self.neg, self.mag = dk, neg, mag

    def rust(self):
        if self.attr == 'none':
            a = ''
        elif self.attr == 'bare':
            a = '#[bits] '
        elif self.attr == 'eq':
            a = '#[bits = %d] ' % max(self.n, 1)
        else:
            q = [] if self.bk == 'no' else [self.btext]
            a = '#[bits(%s)] ' % ', '.join(q + [x.rust() for x in self.args])
            if self.attr == 'twice':
                a = self.first + a if self.before else a + self.first
        return '    %s%s%s: %s,\n' % (a, self.vis, self.nm, self.ty.text)

    def spec(self):
        return {'nm': self.nm, 'res': self.res, 'ty': self.ty.spec(), 'attr': self.attr, 'bk': self.bk, 'n': min(self.n, 1 << 28),  # TLC's integers have 32 bits
                'args': [dict(a.spec(), v='') if a.k == 'default' else a.spec() for a in self.args], 'dk': self.dk, 'neg': self.neg, 'mag': positions(self.mag)}


def tybits(ty):
    return ty.len * BY if ty.t == 'arr' else ty.w


class D:
    """A bitfield declaration."""
    wrap = None

    def __init__(self, back):
        self.item, self.back, self.args, self.fields, self.consts = 'struct', back, [], [], []
        self.what = 'as generated'

    def text(self):
        given = ([self.back.text] if self.back.t != 'none' else []) + [a.rust() for a in self.args]
        at = '#[bitfield(%s)]\n' % ', '.join(given)
        body = ''.join(f.rust() for f in self.fields)
        if self.item == 'struct':
            it = 'pub struct S {\n%s}\n' % body
        elif self.item == 'generic':
            it = 'pub struct S<%s> {\n%s}\n' % (self.generic, body)
        elif self.item == 'tuple':
            it = 'pub struct S(%s);\n' % ', '.join('pub ' + f.ty.text for f in self.fields)
        elif self.item == 'unit':
            it = 'pub struct S;\n'
        elif self.item == 'enum':
            it = 'pub enum S { A = 0, B = 1 }\n'
        else:
            it = 'pub fn s() {}\n'
        return ''.join(c + '\n' for c in self.consts) + at + it

    def size(self):
        return tybits(self.back)

    def spec(self):
        return {'item': self.item, 'by': BY, 'back': self.back.spec(), 'args': [a.spec() for a in self.args], 'fields': [f.spec() for f in self.fields]}


class V:
    def __init__(self, nm, v, text):
        self.nm, self.has, self.neg, self.mag, self.src = nm, True, False, v, text
        self.base = self.dflt = False
        self.shape = 'unit'

    def spec(self):
        return {'nm': self.nm, 'has': self.has, 'neg': self.neg, 'mag': positions(self.mag), 'base': self.base, 'dflt': self.dflt, 'shape': self.shape}


class E:
    """A flag enum declaration."""
    wrap = None

    def __init__(self, back):
        self.item, self.back, self.args, self.vars, self.consts = 'enum', back, [], [], []
        self.what = 'as generated'

    def text(self):
        given = ([self.back.text] if self.back.t != 'none' else []) + [a.rust() for a in self.args]
        s = '#[bitflag(%s)]\n' % ', '.join(given)
        if any(v.dflt for v in self.vars):
            s += '#[derive(Default)]\n'
        if self.item in ('enum', 'generic'):
            s += 'pub enum E%s {\n' % (self.generic if self.item == 'generic' else '')
            for v in self.vars:
                s += '    %s%s%s%s%s,\n' % ('#[base] ' * v.base, '#[default] ' * v.dflt, v.nm, '(u8)' if v.shape == 'data' else '', ' = ' + v.src if v.has else '')
            return s + '}\n'
        return s + ('pub struct E { a: u8 }\n' if self.item == 'struct' else 'pub fn e() {}\n')

    def spec(self):
        return {'item': self.item, 'by': BY, 'back': self.back.spec(), 'args': [a.spec() for a in self.args], 'vars': [v.spec() for v in self.vars]}


# --------------------------------------------------------------- generation
def parse_literal(s):
    """(negative, magnitude) or None"""
    m = re.fullmatch(r'(-?)\s*(0x[0-9a-fA-F_]+?|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)([ui](8|16|32|64|128))?', s)
    if not m:
        return None
    return m.group(1) == '-', int(m.group(2).replace('_', ''), 0) if m.group(2)[:2] in ('0x', '0b', '0o') else int(m.group(2).replace('_', ''))


def of_decl(d):
    """The syntax of a declaration of decls.gen."""
    out = D(uint(d.size) if d.kind == 'int' else arr(d.nb))
    out.consts = list(d.consts)
    for k, v in (('order', d.order), ('from_endian', d.fe), ('into_endian', d.ie), ('write_endian', d.we)):
        if v not in ('lsb', 'big') or k in d.explicit:
            out.args.append(Arg(k, v))
    if d.heap:
        out.args.append(Arg('array_heap', 'true'))
    if not d.copy:
        out.args.append(Arg('copy', 'false'))
    for k, f in enumerate(d.fields):
        ty = {'u': lambda: uint(f.w), 'i': lambda: sint(f.w), 'b': lambda: BOOL, 'a': lambda: arr(f.w // 8),
              'c': lambda: Ty(f.rty, 'custom', f.cust.cw)}[f.ty]()
        g = F(f.nm, ty, None if f.omit or not f.att else f.n)
        if f.att:
            g.attr = 'list'
        if f.hd:
            lit = parse_literal(f.dsrc)
            if f.dsrc in ('true', 'false'):
                g.default(f.dsrc, 'bool')
            elif lit:
                g.default(f.dsrc, 'int', *lit)
            elif f.dsrc.startswith('['):
                g.default(f.dsrc, 'arr')
            else:
                g.default(f.dsrc, 'path')
        if f.setacc:
            g.args.append(Arg('access', f.acc))
        out.fields.append(g)
        for i, t in enumerate(d.ig):
            if d.igpos[i] == k:
                h = F('ig%d' % i, Ty(t, 'custom'))
                h.attr = 'list'
                h.args.append(Arg('ignore', 'true'))
                out.fields.append(h)
    return out


def some_args(rng, d):
    for a in rng.sample(['new', 'from_into_bits', 'from_traits', 'default', 'debug', 'bit_ops', 'write_bit_ops', 'clear_bit_ops',
                         'set_get_bit_ops', 'invert_bit_ops', 'toggle_bit_ops', 'builder'], rng.choice([0, 0, 1, 2, 5])):
        d.args.append(Arg(a, rng.choice(['true', 'false'])))
    rng.shuffle(d.args)


def exact(rng, size):
    """A simple declaration of the given backing size without attributes where
    the widths of the types do."""
    d = D(uint(size) if size in UNS and rng.random() < 0.6 else arr(size // 8))
    left, k = size, 0
    while left:
        ws = [w for w in WID if w <= left]
        w = rng.choice(ws)
        ty = rng.choice([uint(w), sint(w), arr(w // 8)])
        d.fields.append(F('f%d' % k, ty))
        left -= w
        k += 1
    return d


def with_literal(rng):
    """A declaration that is about one literal default."""
    size = rng.choice(WID)
    d = D(uint(size) if rng.random() < 0.7 else arr(size // 8))
    n = rng.choice([1, size, rng.randint(1, size), rng.randint(1, size)])
    w = rng.choice([w for w in WID if w >= n])
    signed = rng.random() < 0.5
    f = F('lit', sint(w) if signed else uint(w), n)
    if n == w and rng.random() < 0.5:
        f.bk, f.attr = 'no', 'list'
    if rng.random() < 0.4:
        f.args.append(Arg('access', rng.choice(['rw', 'ro', 'wo', 'na'])))
    elif rng.random() < 0.2:
        f.nm = '_res'
    d.fields = [f]
    left, k = size - n, 0
    while left:
        m = rng.randint(1, min(left, 128))
        d.fields.append(F('r%d' % k, uint([w for w in WID if w >= m][0]), m))
        left -= m
        k += 1
    rng.shuffle(d.fields)
    edge_default(rng, f)
    d.what = 'default %s in %d bits of %s' % ([a.v for a in f.args if a.k == 'default'], n, f.ty.text)
    return d


def limits(rng):
    """For every width the four declarations around the limits of literal defaults."""
    out = []
    for n in range(1, 129):
        for neg, v in ((False, (1 << n) - 1), (False, 1 << n), (True, 1 << (n - 1)), (True, (1 << (n - 1)) + 1)):
            if v >> 128 or (neg and v > 1 << 127):
                continue
            w = rng.choice([w for w in WID if w >= n])
            size = rng.choice([w] + [x for x in WID if x >= n])
            d = D(uint(size) if rng.random() < 0.7 else arr(size // 8))
            # the whole range of unsigned values is allowed in signed fields
            f = F('lit', sint(w) if neg or rng.random() < 0.3 and v < 1 << (w - 1) else uint(w), n)
            d.fields = [f] + ([F('_r', arr(-(-(size - n) // 8)), size - n)] if size > n else [])
            f.default('-' * neg + literal(rng, v), 'int', neg, v)
            d.what = 'default %s%d in %d bits of %s' % ('-' * neg, v, n, f.ty.text)
            out.append(d)
    return out


def edge_default(rng, f):
    n = f.width() if f.width() > 0 else 1
    if f.ty.t == 'i' and rng.random() < 0.6:
        v = rng.choice([1 << (n - 1), (1 << (n - 1)) + 1, (1 << (n - 1)) + 1, 1, rng.randint(1, 1 << n), (1 << n) - 1, (1 << (n - 1)) + rng.getrandbits(7), 1 << n,
                        (1 << min(n + 32, 127)), 1 << min(n, 127), 1 << 127])
        v = min(v, 1 << 127) or 1
        f.default('-' + literal(rng, v), 'int', True, v)
    else:
        v = rng.choice([(1 << n) - 1, 1 << n, 1 << n, (1 << n) + 1, (1 << (n - 1)) - 1, rng.getrandbits(n), (1 << n) + rng.getrandbits(7), 1 << min(127, n + rng.randrange(40)),
                        1 << min(127, n + 32)])
        v = min(v, (1 << 128) - 1)
        if n == 128 and v >> 128:
            v = (1 << 128) - 1
        if f.ty.t == 'u' and rng.random() < 0.15:
            f.default('-' + literal(rng, v), 'int', True, v)
        else:
            t = literal(rng, v)
            f.default(t + (f.ty.text if rng.random() < 0.15 and 'x' not in t and v >> f.ty.w == 0 else ''), 'int', False, v)


def mutations(rng, d):
    """One change; most make the declaration wrong."""
    m = copy.deepcopy(d)
    fs = m.fields
    real = [f for f in fs if not f.ignored()]
    f = rng.choice(real)
    i = fs.index(f)
    c = rng.randrange(32)
    m.what = 'mutation %d of field %s' % (c, f.nm)
    if c in (0, 1, 2):                                       # widths that do not add up
        if f.bk == 'no':
            f.bk, f.n, f.attr = 'ok', f.width(), 'list'
        f.n = max(0, f.n + rng.choice([-1, 1, 1, -1, 8, -f.n, 32, 64, 256, f.n]))
        f.btext = str(f.n)
    elif c == 3 and len(fs) > 1:
        fs.remove(f)
    elif c == 4:
        g = F(rng.choice(['extra', '_extra']), uint(8), rng.choice([1, 8]))
        if rng.random() < 0.3:
            g = F('extra', BOOL)
        fs.insert(rng.randint(0, len(fs)), g)
    elif c == 5 and len(real) > 1:
        g = rng.choice([x for x in fs if x is not f])
        if not g.ignored() or not f.res:
            f.nm = g.nm
    elif c == 6:                                             # compensated: still adds up
        if f.bk == 'ok' and f.n > 1:
            k = rng.randint(1, f.n - 1)
            f.n -= k
            f.btext = str(f.n)
            fs.insert(i + 1, F('comp', uint([w for w in WID + [1 << 20] if w >= min(k, 128)][0]) if k <= 128 else arr((k + 7) // 8), k))
            if f.dk != 'none' and f.dk != 'path':
                f.args = [a for a in f.args if a.k != 'default']
                f.dk = 'none'
    elif c in (7, 8):                                        # a type too small for the bits, total kept
        n = f.width()
        small = [w for w in WID if w < n]
        f.bk, f.n, f.attr, f.btext = 'ok', n, 'list', str(n)
        f.args = [a for a in f.args if a.k != 'default']
        f.dk = 'none'
        if n > 8:
            f.ty = rng.choice([uint(small[-1]), sint(small[-1]), arr((n - 1) // 8)])
        elif n > 1:
            f.ty = BOOL
    elif c in (9, 10, 11):
        if f.ty.t in 'ui':
            edge_default(rng, f)
        elif f.ty.t == 'bool':
            f.default(*rng.choice([('0', 'int', False, 0), ('1', 'int', False, 1), ('2', 'int', False, 2), ('true', 'bool'), ('1.0', 'float')]))
            if f.has('access') or f.res or '0' in f.args[-1].v:
                f.default('true', 'bool')
    elif c == 12 and f.ty.t in 'ui':
        f.default(*rng.choice([('1.0', 'float'), ('0.5f32', 'float'), ('1f64', 'float'), ('2f32', 'float'), ('1e3', 'float'), ('-1.0', 'float'),
                               ('1u7', 'bad'), ('0x', 'bad'), ('"1"', 'bad'), ('b"1"', 'bad'), ('340282366920938463463374607431768211456', 'bad')]))
    elif c == 13 and rng.random() < 0.5:                     # a second attribute
        f.first = '#[bits(%s)] ' % rng.choice(['default = 0', 'default = 1', 'access = rw', 'access = ro', 'ignore = false', str(max(1, f.width())), '1'])
        f.before = rng.random() < 0.5
        if f.attr == 'none':
            f.args.append(Arg('access', 'rw')) if not f.res else f.default('0', 'int')
        f.attr = 'twice'
    elif c == 13:
        f.attr = rng.choice(['bare', 'eq'])
    elif c == 14:
        f.attr, f.bk, f.btext = 'list', 'bad', rng.choice(['-%d' % max(1, f.n), '%du8' % max(1, f.width()), '%du32' % max(1, f.width()), '4294967296', '18446744073709551617'])
    elif c == 15:
        f.attr = 'list'
        f.args = [a for a in f.args if a.k != 'access'] + [Arg('access', rng.choice(['xx', 'r', 'w', 'write', 'none', 'read_only', 'true', '1']))]
    elif c == 16:
        f.attr = 'list'
        f.args.append(rng.choice([Arg('acess', 'rw'), Arg('defaults', '0'), Arg('bits', '3'), Arg('value', '1'), Arg('order', 'lsb'), Arg('ignored', 'true')]))
    elif c == 17:
        f.attr = 'list'
        f.args = [a for a in f.args if a.k != 'access'] + [Arg('access', 'rw', rng.choice(['noeq', 'noval', 'colon', 'call']))]
    elif c == 18:
        f.attr = 'list'
        f.args.append(Arg('ignore', rng.choice(['yes', '1', '0', 'no', '"true"', 'true', 'false'])))
    elif c == 19:
        rs = [x for x in real if x.res]
        if not rs:
            f.nm = '_' + f.nm.replace('r#', '')
            rs = [f]
        r = rng.choice(rs)
        r.attr = 'list'
        if not r.has('access'):
            r.args.append(Arg('access', rng.choice(['rw', 'ro', 'wo', 'na'])))
    elif c in (20, 21):                                      # backings
        n = m.size()
        m.back = rng.choice([sint(n) if n in SIG else bad_array(rng, n // 8), Ty('f32', 'float', 32), Ty('f64', 'float', 64), Ty('usize', 'size', 64), Ty('isize', 'size', 64), BOOL,
                             Ty('String', 'custom'), Ty('I8', 'custom'), Ty('char', 'custom'), odd(rng), bad_array(rng, n // 8), bad_array(rng, n // 8),
                             NOTHING, arr(n // 8 + 1), arr(max(1, n // 8 - 1)), rng.choice([uint(w) for w in WID])])
    elif c in (22, 23):                                      # field types
        n = f.width()
        f.bk, f.n, f.attr, f.btext = 'ok', n, 'list', str(n)
        f.args = [a for a in f.args if a.k != 'default']
        f.dk = 'none'
        f.ty = rng.choice([Ty('f32', 'float', 32), Ty('f64', 'float', 64), Ty('usize', 'size', 64), Ty('isize', 'size', 64), odd(rng), bad_array(rng, max(1, n // 8)),
                           bad_array(rng, max(1, (n + 7) // 8))])
    elif c == 24:
        k = rng.choice(['order'] + ['from_endian', 'into_endian', 'write_endian'] * 2 + ['new', 'copy', 'debug', 'default', 'builder', 'bit_ops', 'array_heap', 'invert_bit_ops',
                                                                                      'from_traits', 'from_into_bits', 'toggle_bit_ops', 'write_bit_ops'])
        m.args = [a for a in m.args if a.k != k]
        m.args.insert(rng.randint(0, len(m.args)), Arg(k, rng.choice(['yes', '1', 'big', 'lsb', 'true', 'middle', '"true"', 'msb'])))
    elif c == 25:
        m.args.insert(rng.randint(0, len(m.args)), rng.choice([Arg('endian', 'big'), Arg('bits', '3'), Arg('generate_new', 'true'), Arg('clone', 'true'), Arg('panic', 'true'),
                                                               Arg('orders', 'lsb'), Arg('heap', 'true')]))
    elif c == 26:
        m.args = [a for a in m.args if a.k != 'debug']
        m.args.insert(rng.randint(0, len(m.args)), Arg('debug', 'true', rng.choice(['noeq', 'colon', 'call', 'lit'])))
        if rng.random() < 0.3:
            m.args.append(Arg('new', 'true', 'noval'))
    elif c == 27:
        m.item = rng.choice(['tuple', 'unit', 'enum', 'fn', 'generic', 'generic'])
        m.generic = rng.choice(['T', 'const N: usize', "'a", 'T, const N: usize', 'T = u8', "'a, T: 'a"])
        if rng.random() < 0.5 and m.item == 'tuple':
            m.fields = [F('a', uint(w)) for w in [m.size()] if w in UNS] or fs
    elif c == 28 and rng.random() < 0.4:                     # totals near 2^32 and 2^64
        cs = [x for x in real if x.ty.t == 'custom']
        if not cs:
            cs = [F('wrap', Ty('I8', 'custom', 8), 1)]
            fs.insert(rng.randint(0, len(fs)), cs[0])
            cs[0].n = 0
        x = rng.choice(cs)
        x.n += (1 << 32) - 1
        if x.n >> 32:
            y = F('wrap2', Ty('I8', 'custom', 8), x.n - (1 << 32) + 2)
            x.n = (1 << 32) - 1
            x.btext = str(x.n)
            fs.insert(rng.randint(0, len(fs)), y)
        else:
            x.btext = str(x.n)
            fs.insert(rng.randint(0, len(fs)), F('wrap2', uint(8), 1))
    elif c == 28:
        cs = [x for x in real if x.ty.t == 'custom']
        if cs:
            x = rng.choice(cs)
            x.bk = 'no'
        else:
            f.ty = Ty('I8', 'custom', 8)
            f.bk = 'no'
            f.attr = 'list'
            f.args = [a for a in f.args if a.k != 'default']
            f.dk = 'none'
    elif c == 29:                                            # more bits than any type has
        xs = [x for x in real if x.ty.t in 'ui'] or [f]
        x = rng.choice(xs)
        x.bk, x.attr = 'ok', 'list'
        x.n = rng.choice([129, 130, 160, 192, 200, 255, 256, 257, 1 << 16, 1 << 31, (1 << 32) - 1])
        x.btext = str(x.n)
        if x.ty.t in 'ui' and rng.random() < 0.7 and not x.has('access'):
            v = rng.choice([0, 1, rng.getrandbits(7), (1 << x.ty.w - 1) - 1])
            neg = x.ty.t == 'i' and v > 0 and rng.random() < 0.5
            x.default('-' * neg + literal(rng, v), 'int', neg, v)
    elif c == 30:                                            # an ignored field of the same name
        h = F(f.nm, Ty(rng.choice(['u8', 'String', 'Option<u8>', 'bool']), 'custom'))
        h.attr = 'list'
        h.args.append(Arg('ignore', 'true'))
        if f.res:
            f.nm = h.nm = 'twice'
            f.args = [a for a in f.args if a.k != 'default']
            f.dk = 'none'
        fs.insert(rng.choice([0, i, i + 1, len(fs)]), h)
    elif c == 31 and f.width() > 1 and f.ty.t in 'uic' and not f.has('default'):
        # the field split in two reserved fields, or two fields, of one name
        n = f.width()
        k = rng.randint(1, n - 1)
        nm = rng.choice(['__', '_1', '_r', 'dup'])
        f.nm, f.bk, f.n, f.attr, f.btext = nm, 'ok', k, 'list', str(k)
        f.args = []
        g = copy.deepcopy(f)
        g.n, g.btext = n - k, str(n - k)
        if nm == 'dup' and rng.random() < 0.5:
            rng.choice([f, g]).args.append(Arg('access', rng.choice(['ro', 'wo', 'na'])))
        fs.insert(rng.choice([i + 1, i + 1, len(fs)]), g)
    else:
        m.args.append(Arg('order', rng.choice(['lsb', 'msb']))) if not any(a.k == 'order' for a in m.args) else None
    return m


def flag_decl(rng):
    f = flags.Flag(rng, rng.choice(WID), rng.choice([1, 2, 3, 4]), conditional=0)
    e = E(uint(f.w))
    if f.fe != 'big' or f.explicit:
        e.args.append(Arg('from_endian', f.fe))
    if f.ie != 'big' or f.explicit:
        e.args.append(Arg('into_endian', f.ie))
    if not f.copy or f.explicit:
        e.args.append(Arg('copy', str(f.copy).lower()))
    for k, v in enumerate(f.vals):
        x = V(flags.NAMES[k], v, literal(rng, v))
        x.base, x.dflt = k + 1 == f.base, k + 1 == f.dflt
        e.vars.append(x)
    return e


def mutate_flag(rng, e):
    m = copy.deepcopy(e)
    v = rng.choice(m.vars)
    c = rng.randrange(14)
    m.what = 'mutation %d of variant %s' % (c, v.nm)
    w = m.back.w
    if c == 0:
        for x in m.vars:
            x.base = x.dflt = False
    elif c == 1:
        for x in m.vars:
            x.base = x.dflt = False
        v.dflt = True
    elif c == 2:
        x = rng.choice(m.vars)
        x.base = v.base = True
    elif c == 3:
        rng.choice(m.vars).dflt = v.dflt = True
    elif c == 4:
        v.has = False
        v.shape = 'unit'
    elif c == 5:
        v.mag = rng.choice([1 << w, (1 << w) + 1, (1 << w) - 1]) if w < 128 else (1 << 128) - 1
        v.src = literal(rng, v.mag)
    elif c == 6:
        v.neg, v.mag = True, 1
        v.src = '-1'
    elif c == 7 and len(m.vars) > 1:
        x = rng.choice([y for y in m.vars if y is not v])
        v.mag, v.src = x.mag, x.src
    elif c == 8 and len(m.vars) > 1:
        v.nm = rng.choice([y for y in m.vars if y is not v]).nm
    elif c == 9:
        m.back = rng.choice([sint(w), Ty('f32', 'float', 32), Ty('usize', 'size', 64), Ty('isize', 'size', 64), BOOL, Ty('String', 'custom'), odd(rng), arr(w // 8),
                             NOTHING, bad_array(rng, 2), Ty('I8', 'custom')])
    elif c == 10:
        m.args.append(rng.choice([Arg('endian', 'big'), Arg('debug', 'true'), Arg('order', 'lsb'), Arg('write_endian', 'big'), Arg('default', 'true')]))
    elif c == 11:
        k = rng.choice(['from_endian', 'into_endian', 'copy'])
        m.args = [a for a in m.args if a.k != k] + [Arg(k, rng.choice(['yes', 'big', 'true', 'lsb', '1', 'little']), rng.choice(['kv', 'kv', 'kv', 'noeq', 'noval', 'colon']))]
    elif c == 12:
        m.item = rng.choice(['struct', 'fn', 'generic', 'generic'])
        m.generic = rng.choice(['<T>', '<const N: usize>', "<'a>"])
    else:
        v.shape, v.has = 'data', rng.random() < 0.5
    return m


def pool(rng, count):
    out = []
    backs = decls.INTS + decls.ARRS + decls.HEAPS[:4]
    while len(out) < count:
        c = rng.random()
        if c < 0.22:
            out.append(with_literal(rng))
            continue
        if c < 0.36:
            e = flag_decl(rng)
            out.append(mutate_flag(rng, e) if rng.random() < 0.8 else e)
            continue
        if c < 0.46:
            d = exact(rng, rng.choice(WID + [24, 40, 72]))
        else:
            kind, nb, heap = rng.choice(backs)
            d = of_decl(decls.gen(rng, kind, nb, heap, order=rng.choice(['lsb', 'msb']), ig=rng.choice([0, 0, 0, 1]), p_res=0.2,
                                  style=rng.choice(['mix', 'bits', 'bytes', 'one']) if nb <= 8 else None))
        some_args(rng, d)
        out.append(mutations(rng, d) if rng.random() < 0.8 else d)
    for d in out:
        if rng.random() < 0.15:
            d.wrap = rng.getrandbits(30)
    return out


def source(d):
    return d.text() if d.wrap is None else decls.fragments(d.wrap, d.text())


# ------------------------------------------------------------------ verdicts
HEAD = ('#![allow(dead_code, unused, non_camel_case_types, private_interfaces)]\n'
        'use bitfields::{bitfield, bitflag}; use crate::support::*; use crate::types::*;\n')


def verdicts(run, texts, tag='p20', nb=8, head=HEAD, types=decls.PRELUDE, main='#![recursion_limit = "512"]\nmod support; mod types;\n', tail='', edition=2021, target=None, checks=False):
    """Which of the module texts compile: {index: error or None}."""
    root = run.work + '/' + tag
    # the macro without overflow checks (as in release builds) or with them, where it may panic instead
    override = '' if checks else '[profile.dev.build-override]\noverflow-checks = false\ndebug-assertions = false\n'
    rust.start_crate(root, 'verdicts', edition=edition, tail=tail + override + ''.join('[[bin]]\nname = "b%d"\npath = "src/b%d.rs"\n' % (b, b) for b in range(nb)))
    rust.write(root + '/src/support.rs', rust.SUPPORT)
    rust.write(root + '/src/types.rs', types)
    for k, t in enumerate(texts):
        rust.write(root + '/src/m%d.rs' % k, head + t)
    failed = {}
    for rnd in range(14):
        for b in range(nb):
            rust.write(root + '/src/b%d.rs' % b, main + ''.join(
                'mod m%d;\n' % k for k in range(len(texts)) if k % nb == b and k not in failed) + ('' if 'no_main' in main else 'fn main() {}'))
        rc, msgs, err = rust.cargo(root, ['check', '--bins', '--keep-going'], target=target)
        if rc == 0:
            shutil.rmtree(root, ignore_errors=True)
            run.add('compiler_passes', rnd + 1)
            return failed
        new = 0
        for pkg, file, line, code, text in rust.errors(msgs):
            m = re.fullmatch(r'src/m(\d+)\.rs', file or '')
            if m:
                if int(m.group(1)) not in failed:
                    failed[int(m.group(1))] = text
                    new += 1
            elif file == 'src/types.rs':
                run.violation('the field types do not compile: ' + text.strip().splitlines()[0], compiler=text)
                return None
        if not new:
            raise ToolError('cargo check fails without naming a declaration:\n' + '\n'.join(x[4] for x in rust.errors(msgs))[:3000] + err[-2000:])
    raise ToolError('the verdicts do not settle')


def round_(run, rng, count):
    ds = limits(rng) + pool(rng, count)
    failed = verdicts(run, [source(d) for d in ds])
    if failed is None:
        return
    verdict = lambda k: 'accepted' if k not in failed else 'rejected' if not re.search('panicked|major unexpected error', failed[k]) else 'panicked'
    traces = [{'d': k, 'ev': [{'verdict': verdict(k), 'v': []}]} for k in range(len(ds))]
    s, g, rej, judged = tlc.check_traces([d.spec() for d in ds], traces, run.work + '/tlc', spec='AcceptTrace', judged=True)
    run.states += s
    run.transitions += g
    run.validated += len(traces) - len(rej)
    run.add('declarations', len(ds))
    run.add('rejected_by_the_compiler', len(failed))
    why = run.cov.setdefault('judged_by_the_specification', {})
    for j, n in judged.items():
        why[j] = why.get(j, 0) + n
    if not run.samples:
        for k in list(failed)[:2]:
            run.samples.append({'declaration': source(ds[k]), 'compiler': failed[k].strip().splitlines()[0]})
    for r in rej:
        k = traces[r['trace']]['d']
        d = ds[k]
        run.violation('%s (%s): %s, the specification says %s' % (
            ' '.join(d.text().split())[:400], d.what,
            {'accepted': 'the compiler accepts it', 'rejected': 'the compiler rejects it', 'panicked': 'the macro panics'}[verdict(k)],
            'it is valid' if r['why'] == 'none' else 'it is wrong: ' + r['why']),
            declaration=source(d), spec=d.spec(), compiler=failed.get(k, ''))


# ---------------------------------------------------- what errors point at (P27)
def part(d, error):
    """The part of the declaration an error points at: 0 for its head, or the
    number of the field or variant."""
    m = re.search(r'--> src/m\d+\.rs:(\d+)', error)
    n = int(m.group(1)) - HEAD.count('\n') if m else 0
    lines = d.text().splitlines()
    if 1 <= n <= len(lines) and lines[n - 1].startswith('    '):
        return sum(x.startswith('    ') for x in lines[:n])
    return 0


def wrong(rng, d, times):
    """Changes of different parts, each of which may make the declaration wrong."""
    whats, names = [], []
    for _ in range(times):
        if isinstance(d, D) and (d.item != 'struct' or all(f.ignored() for f in d.fields)):
            break
        try:
            m = mutate_flag(rng, d) if isinstance(d, E) else mutations(rng, d)
        except KeyError:        # a field that an earlier change left without a proper type
            continue
        name = m.what.split()[-1]
        if name not in names:
            d = m
            names.append(name)
            whats.append(m.what)
    d.what = ', '.join(whats)
    return d


def blame_round(run, rng, count):
    ds = []
    while len(ds) < count:
        c = rng.random()
        if c < 0.15:
            ds.append(with_literal(rng))
        elif c < 0.35:
            ds.append(wrong(rng, flag_decl(rng), rng.choice([1, 1, 2, 3])))
        else:
            kind, nb, heap = rng.choice(decls.INTS + decls.ARRS + decls.HEAPS[:4])
            d = exact(rng, rng.choice(WID + [24, 40, 72])) if c < 0.45 else of_decl(
                decls.gen(rng, kind, nb, heap, order=rng.choice(['lsb', 'msb']), ig=rng.choice([0, 0, 0, 1]), p_res=0.2,
                          style=rng.choice(['mix', 'bits', 'bytes', 'one']) if nb <= 8 else None))
            some_args(rng, d)
            ds.append(wrong(rng, d, rng.choice([1, 1, 1, 2, 3])))
    failed = verdicts(run, [d.text() for d in ds], tag='p27', checks=True)
    if failed is None:
        return
    bad = sorted(failed)
    panicked = lambda k: re.search('panicked|major unexpected error', failed[k])
    traces = [{'d': k, 'ev': [{'verdict': 'panicked' if panicked(k) else 'rejected', 'v': [], 'at': part(ds[k], failed[k])}]} for k in bad]
    s, g, rej, judged = tlc.check_traces([d.spec() for d in ds], traces, run.work + '/tlc', spec='AcceptTrace', judged=True)
    run.states += s
    run.transitions += g
    run.validated += len(traces) - len(rej)
    run.add('rejected_declarations', len(bad))
    why = run.cov.setdefault('first_fault_by_the_specification', {})
    for j, n in judged.items():
        why[j] = why.get(j, 0) + n
    if not run.samples:
        for k in bad[:2]:
            run.samples.append({'declaration': ds[k].text(), 'compiler': failed[k].strip().splitlines()[0], 'part': part(ds[k], failed[k])})
    for r in rej:
        k = traces[r['trace']]['d']
        d, e = ds[k], traces[r['trace']]['ev'][0]
        run.violation('%s (%s): %s, the first fault is %s: %s' % (
            ' '.join(d.text().split())[:400], d.what,
            'the macro panics' if e['verdict'] == 'panicked' else 'the error points at part %d, which is not wrong' % e['at'],
            r['why'], failed[k].strip().splitlines()[0]), declaration=d.text(), spec=d.spec(), compiler=failed[k])


def blame(run):
    from .runner import Background, model
    mc = Background(model, run, 'P27', spec='AcceptMC', workers=3, consts={'MaxFields': '3'} if run.thorough else {}, timeout=850)
    rng = random.Random('P27-%d' % run.seed)
    k = 0
    while k == 0 or (run.thorough and run.left(600) > 0 and not run.violations):
        blame_round(run, rng, 700 if k == 0 else 1200)
        run.say('%d errors judged' % run.validated)
        k += 1
    mc.get()


# ------------------------------------------------------------------ the check
KNOWN = [('K2 a negative literal default below -2^127 on an i128 field is accepted',
          '#[bitfield(u128)]\npub struct S { #[bits(default = -170141183460469231731687303715884105729)] a: i128 }\n', 'accepted'),
         ('K3 an array-valued default of an array field in an integer-backed bitfield is rejected',
          '#[bitfield(u16)]\npub struct S { #[bits(default = [1, 2])] a: [u8; 2] }\n', 'rejected'),
         ('K4 a default that calls a const fn with the name of a local variable of the generated code (bits, mask, this, value; i on arrays) is rejected',
          'const fn mask() -> u8 { 1 }\n#[bitfield(u8)]\npub struct S { #[bits(default = mask())] a: u8 }\n', 'rejected'),
         ('K5 a field that is configured out with cfg still counts',
          '#[bitfield(u8)]\npub struct S { #[cfg(any())] x: u8, a: u8 }\n', 'rejected')]


def known(run):
    failed = verdicts(run, [t for _, t, _ in KNOWN], tag='known', nb=1)
    for k, (what, text, bad) in enumerate(KNOWN):
        if failed is not None and ('rejected' if k in failed else 'accepted') == bad:
            run.known.append(what)


def check(run):
    from .runner import Background, model
    mc = Background(model, run, 'P20', spec='AcceptMC', workers=3, consts={'MaxFields': '3', 'Deep': 'TRUE'} if run.thorough else {}, timeout=850)
    kn = Background(known, run)
    rng = random.Random('P20-%d' % run.seed)
    k = 0
    while k == 0 or (run.thorough and run.left(600) > 0 and not run.violations):
        round_(run, rng, 860 if k == 0 else 1200)
        run.say('%d declarations judged' % run.validated)
        k += 1
    kn.get()
    mc.get()
