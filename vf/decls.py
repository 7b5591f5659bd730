"""Bitfield declarations: random and hand-picked, as Rust text and as records
of the specification (spec/Layout.tla)."""
import random
import re

BY = 8
UNS = {8: 'u8', 16: 'u16', 32: 'u32', 64: 'u64', 128: 'u128'}
SIG = {8: 'i8', 16: 'i16', 32: 'i32', 64: 'i64', 128: 'i128'}
WID = [8, 16, 32, 64, 128]


def positions(x):
    s = bin(x)[:1:-1]
    out = []
    i = s.find('1')
    while i >= 0:
        out.append(i)
        i = s.find('1', i + 1)
    return out


def swap(x, nbytes):
    return int.from_bytes(x.to_bytes(nbytes, 'little'), 'big')


class Custom:
    """A custom field type of the prelude (see PRELUDE)."""

    def __init__(self, name, ck, cw, vals=None, names=None, fb=0, fe='big', ie='big', cm=0):
        self.name, self.ck, self.cw, self.cm = name, ck, cw, cm
        self.vals, self.names, self.fb = vals or [], names or [], fb
        self.fe, self.ie = fe, ie

    def usable(self, n):
        """All values of an enum must fit in a field of n bits (what a value
        that does not fit becomes is not specified)."""
        if self.ck == 'sat':
            return n <= self.cm
        if self.ck != 'tab':
            return True
        return all((swap(v, self.cw // 8) if self.ie == 'little' else v) >> n == 0 for v in self.vals)


CUSTOMS = (
    [Custom('I%d' % w, 'id', w) for w in WID]
    + [Custom('N%d' % w, 'inv', w) for w in WID]
    + [
        Custom('G8', 'tab', 8, [0, 1, 2, 5], ['A', 'B', 'C', 'D'], 0),
        Custom('H8', 'tab', 8, [3, 0, 7, 0x1F], ['A', 'B', 'C', 'D'], 3),
        Custom('G16', 'tab', 16, [1, 0x0102, 0x0300, 0xFFFF], ['A', 'B', 'C', 'D'], 1, 'little', 'little'),
        Custom('H16', 'tab', 16, [0, 9, 1], ['A', 'B', 'C'], 0),
        Custom('K8', 'tab', 8, [1, 0], ['A', 'B'], 1),
        Custom('E32', 'tab', 32, [2, 1, 3], ['A', 'B', 'C'], 2),
        Custom('G32', 'tab', 32, [4, 0, 0x80000000], ['A', 'B', 'C'], 4),
        Custom('G64', 'tab', 64, [1, 2, 1 << 63], ['A', 'B', 'C'], 1),
        Custom('Sat8', 'sat', 8, fb=0x5b, cm=5), Custom('Sat16', 'sat', 16, fb=1, cm=11), Custom('Sat32', 'sat', 32, fb=0xffffffff, cm=17),
        Custom('Sat64', 'sat', 64, fb=0x8000000000000007, cm=40), Custom('Sat128', 'sat', 128, fb=5, cm=90),
        Custom('Gen<u8>', 'id', 8), Custom('Gen<u32>', 'id', 32), Custom('Gen<u128>', 'id', 128), Custom('crate::types::N16', 'inv', 16),
        Custom('W8', 'id', 8), Custom('W16', 'id', 16), Custom('W32', 'id', 32),
        Custom('W64', 'id', 64), Custom('W128', 'id', 128),
        Custom('V16', 'id', 16, fe='little', ie='little'),
        Custom('V32', 'id', 32, fe='little', ie='little'),
    ])
CUSTOM = {c.name: c for c in CUSTOMS}

# The module that defines the custom types; it uses the macros under test for
# the nested bitfields and the flag enums.
VALUE = 0xc35a0f960ff0a5693c7e81d24bb4e11e
VALUES = ''.join('pub const V_%s: %s = 0x%x_u128 as %s;\n' % (t.upper(), t, VALUE, t) for t in list(UNS.values()) + list(SIG.values()))
PRELUDE = '''#![allow(dead_code, unused, overflowing_literals)]
''' + VALUES + '''
use bitfields::{bitfield, bitflag};
use crate::support::V;
macro_rules! custom { ($i:ident, $n:ident, $u:ty) => {
    #[derive(Clone, Copy, Debug, PartialEq)] pub struct $i(pub $u);
    impl $i { pub const fn from_bits(b: $u) -> Self { $i(b) } pub const fn into_bits(self) -> $u { self.0 } }
    impl V for $i { fn d(b: &[u8]) -> Self { $i(<$u as V>::d(b)) } fn e(&self) -> Vec<u8> { self.0.e() } }
    #[derive(Clone, Copy, Debug, PartialEq)] pub struct $n(pub $u);
    impl $n { pub const fn from_bits(b: $u) -> Self { $n(!b) } pub const fn into_bits(self) -> $u { !self.0 } }
    impl V for $n { fn d(b: &[u8]) -> Self { $n(<$u as V>::d(b)) } fn e(&self) -> Vec<u8> { self.0.e() } }
} }
custom!(I8, N8, u8); custom!(I16, N16, u16); custom!(I32, N32, u32); custom!(I64, N64, u64); custom!(I128, N128, u128);
// lossy: bits that do not fit in $m bits become $f
macro_rules! lossy { ($s:ident, $u:ty, $m:expr, $f:expr) => {
    #[derive(Clone, Copy, Debug, PartialEq)] pub struct $s(pub $u);
    impl $s { pub const fn from_bits(b: $u) -> Self { if b >> $m == 0 { $s(b) } else { $s($f) } } pub const fn into_bits(self) -> $u { self.0 } }
    impl V for $s { fn d(b: &[u8]) -> Self { $s(<$u as V>::d(b)) } fn e(&self) -> Vec<u8> { self.0.e() } }
} }
lossy!(Sat8, u8, 5, 0x5b); lossy!(Sat16, u16, 11, 1); lossy!(Sat32, u32, 17, 0xffffffff); lossy!(Sat64, u64, 40, 0x8000000000000007); lossy!(Sat128, u128, 90, 5);
#[derive(Clone, Copy, Debug, PartialEq)] pub struct Gen<T>(pub T);
macro_rules! gen_of { ($u:ty) => {
    impl Gen<$u> { pub const fn from_bits(b: $u) -> Self { Gen(b) } pub const fn into_bits(self) -> $u { self.0 } }
    impl V for Gen<$u> { fn d(b: &[u8]) -> Self { Gen(<$u as V>::d(b)) } fn e(&self) -> Vec<u8> { self.0.e() } }
} }
gen_of!(u8); gen_of!(u32); gen_of!(u128);
macro_rules! flag { ($t:ident, $u:ty, $($v:ident),*) => {
    impl V for $t {
        fn d(b: &[u8]) -> Self { let x = <$u as V>::d(b); $(if x == $t::$v as $u { return $t::$v; })* panic!("no such flag") }
        fn e(&self) -> Vec<u8> { (*self as $u).e() }
    }
} }
#[bitflag(u8)] pub enum G8 { #[base] A = 0, B = 1, C = 2, D = 5 }
#[bitflag(u8)] pub enum H8 { #[base] A = 3, B = 0, C = 7, D = 0x1F }
#[bitflag(u16, from_endian = little, into_endian = little)] pub enum G16 { #[base] A = 1, B = 0x0102, C = 0x0300, D = 0xFFFF }
#[bitflag(u16)] pub enum H16 { #[base] A = 0, B = 9, C = 1 }
#[bitflag(u8)] pub enum K8 { #[base] A = 1, B = 0 }
#[bitflag(u32)] pub enum E32 { #[base] A = 2, B = 1, C = 3 }
#[bitflag(u32)] pub enum G32 { #[base] A = 4, B = 0, C = 0x80000000 }
#[bitflag(u64)] pub enum G64 { #[base] A = 1, B = 2, C = 0x8000000000000000 }
flag!(G8, u8, A, B, C, D); flag!(H8, u8, A, B, C, D); flag!(G16, u16, A, B, C, D); flag!(H16, u16, A, B, C);
flag!(K8, u8, A, B); flag!(E32, u32, A, B, C);
flag!(G32, u32, A, B, C); flag!(G64, u64, A, B, C);
macro_rules! nest { ($t:ident, $u:ty) => {
    impl V for $t { fn d(b: &[u8]) -> Self { unsafe { core::mem::transmute::<$u, $t>(<$u as V>::d(b)) } }
        fn e(&self) -> Vec<u8> { unsafe { core::mem::transmute_copy::<$t, $u>(self) }.e() } }
} }
#[bitfield(u8)] pub struct W8 { #[bits(3)] a: u8, #[bits(5)] b: i8 }
#[bitfield(u16)] pub struct W16 { #[bits(9)] a: u16, #[bits(7)] b: u8 }
#[bitfield(u32, order = msb)] pub struct W32 { a: u8, #[bits(23)] b: u32, c: bool }
#[bitfield(u64)] pub struct W64 { a: u32, #[bits(31)] b: i32, c: bool }
#[bitfield(u128)] pub struct W128 { a: u64, #[bits(63)] b: u64, c: bool }
#[bitfield(u16, from_endian = little, into_endian = little)] pub struct V16 { a: u8, b: u8 }
#[bitfield(u32, from_endian = little, into_endian = little)] pub struct V32 { #[bits(20)] a: u32, #[bits(12)] b: u16 }
nest!(W8, u8); nest!(W16, u16); nest!(W32, u32); nest!(W64, u64); nest!(W128, u128); nest!(V16, u16); nest!(V32, u32);
'''


FRAGMENTS = [(r'#\[bitfield\(((?:u\d+|\[[^\]]*\])(?=[,)]))', ['ty', 'ty', 'tt']), (r'#\[bitflag\((u\d+)', ['ty', 'ident', 'path']),
             (r'\[u8; (\d+)\](?=[,)])', ['literal', 'expr', 'tt']),
             (r'^    (?:#\[bits.*\] )?(?:pub[^ ]* )?[\w#]+: (.+),$', ['ty']), (r'#\[bits\((\d+)(?=[,)])', ['literal', 'expr', 'tt']),
             (r'default = (-?\d\w*)(?=[,)])', ['literal', 'expr']), (r'default = (\w+)(?=[,)])', ['expr', 'tt']), (r'default = (\w+\(\))(?=[,)])', ['expr']),
             (r'default = ([^,\[\]$]+?)(?=, access|\)\])', ['expr']),
             (r'(?:access|order|from_endian|into_endian|write_endian) = (\w+)', ['ident', 'tt']),
             (r'(?:new|debug|builder|copy|bit_ops|default|array_heap|ignore) = (true|false)(?=[,)])', ['literal', 'expr', 'tt', 'ident']),
             (r'^    (?:#\[bits.*\] )?(pub) ', ['vis']), (r'^    (?:#\[bits.*\] )?(?:pub[^ ]* )?([a-z]\w*): ', ['ident'])]


def fragments(seed, text):
    """The declaration with some of its parts passed to it by a declarative
    macro, which does not change its meaning."""
    rng = random.Random(seed)
    head, at, rest = text.partition('#[bit')
    rest = at + rest
    rest = re.sub(r'\bcrate::', lambda m: rng.choice(['$crate::', 'crate::']), rest)
    args = []
    for pat, kinds in FRAGMENTS:
        def sub(m):
            if '$p' in m.group(1) or rng.random() < 0.5:
                return m.group(0)
            k = rng.choice(kinds)
            if k == 'tt' and not re.fullmatch(r'\w+|\[[^\]]*\]', m.group(1)):
                return m.group(0)
            args.append((k, m.group(1)))
            a, b = m.start(1) - m.start(0), m.end(1) - m.start(0)
            return m.group(0)[:a] + '$p%d' % len(args) + m.group(0)[b:]
        rest = re.sub(pat, sub, rest, flags=re.M)
    return head + 'macro_rules! declare { (%s) => {\n%s} }\ndeclare! { %s }\n' % (
        ', '.join('$p%d:%s' % (k + 1, a[0]) for k, a in enumerate(args)), rest, ', '.join(a[1].replace('$crate', 'crate') for a in args))


# items a user may have next to a declaration; none of them has a meaning for it
NEIGHBOURS = ['pub mod core {}', 'pub mod std {}', 'pub mod alloc {}', 'pub struct Box;', 'pub struct Result;', 'pub struct Option;', 'pub struct Vec;',
              'pub struct String;', 'pub trait Default {}', 'pub trait Clone {}', 'pub trait Copy {}', 'pub trait From {}', 'pub trait Into {}',
              'pub trait Debug {}', 'pub const MAX: bool = true;', 'pub const BITS: bool = true;', 'pub const MASK: bool = true;', 'pub fn min() {}',
              'pub fn max() {}', 'pub fn new() {}', 'pub fn default() {}', 'pub fn from() {}', 'pub struct Builder;', 'pub struct Bitfield;',
              'pub trait Bits { fn bits(&self) -> bool { true } fn into_bits(self) -> bool where Self: Sized { true } } impl<T> Bits for T {}']


def neighbours(seed, text, names):
    """The declaration in a module of its own, among other items."""
    rng = random.Random(seed)
    return 'pub mod scope {\n#![allow(unused, dead_code, non_camel_case_types, overflowing_literals)]\nuse bitfields::{bitfield, bitflag}; use crate::types::*;\n%s\n%s}\npub use scope::{%s};\n' % (
        '\n'.join(x for x in NEIGHBOURS if rng.random() < 0.5), text, ', '.join(names))


class Field:
    def __init__(self):
        self.nm = None          # Rust name
        self.ty = 'u'
        self.rty = 'u8'         # Rust type
        self.n = self.w = 8
        self.acc = 'rw'
        self.res = False
        self.att = True
        self.omit = False       # bits attribute without the number of bits
        self.hd = False
        self.df = 0             # default as unsigned number of w bits
        self.dsrc = ''
        self.cust = None
        self.vis = ''
        self.setacc = False

    def setter(self):
        return not self.res and self.acc in ('rw', 'wo')

    def getter(self):
        return not self.res and self.acc in ('rw', 'ro')

    def builder(self):
        return self.setter() or self.getter()

    def plain(self):
        return self.nm[2:] if self.nm.startswith('r#') else self.nm

    def nbytes(self):
        if self.ty == 'c':
            return self.cust.cw // 8
        return 1 if self.ty == 'b' else self.w // 8

    def vw(self):
        """width of the values of the field's type"""
        return self.cust.cw if self.ty == 'c' else self.w

    def rust(self):
        args = []
        if not self.omit:
            args.append(str(self.n))
        if self.hd:
            args.append('default = ' + self.dsrc)
        if self.setacc:
            args.append('access = ' + self.acc)
        a = '#[bits(%s)] ' % ', '.join(args) if self.att else ''
        return '    %s%s%s: %s,\n' % (a, self.vis + ' ' if self.vis else '', self.nm, self.rty)

    def spec(self):
        c = self.cust
        return {'nm': self.plain(), 'ty': self.ty, 'n': self.n, 'w': self.vw(), 'acc': self.acc,
                'res': self.res, 'att': self.att, 'hd': self.hd, 'df': positions(self.df),
                'ck': c.ck if c else 'no', 'cw': c.cw if c else 0,
                'vals': [positions(v) for v in c.vals] if c else [],
                'fb': positions(c.fb) if c else [], 'cm': c.cm if c else 0, 'cfe': c.fe if c else 'big', 'cie': c.ie if c else 'big', 'cb': BY}


IGTYPES = ['u8', 'u32', 'String', 'Vec<u16>', 'Option<u16>', '(u8, i32)', 'D7', 'f64', 'Box<u32>', '[u16; 3]', 'bool']
IGCOPY = ['u8', 'u32', 'Option<u16>', '(u8, i32)', 'D7', 'f64', '[u16; 3]', 'bool']


class Decl:
    def __init__(self):
        self.nm = 'S'
        self.kind = 'int'
        self.nb = 1
        self.heap = False
        self.order = 'lsb'
        self.fe = self.ie = self.we = 'big'
        self.fields = []
        self.ig = []            # Rust types of ignored fields
        self.igpos = []         # position of each among the fields
        self.igvis = {}         # visibility if not pub
        self.args = []          # further arguments
        self.copy = True
        self.new = True
        self.explicit = set()   # arguments written though at their default
        self.consts = []        # const items used by defaults
        self.vis = 'pub'
        self.wrap = None        # seed of a declarative macro around the declaration
        self.near = None        # seed of other items next to the declaration

    @property
    def size(self):
        return self.nb * BY

    def backing(self):
        return UNS[self.size] if self.kind == 'int' else '[u8; %d]' % self.nb

    def offset(self, k):
        s = sum(f.n for f in self.fields[:k])
        return s if self.order == 'lsb' else self.size - s - self.fields[k].n

    def unit(self):
        return 'bits' if self.kind == 'int' else 'bytes'

    def attr(self):
        a = [self.backing()]
        if self.order != 'lsb' or 'order' in self.explicit:
            a.append('order = ' + self.order)
        for key, v in (('from_endian', self.fe), ('into_endian', self.ie), ('write_endian', self.we)):
            if v != 'big' or key in self.explicit:
                a.append('%s = %s' % (key, v))
        if self.heap:
            a.append('array_heap = true')
        if not self.copy:
            a.append('copy = false')
        if not self.new:
            a.append('new = false')
        return '#[bitfield(%s)]' % ', '.join(a + self.args)

    def rust(self):
        body = ''
        igs = list(enumerate(self.ig))
        for k, f in enumerate(self.fields + [None]):
            for i, t in igs:
                if self.igpos[i] == k:
                    body += '    #[bits(ignore = true)] %s ig%d: %s,\n' % (self.igvis.get(i, ('', 'pub'))[1], i, t)
            if f:
                body += f.rust()
        return ''.join(c + '\n' for c in self.consts) + '%s\n%s struct %s {\n%s}\n' % (
            self.attr(), self.vis, self.nm, body)

    def source(self, builder=True):
        text = self.rust() if self.wrap is None else fragments(self.wrap, self.rust())
        if self.near is not None:
            text = neighbours(self.near, text, [self.nm] + ([self.nm + 'Builder'] if builder else []))
        return text

    def dump(self):
        out = dict(self.__dict__, explicit=sorted(self.explicit), fields=[])
        for f in self.fields:
            out['fields'].append(dict(f.__dict__, cust=f.cust and f.cust.name))
        return out

    @staticmethod
    def load(j):
        d = Decl()
        d.__dict__.update(j, explicit=set(j['explicit']), fields=[])
        for x in j['fields']:
            f = Field()
            f.__dict__.update(x, cust=CUSTOM[x['cust']] if x['cust'] else None)
            d.fields.append(f)
        return d

    def spec(self):
        return {'nm': self.nm, 'kind': self.kind, 'nb': self.nb, 'by': BY, 'order': self.order,
                'fe': self.fe, 'ie': self.ie, 'we': self.we, 'fields': [f.spec() for f in self.fields],
                'ig': len(self.ig)}


# ---------------------------------------------------------------- generation
def expression(rng, v, w, signed=False):
    """A constant expression other than a literal or a path for the number v,
    of the unsigned or signed type of w bits."""
    top = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
    ty = (SIG if signed else UNS)[w]
    L = lambda x: literal(rng, x)
    T = lambda x: L(x) + ty
    if signed and v < 0:
        forms = ['%s - %s' % (L(0), L(-v) if -v <= top else '%s - 1' % L(-v - 1)),
                 '!%s' % L(-v - 1), '!%s' % T(-v - 1), '-%s - %s' % (L(-v - 1), L(1)), '%s::MIN + %s' % (ty, L(v + top + 1)), '(!%s)' % L(-v - 1)]
        if -v <= top:
            c = rng.randint(-v, top)
            forms.append('-%s + %s' % (L(c), L(c + v)))
        return rng.choice(forms)
    a = rng.randint(0, v)
    r = rng.getrandbits(w) & top
    forms = ['%s + %s' % (L(a), L(v - a)), '%s | %s' % (L(v & r), L(v & ~r | v & rng.getrandbits(w))), '%s ^ %s' % (L(v ^ r), L(r)),
             '%s | %s' % (T(v & r), L(v & ~r)), '%s + %s' % (L(a), T(v - a)), '%s & %s' % (L(v | r), L(v | top & ~r)),
             '%s as %s' % (L(v), ty), '%s | %s as %s' % (L(v & r), L(v & ~r), ty), '(%s + %s) / 2 * 2 + %s' % (L(a // 2), L(a // 2), L(v - a // 2 * 2)),
             '{ %s }' % L(v), '%s::MAX - %s' % (ty, L(top - v)), 'if true { %s } else { 0 }' % T(v), '%s.wrapping_add(%s)' % (T(a), L(v - a)),
             '%s - %s' % (L(min(top, v + a)), L(min(top, v + a) - v)), '(%s)' % L(v), '%s %% %s + %s' % (L(v // 2), L(min(top, v + 1)), L(v - v // 2))]
    z = (v & -v).bit_length() - 1
    if v and z:
        s = rng.randint(1, z)
        forms += ['%s << %s' % (L(v >> s), L(s))] * 3 + ['%s << %s' % (T(v >> s), L(s))]
    if v and v & (v - 1) == 0 and z < w - signed:
        forms += ['2%s.pow(%s)' % (ty, L(z)), '1 << %s' % L(z)]
    if not signed:
        forms += ['!%s' % L(top ^ v), '!%s' % T(top ^ v)]
        if v.bit_length() < w:
            s = rng.randint(1, min(w - 1, w - v.bit_length()))
            forms += ['%s >> %s' % (L(v << s | rng.getrandbits(s)), L(s))] * 2
            if v and v == (1 << v.bit_length()) - 1:
                forms += ['!0 >> %s' % L(w - v.bit_length())]
    return rng.choice(forms)


NAMES = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta', 'iota', 'kappa', 'lam', 'mu', 'nu', 'xi',
         'omi', 'pi', 'rho', 'sigma', 'tau', 'ups', 'phi', 'chi', 'psi', 'omega']
ODD = ['r#type', 'value', 'mask', 'offset', 'this', 'shift', 'val', 'a1', 'b_c_d', 'r#match', 'length', 'i', 'x', 'raw',
       'field_bits', 'byte_idx', 'bit_val', 'slice', 'zz']


def literal(rng, v):
    """A literal for the non-negative number v."""
    form = rng.choice(['d', 'd', 'x', 'X', 'b', 'o', 'u'])
    if form == 'd':
        return str(v)
    if form == 'x':
        return '0x%x' % v
    if form == 'X':
        s = '%X' % v
        return '0x' + (s[:-2] + '_' + s[-2:] if len(s) > 3 else s)
    if form == 'b' and v < 1 << 64:
        return '0b' + bin(v)[2:]
    if form == 'o':
        return '0o%o' % v
    s = str(v)
    return s[:-3] + '_' + s[-3:] if len(s) > 3 else s


def edge(rng, n, w):
    """An interesting unsigned number below 2^w for a field of n bits."""
    c = rng.random()
    if c < 0.25:
        return rng.getrandbits(n)
    if c < 0.4:
        return rng.getrandbits(w)
    base = rng.choice([0, 1, (1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1, (1 << n), (1 << n) + 1,
                       (1 << w) - 1, (1 << (w - 1)), (1 << w) - (1 << (n - 1)), (1 << w) - (1 << (n - 1)) - 1,
                       (1 << w) - 2, (1 << rng.randrange(w)), ((1 << n) - 1) ^ (1 << rng.randrange(n))])
    return base % (1 << w)


def set_default(rng, d, f, k):
    f.hd = True
    if f.ty == 'b':
        f.df = rng.randrange(2)
        t = 'true' if f.df else 'false'
        if rng.random() < 0.3:
            d.consts.append('const KB%d: bool = %s;' % (k, t))
            f.dsrc = 'KB%d' % k
        else:
            f.dsrc = t
    elif f.ty in 'ui':
        form = rng.random()
        if form < 0.2:
            v = edge(rng, f.n, f.w)
            if f.ty == 'i' and v >> (f.w - 1):
                v -= 1 << f.w
            f.df = v % (1 << f.w)
            f.dsrc = expression(rng, v, f.w, f.ty == 'i')
        elif form < 0.27 and f.w in UNS:
            f.dsrc = 'crate::types::V_%s' % f.rty.upper()
            f.df = VALUE % (1 << f.w)
        elif form < 0.5:            # const or const fn, may be wider than the field
            f.df = edge(rng, f.n, f.w)
            t = '0x%x' % f.df + ('u%d as %s' % (f.w, f.rty) if f.ty == 'i' else f.rty)
            if rng.random() < 0.5:
                d.consts.append('const K%d: %s = %s;' % (k, f.rty, t))
                f.dsrc = 'K%d' % k
            else:
                d.consts.append('const fn kf%d() -> %s { %s }' % (k, f.rty, t))
                f.dsrc = 'kf%d()' % k
        elif f.ty == 'u':
            v = edge(rng, f.n, f.w) % (1 << f.n)
            f.df = v
            f.dsrc = literal(rng, v) + (f.rty if rng.random() < 0.15 else '')
        else:
            if rng.random() < 0.6:
                v = -rng.choice([1, 1 << (f.n - 1), rng.randint(1, 1 << (f.n - 1))])
            else:
                top = min((1 << f.n) - 1, (1 << (f.w - 1)) - 1)
                v = rng.choice([0, top, rng.randint(0, top)])
            f.df = v % (1 << f.w)
            f.dsrc = ('-' if v < 0 else '') + literal(rng, abs(v))
    elif f.ty == 'a' and d.kind == 'int':
        # integer-backed bitfields take the default of an array field as an
        # integer (see known finding K3)
        f.df = edge(rng, f.n, max(f.n, min(f.w, 128)))
        if rng.random() < 0.5:
            d.consts.append('const KI%d: u128 = 0x%x;' % (k, f.df))
            f.dsrc = 'KI%d' % k
        else:
            f.df %= 1 << f.n
            f.dsrc = literal(rng, f.df)
    elif f.ty == 'a':
        f.df = edge(rng, f.n, f.w)
        bs = f.df.to_bytes(f.w // 8, 'little')
        form = rng.random()
        if form < 0.3:
            b = rng.randrange(256)
            f.df = int.from_bytes(bytes([b] * (f.w // 8)), 'little')
            f.dsrc = '[0x%02x; %d]' % (b, f.w // 8)
        elif form < 0.6:
            f.dsrc = '[%s]' % ', '.join('0x%02x' % b for b in bs)
        else:
            d.consts.append('const KA%d: %s = [%s];' % (k, f.rty, ', '.join('0x%02x' % b for b in bs)))
            f.dsrc = 'KA%d' % k
    else:
        c = f.cust
        if c.ck == 'tab':
            j = rng.randrange(len(c.vals))
            f.df = c.vals[j]
            f.dsrc = '%s::%s' % (c.name, c.names[j])
        else:
            v = rng.getrandbits(c.cw)
            f.df = v
            raw = v                      # argument of from_bits that gives the value v
            if c.ck == 'inv':
                raw = v ^ ((1 << c.cw) - 1)
            if c.fe == 'little':
                raw = swap(raw, c.cw // 8)
            if c.ck == 'sat':
                e = '%s(0x%x)' % (c.name, v)
            else:
                e = '%s::from_bits(0x%x)' % ('<%s>' % c.name if '<' in c.name else c.name, raw)
            if rng.random() < 0.5:
                d.consts.append('const KC%d: %s = %s;' % (k, c.name, e))
                f.dsrc = 'KC%d' % k
            else:
                f.dsrc = e


def choose_type(rng, f, n, weights, arr_ok=True):
    f.n = n
    cand = []
    if n <= 128:
        cand += [('u', weights.get('u', 4)), ('i', weights.get('i', 3)), ('c', weights.get('c', 2))]
        if n == 1:
            cand.append(('b', weights.get('b', 6)))
    cand.append(('a', weights.get('a', 1.5) if n <= 128 else 1))
    cand = [c for c in cand if c[1] > 0] or ([('u', 1)] if n <= 128 else [('a', 1)])
    f.ty = rng.choices([c[0] for c in cand], [c[1] for c in cand])[0]
    if f.ty in 'ui':
        ws = [w for w in WID if w >= n]
        f.w = ws[0] if rng.random() < 0.75 else rng.choice(ws)
        f.rty = (UNS if f.ty == 'u' else SIG)[f.w]
    elif f.ty == 'b':
        f.w, f.rty = 1, 'bool'
    elif f.ty == 'a':
        k = (n + 7) // 8
        if rng.random() < 0.3:
            k += rng.choice([1, 2, 5, 16])
        f.w, f.rty = 8 * k, '[u8; %d]' % k
    else:
        cs = [c for c in CUSTOMS if c.cw >= n] or CUSTOMS
        if rng.random() < 0.15:
            cs = CUSTOMS
        cs = [c for c in cs if c.usable(n)]
        if rng.random() < 0.4:
            cs = [c for c in cs if c.ck == 'tab'] or cs
        elif rng.random() < 0.2:
            cs = [c for c in cs if c.ck == 'sat'] or cs
        f.cust = rng.choice(cs)
        f.w, f.rty = f.cust.cw, f.cust.name


def split(rng, size, style):
    """A list of field widths that add up to size."""
    out = []
    left = size
    if style == 'ladder':
        return rng.sample(range(1, 129), 128)
    if isinstance(style, list):
        return style
    while left:
        if style == 'one':
            n = left
        elif style == 'bits':
            n = rng.choice([1, 1, 2, 3, 4])
        elif style == 'many':
            n = rng.choice([1, 1, 1, 2])
        elif style == 'bytes':
            n = 8 * rng.choice([1, 1, 2, 3, 4])
        elif style == 'wide':
            n = rng.choice([31, 33, 47, 63, 64, 65, 90, 127, 128])
        elif style == 'big':
            n = rng.choice([129, 130, 136, 200, 256, 100, 7])
        else:
            n = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 11, 13, 15, 16, 17, 20, 24, 31, 32, 33])
        n = min(n, left)
        if len(out) >= 9 and style != 'many':
            n = left if left <= 128 else 128
        out.append(n)
        left -= n
    return out


def gen(rng, kind, nb, heap=False, order='lsb', weights=None, p_res=0.12, p_def=0.35, p_acc=0.35, style=None, ig=0,
        endian=True, p_nonew=0.06):
    d = Decl()
    d.new = rng.random() >= p_nonew
    d.kind, d.nb, d.heap, d.order = kind, nb, heap, order
    weights = weights or {}
    if style is None:
        styles = ['mix', 'mix', 'mix', 'bits' if d.size <= 64 else 'mix', 'bytes', 'one']
        if d.size >= 64:
            styles += ['wide', 'wide']
        if 16 <= d.size <= 72 and rng.random() < 0.5:
            styles.append('many')
        if d.size > 136:
            styles += ['big', 'big']
        style = rng.choice(styles)
    if endian and rng.random() < 0.6:
        d.fe, d.ie, d.we = (rng.choice(['big', 'little']) for _ in range(3))
    if rng.random() < 0.3:
        d.explicit = set(['order', 'from_endian', 'into_endian', 'write_endian'])
    widths = split(rng, d.size, style)
    if style == 'one' and len(widths) == 1 and d.size > 128:
        pass
    names = NAMES[:]
    if rng.random() < 0.35:
        names = rng.sample(ODD, min(len(ODD), 12)) + names
    for k, n in enumerate(widths):
        f = Field()
        choose_type(rng, f, n, weights)
        if rng.random() < p_res:
            f.res = True
            f.acc = 'rw'
            f.nm = rng.choice(['_r%d' % k, '__', '_' + NAMES[k % len(NAMES)]])
        else:
            f.nm = names[k] if k < len(names) else 'f%d' % k
            if rng.random() < p_acc:
                f.acc = rng.choice(['rw', 'ro', 'wo', 'na'])
                f.setacc = True
        full = (n == f.w) and f.ty != 'c'
        if rng.random() < p_def:
            set_default(rng, d, f, k)
        if full and rng.random() < 0.6:
            f.omit = True
            if not f.hd and not f.setacc and rng.random() < 0.8:
                f.att = False
        if f.omit and f.att and not f.hd and not f.setacc:
            f.omit = False
        d.fields.append(f)
    for i in range(ig):
        d.ig.append(rng.choice(IGTYPES))
        d.igpos.append(rng.randint(0, len(d.fields)))
    if any(t not in IGCOPY for t in d.ig):
        d.copy = False
    if rng.random() < 0.12:
        d.wrap = rng.getrandbits(30)
    return d


INTS = [('int', 1, False), ('int', 2, False), ('int', 4, False), ('int', 8, False), ('int', 16, False)]
ARRS = [('arr', n, False) for n in (1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 33, 47)]
HEAPS = [('arr', n, True) for n in (1, 2, 3, 6, 8, 16, 17, 19, 40)]


# which argument of the attribute provides each operation
PROVIDES = {
    'from_into_bits': {'from', 'into', 'fslice', 'islice'}, 'from_traits': {'from', 'into'}, 'default': {'deft'}, 'debug': {'debug'},
    'builder': {'build'}, 'write_bit_ops': {'write', 'wdef'}, 'clear_bit_ops': {'clear', 'clearwd', 'clearf', 'clearfd'},
    'set_get_bit_ops': {'sbit', 'csbit', 'gbit', 'cgbit', 'srange', 'csrange', 'grange', 'cgrange'},
    'invert_bit_ops': {'inv', 'invf', 'ginv'}, 'toggle_bit_ops': set(), 'copy': set(),
}
BITGROUPS = ['write_bit_ops', 'clear_bit_ops', 'set_get_bit_ops', 'invert_bit_ops']


def trim(rng, d, ops):
    """Turns off some of the generated items that the operations do not need,
    so that what remains is tested without them, too."""
    if ops is None or rng.random() < 0.5:
        return
    ops = set(ops)
    free = [a for a, o in PROVIDES.items() if not (o & ops)]
    off = [a for a in free if rng.random() < 0.4]
    if 'copy' in off:
        off.remove('copy')
        d.copy = False
    if not ops & {'new', 'newwo'} and rng.random() < 0.3:
        d.new = False
    if rng.random() < 0.4:
        # through the master switch
        d.args.append('bit_ops = false')
        off = [a for a in off if a not in BITGROUPS]
        d.args += [a + ' = true' for a in BITGROUPS if PROVIDES[a] & ops]
    d.args += [a + ' = false' for a in off]
    rng.shuffle(d.args)


def pool(seed, count, backings=None, ops=None, p_ig=0.15, **kw):
    """count declarations, cycling through backings and bit orders."""
    rng = random.Random(seed)
    out = []
    backings = list(backings or (INTS * 2 + ARRS + HEAPS[:5]))
    k = 0
    order = backings[:]
    while len(out) < count:
        if k % len(order) == 0:
            rng.shuffle(order)
        kind, nb, heap = order[k % len(order)]
        # alternate the bit order per visit
        o = 'msb' if (k // len(order) + k) % 2 else 'lsb'
        a = dict(kw)
        if 'ig' not in a and rng.random() < p_ig:
            a['ig'] = rng.choice([1, 1, 2])
        d = gen(rng, kind, nb, heap, order=o, **a)
        if rng.random() < (0.1 if kind == 'int' else 0.05) and not heap:
            # on integers the argument has no effect
            d.args.append('array_heap = ' + ('true' if kind == 'int' else 'false'))
        trim(rng, d, ops)
        d.nm = 'S%d' % k
        out.append(d)
        k += 1
    return out


def ladder(seed, count, ops=None, **kw):
    """Declarations with a field of every width from 1 to 128 bits."""
    rng = random.Random(seed)
    out = []
    while len(out) < count:
        d = gen(rng, 'arr', 1032, rng.random() < 0.3, order=rng.choice(['lsb', 'msb']), **dict(kw, ig=0, style='ladder'))
        d.wrap = None
        trim(rng, d, ops)
        d.nm = 'L%d' % len(out)
        out.append(d)
    return out


def rungs(seed, ops=None, **kw):
    """Integer-backed declarations that have a field of every width."""
    rng = random.Random(seed)
    out = []
    for n in range(1, 65):
        m = rng.choice([n, 128 - n])
        d = gen(rng, 'int', 16, False, order=rng.choice(['lsb', 'msb']), **dict(kw, ig=0, style=[m, 128 - m]))
        trim(rng, d, ops)
        d.nm = 'R%d' % len(out)
        out.append(d)
    return out


def broad(seed, count, ops=None, **kw):
    """Integer-backed declarations that have a field of more than 64 bits."""
    rng = random.Random(seed)
    out = []
    while len(out) < count:
        m = rng.choice([rng.randint(65, 127), 8 * rng.randint(9, 15)])
        style = rng.choice([[m, 128 - m], [128 - m, m], [rng.randint(1, 127 - m) if m < 127 else 1, m]])
        if sum(style) < 128:
            style.append(128 - sum(style))
        d = gen(rng, 'int', 16, False, order=rng.choice(['lsb', 'msb']), **dict(kw, ig=0, style=style))
        trim(rng, d, ops)
        d.nm = 'B%d' % len(out)
        out.append(d)
    return out


def huge(seed, count, ops=None, **kw):
    """Declarations whose fields lie beyond 2^11 or 2^16 bits: a filler that is
    one byte array, and the fields of a small declaration after it."""
    rng = random.Random(seed)
    out = []
    k = rng.randrange(8)
    while len(out) < count:
        far, heap, order = 8190 if k & 1 else 254, bool(k & 2), 'msb' if k & 4 else 'lsb'
        k += 3
        nb = rng.randint(5, 30)
        d = gen(rng, 'arr', nb, heap, order=order, **dict(kw, ig=0, style=rng.choice(['mix', 'mix', 'wide', 'bytes', 'bits' if nb < 9 else 'mix'])))
        f = Field()
        f.ty, f.nm, f.n, f.w, f.rty = 'a', 'filler', 8 * far, 8 * far, '[u8; %d]' % far
        f.att, f.omit = False, True
        d.fields.insert(0 if order == 'lsb' else len(d.fields), f)
        d.nb += far
        d.wrap = None
        trim(rng, d, ops)
        d.nm = 'H%d' % len(out)
        out.append(d)
    return out
