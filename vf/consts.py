"""Constants, layout and derives of the generated types (P25).

Call chains are compiled into straight-line const functions, evaluated by the
compiler and at run time, and both records are checked against spec/Trace.tla;
facts about the types are measured, or probed with the compiler, and checked
against spec/Shape.tla."""
import random
import shutil

from . import accept, decls, flags, ops, rust, scripts, tlc
from .decls import BY, INTS, ARRS, HEAPS
from .rust import strip_raw, en_fn, ToolError

KINDS = {0: 'unit', 1: 'ok', 2: 'err', 3: 'val'}
CONST_OPS = [o for o in scripts.EVERY if o not in ('deft', 'debug')] + ['const']

PROBE = '''
mod probe {
    pub trait No { const IS: bool = false; }
    impl<T> No for T {}
    macro_rules! probe { ($p:ident, $($b:tt)+) => { pub struct $p<T>(core::marker::PhantomData<T>); impl<T: $($b)+> $p<T> { pub const IS: bool = true; } } }
    probe!(Cp, Copy); probe!(Cl, Clone); probe!(Pe, PartialEq); probe!(Eq, core::cmp::Eq); probe!(Ha, core::hash::Hash); probe!(Po, PartialOrd); probe!(Or, Ord);
    probe!(De, Default); probe!(Db, core::fmt::Debug);
}
'''
FACTS = [('copy', 'Cp'), ('clone', 'Cl'), ('PartialEq', 'Pe'), ('Eq', 'Eq'), ('Hash', 'Ha'), ('PartialOrd', 'Po'), ('Ord', 'Or')]


def facts_fn(name):
    w = 'pub fn facts() -> String { use probe::No; let mut o = format!("{} {}", core::mem::size_of::<%s>(), core::mem::align_of::<%s>());' % (name, name)
    for k, p in FACTS:
        w += ' if <probe::%s<%s>>::IS { o.push_str(" %s"); }' % (p, name, k)
    return PROBE + w + ' o }'


def derives(rng, ok=True, clone=False):
    """Attributes for the type, and the traits they implement."""
    if not ok:
        return [], []
    d = []
    if rng.random() < 0.5:
        d.append('PartialEq')
        if rng.random() < 0.6:
            d.append('Eq')
            if rng.random() < 0.5:
                d += ['PartialOrd', 'Ord']
        elif rng.random() < 0.3:
            d.append('PartialOrd')
    if rng.random() < 0.4:
        d.append('Hash')
    if clone and rng.random() < 0.4:
        d.append('Clone')
    rng.shuffle(d)
    if not d:
        return [], []
    if len(d) > 1 and rng.random() < 0.4:
        c = rng.randrange(1, len(d))
        return ['#[derive(%s)]' % ', '.join(d[:c]), '#[cfg_attr(all(), derive(%s))]' % ', '.join(d[c:])], d
    return [rng.choice(['#[derive(%s)]', '#[cfg_attr(all(), derive(%s))]']) % ', '.join(d)], d


def lit(x, n):
    return '[%s]' % ', '.join('%d' % b for b in x.to_bytes(n, 'little'))


def arg(x, n, ty):
    return 'unsafe { core::mem::transmute::<[u8; %d], %s>(%s) }' % (n, ty, lit(x, n))


class ConstDecl:
    """A declaration with chains of calls as const functions."""

    def __init__(self, d, attrs, der):
        self.d, self.attrs, self.der = d, attrs, der
        self.chains = []        # (init, events, const?)
        self.const = not d.ig and not d.heap

    def rust(self):
        s = self.d.rust()
        at = self.d.attr() + '\n'
        return s.replace(at, at + ''.join(a + '\n' for a in self.attrs), 1)

    def shape(self):
        d = self.d
        return {'what': 'field', 'kind': d.kind, 'nb': d.nb, 'heap': d.heap, 'ig': len(d.ig), 'copy': d.copy, 'der': self.der}

    def step(self, e):
        """Rust text that performs e, sets k (kind) and a (builder step), and
        stores the result in r; and the length of r."""
        d = self.d
        S, B, U, nb = d.nm, d.backing(), d.unit(), d.nb
        f = d.fields[e['f']] if e['f'] >= 0 else None
        nm = strip_raw(f.nm) if f else ''
        op, en, wd, ck = e['op'], e['en'], e['wd'], e['ck']
        res = 'k = match %s { Ok(()) => 1, Err(_) => 2 };'

        def val(expr, ty, n):
            return 'let z: %s = %s; k = 3; r = unsafe { core::mem::transmute::<%s, [u8; %d]>(z) };' % (ty, expr, ty, n), n

        def okval(expr, ty, n):
            return 'match %s { Ok(z) => { k = 1; r = unsafe { core::mem::transmute::<%s, [u8; %d]>(z) }; } Err(_) => { k = 2; } }' % (expr, ty, n), n
        if op == 'const':
            return 'k = 3; let z: [u32; 2] = [%s::%s_BITS as u32, %s::%s_OFFSET as u32]; r = unsafe { core::mem::transmute::<[u32; 2], [u8; 8]>(z) };' % (
                S, nm.upper(), S, nm.upper()), 8
        if op == 'get':
            return val('s.%s()' % f.nm, f.rty, f.nbytes())
        if op == 'ginv':
            return val('s.%s_inverted()' % nm, f.rty, f.nbytes())
        if op == 'set':
            return 's.set_%s(%s);' % (nm, arg(e['x'], f.nbytes(), f.rty)), 0
        if op == 'cset':
            return res % ('s.checked_set_%s(%s)' % (nm, arg(e['x'], f.nbytes(), f.rty))), 0
        if op in ('clearf', 'clearfd', 'invf'):
            return {'clearf': 's.clear_%s();', 'clearfd': 's.clear_%s_to_default();', 'invf': 's.invert_%s();'}[op] % nm, 0
        if op == 'inject':
            return 's = %s;' % arg(e['x'], nb, S), 0
        if op == 'new':
            return 's = %s::new();' % S, 0
        if op == 'newwo':
            return 's = %s::new_without_defaults();' % S, 0
        if op == 'build':
            t = 'let b = %sBuilder::%s();' % (S, 'new' if wd else 'new_without_defaults')
            end = ''
            for i, (g, c, x) in enumerate(e['st']):
                gf = d.fields[g]
                v = arg(x, gf.nbytes(), gf.rty)
                if c:
                    t += ' match b.checked_with_%s(%s) { Ok(b) => {' % (strip_raw(gf.nm), v)
                    end = '} Err(_) => { k = 2; a = %d; } }' % (i + 1) + end
                else:
                    t += ' let b = b.with_%s(%s);' % (strip_raw(gf.nm), v)
            return t + ' k = 1; s = b.build();' + end, 0
        if op == 'from':
            return 's = %s::%s(%s);' % (S, en_fn('from', en, U, '_with_defaults' if wd else ''), arg(e['x'], nb, B)), 0
        if op == 'into':
            return val('dup(&s).%s()' % en_fn('into', en, U), B, nb)
        if op == 'fslice':
            fn = en_fn('from', en, 'slice', '_with_defaults' if wd else '')
            if ck:
                return 'match %s::checked_%s(&%s) { Ok(z) => { s = z; k = 1; } Err(_) => { k = 2; } }' % (S, fn, lit(e['x'], e['l'])), 0
            return 's = %s::%s(&%s);' % (S, fn, lit(e['x'], e['l'])), 0
        if op == 'islice':
            fn = en_fn('into', en, 'slice')
            t = 'let mut z: [u8; %d] = %s; ' % (e['l'], lit(e['x'], e['l']))
            t += 'k = if s.checked_%s(&mut z).is_ok() { 1 } else { 2 };' % fn if ck else 's.%s(&mut z);' % fn
            return t + (' r = z;' if e['l'] else ''), e['l']
        if op == 'write':
            return 's.%s(%s);' % (en_fn('write', en, U, '_with_defaults' if wd else ''), arg(e['x'], nb, B)), 0
        if op == 'wdef':
            return 's.write_defaults();', 0
        if op == 'sbit':
            return 's.set_bit(%d, %s);' % (e['o'], 'true' if e['x'] else 'false'), 0
        if op == 'csbit':
            return res % ('s.checked_set_bit(%d, %s)' % (e['o'], 'true' if e['x'] else 'false')), 0
        if op == 'gbit':
            return val('s.get_bit(%d)' % e['o'], 'bool', 1)
        if op == 'cgbit':
            return okval('s.checked_get_bit(%d)' % e['o'], 'bool', 1)
        if op == 'srange':
            return 's.set_%s_range(%d, %d, %s);' % (U, e['o'], e['l'], arg(e['x'], nb, B)), 0
        if op == 'csrange':
            return res % ('s.checked_set_%s_range(%d, %d, %s)' % (U, e['o'], e['l'], arg(e['x'], nb, B))), 0
        if op == 'grange':
            return val('s.get_%s_range(%d, %d)' % (U, e['o'], e['l']), B, nb)
        if op == 'cgrange':
            return okval('s.checked_get_%s_range(%d, %d)' % (U, e['o'], e['l']), B, nb)
        if op in ('clear', 'clearwd', 'inv'):
            return {'clear': 's.clear_%s();', 'clearwd': 's.clear_%s_with_defaults();', 'inv': 's.invert_%s();'}[op] % U, 0
        raise KeyError(op)

    def module(self):
        d = self.d
        S, nb = d.nm, d.nb
        L = ['#![allow(dead_code, unused, overflowing_literals, non_camel_case_types, long_running_const_eval, unnecessary_transmutes, clippy::all)]',
             'use bitfields::{bitfield, bitflag};', 'use crate::support::*; use crate::types::*;', self.rust(), facts_fn(S)]
        w = L.append
        self.lens = []
        if self.const and self.chains:
            w('const fn raw(s: &%s) -> [u8; %d] { unsafe { *(s as *const %s as *const [u8; %d]) } }' % (S, nb, S, nb))
            w('const fn dup(s: &%s) -> %s { unsafe { core::mem::transmute::<[u8; %d], %s>(raw(s)) } }' % (S, S, nb, S))
            w('const fn put<const N: usize>(out: &mut [u8], p: usize, b: &[u8; N]) -> usize { let mut i = 0; while i < N { out[p + i] = b[i]; i += 1; } p + N }')
        for j, (init, evs) in enumerate(self.chains if self.const else []):
            body, total, lens = [], 0, []
            for e in evs:
                t, n = self.step(e)
                body.append('{ let mut k: u8 = 0; let mut a: u8 = 0; let mut r = [0u8; %d]; %s p = put(&mut out, p, &[k, a]); p = put(&mut out, p, &r); p = put(&mut out, p, &raw(&s)); }' % (n, t))
                lens.append(n)
                total += 2 + n + nb
            self.lens.append(lens)
            w('const fn chain%d() -> [u8; %d] { let mut out = [0u8; %d]; let mut p = 0usize; let mut s: %s = %s;' % (j, total, total, S, arg(init, nb, S)))
            L += body
            w('out }')
            w('const C%d: [u8; %d] = chain%d();' % (j, total, j))
        w('pub fn run(c: &[&str]) -> String { match (c[0], c[1]) {')
        for j in range(len(self.lens)):
            w('  ("const", "%d") => hex(&C%d), ("run", "%d") => guard(|| hex(&chain%d())),' % (j, j, j, j))
        w('  ("facts", _) => facts(), _ => "-".to_string() } }')
        return '\n'.join(L) + '\n'

    def parse(self, j, text):
        """The outputs, in the form of the harness, of the calls of chain j."""
        try:
            b = bytes.fromhex(text)
        except ValueError:
            return [None] * len(self.lens[j])
        out, p = [], 0
        for e, n in zip(self.chains[j][1], self.lens[j]):
            k, a = KINDS.get(b[p], '?'), b[p + 1]
            r, v = b[p + 2:p + 2 + n], b[p + 2 + n:p + 2 + n + self.d.nb]
            p += 2 + n + self.d.nb
            s = '-'
            h = r.hex() or '-'
            if e['op'] == 'build':
                s = str(a)
            elif e['op'] == 'const':
                s, h = '%d,%d' % (int.from_bytes(r[:4], 'little'), int.from_bytes(r[4:], 'little')), '-'
            elif k == 'err' and e['op'] != 'islice':
                h = '-'
            out.append('%s %s %s %s -' % (k, h, s, v.hex()))
        return out


class FlagShape:
    def __init__(self, f, rng):
        self.f = f
        self.attrs, self.der = derives(rng, clone=not f.copy)

    def rust(self):
        return self.f.text().replace('#[derive(Debug, PartialEq', ''.join(a + '\n' for a in self.attrs) + '#[derive(Debug', 1)

    def shape(self):
        return {'what': 'flag', 'kind': 'int', 'nb': self.f.nb, 'heap': False, 'ig': 0, 'copy': self.f.copy, 'der': self.der}

    def module(self):
        return ('#![allow(dead_code, unused, clippy::all)]\nuse bitfields::bitflag; use crate::support::*;\n' + self.rust() + facts_fn('E')
                + '\npub fn run(c: &[&str]) -> String { if c[0] == "facts" { facts() } else { "-".to_string() } }\n')


def safe(d, evs):
    """Without the calls that panic."""
    return [e for e in evs if not (e['op'] in ('fslice', 'islice') and not e['ck'] and e['l'] != d.nb)
            and not (e['op'] in ('from', 'into') and e['en'].startswith('tr')) and e['wd'] < 2]


def chains(rng, d, scale):
    out = []
    opl = [o for o in CONST_OPS if d.kind == 'arr' or o not in ('fslice', 'islice')]
    for c in range(scale):
        evs = safe(d, scripts.all_ops(rng, d, 34, [o for o in opl if o != 'const']))
        out.append((ops.rstate(rng, d), [ops.ev('inject', x=ops.rstate(rng, d))] + evs))
    one = [ops.ev('const', k) for k, f in enumerate(d.fields) if f.builder()]
    # every function once
    for k, f in enumerate(d.fields):
        v = scripts.pick(rng, ops.values(rng, f))
        if f.setter():
            one += [ops.ev('set', k, v), ops.ev('cset', k, v), ops.ev('invf', k), ops.ev('clearf', k)] + [ops.ev('clearfd', k)] * f.hd
        if f.getter():
            one += [ops.ev('get', k), ops.ev('ginv', k)]
        if f.builder():
            one.append(ops.ev('build', wd=rng.randrange(2), st=[(k, rng.randrange(2), v)]))
    for en in scripts.ENS:
        for wd in (0, 1):
            one += [ops.ev('from', en=en, wd=wd, x=ops.rstate(rng, d)), ops.ev('write', en=en, wd=wd, x=ops.rstate(rng, d))]
            if d.kind == 'arr':
                for ck in (0, 1):
                    one.append(ops.ev('fslice', en=en, wd=wd, ck=ck, l=d.nb, x=ops.rstate(rng, d)))
        one.append(ops.ev('into', en=en))
        if d.kind == 'arr':
            one += [ops.ev('islice', en=en, ck=ck, l=d.nb, x=0) for ck in (0, 1)]
    if d.new:
        one += [ops.ev('new'), ops.ev('newwo')]
    one += [ops.ev(o) for o in ('wdef', 'clear', 'clearwd', 'inv')]
    rng.shuffle(one)
    return out + [(ops.rstate(rng, d), one[a:a + 60]) for a in range(0, len(one), 60)]


# --------------------------------------------------- probes by the compiler
NOSTD = '''#![allow(dead_code, unused, overflowing_literals)]
use bitfields::{bitfield, bitflag};
''' 


def nostd_text():
    body = []
    for w, u in ((8, 'u8'), (16, 'u16'), (32, 'u32'), (64, 'u64'), (128, 'u128')):
        for nm, op in (('I', ''), ('N', '!')):
            body.append('#[derive(Clone, Copy)] pub struct %s%d(pub %s); impl %s%d { pub const fn from_bits(b: %s) -> Self { Self(%sb) } pub const fn into_bits(self) -> %s { %sself.0 } }' % (
                nm, w, u, nm, w, u, op, u, op))
    for c in decls.CUSTOMS:
        if c.ck == 'sat':
            body.append('#[derive(Clone, Copy)] pub struct %s(pub u%d); impl %s { pub const fn from_bits(b: u%d) -> Self { if b >> %d == 0 { Self(b) } else { Self(%d) } } pub const fn into_bits(self) -> u%d { self.0 } }' % (
                c.name, c.cw, c.name, c.cw, c.cm, c.fb, c.cw))
    body.append('#[derive(Clone, Copy)] pub struct Gen<T>(pub T);')
    for u in ('u8', 'u32', 'u128'):
        body.append('impl Gen<%s> { pub const fn from_bits(b: %s) -> Self { Gen(b) } pub const fn into_bits(self) -> %s { self.0 } }' % (u, u, u))
    for line in decls.PRELUDE.splitlines():
        if line.startswith(('#[bitflag', '#[bitfield', 'pub const')):
            body.append(line)
    return NOSTD + '\n'.join(body) + '''
#[derive(Clone, Copy, Debug)] pub struct D7(pub u32);
impl Default for D7 { fn default() -> Self { D7(7) } }
'''


NOSTD_MAIN = '#![no_std]\n#![no_main]\n#![recursion_limit = "512"]\n#[panic_handler] fn ph(_: &core::panic::PanicInfo) -> ! { loop {} }\nmod types;\n'


def probes(run, items):
    """Facts found by the compiler: [(item index, fact, holds)]."""
    out = []
    texts, what = [], []
    for k, it in enumerate(items):
        if isinstance(it, ConstDecl) and not it.d.heap and not any(t in ('String', 'Vec<u16>', 'Box<u32>') for t in it.d.ig):
            texts.append(it.rust())
            what.append((k, 'nostd', True))
        elif isinstance(it, FlagShape):
            texts.append(it.rust())
            what.append((k, 'nostd', True))
    failed = accept.verdicts(run, texts, tag='nostd', head='#![allow(dead_code, unused, non_camel_case_types, overflowing_literals)]\nuse bitfields::{bitfield, bitflag}; use crate::types::*;\n',
                             types=nostd_text(), main=NOSTD_MAIN, tail='panic = "abort"\n')
    if failed is None:
        return out
    for j, (k, fact, yes) in enumerate(what):
        out.append((k, fact, (j not in failed) == yes, failed.get(j, '')))
    texts, what = [], []
    for k, it in enumerate(items):
        if isinstance(it, ConstDecl) and it.const:
            if it.d.kind == 'int' and it.d.nb <= 8:
                texts.append(it.rust() + '#[deny(improper_ctypes_definitions)] pub extern "C" fn ffi(x: %s) -> %s { x }\n' % (it.d.nm, it.d.nm))
                what.append((k, 'ffi', True))
            if k % 8 == 0:
                texts.append(it.rust().replace(it.d.attr() + '\n', it.d.attr() + '\n#[must_use]\n', 1)
                             + '#[deny(unused_must_use)] pub fn unused(f: fn() -> %s) { f(); }\n' % it.d.nm)
                what.append((k, 'must_use', False))
        if isinstance(it, FlagShape):
            texts.append(it.rust() + '#[deny(improper_ctypes_definitions)] pub extern "C" fn ffi(x: E) -> E { x }\n')
            what.append((k, 'ffi', True))
    failed = accept.verdicts(run, texts, tag='ffi')
    if failed is None:
        return out
    for j, (k, fact, yes) in enumerate(what):
        out.append((k, fact, (j not in failed) == yes, failed.get(j, '')))
    return out


def round_(run, rng, count, seed, scale):
    from . import runner
    ds = decls.pool(seed, count, backings=INTS * 2 + ARRS + HEAPS[:4], p_ig=0.1, p_res=0.08, p_acc=0.3)
    items = []
    for k, d in enumerate(ds):
        d.nm = 'S%d' % k
        if not d.ig and rng.random() < 0.2:
            d.copy = False
        a, der = derives(rng, not d.ig, clone=not d.copy and not d.heap)
        it = ConstDecl(d, a, der)
        if it.const and (d.nb <= 20 or k % 4 == 0):
            # what is switched off cannot be called; P21 is about that
            it.chains = [(i, e) for i, e in chains(rng, d, scale) if e]
        items.append(it)
    items += [FlagShape(f, rng) for f in flags.pool(rng, count // 4)]
    pb = runner.Background(probes, run, items)
    h = rust.Harness(run.work + '/c', items, set())
    h.build()
    for k, msg in h.failed.items():
        run.violation('a valid declaration, or a call of it in a constant, does not compile: ' + runner.first_line(msg),
                      declaration=items[k].rust() if k >= 0 else decls.PRELUDE, compiler=msg)
    lines = {}
    for k, it in enumerate(items):
        if k not in h.failed:
            lines[k] = ['@ %d' % k, 'facts 0']
            for j in range(len(getattr(it, 'lens', []))):
                lines[k] += ['const %d' % j, 'run %d' % j]
    got = h.run(lines)
    shutil.rmtree(h.root, ignore_errors=True)
    traces, shapes = [], []
    for k in lines:
        o = got.get(k, [])
        it = items[k]
        f = o[1].split(' ') if len(o) > 1 else ['0', '0']
        shapes.append({'d': k, 'ev': [{'k': 'size', 'n': int(f[0])}, {'k': 'align', 'n': int(f[1])}]
                       + [{'k': fact, 'n': int(fact in f[2:])} for fact, _ in FACTS]})
        for j in range(len(getattr(it, 'lens', []))):
            for c in (0, 1):
                at = 2 + 2 * j + c
                outs = it.parse(j, o[at]) if at < len(o) else [None] * len(it.lens[j])
                traces.append({'d': k, 'init': ops.positions(it.chains[j][0]),
                               'ev': [ops.record(it.d, e, x) for e, x in zip(it.chains[j][1], outs)]})
    for k, fact, holds, msg in pb.get():
        shapes.append({'d': k, 'ev': [{'k': fact, 'n': int(holds)}]})
        if not holds:
            items[k].why = msg
    runner.check(run, [it.d for it in items[:len(ds)]], traces)
    s, g, rej = tlc.check_traces([it.shape() for it in items], shapes, run.work + '/tlc', spec='ShapeTrace')
    run.states += s
    run.transitions += g
    run.validated += len(shapes) - len(rej)
    run.add('facts_about_types', sum(len(t['ev']) for t in shapes))
    run.add('chains_evaluated_in_constants', len(traces) // 2)
    for r in rej:
        it = items[shapes[r['trace']]['d']]
        run.violation('%s of %s is %s, the specification says %s' % (r['fact']['k'], ' '.join(it.rust().split())[:300], r['fact']['n'], r['expected']),
                      declaration=it.rust(), fact=r['fact'], expected=r['expected'], compiler=getattr(it, 'why', ''))


def check(run):
    from .runner import Background, model
    mc = Background(model, run, 'P25', spec='ShapeMC', workers=2)
    k = 0
    rng = random.Random('P25-%d' % run.seed)
    while k == 0 or (run.thorough and run.left(600) > 0 and not run.violations):
        round_(run, rng, 96, 'P25-%d-%d' % (run.seed, k), 1 if not run.thorough else 2)
        k += 1
    mc.get()
