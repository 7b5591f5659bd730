"""What exists: arguments (P21), Cargo features (P22), access and visibility
(P23).  Every name the specification (spec/Api.tla) can expect is probed by a
line of Rust of its own; the compiler says which of them exist, and TLC
compares that with the specification."""
import os
import random
import re
import shutil
import subprocess

from . import decls, rust, tlc
from .decls import UNS
from .rust import REPO, ToolError

GROUPS = ['write_bit_ops', 'clear_bit_ops', 'set_get_bit_ops', 'invert_bit_ops', 'toggle_bit_ops']
SWITCHES = ['new', 'from_into_bits', 'from_traits', 'default', 'debug', 'copy', 'bit_ops', 'builder', 'array_heap'] + GROUPS
ENDIANS = ['from_endian', 'into_endian', 'write_endian']
ORDERS = ['order'] + ENDIANS
ARGS = SWITCHES + ORDERS
NOARGS = {a: '-' for a in ARGS}
FLAGARGS = ['from_endian', 'into_endian', 'copy']


def enabling(a):
    return {'copy': 'derive_copy', 'array_heap': 'enable_array_heap'}.get(a, 'generate_' + a)


FACETS = ([(a, enabling(a), 'disable_' + a) for a in SWITCHES] + [('order', 'order_lsb', 'order_msb')]
          + [(a, a + '_big', a + '_little') for a in ENDIANS]
          + [('bitflag_' + a, 'bitflag_%s_big' % a, 'bitflag_%s_little' % a) for a in ('from_endian', 'into_endian')]
          + [('bitflag_copy', 'bitflag_derive_copy', 'bitflag_disable_copy')])
FEATURES = [f for x in FACETS for f in x[1:]]


class Api:
    """A declaration with its arguments and probes."""

    def __init__(self, rng, d, A, vis='pub'):
        self.d, self.A, self.vis = d, A, vis
        given = ['%s = %s' % (a, A[a]) for a in ARGS if A[a] != '-']
        rng.shuffle(given)
        self.attr = '#[bitfield(%s)]' % ', '.join([d.backing()] + given)

    def text(self):
        d = self.d
        return ''.join(c + '\n' for c in d.consts) + '%s\n%s struct %s {\n%s}\n' % (
            self.attr, self.vis, d.nm, re.search(r'struct \w+ \{\n(.*)\}\n', d.rust(), re.S).group(1))

    def spec(self, viskey=None):
        d = self.d
        return {'kind': d.kind, 'unit': d.unit(), 'ig': [{'nm': 'ig%d' % i, 'vis': d.igvis.get(i, ('pub', ''))[0]} for i in range(len(d.ig))], 'vis': viskey or 'pub',
                'fields': [{'nm': f.plain(), 'up': f.plain().upper(), 'acc': f.acc, 'res': f.res, 'hd': f.hd,
                            'vis': getattr(f, 'viskey', 'none')} for f in d.fields]}


def universe(d):
    """The probed items; TLC checks that these are all that Api knows."""
    u = d.unit()
    E, W, C = ('', 'le_', 'be_'), ('', '_with_defaults'), ('', 'checked_')
    out = ['new', 'new_without_defaults', 'write_defaults', 'clear_' + u, 'clear_%s_with_defaults' % u, 'invert_' + u]
    out += ['from_%s%s%s' % (e, u, w) for e in E for w in W] + ['into_%s%s' % (e, u) for e in E]
    out += ['write_%s%s%s' % (e, u, w) for e in E for w in W]
    if d.kind == 'arr':
        out += ['%sfrom_%sslice%s' % (c, e, w) for c in C for e in E for w in W] + ['%sinto_%sslice' % (c, e) for c in C for e in E]
    out += ['%s%s_bit' % (c, x) for c in C for x in ('set', 'get')] + ['%s%s_%s_range' % (c, x, u) for c in C for x in ('set', 'get')]
    out += ['B::new', 'B::new_without_defaults', 'B::build']
    impls = ['impl From<backing>', 'impl Into<backing>', 'impl Default', 'impl Debug', 'impl Copy', 'impl Clone', 'B impl Default']
    fields = []
    for f in d.fields:
        n = f.plain()
        if f.builder():
            fields += [n.upper() + '_BITS', n.upper() + '_OFFSET', 'B::with_' + n, 'B::checked_with_' + n]
        if f.getter():
            fields += [n, n + '_inverted']
        if f.setter():
            fields += ['set_' + n, 'checked_set_' + n, 'clear_' + n, 'invert_' + n] + (['clear_%s_to_default' % n] if f.hd else [])
    return out, impls, sorted(set(fields))


def field_universe(d):
    out = []
    for f in d.fields:
        n = f.plain()
        out += [n, 'set_' + n, 'checked_set_' + n, n.upper() + '_BITS', n.upper() + '_OFFSET', 'B::with_' + n, 'B::checked_with_' + n]
    return sorted(set(out))


TRAITS = {'impl Default': ('core::default::Default', 0), 'impl Debug': ('core::fmt::Debug', 0), 'impl Copy': ('core::marker::Copy', 0),
          'impl Clone': ('core::clone::Clone', 0), 'B impl Default': ('core::default::Default', 1)}


def probe(item, S, B, backing, k):
    """One line of Rust that compiles exactly if the item is there."""
    if item in TRAITS:
        t, b = TRAITS[item]
        return 'fn t%d() { fn a<T: %s>() {} a::<%s>(); }' % (k, t, B if b else S)
    if item == 'impl From<backing>':
        return 'fn t%d() { fn a<T: From<%s>>() {} a::<%s>(); }' % (k, backing, S)
    if item == 'impl Into<backing>':
        return 'fn t%d() { fn a<T: From<%s>>() {} a::<%s>(); }' % (k, S, backing)
    if item.startswith('.'):
        return 'fn t%d(s: &%s) { let _ = &s%s; }' % (k, S, item)
    if item.startswith('B::'):
        return 'fn t%d() { let _ = %s::%s; }' % (k, B, item[3:])
    return 'fn t%d() { let _ = %s::%s; }' % (k, S, raw(item))


KEYWORDS = {'type', 'match', 'loop', 'move', 'fn', 'struct', 'in', 'use'}


def raw(n):
    return 'r#' + n if n in KEYWORDS else n


OKCODES = {'E0599', 'E0277', 'E0624', 'E0080', 'E0609', 'E0616', 'E0603', 'E0433', 'E0432'}


class Crate:
    """Files of probes; which of them failed."""

    def __init__(self, root):
        self.root = root
        self.files = {}         # file -> lines
        self.probes = {}        # (file, line) -> key

    def add(self, file, text):
        self.files.setdefault(file, [])
        self.files[file] += text.rstrip('\n').split('\n')

    def probe(self, file, text, key):
        assert '\n' not in text
        self.add(file, text)
        self.probes[(file, len(self.files[file]))] = key

    def write(self):
        for f, ls in self.files.items():
            rust.write('%s/%s' % (self.root, f), '\n'.join(ls) + '\n')

    def read(self, errs, prefix=''):
        """failed probe keys, and other errors [(file, text)]"""
        failed, other = set(), []
        for pkg, file, line, code, text in errs:
            key = self.probes.get((file, line)) if file else None
            if key is not None and (code in OKCODES):
                failed.add(key)
            elif 'aborting due to' in text or 'could not compile' in text:
                continue
            else:
                other.append((file, line, code, text))
        return failed, other


def cargo_json(root, args, target, timeout=800):
    rc, msgs, err = rust.cargo(root, args, target=target, timeout=timeout)
    return rc, rust.errors(msgs), err


# ------------------------------------------------------------------ P21
def combos(rng, count):
    """Argument assignments: none, each alone both ways, then random ones."""
    out = [dict(NOARGS)]
    for a in SWITCHES:
        for v in ('true', 'false'):
            out.append(dict(NOARGS, **{a: v}))
    for g in GROUPS:
        out.append(dict(NOARGS, bit_ops='false', **{g: 'true'}))
        out.append(dict(NOARGS, bit_ops='true', **{g: 'false'}))
        out.append(dict(NOARGS, bit_ops='false', **{x: 'true' for x in GROUPS if x != g}))
    for v in ('true', 'false'):
        out.append(dict(NOARGS, **{a: v for a in SWITCHES}))
    while len(out) < count:
        A = dict(NOARGS)
        p = rng.choice([0.15, 0.4, 0.8])
        for a in SWITCHES:
            if rng.random() < p:
                A[a] = rng.choice(['true', 'false'])
        if rng.random() < 0.4:
            A['order'] = rng.choice(['lsb', 'msb'])
        for a in ENDIANS:
            if rng.random() < 0.3:
                A[a] = rng.choice(['big', 'little'])
        out.append(A)
    return out


def small(rng, kind, custom=True, ig=0.2):
    nb = rng.choice([1, 2, 4]) if kind == 'int' else rng.choice([1, 2, 3, 5])
    igs = rng.choice([1, 2]) if rng.random() < ig else 0
    d = decls.gen(rng, kind, nb, weights={} if custom else dict(c=0), p_res=0.15, p_def=0.4, p_acc=0.6, endian=False, ig=0)
    for i in range(igs):
        d.ig.append(rng.choice(decls.IGCOPY))
        d.igpos.append(rng.randint(0, len(d.fields)))
    d.fe = d.ie = d.we = 'big'
    d.order, d.explicit, d.new, d.copy, d.args = 'lsb', set(), True, True, []
    return d


def report(run, specs, texts, traces):
    """TLC compares the observations; returns the rejections."""
    s, g, rej = tlc.check_traces(specs, traces, run.work + '/tlc', spec='ApiTrace', shards=6)
    run.states += s
    run.transitions += g
    bad = {}
    for r in rej:
        bad.setdefault(r['trace'], []).append(r)
    run.validated += len(traces) - len(bad)
    run.add('observations', sum(len(t['ev']) for t in traces))
    run.add('names_probed', sum(len(e['probed']) for t in traces for e in t['ev']))
    return rej


def ev(k, A, F, probed, seen, place='inner'):
    return {'k': k, 'A': A, 'F': sorted(F), 'place': place, 'probed': sorted(probed), 'seen': sorted(seen), 'v': []}


def put_items(c, file, a, k, facts, use=''):
    """Declaration and probes of one module."""
    d = a.d
    c.add(file, '#![allow(dead_code, unused, overflowing_literals, non_camel_case_types, clippy::all)]')
    c.add(file, 'mod fb { pub struct %sBuilder; } use fb::*;' % d.nm)
    c.add(file, use + 'use bitfields::{bitfield, bitflag}; use crate::support::*; use crate::types::*;')
    c.add(file, a.text())
    names, impls, fields = universe(d)
    n = 0
    for it in names + impls + fields:
        c.probe(file, probe(it, d.nm, d.nm + 'Builder', d.backing(), n), (k, 'items', it))
        n += 1
    for it, expr in facts:
        c.probe(file, 'const _: () = assert!(%s);' % expr, (k, 'facts', it))
    return names + impls + fields


def default_features():
    t = open(REPO + '/bitfields_impl/Cargo.toml').read()
    m = re.search(r'^default = \[(.*?)\]', t, re.S | re.M)
    return re.findall(r'"([^"]+)"', m.group(1)) if m else []


STD_DEFAULTS = sorted([enabling(a) for a in SWITCHES if a != 'array_heap'] + ['disable_array_heap', 'order_lsb', 'bitflag_derive_copy']
                      + [a + '_big' for a in ENDIANS] + ['bitflag_from_endian_big', 'bitflag_into_endian_big'])


def inline_fact(d):
    """Facts about storage, when the size tells."""
    if d.ig or d.kind == 'int' or d.nb >= 8:
        return []
    return [('heap', 'core::mem::size_of::<%s>() == core::mem::size_of::<usize>()' % d.nm),
            ('inline', 'core::mem::size_of::<%s>() == %d' % (d.nm, d.nb))]


def p21(run):
    from .runner import Background, model
    mc = Background(model, run, 'P21', spec='ApiMC', workers=3, consts={'Given': '2', 'Wide': 'TRUE' if run.prop != 'P22' or run.thorough else 'FALSE'})
    rng = random.Random('P21-%d' % run.seed)
    k = 0
    while k == 0 or (run.thorough and run.left(600) > 0 and not run.violations):
        p21_round(run, rng, 100 if k == 0 else 160, k)
        k += 1
    mc.get()


def p21_round(run, rng, count, rnd):
    ds = []
    for k, A in enumerate(combos(rng, count)):
        kind = ['int', 'arr'][(k + rnd + rng.randrange(2)) % 2]
        if A['array_heap'] != '-':
            kind = 'arr' if rng.random() < 0.8 else 'int'
        d = small(rng, kind)
        d.nm = 'S%d' % k
        ds.append(Api(rng, d, A))
    nb = 8
    root = run.work + '/p21'
    rust.start_crate(root, 'probes', tail=''.join('[[bin]]\nname = "b%d"\npath = "src/b%d.rs"\n' % (b, b) for b in range(nb)))
    rust.write(root + '/src/support.rs', rust.SUPPORT)
    rust.write(root + '/src/types.rs', decls.PRELUDE)
    c = Crate(root)
    probed, facts = {}, {}
    for k, a in enumerate(ds):
        facts[k] = inline_fact(a.d)
        probed[k] = put_items(c, 'src/m%d.rs' % k, a, k, facts[k])
    for b in range(nb):
        c.add('src/b%d.rs' % b, '#![recursion_limit = "512"]\nmod support; mod types;\n' + ''.join(
            'mod m%d;\n' % k for k in range(len(ds)) if k % nb == b) + 'fn main() {}')
    c.write()
    gone = settle(run, c, root, ds, root + '/target')
    if gone is None:
        return
    failed, dead = gone
    traces = []
    for k, a in enumerate(ds):
        if k in dead:
            continue
        e = [ev('items', a.A, STD_DEFAULTS, probed[k], [x for x in probed[k] if (k, 'items', x) not in failed])]
        if facts[k]:
            pr = [x for x, _ in facts[k]]
            e.append(ev('facts', a.A, STD_DEFAULTS, pr, [x for x in pr if (k, 'facts', x) not in failed]))
        traces.append({'d': k, 'ev': e})
    tell(run, ds, traces)
    shutil.rmtree(root, ignore_errors=True)


def tell(run, ds, traces, what='argument', extra=lambda t, e: ''):
    rej = report(run, [a.spec() for a in ds], None, traces)
    if not run.samples and traces:
        t = traces[len(traces) // 2]
        run.samples.append({'declaration': ds[t['d']].text(), 'given': {k: v for k, v in t['ev'][0]['A'].items() if v != '-'},
                            'found': t['ev'][0]['seen'][:12]})
    for r in rej:
        t = traces[r['trace']]
        a, e = ds[t['d']], t['ev'][r['i'] - 1]
        run.violation('%s: missing %s, unexpected %s%s' % (
            ' '.join(a.text().split())[:300], sorted(r['missing']), sorted(r['extra']), extra(t, e)),
            declaration=a.text(), missing=r['missing'], unexpected=r['extra'], arguments=e['A'], features=e['F'], place=e['place'])


def settle(run, c, root, ds, target, modof=lambda f: int(re.fullmatch(r'src/m(\d+)\.rs', f).group(1)) if f and re.fullmatch(r'src/m(\d+)\.rs', f) else None):
    """Checks the crate; declarations that do not compile are reported,
    emptied and the rest checked again."""
    dead = {}
    for _ in range(4):
        rc, errs, err = cargo_json(root, ['check', '--bins', '--keep-going'], target)
        failed, other = c.read(errs)
        if rc != 0 and not errs:
            raise ToolError('cargo failed:\n' + err[-3000:])
        new = 0
        for file, line, code, text in other:
            k = modof(file)
            if k is None:
                if file == 'src/types.rs':
                    run.violation('the field types do not compile: ' + text.strip().splitlines()[0], compiler=text)
                    return None
                raise ToolError('unexpected error at %s:%s\n%s' % (file, line, text))
            if k not in dead:
                dead[k] = text
                new += 1
                run.violation('a valid declaration does not compile: %s: %s' % (
                    text.strip().splitlines()[0], ' '.join(ds[k].text().split())[:300]), declaration=ds[k].text(), compiler=text)
                rust.write('%s/src/m%d.rs' % (root, k), '')
        if not new:
            return failed, dead
    raise ToolError('the probes do not settle')


# ------------------------------------------------------------------ P22
def feature_sets(rng, count):
    out = [[], list(STD_DEFAULTS), [x[2] for x in FACETS], list(FEATURES),
           [x[2] if x[0] != 'array_heap' else x[1] for x in FACETS],
           STD_DEFAULTS + [x[2] for x in FACETS if x[0] != 'array_heap'],
           ['disable_bit_ops'] + [enabling(g) for g in GROUPS[:2]], ['disable_bit_ops', 'generate_bit_ops'] + ['disable_' + g for g in GROUPS[2:]]]
    while len(out) < count:
        s = []
        style = rng.random()
        for a, on, off in FACETS:
            c = rng.choice([0, 1, 2, 3]) if style < 0.8 else rng.choice([0, 0, 2, 2, 3])
            if c & 1:
                s.append(on)
            if c & 2:
                s.append(off)
        out.append(s)
    return [sorted(set(s)) for s in out]


def fact_decl(rng, A):
    """Declaration Q, whose byte and bit orders can be observed."""
    d = decls.Decl()
    d.kind, d.nb = 'int', 2
    for nm in ('a', 'b'):
        f = decls.Field()
        f.nm, f.rty, f.n, f.w, f.omit, f.att = nm, 'u8', 8, 8, True, False
        d.fields.append(f)
    A = dict(A, from_into_bits='true', write_bit_ops='true')
    return Api(rng, d, A)


def order_facts(d):
    S = d.nm
    return [('order=lsb', '%s::A_OFFSET == 0' % S), ('order=msb', '%s::A_OFFSET == 8' % S),
            ('from_endian=big', '%s::from_bits(1).into_be_bits() == 1' % S), ('from_endian=little', '%s::from_bits(1).into_be_bits() == 256' % S),
            ('into_endian=big', '%s::from_be_bits(1).into_bits() == 1' % S), ('into_endian=little', '%s::from_be_bits(1).into_bits() == 256' % S),
            ('write_endian=big', '{ let mut q = %s::from_be_bits(0); q.write_bits(1); q.into_be_bits() == 1 }' % S),
            ('write_endian=little', '{ let mut q = %s::from_be_bits(0); q.write_bits(1); q.into_be_bits() == 256 }' % S)]


FLAGFACTS = [('from_endian=big', 'matches!(E::from_bits(0x0102), E::B)'), ('from_endian=little', 'matches!(E::from_bits(0x0201), E::B)'),
             ('into_endian=big', 'E::B.into_bits() == 0x0102'), ('into_endian=little', 'E::B.into_bits() == 0x0201')]


def impl_copy(root, name):
    """A copy of the macro crate under another name (so that several feature
    sets can be built at once)."""
    dst = '%s/%s/bitfields_impl' % (root, name)
    os.makedirs(os.path.dirname(dst))
    shutil.copytree(REPO + '/bitfields_impl', dst, ignore=shutil.ignore_patterns('target', 'tests'))
    if os.path.exists(REPO + '/README.md'):
        shutil.copy(REPO + '/README.md', os.path.dirname(dst))
    p = dst + '/Cargo.toml'
    t = open(p).read()
    t2 = re.sub(r'^name = "bitfields-impl"', 'name = "%s"' % name, t, count=1, flags=re.M)
    if t2 == t:
        raise ToolError('cannot rename the macro crate')
    open(p, 'w').write(t2)


def p22(run):
    from .runner import Background, model
    mc = Background(model, run, 'P22', spec='ApiMC', workers=3, consts={
        'Given': '2', 'Wide': 'TRUE' if run.thorough else 'FALSE'}, timeout=850)
    fac = Background(facade, run)
    rng = random.Random('P22-%d' % run.seed)
    k = 0
    while k == 0 or (run.thorough and run.left(600) > 0 and not run.violations):
        p22_round(run, rng, 20 if k == 0 else 32)
        k += 1
    fac.get()
    mc.get()


def some_args(rng, p=0.4):
    A = dict(NOARGS)
    for a in SWITCHES:
        if rng.random() < p:
            A[a] = rng.choice(['true', 'false'])
    for a in ENDIANS:
        if rng.random() < p:
            A[a] = rng.choice(['big', 'little'])
    if rng.random() < p:
        A['order'] = rng.choice(['lsb', 'msb'])
    return A


def p22_round(run, rng, count):
    sets = feature_sets(rng, count)
    root = run.work + '/p22'
    dep = ''
    shutil.rmtree(root + 'i', ignore_errors=True)
    for j, fs in enumerate(sets):
        impl_copy(root + 'i', 'impl%d' % j)
        dep += 'impl%d = { path = "%si/impl%d/bitfields_impl", default-features = false, features = [%s] }\n' % (
            j, root, j, ', '.join('"%s"' % f for f in fs))
    nb = 8
    rust.start_crate(root, 'probes', dep=dep, tail=''.join('[[bin]]\nname = "b%d"\npath = "src/b%d.rs"\n' % (b, b) for b in range(nb)))
    rust.write(root + '/src/support.rs', rust.SUPPORT)
    c = Crate(root)
    ds, where, traces = [], [], []

    def file(j, a):
        k = len(ds)
        a.d.nm = 'S%d' % k
        ds.append(a)
        where.append(j)
        return k, 'src/m%d.rs' % k
    plan = []
    for j, fs in enumerate(sets):
        for kind, A in [('int', NOARGS), ('arr', NOARGS)] + [(rng.choice(['int', 'arr', 'arr']), some_args(rng)) for _ in range(2)]:
            a = Api(rng, small(rng, kind, custom=False, ig=0.15), A)
            k, f = file(j, a)
            fa = inline_fact(a.d)
            plan.append((k, j, a, put_items(c, f, a, k, fa, 'use impl%d as bitfields; ' % j), [x for x, _ in fa]))
        for A in (NOARGS, some_args(rng, 0.5)):
            a = fact_decl(rng, {x: (v if x in ORDERS else '-') for x, v in A.items()})
            k, f = file(j, a)
            fa = order_facts(a.d)
            plan.append((k, j, a, put_items(c, f, a, k, fa, 'use impl%d as bitfields; ' % j), [x for x, _ in fa]))
    flags = []
    for j, fs in enumerate(sets):
        for A in ({x: '-' for x in FLAGARGS}, {x: rng.choice(['-'] + (['true', 'false'] if x == 'copy' else ['big', 'little'])) for x in FLAGARGS}):
            k = 1000 + len(flags)
            f = 'src/m%d.rs' % k
            given = ['%s = %s' % (x, v) for x, v in A.items() if v != '-']
            c.add(f, '#![allow(dead_code, unused)]\nuse impl%d as bitfields; use bitfields::bitflag;' % j)
            txt = '#[bitflag(%s)]\npub enum E { #[base] A = 1, B = 0x0102, C = 7 }' % ', '.join(['u16'] + given)
            c.add(f, txt)
            for it, x in FLAGFACTS:
                c.probe(f, 'const _: () = assert!(%s);' % x, (k, 'flag', it))
            for it in ('impl Copy', 'impl Clone'):
                c.probe(f, probe(it, 'E', '', '', 0 if it == 'impl Copy' else 1), (k, 'flag', it))
            flags.append((k, j, A, txt))
    allk = list(range(len(ds))) + [x[0] for x in flags]
    for b in range(nb):
        c.add('src/b%d.rs' % b, '#![recursion_limit = "512"]\nmod support; mod types { %s }\n' % decls.VALUES + ''.join(
            'mod m%d;\n' % k for k in allk if k % nb == b) + 'fn main() {}')
    c.write()
    gone = settle(run, c, root, {**dict(enumerate(ds)), **{k: Text(txt) for k, j, A, txt in flags}}, root + '/target')
    if gone is None:
        return
    failed, dead = gone
    for k, j, a, probed, facts in plan:
        if k in dead:
            continue
        e = [ev('items', a.A, sets[j], probed, [x for x in probed if (k, 'items', x) not in failed])]
        if facts:
            e.append(ev('facts', a.A, sets[j], facts, [x for x in facts if (k, 'facts', x) not in failed]))
        traces.append({'d': k, 'ev': e})
    ff = [x for x, _ in FLAGFACTS] + ['impl Copy', 'impl Clone']
    for k, j, A, txt in flags:
        if k not in dead:
            traces.append({'d': len(ds), 'ev': [ev('flag', A, sets[j], ff, [x for x in ff if (k, 'flag', x) not in failed])]})
    run.add('feature_sets', len(sets))
    tell(run, ds + [Text('a flag enum')], traces, extra=lambda t, e: ' with features %s and arguments %s' % (
        e['F'], {x: v for x, v in e['A'].items() if v != '-'}))
    shutil.rmtree(root, ignore_errors=True)
    shutil.rmtree(root + 'i', ignore_errors=True)


class Text:
    def __init__(self, t):
        self.t = t

    def text(self):
        return self.t

    def spec(self):
        return {'kind': 'int', 'unit': 'bits', 'ig': [], 'vis': 'pub', 'fields': []}


FACADE = ['order_msb', 'disable_debug', 'disable_new', 'from_endian_little']


def facade(run):
    """Known finding K1: the crate bitfields does not hand its features to the
    macro crate."""
    root = run.work + '/facade'
    rust.start_crate(root, 'facade', dep='bitfields = { path = "%s/bitfields", default-features = false, features = [%s] }' % (
        REPO, ', '.join('"%s"' % f for f in FACADE)), tail='[[bin]]\nname = "b"\npath = "src/b.rs"\n')
    rng = random.Random(1)
    a = fact_decl(rng, NOARGS)
    a.d.nm = 'S0'
    c = Crate(root)
    rust.write(root + '/src/support.rs', rust.SUPPORT)
    c.add('src/b.rs', '#![recursion_limit = "512"]\nmod support; mod types { %s } mod m0; fn main() {}' % decls.VALUES)
    fa = order_facts(a.d)
    probed = put_items(c, 'src/m0.rs', a, 0, fa)
    c.write()
    gone = settle(run, c, root, [a], root + '/target')
    if gone is None or gone[1]:
        return
    failed = gone[0]
    facts = [x for x, _ in fa]

    def traces(F):
        return [{'d': 0, 'ev': [ev('items', a.A, F, probed, [x for x in probed if (0, 'items', x) not in failed]),
                                ev('facts', a.A, F, facts, [x for x in facts if (0, 'facts', x) not in failed])]}]
    res = {}
    for nm, F in (('forwarded', FACADE), ('ignored', STD_DEFAULTS)):
        res[nm] = tlc.check_traces([a.spec()], traces(F), run.work + '/tlcf' + nm, spec='ApiTrace')[2]
    if not res['forwarded']:
        return
    if not res['ignored']:
        run.known.append('the facade crate bitfields does not forward its features to bitfields-impl (K1): %s selected on it have no effect' % ', '.join(FACADE))
        return
    r = res['forwarded'][0]
    run.violation('features %s of the crate bitfields: missing %s, unexpected %s' % (FACADE, sorted(r['missing']), sorted(r['extra'])),
                  declaration=a.text(), features=FACADE)


# ------------------------------------------------------------------ P23
VIS = {'none': '', 'pub': 'pub', 'crate': 'pub(crate)', 'super': 'pub(super)', 'in': 'pub(in crate::m{k})', 'self': 'pub(self)'}


def p23(run):
    from .runner import Background, model
    mc = Background(model, run, 'P23', spec='ApiMC', workers=3, consts={'Given': '3' if run.thorough else '2', 'Wide': 'TRUE'})
    rng = random.Random('P23-%d' % run.seed)
    k = 0
    while k == 0 or (run.thorough and run.left(600) > 0 and not run.violations):
        p23_round(run, rng, 64 if k == 0 else 100)
        k += 1
    mc.get()


def p23_round(run, rng, count):
    backs = decls.INTS + decls.ARRS[:9] + decls.ARRS[-2:] + decls.HEAPS[:4]
    ds = []
    for k in range(count):
        kind, nb, heap = backs[k % len(backs)]
        d = decls.gen(rng, kind, nb, heap, order=rng.choice(['lsb', 'msb']), p_res=0.2, p_def=0.35, p_acc=0.8,
                      style=rng.choice(['mix', 'bits', 'bytes']) if nb <= 4 else None, ig=0)
        d.new, d.copy, d.args, d.nm = True, True, [], 'S'
        for i in range(rng.choice([0, 0, 0, 1, 2])):
            d.ig.append(rng.choice(decls.IGCOPY))
            d.igpos.append(rng.randint(0, len(d.fields)))
            v = rng.choice(list(VIS))
            d.igvis[i] = (v, VIS[v].format(k=k))
        a = Api(rng, d, dict(NOARGS))
        a.attr = d.attr()
        a.viskey = list(VIS)[k % len(VIS)] if rng.random() < 0.7 else 'pub'
        a.vis = VIS[a.viskey].format(k=k)
        for f in d.fields:
            f.viskey = rng.choice(list(VIS)) if rng.random() < 0.65 else 'none'
            f.vis = VIS[f.viskey].format(k=k)
        ds.append(a)
    root = run.work + '/p23'
    shutil.rmtree(root, ignore_errors=True)
    target = root + '/target'
    clean, probes, other = root + '/decls', root + '/probes', root + '/other'
    texts = {}
    for k, a in enumerate(ds):
        texts[k] = ('#![allow(dead_code, unused, overflowing_literals, non_camel_case_types, private_interfaces, private_bounds)]\n'
                    'pub mod inner { use bitfields::{bitfield, bitflag}; use crate::support::*; use crate::types::*;\n'
                    + (a.text() if rng.random() < 0.6 else decls.fragments(rng.getrandbits(30), a.text())) + 'pub type T = S; pub type TB = SBuilder;')
    # 1. the declarations by themselves
    rust.start_crate(clean, 'declarations')
    lib = '#![recursion_limit = "512"]\n#![allow(dead_code, unused)]\npub mod support; pub mod types;\n'
    dead = {}
    for _ in range(4):
        rust.write(clean + '/src/support.rs', rust.SUPPORT)
        rust.write(clean + '/src/types.rs', decls.PRELUDE)
        for k in texts:
            rust.write(clean + '/src/m%d.rs' % k, '' if k in dead else texts[k] + '\n}\n')
        rust.write(clean + '/src/lib.rs', lib + ''.join('pub mod m%d;\n' % k for k in texts))
        rc, errs, err = cargo_json(clean, ['check'], target)
        if rc == 0:
            break
        if not errs:
            raise ToolError('cargo failed:\n' + err[-3000:])
        for pkg, file, line, code, text in errs:
            m = re.fullmatch(r'src/m(\d+)\.rs', file or '')
            if m and int(m.group(1)) not in dead:
                k = int(m.group(1))
                dead[k] = text
                run.violation('a valid declaration does not compile: %s: %s' % (
                    text.strip().splitlines()[0], ' '.join(ds[k].text().split())[:300]), declaration=ds[k].text(), compiler=text)
            elif file == 'src/types.rs':
                run.violation('the field types do not compile: ' + text.strip().splitlines()[0], compiler=text)
                return
            elif not m and file:
                raise ToolError('unexpected error at %s:%s\n%s' % (file, line, text))
    # 2. what can be named from each place
    rust.start_crate(probes, 'probes')
    rust.start_crate(other, 'other', dep='declarations = { path = "%s" }' % clean)
    c, o = Crate(probes), Crate(other)
    rust.write(probes + '/src/support.rs', rust.SUPPORT)
    rust.write(probes + '/src/types.rs', decls.PRELUDE)
    c.add('src/lib.rs', lib)
    o.add('src/lib.rs', '#![allow(dead_code, unused)]')
    probed = {}
    for k, a in enumerate(ds):
        if k in dead:
            continue
        names, impls, _ = universe(a.d)
        items = names + field_universe(a.d) + ['.ig%d' % i for i in range(len(a.d.ig))]
        outside = items + ['.0', '.val']
        probed[k] = {'inner': items, 'parent': outside, 'crate': outside, 'other': outside}
        f = 'src/m%d.rs' % k
        c.add('src/lib.rs', 'pub mod m%d;' % k)
        c.add(f, texts[k])
        for n, it in enumerate(items):
            c.probe(f, probe(it, 'T', 'TB', '', n), (k, 'inner', it))
        c.add(f, '}')
        for n, it in enumerate(outside):
            c.probe(f, probe(it, 'inner::T', 'inner::TB', '', n), (k, 'parent', it))
        for n, it in enumerate(outside):
            c.probe('src/lib.rs', probe(it, 'm%d::inner::T' % k, 'm%d::inner::TB' % k, '', k * 1000 + n), (k, 'crate', it))
            o.probe('src/lib.rs', probe(it, 'declarations::m%d::inner::T' % k, 'declarations::m%d::inner::TB' % k, '', k * 1000 + n), (k, 'other', it))
    c.write()
    o.write()
    failed = set()
    for cr, args in ((c, ['check']), (o, ['check'])):
        rc, errs, err = cargo_json(cr.root, args, target)
        if rc != 0 and not errs:
            raise ToolError('cargo failed:\n' + err[-3000:])
        bad, rest = cr.read(errs)
        if rest:
            raise ToolError('unexpected error at %s:%s %s\n%s' % rest[0])
        failed |= bad
    traces = []
    for k, a in enumerate(ds):
        if k not in dead:
            traces.append({'d': k, 'ev': [ev('seen', NOARGS, [], probed[k][p], [x for x in probed[k][p] if (k, p, x) not in failed], p)
                                          for p in ('inner', 'parent', 'crate', 'other')]})
    specs = [a.spec(a.viskey) for a in ds]
    for a, s in zip(ds, specs):
        a.spec = lambda s=s: s
    tell(run, ds, traces, extra=lambda t, e: ' from place ' + e['place'])
    shutil.rmtree(root, ignore_errors=True)
