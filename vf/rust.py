"""The harness crate: one Rust module per declaration with a dispatcher that
performs the calls of a script and prints what the real code did."""
import json
import os
import re
import shutil
import subprocess

from . import decls

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLCHAIN = 'nightly-2026-02-27'

SUPPORT = r'''#![allow(dead_code, unused)]
use std::panic::{catch_unwind, AssertUnwindSafe};
pub trait V: Sized { fn d(b: &[u8]) -> Self; fn e(&self) -> Vec<u8>; }
macro_rules! ints { ($($t:ty),*) => { $(impl V for $t {
    fn d(b: &[u8]) -> Self { let mut a = [0u8; core::mem::size_of::<$t>()]; let n = a.len().min(b.len()); a[..n].copy_from_slice(&b[..n]); <$t>::from_le_bytes(a) }
    fn e(&self) -> Vec<u8> { self.to_le_bytes().to_vec() }
})* } }
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
impl V for bool { fn d(b: &[u8]) -> Self { b[0] & 1 != 0 } fn e(&self) -> Vec<u8> { vec![*self as u8] } }
impl<const N: usize> V for [u8; N] {
    fn d(b: &[u8]) -> Self { let mut a = [0u8; N]; let n = N.min(b.len()); a[..n].copy_from_slice(&b[..n]); a }
    fn e(&self) -> Vec<u8> { self.to_vec() }
}
impl<T: V> V for Box<T> { fn d(b: &[u8]) -> Self { Box::new(T::d(b)) } fn e(&self) -> Vec<u8> { (**self).e() } }
// Ignored fields: 0 stands for the default of the type.
pub trait Ig { fn to(&self) -> i64; fn of(x: i64) -> Self; }
impl Ig for u8 { fn to(&self) -> i64 { *self as i64 } fn of(x: i64) -> Self { x as u8 } }
impl Ig for u32 { fn to(&self) -> i64 { *self as i64 } fn of(x: i64) -> Self { x as u32 } }
impl Ig for bool { fn to(&self) -> i64 { *self as i64 } fn of(x: i64) -> Self { x != 0 } }
impl Ig for f64 { fn to(&self) -> i64 { *self as i64 } fn of(x: i64) -> Self { x as f64 } }
impl Ig for String { fn to(&self) -> i64 { if self.is_empty() { 0 } else { self.parse().unwrap() } } fn of(x: i64) -> Self { x.to_string() } }
impl Ig for Vec<u16> { fn to(&self) -> i64 { self.first().copied().unwrap_or(0) as i64 } fn of(x: i64) -> Self { vec![x as u16, 3] } }
impl Ig for Option<u16> { fn to(&self) -> i64 { self.unwrap_or(0) as i64 } fn of(x: i64) -> Self { Some(x as u16) } }
impl Ig for (u8, i32) { fn to(&self) -> i64 { if self.0 as i32 == self.1 { self.1 as i64 } else { -1 } } fn of(x: i64) -> Self { (x as u8, x as i32) } }
impl Ig for Box<u32> { fn to(&self) -> i64 { **self as i64 } fn of(x: i64) -> Self { Box::new(x as u32) } }
impl Ig for [u16; 3] { fn to(&self) -> i64 { if self[0] == self[1] && self[1] == self[2] { self[0] as i64 } else { -1 } } fn of(x: i64) -> Self { [x as u16; 3] } }
#[derive(Clone, Copy, Debug, PartialEq)] pub struct D7(pub u32);
impl Default for D7 { fn default() -> Self { D7(7) } }
impl Ig for D7 { fn to(&self) -> i64 { self.0 as i64 - 7 } fn of(x: i64) -> Self { D7((x + 7) as u32) } }

pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return Vec::new(); }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    if b.is_empty() { return "-".to_string(); }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn p<T: V>(s: &str) -> T { T::d(&unhex(s)) }
pub fn n(s: &str) -> u32 { s.parse().unwrap() }
pub fn unit() -> String { "unit - -".into() }
pub fn val<T: V>(x: T) -> String { format!("val {} -", hex(&x.e())) }
pub fn vs(b: &[u8], k: &str) -> String { format!("{} {} -", k, hex(b)) }
pub fn res<E>(r: Result<(), E>) -> String { (if r.is_ok() { "ok - -" } else { "err - -" }).into() }
pub fn resv<T: V, E>(r: Result<T, E>) -> String { match r { Ok(x) => format!("ok {} -", hex(&x.e())), Err(_) => "err - -".into() } }
pub fn guard<F: FnOnce() -> String>(f: F) -> String {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(s) => s, Err(_) => "panic - -".into() }
}
pub fn main_loop(mut run: impl FnMut(usize, &[&str]) -> String) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut input = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut input).unwrap();
    let mut out = String::new();
    let mut cur = 0;
    for line in input.lines() {
        let c: Vec<&str> = line.split(' ').collect();
        if c[0] == "@" { cur = c[1].parse().unwrap(); }
        out.push_str(&run(cur, &c));
        out.push('\n');
        if out.len() > 1 << 16 { use std::io::Write; std::io::stdout().write_all(out.as_bytes()).unwrap(); out.clear(); }
    }
    use std::io::Write;
    std::io::stdout().write_all(out.as_bytes()).unwrap();
}
'''


def uname(d):
    return d.unit()


def en_fn(prefix, en, unit, suffix=''):
    e = {'def': '', 'le': 'le_', 'be': 'be_'}[en]
    return '%s_%s%s%s' % (prefix, e, unit, suffix)


# The private field of a bitfield with ignored fields.  Its name is not part of
# any property: when the compiler says that there is another one, that is used.
PRIVATE = 'val'


def private_name(text):
    m = re.search(r'no field (?:named )?`%s`' % PRIVATE, text)
    a = re.search(r'available fields? (?:are|is): (`\w+`(?:, `\w+`)*)', text)
    names = [x for x in re.findall(r'`(\w+)`', a.group(1)) if not re.fullmatch(r'ig\d+', x)] if m and a else []
    return names[0] if len(names) == 1 else None


def strip_raw(nm):
    return nm[2:] if nm.startswith('r#') else nm


def module(d, ops, extra=''):
    """The Rust module of declaration d, with a dispatcher for the operations
    in ops."""
    S, B = d.nm, d.backing()
    store = ('Box<%s>' if d.heap else '%s') % B
    raw = 's.' + PRIVATE if d.ig else '(*(s as *const %s as *mut %s))' % (S, store)
    box = 'Box::new(%s)' if d.heap else '%s'
    L = []
    w = L.append
    w('#![allow(dead_code, unused, overflowing_literals, non_camel_case_types, clippy::all)]')
    w('use bitfields::{bitfield, bitflag};')
    w('use crate::support::*; use crate::types::*;')
    w(d.source('build' in ops))
    if extra:
        w(extra)
    igc = ''.join(', ig%d: %s.ig%d.clone()' % (i, 's', i) for i in range(len(d.ig)))
    igd = ''.join(', ig%d: Default::default()' % i for i in range(len(d.ig)))
    if d.ig:
        w('fn mk(b: %s) -> %s { %s { %s: %s%s } }' % (B, S, S, PRIVATE, box % 'b', igd))
        w('fn dup(s: &%s) -> %s { %s { %s: s.%s.clone()%s } }' % (S, S, S, PRIVATE, PRIVATE, igc))
    else:
        # independent of the name of the private field
        w('fn mk(b: %s) -> %s { unsafe { core::mem::transmute::<%s, %s>(%s) } }' % (B, S, store, S, box % 'b'))
        w('fn dup(s: &%s) -> %s { unsafe { core::mem::transmute::<%s, %s>((*(s as *const %s as *const %s)).clone()) } }' % (S, S, store, S, S, store))
    w('thread_local! { static ST: std::cell::RefCell<Option<%s>> = std::cell::RefCell::new(None); }' % S)
    w('pub fn run(c: &[&str]) -> String { ST.with(|st| { let mut st = st.borrow_mut();')
    w('  if c[0] == "@" { *st = Some(mk(p::<%s>(c[2]))); return "unit - -".to_string(); }' % B)
    w('  let s: &mut %s = st.as_mut().unwrap();' % S)
    w('  let r = guard(|| call(s, c));')
    w('  format!("{} {} %s", r, hex(&unsafe { %s.e() })%s) }) }' % (
        ' '.join(['{}'] * len(d.ig)) or '-', raw, ''.join(', s.ig%d.to()' % i for i in range(len(d.ig)))))
    w('fn call(s: &mut %s, c: &[&str]) -> String { match c[0] {' % S)
    U = d.unit()

    def per_field(op, cond, body):
        w('  "%s" => match c[1] {' % op)
        for k, f in enumerate(d.fields):
            if cond(f):
                w('    "%d" => { %s }' % (k, body(f)))
        w('    _ => unreachable!() },')

    if 'inject' in ops:
        w('  "inject" => { unsafe { %s = %s; } unit() }' % (raw, box % ('p::<%s>(c[1])' % B)))
    if 'const' in ops:
        per_field('const', lambda f: f.builder(), lambda f: 'format!("val - {},{}", %s::%s_BITS, %s::%s_OFFSET)' % (
            S, strip_raw(f.nm).upper(), S, strip_raw(f.nm).upper()))
    if 'get' in ops:
        per_field('get', lambda f: f.getter(), lambda f: 'val::<%s>(s.%s())' % (f.rty, f.nm))
    if 'ginv' in ops:
        per_field('ginv', lambda f: f.getter(), lambda f: 'val::<%s>(s.%s_inverted())' % (f.rty, strip_raw(f.nm)))
    if 'set' in ops:
        per_field('set', lambda f: f.setter(), lambda f: 's.set_%s(p::<%s>(c[2])); unit()' % (strip_raw(f.nm), f.rty))
    if 'cset' in ops:
        per_field('cset', lambda f: f.setter(), lambda f: 'res(s.checked_set_%s(p::<%s>(c[2])))' % (strip_raw(f.nm), f.rty))
    if 'clearf' in ops:
        per_field('clearf', lambda f: f.setter(), lambda f: 's.clear_%s(); unit()' % strip_raw(f.nm))
    if 'clearfd' in ops:
        per_field('clearfd', lambda f: f.setter() and f.hd, lambda f: 's.clear_%s_to_default(); unit()' % strip_raw(f.nm))
    if 'invf' in ops:
        per_field('invf', lambda f: f.setter(), lambda f: 's.invert_%s(); unit()' % strip_raw(f.nm))
    if d.new:
        if 'new' in ops:
            w('  "new" => { *s = %s::new(); unit() }' % S)
        if 'newwo' in ops:
            w('  "newwo" => { *s = %s::new_without_defaults(); unit() }' % S)
    if 'deft' in ops:
        w('  "deft" => { *s = <%s as Default>::default(); unit() }' % S)
    if 'build' in ops:
        w('  "build" => { let mut b = match c[1] { "1" => %sBuilder::new(), "2" => <%sBuilder as Default>::default(), _ => %sBuilder::new_without_defaults() };' % (S, S, S))
        w('    let mut k = 2; let mut i = 1; while k < c.len() { match (c[k], c[k + 1]) {')
        for k, f in enumerate(d.fields):
            if f.builder():
                nm = strip_raw(f.nm)
                w('      ("%d", "0") => { b = b.with_%s(p::<%s>(c[k + 2])); }' % (k, nm, f.rty))
                w('      ("%d", "1") => { match b.checked_with_%s(p::<%s>(c[k + 2])) { Ok(x) => { b = x; } Err(_) => { return format!("err - {}", i); } } }' % (k, nm, f.rty))
        w('      _ => unreachable!() } k += 3; i += 1; }')
        w('    *s = b.build(); "ok - 0".to_string() }')
    if 'from' in ops:
        w('  "from" => { let x = p::<%s>(c[3]); *s = match (c[1], c[2]) {' % B)
        for en in ('def', 'le', 'be'):
            for wd in (0, 1):
                w('    ("%s", "%d") => %s::%s(x),' % (en, wd, S, en_fn('from', en, U, '_with_defaults' if wd else '')))
        w('    ("tr", _) => <%s as From<%s>>::from(x),' % (S, B))
        w('    ("tr2", _) => x.into(),')
        w('    _ => unreachable!() }; unit() }')
    if 'into' in ops:
        w('  "into" => { let s2 = dup(s); val::<%s>(match c[1] {' % B)
        for en in ('def', 'le', 'be'):
            w('    "%s" => s2.%s(),' % (en, en_fn('into', en, U)))
        w('    "tr" => <%s as From<%s>>::from(s2),' % (B, S))
        w('    "tr2" => s2.into(),')
        w('    _ => unreachable!() }) }')
    if d.kind == 'arr' and 'fslice' in ops:
        w('  "fslice" => { let x = unhex(c[4]); let x: &[u8] = &x; match (c[1], c[2], c[3]) {')
        for en in ('def', 'le', 'be'):
            for wd in (0, 1):
                fn = en_fn('from', en, 'slice', '_with_defaults' if wd else '')
                w('    ("%s", "%d", "0") => { *s = %s::%s(x); unit() }' % (en, wd, S, fn))
                w('    ("%s", "%d", "1") => match %s::checked_%s(x) { Ok(v) => { *s = v; "ok - -".into() } Err(_) => "err - -".into() },' % (en, wd, S, fn))
        w('    _ => unreachable!() } }')
    if d.kind == 'arr' and 'islice' in ops:
        w('  "islice" => { let mut x = unhex(c[3]); match (c[1], c[2]) {')
        for en in ('def', 'le', 'be'):
            fn = en_fn('into', en, 'slice')
            w('    ("%s", "0") => { s.%s(&mut x); vs(&x, "unit") }' % (en, fn))
            w('    ("%s", "1") => { let r = s.checked_%s(&mut x).is_ok(); vs(&x, if r { "ok" } else { "err" }) }' % (en, fn))
        w('    _ => unreachable!() } }')
    if 'write' in ops:
        w('  "write" => { let x = p::<%s>(c[3]); match (c[1], c[2]) {' % B)
        for en in ('def', 'le', 'be'):
            for wd in (0, 1):
                w('    ("%s", "%d") => s.%s(x),' % (en, wd, en_fn('write', en, U, '_with_defaults' if wd else '')))
        w('    _ => unreachable!() }; unit() }')
    if 'wdef' in ops:
        w('  "wdef" => { s.write_defaults(); unit() }')
    for op, t in (('sbit', 's.set_bit(n(c[1]), c[2] == "1"); unit()'), ('csbit', 'res(s.checked_set_bit(n(c[1]), c[2] == "1"))'),
                  ('gbit', 'val(s.get_bit(n(c[1])))'), ('cgbit', 'resv(s.checked_get_bit(n(c[1])))'),
                  ('srange', 's.set_%s_range(n(c[1]), n(c[2]), p::<%s>(c[3])); unit()' % (U, B)),
                  ('csrange', 'res(s.checked_set_%s_range(n(c[1]), n(c[2]), p::<%s>(c[3])))' % (U, B)),
                  ('grange', 'val::<%s>(s.get_%s_range(n(c[1]), n(c[2])))' % (B, U)),
                  ('cgrange', 'resv::<%s, _>(s.checked_get_%s_range(n(c[1]), n(c[2])))' % (B, U)),
                  ('clear', 's.clear_%s(); unit()' % U), ('clearwd', 's.clear_%s_with_defaults(); unit()' % U),
                  ('inv', 's.invert_%s(); unit()' % U),
                  ('debug', 'let x = if c[1] == "1" { format!("{:#?}", s) } else { format!("{:?}", s) }; format!("dbg {} -", hex(x.as_bytes()))')):
        if op in ops:
            w('  "%s" => { %s }' % (op, t))
    if d.ig and 'igset' in ops:
        w('  "igset" => { match c[1] {')
        for i in range(len(d.ig)):
            w('    "%d" => s.ig%d = Ig::of(c[2].parse().unwrap()),' % (i, i))
        w('    _ => unreachable!() }; unit() }')
    w('  _ => unreachable!("op") } }')
    return '\n'.join(L) + '\n'


def env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'UPDATE_DOCS', 'TRYBUILD', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR', 'RUSTC_WRAPPER',
              'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS'):
        e.pop(k, None)
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    return e


CARGO = '''[package]
name = "{name}"
version = "0.0.0"
edition = "2021"
publish = false
[dependencies]
{dep}
[workspace]
[profile.dev]
debug = 0
opt-level = 0
overflow-checks = true
incremental = false
'''


def dep_line():
    return 'bitfields = {{ path = "{}/bitfields" }}'.format(REPO)


class ToolError(Exception):
    pass


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def start_crate(root, name, dep=None, tail='', edition=2021):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root + '/src')
    write(root + '/Cargo.toml', CARGO.format(name=name, dep=dep or dep_line()).replace('2021', str(edition), 1) + tail)
    shutil.copy(REPO + '/Cargo.lock', root + '/Cargo.lock')


def cargo(root, args, target=None, timeout=800):
    cmd = ['cargo'] + args + ['--offline', '--message-format=json', '--target-dir', target or root + '/target']
    p = subprocess.run(cmd, cwd=root, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       timeout=timeout)
    msgs = []
    for line in p.stdout.splitlines():
        if line.startswith('{'):
            try:
                msgs.append(json.loads(line))
            except ValueError:
                pass
    return p.returncode, msgs, p.stderr


def errors(msgs):
    """(package, file, line, code, rendered message) of every compiler error"""
    out = []
    for m in msgs:
        if m.get('reason') != 'compiler-message':
            continue
        d = m['message']
        if d['level'] != 'error':
            continue
        spans = [s for s in d['spans'] if s['is_primary']] or d['spans']
        # climb out of macro expansions to the place in our file
        place = None
        for s in spans:
            t = s
            while t is not None:
                if t['file_name'].startswith('src/'):
                    place = (t['file_name'], t['line_start'])
                    break
                t = t['expansion']['span'] if t.get('expansion') else None
            if place:
                break
        code = d['code']['code'] if d.get('code') else ''
        out.append((m.get('package_id', ''), place[0] if place else None, place[1] if place else 0, code,
                    d.get('rendered') or d['message']))
    return out


class Harness:
    """Builds the declarations into nbins executables and runs scripts."""

    def __init__(self, root, ds, ops, nbins=8, extra=None):
        self.root, self.ds, self.ops, self.nbins = root, ds, ops, min(nbins, max(1, len(ds)))
        self.extra = extra or {}
        self.failed = {}        # declaration index -> compiler message

    def sources(self):
        for k, d in enumerate(self.ds):
            write(self.root + '/src/m%d.rs' % k, d.module() if hasattr(d, 'module') else module(d, self.ops, self.extra.get(k, '')))

    def build(self):
        global PRIVATE
        bins = [[k for k in range(len(self.ds)) if k % self.nbins == b] for b in range(self.nbins)]
        start_crate(self.root, 'harness', tail=''.join(
            '[[bin]]\nname = "b%d"\npath = "src/b%d.rs"\n' % (b, b) for b in range(self.nbins)))
        write(self.root + '/src/support.rs', SUPPORT)
        write(self.root + '/src/types.rs', decls.PRELUDE)
        self.sources()
        while True:
            for b, ks in enumerate(bins):
                ks = [k for k in ks if k not in self.failed]
                write(self.root + '/src/b%d.rs' % b, '#![recursion_limit = "512"]\nmod support; mod types;\n' + ''.join(
                    'mod m%d;\n' % k for k in ks) + 'fn main() { support::main_loop(|d, c| match d {\n' + ''.join(
                    '  %d => m%d::run(c),\n' % (k, k) for k in ks) + '  _ => unreachable!() }) }\n')
            rc, msgs, err = cargo(self.root, ['build', '--bins', '--keep-going'])
            if rc == 0:
                return
            names = set(n for n in (private_name(e[4]) for e in errors(msgs)) if n)
            if len(names) == 1:
                PRIVATE = names.pop()
                self.sources()
                continue
            new = 0
            other = []
            for pkg, file, line, code, text in errors(msgs):
                if file and file.startswith('src/m') and file[5:-3].isdigit():
                    k = int(file[5:-3])
                    if k not in self.failed:
                        self.failed[k] = text
                        new += 1
                elif file == 'src/types.rs':
                    self.failed.setdefault(-1, text)
                    other.append(text)
                else:
                    other.append(text)
            if -1 in self.failed:
                return
            if not new:
                raise ToolError('the harness does not build:\n' + ('\n'.join(other[:5]) or err[-3000:]))

    def run(self, lines_of):
        """lines_of: declaration index -> list of lines; returns the same shape
        with the output lines."""
        out = {}
        procs = []
        for b in range(self.nbins):
            ks = [k for k in sorted(lines_of) if k % self.nbins == b and k not in self.failed]
            if not ks:
                continue
            inp = ''.join(''.join(l + '\n' for l in lines_of[k]) for k in ks)
            p = subprocess.Popen([self.root + '/target/debug/b%d' % b], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, text=True, env=env())
            procs.append((ks, inp, p))
        import threading
        results = {}

        def go(i, inp, p):
            try:
                results[i] = p.communicate(inp, timeout=300)
            except subprocess.TimeoutExpired:
                p.kill()
                results[i] = (p.communicate()[0], 'timeout')
        ts = []
        for i, (ks, inp, p) in enumerate(procs):
            t = threading.Thread(target=go, args=(i, inp, p))
            t.start()
            ts.append(t)
        for t in ts:
            t.join()
        for i, (ks, inp, p) in enumerate(procs):
            got = results[i][0].splitlines()
            pos = 0
            for k in ks:
                cnt = len(lines_of[k])
                out[k] = got[pos:pos + cnt]
                pos += cnt
            if pos != len(got) or p.returncode != 0:
                # the process died: an abort or endless loop inside a call
                self.died = (results[i][1] or '')[-2000:]
        return out
