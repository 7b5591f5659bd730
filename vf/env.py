"""The same declarations in different surroundings (P26)."""
import random
import re

from . import accept, decls, flags, ops, scripts, tlc
from .consts import NOSTD_MAIN, nostd_text

EDITIONS = [2018, 2021, 2024, 2015]
HEAD = '#![allow(dead_code, unused_imports, non_camel_case_types, overflowing_literals, private_interfaces%s)]\n'
USE = 'use bitfields::{bitfield, bitflag}; use crate::types::*;\n'


class Case:
    """A declaration text in an environment."""
    def __init__(self, rng, text, heap, what, ig, std=True, edition=2021):
        self.text, self.heap, self.what, self.ig = text, heap, what, ig
        self.std, self.edition = std, edition
        self.unsafety = rng.choice(['allow', 'forbid'])
        self.warnings = rng.choice(['allow', 'deny', 'deny'])
        self.place = rng.choice(['module', 'module', 'function', 'macro'])
        near = [x for x in decls.NEIGHBOURS if rng.random() < rng.choice([0.2, 0.6])] if rng.random() < 0.7 else []
        # declarations name their field types and defaults through the scope
        self.near = [x for x in near if not re.search(r'\b(struct|trait|mod) (%s)\b' % '|'.join(['Bitfield'] + re.findall(r'\w+', text)), x)]
        self.seed = rng.getrandbits(30)

    def spec(self):
        return {'what': self.what, 'heap': self.heap}

    def env(self):
        return {'std': self.std, 'edition': self.edition, 'unsafety': self.unsafety, 'warnings': self.warnings, 'place': self.place,
                'names': [re.search(r'(mod|struct|trait|const|fn) (\w+)', x).group(2) for x in self.near]}

    def rust(self):
        head = HEAD % ('' if self.warnings == 'deny' else ', unused')
        if self.warnings == 'deny':
            head += '#![deny(warnings)]\n'
        if self.unsafety == 'forbid':
            head += '#![forbid(unsafe_code)]\n'
        use, text = USE + ('use crate::support::D7;\n' if self.std else ''), self.text
        if self.place == 'macro':
            text = decls.fragments(self.seed, text)
        text = '\n'.join(self.near) + '\n' + text
        if self.place == 'function':
            return head + 'pub fn place() {\n%s%s}\n' % (use, text)
        return head + use + text


def cases(rng, count, seed):
    ds = decls.pool(seed, count, p_ig=0.12, p_res=0.1, p_acc=0.3, p_def=0.4)
    fs = flags.pool(rng, count // 4)
    out = []
    for k, d in enumerate(ds):
        d.nm = 'S%d' % k
        y = EDITIONS[k % 4]
        lib = any(t in ('String', 'Vec<u16>', 'Box<u32>') for t in d.ig)
        out.append(Case(rng, d.rust(), d.heap, 'field', len(d.ig), True, y))
        if k % 3 == 0 and not lib:
            out.append(Case(rng, d.rust(), d.heap, 'field', len(d.ig), False, 2021))
    for k, f in enumerate(fs):
        out.append(Case(rng, f.text(), False, 'flag', 0, k % 3 != 0, EDITIONS[k % 4] if k % 3 else 2021))
    return out


STD = '#![recursion_limit = "512"]\npub mod support; pub mod types;\n'


def round_(run, rng, count, seed):
    from . import runner
    cs = cases(rng, count, seed)
    jobs, target = [], run.work + '/envtarget'
    for y in EDITIONS:
        part = [c for c in cs if c.std and c.edition == y]
        main = STD if y > 2015 else STD + 'extern crate bitfields;\n'
        jobs.append((part, runner.Background(accept.verdicts, run, [c.rust() for c in part], tag='e%d' % y, nb=2, head='', main=main, edition=y, target=target)))
    part = [c for c in cs if not c.std]
    jobs.append((part, runner.Background(accept.verdicts, run, [c.rust() for c in part], tag='nostd', nb=2, head='', types=nostd_text(),
                                         main=NOSTD_MAIN, tail='panic = "abort"\n', target=target)))
    traces, order = [], []
    for part, job in jobs:
        failed = job.get()
        if failed is None:
            return
        for k, c in enumerate(part):
            c.why = failed.get(k, '')
            traces.append({'d': len(order), 'ev': [{'env': c.env(), 'verdict': 'rejected' if k in failed else 'accepted'}]})
            order.append(c)
    s, g, rej = tlc.check_traces([c.spec() for c in order], traces, run.work + '/tlc', spec='EnvTrace')
    run.states += s
    run.transitions += g
    run.validated += len(traces) - len(rej)
    run.add('declarations_in_surroundings', len(order))
    for r in rej:
        c = order[traces[r['trace']]['d']]
        run.violation('%s (edition %d, %s, %s unsafe, %s warnings, next to %s): the compiler %s it, the specification says it is %s: %s' % (
            ' '.join(c.text.split())[:300], c.edition, c.place, c.unsafety, c.warnings, ', '.join(c.env()['names']) or 'nothing',
            'rejects' if c.why else 'accepts', r['expected'], runner.first_line(c.why)), declaration=c.rust(), env=c.env(), compiler=c.why)


OPS = ['get', 'set', 'cset', 'build', 'deft', 'new', 'newwo', 'from', 'into', 'fslice', 'islice', 'write', 'wdef', 'clear', 'clearwd', 'clearf', 'clearfd', 'inv',
       'invf', 'ginv', 'sbit', 'csbit', 'gbit', 'cgbit', 'srange', 'csrange', 'grange', 'cgrange', 'debug']


def behaviour(run, rng, count, seed):
    """The calls of declarations among other items mean what they mean alone."""
    from . import runner
    ds = decls.pool(seed, count, p_ig=0, ig=0, p_acc=0.3, p_def=0.4)
    for k, d in enumerate(ds):
        d.nm = 'S%d' % k
        d.near = rng.getrandbits(30)

    def script(rng, d, scale):
        ops_ = [o for o in OPS if d.kind == 'arr' or o not in ('fslice', 'islice')]
        return scripts.weave(rng, d, scripts.all_ops(rng, d, 120, ops_), 0.2)
    runner.traced_round(run, {'ops': OPS}, ds, rng, 1, tag='b', walks=0, script=script)


KNOWN = [('K6 a declaration next to functions named Ok and Err is rejected',
          'pub fn Ok() {} pub fn Err() {}\n#[bitfield(u8)]\npub struct S { #[bits(4)] a: u8, #[bits(4)] b: i8 }\n')]


def known(run):
    failed = accept.verdicts(run, [t for _, t in KNOWN], tag='known', nb=1)
    run.known += [what for k, (what, _) in enumerate(KNOWN) if failed is not None and k in failed]


def check(run):
    from .runner import Background, model
    mc = Background(model, run, 'P26', spec='EnvMC', workers=2)
    found = Background(known, run)
    rng = random.Random('P26-%d' % run.seed)
    k = 0
    while k == 0 or (run.thorough and run.left(600) > 0 and not run.violations):
        s = 'P26-%d-%d' % (run.seed, k)
        round_(run, rng, 96, s)
        behaviour(run, rng, 32, s + 'b')
        k += 1
    found.get()
    mc.get()
