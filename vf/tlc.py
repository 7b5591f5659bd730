"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import threading

from .rust import VERIF, ToolError

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def run(spec, cfg, work, env=None, workers=2, heap='3g', timeout=800, extra=()):
    """Runs TLC on spec (a module of spec/) in the scratch directory work."""
    os.makedirs(work, exist_ok=True)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    meta = work + '/states'
    shutil.rmtree(meta, ignore_errors=True)
    tmp = os.path.abspath(work + '/tmp')
    os.makedirs(tmp, exist_ok=True)
    cmd = ['java', '-Djava.io.tmpdir=' + tmp, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m', '-cp', JARS, 'tlc2.TLC', '-config', cfg,
           '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE'] + list(extra) + [spec]
    try:
        p = subprocess.run(cmd, cwd=VERIF + '/spec', env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + spec)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
    return p.returncode, p.stdout


def counts(out):
    m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if not m:
        raise ToolError('TLC did not finish:\n' + out[-4000:])
    return int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))


def finished(out):
    return 'Model checking completed. No error has been found' in out


def rejects(out):
    """The REJECT lines of a trace check."""
    res = []
    for m in re.finditer(r'<<\s*"REJECT",\s*"((?:[^"\\]|\\.)*)"\s*>>', out):
        res.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return res


def weight(t):
    return sum(20 + (len(e['v']) if isinstance(e.get('v'), list) else 0) for e in t['ev'])


def check_traces(decls, traces, work, shards=8, spec='Trace', judged=False):
    """decls: list of declaration records; traces: [{'d': index, 'init', 'ev'}]
    with 0-based d.  Returns (states, transitions, rejections); a rejection
    carries the trace it belongs to."""
    os.makedirs(work, exist_ok=True)
    order = sorted(range(len(traces)), key=lambda k: -weight(traces[k]))
    parts = [[] for _ in range(max(1, min(shards, len(traces))))]
    load = [0] * len(parts)
    for k in order:
        j = load.index(min(load))
        parts[j].append(k)
        load[j] += weight(traces[k])
    res = [None] * len(parts)
    verdicts = {}

    def go(j):
        ks = parts[j]
        used = sorted(set(traces[k]['d'] for k in ks))
        idx = {d: n + 1 for n, d in enumerate(used)}
        path = '%s/traces%d.json' % (work, j)
        with open(path, 'w') as f:
            json.dump({'decls': [decls[d] for d in used],
                       'traces': [{n: x for n, x in dict(traces[k], d=idx[traces[k]['d']]).items() if n != 'calls'} for k in ks]}, f)
        try:
            rc, out = run(spec + '.tla', spec + '.cfg', '%s/tlc%d' % (work, j), env={'TRACES': path}, workers=1)
            g, n = counts(out)
            if not finished(out):
                raise ToolError('TLC failed:\n' + out[-4000:])
            rj = rejects(out)
            for r in rj:
                r['trace'] = ks[r['t'] - 1]
            if len(re.findall('REJECT', out)) != len(rj):
                raise ToolError('cannot read the rejections:\n' + out[-4000:])
            want = sum(len(traces[k]['ev']) + 1 for k in ks)
            if judged:
                js = re.findall(r'<<"JUDGED", "([^"]*)">>', out)
                if len(js) != len(ks):
                    raise ToolError('TLC judged %d of %d' % (len(js), len(ks)))
                for x in js:
                    verdicts[x] = verdicts.get(x, 0) + 1
            elif not rj and n != want:
                raise ToolError('TLC visited %d states, expected %d' % (n, want))
            res[j] = (n, g, rj)
        except Exception as ex:     # noqa
            res[j] = ex
        finally:
            if os.path.exists(path):
                os.remove(path)
    ts = [threading.Thread(target=go, args=(j,)) for j in range(len(parts))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    states = trans = 0
    rej = []
    for r in res:
        if isinstance(r, Exception):
            raise r
        states += r[0]
        trans += r[1]
        rej += r[2]
    return (states, trans, rej, verdicts) if judged else (states, trans, rej)
