"""Runs scenarios on the real code and has TLC validate the recorded traces against the specification."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor
import build

VERIF = build.VERIF
SPEC = VERIF + '/spec'
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0',
           LC_ALL='C')


class Err(Exception):
    pass


# ------------------------------------------------------------------ executing scenarios
def command(proc):
    kind = proc.split('.')[0].split('#')[0]
    if kind == 'core':
        return [build.core()], ENV
    if kind == 'tsan':
        return [build.tsan()], dict(ENV, TSAN_OPTIONS='halt_on_error=1:report_signal_unsafe=0')
    d = build.python_package()
    stdcxx = subprocess.run(['g++', '-print-file-name=libstdc++.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    env = dict(ENV, HOME=d + '/home', PYTHONPATH=d + '/site', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', LD_PRELOAD=build.libasan() + ' ' + stdcxx, LC_ALL='C.UTF-8')
    return [build.PY, VERIF + '/harness/py_driver.py'], env


def execute(proc, lines, timeout):
    """-> (list of decoded output objects, 'ok' | 'crash' | 'hang', stderr)"""
    cmd, env = command(proc)
    try:
        p = subprocess.run(cmd, input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=timeout, env=env, errors='replace', cwd='/tmp')
        out, err, code, end = p.stdout, p.stderr, p.returncode, 'ok'
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode(errors='replace')
        err, code, end = '', 0, 'hang'
    res = []
    for ln in out.split('\n'):
        if ln.endswith('}'):
            try:
                res.append(json.loads(ln))
            except ValueError:
                break
        else:
            break
    if code == 3 or 'py_driver.py' in err and 'unknown op' in err:
        raise Err('driver error: ' + err)
    if end == 'ok' and (code != 0 or len(res) < len(lines)):
        end = 'crash'
        if not res and 'Sanitizer' not in err and code > 0:
            raise Err('driver does not start: ' + err[-2000:])
    return res, end, err


def run_group(proc, jobs, timeout):
    """jobs: per scenario a list of lines -> per scenario (outputs, how it ended, stderr)"""
    done = []
    while len(done) < len(jobs):
        rest = jobs[len(done):]
        res, end, err = execute(proc, [l for j in rest for l in j], timeout)
        k = 0
        before = len(done)
        for j in rest:
            part = res[k:k + len(j)]
            k += len(part)
            if len(part) == len(j):
                done.append((part, 'ok', ''))
            elif end == 'hang' and len(done) > before:
                break   # the time may have gone into the scenarios before; give this one its own
            else:
                done.append((part, end, err))
                break
    return done


def record(scens, timeout=60, chunk=None):
    """execute every scenario; -> list of event lists. A crash or hang becomes an event of its own."""
    lines = [{} for _ in scens]
    for i, s in enumerate(scens):
        for line, ev, proc in s.ops:
            lines[i].setdefault(proc, []).append(line)
    groups = {}
    for i, byproc in enumerate(lines):
        for proc in byproc:
            groups.setdefault((proc, i) if '#' in proc else (proc, i * 8 // len(scens)), []).append(i)
    for kind in {p.split('.')[0].split('#')[0] for p, _ in groups}:
        command(kind)   # build first
    with ThreadPoolExecutor(8) as ex:
        fut = {g: ex.submit(run_group, g[0], [lines[i][g[0]] for i in idx], timeout) for g, idx in groups.items()}
        out = [{} for _ in scens]
        for g, idx in groups.items():
            for i, r in zip(idx, fut[g].result()):
                out[i][g[0]] = r
    traces = []
    for i, s in enumerate(scens):
        evs, at = [], {}
        for line, ev, proc in s.ops:
            res, end, err = out[i][proc]
            k = at.get(proc, 0)
            if k >= len(res):
                evs.append({'e': 'Hang' if end == 'hang' else 'Crash', 'line': line[:300], 'err': err[:3000]})
                break
            at[proc] = k + 1
            if ev is not None:
                e = dict(ev or {}, **res[k])
                evs.append(e)
        traces.append(evs)
    return traces


# ------------------------------------------------------------------ TLC
def tlc(module, cfg=None, env=None, timeout=600, workers=1, opts=(), heap='2g', cwd=None):
    """-> (exit code, output). 124 on timeout."""
    meta = tempfile.mkdtemp(prefix='tlc')
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-Xmx' + heap, '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xss64m',
           '-cp', '%s:%s' % (build.java(), build.JARS), 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta,
           '-workers', str(workers), '-lncheck', 'final', '-config', cfg or module + '.cfg'] + list(opts) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=cwd or SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, env=dict(os.environ, **(env or {})), errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode(errors='replace')
    finally:
        shutil.rmtree(meta, ignore_errors=True)


ACCEPT, REJECT = 'accepted', 'rejected'


def validate_file(module, path, timeout=600):
    """-> (ACCEPT | REJECT, number of accepted events, messages)"""
    rc, out = tlc(module, env={'TRACE': path}, timeout=timeout, heap='3g')
    msgs = re.findall(r'^<<\s*"(?:REJECT|NOTE)".*?>>\s*$', out, re.M | re.S)
    n = re.search(r'"STOPPED", (\d+), "of", (\d+)', out)
    if rc == 0 and 'No error has been found' in out:
        return ACCEPT, None, msgs
    if n:
        return REJECT, int(n.group(1)) - 1, msgs
    depth = re.search(r'depth of the complete state graph search is (\d+)', out)
    if depth and 'The error occurred when TLC was evaluating the nested' in out and 'OutOfMemory' not in out:
        # the event has a shape that no step of the specification can even be compared with
        err = re.search(r'^Error: (.*?)The behavior up to', out, re.M | re.S)
        return REJECT, int(depth.group(1)) - 1, msgs + ['<<"REJECT", "not evaluable: %s">>' % (err.group(1).strip()[:300] if err else '')]
    raise Err('TLC failed (rc %s) on %s\n%s' % (rc, path, out[-3000:]))


def write_trace(path, traces):
    with open(path, 'w') as f:
        for t in traces:
            for e in t:
                f.write(json.dumps(e) + '\n')


class Validation:
    def __init__(self):
        self.traces = self.events = 0
        self.rejected = []      # (scenario index, position, messages)


def validate(module, traces, tmp, shards=8, timeout=800):
    """distribute the traces over parallel TLC runs"""
    v = Validation()
    idx = sorted(range(len(traces)), key=lambda i: -sum(len(json.dumps(e)) for e in traces[i]))
    bins = [[] for _ in range(min(shards, max(1, len(traces))))]
    load = [0] * len(bins)
    for i in idx:
        b = load.index(min(load))
        bins[b].append(i)
        load[b] += sum(len(json.dumps(e)) for e in traces[i])

    def one(b):
        path = os.path.join(tmp, 'shard%d-%s.ndjson' % (b, module))
        write_trace(path, [traces[i] for i in bins[b]])
        st, n, msgs = validate_file(module, path, timeout)
        os.remove(path)
        return st, n, msgs
    with ThreadPoolExecutor(len(bins)) as ex:
        results = list(ex.map(one, range(len(bins))))
    for b, (st, n, msgs) in enumerate(results):
        left = n
        for i in bins[b]:
            if st == ACCEPT or left >= len(traces[i]):
                v.traces += 1
                v.events += len(traces[i])
                if st == REJECT:
                    left -= len(traces[i])
            else:
                v.rejected.append((i, left, msgs))
                v.events += left
                break
    return v
