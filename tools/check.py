#!/usr/bin/env python3
"""check.py <property>: builds the drivers from /repo, model checks the specification, executes behaviours of the model and
random scenarios on the real code and has TLC validate every recorded trace against the specification.
Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: a recorded execution is not a behaviour of
the specification.  Anything else (exit 2): the check itself failed."""
import copy, json, os, random, shutil, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, plan, props, runner, close, scale
from runner import Err

VERIF = build.VERIF
REPLAYS = os.path.join(VERIF, 'build', 'replays')


def sizes(T):
    return sum(len(t) for t in T)


# ---------------------------------------------------------------- rejections
def confirm(module, scens, i, tmp, whole):
    """a rejected scenario again, alone and then (if it is accepted alone) among the others; -> (trace, position, messages) or None"""
    for again in ([scens[i]], [scens[i]], scens if whole else None):
        if again is None:
            continue
        k = again.index(scens[i])
        t = runner.record(again)[k]
        path = os.path.join(tmp, 'again.ndjson')
        runner.write_trace(path, [t])
        st, n, msgs = runner.validate_file(module, path)
        if st == runner.REJECT:
            return t, n, msgs
    return None


def write_replay(pid, module, scen, trace, pos, msgs, seed, tier):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%s.json' % (pid, scen.name.replace('/', '_')))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'module': module, 'scenario': scen.name, 'seed': seed, 'tier': tier,
                   'ops': scen.ops, 'rejected_at': pos, 'rejected_event': trace[pos] if pos < len(trace) else None,
                   'messages': msgs, 'trace': trace}, f, indent=1)
    return path


def judge(pid, module, name, scens, tmp, seed, tier, stats):
    """execute and validate; -> list of confirmed rejections"""
    t0 = time.time()
    traces = runner.record(scens)
    t1 = time.time()
    v = runner.validate(module, traces, tmp)
    t2 = time.time()
    stats['jobs'].append({'what': name, 'specification': module, 'scenarios': len(scens), 'events': sizes(traces),
                          'traces_accepted': v.traces, 'executing_s': round(t1 - t0, 1), 'validating_s': round(t2 - t1, 1)})
    stats['accepted'] += v.traces
    stats['events'] += v.events
    bad = []
    for i, pos, msgs in v.rejected[:3]:
        c = confirm(module, scens, i, tmp, True)
        if c is None and pos < len(traces[i]) and traces[i][pos]['e'] != 'Hang':
            # what was recorded is what the code did, even if it does not do it every time
            c = traces[i], pos, msgs + ['(not rejected when executed again: the code does not always answer alike)']
        if c is None:
            raise Err('the rejection of %s at %d does not repeat: %s\n%s' % (scens[i].name, pos, msgs, json.dumps(traces[i][pos])[:2000]))
        t, pos, msgs = c
        bad.append((scens[i], t, pos, msgs, write_replay(pid, module, scens[i], t, pos, msgs, seed, tier)))
        break
    return bad, traces


# ---------------------------------------------------------------- does the validation reject what it should?
def leaves(x, path=()):
    """positions of recorded numbers (pairs of 32-bit words), integers and strings"""
    if isinstance(x, list) and len(x) == 2 and all(isinstance(y, int) and not isinstance(y, bool) for y in x) and any(abs(y) > 4096 for y in x):
        yield path, 'real'
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    elif isinstance(x, dict):
        for k, y in x.items():
            if k not in ('doc', 'key', 'e', 'h', 'h2', 'err', 'line', 'kind', 'rot', 'base', 'probe', 'cmp', 'vals', 'b', 'p', 'r', 'qs', 'bs', 'forces', 'args', 'f', 'form', 'what', 'mode'):
                yield from leaves(y, path + (k,))
    elif isinstance(x, bool):
        if path[-1] != 'ok':
            yield path, 'bool'
    elif isinstance(path[-1], int):
        pass            # a member of a list of ids or names, or half of a zero
    elif isinstance(x, int):
        yield path, 'int'
    elif isinstance(x, str) and path[-1] not in ('name', 'what'):
        yield path, 'str'


def corrupt(e, path, kind):
    import doc
    e = copy.deepcopy(e)
    o = e
    for k in path[:-1]:
        o = o[k]
    v = o[path[-1]]
    if kind == 'real':
        f = doc.unbits(v)
        o[path[-1]] = doc.bits(f + .25 + abs(f) * .25 if abs(f) < 1e300 else 1.0)
    elif kind == 'int':
        o[path[-1]] = v + 1
    elif kind == 'bool':
        o[path[-1]] = not v
    else:
        o[path[-1]] = v + '~'
    return e


def selftest(module, traces, r, tmp, n=8):
    """change one recorded answer and see whether the trace is still accepted; -> (rejected, tried)"""
    cand = {}
    for i, t in enumerate(traces):
        if len(t) > 400:
            continue
        for p, e in enumerate(t):
            if e['e'] in ('Begin', 'Destroy') or e.get('probe') == 'skip':
                continue
            for path, kind in leaves(e):
                cand.setdefault((e['e'], tuple(k for k in path if isinstance(k, str))), []).append((i, p, path, kind))
                break
    pick = []
    keys = sorted(cand)
    r.shuffle(keys)
    reals = [k for k in keys if any(c[3] == 'real' for c in cand[k])] or keys
    while len(pick) < n:
        for k in reals:
            c = r.choice(cand[k])
            i, p = c[0], c[1]
            all_ = list(leaves(traces[i][p]))
            path, kind = r.choice(all_)
            pick.append((i, p, path, kind))
            if len(pick) >= n:
                break

    def one(a):
        k, (i, p, path, kind) = a
        f = os.path.join(tmp, 'corrupt%d.ndjson' % k)
        runner.write_trace(f, [traces[i][:p] + [corrupt(traces[i][p], path, kind)] + traces[i][p + 1:]])
        st = runner.validate_file(module, f)[0]
        os.remove(f)
        return st == runner.REJECT, '%s.%s' % (traces[i][p]['e'], '.'.join(map(str, path)))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, enumerate(pick)))
    return [x for ok, x in res if ok], [x for ok, x in res if not ok]


# ---------------------------------------------------------------- known findings
def known(pid):
    """lines 'known: property=<id> scenario=<regular expression> event=<type> <what fails>' of known_findings.txt"""
    import re
    res = []
    for ln in open(VERIF + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) scenario=(\S+) event=(\S+) (.*)', ln)
        if m and m.group(1) == pid:
            res.append(m.groups()[1:])
    return res


def sample(traces, r):
    small = [t for t in traces if 2 < len(t) < 60] or traces
    t = r.choice(small)
    cut = lambda x: x if not isinstance(x, (list, dict)) or len(json.dumps(x)) < 400 else '(%d characters)' % len(json.dumps(x))
    return [{k: cut(v) for k, v in e.items()} for e in t[:12]]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    big = tier == 'thorough'
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vk')
    props.SCRATCH = tmp
    stats = {'jobs': [], 'accepted': 0, 'events': 0}
    bad, samples, self_ok, self_no = [], [], [], []
    try:
        build.core()
        run = plan.Run(pid, seed, big, tmp)
        plan.models(run)
        run.replay('random scenarios', props.TRACE[pid](seed, big) + close.scenarios(pid, seed, big) + scale.SCALE.get(pid, lambda *a: [])(seed, big), props.MODULE.get(pid, 'TinyfkTrace'))
        tests = []
        for module, name, scens in run.jobs:
            for lo in range(0, len(scens), 1500):
                b, traces = judge(pid, module, name, scens[lo:lo + 1500], tmp, seed, tier, stats)
                bad += b
                r = run.rand('sample', name, lo)
                samples.append({'from': name, 'events': sample(traces, r)})
                if not b and lo == 0:
                    tests.append((module, traces, name))
            if bad:
                break
        if not bad:
            per = {}
            for module, traces, name in tests:
                per[module] = per.get(module, []) + traces
            for module, traces in per.items():
                ok, no = selftest(module, traces, run.rand('self', module), tmp, 24 if big else 8)
                self_ok += ok
                self_no += no
            if len(self_ok) < len(self_no):
                raise Err('the validation accepts altered answers: %s (rejected: %s)' % (self_no, self_ok))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
              'coverage': {'states': run.states, 'transitions': run.transitions, 'traces_validated_against_impl': stats['accepted'],
                           'samples': samples[:4], 'events_validated': stats['events'], 'models': run.models, 'mistakes_refuted_by_TLC': run.refuted,
                           'executions': stats['jobs'], 'altered_answers_rejected': self_ok, 'altered_answers_accepted': self_no,
                           'notes': run.notes},
              'assumptions': ['TLC and the Java overrides of Num and FixRing compute what the modules say',
                              'the drivers of harness/ report what the library returned'],
              'wall_s': round(time.time() - t0, 1), 'violations': len(bad)}
        with open('%s/evidence/%s.json' % (VERIF, pid), 'w') as f:
            json.dump(ev, f, indent=1)
        kn = known(pid)
        code = 0
        for s, t, pos, msgs, path in bad:
            e = t[pos] if pos < len(t) else {}
            print('rejected: %s, event %d: %s' % (s.name, pos, json.dumps(e)[:700]))
            for m in msgs[:4]:
                print('   ', m[:700])
            print('VIOLATION property=%s replay=%s' % (pid, path))
            code = 1
        for pat, et, what in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
        if not bad:
            print('%s held: %d states and %d transitions of the specification, %d traces (%d events) of the real code, %.0f s' % (
                pid, run.states, run.transitions, stats['accepted'], stats['events'], time.time() - t0))
        return code
    except (Err, build.BuildError) as x:
        print('ERROR in the check: %s' % x)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
