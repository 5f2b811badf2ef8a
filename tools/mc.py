"""Model checking with TLC: what is checked for which property, and the variants TLC has to refute."""
import json, os, re, tempfile, time
import runner
from runner import Err, SPEC, tlc


def make_cfg(base, dest, invariants=None, properties=None, consts=None, extra=(), spec=None):
    """a copy of a configuration with other invariants, properties and constants"""
    text = open('%s/%s.cfg' % (SPEC, base)).read()
    m = re.match(r'(?s)(.*?)\nINVARIANTS?\b\s*(.*?)(?:\nPROPERT(?:Y|IES)\s+(.*))?$', text.strip())
    head, inv, prop = m.group(1), m.group(2).split(), (m.group(3) or '').split()
    for k, v in (consts or {}).items():
        new, n = re.subn(r'(?m)^(\s*%s\s*)(=|<-).*$' % re.escape(k), lambda x: x.group(1) + v, head)
        head = new if n else head.replace('CONSTANTS', 'CONSTANTS\n  %s %s' % (k, v), 1)
    if spec:
        head = re.sub(r'(?m)^SPECIFICATION .*$', 'SPECIFICATION ' + spec, head)
    inv = inv if invariants is None else invariants
    prop = prop if properties is None else properties
    out = head + '\n' + ''.join('INVARIANT %s\n' % i for i in inv) + ''.join('PROPERTY %s\n' % p for p in prop) + '\n'.join(extra) + '\n'
    with open(dest, 'w') as f:
        f.write(out)
    return dest


def counts(out):
    m = re.findall(r'^(\d+) states generated, (\d+) distinct states found, 0 states left', out, re.M)
    return (int(m[-1][1]), int(m[-1][0])) if m else None


def explore(module, tmp, timeout=800, workers=8, heap='12g', **kw):
    """all reachable states -> (distinct states, states generated, TLC output); an error anywhere is an Err"""
    cfg = make_cfg(module, '%s/%s-%d.cfg' % (tmp, module, time.time_ns()), **kw)
    rc, out = tlc(module, cfg=cfg, workers=workers, timeout=timeout, heap=heap)
    c = counts(out)
    if rc != 0 or not c or not c[0] or 'No error has been found' not in out:
        raise Err('the specification %s does not satisfy what it is checked for (rc %s)\n%s' % (module, rc, out[-3000:]))
    return c[0], c[1], out


def refuted(module, tmp, timeout=400, workers=2, heap='3g', **kw):
    """TLC must find an error; -> what it says"""
    cfg = make_cfg(module, '%s/%s-%d.cfg' % (tmp, module, time.time_ns()), **kw)
    rc, out = tlc(module, cfg=cfg, workers=workers, timeout=timeout, heap=heap)
    m = re.search(r'^Error: ((?:Invariant|Action property|Temporal properties).* (?:is|were) violated.*|Invariant \S+ is violated.*|The (?:first|invariant).*|.*[Aa]ttempted to.*|In evaluation.*|Evaluating.*)$', out, re.M)
    if rc in (0, 124) or not m:
        raise Err('a mistake that has to be found is not: %s %s (rc %s)\n%s' % (module, kw, rc, out[-1500:]))
    return m.group(1)


def printed(out, tag):
    """values printed with PrintT(<<tag, json>>), decoded"""
    res = []
    for m in re.finditer(r'^<<"%s", "(.*)">>$' % tag, out, re.M):
        res.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
    return res
