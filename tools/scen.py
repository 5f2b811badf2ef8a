"""Scenarios: sequences of API calls, each with its driver line and the known half of its trace event."""
import re
from xml.sax.saxutils import escape, unescape
from doc import *


def hx(s):
    return 'x' + s.encode('utf-8').hex()


def hs(names):
    return ' '.join([str(len(names))] + [hx(n) for n in names])


def hd(v):
    return ' '.join(hexd(x) for x in v)


def rename(s, k):
    """another name of the same length; what is different stays different, what ends in _com does so"""
    stem = s.rstrip('_')
    stem = stem[:-4] if stem.endswith('_com') else s
    return ''.join(chr((ord(c) - 97 + k) % 26 + 97) if 'a' <= c <= 'z' else c for c in stem) + s[len(stem):]


def other(op, k):
    """the same call with other names and numbers"""
    line, ev, proc = op
    w = line.split(' ')
    ev = dict(ev) if ev else ev
    if w[0] in ('load', 'export'):
        named = lambda m: m.group(1) + escape(rename(unescape(m.group(2), {'&quot;': '"', '&apos;': "'"}), k), {'"': '&quot;'})
        w[2] = hx(re.sub(r'(\b(?:name|link|joint)=")([^"]*)', named, bytes.fromhex(w[2][1:]).decode('utf-8')))
        doc = json.loads(json.dumps(ev['doc']))
        doc['materials'] = [rename(m, k) for m in doc['materials']]
        for l in doc['links']:
            l['name'] = rename(l['name'], k)
        for j in doc['joints']:
            for f in ('name', 'parent', 'child'):
                j[f] = [rename(x, k) for x in j[f]]
        ev['doc'] = doc
        ev['key'] += '-%d' % k
    elif w[0] == 'loadfile':
        pass
    else:
        w = [w[0]] + [hx(rename(bytes.fromhex(t[1:]).decode('utf-8'), k)) if re.fullmatch('x([0-9a-f]{2})*', t) else t for t in w[1:]]
        if w[0] == 'add':
            ev['name'] = rename(ev['name'], k)
        if w[0] == 'lookup':
            ev['names'] = [rename(x, k) for x in ev['names']]
        if w[0] in ('setj', 'setq', 'add', 'setb'):
            for f in ('vals', 'p') + (('r',) if ev.get('kind') == 'rpy' and w[2] != 'norpy' else ()):
                if f in ev:
                    v = [unbits(x) for x in ev[f]]
                    ev[f] = bv([x + k / 1024 for x in v])
            n = sum(len(ev.get(f, [])) for f in ('vals', 'p', 'b', 'r'))
            at = len(w) - n if n else len(w)
            # in the order of the call: values, or position and then rotation
            for f in (['vals', 'b'] if 'vals' in ev else ['p', 'r']):
                for x in ev.get(f, []):
                    w[at] = hexd(unbits(x))
                    at += 1
    return ' '.join(w), ev, proc


class Scen:
    """one scenario: (driver line, known half of the event, process).  Processes named alike but for
    '#...' are shared between scenarios; 'core#x', 'py#x' are private to the scenario."""

    def __init__(self, name='', proc='core'):
        self.name = name
        self.ops = []
        self.proc = proc
        self.extra = {}
        self.used = set()
        self.thread = None
        self.times = 1
        self('begin', {'e': 'Begin'})

    def __call__(self, line, ev):
        if self.proc not in self.used:
            self.used.add(self.proc)
            if line != 'begin':
                self.ops.append(('begin', None, self.proc))
        if self.extra:
            ev = dict(ev, **self.extra)
            self.extra = {}
        if self.thread:
            self.waiting = True
        elif getattr(self, 'waiting', False):
            raise Exception('%s: threads are waiting' % self.name)
        if self.times > 1:
            line = 'times %d %s' % (self.times, line)
            self.times = 1
        self.ops.append(('@%s %s' % (self.thread, line) if self.thread else line, ev, self.proc))

    def together(self, handles):
        """what has been asked of threads happens now, at the same time"""
        self.thread = None
        self.waiting = False
        self.ops.append(('par ' + ' '.join(handles), None, self.proc))

    def on(self, proc):
        self.proc = proc
        return self

    def locale(self):
        """until the end of the scenario the process has a locale with decimal commas"""
        self('locale', None)

    def often(self, n):
        """the next call n times over: it is one that may be repeated, so its event is the same"""
        self.times = n
        return self

    def mark(self, **kw):
        """extra fields of the next event"""
        self.extra = kw
        return self

    def load(self, h, d, st=None, path=None, xml=None):
        ev = {'e': 'Load', 'h': h, 'doc': doc_json(d), 'key': key(d)}
        if path:
            self('loadfile %s %s' % (h, hx(path)), ev)
        else:
            xml = xml if xml is not None else d['path'] and open(d['path']).read() if d.get('path') else to_xml(d, st)
            self('load %s %s' % (h, hx(xml)), ev)

    def export(self, h, d, st=None, times=1, xml=None):
        xml = xml or (open(d['path']).read() if d.get('path') else to_xml(d, st))
        self('export %s %s %d' % (h, hx(xml), times), {'e': 'Export', 'h': h, 'doc': doc_json(d), 'key': key(d)})

    def names(self, h):
        self('names ' + h, {'e': 'Names', 'h': h})

    def lookup(self, h, kind, names):
        self('lookup %s %s %s' % (h, kind, hs(names)), {'e': 'Lookup', 'h': h, 'kind': kind, 'names': names})

    def setj(self, h, names, vals, mode='all'):
        self('setj %s %s %s %s' % (h, mode, hs(names), hd(vals)), {'e': 'SetJoints', 'h': h, 'vals': bv(vals), 'mode': mode})

    def setb(self, h, p, r, kind='rpy', mode='set'):
        self('setb %s %s %s %s %s' % (h, mode, kind, hd(p), hd(r)),
             {'e': 'SetBase', 'h': h, 'kind': kind, 'p': bv(p), 'r': bv(r)})

    def simple(self, h, op, e):
        self('%s %s' % (op, h), {'e': e, 'h': h})

    def reset(self, h): self.simple(h, 'reset', 'Reset')
    def clear(self, h): self.simple(h, 'clear', 'Clear')
    def mass(self, h): self.simple(h, 'mass', 'Mass')
    def com(self, h): self.simple(h, 'com', 'Com')
    def inertia(self, h): self.simple(h, 'inertia', 'Inertia')
    def destroy(self, h): self.simple(h, 'destroy', 'Destroy')

    def chain(self, n, order, kind):
        self('chain %d %s %s' % (n, order, kind), {'e': 'Chain', 'n': n, 'kind': kind})

    def mem(self, k):
        """what is held, at the end of the k-th round of the same calls"""
        self('mem', {'e': 'Mem', 'round': k})

    def rounds(self, n):
        """what has been asked so far, n times over with other names and numbers of the same length, each time looking
        at what is held in the end: what is kept for every name or number that ever came along shows as well"""
        ops = list(self.ops)
        self.mem(1)
        for k in range(2, n + 1):
            self.ops = self.ops + [other(o, k) for o in ops if o[0] != 'begin']
            self.mem(k)

    def getq(self, h, names):
        self('getq %s %s' % (h, hs(names)), {'e': 'GetQ', 'h': h})

    def pose(self, h, links):
        self('pose %s %s' % (h, hs(links)), {'e': 'Pose', 'h': h})

    def jac(self, h, link, joints, rot='none', base=False):
        self('jac %s %s %s %d %s' % (h, hx(link), rot, base, hs(joints)),
             {'e': 'Jac', 'h': h, 'rot': rot, 'base': 'floating' if base else 'fixed'})

    def comjac(self, h, joints, base=False):
        self('comjac %s %d %s' % (h, base, hs(joints)), {'e': 'ComJac', 'h': h, 'base': 'floating' if base else 'fixed'})

    def limits(self, h, joints):
        self('limits %s %s' % (h, hs(joints)), {'e': 'Limits', 'h': h})

    def add(self, h, name, parent, p, r, kind='rpy', mode='arr'):
        self('add %s %s %s %s %s %s %s' % (h, mode, hx(name), hx(parent), kind, hd(p), hd(r)),
             {'e': 'Add', 'h': h, 'name': name, 'kind': kind, 'p': bv(p), 'r': bv(r)})

    def copy(self, h, h2): self('copy %s %s' % (h, h2), {'e': 'Copy', 'h': h, 'h2': h2})
    def assign(self, h, h2): self('assign %s %s' % (h, h2), {'e': 'Copy', 'h': h, 'h2': h2})

    # ---- Python layer
    def pycopy(self, h, h2, kind='copy'):
        self('copy %s %s %s' % (h, h2, kind), {'e': 'Copy', 'h': h, 'h2': h2, 'kind': kind})

    def setq(self, h, joints, vals, base='fixed', b=(), form='array'):
        self('setq %s %s %s %s 1 %s' % (h, form, base, hs(joints), hd(list(vals) + list(b))),
             {'e': 'SetQ', 'h': h, 'base': base, 'vals': bv(vals), 'b': bv(b)})

    def getqv(self, h, joints, base='fixed'):
        self('getqv %s %s %s' % (h, base, hs(joints)), {'e': 'GetQVec', 'h': h, 'base': base})

    def poslimits(self, h, joints):
        self('poslimits %s %s' % (h, hs(joints)), {'e': 'PosLimits', 'h': h})

    def rows(self, qs, bs):
        return ' '.join([str(len(qs))] + [hd(list(q) + list(b)) for q, b in zip(qs, bs)])

    def solve(self, h, links, joints, qs, bs, rot='none', base='fixed', jac=True, form='array', cache=False):
        self('solve %s %s %s %s %d %d %s %s %s' % (h, form, base, rot, jac, cache, hs(links), hs(joints), self.rows(qs, bs)),
             {'e': 'Solve', 'h': h, 'rot': rot, 'base': base, 'jac': bool(jac), 'qs': [bv(q) for q in qs], 'bs': [bv(b) for b in bs]})

    def solvecom(self, h, joints, qs, bs, links=(), forces=(), base='fixed', jac=True, form='array', explicit=True):
        self('solvecom %s %s %s %d %d %s %s %s %s' % (h, form, base, jac, explicit, hs(links), hs(joints), hd(forces), self.rows(qs, bs)),
             {'e': 'SolveCom', 'h': h, 'base': base, 'jac': bool(jac), 'forces': bv(forces),
              'qs': [bv(q) for q in qs], 'bs': [bv(b) for b in bs]})

    def inertiaq(self, h, joints, vals):
        self('inertiaq %s %s %s' % (h, hs(joints), hd(vals)), {'e': 'InertiaQ', 'h': h, 'vals': bv(vals)})

    def misfit(self, h, call, joints, rows, base='fixed', links=(), form='array'):
        """rows (of any lengths) to a call; for 'forces' and 'addpos' the only row is those"""
        self('misfit %s %s %s %s %s %s %d %s' % (h, call, form, base, hs(links), hs(joints), len(rows), ' '.join('%d %s' % (len(v), hd(v)) for v in rows)),
             {'e': 'Misfit', 'h': h, 'call': call, 'base': base, 'widths': [len(v) for v in rows]})

    def sqd(self, h, pairs, joints, qs, bs, base='fixed', jac=True, form='array'):
        self('sqd %s %s %s %d %s %s %s %s' % (h, form, base, jac, hs([p[0] for p in pairs]), hs([p[1] for p in pairs]), hs(joints), self.rows(qs, bs)),
             {'e': 'SqDist', 'h': h, 'base': base, 'jac': bool(jac), 'qs': [bv(q) for q in qs], 'bs': [bv(b) for b in bs]})

    # ---- other machines
    def parsed(self, d, xml, path=None):
        self('parsed %d %s' % (bool(path), hx(path or xml)), {'e': 'Parsed', 'doc': full_json(d)})

    def reparsed(self, d, xml, times=1):
        self('reparsed %d %s' % (times, hx(xml)), {'e': 'Reparsed', 'doc': full_json(d)})

    def geo(self, f, *args):
        """args: vectors, or (position, quaternion) pairs"""
        flat = lambda a: [y for x in a for y in flat(x)] if isinstance(a, (list, tuple)) else [a]
        enc = lambda a: [enc(x) for x in a] if isinstance(a, (list, tuple)) else bits(a)
        self('geo %s %s' % (f, hd(flat(args))), {'e': 'Geo', 'f': f, 'args': enc(args)})

    def box(self, op, *args):
        """containers"""
        names = {'watch': ('Watch', 'on'), 'scopy': ('SCopy',), 'ccopy': ('CCopy',), 'snew': ('SNew', 'n'), 'spush': ('SPush', 'val'), 'spop': ('SPop',), 'sreset': ('SReset',), 'cnew': ('CNew', 'n'),
                 'cset': ('CSet', 'i', 'val'), 'cget': ('CGet', 'i'), 'cclear': ('CClear',), 'cextend': ('CExtend',)}[op]
        line = [op]
        ev = {'e': names[0]}
        for k, a in zip(names[1:], args):
            line.append(hexd(a) if k == 'val' else str(a))
            ev[k] = bits(a) if k == 'val' else a
        self(' '.join(line), ev)
