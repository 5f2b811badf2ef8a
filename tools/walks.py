"""Behaviours of the model-checked specifications, as scenarios for the real code.
Lengths in the model are multiples of 1/16, angles are quarter turns."""
import doc, itertools, json, math, random, re
from collections import defaultdict, deque
from doc import PI, Raw, nested, to_xml
from scen import Scen

U = 16.0
Q = PI / 2
ROT = ('none', 'rpy', 'xyzw')


def length(v):
    return [x / U for x in v] if isinstance(v, list) else v / U


def turn(v):
    return [x * Q for x in v] if isinstance(v, list) else v * Q


def mc_origin(o):
    return None if not o else ((length(o[0]['xyz'][0]) if o[0]['xyz'] else None), (turn(o[0]['rpy'][0]) if o[0]['rpy'] else None))


def mc_doc(d):
    """content in the model -> content as the generators have it"""
    one = lambda x, f=lambda y: y: f(x[0]) if x else None
    return {'name': 'r',
            'links': [{'name': l['name'], 'inertial': one(l['inertial'], lambda i: {
                'mass': length(i['mass']), 'origin': mc_origin(i['origin']), 'I': length(i['I'])})} for l in d['links']],
            'joints': [{'name': one(j['name']), 'type': one(j['type']), 'parent': one(j['parent']), 'child': one(j['child']),
                        'origin': mc_origin(j['origin']), 'axis': one(j['axis'], length),
                        'limit': one(j['limit'], lambda m: {k: one(m[k], length) for k in ('lower', 'upper', 'effort', 'velocity')})}
                       for j in d['joints']]}


LOADED = '{"syntax": "ok", "robot": true, "version": "none", "materials": [], "unnamed": 0, "links": [{"name": "b", "inertial": []}, {"name": "a", "inertial": []}], "joints": [{"name": ["k"], "type": ["fixed"], "parent": ["b"], "child": ["a"], "origin": [], "axis": [], "limit": [], "lex": false}]}'


def loader_doc(d):
    """a description of Loader.tla, valid or not -> (content, XML)"""
    x = mc_doc(d)
    if not d['robot']:
        x.update(root_tag='robots', robot=False)
    if d['version'] != 'none':
        x['version'] = d['version']
    x['materials'] = [{'name': m, 'color': [0.0, 0.5, 1.0, 1.0]} for m in d['materials']]
    x['unnamed'] = d['unnamed']
    for j, o in zip(x['joints'], d['joints']):
        if o['lex']:
            j.update(raw_origin=[('xyz', Raw('1 2'))], lex=True)
    if d['syntax'] == 'ok':
        return x, None
    x['syntax'] = d['syntax']
    if d['syntax'] == 'deep':
        return x, to_xml(x).replace('</robot>', nested(40000) + '</robot>')
    return x, '' if d['syntax'] == 'empty' else to_xml(x).rstrip()[:-3]


def rigid_pose(x):
    """a transform of Rigid.tla: (position, quaternion)"""
    return length(x['p']), [c / math.sqrt(2.0 ** x['k']) for c in x['q']]


def owner_walk(name, walks):
    """from nothing back to nothing, over and over"""
    s = Scen(name)
    n = 0
    for walk in walks:
        live = set()
        for o in walk:
            if o['do'] == 'start':
                continue
            if o['do'] == 'load':
                js = [{'name': 'j%d' % i, 'type': 'continuous' if i % 2 else 'fixed', 'parent': p, 'child': c, 'origin': None, 'axis': None, 'limit': None}
                      for i, (p, c) in enumerate(o['joints'])]
                d = {'name': 'r', 'joints': js, 'links': [{'name': l, 'inertial': {'mass': 1.0, 'origin': None, 'I': [1.0, 0.0, 0.0, 1.0, 0.0, 1.0]}
                                                           if l in o['inertial'] else None} for l in sorted(o['links'])]}
                s.load('m1', d)
                live = {1} if o['ok'] else set()
                added = {}
            elif o['do'] == 'copy':
                s.copy('m%d' % o['h'], 'm%d' % o['g'])
                live.add(o['g'])
            elif o['do'] == 'add':
                kind, p = o['p']
                n += 1
                at = {'link': p, 'com': '%s_com' % p, 'added': added.get(p)}[kind]
                added[o['k']] = 'x%d' % n
                s.add('m%d' % o['h'], 'x%d' % n, at, [0.5, 0.0, 1.0], [0.0, Q, 0.0])
            else:
                s.destroy('m%d' % o['h'])
                live.discard(o['h'])
        for h in sorted(live):
            s.destroy('m%d' % h)
    s.rounds(4)
    return s


def store_walk(name, walk, watch):
    s = Scen(name)
    s.box('watch', int(watch))
    s.box('snew', 0)
    s.box('cnew', 0)
    for o in walk:
        a = [o['n']] if 'n' in o else []
        if o['do'] in ('cset', 'cget'):
            a = [o['i'] - 1]
        if o['do'] in ('spush', 'cset'):
            a.append(float(o['v']))
        s.box(o['do'], *a)
    return s


# ---------------------------------------------------------------- the engine's state graph
class Graph:
    def __init__(self, edges):
        """edges: (state, op, state)"""
        self.out = defaultdict(dict)
        for a, op, b in edges:
            self.out[a][op] = b
        self.size = sum(len(x) for x in self.out.values())

    @staticmethod
    def parse(out):
        es = []
        for m in re.finditer(r'^<<"EDGE", (-?\d+), "(.*)", (-?\d+)>>$', out, re.M):
            es.append((m.group(1), m.group(2).replace('\\"', '"').replace('\\\\', '\\'), m.group(3)))
        return Graph(es)

    def cover(self, start, r, length=400, want=None):
        """walks from start that take every transition (or those in want, a number) at least once"""
        todo = {(a, o) for a in self.out for o in self.out[a]}
        if want is not None and want < len(todo):
            todo = set(r.sample(sorted(todo), want))
        left = defaultdict(list)
        for a, o in sorted(todo):
            left[a].append(o)
        for a in left:
            r.shuffle(left[a])
        count = len(todo)
        walks = []
        while count:
            at, walk = start, []
            while count and len(walk) < length:
                if left.get(at):
                    o = left[at].pop()
                    count -= 1
                    walk.append((o, self.out[at][o]))
                    at = self.out[at][o]
                    continue
                path = self.nearest(at, left)
                if path is None:
                    break
                walk += path
                at = path[-1][1] if path else at
            if not walk:
                break
            walks.append(walk)
        return walks, count

    def nearest(self, at, left):
        prev = {at: None}
        todo = deque([at])
        while todo:
            a = todo.popleft()
            if left.get(a):
                path = []
                while prev[a] is not None:
                    b, o = prev[a]
                    path.append((o, a))
                    a = b
                return path[::-1]
            for o, b in self.out[a].items():
                if b not in prev:
                    prev[b] = (a, o)
                    todo.append(b)
        return None


def engine_step(s, op, docs, n, last):
    """one operation of the engine model on the real code; last: what is known of each handle's description"""
    do, h = op['do'], op.get('h')
    if do == 'load':
        last[h] = docs[op['d'] - 1]
        s.load(h, last[h])
    elif do == 'setj':
        s.setj(h, [op['j']], [turn(op['v']) if op['spin'] else length(op['v'])], op['mode'])
    elif do == 'setb':
        s.setb(h, length(op['b'][:3]), turn(op['b'][3:]), 'rpy', op['mode'])
    elif do == 'add':
        s.add(h, op['name'], op['parent'], [0.0, 1.0, 1.0], [Q, 0.0, 0.0], 'rpy', ('arr', 'tf')[n % 2])
    elif do in ('copy', 'assign'):
        last[op['h2']] = last[h]
        getattr(s, do)(h, op['h2'])
    elif do == 'pose':
        s.pose(h, [op['link']])
    elif do in ('jac', 'comjac'):
        js = [j['name'] for j in last[h]['joints'] if j['type'] != 'fixed']
        if do == 'jac':
            s.jac(h, op['link'], js, ROT[n % 3], n % 4 != 0)
        else:
            s.comjac(h, js, n % 2 == 0)
    else:
        getattr(s, do)(h)       # reset clear destroy com inertia


CHANGES = ('load', 'setj', 'setb', 'reset', 'add', 'copy', 'assign')


def engine_walk(name, walk, docs, pid=''):
    s = Scen(name)
    last = {}
    for n, o in enumerate(walk):
        engine_step(s, o, docs, n, last)
        if pid == 'K18' and o['do'] in CHANGES:
            for h in sorted({o['h'], o.get('h2', o['h'])} & set(last)):
                s.getq(h, [j['name'] for j in last[h]['joints'] if j['type'] != 'fixed'][::-1 if n % 2 else 1])
        if pid in ('K07', 'K08') and o['do'] in CHANGES:
            s.names(o.get('h2', o['h']))
    return s


def engine_docs(out, tag):
    m = re.search(r'^<<"%s", "(.*)">>$' % tag, out, re.M)
    return [mc_doc(x['doc']) for x in json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\'))]


def simulated(files):
    """the op sequences of TLC's simulation files"""
    for f in files:
        ops = []
        for m in re.finditer(r'^/\\ op = (\[.*?\])\s*(?=^/\\|^STATE|^\s*$|\Z)', open(f).read(), re.M | re.S):
            o = tla_record(m.group(1))
            if o['do'] != 'init':
                ops.append(o)
        yield ops


def tla_record(t):
    t = re.sub(r'\s+', ' ', t)
    t = t.replace('<<', '(').replace('>>', ')')
    t = re.sub(r'(\w+) \|->', r'"\1":', t)
    t = t.replace('[', '{').replace(']', '}').replace('(', '[').replace(')', ']')
    t = re.sub(r'\bTRUE\b', 'true', re.sub(r'\bFALSE\b', 'false', t))
    return json.loads(t)


# ---------------------------------------------------------------- materials
def paint_doc(d):
    mat = lambda m: {'name': m['name'], 'color': [x / 8 for x in m['color'][0]] if m['color'] else None, 'texture': m['texture'][0] if m['texture'] else None}
    names = [l['name'] for l in d['links']]
    return {'name': 'r', 'materials': [mat(m) for m in d['materials']],
            'links': [{'name': l['name'], 'inertial': None,
                       'visuals': [{'name': None, 'origin': None, 'geom': {'shape': 'sphere', 'dims': [1.0 + n]},
                                    'material': mat(v['material'][0]) if v['material'] else None} for n, v in enumerate(l['visuals'])]}
                      for l in d['links']],
            'joints': [{'name': 'j', 'type': 'fixed', 'parent': names[0], 'child': names[1], 'origin': None, 'axis': None, 'limit': None}]}


# ---------------------------------------------------------------- optional parts (Parts)
def parts_doc(docs, r):
    """several documents of Parts side by side in one description; 2 stands for any number but 0 and 1"""
    def val(x):
        while x == 2:
            v = doc.figure(r)
            if v not in (0.0, 1.0):
                return v
        return float(x)
    links, joints = [{'name': 'base', 'inertial': None}], []
    for n, d in enumerate(docs):
        for m, e in enumerate(d):
            k, at = e['kind'], {a: v[0] if v else None for a, v in e['at'].items()}
            nums = {a: None if v is None else val(v) for a, v in at.items() if a not in ('xyz', 'rpy', 'name')}
            l = {'name': 'l%d_%d' % (n, m), 'inertial': None}
            j = {'name': 'j%d_%d' % (n, m), 'type': 'continuous', 'parent': 'base', 'child': l['name'], 'origin': None, 'axis': None, 'limit': None}
            if k == 'limit':
                j['type'] = r.choice(['revolute', 'prismatic', 'continuous', 'fixed', 'planar', 'floating'])
                j['limit'] = nums
            elif k in ('dynamics', 'calibration', 'mimic', 'safety'):
                j['safety_controller' if k == 'safety' else k] = dict({'joint': 'j0_0'} if k == 'mimic' else {}, **{a: v for a, v in nums.items() if v is not None})
            elif k == 'mesh':
                mk = lambda: {'name': 'n%d' % m if at['name'] else None, 'origin': None, 'material': None,
                              'geom': {'shape': 'mesh', 'file': 'm.stl', 'dims': [nums[c] for c in 'xyz'] if at['x'] is not None else []}}
                l = links[-1] if m else l        # both at one link
                l.setdefault('visuals', []).append(mk())
                l.setdefault('collisions', []).append(mk())
            else:
                o = lambda: (doc.vec3(r) if at['xyz'] else None, [doc.angle(r), r.uniform(-1.5, 1.5), doc.angle(r)] if at['rpy'] else None)
                j['origin'] = o()
                l['inertial'] = {'mass': 1.0, 'origin': o(), 'I': [1.0, 0.0, 0.0, 1.0, 0.0, 1.0]}
                l['visuals'] = [{'name': None, 'origin': o(), 'geom': {'shape': 'sphere', 'dims': [1.0]}, 'material': None}]
                l['collisions'] = [{'name': None, 'origin': o(), 'geom': {'shape': 'box', 'dims': [1.0, 2.0, 3.0]}}]
            if l is not links[-1]:
                links.append(l)
                joints.append(j)
    return {'name': 'r', 'links': links, 'joints': joints}


# ---------------------------------------------------------------- one robot, written in many ways
def writing_scen(name, docs, pid):
    s = Scen(name)
    for n, d in enumerate(docs):
        js = [j['name'] for j in d['joints'] if j['type'] != 'fixed']
        if pid == 'K21':
            s.export('h', d, times=1 + n % 3)
        else:
            s.load('h', d)
        s.names('h')
        if js:
            s.limits('h', js[::-1] if n % 2 else js)
        if pid == 'K11':
            continue
        for k in range(2):
            if js:
                s.setj('h', js, [turn(n + i + k) if j['type'] != 'prismatic' else 1.0 + n
                                 for i, j in enumerate(j for j in d['joints'] if j['type'] != 'fixed')])
            s.setb('h', [1.0, 0.0, k], turn([k, 0, n]))
            s.pose('h', [l['name'] for l in d['links']])
            s.jac('h', 'z', js, ROT[n % 3], True)
        if any(l['inertial'] for l in d['links']):
            s.mass('h')
            s.com('h')
            s.inertia('h')
    return s


# ---------------------------------------------------------------- the calls of the Python layer
def calls_walk(name, walk, doc, tables, pid):
    s = Scen(name, 'py')
    jn = ['i', 'k']
    ln = ['a', 'b', 'r', 'a_com']
    val = lambda ids, q: [turn(v) if i else length(v) for i, v in zip(ids, q)]
    coords = lambda base, b: length(b[:2]) + turn(b[2:]) if base == 'planar' else length(b[:3]) + turn(b[3:])
    for n, o in enumerate(walk):
        do = o['do']
        if do == 'load':
            s.load('h', doc)
        elif do == 'setq':
            c = tables['SETS'][o['n'] - 1]
            s.setq('h', [jn[i] for i in c['ids']], val(c['ids'], c['q']), c['base'], coords(c['base'], c['b']), ('array', 'list')[n % 2])
        elif do == 'inertiaq':
            s.inertiaq('h', [jn[i] for i in o['ids']], val(o['ids'], o['q']))
        elif do == 'getq':
            s.getqv('h', jn[::(1, -1)[n % 2]], o['base'])
        elif do == 'clear':
            s.clear('h')
        elif do == 'misfit':
            c = tables['MISFITS'][o['n'] - 1]
            k = len(c['ids'])
            rows = [[turn(v) if i else length(v) for i, v in zip(c['ids'], q)] + [float(v) / 4 for v in q[k:]] for q in c['rows']]
            call = ('solve', 'sqd', 'solvecom')[n % 3] if c['call'] == 'batch' else c['call']
            s.misfit('h', call, [jn[i] for i in c['ids']], rows, c['base'], ['a', 'b'], ('array', 'list', 'lists')[n % 2 if call == 'solve' else n // 3 % 3])
            # what the refused call may have left behind shows
            s.getqv('h', jn, 'floating')
            s.solve('h', ln, [], [[]], [[]])
        else:
            c = tables['CALLS'][o['n'] - 1]
            js = [jn[i] for i in c['ids']]
            qs, bs = [val(c['ids'], q) for q in c['qs']], [coords(c['base'], b) for b in c['bs']]
            ls = [ln[i] for i in c['links']]
            what = {'K15': 'sqd', 'K16': 'com', 'K10': 'solve', 'K14': 'solve'}.get(pid, ('solve', 'sqd', 'com')[n % 3])
            if what == 'sqd':
                s.sqd('h', list(zip(ls, (ls[1:] + ls[:1]) if n % 2 else ls[::-1])), js, qs, bs, c['base'], n % 5 != 0)
            elif what == 'com':
                s.solvecom('h', js, qs, bs, ls[:2], [1.0, 3.0][:len(ls[:2])], c['base'], n % 5 != 0)
            else:
                s.solve('h', ls, js, qs, bs, ROT[n % 3], c['base'], n % 5 != 0)
    return s


# ---------------------------------------------------------------- Threads: one program for each thread
def chain3(r):
    """three links in a row, as in Threads.tla"""
    links = [{'name': 'l%d' % k, 'inertial': {'mass': 1.0 + k, 'origin': None, 'I': [1.0, 0.0, 0.0, 1.0, 0.0, 1.0]} if k > 1 else None} for k in (1, 2, 3)]
    joints = [{'name': 'j%d' % k, 'type': r.choice(['revolute', 'continuous', 'prismatic']), 'parent': 'l%d' % (k - 1), 'child': 'l%d' % k,
               'origin': ([r.uniform(-1, 1) for _ in range(3)], [r.uniform(-1, 1) for _ in range(3)]), 'axis': r.choice([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
               'limit': {'lower': -9.0, 'upper': 9.0, 'effort': 1.0, 'velocity': 1.0}} for k in (2, 3)]
    return {'links': links, 'joints': joints}


def threads_walk(name, programs, r):
    """programs: per thread a list of operations of Threads.tla; they run at the same time"""
    s = Scen(name, 'tsan')
    hs = ['m%d' % k for k in range(len(programs))]
    docs = [chain3(r) for _ in hs]
    if r.random() < .5:
        docs = [docs[0]] * len(docs)
    inside = r.random() < .5        # loading is part of what happens at the same time
    for k, h in enumerate(hs):
        s.thread = k + 1 if inside else None
        s.load(h, docs[k])
    for k, (h, prog) in enumerate(zip(hs, programs)):
        s.thread = k + 1
        for _ in range(3):
            for o in prog:
                if o[0] == 'pose':
                    s.pose(h, ['l%d' % o[1]])
                elif o[1] == 1:
                    s.setb(h, [float(o[2]), 0.0, 1.0], [0.0, 0.5 * o[2], 0.0])
                else:
                    s.setj(h, ['j%d' % o[1]], [0.7 * o[2]], r.choice(['all', 'each']))
            s.jac(h, 'l3', ['j2', 'j3'], r.choice(ROT), r.random() < .5)
            s.com(h)
    s.together(hs)
    for h in hs:
        s.pose(h, ['l1', 'l2', 'l3'])
    return s


# ---------------------------------------------------------------- robots of RobotMC
def robot_walk(name, d, bases, r, ask, most=96):
    """through the configurations of one robot of the model, step by step as the model moves"""
    s = Scen(name)
    s.load('a', d)
    mv = [j for j in d['joints'] if j['type'] != 'fixed']
    names = [j['name'] for j in mv]
    spots = list(itertools.product(range(len(bases)), *[range(4) if j['type'] != 'prismatic' else range(-1, 2) for j in mv]))
    r.shuffle(spots)
    at = None
    q = {}
    for n, (b, *vs) in enumerate(spots[:most]):
        if b != at:
            s.setb('a', length(bases[b][:3]), turn(bases[b][3:]))
            at = b
        new = {j['name']: turn(v) if j['type'] != 'prismatic' else float(v) for j, v in zip(mv, vs)}
        ch = [k for k in names if q.get(k, 0.0) != new[k]]
        if ch:
            s.setj('a', ch, [new[k] for k in ch], r.choice(['all', 'each', 'raw']))
        q = new
        ask(s, 'a', d, names, n, r)
    return s
