"""Robot descriptions: content (what the specification sees) and its spellings (what the parser sees)."""
import decimal, math, struct, random, hashlib, json


def bits(x):
    if isinstance(x, str):      # a malformed number has no value
        return [0, 0]
    return list(struct.unpack('>ii', struct.pack('>d', x)))


def unbits(p):
    return struct.unpack('>d', struct.pack('>ii', p[0], p[1]))[0]


def hexd(x):
    return struct.pack('>d', x).hex()


def bv(v):
    return [bits(x) for x in v]


def opt(x, f=lambda y: y):
    return [] if x is None else [f(x)]


def origin_json(o):
    return [] if o is None else [{'xyz': opt(o[0], bv), 'rpy': opt(o[1], bv)}]


# content -> JSON for the specification
def doc_json(d):
    return {
        'syntax': d.get('syntax', 'ok'), 'robot': d.get('robot', True), 'version': d.get('version', 'none'),
        'materials': [m['name'] for m in d.get('materials', [])],
        'unnamed': d.get('unnamed', 0),
        'links': [{'name': l['name'],
                   'inertial': opt(l.get('inertial'), lambda i: {
                       'mass': bits(i['mass']), 'origin': origin_json(i.get('origin')), 'I': bv(i['I'])})}
                  for l in d['links']],
        'joints': [{'name': opt(j.get('name')), 'type': opt(j.get('type')), 'parent': opt(j.get('parent')),
                    'child': opt(j.get('child')), 'origin': origin_json(j.get('origin')),
                    'axis': opt(j.get('axis'), bv),
                    'limit': opt(j.get('limit'), lambda m: {k: opt(m.get(k), bits) for k in
                                                           ('lower', 'upper', 'effort', 'velocity')}),
                    'lex': bool(j.get('lex'))} for j in d['joints']],
    }


def key(d):
    """identity of the content: the order of elements is not content"""
    x = doc_json(d)
    x['links'].sort(key=json.dumps)
    x['joints'].sort(key=json.dumps)
    del x['materials']
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


# ---------------------------------------------------------------- spelling
class Style:
    """how to write a description down; the default is the plain way"""

    def __init__(self, rng=None, level=0):
        self.r = rng or random.Random(0)
        self.level = level

    def yes(self, p):
        return self.level > 0 and self.r.random() < p

    def num(self, x, scalar=False):
        s = repr(float(x))
        if not self.level:
            return s
        c = self.r.randrange(8)
        if c == 1:
            s = '%.17e' % x
        elif c == 2:
            s = '%.20E' % x
        elif c == 3 and not s.startswith('-'):
            s = '+' + s
        elif c == 4 and float(x) == int(x) and abs(x) < 1e18:
            s = '%d' % x if self.r.random() < .7 else '%d.' % x
        elif c == 5 and 0 < abs(x) < 1 and 'e' not in s:
            s = s.replace('0.', '.', 1)
        elif c >= 6:
            s = self.shifted(s)
        if self.r.random() < .1:        # zeros that mean nothing, in front
            i = len(s) - len(s.lstrip('+-'))
            s = s[:i] + '0' * self.r.choice([1, 2, 12]) + s[i:]
        if self.r.random() < .1 and '.' in s and 'e' not in s.lower():      # or at the end
            s += '0' * self.r.choice([1, 2, 30])
        assert float(s) == float(x), (s, x)
        return s

    def shifted(self, s):
        """the same digits with the point elsewhere and an exponent, or all the digits the double has"""
        r = self.r
        x = decimal.Decimal(s)
        if r.random() < .3 and 1e-6 < abs(x) < 1e9:
            return format(decimal.Decimal(float(s)), 'f')
        g, ds, e = x.as_tuple()
        k = r.randrange(-3, len(ds) + 4)        # where the point goes
        t = ''.join(map(str, ds))
        t = '0.' + '0' * -k + t if k <= 0 else t[:k] + '.' + t[k:] if k < len(t) else t + '0' * (k - len(t))
        e += len(ds) - k
        e = '%s%s%s%d' % (r.choice('eE'), '-' if e < 0 else r.choice(['', '+']), r.choice(['', '', '0', '00']), abs(e))
        return ('-' if g else r.choice(['', '', '+'])) + t + e

    def vec(self, v):
        sp = lambda: ' ' if not self.level else self.r.choice([' ', ' ', '  ', '   ', '\t', '\n', ' \n '])
        s = ''
        for i, x in enumerate(v):
            s += (sp() if i else '') + self.num(x)
        if self.yes(.2):
            s = sp() + s
        if self.yes(.2):
            s = s + sp()
        return s

    def text(self, s, quote='"'):
        o = ''
        for c in s:
            if c in '&<>' or c == quote:
                o += {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;', "'": '&apos;'}[c]
            elif self.yes(.1) and c not in '\t\n':
                o += self.r.choice(['&#%d;', '&#x%x;', '&#x%X;']) % ord(c)
            else:
                o += c
        return o

    def attrs(self, kv):
        kv = [(k, v) for k, v in kv if v is not None]
        if self.yes(.7):
            self.r.shuffle(kv)
        o = ''
        for k, v in kv:
            q = "'" if self.yes(.3) else '"'
            eq = self.r.choice(['=', ' = ', '= ', '\n=']) if self.yes(.2) else '='
            gap = self.r.choice([' ', '  ', '\n', '\t', '\r\n']) if self.yes(.3) else ' '
            o += gap + k + eq + q + (v if isinstance(v, Raw) else self.text(v, q)) + q
        return o

    def space(self):
        return self.r.choice(['', '\n', ' ', '\r\n', '\n\n\t'])

    def gap(self):
        if not self.level:
            return '\n'
        c = self.r.random()
        if c < .04:
            return self.r.choice(['<!---->', '<!-- ' + 'long ' * self.r.choice([50, 1000]) + '-->', "<!-- it's \"quoted & <odd> -->",
                                  '<!-- a -->\n<!-- b --><!--c-->', '<!-- <origin xyz="9 9 9"/> > -->', ' some text ', '<?note x?>'])
        return self.r.choice(['', '\n', ' ', '\n  \t', '\r\n', '<!-- <joint name="no"/> -->', '\n<!-- x -->\n',
                              '\n', '', '\n'])

    def el(self, tag, kv=(), kids=()):
        """kids: list of already written elements; their order is free unless they are in one Fixed group"""
        a = self.attrs(list(kv))
        kids = list(kids)
        if self.yes(.7):
            kids = shuffle_keep(self.r, kids)
        if not kids:
            if self.yes(.2):
                return '<%s%s></%s>' % (tag, a, tag)
            if self.yes(.2):
                return '<%s%s >%s</%s >' % (tag, a, self.gap(), tag)
            return '<%s%s/>' % (tag, a)
        return '<%s%s>' % (tag, a) + ''.join(self.gap() + str(k) for k in kids) + self.gap() + '</%s>' % tag


class Raw(str):
    """already in attribute spelling (used for deliberately malformed values)"""


class El(str):
    """an element whose order among its equals matters (same group)"""
    group = None

    def __new__(cls, s, group):
        x = str.__new__(cls, s)
        x.group = group
        return x


def shuffle_keep(r, kids):
    """shuffle, keeping the relative order of elements of the same group"""
    out = list(kids)
    r.shuffle(out)
    groups = {}
    for k in kids:
        if isinstance(k, El):
            groups.setdefault(k.group, []).append(k)
    its = {g: iter(v) for g, v in groups.items()}
    return [next(its[k.group]) if isinstance(k, El) else k for k in out]


def w_origin(st, o):
    if o is None:
        return []
    return [st.el('origin', [('xyz', Raw(st.vec(o[0])) if o[0] is not None else None),
                             ('rpy', Raw(st.vec(o[1])) if o[1] is not None else None)])]


def N(st, x):
    return None if x is None else x if isinstance(x, Raw) else Raw(st.num(x, True))


def w_geom(st, g):
    if g['shape'] == 'sphere':
        e = st.el('sphere', [('radius', N(st, g['dims'][0]))])
    elif g['shape'] == 'box':
        e = st.el('box', [('size', Raw(st.vec(g['dims'])))])
    elif g['shape'] == 'cylinder':
        e = st.el('cylinder', [('radius', N(st, g['dims'][0])), ('length', N(st, g['dims'][1]))])
    else:
        e = st.el('mesh', [('filename', g['file']), ('scale', Raw(st.vec(g['dims'])) if g['dims'] else None)])
    return st.el('geometry', [], [e])


def w_material(st, m):
    kids = []
    if m.get('texture'):
        kids.append(st.el('texture', [('filename', m['texture'])]))
    if m.get('color') is not None:
        kids.append(st.el('color', [('rgba', Raw(st.vec(m['color'])))]))
    return st.el('material', [('name', m['name'])], kids)


def w_link(st, l):
    kids = []
    if l.get('inertial') is not None:
        i = l['inertial']
        I = i['I']
        kids.append(st.el('inertial', [], w_origin(st, i.get('origin')) + [
            st.el('mass', [('value', N(st, i['mass']))]),
            st.el('inertia', [(k, N(st, I[n])) for n, k in enumerate(('ixx', 'ixy', 'ixz', 'iyy', 'iyz', 'izz'))])]))
    for v in l.get('visuals', []):
        k = w_origin(st, v.get('origin')) + [w_geom(st, v['geom'])]
        if v.get('material'):
            k.append(w_material(st, v['material']))
        kids.append(El(st.el('visual', [('name', v.get('name'))], k), 'visual'))
    for v in l.get('collisions', []):
        kids.append(El(st.el('collision', [('name', v.get('name'))], w_origin(st, v.get('origin')) + [w_geom(st, v['geom'])]), 'collision'))
    if st.yes(.15):
        kids.append(st.el(st.r.choice(['verbose', 'sensor', 'limit', 'axis']), [('xyz', Raw('9 9 9'))]))
    return st.el('link', [('name', l.get('name')), ('type', 'x' if st.yes(.1) else None)], kids)


def w_joint(st, j):
    kids = []
    if 'parent' in j and j['parent'] is not None:
        kids.append(st.el('parent', [('link', j['parent'])]))
    if 'child' in j and j['child'] is not None:
        kids.append(st.el('child', [('link', j['child'])]))
    if j.get('raw_origin') is not None:
        kids.append(st.el('origin', j['raw_origin']))
    else:
        kids += w_origin(st, j.get('origin'))
    if j.get('raw_axis') is not None:
        kids.append(st.el('axis', [('xyz', Raw(j['raw_axis']))]))
    elif j.get('axis') is not None:
        kids.append(st.el('axis', [('xyz', Raw(st.vec(j['axis'])))]))
    if j.get('limit') is not None:
        m = j['limit']
        kids.append(st.el('limit', [(k, N(st, m.get(k))) for k in ('lower', 'upper', 'effort', 'velocity')]))
    for tag in ('dynamics', 'safety_controller', 'calibration', 'mimic'):
        if j.get(tag) is not None:
            kids.append(st.el(tag, [(k, v if isinstance(v, str) else N(st, v)) for k, v in j[tag].items()]))
    if st.yes(.15):
        kids.append(st.el(st.r.choice(['transmission', 'hint', 'mass']), [('value', Raw('7'))]))
    return st.el('joint', [('name', j.get('name')), ('type', j.get('type'))], kids)


def nested(n, tag='b', inside=''):
    return '<%s>' % tag * n + inside + '</%s>' % tag * n


def to_xml(d, st=None):
    st = st or Style()
    kids = [w_material(st, m) for m in d.get('materials', [])]
    kids += [El(w_link(st, l), 'link') for l in d['links']]
    kids += [st.el('link') for _ in range(d.get('unnamed', 0))]
    kids += [w_joint(st, j) for j in d['joints']]
    if st.yes(.5):
        kids.append(st.el('transmission', [('name', 't')], [st.el('joint', [('name', 'no_such_joint')]),
                                                             st.el('link', [('name', 'no_such_link')])]))
    if st.yes(.3):
        kids.append(st.el('gazebo', [('reference', 'x')], [st.el('material', [('name', 'g')])]))
    if d.get('deep'):
        kids.append(nested(d['deep'], 'extension', st.el('link', [('name', 'inner')])))
    v = d.get('version', 'none')
    body = st.el(d.get('root_tag', 'robot'), [('name', d.get('name', 'r') if d.get('named', True) else None),
                                              ('version', None if v == 'none' else v)], kids)
    head = ''
    if st.yes(.5):
        head = '<?xml version="1.0"%s?>' % st.r.choice(['', ' encoding="UTF-8"', " standalone='yes'"]) + st.space()
    if st.yes(.1):
        head = head + '<!DOCTYPE robot>' + st.space()
    if st.yes(.2):
        head += '<!-- a robot, in front of the robot -->' + st.space()
    if st.yes(.06):
        head = '\ufeff' + head
    tail = '\n<!-- end -->' if st.yes(.3) else '\n'
    return head + body + tail


# ---------------------------------------------------------------- generation
PI = math.pi
SPECIAL = [0.0, PI / 2, -PI / 2, PI, -PI, PI / 4, 2 * PI, 3 * PI / 2, 1e-9, 1.0]


def figure(r):
    """a number somewhere, where any will do: with many digits, large, small, whole"""
    c = r.random()
    if c < .35:
        return r.choice([0.0, 1.0, -1.0, -0.0, .1, -2.5])
    if c < .5:
        return float(r.choice([1, -1]) * r.randrange(10 ** r.randrange(1, 16)))
    if c < .65:
        return r.choice([1, -1]) * 10 ** r.uniform(-30, 30)
    return r.uniform(-9, 9)


def angle(r):
    c = r.random()
    if c < .25:
        return r.choice(SPECIAL)
    if c < .35:
        return r.choice([PI / 2, -PI / 2]) + r.uniform(-.01, .01)
    if c < .45:
        return r.choice([0.0, 0.0, PI, -PI, PI / 2]) + r.choice([1, -1]) * 10 ** r.uniform(-8, -1)
    if c < .48:
        return r.uniform(-20, 20)
    return r.uniform(-PI, PI)


def vec3(r, s=1.0):
    c = r.random()
    if c < .1:
        return [0.0, 0.0, 0.0]
    if c < .25:
        v = [0.0, 0.0, 0.0]
        v[r.randrange(3)] = r.choice([1.0, -1.0, .5])
        return v
    if c < .35:
        return sparse(r, [r.uniform(-s, s) for _ in range(3)])
    if c < .45:      # short, as a whole or in single coordinates
        k = r.choice([10 ** r.uniform(-7, 0), None])
        return [r.uniform(-s, s) * (k or 10 ** r.uniform(-7, 0)) for _ in range(3)]
    if c < .47:
        return [r.uniform(.1, s)] * 3
    return [r.uniform(-s, s) for _ in range(3)]


def sparse(r, v):
    """some of the numbers become zero (either zero)"""
    return [r.choice([0.0, 0.0, -0.0]) if r.random() < .5 else x for x in v]


def unit(r):
    if r.random() < .4:
        v = [0.0, 0.0, 0.0]
        v[r.randrange(3)] = r.choice([1.0, -1.0])
        return v
    while True:
        v = [r.gauss(0, 1) for _ in range(3)]
        c = r.random()
        if c < .25:
            v[r.randrange(3)] = 0.0
        elif c < .32:
            v[r.randrange(3)] *= 10 ** r.uniform(-7, -1)
        elif c < .45:       # close to a coordinate axis
            k = r.randrange(3)
            e = 10 ** r.uniform(-6, -1)
            v = [x if i == k else x * e for i, x in enumerate(v)]
        elif c < .48:
            v = [r.choice([1.0, -1.0]) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in v))
        if n > .1:
            return [x / n for x in v]


def origin(r, rpy=True):
    c = r.random()
    if c < .1:
        return None
    if c < .2:
        return (vec3(r), None)
    if c < .3 and rpy:
        return (None, [angle(r) for _ in range(3)])
    if c < .33:
        return (None, None)
    return (vec3(r), [angle(r) for _ in range(3)] if rpy else None)


def inertia(r):
    """a physically possible tensor: R diag R^T of a box-like body"""
    a, b, c = (r.uniform(.01, 1) for _ in range(3))
    d = [b + c, a + c, a + b]
    q = [r.gauss(0, 1) for _ in range(4)]
    n = math.sqrt(sum(x * x for x in q))
    x, y, z, w = [v / n for v in q]
    R = [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
         [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
         [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
    M = [[sum(R[i][k] * d[k] * R[j][k] for k in range(3)) for j in range(3)] for i in range(3)]
    I = [M[0][0], M[0][1], M[0][2], M[1][1], M[1][2], M[2][2]]
    c = r.random()
    if c < .3:          # some products of inertia vanish
        for k in (1, 2, 4):
            if r.random() < .6:
                I[k] = 0.0
    elif c < .35:
        I[3] = I[5] = I[0]
    elif c < .4:
        I = sparse(r, I)
    elif c < .45:
        I = [x * 10 ** r.uniform(-6, 3) for x in I]
    return I


def limit(r, typ):
    if typ == 'fixed':
        return None if r.random() < .9 else {'lower': None, 'upper': None, 'effort': 1.0, 'velocity': 2.0}
    if typ == 'continuous' and r.random() < .5:
        return None
    lo, hi = sorted([round(r.uniform(-4, 4), r.randrange(1, 17)), round(r.uniform(-4, 4), r.randrange(1, 17))])
    return {'lower': lo if r.random() < .85 else None, 'upper': hi if r.random() < .85 else None,
            'effort': r.choice([100.0, 0.0, r.uniform(0, 1e4), 1e20, 1e-7, abs(figure(r))]),
            'velocity': r.choice([1.0, 0.0, r.uniform(0, 10), 123456.789, abs(figure(r))])}


def robot(r, n, shape='tree', types=None, inertial=.6, in_rpy=True, names=None, special_names=True):
    """a valid description with n links"""
    if names is None:
        style = r.randrange(4)
        names = []
        pool = list(range(n))
        r.shuffle(pool)
        for i in pool:
            names.append(['l%d' % i, 'link_%02d' % i, chr(97 + i % 26) + str(i), 'L%d' % (i * 7 % 101) + '_%d' % i][style])
        if special_names and r.random() < .3:
            for _ in range(r.randrange(1, 3)):
                k = r.randrange(n)
                s = r.choice(['a b', 'x/y', 'a&b', 'q"q', "it's", '<t>', 'A', '_', 'wide name  2', '.'])
                if s not in names:
                    names[k] = s
    types = types or ['revolute', 'continuous', 'prismatic', 'fixed', 'revolute', 'continuous']
    links = []
    for nm in names:
        i = None
        if r.random() < inertial:
            i = {'mass': r.choice([1.0, 0.0, r.uniform(.01, 20), r.uniform(.01, 5), r.uniform(.01, 5), 10 ** r.uniform(-4, 2.5)]),
                 'origin': origin(r, in_rpy and r.random() < .6), 'I': inertia(r)}
        links.append({'name': nm, 'inertial': i})
    if inertial and not any(l['inertial'] and l['inertial']['mass'] > 0 for l in links):
        l = r.choice(links)
        l['inertial'] = {'mass': r.uniform(.5, 2), 'origin': origin(r, in_rpy), 'I': inertia(r)}
    joints = []
    jn = list(range(n))
    r.shuffle(jn)
    for k in range(1, n):
        if shape == 'chain':
            p = k - 1
        elif shape == 'star':
            p = 0 if r.random() < .8 else r.randrange(k)
        elif shape == 'long':
            p = k - 1 if r.random() < .85 else r.randrange(k)
        else:
            p = r.randrange(k)
        t = r.choice(types)
        joints.append({'name': 'j%d' % jn[k] if r.random() < .9 else names[k], 'type': t, 'parent': names[p], 'child': names[k],
                       'origin': origin(r), 'axis': None if r.random() < .15 else unit(r), 'limit': limit(r, t)})
    seen = set()
    for j in joints:
        if j['name'] in seen:
            j['name'] += '#'
        seen.add(j['name'])
    r.shuffle(links)
    r.shuffle(joints)
    return {'links': links, 'joints': joints}


def from_xml_file(path):
    """content of the repository's own descriptions (plain XML, read with Python's parser)"""
    import xml.etree.ElementTree as ET
    root = ET.parse(path).getroot()
    f3 = lambda s: [float(x) for x in s.split()]

    def org(e):
        o = e.find('origin')
        if o is None:
            return None
        return (f3(o.get('xyz')) if o.get('xyz') else None, f3(o.get('rpy')) if o.get('rpy') else None)
    links, joints = [], []
    for l in root.findall('link'):
        i = l.find('inertial')
        ii = None
        if i is not None:
            t = i.find('inertia')
            ii = {'mass': float(i.find('mass').get('value')), 'origin': org(i),
                  'I': [float(t.get(k)) for k in ('ixx', 'ixy', 'ixz', 'iyy', 'iyz', 'izz')]}
        links.append({'name': l.get('name'), 'inertial': ii})
    for j in root.findall('joint'):
        a, m = j.find('axis'), j.find('limit')
        joints.append({'name': j.get('name'), 'type': j.get('type'), 'parent': j.find('parent').get('link'),
                       'child': j.find('child').get('link'), 'origin': org(j),
                       'axis': None if a is None else f3(a.get('xyz')),
                       'limit': None if m is None else {k: float(m.get(k)) if m.get(k) is not None else None
                                                        for k in ('lower', 'upper', 'effort', 'velocity')}})
    return {'links': links, 'joints': joints, 'path': path}


def movable(d):
    return [j['name'] for j in d['joints'] if j['type'] in ('revolute', 'continuous', 'prismatic')]


def link_names(d):
    return [l['name'] for l in d['links']]


def full_json(d):
    """the whole content, for Content.tla"""
    mat = lambda m: {'name': m['name'], 'texture': opt(m.get('texture')), 'color': opt(m.get('color'), bv)}
    geom = lambda g: {'shape': g['shape'], 'file': opt(g.get('file')), 'dims': bv(g['dims'])}
    x = doc_json(d)
    x['name'] = d.get('name', 'r')
    x['materials'] = [mat(m) for m in d.get('materials', [])]
    for o, l in zip(x['links'], d['links']):
        o['visuals'] = [{'name': opt(v.get('name')), 'origin': origin_json(v.get('origin')), 'geom': geom(v['geom']),
                         'material': opt(v.get('material'), mat)} for v in l.get('visuals', [])]
        o['collisions'] = [{'name': opt(v.get('name')), 'origin': origin_json(v.get('origin')), 'geom': geom(v['geom'])}
                           for v in l.get('collisions', [])]
    num = lambda ks, f=None: (lambda t: dict({k: opt(t.get(k), bits) for k in ks}, **({f: t[f]} if f else {})))
    for o, j in zip(x['joints'], d['joints']):
        for k in ('name', 'type', 'parent', 'child'):
            o[k] = j[k]
        o['dynamics'] = opt(j.get('dynamics'), num(('damping', 'friction')))
        o['safety'] = opt(j.get('safety_controller'), num(('soft_lower_limit', 'soft_upper_limit', 'k_position', 'k_velocity')))
        o['calibration'] = opt(j.get('calibration'), num(('rising', 'falling')))
        o['mimic'] = opt(j.get('mimic'), num(('multiplier', 'offset'), 'joint'))
    return x
