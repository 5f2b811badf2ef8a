"""Random scenarios: a tracked model (what the scenario has done so far) and the questions to ask it."""
import random
from doc import *
from scen import Scen, hs, hx, hd

ROTS = ('none', 'rpy', 'xyzw')
SHAPES = ('tree', 'chain', 'star', 'long')
REPO_ROBOTS = ('/repo/data/kuka.urdf', '/repo/data/fetch.urdf', '/repo/data/pr2.urdf')


def jval(r):
    """a joint value: also far beyond a full turn, tiny, special"""
    c = r.random()
    if c < .15:
        return r.choice(SPECIAL)
    if c < .25:
        return r.uniform(-60, 60)
    if c < .35:      # next to a special value
        return r.choice([0.0, r.choice(SPECIAL)]) + r.choice([1, -1]) * 10 ** r.uniform(-12, -1)
    if c < .38:
        return r.uniform(-1e4, 1e4)
    return r.uniform(-PI, PI)


def base_rpy(r):
    """a floating base: every heading, at and beyond +-180 degrees, pitch also outside +-90"""
    c = r.random()
    if c < .1:
        return vec3(r), [0.0, 0.0, 0.0]
    if c < .3:
        return vec3(r, 3), [0.0, 0.0, r.choice([PI, -PI, PI / 2, 3.0, -3.0, 4.0, r.uniform(-7, 7)])]
    if c < .4:
        return vec3(r, 3), [r.choice([PI, -PI, r.uniform(-7, 7)]), r.uniform(-1.4, 1.4), r.choice([PI, -PI, PI - 1e-8, 1e-8 - PI, r.uniform(-7, 7)])]
    if c < .5:
        return vec3(r, 100), [angle(r), angle(r), angle(r)]
    if c < .6:       # almost level, almost aligned
        return vec3(r, 3), [r.choice([0.0, 0.0, angle(r)]) + r.choice([0, 1, -1]) * 10 ** r.uniform(-7, -1) for _ in range(3)]
    if c < .7:
        # at the seams: a rotation by exactly a half or full turn, the identity, angles at +-pi
        return vec3(r, 3), [r.choice([0.0, PI, -PI, 2 * PI]), r.choice([0.0, 0.0, .3, -1.2]), r.choice([0.0, PI, -PI, 2 * PI])]
    return vec3(r, 3), [r.uniform(-7, 7), r.uniform(-7, 7), r.uniform(-7, 7)]


def quat(r):
    c = r.random()
    if c < .3:
        return list(r.choice([(0., 0., 0., 1.), (1., 0., 0., 0.), (0., 1., 0., 0.), (0., 0., 1., 0.), (.5, .5, .5, .5),
                              (.5, -.5, .5, -.5), (0., 0., 0., -1.)]))
    q = [r.gauss(0, 1) for _ in range(4)]
    n = math.sqrt(sum(x * x for x in q))
    return [x / n for x in q]


class M:
    """a model as the scenario sees it"""

    def __init__(self, s, h, d, r):
        self.s, self.h, self.d, self.r = s, h, d, r
        self.mv = movable(d)
        self.links = link_names(d)
        self.q = {j: 0.0 for j in self.mv}
        self.base = ([0.0] * 3, [0.0] * 3, 'rpy')
        self.adds = []
        self.n = 0

    def load(self, **kw):
        self.s.load(self.h, self.d, **kw)
        return self

    def twin(self, h):
        """same state under another handle"""
        t = M(self.s, h, self.d, self.r)
        t.q, t.base, t.adds, t.links, t.n = dict(self.q), self.base, list(self.adds), list(self.links), self.n
        return t

    def setj(self, names, vals, mode='all'):
        self.s.setj(self.h, names, vals, mode)
        for n, v in zip(names, vals):
            self.q[n] = v

    def setb(self, p, r, kind='rpy', mode='set'):
        self.s.setb(self.h, p, r, kind, mode)
        self.base = (p, r, kind)

    def reset(self):
        self.s.reset(self.h)
        self.q = {j: 0.0 for j in self.mv}

    def add(self, name, parent, p, rr, kind='rpy', mode='arr'):
        self.s.add(self.h, name, parent, p, rr, kind, mode)
        if name not in self.links:
            self.links.append(name)
            self.adds.append((name, parent, p, rr, kind))

    # ---- random steps
    def rand_set(self):
        """change the configuration in one of many ways, small changes included"""
        r = self.r
        c = r.random()
        if c < .3 or not self.mv:
            self.rand_base()
            return
        mode = r.choice(['all', 'all', 'each', 'raw'])
        if c < .5:
            js = r.sample(self.mv, r.randrange(1, len(self.mv) + 1))
            self.setj(js, [jval(r) for _ in js], mode)
        elif c < .6:
            self.setj(list(self.mv), [jval(r) for _ in self.mv], mode)
        elif c < .7:
            j = r.choice(self.mv)
            self.setj([j], [self.q[j] + r.choice([1e-6, -1e-5, 1e-3, .1])], mode)   # a small step
        elif c < .75:
            j = r.choice(self.mv)
            self.setj([j], [-self.q[j]], mode)
        elif c < .8 and len(self.mv) > 1:
            a, b = r.sample(self.mv, 2)                                            # swap two values
            self.setj([a, b], [self.q[b], self.q[a]], mode)
        elif c < .85:
            self.setj([r.choice(self.mv)], [0.0], mode)
        elif c < .9:
            j = r.choice(self.mv)
            self.setj([j, j], [jval(r), jval(r)], mode)                            # the later one counts
        elif c < .93:
            self.setj([], [], mode)
        elif c < .96:
            j = r.choice(self.mv)
            self.setj([j], [self.q[j]], mode)                                      # same again
        else:
            self.reset()

    def rand_base(self):
        r = self.r
        mode = r.choice(['set', 'set', 'raw'])
        c = r.random()
        p, rr, kind = self.base
        if c < .15:
            self.setb(vec3(r, 3), list(rr), kind, mode)                            # only the position
        elif c < .3 and kind == 'rpy':
            k = r.randrange(3)
            x = list(rr)
            x[k] += r.choice([1e-6, .1, -1.0, PI])                                 # only one angle
            self.setb(list(p), x, 'rpy', mode)
        elif c < .4:
            x = list(p)
            x[r.randrange(3)] += r.choice([1e-6, -.1, 1.0])
            self.setb(x, list(rr), kind, mode)
        elif c < .5:
            self.setb(vec3(r, 3), quat(r), 'quat', mode)
        else:
            p, rr = base_rpy(r)
            self.setb(p, rr, 'rpy', mode)

    def rand_add(self, prefix='x'):
        r = self.r
        kind = 'quat' if r.random() < .25 else 'rpy'
        par = r.choice(self.links if r.random() < .5 or not self.adds else [a[0] for a in self.adds])
        self.n += 1
        name = r.choice(['%s%d', '0%s%d', 'zz %s%d', '%s_%d_com']) % (prefix, self.n)
        p = r.choice([vec3(r), vec3(r), [0.0, 0.0, 0.0]])
        rr = quat(r) if kind == 'quat' else r.choice([[0.0, 0.0, 0.0], [angle(r) for _ in range(3)], [jval(r) for _ in range(3)]])
        self.add(name, par, p, rr, kind, 'arr' if r.random() < .8 else 'tf')

    def refused(self):
        """a request that has to be refused"""
        r = self.r
        c = r.random()
        if c < .6:
            name = r.choice(self.links)
            rr = [angle(r) for _ in range(3)]
            self.s.add(self.h, name, r.choice(self.links), vec3(r), rr, 'rpy', r.choice(['arr', 'tf']))
        else:
            kind = r.choice(['link', 'joint'])
            known = self.links if kind == 'link' else self.mv
            bad = r.choice(['nope', '', 'x' * 40, (known[0] + ' ') if known else 'q', known[0][:-1] + '~' if known else 'w',
                            'j' if kind == 'link' else 'l'])
            while bad in known:
                bad += '!'
            ns = r.sample(known, min(len(known), r.randrange(0, 3)))
            ns.insert(r.randrange(len(ns) + 1), bad)
            self.s.lookup(self.h, kind, ns)

    # ---- questions; each is a function of a handle, so that it can be asked of a reference too
    def joints_list(self):
        r = self.r
        if not self.mv:
            return []
        c = r.random()
        if c < .4:
            return list(self.mv)
        if c < .5:
            js = list(self.mv)
            r.shuffle(js)
            return js
        if c < .6:
            return [r.choice(self.mv) for _ in range(r.randrange(1, 5))]      # repetitions
        if c < .65:
            return []
        return r.sample(self.mv, r.randrange(1, len(self.mv) + 1))

    def question(self, kinds=None):
        r, s = self.r, self.s
        k = r.choice(kinds or ['pose', 'pose', 'jac', 'jac', 'com', 'comjac', 'inertia', 'getq', 'mass'])
        if massless(self.d):     # no center of mass to speak of
            k = {'com': 'pose', 'comjac': 'jac', 'inertia': 'pose'}.get(k, k)
        if k == 'pose':
            ls = r.sample(self.links, r.randrange(1, min(4, len(self.links)) + 1)) if r.random() < .7 else list(self.links)
            return lambda h: s.pose(h, ls)
        if k == 'jac':
            l, rot, base, js = r.choice(self.links), r.choice(ROTS), r.random() < .6, self.joints_list()
            return lambda h: s.jac(h, l, js, rot, base)
        if k == 'com':
            return lambda h: s.com(h)
        if k == 'comjac':
            base, js = r.random() < .6, self.joints_list()
            return lambda h: s.comjac(h, js, base)
        if k == 'inertia':
            return lambda h: s.inertia(h)
        if k == 'getq':
            js = self.joints_list()
            return lambda h: s.getq(h, js)
        if k == 'limits':
            js = self.joints_list()
            return lambda h: s.limits(h, js)
        return lambda h: s.mass(h)

    def fresh(self, h, proc, adds=True):
        """a reference: the same robot, links and configuration, nothing else"""
        s = self.s
        was = s.proc
        s.on(proc)
        s.load(h, self.d)
        if adds:
            for a in self.adds:
                s.add(h, *a)
        if self.mv:
            s.setj(h, list(self.mv), [self.q[j] for j in self.mv])
        s.setb(h, *self.base)
        s.on(was)

    def ask_both(self, q, tag, proc='core.ref', adds=True):
        """ask a fresh reference, then the model; the answers must agree"""
        s = self.s
        was = s.proc
        rh = 'r' + tag
        self.fresh(rh, proc, adds)
        s.on(proc)
        s.mark(probe=tag)
        q(rh)
        s.destroy(rh)
        s.on(was)
        s.mark(cmp=tag)
        q(self.h)


def massless(d):
    return not any(l['inertial'] and l['inertial']['mass'] > 0 for l in d['links'])


def plain_robot(r, n=None, **kw):
    if 'inertial' not in kw and r.random() < .12:
        kw['inertial'] = 0       # no inertial data at all, hence no mass points
    return robot(r, n or r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12]), r.choice(SHAPES), **kw)


def bcoords(r, base):
    if base == 'fixed':
        return []
    if base == 'planar':
        return [r.uniform(-3, 3), r.uniform(-3, 3), r.choice([0.0, PI, -PI, r.uniform(-7, 7), r.uniform(-PI, PI)])]
    p, rr = base_rpy(r)
    return p + rr
