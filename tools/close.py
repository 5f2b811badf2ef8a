"""Scenarios next to the special cases, per property: almost level bases, almost aligned axes, short levers, small steps, light
bodies, almost symmetric tensors, rotations next to none and to half a turn.  A shortcut that is right in the special case
and applied next to it gives an answer the specification does not accept."""
from props import *


def eps(r, lo=-8, hi=-1):
    return r.choice([1, -1]) * 10 ** r.uniform(lo, hi)


def by(r, x, lo=-8, hi=-1):
    """x, or something next to it"""
    return x + r.choice([0, 1, 1, 1]) * eps(r, lo, hi)


def cval(r):
    return by(r, r.choice([0.0, 0.0, PI, -PI, PI / 2, -PI / 2, 2 * PI, 1.0]))


def crpy(r):
    """next to an orientation made of quarter turns, the pitch away from +-90 degrees"""
    k = r.randrange(5)
    if k == 0:
        return [by(r, 0.0), by(r, 0.0), by(r, 0.0)]
    if k == 1:
        return [by(r, 0.0), by(r, 0.0), r.uniform(-4, 4)]
    if k == 2:
        return [r.uniform(-4, 4), by(r, 0.0), by(r, 0.0)]
    if k == 3:
        return [cval(r), by(r, r.choice([0.0, PI, .7])), cval(r)]
    x = [0.0, 0.0, 0.0]
    x[r.randrange(3)] = eps(r)
    return x


def cvec(r, s=1.0):
    """short, in one direction or in all"""
    c = r.random()
    if c < .15:
        return [0.0, 0.0, 0.0]
    if c < .4:
        v = [0.0, 0.0, 0.0]
        v[r.randrange(3)] = s * eps(r, -7, 0)
        return v
    if c < .6:
        k = eps(r, -7, 0)
        return [s * k * r.uniform(-1, 1) for _ in range(3)]
    if c < .8:
        v = [s * r.uniform(-1, 1) for _ in range(3)]
        v[r.randrange(3)] = s * eps(r)
        return v
    return [s * eps(r, -7, 0) for _ in range(3)]


def caxis(r):
    v = [0.0, 0.0, 0.0]
    k = r.randrange(3)
    v[k] = r.choice([1.0, -1.0])
    for i in range(3):
        if i != k and r.random() < .7:
            v[i] = eps(r, -7, -1)
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


def cquat(r):
    """next to the identity, a half turn or a right angle, in both signs"""
    e = QS[0] if r.random() < .4 else r.choice(QS)
    if r.random() < .15:
        return list(e)
    a, u = eps(r, -8, -.5), caxis(r) if r.random() < .5 else unit(r)
    q = qmul(list(e), [u[0] * math.sin(a / 2), u[1] * math.sin(a / 2), u[2] * math.sin(a / 2), math.cos(a / 2)])
    k = r.choice([1.0, -1.0]) / math.sqrt(sum(x * x for x in q))
    return [k * x for x in q]


QS = cube_quats()


def ctensor(r):
    """next to a ball, a rod, a plate; products of inertia that almost vanish; equal diagonal with products"""
    c = r.random()
    a = 10 ** r.uniform(-3, 1)
    if c < .35:
        I = [a, a * eps(r), a * eps(r), a, a * eps(r), a]
    elif c < .6:
        I = [a, a * r.uniform(-.3, .3), a * r.uniform(-.3, .3), a, a * r.uniform(-.3, .3), a]
    else:
        I = [by(r, 1.0) * a, 0.0, 0.0, by(r, 1.0) * a, 0.0, by(r, 1.0) * a]
    for k in (1, 2, 4):
        if r.random() < .3:
            I[k] = 0.0
    return I


def close_robot(r, n=None, **kw):
    d = robot(r, n or r.choice([2, 3, 4, 5]), r.choice(SHAPES), **kw)
    for j in d['joints']:
        if r.random() < .8:
            j['axis'] = caxis(r)
        if r.random() < .8:
            j['origin'] = (cvec(r) if r.random() < .7 else vec3(r), crpy(r) if r.random() < .7 else [angle(r) for _ in range(3)])
    for l in d['links']:
        i = l['inertial']
        if i:
            i['origin'] = (cvec(r), r.choice([None, crpy(r)]))
            i['I'] = ctensor(r)
            if i['mass'] > 0:
                i['mass'] = r.choice([i['mass'], 1.0, 10 ** r.uniform(-6, 3)])
    return d


def place(m, r):
    """a configuration next to a special one, or a small step from the last"""
    c = r.random()
    if m.mv and c < .5:
        m.setj(list(m.mv), [cval(r) if r.random() < .6 else jval(r) for _ in m.mv], r.choice(['all', 'each', 'raw']))
    elif m.mv and c < .7:
        js = r.sample(m.mv, r.randrange(1, len(m.mv) + 1))
        m.setj(js, [m.q[j] + eps(r, -9, -2) for j in js], r.choice(['all', 'each', 'raw']))
    c = r.random()
    if c < .4:
        m.setb(cvec(r, 2), crpy(r), 'rpy')
    elif c < .6:
        p, o, kind = m.base
        if kind == 'rpy':
            m.setb([x + r.choice([0, 1]) * eps(r, -9, -3) for x in p], [x + r.choice([0, 0, 1]) * eps(r, -9, -3) for x in o], 'rpy')
    elif c < .75:
        m.setb(cvec(r, 2), cquat(r), 'quat')


def extend(m, r, p=.4):
    while r.random() < p:
        m.n += 1
        kind = r.choice(['rpy', 'rpy', 'quat'])
        m.add('c%d' % m.n, r.choice(m.links), cvec(r), cquat(r) if kind == 'quat' else crpy(r), kind)


def life(ask, rounds=8, **kw):
    def f(s, r, i):
        m = M(s, 'a', close_robot(r, **kw), r).load()
        extend(m, r)
        for _ in range(rounds):
            place(m, r)
            extend(m, r, .1)
            ask(s, m, r)
    return f


def ask_jac(rots, base):
    def f(s, m, r):
        for l in r.sample(m.links, min(3, len(m.links))):
            s.jac('a', l, list(m.mv) if r.random() < .7 else m.joints_list(), r.choice(rots), base if base is not None else r.random() < .5)
    return f


def ask_poses(s, m, r):
    for a in range(0, len(m.links), 6):
        s.pose('a', m.links[a:a + 6])


def c02(seed, big):
    def f(s, r, i):
        m = M(s, 'a', close_robot(r, inertial=1.0), r).load()
        for t in range(6):
            for kind in ('pose', 'jac', 'com'):
                m.question([kind])('a')
                s.ops[-1][1]['probe'] = 'skip'
            place(m, r)
            m.ask_both(lambda h: s.pose(h, m.links[:6]), 'p%d' % t)
            m.ask_both(m.question([r.choice(['jac', 'com', 'comjac', 'inertia'])]), 't%d' % t)
    return [('K02', 10, f, 'core')]


def rows(m, r, base, n):
    q, b = [], []
    for k in range(n):
        q.append([x + eps(r, -9, -2) * r.choice([0, 1]) for x in q[-1]] if q and r.random() < .5 else [cval(r) if r.random() < .6 else jval(r) for _ in m.mv])
        if b and r.random() < .5:
            b.append([x + eps(r, -9, -2) * r.choice([0, 1]) for x in b[-1]])
        elif base == 'fixed':
            b.append([])
        elif base == 'planar':
            b.append([eps(r, -7, 1), eps(r, -7, 1), cval(r)])
        else:
            b.append(cvec(r, 2) + crpy(r))
    return q, b


def pylife(ask):
    def f(s, r, i):
        d = close_robot(r, inertial=.8)
        m = py_model(s, 'a', d, r)
        m.load()
        for _ in range(r.randrange(0, 3)):
            py_add(m, r)
        for t in range(6):
            base = r.choice(['fixed', 'planar', 'floating'])
            q, b = rows(m, r, base, r.choice([1, 2, 3, 4]))
            ask(s, m, r, t, base, q, b)
    return f


def ask_solve(s, m, r, t, base, q, b):
    ls = [r.choice(m.links) for _ in range(r.randrange(1, 4))]
    batch_with_refs(m, 't%d' % t, ls, list(m.mv), q, b, r.choice(ROTS), base, r.random() < .75, r.choice(['array', 'list']))


def ask_sqd(s, m, r, t, base, q, b):
    prs = [(r.choice(m.links), r.choice(m.links)) for _ in range(r.randrange(1, 6))]
    s.sqd('a', prs, list(m.mv), q, b, base, r.random() < .85, r.choice(['array', 'list']))


def ask_balance(s, m, r, t, base, q, b):
    ls = [r.choice(m.links) for _ in range(r.randrange(0, 4))]
    fs = safe_forces(m.d, [r.choice([10 ** r.uniform(-8, 4), -10 ** r.uniform(-6, 3), 0.0, 1.0, r.uniform(-30, -.1), r.uniform(.1, 9)]) for _ in ls])
    s.solvecom('a', list(m.mv), q, b, ls, fs, base, r.random() < .85, 'array', explicit=bool(ls))


def c20(seed, big):
    def f(s, r, i):
        for _ in range(50):
            c = r.choice(['rpy', 'quat', 'compose', 'compose', 'inverse', 'rinverse', 'apply'])
            tf = lambda: (cvec(r, 3) if r.random() < .5 else vec3(r, 3), cquat(r) if r.random() < .7 else quat(r))
            if c == 'rpy':
                s.geo('rpy', r.choice([crpy(r), [cval(r) for _ in range(3)]]))
            elif c == 'quat':
                k = r.choice([1.0, 1.0, -1.0, 2.5, by(r, 1.0, -6, -2)])
                s.geo('quat', [k * x for x in cquat(r)])
            elif c == 'compose':
                s.geo('compose', tf(), tf())
            elif c in ('inverse', 'rinverse'):
                s.geo(c, tf())
            else:
                s.geo('apply', tf(), r.choice([cvec, vec3])(r, 2))
    return [('K20', 16, f, 'core')]


LIVES = {
    'K01': lambda s, b: [('K01', 24, life(ask_poses), 'core')],
    'K02': c02,
    'K03': lambda s, b: [('K03', 24, life(ask_jac(['none'], False)), 'core')],
    'K04': lambda s, b: [('K04', 24, life(ask_jac(['rpy', 'xyzw'], False)), 'core')],
    'K05': lambda s, b: [('K05', 30, life(ask_jac(ROTS, True)), 'core')],
    'K06': lambda s, b: [('K06', 16, life(lambda s, m, r: (extend(m, r, .5), ask_poses(s, m, r), ask_jac(ROTS, None)(s, m, r))), 'core')],
    'K09': lambda s, b: [('K09', 20, life(lambda s, m, r: (s.com('a'), s.comjac('a', m.joints_list(), r.random() < .6)), inertial=.8), 'core')],
    'K10': lambda s, b: [('K10', 20, life(lambda s, m, r: s.inertia('a'), inertial=.8), 'core')],
    'K14': lambda s, b: [('K14', 10, pylife(ask_solve), 'py')],
    'K15': lambda s, b: [('K15', 16, pylife(ask_sqd), 'py')],
    'K16': lambda s, b: [('K16', 16, pylife(ask_balance), 'py')],
    'K18': lambda s, b: [('K18', 12, life(lambda s, m, r: s.getq('a', m.joints_list())), 'core')],
    'K20': c20,
}


def scenarios(pid, seed, big):
    out = []
    for name, n, f, proc in LIVES.get(pid, lambda s, b: [])(seed, big):
        out += many(name + 'close', seed, 4 * n if big else n, f, proc)
    return out
