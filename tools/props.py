"""Scenarios per property: what is executed on the real code and handed to the specification."""
import itertools, random
from gen import *


def sub(seed, *k):
    return random.Random('%s/%s' % (seed, '/'.join(map(str, k))))


def many(pid, seed, n, f, proc='core'):
    out = []
    for i in range(n):
        r = sub(seed, pid, i)
        s = Scen('%s-%d' % (pid, i), proc)
        f(s, r, i)
        out.append(s)
    return out


def repo_robot(i):
    return from_xml_file(REPO_ROBOTS[i % 3])


# ---------------------------------------------------------------- K01 poses
def k01(seed, big):
    def f(s, r, i):
        d = repo_robot(i) if i < 3 else robot(r, r.choice([20, 30, 40]), r.choice(['chain', 'long'])) if i < 8 else plain_robot(r)
        m = M(s, 'a', d, r).load()
        if r.random() < .4:
            for _ in range(r.randrange(1, 4)):
                m.rand_add()
        for t in range(3 if len(m.links) > 20 else 8):
            for _ in range(r.randrange(1, 3)):
                m.rand_set()
            ls = list(m.links)
            r.shuffle(ls)
            if r.random() < .5:
                ls.sort(key=lambda x: r.random())
            for a in range(0, len(ls), 6):
                s.pose('a', ls[a:a + 6])
    return many('K01', seed, 400 if big else 90, f)


# ---------------------------------------------------------------- K02 history
def k02(seed, big):
    def f(s, r, i):
        d = repo_robot(0) if i == 0 else plain_robot(r, r.choice([2, 3, 4, 5, 6, 8]), inertial=.7)
        m = M(s, 'a', d, r).load()
        t = 0
        for _ in range(30):
            c = r.random()
            if c < .35:
                m.rand_set()
                if r.random() < .3:
                    m.rand_set()
            elif c < .42:
                m.rand_add()
            elif c < .46:
                m.refused()
            elif c < .5:
                s.clear('a')
            elif c < .62:
                m.question()('a')     # an unjudged-by-comparison extra query: it must not matter
                s.ops[-1][1]['probe'] = 'skip'
            else:
                t += 1
                m.ask_both(m.question(['pose', 'jac', 'com', 'comjac', 'inertia', 'getq']), 't%d' % t)
    out = many('K02', seed, 250 if big else 70, f)

    # every kind of change is visible in the very next query of every kind (after a query that may have been memoized)
    def g(s, r, i):
        d = plain_robot(r, r.choice([3, 4, 5]), inertial=1.0)
        m = M(s, 'a', d, r).load()
        t = 0
        for _ in range(2):
            for warm, kind in itertools.product(['pose', 'jac', 'com', 'comjac', 'inertia'], ['pose', 'jac', 'com', 'comjac', 'inertia']):
                m.question([warm])('a')
                s.ops[-1][1]['probe'] = 'skip'
                m.rand_set()
                t += 1
                m.ask_both(m.question([kind]), 't%d' % t)
    out += many('K02next', seed, 40 if big else 8, g)
    out += many('K02py', seed, 80 if big else 24, k02py, 'py')
    return out


def py_question(m, r, s):
    k = r.choice(['solve', 'solve', 'solvecom', 'sqd', 'inertiaq', 'getqv'])
    if massless(m.d):
        k = {'solvecom': 'solve', 'inertiaq': 'sqd'}.get(k, k)
    base = r.choice(['fixed', 'fixed', 'planar', 'floating'])
    js = r.sample(m.mv, r.randrange(0, len(m.mv) + 1)) if r.random() < .6 else list(m.mv)
    nw = height(r, js, base, [1, 2, 3])
    qs = [[jval(r) for _ in js] for _ in range(nw)]
    bs = [bcoords(r, base) for _ in range(nw)]
    jac = r.random() < .7
    ls = r.sample(m.links, min(len(m.links), r.randrange(1, 4)))
    rot = r.choice(ROTS)
    fs = [r.uniform(.5, 5) for _ in ls]
    prs = [(r.choice(m.links), r.choice(m.links)) for _ in range(r.randrange(1, 4))]
    if k == 'solve':
        return k, js, qs, bs, base, lambda h: s.solve(h, ls, js, qs, bs, rot, base, jac)
    if k == 'solvecom':
        return k, js, qs, bs, base, lambda h: s.solvecom(h, js, qs, bs, ls, fs, base, jac)
    if k == 'sqd':
        return k, js, qs, bs, base, lambda h: s.sqd(h, prs, js, qs, bs, base, jac)
    if k == 'inertiaq':
        return k, js, qs[:1], [[]], 'fixed', lambda h: s.inertiaq(h, js, qs[0])
    return k, js, [], [], 'fixed', lambda h: s.getqv(h, list(m.mv), 'floating')


def py_effect(m, js, qs, bs, base):
    """what a batch call leaves behind"""
    for q, b in zip(qs, bs):
        for j, v in zip(js, q):
            m.q[j] = v
        if base == 'planar':
            m.b6 = [b[0], b[1], 0.0, 0.0, 0.0, b[2]]
        elif base == 'floating':
            m.b6 = list(b)


def py_set(m, r, s):
    base = r.choice(['fixed', 'planar', 'floating'])
    js = r.sample(m.mv, r.randrange(0, len(m.mv) + 1))
    q = [m.q[j] + r.choice([0.0, 1e-6, .1, 1.0]) if r.random() < .4 else jval(r) for j in js]
    b = bcoords(r, base)
    if base == 'floating' and r.random() < .4:
        b = list(m.b6)
        b[r.randrange(6)] += r.choice([1e-6, .1, -1.0])
    s.setq(m.h, js, q, base, b)
    py_effect(m, js, [q], [b], base)


def py_fresh(m, h, proc):
    s = m.s
    was = s.proc
    s.on(proc)
    s.load(h, m.d)
    for name, par, p, rr, kind in m.adds:
        s.add(h, name, par, p, rr)
    s.setq(h, list(m.mv), [m.q[j] for j in m.mv], 'floating', m.b6)
    s.on(was)


def py_add(m, r):
    par = r.choice(m.links)
    m.n += 1
    mode = r.choice(['arr', 'norpy', 'reused'])
    m.add('p%d' % m.n, par, vec3(r), [0.0] * 3 if mode == 'norpy' else [angle(r) for _ in range(3)], 'rpy', mode)


def py_model(s, h, d, r):
    m = M(s, h, d, r)
    m.b6 = [0.0] * 6
    return m


def py_both(m, r, tag, proc='py.ref'):
    s = m.s
    k, js, qs, bs, base, q = py_question(m, r, s)
    py_fresh(m, 'r' + tag, proc)
    was = s.proc
    s.on(proc)
    s.mark(probe=tag)
    q('r' + tag)
    s.destroy('r' + tag)
    s.on(was)
    s.mark(cmp=tag)
    q(m.h)
    py_effect(m, js, qs, bs, base)


def k02py(s, r, i):
    d = plain_robot(r, r.choice([2, 3, 4, 5, 6]), inertial=.7)
    m = py_model(s, 'a', d, r)
    m.load()
    for t in range(10):
        c = r.random()
        if c < .4:
            py_set(m, r, s)
        elif c < .5:
            py_add(m, r)
        elif c < .55:
            s.clear('a')
        py_both(m, r, 't%d' % t)


# ---------------------------------------------------------------- K03 / K04 / K05 Jacobians
def jac_life(rots, bases, adds=True):
    def f(s, r, i):
        d = repo_robot(i) if i < 3 else plain_robot(r)
        m = M(s, 'a', d, r).load()
        for _ in range(r.randrange(0, 3)):
            m.rand_add()
        for t in range(4 if i < 3 else 8):
            m.rand_set()
            if r.random() < .7:
                m.rand_base()
            if r.random() < .2:
                m.rand_add()
            for _ in range(3):
                l = r.choice(m.links) if r.random() < .8 or not m.adds else r.choice(m.adds)[0]
                s.jac('a', l, m.joints_list(), r.choice(rots), r.choice(bases))
    return f


def k03(seed, big):
    out = many('K03', seed, 400 if big else 90, jac_life(['none', 'none', 'rpy'], [False]))

    def pairs(s, r, i):      # every link against every joint, one column at a time and all at once
        d = plain_robot(r, r.choice([3, 4, 5, 6]))
        m = M(s, 'a', d, r).load()
        m.rand_add()
        m.setj(list(m.mv), [jval(r) for _ in m.mv])
        m.rand_base()
        for l in m.links:
            s.jac('a', l, list(m.mv), 'none', False)
            s.jac('a', l, list(reversed(m.mv)), 'none', False)
            for j in m.mv[:4]:
                s.jac('a', l, [j], 'none', False)
    return out + many('K03p', seed, 60 if big else 12, pairs)


def k04(seed, big):
    out = many('K04', seed, 400 if big else 90, jac_life(['rpy', 'xyzw'], [False, False, True]))

    def steep(s, r, i):      # links whose pitch is close to, but not at, +-90 degrees
        d = steep_robot(r)
        m = M(s, 'a', d, r).load()
        m.rand_add()
        for t in range(10):
            v = {j: jval(r) for j in m.mv}
            v['turn z'], v['turn x'] = angle(r), r.choice([angle(r), 0.0])
            v['turn y'] = steep_angle(r)
            m.setj(list(v), list(v.values()))
            if r.random() < .4:
                m.setb(vec3(r), [0.0, 0.0, angle(r)])
            for l in r.sample(m.links, min(3, len(m.links))) + ['tip']:
                s.jac('a', l, list(m.mv), 'rpy', r.random() < .3)
    return out + many('K04s', seed, 60 if big else 14, steep)


def steep_angle(r):
    return r.choice([1, -1]) * (PI / 2 + r.choice([1, -1]) * math.radians(r.choice([.7, 1.0, 2.0, 5.0, r.uniform(.65, 12)])))


def steep_robot(r):
    """a chain turning about z, y and x, with sliding joints and branches in between"""
    links, joints = [{'name': 'base', 'inertial': None}], []

    def add(name, child, typ, axis, parent, o):
        links.append({'name': child, 'inertial': None})
        joints.append({'name': name, 'type': typ, 'parent': parent, 'child': child, 'origin': o, 'axis': axis,
                       'limit': None if typ in ('fixed', 'continuous') else {'lower': -1.0, 'upper': 1.0, 'effort': 1.0, 'velocity': 1.0}})
    at = 'base'
    for k, (name, ax) in enumerate((('turn z', [0.0, 0.0, 1.0]), ('turn y', [0.0, 1.0, 0.0]), ('turn x', [1.0, 0.0, 0.0]))):
        if r.random() < .5:
            add('s%d' % k, 'slid%d' % k, 'prismatic', unit(r), at, (vec3(r), [0.0] * 3))
            at = 'slid%d' % k
        nxt = 'tip' if k == 2 else 'l%d' % k
        add(name, nxt, r.choice(['revolute', 'continuous']), ax, at, (vec3(r), r.choice([None, [0.0] * 3])))
        at = nxt
    if r.random() < .7:
        add('after', 'beyond', r.choice(['revolute', 'prismatic', 'fixed']), unit(r), 'tip', (vec3(r), [angle(r), 0.0, 0.0]))
    return {'links': links, 'joints': joints}


def k05(seed, big):
    out = many('K05', seed, 300 if big else 70, jac_life(ROTS, [True]))

    def seams(s, r, i):      # headings and rolls at and next to +-180 degrees, quaternion signs
        d = plain_robot(r, r.choice([1, 2, 3, 4]))
        m = M(s, 'a', d, r).load()
        m.rand_add()
        for a, c in itertools.product([0.0, PI, -PI, 3.0, PI - 4e-8, -PI + 4e-8], repeat=2):
            m.setb(vec3(r, 2), [a, r.choice([0.0, .4, -1.3]), c])
            if m.mv and r.random() < .3:
                m.setj([r.choice(m.mv)], [r.choice([0.0, PI, -PI, PI / 2])])
            for rot in ROTS:
                s.jac('a', r.choice(m.links), m.joints_list() if r.random() < .3 else [], rot, True)
    return out + many('K05s', seed, 40 if big else 8, seams)


# ---------------------------------------------------------------- K06 added links
def k06(seed, big):
    def absolute(s, r, i):
        d = plain_robot(r, inertial=.5)
        m = M(s, 'a', d, r).load()
        for t in range(8):
            for _ in range(r.randrange(1, 3)):
                m.rand_add()
            s.names('a')
            m.rand_set()
            if r.random() < .5:
                m.rand_base()
            new = [a[0] for a in m.adds]
            s.pose('a', r.sample(new, min(4, len(new))))
            for _ in range(2):
                s.jac('a', r.choice(new), m.joints_list(), r.choice(ROTS), r.random() < .5)
    out = many('K06', seed, 200 if big else 50, absolute)

    def chains(s, r, i):     # deep chains of added links
        d = plain_robot(r, r.choice([1, 2, 3]), inertial=.5)
        m = M(s, 'a', d, r).load()
        par = r.choice(m.links)
        for k in range(r.choice([10, 25, 60])):
            m.add('c%d' % k, par, vec3(r, .3), [angle(r) for _ in range(3)])
            par = 'c%d' % k
            if r.random() < .1:
                m.rand_set()
                s.pose('a', [par])
        m.rand_set()
        s.pose('a', [par])
        s.pose('a', list(m.links)[-5:])
        s.jac('a', par, list(m.mv), 'rpy', True)
        if m.mv:
            m.setj(list(m.mv), [jval(r) for _ in m.mv])
        s.jac('a', par, list(m.mv), 'xyzw', True)
        s.names('a')
    out += many('K06c', seed, 40 if big else 12, chains)

    def undisturbed(s, r, i):     # against a model of the same configuration without any added link
        d = plain_robot(r, r.choice([2, 3, 4, 5, 6]), inertial=.8)
        m = M(s, 'a', d, r).load()
        orig = list(m.links)
        for t in range(14):
            for _ in range(r.randrange(0, 3)):
                m.rand_add()
            if r.random() < .5:
                m.rand_set()
            keep, m.links = m.links, orig
            q = m.question(['pose', 'jac', 'com', 'comjac', 'inertia', 'mass', 'limits', 'getq'])
            m.links = keep
            m.ask_both(q, 't%d' % t, adds=False)
    return out + many('K06u', seed, 120 if big else 35, undisturbed)


# ---------------------------------------------------------------- K07 refused requests
def k07(seed, big):
    def f(s, r, i):
        d = plain_robot(r, r.choice([2, 3, 4, 5, 6]), inertial=.7)
        m = M(s, 'a', d, r).load()
        for t in range(14):
            c = r.random()
            if c < .25:
                m.rand_set()
            elif c < .45:
                m.rand_add()
            elif c < .55:
                m.question()('a')
                s.ops[-1][1]['probe'] = 'skip'
            n = r.choice([1, 1, 2, 3])
            for _ in range(n):
                m.refused()
            s.names('a')
            m.ask_both(m.question(['pose', 'jac', 'com', 'comjac', 'inertia', 'mass', 'limits', 'getq']), 't%d' % t)
            if r.random() < .3:
                s.copy('a', 'b')
                s.names('b')
                b = m.twin('b')
                b.ask_both(b.question(), 'c%d' % t)
                s.destroy('b')
    out = many('K07', seed, 200 if big else 50, f)

    def py(s, r, i):
        d = plain_robot(r, r.choice([2, 3, 4, 5]), inertial=.7)
        m = py_model(s, 'a', d, r)
        m.load()
        for t in range(6):
            c = r.random()
            if c < .3:
                py_set(m, r, s)
            elif c < .6:
                py_add(m, r)
            for _ in range(r.randrange(1, 3)):
                c = r.random()
                if c < .4:
                    s.add('a', r.choice(m.links), r.choice(m.links), vec3(r), [angle(r) for _ in range(3)])
                elif c < .7:
                    rand_misfit(s, m, r)
                    look(s, m, r)
                else:
                    k = r.choice(['link', 'joint'])
                    s.lookup('a', k, [r.choice(m.links + m.mv) if r.random() < .3 else 'no such'] + ['nope'])
            s.names('a')
            h = 'a'
            if r.random() < .7:
                h = 'b%d' % t
                s.pycopy('a', h, r.choice(['copy', 'deepcopy', 'pickle4']))
                s.names(h)
            x = py_model(s, h, d, r)
            x.q, x.b6, x.adds, x.links, x.n = dict(m.q), list(m.b6), list(m.adds), list(m.links), m.n
            py_both(x, r, 't%d' % t)
            if h == 'a':
                m.q, m.b6 = x.q, x.b6
            else:
                s.destroy(h)
    return out + many('K07py', seed, 60 if big else 20, py, 'py')


def look(s, m, r):
    """ask without setting anything"""
    c = r.random()
    if c < .7:
        s.getqv(m.h, list(m.mv), r.choice(['fixed', 'planar', 'floating']))
    if c > .4:
        s.solve(m.h, m.links[:6], [], [[]], [[]], r.choice(ROTS), 'fixed', False)


def rand_misfit(s, m, r):
    """a call with arguments whose lengths do not fit"""
    call = r.choice(['setq', 'setq', 'setq', 'solve', 'solvecom', 'sqd', 'inertiaq', 'forces', 'addpos'])
    js = m.joints_list()
    base = r.choice(['fixed', 'planar', 'floating']) if call != 'inertiaq' else 'fixed'
    lk = [r.choice(m.links) for _ in range(r.randrange(1, 4))]
    row = lambda n: [angle(r) for _ in range(n)]
    need = len(js) + {'fixed': 0, 'planar': 3, 'floating': 6}[base]
    wrong = r.choice([n for n in (need - 1, need + 1, need - 3, need + 3, need + 6, len(js), 0, 2 * need) if n >= 0 and n != need])
    if call == 'forces':
        s.misfit(m.h, call, js, [row(r.choice([n for n in (0, len(lk) - 1, len(lk) + 1, len(lk) + 2) if n != len(lk)]))], base, lk)
    elif call == 'addpos':
        s.misfit(m.h, call, js, [row(r.choice([0, 1, 2, 4, 6]))], 'fixed', lk)
    elif call in ('setq', 'inertiaq'):
        s.misfit(m.h, call, js, [row(wrong)], base, lk, r.choice(['array', 'lists']))
    else:
        n = r.choice([1, 1, 2, 3, 4])
        rows = [row(wrong) for _ in range(n)] if r.random() < .5 else [row(need) for _ in range(n)]
        if not any(len(x) != need for x in rows):
            rows[r.randrange(n)] = row(wrong)
        s.misfit(m.h, call, js, rows, base, lk, r.choice(['array', 'list', 'lists']))


# ---------------------------------------------------------------- K08 names and ids
def k08(seed, big):
    def f(s, r, i):
        d = repo_robot(i) if i < 3 else plain_robot(r)
        if i >= 3 and r.random() < .5:
            d = slashed(d, r)
        st = None if i < 3 else Style(r, 1)
        m = M(s, 'a', d, r).load(st=st)
        s.names('a')
        ask_near_misses(s, m, r, 8)
        s.lookup('a', 'link', list(m.links))
        s.lookup('a', 'joint', list(m.mv))
        s.lookup('a', 'joint', [j['name'] for j in d['joints']][:6])
        # fixed joints have no id
        fixed = [j['name'] for j in d['joints'] if j['type'] == 'fixed']
        if fixed:
            s.lookup('a', 'joint', [r.choice(fixed)])
        for t in range(6):
            for _ in range(r.randrange(0, 3)):
                m.rand_add()
            if r.random() < .5:
                m.refused()
            if r.random() < .5:
                m.rand_set()
                m.question(['pose', 'jac'])('a')
                s.ops[-1][1]['probe'] = 'skip'
            s.names('a')
            js = r.sample(m.links, r.randrange(1, len(m.links) + 1))
            s.lookup('a', 'link', js)
            s.lookup('a', 'link', [r.choice(m.links)] * 2)
            s.lookup('a', 'joint', m.joints_list())
            ask_near_misses(s, m, r, 3)
        # the same description, however written, in this process and in another one: the same ids
        if i >= 3:
            s.load('b', d, st=Style(r, 1))
            s.load('c', shuffled(d, r), st=Style(r, 1))
            s.names('b')
            s.on('core.ref')
            s.load('z', shuffled(d, r))
            s.names('z')
            s.on('core')
            s.copy('a', 'e')
            s.names('e')
            s.lookup('e', 'link', list(m.links))
    out = many('K08', seed, 200 if big else 60, f)

    def py(s, r, i):
        d = plain_robot(r)
        m = py_model(s, 'a', d, r)
        m.load(st=Style(r, 1))
        for t in range(4):
            s.names('a')
            s.lookup('a', 'link', list(m.links))
            s.lookup('a', 'joint', m.joints_list())
            ask_near_misses(s, m, r, 3)
            py_add(m, r)
            py_set(m, r, s)
        s.names('a')
    return out + many('K08py', seed, 30 if big else 10, py, 'py')


def near_misses(m, r):
    """names that are almost names of the model"""
    res = []
    for known in (m.links, m.mv):
        for n in r.sample(known, min(2, len(known))):
            res += [n + ' ', ' ' + n, n + '/', '/' + n, n.lstrip('/'), n.rstrip('/'), n.upper(), n.lower(), n.capitalize(), n.swapcase(), n + '_com',
                    n[1:], n[:-1], n + n, n + '\t', n.replace('_', '-'), n.replace(' ', '_'), n.replace(' ', ''), n.strip(),
                    n.split('/')[-1], n.split(':')[-1], n.split('.')[0], n + '0', '0' + n, n + '_link', n.replace('_link', ''), '::' + n, n + '#', '"%s"' % n,
                    n[:len(n) // 2], n[:31], n[:32], n[:63], n[:64], n[:127], n[:128], n[:255], n[:256], n + 'x' * 64, n[:64] + n[65:]]
    res += ['', ' ', '0', '-1', 'world', 'base', 'root', 'base_link', '/', '_', '*', '.']
    return res


def ask_near_misses(s, m, r, n=6):
    bad = r.sample(near_misses(m, r), n)
    for b in bad:
        kind = r.choice(['link', 'link', 'joint'])
        known = m.links if kind == 'link' else m.mv
        s.lookup(m.h, kind, r.sample(known, min(len(known), r.randrange(0, 2))) + [b])


LONG = 'a_rather_long_name_' * 15     # names that differ only after many characters


def slashed(d, r):
    """other names, with the characters that names of frames have"""
    d = clone(d)
    if r.random() < .3:
        n = r.choice([15, 31, 32, 60, 63, 64, 120, 127, 128, 250, 260])
        f = lambda x: LONG[:n] + x
    else:
        f = lambda n: r.choice(['/%s', '%s/', 'ns/%s', '//%s', 'a::%s', '%s.1', ' %s', '%s ', '%s', '%s_com', '%s', LONG + '%s', '%s' + LONG, LONG[:60] + '%s']) % n
    ren = {l['name']: f(l['name']) for l in d['links']}
    for l in d['links']:
        l['name'] = ren[l['name']]
    for j in d['joints']:
        j['parent'], j['child'] = ren[j['parent']], ren[j['child']]
        j['name'] = f(j['name'])
    return d


def shuffled(d, r):
    x = dict(d)
    x['links'] = r.sample(d['links'], len(d['links']))
    x['joints'] = r.sample(d['joints'], len(d['joints']))
    return x


# ---------------------------------------------------------------- K09 / K10 mass properties
def k09(seed, big):
    def f(s, r, i):
        d = repo_robot(i) if i < 3 else plain_robot(r, inertial=r.choice([.3, .7, 1.0]))
        m = M(s, 'a', d, r).load()
        s.mass('a')
        for t in range(3 if i < 3 else 10):
            m.rand_set()
            if r.random() < .4:
                m.rand_base()
            if r.random() < .2:
                m.rand_add()
            ks = ['com', 'comjac', 'comjac', 'mass']
            r.shuffle(ks)
            for k in ks[:3]:
                m.question([k])('a')
    return many('K09', seed, 300 if big else 80, f)


def k10(seed, big):
    def f(s, r, i):
        d = repo_robot(i) if i < 3 else plain_robot(r, inertial=r.choice([.3, .7, 1.0]))
        m = M(s, 'a', d, r).load()
        for t in range(3 if i < 3 else 12):
            m.rand_set()
            if r.random() < .4:
                m.rand_base()
            if r.random() < .2:
                m.rand_add()
            if r.random() < .3:
                m.question(['pose', 'com'])('a')
                s.ops[-1][1]['probe'] = 'skip'
            s.inertia('a')
    out = many('K10', seed, 250 if big else 60, f)

    def py(s, r, i):     # one call: set and ask
        d = plain_robot(r, inertial=.8)
        m = py_model(s, 'a', d, r)
        m.load()
        for t in range(8):
            if r.random() < .5:
                py_set(m, r, s)
            js = r.sample(m.mv, r.randrange(0, len(m.mv) + 1))
            s.inertiaq('a', js, [jval(r) for _ in js])
    return out + many('K10py', seed, 60 if big else 20, py, 'py')


# ---------------------------------------------------------------- K11 limits
def limit_doc(combos):
    links = [{'name': 'base', 'inertial': None}]
    joints = []
    for k, (t, lim) in enumerate(combos):
        links.append({'name': 'l%03d' % k, 'inertial': None})
        joints.append({'name': 'j%03d' % k, 'type': t, 'parent': 'base', 'child': 'l%03d' % k, 'origin': None, 'axis': [0.0, 0.0, 1.0], 'limit': lim})
    return {'links': links, 'joints': joints}


def k11(seed, big):
    vals = [0.0, -1.5, 2.25, 1e-9, 1e12, -0.1, 1 / 3, 123456.789]
    combos = []
    r = sub(seed, 'K11')
    for t in ('revolute', 'continuous', 'prismatic', 'fixed'):
        for lo, hi in itertools.product([None, 1, 2], repeat=2):
            combos.append((t, {'lower': lo and r.choice(vals), 'upper': hi and r.choice(vals),
                               'effort': r.choice(vals), 'velocity': r.choice(vals)}))
        if t in ('continuous', 'fixed'):
            combos.append((t, None))

    def f(s, r, i):
        c = list(combos)
        r.shuffle(c)
        d = limit_doc(c) if i < 4 else wide(plain_robot(r), r)
        m = M(s, 'a', d, r).load(st=Style(r, 1) if i % 2 else None)
        for t in range(10):
            js = m.joints_list()
            s.limits('a', js)
            if r.random() < .3:
                m.rand_set()
                m.rand_add()
        s.limits('a', list(m.mv))
        for j in m.mv[:12]:
            s.limits('a', [j])
    out = many('K11', seed, 200 if big else 60, f)

    def py(s, r, i):
        c = list(combos)
        r.shuffle(c)
        d = limit_doc(c) if i < 2 else repo_robot(i) if i < 5 else plain_robot(r)
        m = py_model(s, 'a', d, r)
        m.load()
        for t in range(6):
            s.poslimits('a', m.joints_list())
        s.poslimits('a', list(m.mv))
        s.pycopy('a', 'b', 'pickle4')
        s.poslimits('b', list(m.mv))
    return out + many('K11py', seed, 30 if big else 10, py, 'py')


# ---------------------------------------------------------------- K12 spelling
def k12(seed, big):
    def f(s, r, i):
        if i % 5 == 4:
            s.locale()
        d = plain_robot(r, r.choice([1, 2, 3, 4, 5, 6, 8]), inertial=.6)
        if r.random() < .5:
            d = minimal(d, r)
        if r.random() < .6:
            d = decorate(d, r)
        d = wide(d, r)
        for k in range(4):
            h = 'abcd'[k]
            m = M(s, h, shuffled(d, r) if k else d, r)
            how = r.choice(['str', 'str', 'file'])
            xml = to_xml(m.d, Style(r, 1 if k else 0))
            s.load(h, m.d, xml=xml) if how == 'str' else s.load(h, m.d, path=scratch(xml))
            s.names(h)
            s.limits(h, list(m.mv))
            s.mass(h)
            m.setj(list(m.mv), [jval(r) for _ in m.mv])
            m.rand_base()
            s.pose(h, list(m.links)[:8])
            s.jac(h, r.choice(m.links), list(m.mv), r.choice(ROTS), True)
            s.com(h)
            s.inertia(h)
    return many('K12', seed, 250 if big else 60, f)


def wide(d, r):
    """limits with any numbers (here joints are set whatever their limits are)"""
    d = dict(d, joints=[dict(j) for j in d['joints']])
    for j in d['joints']:
        if j['limit'] and r.random() < .4:
            j['limit'] = {k: v if v is None or r.random() < .5 else figure(r) if k in ('lower', 'upper') else abs(figure(r)) for k, v in j['limit'].items()}
    return d


def minimal(d, r):
    """leave out what may be left out"""
    d = {'links': [dict(l) for l in d['links']], 'joints': [dict(j) for j in d['joints']]}
    for j in d['joints']:
        c = r.random()
        if c < .3:
            j['origin'] = None
        elif c < .5 and j['origin']:
            j['origin'] = (None, j['origin'][1])
        elif c < .7 and j['origin']:
            j['origin'] = (j['origin'][0], None)
        if r.random() < .4:
            j['axis'] = None
        if j['type'] == 'continuous' and r.random() < .5:
            j['limit'] = None
        if j['limit']:
            j['limit'] = dict(j['limit'])
            for k in ('lower', 'upper'):
                if r.random() < .4:
                    j['limit'][k] = None
    keep = r.randrange(len(d['links']))
    for k, l in enumerate(d['links']):
        if k != keep and r.random() < .4 and any(x['inertial'] and x['inertial']['mass'] > 0 for x in d['links'] if x is not l):
            l['inertial'] = None
        elif l['inertial'] and r.random() < .4:
            l['inertial'] = dict(l['inertial'], origin=None)
    return d


def decorate(d, r):
    """unrelated content: visuals, collisions, materials, dynamics, ..."""
    d = dict(d, links=[dict(l) for l in d['links']], joints=[dict(j) for j in d['joints']])
    mats = [{'name': n, 'color': [r.random() for _ in range(4)]} for n in r.sample(['red', 'blue', 'm 1', 'grey'], r.randrange(0, 4))]
    d['materials'] = mats

    def geom():
        c = r.randrange(4)
        if c == 0:
            return {'shape': 'sphere', 'dims': [r.uniform(.1, 2)]}
        if c == 1:
            return {'shape': 'box', 'dims': [r.uniform(.1, 2) for _ in range(3)]}
        if c == 2:
            return {'shape': 'cylinder', 'dims': [r.uniform(.1, 2) for _ in range(2)]}
        return {'shape': 'mesh', 'file': r.choice(['package://a/b.dae', 'x.stl', 'a b.stl']), 'dims': [r.uniform(.1, 2) for _ in range(3)] if r.random() < .5 else []}
    for l in d['links']:
        l['visuals'] = [{'name': r.choice([None, 'v']), 'origin': origin(r), 'geom': geom(),
                         'material': ({'name': r.choice(mats)['name']} if mats and r.random() < .5 else
                                      {'name': r.choice(['own', 'inline2']) + str(r.randrange(9)), 'color': [r.random() for _ in range(4)]})
                         if r.random() < .6 else None} for _ in range(r.randrange(0, 3))]
        l['collisions'] = [{'name': r.choice([None, 'c']), 'origin': origin(r), 'geom': geom()} for _ in range(r.randrange(0, 3))]
    for j in d['joints']:
        if r.random() < .3:
            j['dynamics'] = {'damping': r.random(), 'friction': r.random()}
        if r.random() < .3:
            j['safety_controller'] = {'k_velocity': r.random(), 'k_position': r.random(), 'soft_lower_limit': -r.random(), 'soft_upper_limit': r.random()}
        if r.random() < .3:
            j['calibration'] = {'rising': r.random()}
    return d


_scratch = []
SCRATCH = None     # where to put them


def scratch(xml):
    """a file with this description, named by content, in the run's scratch directory"""
    import hashlib, os, tempfile
    if not _scratch:
        _scratch.append(tempfile.mkdtemp(prefix='k12', dir=SCRATCH))
    p = os.path.join(_scratch[0], hashlib.sha256(xml.encode()).hexdigest()[:20] + '.urdf')
    with open(p, 'w', newline='') as f:
        f.write(xml)
    return p


# ---------------------------------------------------------------- K14 batches
def k14(seed, big):
    def f(s, r, i):
        d = repo_robot(i) if i < 2 else plain_robot(r, r.choice([1, 2, 3, 4, 5, 6, 8]))
        m = py_model(s, 'a', d, r)
        m.load()
        for _ in range(r.randrange(0, 3)):
            py_add(m, r)
        for t in range(4 if i < 2 else 8):
            if r.random() < .3:
                py_set(m, r, s)
            base, rot, jac = r.choice(['fixed', 'planar', 'floating']), r.choice(ROTS), r.random() < .75
            js = m.joints_list()
            if len(js) != len(set(js)) or r.random() < .3:
                js = list(m.mv)
            ls = [r.choice(m.links) for _ in range(r.randrange(1, 4))]
            nw = height(r, js, base, [1, 1, 2, 3, 4])
            qs = [[jval(r) for _ in js] for _ in range(nw)]
            bs = [bcoords(r, base) for _ in range(nw)]
            if nw > 1 and r.random() < .4:      # only a little changes between rows
                qs = [list(qs[0]) for _ in qs]
                for q in qs[1:]:
                    if q:
                        q[r.randrange(len(q))] += r.choice([0.0, 1e-6, .3])
            form = r.choice(['array', 'array', 'list', 'lists', 'fortran'] + (['one'] if nw == 1 else []))
            batch_with_refs(m, 't%d' % t, ls, js, qs, bs, rot, base, jac, form)
            if r.random() < .25:
                # the same configuration again, this time trusting the memo
                s.mark(refs=s.ops[-1][1]['refs'][-1:])
                s.solve('a', ls, js, qs[-1:], bs[-1:], rot, base, jac, 'array', cache=True)
    out = many('K14', seed, 150 if big else 40, f, 'py')

    def empty(s, r, i):
        d = plain_robot(r, 4)
        m = py_model(s, 'a', d, r)
        m.load()
        py_set(m, r, s)
        for base in ('fixed', 'planar', 'floating'):
            s.mark(refs=[])
            s.solve('a', [r.choice(m.links)], list(m.mv), [], [], r.choice(ROTS), base, True)
            s.mark(refs=[])
            s.solve('a', [], list(m.mv), [], [], r.choice(ROTS), base, True)
        s.getqv('a', list(m.mv), 'floating')
    return out + many('K14e', seed, 2, empty, 'py')


def batch_with_refs(m, tag, ls, js, qs, bs, rot, base, jac, form):
    s = m.s
    refs = []
    was = s.proc
    s.on('core.ref')
    rh = 'R' + tag
    s.load(rh, m.d)
    for a in m.adds:
        s.add(rh, *a)
    q, b6 = dict(m.q), list(m.b6)
    for w in range(len(qs)):
        for j, v in zip(js, qs[w]):
            q[j] = v
        if base == 'planar':
            b6 = [bs[w][0], bs[w][1], 0.0, 0.0, 0.0, bs[w][2]]
        elif base == 'floating':
            b6 = list(bs[w])
        s.setj(rh, list(m.mv), [q[j] for j in m.mv])
        s.setb(rh, b6[:3], b6[3:])
        row = []
        for k, l in enumerate(ls):
            t = '%s.%d.%d' % (tag, w, k)
            s.mark(probe=t)
            s.pose(rh, [l])
            if jac:
                s.mark(probe=t + 'j')
                s.jac(rh, l, js, rot, base != 'fixed')
            row.append([t, t + 'j'])
        refs.append(row)
    s.destroy(rh)
    s.on(was)
    m.q, m.b6 = q, b6
    s.mark(refs=refs)
    s.solve(m.h, ls, js, qs, bs, rot, base, jac, form)


# ---------------------------------------------------------------- K15 / K16
def k15(seed, big):
    def f(s, r, i):
        d = repo_robot(0) if i == 0 else plain_robot(r, r.choice([1, 2, 3, 4, 5, 6, 8]))
        m = py_model(s, 'a', d, r)
        m.load()
        for _ in range(r.randrange(0, 3)):
            py_add(m, r)
        for t in range(8):
            base = r.choice(['fixed', 'planar', 'floating'])
            js = m.joints_list()
            if len(set(js)) != len(js):
                js = list(m.mv)
            nw = height(r, js, base, [1, 2, 3])
            qs = [[jval(r) for _ in js] for _ in range(nw)]
            bs = [bcoords(r, base) for _ in range(nw)]
            prs = [(r.choice(m.links), r.choice(m.links)) for _ in range(r.randrange(1, 5))]
            if r.random() < .4:
                l = r.choice(m.links)
                prs.insert(r.randrange(len(prs) + 1), (l, l))
            s.sqd('a', prs, js, qs, bs, base, r.random() < .8, r.choice(['array', 'list', 'fortran']))
            if r.random() < .3:
                py_set(m, r, s)
    return many('K15', seed, 200 if big else 50, f, 'py')


def k16(seed, big):
    def f(s, r, i):
        d = repo_robot(0) if i == 0 else plain_robot(r, r.choice([1, 2, 3, 4, 5, 6]), inertial=.7)
        m = py_model(s, 'a', d, r)
        m.load()
        for _ in range(r.randrange(0, 3)):
            py_add(m, r)
        for t in range(8):
            base = r.choice(['fixed', 'planar', 'floating'])
            js = m.joints_list()
            if len(set(js)) != len(js):
                js = list(m.mv)
            nw = height(r, js, base, [1, 2, 3])
            qs = [[jval(r) for _ in js] for _ in range(nw)]
            bs = [bcoords(r, base) for _ in range(nw)]
            ls = [r.choice(m.links) for _ in range(r.randrange(0, 4))]
            fs = safe_forces(m.d, [r.choice([1.0, .01, 500.0, 0.0, r.uniform(.1, 20), -r.uniform(.1, 20), -.5]) for _ in ls])
            s.solvecom('a', js, qs, bs, ls, fs, base, r.random() < .8,
                       r.choice(['array', 'list', 'lists', 'fortran'] + (['one'] if nw == 1 else [])), explicit=bool(ls) or r.random() < .5)
            if r.random() < .3:
                py_set(m, r, s)
    return many('K16', seed, 200 if big else 50, f, 'py')


def height(r, js, base, choices):
    """how many rows; also exactly as many as columns, joints or coordinates of the base"""
    w = len(js) + {'fixed': 0, 'planar': 3, 'floating': 6}[base]
    return r.choice([n for n in (w, w, len(js), w - len(js)) if 0 < n < 14] or [1]) if r.random() < .25 else r.choice(choices)


def safe_forces(d, fs):
    """forces may pull upward, but what is left must not vanish"""
    w = sum(l['inertial']['mass'] for l in d['links'] if l['inertial'])     # forces and masses are weighed alike
    t = w + sum(fs)
    return fs if abs(t) > .05 * (w + sum(map(abs, fs))) else [abs(f) for f in fs]


# ---------------------------------------------------------------- K17 copies
def k17(seed, big):
    def core(s, r, i):
        d = plain_robot(r, r.choice([2, 3, 4, 5]), inertial=.7)
        ms = {'a': M(s, 'a', d, r).load()}
        t = n = 0
        for _ in range(26):
            h = r.choice(list(ms))
            m = ms[h]
            c = r.random()
            if c < .2:
                m.rand_set()
            elif c < .35:
                m.rand_add('x' + h)
            elif c < .42:
                m.refused()
            elif c < .55 and len(ms) < 5:
                n += 1
                h2 = 'c%d' % n
                if r.random() < .3 and len(ms) > 1:      # assignment onto a live model
                    h2 = r.choice([x for x in ms if x != h])
                    s.assign(h, h2)
                else:
                    s.copy(h, h2)
                ms[h2] = m.twin(h2)
                s.names(h2)
            elif c < .6 and len(ms) > 1:
                s.destroy(h)
                del ms[h]
            else:
                t += 1
                if r.random() < .3:
                    s.names(h)
                m.ask_both(m.question(['pose', 'jac', 'com', 'comjac', 'inertia', 'getq', 'mass', 'limits']), 't%d' % t)
    out = many('K17', seed, 150 if big else 40, core)

    def py(s, r, i):
        d = plain_robot(r, r.choice([2, 3, 4, 5]), inertial=.7)
        m = py_model(s, 'a', d, r)
        m.load()
        ms = {'a': m}
        t = n = 0
        for _ in range(18):
            h = r.choice(list(ms))
            m = ms[h]
            c = r.random()
            if c < .2:
                py_set(m, r, s)
            elif c < .35:
                m.n += 1
                m.add('%s_%d' % (h, m.n), r.choice(m.links), vec3(r), [angle(r) for _ in range(3)], 'rpy', r.choice(['arr', 'reused']))
            elif c < .42:
                s.add(h, r.choice(m.links), r.choice(m.links), vec3(r), [0.0] * 3)
            elif c < .62 and len(ms) < 5:
                n += 1
                h2 = 'c%d' % n
                s.pycopy(h, h2, r.choice(['copy', 'deepcopy', 'pickle0', 'pickle2', 'pickle4', 'pickle5']))
                x = py_model(s, h2, d, r)
                x.q, x.b6, x.adds, x.links, x.n = dict(m.q), list(m.b6), list(m.adds), list(m.links), m.n
                ms[h2] = x
                s.names(h2)
                s.getqv(h2, list(m.mv), 'floating')
            elif c < .67 and len(ms) > 1:
                s.destroy(h)
                del ms[h]
            else:
                t += 1
                if r.random() < .3:
                    s.getqv(h, list(m.mv), 'floating')
                py_both(m, r, 't%d' % t)
    return out + many('K17py', seed, 100 if big else 30, py, 'py')


# ---------------------------------------------------------------- K18 read back
def k18(seed, big):
    def core(s, r, i):
        d = repo_robot(i) if i < 3 else plain_robot(r)
        m = M(s, 'a', d, r).load()
        s.getq('a', list(m.mv))
        for t in range(14):
            m.rand_set()
            if r.random() < .3:
                m.rand_base()
            if r.random() < .2:
                m.rand_add()
            if r.random() < .2:
                m.question()('a')
                s.ops[-1][1]['probe'] = 'skip'
            if r.random() < .1:
                m.refused()
            if r.random() < .1:
                m.reset()
            s.getq('a', m.joints_list())
        s.getq('a', list(m.mv))
    out = many('K18', seed, 200 if big else 50, core)

    def py(s, r, i):
        d = repo_robot(i) if i < 3 else plain_robot(r)
        m = py_model(s, 'a', d, r)
        m.load()
        for base in ('fixed', 'planar', 'floating'):
            s.getqv('a', list(m.mv), base)
        for t in range(12):
            c = r.random()
            if c < .6:
                py_set(m, r, s)
            elif c < .7:
                py_add(m, r)
            else:
                k, js, qs, bs, base, q = py_question(m, r, s)
                s.mark(probe='skip')
                q('a')
                py_effect(m, js, qs, bs, base)
            for base in r.sample(['fixed', 'planar', 'floating'], 2):
                s.getqv('a', m.joints_list(), base)
        s.getqv('a', list(m.mv), 'floating')
    return out + many('K18py', seed, 100 if big else 30, py, 'py')


# ---------------------------------------------------------------- K19 several models
def k19(seed, big):
    def f(s, r, i):
        """models in one process; each also lives alone, in a process of its own, with the same calls"""
        docs = [plain_robot(r, r.choice([2, 3, 4, 5]), inertial=.7)]
        docs.append(r.choice([docs[0], plain_robot(r, r.choice([2, 3, 4]), inertial=.7), variant(docs[0], r)]))
        docs.append(r.choice([docs[0], variant(docs[1], r)]))
        alive = {}
        t = 0

        def both(m, f, tag=None):
            s.on('core#' + m.h)
            if tag:
                s.mark(probe=tag)
            f('solo_' + m.h)
            s.on('core')
            if tag:
                s.mark(cmp=tag)
            f(m.h)
        for _ in range(30):
            c = r.random()
            if c < .15 or not alive:
                h = r.choice('abcd')
                d = r.choice(docs)
                m = M(s, h, d, r)
                if r.random() < .1:       # a refused load in between
                    s.load('bad', {'syntax': 'ok', 'links': [{'name': 'x'}, {'name': 'x'}], 'joints': []})
                both(m, lambda k: s.load(k, d))
                alive[h] = m
                continue
            m = alive[r.choice(list(alive))]
            if c < .2 and len(alive) > 1:
                both(m, s.destroy)
                del alive[m.h]
            elif c < .4:
                k = len(s.ops)
                m.rand_set()
                replay_last(s, m, k)
            elif c < .52:
                k = len(s.ops)
                m.rand_add()
                replay_last(s, m, k)
            elif c < .58:
                k = len(s.ops)
                m.refused()
                replay_last(s, m, k)
            else:
                t += 1
                both(m, m.question(['pose', 'jac', 'com', 'comjac', 'inertia', 'getq', 'mass', 'limits']), 't%d' % t)
    out = many('K19', seed, 120 if big else 36, f)

    def threads(s, r, i):
        """every model in a thread of its own, all at the same time"""
        docs = [plain_robot(r, r.choice([2, 3, 4]), inertial=.7) for _ in range(2)]
        ms = []
        for k in range(r.choice([2, 3, 4])):
            m = M(s, 'm%d' % k, r.choice(docs), r)
            s.thread = k + 1 if i % 2 else None
            ms.append(m.load(st=Style(r, 1) if r.random() < .3 else None))
        for _ in range(2):
            for k, m in enumerate(ms):
                s.thread = k + 1
                for _ in range(8):
                    c = r.random()
                    if c < .3:
                        m.rand_set()
                    elif c < .4:
                        m.rand_add()
                    elif c < .45:
                        m.refused()
                    elif c < .5:
                        s.names(m.h)
                        s.lookup(m.h, 'link', list(m.links))
                    elif c < .55:
                        s.load('own%d' % k, r.choice(docs))
                        s.names('own%d' % k)
                    else:
                        m.question(['pose', 'jac', 'com', 'comjac', 'inertia', 'getq', 'mass', 'limits'])(m.h)
            s.together([m.h for m in ms] + ['own%d' % k for k in range(len(ms))])
        for m in ms:
            s.pose(m.h, list(m.links))
    out += many('K19t', seed, 60 if big else 12, threads, 'tsan')

    def py(s, r, i):
        docs = [plain_robot(r, r.choice([2, 3, 4]), inertial=.7)]
        docs.append(r.choice([docs[0], variant(docs[0], r)]))
        ms = {}
        for h in 'abc':
            m = py_model(s, h, r.choice(docs), r)
            m.load()
            ms[h] = m
        for t in range(9):
            m = ms[r.choice('abc')]
            c = r.random()
            if c < .35:
                py_set(m, r, s)
            elif c < .6:
                py_add(m, r)
            py_both(ms[r.choice('abc')], r, 't%d' % t)
    return out + many('K19py', seed, 40 if big else 12, py, 'py')


def variant(d, r):
    """the same names, other numbers"""
    x = {'links': [dict(l) for l in d['links']], 'joints': [dict(j) for j in d['joints']]}
    for j in x['joints']:
        if r.random() < .6:
            j['origin'] = origin(r)
        if r.random() < .4:
            j['axis'] = unit(r)
    for l in x['links']:
        if l['inertial'] and r.random() < .6:
            l['inertial'] = dict(l['inertial'], origin=origin(r), mass=r.uniform(.1, 9))
    return x


def replay_last(s, m, k):
    """repeat the calls since k on the solo twin"""
    for line, ev, proc in list(s.ops[k:]):
        w = line.split(' ')
        assert w[1] == m.h, line
        w[1] = 'solo_' + m.h
        s.on('core#' + m.h)
        s(' '.join(w), dict(ev, h='solo_' + m.h))
        s.on('core')


# ---------------------------------------------------------------- K21 export
def k21(seed, big):
    def f(s, r, i):
        if i % 5 == 4:
            s.locale()
        d = repo_robot(i) if i < 3 else plain_robot(r, inertial=.6)
        if i >= 3:
            if r.random() < .5:
                d = decorate(d, r)
            d = wide(regular(d), r)
        xml = None if i < 3 else to_xml(d, Style(r, r.randrange(2)))
        o = M(s, 'o', d, r)
        s.load('o', d, xml=xml)
        hs_ = ['e1'] if r.random() < .5 else ['e1', 'e2', 'e3']
        for k, h in enumerate(hs_):
            s.export(h, d, times=k + 1, xml=xml)
        t = 0
        for h in hs_:
            e = M(s, h, d, r)
            s.names(h)
            todo = [['limits'], ['mass'], ['com'], ['inertia'], ['pose'], ['jac'], ['jac'], ['comjac']]
            for kinds in todo:
                t += 1
                if o.mv:
                    js, vs = list(o.mv), [jval(r) for _ in o.mv]
                    s.setj('o', js, vs)
                    s.setj(h, js, vs)
                p, rr = base_rpy(r)
                s.setb('o', p, rr)
                s.setb(h, p, rr)
                q = (lambda js: lambda h: s.limits(h, js))(list(o.mv)) if kinds == ['limits'] else o.question(kinds)
                s.mark(probe='t%d' % t)
                q('o')
                s.mark(cmp='t%d' % t, exact=False)
                q(h)
    return many('K21', seed, 200 if big else 45, f)


def regular(d):
    """offsets away from the roll-pitch-yaw singularity, where exporting loses up to half a degree"""
    def fix(o):
        if o is None or o[1] is None or abs(math.cos(o[1][1])) > .02:
            return o
        return (o[0], [o[1][0], o[1][1] - .1, o[1][2]])
    d = dict(d, links=[dict(l) for l in d['links']], joints=[dict(j, origin=fix(j['origin'])) for j in d['joints']])
    for l in d['links']:
        if l['inertial']:
            l['inertial'] = dict(l['inertial'], origin=fix(l['inertial']['origin']))
        for k in ('visuals', 'collisions'):
            if k in l:
                l[k] = [dict(v, origin=fix(v['origin'])) for v in l[k]]
    return d



# ---------------------------------------------------------------- K13 faults
def k13(seed, big):
    out = []
    for i in range(24 if big else 6):
        r = sub(seed, 'K13', i)
        d = plain_robot(r, r.choice([2, 3, 4, 5]), inertial=.6)
        if not movable(d):
            d = robot(r, 4, 'tree', types=['revolute', 'prismatic'])
        fs = list(faults(d, r))
        for a in range(0, len(fs), 12):
            s = Scen('K13-%d-%d' % (i, a))
            m = M(s, 'ok', d, r).load()
            for what, x in fs[a:a + 12]:
                s.mark(what=what)
                st = Style(r, 1) if r.random() < .3 else None
                s.load('bad', x, xml=x['xml'] if 'xml' in x else to_xml(x, st))
            # the model loaded before is not affected
            m.rand_set()
            m.question(['pose', 'jac', 'com'])('ok')
            s.names('ok')
            out.append(s)

    def valid(s, r, i):
        """odd but valid descriptions load, and mean what they say"""
        d = plain_robot(r, r.choice([1, 1, 2, 3, 5]), inertial=r.choice([0, .5, 1.0]))
        d = odd(d, r)
        m = M(s, 'a', d, r).load(st=Style(r, r.randrange(2)))
        s.names('a')
        m.rand_set()
        s.pose('a', list(m.links)[:6])
        if m.mv:
            s.limits('a', list(m.mv))
        for _ in range(3):
            x = breaks(odd(plain_robot(r, r.choice([2, 3, 4]), inertial=.5), r), r)
            s.mark(what='random')
            s.load('b', x, st=Style(r, r.randrange(2)))
    out += many('K13v', seed, 150 if big else 40, valid)

    def large(s, r, i):
        """long chains, wide trees, long text"""
        n = r.choice([60, 100, 150])
        shape = i % 3
        links = [{'name': 'l%d' % k, 'inertial': None} for k in range(n)]
        joints = [dict(simple_joint('j%d' % k, 'l%d' % {0: k - 1, 1: 0, 2: (k - 1) // 2}[shape], 'l%d' % k), type=r.choice(['fixed', 'continuous']))
                  for k in range(1, n)]
        d = shuffled({'links': links, 'joints': joints}, r)
        pad = '<!--%s-->' % ('x -' * r.choice([10, 30000]))
        s.load('a', d, xml=to_xml(d).replace('</robot>', pad + '</robot>'))
        s.setj('a', [j['name'] for j in joints if j['type'] == 'continuous'], [.1] * sum(j['type'] == 'continuous' for j in joints))
        s.pose('a', ['l%d' % (n - 1), 'l0', 'l%d' % (n // 2)])
        bad = clone(d)
        r.choice(bad['joints'])['parent'] = r.choice(['l%d' % (n - 1), 'nowhere'])
        s.load('b', bad)
    out += many('K13l', seed, 12 if big else 3, large)

    def py(s, r, i):
        d = robot(r, 4, 'tree', types=['revolute', 'prismatic', 'continuous'])
        m = py_model(s, 'ok', d, r)
        m.load()
        fs = list(faults(d, r))
        for what, x in r.sample(fs, 10):
            s.mark(what=what)
            s.load('bad', x, xml=x['xml'] if 'xml' in x else to_xml(x))
        s.names('ok')
    out += many('K13py', seed, 12 if big else 3, py, 'py')
    return out


def clone(d):
    import copy
    return copy.deepcopy({k: v for k, v in d.items() if k != 'path'})


BADNUM = ['', 'abc', '1.0x', '0x10', '1,5', '--1', '1e', '1 2', 'nan()', '1.2.3', '+-1']
BADVEC = ['', ' ', '1 2', '1 2 3 4', '1 2 x', '1,2,3', 'a b c', '1 2 3x', '0x1 0 0', '1 2 --3']


def faults(d, r):
    """every single fault, at every place (a sample of the malformed numbers)"""
    def one(what, f):
        x = clone(d)
        f(x)
        return what, x
    n, k = len(d['links']), len(d['joints'])
    for i in range(k):
        j = d['joints'][i]
        for f in ('name', 'type', 'parent', 'child'):
            yield one('joint without ' + f, lambda x: x['joints'][i].update({f: None}))
        for t in ('floating', 'planar', 'screw', 'Revolute', '', 'ball'):
            yield one('joint type ' + t, lambda x: x['joints'][i].update(type=t))
        for f in ('parent', 'child'):
            for v in ('no such link', '', (j[f] + ' '), j[f].upper() + '_'):
                if v not in link_names(d):
                    yield one(f + ' is not a link', lambda x: x['joints'][i].update({f: v}))
        for m in range(k):
            if m != i:
                yield one('joint name twice', lambda x: x['joints'][i].update(name=d['joints'][m]['name']))
        for l in link_names(d):
            if l != j['parent']:
                yield one('parent redirected', lambda x: x['joints'][i].update(parent=l))
            if l != j['child']:
                yield one('child redirected', lambda x: x['joints'][i].update(child=l))
        yield one('joint missing', lambda x: x['joints'].pop(i))
        # the same joint again, as it is or almost
        yield one('joint again', lambda x: x['joints'].append(clone(j)))
        yield one('joint again, first', lambda x: x['joints'].insert(0, clone(j)))
        yield one('joint again, moved', lambda x: x['joints'].append(dict(clone(j), origin=origin(r))))
        yield one('joint again, fixed', lambda x: x['joints'].append(dict(clone(j), type='fixed', limit=None)))
        yield one('joint again under another name', lambda x: x['joints'].append(dict(clone(j), name='another')))
        yield one('joint again, reversed', lambda x: x['joints'].append(dict(clone(j), parent=j['child'], child=j['parent'])))
        yield one('two joints for one link', lambda x: x['joints'].append(dict(simple_joint('another', j['parent'], j['child']))))
        yield one('joint reversed', lambda x: x['joints'][i].update(parent=j['child'], child=j['parent']))
        if j['type'] in ('revolute', 'prismatic'):
            yield one('no limit', lambda x: x['joints'][i].update(limit=None))
        if j['limit'] is not None:
            for f in ('effort', 'velocity'):
                yield one('limit without ' + f, lambda x: x['joints'][i]['limit'].update({f: None}))
            for f in ('lower', 'upper', 'effort', 'velocity'):
                for b in r.sample(BADNUM, 2):
                    def g(x):
                        x['joints'][i]['limit'][f] = Raw(b)
                        x['joints'][i]['lex'] = True
                    yield one('malformed %s "%s"' % (f, b), g)
        for f in ('xyz', 'rpy'):
            for b in r.sample(BADVEC, 3):
                yield one('malformed %s "%s"' % (f, b), lambda x: x['joints'][i].update(raw_origin=[(f, Raw(b))], lex=True))
        if j['type'] != 'fixed':
            for b in r.sample(BADVEC, 3):
                yield one('malformed axis "%s"' % b, lambda x: x['joints'][i].update(raw_axis=b, lex=True))
        for tag, a, good in (('dynamics', 'damping', {}), ('dynamics', 'friction', {}),
                             ('safety_controller', 'k_velocity', {}), ('safety_controller', 'soft_lower_limit', {'k_velocity': 1.0}),
                             ('safety_controller', 'k_position', {'k_velocity': 1.0}),
                             ('calibration', 'rising', {}), ('calibration', 'falling', {}),
                             ('mimic', 'multiplier', {'joint': j['name']}), ('mimic', 'offset', {'joint': j['name']})):
            if r.random() < .3:
                b = r.choice(BADNUM)
                yield one('malformed %s %s "%s"' % (tag, a, b),
                          lambda x: x['joints'][i].update({tag: dict(good, **{a: Raw(b)}), 'lex': True}))
    for i in range(n):
        yield one('link missing', lambda x: x['links'].pop(i))
        for m in range(n):
            if m != i:
                yield one('link name twice', lambda x: x['links'][i].update(name=d['links'][m]['name']))
        yield one('link twice', lambda x: x['links'].append(dict(x['links'][i])))
    yield one('unnamed link', lambda x: x.update(unnamed=1))
    yield one('no links', lambda x: x.update(links=[], joints=[]))
    yield one('second root', lambda x: x['links'].append({'name': 'stray link', 'inertial': None}))
    yield one('detached cycle', lambda x: (x['links'].extend([{'name': 'cyc1', 'inertial': None}, {'name': 'cyc2', 'inertial': None}]),
                                          x['joints'].extend([simple_joint('cj1', 'cyc1', 'cyc2'), simple_joint('cj2', 'cyc2', 'cyc1')])))
    yield one('detached self loop', lambda x: (x['links'].append({'name': 'cyc', 'inertial': None}),
                                              x['joints'].append(simple_joint('cj', 'cyc', 'cyc'))))
    root = [l for l in link_names(d) if l not in [j['child'] for j in d['joints']]][0]
    for l in link_names(d):
        yield one('cycle through the root', lambda x: x['joints'].append(simple_joint('back', l, root)))
        for m in link_names(d)[:3]:
            yield one('second parent', lambda x: x['joints'].append(simple_joint('extra', l, m)))
    yield one('no robot element', lambda x: x.update(root_tag='robots', robot=False))
    yield one('robot without a name', lambda x: x.update(named=False, robot=False))
    for v in ('2.0', '1.1', '1', 'abc', '', '1.0.0', '-1.0', '0.9', '1.0 ', '10'):
        yield one('version "%s"' % v, lambda x: x.update(version=v))
    yield one('material twice', lambda x: x.update(materials=[{'name': 'm', 'color': [1., 0., 0., 1.]}, {'name': 'm', 'color': [0., 0., 1., 1.]}]))
    # not XML at all
    xml = to_xml(d)
    for cut in sorted(r.sample(range(1, len(xml.rstrip()) - 1), 6)):
        yield 'cut off', dict(clone(d), syntax='bad', xml=xml[:cut])
    for a, b in (('</robot>', '</robo>'), ('</robot>', ''), ('<robot ', '< '), ('name=', 'name '), ('/>', '>'), ('"', '')):
        p = xml.find(a)
        if p >= 0:
            yield 'broken syntax', dict(clone(d), syntax='bad', xml=xml[:p] + b + xml[p + len(a):])
    for n, where in ((1500, '</robot>'), (20000, '</robot>'), (60000, '</link>'), (20000, '</joint>')):
        if r.random() < .3 and where in xml:
            yield 'nested %d deep' % n, dict(clone(d), syntax='deep', xml=xml.replace(where, nested(n, r.choice(['b', 'link', 'robot', 'transmission', 'visual'])) + where, 1))
    for t in ('', ' \n', 'robot', '<', '<!-- only a comment -->', '<robot', '<robot name="r">', '<?xml version="1.0"?>', '<a/>',
              '<robot name="r"/>', 'not xml <at all', '<robot name="r"><link name="a"></robot>', '<robot name="r"><link name="a"/>'):
        yield 'document %r' % t, {'syntax': 'bad', 'links': [], 'joints': [], 'xml': t}


def simple_joint(n, p, c):
    return {'name': n, 'type': 'fixed', 'parent': p, 'child': c, 'origin': None, 'axis': None, 'limit': None}


def odd(d, r):
    """valid, but unusual"""
    d = clone(d)
    c = r.random()
    ren = {}
    ns = link_names(d)
    if c < .3:      # names that look like internal ones
        a = r.choice(ns)
        b = r.choice([x for x in ns] + ['new'])
        ren[a] = b + '_com' if b + '_com' not in ns else a
    elif c < .45:
        ren[r.choice(ns)] = r.choice([' ', 'world', 'robot', 'link', '0', '-1', 'base_link', 'x' * 300, 'root', 'joint', 'None'])
    for l in d['links']:
        l['name'] = ren.get(l['name'], l['name'])
    if len(set(link_names(d))) < len(ns):
        return odd(d, r) if False else plain_robot(r, 3)
    for j in d['joints']:
        j['parent'], j['child'] = ren.get(j['parent'], j['parent']), ren.get(j['child'], j['child'])
        if r.random() < .1:
            j['name'] = r.choice(ns) + '!'      # joint and link names are separate
    seen = set()
    for j in d['joints']:
        while j['name'] in seen:
            j['name'] += '#'
        seen.add(j['name'])
    if r.random() < .3:
        d['version'] = '1.0'
    if r.random() < .3:
        d = decorate(d, r)
    if r.random() < .2:
        d['deep'] = r.choice([10, 64, 100, 200])
    return d


def breaks(d, r):
    """a few random changes, each of which may or may not invalidate the description; the specification decides"""
    x = clone(d)
    for _ in range(r.randrange(1, 4)):
        fs = r.randrange(9)
        if not x['joints'] or not x['links']:
            break
        j = r.choice(x['joints'])
        if fs == 0:
            j['parent'] = r.choice(link_names(x))
        elif fs == 1:
            j['child'] = r.choice(link_names(x))
        elif fs == 2:
            x['links'].pop(r.randrange(len(x['links'])))
        elif fs == 3:
            x['joints'].remove(j)
        elif fs == 4:
            j['type'] = r.choice(['fixed', 'continuous', 'revolute', 'prismatic', 'floating'])
        elif fs == 5:
            x['links'].append({'name': r.choice(['extra', link_names(x)[0]]), 'inertial': None})
        elif fs == 6:
            j['name'] = r.choice([k['name'] for k in x['joints']] + ['other'])
        elif fs == 7:
            x['joints'].append(simple_joint('sj%d' % r.randrange(3), r.choice(link_names(x)), r.choice(link_names(x))))
        else:
            j['limit'] = None
    return x


# ---------------------------------------------------------------- K20 transforms
def k20(seed, big):
    def f(s, r, i):
        for _ in range(25):
            c = r.choice(['rpy', 'rpy', 'rpy', 'quat', 'quat', 'compose', 'compose', 'inverse', 'rinverse', 'apply', 'vec'])
            tf = lambda: (vec3(r, r.choice([1, 1, 1e3])), quat(r) if r.random() < .6 else near_gimbal(r))
            if c == 'rpy':
                s.geo('rpy', r.choice([lambda: [angle(r) for _ in range(3)], lambda: [r.uniform(-7, 7) for _ in range(3)],
                                       lambda: [angle(r), r.choice([1, -1]) * (PI / 2 + r.choice([0, 1, -1]) * 10 ** r.uniform(-9, -1)), angle(r)],
                                       lambda: [jval(r) for _ in range(3)]])())
            elif c == 'quat':
                q = r.choice([quat, near_gimbal])(r)
                k = r.choice([1.0, 1.0, -1.0, 2.5, 1e-3, 1e3, 0.0])
                s.geo('quat', [k * x for x in q])
            elif c == 'compose':
                s.geo('compose', tf(), tf())
            elif c in ('inverse', 'rinverse'):
                s.geo(c, tf())
            elif c == 'apply':
                s.geo('apply', tf(), vec3(r, r.choice([1, 1, 1e3])))
            else:
                s.geo('vec', vec3(r, 3), vec3(r, 3), r.choice([1.0, -2.0, r.uniform(.1, 9)]))
    out = many('K20', seed, 400 if big else 80, f)

    def cube(s, r, i):
        """all pairs of right-angle rotations, in both quaternion signs"""
        Q = cube_quats()
        a = Q[i]
        for b in Q:
            for sg in (1.0, -1.0):
                s.geo('compose', (vec3(r), a), (vec3(r), [sg * x for x in b]))
        s.geo('inverse', (vec3(r), a))
        s.geo('rinverse', (vec3(r), a))
        for v in ([1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [1., 2., 3.]):
            s.geo('apply', (vec3(r), a), v)
        s.geo('quat', a)
        for x, y in itertools.product(range(-2, 3), repeat=2):
            s.geo('rpy', [x * PI / 2, y * PI / 2, (i % 5 - 2) * PI / 2])
    return out + many('K20cube', seed, 24, cube)


def near_gimbal(r):
    a, b, c = angle(r), r.choice([1, -1]) * (PI / 2 + r.choice([0, 1, -1]) * 10 ** r.uniform(-9, -1)), angle(r)
    return qmul(qmul([0, 0, math.sin(c / 2), math.cos(c / 2)], [0, math.sin(b / 2), 0, math.cos(b / 2)]), [math.sin(a / 2), 0, 0, math.cos(a / 2)])


def qmul(a, b):
    x, y, z, w = a
    X, Y, Z, W = b
    return [w * X + x * W + y * Z - z * Y, w * Y - x * Z + y * W + z * X, w * Z + x * Y - y * X + z * W, w * W - x * X - y * Y - z * Z]


def cube_quats():
    h = math.sqrt(.5)
    gens = [[h, 0, 0, h], [0, h, 0, h], [0, 0, h, h]]
    seen = [[0., 0., 0., 1.]]
    for q in seen:
        for g in gens:
            p = [round(2 * x * x) and math.copysign(math.sqrt(round(4 * x * x) / 4), x) or 0.0 if round(4 * x * x) else 0.0 for x in qmul(q, g)]
            if not any(all(abs(a - b) < 1e-9 for a, b in zip(p, o)) or all(abs(a + b) < 1e-9 for a, b in zip(p, o)) for o in seen):
                seen.append(p)
    assert len(seen) == 24
    return seen


# ---------------------------------------------------------------- K22 content
def k22(seed, big):
    def f(s, r, i):
        if i % 5 == 4:
            s.locale()
        for _ in range(3):
            d = content(r)
            st = Style(r, 0 if r.random() < .4 else 1)
            if d.get('materials'):
                st_mat_order = d['materials']
            xml = to_xml(d, st)
            s.parsed(d, xml, scratch(xml) if r.random() < .2 else None)
    out = many('K22', seed, 300 if big else 70, f)

    def presence(s, r, i):
        d = presence_doc(r)
        s.parsed(d, to_xml(d, Style(r, i % 2)))
    return out + many('K22p', seed, 40 if big else 12, presence)


def presence_doc(r):
    """every combination of present and absent attributes, next to each other in one document"""
    links = [{'name': 'base', 'inertial': None}]
    joints = []

    def j(t='continuous', **kw):
        n = len(joints)
        links.append({'name': 'l%03d' % n, 'inertial': None})
        lim = {'lower': None, 'upper': None, 'effort': 1.0, 'velocity': 1.0} if t in ('revolute', 'prismatic') else None
        joints.append(dict({'name': 'j%03d' % n, 'type': t, 'parent': 'base', 'child': 'l%03d' % n, 'origin': None,
                            'axis': None, 'limit': lim}, **kw))
    N_ = lambda: figure(r)
    for lo, hi in itertools.product([0, 1], repeat=2):
        for t in ('revolute', 'continuous', 'prismatic', 'fixed', 'planar', 'floating'):
            j(t, limit={'lower': N_() if lo else None, 'upper': N_() if hi else None, 'effort': N_(), 'velocity': N_()})
    for a, b in ((1, 0), (0, 1), (1, 1)):
        j(dynamics={k: N_() for k, p in (('damping', a), ('friction', b)) if p})
    for a, b, c in itertools.product([0, 1], repeat=3):
        j(safety_controller=dict({'k_velocity': N_()}, **{k: N_() for k, p in (('soft_lower_limit', a), ('soft_upper_limit', b), ('k_position', c)) if p}))
    for a, b in itertools.product([0, 1], repeat=2):
        j(calibration={k: N_() for k, p in (('rising', a), ('falling', b)) if p})
        j(mimic=dict({'joint': 'j000'}, **{k: N_() for k, p in (('multiplier', a), ('offset', b)) if p}))
    for t in ('revolute', 'continuous', 'prismatic', 'fixed', 'planar', 'floating'):
        for ax in (None, unit(r)):
            j(t, axis=ax, **({'limit': None} if t not in ('revolute', 'prismatic') else {}))
    for a, b in itertools.product([0, 1], repeat=2):
        j(origin=(vec3(r) if a else None, [angle(r) for _ in range(3)] if b else None))
    for a, b in itertools.product([0, 1], repeat=2):
        o = (vec3(r) if a else None, [angle(r) for _ in range(3)] if b else None)
        links.append({'name': 'i%d%d' % (a, b), 'inertial': {'mass': N_(), 'origin': o if a or b else r.choice([None, o]), 'I': [N_() for _ in range(6)]}})
        joints.append(simple_joint('ij%d%d' % (a, b), 'base', 'i%d%d' % (a, b)))
    r.shuffle(joints)
    r.shuffle(links)
    return {'name': r.choice(['r', 'my robot', '']), 'links': links, 'joints': joints}


# ---------------------------------------------------------------- K24 what an export declares
def k24(seed, big):
    def f(s, r, i):
        if i % 5 == 4:
            s.locale()
        for _ in range(3):
            d = regular(content(r))
            s.reparsed(d, to_xml(d, Style(r, r.randrange(2))), r.choice([1, 1, 2, 3]))
    out = many('K24', seed, 300 if big else 70, f)

    def presence(s, r, i):
        d = regular(presence_doc(r))
        s.reparsed(d, to_xml(d, Style(r, i % 2)), 1 + i % 2)
    return out + many('K24p', seed, 40 if big else 12, presence)


def content(r):
    d = clone(plain_robot(r, r.choice([1, 2, 3, 4, 6]), inertial=.5))
    d['name'] = r.choice(['r', 'robot one', '', 'a&b'])
    pool = ['red', 'blue', 'm 1', 'grey', 'x', 'y']
    cols = lambda: list(r.choice([(0., 0., 0., 1.), (0., 0., 0., 0.), (1., 1., 1., 1.), (1., 1., 1., 0.)])) if r.random() < .25 else [r.choice([0.0, 1.0, .1, r.random()]) for _ in range(4)]
    tex = lambda: r.choice(['t.png', 'package://a/b c.png', 'q.jpg'])

    def full(n):
        c = r.randrange(3)
        return {'name': n, 'color': cols() if c != 1 else None, 'texture': tex() if c != 0 else None}
    mats = [full(n) for n in r.sample(pool, r.randrange(0, 4))]
    d['materials'] = mats

    def geom():
        c = r.randrange(4)
        v = lambda n: [r.choice([1.0, 0.0, r.uniform(.01, 3), 1e-9, 123456.7890123, abs(figure(r))]) for _ in range(n)]
        return ({'shape': 'sphere', 'dims': v(1)}, {'shape': 'box', 'dims': v(3)}, {'shape': 'cylinder', 'dims': v(2)},
                {'shape': 'mesh', 'file': r.choice(['package://a/b.dae', 'x.stl', 'a b&c.stl', '']), 'dims': v(3) if r.random() < .5 else []})[c]
    for l in d['links']:
        vs = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            c = r.random()
            m = None
            if c < .3:
                m = {'name': r.choice(pool)}
            elif c < .6:
                m = full(r.choice(pool))
            vs.append({'name': r.choice([None, 'v', 'v2']), 'origin': origin(r), 'geom': geom(), 'material': m})
        l['visuals'] = vs
        l['collisions'] = [{'name': r.choice([None, 'c', 'c2']), 'origin': origin(r), 'geom': geom()} for _ in range(r.choice([0, 0, 1, 2, 3]))]
    x = lambda: figure(r)

    def some(keys, need=0):
        ks = [k for k in keys if r.random() < .6]
        return {k: x() for k in (ks if len(ks) >= need else [r.choice(keys)])}
    for j in d['joints']:
        if r.random() < .2 and j['type'] not in ('revolute', 'prismatic'):
            j['type'] = r.choice(['planar', 'floating'])
        if r.random() < .5:
            j['dynamics'] = some(['damping', 'friction'], 1)
        if r.random() < .5:
            j['safety_controller'] = dict(some(['soft_lower_limit', 'soft_upper_limit', 'k_position']), k_velocity=x())
        if r.random() < .5:
            j['calibration'] = some(['rising', 'falling'])
        if r.random() < .4:
            j['mimic'] = dict(some(['multiplier', 'offset']), joint=r.choice(d['joints'])['name'])
    return d


# ---------------------------------------------------------------- K23 containers
def k23(seed, big):
    def f(s, r, i):
        cap = r.choice([0, 1, 2, 3, 5, 12, 40])
        n = r.choice([0, 1, 2, 3, 8])
        s.box('watch', i % 2)
        s.box('snew', cap)
        s.box('cnew', n)
        depth = 0
        for _ in range(120):
            c = r.random()
            v = r.choice([0.0, 1.0, -1.0, r.uniform(-9, 9)])
            if c < .3 and depth < cap:
                s.box('spush', v)
                depth += 1
            elif c < .5 and depth > 0:
                s.box('spop')
                depth -= 1
            elif c < .53:
                s.box('sreset')
                depth = 0
            elif c < .55:
                cap = r.choice([1, 2, 4])
                depth = 0
                s.box('snew', cap)
            elif c < .57:
                s.box(r.choice(['scopy', 'ccopy']))
            elif c < .75 and n:
                s.box('cset', r.randrange(n), v)
            elif c < .9 and n:
                s.box('cget', r.randrange(n))
            elif c < .94:
                s.box('cclear')
            elif c < .98 and n < 30:
                s.box('cextend')
                n += 1
            elif c >= .98:
                n = r.choice([1, 2, 5])
                s.box('cnew', n)
    return many('K23', seed, 200 if big else 40, f)


# ---------------------------------------------------------------- K25 everything is given back
def k25(seed, big):
    def life(s, r, ms, start, copied, step):
        """models come, are used, and go"""
        n = 0
        for _ in range(r.choice([6, 14])):
            h = r.choice(list(ms))
            c = r.random()
            if c < .3 and len(ms) < 4:
                n += 1
                h2 = 'c%d' % n
                ms[h2] = copied(ms[h], h, h2)
            elif c < .4 and len(ms) > 1:
                s.destroy(h)
                del ms[h]
            else:
                step(ms[h], h)
        hs = list(ms)
        r.shuffle(hs)
        for h in hs:
            s.destroy(h)

    def core(s, r, i):
        d = plain_robot(r, r.choice([1, 2, 3, 5]), inertial=.7)
        fs = list(faults(d, r)) if movable(d) else []
        export = r.random() < .3
        if export:
            d = regular(d)
        ms = {'a': M(s, 'a', d, r).load()}
        if export:
            s.export('e', d, times=2)
            ms['e'] = M(s, 'e', d, r)

        def copied(m, h, h2):
            s.copy(h, h2)
            return m.twin(h2)

        def step(m, h):
            c = r.random()
            if c < .3:
                m.rand_add('x' + h)
            elif c < .4:
                m.refused()
            elif c < .6 and fs:
                _, x = r.choice(fs)
                s.load('bad', x, xml=x['xml'] if 'xml' in x else to_xml(x))
            elif c < .65 and len(ms) > 1:
                h2 = r.choice([x for x in ms if x != h])
                s.assign(h, h2)
                ms[h2] = m.twin(h2)
            elif c < .75:
                m.rand_set()
            else:
                m.question(['pose', 'jac', 'com', 'comjac', 'inertia', 'getq', 'mass', 'limits'])(h)
        life(s, r, ms, None, copied, step)
        s.rounds(4)
    out = many('K25', seed, 200 if big else 40, core)

    def refused(s, r, i):
        d = plain_robot(r, r.choice([3, 4]), inertial=.6)
        if not movable(d):
            d = robot(r, 4, 'tree', types=['revolute', 'prismatic'])
        fs = list(faults(d, r))
        for _, x in r.sample(fs, min(len(fs), 30)):
            s.load('bad', x, xml=x['xml'] if 'xml' in x else to_xml(x))
        s.rounds(4)
    out += many('K25r', seed, 40 if big else 8, refused)

    def asked(s, r, i):
        """every question, to a model that is there all the time"""
        d = plain_robot(r, r.choice([2, 3, 5]), inertial=.7)
        m = M(s, 'a', d, r).load()
        m.rand_add('x')
        for l in r.sample(m.links, min(4, len(m.links))):
            for rot in ROTS:
                for base in (False, True):
                    for js in ([], r.sample(m.mv, min(1, len(m.mv))), list(m.mv)):
                        s.jac('a', l, js, rot, base)
        for _ in range(20):
            m.question(['pose', 'com', 'comjac', 'inertia', 'getq', 'mass', 'limits'])('a')
        for _ in range(4):
            m.refused()
            m.rand_set()
        s.destroy('a')
        s.rounds(4)
    out += many('K25q', seed, 40 if big else 8, asked)

    def pyasked(s, r, i):
        d = plain_robot(r, r.choice([2, 3, 5]), inertial=.7)
        m = py_model(s, 'a', d, r)
        m.load()
        py_add(m, r)
        for _ in range(12):
            s.often(600)
            if r.random() < .3:
                rand_misfit(s, m, r)
            else:
                py_question(m, r, s)[-1]('a')
            s.times = 1
        s.often(600).lookup('a', 'link', [r.choice(m.links), 'not there'])
        s.destroy('a')
        s.rounds(4)
    out += many('K25y', seed, 24 if big else 6, pyasked, 'py')

    def py(s, r, i):
        d = plain_robot(r, r.choice([1, 2, 3, 5]), inertial=.7)
        m = py_model(s, 'a', d, r)
        m.load()

        def copied(m, h, h2):
            s.pycopy(h, h2, r.choice(['copy', 'deepcopy', 'pickle0', 'pickle2', 'pickle4', 'pickle5']))
            x = py_model(s, h2, d, r)
            x.q, x.b6, x.adds, x.links, x.n = dict(m.q), list(m.b6), list(m.adds), list(m.links), m.n
            return x

        def step(m, h):
            c = r.random()
            if c < .3:
                m.n += 1
                m.add('%s_%d' % (h, m.n), r.choice(m.links), vec3(r), [angle(r) for _ in range(3)], 'rpy', r.choice(['arr', 'reused']))
            elif c < .4:
                s.add(h, r.choice(m.links), r.choice(m.links), vec3(r), [0.0] * 3)
            elif c < .6:
                py_set(m, r, s)
            elif c < .8:
                s.mem(0)
            else:
                s.names(h)
        life(s, r, {'a': m}, None, copied, step)
        s.rounds(2)
    out += many('K25p', seed, 120 if big else 24, py, 'py')

    def chains(s, r, i):
        if i == 0:
            for order in ('up', 'down'):
                for kind in ('parse', 'loop', 'model'):
                    s.chain(700, order, kind)
            s.rounds(4)
        else:
            s.chain(250000 if big else 120000, ['up', 'down'][i % 2], ['parse', 'loop'][i // 2 % 2])
    return out + many('K25c', seed, 5, chains)


TRACE = {'K01': k01, 'K02': k02, 'K03': k03, 'K04': k04, 'K05': k05, 'K06': k06, 'K07': k07, 'K08': k08, 'K09': k09,
         'K10': k10, 'K11': k11, 'K12': k12, 'K13': k13, 'K14': k14, 'K15': k15, 'K16': k16, 'K17': k17, 'K18': k18, 'K19': k19,
         'K20': k20, 'K21': k21, 'K22': k22, 'K23': k23, 'K24': k24, 'K25': k25}
MODULE = {'K20': 'GeoTrace', 'K22': 'ContentTrace', 'K24': 'ContentTrace', 'K23': 'ContainersTrace'}
