"""Scenarios of size, per property: large robots, long lists and batches, many additions, copies and models, and the same
call made very often.  The specification has no sizes in it, so whatever a size does to an answer is rejected."""
from props import *


def grown(r, n=None, shape=None, **kw):
    """more links than fit in a byte, more joints than fit in a word, deeper than usual"""
    n = n or r.choice([66, 70, 130, 140, 260, 300])
    kw.setdefault('types', ['revolute', 'continuous', 'prismatic'] if n < 100 or r.random() < .3 else ['revolute', 'continuous', 'prismatic', 'fixed'])
    return robot(r, n, shape or r.choice(SHAPES), **kw)


def tame(r, m):
    """joint values with which coordinates stay moderate"""
    return [r.uniform(-PI, PI) if r.random() < .8 else r.choice(SPECIAL) for _ in m.mv]


def settle(m, r):
    m.setj(list(m.mv), tame(r, m), r.choice(['all', 'each', 'raw']))
    m.rand_base()


def sizes(pid, seed, big, n, f, proc='core'):
    return many(pid + 'big', seed, 4 * n if big else n, f, proc)


OFTEN = (255, 256, 257, 65535, 65536, 65537)


def s01(seed, big):
    def f(s, r, i):
        m = M(s, 'a', grown(r, [70, 140, 300, None][i % 4], SHAPES[i % 4]), r).load()
        for _ in range(2):
            settle(m, r)
            s.pose('a', m.links)
    return sizes('K01', seed, big, 4, f)


def s02(seed, big):
    def f(s, r, i):      # a change, made so often that any counter of changes has come round
        d = plain_robot(r, r.choice([3, 4, 5]), types=['revolute', 'continuous', 'prismatic'], inertial=1.0)
        m = M(s, 'a', d, r).load()
        for k, n in enumerate(OFTEN):
            for kind in ('pose', 'jac', 'com'):
                m.question([kind])('a')
                s.ops[-1][1]['probe'] = 'skip'
            s.pose('a', m.links)
            s.ops[-1][1]['probe'] = 'skip'
            what = ['setj', 'setb', 'mixed'][(i + k) % 3]
            if what == 'setb':
                s.often(n)
                m.setb(vec3(r), [angle(r) for _ in range(3)])
            else:
                m.rand_base() if what == 'mixed' and r.random() < .5 else None
                s.often(n - (what == 'mixed'))
                m.setj(list(m.mv), [jval(r) for _ in m.mv], r.choice(['all', 'raw', 'each']))
                if what == 'mixed':
                    m.setj(m.mv[:1], [jval(r)])
            for t, kind in enumerate(('pose', 'jac', 'com', 'comjac', 'inertia')):
                m.ask_both(m.question([kind]), 't%d.%d' % (k, t))
    out = sizes('K02', seed, big, 3, f)

    def asked(s, r, i):  # or a question
        d = plain_robot(r, 4, types=['revolute', 'continuous', 'prismatic'], inertial=1.0)
        m = M(s, 'a', d, r).load()
        for k, n in enumerate((256, 1000, 5000)):
            m.rand_set()
            q = m.question(['pose', 'jac', 'com', 'comjac', 'inertia'])
            s.often(n)
            q('a')
            s.ops[-1][1]['probe'] = 'skip'
            m.ask_both(m.question(['pose', 'jac', 'com', 'comjac', 'inertia']), 'u%d' % k)
            m.rand_set()
            m.ask_both(q, 't%d' % k)
    out += sizes('K02q', seed, big, 2, asked)

    def wide(s, r, i):
        m = M(s, 'a', grown(r, [140, 300][i % 2], inertial=.3), r).load()
        for t in range(6):
            m.rand_set()
            m.ask_both(m.question(['pose', 'jac', 'com', 'comjac', 'inertia']), 't%d' % t)
    out += sizes('K02w', seed, big, 2, wide)

    def py(s, r, i):
        d = plain_robot(r, 4, types=['revolute', 'continuous', 'prismatic'], inertial=1.0)
        m = py_model(s, 'a', d, r)
        m.load()
        for k, n in enumerate((255, 256, 257, 65536)):
            py_both(m, r, 's%d' % k)
            s.often(n)
            py_set(m, r, s)
            py_both(m, r, 't%d' % k)
    return out + sizes('K02py', seed, big, 1, py, 'py')


def jac_big(pid, rots, base):
    def g(seed, big):
        def f(s, r, i):
            m = M(s, 'a', grown(r, [70, 140, 300, None][i % 4], SHAPES[(i + 1) % 4]), r).load()
            for _ in range(2):
                m.rand_add()
            settle(m, r)
            for l in m.links[-4:] + r.sample(m.links, 4):
                js = list(m.mv)
                r.shuffle(js)
                s.jac('a', l, r.choice([m.mv, m.mv[::-1], js, js[:20] * 5]), r.choice(rots), r.choice(base))
        return sizes(pid, seed, big, 4, f)
    return g


def s06(seed, big):
    def f(s, r, i):      # very many additions
        d = plain_robot(r, r.choice([2, 3, 5]), types=['revolute', 'continuous', 'prismatic'], inertial=.8)
        m = M(s, 'a', d, r).load()
        orig = list(m.links)
        for k in range([70, 140, 300][i % 3]):
            par = {0: r.choice(m.links), 1: r.choice(orig), 2: m.links[-1] if k % 40 else orig[0]}[(i + i // 3) % 3]
            m.add('m%d' % k, par, vec3(r, .2), [angle(r) for _ in range(3)], 'rpy', 'arr' if k % 3 else 'tf')
            if k in (60, 61, 62, 63, 64, 126, 127, 128, 253, 254, 255, 256, 257) or r.random() < .03:
                if r.random() < .5:
                    m.rand_set()
                s.pose('a', [m.links[-1], r.choice(m.links)])
                s.jac('a', r.choice([m.links[-1], r.choice(m.links)]), list(m.mv), r.choice(ROTS), r.random() < .3)
        s.names('a')
        settle(m, r)
        s.pose('a', r.sample(m.links, 50))
        keep, m.links = m.links, orig
        for t in range(5):
            m.ask_both(m.question(['pose', 'jac', 'com', 'comjac', 'inertia', 'mass']), 't%d' % t, adds=False)
        m.links = keep
    out = sizes('K06', seed, big, 3, f)

    def g(s, r, i):      # a few, to a large robot
        m = M(s, 'a', grown(r, [130, 260][i % 2]), r).load()
        for _ in range(4):
            m.rand_add()
            settle(m, r)
            s.pose('a', [a[0] for a in m.adds] + r.sample(m.links, 5))
            s.jac('a', m.adds[-1][0], list(m.mv), r.choice(ROTS), r.random() < .4)
        s.names('a')
    return out + sizes('K06l', seed, big, 2, g)


def s07(seed, big):
    def f(s, r, i):
        d = grown(r, 130, inertial=.3) if i % 3 == 2 else plain_robot(r, 4, types=['revolute', 'continuous'], inertial=.8)
        m = M(s, 'a', d, r).load()
        for t, n in enumerate((40, 257, 1000)):
            s.often(n)
            m.refused()
            m.rand_add()
            s.often(300)
            m.refused()
            s.names('a')
            m.rand_set()
            m.ask_both(m.question(['pose', 'jac', 'com', 'inertia']), 't%d' % t)
            s.pose('a', m.links[-8:])
    return sizes('K07', seed, big, 3, f)


def s08(seed, big):
    def f(s, r, i):
        d = grown(r, [70, 140, 300][i % 3])
        m = M(s, 'a', d if i % 2 else slashed(d, r), r).load(st=Style(r, 1))
        s.names('a')
        for k in range([3, 60, 140][i % 3]):
            m.rand_add()
        s.names('a')
        s.lookup('a', 'link', m.links)
        s.lookup('a', 'link', m.links[::-1] * 2)
        s.lookup('a', 'joint', list(m.mv))
        s.lookup('a', 'joint', m.mv[::-1] * 2)
        for _ in range(4):
            ask_near_misses(s, m, r, 4)
        s.load('b', shuffled(m.d, r))
        s.names('b')
    out = sizes('K08', seed, big, 3, f)

    def py(s, r, i):
        m = py_model(s, 'a', grown(r, 140), r)
        m.load()
        for _ in range(20):
            py_add(m, r)
        s.names('a')
        s.lookup('a', 'link', m.links)
        s.lookup('a', 'joint', list(m.mv))
    return out + sizes('K08py', seed, big, 1, py, 'py')


def mass_big(pid, kinds):
    def g(seed, big):
        def f(s, r, i):
            m = M(s, 'a', grown(r, [70, 140, 300][i % 3], inertial=[1.0, .6, .3][i % 3]), r).load()
            s.mass('a')
            for t in range(2):
                settle(m, r)
                for k in kinds:
                    m.question([k])('a')
        return sizes(pid, seed, big, 3, f)
    return g


def s11(seed, big):
    def f(s, r, i):
        m = M(s, 'a', grown(r, [140, 300][i % 2]), r).load(st=Style(r, 1))
        s.limits('a', list(m.mv))
        s.limits('a', m.mv[::-1] * 2)
        s.limits('a', r.sample(m.mv, 30) * 10)
    out = sizes('K11', seed, big, 2, f)

    def py(s, r, i):
        m = py_model(s, 'a', grown(r, 140), r)
        m.load()
        s.poslimits('a', m.mv[::-1] * 2)
    return out + sizes('K11py', seed, big, 1, py, 'py')


def s12(seed, big):
    def f(s, r, i):
        d = decorate(grown(r, [70, 140][i % 2], inertial=.6), r)
        for k in range(2):
            m = M(s, 'ab'[k], shuffled(d, r) if k else d, r)
            xml = to_xml(m.d, Style(r, 1 if k else 0))
            s.load(m.h, m.d, xml=xml) if k else s.load(m.h, m.d, path=scratch(xml))
            s.names(m.h)
            s.limits(m.h, list(m.mv))
            s.mass(m.h)
            m.setj(list(m.mv), tame(r, m))
            s.pose(m.h, m.links)
            s.com(m.h)
            s.inertia(m.h)
    return sizes('K12', seed, big, 2, f)


def rows_big(pid):
    """long batches, long lists of joints, links, pairs and forces"""
    def g(seed, big):
        def f(s, r, i):
            wide = i % 2
            d = grown(r, 70, inertial=.3) if wide else plain_robot(r, r.choice([2, 3]), types=['revolute', 'continuous', 'prismatic'], inertial=.8)
            m = py_model(s, 'a', d, r)
            m.load()
            py_add(m, r)
            base = ['floating', 'planar', 'fixed'][i // 2 % 3]
            n = 3 if wide else [70, 140, 260][i // 2 % 3]
            js = list(m.mv)
            qs = [[r.uniform(-4, 4) for _ in js] for _ in range(n)]
            bs = [bcoords(r, base) for _ in range(n)]
            some = lambda k: [r.choice(m.links) for _ in range(k)]
            k = 70 if wide else 2
            if pid == 'K14':
                batch_with_refs(m, 't', some(k), js, qs, bs, r.choice(ROTS), base, True, 'array')
            elif pid == 'K15':
                s.sqd('a', list(zip(some(k), some(k))), js, qs, bs, base, True)
            else:
                s.solvecom('a', js, qs, bs, some(k), [r.uniform(.1, 4) for _ in range(k)], base, True)
            s.getqv('a', js, 'floating')
        return sizes(pid, seed, big, 5, f, 'py')
    return g


def s17(seed, big):
    def f(s, r, i):      # copies of copies of copies, with many added links
        d = plain_robot(r, r.choice([2, 3, 4]), types=['revolute', 'continuous', 'prismatic'], inertial=.7)
        m = M(s, 'a', d, r).load()
        ms = [m]
        for k in range([20, 40][i % 2]):
            for _ in range(3):
                m.rand_add('x%d_' % k)
            if r.random() < .5:
                m.rand_set()
            h = 'c%d' % k
            s.copy(m.h, h)
            m = m.twin(h)
            ms.append(m)
            if r.random() < .2 and len(ms) > 3:
                s.destroy(ms.pop(0).h)
        for t, m in enumerate(r.sample(ms, 6) + ms[-1:]):
            s.names(m.h)
            m.rand_set()
            m.ask_both(m.question(['pose', 'jac', 'com', 'inertia', 'getq']), 't%d' % t)
    out = sizes('K17', seed, big, 2, f)

    def py(s, r, i):
        d = [grown(r, 140, inertial=.3), plain_robot(r, 3, types=['revolute', 'continuous'], inertial=.7)][i % 2]
        m = py_model(s, 'a', d, r)
        m.load()
        for _ in range(5 if i % 2 == 0 else 150):
            py_add(m, r)
        py_set(m, r, s)
        for k, kind in enumerate(('copy', 'deepcopy', 'pickle4', 'pickle2', 'pickle5')):
            h = 'b%d' % k
            s.pycopy(m.h, h, kind)
            x = py_model(s, h, d, r)
            x.q, x.b6, x.adds, x.links, x.n = dict(m.q), list(m.b6), list(m.adds), list(m.links), m.n
            m = x
            s.names(h)
            s.getqv(h, list(m.mv), 'floating')
            if k in (1, 4):
                py_both(m, r, 't%d' % k)
    return out + sizes('K17py', seed, big, 2, py, 'py')


def s18(seed, big):
    def f(s, r, i):
        m = M(s, 'a', grown(r, [70, 140, 300][i % 3]), r).load()
        s.getq('a', list(m.mv))
        for t in range(6):
            s.often(r.choice([1, 1, 256, 300]))
            m.rand_set()
            s.getq('a', m.joints_list())
        s.getq('a', m.mv[::-1] * 2)
    out = sizes('K18', seed, big, 3, f)

    def py(s, r, i):
        m = py_model(s, 'a', grown(r, 140), r)
        m.load()
        for t in range(6):
            s.often(r.choice([1, 256]))
            py_set(m, r, s)
            for base in ('fixed', 'planar', 'floating'):
                s.getqv('a', m.joints_list(), base)
    return out + sizes('K18py', seed, big, 1, py, 'py')


def s19(seed, big):
    def f(s, r, i):      # a crowd of models
        docs = [plain_robot(r, r.choice([2, 3, 4]), inertial=.7) for _ in range(3)]
        docs += [variant(x, r) for x in docs]
        ms = []
        for k in range([70, 140, 270][i % 3]):
            m = M(s, 'm%d' % k, r.choice(docs), r).load()
            m.rand_set()
            if r.random() < .3:
                m.rand_add()
            ms.append(m)
            if r.random() < .1:
                s.destroy(ms.pop(r.randrange(len(ms))).h)
        if i % 3 == 0:
            s.often(300)
            s.load('again', docs[0])
            s.destroy('again')
        for t in range(40):
            m = r.choice(ms)
            if r.random() < .5:
                m.rand_set()
            m.question(['pose', 'pose', 'jac', 'getq', 'mass', 'com'])(m.h)
            if r.random() < .2:
                s.names(m.h)
    return sizes('K19', seed, big, 3, f)


def s21(seed, big):
    def f(s, r, i):
        d = regular(decorate(grown(r, [70, 140, 300][i % 3], inertial=.5), r) if i % 2 else grown(r, inertial=.5))
        xml = to_xml(d, Style(r, i % 2))
        o, e = M(s, 'o', d, r), M(s, 'e', d, r)
        s.load('o', d, xml=xml)
        s.export('e', d, times=[1, 7][i % 2], xml=xml)
        s.names('e')
        js, vs = list(o.mv), tame(r, o)
        for m in (o, e):
            m.setj(js, vs)
        for t, k in enumerate(('limits', 'mass', 'com', 'inertia', 'pose', 'jac')):
            q = (lambda h: s.limits(h, js)) if k == 'limits' else o.question([k])
            s.mark(probe='t%d' % t)
            q('o')
            s.mark(cmp='t%d' % t, exact=False)
            q('e')
    return sizes('K21', seed, big, 2, f)


def content_big(r, i):
    d = content(r)
    while not d['links']:
        d = content(r)
    geom = lambda: r.choice([{'shape': 'sphere', 'dims': [r.uniform(.1, 2)]}, {'shape': 'box', 'dims': [r.uniform(.1, 2) for _ in range(3)]},
                             {'shape': 'mesh', 'file': 'package://' + 'x/' * r.choice([1, 200]) + '%d.stl' % r.randrange(9), 'dims': []}])
    n = [70, 140, 270][i % 3]
    long_ = lambda k: r.choice(['m%d', 'm%d', LONG + '%d', 'm%d' + LONG * 4]) % k
    names = [long_(k) for k in range(n)]
    d['materials'] = [{'name': x, 'color': [r.random() for _ in range(4)], 'texture': r.choice([None, None, 't%d.png' % r.randrange(99)])} for x in names]
    l = r.choice(d['links'])
    l['visuals'] = [{'name': r.choice([None, 'v%d' % k]), 'origin': origin(r), 'geom': geom(),
                     'material': r.choice([None, {'name': r.choice(names)}, {'name': 'own%d' % k, 'color': [r.random() for _ in range(4)]}])} for k in range(n)]
    l['collisions'] = [{'name': r.choice([None, 'c%d' % k]), 'origin': origin(r), 'geom': geom()} for k in range(n)]
    return d


def s22(seed, big):
    def f(s, r, i):
        if i % 2:
            d = grown(r, 140, inertial=.5)
            d['name'] = 'r' * r.choice([1, 300, 5000])
        else:
            d = content_big(r, i // 2)
        s.parsed(d, to_xml(d, Style(r, i % 2)))
    return sizes('K22', seed, big, 4, f)


def s24(seed, big):
    def f(s, r, i):
        d = regular(content_big(r, i // 2)) if i % 2 == 0 else regular(dict(grown(r, 140, inertial=.5), name='r'))
        s.reparsed(d, to_xml(d, Style(r, i // 2 % 2)), [1, 2, 9][i % 3])
    return sizes('K24', seed, big, 4, f)


def s23(seed, big):
    def f(s, r, i):
        cap, n = r.choice([(300, 70), (70, 300), (130, 140)])
        s.box('watch', i % 2)
        s.box('snew', cap)
        for k in range(cap):             # up to the brim
            s.box('spush', float(k) + .5)
        for k in range(cap // 2):
            s.box('spop')
        s.box('sreset')
        s.often(r.choice(OFTEN))
        s.box('sreset')
        s.box('spush', 1.0)
        s.box('spush', 2.0)
        s.box('spop')
        s.box('cnew', n)
        for k in r.sample(range(n), n // 2):
            s.box('cset', k, r.uniform(-9, 9))
        s.box('cextend')
        n += 1
        for often in r.sample(OFTEN, 4):
            ks = r.sample(range(n), 6)
            for k in ks:
                s.box('cset', k, r.uniform(-9, 9))
            s.often(often - r.choice([0, 0, 1]))
            s.box('cclear')
            for k in ks[:4]:
                s.box('cget', k)
            s.box('cset', ks[0], 4.5)
            for k in ks[:2]:
                s.box('cget', k)
    return sizes('K23', seed, big, 4, f)


SCALE = {'K01': s01, 'K02': s02, 'K03': jac_big('K03', ['none'], [False]), 'K04': jac_big('K04', ['rpy', 'xyzw'], [False]),
         'K05': jac_big('K05', ROTS, [True]), 'K06': s06, 'K07': s07, 'K08': s08,
         'K09': mass_big('K09', ['com', 'comjac', 'mass']), 'K10': mass_big('K10', ['inertia']), 'K11': s11, 'K12': s12,
         'K14': rows_big('K14'), 'K15': rows_big('K15'), 'K16': rows_big('K16'), 'K17': s17, 'K18': s18, 'K19': s19,
         'K21': s21, 'K22': s22, 'K23': s23, 'K24': s24}
