"""Executes a scenario against the real Python package (public API only); same line protocol as core_driver.cpp."""
import ctypes
import copy, gc, json, os, pickle, struct, sys, weakref
import numpy as np
import tinyfk
from tinyfk import BaseType, KinematicModel, RotationType

models = {}
made = weakref.WeakSet()    # every model there has been, as long as it exists
BASE = {'fixed': BaseType.FIXED, 'planar': BaseType.PLANER, 'floating': BaseType.FLOATING}
ROT = {'none': RotationType.IGNORE, 'rpy': RotationType.RPY, 'xyzw': RotationType.XYZW}


class NoId(Exception):
    pass


class Toks:
    def __init__(self, line):
        self.t = line.split()
        self.i = 0

    def tok(self):
        self.i += 1
        return self.t[self.i - 1]

    def str(self):
        return bytes.fromhex(self.tok()[1:]).decode('utf-8')

    def num(self):
        return int(self.tok())

    def real(self):
        return struct.unpack('>d', bytes.fromhex(self.tok()))[0]

    def strs(self):
        return [self.str() for _ in range(self.num())]

    def reals(self, n):
        return [self.real() for _ in range(n)]


def pr(x):
    return list(struct.unpack('>ii', struct.pack('>d', float(x))))


def vec(a):
    a = np.asarray(a)
    assert a.ndim == 1, a.shape
    return [pr(x) for x in a]


def mat(a):
    a = np.asarray(a)
    return [[pr(x) for x in r] for r in a]


def shape(a):
    return list(np.shape(a))


def at(names, wanted):
    r = []
    for w in wanted:
        if w not in names:
            raise NoId()
        r.append(names.index(w))
    return r


def joints(m, wanted):
    return at(m.get_joint_names(), wanted)


def links(m, wanted):
    return at(m._robot.get_link_names(), wanted)


def names(m):
    return {'lnames': m._robot.get_link_names(), 'jnames': m.get_joint_names(), 'root': m.root_link_name}


def rows(x, ids, base):
    """batch rows: joint values then base coordinates"""
    n = x.num()
    nb = {'fixed': 0, 'planar': 3, 'floating': 6}[base]
    q = [x.reals(len(ids) + nb) for _ in range(n)]
    return q, [[pr(v) for v in r[:len(ids)]] for r in q], [[pr(v) for v in r[len(ids):]] for r in q]


def container(form, q, width=0):
    if form == 'one':
        assert len(q) == 1
        return np.array(q[0])
    if form == 'list':
        return [np.array(r) for r in q]
    if form == 'lists':
        return q
    if form == 'fortran':
        return np.asfortranarray(np.array(q))
    return np.array(q) if q else np.zeros((0, width))


try:        # what is allocated in the process, if it runs with the address sanitizer
    allocated = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    allocated.restype = ctypes.c_size_t
except AttributeError:
    allocated = None


def step(x):
    op = x.tok()
    if op == 'times':       # the same call over and over; the last answer counts
        n, start = x.num(), x.i
        for _ in range(n):
            x.i = start
            out = step(x)
        return out
    if op == 'begin':
        models.clear()
        return {}
    if op == 'mem':
        gc.collect()
        return dict({'objects': len(made)}, **({'bytes': allocated()} if allocated else {}))
    if op in ('load', 'loadfile'):
        h, s = x.tok(), x.str()
        try:
            models[h] = KinematicModel(xml_text=s) if op == 'load' else KinematicModel(urdfpath=s)
            made.add(models[h])
        except Exception:
            models.pop(h, None)
            return {'ok': False}
        return dict(ok=True, **names(models[h]))
    if op == 'destroy':
        models.pop(x.tok(), None)
        return {}
    h = x.tok()
    m = models[h]
    if op == 'names':
        return names(m)
    if op == 'lookup':
        kind, ns = x.tok(), x.strs()
        try:
            ids = m.get_link_ids(ns) if kind == 'link' else m.get_joint_ids(ns)
            return {'ok': True, 'ids': list(ids)}
        except Exception:
            return {'ok': False}
    if op == 'setq':
        form, base, ids = x.tok(), x.tok(), joints(m, x.strs())
        q, vals, b = rows(x, ids, base)
        m.set_q(ids, q[0] if form == 'lists' else np.array(q[0]), BASE[base])
        return {'ids': ids}
    if op == 'getqv':
        base, ids = x.tok(), joints(m, x.strs())
        return {'ids': ids, 'v': vec(m.get_q(ids, BASE[base]))}
    if op == 'mass':
        return {'v': pr(m.total_mass)}
    if op == 'clear':
        m.clear_cache()
        return {}
    if op == 'poslimits':
        ids = joints(m, x.strs())
        return {'ids': ids, 'pos': [[] if a is None and b is None else [pr(a), pr(b)] for a, b in m.get_joint_limits(ids)]}
    if op == 'add':
        mode, name, par, kind = x.tok(), x.str(), x.str(), x.tok()
        pid = links(m, [par])[0]
        p, r = x.reals(3), x.reals(3)
        try:
            if mode == 'norpy':
                m.add_new_link(name, pid, p)
            elif mode == 'reused':   # the caller keeps using its arrays afterwards
                a, b = np.array(p), np.array(r)
                m.add_new_link(name, pid, a, b)
                a += 1.0
                b += 1.0
            else:
                m.add_new_link(name, pid, np.array(p), np.array(r))
        except Exception:
            return {'ok': False, 'parent': pid}
        return {'ok': True, 'parent': pid}
    if op == 'copy':
        h2, kind = x.tok(), x.tok()
        models[h2] = (copy.copy(m) if kind == 'copy' else copy.deepcopy(m) if kind == 'deepcopy'
                      else pickle.loads(pickle.dumps(m, protocol=int(kind[-1]))))
        made.add(models[h2])
        return {'ok': True}
    if op == 'solve':
        form, base, rot, jac, cache = x.tok(), x.tok(), x.tok(), x.num(), x.num()
        lk, ids = links(m, x.strs()), joints(m, x.strs())
        q, vals, b = rows(x, ids, base)
        e = lk[0] if form == 'one' and len(lk) == 1 else lk
        P, J = m.solve_fk(container(form, q, len(ids) + {'fixed': 0, 'planar': 3, 'floating': 6}[base]), e, ids, rot_type=ROT[rot], base_type=BASE[base],
                          with_jacobian=bool(jac), use_cache=bool(cache))
        return {'links': lk, 'ids': ids, 'P': mat(P), 'Pshape': shape(P), 'J': mat(J), 'Jshape': shape(J)}
    if op == 'solvecom':
        form, base, jac, forces = x.tok(), x.tok(), x.num(), x.num()
        lk, ids = links(m, x.strs()), joints(m, x.strs())
        f = x.reals(len(lk))
        q, vals, b = rows(x, ids, base)
        kw = {'action_link_ids': lk, 'action_forces': f} if forces else {}
        P, J = m.solve_com_fk(container(form, q, len(ids) + {'fixed': 0, 'planar': 3, 'floating': 6}[base]), ids, base_type=BASE[base], with_jacobian=bool(jac), **kw)
        return {'alinks': lk, 'ids': ids, 'P': mat(P), 'Pshape': shape(P), 'J': mat(J), 'Jshape': shape(J)}
    if op == 'inertiaq':
        ids = joints(m, x.strs())
        v = x.reals(len(ids))
        return {'ids': ids, 'I': mat(m.compute_total_inertia_matrix(np.array(v), ids))}
    if op == 'misfit':
        call, form, base, lk, ids = x.tok(), x.tok(), x.tok(), links(m, x.strs()), joints(m, x.strs())
        rs = [x.reals(x.num()) for _ in range(x.num())]
        out = {'ids': ids, 'alinks': lk}
        one = rs[0] if form == 'lists' else np.array(rs[0])
        many = rs if form == 'lists' else [np.array(r) for r in rs] if form == 'list' or len({len(r) for r in rs}) > 1 else np.array(rs)
        try:
            if call == 'setq':
                m.set_q(ids, one, BASE[base])
            elif call == 'inertiaq':
                m.compute_total_inertia_matrix(one, ids)
            elif call == 'solve':
                m.solve_fk(many, lk, ids, base_type=BASE[base], with_jacobian=True)
            elif call == 'solvecom':
                m.solve_com_fk(many, ids, base_type=BASE[base], with_jacobian=True)
            elif call == 'sqd':
                m.compute_inter_link_sqdists(many, list(zip(lk, lk[::-1])), ids, base_type=BASE[base], with_jacobian=True)
            elif call == 'forces':
                n = {'fixed': 0, 'planar': 3, 'floating': 6}[base]
                m.solve_com_fk(np.full((1, len(ids) + n), .25), ids, action_link_ids=lk, action_forces=rs[0], base_type=BASE[base])
            elif call == 'addpos':
                m.add_new_link('misfit', lk[0], one)
            else:
                raise RuntimeError('unknown op ' + call)
        except RuntimeError as e:
            if str(e).startswith('unknown op'):
                raise
            return dict(out, ok=False)
        except Exception:
            return dict(out, ok=False)
        return dict(out, ok=True)
    if op == 'sqd':
        form, base, jac = x.tok(), x.tok(), x.num()
        a, b = links(m, x.strs()), links(m, x.strs())
        ids = joints(m, x.strs())
        q, vals, bs = rows(x, ids, base)
        V, J = m.compute_inter_link_sqdists(container(form, q, len(ids) + {'fixed': 0, 'planar': 3, 'floating': 6}[base]), list(zip(a, b)), ids, base_type=BASE[base],
                                            with_jacobian=bool(jac))
        return {'pairs': [list(p) for p in zip(a, b)], 'ids': ids, 'V': vec(V), 'J': mat(J) if jac else []}
    raise RuntimeError('unknown op ' + op)


def main():
    for line in sys.stdin:
        if not line.strip():
            continue
        x = Toks(line)
        try:
            out = step(x)
        except NoId:
            out = {'e': 'NoId'}
        except Exception as e:
            if isinstance(e, RuntimeError) and str(e).startswith('unknown op'):
                raise
            out = {'e': 'Raised', 'what': '%s: %s' % (type(e).__name__, e)}
        sys.stdout.write(json.dumps(out) + '\n')
        sys.stdout.flush()


main()
