"""Per property: what TLC model checks, which mistakes it has to refute there, and which behaviours of the
model are replayed on the real code.  (The random scenarios are in props.py.)"""
import glob, itertools, json, os, random, time
from concurrent.futures import ThreadPoolExecutor
import mc, runner, walks
from runner import Err
from doc import to_xml
from scen import Scen


class Run:
    """one run of a property's check"""

    def __init__(self, pid, seed, big, tmp):
        self.pid, self.seed, self.big, self.tmp = pid, seed, big, tmp
        self.states = self.transitions = 0
        self.models = []        # what was model checked
        self.refuted = []       # mistakes found
        self.jobs = []          # (trace module, name, scenarios)
        self.notes = {}

    def rand(self, *k):
        return random.Random('%s/%s/%s' % (self.seed, self.pid, '/'.join(map(str, k))))

    def explore(self, module, **kw):
        t = time.time()
        label = kw.pop('label', module)
        n, g, out = mc.explore(module, self.tmp, **kw)
        self.states += n
        self.transitions += g
        self.models.append({'model': label, 'states': n, 'transitions': g, 'wall_s': round(time.time() - t, 1),
                            'checked': kw.get('invariants') or 'all invariants of the configuration'})
        return out

    def refute(self, module, mistakes):
        """mistakes: (label, keyword arguments)"""
        def one(m):
            return mc.refuted(module, self.tmp, **m[1])
        with ThreadPoolExecutor(4) as ex:
            for (label, _), err in zip(mistakes, ex.map(one, mistakes)):
                self.refuted.append({'model': module, 'mistake': label, 'found': err})

    def replay(self, name, scens, module='TinyfkTrace'):
        self.jobs.append((module, name, scens))


def variants(run, module, names, **kw):
    run.refute(module, [(v, dict(kw, consts=dict(kw.get('consts', {}), Variant='= "%s"' % v))) for v in names.split()])


def covering(run, module, n=None, **kw):
    """check a model and cover its state graph with walks -> (walks: lists of operations, TLC output)"""
    out = run.explore(module, workers=1, extra=['ACTION_CONSTRAINT Edge'], **kw)
    g = walks.Graph.parse(out)
    inner = {b for a in g.out for b in g.out[a].values() if b != a}
    start = [a for a in g.out if a not in inner]
    if len(start) != 1:
        raise Err('the state graph of %s has %d sources' % (module, len(start)))
    ws, left = g.cover(start[0], run.rand('walk', module, kw.get('spec')), want=n)
    if left:
        raise Err('%d transitions are not reachable' % left)
    run.notes[kw.get('label', module)] = {'transitions': g.size, 'walks': len(ws), 'steps': sum(map(len, ws))}
    return [[json.loads(o) for o, _ in w] for w in ws], out


# ---------------------------------------------------------------- the geometry of robots (RobotMC)
ROBOT = {
    'K01': 'PosesCurrent BaseCovariant FullTurns JointAxisFixed Attached RotationsProper',
    'K03': 'TwistIsDerivative', 'K04': 'TwistIsDerivative RpyAxes', 'K05': 'BaseColumns', 'K06': 'AddedRigid',
    'K09': 'ComIsMean ComOfPoints ComDerivative ComBaseDerivative', 'K10': 'InertiaSymmetric InertiaByOrigin InertiaCovariant',
    'K15': 'DistanceDerivative', 'K16': 'BalanceDerivative'}
MISTAKES = {     # property -> (operator, what replaces it, the invariant that must fail)
    'K01': [('Rel', 'RelSwapped', 'Attached')],
    'K03': [('Twist', 'TwistOfParent', 'TwistIsDerivative'), ('Twist', 'TwistLocalAxis', 'TwistIsDerivative')],
    'K04': [('RollAxis', 'RollAxisFixed', 'RpyAxes'), ('PitchAxis', 'PitchAxisFixed', 'RpyAxes'), ('Twist', 'TwistLocalAxis', 'TwistIsDerivative')],
    'K05': [('PitchAxis', 'PitchAxisFixed', 'BaseColumns'), ('BaseTwist', 'BaseTwistAtOrigin', 'BaseColumns')],
    'K06': [('NewEntry', 'NewEntryUnturned', 'AddedRigid'), ('NewEntry', 'NewEntryOfGrandparent', 'AddedRigid')],
    'K09': [('MassPoint', 'MassPointUnturned', 'ComOfPoints'), ('ComRate', 'ComRateOfOrigins', 'ComDerivative')],
    'K10': [('Inertia', 'InertiaUnturned', 'InertiaByOrigin'), ('Inertia', 'InertiaOfOrigins', 'InertiaByOrigin')],
    'K15': [('SqGrad', 'SqGradOneSided', 'DistanceDerivative'), ('Twist', 'TwistLocalAxis', 'DistanceDerivative')],
    'K16': [('BalanceRate', 'BalanceRateUnloaded', 'BalanceDerivative'), ('BalanceBaseRate', 'BalanceBaseRateAtCom', 'BalanceDerivative')]}


def ask_k01(s, h, d, js, n, r):
    s.pose(h, [l['name'] for l in d['links']])


def ask_jac(rots, base):
    def f(s, h, d, js, n, r):
        for l in d['links'][1:] or d['links']:
            s.jac(h, l['name'], js, rots[n % len(rots)], base)
    return f


def ask_k06(s, h, d, js, n, r):
    if n < 4:
        names = [l['name'] for l in d['links']] + getattr(s, 'added', [])
        s.added = getattr(s, 'added', []) + ['n%d' % n]
        s.add(h, 'n%d' % n, r.choice(names), [1.0, 0.0, -1.0], walks.turn([1, 0, 1]), 'rpy', r.choice(['arr', 'tf']))
    s.pose(h, [l['name'] for l in d['links']] + s.added)
    s.jac(h, r.choice(s.added), js, walks.ROT[n % 3], n % 2 == 0)
    if any(l['inertial'] for l in d['links']):
        s.com(h)
        s.mass(h)


def ask_k09(s, h, d, js, n, r):
    s.com(h)
    s.comjac(h, js, n % 4 != 0)
    if n == 0:
        s.mass(h)


def ask_k10(s, h, d, js, n, r):
    s.inertia(h)


ASK = {'K01': ask_k01, 'K03': ask_jac(['none'], False), 'K04': ask_jac(['rpy', 'xyzw'], False), 'K05': ask_jac(['none', 'rpy', 'xyzw'], True),
       'K06': ask_k06, 'K09': ask_k09, 'K10': ask_k10}


def batch_walk(pid, name, d, bases, r):
    """every configuration of one robot, as batches of the Python layer"""
    s = Scen(name, 'py')
    s.load('a', d)
    mv = [j for j in d['joints'] if j['type'] != 'fixed']
    js = [j['name'] for j in mv]
    links = [l['name'] for l in d['links']]
    qs = [[walks.turn(v) if j['type'] != 'prismatic' else float(v) for j, v in zip(mv, vs)]
          for vs in itertools.product(*[range(4) if j['type'] != 'prismatic' else range(-1, 2) for j in mv])]
    for b in bases:
        if pid == 'K15':
            pairs = list(itertools.product(links, repeat=2))
            s.sqd('a', r.sample(pairs, min(4, len(pairs))), js, qs, [walks.length(b[:3]) + walks.turn(b[3:])] * len(qs), 'floating', True)
        else:
            s.solvecom('a', js, qs, [walks.length(b[:3]) + walks.turn(b[3:])] * len(qs), [r.choice(links), links[0]], [1.0, 3.0], 'floating', True)
    return s


def robot_models(run):
    pid = run.pid
    inv = ROBOT[pid].split()
    run.refute('RobotMCq', [('%s instead of %s' % (b, a), dict(invariants=[i], properties=[], consts={a: '<- ' + b}))
                            for a, b, i in MISTAKES[pid]])
    for module in ['RobotMCs', 'RobotMCq'] + (['RobotMCt'] if run.big else []):
        out = run.explore(module, invariants=inv + ['Emit'], properties=[], timeout=3600)
        docs = [walks.mc_doc(d) for d in mc.printed(out, 'DOC')]
        docs.sort(key=json.dumps)
        bases = mc.printed(out, 'BASES')[0]
        bases.sort()
        r = run.rand(module)
        if pid in ('K09', 'K10', 'K16'):
            docs = [d for d in docs if any(l['inertial'] for l in d['links'])]
        n = len(docs) if run.big and module != 'RobotMCt' else 300 if run.big else 30
        some = docs if n >= len(docs) else r.sample(docs, n)
        scens = []
        for i, d in enumerate(some):
            q = run.rand(module, i)
            nm = '%s-%s-%d' % (pid, module, i)
            scens.append(batch_walk(pid, nm, d, bases, q) if pid in ('K15', 'K16') else
                         walks.robot_walk(nm, d, bases, q, ASK[pid], 96 if run.big else 24))
        run.notes.setdefault('robots_of_the_model', {})[module] = {'all': len(docs), 'replayed': len(scens)}
        run.replay('robots of ' + module, scens)


# ---------------------------------------------------------------- the engine
ENGINE_ONE = {'K02': 'setj_keeps each_keeps small_keeps drop_child setb_keeps turn_keeps reset_keeps',
              'K06': 'stack_fixed memo_fixed rel_stale', 'K07': 'refuse_half refuse_kid', 'K18': 'setj_keeps'}
ENGINE_TWO = {'K08': 'memo_fixed', 'K17': 'copy_shares_memo copy_resets', 'K19': 'rel_down copy_shares_memo'}
LEGIT_ONE = 'drop_moved grow_keeps rel_parent rel_down'
LEGIT_TWO = 'drop_moved grow_keeps'


def engine_one(run):
    """one model: every transition of the state graph is taken on the real code"""
    run.refute('EngineOne', [(v, dict(consts={'Variant': '= "%s"' % v})) for v in ENGINE_ONE.get(run.pid, '').split()])
    ws, out = covering(run, 'EngineOne', None if run.big or run.pid == 'K02' else 6000)
    if run.big:
        for v in LEGIT_ONE.split():
            run.explore('EngineOne', label='EngineOne, legitimate variant ' + v, consts={'Variant': '= "%s"' % v})
    docs = walks.engine_docs(out, 'DOCS')
    scens = [walks.engine_walk('%s-EngineOne-%d' % (run.pid, i), w, docs, run.pid) for i, w in enumerate(ws)]
    run.replay('walks of EngineOne', scens)


def engine_two(run):
    """two models: all states are checked; behaviours TLC draws are replayed"""
    run.refute('EngineTwo', [(v, dict(consts={'Variant': '= "%s"' % v})) for v in ENGINE_TWO.get(run.pid, '').split()])
    run.explore('EngineTwo', timeout=1800)
    if run.big:
        for v in LEGIT_TWO.split():
            run.explore('EngineTwo', label='EngineTwo, legitimate variant ' + v, consts={'Variant': '= "%s"' % v}, timeout=1800)
    scens, docs = simulate(run, 'EngineTwo', 'DOCS2', 1600 if run.big else 160, 60)
    run.replay('behaviours of EngineTwo', [walks.engine_walk('%s-EngineTwo-%d' % (run.pid, i), w, docs, run.pid) for i, w in enumerate(scens)])


def simulate(run, module, tag, n, depth):
    d = '%s/sim-%s' % (run.tmp, module)
    os.makedirs(d, exist_ok=True)
    cfg = mc.make_cfg(module, d + '/c.cfg', invariants=[], properties=[])
    seeds = run.rand('sim', module)
    def one(k):
        return runner.tlc(module, cfg=cfg, workers=1, timeout=1800, heap='2g',
                          opts=['-simulate', 'file=%s/s%d,num=%d' % (d, k, -(-n // 8)), '-depth', str(depth), '-seed', str(s[k])])
    s = [seeds.randrange(1, 10 ** 9) for _ in range(8)]
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, range(8)))
    ws = list(walks.simulated(sorted(glob.glob(d + '/s*_*'))))
    if len(ws) < n // 2:
        raise Err('simulation of %s: %d behaviours\n%s' % (module, len(ws), outs[0][1][-2000:]))
    run.notes[module] = {'behaviours': len(ws), 'steps': sum(map(len, ws))}
    return ws, walks.engine_docs(outs[0][1], tag)


# ---------------------------------------------------------------- loading (Loader)
LOADER = ('no_robot material_twice link_twice unnamed_link limit_partial prismatic_free skip_bad_joint joint_twice same_joint_twice '
          'two_parents loose_cycle any_type no_bound')
LOADER_LEGIT = 'parent_unknown first_root'        # the final count finds these all the same


def loader(run):
    variants(run, 'Loader', LOADER)
    out = run.explore('Loader', invariants='Decides Ends1 SameTree Rooted Emit'.split())
    if run.big:
        for v in LOADER_LEGIT.split():
            run.explore('Loader', label='Loader, legitimate variant ' + v, consts={'Variant': '= "%s"' % v})
        run.explore('Loader', label='Loader, three joints', consts={'MaxJoints': '= 3'}, timeout=3600)
    docs = sorted({json.dumps(d, sort_keys=True) for d in mc.printed(out, 'DOC')})
    rare = [x for x in docs if not all(w in x for w in ('"syntax": "ok"', '"robot": true', '"version": "none"', '"materials": []', '"unnamed": 0'))]
    some = docs if run.big else rare + run.rand('docs').sample([x for x in docs if x not in set(rare)], 800)
    scens = []
    for a in range(0, len(some), 40):
        s = Scen('%s-Loader-%d' % (run.pid, a))
        s.load('ok', walks.mc_doc(json.loads(walks.LOADED)))
        for x in some[a:a + 40]:
            d, xml = walks.loader_doc(json.loads(x))
            s.load('x', d, xml=xml)
        s.pose('ok', ['a', 'b'])
        s.names('ok')
        scens.append(s)
    run.notes['Loader'] = {'descriptions': len(docs), 'replayed': len(some)}
    run.replay('descriptions of Loader', scens)


# ---------------------------------------------------------------- rigid transforms (RigidLaws, Rigid)
LAWS = 'mul_sign mul_swapped conj_w conj_z rpy_sign rpy_order yaw_sign'
RIGID = 'mul_sign mul_swapped conj_w rpy_sign gimbal_sign yaw_sign pos_unturned pos_by_inverse inv_unturned inv_not_negated inv_turned_forth'


def rigid(run):
    variants(run, 'RigidLaws', LAWS)
    run.explore('RigidLaws')
    variants(run, 'RigidQ', RIGID)
    if run.big:
        run.explore('RigidQ', label='RigidQ, positions up to 2', consts={'MaxPos': '= 32'}, timeout=3600)
    out = run.explore('RigidQ', invariants='Same Length RpyView Inverse2 Identity2 Associative Acts Emit'.split())
    poses = sorted({json.dumps(x, sort_keys=True) for x in mc.printed(out, 'POSE')})
    r = run.rand('poses')
    some = [walks.rigid_pose(json.loads(x)) for x in (poses if run.big else r.sample(poses, 160))]
    gens = [walks.rigid_pose({'q': q, 'k': 1, 'p': p}) for q in ([1, 0, 0, 1], [0, -1, 0, 1], [0, 0, 1, 1]) for p in ([0, 0, 0], [16, -16, 0])]
    scens = []
    for a in range(0, len(some), 20):
        s = Scen('K20-Rigid-%d' % a)
        for x in some[a:a + 20]:
            for g in gens:
                s.geo('compose', x, g)
                s.geo('compose', g, x)
                s.geo('apply', x, g[0])
            s.geo('inverse', x)
            s.geo('rinverse', x)
            s.geo('quat', [-v for v in x[1]])
        scens.append(s)
    s = Scen('K20-Rigid-rpy')
    for v in itertools.product(range(4), repeat=3):
        s.geo('rpy', walks.turn(list(v)))
    run.notes['Rigid'] = {'poses': len(poses), 'replayed': len(some)}
    run.replay('poses of Rigid', scens + [s], 'GeoTrace')


# ---------------------------------------------------------------- the containers (Stores)
STORES = {'StackSpec': 'new_in_use push_over pop_two top_first reset_keeps copy_empty copy_shares', 'MemoSpec': 'set_first set_all get_forgets clear_most grow_keeps grow_set copy_forgets copy_shares copy_flags_share'}


def stores(run):
    scens = []
    for spec, names in STORES.items():
        variants(run, 'Stores', names, spec=spec)
        ws, _ = covering(run, 'Stores', spec=spec, label='Stores, ' + spec, consts={'MaxCap': '= 4', 'MaxSlots': '= %d' % (4 if run.big else 3)})
        scens += [walks.store_walk('K23-%s-%d' % (spec, i), w, i % 2 == 0) for i, w in enumerate(ws)]
    run.replay('walks of Stores', scens, 'ContainersTrace')


# ---------------------------------------------------------------- the calls of the Python layer (Calls)
CALLS = {'K14': 'planar_keeps base_once rows_keep_memo planar_first link_major sorted_ids', 'K18': 'planar_keeps planar_roll fixed_resets sorted_ids restores setq_keeps getq_roll',
         'K07': 'misfit_joints misfit_base misfit_rows', 'K02': 'rows_keep_memo drop_if_joints setq_keeps inertia_keeps', 'K10': 'inertia_keeps', 'K15': 'rows_keep_memo base_once', 'K16': 'rows_keep_memo base_once'}
CALLS_LEGIT = 'drop_if_moved no_clear'


def calls(run):
    variants(run, 'CallsOne', CALLS[run.pid])
    if run.big:
        for v in CALLS_LEGIT.split():
            run.explore('CallsOne', label='CallsOne, legitimate variant ' + v, consts={'Variant': '= "%s"' % v})
    ws, out = covering(run, 'CallsOne', None if run.big or run.pid == 'K14' else 1200 if run.pid == 'K18' else 500)
    tables = {k: mc.printed(out, k)[0] for k in ('CALLS', 'SETS', 'MISFITS')}
    doc = walks.engine_docs(out, 'DOCS')[0]
    run.replay('walks of CallsOne', [walks.calls_walk('%s-CallsOne-%d' % (run.pid, i), w, doc, tables, run.pid) for i, w in enumerate(ws)])


# ---------------------------------------------------------------- models in different threads (Threads)
def threads(run):
    big = {'MaxCalls': '= 4'} if run.big else {}
    variants(run, 'Threads', 'shared_stack shared_memo shared_result')
    for v in 'shared_stack shared_result'.split():      # what calling one after the other cannot show
        run.explore('Threads', label='Threads, %s, calls that do not overlap' % v, invariants='Alone Bounded NoWaiting'.split(),
                    consts={'Variant': '= "%s"' % v, 'Together': '= FALSE'})
    out = run.explore('Threads', consts=big, timeout=3600)
    ops = sorted(mc.printed(out, 'OPS')[0], key=json.dumps)
    r = run.rand('threads')
    programs = [list(p) for p in itertools.product(ops, repeat=3)]
    scens = []
    for i in range(400 if run.big else 40):
        scens.append(walks.threads_walk('%s-Threads-%d' % (run.pid, i), [r.choice(programs) for _ in range(r.choice([2, 2, 3]))], r))
    run.notes['Threads'] = {'programs': len(programs), 'replayed': len(scens)}
    run.replay('programs of Threads, in threads watched for data races', scens)


# ---------------------------------------------------------------- materials (Paint)
PAINT = {'K22': 'first_only own_wins last_wins not_kept', 'K24': 'own_wins not_kept color_only_if_no_texture no_table'}


def paint(run):
    big = {'MaxSecond': '= 2'} if run.big else {}
    variants(run, 'Paint', PAINT[run.pid])
    if run.big:
        for v in ('names_only', 'no_black'):
            run.explore('Paint', label='Paint, legitimate variant ' + v, consts=dict(big, Variant='= "%s"' % v), timeout=1800)
    out = run.explore('Paint', invariants='Worn Table Emit'.split(), consts=big, timeout=1800)
    docs = sorted({json.dumps(d, sort_keys=True) for d in mc.printed(out, 'DOC')})
    some = run.rand('paint').sample(docs, min(len(docs), 4000 if run.big else 400))
    scens = []
    for a in range(0, len(some), 20):
        s = Scen('%s-Paint-%d' % (run.pid, a))
        for n, x in enumerate(some[a:a + 20]):
            d = walks.paint_doc(json.loads(x))
            if run.pid == 'K22':
                s.parsed(d, to_xml(d))
            else:
                s.reparsed(d, to_xml(d), 1 + n % 3)
        scens.append(s)
    run.notes['Paint'] = {'documents': len(docs), 'replayed': len(some)}
    run.replay('documents of Paint', scens, 'ContentTrace')


# ---------------------------------------------------------------- one robot, written in many ways (Writing)
WRITING = {'K11': 'upper_from_lower zero_is_free limits_continuous write_lower_only write_swapped',
           'K12': 'rpy_needs_xyz axis_z axis_none root_first upper_from_lower',
           'K21': 'write_no_xyz write_no_rpy write_empty_limit write_lower_only write_swapped write_no_inertial_origin write_no_axis'}
WRITING_SMALL = {'K11': {'Origins': '<- NoOrigin', 'Inertials': '<- NoInertial'},
                 'K12': {'Seconds': '<- OneSecond', 'Inertials': '<- TwoInertials', 'LowerUpper': '<- ThreeRanges'},
                 'K21': {'Seconds': '<- OneSecond', 'Inertials': '<- TwoInertials', 'LowerUpper': '<- ThreeRanges'}}


def writing(run):
    variants(run, 'WritingQ', WRITING[run.pid])
    consts = {} if run.big else WRITING_SMALL[run.pid]
    out = run.explore('WritingQ', invariants='StillValid SameMeaning ReadRight FixedPoint Emit'.split(), timeout=3600,
                      consts=dict(consts, Every='= %d' % (40 if run.big or run.pid != 'K11' else 4)))
    docs = sorted({json.dumps(d, sort_keys=True) for d in mc.printed(out, 'DOC')})
    some = run.rand('writing').sample(docs, min(len(docs), 3000 if run.big else 400))
    scens = [walks.writing_scen('%s-Writing-%d' % (run.pid, a), [walks.mc_doc(json.loads(x)) for x in some[a:a + 10]], run.pid)
             for a in range(0, len(some), 10)]
    run.notes['Writing'] = {'documents': len(docs), 'replayed': len(some)}
    run.replay('documents of Writing', scens)


# ---------------------------------------------------------------- optional parts (Parts)
PARTS = {'K22': 'no_multiplier left_over lower_needs_upper rpy_needs_xyz limits_sorted',
         'K24': 'skip_zeros no_offset no_name falling_needs_rising swapped scale_by_x'}


def parts(run):
    variants(run, 'Parts', PARTS[run.pid])
    if run.big:
        for v in ('skip_defaults', 'bare_kept'):
            run.explore('Parts', label='Parts, legitimate variant ' + v, consts={'Variant': '= "%s"' % v}, timeout=1800)
    kw = {'consts': {'Rounds': '= 0'}} if run.pid == 'K22' else {}
    out = run.explore('Parts', invariants=['Declared', 'Emit'], timeout=1800, **kw)
    docs = sorted({json.dumps(d, sort_keys=True) for d in mc.printed(out, 'DOC')})
    r = run.rand('parts')
    kinds = {}
    for x in docs:
        kinds.setdefault(json.loads(x)[0]['kind'], []).append(x)
    some = [x for k in sorted(kinds) for x in r.sample(kinds[k], len(kinds[k]) if run.big else min(len(kinds[k]), 400))]
    r.shuffle(some)
    scens = []
    for a in range(0, len(some), 60):
        s = Scen('%s-Parts-%d' % (run.pid, a))
        for b in range(a, min(a + 60, len(some)), 10):
            d = walks.parts_doc([json.loads(x) for x in some[b:b + 10]], r)
            if run.pid == 'K22':
                s.parsed(d, to_xml(d))
            else:
                s.reparsed(d, to_xml(d), 1 + b // 10 % 3)
        scens.append(s)
    run.notes['Parts'] = {'documents': len(docs), 'replayed': len(some)}
    run.replay('documents of Parts', scens, 'ContentTrace')


# ---------------------------------------------------------------- who keeps whom alive (Owners)
def owners(run):
    variants(run, 'Owners', 'cycle_kept parent_owned child_owned model_owned registered last_refused copy_listed added_owns')
    if run.big:
        run.explore('Owners', label='Owners, three joints', consts={'MaxJoints': '= 3'}, timeout=3600)
    ws, _ = covering(run, 'Owners', consts={'MaxAdds': '= %d' % (2 if run.big else 1)})
    run.replay('walks of Owners', [walks.owner_walk('K25-Owners-%d' % i, [w]) for i, w in enumerate(ws)])


MODELS = {'K25': [owners], 'K19': [threads], 'K11': [writing], 'K12': [writing], 'K21': [writing], 'K22': [paint, parts], 'K24': [paint, parts], 'K13': [loader], 'K20': [rigid], 'K23': [stores], **{k: [calls] for k in CALLS}}


def models(run):
    pid = run.pid
    if pid in ROBOT:
        robot_models(run)
    if pid in ENGINE_ONE:
        engine_one(run)
    if pid in ENGINE_TWO:
        engine_two(run)
    for f in MODELS.get(pid, []):
        f(run)
