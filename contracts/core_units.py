"""Units of the numerical core: init_trig, init, surface_solve, check_accuracy, run."""
import term as T
import solve as S
import sym as X
import cxx
import core
import units
from units import unit, UnitRun
from term import ZERO, ONE, TRUE, FALSE, P, Poly, Bool, le, lt, ge, gt, eq, ne, band, bor, bnot, br, subst, var, app, num, ite
from sym import Arr, IDX, IATOM, INT_MAX

ANY = 'ANY'
CORE = ['init_trig.cpp', 'init.cpp', 'surface_solve.cpp', 'check_accuracy.cpp', 'run.cpp', 'booz_xform.cpp']


def sv():
    return var('verbose', 'I')


def the(tu, cls, name):
    fs = tu.find(cls, name)
    if len(fs) != 1:
        raise cxx.ExtractError('%s: %d definitions' % (name, len(fs)))
    return fs[0]


def frame_and_post(r, ent, outs, spec, tags, frame_props, fn, internal=()):
    """Every member of the object equals its specified value, or is unchanged.  Work arrays (neither documented inputs
    nor outputs) and the members in `internal` are part of the contract between functions, not of a property."""
    rets = [o for o in outs if o.kind in ('return', 'next')]
    for o in outs:
        if o.kind not in ('return', 'next'):
            r.prove(frame_props + ['C13', 'C11'], 'post', '%s does not end in %s' % (fn, o.kind), o.st.pc, FALSE, fn=fn)
    if not rets:
        r.add(frame_props, 'post', '%s returns' % fn, 'refuted', 'normal_form', fn=fn)
    for o in rets:
        for k in sorted(ent.mem):
            if not k.startswith('this.'):
                continue
            f = k[5:]
            got = o.st.mem.get(k)
            if f in spec:
                if spec[f] is ANY:
                    continue
                lvl = 'prop' if f in core.OUTPUTS and f not in internal else 'int'
                r.equal(tags(f), '%s: %s as specified' % (fn, f), o.st.pc, got, spec[f], fn=fn, lvl=lvl)
            elif f in core.INPUTS or f in core.OUTPUTS:
                r.equal(frame_props, '%s leaves %s unchanged' % (fn, f), o.st.pc, got, ent.mem[k], fn=fn, cat='frame')
            elif f in KNOWN:
                r.equal(frame_props, '%s leaves %s unchanged' % (fn, f), o.st.pc, got, ent.mem[k], fn=fn, cat='frame', lvl='int')


KNOWN = set(core.INPUTS + core.OUTPUTS + ['ntheta', 'nzeta', 'nu2_b', 'nu3_b', 'n_theta_zeta', 'd_theta', 'd_zeta', 'theta_grid', 'zeta_grid',
                                          'cosm', 'cosn', 'sinm', 'sinn', 'cosm_nyq', 'cosn_nyq', 'sinm_nyq', 'sinn_nyq', 'completed'])


# ---------------------------------------------------------------- init_trig
@unit('init_trig', ['C21', 'C01', 'C09'])
def u_init_trig(r):
    S.reset()
    S.clear_caches()
    tu = cxx.TU(['init_trig.cpp'])
    f = the(tu, None, 'init_trig')
    ex = X.Executor(tu)
    st = X.State()
    st.mem['ghost:stdout'] = ()
    K, K2 = var('K', 'I', 0), var('K2', 'I', 0)
    mm, nn, nfp = var('mmax', 'I', 0), var('nmax', 'I', 0), var('nfp', 'I', 1)
    vals = {'x': Arr([K], app('X', (IDX[0],))), 'z': Arr([K2], app('Z', (IDX[0],)))}
    for nm in ('cm', 'sm', 'cn', 'sn'):
        d = [var('rows_' + nm, 'I', 0), var('cols_' + nm, 'I', 0)]
        b = app('old_' + nm, IDX)
        if nm[0] == 's':
            b = ite(band(eq(IDX[1], 0), lt(IDX[0], K)), 0, b)
        vals[nm] = Arr(d, b)
    order = ['x', 'z', 'cm', 'sm', 'cn', 'sn']
    args = []
    for nm in order:
        st.mem['a:' + nm] = vals[nm]
        args.append(('ref', X.LV('a:' + nm)))
    args += [('val', mm), ('val', nn), ('val', nfp)]
    st.assume(ge(mm, 0, raw=True), ge(nn, 0, raw=True), ge(nfp, 1, raw=True), ge(K, 0, raw=True), ge(K2, 0, raw=True))
    C = core.InitTrig()
    if not C.binds(ex, f):
        raise cxx.ExtractError('init_trig has another signature')
    for g, d in C.pre(*[vals[o] for o in order], mm, nn, nfp):
        st.assume(g)
    ent = st.copy()
    outs = ex.run_function(f, st, None, cxx.to_code(f, args), None)
    r.functions.add('init_trig')
    post = C.post(*[vals[o] for o in order], mm, nn, nfp)
    for o in outs:
        if o.kind not in ('return', 'next'):
            r.prove(['C21'], 'post', 'init_trig does not end in %s' % o.kind, o.st.pc, FALSE)
            continue
        for nm, w in zip(order, [vals['x'], vals['z']] + post):
            what = {'x': 'theta grid unchanged', 'z': 'zeta grid unchanged'}.get(nm) or \
                {'cm': 'cos(m theta)', 'sm': 'sin(m theta)', 'cn': 'cos(n nfp zeta)', 'sn': 'sin(n nfp zeta)'}[nm] + ' table'
            r.equal(['C21', 'C01', 'C09'] if len(nm) > 1 else ['C21'], 'init_trig: ' + what, o.st.pc, o.st.mem['a:' + nm], w, fn='init_trig')
        r.equal(['C08'], 'init_trig prints nothing', o.st.pc, o.st.mem.get('ghost:stdout', ()), ())
    r.take(ex)
    r.uninit(ex, outs, ['a:'])


# ---------------------------------------------------------------- init
def init_tags(f):
    if f in ('xm_b', 'xn_b', 'mnboz'):
        return ['C03', 'C07', 'C08']
    if f in ('s_b', 'ns_b'):
        return ['C07', 'C08']
    if f.startswith('Boozer_'):
        return ['C02', 'C07', 'C08']
    if f in core.OUT_SYM or f in core.OUT_ASYM:
        return ['C07', 'C01', 'C08']
    return ['C01', 'C07', 'C09', 'C08']


def unit_init(case):
    def run(r):
        tu = cxx.TU(['init_trig.cpp', 'init.cpp', 'booz_xform.cpp'])
        ex = X.Executor(tu)
        st = core.input_state(tu, dict(case, verbose=sv()))
        ent = st.copy()
        ex.contracts[(None, 'init_trig')] = core.InitTrig()
        f = the(tu, 'Booz_xform', 'init')
        outs = ex.run_function(f, st, 'this', [], None)
        r.functions.add('Booz_xform::init')
        spec = core.after_init(ent, case, opaque=False)
        frame_and_post(r, ent, outs, spec, init_tags, ['C07', 'C06', 'C08'], 'init',
                       internal=core.OUT_SYM + core.OUT_ASYM + ['Boozer_I', 'Boozer_G'])
        r.take(ex)
        r.uninit(ex, outs, ['this.'])
    return run


for _a in (False, True):
    for _n in ('zero', 'pos'):
        unit('init[asym=%d,nboz %s]' % (_a, _n), ['C01', 'C02', 'C03', 'C07', 'C08', 'C09'])(unit_init(dict(asym=_a, nboz=_n)))


# ---------------------------------------------------------------- surface_solve
class CheckAccuracy:
    """check_accuracy(js, js_b, |B|, theta_B, zeta_B, tables): prints, uses the tables as scratch, changes nothing else."""
    name = 'check_accuracy'

    def __init__(self):
        self.calls = []

    def binds(self, ex, func):
        return len(func.params) == 9

    def apply(self, ex, st, this, args, node, func):
        args = cxx.to_contract(func, args)
        js, jsb = args[0][1], args[1][1]
        lvs = [ex.deref(st, a[1]) for a in args[2:]]
        bm, th, ze, cm, cn, sm, sn = vs = [ex.load(st, l, node) for l in lvs]
        g = lambda f: st.mem['this.' + f]
        N = g('n_theta_zeta')
        for a, nm in ((bm, 'bmod'), (th, 'theta_Boozer_grid'), (ze, 'zeta_Boozer_grid')):
            ex.obl('pre', st, eq(a.dims[0], N), node, 'check_accuracy: size of ' + nm)
        for a, c, nm in ((cm, g('mboz'), 'cosm_b'), (sm, g('mboz'), 'sinm_b'), (cn, g('nboz'), 'cosn_b'), (sn, g('nboz'), 'sinn_b')):
            ex.obl('pre', st, band(eq(a.dims[0], N), lt(c, a.dims[1])), node, 'check_accuracy: size of ' + nm)
        it = core.InitTrig()
        it.zero_pre(ex, st, sm, N, node)
        it.zero_pre(ex, st, sn, N, node)
        ex.obl('pre', st, band(le(0, jsb), lt(jsb, g('compute_surfs').dims[0])), node, 'check_accuracy: js_b is a selected surface')
        if not ex.quiet:
            self.calls.append((st.copy(), js, jsb, bm, th, ze))
        for l, v in zip(lvs[3:], (cm, cn, sm, sn)):
            ex.store(st, l, Arr(v.dims, X.uninit('R', 2)), node)
        st.mem['ghost:stdout'] = tuple(st.mem.get('ghost:stdout', ())) + (('accuracy', js, jsb),)
        return X.VOID


def surface_tags(f):
    if f in ('Boozer_I', 'Boozer_G'):
        return ['C02', 'C06', 'C07', 'C08']
    return ['C01', 'C06', 'C07', 'C08']


def surface_post(ent, case, jsb):
    f, amps, I_, G_ = core.surface_spec(ent, case, app('cs', (jsb,), 'I'))
    spec = {}
    col, row = eq(IDX[1], jsb), eq(IDX[0], jsb)
    for k, v in amps.items():
        a = ent.mem['this.' + k]
        spec[k] = Arr(a.dims, a.body + br(col) * (v - a.body))
    for k, v in (('Boozer_I', I_), ('Boozer_G', G_)):
        a = ent.mem['this.' + k]
        spec[k] = Arr(a.dims, a.body + br(row) * (v - a.body))
    return f, amps, spec


OUTS = core.OUT_SYM + core.OUT_ASYM


def footprint(r, ex, fp, ent, jsb, fn):
    """Shared memory of one surface: reads of inputs and tables, own column (entry) of the outputs only."""
    seen = set()
    bad = None
    for rw, key, sel, pc, node in fp:
        if (rw, key, sel) in seen or key.startswith('ghost:') or key.startswith('std::'):
            continue
        seen.add((rw, key, sel))
        shared = key.startswith('this') or key[:2] in ('G:', 'S:')
        if not shared:
            continue
        out = key[5:] in OUTS + ['Boozer_I', 'Boozer_G']
        if not out:
            if rw == 'w':
                r.add(['C06'], 'race', '%s writes no shared location but its own outputs (%s)' % (fn, X.short(key)), 'refuted', 'frame',
                      cxx.where(node) if isinstance(node, dict) else '', fn=fn)
            continue
        mine = sel[-1] if sel and sel != ('data',) else None
        goal = eq(mine[1], jsb) if mine is not None and mine[0] == 'i' else None
        if mine is not None and mine[0] == 'r':
            goal = band(eq(mine[1], jsb), le(mine[2], 1))
        if goal is None:
            r.add(['C06'], 'race', '%s touches only column js_b of %s' % (fn, key[5:]), 'unknown', 'frame', fn=fn)
        else:
            r.prove(['C06'], 'race', '%s touches only column js_b of %s (%s)' % (fn, key[5:], rw), pc, goal, cxx.where(node) if isinstance(node, dict) else '', fn=fn)
    stat = [n for n in ex.notes if str(n).startswith('static local')]
    r.add(['C06', 'C07'], 'frame', '%s keeps no state between calls' % fn, 'refuted' if stat else 'proved', 'frame', info={'static': stat} if stat else None, fn=fn)


def unit_surface(case):
    def run(r):
        tu = cxx.TU(['init_trig.cpp', 'surface_solve.cpp', 'check_accuracy.cpp', 'booz_xform.cpp'])
        ex = X.Executor(tu)
        st, jsb = core.surface_state(tu, dict(case, verbose=sv()))
        ent = st.copy()
        ex.contracts[(None, 'init_trig')] = core.InitTrig()
        ca = CheckAccuracy()
        ex.contracts[('Booz_xform', 'check_accuracy')] = ca
        f = the(tu, 'Booz_xform', 'surface_solve')
        ex.footprint = []
        outs = ex.run_function(f, st, 'this', [('val', jsb)], None)
        fp, ex.footprint = ex.footprint, None
        r.functions.add('Booz_xform::surface_solve')
        footprint(r, ex, fp, ent, jsb, 'surface_solve')
        flds, amps, spec = surface_post(ent, case, jsb)
        frame_and_post(r, ent, outs, spec, surface_tags, ['C06', 'C07', 'C08'], 'surface_solve')
        # what check_accuracy is given is what the run computed
        if not ca.calls:
            r.add(['C09'], 'post', 'surface_solve calls check_accuracy when verbose > 0', 'unknown', '')
        for s2, js, jb, bm, th, ze in ca.calls[:4]:
            r.equal(['C09'], 'check_accuracy is given js', s2.pc, js, app('cs', (jsb,), 'I'), fn='surface_solve')
            r.equal(['C09'], 'check_accuracy is given js_b', s2.pc, jb, jsb, fn='surface_solve')
            N = ent.mem['this.n_theta_zeta']
            for a, nm in ((bm, 'bmod'), (th, 'thB'), (ze, 'zeB')):
                r.equal(['C09'], 'check_accuracy is given %s of the surface' % nm, s2.pc, a, Arr([N], flds[nm]), fn='surface_solve')
            for k in ['bmnc_b'] + (['bmns_b'] if case['asym'] else []):
                r.equal(['C09'], '%s is final when check_accuracy is called' % k, s2.pc, s2.mem['this.' + k], spec[k], fn='surface_solve')
        for o in outs:
            out = o.st.mem.get('ghost:stdout', ())
            r.equal(['C09'], 'the table is printed exactly when verbose > 0', o.st.pc, accuracy_count(out), br(gt(sv(), 0)), fn='surface_solve')
        r.take(ex)
        r.uninit(ex, outs, ['this.'])
    return run


def accuracy_count(items):
    n = ZERO
    for x in items:
        if isinstance(x, tuple) and x and x[0] == 'accuracy':
            n = n + 1
        elif isinstance(x, tuple) and x and x[0] == 'if':
            for c, its in x[1]:
                n = n + br(c) * accuracy_count(its)
        elif isinstance(x, tuple) and x and x[0] == 'loop':
            if accuracy_count(x[3]) is not ZERO:
                n = n + 1000
    return n


for _a in (False, True):
    unit('surface_solve[asym=%d]' % _a, ['C01', 'C02', 'C06', 'C07', 'C08', 'C09'])(unit_surface(dict(asym=_a)))


# ---------------------------------------------------------------- check_accuracy
def numbers(items):
    """The numbers printed, in order; None when the shape depends on a condition that is not constant."""
    out = []
    for x in items:
        if not isinstance(x, tuple) or not x:
            return None
        if x[0] == 'num':
            out.append(x[1])
        elif x[0] in ('if', 'loop', 'accuracy', 'arr', 'opaque'):
            return None
    return out


def vmax(a, b):
    return ite(lt(a, b), b, a)


def vabs(a):
    return T.absval(a)


def unit_accuracy(case):
    def run(r):
        tu = cxx.TU(['init_trig.cpp', 'check_accuracy.cpp', 'booz_xform.cpp'])
        ex = X.Executor(tu)
        st = core.input_state(tu, dict(case, verbose=sv()))
        asym = case['asym']
        new = core.after_init(st, case, opaque=False)
        opq = core.after_init(st.copy(), case, opaque=True)
        for k, v in new.items():
            st.mem['this.' + k] = v
        for k in ('xm_b', 'xn_b'):
            st.mem['this.' + k] = opq[k]
        mn, ncs = new['mnboz'], new['ns_b']
        nt, nz, N = new['ntheta'], new['nzeta'], new['n_theta_zeta']
        for k in core.OUT_SYM + core.OUT_ASYM:
            if k in core.OUT_SYM or asym:
                st.mem['this.' + k] = Arr([mn, ncs], app(k, IDX))
        for k in ('Boozer_I', 'Boozer_G'):
            st.mem['this.' + k] = Arr([ncs], app(k, IDX[:1]))
        js, jsb = var('js', 'I', 0), var('js_b', 'I', 0)
        st.assume(ge(jsb, 0, raw=True), lt(jsb, ncs), ge(js, 0, raw=True), lt(js, st.mem['this.ns_in']), gt(sv(), 0))
        mboz, nboz, nfp = [st.mem['this.' + k] for k in ('mboz', 'nboz', 'nfp')]
        args = [('val', js), ('val', jsb)]
        vals = {'bmod': Arr([N], app('BM', IDX[:1])), 'thB': Arr([N], app('THB', IDX[:1])), 'zeB': Arr([N], app('ZEB', IDX[:1])),
                'cosm_b': Arr([N, mboz + 1], app('tcm', IDX)), 'cosn_b': Arr([N, nboz + 1], app('tcn', IDX)),
                'sinm_b': Arr([N, mboz + 1], ite(eq(IDX[1], 0), 0, app('tsm', IDX))),
                'sinn_b': Arr([N, nboz + 1], ite(eq(IDX[1], 0), 0, app('tsn', IDX)))}
        for k in ('bmod', 'thB', 'zeB', 'cosm_b', 'cosn_b', 'sinm_b', 'sinn_b'):
            st.mem['a:' + k] = vals[k]
            args.append(('ref', X.LV('a:' + k)))
        ent = st.copy()
        ex.contracts[(None, 'init_trig')] = core.InitTrig()
        f = the(tu, 'Booz_xform', 'check_accuracy')
        if not CheckAccuracy().binds(ex, f):
            raise cxx.ExtractError('check_accuracy has another signature')
        outs = ex.run_function(f, st, 'this', cxx.to_code(f, args), None)
        r.functions.add('Booz_xform::check_accuracy')
        frame_and_post(r, ent, outs, {}, lambda f: [], ['C06', 'C07', 'C08', 'C09'], 'check_accuracy')
        pts = [ZERO, (2 * mboz + 1) * nz, T.fdiv(nz, num(2)), (2 * mboz + 1) * nz + T.fdiv(nz, num(2))]
        names = ['(0, 0)', '(pi, 0)', '(0, pi/nfp)', '(pi, pi/nfp)']

        def recon(p):
            th, ze = app('THB', (p,)), app('ZEB', (p,))

            def body(i):
                arg = app('xmb', (i,), 'I') * th - nfp * app('qb', (i,), 'I') * ze
                v = app('bmnc_b', (i, jsb)) * T.cos(arg)
                if asym:
                    v = v + app('bmns_b', (i, jsb)) * T.sin(arg)
                return v
            return core._sum(mn, body)
        want = [('js_b', jsb), ('js', js)]
        for p, nm in zip(pts, names):
            v, b = app('BM', (p,)), recon(p)
            want += [('|B| input at ' + nm, v), ('|B| Boozer at ' + nm, b), ('error at ' + nm, vabs(b - v) * T.inv(vmax(b, v)))]
        for o in outs:
            if o.kind not in ('return', 'next'):
                continue
            for k in ('bmod', 'thB', 'zeB'):
                r.equal(['C09', 'C07'], 'check_accuracy leaves %s unchanged' % k, o.st.pc, o.st.mem['a:' + k], ent.mem['a:' + k], fn='check_accuracy', cat='frame')
            got = numbers(o.st.mem.get('ghost:stdout', ()))
            if got is None or len(got) not in (len(want), len(want) + 1):
                r.add(['C09'], 'post', 'the row has thread, js_b, js and 12 values', 'unknown', 'normal_form', info={'got': str(got)[:300]}, fn='check_accuracy')
                continue
            got = got[len(got) - len(want):]
            for g, (nm, w) in zip(got, want):
                r.equal(['C09'], 'accuracy table: ' + nm, o.st.pc, g, w, fn='check_accuracy')
        r.take(ex)
        r.uninit(ex, outs, ['this.'])
    return run


for _a in (False, True):
    for _n in ('zero', 'pos'):
        unit('check_accuracy[asym=%d,nboz %s]' % (_a, _n), ['C09'])(unit_accuracy(dict(asym=_a, nboz=_n)))


# ---------------------------------------------------------------- run
def own(f):
    """Value of output f for the surface with input column js: a function of the row and js alone (unit surface_solve)."""
    def v(row, js):
        return app('SURF_' + f, (row, js)) if row is not None else app('SURF_' + f, (js,))
    return v


class Init:
    """init(): establishes after_init, or throws and changes nothing that matters when a selected surface does not exist."""
    name = 'init'

    def __init__(self, case):
        self.case = case
        self.calls = 0

    def binds(self, ex, func):
        return len(func.params) == 0

    def apply(self, ex, st, this, args, node, func):
        if not ex.quiet:
            self.calls += 1
        for k, v in core.after_init(st, self.case).items():
            st.mem[this + '.' + k] = v
        return X.VOID


class SurfaceSolve:
    """surface_solve(j): column j of every output := SURF(row, compute_surfs[j]); nothing else changes."""
    name = 'surface_solve'

    def __init__(self, case):
        self.case = case
        self.calls = 0

    def binds(self, ex, func):
        return len(func.params) == 1

    def apply(self, ex, st, this, args, node, func):
        j = args[0][1]
        g = lambda f: st.mem[this + '.' + f]
        ncs = g('compute_surfs').dims[0]
        ex.obl('pre', st, band(le(0, j), lt(j, ncs)), node, 'surface_solve: js_b is a selected surface')
        if not ex.quiet:
            self.calls += 1
            new = core.after_init(st.copy(), self.case)
            for f, v in new.items():
                if f in OUTS or f in ('Boozer_I', 'Boozer_G'):
                    got = g(f)
                    ex.obl('pre', st, band(*[eq(a, b) for a, b in zip(got.dims, v.dims)]), node, 'surface_solve: %s is allocated' % f)
                else:
                    c = units.compare(st.pc, g(f), v)
                    ex.obl('pre', st, TRUE if c[0] == 'proved' else FALSE, node, 'surface_solve: %s is initialised' % f)
        js = app('cs', (j,), 'I')
        ex.touch('r', this + '.compute_surfs', (('i', j),), st)
        for f in core.OUT_SYM + (core.OUT_ASYM if self.case['asym'] else []):
            a = g(f)
            ex.touch('r', this + '.' + f, (('r', ZERO, a.dims[0]), ('i', j)), st)
            ex.store(st, X.LV(this + '.' + f, (('r', ZERO, a.dims[0]), ('i', j))), Arr([a.dims[0]], own(f)(IDX[0], js)), node)
        for f in ('Boozer_I', 'Boozer_G'):
            ex.touch('r', this + '.' + f, (('i', j),), st)
            ex.store(st, X.LV(this + '.' + f, (('i', j),)), own(f)(None, js), node)
        return X.VOID


def run_tags(f):
    if f in OUTS:
        return ['C01', 'C06', 'C07', 'C08']
    if f in ('Boozer_I', 'Boozer_G', 'Boozer_I_all', 'Boozer_G_all'):
        return ['C02', 'C06', 'C07', 'C08']
    if f in ('xm_b', 'xn_b', 'mnboz'):
        return ['C03', 'C07', 'C08']
    return ['C06', 'C07', 'C08']


def unit_run(case):
    def run(r):
        tu = cxx.TU(['init_trig.cpp', 'init.cpp', 'surface_solve.cpp', 'check_accuracy.cpp', 'run.cpp', 'booz_xform.cpp'])
        ex = X.Executor(tu)
        st = core.input_state(tu, dict(case, verbose=sv()))
        ent = st.copy()
        ini, sol = Init(case), SurfaceSolve(case)
        ex.contracts[('Booz_xform', 'init')] = ini
        ex.contracts[('Booz_xform', 'surface_solve')] = sol
        f = the(tu, 'Booz_xform', 'run')
        outs = ex.run_function(f, st, 'this', [], None)
        r.functions.add('Booz_xform::run')
        sp = ent.copy()
        spec = core.after_init(sp, case)
        js = app('cs', (IDX[1],), 'I')
        for k in core.OUT_SYM + (core.OUT_ASYM if case['asym'] else []):
            spec[k] = Arr(spec[k].dims, own(k)(IDX[0], js))
        for k in ('Boozer_I', 'Boozer_G'):
            spec[k] = Arr(spec[k].dims, own(k)(None, app('cs', (IDX[0],), 'I')))
        if not (ini.calls and sol.calls):
            r.add(['C01', 'C06', 'C07'], 'post', 'run calls init and surface_solve', 'unknown', '')
        frame_and_post(r, ent, outs, spec, run_tags, ['C06', 'C07', 'C08'], 'run')
        r.take(ex)
        r.uninit(ex, outs, ['this.'])
    return run


for _a in (False, True):
    unit('run[asym=%d]' % _a, ['C01', 'C02', 'C06', 'C07', 'C08'])(unit_run(dict(asym=_a)))


# ---------------------------------------------------------------- init with a surface that does not exist
@unit('init[bad surface]', ['C11', 'C13'])
def u_init_bad(r):
    tu = cxx.TU(['init_trig.cpp', 'init.cpp', 'booz_xform.cpp'])
    ex = X.Executor(tu)
    st = core.input_state(tu, dict(asym=True, verbose=sv(), nboz='pos'))
    ncs = st.mem['this.compute_surfs'].dims[0]
    ns = st.mem['this.ns_in']
    # some selected surface is outside 0..ns_in-1
    S.FACTS.pop('cs')
    S.clear_caches()
    b = var('bad', 'I', 0)
    csb = app('cs', (b,), 'I')
    S.FACTS['cs'] = lambda i: [band(le(0, b), lt(b, ncs), bor(lt(csb, 0), le(ns, csb)))]
    st.assume(le(0, b), lt(b, ncs), bor(lt(csb, 0), le(ns, csb)))
    ex.contracts[(None, 'init_trig')] = core.InitTrig()
    f = the(tu, 'Booz_xform', 'init')
    outs = ex.run_function(f, st, 'this', [], None)
    r.functions.add('Booz_xform::init')
    n = 0
    for o in outs:
        if o.kind == 'throw':
            n += 1
            r.add(['C11'], 'post', 'init throws a standard exception', 'proved' if 'error' in str(o.val) or 'exception' in str(o.val) else 'unknown', 'normal_form', fn='init')
            continue
        r.prove(['C11'], 'post', 'init does not return normally when a selected surface does not exist', tuple(o.st.pc), FALSE, fn='init')
    if not n:
        r.add(['C11'], 'post', 'init rejects selected surfaces that do not exist', 'refuted', '', fn='init')
    r.take(ex)
