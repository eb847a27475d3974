"""The Python layer under contract: the command line front end (C18) and the plots (C20)."""
import os
import cxx
import term as T
import solve as S
import pysym as Y
import units
from units import unit
from pysym import (Interp, PyModule, PyRaise, Func, Builtin, Module, PObj, PList, Seq, Seg, SStr, Opaque, Exc, Env, BArr, Poison, map_val)
from term import ZERO, ONE, TRUE, FALSE, P, Poly, Bool, le, lt, ge, gt, eq, ne, band, bor, bnot, br, subst, var, app, num, ite, PI
from sym import Arr, IDX, IATOM, Unsupported

PKG = os.path.join(cxx.REPO, 'src', 'booz_xform')


# ---------------------------------------------------------------- comparison of values

def worst(rs):
    rs = [r for r in rs]
    for s in ('refuted', 'unknown'):
        for r in rs:
            if r[0] == s:
                return r
    return ('proved', 'normal_form', None)


def num_of(v):
    return isinstance(v, (int, float, Poly, Bool)) or v is True or v is False


def same(pc, a, b, what=''):
    """(status, back end, info) for a == b under pc."""
    no = ('refuted', 'normal_form', {'what': what, 'got': str(a)[:300], 'want': str(b)[:300]})
    dunno = ('unknown',) + no[1:]
    if a is b:
        return ('proved', 'normal_form', None)
    if isinstance(a, Arr) and isinstance(b, Arr):
        return units.compare(pc, a, b)
    if isinstance(a, (Arr, BArr)) or isinstance(b, (Arr, BArr)):
        return dunno
    if num_of(a) and num_of(b):
        if isinstance(a, Bool) or isinstance(b, Bool):
            x, y = Y.to_bool(a), Y.to_bool(b)
            return units.compare(pc, x, y)
        return units.compare(pc, Y.as_poly(a), Y.as_poly(b))
    if isinstance(a, str) and isinstance(b, str) or a is None or b is None:
        return ('proved', 'normal_form', None) if a == b else no
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return no
        return worst([same(pc, x, y, what) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return no
        return worst([same(pc, a[k], b[k], '%s %s' % (what, k)) for k in a])
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        x, y = SStr(a).parts, SStr(b).parts
        if len(x) != len(y):
            return dunno if any(not isinstance(p, str) for p in x + y) else no
        return worst([same(pc, p, q, what) for p, q in zip(x, y)])
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        if a.what != b.what:
            return dunno
        return same(pc, a.args, b.args, what)
    if isinstance(a, PList) and isinstance(b, PList):
        return same_list(pc, a.items, b.items, what)
    if isinstance(a, Seg) and isinstance(b, Seg):
        return same_seg(pc, a, b, what)
    return dunno


def same_list(pc, a, b, what):
    if len(a) != len(b):
        seg = any(isinstance(x, Seg) for x in list(a) + list(b))
        return ('unknown' if seg else 'refuted', 'normal_form', {'what': what + ' (number of entries)', 'got': str(a)[:300], 'want': str(b)[:300]})
    return worst([same(pc, x, y, what) for x, y in zip(a, b)])


def same_seg(pc, a, b, what):
    r = units.compare(pc, a.n, b.n)
    if r[0] != 'proved':
        return ('unknown',) + tuple(r[1:])
    i = T.fresh('ce')
    pr = tuple(pc) + (le(0, i), lt(i, a.n))
    at = lambda s, x: map_val(x, lambda p: subst(p, {T.atom_of(s.i): i}))
    out = []
    for kind in ('branches', 'stops'):
        x, y = at(a, getattr(a, kind)), at(b, getattr(b, kind))
        # every combination of guards that can happen carries the same entries
        for c1, l1 in x:
            for c2, l2 in y:
                both = band(c1, c2)
                if both is FALSE or not S.Prem(pr + (both,)).feasible():
                    continue
                out.append(same_list(pr + (both,), l1, l2, what))
        gx, gy = bor(FALSE, *[c for c, _ in x]), bor(FALSE, *[c for c, _ in y])
        if gx is not gy:
            g = S.Prem(pr).prove(bor(band(gx, gy), band(bnot(gx), bnot(gy))))
            if g[0] != 'proved':
                # a branch without entries is the same as none
                d1 = bor(FALSE, *[c for c, l in x if l])
                d2 = bor(FALSE, *[c for c, l in y if l])
                g = S.Prem(pr).prove(bor(band(d1, d2), band(bnot(d1), bnot(d2)))) if kind == 'branches' else g
            if g[0] != 'proved':
                out.append((g[0], g[1], {'what': what + ' (when entries appear)', 'got': str(gx)[:200], 'want': str(gy)[:200]}))
    return worst(out)


def add(r, props, desc, res, pc=(), fn='', lvl=None):
    st = res[0]
    if st == 'refuted' and units.unknown_value(*[b for b in pc if isinstance(b, (Poly, Bool))]):
        st = 'unknown'
    r.add(props, 'post', desc, st, res[1], 'src/booz_xform', 0.0, res[2] if st != 'proved' else None, fn, lvl)


# ---------------------------------------------------------------- the command line front end
ARGC = var('argc', 'I', 0)
NTOK = var('ntok', 'I', 0)


def isint(i):
    return eq(app('tokisint', (P(i),), 'I'), 1)


def tokval(i):
    return app('tokval', (P(i),), 'I')


def tok(i):
    return SStr(('tok', P(i)))


def py_int(I, args, kw):
    v = args[0]
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, Poly) and T.is_int(v):
        return v
    if isinstance(v, SStr) and len(v.parts) == 1 and v.parts[0][0] == 'tok' and len(args) == 1 and not kw:
        i = v.parts[0][1]
        if not I.decide(isint(i)):
            raise PyRaise(ValueError)
        return tokval(i)
    raise Unsupported('int()')


Y.BUILTINS['int'] = Builtin('int', py_int)


class FileObj:
    context = True

    @staticmethod
    def m_read(I, f):
        return SStr(('text', f.attrs['name']))

    @staticmethod
    def m_close(I, f):
        return None


def py_open(I, args, kw):
    if len(args) > 1 and args[1] not in ('r', 'rt') or kw.get('mode', 'r') not in ('r', 'rt') or set(kw) - {'mode', 'encoding'}:
        raise Unsupported('open')
    if I.decide(T.bvar('open fails')):
        raise PyRaise(FileNotFoundError)
    I.event(('open', args[0]))
    return PObj(FileObj, name=args[0])


def s_split(I, s, *args):
    if args not in ((), (None,)) or not (isinstance(s, SStr) and len(s.parts) == 1 and s.parts[0][0] == 'text'):
        raise Unsupported('split')
    return Seq(NTOK, tok)


Y.BUILTINS['open'] = Builtin('open', py_open)
Y.STR_METHODS['split'] = s_split
Y.STR_METHODS['strip'] = lambda I, s, *a: s if isinstance(s, SStr) and len(s.parts) == 1 and s.parts[0][0] in ('text', 'tok') and not a else (_ for _ in ()).throw(Unsupported('strip'))


class BX:
    """The transformation object: methods through their contracts (C01-C16)."""

    @staticmethod
    def new(I):
        return PObj(BX, phase=0, own=())

    @staticmethod
    def get(I, v, a):
        tag = 'wout_' if v.attrs['phase'] else 'def_'
        if a in ('mboz', 'nboz', 'mnboz', 'nfp', 'ns_in', 'verbose', 'mpol', 'ntor'):
            return app(tag + a, (), 'I')
        if a == 'compute_surfs':
            return Seq(app(tag + 'nsurf', (), 'I'), lambda k: app(tag + 'surf', (P(k),), 'I'))
        raise Unsupported('attribute %s' % a)

    @staticmethod
    def set(I, v, a, x):
        if a in ('phase', 'own'):
            raise Unsupported('attribute')
        v.attrs[a] = x

    @staticmethod
    def m_read_wout(I, v, filename, flux=False):
        I.event(('read_wout', filename, flux))
        if I.decide(T.bvar('read_wout throws')):
            raise PyRaise(RuntimeError)
        keep = {k: x for k, x in v.attrs.items() if k in ('verbose',)}
        v.attrs.clear()
        v.attrs.update(phase=1, own=(), **keep)

    @staticmethod
    def m_run(I, v):
        I.event(('run', {k: x for k, x in v.attrs.items() if k not in ('own', 'verbose')}))
        if I.decide(T.bvar('run throws')):
            raise PyRaise(RuntimeError)

    @staticmethod
    def m_write_boozmn(I, v, filename):
        I.event(('write_boozmn', filename))
        if I.decide(T.bvar('write_boozmn throws')):
            raise PyRaise(RuntimeError)


def outcome(I, fn):
    try:
        v = fn()
        return ('return', v, I.log)
    except PyRaise as e:
        if e.cls is SystemExit:
            return ('exit', e.msg, I.log)
        return ('raise', e, I.log)


def run_cli(argv_none):
    """All paths of _cli.main: [(pc, (kind, value, log))]."""
    S.reset()
    S.clear_caches()
    I = Interp([le(ZERO, ARGC, raw=True), le(ZERO, NTOK, raw=True)])
    arg = lambda i: SStr(('arg', P(i)))
    argv = Seq(ARGC, arg)
    argv0 = Seq(ARGC + 1, lambda k: SStr(('arg', P(k) - 1)))
    exit_ = Builtin('exit', lambda I_, a, k: (_ for _ in ()).throw(PyRaise(SystemExit, a[0] if a else None)))
    sysm = Module('sys', {'argv': argv0, 'stderr': Opaque('stderr'), 'stdout': Opaque('stdout'), 'exit': exit_})
    me = Module('.', {'Booz_xform': BX, '__version__': SStr(('version',))})
    mod = PyModule(os.path.join(PKG, '_cli.py'), {'sys': sysm, '.': me, '._booz_xform': me, 'os': Module('os', {})})
    env = mod.load(I)
    f = env.vars.get('main')
    if not isinstance(f, Func):
        raise cxx.ExtractError('_cli.main not found')

    def one():
        I.log = PList()
        I.obls = []
        return outcome(I, lambda: I.call(f, [] if argv_none else [argv], {}))
    base = list(I.pc)
    res = [(base + pc, o) for pc, o in I.explore(one)]
    return res, I, env


def is_usage(text):
    return isinstance(text, str) and 'usage' in text.lower() and 'xbooz_xform' in text


# exceptions by which a mistake shows, not a report about the input
ACCIDENT = (LookupError, TypeError, AttributeError, NameError)


def u_cli(argv_none):
    def run(r):
        res, I, env = run_cli(argv_none)
        r.functions.add('_cli.main')
        r.inlined |= {'_cli.' + n for n in I.inlined if n != 'main'}
        fn = '_cli.main'
        i = T.fresh('tk')
        n_list = NTOK - 3
        listed = PList([Seg(n_list, i, [(isint(i + 3), [tokval(i + 3)])], [(bnot(isint(i + 3)), [])])])
        some = band(lt(0, n_list), isint(3))
        mx = lambda a, b: ite(lt(a, b), b, a)
        for pc, (kind, val, log) in res:
            pr = S.Prem(tuple(pc))
            if not pr.feasible():
                continue
            ev = [e for e in log.items if not (isinstance(e, tuple) and e[0] == 'print') and not (isinstance(e, Seg) and only_print(e))]
            calls = [e for e in ev if isinstance(e, tuple) and e[0] != 'open']
            odd = [e for e in ev if isinstance(e, Seg)]
            P_ = lambda cond, desc, want: add(r, ['C18'], desc, ('proved', 'normal_form', None) if want else ('refuted', 'normal_form', {'pc': str(pc)[:400], 'log': str(log)[:400]}), pc, fn)
            if odd:
                add(r, ['C18'], 'calls on the object happen once', ('unknown', '', {'log': str(odd)[:300]}), pc, fn)
                continue
            if pr.decide(ne(ARGC, 1)) is True:
                usage = any(isinstance(e, tuple) and e[0] == 'print' and any(is_usage(a) for a in e[1]) for e in log.items)
                P_(None, 'wrong number of arguments: usage is printed', usage)
                P_(None, 'wrong number of arguments: nothing else happens', not ev and kind in ('return', 'exit'))
                continue
            if pr.decide(eq(ARGC, 1)) is not True:
                r.prove(['C18'], 'post', 'one argument and another number of arguments are told apart', tuple(pc), eq(ARGC, 1), fn=fn)
                continue
            failed = kind == 'raise' and issubclass(val.cls, Exception) or kind == 'return' and isinstance(val, int) and val != 0 or \
                kind == 'exit' and val not in (None, 0)
            if failed and kind == 'raise' and issubclass(val.cls, ACCIDENT):
                failed = False
            if pr.decide(T.bvar('open fails')) is True:
                P_(None, 'missing input file: error, nothing is computed', failed and not calls)
                continue
            opened = [e for e in ev if isinstance(e, tuple) and e[0] == 'open']
            add(r, ['C18'], 'the file of the argument is read', same(pc, [e[1] for e in opened], [SStr(('arg', ZERO))]), pc, fn)
            if pr.decide(lt(NTOK, 3)) is True:
                P_(None, 'fewer than three entries: error, nothing is computed', failed and not calls)
                continue
            if pr.decide(band(isint(0), isint(1))) is False:
                P_(None, 'mboz or nboz is not a number: error, nothing is computed', failed and not calls)
                continue
            ok = band(le(3, NTOK), isint(0), isint(1))
            if pr.decide(ok) is not True:
                # a path that does not look: some file of its kind is one of the bad ones above
                P_(None, 'files with too few entries or without numbers are told apart', failed and not calls)
                continue
            ext = tok(2)
            want = [('read_wout', SStr('wout_', ext, '.nc'), False)]
            if pr.decide(T.bvar('read_wout throws')) is True:
                add(r, ['C18'], 'read_wout is called with the file of the extension', same(pc, calls, want), pc, fn)
                P_(None, 'an error of read_wout is reported', failed)
                continue
            at = {'phase': 1, 'mboz': mx(app('wout_mboz', (), 'I'), tokval(0)), 'nboz': mx(app('wout_nboz', (), 'I'), tokval(1))}
            has = pr.decide(some)
            got = next((e[1] for e in calls if e[0] == 'run'), None)
            if got is not None:
                # resolutions left alone keep the values of read_wout
                g2 = dict(got)
                for k in ('mboz', 'nboz'):
                    g2.setdefault(k, app('wout_' + k, (), 'I'))
                calls = [(e[0], g2) if e[0] == 'run' else e for e in calls]
            if has is True:
                at['compute_surfs'] = Opaque('sorted', listed)
            elif has is not False:
                add(r, ['C18'], 'a surface list and none are told apart', ('unknown', '', {'pc': str(pc)[:300]}), pc, fn)
                continue
            want.append(('run', at))
            if pr.decide(T.bvar('run throws')) is not True:
                want.append(('write_boozmn', SStr('boozmn_', ext, '.nc')))
            thrown = any(pr.decide(T.bvar(x + ' throws')) is True for x in ('run', 'write_boozmn'))
            add(r, ['C18'], 'order and number of the calls', same(pc, [e[0] for e in calls], [e[0] for e in want]), pc, fn)
            for g, w in zip(calls, want):
                if g[0] == 'run' == w[0]:
                    for k in sorted(set(g[1]) | set(w[1])):
                        a, b = g[1].get(k, 'left alone'), w[1].get(k, 'left alone')
                        add(r, ['C18'], '%s when run() is called' % k, same(pc, a, b, k), pc, fn)
                elif g[0] == w[0]:
                    add(r, ['C18'], '%s: arguments' % g[0], same(pc, g, w), pc, fn)
            if thrown:
                P_(None, 'an error of run or write_boozmn is reported', failed)
            else:
                P_(None, 'success is reported', kind in ('return', 'exit') and (val is None or val == 0) and not failed)
        r.add(['C18'], 'post', 'paths of main: %d' % len(res), 'proved' if res else 'unknown', 'normal_form')
        r.trusted |= {'Python: str.split, int(), sorted(), max(), exceptions (engine/pysym.py)'}
    return run


def only_print(seg):
    return all(isinstance(x, tuple) and x[0] == 'print' or isinstance(x, Seg) and only_print(x) for _, l in seg.branches + seg.stops for x in l)


unit('cli[argv given]', ['C18'])(u_cli(False))
unit('cli[sys.argv]', ['C18'])(u_cli(True))


# ---------------------------------------------------------------- the plots
NB, NSB, NFP, NSIN, MNMAX = var('mnboz', 'I', 1), var('ns_b', 'I', 1), var('nfp', 'I', 1), var('ns_in', 'I', 1), var('mnmax', 'I', 1)
QUIET = {'colorbar', 'xlabel', 'ylabel', 'title', 'suptitle', 'xlim', 'ylim', 'legend', 'yscale', 'xscale', 'gca', 'gcf', 'tight_layout', 'grid',
         'gca().set_ylim', 'gca().set_xlim', 'gca().set_ylabel', 'gca().set_xlabel', 'gca().set_title', 'gca().set_yscale', 'gca().legend', 'draw'}
SPEC_B = ('bmnc_b', 'bmns_b', 'rmnc_b', 'rmns_b', 'zmnc_b', 'zmns_b', 'numnc_b', 'numns_b', 'gmnc_b', 'gmns_b')
SPEC_IN = ('rmnc', 'rmns', 'zmnc', 'zmns')
I0, I1 = IDX[0], IDX[1]


class BZ:
    """A computed (or read) transformation: any consistent sizes, any values."""
    asym = False

    @staticmethod
    def new(I):
        return PObj(BZ, loaded=None)

    @staticmethod
    def get(I, v, a):
        if v.attrs['loaded'] is None:
            raise Unsupported('attribute of an empty object')
        val = BZ.value(a)
        if val is None:
            raise Unsupported('attribute ' + a)
        return I.freeze(val)

    @staticmethod
    def value(a):
        f = lambda nm, *i: app('p_' + nm, i, 'I')
        if a in SPEC_B:
            return Arr([NB, NSB], app('p_' + a, (I0, I1)))
        if a in SPEC_IN:
            return Arr([MNMAX, NSIN], app('p_' + a, (I0, I1)))
        return {'nfp': NFP, 'mnboz': NB, 'ns_b': NSB, 'ns_in': NSIN, 'mnmax': MNMAX, 'asym': BZ.asym,
                'xm_b': Arr([NB], f('xm_b', I0), 'I'), 'xn_b': Arr([NB], f('xn_b', I0), 'I'),
                'xm': Arr([MNMAX], f('xm', I0), 'I'), 'xn': Arr([MNMAX], f('xn', I0), 'I'),
                's_b': Arr([NSB], app('p_s_b', (I0,))), 's_in': Arr([NSIN], app('p_s_in', (I0,))),
                'compute_surfs': Arr([NSB], f('cs', I0), 'I')}.get(a)

    @staticmethod
    def set(I, v, a, x):
        I.event(('changed', a))

    @staticmethod
    def m_read_boozmn(I, v, filename):
        I.event(('read_boozmn', filename))
        v.attrs['loaded'] = filename


def plot_facts():
    for nm in ('p_xm_b', 'p_xn_b'):
        S.FACTS[nm] = lambda i, nm=nm: [bor(ne(i, 0), eq(app(nm, (i,), 'I'), 0))]
    S.FACTS['p_cs'] = lambda i: [bor(bnot(band(le(0, i), lt(i, NSB))), band(le(0, app('p_cs', (i,), 'I')), lt(app('p_cs', (i,), 'I'), NSIN)))]


def run_plot(name, make, pre=(), asym=False):
    """All paths of plots.<name>(**make(I)): [(pc, outcome)]."""
    S.reset()
    S.clear_caches()
    plot_facts()
    BZ.asym = asym
    I = Interp([le(1, NB, raw=True), le(1, NSB, raw=True), le(1, NFP, raw=True), le(1, NSIN, raw=True), le(1, MNMAX, raw=True)] + list(pre))
    mods = {'matplotlib.pyplot': Opaque('plt'), 'plotly.graph_objects': Opaque('go'), 'matplotlib': Module('matplotlib', {'pyplot': Opaque('plt')}),
            '._booz_xform': Module('._booz_xform', {'Booz_xform': BZ}), '.': Module('.', {'Booz_xform': BZ})}
    env = PyModule(os.path.join(PKG, 'plots.py'), mods).load(I)
    f = env.vars.get(name)
    if not isinstance(f, Func):
        raise cxx.ExtractError('plots.%s not found' % name)

    def one():
        I.log = PList()
        I.frozen = {}
        return outcome(I, lambda: I.call(f, *make(I)))
    base = list(I.pc)
    res = [(base + pc, o) for pc, o in I.explore(one)]
    return [x for x in res if S.Prem(tuple(x[0])).feasible()], I


def soft(x):
    """A value whose change alone is not a violation (colours, texts)."""
    return Opaque('soft', x)


def label_parts(x):
    """Numbers of a label; its wording is soft."""
    if isinstance(x, (str, SStr)):
        ps = SStr(x).parts
        return (tuple(p[2] if p[0] == 'fmt' else soft(p) for p in ps if not isinstance(p, str)), soft(x))
    return soft(x)


def tidy(items):
    """Events that draw, comparable."""
    out = []
    for e in items:
        if isinstance(e, Seg):
            b = [(c, tidy(l)) for c, l in e.branches]
            s = [(c, tidy(l)) for c, l in e.stops]
            if any(l for _, l in b + s):
                out.append(Seg(e.n, e.i, b, s))
            continue
        if isinstance(e, tuple) and e and isinstance(e[0], str):
            if e[0].startswith('plt.') and e[0][4:] in QUIET:
                continue
            if e[0] in ('plt.plot', 'plt.contour', 'plt.contourf'):
                kw = dict(e[2])
                lab = label_parts(kw.pop('label')) if kw.get('label') is not None else None
                col = soft(kw.pop('color', None))
                rest = soft(kw)
                out.append((e[0], e[1], lab, col, rest))
                continue
        out.append(e)
    return out


def plot_event(name, args, color=None, label=None, kw=None):
    k = {'**': Opaque('user_kwargs')} if kw is None else kw
    return (name, args, None if label is None else label_parts(label), soft(color), soft(k))


_same = same


def same(pc, a, b, what=''):
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.what == b.what == 'soft':
        r = _same(pc, a.args, b.args, what)
        return ('unknown',) + tuple(r[1:]) if r[0] == 'refuted' else r
    return _same(pc, a, b, what)


def result(r, fn, pc, o, want, what):
    """Compare the drawing events of one path with the specification."""
    kind, val, log = o
    if kind != 'return':
        add(r, ['C20'], what + ': returns', ('refuted' if kind == 'raise' else 'unknown', 'normal_form', {'outcome': str(o)[:300], 'pc': str(pc)[-300:]}), pc, fn)
        return
    got = tidy(log.items)
    ch = [e for e in got if isinstance(e, tuple) and e and e[0] == 'changed']
    add(r, ['C20'], what + ': the object is left alone', ('refuted' if ch else 'proved', 'normal_form', {'changed': str(ch)}), pc, fn)
    got = [e for e in got if e not in ch] if ch else got
    if len(got) != len(want):
        add(r, ['C20'], what + ': number of drawing steps', ('unknown', 'normal_form', {'got': str(got)[:500], 'want': str(want)[:500]}), pc, fn)
        return
    for k, (g, w) in enumerate(zip(got, want)):
        add(r, ['C20'], '%s: drawing step %d' % (what, k + 1), same(pc, g, w, '%s step %d' % (what, k + 1)), pc, fn)


def obj(I):
    return PObj(BZ, loaded=True)


USER = Opaque('user_kwargs')


def norm_index(js, n):
    return ite(lt(js, 0), n + js, js)


def val2(name, i, j):
    return app('p_' + name, (P(i), P(j)))


def xm(i):
    return app('p_xm_b', (P(i),), 'I')


def xn(i):
    return app('p_xn_b', (P(i),), 'I')


@unit('plots.surfplot', ['C20'])
def u_surfplot(r):
    js, nth, nph, ncon = var('js', 'I'), var('ntheta', 'I', 2), var('nphi', 'I', 2), var('ncontours', 'I', 1)
    r.functions.add('plots.surfplot')
    for asym in (False, True):
        for fill in (False, True):
            for src in ('object', 'file', 'default js'):
                fname = SStr(('filename',))

                def make(I):
                    kw = dict(fill=fill, ntheta=nth, nphi=nph, ncontours=ncon, js=js)
                    kw['**'] = USER
                    if src == 'default js':
                        del kw['js']
                    return [fname if src == 'file' else obj(I)], kw
                pre = [le(2, nth, raw=True), le(2, nph, raw=True), le(-NSB, js, raw=True), lt(js, NSB)]
                res, I = run_plot('surfplot', make, pre, asym)
                r.inlined |= {'plots.' + n for n in I.inlined if n != 'surfplot'}
                j = ZERO if src == 'default js' else norm_index(js, NSB)
                ph = 2 * PI * T.inv(NFP) * T.inv(nph - 1) * I1
                th = 2 * PI * T.inv(nth - 1) * I0
                k = T.fresh('sk')
                ang = xm(k) * th - xn(k) * ph
                b = val2('bmnc_b', k, j) * T.cos(ang)
                if asym:
                    b = b + val2('bmns_b', k, j) * T.sin(ang)
                modB = T.mk_sum(k, ZERO, NB, b)
                A = lambda x: Arr([nth, nph], x)
                want = [('read_boozmn', fname)] if src == 'file' else []
                want.append(plot_event('plt.contourf' if fill else 'plt.contour', (A(ph), A(th), A(modB), ncon)))
                for pc, o in res:
                    result(r, 'plots.surfplot', pc, o, want, 'surfplot asym=%d fill=%d %s' % (asym, fill, src))
    r.trusted |= {PYTRUST}


PYTRUST = 'Python and numpy: arrays, broadcasting, meshgrid, linspace, argsort, mod (engine/pysym.py); matplotlib and plotly draw the arrays they are given'


def radial(sqrts, log):
    s = app('p_s_b', (I0,))
    rad = Arr([NSB], T.lift_call(T.sqrt, (s,)) if sqrts else s)
    amp = lambda f: Arr([NSB], Y.vabs(f(I0)) if log else f(I0))
    return rad, amp


def data_of(hel):
    """Amplitude of mode i on surface j after the removal of one helicity."""
    def f(i, j):
        v = val2('bmnc_b', i, j)
        if hel is None:
            return v
        return ite(eq(hel[1] * xm(i), hel[0] * xn(i)), ZERO, v)
    return f


REFLINE = ('plt.plot', (PList([0, 1]), PList([0, 0]), ':k'), None, soft(None), soft({}))
COL = {'bg': 'b', 'qa': PList([0, 0.7, 0]), 'mirror': PList([0.7, 0.5, 0]), 'hel': PList([1, 0, 1]), 'plus': 'gray', 'minus': 'c'}
LAB = {'bg': 'm = 0, n = 0 (Background)', 'qa': r'm $\ne$ 0, n = 0 (Quasiaxisymmetric)', 'mirror': r'm = 0, n $\ne$ 0 (Mirror)',
       'hel': r'm $\ne$ 0, n $\ne$ 0 (Helical)', 'plus': r'n = n$_{fp}$ m (Helical)', 'minus': r'n = -n$_{fp}$ m (Helical)', 'other': 'Other helical'}


def classes(i, detail):
    m0, n0 = eq(xm(i), 0), eq(xn(i), 0)
    c = {'bg': band(m0, n0), 'qa': band(n0, bnot(m0)), 'mirror': band(bnot(n0), m0)}
    hel = band(bnot(m0), bnot(n0))
    if detail:
        c['plus'] = band(bnot(m0), eq(xn(i), NFP * xm(i)))
        c['minus'] = band(bnot(m0), eq(xn(i), -NFP * xm(i)))
        c['other'] = band(hel, bnot(c['plus']), bnot(c['minus']))
    else:
        c['hel'] = hel
    return c


def options(*names):
    out = [{}]
    for n in names:
        out = [dict(d, **{n: v}) for d in out for v in (False, True)]
    return out


@unit('plots.symplot', ['C20'])
def u_symplot(r):
    mm, mn = var('max_m', 'I'), var('max_n', 'I')
    hm, hn = var('h_m', 'I'), var('h_n', 'I')
    r.functions.add('plots.symplot')
    for o_ in options('sqrts', 'log', 'B0', 'helical_detail'):
        for hel in (None, (hm, hn)):
            def make(I):
                kw = dict(o_, max_m=mm, max_n=mn, remove_helicity=hel)
                kw['**'] = USER
                return [obj(I)], kw
            res, I = run_plot('symplot', make)
            r.inlined |= {'plots.' + n for n in I.inlined if n != 'symplot'}
            rad, amp = radial(o_['sqrts'], o_['log'])
            d = data_of(hel)
            i = T.fresh('sy')
            want = [] if o_['log'] else [REFLINE]
            cl = classes(i, o_['helical_detail'])
            order = [k for k in ('bg', 'qa', 'mirror', 'plus', 'minus', 'other', 'hel') if k in cl and (k != 'bg' or o_['B0'])]
            y = amp(lambda s: d(i, s))
            col = lambda k: COL.get(k, COL['hel'])
            for k in order:
                want.append(Seg(NB, i, [(bnot(cl[k]), [])], [(cl[k], [plot_event('plt.plot', (rad, y), col(k), LAB[k])])]))
            shown = band(le(Y.vabs(xm(i)), mm), le(Y.vabs(xn(i)), mn * NFP))
            br_ = [(band(shown, cl[k]), [plot_event('plt.plot', (rad, y), col(k))]) for k in order]
            br_.append((bnot(bor(*[c for c, _ in br_])), []))
            want.append(Seg(NB, i, br_, []))
            what = 'symplot ' + ' '.join('%s=%d' % kv for kv in sorted(o_.items())) + (' helicity removed' if hel else '')
            for pc, o in res:
                result(r, 'plots.symplot', pc, o, want, what)
    r.trusted |= {PYTRUST}


@unit('plots.modeplot', ['C20'])
def u_modeplot(r):
    nm = var('nmodes', 'I', 0)
    hm, hn = var('h_m', 'I'), var('h_n', 'I')
    r.functions.add('plots.modeplot')
    for o_ in options('sqrts', 'log', 'B0'):
        for hel in (None, (hm, hn)):
            def make(I):
                kw = dict(o_, nmodes=nm, remove_helicity=hel)
                kw['**'] = USER
                return [obj(I)], kw
            res, I = run_plot('modeplot', make, [le(0, nm, raw=True)])
            r.inlined |= {'plots.' + n for n in I.inlined if n != 'modeplot'}
            rad, amp = radial(o_['sqrts'], o_['log'])
            d = data_of(hel)
            off = 0 if o_['B0'] else 1
            L = NB - off
            key = -Y.vabs(d(I0 + off, NSB - 1))
            order = Y.np_argsort(I, [Arr([L], key)], {})
            i = T.fresh('mo')
            idx = order.at(i) + off
            y = amp(lambda s: d(idx, s))
            n = ite(lt(L, nm), L, nm)
            lab = SStr('$m=$', ('fmt', '', xm(idx)), ', $n=$', ('fmt', '', xn(idx)))
            want = ([] if o_['log'] else [REFLINE]) + [Seg(n, i, [(TRUE, [plot_event('plt.plot', (rad, y), None, lab)])], [])]
            what = 'modeplot ' + ' '.join('%s=%d' % kv for kv in sorted(o_.items())) + (' helicity removed' if hel else '')
            for pc, o in res:
                result(r, 'plots.modeplot', pc, o, want, what)
    r.trusted |= {PYTRUST}


def points(v):
    """Plotly drawings reduced to their coordinates."""
    if isinstance(v, Opaque) and v.what in ('go.Scatter3d', 'go.Surface') and not v.args[0] and {'x', 'y', 'z'} <= set(v.args[1]):
        mode = v.args[1].get('mode', 'lines' if v.what == 'go.Surface' else None)
        return (v.what, v.args[1]['x'], v.args[1]['y'], v.args[1]['z'], soft(mode))
    if isinstance(v, Seg):
        return Seg(v.n, v.i, [(c, [points(x) for x in l]) for c, l in v.branches], [(c, [points(x) for x in l]) for c, l in v.stops])
    return v


@unit('plots.wireplot', ['C20'])
def u_wireplot(r):
    js, nth, nph, ref = var('js', 'I'), var('ntheta', 'I', 1), var('nphi', 'I', 1), var('refine', 'I', 1)
    r.functions.add('plots.wireplot')
    for asym in (False, True):
        for o_ in options('surf', 'orig'):
            for dflt in (True, False):
                def make(I):
                    kw = dict(o_, ntheta=nth, nphi=nph, refine=ref)
                    if not dflt:
                        kw['js'] = js
                    return [obj(I)], kw
                pre = [le(1, nth, raw=True), le(1, nph, raw=True), le(1, ref, raw=True), le(1, nth * ref, raw=True), le(1, nph * ref, raw=True),
                       le(-NSB, js, raw=True), lt(js, NSB)]
                res, I = run_plot('wireplot', make, pre, asym)
                r.inlined |= {'plots.' + n for n in I.inlined if n != 'wireplot'}
                j = NSB - 1 if dflt else norm_index(js, NSB)
                n1, n2 = nth * ref + 1, nph * ref + 1
                th = 2 * PI * T.inv(nth * ref) * I0
                ze = 2 * PI * T.inv(nph * ref) * I1
                k = T.fresh('wk')
                c_, s_ = T.cos(xm(k) * th - xn(k) * ze), T.sin(xm(k) * th - xn(k) * ze)
                v = lambda nm: val2(nm, k, j)
                sm = lambda b: T.mk_sum(k, ZERO, NB, b)
                R = sm(v('rmnc_b') * c_ + (v('rmns_b') * s_ if asym else ZERO))
                Z = sm(v('zmns_b') * s_ + (v('zmnc_b') * c_ if asym else ZERO))
                nu = sm(v('numns_b') * s_ + (v('numnc_b') * c_ if asym else ZERO))
                Rt = sm(-xm(k) * v('rmnc_b') * s_ + (xm(k) * v('rmns_b') * c_ if asym else ZERO))
                Zt = sm(xm(k) * v('zmns_b') * c_ - (xm(k) * v('zmnc_b') * s_ if asym else ZERO))
                phi = ze - nu
                A = lambda b: Arr([n1, n2], b)
                Xa, Ya, Za = A(R * T.cos(phi)), A(R * T.sin(phi)), A(Z)
                want = []
                if o_['surf']:
                    den = T.inv(T.lift_call(T.sqrt, (Rt * Rt + Zt * Zt,)))
                    eps = T.num(T.Fraction(2, 1000)) if hasattr(T, 'Fraction') else Y.as_poly(0.002)
                    Rs, Zs = R - eps * Zt * den, Z + eps * Rt * den
                    want.append(('go.Surface', A(Rs * T.cos(phi)), A(Rs * T.sin(phi)), A(Zs), soft('lines')))

                def curves(Xa, Ya, Za):
                    i = T.fresh('wi')
                    row = lambda a: Arr([n2], subst(a.body, {IATOM[0]: i, IATOM[1]: I0}))
                    column = lambda a: Arr([n1], subst(a.body, {IATOM[1]: i}))
                    on = eq(Y.pmod(i, ref), 0)
                    for n, f in ((n1, row), (n2, column)):
                        want.append(Seg(n, i, [(on, [('go.Scatter3d', f(Xa), f(Ya), f(Za), soft('lines'))]), (bnot(on), [])], []))
                curves(Xa, Ya, Za)
                if o_['orig']:
                    jj = app('p_cs', (P(j),), 'I')
                    w = lambda nm: val2(nm, k, jj)
                    x, y = app('p_xm', (k,), 'I'), app('p_xn', (k,), 'I')
                    c_, s_ = T.cos(x * th - y * ze), T.sin(x * th - y * ze)
                    sm2 = lambda b: T.mk_sum(k, ZERO, MNMAX, b)
                    R = sm2(w('rmnc') * c_ + (w('rmns') * s_ if asym else ZERO))
                    Z = sm2(w('zmns') * s_ + (w('zmnc') * c_ if asym else ZERO))
                    curves(A(R * T.cos(ze)), A(R * T.sin(ze)), A(Z))
                what = 'wireplot asym=%d surf=%d orig=%d %s' % (asym, o_['surf'], o_['orig'], 'outermost surface' if dflt else 'surface js')
                for pc, (kind, val, log) in res:
                    if kind == 'return' and isinstance(val, Opaque) and val.what == 'go.Figure' and isinstance(val.args[1].get('data'), PList):
                        log = PList([e for e in log.items if not (isinstance(e, tuple) and e[0] in ('go.Figure.update_traces', 'go.Figure.update_layout'))] +
                                    [points(x) for x in val.args[1]['data'].items])
                    elif kind == 'return':
                        add(r, ['C20'], what + ': returns the figure', ('unknown', '', {'val': str(val)[:200]}), pc, 'plots.wireplot')
                        continue
                    result(r, 'plots.wireplot', pc, (kind, val, log), want, what)
    r.trusted |= {PYTRUST}


@unit('plots.handle_b_input', ['C20'])
def u_handle(r):
    fname = SStr(('filename',))
    fn = 'plots.handle_b_input'
    r.functions.add(fn)
    for what, arg in (('object', None), ('file name', fname), ('number', 5), ('None', Opaque('none')), ('list', PList())):
        the = []

        def make(I):
            a = arg
            if what == 'object':
                a = obj(I)
                the[:] = [a]
            if what == 'None':
                a = None
            return [a], {}
        res, I = run_plot('handle_b_input', make)
        for pc, (kind, val, log) in res:
            if what == 'object':
                ok = kind == 'return' and val is the[0] and not log.items
            elif what == 'file name':
                ok = kind == 'return' and isinstance(val, PObj) and val.cls is BZ and val.attrs['loaded'] is not None and log.items == [('read_boozmn', fname)]
            else:
                ok = kind == 'raise' and issubclass(val.cls, ValueError)
            add(r, ['C20'], 'argument %s' % what, ('proved' if ok else 'refuted', 'normal_form', {'outcome': str((kind, val, log))[:300]}), pc, fn)
