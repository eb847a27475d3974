"""The command line program (C17): driver() against the contracts of read_wout, run and write_boozmn."""
import term as T
import solve as S
import sym as X
import cxx
import core
import iomodel as IO
import libmodels as L
from units import unit
from core_units import the
from term import ZERO, ONE, TRUE, FALSE, P, Poly, Bool, le, lt, ge, gt, eq, ne, band, bor, bnot, br, subst, var, app, num, ite
from sym import Arr, Str, IDX, IATOM, Opaque, ListV

I0, I1 = IDX
FILES = ['driver.cpp', 'booz_xform.cpp', 'read_wout.cpp', 'run.cpp', 'write_boozmn.cpp']
NLIST = var('nlist', 'I', 0)
CALLS = 'ghost:calls'


def fields(tu):
    for f, d in tu.classes['Booz_xform'].items():
        yield f, X.strip_t(d['type'].get('desugaredQualType', d['type']['qualType']))


def havoc_object(tu, st, key, tag):
    """Arbitrary contents: the effect of a method on which nothing more is assumed here."""
    for f, t in fields(tu):
        if f == 'verbose' and tag != 'any_':
            continue
        v = st.mem[key + '.' + f] = rename(core.old_value(f, t), tag)
        bounded(st, v)


def bounded(st, v):
    """Fewer than 2^24 elements per dimension: a size limit, as in the other units."""
    if isinstance(v, Arr):
        for d in v.dims:
            st.assume(le(d, IO.LIM))


def rename(v, tag):
    if isinstance(v, Arr):
        return Arr([subst_names(d, tag) for d in v.dims], subst_names(v.body, tag), v.sort)
    if isinstance(v, (Poly, Bool)):
        return subst_names(v, tag)
    return v


def subst_names(p, tag):
    for a in sorted(T.atoms_in(p, set()), key=str):
        pass
    if isinstance(p, Bool):
        return T.bvar(tag + str(p))
    out = p
    ats = [a for a in T.atoms_in(p, set()) if a.name not in IDXN]
    mp = {}
    for a in ats:
        if a.kind == 'var':
            mp[a] = var(tag + a.name, a.sort, 0 if T.Ctx.lb.get(a) is not None else None)
        elif a.kind == 'app':
            mp[a] = app(tag + a.name, a.args, a.sort)
    return subst(out, {a: v for a, v in mp.items() if a.kind == 'var'}) if all(a.kind == 'var' for a in mp) else \
        T.subst_fn(subst(out, {a: v for a, v in mp.items() if a.kind == 'var'}), {a.name: (lambda *args, n=tag + a.name, s=a.sort: app(n, args, s)) for a in ats if a.kind == 'app'})


IDXN = {a.name for a in IATOM}


def snapshot(st, key):
    return tuple(sorted(((k[len(key) + 1:], v) for k, v in st.mem.items() if k.startswith(key + '.')), key=lambda x: x[0]))


class Event:
    """A contract that records the call, the object's state at the call, and gives the object the contents `tag`."""

    def __init__(self, tu, name, tag, changes):
        self.tu, self.name, self.tag, self.changes = tu, name, tag, changes

    def binds(self, ex, func):
        return True

    def apply(self, ex, st, this, args, node, func):
        vals = tuple(ex.load(st, v, node) if k == 'ref' else v for k, v in args)
        old = st.mem.get(CALLS)
        if not isinstance(old, ListV):
            raise X.Unsupported('order of the calls', node)
        fails = T.bvar('%s fails' % self.name)
        th = st.copy()
        th.assume(fails)
        th.mem[CALLS] = ListV(old.items + ((self.name + ' fails', this, vals, snapshot(st, this)),))
        if self.changes:
            havoc_object(self.tu, th, this, 'failed_')
        if ex.throws is None:
            raise X.Unsupported('call outside a statement', node)
        ex.throws.append(X.Outcome('throw', th, 'std::runtime_error'))
        st.assume(bnot(fails))
        st.mem[CALLS] = ListV(old.items + ((self.name, this, vals, snapshot(st, this)),))
        if self.changes == 'all':
            havoc_object(self.tu, st, this, self.tag)
        elif self.changes:
            for f, t in fields(self.tu):
                if f not in core.INPUTS:
                    v = st.mem[this + '.' + f] = rename(core.old_value(f, t), self.tag)
                    bounded(st, v)
        else:
            # the stated effect of writing (unit write_boozmn): phip[0] is set to 0, nothing else changes
            v = st.mem[this + '.phip']
            if isinstance(v, Arr):
                st.mem[this + '.phip'] = Arr(v.dims, ite(eq(I0, 0), ZERO, v.body), v.sort)
        return X.VOID


def start(tu, argc):
    st = X.State()
    S.reset()
    S.clear_caches()
    IO.facts()
    st.mem['ghost:stdout'] = ()
    st.mem[CALLS] = ListV()
    st.mem['argv'] = ListV([Str(('sym', 'argv0')), Str(('sym', 'argv1')), Str(('sym', 'argv2'))])
    S.FACTS['in_i_ok'] = also(S.FACTS['in_i_ok'], lambda p: [bor(lt(p, 3), le(3 + NLIST, p), IO.ok('i', p))])
    return st


def also(f, g):
    return lambda *a: list(f(*a)) + list(g(*a))


def said(st):
    """Text printed to stdout, as far as it is literal."""
    out = []

    def walk(t):
        for e in t:
            if e[0] == 'str' and isinstance(e[1], Str):
                out.append(''.join(x if isinstance(x, str) else '\0' for x in e[1].parts))
            elif e[0] == 'loop':
                walk(e[3])
            elif e[0] == 'if':
                for c, v in e[1]:
                    walk(v)
    g = st.mem.get('ghost:stdout', ())
    walk(g if isinstance(g, tuple) else ())
    return ''.join(out)


def executor(tu):
    ex = X.Executor(tu)
    ex.contracts[('Booz_xform', 'read_wout')] = Event(tu, 'read_wout', 'rw_', 'all')
    ex.contracts[('Booz_xform', 'run')] = Event(tu, 'run', 'ran_', 'outputs')
    ex.contracts[('Booz_xform', 'write_boozmn')] = Event(tu, 'write_boozmn', 'wr_', None)
    return ex


CP = ['C17']
WORD = ('sym', 'word@2')


def error(o):
    """An error end: an exception, or (as a condition) a status other than 0."""
    if o.kind == 'throw':
        return TRUE
    return ne(o.val, 0) if isinstance(o.val, Poly) else FALSE


@unit('driver', ['C17'])
def u_driver(r):
    tu = cxx.TU(FILES)
    fn = 'driver'
    f = the(tu, None, 'driver')
    r.functions |= {'booz_xform::driver'}
    # ---- a wrong number of arguments
    argc = var('argc', 'I', 0)
    st = start(tu, argc)
    st.assume(ne(argc, 2))
    ex = executor(tu)
    outs = ex.run_function(f, st, None, [('val', argc), ('val', X.Ptr(X.LV('argv')))], None)
    for o in outs:
        r.prove(CP, 'post', 'wrong argument count: the program returns (%s)' % o.kind, o.st.pc, FALSE if o.kind not in ('return', 'next') else TRUE, fn=fn)
        if o.kind == 'throw':
            continue
        calls = o.st.mem[CALLS].items
        r.add(CP, 'post', 'wrong argument count: nothing is loaded, run or written', 'refuted' if calls else 'proved', 'normal_form', fn=fn)
        r.add(CP, 'post', 'wrong argument count: no input file is opened', 'refuted' if o.st.mem.get('ghost:files') else 'proved', 'normal_form', fn=fn)
        r.add(CP, 'post', 'wrong argument count: the usage is printed', 'proved' if 'Usage' in said(o.st) else 'refuted', 'normal_form', fn=fn)
    r.take(ex)
    # ---- one argument
    st = start(tu, num(2))
    ex = executor(tu)
    outs = ex.run_function(f, st, None, [('val', num(2)), ('val', X.Ptr(X.LV('argv')))], None)
    good = [IO.OPENS, IO.ok('i', ZERO), IO.ok('i', ONE), IO.ok('s', num(2)), bnot(IO.ok('i', 3 + NLIST)), le(NLIST, IO.LIM)]
    works = [bnot(T.bvar('%s fails' % x)) for x in ('read_wout', 'run', 'write_boozmn')]
    done = 0
    for n, o in enumerate(outs):
        pc = list(o.st.pc)
        bad = error(o)
        # errors in the input file
        calls = o.st.mem[CALLS].items if isinstance(o.st.mem.get(CALLS), ListV) else None
        if calls is None:
            r.add(CP, 'post', 'the calls made (end %d)' % n, 'unknown', 'merge', fn=fn)
            continue
        names = [c[0] for c in calls]
        for what, c in (('a file that does not open', bnot(IO.OPENS)), ('a file without mboz', bnot(IO.ok('i', ZERO))), ('a file without nboz', bnot(IO.ok('i', ONE))),
                        ('a file without an extension', bnot(IO.ok('s', num(2))))):
            r.prove(CP, 'post', '%s is an error (end %d)' % (what, n), pc + [c], bad, fn=fn)
            if 'write_boozmn' in names:
                r.prove(CP, 'post', '%s: nothing is written (end %d)' % (what, n), pc + [c], FALSE, fn=fn)
        fl = [x for x in names if x.endswith(' fails')]
        if fl:
            r.prove(CP, 'post', 'a failure of %s is an error (end %d)' % (fl[0][:-6], n), pc, bad, fn=fn)
            r.add(CP, 'post', 'nothing is run or written after %s (end %d)' % (fl[0], n), 'proved' if names[-1] == fl[0] else 'refuted', 'normal_form', fn=fn)
            continue
        # a well-formed file: every end is a normal one
        pw = pc + good + works
        r.prove(CP, 'post', 'a well-formed file is processed (end %d)' % n, pw, bnot(bad), fn=fn)
        if o.kind == 'throw':
            continue
        if X.State({}, pw).prem().feasible() is False:
            continue
        done += 1
        ok = names == ['read_wout', 'run', 'write_boozmn'] and len({c[1] for c in calls}) == 1
        r.add(CP, 'post', 'load, transform and write, once each, in this order, on one object', 'proved' if ok else 'refuted' if sorted(names) != ['read_wout', 'run', 'write_boozmn'] else 'unknown',
              'normal_form', info=None if ok else {'calls': names}, fn=fn)
        if not ok:
            continue
        (_, obj, a1, s1), (_, _, a2, s2), (_, _, a3, s3) = calls
        r.add(CP, 'post', 'wout_<extension>.nc is loaded', 'proved' if a1[0] == Str('wout_', WORD, '.nc') else 'refuted', 'normal_form', info={'name': repr(a1[0])}, fn=fn)
        r.add(CP, 'post', 'boozmn_<extension>.nc is written', 'proved' if a3[0] == Str('boozmn_', WORD, '.nc') else 'refuted', 'normal_form', info={'name': repr(a3[0])}, fn=fn)
        files = o.st.mem.get('ghost:files', ())
        r.add(CP, 'post', 'the input file is the one named', 'proved' if files == (Str(('sym', 'argv1')),) else 'refuted', 'normal_form', fn=fn)
        # inputs at the time of run(): as loaded, apart from mboz, nboz and compute_surfs
        ref = X.State()
        havoc_object(tu, ref, 'x', 'rw_')
        s2, s3 = dict(s2), dict(s3)
        for fld, t in fields(tu):
            if fld not in core.INPUTS or fld == 'verbose':
                continue
            got = s2[fld]
            if fld in ('mboz', 'nboz'):
                d, w = ref.mem['x.' + fld], app('in_i', (ZERO if fld == 'mboz' else ONE,), 'I')
                r.equal(CP, '%s is the larger of the default and the requested value' % fld, pw, got, ite(lt(d, w), w, d), fn=fn)
            elif fld == 'compute_surfs':
                r.equal(CP, 'without a list all surfaces stay selected', pw + [eq(NLIST, 0)], got, ref.mem['x.compute_surfs'], fn=fn)
                pl = pw + [ge(NLIST, 1)]
                r.prove(CP, 'post', 'as many surfaces are selected as are listed', pl, eq(got.dims[0], NLIST), fn=fn)
                k = units_k()
                got = resolved(got, pl)
                r.prove(CP, 'post', 'the selected surfaces are in ascending order', pl + [le(0, k), lt(k + 1, NLIST), eq(got.dims[0], NLIST)], le(got.at(k), got.at(k + 1)), fn=fn)
                want = Arr([length(got, pl)], app('in_i', (3 + I0,), 'I'), 'I')
                r.equal(CP, 'every listed surface is selected as often as it is listed, and no other', pl, L.count(got, L.ANY), L.count(want, L.ANY), fn=fn)
            else:
                r.equal(CP, '%s is transformed as loaded' % fld, pw, got, ref.mem['x.' + fld], fn=fn)
        # the object is written as run() left it
        after = X.State()
        for fld, t in fields(tu):
            w = s2[fld] if fld in core.INPUTS else rename(core.old_value(fld, t), 'ran_')
            if fld in core.INPUTS + core.OUTPUTS and fld != 'verbose':
                r.equal(CP, '%s is written as it was after the run' % fld, pw, s3[fld], w, fn=fn)
    r.add(CP, 'post', 'a well-formed file can be processed', 'proved' if done else 'refuted', 'normal_form', fn=fn)
    r.take(ex)
    r.trusted |= ex.trusted


def units_k():
    return var('k?', 'I', 0)


def resolved(v, pc):
    pr = X.State({}, pc).prem()
    dims = [S.simplify(d, pr) for d in v.dims]
    return Arr(dims, S.simplify(v.body, pr.plus(*X.inrange(dims))), v.sort)        # contents matter inside the array only


def length(v, pc):
    """nlist, under the name the program's loop gives it where the solver shows the two equal."""
    pr = X.State({}, pc).prem()
    for a in sorted(T.atoms_in(v.dims[0], set()), key=str):
        if a.kind == 'var' and a.name.startswith('iter!') and pr.decide(eq(T.of_atom(a), NLIST)) is True:
            return T.of_atom(a)
    return NLIST


@unit('main', ['C17'])
def u_main(r):
    """main() is driver()."""
    tu = cxx.TU(['driver.cpp', 'booz_xform.cpp'])
    tu.load('xbooz_xform.cpp', 'main')
    ms = [f for f in tu.find(None, 'main')]
    if len(ms) != 1:
        raise cxx.ExtractError('main: %d definitions' % len(ms))
    r.functions |= {'main'}

    class Driver:
        def binds(self, ex, func):
            return True

        def apply(self, ex, st, this, args, node, func):
            st.mem[CALLS] = ListV(st.mem[CALLS].items + (tuple(ex.load(st, v, node) if k == 'ref' else v for k, v in args),))
            return app('driver_status', (), 'I')
    argc = var('argc', 'I', 0)
    st = start(tu, argc)
    ex = X.Executor(tu)
    ex.contracts[(None, 'driver')] = Driver()
    argv = X.Ptr(X.LV('argv'))
    outs = ex.run_function(ms[0], st, None, [('val', argc), ('val', argv)], None)
    for o in outs:
        c = o.st.mem[CALLS].items
        r.add(CP, 'post', 'main calls driver once, with its own arguments', 'proved' if c == ((argc, argv),) else 'refuted', 'normal_form', fn='main')
        r.add(CP, 'post', 'main returns the status of driver', 'proved' if o.kind == 'return' and o.val is app('driver_status', (), 'I') else 'refuted', 'normal_form', fn='main')
    r.take(ex)
