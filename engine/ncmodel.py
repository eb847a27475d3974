"""Trusted model of the netCDF C library: a ghost file per open id.

Every call returns a fresh integer (0 = success) that is logged; what it delivers is meaningful only when it is 0.
Reading takes its values from a content description (the file under study, or the file a previous run wrote); writing
records dimensions, variables and the data handed over when nc_put_var is called."""
import sym as X
import term as T
import solve as S
from term import Poly, Bool, TRUE, FALSE, ZERO, ONE, P, band, bnot, bor, br, le, lt, ge, gt, eq, ne, subst, ite, var, num, app
from sym import Arr, Str, LV, Ptr, ListV, Opaque, VOID, IDX, IATOM, Unsupported

TYPES = {1: 'byte', 2: 'char', 3: 'short', 4: 'int', 5: 'float', 6: 'double'}


class Content:
    """Variables of a file: name -> (sort, [dims outer..inner]); missing names are of unknown content."""

    def __init__(self, prefix, table=None, dims=None):
        self.prefix, self.table, self.dims = prefix, table or {}, dims or {}

    def known(self, name):
        return name in self.table

    def scalar(self, name):
        s, d = self.table[name]
        return var('%s!%s' % (self.prefix, name), s)

    def at(self, name, lin):
        s, d = self.table[name]
        return app('%s!%s' % (self.prefix, name), (lin,), s)

    def sort(self, name):
        return self.table[name][0] if name in self.table else 'R'

    def shape(self, name):
        return self.table[name][1] if name in self.table else None

    def dim(self, name):
        return self.dims.get(name)

    def fill(self, name, dims):
        """Contents of an array of the given sizes after the file's values were copied in, in memory order."""
        s = self.sort(name)
        lin = IDX[0] if len(dims) == 1 else IDX[0] + dims[0] * IDX[1]
        return app('%s!%s' % (self.prefix, name), (lin,), s)


class Written(Content):
    """The file a previous execution wrote (its ghost events)."""

    def __init__(self, events):
        self.ev = list(events)
        self.vars, self.dms, self.data = {}, {}, {}
        for _, e in flat(self.ev):
            if e[0] == 'dim':
                self.dms.setdefault(e[1], e[2])
            elif e[0] == 'var':
                self.vars.setdefault(e[1], (e[2], e[3]))
            elif e[0] == 'data':
                self.data[e[1]] = e[2]

    def known(self, name):
        return name in self.vars

    def sort(self, name):
        return 'I' if self.vars[name][0] == 4 else 'R'

    def shape(self, name):
        return [self.dms[d] for d in self.vars[name][1]] if name in self.vars else None

    def dim(self, name):
        return self.dms.get(name)

    def scalar(self, name):
        return self.data.get(name)

    def fill(self, name, dims):
        v = self.data.get(name)
        if isinstance(v, Arr) and len(v.dims) == len(dims):
            return v.body if len(dims) == 1 or v.dims[0] == dims[0] else None
        return None


class Env:
    """Per-execution state: what each opened path contains, which calls may fail without consequence."""

    def __init__(self, opener=None, exempt=None):
        self.n = 0
        self.opener = opener or (lambda path: Content('unknown'))
        self.exempt = exempt or (lambda call, what: False)
        self.files = {}


def env(ex):
    e = getattr(ex, 'nc', None)
    if e is None:
        e = ex.nc = Env()
    return e


def ret(ex, st, call, what):
    e = env(ex)
    e.n += 1
    r = var('ncret!%d' % e.n, 'I')
    st.mem['ghost:nc'] = st.mem.get('ghost:nc', ()) + (('ret', call, what, r),)
    return r


def out(ex, st, ptr, val, r, n):
    """Deliver val through a pointer; unspecified on failure."""
    if not isinstance(ptr, Ptr):
        raise Unsupported('output argument of a netCDF call', n)
    if ptr.null:
        return
    if isinstance(val, Poly):
        val = ite(eq(r, 0), val, X.uninit('I' if T.is_int(val) else 'R'))
    ex.store(st, ptr.lv, val, n)


def resolve(ex, st, p, prefix, n):
    """The name behind an id."""
    if isinstance(p, Poly):
        p = S.simplify(p, st.prem())
        a = T.atom_of(p) if len(p.d) == 1 else None
        if a is not None and a.kind == 'var' and a.name.startswith(prefix):
            return a.name[len(prefix):]
    ex.obl('nc', st, FALSE, n, 'a valid %s is passed to the netCDF library' % {'ncid!': 'file id', 'ncdim!': 'dimension id', 'ncvar!': 'variable id'}[prefix])
    raise Unsupported('netCDF id that is not the result of an earlier call', n)


def mode(ex, st, k, want, n, what):
    m = st.mem.get('ghost:ncmode:%s' % k)
    cur = m.tag if isinstance(m, Opaque) else None
    ex.obl('nc', st, TRUE if cur in want else FALSE, n, what)
    return cur


def text(v, n):
    if isinstance(v, Str):
        c = v.concrete()
        return c if c is not None else repr(v)
    raise Unsupported('name passed to the netCDF library', n)


def event(st, k, *e):
    key = 'ghost:ncev:%s' % k
    st.mem[key] = st.mem.get(key, ()) + (e,)


def events(st, k):
    return st.mem.get('ghost:ncev:%s' % k, ())


def call(ex, name, argn, n, st):
    E = env(ex)
    if name == 'nc_strerror':
        ex.ev(argn[0], st)
        return Str(('sym', 'nc_strerror'))
    a = [ex.ev(x, st) for x in argn]
    f = globals().get('c_' + name)
    if f is not None:
        return f(ex, E, a, n, st)
    if name.startswith('nc_get_var_') and len(a) == 3:
        return get_var(ex, E, name, a, n, st)
    if name.startswith('nc_put_var_') and len(a) == 3:
        return put_var(ex, E, name, a, n, st)
    raise Unsupported('netCDF function ' + name, n)


def opened(ex, E, st, r, ptr, content, m, n, *ev):
    k = '%d' % (len(E.files) + 1)
    E.files[k] = content
    st.mem['ghost:ncmode:' + k] = Opaque(m)
    st.mem['ghost:ncev:' + k] = (ev,)
    st.mem['ghost:ncopen'] = st.mem.get('ghost:ncopen', ()) + (('open', k, ev),)
    out(ex, st, ptr, var('ncid!' + k, 'I'), r, n)
    return r


def c_nc_open(ex, E, a, n, st):
    r = ret(ex, st, 'nc_open', '')
    return opened(ex, E, st, r, a[2], E.opener(a[0]), 'read', n, 'open', a[0], a[1])


def c_nc_create(ex, E, a, n, st):
    r = ret(ex, st, 'nc_create', '')
    return opened(ex, E, st, r, a[2], None, 'define', n, 'create', a[0], a[1])


def c_nc_inq(ex, E, a, n, st):
    k = resolve(ex, st, a[0], 'ncid!', n)
    mode(ex, st, k, ('read', 'define', 'data'), n, 'the file is open')
    r = ret(ex, st, 'nc_inq', '')
    for i, p in enumerate(a[1:]):
        if isinstance(p, Ptr) and not p.null:
            out(ex, st, p, var('ncinq!%s!%d' % (k, i), 'I'), r, n)
    return r


def c_nc_close(ex, E, a, n, st):
    k = resolve(ex, st, a[0], 'ncid!', n)
    mode(ex, st, k, ('read', 'define', 'data'), n, 'the file is closed only once')
    r = ret(ex, st, 'nc_close', '')
    st.mem['ghost:ncmode:' + k] = Opaque('closed')
    return r


def c_nc_inq_dimid(ex, E, a, n, st):
    k = resolve(ex, st, a[0], 'ncid!', n)
    nm = text(a[1], n)
    mode(ex, st, k, ('read', 'define', 'data'), n, 'the file is open')
    r = ret(ex, st, 'nc_inq_dimid', nm)
    out(ex, st, a[2], var('ncdim!%s!%s' % (k, nm), 'I'), r, n)
    return r


def dim_value(E, st, k, nm):
    c = E.files[k]
    if c is None:
        for _, e in flat(events(st, k)):
            if e[0] == 'dim' and e[1] == nm:
                return e[2]
        return None
    v = c.dim(nm)
    return v


def c_nc_inq_dimlen(ex, E, a, n, st):
    k = resolve(ex, st, a[0], 'ncid!', n)
    kk, nm = resolve(ex, st, a[1], 'ncdim!', n).split('!', 1)
    ex.obl('nc', st, TRUE if kk == k else FALSE, n, 'the dimension id belongs to the file')
    mode(ex, st, k, ('read', 'define', 'data'), n, 'the file is open')
    r = ret(ex, st, 'nc_inq_dimlen', nm)
    v = dim_value(E, st, k, nm)
    if v is None:
        v = var('ncdimlen!%s!%s' % (k, nm), 'I', 0)
    out(ex, st, a[2], v, r, n)
    return r


def c_nc_inq_varid(ex, E, a, n, st):
    k = resolve(ex, st, a[0], 'ncid!', n)
    nm = text(a[1], n)
    mode(ex, st, k, ('read', 'define', 'data'), n, 'the file is open')
    r = ret(ex, st, 'nc_inq_varid', nm)
    if E.files[k] is not None:
        # whether a file has a variable does not change between calls (NC_ENOTVAR = -49)
        gone = T.bvar('ncabsent!%s!%s' % (k, nm))
        e = eq(r, -49)
        st.assume(bor(band(e, gone), band(bnot(e), bnot(gone))))
    out(ex, st, a[2], var('ncvar!%s!%s' % (k, nm), 'I'), r, n)
    return r


def prod(ds):
    r = ONE
    for d in ds:
        r = r * d
    return r


def whole(ex, st, p, n):
    """(location, array or None for a scalar) behind a data pointer; the pointer must be to the first element."""
    lv = ex.deref(st, p.lv)
    v = st.mem.get(lv.key)
    if lv.sel is None:
        return lv, None
    if isinstance(v, (Arr, Str)):
        for s in lv.sel:
            if s == 'data':
                continue
            if s[0] != 'i':
                raise Unsupported('pointer into a view', n)
            ex.obl('bounds', st, eq(s[1], 0), n, 'the whole array is passed to the netCDF library')
        return LV(lv.key), v
    raise Unsupported('pointer passed to the netCDF library', n)


def get_var(ex, E, name, a, n, st):
    k = resolve(ex, st, a[0], 'ncid!', n)
    kk, nm = resolve(ex, st, a[1], 'ncvar!', n).split('!', 1)
    ex.obl('nc', st, TRUE if kk == k else FALSE, n, 'the variable id belongs to the file')
    mode(ex, st, k, ('read', 'data'), n, 'the file is open for reading')
    kind = name[len('nc_get_var_'):]
    r = ret(ex, st, name, nm)
    c = E.files[k]
    p = a[2]
    if not isinstance(p, Ptr) or p.null or p.lv is None:
        raise Unsupported('destination of a netCDF read', n)
    lv, arr = whole(ex, st, p, n)
    if kind not in ('int', 'double'):
        raise Unsupported('read as ' + kind, n)
    if isinstance(arr, Str):
        raise Unsupported('text read', n)
    sort = 'I' if kind == 'int' else 'R'
    cur = st.mem.get(lv.key) if arr is None else arr
    cs = arr.sort if arr is not None else ('I' if isinstance(cur, Poly) and T.is_int(cur) else 'R')
    dest = ptr_sort(ex, st, lv, arr)
    if dest is not None:
        ex.obl('bounds', st, TRUE if dest == sort else FALSE, n, 'the destination has the type netCDF writes')
    if c is None or not c.known(nm):
        shape = None
    else:
        shape = c.shape(nm)
    ok = eq(r, 0)
    if shape is None:
        # unknown variable: any content of unknown size
        cnt = var('nccount!%s!%s' % (k, nm), 'I', 0)
        val = None
    else:
        cnt = prod(shape)
    if arr is None:
        if shape is not None:
            ex.obl('bounds', st, eq(cnt, 1), n, 'size of the destination of %s' % nm)
            v = c.scalar(nm) if not shape else c.fill(nm, [ONE])
            v = conv(v, c.sort(nm), sort)
        else:
            ex.obl('bounds', st, eq(cnt, 1), n, 'size of the destination of %s' % nm)
            v = None
        if v is None:
            v = var('ncval!%s!%s' % (k, nm), sort)
        v = ite(ok, v, X.uninit(sort))
        ex.store(st, lv, v, n)
        return r
    size = prod(arr.dims)
    ex.obl('bounds', st, eq(cnt, size), n, 'size of the destination of %s' % nm)
    body = None
    if shape is not None:
        body = c.fill(nm, list(arr.dims)) if shape else c.scalar(nm)
        body = conv(body, c.sort(nm), sort)
    if body is None:
        body = app('ncval!%s!%s' % (k, nm), IDX[:len(arr.dims)], sort)
    ex.store(st, lv, Arr(arr.dims, ite(ok, body, X.uninit(arr.sort, len(arr.dims))), arr.sort), n)
    return r


def conv(v, have, want):
    if v is None or want == 'R' or have == 'I':
        return v
    return app('trunc', (v,), 'I')


def ptr_sort(ex, st, lv, arr):
    if arr is not None:
        return arr.sort if isinstance(arr, Arr) else None
    return ex.scalar_sort(lv.key, st)


def c_nc_def_dim(ex, E, a, n, st):
    k = resolve(ex, st, a[0], 'ncid!', n)
    nm = text(a[1], n)
    mode(ex, st, k, ('define',), n, 'dimensions are defined in define mode')
    r = ret(ex, st, 'nc_def_dim', nm)
    ex.obl('ncdef', st, ge(a[2], 1), n, 'dimension %s has a fixed length' % nm)
    ex.obl('ncdef', st, FALSE if any(e[0] == 'dim' and e[1] == nm for _, e in flat(events(st, k))) else TRUE, n, 'dimension %s is defined once' % nm)
    event(st, k, 'dim', nm, a[2])
    out(ex, st, a[3], var('ncdim!%s!%s' % (k, nm), 'I'), r, n)
    return r


def c_nc_def_var(ex, E, a, n, st):
    k = resolve(ex, st, a[0], 'ncid!', n)
    nm = text(a[1], n)
    mode(ex, st, k, ('define',), n, 'variables are defined in define mode')
    if not (a[2].is_const() and isinstance(a[3], Poly)):
        raise Unsupported('definition of a variable', n)
    nd = S.simplify(a[3], st.prem())
    if not nd.is_const():
        raise Unsupported('number of dimensions', n)
    nd = int(nd.const())
    ids = []
    if nd:
        if not isinstance(a[4], Ptr) or a[4].lv is None:
            raise Unsupported('dimension list', n)
        lv = ex.deref(st, a[4].lv)
        v = st.mem.get(lv.key)
        if lv.sel is None:
            ids = [v]
        elif isinstance(v, ListV):
            i0 = lv.sel[0][1] if lv.sel[0] != 'data' and lv.sel[0] != 'd' else ZERO
            if not i0.is_const():
                raise Unsupported('dimension list', n)
            ids = list(v.items[int(i0.const()):])
        else:
            raise Unsupported('dimension list', n)
        ex.obl('bounds', st, TRUE if len(ids) >= nd else FALSE, n, 'the list of dimensions is long enough')
        ids = ids[:nd]
    names = []
    for i in ids:
        kk, dn = resolve(ex, st, i, 'ncdim!', n).split('!', 1)
        names.append(dn)
    r = ret(ex, st, 'nc_def_var', nm)
    ex.obl('ncdef', st, FALSE if any(e[0] == 'var' and e[1] == nm for _, e in flat(events(st, k))) else TRUE, n, 'variable %s is defined once' % nm)
    event(st, k, 'var', nm, int(a[2].const()), tuple(names))
    out(ex, st, a[5], var('ncvar!%s!%s' % (k, nm), 'I'), r, n)
    return r


def c_nc_put_att_text(ex, E, a, n, st):
    import libmodels
    k = resolve(ex, st, a[0], 'ncid!', n)
    mode(ex, st, k, ('define',), n, 'attributes are written in define mode')
    p = S.simplify(a[1], st.prem())
    if not (p.is_const() and p.const() == -1):
        resolve(ex, st, a[1], 'ncvar!', n)
    r = ret(ex, st, 'nc_put_att_text', text(a[2], n))
    if isinstance(a[4], Str):
        ex.obl('bounds', st, le(a[3], libmodels.strlen(a[4])), n, 'the attribute text is as long as stated')
    return r


def c_nc_enddef(ex, E, a, n, st):
    k = resolve(ex, st, a[0], 'ncid!', n)
    mode(ex, st, k, ('define',), n, 'define mode ends once')
    r = ret(ex, st, 'nc_enddef', '')
    st.mem['ghost:ncmode:' + k] = Opaque('data')
    return r


def put_var(ex, E, name, a, n, st):
    kind = name[len('nc_put_var_'):]
    k = resolve(ex, st, a[0], 'ncid!', n)
    kk, nm = resolve(ex, st, a[1], 'ncvar!', n).split('!', 1)
    mode(ex, st, k, ('data',), n, 'data are written after the end of define mode')
    p = a[2]
    if isinstance(p, Str):
        v, lv, arr = p, None, p
    else:
        if not isinstance(p, Ptr) or p.lv is None:
            raise Unsupported('source of a netCDF write', n)
        alive = ex.alive(p.lv.key)
        ex.obl('bounds', st, TRUE if alive else FALSE, n, 'the data of %s still exist when they are written' % nm)
        if p.lv.key not in st.mem or not alive:
            ex.obl('ncdata', st, FALSE, n, 'the data of %s still exist when they are written' % nm)
            r = ret(ex, st, name, nm)
            event(st, k, 'data', nm, None)
            return r
        lv, arr = whole(ex, st, p, n)
        v = st.mem[lv.key]
        if isinstance(v, X.Ref):
            v = ex.load(st, lv, n)
        if p.dims is not None and isinstance(v, Arr):
            ex.obl('bounds', st, band(*[eq(x, y) for x, y in zip(p.dims, v.dims)]), n, 'the storage of %s was not reallocated before it is written' % nm)
    d = [e for _, e in flat(events(st, k)) if e[0] == 'var' and e[1] == nm]
    r = ret(ex, st, name, nm)
    if not d:
        raise Unsupported('data for an undefined variable', n)
    typ, dims = d[0][2], d[0][3]
    want = {4: 'int', 6: 'double', 2: 'text'}.get(typ)
    ex.obl('ncdata', st, TRUE if kind == want else FALSE, n, '%s is written with its type' % nm)
    if isinstance(v, Str):
        import libmodels
        ex.obl('bounds', st, TRUE if kind == 'text' else FALSE, n, 'the data of %s have the type that is read' % nm)
        size = prod([dim_value(E, st, k, x) for x in dims])
        ex.obl('bounds', st, le(size, libmodels.strlen(v)), n, 'the text of %s is as long as its dimension' % nm)
    elif arr is None:
        ty = ex.scalar_sort(lv.key, st)
        if ty:
            ex.obl('bounds', st, TRUE if {'I': 'int', 'R': 'double'}.get(ty) == kind else FALSE, n, 'the data of %s have the type that is read' % nm)
        ex.obl('ncdata', st, TRUE if not dims else FALSE, n, '%s is a scalar' % nm)
    else:
        ex.obl('bounds', st, TRUE if {'I': 'int', 'R': 'double'}[v.sort] == kind else FALSE, n, 'the data of %s have the type that is read' % nm)
        sz = [dim_value(E, st, k, x) for x in dims]
        ex.obl('bounds', st, le(prod(sz), prod(v.dims)), n, 'netCDF reads no more than the array of %s holds' % nm)
        want = list(reversed(v.dims))
        ex.obl('ncdata', st, band(*[eq(x, y) for x, y in zip(sz, want)]) if len(sz) == len(want) else FALSE, n,
               'the dimensions of %s are those of the array' % nm)
    event(st, k, 'data', nm, v)
    return r


def assumed(ex, st, c):
    """A branch condition on return codes was taken: forget what failed calls would have delivered."""
    rs = {x for x in c.syms if isinstance(x, str) and x.startswith('ncret!')}
    if not rs:
        return
    pr = st.prem()
    zero = {x for x in rs if pr.decide(eq(var(x, 'I'), 0)) is True}
    if not zero:
        return
    mp = {T.atom_of(var(x, 'I')): ZERO for x in zero}
    for k, v in list(st.mem.items()):
        if isinstance(v, Poly):
            if v.syms & zero:
                st.mem[k] = subst(v, mp)
        elif isinstance(v, Arr):
            if any(x.syms & zero for x in (v.body,) + tuple(v.dims)):
                st.mem[k] = Arr([subst(x, mp) for x in v.dims], subst(v.body, mp), v.sort)
        elif isinstance(v, ListV):
            if any(isinstance(x, Poly) and x.syms & zero for x in v.items):
                st.mem[k] = ListV([subst(x, mp) if isinstance(x, Poly) else x for x in v.items])


def flat(g, cond=TRUE):
    """Log entries with the condition under which they were reached."""
    for e in g:
        if e[0] == 'if':
            for c, items in e[1]:
                yield from flat(items, band(cond, c))
        else:
            yield cond, e
