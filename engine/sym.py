"""Symbolic executor over clang's AST: contracts, loop closed forms, proof obligations.

Every function is executed for arbitrary inputs; loops are replaced by closed forms that are
inferred and then *checked* to be inductive; calls are replaced by contracts (or inlined when
no contract is registered).  Anything outside the supported language raises Unsupported - the
property is then reported as undecided, never as proved.
"""
import math
from fractions import Fraction
import cxx
from cxx import where
import itertools
import term as T
from term import (Poly, Bool, Atom, ATOMS, TRUE, FALSE, ZERO, ONE, P, band, bnot, bor, br, of_atom, atom_of,
                  le, lt, ge, gt, eq, ne, le0, eq0, subst, ite, var, fresh, num, app, mk_sum)
import solve as S
from solve import Prem

I0, I1 = var('#0', 'I'), var('#1', 'I')
IDX = (I0, I1)
IATOM = (atom_of(I0), atom_of(I1))
IDXNAMES = frozenset(a.name for a in IATOM)


class Unsupported(Exception):
    def __init__(self, msg, node=None):
        self.node = node
        Exception.__init__(self, msg + (' at ' + where(node) if node else ''))


_here = itertools.count()


class LoopFail(Unsupported):
    pass


# ------------------------------------------------------------------ values

class Arr:
    """Dense array value: dims and element body over #0 (,#1)."""
    __slots__ = ('dims', 'body', 'sort')

    def __init__(self, dims, body, sort='R'):
        self.dims, self.body, self.sort = tuple(P(d) for d in dims), P(body), sort

    def __eq__(self, o):
        return isinstance(o, Arr) and self.dims == o.dims and self.body is o.body

    def __hash__(self):
        return hash((self.dims, self.body))

    def __repr__(self):
        return 'Arr%s{%s}' % (self.dims, self.body)

    def at(self, *idx):
        return subst(self.body, {IATOM[i]: P(x) for i, x in enumerate(idx)})


class Str:
    """String: tuple of parts, each python str or ('num', Poly) or ('sym', name)."""
    __slots__ = ('parts',)

    def __init__(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        self.parts = tuple(out)

    def concrete(self):
        if not self.parts:
            return ''
        return self.parts[0] if len(self.parts) == 1 and isinstance(self.parts[0], str) else None

    def __add__(self, o):
        return Str(*(self.parts + o.parts))

    def __eq__(self, o):
        return isinstance(o, Str) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return 'Str%r' % (self.parts,)


class LV:
    """A place: memory key and selector (None = whole, or per-dimension ('i',e) / ('r',start,len))."""
    __slots__ = ('key', 'sel')

    def __init__(self, key, sel=None):
        self.key, self.sel = key, sel

    def __repr__(self):
        return 'LV(%s%s)' % (self.key, '' if self.sel is None else self.sel)

    def __eq__(self, o):
        return isinstance(o, LV) and self.key == o.key and self.sel == o.sel

    def __hash__(self):
        return hash((self.key, self.sel))


class Ref:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    def __eq__(self, o):
        return isinstance(o, Ref) and self.lv == o.lv

    def __hash__(self):
        return hash(('ref', self.lv))

    def __repr__(self):
        return 'Ref(%r)' % self.lv


class Ptr:
    __slots__ = ('lv', 'null', 'dims')

    def __init__(self, lv, null=False, dims=None):
        self.lv, self.null, self.dims = lv, null, dims

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.lv == o.lv and self.null == o.null

    def __hash__(self):
        return hash(('ptr', self.lv))

    def __repr__(self):
        return 'Ptr(%r)' % (self.lv,)


class ListV:
    """std::vector built concretely."""
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, ListV) and self.items == o.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return 'ListV%r' % (self.items,)


class Obj:
    __slots__ = ('cls',)

    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, Obj) and o.cls == self.cls

    def __hash__(self):
        return hash(self.cls)

    def __repr__(self):
        return 'Obj(%s)' % self.cls


class Stream:
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Stream) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


class Opaque:
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Opaque(%s)' % (self.tag,)

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.tag == self.tag

    def __hash__(self):
        return hash(self.tag)


VOID = Opaque('void')
_un = [0]


def uninit(sort='R', ndim=0):
    _un[0] += 1
    nm = 'U!%d' % _un[0]
    if ndim == 0:
        return var(nm, sort)
    return app(nm, IDX[:ndim], sort)


def has_uninit(p):
    return isinstance(p, (Poly, Bool)) and any(s.startswith('U!') for s in p.syms)


def type_sort(t):
    t = strip_t(t)
    return 'I' if t == 'int' else ('R' if t == 'double' else ('B' if t == 'bool' else ('?' if t in CINT or t == 'float' else None)))


class Outcome:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val

    def __repr__(self):
        return 'Outcome(%s,%s)' % (self.kind, self.val)


class State:
    __slots__ = ('mem', 'pc')

    def __init__(self, mem=None, pc=()):
        self.mem = mem if mem is not None else {}
        self.pc = tuple(pc)

    def copy(self):
        return State(dict(self.mem), self.pc)

    def assume(self, *bs):
        self.pc = self.pc + tuple(b for b in bs if b is not TRUE)

    def prem(self):
        return Prem(self.pc)


class Obl:
    def __init__(self, cat, pc, goal, wh, desc, fn):
        self.cat, self.pc, self.goal, self.where, self.desc, self.fn = cat, pc, goal, wh, desc, fn
        self.status = None
        self.backend = None
        self.info = None

    def __repr__(self):
        return '[%s] %s %s: %s -> %s' % (self.cat, self.where, self.desc, self.goal, self.status)


class Frame:
    def __init__(self, fn, this, fid):
        self.fn, self.this, self.fid = fn, this, fid
        self.scopes = []


INT_MAX = 2 ** 31 - 1
CINT = {'int', 'long', 'unsigned int', 'unsigned long', 'short', 'size_t', 'char', 'long long', 'unsigned long long',
        'unsigned char', 'unsigned short', 'signed char'}


def ctype(node):
    t = node.get('type', {})
    q = t.get('desugaredQualType', t.get('qualType', ''))
    q = q.replace('const ', '').replace('volatile ', '').strip()
    if q.endswith(' const'):
        q = q[:-6]
    return q


def strip_t(q):
    q = q.strip()
    while True:
        o = q
        for p in ('const ', 'volatile ', 'struct ', 'class '):
            if q.startswith(p):
                q = q[len(p):]
        for s in ('&', '&&', ' const'):
            if q.endswith(s):
                q = q[:-len(s)].strip()
        if q == o:
            return q


def c_array(t):
    """(element type, length) of a local array of fixed length."""
    import re
    q = t.strip()
    m = re.match(r'^(?:const )?([\w:<>* ]+?) ?\[(\d+)\]$', q) or re.match(r'^(?:const )?std::array<(.+), (\d+)(?:UL)?>$', q)
    return (m.group(1).strip(), int(m.group(2))) if m else None


def is_arr_type(q):
    return ('Eigen::Array<' in q and 'stl_iterator' not in q) or q in ('Vector', 'Matrix', 'IntVector', 'booz_xform::Vector', 'booz_xform::Matrix',
                                         'booz_xform::IntVector')


def arr_type(q):
    """(elem sort, ndim) of an Eigen array type."""
    q0 = strip_t(q).replace('booz_xform::', '')
    if q0 == 'Vector' or 'ArrayXd' in q0:
        return 'R', 1
    if q0 == 'IntVector' or 'ArrayXi' in q0:
        return 'I', 1
    if q0 == 'Matrix' or 'ArrayXXd' in q0:
        return 'R', 2
    import re
    m = re.search(r'(?:Array|Matrix)<(\w+), *(-?\d+), *(-?\d+)', q0)
    if not m:
        raise Unsupported('array type ' + q)
    return ('R' if m.group(1) == 'double' else ('F' if m.group(1) == 'float' else 'I'),
            1 if '1' in (m.group(2), m.group(3)) else 2)


def strip_e(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr') and n.get('inner'):
        n = n['inner'][0]
    return n


def walk_kind(n, kind):
    if isinstance(n, dict):
        if n.get('kind') == kind:
            yield n
        for c in n.get('inner', []):
            yield from walk_kind(c, kind)


def contains_loop(n):
    if not isinstance(n, dict):
        return False
    if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt'):
        return True
    return any(contains_loop(c) for c in n.get('inner', []))


class Executor:
    def __init__(self, tu):
        self.tu = tu
        self.obls = []
        self.quiet = 0
        self.contracts = {}
        self.vector_sorts = {}
        self.frames = []
        self.nfid = 0
        self.depth = 0
        self.throws = None
        self.footprint = None
        self.notes = []
        self.trusted = set()
        self.schemas = set()
        self.inlined = set()
        self.loops_closed = 0
        self.opaque = set()
        self.models = {}
        self.max_unroll = 64
        self.overflow = True
        self.used_contracts = set()
        self.types = {}
        self.scope_of = {}
        self.nscope = 0
        import libmodels
        self.lib = libmodels.Lib(self)

    # -------------------------------------------------------------- util
    def obl(self, cat, st, goal, node, desc):
        if self.quiet:
            return
        if goal is TRUE:
            self.obls.append(self._mk_obl(cat, st, goal, node, desc))
            self.obls[-1].status = 'proved'
            self.obls[-1].backend = 'normal_form'
            return
        self.obls.append(self._mk_obl(cat, st, goal, node, desc))

    def _mk_obl(self, cat, st, goal, node, desc):
        fn = self.frames[-1].fn.name if self.frames else '?'
        return Obl(cat, st.pc, goal, where(node) if isinstance(node, dict) else str(node), desc, fn)

    def touch(self, rw, key, sel, st):
        if self.footprint is not None and not self.quiet:
            self.footprint.append((rw, key, sel, st.pc, self.cur_node))

    def fresh_key(self, name, node=None):
        self.nfid += 1
        return 'L%d:%s' % (self.nfid, name)

    @property
    def frame(self):
        return self.frames[-1]

    # -------------------------------------------------------------- memory
    def deref(self, st, lv):
        """Follow reference bindings."""
        for _ in range(50):
            v = st.mem.get(lv.key)
            if isinstance(v, Ref):
                if lv.sel is None:
                    lv = v.lv
                else:
                    base = v.lv
                    if base.sel is None:
                        lv = LV(base.key, lv.sel)
                    else:
                        raise Unsupported('selection through a reference to a part')
            else:
                return lv
        raise Unsupported('reference cycle')

    def load(self, st, lv, node=None):
        lv = self.deref(st, lv)
        if lv.key not in st.mem:
            raise Unsupported('unknown location %s' % lv.key, node)
        v = st.mem[lv.key]
        self.touch('r', lv.key, lv.sel, st)
        if lv.sel is None:
            return v
        return self.select(st, v, lv.sel, node)

    def select(self, st, v, sel, node=None):
        if isinstance(v, ListV):
            (k, e), = sel
            e = S.simplify(e, st.prem())
            if not e.is_const():
                raise Unsupported('symbolic index into a concrete list', node)
            i = int(e.const())
            if not 0 <= i < len(v.items):
                raise Unsupported('list index out of range', node)
            return v.items[i]
        if not isinstance(v, Arr):
            raise Unsupported('selection of %s' % (v,), node)
        if all(s[0] == 'i' for s in sel):
            mp = {IATOM[i]: s[1] for i, s in enumerate(sel)}
            r = subst(v.body, mp)
            return S.simplify(r, st.prem()) if _hasbr(r) else r
        dims, mp, k = [], {}, 0
        for i, s in enumerate(sel):
            if s[0] == 'i':
                mp[IATOM[i]] = s[1]
            else:
                mp[IATOM[i]] = IDX[k] + s[1]
                dims.append(s[2])
                k += 1
        r = subst(v.body, mp)
        return Arr(dims, r, v.sort)

    def in_range(self, v, st):
        """Array contents matter only at indices inside the array."""
        if v.dims:
            b = T.align(v.body)
            if b is not v.body:
                v = Arr(v.dims, b, v.sort)
        if not v.dims or not _hasbr(v.body):
            return v
        pr = st.prem().plus(*[x for i, d in enumerate(v.dims) for x in (le(0, IDX[i]), lt(IDX[i], d))])
        return Arr(v.dims, S.simplify(v.body, pr), v.sort)

    loop_depth = 0

    def named(self, v):
        """Outside loops, array values that are sums get a definitional name."""
        if self.loop_depth or not isinstance(v, Arr) or v.sort != 'R' or not v.dims:
            return v
        p = v.body
        big = len(p.d) > 2
        for m in p.d:
            for u, e in m:
                a = ATOMS[u]
                if a.kind == 'br' and (a.syms & IDXNAMES):
                    return v
                if a.kind == 'sum':
                    big = True
        if not big:
            return v
        return Arr(v.dims, T.abbrev(p, IATOM), v.sort)

    def store(self, st, lv, val, node=None):
        lv = self.deref(st, lv)
        self.touch('w', lv.key, lv.sel, st)
        if lv.sel is None:
            st.mem[lv.key] = self.named(val)
            return
        a = st.mem.get(lv.key)
        if isinstance(a, ListV):
            (k, e), = lv.sel
            if not e.is_const():
                raise Unsupported('symbolic index into a concrete list', node)
            it = list(a.items)
            it[int(e.const())] = val
            st.mem[lv.key] = ListV(it)
            return
        if not isinstance(a, Arr):
            raise Unsupported('store into %s' % (a,), node)
        g = ONE
        k = 0
        mp = {}
        for i, s in enumerate(lv.sel):
            if s[0] == 'i':
                g = g * br(eq(IDX[i], s[1]))
            else:
                g = g * br(le(s[1], IDX[i])) * br(lt(IDX[i], s[1] + s[2]))
                mp[IATOM[k]] = IDX[i] - s[1]
                k += 1
        if isinstance(val, Arr):
            vb = subst(val.body, mp) if mp else val.body
        else:
            vb = P(val)
        if g is ZERO:
            return
        st.mem[lv.key] = Arr(a.dims, a.body + g * (vb - a.body), a.sort)

    # -------------------------------------------------------------- calls
    def call(self, func, st, this, args, node):
        """args: list of ('ref', LV) or ('val', value).  Mutates st; returns value."""
        key = (func.cls, func.name)
        c = self.contracts.get(key)
        if c is not None and c.binds(self, func) and not getattr(c, 'off', False):
            self.used_contracts.add(key)
            return c.apply(self, st, this, args, node, func)
        self.inlined.add(func.name)
        outs = self.run_function(func, st, this, args, node)
        return self.join_call(st, outs, node)

    def join_call(self, st, outs, node):
        rets = []
        for o in outs:
            if o.kind in ('return', 'next'):
                rets.append(o)
            elif o.kind == 'throw':
                if self.throws is None:
                    raise Unsupported('throw outside a statement', node)
                self.throws.append(o)
            else:
                raise Unsupported('outcome ' + o.kind, node)
        if not rets:
            st.pc = st.pc + (FALSE,)
            return VOID
        m, val = self.merge_states(st.pc, rets, node, others=len(outs) > len(rets))
        st.mem, st.pc = m.mem, m.pc
        return val if val is not None else VOID

    def run_function(self, func, st, this, args, node):
        if self.depth > 40:
            raise Unsupported('recursion', node)
        self.nfid += 1
        fr = Frame(func, this, self.nfid)
        s = st.copy()
        self.frames.append(fr)
        self.depth += 1
        try:
            for i, p in enumerate(func.params):
                k = self.lkey(p)
                if i < len(args):
                    kind, v = args[i]
                else:
                    d = self.default_arg(func, i, s)
                    kind, v = d
                t = p['type'].get('desugaredQualType', p['type']['qualType'])
                if kind == 'ref':
                    if '&' in t:
                        s.mem[k] = Ref(self.deref(s, v))
                    else:
                        s.mem[k] = self.load(s, v, node)
                else:
                    s.mem[k] = v
            old = self.throws
            self.throws = []
            for ini in func.inits:
                self.ctor_init(ini, s, this)
            pend = self.throws
            self.throws = old
            outs = [Outcome('throw', o.st, o.val) for o in pend] + self.exec(func.body, s)
            res = []
            for o in outs:
                if o.kind == 'next':
                    o = Outcome('return', o.st, None)
                res.append(o)
            return res
        finally:
            self.frames.pop()
            self.depth -= 1

    def ctor_init(self, ini, st, this):
        f = ini.get('anyInit')
        if f is None:
            raise Unsupported('base initialiser', ini)
        v = self.ev(ini['inner'][0], st)
        st.mem[this + '.' + f['name']] = v

    def default_arg(self, func, i, st):
        # look for the declaration in the class carrying the default
        for (path, _), n in self.tu.byid.items():
            if n.get('kind') in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl') and n.get('name') == func.name \
                    and n['type']['qualType'] == func.type:
                ps = [c for c in n.get('inner', []) if c['kind'] == 'ParmVarDecl']
                if i < len(ps) and ps[i].get('init'):
                    e = ps[i]['inner'][0]
                    t = ps[i]['type']['qualType']
                    if '&' in t:
                        return ('ref', self.lval(e, st))
                    return ('val', self.ev(e, st))
        raise Unsupported('default argument of ' + func.name)

    def lkey(self, decl):
        return 'f%d:%s#%s' % (self.frame.fid, decl.get('name'), decl['id'][-6:])

    def merge_states(self, base_pc, outs, node, others=False):
        """Merge outcomes that extend base_pc.  Returns (State, value)."""
        n = len(base_pc)
        if len(outs) == 1:
            return outs[0].st, outs[0].val
        rel = []
        for o in outs:
            if o.st.pc[:n] != base_pc:
                raise Unsupported('path conditions', node)
            rel.append(band(*o.st.pc[n:]))
        keys = set(outs[0].st.mem)
        for o in outs[1:]:
            keys &= set(o.st.mem)
        mem = {}
        for k in keys:
            vs = [o.st.mem[k] for o in outs]
            mem[k] = self.merge_vals(vs, rel, node, k)
        vals = [o.val for o in outs]
        val = None
        if any(v is not None for v in vals):
            val = self.merge_vals(vals, rel, node, 'return value')
        pc = base_pc
        if others:
            pc = pc + (bor(*rel),)
        return State(mem, pc), val

    def merge_vals(self, vs, rel, node, k='?'):
        v0 = vs[0]
        if all(v is v0 or v == v0 for v in vs[1:]):
            return v0
        if all(isinstance(v, (Poly,)) for v in vs):
            r = vs[-1]
            for v, c in zip(reversed(vs[:-1]), reversed(rel[:-1])):
                r = ite(c, v, r)
            return r
        if all(isinstance(v, (Poly, Bool)) for v in vs):
            r = tobool(vs[-1])
            for v, c in zip(reversed(vs[:-1]), reversed(rel[:-1])):
                v = tobool(v)
                r = bor(band(c, v), band(bnot(c), r))
            return r
        if all(isinstance(v, Arr) and len(v.dims) == len(v0.dims) for v in vs):
            dims = []
            for i in range(len(v0.dims)):
                r = vs[-1].dims[i]
                for v, c in zip(reversed(vs[:-1]), reversed(rel[:-1])):
                    r = ite(c, v.dims[i], r) if v.dims[i] is not r else r
                dims.append(r)
            r = vs[-1].body
            for v, c in zip(reversed(vs[:-1]), reversed(rel[:-1])):
                r = ite(c, v.body, r)
            return Arr(dims, r, v0.sort)
        if k.startswith('ghost:') and all(isinstance(v, tuple) for v in vs):
            i = 0
            while all(len(v) > i for v in vs) and all(v[i] == v0[i] for v in vs):
                i += 1
            return v0[:i] + (('if', tuple((c, v[i:]) for c, v in zip(rel, vs))),)
        if k.startswith('ghost:'):
            return Opaque(('merged', tuple(zip(rel, vs))))
        if all(isinstance(v, Str) for v in vs):
            return Str(('choice', tuple(zip(rel, vs))))
        # locals out of scope may differ harmlessly
        return Opaque(('unmergeable', tuple(vs)))

    # -------------------------------------------------------------- statements
    def exec(self, n, st):
        """Returns list of outcomes."""
        k = n['kind']
        self.cur_node = n
        m = getattr(self, 'x_' + k, None)
        if m is not None:
            return m(n, st)
        # expression statement
        return self.stmt_ev(lambda: self.ev(n, st), st)

    def stmt_ev(self, f, st, kind='next'):
        old = self.throws
        self.throws = []
        try:
            v = f()
            th = self.throws
        finally:
            self.throws = old
        outs = [o for o in th]
        if FALSE not in st.pc:
            outs.append(Outcome(kind, st, v if kind == 'return' else None))
        return outs

    def x_NullStmt(self, n, st):
        return [Outcome('next', st)]

    def x_CompoundStmt(self, n, st):
        if not self.frames:
            return self.compound(n, st)
        self.nscope += 1
        fr = self.frames[-1]
        fr.scopes.append(self.nscope)
        try:
            return self.compound(n, st)
        finally:
            fr.scopes.pop()

    def born(self, key):
        fr = self.frames[-1] if self.frames else None
        self.scope_of[key] = (fr.fid, fr.scopes[-1] if fr.scopes else None) if fr else None

    def alive(self, key):
        """Does the storage still exist at this point of the execution?"""
        root = key.split('.')[0] if key[:1] in 'fL' else key
        sc = self.scope_of.get(root)
        if sc is None:
            if root[:1] == 'L' and ':' in root:
                return False           # a temporary of an earlier expression
            if root[:1] == 'f' and ':' in root:
                return any(root.startswith('f%d:' % fr.fid) for fr in self.frames)
            return True
        return any(fr.fid == sc[0] and (sc[1] is None or sc[1] in fr.scopes) for fr in self.frames)

    def scalar_sort(self, key, st):
        """'I', 'R' or 'B' for a scalar object of known type."""
        if key in self.types:
            return self.types[key]
        if '.' in key:
            o = st.mem.get(key.rsplit('.', 1)[0])
            if isinstance(o, Obj):
                d = self.tu.classes.get(o.cls, {}).get(key.rsplit('.', 1)[1])
                if d:
                    return type_sort(d['type'].get('desugaredQualType', d['type']['qualType']))
        return None

    def compound(self, n, st):
        cur = [Outcome('next', st)]
        done = []
        for c in n.get('inner', []):
            if c['kind'].endswith('Comment'):
                continue
            nxt = []
            for o in cur:
                for r in self.exec(c, o.st):
                    (nxt if r.kind == 'next' else done).append(r)
            cur = nxt
            if len(cur) > 1:
                cur = self.try_merge(cur, st, c)
            if not cur:
                break
        return done + cur

    def try_merge(self, outs, st, node):
        """Merge next-states that share a prefix (join point)."""
        gs = self.by_shape(outs)
        if len(gs) > 1:
            return [r for g in gs for r in (self.try_merge(g, st, node) if len(g) > 1 else g)]
        n = None
        pcs = [o.st.pc for o in outs]
        n = 0
        while all(len(p) > n for p in pcs) and all(p[n] is pcs[0][n] for p in pcs):
            n += 1
        base = pcs[0][:n]
        rel = [band(*p[n:]) for p in pcs]
        exhaustive = bor(*rel) is TRUE
        m, _ = self.merge_states(base, outs, node, others=not exhaustive)
        return [Outcome('next', m)]

    def x_DeclStmt(self, n, st):
        return self.stmt_ev(lambda: [self.decl(c, st) for c in n.get('inner', [])], st)

    def decl(self, d, st):
        if d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDirectiveDecl', 'StaticAssertDecl', 'UsingDecl'):
            return
        if d['kind'] != 'VarDecl':
            raise Unsupported('declaration ' + d['kind'], d)
        self.cur_node = d
        key = self.lkey(d)
        t = d['type'].get('desugaredQualType', d['type']['qualType'])
        inner = [c for c in d.get('inner', []) if not c['kind'].endswith('Comment') and not c['kind'].endswith('Attr')]
        if d.get('storageClass') == 'static':
            key = 'S:%s#%s' % (d['name'], d['id'][-6:])
            st.mem[self.lkey(d)] = Ref(LV(key))
            if 'const' not in t:
                # state that survives calls: its value on entry is arbitrary history
                if key not in st.mem:
                    st.mem[key] = self.havoc_like(t, 'S!' + d['name'])
                self.notes.append('static local ' + d['name'])
                return
        if t.rstrip().endswith('&'):
            lv = self.deref(st, self.lval(inner[0], st))
            if lv.key[:1] == 'L' and lv.key not in self.scope_of:
                self.born(lv.key)          # the lifetime of the temporary is extended
            st.mem[key] = Ref(lv)
            return
        self.born(key)
        self.types[key] = type_sort(t)
        ca = c_array(t)
        if ca and (not inner or strip_e(inner[0])['kind'] in ('InitListExpr', 'CXXConstructExpr')):
            st.mem[key] = self.c_array_init(ca, strip_e(inner[0]) if inner else None, st, d)
            return
        if not inner:
            st.mem[key] = self.default_value(t, d, st, key)
            return
        v = self.ev_init(inner[0], t, st, key)
        st.mem[key] = v

    def c_array_init(self, ca, e, st, d):
        elem, n = ca
        srt = {'double': 'R', 'int': 'I', 'bool': 'I'}.get(elem)
        if e is not None and e['kind'] == 'CXXConstructExpr':
            if e.get('inner'):
                raise Unsupported('array initialiser', d)
            e = None
        if e is None:
            if srt is None:
                raise Unsupported('array of ' + elem, d)
            return Arr([num(n)], uninit(srt, 1), srt)
        while len(e.get('inner', [])) == 1 and strip_e(e['inner'][0])['kind'] == 'InitListExpr':
            e = strip_e(e['inner'][0])
        src = e.get('array_filler') or e.get('inner', [])
        items = [self.ev(c, st) for c in src if c['kind'] != 'ImplicitValueInitExpr']
        items = [br(v) if isinstance(v, Bool) else v for v in items]
        if srt is not None and all(isinstance(v, Poly) for v in items):
            b = ZERO
            for i, x in enumerate(items):
                b = b + br(eq(IDX[0], i)) * x
            return Arr([num(n)], b, srt)
        if len(items) != n:
            raise Unsupported('array initialiser', d)
        return ListV(items)

    def havoc_like(self, t, name):
        t = strip_t(t)
        if t in CINT or t.startswith('enum'):
            return var(name, 'I')
        if t == 'bool':
            return T.bvar(name)
        if t in ('double', 'float'):
            return var(name, 'R')
        if is_arr_type(t):
            s, nd = arr_type(t)
            return Arr([var('%s_dim%d' % (name, i), 'I', 0) for i in range(nd)], app(name, IDX[:nd], 'I' if s == 'I' else 'R'), s)
        raise Unsupported('static local of type ' + t)

    def ev_init(self, e, t, st, key):
        if e['kind'] == 'CXXConstructExpr' or (e['kind'] == 'ExprWithCleanups'):
            v = self.ev(e, st, dest=key)
        else:
            v = self.ev(e, st)
        return self.coerce(v, t, e)

    def coerce(self, v, t, node=None):
        t = strip_t(t)
        if t in CINT and isinstance(v, Bool):
            return br(v)
        if t == 'bool' and isinstance(v, Poly):
            return tobool(v)
        return v

    def default_value(self, t, d, st, key):
        t = strip_t(t)
        if t in CINT:
            return uninit('I')
        if t == 'double' or t == 'float':
            return uninit('R')
        if t == 'bool':
            _un[0] += 1
            return T.bvar('U!%d' % _un[0])
        if is_arr_type(t):
            s, nd = arr_type(t)
            return Arr([0] * nd, ZERO, s)
        if t.endswith('*'):
            return Opaque('uninit pointer')
        r = self.lib.default_value(t, st, key)
        if r is None:
            raise Unsupported('variable of type ' + t, d)
        return r

    def x_IfStmt(self, n, st):
        inner = list(n['inner'])
        if n.get('hasInit') or n.get('hasVar'):
            raise Unsupported('if with init', n)
        out = []
        outs = self.stmt_ev(lambda: setattr(self, '_c', self.ev_bool(inner[0], st)), st)
        for o in outs:
            if o.kind != 'next':
                out.append(o)
        if not any(o.kind == 'next' for o in outs):
            return out
        c = self._c
        d = self.decide(st, c)
        if d is True:
            return out + self.exec(inner[1], st)
        if d is False:
            return out + (self.exec(inner[2], st) if len(inner) > 2 else [Outcome('next', st)])
        s1, s2 = st.copy(), st
        s1.assume(c)
        s2 = st.copy()
        s2.assume(bnot(c))
        self.lib.assumed(s1, c)
        self.lib.assumed(s2, c)
        o1 = self.exec(inner[1], s1)
        o2 = self.exec(inner[2], s2) if len(inner) > 2 else [Outcome('next', s2)]
        nx = [o for o in o1 + o2 if o.kind == 'next']
        rest = [o for o in o1 + o2 if o.kind != 'next']
        if len(nx) == 2 and not rest and len(self.by_shape(nx)) == 1:
            m, _ = self.merge_states(st.pc, nx, n)
            return out + [Outcome('next', m)]
        if len(nx) > 1:
            nx = self.try_merge(nx, st, n)
        return out + rest + nx

    MAX_SHAPES = 8

    def by_shape(self, outs):
        """Partition of the outcomes: states whose lists (structure of the run, not numbers) differ stay apart."""
        keys = set()
        for o in outs:
            keys |= {k for k, v in o.st.mem.items() if isinstance(v, ListV)}
        ks = [k for k in sorted(keys) if self.alive(k) and any(o.st.mem.get(k) != outs[0].st.mem.get(k) for o in outs[1:])]
        if not ks:
            return [outs]
        groups = []
        for o in outs:
            sig = [o.st.mem.get(k) for k in ks]
            for s, g in groups:
                if s == sig:
                    g.append(o)
                    break
            else:
                groups.append((sig, [o]))
        return [g for _, g in groups] if len(groups) <= self.MAX_SHAPES else [outs]

    def decide(self, st, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return st.prem().decide(c)

    def x_ReturnStmt(self, n, st):
        inner = n.get('inner', [])
        if not inner:
            return [Outcome('return', st, None)]
        return self.stmt_ev(lambda: self.ev(inner[0], st), st, 'return')

    def x_BreakStmt(self, n, st):
        return [Outcome('break', st)]

    def x_ContinueStmt(self, n, st):
        return [Outcome('continue', st)]

    def x_CXXTryStmt(self, n, st):
        body, handlers = n['inner'][0], n['inner'][1:]
        outs = self.exec(body, st)
        res = []
        for o in outs:
            if o.kind != 'throw':
                res.append(o)
                continue
            for h in handlers:
                var_d = h['inner'][0] if h['inner'] and h['inner'][0] and h['inner'][0].get('kind') == 'VarDecl' else None
                ct = ctype(var_d) if var_d else None
                if ct is None or catches(ct, o.val):
                    hb = h['inner'][-1]
                    if var_d:
                        o.st.mem[self.lkey(var_d)] = Opaque(('exc', o.val))
                    res.extend(self.exec(hb, o.st))
                    break
            else:
                res.append(o)
        nx = [o for o in res if o.kind == 'next']
        if len(nx) > 1:
            res = [o for o in res if o.kind != 'next'] + self.try_merge(nx, st, n)
        return res

    def x_OMPCriticalDirective(self, n, st):
        return self.exec(self._captured(n), st)

    def _captured(self, n):
        for c in n['inner']:
            if c.get('kind') == 'CapturedStmt':
                for d in c['inner']:
                    if d['kind'] == 'CapturedDecl':
                        return d['inner'][0]
        for c in n['inner']:
            if c['kind'].endswith('Stmt'):
                return c
        raise Unsupported('OpenMP region', n)

    def x_OMPParallelForDirective(self, n, st):
        ok = {'OMPSharedClause', 'OMPScheduleClause', 'OMPNumThreadsClause', 'OMPPrivateClause', 'OMPDefaultClause', 'OMPIfClause',
              'OMPFirstprivateClause'}
        self.omp_priv = set()
        for c in n['inner']:
            if c.get('kind', '').startswith('OMP') and c['kind'].endswith('Clause'):
                if c['kind'] not in ok:
                    raise Unsupported('OpenMP clause ' + c['kind'], n)
                if c['kind'] in ('OMPPrivateClause', 'OMPFirstprivateClause'):
                    for d in c.get('inner', []):
                        if d['kind'] == 'DeclRefExpr':
                            self.omp_priv.add(self.lkey(d['referencedDecl']))
        f = self._captured(n)
        init = f['inner'][0]
        if init.get('kind') == 'DeclStmt':
            for d in init['inner']:
                self.omp_priv.add(self.lkey(d))
        elif init.get('kind') == 'BinaryOperator' and init['inner'][0]['kind'] == 'DeclRefExpr':
            self.omp_priv.add(self.lkey(init['inner'][0]['referencedDecl']))
        return self.x_ForStmt(f, st, omp=n)

    def omp_private(self, omp, entry):
        return self.omp_priv

    def x_OMPParallelDirective(self, n, st):
        # a region that consists of one work-sharing loop is a parallel for
        f = self._captured(n)
        inner = [c for c in f.get('inner', []) if c.get('kind') != 'NullStmt'] if f.get('kind') == 'CompoundStmt' else [f]
        if len(inner) == 1 and inner[0].get('kind') == 'OMPForDirective':
            clauses = [c for c in n['inner'] if c.get('kind', '').endswith('Clause')]
            return self.x_OMPParallelForDirective(dict(inner[0], inner=clauses + list(inner[0]['inner'])), st)
        raise Unsupported('omp parallel region', n)

    # -------------------------------------------------------------- loops
    def x_ForStmt(self, n, st, omp=None):
        init, condvar, cond, inc, body = n['inner']
        outs = []
        if init and init.get('kind'):
            o = self.exec(init, st)
            outs = [x for x in o if x.kind != 'next']
            st = [x for x in o if x.kind == 'next'][0].st
        return outs + self.loop(st, cond if cond and cond.get('kind') else None, inc if inc and inc.get('kind') else None,
                                body, n, omp)

    def x_WhileStmt(self, n, st):
        return self.loop(st, n['inner'][0], None, n['inner'][1], n, None)

    def x_DoStmt(self, n, st):
        # the body once, then as a while loop
        body, cond = n['inner'][0], n['inner'][1]
        first = self.exec(body, st)
        go = [Outcome('next', o.st) for o in first if o.kind in ('next', 'continue')]
        out = [Outcome('next', o.st) if o.kind == 'break' else o for o in first if o.kind not in ('next', 'continue')]
        if len(go) > 1:
            go = self.try_merge(go, st, n)
        for o in go:
            out += self.loop(o.st, cond, None, body, n, None)
        return out

    def x_CXXForRangeStmt(self, n, st):
        # inner: [init] range begin end cond inc loopvar body
        inner = [c for c in n['inner'] if c and c.get('kind')]
        body = inner[-1]
        rng = inner[0]
        rv = rng['inner'][0]['inner'][0]
        lv = self.lval(rv, st)
        loopvar = inner[-2]['inner'][0]
        seq = self.load(st, lv, n)
        key = self.lkey(loopvar)
        if isinstance(seq, Arr) and len(seq.dims) == 1:
            return self.range_array(n, st, lv, loopvar, body)
        if not isinstance(seq, ListV):
            raise Unsupported('range-for over a symbolic sequence', n)
        outs, cur = [], [Outcome('next', st)]
        for i in range(len(seq.items)):
            nx = []
            for o in cur:
                isref = '&' in loopvar['type']['qualType']
                o.st.mem[key] = Ref(LV(lv.key, (('i', num(i)),))) if isref else seq.items[i]
                for r in self.exec(body, o.st):
                    if r.kind in ('next', 'continue'):
                        nx.append(Outcome('next', r.st))
                    else:
                        outs.append(r)
            cur = self.try_merge(nx, st, n) if len(nx) > 1 else nx
        return outs + cur

    def range_array(self, n, st, lv, loopvar, body):
        """for (x : array) as a loop over a position."""
        pos, key = self.fresh_key('range'), self.lkey(loopvar)
        lv = self.deref(st, lv)
        isref = '&' in loopvar['type']['qualType']

        def cond(s):
            return lt(s.mem[pos], self.load(s, lv, n).dims[0])

        def step(s):
            s.mem[pos] = s.mem[pos] + 1
            return [Outcome('next', s)]

        def once(s):
            el = self.lib.elem_lv(lv, [s.mem[pos]], n, s)
            s.mem[key] = Ref(el) if isref else self.load(s, el, n)
            return self.exec(body, s)
        syn = [{'kind': 'SynExpr', 'run': cond, 'inner': []}, {'kind': 'SynStmt', 'run': step, 'inner': []},
               {'kind': 'SynStmt', 'run': once, 'inner': [body]}]
        for x in syn:
            x.update({a: n[a] for a in ('range', 'loc', 'id') if a in n})
        st.mem[pos] = ZERO
        outs = self.loop(st, syn[0], syn[1], syn[2], n, None)
        for o in outs:
            o.st.mem.pop(pos, None)
        return outs

    def x_SynStmt(self, n, st):
        return n['run'](st)

    def e_SynExpr(self, n, st):
        return n['run'](st)

    def body_once(self, st, cond, inc, body, node):
        """One iteration from st (cond already assumed): merged next state, other outcomes."""
        base = st.pc
        outs = self.exec(body, st)
        nx = [o for o in outs if o.kind in ('next', 'continue')]
        rest = [o for o in outs if o.kind not in ('next', 'continue')]
        if not nx:
            return None, rest
        if len(nx) > 1:
            m, _ = self.merge_states(base, nx, node, others=bool(rest))
        else:
            m = nx[0].st
        if inc is not None:
            o2 = self.exec(inc, m)
            m = [x for x in o2 if x.kind == 'next'][0].st
        return m, rest

    def loop(self, st, cond, inc, body, node, omp):
        if omp is None and cond is not None:
            r = self.small_unroll(st, cond, inc, body, node)
            if r is not None:
                return r
        try:
            return self.loop_closed(st.copy(), cond, inc, body, node, omp)
        except LoopFail as e:
            if contains_loop(body):
                # the iterations may act on parts of the arrays that do not meet
                try:
                    return self.loop_closed(st.copy(), cond, inc, body, node, omp, apart=True)
                except LoopFail:
                    pass
            if omp:
                raise
            r = self.try_unroll(st.copy(), cond, inc, body, node)
            if r is None:
                try:
                    return self.loop_search(st.copy(), cond, inc, body, node)
                except LoopFail as e2:
                    raise LoopFail('%s; as a search: %s' % (e, e2))
            return r

    # loops that end when something is found or fails: the number of completed iterations is a fresh K with
    # "no exit before K, exit at K" (partial correctness: that the loop ends is not proved)
    def step(self, st, cond, inc, body, node):
        """One iteration from st: (state after a completed iteration or None, outcomes that leave the loop)."""
        n = len(st.pc)
        exits = []
        if cond is not None:
            c = self.ev_bool(cond, st)
            d = self.decide(st, c)
            if d is not True:
                out = st.copy()
                out.assume(bnot(c))
                exits.append(Outcome('next', out))
            if d is False:
                return None, exits
            st.assume(c)
        outs = self.exec(body, st)
        go = [o for o in outs if o.kind in ('next', 'continue')]
        for o in outs:
            if o.kind not in ('next', 'continue'):
                exits.append(Outcome('next', o.st) if o.kind == 'break' else o)
        if not go:
            return None, exits
        m = self.merge_states(go[0].st.pc[:n], go, node, others=True)[0] if len(go) > 1 else go[0].st
        if inc is not None:
            m = [x for x in self.exec(inc, m) if x.kind == 'next'][0].st
        return m, exits

    def havoc_vec(self, key, v, syms):
        if isinstance(v, Arr) and key in self.grown:
            h = fresh('h', 'I', 0)
            nm = 'H!%d' % next(T._fresh)
            syms[nm] = key
            syms[atom_of(h).name] = key
            return Arr([h], app(nm, IDX[:1], 'I' if v.sort == 'I' else 'R'), v.sort)
        return self.havoc(key, v, syms)

    def loop_search(self, entry, cond, inc, body, node):
        W = {}
        old_grown, self.grown = getattr(self, 'grown', {}), {}
        self.quiet += 1
        try:
            for _ in range(12):
                hav = entry.copy()
                syms = {}
                for key in W:
                    hav.mem[key] = self.havoc_vec(key, entry.mem[key], syms)
                b = hav.copy()
                m, exits = self.step(b, cond, inc, body, node)
                written = set()
                again = False
                for s2 in ([m] if m else []) + [o.st for o in exits]:
                    for key, v in entry.mem.items():
                        v2 = s2.mem.get(key)
                        if v2 is None or key in self.IGNORE:
                            continue
                        if isinstance(v, ListV) and v2 != v and all(isinstance(x, Poly) for x in v.items):
                            entry.mem[key] = self.lib_list(v, self.vector_sorts.get(key, 'I'))
                            self.grown[key] = True
                            again = True
                        elif isinstance(v, Arr) and isinstance(v2, Arr) and v2.dims != hav.mem[key].dims and len(v.dims) == 1 and key not in self.grown:
                            self.grown[key] = again = True
                        elif not (v2 is hav.mem[key] or v2 == hav.mem[key]):
                            written.add(key)
                if not again and written <= set(W):
                    break
                for x in written | set(self.grown):
                    W[x] = True
            else:
                raise LoopFail('modified set does not stabilise', node)
            if m is None:
                raise LoopFail('no iteration completes', node)
            ind = {}
            for key in W:
                h, v = hav.mem[key], m.mem[key]
                if isinstance(h, Poly) and isinstance(v, Poly):
                    dlt = v - h
                    if dlt.is_const():
                        ind[key] = dlt
            k = fresh('k', 'I', 0)
            hav2 = entry.copy()
            syms2 = {}
            for key in W:
                if key in ind:
                    hav2.mem[key] = entry.mem[key] + k * ind[key]
                elif key in self.grown:
                    v = entry.mem[key]
                    nm = 'H!%d' % next(T._fresh)
                    syms2[nm] = key
                    hav2.mem[key] = Arr([v.dims[0] + k], app(nm, IDX[:1], 'I' if v.sort == 'I' else 'R'), v.sort)
                else:
                    hav2.mem[key] = self.havoc(key, entry.mem[key], syms2)
            b = hav2.copy()
            b.assume(le(0, k))
            Pb, exits = self.step(b, cond, inc, body, node)
            if Pb is None:
                raise LoopFail('no iteration completes', node)
            closed = {key: entry.mem[key] + k * ind[key] for key in ind}
            todo = [key for key in W if key not in ind and key not in self.grown]
            A = {key: hav2.mem[key] for key in todo}
            PB = {key: Pb.mem[key] for key in todo}
            closed.update(self.infer(entry, todo, A, PB, syms2, k, None, node, Pb.pc))
            b = entry.copy()
            for key in hav2.mem:
                b.mem[key] = closed.get(key, hav2.mem[key])
            b.assume(le(0, k))
            Pb, exits = self.step(b, cond, inc, body, node)
            for key in self.grown:
                e, h, p = entry.mem[key], hav2.mem[key], Pb.mem[key]
                n0 = e.dims[0]
                if not isinstance(p, Arr) or p.dims[0] != h.dims[0] + 1:
                    raise LoopFail('list %s does not grow by one' % short(key), node)
                val = S.simplify(subst(p.body, {IATOM[0]: h.dims[0]}), Pb.prem())
                if val.syms & frozenset(syms2):
                    raise LoopFail('element of list %s' % short(key), node)
                closed[key] = Arr([n0 + k], ite(lt(I0, n0), e.body, subst(val, {atom_of(k): I0 - n0})), e.sort)
        finally:
            self.quiet -= 1
            self.grown = old_grown
        # inductive check on the closed form, obligations emitted
        c1 = entry.copy()
        for key, v in closed.items():
            c1.mem[key] = v
        n1 = len(c1.pc)
        c1.assume(le(0, k))
        n1 = len(c1.pc)
        out0 = c1.mem.get('ghost:stdout')
        m1, exits1 = self.step(c1, cond, inc, body, node)
        for key in closed:
            if not self.is_opaque(closed[key]):
                self.check_equal(key, m1.mem[key], self.at_k(closed[key], k, k + 1), m1, node)
                self.check_equal(key, entry.mem[key], self.at_k(closed[key], k, ZERO), entry, node, what='initially')
        self.loops_closed += 1
        leave = bor(*[band(*o.st.pc[n1:]) for o in exits1])
        K = fresh('iter', 'I', 0)
        outs = []
        base = entry.copy()
        base.assume(le(0, K))
        self.forall_fact(base, k, K, bnot(leave))
        j = fresh('k', 'I')
        at = lambda e: subst(leave, {atom_of(k): e})
        base.assume(bor(le(K, 0), bnot(at(K - 1))), bor(le(K, 0), bnot(at(ZERO))), eq(mk_sum(j, ZERO, K, br(at(j))), 0))
        mp = {atom_of(k): K}
        for o in exits1:
            s2 = State({}, base.pc + tuple(subst(x, mp) for x in o.st.pc[n1:]))
            for key, v in o.st.mem.items():
                s2.mem[key] = self.at_k(v, k, K) if isinstance(v, (Poly, Arr, Bool)) else v
            v0, v1 = entry.mem.get('ghost:stdout'), o.st.mem.get('ghost:stdout')
            if isinstance(v0, tuple) and isinstance(v1, tuple) and v1[:len(v0)] == v0:
                s2.mem['ghost:stdout'] = v0 + (('loop', k, K, m1.mem.get('ghost:stdout', ())[len(v0):]), ('subst', k, K, v1[len(v0):]))
            if not s2.prem().feasible():
                continue
            outs.append(Outcome(o.kind, s2, o.val))
        nx = [o for o in outs if o.kind == 'next']
        rest = [o for o in outs if o.kind != 'next']
        return rest + (self.try_merge(nx, entry, node) if len(nx) > 1 else nx)

    def lib_list(self, v, sort):
        import libmodels
        return libmodels.list_array(v, sort)

    def small_unroll(self, st, cond, inc, body, node, limit=6):
        """Loops with a constant trip count of at most `limit` are simply executed."""
        c = self.ev_bool(cond, st.copy())
        if c is not TRUE:
            return None
        # dry run of the counter: only when the condition compares a constant-valued local
        keep, self.obls = self.obls, []
        self.quiet += 1
        n_stat = len(self.notes)
        try:
            cur = st.copy()
            n = 0
            while True:
                c = self.ev_bool(cond, cur)
                if c is FALSE:
                    break
                if c is not TRUE or n >= limit or inc is None:
                    return None
                n += 1
                o2 = self.exec(inc, cur)
                cur = [x for x in o2 if x.kind == 'next'][0].st
        except (Unsupported, IndexError):
            return None
        finally:
            self.quiet -= 1
            self.obls = keep
        return self.try_unroll(st.copy(), cond, inc, body, node)

    def try_unroll(self, st, cond, inc, body, node):
        outs = []
        cur = st
        for it in range(self.max_unroll + 1):
            c = self.ev_bool(cond, cur) if cond is not None else TRUE
            d = self.decide(cur, c)
            if d is False:
                return outs + [Outcome('next', cur)]
            if d is None or it == self.max_unroll:
                return None
            m, rest = self.body_once(cur, cond, inc, body, node)
            for o in rest:
                if o.kind == 'break':
                    return None
                outs.append(o)
            if m is None:
                return outs
            cur = m
        return None

    def havoc(self, key, v, syms, sort_of=None):
        if isinstance(v, Poly):
            s = 'I' if (T.is_int(v) and not v.is_const()) or self.int_key(key, v) else 'R'
            h = fresh('h', s)
            syms[atom_of(h).name] = key
            return h
        if isinstance(v, Arr):
            T_un = next(T._fresh)
            nm = 'H!%d' % T_un
            syms[nm] = key
            return Arr(v.dims, app(nm, IDX[:len(v.dims)], 'I' if v.sort == 'I' else 'R'), v.sort)
        if isinstance(v, Bool):
            nm = 'hb!%d' % next(T._fresh)
            syms[nm] = key
            return T.bvar(nm)
        raise LoopFail('loop modifies %s of kind %s' % (key, type(v).__name__))

    int_keys = None

    def int_key(self, key, v):
        t = self.key_types.get(key)
        if t is not None:
            return t
        return T.is_int(v)

    key_types = {}
    lambdas = {}        # (file, node) of the local functions met

    IGNORE = ('ghost:stdout',)

    def loop_closed(self, st, cond, inc, body, node, omp, apart=False):
        self.loop_depth += 1
        try:
            outs = self.loop_closed1(st, cond, inc, body, node, omp, apart)
        finally:
            self.loop_depth -= 1
        if not self.loop_depth:
            for o in outs:
                for key, v in list(o.st.mem.items()):
                    if isinstance(v, Arr) and v is not st.mem.get(key):
                        o.st.mem[key] = self.named(self.in_range(v, o.st))
        return outs

    def loop_closed1(self, st, cond, inc, body, node, omp, apart=False):
        """apart: the closed form is guessed from the body run on the arrays as they are before the loop (right if no
        iteration touches what another one writes); the inductive check below decides as for any other guess."""
        entry = st
        W = {}

        def havoc(key, v, syms):
            return v if apart and isinstance(v, Arr) else self.havoc(key, v, syms)
        self.quiet += 1
        ind = {}
        try:
            for _ in range(12):
                hav = entry.copy()
                syms = {}
                for key in W:
                    hav.mem[key] = havoc(key, entry.mem[key], syms)
                b = hav.copy()
                c = self.ev_bool(cond, b) if cond is not None else TRUE
                if FALSE in b.pc:
                    break
                b.assume(c)
                if c is FALSE:
                    break
                pre = dict(b.mem)
                m, rest = self.body_once(b, cond, inc, body, node)
                written = set()
                for s2 in ([m] if m else []) + [o.st for o in rest]:
                    for key, v in entry.mem.items():
                        v2 = s2.mem.get(key)
                        if v2 is None:
                            continue
                        if not (v2 is hav.mem[key] or v2 == hav.mem[key]):
                            written.add(key)
                written = {x for x in written if x not in self.IGNORE}
                if written <= set(W):
                    break
                for x in written:
                    W[x] = True
            else:
                raise LoopFail('modified set does not stabilise', node)
            if not W:
                # nothing modified: the condition is invariant
                d = self.decide(entry, self.ev_bool(cond, entry.copy()) if cond is not None else TRUE)
                if d is False:
                    return [Outcome('next', entry)]
                raise LoopFail('loop without progress', node)
            brk = [o for o in rest if o.kind in ('break', 'return')]
            if brk:
                raise LoopFail('loop with break or return', node)
            if m is None:
                raise LoopFail('loop body never completes', node)
            # induction variables
            hs = {key: hav.mem[key] for key in W}
            wsyms = frozenset(syms)
            for key in W:
                h, v = hs[key], m.mem[key]
                if isinstance(h, Poly) and isinstance(v, Poly):
                    dlt = v - h
                    if not (dlt.syms & wsyms) and dlt.is_const():
                        ind[key] = dlt
            k = fresh('k', 'I', 0)
            # trip count from the condition with induction variables in closed form
            hav2 = entry.copy()
            syms2 = {}
            for key in W:
                if key in ind:
                    hav2.mem[key] = entry.mem[key] + k * ind[key]
                else:
                    hav2.mem[key] = havoc(key, entry.mem[key], syms2)
            ck = self.ev_bool(cond, hav2.copy()) if cond is not None else TRUE
            N, N_ok = self.trip_count(entry, ck, k, node, frozenset(syms2))
            b = hav2.copy()
            b.assume(le(0, k), lt(k, N))
            Pb, rest = self.body_once(b, cond, inc, body, node)
            if Pb is None:
                raise LoopFail('loop body never completes', node)
            throws = [o for o in rest if o.kind == 'throw']
            if any(o.kind != 'throw' for o in rest):
                raise LoopFail('loop with break or return', node)
            # ---- closed forms
            closed = {key: entry.mem[key] + k * ind[key] for key in ind}
            todo = [key for key in W if key not in ind]
            A = {key: hav2.mem[key] for key in todo}
            PB = {key: Pb.mem[key] for key in todo}
            closed.update(self.infer(entry, todo, A, PB, syms2, k, N, node, b.pc))
        finally:
            self.quiet -= 1
        # ---- inductive check, with obligations emitted on the closed form at k
        ck_state = entry.copy()
        for key, v in closed.items():
            ck_state.mem[key] = v
        stdout0 = entry.mem.get('ghost:stdout')
        c1 = ck_state.copy()
        c1.assume(le(0, k), lt(k, N))
        fp = None
        if omp is not None and not self.quiet:
            fp = self.footprint
            self.footprint = []
        if cond is not None:
            self.ev_bool(cond, c1)
        before = dict(c1.mem)
        m1, rest1 = self.body_once(c1, cond, inc, body, node)
        if apart:
            for key, v in before.items():
                if key not in closed and key not in self.IGNORE:
                    for s2 in ([m1] if m1 else []) + [o.st for o in rest1]:
                        if not (s2.mem.get(key) is v or s2.mem.get(key) == v):
                            raise LoopFail('%s is modified' % short(key), node)
        if omp is not None and not self.quiet:
            mine, self.footprint = self.footprint, fp
            self.omp_footprint(mine, k, N, entry, node, inc, body, omp)
        ok = True
        for key in closed:
            if self.is_opaque(closed[key]):
                continue
            want = self.at_k(closed[key], k, k + 1)
            got = m1.mem[key]
            self.check_equal(key, got, want, m1, node)
        # base case: closed form at 0 is the entry value
        for key in closed:
            if self.is_opaque(closed[key]):
                continue
            self.check_equal(key, entry.mem[key], self.at_k(closed[key], k, ZERO), entry, node, what='initially')
        self.loops_closed += 1
        out = entry.copy()
        for key, v in closed.items():
            out.mem[key] = self.at_k(v, k, N)
            if isinstance(out.mem[key], Poly) and _hasbr(out.mem[key]):
                out.mem[key] = S.simplify(out.mem[key], out.prem())
        if stdout0 is not None:
            out.mem['ghost:stdout'] = stdout0 + (('loop', k, N, m1.mem.get('ghost:stdout', ())[len(stdout0):]),) \
                if isinstance(stdout0, tuple) and m1.mem.get('ghost:stdout') != stdout0 else stdout0
        outs = []
        if throws:
            # throw at iteration K: no earlier iteration threw
            for o in [x for x in rest1 if x.kind == 'throw']:
                o.st.pc = o.st.pc
                outs.append(o)
            cond_ok = bor(*[band(*o.st.pc[len(c1.pc) if o.st.pc[:len(c1.pc)] == c1.pc else len(entry.pc):])
                            for o in rest1 if o.kind == 'throw'])
            self.forall_fact(out, k, N, bnot(cond_ok))
        return outs + [Outcome('next', out)]

    def exists(self, v, st):
        """Some entry of the 0/1 array v is 1, as a Boolean with a witness."""
        body = ne(v.body, 0)
        h = 'some!%s' % T.stable_name((tuple(v.dims), body))
        w = [app('%s_%d' % (h, i), (), 'I') for i in range(len(v.dims))]
        mp = dict(zip(IATOM, w))
        e = band(*[x for i, d in enumerate(v.dims) for x in (le(0, w[i]), lt(w[i], d))], subst(body, mp))
        if len(v.dims) != 1:
            raise Unsupported('any() of a matrix')
        k = fresh('k', 'I')
        if e not in self.schemas:
            self.schemas.add(e)
            self.schema(k, v.dims[0], bor(subst(bnot(body), {IATOM[0]: k}), e))
        return e

    def schema(self, k, N, body):
        """forall 0<=k<N. body, a valid formula, available for instantiation at matching reads."""
        ka = atom_of(k)
        for a in T.atoms_in(body, set()):
            if a.kind == 'app' and len(a.args) >= 1 and a.args[0] is k:
                old = S.FACTS.get(a.name)

                def f(*args, old=old):
                    x = args[0]
                    return (list(old(*args)) if old else []) + [bor(bnot(band(le(0, x), lt(x, N))), subst(body, {ka: x}))]
                S.FACTS[a.name] = f
                S.clear_caches()

    def forall_fact(self, st, k, N, body):
        """Record  forall 0<=k<N. body  as a schema fact (instantiated on matching reads)."""
        syms = sorted([a for a in T.atoms_in(body, set()) if a.kind == 'app' and atom_of(k) in
                       {ATOMS[u] for x in a.args if isinstance(x, Poly) for mm in x.d for u, e in mm}], key=str)
        ka = atom_of(k)
        here = T.bvar('here!%d' % next(_here))       # the fact holds on this path only
        st.assume(here)
        for a in syms:
            off = a.args[0] - k if len(a.args) >= 1 and isinstance(a.args[0], Poly) else None
            if off is not None and not (off.syms & k.syms):
                old = S.FACTS.get(a.name)

                def f(*args, old=old, body=body, ka=ka, N=N, off=off):
                    out = list(old(*args)) if old else []
                    x = args[0] - off
                    out.append(bor(bnot(band(here, le(0, x), lt(x, N))), subst(body, {ka: x})))
                    return out
                if not self.quiet:
                    S.FACTS[a.name] = f
                    S.clear_caches()

    def at_k(self, v, k, e):
        mp = {atom_of(k): P(e)}
        if isinstance(v, Poly):
            return subst(v, mp)
        if isinstance(v, Arr):
            return Arr([subst(d, mp) for d in v.dims], subst(v.body, mp), v.sort)
        if isinstance(v, Bool):
            return subst(v, mp)
        return v

    def check_equal(self, key, got, want, st, node, what='inductive'):
        if got is want or got == want:
            if not self.quiet:
                o = self._mk_obl('loop', st, TRUE, node, 'closed form of %s %s' % (short(key), what))
                o.status, o.backend = 'proved', 'normal_form'
                self.obls.append(o)
            return
        if isinstance(got, Arr):
            if not (isinstance(want, Arr) and len(got.dims) == len(want.dims)):
                raise LoopFail('array shape in loop', node)
            for a, b in zip(got.dims, want.dims):
                if a is not b and not S.prove_zero(a - b, st.prem())[0]:
                    raise LoopFail('array size changes in loop', node)
            inr = []
            for i, d in enumerate(got.dims):
                inr += [le(0, IDX[i]), lt(IDX[i], d)]
            pr = st.prem().plus(*inr)
            diff = got.body - want.body
        elif isinstance(got, Poly):
            pr = st.prem()
            diff = got - want
        elif isinstance(got, Bool):
            pr = st.prem()
            r = pr.decide(bor(band(got, want), band(bnot(got), bnot(want))))
            if r is not True:
                raise LoopFail('closed form of %s not inductive' % short(key), node)
            return
        else:
            raise LoopFail('value kind in loop', node)
        # a value that is still undefined on both sides needs no agreement
        r, info = S.prove_zero(diff, pr)
        if r is not True:
            raise LoopFail('closed form of %s not %s: residual %s' % (short(key), what, str(info[1])[:400]), node)
        if not self.quiet:
            o = self._mk_obl('loop', st, TRUE, node, 'closed form of %s %s' % (short(key), what))
            o.status, o.backend = 'proved', 'normal_form+z3'
            self.obls.append(o)

    def trip_count(self, entry, ck, k, node, wsyms):
        if ck is TRUE or ck is FALSE:
            if ck is FALSE:
                return ZERO, True
            raise LoopFail('no exit condition', node)
        b = ck
        neg = False
        if ck.syms & wsyms:
            raise LoopFail('loop condition depends on modified data', node)
        if ck.op in ('and', 'or'):
            g = _guard(ck, atom_of(k).name)
            if g is not None:
                n1, _ = self.trip_count(entry, _assign(ck, g, TRUE), k, node, wsyms)
                n0, _ = self.trip_count(entry, _assign(ck, g, FALSE), k, node, wsyms)
                return ite(g, n1, n0), True
        if b.op == 'not':
            b = b.args[0]
            neg = True
        ka = atom_of(k)
        if b.op == 'eq0' and neg:
            # i != E with unit step
            li = T._linear_in(b.args[0], ka)
            if li and li[0] in (1, -1):
                N = scale_(li[1], -li[0])
                if self.decide(entry, le(0, N)) is True:
                    return N, True
            raise LoopFail('loop condition !=', node)
        if b.op not in ('le0', 'lt0'):
            raise LoopFail('loop condition form', node)
        p = b.args[0]
        if b.op == 'lt0':
            raise LoopFail('real loop condition', node)
        if neg:
            p = 1 - p
        li = T._linear_in(p, ka)
        if not li:
            raise LoopFail('loop condition not linear', node)
        c, r = li
        if not isinstance(c, int) or c <= 0:
            raise LoopFail('loop condition direction', node)
        # c*k + r <= 0  <=>  k <= floor(-r/c)
        N = (T.fdiv(-r, num(c)) if c != 1 else -r) + 1
        d = self.decide(entry, le(0, N))
        if d is True:
            return N, True
        if self.decide(entry, le(N, 0)) is True:
            return ZERO, True
        return br(le(1, N)) * N, True

    # -------------------------------------------------------------- closed form inference
    def infer(self, entry, todo, A, PB, syms, k, N, node, pc):
        closed = {}
        bykey = {}
        for s, key in syms.items():
            bykey[key] = s
        unresolved = dict.fromkeys(todo)
        # unchanged keys
        for key in list(unresolved):
            if PB[key] is A[key] or PB[key] == A[key]:
                closed[key] = entry.mem[key]
                del unresolved[key]

        def usyms():
            return frozenset(bykey[x] for x in unresolved if x in bykey)

        def ssub(v, at):
            """substitute resolved symbols by closed forms with k := at"""
            fm = {}
            for key, cv in closed.items():
                s = bykey.get(key)
                if s is None:
                    continue
                cv2 = self.at_k(cv, k, at)
                if isinstance(cv2, Arr):
                    fm[s] = (lambda *args, cv2=cv2: cv2.at(*args))
                else:
                    fm[s] = (lambda cv2=cv2: cv2)
            if not fm:
                return v
            if isinstance(v, Arr):
                nb = T.subst_fn(v.body, fm)
                if _hasbr(nb):
                    nb = S.simplify(nb, Prem(pc))
                return Arr([T.subst_fn(d, fm) for d in v.dims], nb, v.sort)
            if isinstance(v, (Poly, Bool)):
                r = T.subst_fn(v, fm)
                return S.simplify(r, Prem(pc)) if _hasbr(r) else r
            return v

        progress = True
        stuck = tried = False
        while unresolved and progress:
            progress = False
            if stuck:
                # a local that is overwritten only under a condition: nothing is claimed about its value
                stuck = False
                for key in list(unresolved):
                    if isinstance(A[key], (Poly, Bool)) and not key.startswith('this') and bykey.get(key) in getattr(ssub(PB[key], k), 'syms', ()):
                        closed[key] = self.opaque_fn(A[key], k, pc)
                        del unresolved[key]
                        progress = True
                if not progress:
                    break
            for key in list(unresolved):
                h = A[key]
                p = ssub(PB[key], k)
                us = usyms()
                own = bykey.get(key)
                if own is None:
                    # run on the array as it is before the loop: each iteration adds its own change
                    if not isinstance(p, Arr) or p.dims != h.dims:
                        raise LoopFail('array size of %s changes in loop' % short(key), node)
                    d = p.body - h.body
                    if d.syms & us:
                        continue
                    kk = fresh('k', 'I')
                    closed[key] = Arr(h.dims, h.body + mk_sum(kk, ZERO, k, subst(d, {atom_of(k): kk})), h.sort)
                elif isinstance(h, Poly):
                    if not isinstance(p, Poly):
                        continue
                    if not (p.syms & us):
                        last = subst(p, {atom_of(k): k - 1})
                        closed[key] = ite(eq(k, 0), entry.mem[key], last)
                    else:
                        d = p - h
                        if d.syms & us:
                            # x' = x except under a condition that overwrites it
                            continue
                        kk = fresh('k', 'I')
                        closed[key] = entry.mem[key] + mk_sum(kk, ZERO, k, subst(d, {atom_of(k): kk}))
                elif isinstance(h, Bool):
                    known = Prem(pc).decide(p)          # e.g. a stream that did not fail in an iteration that completed
                    if known is not None:
                        p = TRUE if known else FALSE
                    if p.syms & us:
                        continue
                    last = subst(p, {atom_of(k): k - 1})
                    c0 = eq(k, 0)
                    first = entry.prem().decide(entry.mem[key])
                    first = entry.mem[key] if first is None else TRUE if first else FALSE
                    closed[key] = p if known is not None and p is first else bor(band(c0, first), band(bnot(c0), last))
                elif isinstance(h, Arr):
                    if not isinstance(p, Arr) or p.dims != h.dims:
                        raise LoopFail('array size of %s changes in loop' % short(key), node)
                    if (p.syms if hasattr(p, 'syms') else p.body.syms) & (us - {own}):
                        continue
                    c = self.infer_array(entry.mem[key], h, p, own, k, pc)
                    if c is None:
                        continue
                    closed[key] = c
                del unresolved[key]
                progress = True
            if not progress and unresolved and not tried:
                stuck = progress = tried = True
        if any(x not in bykey for x in unresolved):
            raise LoopFail('no closed form for %s' % ', '.join(short(x) for x in unresolved), node)
        if unresolved:
            closed.update(self.infer_joint(entry, list(unresolved), A, {x: ssub(PB[x], k) for x in unresolved}, bykey, k, N, node, pc))
        return closed

    def is_opaque(self, v):
        if isinstance(v, Bool):
            v = v.args[0].args[0] if v.op == 'not' and v.args[0].op == 'eq0' else None
        if not isinstance(v, Poly) or len(v.d) != 1:
            return False
        (m, c), = v.d.items()
        return c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'app' and ATOMS[m[0][0]].name in self.opaque

    def opaque_fn(self, h, k, pc):
        """The value at iteration k as a fresh function of k and of the enclosing loop counters: nothing is known about it."""
        ks = sorted({a for b in pc for a in T.atoms_in(b, set()) if a.kind == 'var' and a.sort == 'I' and a.name.startswith('k!')
                     and of_atom(a) is not k}, key=lambda a: a.uid)
        n = 'havoc!%d' % next(T._fresh)
        args = (k,) + tuple(of_atom(a) for a in ks)
        self.opaque.add(n)
        if isinstance(h, Bool):
            return ne(T.app(n, args, 'I'), 0)
        srt = 'I' if T.is_int(h) else 'R'
        return T.app(n, args, srt)

    def infer_array(self, a0, h, p, own, k, pc):
        d = p.body - h.body
        kk = fresh('k', 'I')
        if own not in p.body.syms:
            # overwritten completely in each iteration
            last = subst(p.body, {atom_of(k): k - 1})
            return Arr(h.dims, ite(eq(k, 0), a0.body, last), h.sort)
        d0 = T.subst_fn(d, {own: lambda *args: a0.at(*args)})
        if own in d.syms and _hasbr(d0):
            d0 = S.simplify(d0, Prem(pc + inrange(h.dims)))
        body = a0.body + mk_sum(kk, ZERO, k, subst(d0, {atom_of(k): kk}))
        cand = Arr(h.dims, body, h.sort)
        if own not in d.syms:
            return cand
        # inductive?
        nb = T.subst_fn(p.body, {own: lambda *args: cand.at(*args)})
        want = subst(body, {atom_of(k): k + 1})
        r, info = S.prove_zero(nb - want, Prem(pc + inrange(h.dims)))
        if r is True:
            return cand
        self.last_residual = info
        return None

    def infer_joint(self, entry, keys, A, PB, bykey, k, N, node, pc):
        """Templates for mutually dependent arrays: angle-addition tables."""
        import templates
        for t in templates.ALL:
            c = t(self, entry, keys, A, PB, bykey, k, N, pc)
            if c is not None:
                return c
        raise LoopFail('no closed form for %s' % ', '.join(short(x) for x in keys), node)

    def omp_footprint(self, fp, k, N, entry, node, inc, body, omp):
        """Race freedom: writes of iteration k and accesses of iteration k' are disjoint."""
        self.lib.omp_check(fp, k, N, entry, node, omp)

    # -------------------------------------------------------------- expressions
    def ev_bool(self, n, st):
        v = self.ev(n, st)
        return tobool(v, n)

    def ev(self, n, st, dest=None):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k, n)
        if k == 'CXXConstructExpr' or k in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr',
                                            'CXXFunctionalCastExpr', 'ImplicitCastExpr', 'CXXTemporaryObjectExpr'):
            return m(n, st, dest)
        return m(n, st)

    def e_pass(self, n, st, dest=None):
        return self.ev(n['inner'][0], st, dest)

    e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_pass
    e_ConstantExpr = e_pass

    def e_ParenExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    e_SubstNonTypeTemplateParmExpr = e_ParenExpr

    def e_IntegerLiteral(self, n, st):
        return num(int(n['value']))

    def e_FloatingLiteral(self, n, st):
        return float_lit(n['value'])

    def e_CXXBoolLiteralExpr(self, n, st):
        return TRUE if n['value'] else FALSE

    def e_CharacterLiteral(self, n, st):
        return num(int(n['value']))

    def e_StringLiteral(self, n, st):
        v = n['value']
        return Str(unquote(v))

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return Ptr(None, True)

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_ImplicitValueInitExpr(self, n, st):
        return ZERO

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            dd = self.decl_node(d)
            if '_enumval' in dd:
                return num(dd['_enumval'])
        lv = self.lval(n, st)
        if isinstance(lv, LV):
            return self.load(st, lv, n)
        return lv

    def decl_node(self, d):
        return self.tu.byid.get((self.frame.fn.path, d['id']), d)

    def e_MemberExpr(self, n, st):
        return self.load(st, self.lval(n, st), n)

    def e_ArraySubscriptExpr(self, n, st):
        return self.load(st, self.lval(n, st), n)

    def e_CXXThisExpr(self, n, st):
        return Ptr(LV(self.frame.this))

    def e_ImplicitCastExpr(self, n, st, dest=None):
        ck = n['castKind']
        e = n['inner'][0]
        if ck == 'LValueToRValue':
            lv = self.lval(e, st)
            v = self.load(st, lv, n)
            return v
        v = self.ev(e, st, dest)
        return self.cast(v, ck, n, st, e)

    def cast(self, v, ck, n, st, e):
        t = ctype(n)
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ArrayToPointerDecay', 'FunctionToPointerDecay',
                  'ConstructorConversion', 'UserDefinedConversion', 'BitCast', 'NullToPointer', 'ToVoid', 'BuiltinFnToFnPtr'):
            return v
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            if isinstance(v, Bool):
                return br(v)
            if t == 'int' and isinstance(v, Poly):
                src = ctype(e)
                if src not in ('int', 'short', 'char', 'bool'):
                    self.ovf(v, n, st)
            elif isinstance(v, Poly) and t in ('unsigned int', 'unsigned long', 'size_t') and not v.is_const():
                self.obl('overflow', st, ge(v, 0), n, 'conversion to unsigned keeps the value')
            return v
        if ck == 'IntegralToFloating':
            if isinstance(v, Bool):
                return br(v)
            if t == 'float':
                return app('f32', (v,))
            return v
        if ck == 'FloatingToIntegral':
            if isinstance(v, Poly) and T.is_int(v):
                return v
            return app('trunc', (v,), 'I')
        if ck == 'FloatingCast':
            if t == 'float' or ctype(e) == 'float':
                if t == 'float':
                    return v if isinstance(v, Poly) and v.is_const() and float_exact(v.const()) else app('f32', (v,))
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return tobool(v)
        if ck == 'PointerToBoolean':
            if isinstance(v, Ptr):
                return FALSE if v.null else TRUE
        if ck == 'LValueBitCast':
            raise Unsupported('reinterpretation', n)
        raise Unsupported('cast ' + ck, n)

    def e_CStyleCastExpr(self, n, st):
        ck = n['castKind']
        if ck == 'LValueToRValue':
            return self.e_ImplicitCastExpr(n, st)
        v = self.ev(n['inner'][0], st)
        if ctype(n) == 'bool' and ck == 'IntegralToBoolean':
            return tobool(v)
        return self.cast(v, ck, n, st, n['inner'][0])

    e_CXXStaticCastExpr = e_CStyleCastExpr
    e_CXXConstCastExpr = e_CStyleCastExpr

    def e_CXXReinterpretCastExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    def e_CXXFunctionalCastExpr(self, n, st, dest=None):
        v = self.ev(n['inner'][0], st, dest)
        ck = n['castKind']
        if ck in ('ConstructorConversion', 'NoOp'):
            return v
        return self.cast(v, ck, n, st, n['inner'][0])

    def ovf(self, v, n, st):
        if not self.overflow or self.quiet or v.is_const() and abs(v.const()) <= INT_MAX:
            return
        self.obl('overflow', st, band(le(v, INT_MAX), ge(v, -INT_MAX - 1)), n, 'int range')

    def e_UnaryOperator(self, n, st):
        op = n['opcode']
        e = n['inner'][0]
        if op == '&':
            lv = self.deref(st, self.lval(e, st))
            a = st.mem.get(lv.key)
            return Ptr(lv, dims=a.dims if isinstance(a, Arr) and lv.sel is not None else None)
        if op == '*':
            return self.load(st, self.lval(n, st), n)
        if op in ('++', '--'):
            lv = self.lval(e, st)
            v = self.load(st, lv, n)
            if not isinstance(v, Poly):
                raise Unsupported('increment of %s' % type(v).__name__, n)
            w = v + (1 if op == '++' else -1)
            self.ovf(w, n, st)
            self.store(st, lv, w, n)
            return v if n.get('isPostfix') else w
        v = self.ev(e, st)
        if op == '-':
            if isinstance(v, Bool):
                v = br(v)
            return self.lib.neg(v, n)
        if op == '+':
            return v
        if op == '!':
            return bnot_(tobool(v))
        raise Unsupported('operator ' + op, n)

    def e_BinaryOperator(self, n, st):
        op = n['opcode']
        l, r = n['inner']
        if op == '=':
            v = self.ev(r, st)
            lv = self.lval(l, st)
            v = self.coerce(v, ctype(l), n)
            self.store(st, lv, v, n)
            return v
        if op == ',':
            self.ev(l, st)
            return self.ev(r, st)
        if op in ('&&', '||'):
            a = self.ev_bool(l, st)
            d = self.decide(st, a)
            if op == '&&':
                if d is False:
                    return FALSE
                s2 = st.copy()
                s2.assume(a)
                b = self.ev_bool(r, s2)
                self.adopt(st, s2, a, n)
                return b if d is True else band(a, b)
            if d is True:
                return TRUE
            s2 = st.copy()
            s2.assume(bnot(a))
            b = self.ev_bool(r, s2)
            self.adopt(st, s2, bnot(a), n)
            return b if d is False else bor(a, b)
        a = self.ev(l, st)
        b = self.ev(r, st)
        return self.binop(op, a, b, n, st)

    def adopt(self, st, s2, cond, node):
        """Effects of a conditionally evaluated operand."""
        for k in list(st.mem):
            v2 = s2.mem.get(k)
            if v2 is not None and v2 is not st.mem[k] and not v2 == st.mem[k]:
                st.mem[k] = self.merge_vals([v2, st.mem[k]], [cond, bnot(cond)], node, k)

    def binop(self, op, a, b, n, st):
        t = ctype(n)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_op(op, a, b, n, st)
        if isinstance(a, Bool) and op not in ('==', '!='):
            a = br(a)
        if isinstance(b, Bool) and op not in ('==', '!='):
            b = br(b)
        if op in ('==', '!=') and (isinstance(a, Bool) or isinstance(b, Bool)):
            a, b = tobool(a), tobool(b)
            e = bor(band(a, b), band(bnot(a), bnot(b)))
            return e if op == '==' else bnot_(e)
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            raise Unsupported('operands of ' + op + ' %s %s' % (type(a).__name__, type(b).__name__), n)
        if op == '+':
            v = a + b
        elif op == '-':
            v = a - b
        elif op == '*':
            v = a * b
        elif op == '/':
            if t in CINT:
                self.obl('div0', st, ne(b, 0), n, 'divisor not zero')
                v = T.tdiv(a, b)
                if _hasbr(v) or _has_tdiv(v):
                    v = self.simp_tdiv(v, st)
            else:
                v = self.rdiv(a, b, n, st)
        elif op == '%':
            self.obl('div0', st, ne(b, 0), n, 'divisor not zero')
            v = T.tmod(a, b)
            if _has_tdiv(v):
                v = self.simp_tdiv(v, st)
        elif op == '<':
            return lt(a, b)
        elif op == '<=':
            return le(a, b)
        elif op == '>':
            return gt(a, b)
        elif op == '>=':
            return ge(a, b)
        elif op == '==':
            return eq(a, b)
        elif op == '!=':
            return ne(a, b)
        elif op == '<<':
            v = a * num(2 ** int(b.const())) if b.is_const() else _uns('<<', n)
        else:
            raise Unsupported('operator ' + op, n)
        if t == 'int':
            self.ovf(v, n, st)
        if t == 'float':
            v = app('f32', (v,))
        return v

    def rdiv(self, a, b, n, st):
        return a * T.inv(b)

    def simp_tdiv(self, v, st):
        """Replace truncating by floor division when signs are known."""
        prem = st.prem()

        def f(a):
            if a.kind == 'app' and a.name == 'tdiv':
                x, y = a.args
                if prem.decide(ge(y, 1)) is True:
                    if prem.decide(ge(x, 0)) is True:
                        return T.fdiv(x, y)
                    if prem.decide(le(x, 0)) is True:
                        return -T.fdiv(-x, y)
            return None
        v = T.transform(v, f)
        return S.simplify(v, prem) if _hasbr(v) else v

    def ptr_op(self, op, a, b, n, st):
        if op in ('==', '!='):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                r = TRUE if (a == b) else (FALSE if (a.null != b.null) else None)
                if r is not None:
                    return r if op == '==' else bnot_(r)
        if op in ('+', '-') and isinstance(a, Ptr) and isinstance(b, Poly):
            lv = a.lv
            if lv is not None and lv.sel is not None and all(s[0] == 'i' for s in lv.sel):
                if len(lv.sel) == 1:
                    return Ptr(LV(lv.key, (('i', lv.sel[0][1] + (b if op == '+' else -b)),)))
        raise Unsupported('pointer arithmetic', n)

    def e_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        l, r = n['inner']
        b = self.ev(r, st)
        lv = self.lval(l, st)
        a = self.load(st, lv, n)
        ct = n.get('computeResultType', n['type'])
        t = ct.get('desugaredQualType', ct['qualType'])
        nn = dict(n)
        nn['type'] = ct
        v = self.binop(op, a, b, nn, st)
        if ctype(l) in CINT and t in ('double', 'float'):
            v = v if T.is_int(v) else app('trunc', (v,), 'I')
        if ctype(l) == 'float':
            v = app('f32', (v,))
        self.store(st, lv, v, n)
        return v

    def e_ConditionalOperator(self, n, st):
        c, a, b = n['inner']
        cv = self.ev_bool(c, st)
        d = self.decide(st, cv)
        if _is_assert_fail(b):
            self.obl('assert', st, cv, n, 'assertion')
            return VOID
        if d is True:
            return self.ev(a, st)
        if d is False:
            return self.ev(b, st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(cv)
        s2.assume(bnot(cv))
        va, vb = self.ev(a, s1), self.ev(b, s2)
        m, val = self.merge_states(st.pc, [Outcome('next', s1, va), Outcome('next', s2, vb)], n)
        st.mem = m.mem
        return val

    def e_CXXDefaultArgExpr(self, n, st):
        if n.get('inner'):
            return self.ev(n['inner'][0], st)
        return Opaque('defaultarg')

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        return var('sizeof!%s' % n.get('argType', {}).get('qualType', '?'), 'I', 1)

    def e_CXXThrowExpr(self, n, st):
        inner = n.get('inner', [])
        v = None
        if inner:
            t = ctype(inner[0])
            v = Opaque(('exc', t))
        if self.throws is None:
            raise Unsupported('throw in an expression', n)
        s = st.copy()
        self.throws.append(Outcome('throw', s, ctype(inner[0]) if inner else 'rethrow'))
        st.pc = st.pc + (FALSE,)
        return VOID

    def e_InitListExpr(self, n, st):
        return ListV([self.ev(c, st) for c in n.get('inner', [])])

    def e_CXXStdInitializerListExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    def e_LambdaExpr(self, n, st):
        """A local function: captured variables are those of the frame it is written in; copies are taken now."""
        copies = []
        for c in n['inner'][1:]:
            if c['kind'] == 'CompoundStmt':
                break
            if c['kind'] in ('DeclRefExpr', 'CXXThisExpr'):
                continue
            e = c
            while e['kind'] in ('ImplicitCastExpr', 'CXXConstructExpr', 'ExprWithCleanups') and e.get('inner'):
                e = e['inner'][0]
            if e['kind'] != 'DeclRefExpr':
                raise Unsupported('capture of ' + e['kind'], n)
            lv = self.lval(e, st)
            v = self.load(st, self.deref(st, lv), n)
            if not isinstance(v, (Poly, Bool, Arr, Str)):
                raise Unsupported('copied capture', n)
            copies.append((self.lkey(e['referencedDecl']), v))
        nid = (self.frame.fn.path, n['id'])
        self.lambdas[nid] = n
        return Opaque(('lambda', nid, self.frame.fid, tuple(copies)))

    def lambda_call(self, lam, argn, n, st):
        _, nid, fid, copies = lam.tag
        ln = self.lambdas[nid]
        c = self.callee(n)
        want = (c.get('referencedDecl') or {}).get('id')
        ms = [m for m in walk_kind(ln['inner'][0], 'CXXMethodDecl') if m.get('name') == 'operator()' and
              any(b['kind'] == 'CompoundStmt' for b in m.get('inner', []))]
        m = next((x for x in ms if x['id'] == want), ms[0] if len(ms) == 1 else None)
        if m is None or self.depth > 40:
            raise Unsupported('call of a local function', n)
        fr = next((f for f in reversed(self.frames) if f.fid == fid), None)
        if fr is None:
            raise Unsupported('local function outlives its frame', n)
        params = [x for x in m['inner'] if x['kind'] == 'ParmVarDecl']
        body = [x for x in m['inner'] if x['kind'] == 'CompoundStmt'][0]
        args = []
        for p, a in zip(params, argn):
            t = p['type'].get('desugaredQualType', p['type']['qualType']).strip()
            if t.endswith('&'):
                args.append(Ref(self.deref(st, self.lval(a, st))))
            else:
                args.append(self.coerce(self.ev(a, st), t, a))
        if len(args) != len(params):
            raise Unsupported('default argument of a local function', n)
        s = st.copy()
        self.frames.append(fr)
        self.depth += 1
        try:
            kept = {}
            for key, v in copies:
                kept[key] = s.mem.get(key)
                s.mem[key] = v
            for p, v in zip(params, args):
                s.mem[self.lkey(p)] = v
            outs = self.exec(body, s)
            for o in outs:
                if o.kind == 'next':
                    o.kind = 'return'
                for key, v in copies:
                    if o.st.mem.get(key) is not v and o.st.mem.get(key) != v:
                        raise Unsupported('copied capture is modified', n)
                    if kept[key] is None:
                        o.st.mem.pop(key, None)
                    else:
                        o.st.mem[key] = kept[key]
        finally:
            self.frames.pop()
            self.depth -= 1
        return self.join_call(st, outs, n)

    # calls ------------------------------------------------------------
    def callee(self, n):
        c = n['inner'][0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        return c

    def e_CallExpr(self, n, st):
        c = self.callee(n)
        if c['kind'] != 'DeclRefExpr':
            raise Unsupported('call through ' + c['kind'], n)
        d = c['referencedDecl']
        name = d['name']
        f = self.find_func(None, name, d['type']['qualType'])
        if f is None and d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            f = self.helper(name, d['type']['qualType'])
        if f is not None:
            return self.user_call(f, None, n['inner'][1:], st, n)
        return self.lib.call(name, n['inner'][1:], n, st)

    def helper(self, name, typ):
        if self.lib.knows(name):
            return None
        try:
            self.tu.load_helper(self.frame.fn.path, name)
        except cxx.ExtractError:
            return None
        return self.find_func(None, name, typ)

    def find_func(self, cls, name, typ):
        fs = [f for f in self.tu.find(cls, name) if cls is None or f.cls == cls]
        ex = [f for f in fs if f.type == typ or norm_type(f.type) == norm_type(typ)]
        if len(ex) >= 1:
            same = [f for f in ex if f.path == self.frame.fn.path] if self.frames else []
            return (same or ex)[0]
        return None

    def user_call(self, f, this, argn, st, n):
        args = []
        for i, p in enumerate(f.params):
            if i >= len(argn) or argn[i]['kind'] == 'CXXDefaultArgExpr':
                if i < len(argn) and argn[i].get('inner'):
                    args.append(('val', self.ev(argn[i], st)))
                else:
                    break
                continue
            a = argn[i]
            t = p['type'].get('desugaredQualType', p['type']['qualType']).strip()
            if t.endswith('&'):
                args.append(('ref', self.deref(st, self.lval(a, st))))
            else:
                args.append(('val', self.coerce(self.ev(a, st), t, a)))
        # defaults
        while len(args) < len(f.params):
            args.append(self.default_arg(f, len(args), st))
        return self.call(f, st, this, args, n)

    def e_CXXMemberCallExpr(self, n, st):
        me = n['inner'][0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call', n)
        name = me['name']
        base = me['inner'][0]
        argn = n['inner'][1:]
        # class of the object
        bt = strip_t(ctype(base).rstrip('*').strip())
        cls = bt.split('::')[-1]
        if cls in self.tu.classes and any(k[0] == cls for k in self.tu.funcs):
            this = self.obj_key(base, st, me)
            cands = [f for f in self.tu.find(cls, name)]
            mt = self.member_type(me)
            if mt is not None:
                ex = [f for f in cands if norm_type(f.type) == norm_type(mt)]
                cands = ex or cands
            if len(cands) > 1:
                cands = [f for f in cands if len(f.params) >= len(argn)]
                cands = self.overload(cands, argn)
            if len(cands) == 1:
                return self.user_call(cands[0], this, argn, st, n)
            raise Unsupported('method %s::%s (%d candidates)' % (cls, name, len(cands)), n)
        return self.lib.method(name, base, argn, n, st, me)

    def member_type(self, me):
        d = self.tu.byid.get((self.frame.fn.path, me.get('referencedMemberDecl')))
        return d['type']['qualType'] if d else None

    def overload(self, cands, argn):
        return cands

    def obj_key(self, base, st, me):
        if me.get('isArrow'):
            v = self.ev(base, st)
            if isinstance(v, Ptr) and v.lv is not None:
                return v.lv.key
            raise Unsupported('object pointer', base)
        return self.deref(st, self.lval(base, st)).key

    def e_CXXOperatorCallExpr(self, n, st):
        c = self.callee(n)
        name = c['referencedDecl']['name']
        if name == 'operator()':
            v = None
            a0 = n['inner'][1]
            if '(lambda at' in (a0.get('type') or {}).get('qualType', ''):
                v = self.load(st, self.deref(st, self.lval(a0, st)), n) if strip_e(a0)['kind'] == 'DeclRefExpr' else self.ev(a0, st)
            if isinstance(v, Opaque) and isinstance(v.tag, tuple) and v.tag[0] == 'lambda':
                return self.lambda_call(v, n['inner'][2:], n, st)
        return self.lib.operator(name, n['inner'][1:], n, st)

    def e_CXXConstructExpr(self, n, st, dest=None):
        t = ctype(n)
        if '(lambda at' in t and len(n.get('inner', [])) == 1:
            a = n['inner'][0]                       # copy of a local function
            return self.load(st, self.deref(st, self.lval(a, st)), n) if strip_e(a)['kind'] == 'DeclRefExpr' else self.ev(strip_e(a), st)
        return self.lib.construct(t, n.get('inner', []), n, st, dest)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    # lvalues ----------------------------------------------------------
    def lval(self, n, st):
        k = n['kind']
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['kind'] in ('VarDecl', 'ParmVarDecl'):
                key = 'f%d:%s#%s' % (self.frame.fid, d.get('name'), d['id'][-6:])
                if key in st.mem:
                    return LV(key)
                if d['name'] in ('cout', 'cerr', 'clog'):
                    st.mem.setdefault('std::' + d['name'], Stream('ghost:' + ('stdout' if d['name'] == 'cout' else d['name'])))
                    return LV('std::' + d['name'])
                return self.global_lv(d, st, n)
            if d['kind'] == 'EnumConstantDecl':
                return self.temp(st, self.e_DeclRefExpr(n, st))
            if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                return Opaque(('fn', d['name']))
            raise Unsupported('reference to ' + d['kind'], n)
        if k == 'MemberExpr':
            base = n['inner'][0]
            this = self.obj_key(base, st, n)
            return LV(this + '.' + n['name'])
        if k in ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr'):
            if k == 'MaterializeTemporaryExpr':
                try_lv = None
                key = self.fresh_key('tmp')
                v = self.ev(n['inner'][0], st, dest=key)
                st.mem[key] = v
                return LV(key)
            return self.lval(n['inner'][0], st)
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr', 'CXXFunctionalCastExpr'):
            if n['castKind'] in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase'):
                return self.lval(n['inner'][0], st)
            return self.temp(st, self.ev(n, st))
        if k == 'CXXOperatorCallExpr':
            lv = self.lib.operator_lv(self.callee(n)['referencedDecl']['name'], n['inner'][1:], n, st)
            if lv is not None:
                return lv
            return self.temp(st, self.ev(n, st))
        if k == 'CXXMemberCallExpr':
            lv = self.lib.method_lv(n, st)
            if lv is not None:
                return lv
            return self.temp(st, self.ev(n, st))
        if k == 'ArraySubscriptExpr':
            b = self.ev(n['inner'][0], st)
            if isinstance(b, (Arr, ListV)) and strip_e(n['inner'][0])['kind'] in ('DeclRefExpr', 'MemberExpr'):
                b = Ptr(self.deref(st, self.lval(strip_e(n['inner'][0]), st)))
            i = self.ev(n['inner'][1], st)
            return self.lib.subscript(b, br(i) if isinstance(i, Bool) else i, n, st)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            v = self.ev(n['inner'][0], st)
            if isinstance(v, Ptr) and v.lv is not None:
                return v.lv
            raise Unsupported('dereference', n)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('='):
            self.ev(n, st)
            return self.lval(n['inner'][0], st)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            self.ev(n, st)
            return self.lval(n['inner'][0], st)
        if k == 'ConditionalOperator':
            c = self.decide(st, self.ev_bool(n['inner'][0], st))
            if c is not None:
                return self.lval(n['inner'][1 if c else 2], st)
        return self.temp(st, self.ev(n, st))

    def temp(self, st, v):
        key = self.fresh_key('tmp')
        st.mem[key] = v
        return LV(key)

    def global_lv(self, d, st, n):
        key = 'G:' + d['name']
        if key in st.mem:
            return LV(key)
        g = self.tu.globals.get(d['name'])
        if g is None:
            try:
                self.tu.load_helper(self.frame.fn.path, d['name'])
            except cxx.ExtractError:
                pass
            g = self.tu.globals.get(d['name'])
        if g is None:
            raise Unsupported('variable ' + d['name'], n)
        t = g['type'].get('desugaredQualType', g['type']['qualType'])
        inner = [c for c in g.get('inner', []) if not c['kind'].endswith('Comment')]
        if g['name'] == 'version':
            # chosen by the build: any text (of a length that fits an int)
            import libmodels
            st.mem[key] = Str(('sym', 'version'))
            st.assume(le(libmodels.strlen(st.mem[key]), 1 << 16))
            return LV(key)
        if g['name'] in ('defaultInit',):
            st.mem[key] = Arr([0], ZERO, 'R')
            return LV(key)
        if t.rstrip().endswith('&'):
            self.frames.append(self.frame)
            lv = self.lval(inner[0], st)
            self.frames.pop()
            st.mem[key] = Ref(lv)
            return LV(key)
        if 'const' not in g['type']['qualType']:
            raise Unsupported('mutable global ' + d['name'], n)
        st.mem[key] = self.coerce(self.ev(inner[0], st), t)
        return LV(key)


def _guard(b, kn):
    """A leaf condition of b that does not mention the iteration counter."""
    if b.op in ('and', 'or', 'not'):
        for x in b.args:
            g = _guard(x, kn)
            if g is not None:
                return g
        return None
    return b if b.op not in ('true', 'false') and kn not in b.syms else None


def _assign(b, g, val):
    if b is g:
        return val
    if b.op == 'not':
        return bnot_(_assign(b.args[0], g, val))
    if b.op == 'and':
        return band(*[_assign(x, g, val) for x in b.args])
    if b.op == 'or':
        return bor(*[_assign(x, g, val) for x in b.args])
    return b


def scale_(p, c):
    return T.scale(p, c)


def _uns(s, n):
    raise Unsupported(s, n)


def inrange(dims):
    out = ()
    for i, d in enumerate(dims):
        out += (le(0, IDX[i]), lt(IDX[i], d))
    return out


def bnot_(b):
    return T.bnot_nnf(b)


def short(key):
    k = key.split('#')[0]
    return k.split(':', 1)[1] if ':' in k else k


def tobool(v, n=None):
    if isinstance(v, Bool):
        return v
    if isinstance(v, Poly):
        return ne(v, 0)
    if isinstance(v, Ptr):
        return FALSE if v.null else TRUE
    raise Unsupported('condition of kind %s' % type(v).__name__, n)


def _hasbr(p):
    brs = []
    S._collect(p, brs, sums := [])
    if brs:
        return True
    for s in sums:
        if _hasbr(s.args[2]):
            return True
    return False


def _has_tdiv(p):
    return 'tdiv' in p.syms


def norm_type(t):
    t = t.replace('booz_xform::', '').replace('std::', '').replace(' const', '')
    for a, b in (('basic_string<char>', 'string'), ('boozfloat', 'double'), ('dim_id_type', 'int'),
                 ('Eigen::ArrayXd', 'Vector'), ('Eigen::ArrayXi', 'IntVector'), ('Eigen::ArrayXXd', 'Matrix'), (' ', '')):
        t = t.replace(a, b)
    return t


def float_lit(s):
    f = float(s)
    if f == math.pi:
        return T.PI
    for m in (2, 4, Fraction(1, 2)):
        if f == float(m * Fraction(math.pi)) and f == float(m) * math.pi:
            return T.PI * m
    return num(dec_frac(s, f))


def dec_frac(s, f):
    """The decimal literal as written (0.1 means 1/10: machine arithmetic is mathematical)."""
    try:
        fr = Fraction(s)
        if float(fr) == f:
            return fr
    except (ValueError, ZeroDivisionError):
        pass
    # clang prints with %g: take the shortest decimal of the double
    return Fraction(repr(f))


def float_exact(c):
    import struct
    f = float(c)
    return Fraction(struct.unpack('f', struct.pack('f', f))[0]) == Fraction(c)


def unquote(v):
    if v.startswith('"') and v.endswith('"'):
        v = v[1:-1]
    return v.encode('latin1', 'backslashreplace').decode('unicode_escape')


def _is_assert_fail(n):
    k = n.get('kind')
    if k == 'CallExpr':
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        return c.get('referencedDecl', {}).get('name') in ('__assert_fail', '__assert')
    return any(_is_assert_fail(c) for c in n.get('inner', []) if isinstance(c, dict)) if k in (
        'ParenExpr', 'ExprWithCleanups') else False


def catches(ct, exc):
    ct = strip_t(ct)
    if ct == '...' or ct == exc:
        return True
    if exc is None:
        return False
    e = exc.split('::')[-1]
    c = ct.split('::')[-1]
    hier = {'runtime_error': ['runtime_error', 'exception'], 'logic_error': ['logic_error', 'exception'],
            'invalid_argument': ['invalid_argument', 'logic_error', 'exception'],
            'out_of_range': ['out_of_range', 'logic_error', 'exception']}
    return c == e or c in hier.get(e, [e])
