"""Symbolic execution of Python functions, from the source text (module `ast`), to logical summaries.

Paths are enumerated by re-execution under a list of decisions.  A loop over a sequence of symbolic length is closed by an
invariant found from one arbitrary iteration: numeric variables that every iteration only adds to become sums, lists and the
event log get one quantified segment (`Seg`), other variables assigned in the body have no value afterwards.  Anything not
modelled raises Unsupported (the unit is then undecided, never refuted)."""
import ast
import copy
import itertools
import term as T
import solve as S
from term import (Poly, Bool, TRUE, FALSE, ZERO, ONE, P, band, bnot, bor, br, le, lt, ge, gt, eq, ne, subst, ite, var, num, app)
from sym import Arr, IDX, IATOM, Unsupported

for _c in (Poly, Bool, T.Atom):
    _c.__deepcopy__ = lambda self, memo: self
Arr.__deepcopy__ = lambda self, memo: self


class PyRaise(Exception):
    def __init__(self, cls, msg=''):
        self.cls, self.msg = cls, msg


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class SStr:
    """String: literal parts and ('kind', value...) parts."""
    def __init__(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                for q in p.parts:
                    SStr._push(out, q)
            else:
                SStr._push(out, p)
        self.parts = tuple(out)

    @staticmethod
    def _push(out, p):
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '':
            out.append(p)

    def __repr__(self):
        return 'SStr' + repr(self.parts)


class BArr:
    """Array of truth values."""
    def __init__(self, dims, body):
        self.dims, self.body = tuple(dims), body

    def __deepcopy__(self, memo):
        return self


class Seg:
    """Entries produced by the iterations i = 0 .. n-1 of a loop: per iteration the entries of the first branch whose guard
    holds; the loop ends early at the first i where a `stop` guard holds (its entries included)."""
    def __init__(self, n, i, branches, stops=()):
        self.n, self.i, self.branches, self.stops = n, i, branches, list(stops)

    def __repr__(self):
        return 'Seg(%s<%s: %s stop %s)' % (self.i, self.n, self.branches, self.stops)


class PList:
    """Python list / event log: entries and segments."""
    def __init__(self, items=()):
        self.items = list(items)

    def plain(self):
        return not any(isinstance(x, Seg) for x in self.items)

    def __repr__(self):
        return 'PList%r' % (self.items,)


class Seq:
    """Read-only sequence of symbolic length: item(i)."""
    def __init__(self, n, item):
        self.n, self.item = n, item

    def __deepcopy__(self, memo):
        return self


class Opaque:
    def __init__(self, what, *args):
        self.what, self.args = what, args

    def __repr__(self):
        return 'Opaque(%s%r)' % (self.what, self.args)

    def __deepcopy__(self, memo):
        return self


class Poison:
    def __init__(self, name):
        self.name = name


class PObj:
    """Object with attributes; methods are looked up in cls.methods."""
    def __init__(self, cls, **attrs):
        self.cls, self.attrs = cls, attrs


class Func:
    def __init__(self, node, env, mod):
        self.node, self.env, self.mod = node, env, mod

    def __deepcopy__(self, memo):
        if self.env.module:
            return self
        r = Func(self.node, copy.deepcopy(self.env, memo), self.mod)
        if hasattr(self, 'defaults'):
            r.defaults = self.defaults
        return r


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __deepcopy__(self, memo):
        return self


class Module:
    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs

    def __deepcopy__(self, memo):
        return self


class Exc:
    """Exception class."""
    def __init__(self, py):
        self.py = py

    def __deepcopy__(self, memo):
        return self


def is_num(v):
    return isinstance(v, (int, float, Poly)) and not isinstance(v, bool)


def is_sym(v):
    return isinstance(v, (Poly, Bool))


def as_poly(v):
    if isinstance(v, Poly):
        return v
    if isinstance(v, bool):
        return ONE if v else ZERO
    if isinstance(v, int):
        return num(v)
    if isinstance(v, float):
        from fractions import Fraction
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non finite number')
        return num(Fraction(repr(v)))
    if isinstance(v, Bool):
        return br(v)
    raise Unsupported('not a number: %r' % (v,))


def as_arr(v):
    return v


def vabs(a):
    a = P(a)
    if a.is_const():
        return num(abs(a.const()))
    return T.lift_call(lambda x: T.fn('fabs', (x if _pos_lead(x) else -x,), 'R'), (a,))


def _pos_lead(x):
    l = T.lead(x)
    return l is None or x.d[l] > 0


class Path:
    """Decisions of one execution."""
    def __init__(self, pc):
        self.pc = list(pc)


class Interp:
    def __init__(self, base_pc=()):
        self.base = list(base_pc)
        self.pc = list(base_pc)
        self.stack = []          # explorers
        self.log = PList()
        self.obls = []           # (pc, goal, description)
        self.steps = 0
        self.inlined = set()
        self.depth = 0
        self.frozen = {}         # arrays another value may share storage with

    # ------------------------------------------------------------ decisions
    def decide(self, b):
        if isinstance(b, bool):
            return b
        if b is TRUE or b is FALSE:
            return b is TRUE
        r = S.Prem(tuple(self.pc)).decide(b)
        if r is not None:
            return r
        ex = self.stack[-1]
        if ex['pos'] < len(ex['dec']):
            v = ex['dec'][ex['pos']]
        else:
            v = True
            ex['todo'].append(ex['dec'] + [False])
            ex['dec'].append(True)
        ex['pos'] += 1
        self.pc.append(b if v else bnot(b))
        return v

    def explore(self, run, limit=3000):
        """All paths of run(): list of (pc added, result)."""
        todo = [[]]
        out = []
        base = list(self.pc)
        while todo:
            if len(out) > limit:
                raise Unsupported('too many paths')
            ex = {'dec': todo.pop(), 'pos': 0, 'todo': todo}
            self.stack.append(ex)
            self.pc = list(base)
            try:
                r = run()
                out.append((self.pc[len(base):], r))
            finally:
                self.stack.pop()
                self.pc = list(base)
        return out

    def tick(self):
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported('too many steps')

    def check(self, goal, desc):
        self.obls.append((tuple(self.pc), goal, desc))

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, Poison):
            raise Unsupported('value of %s after the loop' % v.name)
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, Bool):
            return self.decide(v)
        if isinstance(v, Poly):
            return self.decide(ne(v, 0))
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, PList):
            return self.decide(self.nonempty(v))
        if isinstance(v, Seq):
            return self.decide(lt(0, v.n))
        if isinstance(v, dict):
            return bool(v)
        if isinstance(v, SStr):
            if not v.parts:
                return False
            if any(isinstance(p, str) for p in v.parts):
                return True
        raise Unsupported('truth value of %r' % (v,))

    def nonempty(self, l):
        """Condition for a list to have an entry."""
        if any(not isinstance(x, Seg) for x in l.items):
            return TRUE
        out = []
        for s in l.items:
            # when the first iteration produces entries whenever it runs to the end, or none at all
            yes = [c for c, it in s.branches if it] + [c for c, it in s.stops if it]
            no = [c for c, it in s.branches if not it]
            if no:
                raise Unsupported('emptiness of a filtered list')
            at0 = lambda b: subst(b, {T.atom_of(s.i): ZERO})
            out.append(band(lt(0, s.n), bor(*[at0(c) for c in yes])))
        return bor(*out)

    def compare(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unsupported('value of %s after the loop' % x.name)
        if isinstance(op, ast.Is) or isinstance(op, ast.IsNot):
            if a is None or b is None:
                r = a is None and b is None
                if isinstance(a, Opaque) or isinstance(b, Opaque):
                    raise Unsupported('identity')
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a is b
            else:
                raise Unsupported('identity of %r and %r' % (a, b))
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (tuple, dict)) and all(isinstance(x, (int, float, str, type(None))) for x in b) and isinstance(a, (int, float, str, type(None))):
                return (a in b) == isinstance(op, ast.In)
            if isinstance(b, str) and isinstance(a, str):
                return (a in b) == isinstance(op, ast.In)
            raise Unsupported('membership')
        if isinstance(a, (Arr, BArr)) or isinstance(b, (Arr, BArr)):
            return self.broadcast(lambda x, y: self.num_cmp(op, x, y), a, b, boolean=True)
        if is_num(a) and is_num(b) or isinstance(a, (bool, Bool)) or isinstance(b, (bool, Bool)):
            if not is_sym(a) and not is_sym(b):
                return self.conc_cmp(op, a, b)
            if isinstance(a, (bool, Bool)) or isinstance(b, (bool, Bool)):
                if not all(isinstance(x, (bool, Bool, int, float, Poly)) for x in (a, b)):
                    return isinstance(op, ast.NotEq)
            return self.num_cmp(op, as_poly(a), as_poly(b))
        if isinstance(a, str) and isinstance(b, str):
            return self.conc_cmp(op, a, b)
        if a is None or b is None:
            if isinstance(op, (ast.Eq, ast.NotEq)):
                return (a is b) == isinstance(op, ast.Eq)
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, (ast.Eq, ast.NotEq)):
            if len(a) != len(b):
                return isinstance(op, ast.NotEq)
            rs = [self.compare(ast.Eq(), x, y) for x, y in zip(a, b)]
            r = band(*[x if isinstance(x, Bool) else (TRUE if x else FALSE) for x in rs])
            return r if isinstance(op, ast.Eq) else bnot(r)
        raise Unsupported('comparison of %r and %r' % (a, b))

    @staticmethod
    def conc_cmp(op, a, b):
        return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()

    @staticmethod
    def num_cmp(op, a, b):
        f = {ast.Eq: eq, ast.NotEq: ne, ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge}.get(type(op))
        if f is None:
            raise Unsupported('comparison')
        return f(P(a), P(b))

    # ------------------------------------------------------------ arrays
    def same(self, a, b):
        """Two sizes agree?"""
        if a is b:
            return True
        return self.decide(eq(a, b))

    def broadcast(self, f, a, b, boolean=False):
        da = a.dims if isinstance(a, (Arr, BArr)) else ()
        db = b.dims if isinstance(b, (Arr, BArr)) else ()
        nd = max(len(da), len(db))
        dims = []
        ia, ib = [], []
        for k in range(nd):
            ka, kb = k - (nd - len(da)), k - (nd - len(db))
            x = da[ka] if ka >= 0 else None
            y = db[kb] if kb >= 0 else None
            if x is None or y is None:
                dims.append(x if y is None else y)
                if x is not None:
                    ia.append(IDX[k])
                if y is not None:
                    ib.append(IDX[k])
            elif x is ONE and y is not ONE:
                dims.append(y)
                ia.append(ZERO)
                ib.append(IDX[k])
            elif y is ONE and x is not ONE:
                dims.append(x)
                ia.append(IDX[k])
                ib.append(ZERO)
            else:
                if not self.same(x, y):
                    raise PyRaise(ValueError, 'shapes')
                dims.append(x)
                ia.append(IDX[k])
                ib.append(IDX[k])

        def elt(v, idx):
            if isinstance(v, (Arr, BArr)):
                return subst_idx(v.body, idx)
            return as_poly(v)
        x, y = elt(a, ia), elt(b, ib)
        if isinstance(x, Bool) and not boolean:
            x = br(x)
        if isinstance(y, Bool) and not boolean:
            y = br(y)
        r = f(x, y)
        if isinstance(r, bool):
            r = TRUE if r else FALSE
        if isinstance(r, Bool):
            return BArr(dims, r)
        return Arr(dims, r, 'R')

    def binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unsupported('value of %s after the loop' % x.name)
        if isinstance(op, ast.Add):
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return a + b if isinstance(a, str) and isinstance(b, str) else SStr(a, b)
            if isinstance(a, PList) and isinstance(b, PList):
                return PList(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            f = lambda x, y: x + y
        elif isinstance(op, ast.Sub):
            f = lambda x, y: x - y
        elif isinstance(op, ast.Mult):
            f = lambda x, y: x * y
        elif isinstance(op, ast.Div):
            f = lambda x, y: x * T.inv(y)
        elif isinstance(op, ast.Pow):
            if isinstance(b, int) and 0 <= b <= 8 or isinstance(b, float) and b in (2.0, 3.0):
                f = lambda x, y: T.power(x, int(b))
            elif b == 0.5:
                f = lambda x, y: T.lift_call(T.sqrt, (x,))
            else:
                raise Unsupported('power')
        elif isinstance(op, ast.Mod):
            if isinstance(a, str):
                raise Unsupported('% formatting')
            f = pmod
        elif isinstance(op, ast.FloorDiv):
            f = lambda x, y: T.fdiv(x, y)
        elif isinstance(op, (ast.BitAnd, ast.BitOr)) and any(isinstance(x, (BArr, bool, Bool)) for x in (a, b)):
            g = band if isinstance(op, ast.BitAnd) else bor
            if isinstance(a, BArr) or isinstance(b, BArr):
                return self.broadcast(lambda x, y: g(to_bool(x), to_bool(y)), a, b, boolean=True)
            return g(to_bool(a), to_bool(b))
        else:
            raise Unsupported('operator %s' % type(op).__name__)
        if isinstance(a, (Arr, BArr)) or isinstance(b, (Arr, BArr)):
            return self.broadcast(f, a, b)
        if all(isinstance(x, (int, float)) for x in (a, b)) and not isinstance(op, (ast.Div, ast.Pow)):
            if isinstance(op, (ast.Mod, ast.FloorDiv)) and b == 0:
                raise PyRaise(ZeroDivisionError)
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Mod: lambda: a % b, ast.FloorDiv: lambda: a // b}[type(op)]()
        if isinstance(a, (int, float, Poly, Bool)) and isinstance(b, (int, float, Poly, Bool)):
            return f(as_poly(a), as_poly(b))
        raise Unsupported('operands %r, %r' % (type(a).__name__, type(b).__name__))

    def unary(self, op, v):
        if isinstance(op, ast.Not):
            if isinstance(v, Bool):
                return bnot(v)
            return not self.truth(v)
        if isinstance(op, ast.USub):
            if isinstance(v, Arr):
                return Arr(v.dims, -v.body, v.sort)
            return -as_poly(v) if is_sym(v) else -v
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert) and isinstance(v, BArr):
            return BArr(v.dims, bnot(v.body))
        raise Unsupported('operator %s' % type(op).__name__)

    # ------------------------------------------------------------ indexing
    def index_value(self, i, n, what):
        """Element index (negative ones count from the end), with its range condition."""
        if isinstance(i, Poison):
            raise Unsupported('value of %s after the loop' % i.name)
        if isinstance(i, bool) or not isinstance(i, (int, Poly)):
            raise Unsupported('index %r' % (i,))
        if isinstance(i, int):
            j = num(i) if i >= 0 else n + i
            ok = band(le(0, j), lt(j, n))
        else:
            j = i
            if not T.is_int(i):
                raise Unsupported('index is not an integer')
            ok = band(le(0, j), lt(j, n))
            r = S.Prem(tuple(self.pc)).decide(lt(j, 0))
            if r is not False:
                if self.decide(lt(j, 0)):
                    j = n + i
                    ok = band(le(0, j), lt(j, n))
        if not self.decide(ok):
            raise PyRaise(IndexError, what)
        return j

    def slice_bounds(self, sl, n):
        if sl.step is not None and sl.step != 1:
            raise Unsupported('slice step')
        lo, hi = sl.lower, sl.upper

        def pos(x, dflt):
            if x is None:
                return dflt
            if isinstance(x, (int, Poly)) and not isinstance(x, bool):
                x = as_poly(x)
                if self.decide(lt(x, 0)):
                    x = n + x
                    if self.decide(lt(x, 0)):
                        x = ZERO
                if self.decide(lt(n, x)):
                    x = n
                return x
            raise Unsupported('slice bound')
        a, b = pos(lo, ZERO), pos(hi, n)
        if self.decide(lt(b, a)):
            b = a
        return a, b

    def subscript(self, v, i):
        if isinstance(v, Poison):
            raise Unsupported('value of %s after the loop' % v.name)
        if isinstance(v, (tuple, str)):
            if isinstance(i, int):
                try:
                    return v[i]
                except IndexError:
                    raise PyRaise(IndexError)
            if isinstance(i, Slice) and all(isinstance(x, (int, type(None))) for x in (i.lower, i.upper, i.step)):
                return v[i.lower:i.upper:i.step]
        if isinstance(v, dict):
            if i in v:
                return v[i]
            raise PyRaise(KeyError)
        if isinstance(v, PList) and v.plain():
            if isinstance(i, int):
                try:
                    return v.items[i]
                except IndexError:
                    raise PyRaise(IndexError)
            if isinstance(i, Slice) and all(isinstance(x, (int, type(None))) for x in (i.lower, i.upper, i.step)):
                return PList(v.items[i.lower:i.upper:i.step])
        if isinstance(v, Seq):
            if isinstance(i, Slice):
                a, b = self.slice_bounds(i, v.n)
                it = v.item
                return Seq(b - a, lambda k: it(k + a))
            return v.item(self.index_value(i, v.n, 'sequence index'))
        if isinstance(v, (Arr, BArr)):
            ii = i if isinstance(i, tuple) else (i,)
            if any(isinstance(x, (Arr, BArr)) for x in ii):
                return self.fancy(v, ii)
            if any(x is Ellipsis for x in ii):
                k = ii.index(Ellipsis)
                ii = ii[:k] + (Slice(None, None, None),) * (len(v.dims) - (len(ii) - 1 - sum(x is None for x in ii))) + ii[k + 1:]
            dims, idx = [], []
            k = 0
            for x in ii:
                if x is None:
                    dims.append(ONE)
                    continue
                if k >= len(v.dims):
                    raise PyRaise(IndexError, 'too many indices')
                if isinstance(x, Slice):
                    a, b = self.slice_bounds(x, v.dims[k])
                    idx.append(IDX_(len(dims)) + a)
                    dims.append(b - a)
                else:
                    idx.append(self.index_value(x, v.dims[k], 'array index'))
                k += 1
            while k < len(v.dims):
                idx.append(IDX_(len(dims)))
                dims.append(v.dims[k])
                k += 1
            body = subst_idx(v.body, idx)
            if not dims:
                return body
            self.freeze(v)
            return self.freeze(Arr(dims, body, v.sort) if isinstance(v, Arr) else BArr(dims, body))
        raise Unsupported('subscript of %r' % type(v).__name__)

    def fancy(self, v, ii):
        if len(ii) == 1 and isinstance(ii[0], Arr) and len(ii[0].dims) == 1:
            sel = ii[0]
            idx = [sel.body] + [IDX_(k) for k in range(1, len(v.dims))]
            k = T.fresh('fi')
            pr = list(self.pc) + [le(0, IDX[0]), lt(IDX[0], sel.dims[0])]
            ok = band(le(0, sel.body), lt(sel.body, v.dims[0]))
            if S.Prem(tuple(pr)).decide(ok) is not True:
                raise Unsupported('range of an index array')
            return Arr((sel.dims[0],) + v.dims[1:], subst_idx(v.body, idx), v.sort)
        raise Unsupported('index array')

    def store_sub(self, v, i, x):
        """New value of container v after v[i] = x (None: changed in place)."""
        if isinstance(v, PList) and v.plain() and isinstance(i, int):
            v.items[i] = x
            return None
        if isinstance(v, dict):
            v[i] = x
            return None
        if isinstance(v, Arr):
            ii = i if isinstance(i, tuple) else (i,)
            if len(ii) == 1 and isinstance(ii[0], BArr):
                m = ii[0]
                if not is_num(x):
                    raise Unsupported('masked assignment of an array')
                if len(m.dims) > len(v.dims):
                    raise PyRaise(IndexError)
                for a, b in zip(m.dims, v.dims):
                    if not self.same(a, b):
                        raise PyRaise(IndexError, 'mask size')
                return Arr(v.dims, ite(m.body, as_poly(x), v.body), v.sort)
            conds, val_idx = [], []
            for k, y in enumerate(ii):
                if isinstance(y, Slice):
                    a, b = self.slice_bounds(y, v.dims[k])
                    conds.append(band(le(a, IDX_(k)), lt(IDX_(k), b)))
                    val_idx.append(IDX_(k) - a)
                elif isinstance(y, (int, Poly)):
                    conds.append(eq(IDX_(k), self.index_value(y, v.dims[k], 'array index')))
                else:
                    raise Unsupported('assignment index')
            for k in range(len(ii), len(v.dims)):
                val_idx.append(IDX_(k))
            if isinstance(x, Arr):
                if len(x.dims) != len(val_idx):
                    raise Unsupported('assignment shape')
                w = subst_idx(x.body, val_idx)
            else:
                w = as_poly(x)
            return Arr(v.dims, ite(band(*conds), w, v.body), v.sort)
        raise Unsupported('item assignment to %r' % type(v).__name__)

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        self.tick()
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s (line %s)' % (type(n).__name__, getattr(n, 'lineno', '?')))
        return m(n, env)

    def ev_Constant(self, n, env):
        return n.value

    def ev_Name(self, n, env):
        v = self.lookup(n.id, env)
        if isinstance(v, Poison):
            raise Unsupported('value of %s after the loop' % v.name)
        return v

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.up
        if name in BUILTINS:
            return BUILTINS[name]
        raise PyRaise(NameError, name)

    def ev_Tuple(self, n, env, share=True):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                out += list(v if isinstance(v, tuple) else v.items if isinstance(v, PList) and v.plain() else self.bad('star'))
            else:
                out.append(self.ev(x, env))
        return tuple(self.freeze(out) if share else out)

    def bad(self, what):
        raise Unsupported(what)

    def ev_List(self, n, env):
        return PList(self.ev_Tuple(n, env))

    def ev_Dict(self, n, env):
        if any(k is None for k in n.keys):
            raise Unsupported('dict merge')
        return self.freeze({self.ev(k, env): self.ev(v, env) for k, v in zip(n.keys, n.values)})

    def ev_BinOp(self, n, env):
        return self.binop(n.op, self.ev(n.left, env), self.ev(n.right, env))

    def ev_UnaryOp(self, n, env):
        return self.unary(n.op, self.ev(n.operand, env))

    def ev_BoolOp(self, n, env):
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t:
                return False if is_sym(v) else v
            if isinstance(n.op, ast.Or) and t:
                return True if isinstance(v, Bool) else v
        return v

    def ev_Compare(self, n, env):
        left = self.ev(n.left, env)
        for k, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(c, env)
            r = self.compare(op, left, right)
            if k == len(n.ops) - 1:
                return r
            if not self.truth(r):
                return False
            left = right

    def ev_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def ev_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def getattr(self, v, a):
        if isinstance(v, Module):
            if a in v.attrs:
                return v.attrs[a]
            raise Unsupported('%s.%s' % (v.name, a))
        if isinstance(v, PObj):
            if a in v.attrs:
                return v.attrs[a]
            m = getattr(v.cls, 'm_' + a, None)
            if m is not None:
                return Builtin(a, lambda I, args, kw: m(I, v, *args, **kw))
            g = getattr(v.cls, 'get', None)
            if g is not None:
                return g(self, v, a)
            raise Unsupported('attribute %s' % a)
        if isinstance(v, (Arr, BArr)):
            if a == 'T' and len(v.dims) == 2:
                self.freeze(v)
                return self.freeze(type(v)(v.dims[::-1], subst_idx(v.body, [IDX[1], IDX[0]]), *([v.sort] if isinstance(v, Arr) else [])))
            if a == 'T' and len(v.dims) == 1:
                return v
            if a == 'shape':
                return tuple(v.dims)
            if a == 'size':
                return T.prod(list(v.dims))
            if a == 'ndim':
                return len(v.dims)
            if a == 'copy':
                return Builtin('copy', lambda I, args, kw: type(v)(v.dims, v.body, *([v.sort] if isinstance(v, Arr) else [])))
            if a in ('max', 'min', 'sum', 'dot'):
                return Builtin(a, lambda I, args, kw: NP[a].fn(I, [v] + list(args), kw))
            raise Unsupported('array.%s' % a)
        if isinstance(v, (str, SStr)):
            m = STR_METHODS.get(a)
            if m is None:
                raise Unsupported('str.%s' % a)
            return Builtin(a, lambda I, args, kw: m(I, v, *args, **kw))
        if isinstance(v, PList):
            m = LIST_METHODS.get(a)
            if m is None:
                raise Unsupported('list.%s' % a)
            return Builtin(a, lambda I, args, kw: m(I, v, *args, **kw))
        if isinstance(v, Opaque):
            return Builtin(a, lambda I, args, kw: I.opaque_call(v, a, args, kw))
        if isinstance(v, dict) and a in ('get', 'items', 'keys', 'values', 'copy', 'update', 'pop', 'setdefault'):
            def call(I, args, kw):
                if a == 'update':
                    v.update(*[x for x in args], **kw)
                    return None
                if a == 'copy':
                    return dict(v)
                if a in ('items', 'keys', 'values'):
                    return PList(list(getattr(v, a)()))
                return getattr(v, a)(*args)
            return Builtin(a, call)
        raise Unsupported('attribute %s of %s' % (a, type(v).__name__))

    def opaque_call(self, v, a, args, kw):
        """Method of an object of a modelled library of which only the calls matter."""
        if v.what == 'go':
            self.freeze([args, kw])
            return Opaque('go.' + a, tuple(args), dict(kw))
        self.event((v.what + '.' + a, tuple(args), dict(kw)))
        return Opaque('%s.%s()' % (v.what, a))

    def event(self, e):
        self.freeze(e)
        self.log.items.append(e)

    def ev_Subscript(self, n, env):
        return self.subscript(self.ev(n.value, env), self.ev_index(n.slice, env))

    def ev_index(self, n, env):
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_index(x, env) for x in n.elts)
        if isinstance(n, ast.Slice):
            return Slice(*[None if x is None else self.ev(x, env) for x in (n.lower, n.upper, n.step)])
        return self.ev(n, env)

    def ev_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = '' if v.format_spec is None else self.ev(v.format_spec, env)
                if not isinstance(spec, str):
                    spec = SStr(spec).parts[0] if len(SStr(spec).parts) == 1 else self.bad('format')
                if v.conversion not in (-1, None):
                    spec = '!' + chr(v.conversion) + spec
                parts.append(fmt(x, spec))
        r = SStr(*parts)
        return r.parts[0] if len(r.parts) == 1 and isinstance(r.parts[0], str) else (r if r.parts else '')

    def ev_Lambda(self, n, env):
        return Func(n, env, None)

    def comp(self, n, env, make):
        if len(n.generators) != 1:
            raise Unsupported('nested comprehension')
        g = n.generators[0]
        it = self.iterate(self.ev(g.iter, env))
        e = Env({}, env)
        if isinstance(it, tuple):
            out = []
            for x in it:
                self.assign(g.target, x, e)
                if all(self.truth(self.ev(c, e)) for c in g.ifs):
                    out.append(make(e))
            return PList(out)
        n_, item = it
        i = T.fresh('ci')
        res = []

        def run():
            self.pc += [le(0, i), lt(i, n_)]
            e2 = Env({}, env)
            self.assign(g.target, item(i), e2)
            for c in g.ifs:
                if not self.truth(self.ev(c, e2)):
                    return None
            return [make(e2)]
        mark = len(self.log.items)
        for pc, r in self.explore(run):
            res.append((band(*pc[2:]), r or []))
        if len(self.log.items) != mark:
            raise Unsupported('effects in a comprehension')
        return PList([Seg(n_, i, res)])

    def ev_ListComp(self, n, env):
        return self.comp(n, env, lambda e: self.ev(n.elt, e))

    def ev_GeneratorExp(self, n, env):
        return self.comp(n, env, lambda e: self.ev(n.elt, e))

    def ev_Call(self, n, env):
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, tuple):
                    args += list(v)
                elif isinstance(v, PList) and v.plain():
                    args += v.items
                else:
                    args.append(('*', v))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, dict):
                    kw.update(v)
                elif isinstance(v, Opaque):
                    kw['**'] = v
                else:
                    raise Unsupported('keyword expansion')
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Builtin):
            return f.fn(self, args, kw)
        if isinstance(f, Exc):
            return PObj(f, args=tuple(args))
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, type) and hasattr(f, 'new'):
            return f.new(self, *args, **kw)
        raise Unsupported('call of %r' % (f,))

    def call_func(self, f, args, kw):
        if self.depth > 12:
            raise Unsupported('recursion')
        self.freeze(args)
        self.freeze(kw)
        a = f.node.args
        if a.posonlyargs or (a.kwonlyargs and any(d is None for d in a.kw_defaults)):
            raise Unsupported('signature')
        names = [x.arg for x in a.args]
        vs = {}
        defs = getattr(f, 'defaults', None)
        if defs is None:
            defs = [self.ev(d, f.env) for d in a.defaults]
        for nm, v in zip(names[len(names) - len(defs):], defs):
            vs[nm] = v
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            vs[k.arg] = self.ev(d, f.env)
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise(TypeError, 'arguments')
            vs[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            vs[a.vararg.arg] = ()
        for nm, v in zip(names, args):
            vs[nm] = v
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                vs[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise(TypeError, 'unexpected keyword %s' % k)
        if a.kwarg is not None:
            vs[a.kwarg.arg] = extra['**'] if list(extra) == ['**'] else extra
        for nm in names:
            if nm not in vs:
                raise PyRaise(TypeError, 'missing argument ' + nm)
        e = Env(vs, f.env)
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, e)
        self.inlined.add(f.node.name)
        self.depth += 1
        try:
            self.block(f.node.body, e)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, n, env):
        self.tick()
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s (line %s)' % (type(n).__name__, getattr(n, 'lineno', '?')))
        m(n, env)

    def st_Expr(self, n, env):
        if not isinstance(n.value, ast.Constant):
            self.ev(n.value, env)

    def st_Pass(self, n, env):
        pass

    def st_Assign(self, n, env):
        if isinstance(n.value, ast.Tuple) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple):
            v = self.ev_Tuple(n.value, env, share=False)
        else:
            v = self.ev(n.value, env)
        for t in n.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, n, env):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, env), env)

    def st_AugAssign(self, n, env):
        t = n.target
        v = self.ev(n.value, env)
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            if isinstance(old, PList):
                if isinstance(n.op, ast.Add) and isinstance(v, (PList, tuple)):
                    old.items += list(v.items if isinstance(v, PList) else v)
                    return
                raise Unsupported('augmented list')
            new = self.binop(n.op, old, v)
            if isinstance(old, Arr):
                # in place: every name bound to this array sees it
                if isinstance(new, Arr) and len(new.dims) != len(old.dims):
                    raise PyRaise(ValueError, 'in place shape')
                self.alias(old, t.id, env)
            env.vars[t.id] = new
            return
        if isinstance(t, ast.Subscript):
            obj = self.ev(t.value, env)
            i = self.ev_index(t.slice, env)
            x = self.binop(n.op, self.subscript(obj, i), v)
            self.put(t, obj, i, x, env)
            return
        if isinstance(t, ast.Attribute):
            obj = self.ev(t.value, env)
            self.setattr(obj, t.attr, self.binop(n.op, self.getattr(obj, t.attr), v))
            return
        raise Unsupported('augmented assignment')

    def freeze(self, v):
        if isinstance(v, (Arr, BArr)):
            self.frozen[id(v)] = v
        elif isinstance(v, (tuple, list)):
            for x in v:
                self.freeze(x)
        elif isinstance(v, dict):
            for x in v.values():
                self.freeze(x)
        return v

    def is_frozen(self, v):
        return id(v) in self.frozen

    def named_twice(self, old, name, env):
        e = env
        while e is not None:
            if any(k != name and v is old for k, v in e.vars.items()):
                return True
            e = e.up
        return False

    def alias(self, old, name, env):
        """Arrays are values here; an in-place change of one that has another name, a view, or that was handed over, is outside the subset."""
        if self.is_frozen(old):
            raise Unsupported('in-place change of an array that may be shared (%s)' % name)
        e = env
        while e is not None:
            for k, v in e.vars.items():
                if k != name and v is old:
                    raise Unsupported('in-place change of an array with two names (%s, %s)' % (k, name))
            e = e.up

    def put(self, t, obj, i, x, env):
        new = self.store_sub(obj, i, x)
        if new is None:
            return
        if isinstance(t.value, ast.Name):
            self.alias(obj, t.value.id, env)
            env.vars[t.value.id] = new
        elif isinstance(t.value, ast.Attribute):
            o = self.ev(t.value.value, env)
            self.setattr(o, t.value.attr, new)
        else:
            raise Unsupported('item assignment')

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Arr) and v.dims[0].is_const():
                v = tuple(self.subscript(v, k) for k in range(int(v.dims[0].const())))
            xs = list(v) if isinstance(v, tuple) else v.items if isinstance(v, PList) and v.plain() else None
            if xs is None:
                raise Unsupported('unpacking of %r' % (v,))
            if len(xs) != len(t.elts):
                raise PyRaise(ValueError, 'unpack')
            for a, x in zip(t.elts, xs):
                self.assign(a, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, env)
            self.put(t, obj, self.ev_index(t.slice, env), v, env)
        else:
            raise Unsupported('assignment target')

    def setattr(self, obj, a, v):
        if isinstance(obj, PObj):
            s = getattr(obj.cls, 'set', None)
            if s is not None:
                return s(self, obj, a, v)
            obj.attrs[a] = v
            return
        raise Unsupported('attribute assignment')

    def st_If(self, n, env):
        self.block(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def st_Return(self, n, env):
        raise Ret(None if n.value is None else self.ev(n.value, env))

    def st_Break(self, n, env):
        raise Brk()

    def st_Continue(self, n, env):
        raise Cont()

    def st_Raise(self, n, env):
        if n.exc is None:
            if env.cur_exc() is None:
                raise Unsupported('bare raise')
            raise env.cur_exc()
        v = self.ev(n.exc, env)
        if isinstance(v, Exc):
            raise PyRaise(v.py)
        if isinstance(v, PObj) and isinstance(v.cls, Exc):
            raise PyRaise(v.cls.py, v.attrs.get('args'))
        raise Unsupported('raise')

    def st_Assert(self, n, env):
        if not self.truth(self.ev(n.test, env)):
            raise PyRaise(AssertionError)

    def st_FunctionDef(self, n, env):
        if n.decorator_list:
            raise Unsupported('decorator')
        f = Func(n, env, None)
        f.defaults = [self.ev(d, env) for d in n.args.defaults]
        env.vars[n.name] = f

    def st_Global(self, n, env):
        raise Unsupported('global')

    def st_Delete(self, n, env):
        for t in n.targets:
            if not isinstance(t, ast.Name):
                raise Unsupported('del')
            env.vars.pop(t.id, None)

    def st_Import(self, n, env):
        for a in n.names:
            m = MODULES.get(a.name)
            if m is None:
                raise Unsupported('import ' + a.name)
            env.vars[a.asname or a.name.split('.')[0]] = m

    def st_ImportFrom(self, n, env):
        for a in n.names:
            m = MODULES.get('.' * n.level + (n.module or ''))
            if m is None or a.name not in m.attrs:
                raise Unsupported('import %s from %s' % (a.name, n.module))
            env.vars[a.asname or a.name] = m.attrs[a.name]

    def st_Try(self, n, env):
        try:
            try:
                self.block(n.body, env)
            except PyRaise as e:
                for h in n.handlers:
                    if h.type is None:
                        cs = (BaseException,)
                    else:
                        t = self.ev(h.type, env)
                        cs = tuple(x.py for x in (t if isinstance(t, tuple) else (t,)))
                    if issubclass(e.cls, cs):
                        if h.name:
                            env.vars[h.name] = Opaque('exception')
                        old, env.exc = env.exc, e
                        try:
                            self.block(h.body, env)
                        finally:
                            env.exc = old
                        break
                else:
                    raise
            else:
                self.block(n.orelse, env)
        finally:
            self.block(n.finalbody, env)

    def st_With(self, n, env):
        if len(n.items) != 1:
            raise Unsupported('with')
        v = self.ev(n.items[0].context_expr, env)
        if not (isinstance(v, PObj) and getattr(v.cls, 'context', False)):
            raise Unsupported('context manager')
        if n.items[0].optional_vars is not None:
            self.assign(n.items[0].optional_vars, v, env)
        self.block(n.body, env)

    def counted(self, n, env):
        """`while k < N: ...; k += 1` as a for loop: (k, start, N) or None."""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name)) or n.orelse:
            return None
        k, last = t.left.id, n.body[-1]
        if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add):
            ok = isinstance(last.target, ast.Name) and last.target.id == k and isinstance(last.value, ast.Constant) and last.value.value == 1
        elif isinstance(last, ast.Assign):
            ok = ast.unparse(last) in ('%s = %s + 1' % (k, k), '%s = 1 + %s' % (k, k))
        else:
            ok = False
        names = assigned(n.body[:-1])
        if not ok or k in names or any(isinstance(x, ast.Continue) for b in n.body for x in ast.walk(b)):
            return None
        # the bound does not change in the loop
        lim = t.comparators[0]
        if any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(lim)) or not isinstance(env.vars.get(k), (int, Poly)):
            return None
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and any(isinstance(y, ast.Name) and y.id == x.value.id for y in ast.walk(lim)):
                    return None
        if any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == 'len') for x in ast.walk(lim)):
            return None
        return k, env.vars[k], self.ev(lim, env)

    def st_While(self, n, env):
        for _ in range(64):
            t = self.ev(n.test, env)
            if is_sym(t) and S.Prem(tuple(self.pc)).decide(t if isinstance(t, Bool) else ne(t, 0)) is None:
                c = self.counted(n, env)
                if c is None or not (isinstance(c[2], Poly) and T.is_int(c[2])):
                    raise Unsupported('while loop with a symbolic condition')
                k, start, lim = c
                if isinstance(n.test.ops[0], ast.NotEq) and not self.decide(le(start, lim)):
                    raise Unsupported('while loop past its bound')
                count = P(lim) - P(start)
                if not self.decide(le(0, count)):
                    return
                loop = ast.copy_location(ast.For(target=ast.Name(id=k, ctx=ast.Store()), iter=n.test, body=n.body[:-1] or [ast.Pass()], orelse=[], type_comment=None), n)
                ast.fix_missing_locations(loop)
                self.sym_for(loop, env, count, lambda j: P(start) + j)
                brk = any(isinstance(x, ast.Break) for b in n.body for x in ast.walk(b))
                env.vars[k] = Poison(k) if brk else P(lim)
                return
            if not self.truth(t):
                return self.block(n.orelse, env)
            try:
                self.block(n.body, env)
            except Brk:
                return
            except Cont:
                pass
        raise Unsupported('while loop')

    # ------------------------------------------------------------ for loops
    def iterate(self, v):
        """Concrete tuple of items, or (n, item)."""
        if isinstance(v, tuple):
            return v
        if isinstance(v, dict):
            return tuple(v)
        if isinstance(v, PList):
            if v.plain():
                return tuple(v.items)
            if len(v.items) == 1 and not v.items[0].stops and len(v.items[0].branches) == 1 and len(v.items[0].branches[0][1]) == 1:
                s = v.items[0]
                return s.n, lambda k: map_val(s.branches[0][1][0], lambda p: subst(p, {T.atom_of(s.i): k}))
            raise Unsupported('iteration over a list of unknown structure')
        if isinstance(v, Seq):
            n = v.n
            if n.is_const() and n.const() <= 12:
                return tuple(v.item(num(k)) for k in range(int(n.const())))
            return n, v.item
        if isinstance(v, (Arr, BArr)):
            n = v.dims[0]
            if len(v.dims) > 1:
                self.freeze(v)
            get = lambda k: (lambda b: b if len(v.dims) == 1 else self.freeze(Arr(v.dims[1:], b, v.sort) if isinstance(v, Arr) else BArr(v.dims[1:], b)))(
                subst_idx(v.body, [k] + [IDX_(j) for j in range(len(v.dims) - 1)]))
            if n.is_const() and n.const() <= 12:
                return tuple(get(num(k)) for k in range(int(n.const())))
            return n, get
        if isinstance(v, Opaque) and v.what == 'sorted':
            n = T.fresh('on', 'I', 0)
            nm = 'havoc!item%d' % next(_ids)
            return n, lambda k: app(nm, (P(k),), 'I')
        raise Unsupported('iteration over %r' % (v,))

    def st_For(self, n, env):
        it = self.iterate(self.ev(n.iter, env))
        if isinstance(it, tuple) and not (len(it) == 2 and callable(it[1])):
            for x in it:
                self.assign(n.target, x, env)
                try:
                    self.block(n.body, env)
                except Brk:
                    return
                except Cont:
                    pass
            self.block(n.orelse, env)
            return
        N, item = it
        if n.orelse:
            raise Unsupported('for-else')
        self.sym_for(n, env, N, item)

    def sym_for(self, n, env, N, item):
        names = assigned(n.body) | targets(n.target)
        # lists and objects in reach
        i = T.fresh('fi')
        ia = T.atom_of(i)
        if not S.Prem(tuple(self.pc)).decide(le(0, N)):
            self.decide(le(0, N)) or self.bad('negative number of iterations')
        start = {k: env.vars[k] for k in names if k in env.vars}
        closed = {}
        for attempt in range(2):
            hav = {}

            def entry():
                """Values at the start of iteration i."""
                out = {}
                for k in names:
                    if k in targets(n.target):
                        continue
                    if k not in start:
                        out[k] = Poison(k)
                        continue
                    v = start[k]
                    if k in closed:
                        out[k] = closed[k]
                    elif isinstance(v, (int, float, Poly)) and not isinstance(v, bool):
                        if k not in hav:
                            hav[k] = T.fresh('hv', 'I' if isinstance(v, int) or isinstance(v, Poly) and T.is_int(v) else 'R')
                        out[k] = hav[k]
                    elif isinstance(v, Arr):
                        if k not in hav:
                            hav[k] = Arr(v.dims, app('hv!%d' % next(_ids), tuple(IDX_(j) for j in range(len(v.dims)))), v.sort)
                            if self.is_frozen(v) or self.named_twice(v, k, env):
                                self.freeze(hav[k])
                        out[k] = hav[k]
                    elif isinstance(v, (PList, dict)):
                        out[k] = v
                    else:
                        out[k] = Poison(k)
                return out

            lists0 = None

            def run():
                memo = {}
                world = copy.deepcopy((env, self.log), memo)
                e2, log2 = world
                e2.vars.update({k: copy.deepcopy(v, memo) for k, v in entry().items()})
                save = self.log
                self.log = log2
                try:
                    self.pc += [le(0, i), lt(i, N)]
                    mark = len(self.pc)
                    lists = reach(e2, log2)
                    lens = [len(l.items) for l in lists]
                    attrs = objects(e2)
                    before = [dict(o.attrs) for o in attrs]
                    self.assign(n.target, item(i), e2)
                    kind = 'next'
                    try:
                        self.block(n.body, e2)
                    except Brk:
                        kind = 'break'
                    except Cont:
                        pass
                    except Ret:
                        raise Unsupported('return in a loop')
                    except PyRaise as e:
                        return 'raise', e, None, mark
                    for o, b in zip(attrs, before):
                        if not all(k in b and same_val(b[k], v) for k, v in o.attrs.items()):
                            raise Unsupported('a loop changes an attribute')
                    added = [l.items[m:] for l, m in zip(lists, lens)]
                    if [len(l.items) < m for l, m in zip(lists, lens)].count(True):
                        raise Unsupported('a loop removes list entries')
                    return kind, {k: e2.vars.get(k) for k in names}, added, mark
                finally:
                    self.log = save
            paths, raises = [], []
            for pc, r in self.explore(run):
                kind, vals, added, mark = r
                if kind == 'raise':
                    raises.append(vals)
                    continue
                paths.append((band(*pc[2:]), kind, vals, added))
            syms = set()
            for v in hav.values():
                syms |= (v.body if isinstance(v, Arr) else v).syms
            syms = {s for s in syms if s.startswith('hv')}
            deltas = {}
            for k, h in hav.items():
                ds = []
                for c, kind, vals, _ in paths:
                    nv = vals[k]
                    if isinstance(nv, (int, float)) and not isinstance(nv, bool):
                        nv = as_poly(nv)
                    if nv is h:
                        ds.append((c, kind, None))
                    elif isinstance(nv, Poly) and isinstance(h, Poly):
                        ds.append((c, kind, nv - h))
                    elif isinstance(nv, Arr) and isinstance(h, Arr) and len(nv.dims) == len(h.dims) and all(self.same(x, y) for x, y in zip(nv.dims, h.dims)):
                        ds.append((c, kind, Arr(nv.dims, nv.body - h.body)))
                    else:
                        ds = None
                        break
                if ds is None:
                    continue
                pol = lambda d: d.body if isinstance(d, Arr) else d
                if any(d is not None and pol(d).syms & syms for _, _, d in ds):
                    continue
                deltas[k] = ds
            need = set()
            for c, kind, vals, added in paths:
                need |= set(c.syms) & syms
                need |= used(added) & syms
                for k, d in [(k, d) for k, ds in deltas.items() for _, _, d in ds]:
                    pass
            if not need:
                break
            if attempt:
                raise Unsupported('a loop depends on a value carried around it')
            # closed form of the counters
            again = False
            for k, ds in deltas.items():
                d0 = ds[0][2]
                if isinstance(hav[k], Poly) and d0 is not None and all(d is d0 and kind == 'next' for _, kind, d in ds):
                    j = T.fresh('fj')
                    closed[k] = as_poly(start[k]) + T.mk_sum(j, ZERO, i, subst(d0, {ia: j}))
                    again = True
            if not again:
                raise Unsupported('a loop depends on a value carried around it')
        if raises and self.decide(T.bvar('havoc!raise%d' % next(_ids))):
            raise raises[0]
        nexts = [p for p in paths if p[1] == 'next']
        stops = [p for p in paths if p[1] == 'break']
        # lists
        ls = reach(env, self.log)
        for k, l in enumerate(ls):
            brs = [(c, a[k]) for c, _, _, a in nexts]
            sts = [(c, a[k]) for c, _, _, a in stops]
            if any(x for _, x in brs + sts):
                l.items.append(Seg(N, i, brs, sts))
        # variables
        for k in names:
            if k in targets(n.target):
                env.vars[k] = Poison(k)
            elif k in closed and not stops:
                env.vars[k] = subst(closed[k], {ia: N})
            elif k in deltas and not stops:
                tot = None
                for c, _, d in deltas[k]:
                    if d is None:
                        continue
                    b = br(c) * (d.body if isinstance(d, Arr) else d)
                    tot = b if tot is None else tot + b
                if tot is not None:
                    j = T.fresh('fj')
                    sm = T.mk_sum(j, ZERO, N, subst(tot, {ia: j}))
                    o = start[k]
                    env.vars[k] = Arr(o.dims, o.body + sm, 'R') if isinstance(o, Arr) else as_poly(o) + sm
            elif isinstance(start.get(k), (PList, dict)) and all(isinstance(p[2][k], type(start[k])) for p in paths):
                pass
            else:
                env.vars[k] = Poison(k)


_ids = itertools.count()


class Slice:
    def __init__(self, lower, upper, step):
        self.lower, self.upper, self.step = lower, upper, step


class Env:
    def __init__(self, vars, up):
        self.vars, self.up, self.exc = vars, up, None
        self.module = False

    def cur_exc(self):
        e = self
        while e is not None:
            if e.exc is not None:
                return e.exc
            e = e.up
        return None

    def __deepcopy__(self, memo):
        if self.module:
            return self
        r = Env({}, None)
        memo[id(self)] = r
        r.exc = self.exc
        r.up = copy.deepcopy(self.up, memo)
        r.vars = {k: copy.deepcopy(v, memo) for k, v in self.vars.items()}
        for f in r.vars.values():
            pass
        return r


def IDX_(k):
    return IDX[k]


def subst_idx(body, idx):
    return subst(body, {IATOM[k]: P(x) for k, x in enumerate(idx)})


def to_bool(x):
    if isinstance(x, Bool):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return ne(P(x), 0)


def pmod(x, y):
    x, y = P(x), P(y)
    return x - y * T.fdiv(x, y)


def fmt(x, spec):
    if isinstance(x, (str, int)) and not isinstance(x, bool) and spec == '':
        return str(x)
    if isinstance(x, (str, SStr)) and spec == '':
        return x
    return ('fmt', spec, x)


def assigned(body):
    out = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            elif isinstance(x, ast.FunctionDef):
                out.add(x.name)
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                v = x.value
                if isinstance(v, ast.Name):
                    out.add(v.id)
    return out


def targets(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def reach(env, log):
    """Lists reachable from the local variables, in a fixed order, and the event log."""
    out = [log]
    e = env
    while e is not None and not e.module:
        for k in sorted(e.vars):
            v = e.vars[k]
            if isinstance(v, PList) and not any(v is x for x in out):
                out.append(v)
        e = e.up
    return out


def objects(env):
    out = []
    e = env
    while e is not None and not e.module:
        for k in sorted(e.vars):
            v = e.vars[k]
            if isinstance(v, PObj) and not any(v is x for x in out):
                out.append(v)
        e = e.up
    return out


def same_val(a, b):
    if a is b:
        return True
    try:
        return type(a) is type(b) and isinstance(a, (int, float, str, Arr)) and bool(a == b)
    except Exception:
        return False


def used(v):
    """Symbols a value mentions."""
    if isinstance(v, (Poly, Bool)):
        return set(v.syms)
    if isinstance(v, (Arr, BArr)):
        return set(v.body.syms).union(*[d.syms for d in v.dims])
    if isinstance(v, (list, tuple)):
        return set().union(*[used(x) for x in v]) if v else set()
    if isinstance(v, dict):
        return used(list(v.values()))
    if isinstance(v, SStr):
        return used(v.parts)
    if isinstance(v, PList):
        return used(v.items)
    if isinstance(v, Seg):
        return used(v.branches) | used(v.stops) | used(v.n)
    if isinstance(v, Opaque):
        return used(v.args)
    return set()


def map_val(v, f):
    if isinstance(v, (Poly, Bool)):
        return f(v)
    if isinstance(v, Arr):
        return Arr([f(d) for d in v.dims], f(v.body), v.sort)
    if isinstance(v, BArr):
        return BArr([f(d) for d in v.dims], f(v.body))
    if isinstance(v, tuple):
        return tuple(map_val(x, f) for x in v)
    if isinstance(v, list):
        return [map_val(x, f) for x in v]
    if isinstance(v, dict):
        return {k: map_val(x, f) for k, x in v.items()}
    if isinstance(v, SStr):
        return SStr(*[map_val(x, f) for x in v.parts])
    if isinstance(v, PList):
        return PList([map_val(x, f) for x in v.items])
    if isinstance(v, Seg):
        return Seg(map_val(v.n, f), v.i, map_val(v.branches, f), map_val(v.stops, f))
    if isinstance(v, Opaque):
        return Opaque(v.what, *[map_val(x, f) for x in v.args])
    return v


# ---------------------------------------------------------------- builtins and libraries
BUILTINS = {}
NP = {}
MODULES = {}


def builtin(name, table=None):
    def deco(f):
        (BUILTINS if table is None else table)[name] = Builtin(name, f)
        return f
    return deco


for _e in (BaseException, Exception, ValueError, RuntimeError, TypeError, IndexError, KeyError, OSError, IOError, FileNotFoundError, AssertionError,
           ImportError, SystemExit, EOFError, StopIteration, LookupError, ArithmeticError, ZeroDivisionError, AttributeError, NameError, UnicodeDecodeError,
           NotImplementedError, OverflowError, KeyboardInterrupt):
    BUILTINS[_e.__name__] = Exc(_e)
BUILTINS['__name__'] = '__booz__'


@builtin('len')
def b_len(I, args, kw):
    v = args[0]
    if isinstance(v, (tuple, str, dict)):
        return len(v)
    if isinstance(v, PList) and v.plain():
        return len(v.items)
    if isinstance(v, Seq):
        return v.n
    if isinstance(v, (Arr, BArr)):
        return v.dims[0]
    if isinstance(v, PList):
        # only its sign is claimed
        L = T.fresh('havoc!len', 'I', 0)
        c = I.nonempty(v)
        I.pc.append(bor(band(c, lt(0, L)), band(bnot(c), le(L, 0))))
        return L
    raise Unsupported('len of %r' % (v,))


@builtin('range')
def b_range(I, args, kw):
    if all(isinstance(a, int) for a in args):
        r = range(*args)
        if len(r) <= 64:
            return tuple(r)
    a = [as_poly(x) for x in args]
    if any(not T.is_int(x) for x in a):
        raise Unsupported('range bounds')
    lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) == 3 and a[2] is not ONE:
        raise Unsupported('range step')
    n = hi - lo
    if not I.decide(le(0, n)):
        n = ZERO
    return Seq(n, lambda k: lo + k)


@builtin('enumerate')
def b_enumerate(I, args, kw):
    s = as_poly(kw.get('start', args[1] if len(args) > 1 else 0))
    it = I.iterate(args[0])
    if len(it) == 2 and callable(it[1]):
        return Seq(it[0], lambda k: (s + k, it[1](k)))
    return tuple((int((s + k).const()) if (s + k).is_const() else s + k, x) for k, x in enumerate(it))


@builtin('zip')
def b_zip(I, args, kw):
    its = [I.iterate(a) for a in args]
    sym = [len(t) == 2 and callable(t[1]) for t in its]
    if not any(sym):
        return tuple(zip(*its))
    if not all(sym):
        raise Unsupported('zip of lists and arrays')
    n = its[0][0]
    for t in its[1:]:
        if not I.same(n, t[0]):
            n = ite(lt(n, t[0]), n, t[0])
    return Seq(n, lambda k: tuple(t[1](k) for t in its))


@builtin('reversed')
def b_reversed(I, args, kw):
    it = I.iterate(args[0])
    if len(it) == 2 and callable(it[1]):
        return Seq(it[0], lambda k: it[1](it[0] - 1 - k))
    return tuple(reversed(it))


@builtin('abs')
def b_abs(I, args, kw):
    return np_abs(I, args, kw)


def np_minmax(which):
    def f(I, args, kw):
        if len(args) == 2 and all(isinstance(x, (int, float, Poly)) for x in args):
            if all(isinstance(x, (int, float)) for x in args):
                return max(args) if which == 'max' else min(args)
            a, b = as_poly(args[0]), as_poly(args[1])
            return ite(lt(a, b), b, a) if which == 'max' else ite(lt(b, a), b, a)
        if len(args) == 1 and isinstance(args[0], Arr) and not kw:
            v = args[0]
            return app('amax!%s!%d' % (which, T.stable_name(('amax', v.dims, v.body))), (), 'R')
        if len(args) == 1 and isinstance(args[0], (tuple, PList)) and all(isinstance(x, (int, float)) for x in I.iterate(args[0])):
            return (max if which == 'max' else min)(I.iterate(args[0]))
        raise Unsupported(which)
    return f


BUILTINS['max'] = Builtin('max', np_minmax('max'))
BUILTINS['min'] = Builtin('min', np_minmax('min'))


@builtin('str')
def b_str(I, args, kw):
    v = args[0]
    if isinstance(v, (str, SStr)):
        return v
    r = SStr(fmt(v, ''))
    return r.parts[0] if len(r.parts) == 1 and isinstance(r.parts[0], str) else r


@builtin('bool')
def b_bool(I, args, kw):
    return I.truth(args[0]) if args else False


@builtin('float')
def b_float(I, args, kw):
    if isinstance(args[0], (int, float)):
        return float(args[0])
    if isinstance(args[0], Poly):
        return args[0]
    raise Unsupported('float()')


@builtin('list')
def b_list(I, args, kw):
    if not args:
        return PList()
    v = args[0]
    if isinstance(v, PList):
        return PList(v.items)
    it = I.iterate(v)
    if len(it) == 2 and callable(it[1]):
        if isinstance(v, Seq):
            i = T.fresh('li')
            return PList([Seg(it[0], i, [(TRUE, [it[1](i)])])])
        return v
    return PList(it)


@builtin('tuple')
def b_tuple(I, args, kw):
    it = I.iterate(args[0])
    if len(it) == 2 and callable(it[1]):
        raise Unsupported('tuple()')
    return tuple(it)


@builtin('dict')
def b_dict(I, args, kw):
    d = {}
    for a in args:
        if not isinstance(a, dict):
            raise Unsupported('dict()')
        d.update(a)
    d.update(kw)
    return d


@builtin('sorted')
def b_sorted(I, args, kw):
    v = args[0]
    if kw.get('key') is not None or 'reverse' in kw and kw['reverse'] is not False:
        return Opaque('sorted', v, tuple(sorted((k, repr(x)) for k, x in kw.items())))
    if isinstance(v, PList) and v.plain() and all(isinstance(x, int) for x in v.items):
        return PList(sorted(v.items))
    return Opaque('sorted', v)


@builtin('set')
def b_set(I, args, kw):
    return Opaque('set', *args)


@builtin('print')
def b_print(I, args, kw):
    if 'file' in kw and not isinstance(kw['file'], Opaque):
        raise Unsupported('print file')
    I.event(('print', tuple(args), {k: v for k, v in kw.items() if k != 'flush'}))
    return None


@builtin('isinstance')
def b_isinstance(I, args, kw):
    v, t = args
    if isinstance(t, tuple):
        return any(b_isinstance(I, [v, x], {}) for x in t)
    if t is BUILTINS['str']:
        return isinstance(v, (str, SStr)) or isinstance(v, Opaque) and v.what == 'str'
    if t is BUILTINS.get('int'):
        return isinstance(v, int) or isinstance(v, Poly) and T.is_int(v)
    if t is BUILTINS['tuple']:
        return isinstance(v, tuple)
    if t is BUILTINS['list']:
        return isinstance(v, PList)
    if isinstance(t, type):
        return isinstance(v, PObj) and v.cls is t
    raise Unsupported('isinstance')


@builtin('getattr')
def b_getattr(I, args, kw):
    if isinstance(args[1], str):
        return I.getattr(args[0], args[1])
    raise Unsupported('getattr')


@builtin('sum')
def b_sum(I, args, kw):
    v = args[0]
    it = I.iterate(v)
    if len(it) == 2 and callable(it[1]):
        i = T.fresh('si')
        x = it[1](i)
        if isinstance(x, Arr):
            j = T.fresh('sj')
            return Arr(x.dims, T.mk_sum(j, ZERO, it[0], subst(x.body, {T.atom_of(i): j})))
        if not isinstance(x, (int, float, Poly)):
            raise Unsupported('sum()')
        return T.mk_sum(i, ZERO, it[0], as_poly(x))
    t = args[1] if len(args) > 1 else 0
    for x in it:
        t = I.binop(ast.Add(), t, x)
    return t


# ---- strings and lists

def s_format(I, s, *args, **kw):
    import string
    if not isinstance(s, str) or kw:
        raise Unsupported('format')
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        parts.append(lit)
        if field is None:
            continue
        if field == '':
            k, auto = auto, auto + 1
        elif field.isdigit():
            k = int(field)
        else:
            raise Unsupported('format field')
        if conv:
            spec = '!' + conv + (spec or '')
        parts.append(fmt(args[k], spec or ''))
    r = SStr(*parts)
    return r.parts[0] if len(r.parts) == 1 and isinstance(r.parts[0], str) else r


def s_join(I, s, it):
    if isinstance(it, PList) and it.plain() and all(isinstance(x, str) for x in it.items) and isinstance(s, str):
        return s.join(it.items)
    return SStr(('join', s, it))


STR_METHODS = {'format': s_format, 'join': s_join}
LIST_METHODS = {}


def l_append(I, l, x):
    I.freeze(x)
    l.items.append(x)


def l_extend(I, l, x):
    if isinstance(x, PList):
        l.items += x.items
    elif isinstance(x, tuple):
        l.items += list(x)
    else:
        raise Unsupported('extend')


def l_sort(I, l, **kw):
    if kw:
        raise Unsupported('sort')
    if l.plain() and all(isinstance(x, int) for x in l.items):
        l.items.sort()
    else:
        # every reference to the list sees it sorted
        old = PList(l.items)
        l.__class__ = Opaque
        l.what, l.args = 'sorted', (old,)


LIST_METHODS.update(append=l_append, extend=l_extend, sort=l_sort, copy=lambda I, l: PList(l.items))


# ---- numpy

def elementwise(f):
    def g(I, args, kw):
        if kw or len(args) != 1:
            raise Unsupported('numpy arguments')
        v = args[0]
        if isinstance(v, Arr):
            return Arr(v.dims, f(v.body), 'R')
        return f(as_poly(v))
    return g


np_abs = elementwise(vabs)


def np(name):
    return builtin(name, NP)


NP['cos'] = Builtin('cos', elementwise(lambda p: T.lift_call(T.cos, (p,))))
NP['sin'] = Builtin('sin', elementwise(lambda p: T.lift_call(T.sin, (p,))))
NP['sqrt'] = Builtin('sqrt', elementwise(lambda p: T.lift_call(T.sqrt, (p,))))
NP['abs'] = Builtin('abs', np_abs)
NP['absolute'] = NP['fabs'] = NP['abs']
NP['max'] = NP['amax'] = Builtin('max', np_minmax('max'))
NP['min'] = NP['amin'] = Builtin('min', np_minmax('min'))
NP['pi'] = T.PI
NP['newaxis'] = None


@np('linspace')
def np_linspace(I, args, kw):
    a = dict(zip(('start', 'stop', 'num', 'endpoint'), args))
    a.update(kw)
    lo, hi, n = as_poly(a['start']), as_poly(a['stop']), as_poly(a.get('num', 50))
    if a.get('endpoint', True) is not True:
        if a['endpoint'] is not False:
            raise Unsupported('linspace endpoint')
        return Arr([n], lo + (hi - lo) * T.inv(n) * IDX[0])
    if I.decide(le(n, 1)):
        return Arr([n], lo)
    return Arr([n], lo + (hi - lo) * T.inv(n - 1) * IDX[0])


@np('arange')
def np_arange(I, args, kw):
    if kw or len(args) != 1:
        raise Unsupported('arange')
    return Arr([as_poly(args[0])], IDX[0], 'I')


@np('meshgrid')
def np_meshgrid(I, args, kw):
    if len(args) != 2 or kw.get('indexing', 'xy') not in ('xy', 'ij') or set(kw) - {'indexing'}:
        raise Unsupported('meshgrid')
    x, y = args
    if kw.get('indexing', 'xy') == 'xy':
        dims = [y.dims[0], x.dims[0]]
        return (Arr(dims, subst_idx(x.body, [IDX[1]])), Arr(dims, subst_idx(y.body, [IDX[0]])))
    dims = [x.dims[0], y.dims[0]]
    return (Arr(dims, subst_idx(x.body, [IDX[0]])), Arr(dims, subst_idx(y.body, [IDX[1]])))


@np('zeros_like')
def np_zeros_like(I, args, kw):
    return Arr(args[0].dims, ZERO, 'R')


@np('ones_like')
def np_ones_like(I, args, kw):
    return Arr(args[0].dims, ONE, 'R')


@np('zeros')
def np_zeros(I, args, kw):
    s = args[0]
    return Arr([as_poly(x) for x in (s if isinstance(s, tuple) else (s,))], ZERO, 'R')


@np('copy')
def np_copy(I, args, kw):
    v = args[0]
    return Arr(v.dims, v.body, v.sort)


@np('array')
def np_array(I, args, kw):
    if isinstance(args[0], Arr) and not kw and len(args) == 1:
        return np_copy(I, args, kw)
    raise Unsupported('np.array')


@np('asarray')
def np_asarray(I, args, kw):
    if isinstance(args[0], Arr) and not kw and len(args) == 1:
        return args[0]
    raise Unsupported('np.asarray')


@np('mod')
def np_mod(I, args, kw):
    return I.binop(ast.Mod(), args[0], args[1])


NP['remainder'] = NP['mod']


@np('hypot')
def np_hypot(I, args, kw):
    s = I.binop(ast.Add(), I.binop(ast.Mult(), args[0], args[0]), I.binop(ast.Mult(), args[1], args[1]))
    return NP['sqrt'].fn(I, [s], {})


@np('square')
def np_square(I, args, kw):
    return I.binop(ast.Mult(), args[0], args[0])


@np('where')
def np_where(I, args, kw):
    if len(args) != 3:
        raise Unsupported('where')
    c, a, b = args
    if isinstance(c, BArr):
        ca = Arr(c.dims, br(c.body))
        d = I.broadcast(lambda x, y: x - y, a, b) if isinstance(a, Arr) or isinstance(b, Arr) else as_poly(a) - as_poly(b)
        return I.binop(ast.Add(), I.binop(ast.Mult(), ca, d), b)
    raise Unsupported('where')


@np('outer')
def np_outer(I, args, kw):
    a, b = args
    if not all(isinstance(x, Arr) and len(x.dims) == 1 for x in (a, b)):
        raise Unsupported('outer')
    return Arr([a.dims[0], b.dims[0]], a.body * subst_idx(b.body, [IDX[1]]))


@np('argsort')
def np_argsort(I, args, kw):
    v = args[0]
    if kw or len(args) != 1 or not isinstance(v, Arr) or len(v.dims) != 1:
        raise Unsupported('argsort')
    # the permutation that sorts v: a function of the values of v only
    nm = 'argsort!%d' % T.stable_name(('argsort', v.dims, v.body))
    n = v.dims[0]
    S.FACTS[nm] = lambda i: [bor(bnot(band(le(0, i), lt(i, n))), band(le(0, app(nm, (i,), 'I')), lt(app(nm, (i,), 'I'), n)))]
    return Arr([n], app(nm, (IDX[0],), 'I'), 'I')


@np('logical_and')
def np_land(I, args, kw):
    return I.binop(ast.BitAnd(), *args)


@np('logical_or')
def np_lor(I, args, kw):
    return I.binop(ast.BitOr(), *args)


@np('logical_not')
def np_lnot(I, args, kw):
    return I.unary(ast.Invert() if isinstance(args[0], BArr) else ast.Not(), args[0])


@np('sum')
def np_sum(I, args, kw):
    v = args[0]
    ax = kw.get('axis', args[1] if len(args) > 1 else None)
    if not isinstance(v, Arr) or set(kw) - {'axis'}:
        raise Unsupported('np.sum')
    nd = len(v.dims)
    if ax is None and nd == 1:
        ax = 0
    if not isinstance(ax, int):
        raise Unsupported('np.sum')
    ax %= nd
    j = T.fresh('sj')
    idx = [IDX_(k) if k < ax else (j if k == ax else IDX_(k - 1)) for k in range(nd)]
    b = T.mk_sum(j, ZERO, v.dims[ax], subst_idx(v.body, idx))
    d = v.dims[:ax] + v.dims[ax + 1:]
    return Arr(d, b) if d else b


MODULES['numpy'] = Module('numpy', NP)
MODULES['math'] = Module('math', {'pi': T.PI, 'sqrt': NP['sqrt'], 'cos': NP['cos'], 'sin': NP['sin']})


# ---------------------------------------------------------------- modules and runs

class PyModule:
    """A Python source file: its functions, on the current text."""
    def __init__(self, path, modules):
        self.path = path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.modules = modules

    def load(self, I):
        env = Env({}, None)
        env.module = True
        saved = dict(MODULES)
        MODULES.update(self.modules)
        try:
            for s in self.tree.body:
                if isinstance(s, ast.If):
                    continue           # the guard of a script
                if isinstance(s, ast.Try):
                    try:
                        I.block(s.body, env)
                    except Unsupported:
                        raise
                    continue
                I.stmt(s, env)
        finally:
            MODULES.clear()
            MODULES.update(saved)
        return env


def subst_log(items, i, j):
    f = lambda p: subst(p, {T.atom_of(i): j})
    return map_val(items, f)
