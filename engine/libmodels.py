"""Trusted contracts of the libraries the code calls: Eigen arrays, <cmath>, std::string,
std::vector, iostreams, OpenMP queries, netCDF (ghost file).  Each model states preconditions
(index bounds, equal sizes) as proof obligations on the caller."""
import sym as X
import term as T
import solve as S
from term import (Poly, Bool, TRUE, FALSE, ZERO, ONE, P, band, bnot, bor, br, atom_of, le, lt, ge, gt, eq, ne,
                  subst, ite, var, fresh, num, app, mk_sum)
from sym import Arr, Str, LV, Ref, Ptr, ListV, Obj, Stream, Opaque, VOID, IDX, IATOM, Unsupported, ctype, strip_t, \
    is_arr_type, arr_type

CMP = {'operator==': eq, 'operator!=': ne, 'operator<': lt, 'operator<=': le, 'operator>': gt, 'operator>=': ge}
MATH1 = {'cos': T.cos, 'sin': T.sin, 'sqrt': T.sqrt}
ARITH = {'operator+': '+', 'operator-': '-', 'operator*': '*', 'operator/': '/'}
KNOWN = {'cos', 'sin', 'sqrt', 'abs', 'fabs', 'max', 'min', '__assert_fail', 'omp_get_max_threads', 'omp_get_thread_num',
         'omp_get_num_threads', 'setw', 'setprecision', 'setfill', 'endl', 'scientific', 'fixed', 'sort', 'reverse', 'begin', 'end', 'to_string',
         'pow', 'floor', 'fmod', 'tan', 'exp', 'log', 'swap', 'move', 'make_pair', 'copy', 'fill', 'copy_n', 'fill_n', 'exit', 'abort'}
# functions of their arguments alone, left uninterpreted
PURE = {'pow', 'floor', 'ceil', 'round', 'fmod', 'tan', 'exp', 'log', 'atan', 'atan2', 'asin', 'acos', 'sinh', 'cosh', 'tanh', 'hypot', 'cbrt'}


def pointee(me, base):
    """p in p->f() as *p, for pointers to arrays."""
    bt = ctype(base)
    if me.get('isArrow') and bt.rstrip().endswith('*') and ('Eigen::' in bt or is_arr_type(strip_t(bt.rstrip()[:-1].strip()))):
        t = bt.rstrip()[:-1].strip()
        return {'kind': 'UnaryOperator', 'opcode': '*', 'inner': [base], 'type': {'qualType': t, 'desugaredQualType': t}, 'valueCategory': 'lvalue',
                'range': base.get('range', {}), 'id': base.get('id', '0x0') + '*'}
    return base


class Lib:
    def __init__(self, ex):
        self.ex = ex

    def assumed(self, st, c):
        if any(x.startswith('ncret!') for x in c.syms if isinstance(x, str)):
            import ncmodel
            ncmodel.assumed(self.ex, st, c)

    # ------------------------------------------------------------ helpers
    def vals(self, argn, st):
        return [self.ex.ev(a, st) for a in argn]

    def conv(self, v):
        return v if isinstance(v, Arr) else v

    def neg(self, v, n):
        if isinstance(v, Arr):
            return Arr(v.dims, -v.body, v.sort)
        if isinstance(v, Poly):
            return -v
        raise Unsupported('negation', n)

    def same_dims(self, a, b, n, st, what='equal sizes'):
        if len(a.dims) != len(b.dims):
            raise Unsupported('array ranks differ', n)
        for x, y in zip(a.dims, b.dims):
            if x is not y:
                self.ex.obl('bounds', st, eq(x, y), n, what)

    def arith(self, op, a, b, n, st):
        if isinstance(a, Bool):
            a = br(a)
        if isinstance(b, Bool):
            b = br(b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            self.same_dims(a, b, n, st)
            dims, x, y, sort = a.dims, a.body, b.body, a.sort
        elif isinstance(a, Arr):
            dims, x, y, sort = a.dims, a.body, b, a.sort
        elif isinstance(b, Arr):
            dims, x, y, sort = b.dims, a, b.body, b.sort
        else:
            raise Unsupported('operands of %s' % op, n)
        if not (isinstance(x, Poly) and isinstance(y, Poly)):
            raise Unsupported('operands of %s' % op, n)
        if op == '+':
            v = x + y
        elif op == '-':
            v = x - y
        elif op == '*':
            v = x * y
        else:
            if sort == 'I':
                raise Unsupported('integer array division', n)
            v = x * T.inv(y)
        return Arr(dims, v, sort)

    # ------------------------------------------------------------ values
    def default_value(self, t, st, key):
        if t.startswith('std::vector') or t.startswith('vector<'):
            return ListV()
        if t in ('std::string', 'string', 'std::basic_string<char>') or t.startswith('std::basic_string<char'):
            return Str('')
        if 'stringstream' in t:
            st.mem['ghost:' + key] = Str('')
            st.mem['ghost:state:' + key] = ()
            return Stream('ghost:' + key)
        if 'fstream' in t:
            st.mem['ghost:' + key] = ()
            return Stream('ghost:' + key)
        return None

    # ------------------------------------------------------------ functions
    def knows(self, name):
        return name in KNOWN or name.startswith('nc_') or name.startswith('operator')

    def call(self, name, argn, n, st):
        ex = self.ex
        ex.trusted.add('std::' + name if not name.startswith(('nc_', 'omp_')) else name)
        if name.startswith('nc_'):
            import ncmodel
            return ncmodel.call(ex, name, argn, n, st)
        if name == '__assert_fail':
            ex.obl('assert', st, FALSE, n, 'assertion')
            return VOID
        if name == 'omp_get_max_threads':
            return var('omp!max_threads', 'I', 1)
        if name == 'omp_get_thread_num':
            return var('omp!thread_num', 'I', 0)
        if name in ('setw', 'setprecision', 'setfill'):
            return Opaque(('manip', name, self.vals(argn, st)[0]))
        if name in ('sort', 'reverse'):
            a, b = self.vals(argn, st)
            return self.seq_alg(name, a, b, n, st)
        if name in ('begin', 'end'):
            lv = ex.lval(argn[0], st)
            return Opaque(('iter', ex.deref(st, lv), name))
        if name == 'to_string':
            v = self.vals(argn, st)[0]
            return Str(('num', v)) if not v.is_const() else Str(str(v.const()))
        if name == 'move':
            return ex.ev(argn[0], st)
        if 'CwiseNullaryOp' in (n.get('type') or {}).get('desugaredQualType', '') + ctype(n):
            return self.nullary(name, argn, n, st)
        vs = self.vals(argn, st)
        if name in ('copy', 'fill', 'copy_n', 'fill_n'):
            return self.fill_copy(name, vs, n, st)
        return self.math(name, vs, n, st)

    def nullary(self, name, argn, n, st):
        """Vector::Zero(n), Matrix::Zero(r, c), Ones, Constant."""
        ty = (n.get('type') or {}).get('desugaredQualType', '') + ctype(n)
        sort, nd = X.arr_type(ty[ty.index('Array<'):] if 'Array<' in ty else ty)
        a = self.vals(argn, st)
        if name == 'Constant':
            val = a.pop()
        elif name in ('Zero', 'Ones'):
            val = ZERO if name == 'Zero' else ONE
        else:
            raise Unsupported('array function ' + name, n)
        if isinstance(val, Bool):
            val = br(val)
        if len(a) != nd or not all(isinstance(x, Poly) for x in a + [val]):
            raise Unsupported('array function ' + name, n)
        self.sizes(a, n, st)
        return Arr(a, val, sort)

    def fill_copy(self, name, vs, n, st):
        ex = self.ex

        def place(x):
            if isinstance(x, Ptr) and x.lv is not None:
                lv = ex.deref(st, x.lv)
                v = st.mem.get(lv.key)
                sel = lv.sel
            elif isinstance(x, Opaque) and isinstance(x.tag, tuple) and x.tag[0] == 'iter' and x.tag[2] == 'begin':
                lv = x.tag[1]
                v, sel = st.mem.get(lv.key), lv.sel
            else:
                raise Unsupported('position in ' + name, n)
            if isinstance(v, ListV) and all(isinstance(i, Poly) for i in v.items):
                v = X.list_array(v) if hasattr(X, 'list_array') else list_array(v)
            if not isinstance(v, Arr) or len(v.dims) != 1:
                raise Unsupported('position in ' + name, n)
            if sel in (None, ('data',)):
                return lv.key, v, ZERO
            if len(sel) == 1 and sel[0][0] == 'i':
                return lv.key, v, sel[0][1]
            raise Unsupported('position in ' + name, n)

        if name in ('copy', 'fill'):
            a, b, x = vs
            ok = all(isinstance(t, Opaque) and isinstance(t.tag, tuple) and t.tag[0] == 'iter' for t in (a, b))
            if not ok or a.tag[1] != b.tag[1] or (a.tag[2], b.tag[2]) != ('begin', 'end') or a.tag[1].sel is not None:
                raise Unsupported('iterator range', n)
            key, src, s0 = place(a)
            cnt = src.dims[0]
        else:
            key, src, s0 = place(vs[0])
            cnt, x = vs[1], vs[2]
        if name in ('copy', 'copy_n'):
            dk, dst, d0 = place(x)
            if dk == key:
                raise Unsupported('copy within an array', n)
            val = Arr([cnt], subst(src.body, {IATOM[0]: IDX[0] + s0}), src.sort)
            ex.obl('bounds', st, band(ge(cnt, 0), le(s0 + cnt, src.dims[0])), n, 'copied range inside the source')
        else:
            dk, dst, d0 = key, src, s0
            if not isinstance(x, Poly):
                raise Unsupported(name, n)
            val = Arr([cnt], x, src.sort)
        ex.obl('bounds', st, band(ge(d0, 0), ge(cnt, 0), le(d0 + cnt, dst.dims[0])), n, 'written range inside the array')
        if not isinstance(st.mem.get(dk), Arr):
            raise Unsupported('copy into a list', n)
        ex.store(st, LV(dk, (('r', d0, cnt),)), val, n)
        return VOID

    def math(self, name, vs, n, st):
        ex = self.ex
        if name in MATH1:
            v, = vs
            f = MATH1[name]
            if isinstance(v, Arr):
                return Arr(v.dims, T.lift_call(f, (v.body,)), 'R')
            if isinstance(v, Bool):
                v = br(v)
            if ctype(n) == 'float':
                return app('f32', (f(v),))
            return T.lift_call(f, (v,))
        if name in ('abs', 'fabs'):
            v, = vs
            if isinstance(v, Arr):
                return Arr(v.dims, T.absval(v.body), v.sort)
            d = ex.decide(st, ge(v, 0))
            if d is True:
                return v
            if d is False:
                return -v
            if ctype(n) == 'int':
                ex.ovf(-v, n, st)
            return T.absval(v)
        if name in ('max', 'min'):
            a, b = vs
            if name == 'max':
                return ite(lt(a, b), b, a)
            return ite(lt(b, a), b, a)
        if name == 'pow' and isinstance(vs[1], Poly) and vs[1].is_const():
            e = vs[1].const()
            if isinstance(e, int) and -4 <= e <= 8 and isinstance(vs[0], Poly):
                return T.power(vs[0], e)
        if name in PURE and vs and all(isinstance(v, Poly) for v in vs):
            return app('m!' + name, tuple(vs))
        raise Unsupported('function ' + name, n)

    def seq_alg(self, name, a, b, n, st):
        ex = self.ex
        ok = all(isinstance(x, Opaque) and isinstance(x.tag, tuple) and x.tag[0] == 'iter' for x in (a, b))
        if not ok or a.tag[1] != b.tag[1] or (a.tag[2], b.tag[2]) != ('begin', 'end'):
            raise Unsupported('iterator range', n)
        lv = a.tag[1]
        v = ex.load(st, lv, n)
        if name == 'reverse' and isinstance(v, ListV):
            ex.store(st, lv, ListV(reversed(v.items)), n)
            return VOID
        if name == 'sort':
            if isinstance(v, ListV) and len(v.items) <= 1:
                return VOID
            if isinstance(v, ListV) and len(v.items) > 1 and all(isinstance(x, Poly) for x in v.items):
                v = list_array(v)
            if isinstance(v, Arr) and len(v.dims) == 1:
                ex.store(st, lv, sorted_of(v, st), n)
                return VOID
        raise Unsupported(name, n)

    # ------------------------------------------------------------ element access
    def elem_lv(self, lv, idx, n, st):
        ex = self.ex
        lv = ex.deref(st, lv)
        v = st.mem.get(lv.key)
        if lv.sel is not None:
            # element of a column/row/segment view
            v = ex.load(st, lv, n)
            k = 0
            sel = []
            for s in lv.sel:
                if s[0] == 'i':
                    sel.append(s)
                else:
                    self.bound(idx[k], s[2], n, st)
                    sel.append(('i', s[1] + idx[k]))
                    k += 1
            if k != len(idx):
                raise Unsupported('indexing a view', n)
            return LV(lv.key, tuple(sel))
        if isinstance(v, ListV):
            i, = idx
            ex.obl('bounds', st, band(ge(i, 0), lt(i, len(v.items))), n, 'index of a vector')
            return LV(lv.key, (('i', i),))
        if isinstance(v, Str):
            return LV(lv.key, (('i', idx[0]),))
        if not isinstance(v, Arr):
            raise Unsupported('indexing %s' % type(v).__name__, n)
        if len(idx) == 1 and len(v.dims) == 2:
            raise Unsupported('linear index into a matrix', n)
        if len(idx) == 2 and len(v.dims) == 1:
            raise Unsupported('two indices into a vector', n)
        for i, d in zip(idx, v.dims):
            self.bound(i, d, n, st)
        return LV(lv.key, tuple(('i', i) for i in idx))

    def bound(self, i, d, n, st):
        self.ex.obl('bounds', st, band(ge(i, 0), lt(i, d)), n, 'index in range')

    def operator_lv(self, name, argn, n, st):
        ex = self.ex
        if name in ('operator()', 'operator[]'):
            b = ex.lval(argn[0], st)
            idx = [ex.ev(a, st) for a in argn[1:]]
            idx = [br(i) if isinstance(i, Bool) else i for i in idx]
            if not all(isinstance(i, Poly) for i in idx):
                raise Unsupported('index', n)
            return self.elem_lv(b, idx, n, st)
        if name == 'operator<<' or name == 'operator>>':
            self.operator(name, argn, n, st)
            return ex.lval(argn[0], st) if not _is_io(argn[0]) else self.stream_root(argn[0], st)
        if name in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/='):
            self.operator(name, argn, n, st)
            return ex.lval(argn[0], st)
        if name == 'operator*' and len(argn) == 1:
            v = ex.ev(argn[0], st)
            if isinstance(v, Ptr):
                return v.lv
        return None

    def stream_root(self, n, st):
        while _is_io(n):
            m = n
            while m['kind'] != 'CXXOperatorCallExpr':
                m = m['inner'][0]
            n = m['inner'][1]
        return self.ex.lval(n, st)

    def subscript(self, b, i, n, st):
        ex = self.ex
        if isinstance(b, Ptr) and b.lv is not None:
            base = ex.deref(st, b.lv)
            v = st.mem.get(base.key)
            if base.sel is None:
                if isinstance(v, ListV):
                    ex.obl('bounds', st, band(ge(i, 0), lt(i, len(v.items))), n, 'array index')
                    return LV(base.key, (('i', i),))
                if isinstance(v, Arr) and len(v.dims) == 1:
                    self.bound(i, v.dims[0], n, st)
                    return LV(base.key, (('i', i),))
            elif len(base.sel) == 1 and base.sel[0][0] == 'i' and isinstance(v, Arr):
                j = base.sel[0][1] + i
                self.bound(j, v.dims[0], n, st)
                return LV(base.key, (('i', j),))
        if isinstance(b, (ListV, Arr)):
            # array decayed by value
            raise Unsupported('subscript of a value', n)
        raise Unsupported('subscript', n)

    # ------------------------------------------------------------ operators
    def operator(self, name, argn, n, st):
        ex = self.ex
        if name in ('operator()', 'operator[]'):
            if argn[0].get('type') and 'lambda' in ctype(argn[0]):
                raise Unsupported('lambda call', n)
            return ex.load(st, self.operator_lv(name, argn, n, st), n)
        if name in ('operator<<', 'operator>>'):
            return self.stream_op(name, argn, n, st)
        if name == 'operator=':
            lv = ex.lval(argn[0], st)
            v = ex.ev(argn[1], st)
            return self.assign(lv, v, n, st)
        if name in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
            lv = ex.lval(argn[0], st)
            a = ex.load(st, lv, n)
            b = ex.ev(argn[1], st)
            if isinstance(a, Str):
                v = a + tostr(b)
            else:
                v = self.arith(name[8], a, b, n, st)
            ex.store(st, lv, v, n)
            return v
        if name in ARITH:
            vs = self.vals(argn, st)
            if len(vs) == 1:
                return self.neg(vs[0], n) if name == 'operator-' else vs[0]
            a, b = vs
            if isinstance(a, Str) or isinstance(b, Str):
                if name == 'operator+':
                    return tostr(a) + tostr(b)
                raise Unsupported('string operator', n)
            return self.arith(ARITH[name], a, b, n, st)
        if name in CMP and any('Eigen::Array' in ctype(a) or 'Eigen::CwiseBinaryOp' in ctype(a) for a in argn):
            a, b = self.vals(argn, st)
            if isinstance(a, Arr) and isinstance(b, Arr):
                self.same_dims(a, b, n, st)
            if isinstance(a, Arr) or isinstance(b, Arr):
                d = a.dims if isinstance(a, Arr) else b.dims
                x, y = [v.body if isinstance(v, Arr) else P(v) for v in (a, b)]
                return Arr(d, br(CMP[name](x, y)), 'I')
            raise Unsupported('comparison of %s' % type(a).__name__, n)
        if name in ('operator&&', 'operator||') and any('Eigen::' in ctype(a) for a in argn):
            a, b = self.vals(argn, st)
            if isinstance(a, Arr) and isinstance(b, Arr):
                self.same_dims(a, b, n, st)
                x, y = ne(a.body, 0), ne(b.body, 0)
                return Arr(a.dims, br(band(x, y) if name == 'operator&&' else bor(x, y)), 'I')
        if name in ('operator==', 'operator!='):
            a, b = self.vals(argn, st)
            if isinstance(a, (Str,)) and isinstance(b, (Str,)):
                x, y = a.concrete(), b.concrete()
                if x is not None and y is not None:
                    r = TRUE if x == y else FALSE
                elif a == b:
                    r = TRUE
                else:
                    r = T._mk_bool('streq', (a, b))
                return r if name == 'operator==' else bnot(r)
            raise Unsupported('comparison of %s' % type(a).__name__, n)
        if name == 'operator!':
            v = ex.ev(argn[0], st)
            if isinstance(v, Stream):
                return self.fail(v, st, n)
        raise Unsupported(name, n)

    def assign(self, lv, v, n, st):
        ex = self.ex
        lv = ex.deref(st, lv)
        cur = st.mem.get(lv.key)
        if lv.sel is None:
            if isinstance(v, Arr) or isinstance(v, (Str, ListV)):
                ex.store(st, lv, v, n)          # Eigen assignment resizes the destination
                return v
            if isinstance(cur, Arr) and isinstance(v, Poly):
                w = Arr(cur.dims, v, cur.sort)
                ex.store(st, lv, w, n)
                return w
            if isinstance(v, (Obj, Stream)):
                raise Unsupported('object assignment', n)
            ex.store(st, lv, v, n)
            return v
        if isinstance(v, Arr):
            view = ex.select(st, cur, lv.sel, n)
            if not isinstance(view, Arr):
                raise Unsupported('array assigned to an element', n)
            self.same_dims(view, v, n, st)
        ex.store(st, lv, v, n)
        return v

    # ------------------------------------------------------------ streams
    def stream_op(self, name, argn, n, st):
        ex = self.ex
        a, b = argn
        sv = ex.ev(a, st) if not _is_io(a) else ex.ev(a, st)
        if not isinstance(sv, Stream):
            if name == 'operator<<' and isinstance(sv, Poly):
                raise Unsupported('shift', n)
            raise Unsupported('stream', n)
        if name == 'operator<<':
            item = self.out_item(b, st, n)
            self.emit(sv, item, st, n)
            return sv
        return self.extract(sv, b, n, st)

    def out_item(self, b, st, n):
        ex = self.ex
        c = b
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['kind'] in ('FunctionDecl',):
            return ('manip', c['referencedDecl']['name'], None)
        v = ex.ev(b, st)
        if isinstance(v, Opaque) and isinstance(v.tag, tuple) and v.tag[0] in ('manip', 'fn'):
            return ('manip', v.tag[1], v.tag[2] if len(v.tag) > 2 else None)
        if isinstance(v, Str):
            return ('str', v)
        if isinstance(v, Bool):
            v = br(v)
        if isinstance(v, Poly):
            t = ctype(b)
            if t == 'char' and v.is_const():
                return ('str', Str(chr(int(v.const()))))
            return ('num', v, 'I' if t in X.CINT else 'R')
        if isinstance(v, Arr):
            return ('arr', v)
        if isinstance(v, Opaque):
            return ('opaque', v.tag)
        raise Unsupported('output of %s' % type(v).__name__, n)

    def emit(self, s, item, st, n):
        cur = st.mem.get(s.key, ())
        if isinstance(cur, Str):
            # ostringstream: width/fill honoured for concrete pieces
            fmt = st.mem.get('ghost:state:' + s.key[6:], ())
            if item[0] == 'manip':
                st.mem['ghost:state:' + s.key[6:]] = fmt + ((item[1], item[2]),)
                return
            txt = item[1] if item[0] == 'str' else Str(('num', item[1]))
            d = dict(fmt)
            if 'setw' in d:
                txt = padded(txt, d)
                st.mem['ghost:state:' + s.key[6:]] = tuple(x for x in fmt if x[0] != 'setw')
            st.mem[s.key] = cur + txt
            return
        if not isinstance(cur, tuple):
            raise Unsupported('output after a merge', n)
        if item[0] == 'str' and cur and cur[-1][0] == 'str':
            st.mem[s.key] = cur[:-1] + (('str', cur[-1][1] + item[1]),)
        else:
            st.mem[s.key] = cur + (item,)

    def extract(self, sv, b, n, st):
        import iomodel
        return iomodel.extract(self.ex, sv, b, n, st)

    def fail(self, sv, st, n):
        import iomodel
        return iomodel.fail(self.ex, sv, st, n)

    # ------------------------------------------------------------ methods
    def method(self, name, base, argn, n, st, me):
        ex = self.ex
        base = pointee(me, base)
        bt = ctype(base)
        if 'Eigen::' in bt or is_arr_type(strip_t(bt)):
            return self.eigen(name, base, argn, n, st)
        if me.get('isArrow'):
            p = ex.ev(base, st)
            lv = p.lv if isinstance(p, Ptr) else None
            if lv is None:
                raise Unsupported('method through a pointer', n)
        else:
            lv = ex.lval(base, st)
        lv = ex.deref(st, lv)
        v = ex.load(st, lv, n)
        if isinstance(v, Str):
            if name in ('c_str', 'data'):
                return v
            if name in ('size', 'length'):
                return strlen(v)
            if name == 'empty':
                return eq(strlen(v), 0)
            if name in ('append',):
                ex.store(st, lv, v + tostr(ex.ev(argn[0], st)), n)
                return v
        if isinstance(v, ListV):
            if name == 'size':
                return num(len(v.items))
            if name == 'empty':
                return TRUE if not v.items else FALSE
            if name in ('push_back', 'emplace_back'):
                w = ex.ev(argn[0], st)
                if isinstance(w, Poly):
                    ex.vector_sorts[lv.key] = 'I' if T.is_int(w) else 'R'
                ex.store(st, lv, ListV(v.items + (w,)), n)
                return VOID
            if name == 'clear':
                ex.store(st, lv, ListV(), n)
                return VOID
            if name == 'data':
                return Ptr(LV(lv.key, (('i', ZERO),)))
            if name in ('begin', 'end'):
                return Opaque(('iter', lv, name))
            if name == 'reserve':
                return VOID
            if name in ('at', 'back', 'front'):
                i = {'at': lambda: ex.ev(argn[0], st), 'back': lambda: num(len(v.items) - 1), 'front': lambda: ZERO}[name]()
                return ex.load(st, self.elem_lv(lv, [i], n, st), n)
        if isinstance(v, Arr):         # std::vector with symbolic length
            if name == 'size':
                return v.dims[0]
            if name == 'empty':
                return eq(v.dims[0], 0)
            if name in ('begin', 'end'):
                return Opaque(('iter', lv, name))
            if name in ('push_back', 'emplace_back') and len(v.dims) == 1 and not lv.sel:
                w = ex.ev(argn[0], st)
                if isinstance(w, Poly):
                    ex.store(st, lv, Arr([v.dims[0] + 1], ite(eq(IDX[0], v.dims[0]), w, v.body), v.sort), n)
                    return VOID
            if name == 'clear' and not lv.sel:
                ex.store(st, lv, Arr([ZERO], ZERO, v.sort), n)
                return VOID
            if name in ('reserve', 'shrink_to_fit'):
                return VOID
            if name in ('at', 'back', 'front') and len(v.dims) == 1:
                i = ex.ev(argn[0], st) if name == 'at' else ZERO if name == 'front' else v.dims[0] - 1
                return ex.load(st, self.elem_lv(lv, [i], n, st), n)
        if isinstance(v, Stream):
            if name == 'str':
                return st.mem[v.key]
            import iomodel
            return iomodel.method(ex, v, name, argn, n, st)
        if isinstance(v, Opaque) and name == 'what':
            return Str(('sym', 'what'))
        raise Unsupported('method %s of %s' % (name, type(v).__name__), n)

    def method_lv(self, n, st):
        ex = self.ex
        me = n['inner'][0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        if me['kind'] != 'MemberExpr':
            return None
        base, name, argn = pointee(me, me['inner'][0]), me['name'], n['inner'][1:]
        bt = ctype(base)
        if me.get('isArrow') and base is me['inner'][0]:
            return None
        if not ('Eigen::' in bt or is_arr_type(strip_t(bt))):
            return None
        if name in ('coeffRef', 'coeff', 'operator()', 'operator[]'):
            lv = ex.lval(base, st)
            return self.elem_lv(lv, [ex.ev(a, st) for a in argn], n, st)
        if name in ('col', 'row', 'segment', 'head', 'tail', 'block', 'array', 'matrix', 'derived', 'noalias', 'eval',
                    'leftCols', 'rightCols', 'topRows', 'bottomRows', 'middleCols', 'middleRows'):
            lv = ex.deref(st, ex.lval(base, st))
            v = ex.load(st, lv, n)
            if not isinstance(v, Arr):
                return None
            if name in ('array', 'matrix', 'derived', 'noalias', 'eval'):
                return lv
            if lv.sel is not None:
                return None
            a = [ex.ev(x, st) for x in argn]
            full = [('r', ZERO, d) for d in v.dims]
            if name == 'col':
                self.bound(a[0], v.dims[1], n, st)
                return LV(lv.key, (full[0], ('i', a[0])))
            if name == 'row':
                self.bound(a[0], v.dims[0], n, st)
                return LV(lv.key, (('i', a[0]), full[1]))

            def rng(s, l, d):
                ex.obl('bounds', st, band(ge(s, 0), ge(l, 0), le(s + l, d)), n, 'block in range')
                return ('r', s, l)
            if len(v.dims) == 1:
                d = v.dims[0]
                r = {'segment': lambda: rng(a[0], a[1], d), 'head': lambda: rng(ZERO, a[0], d),
                     'tail': lambda: rng(d - a[0], a[0], d)}.get(name)
                return LV(lv.key, (r(),)) if r else None
            d0, d1 = v.dims
            if name == 'block':
                return LV(lv.key, (rng(a[0], a[2], d0), rng(a[1], a[3], d1)))
            if name == 'leftCols':
                return LV(lv.key, (full[0], rng(ZERO, a[0], d1)))
            if name == 'rightCols':
                return LV(lv.key, (full[0], rng(d1 - a[0], a[0], d1)))
            if name == 'middleCols':
                return LV(lv.key, (full[0], rng(a[0], a[1], d1)))
            if name == 'topRows':
                return LV(lv.key, (rng(ZERO, a[0], d0), full[1]))
            if name == 'bottomRows':
                return LV(lv.key, (rng(d0 - a[0], a[0], d0), full[1]))
            if name == 'middleRows':
                return LV(lv.key, (rng(a[0], a[1], d0), full[1]))
        return None

    def eigen(self, name, base, argn, n, st):
        ex = self.ex
        mlv = self.method_lv(n, st)
        if mlv is not None:
            return ex.load(st, mlv, n)
        if name in ('resize', 'setZero', 'setConstant', 'setOnes', 'conservativeResize', 'fill', 'data', 'setLinSpaced', 'swap', 'begin', 'end'):
            lv = ex.deref(st, ex.lval(base, st))
            v = ex.load(st, lv, n)
            if not isinstance(v, Arr):
                raise Unsupported('%s on %s' % (name, type(v).__name__), n)
            a = [ex.ev(x, st) for x in argn]
            if name == 'data':
                if lv.sel is not None:
                    raise Unsupported('data of a view', n)
                return Ptr(LV(lv.key, ('data',)), dims=v.dims)
            if name in ('begin', 'end'):
                if lv.sel is not None or len(v.dims) != 1:
                    raise Unsupported('iterator', n)
                return Opaque(('iter', lv, name))
            if name in ('setConstant', 'fill') and len(a) == 1:
                ex.store(st, lv, a[0] if lv.sel is not None else Arr(v.dims, a[0], v.sort), n)
                return VOID
            if name in ('setZero', 'setOnes', 'setConstant'):
                val = ZERO if name == 'setZero' else (ONE if name == 'setOnes' else a.pop())
                if lv.sel is not None:
                    ex.store(st, lv, val, n)
                    return VOID
                dims = a if a else v.dims
                self.sizes(dims, n, st)
                ex.store(st, lv, Arr(dims, val, v.sort), n)
                return VOID
            if name == 'resize':
                if len(a) != len(v.dims):
                    raise Unsupported('resize', n)
                self.sizes(a, n, st)
                if all(x is y for x, y in zip(a, v.dims)):
                    return VOID
                un = X.uninit('I' if v.sort == 'I' else 'R', len(a))
                same = band(*[eq(x, y) for x, y in zip(a, v.dims)])
                d = ex.decide(st, same)
                body = v.body if d is True else (un if d is False else ite(same, v.body, un))
                ex.store(st, lv, Arr(a, body, v.sort), n)
                return VOID
            raise Unsupported('Eigen ' + name, n)
        if name in ('size', 'rows', 'cols'):
            v = ex.ev(base, st)
            if not isinstance(v, Arr):
                raise Unsupported(name, n)
            if name == 'size':
                return v.dims[0] if len(v.dims) == 1 else v.dims[0] * v.dims[1]
            if name == 'rows':
                return v.dims[0]
            return v.dims[1] if len(v.dims) == 2 else ONE
        v = ex.ev(base, st)
        if isinstance(v, Arr):
            if name in ('cos', 'sin', 'sqrt', 'abs'):
                return self.math(name, [v], n, st)
            if name == 'square':
                return Arr(v.dims, v.body * v.body, v.sort)
            if name == 'inverse':
                return Arr(v.dims, T.inv(v.body), v.sort)
            if name in ('array', 'matrix', 'eval', 'derived'):
                return v
            if name in ('transpose',) and len(v.dims) == 2:
                return Arr((v.dims[1], v.dims[0]), subst(v.body, {IATOM[0]: IDX[1], IATOM[1]: IDX[0]}), v.sort)
            if name in ('sum', 'mean'):
                ks = [fresh('k', 'I') for _ in v.dims]
                b = subst(v.body, {IATOM[i]: k for i, k in enumerate(ks)})
                for k, d in zip(ks, v.dims):
                    b = mk_sum(k, ZERO, d, b)
                if name == 'mean':
                    b = b * T.inv(T.prod(v.dims))
                return b
            if name in ('maxCoeff', 'minCoeff') and not argn:
                for d in v.dims:
                    ex.obl('bounds', st, ge(d, 1), n, '%s of a non-empty array' % name)
                ks = [fresh('argext', 'I') for _ in v.dims]
                m = fresh('extreme', 'I' if v.sort == 'I' else 'R')
                js = [fresh('k', 'I') for _ in v.dims]
                e = subst(v.body, {IATOM[i]: k for i, k in enumerate(js)})
                b = br(gt(e, m) if name == 'maxCoeff' else lt(e, m))
                for j, d in zip(js, v.dims):
                    b = mk_sum(j, ZERO, d, b)
                st.assume(*[le(0, k) for k in ks], *[lt(k, d) for k, d in zip(ks, v.dims)],
                          eq(m, subst(v.body, {IATOM[i]: k for i, k in enumerate(ks)})), eq(b, 0))
                if len(v.dims) == 1:
                    # instances of the same fact, which the solver can use (and which make its small models true ones)
                    for i in [num(i) for i in range(10)] + [v.dims[0] - 1]:
                        x = v.at(i)
                        st.assume(bor(le(v.dims[0], i), le(x, m) if name == 'maxCoeff' else le(m, x)))
                return m
            if name in ('any', 'all') and not argn:
                return ex.exists(v, st) if name == 'any' else bnot(ex.exists(Arr(v.dims, 1 - v.body, 'I'), st))
            if name == 'dot' and len(v.dims) == 1:
                w = ex.ev(argn[0], st)
                self.same_dims(v, w, n, st)
                k = fresh('k', 'I')
                return mk_sum(k, ZERO, v.dims[0], subst(v.body * w.body, {IATOM[0]: k}))
        raise Unsupported('Eigen method ' + name, n)

    def sizes(self, dims, n, st):
        for d in dims:
            self.ex.obl('bounds', st, ge(d, 0), n, 'array size not negative')

    # ------------------------------------------------------------ construction
    def construct(self, t, argn, n, st, dest=None):
        ex = self.ex
        t0 = strip_t(t)
        real = [a for a in argn if a['kind'] != 'CXXDefaultArgExpr']
        if 'stl_iterator' in t0 and len(real) == 1:
            return ex.ev(real[0], st)
        if is_arr_type(t0):
            s, nd = arr_type(t0)
            if not real:
                return Arr([0] * nd, ZERO, s)
            if len(real) == 1:
                v = ex.ev(real[0], st)
                if isinstance(v, Arr):
                    return v
                if isinstance(v, Poly) and nd == 1:
                    self.sizes([v], n, st)
                    return Arr([v], X.uninit('I' if s == 'I' else 'R', 1), s)
                if isinstance(v, Ref):
                    return ex.load(st, v.lv, n)
            if len(real) == 2 and nd == 2:
                a = self.vals(real, st)
                self.sizes(a, n, st)
                return Arr(a, X.uninit('I' if s == 'I' else 'R', 2), s)
            raise Unsupported('array constructor', n)
        if 'Eigen::' in t0:
            if len(real) == 1:
                return ex.ev(real[0], st)
            raise Unsupported('Eigen temporary', n)
        if t0.startswith(('std::basic_string', 'std::string', 'string')) or t0 == 'std::__cxx11::basic_string<char>':
            if not real:
                return Str('')
            v = ex.ev(real[0], st)
            if isinstance(v, Str) and len(real) == 1:
                return v
            raise Unsupported('string constructor', n)
        if 'vector<' in t0:
            if not real:
                return ListV()
            v = ex.ev(real[0], st)
            if isinstance(v, (ListV, Arr)) and len(real) == 1 or isinstance(v, Opaque):
                return v
            if isinstance(v, Ref) and len(real) == 1:
                return ex.load(st, v.lv, n)
            if isinstance(v, Poly) and len(real) <= 2:
                x = ex.ev(real[1], st) if len(real) == 2 else ZERO
                s = 'R' if 'double' in t0 or 'float' in t0 else 'I'
                if isinstance(x, Poly) and any(q in t0 for q in ('int', 'double', 'float', 'long')):
                    self.sizes([v], n, st)
                    return Arr([v], x, s)
            raise Unsupported('vector constructor %r' % (v,), n)
        if 'stringstream' in t0 or 'fstream' in t0:
            if dest is None:
                dest = ex.fresh_key('stream')
            v = self.default_value(t0, st, dest)
            if real:
                import iomodel
                iomodel.open_(ex, v, [ex.ev(a, st) for a in real], n, st)
            return v
        if len(real) == 1 and t0.split('::')[-1] in ('_Setprecision', '_Setw', '_Setfill<char>', '_Setfill'):
            return ex.ev(real[0], st)
        if t0.endswith(('runtime_error', 'logic_error', 'invalid_argument', 'out_of_range', 'exception')):
            for a in real:
                try:
                    ex.ev(a, st)
                except Unsupported:
                    pass
            return Opaque(('exc', t0))
        if 'initializer_list' in t0:
            return ex.ev(real[0], st)
        cls = t0.split('::')[-1]
        if cls in ex.tu.classes:
            fs = [f for f in ex.tu.find(cls, cls)]
            ctor = [f for f in fs if len(f.params) == len(argn)]
            if not fs and len(argn) == 0:
                key = dest or ex.fresh_key('obj')
                self.init_fields(key, cls, st)
                return Obj(cls)
            if len(ctor) > 1:
                ctor = [f for f in ctor if X.norm_type(f.type) == X.norm_type(n.get('ctorType', {}).get('qualType', ''))] or ctor
            if len(ctor) == 1:
                key = dest or ex.fresh_key('obj')
                st.mem[key] = Obj(cls)
                self.init_fields(key, cls, st)
                ex.user_call(ctor[0], key, argn, st, n)
                return Obj(cls)
        raise Unsupported('construction of ' + t0, n)

    def init_fields(self, key, cls, st):
        """Members before the constructor body: class types default-constructed, the rest indeterminate."""
        for f, d in self.ex.tu.classes[cls].items():
            t = d['type'].get('desugaredQualType', d['type']['qualType'])
            k = key + '.' + f
            if d.get('hasInClassInitializer'):
                e = [c for c in d.get('inner', []) if not c['kind'].endswith('Comment')]
                st.mem[k] = self.ex.coerce(self.ex.ev(e[-1], st), t)
            else:
                st.mem[k] = self.ex.default_value(t, d, st, k)

    # ------------------------------------------------------------ OpenMP
    def omp_check(self, fp, k, N, entry, node, omp):
        """Disjointness of the footprints of two different iterations."""
        ex = self.ex
        shared = [x for x in fp if x[1] in entry.mem and not x[1].startswith('ghost:')]
        # loop variable itself is private
        lvk = ex.omp_private(omp, entry)
        ka = atom_of(k)
        k2 = fresh('k', 'I', 0)
        seen = set()
        for rw, key, sel, pc, nd in shared:
            if rw != 'w' or key in lvk:
                continue
            for rw2, key2, sel2, pc2, nd2 in shared:
                if key2 != key:
                    continue
                tag = (key, sel, rw2, sel2)
                if tag in seen:
                    continue
                seen.add(tag)
                desc = 'iterations do not share %s' % X.short(key)
                if sel is None or sel2 is None or sel == ('data',):
                    ex.obl('race', entry, FALSE, nd, desc)
                    continue
                goals = []
                pcs = list(pc)
                # rename iteration-local symbols of the second access
                ren = {ka: k2}
                names = set()
                for s in sel2:
                    for p in s[1:]:
                        names |= p.syms
                for b in pc2:
                    names |= b.syms
                base = set()
                for b in entry.pc:
                    base |= b.syms
                for nm in names:
                    if ('!' in nm) and nm not in base and nm != ka.name and nm.split('!')[0] in ('k', 'h', 's'):
                        ren[atom_of(var(nm, 'I'))] = fresh('k', 'I')
                pcs += [subst(b, ren) for b in pc2]
                pcs += [le(0, k), lt(k, N), le(0, k2), lt(k2, N), ne(k, k2)]
                for a, b in zip(sel, sel2):
                    if a[0] == 'i' and b[0] == 'i':
                        goals.append(ne(a[1], subst(b[1], ren)))
                    else:
                        al, ah = (a[1], a[1] + 1) if a[0] == 'i' else (a[1], a[1] + a[2])
                        bl, bh = (b[1], b[1] + 1) if b[0] == 'i' else (b[1], b[1] + b[2])
                        bl, bh = subst(bl, ren), subst(bh, ren)
                        goals += [le(ah, bl), le(bh, al)]
                s2 = X.State(entry.mem, pcs)
                ex.obl('race', s2, bor(*goals), nd, desc)


ANY = var('any?', 'I')      # an arbitrary value: what is proved of it holds for all


def list_array(v, sort=None):
    b = ZERO
    for i, x in reversed(list(enumerate(v.items))):
        b = x if b is ZERO and i == len(v.items) - 1 else ite(eq(IDX[0], i), x, b)
    return Arr([num(len(v.items))], b, sort or ('I' if all(T.is_int(x) for x in v.items) else 'R'))


def count(v, x):
    """How often the value x occurs in the array v (std::sort keeps the counts)."""
    for nm, w in SORTED.items():
        if v.body is app(nm, (IDX[0],), 'I') and v.dims == w.dims:
            v = w
    k = fresh('k', 'I')
    return mk_sum(k, ZERO, v.dims[0], br(eq(v.at(k), x)))


SORTED = {}      # name -> the vector it arranges


def sorted_of(v, st):
    """std::sort: a non-decreasing arrangement of the same values (each value occurs as often as before)."""
    nm = 'sorted!%s' % T.stable_name((v.dims, v.body))
    n = v.dims[0]
    r = Arr(v.dims, app(nm, (IDX[0],), 'I' if v.sort == 'I' else 'R'), v.sort)

    def f(x):
        return [bor(lt(x, 0), le(n - 1, x), le(r.at(x), r.at(x + 1)))] if len(str(x)) < 60 else []
    if nm not in S.FACTS:
        S.FACTS[nm] = f
        SORTED[nm] = v
        S.clear_caches()
    return r


def tostr(v):
    if isinstance(v, Str):
        return v
    if isinstance(v, Poly) and v.is_const():
        return Str(chr(int(v.const())))
    raise Unsupported('string conversion')


def strlen(s):
    n = ZERO
    for p in s.parts:
        if isinstance(p, str):
            n = n + len(p.encode())
        else:
            n = n + app('strlen', (repr(p),), 'I')
            T.Ctx.lb[atom_of(app('strlen', (repr(p),), 'I'))] = 0
    return n


def padded(txt, d):
    w = d['setw']
    fill = d.get('setfill')
    c = txt.concrete()
    if c is None and len(txt.parts) == 1 and txt.parts[0][0] == 'num':
        v = txt.parts[0][1]
        if v.is_const():
            c = str(v.const())
    f = chr(int(fill.const())) if isinstance(fill, Poly) else ' '
    if c is not None and w.is_const():
        return Str(c.rjust(int(w.const()), f))
    return Str(('pad', txt.parts, str(w), f))


def _is_io(n):
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'):
        n = n['inner'][0]
    return n['kind'] == 'CXXOperatorCallExpr' and n['inner'][0]['inner'][0].get('referencedDecl', {}).get('name') in ('operator<<', 'operator>>')
