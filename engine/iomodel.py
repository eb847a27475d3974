"""Model of std::ifstream: the results of successive extractions are uninterpreted.

Extraction number p (0, 1, ...) of an int yields in_i(p) when in_i_ok(p) = 1; otherwise the stream fails, and stays failed.
in_s_ok(p) = 1 when a word can be extracted; the word is `word@p`.  The file opens when the Boolean `opens` holds.
At most LIM ints can be extracted (so that counters do not overflow): an assumption on the input file."""
import term as T
import solve as S
import sym as X
from term import Poly, TRUE, FALSE, ZERO, band, bor, bnot, le, lt, ge, gt, eq, ne, app, ite, num
from sym import Str, Opaque, Unsupported, VOID, ctype, strip_t

LIM = 1 << 24
OPENS = T.bvar('opens')


def ok(kind, p):
    return eq(app('in_%s_ok' % kind, (T.P(p),), 'I'), 1)


def facts():
    """Facts about the uninterpreted file (S.reset() forgets them)."""
    for k in 'is':
        S.FACTS['in_%s_ok' % k] = lambda p, k=k: [le(0, app('in_%s_ok' % k, (p,), 'I')), le(app('in_%s_ok' % k, (p,), 'I'), 1),
                                                  bor(le(p, LIM), eq(app('in_%s_ok' % k, (p,), 'I'), 0))]
    S.FACTS['in_i'] = lambda p: [le(-X.INT_MAX - 1, app('in_i', (p,), 'I')), le(app('in_i', (p,), 'I'), X.INT_MAX)]


def keys(v):
    k = v.key[6:]
    return 'ghost:inpos:' + k, 'ghost:infail:' + k, 'ghost:inopen:' + k


def open_(ex, v, args, n, st):
    kp, kf, ko = keys(v)
    a = args[0]
    if not isinstance(a, Str):
        raise Unsupported('file name', n)
    ex.trusted.add('std::ifstream (in_i, in_s: uninterpreted results of the extractions)')
    st.mem['ghost:files'] = st.mem.get('ghost:files', ()) + (a,)
    if len(st.mem['ghost:files']) > 1:
        raise Unsupported('several text files', n)
    st.mem[kp], st.mem[kf], st.mem[ko] = ZERO, bnot(OPENS), OPENS


def extract(ex, sv, b, n, st):
    kp, kf, ko = keys(sv)
    if kp not in st.mem:
        raise Unsupported('extraction from this stream', n)
    lv = ex.lval(b, st)
    t = strip_t(ctype(b))
    p, f = st.mem[kp], st.mem[kf]
    if t == 'int':
        o = ok('i', p)
        old = ex.load(st, lv, n)
        new = app('in_i', (p,), 'I')
        d = ex.decide(st, f)
        val = ite(o, new, 0)
        if d is not False:
            val = old if d is True else ite(f, old, val)
        ex.store(st, lv, val, n)
    elif 'string' in t:
        o = ok('s', p)
        if not p.is_const():
            raise Unsupported('word at a symbolic position', n)
        ex.store(st, lv, Str(('sym', 'word@%d' % int(p.const()))), n)
    else:
        raise Unsupported('extraction of ' + t, n)
    st.mem[kp] = p + 1
    st.mem[kf] = bor(f, bnot(o))
    return sv


def fail(ex, sv, st, n):
    kp, kf, ko = keys(sv)
    if kf not in st.mem:
        raise Unsupported('state of this stream', n)
    return st.mem[kf]


def method(ex, v, name, argn, n, st):
    kp, kf, ko = keys(v)
    if name == 'open':
        open_(ex, v, [ex.ev(a, st) for a in argn[:1]], n, st)
        return VOID
    if name == 'fail':
        return fail(ex, v, st, n)
    if name == 'operator bool':
        return bnot(fail(ex, v, st, n))
    if name == 'is_open':
        return st.mem.get(ko, FALSE)
    if name == 'close':
        if ko in st.mem:
            st.mem[ko] = FALSE
            return VOID
    if name in ('flush',):
        return VOID
    raise Unsupported('stream method ' + name, n)
