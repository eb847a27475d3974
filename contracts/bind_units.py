"""The Python class under contract (C19): what the module initialisation of bindings.cpp binds to what.

The initialisation function is interpreted from clang's AST: calls on the class_ object are collected in program order
(method chains, variables holding the class, helper functions that take it), and every name is compared with the member
it is bound to; lambdas are read when they do nothing but return a member, assign it or forward their parameters to a
method.  Forms outside this (other lambdas, conditionals) leave the obligation undecided."""
import ast
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
import cxx
from units import unit

PB = ['/opt/boozenv/bin/python', '-m', 'pybind11', '--includes']
WRAP = ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ImplicitCastExpr', 'CXXFunctionalCastExpr', 'ParenExpr', 'CXXStaticCastExpr',
        'ConstantExpr', 'CStyleCastExpr')
CLASS = 'booz_xform::Booz_xform'

INPUTS = '''verbose asym nfp mpol ntor mnmax mpol_nyq ntor_nyq mnmax_nyq xm xn xm_nyq xn_nyq ns_in s_in iota phi chi phip pres
rmnc rmns zmnc zmns lmnc lmns bmnc bmns bsubumnc bsubumns bsubvmnc bsubvmns mboz nboz compute_surfs aspect toroidal_flux'''.split()
OUTPUTS = '''ns_b s_b mnboz xm_b xn_b bmnc_b bmns_b gmnc_b gmns_b rmnc_b rmns_b zmnc_b zmns_b numnc_b numns_b
Boozer_G Boozer_G_all Boozer_I Boozer_I_all'''.split()
METHODS = {
    'read_wout': [('filename', None), ('flux', ('bool', False))],
    'init_from_vmec': [(n, None) for n in 'ns iotas rmnc0 rmns0 zmnc0 zmns0 lmnc0 lmns0 bmnc0 bmns0 bsubumnc0 bsubumns0 bsubvmnc0 bsubvmns0'.split()] +
                      [(n, ('empty', None)) for n in 'phips chi pres phi'.split()],
    'run': [],
    'write_boozmn': [('filename', None)],
    'read_boozmn': [('filename', None)],
}


class Unknown(Exception):
    pass


def strip(n):
    while n['kind'] in WRAP or (n['kind'] == 'CXXConstructExpr' and n.get('inner') and all(c['kind'] == 'CXXDefaultArgExpr' for c in n['inner'][1:])
                                and literal1(n['inner'][0]) is None):
        n = n['inner'][0]
    return n


def literal1(n):
    while n['kind'] in WRAP:
        n = n['inner'][0]
    return True if n['kind'] == 'StringLiteral' else None


def typ(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''


def is_class(n):
    t = n.get('type') or {}
    return any(re.search(r'class_<(booz_xform::)?Booz_xform\b', t.get(k) or '') for k in ('qualType', 'desugaredQualType'))


def literal(n):
    n = strip(n)
    if n['kind'] == 'StringLiteral':
        try:
            return ast.literal_eval(n['value'])
        except (ValueError, SyntaxError):
            return n['value'].strip('"')
    return None


class Walk:
    def __init__(self, path, args):
        self.path, self.args = path, args
        self.binds = []      # (kind, name, value args, node)
        self.free = []       # bindings on the module
        self.odd = []        # what could not be interpreted
        self.classes = []
        self.depth = 0

    def stmt(self, n):
        k = n['kind']
        if k == 'CompoundStmt':
            for c in n.get('inner', []):
                self.stmt(c)
        elif k == 'DeclStmt':
            for c in n['inner']:
                if c['kind'] == 'VarDecl' and c.get('inner'):
                    self.expr(c['inner'][-1])
        elif k in ('NullStmt', 'ReturnStmt'):
            for c in n.get('inner', []):
                self.expr(c)
        elif k.endswith('Stmt') and k not in ('ExprStmt',):
            if self.touches(n):
                self.odd.append('%s at %s' % (k, cxx.where(n)))
        else:
            self.expr(n)

    def touches(self, n):
        if not isinstance(n, dict):
            return False
        if is_class(n):
            return True
        return any(self.touches(c) for c in n.get('inner', []))

    def expr(self, n):
        """Evaluates a class_ chain: innermost call first."""
        n = strip(n)
        k = n['kind']
        if k == 'CXXMemberCallExpr':
            m = strip(n['inner'][0])
            if m['kind'] == 'MemberExpr':
                base = m['inner'][0]
                self.expr(base)
                b = strip(base)
                if is_class(b) or is_class(base):
                    self.binds.append((m['name'], n['inner'][1:], n))
                elif m.get('name') in ('def', 'add_object') and 'module_' in typ(base) + typ(b):
                    self.free.append((m['name'], n['inner'][1:], n))
                elif self.touches(n):
                    self.odd.append('call of %s at %s' % (m.get('name'), cxx.where(n)))
                return
        elif k == 'CXXTemporaryObjectExpr' or k == 'CXXConstructExpr':
            if is_class(n) and n.get('inner') and any(literal(a) for a in n['inner']):
                names = [literal(a) for a in n['inner'] if literal(a) is not None]
                self.classes.append((names, [a for a in n['inner'][1:] if literal(a) is None], n))
                return
            for a in n.get('inner', []):
                if self.touches(a):
                    self.expr(a)
            return
        elif k == 'DeclRefExpr':
            return
        elif k == 'CallExpr' and self.touches(n):
            f = strip(n['inner'][0])
            d = f.get('referencedDecl') or {}
            if d.get('kind') == 'FunctionDecl' and self.depth < 4:
                body = self.body_of(d.get('name'))
                if body is not None:
                    for a in n['inner'][1:]:
                        self.expr(a)
                    self.depth += 1
                    self.stmt(body)
                    self.depth -= 1
                    return
            self.odd.append('call of %s at %s' % (d.get('name'), cxx.where(n)))
        elif k == 'CXXOperatorCallExpr' and not self.touches(n):
            return
        elif self.touches(n):
            self.odd.append('%s at %s' % (k, cxx.where(n)))

    def body_of(self, name):
        for t in cxx.dump(self.path, name, self.args):
            if t.get('kind') == 'FunctionDecl' and t.get('name') == name:
                for c in t.get('inner', []):
                    if c['kind'] == 'CompoundStmt':
                        cxx._fix_lines(t, {'file': self.path})
                        return c
        return None


def member(n):
    """('field'|'method'|'function', name, class or None) of &X::name."""
    n = strip(n)
    if n['kind'] == 'DeclRefExpr' and (n.get('referencedDecl') or {}).get('kind') == 'FunctionDecl':
        return ('function', n['referencedDecl']['name'], None)
    if n['kind'] == 'UnaryOperator' and n.get('opcode') == '&':
        d = strip(n['inner'][0])
        r = d.get('referencedDecl') or {}
        if r.get('kind') in ('FieldDecl', 'CXXMethodDecl'):
            owner = re.search(r'([\w:]+)::\*', typ(n)) or re.search(r'([\w:]+)::\*', (n.get('type') or {}).get('qualType', ''))
            return ({'FieldDecl': 'field', 'CXXMethodDecl': 'method'}[r['kind']], r['name'], owner.group(1) if owner else None)
        if r.get('kind') == 'FunctionDecl':
            return ('function', r['name'], None)
    raise Unknown('bound to %s at %s' % (n['kind'], cxx.where(n)))


def lambda_of(n):
    """(parameter ids, the only statement, return type) of a lambda without captures that does one thing."""
    n = strip(n)
    while n['kind'] in ('CXXConstructExpr', 'CXXFunctionalCastExpr', 'DeclRefExpr') and n['kind'] != 'LambdaExpr':
        if n['kind'] == 'DeclRefExpr' or len(n.get('inner', [])) != 1:
            raise Unknown('bound to %s at %s' % (n['kind'], cxx.where(n)))
        n = strip(n['inner'][0])
    if n['kind'] != 'LambdaExpr':
        raise Unknown('bound to %s at %s' % (n['kind'], cxx.where(n)))
    op = None
    for c in n['inner']:
        if c['kind'] == 'CXXRecordDecl':
            if any(x['kind'] == 'FieldDecl' for x in c.get('inner', [])):
                raise Unknown('lambda with captures at %s' % cxx.where(n))
            for x in c.get('inner', []):
                if x['kind'] == 'CXXMethodDecl' and x.get('name') == 'operator()':
                    op = x
    body = [c for c in n['inner'] if c['kind'] == 'CompoundStmt']
    if op is None or not body:
        raise Unknown('lambda at %s' % cxx.where(n))
    ps = [c for c in op.get('inner', []) if c['kind'] == 'ParmVarDecl']
    st = [c for c in body[-1].get('inner', []) if c['kind'] != 'NullStmt']
    if not ps or len(st) != 1 or not re.search(r'\bBooz_xform &$', (ps[0].get('type') or {}).get('qualType', '')):
        raise Unknown('lambda at %s' % cxx.where(n))
    t = op['type']
    return [c['id'] for c in ps], st[0], re.sub(r'\s*\(.*', '', (t.get('desugaredQualType') or t['qualType'])) if '->' not in t['qualType'] else t['qualType'].split('->')[-1].strip()


def own_member(n, ps):
    """Name of the data member of the lambda's object n denotes."""
    n = strip(n)
    if n['kind'] == 'MemberExpr' and not n.get('isArrow'):
        b = strip(n['inner'][0])
        if b['kind'] == 'DeclRefExpr' and b['referencedDecl']['id'] == ps[0]:
            return n['name']
    return None


def getter(n):
    """('field', name, None, kept by reference?) of a member pointer or a lambda that returns a member."""
    try:
        return member(n) + (True,)
    except Unknown:
        pass
    ps, st, rt = lambda_of(n)
    if len(ps) == 1 and st['kind'] == 'ReturnStmt' and st.get('inner'):
        e = st['inner'][0]
        m = own_member(e, ps)
        if m is None and e['kind'] != 'MemberExpr':
            i = strip(e)
            if i['kind'] == 'CXXConstructExpr' and len(i.get('inner', [])) == 1:
                m = own_member(i['inner'][0], ps)
        if m is not None:
            ref = rt.endswith('&')
            plain = not re.search(r'Eigen|Array|Matrix|Vector|string', rt)
            return ('field', m, None, ref or plain)
    raise Unknown('lambda at %s' % cxx.where(n))


def setter(n):
    ps, st, _ = lambda_of(n)
    st = strip(st)
    if len(ps) == 2 and st['kind'] in ('BinaryOperator', 'CXXOperatorCallExpr'):
        if st['kind'] == 'BinaryOperator':
            ok, lhs, rhs = st.get('opcode') == '=', st['inner'][0], st['inner'][1]
        else:
            ok = (strip(st['inner'][0]).get('referencedDecl') or {}).get('name') == 'operator='
            lhs, rhs = st['inner'][1], st['inner'][2]
        m, v = own_member(lhs, ps), strip(rhs)
        if ok and m is not None and v['kind'] == 'DeclRefExpr' and v['referencedDecl']['id'] == ps[1]:
            return m
    raise Unknown('lambda at %s' % cxx.where(n))


def forwards(n):
    """('method', name, None) of a method pointer or of a lambda that passes its parameters on in order."""
    try:
        return member(n)
    except Unknown:
        pass
    ps, st, _ = lambda_of(n)
    if st['kind'] == 'ReturnStmt':
        st = st['inner'][0]
    st = strip(st)
    if st['kind'] == 'CXXMemberCallExpr':
        f = strip(st['inner'][0])
        args = [strip(x) for x in st['inner'][1:]]
        args = [strip(a['inner'][0]) if a['kind'] == 'CXXConstructExpr' and len(a.get('inner', [])) == 1 else a for a in args]
        if own_member(f, ps) is not None and all(a['kind'] == 'DeclRefExpr' for a in args):
            ids = [a['referencedDecl']['id'] for a in args]
            if ids == ps[1:]:
                return ('method', f['name'], 'Booz_xform')
            if sorted(ids) == sorted(ps[1:]):
                return ('method with its parameters permuted', f['name'], None)
    raise Unknown('lambda at %s' % cxx.where(n))


def argument(n):
    """(name, default) of a py::arg; None for other annotations."""
    n = strip(n)
    t = (n.get('type') or {}).get('qualType', '')
    k = n['kind']
    if k == 'UserDefinedLiteral':
        f = strip(n['inner'][0])
        if (f.get('referencedDecl') or {}).get('name') == 'operator""_a':
            return (literal(n['inner'][1]), None)
    if k == 'CXXOperatorCallExpr' and 'arg_v' in t:
        f = strip(n['inner'][0])
        if (f.get('referencedDecl') or {}).get('name') == 'operator=':
            a = argument(n['inner'][1])
            return (a[0], value(n['inner'][2]))
    if k in ('CXXTemporaryObjectExpr', 'CXXConstructExpr'):
        ins = [a for a in n.get('inner', []) if a['kind'] != 'CXXDefaultArgExpr']
        if ins and literal(ins[0]) is not None:
            if len(ins) == 1 and re.search(r'\barg$', t):
                return (literal(ins[0]), None)
            if len(ins) == 2 and re.search(r'\barg_v$', t):
                return (literal(ins[0]), value(ins[1]))
    if k == 'StringLiteral' and re.search(r'\barg$', t):
        return (literal(n), None)
    raise Unknown('argument annotation %s at %s' % (k, cxx.where(n)))


def value(n):
    n = strip(n)
    if n['kind'] == 'CXXBoolLiteralExpr':
        return ('bool', bool(n['value']))
    if n['kind'] == 'DeclRefExpr':
        return ('var', n['referencedDecl'].get('name'))
    if n['kind'] == 'IntegerLiteral':
        return ('int', int(n['value']))
    raise Unknown('default value %s' % n['kind'])


def empty_vector(name):
    """Is the named namespace variable a reference to (or itself) a vector of size zero?"""
    tops = cxx.dump(os.path.join(cxx.REPO, cxx.SRC, 'booz_xform.cpp'), name)
    for t in tops:
        if t.get('kind') == 'VarDecl' and t.get('name') == name and t.get('inner'):
            e = strip(t['inner'][-1])
            if e['kind'] == 'DeclRefExpr':
                return empty_vector(e['referencedDecl']['name'])
            if e['kind'] == 'CallExpr' and (strip(e['inner'][0]).get('referencedDecl') or {}).get('name') == 'Zero':
                a = strip(e['inner'][1])
                if a['kind'] == 'IntegerLiteral':
                    return int(a['value']) == 0
            if e['kind'] == 'CXXConstructExpr' and not e.get('inner'):
                return True
            return None
    return None


def norm(n):
    n = (n or '').rstrip('0')
    return 'phip' if n == 'phips' else n


def parameters():
    """Parameter names of the methods as defined."""
    out, jobs, ex = {}, {}, ThreadPoolExecutor(6)
    for f in sorted(os.listdir(os.path.join(cxx.REPO, cxx.SRC))):
        if not f.endswith('.cpp') or f == 'bindings.cpp':
            continue
        txt = open(os.path.join(cxx.REPO, cxx.SRC, f)).read()
        for m in METHODS:
            if re.search(r'Booz_xform\s*::\s*%s\s*\(' % m, txt):
                jobs[m, f] = ex.submit(cxx.dump, os.path.join(cxx.REPO, cxx.SRC, f), 'Booz_xform::' + m)
    for (m, f), j in jobs.items():
        for t in j.result():
            if t.get('kind') == 'CXXMethodDecl' and t.get('name') == m and any(c['kind'] == 'CompoundStmt' for c in t.get('inner', [])):
                out[m] = [c.get('name') for c in t.get('inner', []) if c['kind'] == 'ParmVarDecl']
    return out


def own_fields():
    """Names of the data members of Booz_xform."""
    out = set()
    for t in cxx.dump(os.path.join(cxx.REPO, cxx.SRC, 'booz_xform.cpp'), 'Booz_xform'):
        if t.get('kind') == 'CXXRecordDecl' and t.get('name') == 'Booz_xform':
            out |= {c['name'] for c in t.get('inner', []) if c['kind'] == 'FieldDecl' and 'name' in c}
    return out


@unit('bindings', ['C19'])
def u_bindings(r):
    path = os.path.join(cxx.REPO, cxx.SRC, 'bindings.cpp')
    p = subprocess.run(PB, capture_output=True, text=True)
    args = ['-std=c++17'] + p.stdout.split()
    fn = 'pybind11_init__booz_xform (bindings.cpp)'
    r.functions.add(fn)
    r.trusted |= {'pybind11: def_readwrite/def_readonly/def expose exactly the member they are given; keywords name the parameters in order; defaults are passed when an argument is left out'}
    tops = [t for t in cxx.dump(path, 'pybind11_init__booz_xform', args) if t.get('kind') == 'FunctionDecl' and any(c['kind'] == 'CompoundStmt' for c in t.get('inner', []))]

    def add(desc, ok, info=None, node=None):
        st = {True: 'proved', False: 'refuted', None: 'unknown'}[ok]
        r.add(['C19'], 'post', desc, st, 'normal_form', cxx.where(node) if node else 'bindings.cpp', 0, info if ok is not True else None, fn)

    if len(tops) != 1:
        add('the module initialisation is found', None, {'found': len(tops)})
        return
    cxx._fix_lines(tops[0], {'file': path})
    w = Walk(path, args)
    for c in tops[0]['inner']:
        if c['kind'] == 'CompoundStmt':
            w.stmt(c)
    add('every statement that touches the class is interpreted', True if not w.odd else None, {'odd': w.odd[:5]})
    named = [c for c in w.classes if c[0][0] == 'Booz_xform']
    add('the class is exported as Booz_xform, once', (len(w.classes) == 1 and len(named) == 1 and not named[0][1]) or (False if not w.odd and not named and w.classes else None),
        {'classes': [c[0] for c in w.classes]})

    table, inits = {}, []
    for kind, a, node in w.binds:
        if kind == 'def' and a and 'initimpl' in typ(strip(a[0])) + (strip(a[0]).get('type') or {}).get('qualType', ''):
            inits.append((a, node))
            continue
        name = literal(a[0]) if a else None
        if name is None:
            add('binding %s has a literal name' % kind, None, node=node)
            continue
        table.setdefault(name, []).append((kind, a[1:], node))
    if len(inits) == 1 and len(inits[0][0]) == 1 and re.search(r'constructor<\s*>', (strip(inits[0][0][0]).get('type') or {}).get('qualType', '')):
        add('Booz_xform() is the default constructor', True)
    else:
        add('Booz_xform() is the default constructor', None if w.odd or inits else False, {'constructors': len(inits)})

    def attribute(name, kinds, what):
        bs = table.get(name, [])
        if not bs:
            add('%s %s is exported' % (what, name), None if w.odd else False, {'bound': []})
            return
        kind, a, node = bs[-1]        # a later binding of the name replaces the earlier one
        if kind in ('def_property', 'def_property_readonly'):
            try:
                g = getter(a[0])
                sm = setter(a[1]) if kind == 'def_property' else None
                rest = a[2 if kind == 'def_property' else 1:]
                if any(literal(x) is None for x in rest):
                    raise Unknown('annotations of %s' % name)
            except (Unknown, KeyError, IndexError) as e:
                add('%s %s is the member of that name' % (what, name), None, {'form': str(e)}, node)
                return
            ok = g[0] == 'field' and g[1] == name and (g[2] is None or g[2].split('::')[-1] == 'Booz_xform') and sm in (None, name)
            # an array returned by value is a copy: assignments to its elements from Python would be lost
            add('%s %s is the member of that name' % (what, name), (True if g[3] else None) if ok else False, {'reads': g[1], 'writes': sm, 'by reference': g[3]}, node)
            if kinds:
                add('%s %s is readable%s' % (what, name, ' and writable' if kinds == ('def_readwrite',) else ''), kinds != ('def_readwrite',) or sm is not None, {'form': kind}, node)
            return
        if kind not in ('def_readwrite', 'def_readonly'):
            # static attributes and methods are certainly not the member; properties need a reading of their code
            add('%s %s is the member of that name' % (what, name), None, {'form': kind}, node)
            return
        try:
            m = member(a[0])
            if any(literal(x) is None for x in a[1:]):
                raise Unknown('annotations of %s' % name)
        except Unknown as e:
            add('%s %s is the member of that name' % (what, name), None, {'form': str(e)}, node)
            return
        same_class = m[2] is None or m[2].split('::')[-1] == 'Booz_xform'
        add('%s %s is the member of that name' % (what, name), m[0] == 'field' and m[1] == name and same_class, {'bound to': m}, node)
        if kinds:
            add('%s %s is readable%s' % (what, name, ' and writable' if kinds == ('def_readwrite',) else ''), kind in kinds, {'form': kind}, node)

    for n in INPUTS:
        attribute(n, ('def_readwrite',), 'input')
    for n in OUTPUTS:
        attribute(n, ('def_readonly', 'def_readwrite'), 'output')
    own = own_fields()
    for n in sorted(table):
        # a name of the exporter's own (an alias, a property) is nobody's documented attribute
        if n in own and n not in INPUTS and n not in OUTPUTS and n not in METHODS and table[n][-1][0].startswith('def_read'):
            attribute(n, None, 'further attribute')

    params = parameters()
    for name, doc in METHODS.items():
        bs = table.get(name, [])
        if len(bs) != 1 or bs[0][0] != 'def':
            add('method %s is exported once' % name, None if w.odd or bs else False, {'bound': [b[0] for b in bs]})
            continue
        kind, a, node = bs[0]
        try:
            m = forwards(a[0])
        except (Unknown, KeyError, IndexError) as e:
            add('method %s calls the C++ method of that name' % name, None, {'form': str(e)}, node)
            continue
        add('method %s calls the C++ method of that name' % name, m[0] == 'method' and m[1] == name and (m[2] is None or m[2].split('::')[-1] == 'Booz_xform'),
            {'bound to': m}, node)
        try:
            kw = [argument(x) for x in a[1:] if literal(x) is None or 'arg' in (strip(x).get('type') or {}).get('qualType', '')]
        except Unknown as e:
            add('keywords of %s' % name, None, {'form': str(e)}, node)
            continue
        add('keywords of %s in the documented order' % name, [k for k, _ in kw] == [k for k, _ in doc], {'got': [k for k, _ in kw], 'documented': [k for k, _ in doc]}, node)
        for (k, got), (dk, want) in zip(kw, doc):
            if k != dk:
                continue
            if got is not None and got[0] == 'var':
                e = empty_vector(got[1])
                got = ('empty', None) if e else (('var', got[1]) if e is None else ('not empty', got[1]))
            ok = got == want
            if not ok and got is not None and got[0] == 'var':
                ok = None
            add('default of %s(%s)' % (name, k), ok, {'got': got, 'documented': want}, node)
        cp = params.get(name)
        if cp is None or len(cp) != len(doc):
            add('parameters of C++ %s' % name, None, {'found': cp}, node)
        elif [norm(x) for x in cp] == [norm(k) for k, _ in doc]:
            add('the k-th keyword of %s is the k-th C++ parameter' % name, True, None, node)
        elif sorted(norm(x) for x in cp) == sorted(norm(k) for k, _ in doc):
            add('the k-th keyword of %s is the k-th C++ parameter' % name, False, {'C++': cp, 'documented': [k for k, _ in doc]}, node)
        else:
            # renamed parameters: the contract of the method (C10, C12, C14, C15) speaks about positions
            add('the k-th keyword of %s is the k-th C++ parameter' % name, None, {'C++': cp}, node)
        doctext = [literal(x) for x in a[1:] if literal(x) is not None and 'arg' not in (strip(x).get('type') or {}).get('qualType', '')]
        said = re.findall(r':param\s+(\w+)\s*:', doctext[0]) if doctext else []
        add('every documented parameter of %s is a keyword' % name, set(said) <= {k for k, _ in kw}, {'documented': said, 'keywords': [k for k, _ in kw]}, node)

    # module function and package
    om = [(literal(a[0]), a, n) for k, a, n in w.free if a and literal(a[0]) == 'omp_max_threads']
    try:
        ok = member(om[0][1][1])[1] == 'omp_max_threads' if len(om) == 1 and len(om[0][1]) > 1 else (False if not om and not w.odd else None)
        add('omp_max_threads calls the C++ function of that name', ok, {'found': len(om)}, om[0][2] if om else None)
    except Unknown as e:
        add('omp_max_threads calls the C++ function of that name', None, {'form': str(e)})
    exports(add)


def exports(add):
    """booz_xform.Booz_xform and booz_xform.omp_max_threads are the extension's."""
    p = os.path.join(cxx.REPO, 'src', 'booz_xform', '__init__.py')
    t = ast.parse(open(p).read())
    for name in ('Booz_xform', 'omp_max_threads'):
        hits = []
        for st in ast.walk(t):
            if isinstance(st, ast.ImportFrom):
                for al in st.names:
                    if (al.asname or al.name) == name:
                        hits.append((st.level, st.module, al.name))
                    if al.name == '*':
                        hits.append(None)
            elif isinstance(st, ast.Import):
                hits += [None for al in st.names if (al.asname or al.name.split('.')[0]) == name]
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name == name:
                hits.append(None)
            elif isinstance(st, ast.Name) and st.id == name and not isinstance(st.ctx, ast.Load):
                hits.append(None)
        good = (1, '_booz_xform', name)
        add('booz_xform.%s is the extension\'s' % name, True if hits == [good] else (False if not hits or (len(hits) == 1 and hits[0] is not None and hits[0][1] == '_booz_xform') else None),
            {'found': [str(h) for h in hits]})
