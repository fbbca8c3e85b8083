"""Canonical form of matrix expressions: non-commutative polynomials over matrix atoms with commutative scalar factors
(1x1 chains).  Equality of canonical forms is equality over the reals (rounding and NaN propagation are outside)."""
from fractions import Fraction
import z3
import terms as T
from terms import *

# polynomial: {(scalars, chain): Fraction};  scalars: sorted tuple of (key, power), chain: tuple of atoms
# atom: (key, shape, transposed) with shape in 'v' (column), 'm'; key: nested tuples of strings/ints
_names = {}


def akey(t):
    if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort().name() in ('Vec', 'Mat'):
        # congruence: equal arguments give equal applications
        ks = []
        for a in t.children():
            s = a.sort().name()
            if s in ('Vec', 'Mat', 'Row', 'One'):
                ks.append(pkey(nf(a)))
            else:
                ks.append(('a', a.get_id(), _keep(a)))
        return ('f', t.decl().name(), tuple(ks))
    return ('a', t.get_id(), _keep(t))


def _keep(t):
    _names[t.get_id()] = t
    return dname(t) or 't'


def padd(p, q, c=1):
    r = dict(p)
    for k, v in q.items():
        x = r.get(k, 0) + c * v
        if x:
            r[k] = x
        else:
            r.pop(k, None)
    return r


def smul_s(a, b):
    d = dict(a)
    for k, p in b:
        d[k] = d.get(k, 0) + p
    return tuple(sorted(((k, p) for k, p in d.items() if p), key=repr))


def is_row(a):
    return a[1] == 'v' and a[2]


def is_col(a):
    return a[1] == 'v' and not a[2]


def ctrans(ch):
    return tuple((k, s, (not t) if not (s == 'm' and k[0] == 'sym') else t) for k, s, t in reversed(ch))


def canon_chain(ch):
    """split the chain at inner dimension 1; middle 1x1 pieces become scalars"""
    ch = simplify_chain(ch)
    segs, cur = [], []
    for i, a in enumerate(ch):
        cur.append(a)
        if is_col(a) and i + 1 < len(ch):
            segs.append(tuple(cur))
            cur = []
    if cur:
        segs.append(tuple(cur))
    sc, rest = (), []
    for s in segs:
        if is_row(s[0]) and is_col(s[-1]):
            u = ctrans(s)
            k = ('s',) + min(s, u, key=repr)
            sc = smul_s(sc, ((k, 1),))
        else:
            rest.append(s)
    return sc, tuple(a for s in rest for a in s)


def simplify_chain(ch):
    ch = list(ch)
    i = 0
    while i + 1 < len(ch):
        a, b = ch[i], ch[i + 1]
        if a[1] == 'm' and b[1] == 'm' and a[2] == b[2]:
            if a[0][0] == 'inv' and a[0][1] == (b[0],) or b[0][0] == 'inv' and b[0][1] == (a[0],):
                del ch[i:i + 2]
                i = max(i - 1, 0)
                continue
        i += 1
    return tuple(ch)


def pmul(p, q):
    r = {}
    for (s1, c1), v1 in p.items():
        for (s2, c2), v2 in q.items():
            sc, ch = canon_chain(c1 + c2)
            k = (smul_s(smul_s(s1, s2), sc), ch)
            x = r.get(k, 0) + v1 * v2
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return r


def ptrans(p):
    r = {}
    for (s, c), v in p.items():
        sc, ch = canon_chain(ctrans(c))
        k = (smul_s(s, sc), ch)
        r[k] = r.get(k, 0) + v
    return r


def pscale(sp, p):
    return pmul(sp, p)


def pkey(p):
    return tuple(sorted(((k, str(v)) for k, v in p.items()), key=repr))


def pinv_scalar(p):
    """reciprocal of a scalar polynomial"""
    if len(p) == 1:
        (s, c), v = next(iter(p.items()))
        if not c:
            return {(tuple((k, -n) for k, n in s), ()): 1 / v}
    if not p:
        return {(((('div0',), 1),), ()): Fraction(1)}
    # common content: factor out the leading coefficient so that proportional denominators agree
    lead = sorted(p.items(), key=lambda x: repr(x[0]))[0][1]
    q = {k: v / lead for k, v in p.items()}
    return {(((('den', pkey(q)), -1),), ()): 1 / lead}


class NF:
    def __init__(self):
        self.cache = {}
        self.keep = []

    def __call__(self, t):
        i = t.get_id()
        r = self.cache.get(i)
        if r is None:
            self.keep.append(t)
            r = self.cache[i] = self.go(t)
        return r

    def go(self, t):
        s = t.sort().name() if not z3.is_real(t) else 'Real'
        d = dname(t)
        one = {((), ()): Fraction(1)}
        if z3.is_real(t):
            return self.real(t)
        if t.sort() == T.F:
            return self(T.TH.re(t)) if T.TH.name == 'RN' else {((((akey(t)), 1),), ()): Fraction(1)}
        if s in ('Vec', 'Mat', 'Row', 'One'):
            if d in ('v_add', 'm_add', 'r_add', 'o_add'):
                return padd(self(t.arg(0)), self(t.arg(1)))
            if d in ('v_neg', 'm_neg', 'r_neg', 'o_neg'):
                return padd({}, self(t.arg(0)), -1)
            if d.endswith('_scale'):
                return pmul(self(t.arg(0)), self(t.arg(1)))
            if d.endswith('_div'):
                return pmul(pinv_scalar(self(t.arg(0))), self(t.arg(1)))
            if d in ('mv', 'mm', 'vr', 'rm', 'rv', 'vo', 'or', 'oo'):
                return pmul(self(t.arg(0)), self(t.arg(1)))
            if d in ('v_t', 'r_t', 'm_t'):
                return ptrans(self(t.arg(0)))
            if d == 'INV':
                p = self(t.arg(0))
                return {((), ((self.invkey(p), 'm', False),)): Fraction(1)}
            if d == 'mmk' and self.is_identity(t):
                return one
            if isite(t):
                return {((), ((akey(t), 'v' if s == 'Vec' else 'm', False),)): Fraction(1)} if s in ('Vec', 'Mat') else self.opaque(t, s)
            if s == 'Vec':
                if d == 'vmk':
                    p = self.elementwise(t)
                    if p is not None:
                        return p
                return {((), ((akey(t), 'v', False),)): Fraction(1)}
            if s == 'Mat':
                return {((), ((akey(t), 'm', False),)): Fraction(1)}
            return self.opaque(t, s)
        return {(((akey(t), 1),), ()): Fraction(1)}

    def opaque(self, t, s):
        if s == 'Row':
            return {((), ((akey(t), 'v', True),)): Fraction(1)}
        return {(((akey(t), 1),), ()): Fraction(1)}

    def is_identity(self, t):
        a = t.arg(2)
        if not z3.is_quantifier(a):
            return False
        i, j = z3.Int('i?'), z3.Int('j?')
        e = sel(a, i, j)
        try:
            return z3.is_true(z3.simplify(mkimp(i == j, T.TH.ident(e, T.TH.num(1))))) and z3.is_true(z3.simplify(mkimp(i != j, T.TH.ident(e, T.TH.num(0)))))
        except z3.Z3Exception:
            return False

    def elementwise(self, t):
        """a vector given element by element, as a combination of vectors (None: not one)"""
        n, a = t.arg(0), t.arg(1)
        if T.TH.name != 'RN' or not z3.is_quantifier(a):
            return None
        k = z3.FreshConst(I, 'k')
        ks = {k.get_id()}

        def dep(x):
            return k.decl().name() in symbols(x)

        def inside(c):
            q = z3.Solver()
            q.set('timeout', 500)
            q.add(0 <= k, k < n, z3.Not(c))
            return q.check() == z3.unsat

        def go(x):
            if isite(x):
                c = x.arg(0)
                return go(x.arg(1)) if inside(c) else go(x.arg(2)) if inside(z3.Not(c)) else None
            if x.sort() == T.F:
                if dname(x) == 'vat' and x.arg(1).eq(k) and not dep(x.arg(0)) and self.samelen(vlen(x.arg(0)), n):
                    return self(x.arg(0))
                y = T.TH.re(x)
                return None if y.eq(x) or (y.decl().kind() == z3.Z3_OP_DT_ACCESSOR and y.arg(0).eq(x)) else go(y)
            if not dep(x):
                # a constant vector is not a combination of the vectors
                return {} if z3.is_rational_value(x) and x.numerator_as_long() == 0 else None
            kd, ch = x.decl().kind(), x.children()
            if kd == z3.Z3_OP_DT_ACCESSOR and dname(x) == 're':
                return go(x.arg(0))
            if kd in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
                ps = [go(c) for c in ch]
                if any(p is None for p in ps):
                    return None
                r = padd({}, ps[0], -1 if kd == z3.Z3_OP_UMINUS else 1)
                for p in ps[1:]:
                    r = padd(r, p, 1 if kd == z3.Z3_OP_ADD else -1)
                return r
            if kd == z3.Z3_OP_MUL:
                d = [c for c in ch if dep(c)]
                p = go(d[0]) if len(d) == 1 else None
                for c in ch:
                    if p is not None and not dep(c):
                        p = pmul(self(c), p)
                return p
            if kd == z3.Z3_OP_DIV and not dep(ch[1]):
                p = go(ch[0])
                return None if p is None else pmul(pinv_scalar(self(ch[1])), p)
            return None
        return go(sel(a, k))

    def samelen(self, a, b):
        if a.eq(b) or is_true(mkeq(a, b)):
            return True
        q = z3.Solver()
        q.set('timeout', 500)
        f = z3.Not(a == b)
        for x in T.AX.about([f]) + [f]:
            q.add(x)
        return q.check() == z3.unsat

    def invkey(self, p):
        if len(p) == 1:
            (s, c), v = next(iter(p.items()))
            if not s and len(c) == 1 and v == 1 and not c[0][2]:
                if c[0][0][0] == 'inv':
                    pass
                return ('inv', (c[0][0],))
        return ('inv', ('poly', pkey(p)))

    def real(self, t):
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return {((), ()): f} if f else {}
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = padd(r, self(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self(ch[0])
            for c in ch[1:]:
                r = padd(r, self(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return padd({}, self(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = {((), ()): Fraction(1)}
            for c in ch:
                r = pmul(r, self(c))
            return r
        if k == z3.Z3_OP_DIV:
            return pmul(self(ch[0]), pinv_scalar(self(ch[1])))
        if k == z3.Z3_OP_DT_ACCESSOR and dname(t) == 're':
            a = t.arg(0)
            if dname(a) == 'oat':
                return self(a.arg(0))
            return {(((akey(a), 1),), ()): Fraction(1)}
        return {(((akey(t), 1),), ()): Fraction(1)}


nf = NF()


def alg_eq(a, b):
    if a.eq(b):
        return True
    if a.sort() != b.sort():
        return False
    return not padd(nf(a), nf(b), -1)


def show(p):
    def at(a):
        k, s, t = a
        return sk(k) + ("'" if t else '')

    def sk(k):
        if k[0] == 'f':
            return k[1]
        if k[0] == 'a':
            t = _names.get(k[1])
            return str(t)[:40] if t is not None and t.num_args() <= 2 else k[2]
        if k[0] == 'inv':
            return 'INV(%s)' % (sk(k[1][0]) if k[1][0] != 'poly' else '..')
        if k[0] == 's':
            return '(' + ' '.join(at(a) for a in k[1:]) + ')'
        if k[0] == 'den':
            return '[den]'
        return str(k)[:20]
    return ' + '.join('%s%s%s' % (v, ''.join('*%s^%d' % (sk(k), n) for k, n in s), ('*' + ' '.join(at(a) for a in c)) if c else '') for (s, c), v in p.items()) or '0'
