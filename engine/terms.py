"""Sorts, smart constructors and pointwise rewriting for the verification conditions.

Everything is a z3 term.  Two float theories:
  RN  reals with a NaN flag (machine arithmetic treated as mathematical) -- used for most contracts
  FP  IEEE binary64 (z3 Float64)                                        -- used for leaf numeric contracts
"""
import struct
from fractions import Fraction
import z3
from z3 import Int, IntVal, Bool, BoolVal, And, Or, Not, If, Implies, is_true, is_false, is_int_value

I = z3.IntSort()
B = z3.BoolSort()
Vec = z3.DeclareSort('Vec')      # n x 1
Row = z3.DeclareSort('Row')      # 1 x n
Mat = z3.DeclareSort('Mat')      # n x m
One = z3.DeclareSort('One')      # 1 x 1
Str = z3.DeclareSort('Str')
U = z3.DeclareSort('U')          # opaque values
TP = z3.DeclareSort('TP')        # generic parameter types (iterative variables)



class Axioms(list):
    """ground facts valid everywhere, indexed by the constants they are about"""
    def __init__(self):
        super().__init__()
        self.ids, self.by, self.always = set(), {}, []

    def append(self, a):
        if a.get_id() in self.ids:
            return
        self.ids.add(a.get_id())
        super().append(a)
        cs = consts(a)
        if not cs:
            self.always.append(a)
        for c in cs:
            self.by.setdefault(c, []).append(a)

    def clear(self):
        super().clear()
        self.ids, self.by, self.always = set(), {}, []

    def about(self, ts, have=None):
        """the facts about the constants of ts (closed); have: ids already known"""
        have = set() if have is None else have
        out, work, seen = [], [c for t in ts for c in consts(t)], set()
        while work:
            c = work.pop()
            if c in seen:
                continue
            seen.add(c)
            for a in self.by.get(c, ()):
                if a.get_id() not in have:
                    have.add(a.get_id())
                    out.append(a)
                    work.extend(consts(a))
        for a in self.always:
            if a.get_id() not in have:
                have.add(a.get_id())
                out.append(a)
        return out


_nm = {}


def names(t):
    """names of the uninterpreted constants and functions of a term ('?quant' if it has a quantifier or lambda)"""
    r = _nm.get(t.get_id())
    if r is not None:
        return r[1]
    seen, acc, st = set(), set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        r = _nm.get(i)
        if r is not None:
            acc |= r[1]
        elif z3.is_quantifier(x):
            acc.add('?quant')
            st.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(d.name())
            st.extend(x.children())
    _nm[t.get_id()] = (t, frozenset(acc))
    return _nm[t.get_id()][1]


_consts = {}


def consts(t):
    """names of the uninterpreted constants of a term"""
    r = _consts.get(t.get_id())
    if r is None:
        r = frozenset(symbols(t))
        _consts[t.get_id()] = r = (t, r)
    return r[1]


AX = Axioms()

TRUE, FALSE = BoolVal(True), BoolVal(False)


def isv(t):
    return is_int_value(t)


def mkand(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = mkand(*c)
        if is_true(c):
            continue
        if is_false(c):
            return FALSE
        out.append(c)
    return TRUE if not out else out[0] if len(out) == 1 else And(*out)


def mkor(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = mkor(*c)
        if is_false(c):
            continue
        if is_true(c):
            return TRUE
        out.append(c)
    return FALSE if not out else out[0] if len(out) == 1 else Or(*out)


def mknot(c):
    if is_true(c):
        return FALSE
    if is_false(c):
        return TRUE
    if z3.is_not(c):
        return c.arg(0)
    return Not(c)


def mkimp(a, b):
    if is_true(a) or is_true(b):
        return b
    if is_false(a):
        return TRUE
    return Implies(a, b)


def mkif(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    if a.sort() == B:
        if is_true(a) and is_false(b):
            return c
        if is_false(a) and is_true(b):
            return mknot(c)
        if is_true(a):
            return mkor(c, b)
        if is_false(a):
            return mkand(mknot(c), b)
        if is_true(b):
            return mkor(mknot(c), a)
        if is_false(b):
            return mkand(c, a)
    return If(c, a, b)


def isite(t):
    return t.decl().kind() == z3.Z3_OP_ITE


def mkeq(a, b):
    """== with constant folding (ints, bools, any sort)."""
    if a.eq(b):
        return TRUE
    if a.sort() == I:
        d = lin(a - b)
        if isv(d):
            return BoolVal(d.as_long() == 0)
        if isite(a) and isv(b):
            return mkif(a.arg(0), mkeq(a.arg(1), b), mkeq(a.arg(2), b))
        if isite(b) and isv(a):
            return mkif(b.arg(0), mkeq(a, b.arg(1)), mkeq(a, b.arg(2)))
        return a == b
    if a.sort() == B:
        if is_true(a):
            return b
        if is_true(b):
            return a
        if is_false(a):
            return mknot(b)
        if is_false(b):
            return mknot(a)
    return a == b


def lin(t):
    """normalise an integer term"""
    return z3.simplify(t, som=True)


def ilt(a, b):
    d = lin(a - b)
    if isv(d):
        return BoolVal(d.as_long() < 0)
    return a < b


def ile(a, b):
    d = lin(a - b)
    if isv(d):
        return BoolVal(d.as_long() <= 0)
    return a <= b


# ---------------------------------------------------------------------------------- floats
class RNTheory:
    name = 'RN'

    def __init__(self):
        dt = z3.Datatype('F')
        dt.declare('mk', ('nan', B), ('re', z3.RealSort()))
        self.F = dt.create()
        self.INF = z3.Real('INFINITY')
        AX.append(self.INF > z3.RealVal(2 ** 1024))

    def nan(self, t):
        if t.decl().eq(self.F.mk):
            return t.arg(0)
        if isite(t):
            return mkif(t.arg(0), self.nan(t.arg(1)), self.nan(t.arg(2)))
        return self.F.nan(t)

    def re(self, t):
        if t.decl().eq(self.F.mk):
            return t.arg(1)
        if isite(t):
            return mkif(t.arg(0), self.re(t.arg(1)), self.re(t.arg(2)))
        return self.F.re(t)

    def mk(self, n, r):
        return self.F.mk(n, r)

    def lit(self, bits):
        x = struct.unpack('<d', struct.pack('<Q', bits))[0]
        if x != x:
            return self.mk(TRUE, z3.RealVal(0))
        if x in (float('inf'), float('-inf')):
            return self.mk(FALSE, self.INF if x > 0 else -self.INF)
        f = Fraction(x)
        # decimal literals: use the shortest decimal (the value the source denotes), the
        # difference with the binary64 value is a rounding error outside this theory
        f = Fraction(repr(x)) if abs(f) > Fraction(1, 10 ** 300) or f == 0 else f
        return self.mk(FALSE, z3.RealVal(f"{f.numerator}/{f.denominator}"))

    def num(self, x):
        f = Fraction(x)
        return self.mk(FALSE, z3.RealVal(f"{f.numerator}/{f.denominator}"))

    def const(self, name):
        return z3.Const(name, self.F)

    def _b(self, a, b, f):
        return self.mk(mkor(self.nan(a), self.nan(b)), f(self.re(a), self.re(b)))

    def add(self, a, b): return self._b(a, b, lambda x, y: x + y)
    def sub(self, a, b): return self._b(a, b, lambda x, y: x - y)
    def mul(self, a, b): return self._b(a, b, lambda x, y: x * y)

    def div(self, a, b):
        x, y = self.re(a), self.re(b)
        z = z3.simplify(y)
        nan = mkor(self.nan(a), self.nan(b))
        if not (z3.is_rational_value(z) and z.as_fraction() != 0):
            nan = mkor(nan, mkand(x == 0, y == 0))
        return self.mk(nan, x / y)

    def neg(self, a): return self.mk(self.nan(a), -self.re(a))
    def abs(self, a):
        r = self.re(a)
        return self.mk(self.nan(a), mkif(r >= 0, r, -r))

    def signum(self, a):
        # the sign of zero is not represented: signum(0) is left unspecified in {-1, 1}
        r = self.re(a)
        z = z3.Function('zero_sign', z3.RealSort(), z3.RealSort())(r)
        return self.mk(self.nan(a), mkif(r > 0, z3.RealVal(1), mkif(r < 0, z3.RealVal(-1), mkif(z > 0, z3.RealVal(1), z3.RealVal(-1)))))

    def is_nan(self, a): return self.nan(a)

    def min(self, a, b):
        return mkif(self.nan(a), b, mkif(self.nan(b), a, mkif(self.re(a) <= self.re(b), a, b)))

    def max(self, a, b):
        return mkif(self.nan(a), b, mkif(self.nan(b), a, mkif(self.re(a) >= self.re(b), a, b)))

    def _c(self, a, b, f):
        return mkand(mknot(self.nan(a)), mknot(self.nan(b)), f(self.re(a), self.re(b)))

    def lt(self, a, b): return self._c(a, b, lambda x, y: x < y)
    def le(self, a, b): return self._c(a, b, lambda x, y: x <= y)

    def eq(self, a, b):
        if a.eq(b):
            return mknot(self.nan(a))
        return self._c(a, b, lambda x, y: x == y)

    def ident(self, a, b):
        """same value (NaN = NaN)"""
        if a.eq(b):
            return TRUE
        na, nb, ra, rb = self.nan(a), self.nan(b), self.re(a), self.re(b)
        return mkand(mkeq(na, nb), mkor(na, TRUE if ra.eq(rb) else ra == rb))

    def facts(self, x):
        return []


class FPTheory:
    """IEEE binary64; * / + - are uninterpreted up to the listed facts unless exact=True."""
    name = 'FP'

    def __init__(self, exact=False):
        self.F = z3.Float64()
        self.exact = exact
        self.rm = z3.RNE()
        self.ufs = {}

    def lit(self, bits):
        return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, 64), self.F))

    def num(self, x): return z3.FPVal(float(x), self.F)
    def const(self, name): return z3.Const(name, self.F)

    def _comm(self, op, a, b):
        if op in ('add', 'mul') and a.get_id() > b.get_id():
            a, b = b, a
        if self.exact:
            return {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[op](self.rm, a, b)
        return z3.Function('fp_' + op, self.F, self.F, self.F)(a, b)

    def add(self, a, b): return self._comm('add', a, b)

    def _unit(self, t):
        """+1 / -1 / nan numeral, or an if-then-else of those"""
        if isite(t):
            return self._unit(t.arg(1)) and self._unit(t.arg(2))
        return z3.is_fp_value(t) and (t.isNaN() or t.eq(self.num(1.0)) or t.eq(self.num(-1.0)))

    def mul(self, a, b):
        for x, y in ((a, b), (b, a)):
            if self._unit(y):
                if isite(y):
                    return mkif(y.arg(0), self.mul(x, y.arg(1)), self.mul(x, y.arg(2)))
                return y if y.isNaN() else x if y.eq(self.num(1.0)) else self.neg(x)
        neg = False
        if a.decl().kind() == z3.Z3_OP_FPA_NEG:
            neg, a = not neg, a.arg(0)
        if b.decl().kind() == z3.Z3_OP_FPA_NEG:
            neg, b = not neg, b.arg(0)
        r = self._comm('mul', a, b)
        return self.neg(r) if neg else r

    def sub(self, a, b):
        return self.add(a, self.neg(b))      # a - b == a + (-b) in IEEE arithmetic

    def div(self, a, b):
        for p in (2.0, 4.0, 0.5):
            if b.eq(self.num(p)):
                return self.mul(a, self.num(1 / p))
        return self._comm('div', a, b)

    def facts(self, ts):
        """IEEE facts about the uninterpreted operations occurring in the terms"""
        seen, out, st = set(), [], list(ts)
        fz, nan = z3.fpIsZero, z3.fpIsNaN
        while st:
            t = st.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                continue
            st += t.children()
            d = t.decl().name() if z3.is_app(t) else ''
            if d not in ('fp_add', 'fp_mul', 'fp_div'):
                continue
            a, b = t.arg(0), t.arg(1)
            out.append(mkimp(mkor(nan(a), nan(b)), nan(t)))
            if d == 'fp_add':
                for x, y in ((a, b), (b, a)):
                    out.append(mkimp(mkand(fz(x), mknot(nan(y))), z3.fpEQ(t, y)))
                    out.append(mkimp(mkand(mknot(nan(t)), z3.fpGEQ(x, self.num(0))), z3.fpGEQ(t, y)))
                    out.append(mkimp(mkand(mknot(nan(t)), z3.fpLEQ(x, self.num(0))), z3.fpLEQ(t, y)))
                neg = z3.fpIsNegative
                out.append(mkimp(mkand(fz(a), fz(b)), mkand(fz(t), neg(t) == mkand(neg(a), neg(b)))))
                out.append(mkimp(mkand(mknot(nan(a)), mknot(nan(b)), nan(t)), mkand(z3.fpIsInf(a), z3.fpIsInf(b), z3.Xor(z3.fpIsNegative(a), z3.fpIsNegative(b)))))
                out.append(mkimp(mkand(mknot(nan(a)), mknot(nan(b)), z3.fpEQ(a, z3.fpNeg(b)), mknot(z3.fpIsInf(a))), fz(t)))
            if d == 'fp_div':
                inf = z3.fpIsInf
                out.append(mkimp(mkand(mknot(nan(a)), mknot(nan(b)), nan(t)), mkor(mkand(fz(a), fz(b)), mkand(inf(a), inf(b)))))
                out.append(mkimp(mkor(mkand(fz(a), fz(b)), mkand(inf(a), inf(b))), nan(t)))
                out.append(mkimp(mknot(nan(t)), z3.fpIsNegative(t) == z3.Xor(z3.fpIsNegative(a), z3.fpIsNegative(b))))
                out.append(mkimp(mkand(mknot(nan(t)), fz(b)), inf(t)))
                out.append(mkimp(mkand(mknot(nan(t)), fz(a)), fz(t)))
            if d == 'fp_mul':
                out.append(mkimp(mkand(mknot(nan(a)), mknot(nan(b)), nan(t)), mkor(mkand(fz(a), z3.fpIsInf(b)), mkand(fz(b), z3.fpIsInf(a)))))
                out.append(mkimp(mkor(mkand(fz(a), z3.fpIsInf(b)), mkand(fz(b), z3.fpIsInf(a))), nan(t)))
                out.append(mkimp(mknot(nan(t)), z3.fpIsNegative(t) == z3.Xor(z3.fpIsNegative(a), z3.fpIsNegative(b))))
                out.append(mkimp(mkand(mknot(nan(t)), mkor(fz(a), fz(b))), fz(t)))
        return out

    def exact_op(self, name, a, b):
        return {'fp_add': z3.fpAdd, 'fp_mul': z3.fpMul, 'fp_div': z3.fpDiv}[name](self.rm, a, b)

    def neg(self, a):
        if a.decl().kind() == z3.Z3_OP_FPA_NEG:
            return a.arg(0)
        if z3.is_fp_value(a):
            return z3.simplify(z3.fpNeg(a))
        return z3.fpNeg(a)

    def abs(self, a):
        if a.decl().kind() in (z3.Z3_OP_FPA_NEG, z3.Z3_OP_FPA_ABS):
            return self.abs(a.arg(0))
        if a.decl().name() == 'fp_mul':
            return self.mul(self.abs(a.arg(0)), self.abs(a.arg(1)))
        if z3.is_fp_value(a):
            return z3.simplify(z3.fpAbs(a))
        return z3.fpAbs(a)

    def signum(self, a):
        return mkif(z3.fpIsNaN(a), z3.fpNaN(self.F), mkif(z3.fpIsNegative(a), self.num(-1.0), self.num(1.0)))

    def is_nan(self, a): return z3.fpIsNaN(a)

    def min(self, a, b):
        return mkif(z3.fpIsNaN(a), b, mkif(z3.fpIsNaN(b), a, mkif(z3.fpLEQ(a, b), a, b)))

    def max(self, a, b):
        return mkif(z3.fpIsNaN(a), b, mkif(z3.fpIsNaN(b), a, mkif(z3.fpGEQ(a, b), a, b)))

    def lt(self, a, b): return z3.fpLT(a, b)
    def le(self, a, b): return z3.fpLEQ(a, b)
    def eq(self, a, b): return z3.fpEQ(a, b)

    def ident(self, a, b):
        if a.eq(b):
            return TRUE
        return mkor(mkand(z3.fpIsNaN(a), z3.fpIsNaN(b)), z3.fpEQ(a, b))


TH = None
F = None
VA = MA = None
_fn = {}


def use(theory):
    """select the float theory (once per process)"""
    global TH, F, VA, MA
    TH = theory
    F = theory.F if theory.name == 'FP' else theory.F
    VA = z3.ArraySort(I, F)
    MA = z3.ArraySort(I, I, F)
    return TH


def fn(name, *sorts):
    k = (name,) + tuple(s.sexpr() for s in sorts)
    f = _fn.get(k)
    if f is None:
        f = _fn[k] = z3.Function(name, *sorts)
    return f


# ---------------------------------------------------------------------------------- arrays
def sel(a, *ix):
    """select with read-over-write, ite, const array and lambda elimination"""
    while True:
        k = a.decl().kind() if z3.is_app(a) else None
        if k == z3.Z3_OP_STORE:
            js = a.children()[1:-1]
            cs = [mkeq(i, j) for i, j in zip(ix, js)]
            c = mkand(*cs)
            if is_true(c):
                return a.children()[-1]
            if is_false(c):
                a = a.arg(0)
                continue
            return mkif(c, a.children()[-1], sel(a.arg(0), *ix))
        if k == z3.Z3_OP_CONST_ARRAY:
            return a.arg(0)
        if k == z3.Z3_OP_ITE:
            return mkif(a.arg(0), sel(a.arg(1), *ix), sel(a.arg(2), *ix))
        if z3.is_quantifier(a):      # lambda
            body = z3.substitute_vars(a.body(), *reversed(ix))
            return norm(body)
        if k == z3.Z3_OP_UNINTERPRETED and a.num_args() == 1:
            if a.decl().name() == 'varr':
                return vat(a.arg(0), ix[0])
            if a.decl().name() == 'marr':
                return mat(a.arg(0), *ix)
        return z3.Select(a, *ix)


def lam(f, n=1, names='k'):
    vs = [z3.FreshConst(I, names) for _ in range(n)]
    return z3.Lambda(vs, f(*vs))


def karr(v):
    return z3.K(I, v)


# ---------------------------------------------------------------------------------- vectors / matrices
LEN = {}     # decl name -> (args -> length)
DIM = {}     # decl name -> (args -> (rows, cols))
AT = {}      # decl name -> (args, k -> element)  pointwise definition (contract of the function)
MAT_AT = {}


def dname(t):
    return t.decl().name() if z3.is_app(t) else ''


def vmk(n, arr):
    if dname(arr) == 'varr' and vlen(arr.arg(0)).eq(n):
        return arr.arg(0)
    return fn('vmk', I, VA, Vec)(n, arr)


def mmk(r, c, arr):
    if dname(arr) == 'marr':
        rr, cc = mdim(arr.arg(0))
        if rr.eq(r) and cc.eq(c):
            return arr.arg(0)
    return fn('mmk', I, I, MA, Mat)(r, c, arr)


def varr(v):
    if dname(v) == 'vmk':
        return v.arg(1)
    return fn('varr', Vec, VA)(v)


def marr(m):
    if dname(m) == 'mmk':
        return m.arg(2)
    return fn('marr', Mat, MA)(m)


def vlen(v):
    d = dname(v)
    if d == 'vmk':
        return v.arg(0)
    if d in ('v_add', 'v_neg', 'v_abs'):
        return vlen(v.arg(0))
    if d in ('v_scale', ):
        return vlen(v.arg(1))
    if d == 'mv':
        return mdim(v.arg(0))[0]
    if d == 'mcol':
        return mdim(v.arg(0))[0]
    if d == 'r_t':
        return rlen(v.arg(0))
    if d == 'v_one':
        return vlen(v.arg(0))
    if isite(v):
        return mkif(v.arg(0), vlen(v.arg(1)), vlen(v.arg(2)))
    if d in LEN:
        return LEN[d](*v.children())
    return fn('vlen', Vec, I)(v)


def rlen(r):
    d = dname(r)
    if d == 'v_t':
        return vlen(r.arg(0))
    if d in ('r_add', 'r_neg'):
        return rlen(r.arg(0))
    if d == 'r_scale':
        return rlen(r.arg(1))
    if d == 'rm':
        return mdim(r.arg(1))[1]
    if isite(r):
        return mkif(r.arg(0), rlen(r.arg(1)), rlen(r.arg(2)))
    return fn('rlen', Row, I)(r)


def mdim(m):
    d = dname(m)
    if d == 'mmk':
        return m.arg(0), m.arg(1)
    if d in ('m_add', 'm_neg', 'm_abs'):
        return mdim(m.arg(0))
    if d == 'm_scale':
        return mdim(m.arg(1))
    if d == 'mm':
        return mdim(m.arg(0))[0], mdim(m.arg(1))[1]
    if d == 'vr':
        return vlen(m.arg(0)), rlen(m.arg(1))
    if d == 'm_t':
        r, c = mdim(m.arg(0))
        return c, r
    if d == 'INV':
        return mdim(m.arg(0))
    if isite(m):
        a, b = mdim(m.arg(1)), mdim(m.arg(2))
        return mkif(m.arg(0), a[0], b[0]), mkif(m.arg(0), a[1], b[1])
    if d in DIM:
        return DIM[d](*m.children())
    return fn('mrows', Mat, I)(m), fn('mcols', Mat, I)(m)


def vat(v, k):
    d = dname(v)
    if d == 'vmk':
        return sel(v.arg(1), k)
    if d == 'v_add':
        return TH.add(vat(v.arg(0), k), vat(v.arg(1), k))
    if d == 'v_neg':
        return TH.neg(vat(v.arg(0), k))
    if d == 'v_abs':
        return TH.abs(vat(v.arg(0), k))
    if d == 'v_scale':
        return TH.mul(vat(v.arg(1), k), v.arg(0))
    if d == 'v_div':
        return TH.div(vat(v.arg(1), k), v.arg(0))
    if d == 'mcol':
        return mat(v.arg(0), k, v.arg(1))
    if d == 'r_t':
        return rat(v.arg(0), k)
    if isite(v):
        return mkif(v.arg(0), vat(v.arg(1), k), vat(v.arg(2), k))
    if d in AT:
        r = AT[d](*v.children(), k)
        if r is not None:
            return r
    return fn('vat', Vec, I, F)(v, k)


def rat(r, k):
    d = dname(r)
    if d == 'v_t':
        return vat(r.arg(0), k)
    if isite(r):
        return mkif(r.arg(0), rat(r.arg(1), k), rat(r.arg(2), k))
    return fn('rat', Row, I, F)(r, k)


def mat(m, i, j):
    d = dname(m)
    if d == 'mmk':
        return sel(m.arg(2), i, j)
    if d == 'm_add':
        return TH.add(mat(m.arg(0), i, j), mat(m.arg(1), i, j))
    if d == 'm_neg':
        return TH.neg(mat(m.arg(0), i, j))
    if d == 'm_abs':
        return TH.abs(mat(m.arg(0), i, j))
    if d == 'm_scale':
        return TH.mul(mat(m.arg(1), i, j), m.arg(0))
    if d == 'm_div':
        return TH.div(mat(m.arg(1), i, j), m.arg(0))
    if d == 'm_t':
        return mat(m.arg(0), j, i)
    if d == 'vr':
        return TH.mul(vat(m.arg(0), i), rat(m.arg(1), j))
    if isite(m):
        return mkif(m.arg(0), mat(m.arg(1), i, j), mat(m.arg(2), i, j))
    if d in MAT_AT:
        r = MAT_AT[d](*m.children(), i, j)
        if r is not None:
            return r
    return fn('mat', Mat, I, I, F)(m, i, j)


def mcol(m, j):
    return fn('mcol', Mat, I, Vec)(m, j)


def oat(o):
    d = dname(o)
    return fn('oat', One, F)(o)


def zeros_v(n):
    return vmk(n, karr(TH.num(0)))


def zeros_m(r, c):
    return mmk(r, c, lam(lambda i, j: TH.num(0), 2))


def v_set(v, k, x):
    return vmk(vlen(v), z3.Store(varr(v), k, x))


def m_set(m, i, j, x):
    r, c = mdim(m)
    return mmk(r, c, z3.Store(marr(m), i, j, x))


def m_setcol(m, j, v):
    r, c = mdim(m)
    return mmk(r, c, lam(lambda a, b: mkif(mkeq(b, j), vat(v, a), mat(m, a, b)), 2))


def m_setrow(m, i, v):
    r, c = mdim(m)
    return mmk(r, c, lam(lambda a, b: mkif(mkeq(a, i), v(b), mat(m, a, b)), 2))


_pre = {'Vec': 'v', 'Mat': 'm', 'Row': 'r', 'One': 'o'}


def pre(t):
    return _pre[t.sort().name()]


def a_add(a, b):
    return fn(pre(a) + '_add', a.sort(), a.sort(), a.sort())(a, b)


def a_neg(a):
    if dname(a) == pre(a) + '_neg':
        return a.arg(0)
    return fn(pre(a) + '_neg', a.sort(), a.sort())(a)


def a_sub(a, b):
    return a_add(a, a_neg(b))


def a_scale(s, a):
    return fn(pre(a) + '_scale', F, a.sort(), a.sort())(s, a)


def a_div(a, s):
    return fn(pre(a) + '_div', F, a.sort(), a.sort())(s, a)


LEN['v_div'] = lambda s, v: vlen(v)
DIM['m_div'] = lambda s, m: mdim(m)


def a_t(a):
    p = pre(a)
    if dname(a) in ('v_t', 'r_t', 'm_t', 'o_t'):
        return a.arg(0)
    if p == 'v':
        return fn('v_t', Vec, Row)(a)
    if p == 'r':
        return fn('r_t', Row, Vec)(a)
    if p == 'o':
        return a
    return fn('m_t', Mat, Mat)(a)


MULTAB = {('m', 'v'): ('mv', Vec), ('m', 'm'): ('mm', Mat), ('v', 'r'): ('vr', Mat), ('r', 'm'): ('rm', Row),
          ('r', 'v'): ('rv', One), ('v', 'o'): ('vo', Vec), ('o', 'r'): ('or', Row), ('o', 'o'): ('oo', One)}
LEN['vo'] = lambda v, o: vlen(v)


def a_mul(a, b):
    n, s = MULTAB[(pre(a), pre(b))]
    return fn(n, a.sort(), b.sort(), s)(a, b)


def inner_dims(a, b):
    """(cols a, rows b) when the product a*b is formed"""
    one = IntVal(1)
    ca = {'m': lambda: mdim(a)[1], 'v': lambda: one, 'r': lambda: rlen(a), 'o': lambda: one}[pre(a)]()
    rb = {'m': lambda: mdim(b)[0], 'v': lambda: vlen(b), 'r': lambda: one, 'o': lambda: one}[pre(b)]()
    return ca, rb


def dims(a):
    one = IntVal(1)
    p = pre(a)
    return {'m': lambda: mdim(a), 'v': lambda: (vlen(a), one), 'r': lambda: (one, rlen(a)), 'o': lambda: (one, one)}[p]()


def norm2(v):
    return oat(a_mul(a_t(v), v)) if pre(v) == 'v' else fn('norm2', v.sort(), F)(v)


def amax(v):
    return fn('amax', v.sort(), F)(v)


def inv(m):
    return fn('INV', Mat, Mat)(m)


def invok(m):
    return fn('INVOK', Mat, B)(m)


def dim_facts(t):
    """non-negativity of the dimensions of an atom"""
    out = []
    for d in dims(t):
        if not isv(d):
            out.append(d >= 0)
    return out


# ---------------------------------------------------------------------------------- strings
_lits = {}


def strlit(s):
    t = _lits.get(s)
    if t is None:
        n = len(_lits)
        t = _lits[s] = z3.Const('str!%d' % n, Str)
        AX.append(fn('litid', Str, I)(t) == n)
    return t


def lit_of(t):
    for s, c in _lits.items():
        if c.eq(t):
            return s
    return None


# ---------------------------------------------------------------------------------- generic rebuild
_smart1 = {'vlen': vlen, 'rlen': rlen, 'varr': varr, 'marr': marr, 'v_neg': a_neg, 'm_neg': a_neg, 'r_neg': a_neg,
           'v_t': a_t, 'r_t': a_t, 'm_t': a_t}


def rebuild_app(t, ch):
    d = t.decl()
    k = d.kind()
    if k == z3.Z3_OP_ITE:
        return mkif(*ch)
    if k == z3.Z3_OP_AND:
        return mkand(*ch)
    if k == z3.Z3_OP_OR:
        return mkor(*ch)
    if k == z3.Z3_OP_NOT:
        return mknot(ch[0])
    if k == z3.Z3_OP_IMPLIES:
        return mkimp(*ch)
    if k == z3.Z3_OP_EQ:
        return mkeq(*ch)
    if k == z3.Z3_OP_SELECT:
        return sel(*ch)
    if k == z3.Z3_OP_DT_ACCESSOR:
        return TH.nan(ch[0]) if d.name() == 'nan' else TH.re(ch[0])
    if k == z3.Z3_OP_UNINTERPRETED:
        n = d.name()
        if n in _smart1:
            return _smart1[n](ch[0])
        if n == 'vat':
            return vat(*ch)
        if n == 'mat':
            return mat(*ch)
        if n == 'rat':
            return rat(*ch)
        if n == 'mrows':
            return mdim(ch[0])[0]
        if n == 'mcols':
            return mdim(ch[0])[1]
        if n == 'vmk':
            return vmk(*ch)
        if n == 'mmk':
            return mmk(*ch)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) and t.sort() == I:
        return lin(d(*ch))
    return d(*ch)


def rebuild(t, mp, cache=None):
    """substitute (mp: id -> term) and re-apply the smart constructors"""
    if cache is None:
        cache = {}

    def go(t):
        i = t.get_id()
        r = mp.get(i)
        if r is not None:
            return r
        r = cache.get(i)
        if r is not None:
            return r[1]
        if z3.is_quantifier(t):
            subs = [(_ids[k], v) for k, v in mp.items() if k in _ids]
            r = z3.substitute(t, *subs) if subs else t
        elif z3.is_var(t) or t.num_args() == 0:
            r = t
        else:
            ch = t.children()
            nc = [go(c) for c in ch]
            if all(a.eq(b) for a, b in zip(ch, nc)) and not force:
                r = t
            else:
                r = rebuild_app(t, nc)
        cache[i] = (t, r)
        return r
    force = mp.get('force', False)
    return go(t)


_ids = {}


def subst(t, pairs, cache=None):
    """pairs: list of (const, term)"""
    mp = {}
    ns = names(t)
    pairs = [(a, b) for a, b in pairs if a.decl().name() in ns]
    if not pairs:
        return t
    for a, b in pairs:
        mp[a.get_id()] = b
        _ids[a.get_id()] = a
    return rebuild(t, mp, cache)


def norm(t):
    return rebuild(t, {'force': True})


def symbols(t, acc=None, seen=None):
    """uninterpreted constants occurring in t"""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            st.append(t.body())
        elif z3.is_app(t):
            if t.num_args() == 0:
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc[t.decl().name()] = t
            else:
                st.extend(t.children())
    return acc
