"""Concrete evaluation of terms (dimension 3, random values for the uninterpreted symbols): a value on which two terms
differ refutes their equality with exactness up to floating-point error."""
import hashlib
import numpy as np
import z3
import terms as T
from terms import *


class Cannot(Exception):
    pass


class Ev:
    def __init__(self, seed, n=3, fixed=None):
        self.n, self.seed, self.cache, self.keep = n, seed, {}, []
        self.fixed = dict(fixed or {})

    def rnd(self, key, shape):
        h = int(hashlib.sha256(repr((self.seed, key)).encode()).hexdigest()[:12], 16)
        r = np.random.RandomState(h % (2 ** 32))
        if shape == ():
            return float(np.round(r.uniform(-2, 2), 3))
        m = np.round(r.uniform(-2, 2, size=shape), 3)
        if shape == (self.n, self.n):
            m = m + 3 * np.eye(self.n)
        return m

    def shape(self, s):
        n = s.name() if not s.kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT, z3.Z3_BOOL_SORT) else ''
        return {'Vec': (self.n,), 'Row': (self.n,), 'Mat': (self.n, self.n), 'One': ()}.get(n, ())

    def unk(self, t, key):
        s = t.sort()
        if s == I:
            return self.n
        if s == B:
            return bool(self.rnd(key, ()) > 0)
        if s == T.F or z3.is_real(t) or s.name() in ('Vec', 'Row', 'Mat', 'One'):
            return self.rnd(key, self.shape(s))
        return ('sym', key)

    def __call__(self, t):
        i = t.get_id()
        if i in self.cache:
            return self.cache[i]
        self.keep.append(t)
        r = self.cache[i] = self.go(t)
        return r

    def go(self, t):
        if z3.is_quantifier(t) or not z3.is_app(t):
            raise Cannot('quantifier')
        k, d = t.decl().kind(), dname(t)
        if is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return float(t.as_fraction())
        if is_true(t):
            return True
        if is_false(t):
            return False
        ch = t.children()
        if k == z3.Z3_OP_ITE:
            return self(ch[1]) if self(ch[0]) else self(ch[2])
        if k == z3.Z3_OP_AND:
            return all(self(c) for c in ch)
        if k == z3.Z3_OP_OR:
            return any(self(c) for c in ch)
        if k == z3.Z3_OP_NOT:
            return not self(ch[0])
        if k == z3.Z3_OP_IMPLIES:
            return (not self(ch[0])) or self(ch[1])
        if k == z3.Z3_OP_EQ:
            a, b = self(ch[0]), self(ch[1])
            return bool(np.allclose(a, b, rtol=1e-9, atol=1e-9)) if not isinstance(a, tuple) else a == b
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = self(ch[0]), self(ch[1])
            return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b}[k]
        if k == z3.Z3_OP_ADD:
            return sum(self(c) for c in ch)
        if k == z3.Z3_OP_SUB:
            r = self(ch[0])
            for c in ch[1:]:
                r = r - self(c)
            return r
        if k == z3.Z3_OP_MUL:
            r = 1
            for c in ch:
                r = r * self(c)
            return r
        if k == z3.Z3_OP_DIV:
            b = self(ch[1])
            if b == 0:
                raise Cannot('division by zero')
            return self(ch[0]) / b
        if k == z3.Z3_OP_UMINUS:
            return -self(ch[0])
        if k == z3.Z3_OP_DT_ACCESSOR:
            return False if d == 'nan' else self(ch[0])
        if k == z3.Z3_OP_DT_CONSTRUCTOR and t.sort() == T.F:
            if self(ch[0]):
                raise Cannot('nan')
            return self(ch[1])
        if k == z3.Z3_OP_SELECT:
            ix = [self(c) for c in ch[1:]]
            e = sel(ch[0], *[IntVal(x) for x in ix])
            if e.decl().kind() == z3.Z3_OP_SELECT:
                return self.unk(t, ('sel', str(ch[0]), tuple(ix)))
            return self(e)
        if k != z3.Z3_OP_UNINTERPRETED:
            raise Cannot('operator %s' % d)
        if d in ('vmk', 'mmk'):
            if d == 'vmk':
                return np.array([self(sel(ch[1], IntVal(a))) for a in range(self.n)])
            return np.array([[self(sel(ch[2], IntVal(a), IntVal(b))) for b in range(self.n)] for a in range(self.n)])
        if d in ('vlen', 'rlen', 'mrows', 'mcols'):
            return self.n
        if d == 'vat':
            v = vat(ch[0], ch[1])
            return self(v) if not v.eq(t) else self(ch[0])[self(ch[1])]
        if d == 'mat':
            v = mat(*ch)
            return self(v) if not v.eq(t) else self(ch[0])[self(ch[1]), self(ch[2])]
        if d == 'rat':
            return self(ch[0])[self(ch[1])]
        if d in ('oat', 'o_t'):
            return self(ch[0])
        if d == 'mcol':
            return self(ch[0])[:, self(ch[1])]
        if d in ('v_t', 'r_t'):
            return self(ch[0])
        if d == 'm_t':
            return self(ch[0]).T
        if d[1:] == '_add':
            return self(ch[0]) + self(ch[1])
        if d[1:] == '_neg':
            return -self(ch[0])
        if d[1:] == '_abs':
            return np.abs(self(ch[0]))
        if d[1:] == '_scale':
            return self(ch[0]) * self(ch[1])
        if d[1:] == '_div':
            b = self(ch[0])
            if abs(b) < 1e-9:
                raise Cannot('division by zero')
            return self(ch[1]) / b
        if d in ('mv', 'mm', 'rm', 'rv'):
            return np.dot(self(ch[0]), self(ch[1]))
        if d == 'vr':
            return np.outer(self(ch[0]), self(ch[1]))
        if d in ('vo', 'or', 'oo'):
            return self(ch[0]) * self(ch[1])
        if d == 'INV':
            m = self(ch[0])
            if abs(np.linalg.det(m)) < 1e-3:
                raise Cannot('singular')
            return np.linalg.inv(m)
        if d == 'amax':
            return float(np.max(np.abs(self(ch[0]))))
        if d in AT and t.sort() == Vec:
            e = AT[d](*ch, IntVal(0))
            if e is not None:
                return np.array([self(AT[d](*ch, IntVal(a))) for a in range(self.n)])
        if t.num_args() == 0:
            if d in self.fixed:
                return self.fixed[d]
            return self.unk(t, d)
        return self.unk(t, (d,) + tuple(freeze(self(c)) for c in ch))


def freeze(x):
    if isinstance(x, np.ndarray):
        return tuple(np.round(x.ravel(), 9) + 0.0)
    if isinstance(x, float):
        return round(x, 9) + 0.0
    return x


def differ(a, b, pc=(), tries=8):
    """a seed (witness) on which the terms differ, or None"""
    for seed in range(tries):
        e = Ev(seed)
        try:
            x, y = e(a), e(b)
            if isinstance(x, tuple) or isinstance(y, tuple):
                return None
            if np.shape(x) != np.shape(y):
                return None
            if np.all(np.isfinite(x)) and np.all(np.isfinite(y)) and not np.allclose(x, y, rtol=1e-6, atol=1e-6):
                return 'seed %d: %s vs %s' % (seed, np.round(x, 4).tolist(), np.round(y, 4).tolist())
        except Cannot:
            continue
        except Exception:
            continue
    return None
