"""Assumed contracts of the standard library, nalgebra and minidom (trusted, listed in the evidence)."""
import z3
from z3 import IntVal, BoolVal, is_true, is_false
import terms as T
from terms import *
from values import *
from mir import strip

TABLE = {}


def bi(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def panic(st, msg, info):
    return ('panic', st, {'msg': msg, 'fn': info.get('fn'), 'line': info.get('line')})


def need(ip, st, cond, msg, info):
    """-> (state where cond holds or None, [panic outcomes])"""
    good, bad = None, []
    for side, s in ip.fork(st, cond):
        if side:
            good = s
        else:
            bad.append(panic(s, msg, info))
    return good, bad


def dty(ip, info):
    return ip.mir.types[info['dest']] if info.get('dest') is not None else None


def dimval(v):
    if isz(v):
        return v
    if isinstance(v, Agg):
        if v.name == 'Const':
            return v.fs[0]
        if v.name.endswith('::Dyn'):
            return v.fs[0]
    raise Unsupported('dimension %r' % (v,))


def isone(v):
    return isinstance(v, Agg) and v.name == 'Const' and isv(v.fs[0]) and v.fs[0].as_long() == 1


ONE = Agg('Const', (IntVal(1),))


# ------------------------------------------------------------------ panics
@bi('core::panicking::panic_fmt', 'core::panicking::panic', 'core::panicking::unreachable_display', 'core::panicking::panic_display',
    'std::rt::begin_panic', 'core::panicking::assert_failed', 'core::panicking::panic_explicit', 'core::panicking::panic_nounwind',
    'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'std::panicking::begin_panic')
def _panic(ip, st, a, info):
    return [panic(st, 'panic', info)]


@bi('core::panicking::unimplemented_default_msg', 'core::panicking::todo_default_msg')
def _unimpl(ip, st, a, info):
    return Agg('args', ())


@bi('std::process::exit', 'std::process::abort', 'core::intrinsics::abort')
def _exit(ip, st, a, info):
    return [panic(st, 'exit', info)]


# ------------------------------------------------------------------ floats
def f1(op):
    return lambda ip, st, a, info: getattr(TH, op)(ip.deref(st, a[0]))


def f2(op):
    return lambda ip, st, a, info: getattr(TH, op)(ip.deref(st, a[0]), ip.deref(st, a[1]))


for n in ('abs', 'is_nan', 'signum'):
    TABLE['core::f64::' + n] = TABLE['std::f64::' + n] = f1(n)
for n in ('min', 'max'):
    TABLE['core::f64::' + n] = TABLE['std::f64::' + n] = f2(n)


@bi('std::f64::powi', 'core::f64::powi')
def _powi(ip, st, a, info):
    if isv(a[1]):
        n = a[1].as_long()
        if n == 1:
            return a[0]
        if n == 2:
            return TH.mul(a[0], a[0])
        if n == 0:
            return TH.num(1)
        if n == -1:
            return TH.div(TH.num(1), a[0])
        if n == 3:
            return TH.mul(a[0], TH.mul(a[0], a[0]))
    raise Unsupported('powi')


@bi('std::f64::recip', 'core::f64::recip')
def _recip(ip, st, a, info):
    return TH.div(TH.num(1), a[0])


@bi('core::f64::is_finite', 'core::f64::is_infinite', 'std::f64::is_finite')
def _isfin(ip, st, a, info):
    x = a[0]
    fin = strip(info['c']['path']).endswith('is_finite')
    if TH.name == 'FP':
        inf = z3.fpIsInf(x)
        return mknot(mkor(inf, z3.fpIsNaN(x))) if fin else inf
    r = TH.re(x)
    inf = mkor(r == TH.INF, r == -TH.INF)
    return mkand(mknot(TH.nan(x)), mknot(inf)) if fin else mkand(mknot(TH.nan(x)), inf)


@bi('core::f64::is_sign_negative', 'core::f64::is_sign_positive')
def _sgn(ip, st, a, info):
    x = a[0]
    if TH.name != 'FP':
        raise Unsupported('sign of zero')
    n = mkand(z3.fpIsNegative(x))
    return n if strip(info['c']['path']).endswith('negative') else z3.fpIsPositive(x)


@bi('core::f64::clamp', 'std::f64::clamp')
def _clamp(ip, st, a, info):
    x, lo, hi = a
    good, bad = need(ip, st, TH.le(lo, hi), 'clamp: min > max', info)
    out = list(bad)
    if good is not None:
        r = mkif(TH.lt(x, lo), lo, mkif(TH.lt(hi, x), hi, x))
        out.append(('ret', good, r))
    return out


@bi('std::f64::mul_add', 'core::f64::mul_add')
def _fma(ip, st, a, info):
    if TH.name == 'RN':
        return TH.add(TH.mul(a[0], a[1]), a[2])
    raise Unsupported('mul_add')


@bi('core::f64::copysign', 'std::f64::copysign')
def _copysign(ip, st, a, info):
    x, y = TH.abs(a[0]), a[1]
    if TH.name == 'FP':
        return mkif(z3.fpIsNegative(y), TH.neg(x), mkif(z3.fpIsNaN(y), TH.mul(x, y), x))
    return TH.mul(x, TH.signum(y))


# ------------------------------------------------------------------ trivial identities
@bi('core::hint::must_use', 'core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'core::ops::deref::Deref::deref',
    'core::convert::Into::into', 'core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow', 'alloc::string::String::as_str',
    'alloc::vec::Vec::as_slice', 'core::option::Option::copied', 'core::option::Option::cloned', 'core::iter::traits::iterator::Iterator::copied',
    'core::iter::traits::iterator::Iterator::cloned', 'core::iter::traits::iterator::Iterator::by_ref', 'core::mem::drop',
    'alloc::slice::to_vec', 'alloc::vec::Vec::into_boxed_slice', 'core::convert::identity', 'alloc::str::to_owned')
def _id(ip, st, a, info):
    p = strip(info['c']['path'])
    if p == 'core::mem::drop':
        return UNIT
    if p.endswith('by_ref'):
        return a[0]
    v = ip.deref(st, a[0])
    if p == 'core::convert::Into::into':
        t = dty(ip, info)
        if isz(v) and v.sort() == Str or t is None:
            return v
        if isz(v) and v.sort() in (T.F, I, T.Vec, T.Mat):
            if t['k'] == 'float' and v.sort() == I:
                return TH.mk(FALSE, z3.ToReal(v)) if TH.name == 'RN' else ip.un('int to float')
            return v
        if isinstance(v, Agg) and v.name == '[]':
            return v
        raise Unsupported('Into::into')
    return v


@bi('core::ops::deref::DerefMut::deref_mut', 'core::convert::AsMut::as_mut', 'core::borrow::BorrowMut::borrow_mut')
def _idm(ip, st, a, info):
    return a[0]


@bi('core::convert::From::from')
def _from(ip, st, a, info):
    v = ip.deref(st, a[0])
    t = dty(ip, info)
    if isz(v) and (v.sort() == Str or t is None or (t['k'] == 'float' and v.sort() == T.F)):
        return v
    if t and t['k'] == 'adt' and t['path'].endswith(('Vec', 'String', 'Box')):
        return v
    raise Unsupported('From::from')


@bi('core::mem::replace')
def _mreplace(ip, st, a, info):
    old = ip.deref(st, a[0])
    ip.write_ref(st, a[0], a[1])
    return old


@bi('core::mem::swap')
def _mswap(ip, st, a, info):
    x, y = ip.deref(st, a[0]), ip.deref(st, a[1])
    ip.write_ref(st, a[0], y)
    ip.write_ref(st, a[1], x)
    return UNIT


@bi('core::mem::take')
def _mtake(ip, st, a, info):
    old = ip.deref(st, a[0])
    ip.write_ref(st, a[0], default_of(ip, st, old))
    return old


def default_of(ip, st, v):
    if isinstance(v, Enum) and v.name == OPTION:
        return none()
    if isz(v) and v.sort() == B:
        return FALSE
    if isz(v) and v.sort() == I:
        return IntVal(0)
    if isz(v) and v.sort() == T.F:
        return TH.num(0)
    if isinstance(v, Seq):
        return Seq(IntVal(0), v.tm)
    if isz(v) and v.sort() == Str:
        return strlit('')
    raise Unsupported('default')


@bi('core::default::Default::default')
def _default(ip, st, a, info):
    t = dty(ip, info)
    k = t['k']
    if k == 'int':
        return IntVal(0)
    if k == 'bool':
        return FALSE
    if k == 'float':
        return TH.num(0)
    if k == 'adt':
        if t['path'] == OPTION:
            return none()
        if t['path'].endswith('String'):
            return strlit('')
        if t['path'].endswith('::Vec'):
            return Seq(IntVal(0), None)
        key = ip.mir.impls.get(('core::default::Default', t['path'], 'default'))
        if key:
            return ip.maybe_merge(st, ip.call_fn(key, st, []))
    raise Unsupported('Default for %s' % k)


@bi('core::intrinsics::discriminant_value', 'core::mem::discriminant')
def _discr(ip, st, a, info):
    v = ip.deref(st, a[0])
    if isinstance(v, Enum):
        return v.tag
    raise Unsupported('discriminant_value')


# ------------------------------------------------------------------ comparison
def vequal(ip, st, a, b):
    a, b = ip.deref(st, a), ip.deref(st, b)
    if isz(a) and isz(b) and a.sort() == b.sort():
        if a.sort() == T.F:
            return TH.eq(a, b)
        if a.sort() in (I, B, Str):
            return mkeq(a, b)
        raise Unsupported('== on %s' % a.sort())
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fs) == len(b.fs):
        return mkand(*[vequal(ip, st, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, Enum) and isinstance(b, Enum) and a.name == b.name:
        cs = [mkeq(a.tag, b.tag)]
        for i, (p, q) in enumerate(zip(a.ps, b.ps)):
            if p is None or q is None:
                continue
            for x, y in zip(p, q):
                if isv(a.tag) and a.tag.as_long() != i or isv(b.tag) and b.tag.as_long() != i:
                    continue
                cs.append(mkimp(mkeq(a.tag, IntVal(i)), vequal(ip, st, x, y)))
        return mkand(*cs)
    raise Unsupported('== on %s' % type(a).__name__)


@bi('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def _eq(ip, st, a, info):
    neg = info['c']['name'] == 'ne'
    x, y = ip.deref(st, a[0]), ip.deref(st, a[1])
    if isinstance(x, (Agg, Enum)):
        k = ip.mir.impls.get(('core::cmp::PartialEq', x.name, 'eq'))
        if k:
            outs = ip.maybe_merge(st, ip.call_fn(k, st, [x, y]))
            return [(kk, s, (mknot(v) if neg and kk == 'ret' else v)) for kk, s, v in outs]
    r = vequal(ip, st, x, y)
    return mknot(r) if neg else r


@bi('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def _cmp(ip, st, a, info):
    x, y = ip.deref(st, a[0]), ip.deref(st, a[1])
    n = info['c']['name']
    if n in ('gt', 'ge'):
        x, y = y, x
    if isz(x) and x.sort() == T.F:
        return TH.lt(x, y) if n in ('lt', 'gt') else TH.le(x, y)
    if isz(x) and x.sort() == I:
        return ilt(x, y) if n in ('lt', 'gt') else ile(x, y)
    raise Unsupported('ordering')


ORDERING = 'core::cmp::Ordering'


def ordering(c):
    """c: int term 0 Less 1 Equal 2 Greater"""
    return Enum(ORDERING, c, [(), (), ()])


@bi('core::cmp::PartialOrd::partial_cmp')
def _pcmp(ip, st, a, info):
    x, y = ip.deref(st, a[0]), ip.deref(st, a[1])
    if isz(x) and x.sort() == T.F:
        tag = mkif(TH.lt(x, y), IntVal(0), mkif(TH.lt(y, x), IntVal(2), IntVal(1)))
        okc = mknot(mkor(TH.is_nan(x), TH.is_nan(y)))
        return Enum(OPTION, mkif(okc, IntVal(1), IntVal(0)), [(), (ordering(tag),)])
    raise Unsupported('partial_cmp')


@bi('core::cmp::Ord::cmp')
def _ocmp(ip, st, a, info):
    x, y = ip.deref(st, a[0]), ip.deref(st, a[1])
    if isz(x) and x.sort() == I:
        return ordering(mkif(ilt(x, y), IntVal(0), mkif(ilt(y, x), IntVal(2), IntVal(1))))
    raise Unsupported('cmp')


@bi('core::cmp::Ord::min', 'core::cmp::Ord::max', 'core::cmp::min', 'core::cmp::max')
def _ominmax(ip, st, a, info):
    x, y = a
    if isz(x) and x.sort() == I:
        return mkif(ile(x, y), x, y) if info['c']['name'] == 'min' else mkif(ile(x, y), y, x)
    raise Unsupported('min/max')


# ------------------------------------------------------------------ Option / Result
def pay(v, i, j=0):
    p = v.ps[i]
    if p is None:
        raise Unsupported('payload of an absent variant')
    return p[j]


def mkopt(c, v):
    return Enum(OPTION, mkif(c, IntVal(1), IntVal(0)), [(), (v,)])


def split(ip, st, v):
    """[(tag int, state)] feasible variants"""
    if not isinstance(v, Enum):
        raise Unsupported('match on %s' % type(v).__name__)
    if isv(v.tag):
        return [(v.tag.as_long(), st)]
    out = []
    for i in range(len(v.ps)):
        c = mkeq(v.tag, IntVal(i))
        s = st.copy().assume(c)
        if ip.feasible(s.pc, s.hist):
            out.append((i, s))
    return out


def opt(goodtag):
    pass


@bi('core::option::Option::as_ref', 'core::result::Result::as_ref', 'core::option::Option::as_deref', 'core::result::Result::as_deref')
def _asref(ip, st, a, info):
    return ip.deref(st, a[0])


@bi('core::option::Option::as_mut')
def _asmut(ip, st, a, info):
    r = a[0]
    if not isinstance(r, MRef):
        raise Unsupported('as_mut')
    v = ip.deref(st, r)
    cur = ip.readp(st, r.root, r.path)
    while isinstance(cur, MRef):
        r = cur
        cur = ip.readp(st, r.root, r.path)
    return Enum(OPTION, v.tag, [(), None if v.ps[1] is None else (MRef(r.root, r.path + (('p', 1, 0),)),)])


def goodix(v):
    return 1 if v.name == OPTION else 0


@bi('core::option::Option::unwrap', 'core::result::Result::unwrap', 'core::option::Option::expect', 'core::result::Result::expect')
def _unwrap(ip, st, a, info):
    v = ip.deref(st, a[0])
    out = []
    for i, s in split(ip, st, v):
        if i == goodix(v):
            out.append(('ret', s, pay(v, i)))
        else:
            out.append(panic(s, info['c']['name'], info))
    return out


@bi('core::result::Result::unwrap_err', 'core::result::Result::expect_err')
def _unwrape(ip, st, a, info):
    v = ip.deref(st, a[0])
    return [('ret', s, pay(v, 1)) if i == 1 else panic(s, 'unwrap_err', info) for i, s in split(ip, st, v)]


@bi('core::option::Option::unwrap_or', 'core::result::Result::unwrap_or')
def _unwrapor(ip, st, a, info):
    v = a[0]
    return [('ret', s, pay(v, i) if i == goodix(v) else a[1]) for i, s in split(ip, st, v)]


@bi('core::option::Option::unwrap_or_else', 'core::result::Result::unwrap_or_else')
def _unwraporelse(ip, st, a, info):
    v = a[0]
    out = []
    for i, s in split(ip, st, v):
        if i == goodix(v):
            out.append(('ret', s, pay(v, i)))
        else:
            out += ip.apply(s, a[1], [] if v.name == OPTION else [pay(v, 1)])
    return out


@bi('core::option::Option::unwrap_or_default', 'core::result::Result::unwrap_or_default')
def _unwrapordef(ip, st, a, info):
    v = a[0]
    return [('ret', s, pay(v, i) if i == goodix(v) else _default(ip, s, [], info)) for i, s in split(ip, st, v)]


@bi('core::option::Option::is_some', 'core::result::Result::is_err')
def _is1(ip, st, a, info):
    return mkeq(ip.deref(st, a[0]).tag, IntVal(1))


@bi('core::option::Option::is_none', 'core::result::Result::is_ok')
def _is0(ip, st, a, info):
    return mkeq(ip.deref(st, a[0]).tag, IntVal(0))


@bi('core::option::Option::is_some_and', 'core::option::Option::is_none_or', 'core::result::Result::is_ok_and')
def _issomeand(ip, st, a, info):
    v = a[0]
    d = BoolVal(info['c']['name'] == 'is_none_or')
    out = []
    for i, s in split(ip, st, v):
        out += ip.apply(s, a[1], [pay(v, i)]) if i == goodix(v) else [('ret', s, d)]
    return out


def mapper(good, wrap, other):
    def h(ip, st, a, info):
        v = a[0]
        out = []
        for i, s in split(ip, st, v):
            if (i == goodix(v)) == good:
                args = [pay(v, i)] if v.ps[i] else []
                for k, s2, r in ip.apply(s, a[1], args):
                    out.append((k, s2, wrap(v, r) if k == 'ret' else r))
            else:
                out.append(('ret', s, other(v, i)))
        return out
    return h


TABLE['core::option::Option::map'] = mapper(True, lambda v, r: some(r), lambda v, i: none())
TABLE['core::result::Result::map'] = mapper(True, lambda v, r: ok(r), lambda v, i: err(pay(v, 1)))
TABLE['core::result::Result::map_err'] = mapper(False, lambda v, r: err(r), lambda v, i: ok(pay(v, 0)))
TABLE['core::option::Option::and_then'] = mapper(True, lambda v, r: r, lambda v, i: none())
TABLE['core::result::Result::and_then'] = mapper(True, lambda v, r: r, lambda v, i: err(pay(v, 1)))
TABLE['core::option::Option::or_else'] = mapper(False, lambda v, r: r, lambda v, i: some(pay(v, 1)))
TABLE['core::result::Result::or_else'] = mapper(False, lambda v, r: r, lambda v, i: ok(pay(v, 0)))


@bi('core::option::Option::map_or', 'core::result::Result::map_or')
def _mapor(ip, st, a, info):
    v = a[0]
    out = []
    for i, s in split(ip, st, v):
        out += ip.apply(s, a[2], [pay(v, i)]) if i == goodix(v) else [('ret', s, a[1])]
    return out


@bi('core::option::Option::map_or_else', 'core::result::Result::map_or_else')
def _maporelse(ip, st, a, info):
    v = a[0]
    out = []
    for i, s in split(ip, st, v):
        out += ip.apply(s, a[2], [pay(v, i)]) if i == goodix(v) else ip.apply(s, a[1], [] if v.name == OPTION else [pay(v, i)])
    return out


@bi('core::option::Option::ok_or')
def _okor(ip, st, a, info):
    v = a[0]
    return [('ret', s, ok(pay(v, 1)) if i == 1 else err(a[1])) for i, s in split(ip, st, v)]


@bi('core::option::Option::ok_or_else')
def _okorelse(ip, st, a, info):
    v = a[0]
    out = []
    for i, s in split(ip, st, v):
        if i == 1:
            out.append(('ret', s, ok(pay(v, 1))))
        else:
            out += [(k, s2, err(r) if k == 'ret' else r) for k, s2, r in ip.apply(s, a[1], [])]
    return out


@bi('core::option::Option::or', 'core::result::Result::or')
def _or(ip, st, a, info):
    v = a[0]
    return [('ret', s, (a[0] if v.name == OPTION else ok(pay(v, 0))) if i == goodix(v) else a[1]) for i, s in split(ip, st, v)]


@bi('core::option::Option::and', 'core::result::Result::and')
def _and(ip, st, a, info):
    v = a[0]
    return [('ret', s, a[1] if i == goodix(v) else (none() if v.name == OPTION else err(pay(v, 1)))) for i, s in split(ip, st, v)]


@bi('core::option::Option::xor')
def _xor(ip, st, a, info):
    return [('ret', s2, a[0] if (i, j) == (1, 0) else a[1] if (i, j) == (0, 1) else none()) for i, s in split(ip, st, a[0]) for j, s2 in split(ip, s, a[1])]


@bi('core::option::Option::zip')
def _ozip(ip, st, a, info):
    return [('ret', s2, some(tup(pay(a[0], 1), pay(a[1], 1))) if (i, j) == (1, 1) else none()) for i, s in split(ip, st, a[0]) for j, s2 in split(ip, s, a[1])]


@bi('core::option::Option::flatten')
def _oflatten(ip, st, a, info):
    return [('ret', s, pay(a[0], 1) if i == 1 else none()) for i, s in split(ip, st, a[0])]


@bi('core::result::Result::is_err_and')
def _iserrand(ip, st, a, info):
    out = []
    for i, s in split(ip, st, a[0]):
        out += ip.apply(s, a[1], [pay(a[0], 1)]) if i == 1 else [('ret', s, BoolVal(False))]
    return out


@bi('core::bool::then', 'core::bool::then_some')
def _then(ip, st, a, info):
    out = []
    for side, s in ip.fork(st, a[0]):
        if not side:
            out.append(('ret', s, none()))
        elif info['c']['name'] == 'then_some':
            out.append(('ret', s, some(a[1])))
        else:
            out += [(k, s2, some(r) if k == 'ret' else r) for k, s2, r in ip.apply(s, a[1], [])]
    return out


@bi('core::result::Result::ok')
def _resok(ip, st, a, info):
    v = a[0]
    return [('ret', s, some(pay(v, 0)) if i == 0 else none()) for i, s in split(ip, st, v)]


@bi('core::result::Result::err')
def _reserr(ip, st, a, info):
    v = a[0]
    return [('ret', s, some(pay(v, 1)) if i == 1 else none()) for i, s in split(ip, st, v)]


@bi('core::option::Option::take')
def _take(ip, st, a, info):
    old = ip.deref(st, a[0])
    ip.write_ref(st, a[0], none())
    return old


@bi('core::option::Option::replace', 'core::option::Option::insert')
def _replace(ip, st, a, info):
    old = ip.deref(st, a[0])
    ip.write_ref(st, a[0], some(a[1]))
    if info['c']['name'] == 'insert':
        raise Unsupported('Option::insert')
    return old


@bi('core::option::Option::filter')
def _ofilter(ip, st, a, info):
    v = a[0]
    out = []
    for i, s in split(ip, st, v):
        if i == 0:
            out.append(('ret', s, none()))
            continue
        for k, s2, r in ip.apply(s, a[1], [pay(v, 1)]):
            if k != 'ret':
                out.append((k, s2, r))
            else:
                for side, s3 in ip.fork(s2, r):
                    out.append(('ret', s3, v if side else none()))
    return out


@bi('core::ops::try_trait::Try::branch')
def _branch(ip, st, a, info):
    v = a[0]
    if v.name == RESULT:
        return Enum(CF, v.tag, [v.ps[0], None if v.ps[1] is None else (Enum(RESULT, IntVal(1), [None, v.ps[1]]),)])
    if v.name == OPTION:
        return Enum(CF, mkif(mkeq(v.tag, IntVal(1)), IntVal(0), IntVal(1)), [v.ps[1], (none(),)])
    raise Unsupported('? on %s' % v.name)


@bi('core::ops::try_trait::FromResidual::from_residual')
def _fromres(ip, st, a, info):
    v = a[0]
    if v.name == OPTION:
        return none()
    t = dty(ip, info)
    e = pay(v, 1)
    # error conversion: From::from(e) is the identity unless the error types differ
    if t and t['k'] == 'adt' and isinstance(e, (Agg, Enum)):
        ea = [x['t'] for x in t['args'] if 't' in x]
        if len(ea) == 2:
            et = ip.mir.types[ea[1]]
            if et['k'] == 'adt' and et['path'] != e.name:
                for (tr, sf, nm), k in ip.mir.impls.items():
                    if tr.startswith('core::convert::From') and sf == et['path'] and nm == 'from':
                        return [(kk, s, err(r) if kk == 'ret' else r) for kk, s, r in ip.call_fn(k, st, [e])]
                raise Unsupported('error conversion')
    return err(e)


# ------------------------------------------------------------------ strings and formatting (contents are opaque)
def freshstr(ip, st):
    return ip.fresh(st, 's', Str)


def display(ip, st, v, info, trait='core::fmt::Display'):
    """run the Display/Debug implementation of a type of the crate (only its panics matter)"""
    v = ip.deref(st, v)
    outs = []
    if isinstance(v, (Agg, Enum)):
        k = ip.mir.impls.get((trait, v.name, 'fmt'))
        if k and ip.mir.fns[k]['file'] and not getattr(ip, 'no_fmt', False):
            sub = ip.call_fn(k, st.copy(), [v, Agg('formatter', ())])
            outs = [(kk, s, r) for kk, s, r in sub if kk == 'panic']
            if not any(kk == 'ret' for kk, s, r in sub):
                return outs, False
    return outs, True


@bi('alloc::string::ToString::to_string')
def _tostr(ip, st, a, info):
    v = ip.deref(st, a[0])
    if isz(v) and v.sort() == Str:
        return v
    outs, good = display(ip, st, v, info)
    return outs + ([('ret', st, freshstr(ip, st))] if good else [])


def _newdisp(ip, st, a, info):
    tr = {'new_display': 'core::fmt::Display', 'new_debug': 'core::fmt::Debug', 'new_lower_exp': 'core::fmt::LowerExp'}.get(info['c']['name'], 'core::fmt::Display')
    outs, good = display(ip, st, a[0], info, tr) if tr != 'core::fmt::Debug' else ([], True)
    return outs + ([('ret', st, Agg('fmtarg', ()))] if good else [])


for n in ('new_display', 'new_debug', 'from_usize', 'new_lower_exp', 'new_upper_exp', 'new'):
    TABLE['core::fmt::rt::Argument::' + n] = _newdisp


def const_v(name):
    return lambda ip, st, a, info: Agg(name, ())


for n in ('core::fmt::Arguments::new', 'core::fmt::Arguments::from_str', 'core::fmt::Arguments::new_const', 'core::fmt::Arguments::new_v1',
          'core::fmt::Arguments::new_v1_formatted', 'core::fmt::rt::Placeholder::new', 'core::fmt::rt::UnsafeArg::new'):
    TABLE[n] = const_v('args')


@bi('alloc::fmt::format', 'alloc::fmt::format::format_inner', 'alloc::string::String::with_capacity')
def _format(ip, st, a, info):
    return freshstr(ip, st)


@bi('alloc::string::String::new')
def _strnew(ip, st, a, info):
    return strlit('')


@bi('alloc::string::String::push_str', 'alloc::string::String::push', 'core::fmt::Write::write_str', 'core::fmt::Write::write_char',
    'alloc::string::String::clear', 'alloc::string::String::insert_str')
def _pushstr(ip, st, a, info):
    if isinstance(a[0], MRef):
        cur = ip.deref(st, a[0])
        if isz(cur) and cur.sort() == Str:
            ip.write_ref(st, a[0], freshstr(ip, st))
    return ok(UNIT) if 'Write' in info['c']['path'] else UNIT


@bi('core::fmt::Write::write_fmt')
def _writefmt(ip, st, a, info):
    _pushstr(ip, st, a, dict(info))
    return ok(UNIT)


@bi('alloc::string::String::len', 'core::str::len')
def _strlen(ip, st, a, info):
    v = ip.deref(st, a[0])
    l = lit_of(v)
    if l is not None:
        return IntVal(len(l.encode()))
    t = fn('strlen', Str, I)(v)
    T.AX.append(z3.And(t >= 0, t < 2 ** 62))
    return t


@bi('alloc::string::String::is_empty', 'core::str::is_empty')
def _strempty(ip, st, a, info):
    return mkeq(_strlen(ip, st, a, info), IntVal(0))


@bi('core::str::trim', 'core::str::to_lowercase', 'alloc::str::to_lowercase', 'alloc::str::to_uppercase', 'core::str::trim_start', 'core::str::trim_end',
    'alloc::str::repeat', 'alloc::str::replace')
def _strfn(ip, st, a, info):
    v = ip.deref(st, a[0])
    return fn('str_' + info['c']['name'], Str, Str)(v)


def _fmtok(ip, st, a, info):
    return ok(UNIT)


for n in ('core::fmt::Formatter::write_fmt', 'core::fmt::Formatter::write_str', 'core::fmt::Formatter::pad',
          'core::fmt::builders::DebugStruct::finish', 'core::fmt::builders::DebugList::finish', 'core::fmt::builders::DebugTuple::finish'):
    TABLE[n] = _fmtok
for i in range(1, 6):
    TABLE['core::fmt::Formatter::debug_struct_field%d_finish' % i] = _fmtok
    TABLE['core::fmt::Formatter::debug_tuple_field%d_finish' % i] = _fmtok
TABLE['core::fmt::Formatter::debug_struct_fields_finish'] = _fmtok
for n in ('debug_struct', 'debug_list', 'debug_tuple'):
    TABLE['core::fmt::Formatter::' + n] = const_v('fmtbuilder')
for n in ('core::fmt::builders::DebugStruct::field', 'core::fmt::builders::DebugList::entries', 'core::fmt::builders::DebugList::entry', 'core::fmt::builders::DebugTuple::field'):
    TABLE[n] = const_v('fmtbuilder')


@bi('core::fmt::Display::fmt', 'core::fmt::Debug::fmt', 'core::fmt::LowerExp::fmt')
def _fmt(ip, st, a, info):
    outs, good = display(ip, st, a[0], info, 'core::fmt::' + strip(info['c']['path']).split('::')[2])
    return outs + ([('ret', st, ok(UNIT))] if good else [])


# ------------------------------------------------------------------ files: the log is assumed to be writable
for n in ('std::fs::File::create', 'std::fs::OpenOptions::open', 'std::fs::File::open', 'std::fs::File::options'):
    TABLE[n] = lambda ip, st, a, info: ok(Agg('file', ()))
for n in ('std::fs::OpenOptions::new', 'std::fs::OpenOptions::append', 'std::fs::OpenOptions::write', 'std::fs::OpenOptions::create', 'std::io::BufWriter::new', 'std::io::buffered::bufwriter::BufWriter::new'):
    TABLE[n] = const_v('openoptions')
for n in ('core::io::write::Write::write_fmt', 'std::io::Write::write_fmt', 'core::io::write::Write::write_all', 'std::io::Write::write_all', 'std::io::Write::flush', 'core::io::write::Write::flush'):
    TABLE[n] = _fmtok
for n in ('std::io::stdio::_print', 'std::io::stdio::_eprint', 'std::io::_print', 'std::io::_eprint'):
    TABLE[n] = lambda ip, st, a, info: UNIT


# ------------------------------------------------------------------ Vec / slices
def seqv(ip, st, v):
    v = ip.deref(st, v)
    if isinstance(v, Seq):
        return v
    if isinstance(v, Agg) and v.name == '[]':
        return arr2seq(v)
    raise Unsupported('sequence operation on %s' % (v.sort() if isz(v) else type(v).__name__))


def arr2seq(v):
    s = Seq(IntVal(0), None)
    for x in v.fs:
        s = seq_push(s, x)
    return s


@bi('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity')
def _vnew(ip, st, a, info):
    return Seq(IntVal(0), None)


@bi('alloc::vec::Vec::push')
def _vpush(ip, st, a, info):
    s = seqv(ip, st, a[0])
    ip.write_ref(st, a[0], seq_push(s, ip.deref(st, a[1]) if isinstance(a[1], MRef) else a[1]))
    return UNIT


@bi('alloc::vec::Vec::len', 'core::slice::len', 'alloc::vec::Vec::is_empty', 'core::slice::is_empty')
def _vlen(ip, st, a, info):
    v = ip.deref(st, a[0])
    n = seqv(ip, st, v).n
    return n if info['c']['name'] == 'len' else mkeq(n, IntVal(0))


@bi('alloc::vec::from_elem')
def _felem(ip, st, a, info):
    return Seq(a[1], vmap(lambda e: karr(e), a[0]))


@bi('core::slice::get', 'core::slice::first', 'core::slice::last')
def _sget(ip, st, a, info):
    s = seqv(ip, st, a[0])
    nm = info['c']['name']
    i = IntVal(0) if nm == 'first' else lin(s.n - 1) if nm == 'last' else a[1]
    if not isz(i):
        raise Unsupported('slice get by range')
    if s.tm is None:
        return none()
    return mkopt(mkand(ile(IntVal(0), i), ilt(i, s.n)), seq_at(s, i))


@bi('alloc::slice::into_vec', 'alloc::boxed::box_new', 'alloc::slice::hack::into_vec', 'alloc::boxed::Box::new', 'alloc::boxed::box_assume_init_into_vec_unsafe')
def _intovec(ip, st, a, info):
    v = ip.deref(st, a[0])
    if isinstance(v, Agg) and v.name == '[]':
        return arr2seq(v)
    return v


# ------------------------------------------------------------------ iterators
def ilen(n):
    return n


def as_iter(ip, st, v):
    if isinstance(v, MRef):
        x = ip.deref(st, v)
        if isinstance(x, Iter):
            return x
        if isinstance(x, Seq):
            r = v
            cur = ip.readp(st, r.root, r.path)
            while isinstance(cur, MRef):
                r = cur
                cur = ip.readp(st, r.root, r.path)
            return Iter('mutseq', x.n, IntVal(0), (r,))
        if isz(x) and x.sort() == Vec:
            return Iter('mut', vlen(x), IntVal(0), (v,))
        v = x
    if isinstance(v, Iter):
        return v
    if isinstance(v, Seq):
        return Iter('seq', v.n, IntVal(0), (v,))
    if isinstance(v, Agg):
        if v.name.endswith('::Range'):
            lo, hi = v.fs
            n = hi if isv(lo) and lo.as_long() == 0 else mkif(ile(lo, hi), lin(hi - lo), IntVal(0))
            return Iter('range', n, IntVal(0), (lo,))
        if v.name == 'RangeInclusive':
            lo, hi = v.fs
            return Iter('range', mkif(ile(lo, hi), lin(hi - lo + 1), IntVal(0)), IntVal(0), (lo,))
        if v.name == '[]':
            s = arr2seq(v)
            return Iter('seq', s.n, IntVal(0), (s,))
    if isinstance(v, Enum) and v.name == OPTION and v.ps[1] is not None:
        return Iter('opt', v.tag, IntVal(0), (v.ps[1][0],))
    if isz(v) and v.sort() == Vec:
        return Iter('vec', vlen(v), IntVal(0), (v,))
    raise Unsupported('iteration over %s' % (v.sort() if isz(v) else getattr(v, 'name', type(v).__name__)))


def it_elem(ip, st, it, i):
    """outcomes of producing element i"""
    k = it.kind
    if k == 'seq':
        if it.data[0].tm is None:
            raise Unsupported('element of an empty sequence')
        return [('ret', st, seq_at(it.data[0], i))]
    if k == 'vec':
        return [('ret', st, vat(it.data[0], i))]
    if k == 'mut':
        return [('ret', st, MRef(it.data[0].root, it.data[0].path + (('at', i),)))]
    if k == 'mutseq':
        return [('ret', st, MRef(it.data[0].root, it.data[0].path + (('i', i),)))]
    if k == 'range':
        return [('ret', st, lin(it.data[0] + i))]
    if k in ('opt', 'repeat'):
        return [('ret', st, it.data[0])]
    if k == 'kids':
        return [('ret', st, fn('kid', U, I, U)(it.data[0], i))]
    if k == 'rev':
        inner = it.data[0]
        return it_elem(ip, st, inner, lin(inner.n - 1 - i))
    if k == 'skip':
        inner, m = it.data
        return it_elem(ip, st, inner, lin(inner.pos + m + i))
    if k == 'take':
        inner = it.data[0]
        return it_elem(ip, st, inner, lin(inner.pos + i))
    if k == 'enum':
        inner = it.data[0]
        return [(kk, s, tup(i, v) if kk == 'ret' else v) for kk, s, v in it_elem(ip, st, inner, lin(inner.pos + i))]
    if k == 'zip':
        out = []
        for kk, s, v in it_elem(ip, st, it.data[0], lin(it.data[0].pos + i)):
            if kk != 'ret':
                out.append((kk, s, v))
                continue
            out += [(k2, s2, tup(v, w) if k2 == 'ret' else w) for k2, s2, w in it_elem(ip, s, it.data[1], lin(it.data[1].pos + i))]
        return out
    if k == 'map':
        out = []
        for kk, s, v in it_elem(ip, st, it.data[0], lin(it.data[0].pos + i)):
            if kk != 'ret':
                out.append((kk, s, v))
            else:
                out += ip.maybe_merge(s, ip.apply(s, it.data[1], [v]))
        return out
    raise Unsupported('iterator %s' % k)


def seek(it, pos):
    """the iterator at another position, through the filters"""
    if it.kind == 'filter':
        return Iter('filter', it.n, pos, (seek(it.data[0], pos), it.data[1]))
    return Iter(it.kind, it.n, pos, it.data)


def remaining(it):
    if it.kind == 'filter':
        raise Unsupported('number of elements of a filter')
    return lin(it.n - it.pos)


IT = 'core::iter::traits::iterator::Iterator::'


@bi(IT + 'next')
def _next(ip, st, a, info):
    it = as_iter(ip, st, a[0])
    out = []
    if it.kind == 'filter':
        base, test = predicate(ip, it, None)
        for k, s, x in first(ip, st, base, test):
            if k in ('found', 'none'):
                s = s.copy()
                if isinstance(a[0], MRef):
                    ip.write_ref(s, a[0], seek(it, lin(x[0] + 1) if k == 'found' else it.n))
                out.append(('ret', s, some(x[1]) if k == 'found' else none()))
            else:
                out.append((k, s, x))
        return out
    for side, s in ip.fork(st, ilt(it.pos, it.n)):
        if not side:
            out.append(('ret', s, none()))
            continue
        for k, s2, v in it_elem(ip, s, it, it.pos):
            if k == 'ret':
                if s2 is s:
                    s2 = s.copy()
                ip.write_ref(s2, a[0], Iter(it.kind, it.n, lin(it.pos + 1), it.data))
                v = some(v)
            out.append((k, s2, v))
    return out


@bi('core::iter::traits::collect::IntoIterator::into_iter', 'core::slice::iter', 'nalgebra::base::matrix::Matrix::iter')
def _iter(ip, st, a, info):
    v = a[0]
    if info['c']['name'] == 'iter':
        v = ip.deref(st, v)
    return as_iter(ip, st, v)


@bi('core::slice::iter_mut', 'nalgebra::base::matrix::Matrix::iter_mut')
def _itermut(ip, st, a, info):
    return as_iter(ip, st, a[0])


@bi('core::ops::range::RangeInclusive::new')
def _ri(ip, st, a, info):
    return Agg('RangeInclusive', a)


@bi(IT + 'enumerate')
def _enum(ip, st, a, info):
    it = as_iter(ip, st, a[0])
    return Iter('enum', remaining(it), IntVal(0), (it,))


@bi(IT + 'zip')
def _zip(ip, st, a, info):
    x, y = as_iter(ip, st, a[0]), as_iter(ip, st, a[1])
    n, m = remaining(x), remaining(y)
    e = mkeq(n, m)
    if is_true(e):
        k = n
    else:
        k = mkif(ile(n, m), n, m)
        # simplify when the path condition decides the order
        if isite(k):
            if not ip.feasible(st.pc + (mknot(ile(n, m)),), st.hist):
                k = n
            elif not ip.feasible(st.pc + (mknot(ile(m, n)),), st.hist):
                k = m
    return Iter('zip', k, IntVal(0), (x, y))


@bi('core::iter::adapters::zip::zip')
def _zipf(ip, st, a, info):
    return _zip(ip, st, a, info)


@bi(IT + 'map')
def _map(ip, st, a, info):
    it = as_iter(ip, st, a[0])
    return Iter('map', remaining(it), IntVal(0), (it, a[1]))


@bi(IT + 'rev')
def _rev(ip, st, a, info):
    it = as_iter(ip, st, a[0])
    if not (isv(it.pos) and it.pos.as_long() == 0):
        raise Unsupported('rev of a started iterator')
    return Iter('rev', it.n, IntVal(0), (it,))


@bi(IT + 'skip')
def _skip(ip, st, a, info):
    it = as_iter(ip, st, a[0])
    m = mkif(ile(a[1], remaining(it)), a[1], remaining(it))
    return Iter('skip', lin(remaining(it) - m), IntVal(0), (it, m))


@bi(IT + 'take')
def _itake(ip, st, a, info):
    it = as_iter(ip, st, a[0])
    return Iter('take', mkif(ile(a[1], remaining(it)), a[1], remaining(it)), IntVal(0), (it,))


@bi(IT + 'count', 'core::iter::traits::exact_size::ExactSizeIterator::len')
def _count(ip, st, a, info):
    it = as_iter(ip, st, a[0])
    if it.kind == 'filter':
        return folding(ip, st, it, IntVal(0), lambda s, acc, v: [('ret', s, lin(acc + 1))])
    return remaining(it)


def pure_at(ip, st, it, i, f):
    """evaluate f(element i) at a symbolic index with no effect on the state
    -> (value merged over the paths, panic outcomes)"""
    outs = []
    s0 = st.copy()
    for k, s, v in it_elem(ip, s0, it, i):
        if k != 'ret':
            outs.append((k, s, v))
        else:
            outs += f(s, v)
    pan = [o for o in outs if o[0] != 'ret']
    rets = [o for o in outs if o[0] == 'ret']
    for k, s, v in rets:
        for q, x in st.mem.items():
            if s.mem.get(q) is not x:
                raise Unsupported('closure with effects')
        if len(s.hist) != len(st.hist):
            raise Unsupported('quantified closure')
    if not rets:
        return None, pan
    n = len(st.pc)
    val = rets[-1][2]
    for k, s, v in rets[-2::-1]:
        val = merge(mkand(*s.pc[n:]), v, val)
    return val, pan


def know(st, lo, hi, hv, body):
    """from here on: body for every lo <= hv < hi"""
    if isv(lo) and isv(hi) and hi.as_long() - lo.as_long() <= 8:
        for k in range(lo.as_long(), hi.as_long()):
            st = st.assume(subst(body, [(hv, IntVal(k))]))
        return st
    st.hist = st.hist + ((lo, hi, hv, body),)
    return st


def quant(ip, st, it, clos, info, want):
    """Iterator::all (want=True) / any (want=False)"""
    w = ip.freshu('w', I)
    s = st.copy().assume(it.pos <= w, w < it.n)
    out = []
    if ip.feasible(s.pc, s.hist):
        b, pan = pure_at(ip, s, it, w, lambda s2, v: ip.apply(s2, clos, [v]))
        out += pan
        if b is None:
            return out, None
        good = b if want else mknot(b)
        f = s.assume(mknot(good))
        hv = ip.freshu('hv', I)
        gh = subst(good, [(w, hv)])
        f.hist = f.hist + ((it.pos, w, hv, gh),)
        if ip.feasible(f.pc, f.hist):
            out.append(('ret', f, BoolVal(not want)))
        t = st.copy()
        t = know(t, it.pos, it.n, hv, gh)
    else:
        t = st.copy()
    out.append(('ret', t, BoolVal(want)))
    return out, None


def folding(ip, st, it, acc, step):
    """consume the iterator: step(st, acc, element) -> outcomes ('ret', st, acc') | ('brk', st, value) | panics;
    -> outcomes ('ret', st, acc) after the last element | ('brk', st, value) | panics"""
    import loops
    preds = []
    while it.kind == 'filter':
        preds.append(it.data[1])
        it = it.data[0]
    root = ('synth', next(ip.uid))
    st = st.copy()
    st.mem[root] = Agg('fold', (it, acc))

    def put(s, cur, acc):
        s = s.copy()
        s.mem[root] = Agg('fold', (Iter(cur.kind, cur.n, lin(cur.pos + 1), cur.data), acc))
        return ('stop', s, 'synth')

    def runner(s):
        cur, acc = s.mem[root].fs
        out = []
        for side, s1 in ip.fork(s, ilt(cur.pos, cur.n)):
            if not side:
                out.append(('exit', s1, None))
                continue
            live = []
            for k, s2, v in it_elem(ip, s1, cur, cur.pos):
                if k != 'ret':
                    out.append((k, s2, v))
                else:
                    live.append((s2, v))
            for p in reversed(preds):
                nxt = []
                for s2, v in live:
                    for k, s3, b in ip.apply(s2, p, [v]):
                        if k != 'ret':
                            out.append((k, s3, b))
                            continue
                        for side2, s4 in ip.fork(s3, b):
                            if side2:
                                nxt.append((s4, v))
                            else:
                                out.append(put(s4, cur, acc))
                live = nxt
            for s2, v in live:
                for k3, s3, r in step(s2, acc, v):
                    if k3 == 'ret':
                        out.append(put(s3, cur, r))
                    elif k3 == 'brk':
                        out.append(('exit', s3, r))
                    else:
                        out.append((k3, s3, r))
        return out
    res = []
    for k, s, v in loops.synth(ip, st, runner):
        if k == 'exit':
            r = s.mem[root].fs[1]
            s = s.copy()
            del s.mem[root]
            res.append(('ret', s, r) if v is None else ('brk', s, v))
        else:
            res.append((k, s, v))
    return res


@bi(IT + 'fold', IT + 'for_each')
def _fold(ip, st, a, info):
    it = as_iter(ip, st, a[0])
    if info['c']['name'] == 'fold':
        return folding(ip, st, it, a[1], lambda s, acc, v: ip.apply(s, a[2], [acc, v]))
    return folding(ip, st, it, tup(), lambda s, acc, v: [(k, s2, tup() if k == 'ret' else r) for k, s2, r in ip.apply(s, a[1], [v])])


@bi(IT + 'reduce')
def _reduce(ip, st, a, info):
    it = as_iter(ip, st, a[0])
    if it.kind == 'filter':
        raise Unsupported('reduce of a filter')
    out = []
    for side, s in ip.fork(st, ilt(it.pos, it.n)):
        if not side:
            out.append(('ret', s, none()))
            continue
        for k, s2, v in it_elem(ip, s, it, it.pos):
            if k != 'ret':
                out.append((k, s2, v))
                continue
            rest = Iter(it.kind, it.n, lin(it.pos + 1), it.data)
            out += [(k3, s3, some(r) if k3 == 'ret' else r) for k3, s3, r in
                    folding(ip, s2, rest, v, lambda s4, acc, x: ip.apply(s4, a[1], [acc, x]))]
    return out


@bi(IT + 'try_fold', IT + 'try_for_each')
def _tryfold(ip, st, a, info):
    it = as_iter(ip, st, a[0])
    fold = info['c']['name'] == 'try_fold'
    t = dty(ip, info)
    res = bool(t and t['k'] == 'adt' and t['path'].endswith('::Result'))
    if not (t and t['k'] == 'adt' and t['path'].endswith(('::Result', '::Option'))):
        raise Unsupported('try_fold')

    def step(s, acc, v):
        out = []
        for k, s2, r in ip.apply(s, a[2] if fold else a[1], [acc, v] if fold else [v]):
            if k != 'ret':
                out.append((k, s2, r))
                continue
            for i, s3 in split(ip, s2, r):
                if i == goodix(r):
                    out.append(('ret', s3, pay(r, i) if fold else tup()))
                else:
                    out.append(('brk', s3, err(pay(r, 1)) if res else none()))
        return out
    return [('ret', s, v if k == 'brk' else ok(v) if res else some(v)) if k in ('ret', 'brk') else (k, s, v)
            for k, s, v in folding(ip, st, it, a[1] if fold else tup(), step)]


@bi(IT + 'filter')
def _filter(ip, st, a, info):
    it = as_iter(ip, st, a[0])
    return Iter('filter', it.n, it.pos, (it, a[1]))


def first(ip, st, it, test):
    """-> outcomes ('found', st, (index, element)), ('none', st, None), panics; no effect on the state"""
    w = ip.freshu('w', I)
    s = st.copy().assume(it.pos <= w, w < it.n)
    out = []
    t = st.copy()
    if ip.feasible(s.pc, s.hist):
        b, pan = pure_at(ip, s, it, w, test)
        out += pan
        if b is None:
            return out
        f = s.assume(b)
        hv = ip.freshu('hv', I)
        gh = subst(mknot(b), [(w, hv)])
        f.hist = f.hist + ((it.pos, w, hv, gh),)
        if ip.feasible(f.pc, f.hist):
            for k, s2, v in it_elem(ip, f, it, w):
                if k == 'ret':
                    out.append(('found', s2, (w, v)))
        t = know(t, it.pos, it.n, hv, gh)
    out.append(('none', t, None))
    return out


def predicate(ip, it, clos):
    """the iterator below the filters, and the test of an element that passes them and clos"""
    ps = [] if clos is None else [clos]
    while it.kind == 'filter':
        ps.insert(0, it.data[1])
        it = it.data[0]

    def test(s, v):
        outs = [('ret', s, BoolVal(True))]
        for p in ps:
            nxt = []
            for k, s2, b in outs:
                if k != 'ret':
                    nxt.append((k, s2, b))
                    continue
                for side, s3 in ip.fork(s2, b):
                    nxt += ip.apply(s3, p, [v]) if side else [('ret', s3, BoolVal(False))]
            outs = nxt
        return outs
    return it, test


@bi(IT + 'find', IT + 'position')
def _find(ip, st, a, info):
    it = as_iter(ip, st, a[0])
    byref = isinstance(a[0], MRef)
    pos = info['c']['name'] == 'position'
    if pos and it.kind == 'filter':
        raise Unsupported('position in a filter')
    base, test = predicate(ip, it, a[1])
    out = []
    for k, s, x in first(ip, st, base, test):
        if k not in ('found', 'none'):
            out.append((k, s, x))
            continue
        s = s.copy()
        if byref:
            if it.kind == 'filter':
                raise Unsupported('find in a filter by reference')
            ip.write_ref(s, a[0], Iter(it.kind, it.n, lin(x[0] + 1) if k == 'found' else it.n, it.data))
        out.append(('ret', s, none() if k == 'none' else some(lin(x[0] - it.pos) if pos else x[1])))
    return out


@bi(IT + 'unzip')
def _unzip(ip, st, a, info):
    it = as_iter(ip, st, a[0])
    t = dty(ip, info)
    def part(v, i):
        return v.fs[i]
    if not (t and t['k'] == 'tuple'):
        raise Unsupported('unzip')
    for x in t['tys']:
        x = ip.mir.types[x]
        if not (x['k'] == 'adt' and x['path'].endswith('::Vec')):
            raise Unsupported('unzip')
    return collect_seq(ip, st, it, lambda n, v, k: tup(*[Seq(n, vmap(lambda e: z3.Lambda([k], e), part(v, i)) if v is not None else None) for i in (0, 1)]))


@bi('core::iter::sources::repeat::repeat', 'core::iter::sources::repeat_n::repeat_n')
def _repeat(ip, st, a, info):
    return Iter('repeat', a[1] if info['c']['name'] == 'repeat_n' else IntVal(2 ** 62), IntVal(0), (a[0],))


@bi('core::clone::Clone::clone_from')
def _clone_from(ip, st, a, info):
    ip.write_ref(st, a[0], ip.deref(st, a[1]))
    return UNIT


@bi(IT + 'all', IT + 'any')
def _all(ip, st, a, info):
    it = as_iter(ip, st, a[0])
    if it.kind == 'filter':
        want = info['c']['name'] == 'all'
        if want:
            raise Unsupported('all of a filter')
        base, test = predicate(ip, it, a[1])
        return [('ret', s, BoolVal(k == 'found')) if k in ('found', 'none') else (k, s, x) for k, s, x in first(ip, st, base, test)]
    outs, _ = quant(ip, st, it, a[1], info, info['c']['name'] == 'all')
    return outs


@bi(IT + 'collect', 'core::iter::traits::collect::FromIterator::from_iter')
def _collect(ip, st, a, info):
    it = as_iter(ip, st, a[0])
    t = dty(ip, info)
    if not (t and t['k'] == 'adt' and t['path'].endswith('::Vec')):
        raise Unsupported('collect')
    return collect_seq(ip, st, it, lambda n, v, k: Seq(n, vmap(lambda e: z3.Lambda([k], e), v)))


def collect_seq(ip, st, it, mk):
    w = ip.freshu('w', I)
    s = st.copy().assume(IntVal(0) <= w, w < remaining(it))
    n = remaining(it)
    if not ip.feasible(s.pc, s.hist):
        return [('ret', st, mk(n, None, w))]
    v, pan = pure_at(ip, s, it, lin(it.pos + w), lambda s2, x: [('ret', s2, ip.deref(s2, x))])
    if v is None:
        # every element panics: only the empty iteration returns
        t = st.copy().assume(mkeq(n, IntVal(0)))
        return pan + ([('ret', t, mk(n, None, w))] if ip.feasible(t.pc, t.hist) else [])
    t = st.copy()
    if pan:
        okc = mkand(*[mknot(mkand(*o[1].pc[len(s.pc):])) for o in pan])
        hv = ip.freshu('hv', I)
        t = know(t, IntVal(0), n, hv, subst(okc, [(w, hv)]))
    return pan + [('ret', t, mk(n, v, w))]


# ------------------------------------------------------------------ indexing
@bi('core::ops::index::Index::index')
def _index(ip, st, a, info):
    v, ix = ip.deref(st, a[0]), ip.deref(st, a[1])
    if isz(v) and v.sort() == Vec and isz(ix):
        good, bad = need(ip, st, mkand(ile(IntVal(0), ix), ilt(ix, vlen(v))), 'matrix index out of bounds', info)
        return bad + ([('ret', good, vat(v, ix))] if good is not None else [])
    if isz(v) and v.sort() == Vec and isinstance(ix, Agg) and len(ix.fs) == 2 and isv(ix.fs[1]) and ix.fs[1].as_long() == 0:
        return _index(ip, st, [v, ix.fs[0]], info)
    if isz(v) and v.sort() == One:
        return oat(v)
    if isz(v) and v.sort() == Mat and isinstance(ix, Agg) and len(ix.fs) == 2:
        i, j = ix.fs
        r, c = mdim(v)
        good, bad = need(ip, st, mkand(ile(IntVal(0), i), ilt(i, r), ile(IntVal(0), j), ilt(j, c)), 'matrix index out of bounds', info)
        return bad + ([('ret', good, mat(v, i, j))] if good is not None else [])
    if isinstance(v, Seq) and isz(ix):
        good, bad = need(ip, st, mkand(ile(IntVal(0), ix), ilt(ix, v.n)), 'index out of bounds', info)
        return bad + ([('ret', good, seq_at(v, ix))] if good is not None else [])
    if isinstance(v, (Seq,)) and isinstance(ix, Agg) and ix.name.endswith('RangeFull'):
        return v
    raise Unsupported('index of %s by %s' % (v.sort() if isz(v) else type(v).__name__, ix if not isinstance(ix, Agg) else ix.name))


@bi('core::ops::index::IndexMut::index_mut')
def _indexmut(ip, st, a, info):
    r = a[0]
    v, ix = ip.deref(st, r), ip.deref(st, a[1])
    while True:
        cur = ip.readp(st, r.root, r.path)
        if not isinstance(cur, MRef):
            break
        r = cur
    if isz(v) and v.sort() == Vec and isz(ix):
        good, bad = need(ip, st, mkand(ile(IntVal(0), ix), ilt(ix, vlen(v))), 'matrix index out of bounds', info)
        return bad + ([('ret', good, MRef(r.root, r.path + (('at', ix),)))] if good is not None else [])
    if isz(v) and v.sort() == Mat and isinstance(ix, Agg) and len(ix.fs) == 2:
        i, j = ix.fs
        nr, nc = mdim(v)
        good, bad = need(ip, st, mkand(ile(IntVal(0), i), ilt(i, nr), ile(IntVal(0), j), ilt(j, nc)), 'matrix index out of bounds', info)
        return bad + ([('ret', good, MRef(r.root, r.path + (('at', i, j),)))] if good is not None else [])
    if isinstance(v, Seq) and isz(ix):
        good, bad = need(ip, st, mkand(ile(IntVal(0), ix), ilt(ix, v.n)), 'index out of bounds', info)
        return bad + ([('ret', good, MRef(r.root, r.path + (('i', ix),)))] if good is not None else [])
    raise Unsupported('mutable index')


# ------------------------------------------------------------------ arithmetic operators on values
MATS = ('Vec', 'Mat', 'Row', 'One')


def ismat(v):
    return isz(v) and v.sort().name() in MATS


def dimeq(a, b):
    (x, y), (z, w) = dims(a), dims(b)
    return mkand(mkeq(x, z), mkeq(y, w))


def arith(op):
    def h(ip, st, a, info):
        x, y = ip.deref(st, a[0]), ip.deref(st, a[1])
        return arith_v(ip, st, op, x, y, info)
    return h


def unwrap_scalar(v):
    return v


def arith_v(ip, st, op, x, y, info):
    if isz(x) and isz(y):
        if x.sort() == T.F and y.sort() == T.F:
            return getattr(TH, op)(x, y)
        if ismat(x) and ismat(y):
            if op in ('add', 'sub'):
                if x.sort() != y.sort():
                    raise Unsupported('matrix %s of different shapes' % op)
                good, bad = need(ip, st, dimeq(x, y), 'matrix dimension mismatch', info)
                r = a_add(x, y) if op == 'add' else a_sub(x, y)
                return bad + ([('ret', good, r)] if good is not None else [])
            if op == 'mul':
                ca, rb = inner_dims(x, y)
                good, bad = need(ip, st, mkeq(ca, rb), 'matrix dimension mismatch', info)
                if (pre(x), pre(y)) not in MULTAB:
                    raise Unsupported('product %s*%s' % (pre(x), pre(y)))
                return bad + ([('ret', good, a_mul(x, y))] if good is not None else [])
        if ismat(x) and y.sort() == T.F:
            if op == 'mul':
                return a_scale(y, x)
            if op == 'div':
                return a_div(x, y)
        if x.sort() == T.F and ismat(y) and op == 'mul':
            return a_scale(x, y)
        if x.sort() == I and y.sort() == I and op in ('add', 'sub', 'mul'):
            r = lin({'add': x + y, 'sub': x - y, 'mul': x * y}[op])
            good, bad = need(ip, st, mkand(ile(IntVal(0), r), ile(r, IntVal(2 ** 64 - 1))), 'overflow', info)
            return bad + ([('ret', good, r)] if good is not None else [])
        if x.sort() == Str and op == 'add':
            return freshstr(ip, st)
    raise Unsupported('%s on %s and %s' % (op, x.sort() if isz(x) else type(x).__name__, y.sort() if isz(y) else type(y).__name__))


for n in ('add', 'sub', 'mul', 'div'):
    TABLE['core::ops::arith::%s::%s' % (n.capitalize(), n)] = arith(n)


@bi('core::ops::arith::Neg::neg')
def _neg(ip, st, a, info):
    v = ip.deref(st, a[0])
    if ismat(v):
        return a_neg(v)
    if isz(v) and v.sort() == T.F:
        return TH.neg(v)
    raise Unsupported('neg')


@bi('core::ops::bit::Not::not')
def _not(ip, st, a, info):
    return mknot(ip.deref(st, a[0]))


def arith_assign(op):
    def h(ip, st, a, info):
        x, y = ip.deref(st, a[0]), ip.deref(st, a[1])
        r = arith_v(ip, st, op, x, y, info)
        if not isinstance(r, list):
            r = [('ret', st, r)]
        out = []
        for k, s, v in r:
            if k == 'ret':
                if s is st:
                    s = st.copy()
                ip.write_ref(s, a[0], v)
                v = UNIT
            out.append((k, s, v))
        return out
    return h


for n in ('add', 'sub', 'mul', 'div'):
    TABLE['core::ops::arith::%sAssign::%s_assign' % (n.capitalize(), n)] = arith_assign(n)


# ------------------------------------------------------------------ nalgebra (dispatched by the method name)
NA = {}


def na(*names):
    def d(f):
        for n in names:
            NA[n] = f
        return f
    return d


@na('len')
def _nlen(ip, st, a, info):
    v = ip.deref(st, a[0])
    p = pre(v)
    if p == 'v':
        return vlen(v)
    r, c = dims(v)
    return lin(r * c)


@na('nrows')
def _nrows(ip, st, a, info):
    return dims(ip.deref(st, a[0]))[0]


@na('ncols')
def _ncols(ip, st, a, info):
    return dims(ip.deref(st, a[0]))[1]


@na('shape')
def _shape(ip, st, a, info):
    return tup(*dims(ip.deref(st, a[0])))


@na('shape_generic')
def _shapeg(ip, st, a, info):
    v = ip.deref(st, a[0])
    r, c = dims(v)
    p = pre(v)
    return tup(ONE if p in 'ro' else r, ONE if p in 'vo' else c)


@na('value')
def _dimvalue(ip, st, a, info):
    return dimval(ip.deref(st, a[0]))


@na('from_usize')
def _fromusize(ip, st, a, info):
    return a[0]


@na('is_square')
def _issq(ip, st, a, info):
    r, c = dims(ip.deref(st, a[0]))
    return mkeq(r, c)


@na('is_empty')
def _nempty(ip, st, a, info):
    r, c = dims(ip.deref(st, a[0]))
    return mkor(mkeq(r, IntVal(0)), mkeq(c, IntVal(0)))


def dest_kind(ip, info):
    t = dty(ip, info)
    if t and t['k'] == 'adt' and t['path'].endswith('::Matrix'):
        return mat_kind(ip, t)
    return None


def isc1(ip, x):
    if 't' in x:
        t = ip.mir.types[x['t']]
        return t['k'] == 'adt' and t['path'].endswith('::Const') and [y.get('c') for y in t['args']] in (['1'], ['1_usize'])
    return False


def mat_kind(ip, t):
    ar = [x for x in t['args'] if 'r' not in x]
    r1, c1 = isc1(ip, ar[1]), isc1(ip, ar[2])
    return 'o' if r1 and c1 else 'r' if r1 else 'v' if c1 else 'm'


def filled(ip, info, r, c, e):
    """matrix of r x c with entries e(i,j)"""
    k = None
    if isone(c):
        k = 'v'
    elif isone(r):
        k = 'r'
    elif r is not None and c is not None and not isone(r):
        k = 'm'
    dk = dest_kind(ip, info)
    if dk and dk != k:
        k = dk
    if k == 'v':
        return vmk(dimval(r), lam(lambda i: e(i, IntVal(0))))
    if k == 'm':
        return mmk(dimval(r), dimval(c), lam(lambda i, j: e(i, j), 2))
    raise Unsupported('construction of a %s matrix' % k)


@na('zeros_generic')
def _zerosg(ip, st, a, info):
    dk = dest_kind(ip, info)
    if dk == 'v' or (dk is None and isone(a[1])):
        return zeros_v(dimval(a[0]))
    if dk in ('m', None):
        return zeros_m(dimval(a[0]), dimval(a[1]))
    raise Unsupported('zeros_generic')


@na('zeros')
def _zeros(ip, st, a, info):
    if len(a) == 1:
        if dest_kind(ip, info) not in ('v', None):
            raise Unsupported('zeros')
        return zeros_v(a[0])
    if len(a) == 2:
        return zeros_m(a[0], a[1])
    raise Unsupported('zeros')


@na('from_element_generic', 'repeat_generic')
def _felg(ip, st, a, info):
    return filled(ip, info, a[0], a[1], lambda i, j: a[2])


@na('from_element', 'repeat')
def _fel(ip, st, a, info):
    if len(a) == 2:
        return vmk(a[0], karr(a[1]))
    return mmk(a[0], a[1], lam(lambda i, j: a[2], 2))


def idm(r, c):
    return mmk(r, c, lam(lambda i, j: mkif(mkeq(i, j), TH.num(1), TH.num(0)), 2))


@na('identity_generic')
def _idg(ip, st, a, info):
    return idm(dimval(a[0]), dimval(a[1]))


@na('identity')
def _identity(ip, st, a, info):
    if len(a) == 2:
        return idm(a[0], a[1])
    raise Unsupported('identity')


def eval2(ip, st, n, m, clos, mk):
    """matrix from a closure of (row, col)"""
    i, j = ip.freshu('w', I), ip.freshu('w', I)
    s = st.copy().assume(IntVal(0) <= i, i < n, IntVal(0) <= j, j < m)
    if not ip.feasible(s.pc, s.hist):
        return [('ret', st, mk(lambda a, b: TH.num(0)))]
    outs = ip.apply(s, clos, [i, j])
    pan = [o for o in outs if o[0] != 'ret']
    rets = [o for o in outs if o[0] == 'ret']
    if pan:
        raise Unsupported('panicking matrix closure')
    for k, s2, v in rets:
        for q, x in st.mem.items():
            if s2.mem.get(q) is not x:
                raise Unsupported('closure with effects')
    val = rets[-1][2]
    for k, s2, v in rets[-2::-1]:
        val = merge(mkand(*s2.pc[len(s.pc):]), v, val)
    return [('ret', st, mk(lambda a, b: subst(val, [(i, a), (j, b)])))]


@na('from_fn_generic')
def _ffng(ip, st, a, info):
    r, c = a[0], a[1]
    return eval2(ip, st, dimval(r), dimval(c), a[2], lambda e: filled(ip, info, r, c, e))


@na('from_fn')
def _ffn(ip, st, a, info):
    if len(a) == 2:
        return eval2(ip, st, a[0], IntVal(1), a[1], lambda e: vmk(a[0], lam(lambda i: e(i, IntVal(0)))))
    return eval2(ip, st, a[0], a[1], a[2], lambda e: mmk(a[0], a[1], lam(lambda i, j: e(i, j), 2)))


@na('from_iterator_generic', 'from_iterator')
def _fit(ip, st, a, info):
    if len(a) == 3:
        if not isone(a[1]):
            raise Unsupported('from_iterator of a matrix')
        n = dimval(a[0])
    else:
        n = a[0]
    it = as_iter(ip, st, a[-1])
    good, bad = need(ip, st, ile(n, remaining(it)), 'not enough elements', info)
    if good is None:
        return bad
    it = Iter('take', n, IntVal(0), (it,))
    return bad + collect_seq(ip, good, it, lambda n, v, k: zeros_v(n) if v is None else vmk(n, z3.Lambda([k], v)))


@na('from_vec', 'from_row_slice', 'from_column_slice', 'from_vec_generic', 'from_slice')
def _fromvec(ip, st, a, info):
    if len(a) == 1:
        s = seqv(ip, st, a[0])
        if s.tm is None:
            return zeros_v(IntVal(0))
        return vmk(s.n, s.tm)
    raise Unsupported('from_vec')


@na('clone', 'clone_owned', 'into_owned', 'to_owned', 'as_ref')
def _nid(ip, st, a, info):
    return ip.deref(st, a[0])


@na('transpose', 'adjoint')
def _tr(ip, st, a, info):
    return a_t(ip.deref(st, a[0]))


@na('tr_mul')
def _trmul(ip, st, a, info):
    return arith_v(ip, st, 'mul', a_t(ip.deref(st, a[0])), ip.deref(st, a[1]), info)


@na('amax')
def _amax(ip, st, a, info):
    return amax(ip.deref(st, a[0]))


@na('norm_squared')
def _nsq(ip, st, a, info):
    return norm2(ip.deref(st, a[0]))


@na('dot')
def _dot(ip, st, a, info):
    x, y = ip.deref(st, a[0]), ip.deref(st, a[1])
    good, bad = need(ip, st, dimeq(x, y), 'dot: dimension mismatch', info)
    if pre(x) != 'v' or pre(y) != 'v':
        raise Unsupported('dot')
    return bad + ([('ret', good, oat(a_mul(a_t(x), y)))] if good is not None else [])


@na('abs')
def _nabs(ip, st, a, info):
    v = ip.deref(st, a[0])
    return fn(pre(v) + '_abs', v.sort(), v.sort())(v)


@na('scale')
def _nscale(ip, st, a, info):
    return a_scale(a[1], ip.deref(st, a[0]))


@na('unscale')
def _nunscale(ip, st, a, info):
    return a_div(ip.deref(st, a[0]), a[1])


@na('scale_mut', 'unscale_mut', 'neg_mut')
def _nscalemut(ip, st, a, info):
    v, nm = ip.deref(st, a[0]), info['c']['name']
    ip.write_ref(st, a[0], a_scale(a[1], v) if nm == 'scale_mut' else a_div(v, a[1]) if nm == 'unscale_mut' else a_neg(v))
    return UNIT


@na('lerp')
def _lerp(ip, st, a, info):
    x, y, w = ip.deref(st, a[0]), ip.deref(st, a[1]), a[2]
    good, bad = need(ip, st, dimeq(x, y), 'lerp: dimension mismatch', info)
    return bad + ([('ret', good, a_add(a_scale(TH.sub(TH.lit(4607182418800017408), w), x), a_scale(w, y)))] if good is not None else [])


@na('lu')
def _lu(ip, st, a, info):
    return Agg('LU', (ip.deref(st, a[0]),))


def lum(v):
    return v.fs[0] if isinstance(v, Agg) and v.name == 'LU' else v


@na('try_inverse')
def _tryinv(ip, st, a, info):
    m = lum(ip.deref(st, a[0]))
    r, c = mdim(m)
    good, bad = need(ip, st, mkeq(r, c), 'inverse of a non-square matrix', info)
    return bad + ([('ret', good, mkopt(invok(m), inv(m)))] if good is not None else [])


@na('is_invertible')
def _isinv(ip, st, a, info):
    return invok(lum(ip.deref(st, a[0])))


@na('solve')
def _solve(ip, st, a, info):
    m = lum(ip.deref(st, a[0]))
    y = ip.deref(st, a[1])
    r, c = mdim(m)
    good, bad = need(ip, st, mkand(mkeq(r, c), mkeq(c, inner_dims(m, y)[1])), 'solve: dimension mismatch', info)
    return bad + ([('ret', good, mkopt(invok(m), a_mul(inv(m), y)))] if good is not None else [])


@na('set_column')
def _setcol(ip, st, a, info):
    m, j, v = ip.deref(st, a[0]), a[1], ip.deref(st, a[2])
    r, c = mdim(m)
    good, bad = need(ip, st, mkand(ile(IntVal(0), j), ilt(j, c), mkeq(vlen(v), r)), 'set_column: out of bounds', info)
    if good is not None:
        if good is st:
            good = st.copy()
        ip.write_ref(good, a[0], m_setcol(m, j, v))
        bad = bad + [('ret', good, UNIT)]
    return bad


@na('column', 'column_mut')
def _column(ip, st, a, info):
    m, j = ip.deref(st, a[0]), a[1]
    r, c = mdim(m)
    good, bad = need(ip, st, mkand(ile(IntVal(0), j), ilt(j, c)), 'column: out of bounds', info)
    if good is None:
        return bad
    if info['c']['name'] == 'column':
        v = mcol(m, j)
    else:
        rr = a[0]
        v = MRef(rr.root, rr.path + (('col', j),))
    return bad + [('ret', good, v)]


@na('copy_from')
def _copyfrom(ip, st, a, info):
    x, y = ip.deref(st, a[0]), ip.deref(st, a[1])
    good, bad = need(ip, st, dimeq(x, y), 'copy_from: dimension mismatch', info)
    if good is None:
        return bad
    good = good.copy()
    ip.write_ref(good, a[0], y)
    return bad + [('ret', good, UNIT)]


@na('fill')
def _fill(ip, st, a, info):
    x = ip.deref(st, a[0])
    ip.write_ref(st, a[0], vmk(vlen(x), karr(a[1])) if pre(x) == 'v' else mmk(*mdim(x), lam(lambda i, j: a[1], 2)))
    return UNIT


@na('axpy')
def _axpy(ip, st, a, info):
    y, c, x, b = ip.deref(st, a[0]), a[1], ip.deref(st, a[2]), a[3]
    good, bad = need(ip, st, dimeq(x, y), 'axpy: dimension mismatch', info)
    if good is None:
        return bad
    good = good.copy()
    ip.write_ref(good, a[0], a_add(a_scale(c, x), a_scale(b, y)))
    return bad + [('ret', good, UNIT)]


@na('map')
def _nmap(ip, st, a, info):
    v = ip.deref(st, a[0])
    if pre(v) == 'v':
        return collect_seq(ip, st, Iter('map', vlen(v), IntVal(0), (as_iter(ip, st, v), a[1])),
                           lambda n, x, k: zeros_v(n) if x is None else vmk(n, z3.Lambda([k], x)))
    raise Unsupported('map of a matrix')


@na('apply')
def _napply(ip, st, a, info):
    v = ip.deref(st, a[0])
    if pre(v) != 'v':
        raise Unsupported('apply on a matrix')
    return [(k, s, UNIT if k == 'ret' else x) for k, s, x in
            folding(ip, st, as_iter(ip, st, a[0]), tup(), lambda s, acc, r: [(k, s2, tup() if k == 'ret' else q) for k, s2, q in ip.apply(s, a[1], [r])])]


@na('zip_map')
def _nzipmap(ip, st, a, info):
    v, w = ip.deref(st, a[0]), ip.deref(st, a[1])
    if pre(v) == 'v' and pre(w) == 'v':
        good, bad = need(ip, st, dimeq(v, w), 'zip_map: dimension mismatch', info)
        if good is None:
            return bad
        k = ip.freshu('w', I)
        s = good.copy().assume(IntVal(0) <= k, k < vlen(v))
        outs = ip.apply(s, a[2], [vat(v, k), vat(w, k)])
        if any(o[0] != 'ret' for o in outs):
            raise Unsupported('panicking closure')
        val = outs[-1][2]
        for _, s2, x in outs[-2::-1]:
            val = merge(mkand(*s2.pc[len(s.pc):]), x, val)
        return bad + [('ret', good, vmk(vlen(v), z3.Lambda([k], val)))]
    raise Unsupported('zip_map of a matrix')


@na('component_mul')
def _cmul(ip, st, a, info):
    v, w = ip.deref(st, a[0]), ip.deref(st, a[1])
    if pre(v) != 'v':
        raise Unsupported('component_mul')
    good, bad = need(ip, st, dimeq(v, w), 'component_mul: dimension mismatch', info)
    return bad + ([('ret', good, vmk(vlen(v), lam(lambda k: TH.mul(vat(v, k), vat(w, k)))))] if good is not None else [])


@na('to_scalar', 'into_scalar', 'as_scalar', 'x')
def _toscalar(ip, st, a, info):
    v = ip.deref(st, a[0])
    if pre(v) != 'o':
        raise Unsupported('to_scalar')
    return oat(v)


@na('as_slice')
def _asslice(ip, st, a, info):
    v = ip.deref(st, a[0])
    if pre(v) != 'v':
        raise Unsupported('as_slice')
    return Seq(vlen(v), varr(v) if dname(v) == 'vmk' else lam(lambda k: vat(v, k)))


def lookup(ip, c, args, path):
    if path.startswith(('nalgebra::', 'simba::')):
        return NA.get(c['name'])
    if path.startswith('core::ops::function::Fn'):
        return _fncall
    return None


def _fncall(ip, st, a, info):
    ar = ip.deref(st, a[1])
    return ip.apply(st, a[0], list(ar.fs))


# ------------------------------------------------------------------ facts about the machine, written in the log only
@bi('whoami::api::distro', 'whoami::api::username', 'whoami::api::devicename', 'rustc_version_runtime::version', 'chrono::offset::utc::Utc::now',
    'chrono::offset::local::Local::now', 'chrono::datetime::DateTime::to_rfc2822')
def _machine(ip, st, a, info):
    return freshstr(ip, st)


# ------------------------------------------------------------------ minidom documents, files and parsing of strings
def opt(c, v):
    """Some(v) if c else None"""
    return Enum(OPTION, mkif(c, IntVal(1), IntVal(0)), [(), (v,)])


@bi('minidom::element::Element::attr')
def _attr(ip, st, a, info):
    e, k = ip.deref(st, a[0]), ip.deref(st, a[1])
    return opt(fn('has_attr', U, Str, B)(e, k), fn('attr', U, Str, Str)(e, k))


@bi('minidom::element::Element::name')
def _elname(ip, st, a, info):
    return fn('el_name', U, Str)(ip.deref(st, a[0]))


def nkids(e):
    n = fn('n_children', U, I)(e)
    T.AX.append(z3.And(n >= 0, n < 2 ** 56))
    return n


@bi('minidom::element::Element::children')
def _children(ip, st, a, info):
    e = ip.deref(st, a[0])
    return Iter('kids', nkids(e), IntVal(0), (e,))


@bi('std::fs::read_to_string')
def _readfile(ip, st, a, info):
    p = ip.deref(st, a[0])
    return Enum(RESULT, mkif(fn('file_readable', Str, B)(p), IntVal(0), IntVal(1)), [(fn('file_text', Str, Str)(p),), (z3.Const('io_error', U),)])


@bi('core::str::parse', 'core::str::traits::FromStr::from_str')
def _parse(ip, st, a, info):
    s = ip.deref(st, a[0])
    ts = [x['t'] for x in info['c']['args'] if 't' in x]
    ty = ip.mir.types[ts[0]]
    if ty['k'] == 'float':
        c, v = fn('is_float', Str, B)(s), fn('float_of', Str, T.F)(s)
    elif ty['k'] == 'int' and ty.get('name') == 'usize':
        c, v = fn('is_usize', Str, B)(s), fn('usize_of', Str, I)(s)
        T.AX.append(z3.And(v >= 0, v < 2 ** 64))
    elif ty['k'] == 'bool':
        c, v = mkor(mkeq(s, strlit('true')), mkeq(s, strlit('false'))), mkeq(s, strlit('true'))
    elif ty['k'] == 'adt' and ty['path'].startswith('minidom'):
        c, v = fn('is_xml', Str, B)(s), fn('xml_root', Str, U)(s)
    else:
        raise Unsupported('parse of %s' % ty.get('path', ty['k']))
    return Enum(RESULT, mkif(c, IntVal(0), IntVal(1)), [(v,), (z3.Const('parse_error', U),)])
