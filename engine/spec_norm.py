"""C08: normalization of residuals.  C07: normalization of analytic Jacobians."""
from ctx import *
from spec_ctor import check_eq
from spec_iter import fp_obl

TAGS = ('Abs', 'Rel', 'Adapt')


def norm_spec(x, y, tag, M):
    """N(x, y) of the property, as a term of the current float theory"""
    d, s = TH.sub(x, y), TH.abs(TH.add(x, y))
    half = TH.div(s, TH.num(2))
    f = {'Abs': d, 'Rel': TH.div(d, half), 'Adapt': TH.div(d, TH.add(TH.num(1), half))}
    r = f['Adapt']
    for v in ('Rel', 'Abs'):
        r = mkif(mkeq(tag, IntVal(enum_tag(M, NM, v))), f[v], r)
    return r


def deriv_spec(x, y, dx, dy, tag, M):
    """quotient and chain rule on N = u/v, u = x-y, v = |x+y|/2 (+1): (u' v - u v')/v^2  (x + y != 0)"""
    re = TH.re
    X, Y, DX, DY = re(x), re(y), re(dx), re(dy)
    u, du = X - Y, DX - DY
    s = X + Y
    v = z3.If(s >= 0, s, -s) / 2
    dv = z3.If(s >= 0, DX + DY, -(DX + DY)) / 2
    f = {'Abs': du, 'Rel': (du * v - u * dv) / (v * v), 'Adapt': (du * (1 + v) - u * dv) / ((1 + v) * (1 + v))}
    r = f['Adapt']
    for q in ('Rel', 'Abs'):
        r = mkif(mkeq(tag, IntVal(enum_tag(M, NM, q))), f[q], r)
    return r


def fixed_tags(M, t):
    for v in TAGS:
        yield v, enum_val(M, NM, v), IntVal(enum_tag(M, NM, v))


def scalar_fp(t):
    M = t.mir
    fn = M.find('residuals::normalization')
    x, y = fsym('x'), fsym('y')
    inp = dict(x=x, y=y)
    for v, e, tg in fixed_tags(M, t):
        def f():
            ip = t.interp(merge_rets=True)
            for o in ip.call_fn(fn, St(), [x, y, e]):
                if o[0] != 'ret':
                    t.prove('C08 C04', fn, 'no panic (%s)' % v, o[1], FALSE, inputs=inp)
                    continue
                want = norm_spec(x, y, tg, M)
                z = z3.fpIsZero(TH.add(x, y))
                nn = mknot(mkor(TH.is_nan(x), TH.is_nan(y)))
                fp_obl(t, 'C08', fn, '%s: IEEE result where the sum of the members is zero (NaN for 0/0, signed infinity otherwise)' % v, o[1],
                       mkimp(mkand(nn, z), TH.ident(o[2], want)), inp)
                fp_obl(t, 'C08 C01', fn, '%s: NaN members give a NaN residual' % v, o[1], mkimp(mknot(nn), TH.is_nan(o[2])), inp)
        t.group('C08', fn, v + ' normalization (IEEE special cases)', f)


def scalars(t):
    M = t.mir
    x, y, dx, dy = map(fsym, ('x', 'y', 'dx', 'dy'))
    fn, fd = None, None

    def nrm():
        fn = M.find('residuals::normalization')
        for v, e, tg in fixed_tags(M, t):
            ip = t.interp(merge_rets=True)
            for o in ip.call_fn(fn, St(), [x, y, e]):
                if o[0] != 'ret':
                    continue
                nz = TRUE if v != 'Rel' else mknot(TH.re(x) + TH.re(y) == 0)
                t.prove('C08', fn, '%s: equals the documented quotient' % v, o[1], mkimp(nz, TH.ident(o[2], norm_spec(x, y, tg, M))), inputs=dict(x=x, y=y))
    t.group('C08', 'residuals::normalization', 'documented quotient', nrm)

    def der():
        fd = M.find('residuals::deriv_normalization')
        inp = dict(x=x, y=y, dx=dx, dy=dy)
        for v, e, tg in fixed_tags(M, t):
            for sg, c in (('x+y>0', TH.re(x) + TH.re(y) > 0), ('x+y<0', TH.re(x) + TH.re(y) < 0)):
                ip = t.interp(merge_rets=True)
                nn = mkand(*[mknot(TH.is_nan(q)) for q in (x, y, dx, dy)])
                st = St(pc=(nn, c))
                for o in ip.call_fn(fd, st, [x, y, dx, dy, e]):
                    if o[0] != 'ret':
                        t.prove('C07 C04', fd, 'no panic (%s)' % v, o[1], FALSE, inputs=inp)
                        continue
                    w = deriv_spec(x, y, dx, dy, tg, M)
                    res = o[2]
                    s2 = o[1]
                    r, m = P.prove(s2.pc, s2.hist, mkand(mknot(TH.is_nan(res)), TH.re(res) == w), timeout=4000)
                    if r != 'unknown':
                        t.add('C07', fd, '%s, %s: derivative by the quotient rule' % (v, sg), r, '' if m is None else 'counterexample: %s' % model_inputs(m, inp), True, 0, None if m is None else model_inputs(m, inp))
                    else:
                        t.prove_real('C07', fd, '%s, %s: derivative by the quotient rule' % (v, sg), s2, TH.re(res), w, inputs=inp, nan=TH.is_nan(res))
    t.group('C07', 'residuals::deriv_normalization', 'derivative of the normalization', der)


NRMF = DNF = None


def norm_contracts():
    NRMF = z3.Function('NRM', T.F, T.F, I, T.F)
    DNF = z3.Function('DN', T.F, T.F, T.F, T.F, I, T.F)
    d = lambda ip, st, a: [ip.deref(st, q) for q in a]
    def nh(ip, st, a, info):
        a = d(ip, st, a)
        return [('ret', st, NRMF(a[0], a[1], a[2].tag))]
    def dh(ip, st, a, info):
        a = d(ip, st, a)
        return [('ret', st, DNF(a[0], a[1], a[2], a[3], a[4].tag))]
    return NRMF, DNF, {'residuals::normalization': nh, 'residuals::deriv_normalization': dh}


def vectors(t):
    """update / stopping residuals of all equations"""
    M, n = t.mir, t.n
    NRMF, DNF, con = norm_contracts()
    k = z3.Const('ixq', I)

    def go(fn, arr, post, props):
        def f():
            last = None
            for use in (True, False):
                ip = t.interp(merge_rets=True, contracts=con if use else {})
                sc, um = enum_seq(M, NM, 'sc', n), enum_seq(M, NM, 'um', n)
                kk, s, rc = one([o for o in ip.call_fn(M.find('ResidualsConfig::new'), St(pc=(n >= 0,)), [sc, um])], 'ResidualsConfig::new')
                l, r = vecsym('l', n), vecsym('r', n)
                kk, s, rv = one([o for o in ip.call_fn(M.find('ResidualsValues::new'), s, [l, r])], 'ResidualsValues::new')
                n0 = len(t.obls)
                for o in ip.call_fn(M.find(fn), s, [rc, rv]):
                    if o[0] != 'ret':
                        t.prove('C08 C04', fn, 'no panic on consistent dimensions', o[1], FALSE)
                        continue
                    t.prove(props, fn, 'one residual per equation', o[1], mkeq(vlen(o[2]), n))
                    tag = z3.Const(arr, z3.ArraySort(I, I))[k]
                    s2 = o[1].copy().assume(k >= 0, k < n, tag >= 0, tag < 3)
                    L, R = vat(l, k), vat(r, k)
                    if use:
                        want = NRMF(L, R, tag)
                        t.prove(props, fn, 'residual i is %s of equation i with its own method' % post, s2, TH.ident(vat(o[2], k), TH.abs(want) if post != 'N' else want))
                    else:
                        want = norm_spec(L, R, tag, M)
                        want = TH.abs(want) if post != 'N' else want
                        nz = TH.re(L) + TH.re(R) != 0
                        t.prove(props, fn, 'residual i is %s of equation i with its own method (normalization inlined)' % post, s2, mkimp(nz, TH.ident(vat(o[2], k), want)))
                if all(o['status'] == 'proved' for o in t.obls[n0:]):
                    return
                if use:
                    last = t.obls[n0:]
                    del t.obls[n0:]
        t.group(props, fn, 'normalization per equation', f)
    go('ResidualsConfig::evaluate_update_residuals', 'um', 'N', 'C08')
    go('ResidualsConfig::evaluate_stopping_residuals', 'sc', '|N|', 'C08 C01')


def jacobians(t):
    M, n = t.mir, t.n
    NRMF, DNF, con = norm_contracts()
    i, j = z3.Const('ixi', I), z3.Const('ixj', I)
    fn = 'JacobianValues::normalize'

    def f():
        for use in (True, False):
            ip = t.interp(merge_rets=True, contracts=con if use else {})
            um = enum_seq(M, NM, 'um', n)
            l, r = vecsym('l', n), vecsym('r', n)
            JL, JR = matsym('JL', n), matsym('JR', n)
            kk, s, rv = one([o for o in ip.call_fn(M.find('ResidualsValues::new'), St(pc=(n >= 0,)), [l, r])], 'ResidualsValues::new')
            kk, s, jv = one([o for o in ip.call_fn(M.find('JacobianValues::new'), s, [JL, JR])], 'JacobianValues::new')
            n0 = len(t.obls)
            for o in ip.call_fn(M.find(fn), s, [jv, rv, um]):
                if o[0] != 'ret':
                    t.prove('C07 C04', fn, 'no panic on consistent dimensions', o[1], FALSE)
                    continue
                a, b = mdim(o[2])
                t.prove('C07', fn, 'square, one row per equation', o[1], mkand(mkeq(a, n), mkeq(b, n)))
                tag = z3.Const('um', z3.ArraySort(I, I))[i]
                s2 = o[1].copy().assume(i >= 0, i < n, j >= 0, j < n, tag >= 0, tag < 3)
                A = (vat(l, i), vat(r, i), mat(JL, i, j), mat(JR, i, j))
                if use:
                    t.prove('C07', fn, 'entry (i,j) is the derivative at equation i, entries (i,j), method i', s2, TH.ident(mat(o[2], i, j), DNF(*A, tag)))
                else:
                    nz = mkand(TH.re(A[0]) + TH.re(A[1]) != 0, *[mknot(TH.nan(q)) for q in A])
                    e = mat(o[2], i, j)
                    t.prove('C07', fn, 'entry (i,j) is the derivative at equation i (derivative inlined)', s2, mkimp(nz, mkand(mknot(TH.nan(e)), TH.re(e) == deriv_spec(*A, tag, M))))
            if all(o['status'] == 'proved' for o in t.obls[n0:]):
                return
            if use:
                del t.obls[n0:]
    t.group('C07', fn, 'normalized Jacobian', f)
