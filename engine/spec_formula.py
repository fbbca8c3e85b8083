"""C09: the rank-one update formulas and the secant equation."""
from ctx import *
import alg
import numeval


def published(method, inverse, B, H, s, y, F):
    """the published formula of the method; B current matrix, H current inverse"""
    outer = lambda a, b: a_mul(a, a_t(b))
    sc = lambda a, M, b: TH.re(oat(a_mul(a_mul(a_t(a), M), b)))
    dt = lambda a, b: TH.re(oat(a_mul(a_t(a), b)))
    mk = lambda r: TH.mk(FALSE, r)
    if not inverse:
        u = a_sub(y, a_mul(B, s))
        if method == 'BroydenFirstMethod':
            return a_add(B, a_div(outer(u, s), mk(dt(s, s))))
        if method == 'BroydenSecondMethod':
            return a_add(B, a_div(a_mul(outer(u, y), B), mk(sc(y, B, s))))
        if method == 'GreenstadtFirstMethod':
            return a_add(B, a_div(a_mul(outer(u, F), B), mk(sc(F, B, s))))
        if method == 'GreenstadtSecondMethod':
            hy = a_mul(H, y)
            return a_add(B, a_div(outer(u, hy), mk(dt(hy, s))))
    u = a_sub(s, a_mul(H, y))
    if method == 'BroydenFirstMethod':
        return a_add(H, a_div(a_mul(outer(u, s), H), mk(sc(s, H, y))))
    if method == 'BroydenSecondMethod':
        return a_add(H, a_div(outer(u, y), mk(dt(y, y))))
    if method == 'GreenstadtFirstMethod':
        return a_add(H, a_div(outer(u, F), mk(dt(F, y))))
    if method == 'GreenstadtSecondMethod':
        c = a_mul(a_mul(a_t(H), H), y)
        return a_add(H, a_div(outer(u, c), mk(dt(c, y))))
    raise KeyError(method)


METHODS = ('BroydenFirstMethod', 'BroydenSecondMethod', 'GreenstadtFirstMethod', 'GreenstadtSecondMethod')


def alg_obl(t, props, fn, clause, a, b):
    t0 = time.time()
    if alg.alg_eq(a, b):
        t.add(props, fn, clause, 'proved', t=time.time() - t0)
        P.STATS['n'] += 1
        P.STATS['proved'] += 1
        return
    w = numeval.differ(a, b)
    P.STATS['n'] += 1
    P.STATS['refuted' if w else 'unknown'] += 1
    t.add(props, fn, clause, 'refuted' if w else 'unknown', 'normal forms differ: %s  /  %s ; %s' % (alg.show(alg.nf(a))[:400], alg.show(alg.nf(b))[:400], w), True, time.time() - t0)


FUNS = [  # function, method, inverse form, the c argument
    ('broyden_first_method_udpate_jac', 'BroydenFirstMethod', False, None),
    ('broyden_first_method_udpate_inv_jac', 'BroydenFirstMethod', True, None),
    ('broyden_second_method_udpate_jac', 'BroydenSecondMethod', False, None),
    ('broyden_second_method_udpate_inv_jac', 'BroydenSecondMethod', True, None),
    ('quasi_method_update_jac', 'GreenstadtFirstMethod', False, 'F'),
    ('quasi_method_update_inv_jac', 'GreenstadtFirstMethod', True, 'F'),
    ('greenstadt_second_method_udpate_jac', 'GreenstadtSecondMethod', False, 'hy'),
    ('quasi_method_update_inv_jac', 'GreenstadtSecondMethod', True, 'hthy'),
]


def formulas(t):
    M, n = t.mir, t.n
    B_, H = matsym('B', n), matsym('H', n)
    s, y, F_ = vecsym('s', n), vecsym('y', n), vecsym('Fc', n)
    for name, meth, inv_, c in FUNS:
        def f():
            ip = t.interp()
            fn = M.find(name)
            args = [H if inv_ else B_, s, y]
            if c:
                args.append({'F': F_, 'hy': a_mul(H, y), 'hthy': a_mul(a_mul(a_t(H), H), y)}[c])
            for o in ip.call_fn(fn, St(pc=(n >= 0,)), args):
                if o[0] != 'ret':
                    t.prove('C09 C04', fn, 'no panic on consistent dimensions', o[1], FALSE)
                    continue
                alg_obl(t, 'C09', fn, '%s (%s form): published rank-one formula' % (meth, 'inverse' if inv_ else 'direct'), o[2], published(meth, inv_, B_, H, s, y, F_))
                if inv_:
                    alg_obl(t, 'C09', fn, '%s (inverse form): secant equation H y = s' % meth, a_mul(o[2], y), s)
                else:
                    alg_obl(t, 'C09', fn, '%s (direct form): secant equation B s = y' % meth, a_mul(o[2], s), y)
        t.group('C09', name, '%s formula' % meth, f)
    # the lemma used by the solver-level obligations: the published formulas satisfy the secant equation
    for meth in METHODS:
        for inv_ in (False, True):
            p = published(meth, inv_, B_, H, s, y, F_)
            if inv_:
                alg_obl(t, 'C09', 'lemma', '%s inverse form: H y = s' % meth, a_mul(p, y), s)
            else:
                alg_obl(t, 'C09', 'lemma', '%s direct form: B s = y' % meth, a_mul(p, s), y)
