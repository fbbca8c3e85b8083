"""C12: constructors reject exactly the invalid arguments; accessors return what was given.  C19: defaults."""
from ctx import *

FP_PARAMS = ['max_step_abs', 'max_step_rel', 'min_value', 'max_value']


def valid_iter(a, r, lo, hi):
    z = TH.num(0)
    return mkand(TH.lt(z, a), TH.lt(z, r), TH.lt(lo, hi))


def check_ctor(t, props, fn, outs, valid, inputs, getters, ip):
    """panic iff not valid; getters: [(function, expected leaf/value)]"""
    rets, pans = split(outs)
    if not rets:
        t.add(props, fn, 'some argument is accepted', 'refuted', 'every path panics')
    for i, (k, s, v) in enumerate(pans):
        t.prove(props, fn, 'panics only on invalid arguments (path %d)' % i, s, mknot(valid), inputs=inputs)
    for i, (k, s, v) in enumerate(rets):
        t.prove(props, fn, 'accepts only valid arguments (path %d)' % i, s, valid, inputs=inputs)
        for g, want in getters:
            for o in ip.call_fn(t.mir.find(g), s, [v]):
                if o[0] != 'ret':
                    t.prove(props, g, 'accessor does not panic', o[1], FALSE, inputs=inputs)
                    continue
                check_eq(t, props, g, 'returns the value given', o[1], o[2], want, inputs)


def check_eq(t, props, fn, clause, st, got, want, inputs=None, exact=True, timeout=20000, facts=()):
    try:
        gs = eq_goals(got, want)
    except Unsupported as e:
        t.add(props, fn, clause, 'unknown', str(e))
        return
    if not gs:
        t.add(props, fn, clause, 'proved')
        return
    goal = []
    for g, a, b, p in gs:
        if a.sort() != b.sort():
            t.add(props, fn, clause, 'unknown', 'sorts differ at ' + p)
            return
        goal.append(mkimp(g, P.eqs(a, b)))
    t.prove(props, fn, clause, st, mkand(*goal), exact=exact, inputs=inputs, timeout=timeout, facts=facts)


def ctors_fp(t):
    M = t.mir
    a = {k: fsym(k) for k in FP_PARAMS + ['dx_abs', 'dx_rel']}
    base = [a[k] for k in FP_PARAMS]
    valid = valid_iter(*base)

    def it():
        ip = t.interp()
        fn = M.find('IterativeParams::new')
        check_ctor(t, 'C12', fn, ip.call_fn(fn, St(), base), valid, a,
                   [('IterativeParams::get_' + k, a[k]) for k in FP_PARAMS], ip)
    t.group('C12', 'IterativeParams::new', 'panics exactly on invalid arguments', it)
    pm = enum_of(M, 'PerturbationMethod', intsym('pm', 2))
    dxv = mkand(TH.lt(TH.num(0), a['dx_abs']), TH.lt(TH.num(0), a['dx_rel']))

    def fd():
        ip = t.interp()
        fn = M.find('IterativeParamsFD::new')
        check_ctor(t, 'C12', fn, ip.call_fn(fn, St(), base + [a['dx_abs'], a['dx_rel'], pm]), mkand(valid, dxv), a,
                   [('IterativeParamsFD::get_' + k, a[k]) for k in a] + [('IterativeParamsFD::get_perturbation_method', pm)], ip)
    t.group('C12', 'IterativeParamsFD::new', 'panics exactly on invalid arguments', fd)

    def ext():
        ip = t.interp()
        fn = M.find('IterativeParamsFD::extend')
        for k, s, v in ip.call_fn(M.find('IterativeParams::new'), St(), base):
            if k != 'ret':
                continue
            check_ctor(t, 'C12', fn, ip.call_fn(fn, s, [v, a['dx_abs'], a['dx_rel'], pm]), dxv, a,
                       [('IterativeParamsFD::get_' + q, a[q]) for q in a] + [('IterativeParamsFD::get_perturbation_method', pm),
                                                                            ('IterativeParamsFD::get_iterative_params', v)], ip)
    t.group('C12', 'IterativeParamsFD::extend', 'panics exactly on invalid arguments', ext)


def ctors_dim(t):
    M = t.mir
    ip = t.interp()
    n1, n2, n3, n4 = (intsym('n%d' % i) for i in range(1, 5))
    dims = dict(n1=n1, n2=n2, n3=n3, n4=n4)

    def rescfg():
        fn = M.find('ResidualsConfig::new')
        sc, um = enum_seq(M, NM, 'sc', n1), enum_seq(M, NM, 'um', n2)
        check_ctor(t, 'C12', fn, ip.call_fn(fn, St(), [sc, um]), n1 == n2, dims,
                   [('ResidualsConfig::len', n1), ('ResidualsConfig::get_update_methods', um), ('ResidualsConfig::get_stopping_criterias', sc)], ip)
    t.group('C12', 'ResidualsConfig::new', 'panics exactly on different lengths', rescfg)

    def resval():
        fn = M.find('ResidualsValues::new')
        l, r = vecsym('l', n1), vecsym('r', n2)
        outs = ip.call_fn(fn, St(), [l, r])
        check_ctor(t, 'C12', fn, outs, n1 == n2, dims, [('ResidualsValues::len', n1), ('ResidualsValues::shape', n1)], ip)
        k = z3.Const('ixq', I)
        for o in outs:
            if o[0] == 'ret':
                s = o[1].copy().assume(k >= 0, k < n1)
                for o2 in ip.call_fn(M.find('ResidualsValues::get_values'), s, [o[2], k]):
                    if o2[0] == 'ret':
                        check_eq(t, 'C12', 'ResidualsValues::get_values', 'returns (left[i], right[i])', o2[1], o2[2], tup(vat(l, k), vat(r, k)))
                    else:
                        t.prove('C12', 'ResidualsValues::get_values', 'no panic in range', o2[1], FALSE)
    t.group('C12', 'ResidualsValues::new', 'panics exactly on different lengths', resval)

    def jacval():
        fn = M.find('JacobianValues::new')
        l, r = matsym('JL', n1, n2), matsym('JR', n3, n4)
        check_ctor(t, 'C12', fn, ip.call_fn(fn, St(), [l, r]), mkand(n1 == n3, n2 == n4, n1 == n2), dims,
                   [('JacobianValues::get_jacobians', tup(l, r))], ip)
    t.group('C12', 'JacobianValues::new', 'panics exactly on different or non-square shapes', jacval)

    def sparams():
        fn = M.find('SolverParameters::new')
        tol, mi, da = fsym('tol'), intsym('max_iter'), z3.Bool('damping')
        rm = method_sym(M)
        check_ctor(t, 'C12', fn, ip.call_fn(fn, St(), [n1, tol, mi, rm, da]), TRUE, dims,
                   [('SolverParameters::get_problem_size', n1), ('SolverParameters::get_tolerance', tol), ('SolverParameters::get_max_iter', mi),
                    ('SolverParameters::get_resolution_method', rm), ('SolverParameters::get_damping', da)], ip)
    t.group('C12', 'SolverParameters::new', 'stores what is given', sparams)

    def rootf():
        fn = M.find('RootFinder::new')
        k, s, sp = one(ip.call_fn(M.find('SolverParameters::new'), St(), [n1, fsym('tol'), intsym('mi'), method_sym(M), z3.Bool('da')]), 'SolverParameters::new')
        k, s, its = one(ip.call_fn(M.find('Iteratives::new'), s, [Seq(n2, z3.Const('cfg', z3.ArraySort(I, TP)))]), 'Iteratives::new')
        outs = []
        for o in ip.call_fn(M.find('ResidualsConfig::new'), s, [enum_seq(M, NM, 'sc', n3), enum_seq(M, NM, 'um', n3)]):
            if o[0] == 'ret':
                outs += ip.call_fn(fn, o[1], [sp, vecsym('guess', n4), its, o[2]])
        check_ctor(t, 'C12', fn, outs, mkand(n1 == n2, n1 == n3, n1 == n4), dims, [], ip)
    t.group('C12', 'RootFinder::new', 'panics exactly on mismatched dimensions', rootf)

    def iters():
        k, s, its = one(ip.call_fn(M.find('Iteratives::new'), St(), [Seq(n2, z3.Const('cfg', z3.ArraySort(I, TP)))]), 'Iteratives::new')
        k, s, v = one(ip.call_fn(M.find('Iteratives::len'), s, [its]), 'len')
        check_eq(t, 'C12', 'Iteratives::len', 'number of parameters given', s, v, n2)
    t.group('C12', 'Iteratives::len', 'number of parameters given', iters)

    def rcs():
        a, b = enum_of(M, NM, intsym('ta', 3)), enum_of(M, NM, intsym('tb', 3))
        fn = M.find('ResidualConfig::new')
        check_ctor(t, 'C12', fn, ip.call_fn(fn, St(), [a, b]), TRUE, {}, [('ResidualConfig::get_update_method', b), ('ResidualConfig::get_stopping_criteria', a)], ip)
    t.group('C12', 'ResidualConfig::new', 'stores what is given', rcs)

    def conv():
        p = [k for k in M.adts if k.endswith('::ResidualConfig')][0]
        sc, um = z3.Const('sc', z3.ArraySort(I, I)), z3.Const('um', z3.ArraySort(I, I))
        k = z3.Const('kx', I)
        k_, s, v = one(ip.call_fn(M.find('ResidualConfig::new'), St(), [enum_of(M, NM, sc[k]), enum_of(M, NM, um[k])]), 'ResidualConfig::new')
        sq = Seq(n1, vmap(lambda e: z3.Lambda([k], e), v))
        k_, s, r = one(ip.call_fn(M.find('ResidualsConfig::convert_into_vecs'), St(), [sq]), 'convert_into_vecs')
        check_eq(t, 'C12', 'ResidualsConfig::convert_into_vecs', 'the stopping criteria and the update methods in order', s, r, tup(enum_seq(M, NM, 'sc', n1), enum_seq(M, NM, 'um', n1)))
    t.group('C12', 'ResidualsConfig::convert_into_vecs', 'the stopping criteria and the update methods in order', conv)


def method_sym(M):
    """any resolution method"""
    up = enum_of(M, 'UpdateQuasiNewtonMethod', intsym('m_up', 4))
    up2 = enum_of(M, 'UpdateQuasiNewtonMethod', intsym('m_up2', 4))
    pq = [k for k in M.adts if k.endswith('::QuasiNewtonMethod')][0]
    pr = [k for k in M.adts if k.endswith('::ResolutionMethod')][0]
    q = Enum(pq, intsym('m_q', 3), [(), (up,), (up2,)])
    return Enum(pr, intsym('m_r', 2), [(), (q,)])


# ------------------------------------------------------------------ defaults
def defaults(t):
    M = t.mir
    ip = t.interp()
    n = t.n
    inf, ninf = TH.lit(0x7ff0000000000000), TH.lit(0xfff0000000000000)
    base = dict(max_step_abs=inf, max_step_rel=inf, min_value=ninf, max_value=inf)
    k = z3.Const('ixq', I)
    abs_ = enum_val(M, NM, 'Abs')

    def getters(ty, s, v, want):
        for g, w in want.items():
            for o in ip.call_fn(M.find('%s::get_%s' % (ty, g)), s, [v]):
                check_eq(t, 'C19', '%s::default' % ty, 'default %s' % g, o[1], o[2], w)

    def dflt(ty, want):
        def f():
            key = [q for q in M.fns if strip(q).endswith('::default') and M.fns[q].get('impl_self_ty') is not None
                   and M.types[M.fns[q]['impl_self_ty']].get('path', '').endswith('::' + ty)]
            kk, s, v = one(ip.call_fn(key[0], St(), []), 'default')
            getters(ty, s, v, want)
        t.group('C19', ty + '::default', 'documented default values', f)
    fd = dict(base, dx_abs=TH.num(5e-8) if T.TH.name == 'FP' else TH.lit(0x3e6ad7f29abcaf48), dx_rel=TH.num(5e-8) if T.TH.name == 'FP' else TH.lit(0x3e6ad7f29abcaf48),
              perturbation_method=enum_val(M, 'PerturbationMethod', 'Max'))
    dflt('IterativeParams', base)
    dflt('IterativeParamsFD', fd)
    dflt('ResidualConfig', dict(update_method=abs_, stopping_criteria=abs_))

    def vecs(fn, ty, want):
        def f():
            for o in ip.call_fn(M.find(fn), St(), [n]):
                if o[0] != 'ret':
                    t.prove('C19', fn, 'no panic', o[1], FALSE)
                    continue
                sq = o[2]
                check_eq(t, 'C19', fn, 'exactly size entries', o[1], sq.n, n)
                s = o[1].copy().assume(k >= 0, k < n)
                getters_at(ty, fn, s, seq_at(sq, k), want)
        t.group('C19', fn, 'size default entries', f)

    def getters_at(ty, fn, s, v, want):
        for g, w in want.items():
            for o in ip.call_fn(M.find('%s::get_%s' % (ty, g)), s, [v]):
                check_eq(t, 'C19', fn, 'every entry has the default %s' % g, o[1], o[2], w)
    vecs('default_vec_iteratives', 'IterativeParams', base)
    vecs('default_vec_iteratives_fd', 'IterativeParamsFD', fd)
    vecs('default_vec_residuals', 'ResidualConfig', dict(update_method=abs_, stopping_criteria=abs_))

    def wg():
        fn = M.find('default_with_guess')
        got = []

        def newh(ip_, st, args, info):
            got.append((st, args))
            return [('ret', st, Agg('rf', args))]
        ip2 = t.interp(contracts={'RootFinder::new': newh})
        rm, da = method_sym(M), z3.Bool('damping')
        g = vecsym('guess', n)
        kk, s, its = one(ip2.call_fn(M.find('Iteratives::new'), St(), [Seq(n, z3.Const('cfg', z3.ArraySort(I, TP)))]), 'Iteratives::new')
        kk, s, rc = one(ip2.call_fn(M.find('ResidualsConfig::new'), s, [enum_seq(M, NM, 'sc', n), enum_seq(M, NM, 'um', n)]), 'ResidualsConfig::new')
        kk, s2, want = one(ip2.call_fn(M.find('SolverParameters::new'), s, [n, TH.num(1e-6) if T.TH.name == 'FP' else TH.lit(0x3eb0c6f7a0b5ed8d), IntVal(50), rm, da]), 'SolverParameters::new')
        outs = ip2.call_fn(fn, s, [g, its, rc, rm, da])
        for o in outs:
            if o[0] != 'ret':
                t.prove('C19', fn, 'no panic on consistent dimensions', o[1], FALSE)
            else:
                check_eq(t, 'C19', fn, 'the solver parameters, guess, iteratives and residuals of the default set-up', o[1], o[2], Agg('rf', [want, g, its, rc]))
    t.group('C19', 'default_with_guess', 'documented set-up', wg)
