"""C05 and C15: step limitation and finite-difference perturbation."""
from ctx import *
from spec_ctor import check_eq, valid_iter
import fpcex

NAMES = ['max_step_abs', 'max_step_rel', 'min_value', 'max_value']


def fp_obl(t, props, fn, clause, st, goal, inputs, pcx=(), timeout=20000):
    """obligation over scalar floats: UF abstraction of + * / with IEEE facts; a refutation counts only when an exact
    counterexample is found"""
    t0 = time.time()
    pc = list(st.pc) + list(pcx)
    facts = T.TH.facts(pc + [goal])
    r, m = P.prove(pc, st.hist, goal, facts=facts, timeout=timeout)
    mod, det, ex = None, '', True
    if r != 'proved':
        mod = fpcex.search(pc, goal, inputs, m if r == 'refuted' else None)
        if mod is not None:
            r, det = 'refuted', 'counterexample (exact IEEE evaluation): %s' % mod
        else:
            if r == 'refuted':
                r, ex = 'unknown', False
            det = 'not provable in the abstraction of IEEE operations, no exact counterexample found'
    t.add(props, fn, clause, r, det, ex, time.time() - t0, mod)


def limited(a, r, cur, raw):
    """min(|raw|, a, r*|cur|); an undefined r*|cur| (inf*0) limits nothing"""
    return TH.min(TH.abs(raw), TH.min(a, TH.mul(r, TH.abs(cur))))


def scalars(t):
    M = t.mir
    a = {k: fsym(k) for k in NAMES + ['dx_abs', 'dx_rel']}
    cur, raw = fsym('value_current'), fsym('raw_step')
    base = [a[k] for k in NAMES]
    inp = dict({k: a[k] for k in NAMES}, value_current=cur, raw_step=raw)
    nn = lambda *xs: mkand(*[mknot(TH.is_nan(x)) for x in xs])

    def impls(meth, ty):
        r = [q for q in M.fns if strip(q).endswith('::' + meth) and (M.fns[q].get('impl_trait') or '').endswith('Iterative')
             and M.types[M.fns[q]['impl_self_ty']].get('path', '').endswith('::' + ty)]
        if len(r) != 1:
            raise KeyError('%s::%s' % (ty, meth))
        return r[0]

    def stepl(ty, mk):
        def f():
            ip = t.interp(merge_rets=True)
            fn = impls('step_limitation', ty)
            for k, s, v in mk(ip):
                if k != 'ret':
                    continue
                for o in ip.call_fn(fn, s, [v, cur, raw]):
                    if o[0] != 'ret':
                        t.prove('C05', ty + '::step_limitation', 'no panic', o[1], FALSE, inputs=inp)
                        continue
                    s2, res = o[1], o[2]
                    lo, hi = a['min_value'], a['max_value']
                    fp_obl(t, 'C05', ty + '::step_limitation', 'result in [min_value, max_value] for every input', s2,
                           mkand(TH.le(lo, res), TH.le(res, hi)), inp)
                    # the move in the direction of the raw step
                    m = limited(a['max_step_abs'], a['max_step_rel'], cur, raw)
                    tgt = TH.add(cur, mkif(z3.fpIsNegative(raw), TH.neg(m), m))
                    clamp = mkif(TH.lt(tgt, lo), lo, mkif(TH.lt(hi, tgt), hi, tgt))
                    okv = nn(cur, raw, tgt)
                    fp_obl(t, 'C05', ty + '::step_limitation', 'clamp(current + sign(raw)*min(|raw|, max_step_abs, max_step_rel*|current|), min_value, max_value)',
                           s2, mkimp(okv, TH.ident(res, clamp)), inp)
        t.group('C05', ty + '::step_limitation', 'limited and bounded step', f)
    stepl('IterativeParams', lambda ip: ip.call_fn(M.find('IterativeParams::new'), St(), base))
    pm = intsym('pm', 2)
    dx = [a['dx_abs'], a['dx_rel'], enum_of(M, 'PerturbationMethod', pm)]
    stepl('IterativeParamsFD', lambda ip: ip.call_fn(M.find('IterativeParamsFD::new'), St(), base + dx))

    def pert():
        ip = t.interp(merge_rets=True)
        fn = impls('compute_perturbation', 'IterativeParamsFD')
        x = fsym('x')
        inp = dict(a, x=x, pm=pm)
        mx = enum_tag(M, 'PerturbationMethod', 'Max')
        for k, s, v in ip.call_fn(M.find('IterativeParamsFD::new'), St(), base + dx):
            if k != 'ret':
                continue
            s = s.copy()
            for o in ip.call_fn(fn, s, [v, x]):
                if o[0] != 'ret':
                    t.prove('C15', fn, 'no panic', o[1], FALSE, inputs=inp)
                    continue
                s2, res = o[1], o[2]
                rel = TH.mul(a['dx_rel'], TH.abs(x))
                sm = TH.add(a['dx_abs'], rel)
                want = mkif(pm == mx, TH.max(a['dx_abs'], rel), sm)
                fp_obl(t, 'C15', 'IterativeParamsFD::compute_perturbation', 'max(dx_abs, dx_rel*|x|) or dx_abs + dx_rel*|x|', s2,
                       mkimp(nn(x), TH.ident(res, want)), inp)
                fp_obl(t, 'C15', 'IterativeParamsFD::compute_perturbation', 'never smaller than dx_abs', s2,
                       mkimp(mkand(nn(x), nn(rel)), TH.le(a['dx_abs'], res)), inp)
    t.group('C15', 'IterativeParamsFD::compute_perturbation', 'perturbation formula', pert)

    def wfd():
        ip = t.interp()
        for k, s, v in ip.call_fn(M.find('IterativeParamsFD::new'), St(), base + dx):
            if k == 'ret':
                for o in ip.call_fn(impls('with_finite_diff', 'IterativeParamsFD'), s, [v]):
                    check_eq(t, 'C15', 'IterativeParamsFD::with_finite_diff', 'true', o[1], o[2], TRUE)
    t.group('C15', 'IterativeParamsFD::with_finite_diff', 'true', wfd)


SLF = PEF = None


def vectors(t):
    """Iteratives::step_limitations / compute_perturbations over any implementation of Iterative"""
    M = t.mir
    n = t.n
    ip = t.interp()
    SL = z3.Function('SL', TP, T.F, T.F, T.F)
    PE = z3.Function('PE', TP, T.F, T.F)
    ip.generic[('param', 'step_limitation')] = lambda ip_, st, a, info: SL(ip_.deref(st, a[0]), ip_.deref(st, a[1]), ip_.deref(st, a[2]))
    ip.generic[('param', 'compute_perturbation')] = lambda ip_, st, a, info: PE(ip_.deref(st, a[0]), ip_.deref(st, a[1]))
    cfg = z3.Const('cfg', z3.ArraySort(I, TP))
    k = z3.Const('ixq', I)

    def go(prop, fn, args, want):
        def f():
            kk, s, its = one(ip.call_fn(M.find('Iteratives::new'), St(), [Seq(n, cfg)]), 'Iteratives::new')
            for o in ip.call_fn(M.find(fn), s, [its] + args):
                if o[0] != 'ret':
                    t.prove(prop + ' C04', fn, 'no panic on consistent dimensions', o[1], FALSE)
                    continue
                t.prove(prop, fn, 'one entry per variable', o[1], mkeq(vlen(o[2]), n))
                s2 = o[1].copy().assume(k >= 0, k < n)
                t.prove(prop, fn, 'component k uses its own parameters and values', s2, TH.ident(vat(o[2], k), want(k)))
        t.group(prop, fn, 'component-wise', f)
    x, raw = vecsym('x', n), vecsym('raw', n)
    go('C05', 'Iteratives::step_limitations', [x, raw], lambda k: SL(cfg[k], vat(x, k), vat(raw, k)))
    go('C15', 'Iteratives::compute_perturbations', [x], lambda k: PE(cfg[k], vat(x, k)))
