"""C06: the finite-difference Jacobian."""
from ctx import *
from spec_ctor import check_eq
from modelsem import *
from spec_solve import bad_symbols


def fd(t):
    M, n = t.mir, t.n
    fn = 'compute_jacobian_from_finite_difference'

    def f():
        sem = ModelSem(M, n)
        ip = t.interp(generic=sem.handlers(), contracts=resid_contracts(M, sem))
        x0, l0, r0, m0 = vecsym('x0', n), vecsym('l0', n), vecsym('r0', n), z3.Const('m0', Vec)
        d = vecsym('dpert', n)
        root = ('obj', 0)
        kk, s, rc = one(ip.call_fn(M.find('ResidualsConfig::new'), St(pc=(n >= 0,)), [enum_seq(M, NM, 'sc', n), enum_seq(M, NM, 'um', n)]), 'ResidualsConfig::new')
        s.mem[root] = Agg('model', (x0, l0, r0, m0))
        outs = ip.call_fn(M.find(fn), s, [MRef(root), d, rc])
        j, i = z3.Const('ixj', I), z3.Const('ixi', I)
        pert = lambda j: v_set(x0, j, TH.add(vat(x0, j), vat(d, j)))
        nok = nerr = 0

        def obl(clause, st, goal, props='C06'):
            t0 = time.time()
            r, m = P.prove(st.pc, st.hist, goal, timeout=8000, extra=(j,))
            if r != 'proved':
                fx = ext_facts(st.pc, st.hist, goal)
                r, m = P.prove(st.pc, st.hist, goal, timeout=15000, extra=(j,), facts=fx)
            t.add(props, fn, clause, r, '' if r == 'proved' else 'model: %s' % model_inputs(m, None), True, time.time() - t0)
            return r == 'proved'
        for k, s, v in outs:
            if k != 'ret':
                t.prove('C06 C04', fn, 'no panic on consistent dimensions', s, FALSE)
                continue
            okp = s.copy().assume(mkeq(v.tag, IntVal(0)))
            mod = s.mem[root]
            if ip.feasible(okp.pc, okp.hist):
                nok += 1
                J = v.ps[0][0]
                a, b = mdim(J)
                obl('success: a square matrix with one column per variable', okp, mkand(mkeq(a, n), mkeq(b, n)))
                q = okp.copy().assume(j >= 0, j < n, i >= 0, i < n)
                P_ = pert(j)
                e = TH.div(TH.sub(vat(sem.UPD(sem.LF(P_, m0), sem.RF(P_, m0)), i), vat(sem.UPD(l0, r0), i)), vat(d, j))
                obl('success: entry (i,j) is (R_i(x0 + d_j e_j, reference memory) - R_i(x0)) / d_j', q, TH.ident(mat(J, i, j), e))
                obl('success: no column was evaluated with unusable values', q, sem.OUT(P_, m0) != 2, 'C06 C02')
                obl('success: the model keeps the reference memory', okp, mkeq(mod.fs[3], m0))
                n0 = len(t.obls)
                fin = okp.copy().assume(i >= 0, i < n)
                r1 = P.prove(okp.pc, okp.hist, mkand(*P.leaf_goals(mod.fs[0], x0)), timeout=8000)[0]
                clause = 'success: the model is left at the reference point'
                if r1 == 'proved':
                    obl(clause, okp, mkand(*P.leaf_goals(mod.fs[0], x0)))
                else:
                    # the recorded finding: the last perturbed column
                    last = pert(lin(n - 1))
                    r2 = P.prove(okp.pc, okp.hist, mkimp(n >= 1, mkand(*P.leaf_goals(mod.fs[0], last))), timeout=8000)[0]
                    r3 = P.prove(okp.pc, okp.hist, mkimp(n == 0, mkand(*P.leaf_goals(mod.fs[0], x0))), timeout=8000)[0]
                    if r2 == 'proved' and r3 == 'proved':
                        t.add('C06', fn, clause, 'known', 'model-left-at-last-perturbed-column')
                    else:
                        t.add('C06', fn, clause, 'refuted' if 'refuted' in (r1, r2, r3) else 'unknown', 'final iteratives: %s' % mod.fs[0])
            bad = s.copy().assume(mkeq(v.tag, IntVal(1)))
            if ip.feasible(bad.pc, bad.hist):
                nerr += 1
                e = v.ps[1][0]
                w = z3.Const('ixw', I)
                # some column is the first unusable one, and the error is its error
                tagU = enum_tag(M, '::ModelError', 'UnusableValuesError')
                cand = [c for c in index_syms(bad)]
                okc = False
                for c in cand:
                    Pc = pert(c)
                    g1 = mkand(IntVal(0) <= c, c < n, sem.OUT(Pc, m0) == 2, mkeq(e.tag, IntVal(tagU)), mkeq(e.ps[tagU][0], sem.UERR(Pc, m0)) if e.ps[tagU] is not None else FALSE)
                    g2 = mkimp(mkand(j >= 0, j < c), sem.OUT(pert(j), m0) != 2)
                    if P.prove(bad.pc, bad.hist, g1, timeout=6000, facts=ext_facts(bad.pc, bad.hist, g1))[0] == 'proved':
                        obl('failure: reports the error of an unusable column', bad, g1, 'C06 C02')
                        obl('failure: no earlier column was unusable (the first one aborts)', bad, g2, 'C06 C02')
                        okc = True
                        break
                if not okc:
                    # the function fails although every column is usable?
                    hv = z3.Const('hv_fd', I)
                    q = bad.copy()
                    q.hist = q.hist + ((IntVal(0), n, hv, sem.OUT(pert(hv), m0) != 2),)
                    r, m = P.prove(q.pc, q.hist, FALSE, timeout=8000)
                    if r == 'refuted':
                        t.add('C06 C02', fn, 'failure: only an unusable column aborts', r, 'model: %s under %s' % (model_inputs(m, None), [str(c)[:120] for c in q.pc[-6:]]), bad_symbols(q.pc) is None)
                        continue
                    t.add('C06', fn, 'failure: reports the error of the first unusable column', 'unknown' if cand else 'refuted', 'return value %s under %s' % (v, [str(c)[:80] for c in bad.pc]), exact=False)
        if not nok:
            t.add('C06', fn, 'success is reachable', 'refuted', 'no path returns a Jacobian')
        if not nerr:
            t.add('C06', fn, 'an unusable column is reported', 'refuted', 'no path returns an error')
    t.group('C06', fn, 'column-wise exact finite differences', f)


def index_syms(st):
    out = {}
    for c in list(st.pc):
        for nm, s in symbols(c).items():
            if s.sort() == I and nm.startswith(('t~', 'w~', 'ix')):
                out[nm] = s
    return list(out.values())
