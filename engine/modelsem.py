"""The model as an arbitrary deterministic machine: evaluation is an arbitrary function of iteratives and memory."""
from ctx import *


class ModelSem:
    """fields of the model value: iteratives, left, right, memory"""

    def __init__(self, mir, n):
        self.M, self.n = mir, n
        LEN['LF'] = LEN['RF'] = lambda x, m: n
        self.LF = z3.Function('LF', Vec, Vec, Vec)
        self.RF = z3.Function('RF', Vec, Vec, Vec)
        self.MN = z3.Function('MN', Vec, Vec, Vec)
        self.OUT = z3.Function('OUT', Vec, Vec, I)
        self.UERR = z3.Function('UERR', Vec, Vec, U)
        self.IERR = z3.Function('IERR', Vec, Vec, U)
        self.UPD = z3.Function('UPD', Vec, Vec, Vec)
        self.STOP = z3.Function('STOP', Vec, Vec, Vec)
        LEN['UPD'] = LEN['STOP'] = lambda l, r: n

    def handlers(self):
        g = {}

        def get(ip, st, a):
            return ip.deref(st, a[0])

        def put(ip, st, a, **kw):
            m = get(ip, st, a)
            fs = list(m.fs)
            for k, v in kw.items():
                fs[{'x': 0, 'l': 1, 'r': 2, 'm': 3}[k]] = v
            ip.write_ref(st, a[0], Agg('model', fs))

        def set_it(ip, st, a, info):
            st = st.copy()
            put(ip, st, a, x=ip.deref(st, a[1]))
            return [('ret', st, UNIT)]

        def set_mem(ip, st, a, info):
            st = st.copy()
            put(ip, st, a, m=ip.deref(st, a[1]))
            return [('ret', st, UNIT)]

        def evaluate(ip, st, a, info):
            m = get(ip, st, a)
            x, mem = m.fs[0], m.fs[3]
            out = self.OUT(x, mem)
            st = st.copy()
            put(ip, st, a, l=self.LF(x, mem), r=self.RF(x, mem), m=self.MN(x, mem))
            res = []
            s1 = st.copy().assume(out == 0)
            if ip.feasible(s1.pc, s1.hist):
                res.append(('ret', s1, ok(UNIT)))
            s2 = st.copy().assume(out == 1)
            if ip.feasible(s2.pc, s2.hist):
                res.append(('ret', s2, err(enum_val(self.M, '::ModelError', 'InaccurateValuesError', self.IERR(x, mem)))))
            s3 = st.copy().assume(out == 2)
            if ip.feasible(s3.pc, s3.hist):
                res.append(('ret', s3, err(enum_val(self.M, '::ModelError', 'UnusableValuesError', self.UERR(x, mem)))))
            return res

        def get_res(ip, st, a, info):
            m = get(ip, st, a)
            return [o for o in ip.call_fn(self.M.find('ResidualsValues::new'), st, [m.fs[1], m.fs[2]])]
        g[('model', 'set_iteratives')] = set_it
        g[('model', 'set_memory')] = set_mem
        g[('model', 'evaluate')] = evaluate
        g[('model', 'get_residuals')] = get_res
        g[('model', 'get_iteratives')] = lambda ip, st, a, info: get(ip, st, a).fs[0]
        g[('model', 'get_memory')] = lambda ip, st, a, info: get(ip, st, a).fs[3]
        g[('model', 'len_problem')] = lambda ip, st, a, info: self.n
        return g


def rv_lr(ip, mir, st, rv):
    """left and right members of a ResidualsValues, read through its accessor"""
    k = z3.Const('kacc', I)
    rv = ip.deref(st, rv)
    for o in ip.call_fn(mir.find('ResidualsValues::get_values'), st.copy().assume(k >= 0, k < 1), [rv, k]):
        if o[0] != 'ret':
            continue
        out = []
        for e in o[2].fs:
            if dname(e) == 'vat' and e.arg(1).eq(k):
                out.append(e.arg(0))
            else:
                # any element function: rebuild the vector
                n = [v for v in leaves(rv) if v[1].sort() == Vec]
                out.append(vmk(vlen(n[0][1]), z3.Lambda([k], e)))
        return out
    raise Unsupported('members of residual values')


def resid_contracts(mir, sem):
    def upd(ip, st, a, info):
        l, r = rv_lr(ip, mir, st, a[1])
        return [('ret', st, sem.UPD(l, r))]

    def stop(ip, st, a, info):
        l, r = rv_lr(ip, mir, st, a[1])
        return [('ret', st, sem.STOP(l, r))]
    return {'ResidualsConfig::evaluate_update_residuals': upd, 'ResidualsConfig::evaluate_stopping_residuals': stop}


def vec_subterms(t, acc=None):
    acc = {} if acc is None else acc
    seen = set()
    st = [t]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            st.append(t.body())
            continue
        if not z3.is_app(t):
            continue
        if t.sort() == Vec and not has_var(t):
            acc[t.get_id()] = t
        st += t.children()
    return acc


def has_var(t):
    st, seen = [t], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_var(t):
            return True
        if z3.is_quantifier(t):
            continue
        st += t.children()
    return False


def ext_facts(pc, hist, goal, heads=('LF', 'RF', 'OUT', 'MN', 'UERR', 'IERR', 'UPD', 'STOP', 'SLV', 'PERTV', 'mv', 'v_add')):
    """extensionality: equalities of vectors used as arguments that are pointwise equal (each one proved)"""
    args = {}
    seen, st = set(), list(pc) + [goal]
    from interp import inst_hist
    st += inst_hist(list(pc) + [goal], hist)
    while st:
        t = st.pop()
        if t.get_id() in seen or not z3.is_app(t):
            if z3.is_quantifier(t):
                pass
            continue
        seen.add(t.get_id())
        d = dname(t)
        if d in heads:
            for i, c in enumerate(t.children()):
                if c.sort() == Vec and not has_var(c):
                    args.setdefault((d, i), {})[c.get_id()] = c
        st += t.children()
    facts = []
    done = set()
    for g in args.values():
        ts = list(g.values())
        for i in range(len(ts)):
            for j in range(i):
                key = tuple(sorted((ts[i].get_id(), ts[j].get_id())))
                if key in done:
                    continue
                done.add(key)
                if dname(ts[i]) != 'vmk' and dname(ts[j]) != 'vmk':
                    continue
                gs = P.leaf_goals(ts[i], ts[j])
                if all(P.prove(pc, hist, q, timeout=3000)[0] == 'proved' for q in gs):
                    facts.append(ts[i] == ts[j])
    return facts
