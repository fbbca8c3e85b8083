"""C16: ready-made models built from functions and closures; defaults of the model interface."""
from ctx import *
from spec_ctor import check_eq

UV = z3.Function('USERF', Vec, Vec)
UJ = z3.Function('USERJ', Vec, Mat)


def adapters(t):
    M, n = t.mir, t.n
    LEN['USERF'] = lambda x: n
    DIM['USERJ'] = lambda x: (n, n)

    def userfn(ip, st, f, args):
        x = ip.deref(st, args[0])
        if isinstance(x, Agg) and x.name == '()':
            x = ip.deref(st, x.fs[0])
        return [('ret', st, UV(x) if f.fs[0].as_long() == 0 else UJ(x))]

    def meth(ty, name):
        r = [k for k in M.fns if strip(k).endswith('::' + name) and (M.fns[k].get('impl_trait') or '').endswith('Model')
             and M.types[M.fns[k]['impl_self_ty']].get('path', '').endswith('::' + ty)]
        if r:
            return r[0]
        return M.find('Model::' + name)      # the provided method

    for ty, jac in (('UserModelFromFunction', False), ('UserModelFromClosure', False), ('UserModelFromFunctionAndJacobian', True), ('UserModelFromClosureAndJacobian', True)):
        def f():
            ip = t.interp(generic={'userfn': userfn})
            x0, x1 = vecsym('x0', n), vecsym('x1', n)
            args = [n, Agg('userfn', (IntVal(0),))] + ([Agg('userfn', (IntVal(1),))] if jac else [])
            kk, s0, m0 = one(ip.call_fn(M.find(ty + '::new'), St(pc=(n >= 0,)), args), ty + '::new')
            root = ('obj', 0)

            def call(name, st, *a):
                outs = ip.call_fn(meth(ty, name), st, list(a))
                bad = [o for o in outs if o[0] != 'ret']
                for o in bad:
                    t.prove('C16', ty + '::' + name, 'does not panic', o[1], FALSE)
                return [(o[1], o[2]) for o in outs if o[0] == 'ret']
            # the general state: least generalisation of the fresh object and everything the mutating methods reach
            G = m0
            syms = {}

            def mk(path, sort):
                if path not in syms:
                    nm = 'g%d' % len(syms)
                    if sort == Vec:
                        syms[path] = vecsym(nm, n)
                    else:
                        syms[path] = z3.Const(nm, sort)
                return syms[path]
            for rnd in range(6):
                chg = set()
                st = s0.copy()
                st.mem[root] = G
                new = G
                for nm, a in (('set_iteratives', [x0]), ('evaluate', []), ('get_jacobian', [])):
                    if nm == 'get_jacobian' and not jac:
                        continue
                    for s, v in call(nm, st.copy(), MRef(root), *a):
                        new = generalize(new, s.mem[root], mk, (), chg)
                if vsame(new, G):
                    break
                G = new
            st = s0.copy()
            st.mem[root] = G
            # fresh object
            for s, v in call('len_problem', s0.copy(), m0):
                check_eq(t, 'C16', ty + '::len_problem', 'the size given (fresh)', s, v, n)
            z = zeros_v(n)

            def getters(st, x, fx, what):
                self_ = st.mem[root]
                for s, v in call('get_iteratives', st.copy(), self_):
                    check_eq(t, 'C16', ty + '::get_iteratives', 'the iteratives last set, unchanged (%s)' % what, s, v, x)
                for s, v in call('len_problem', st.copy(), self_):
                    check_eq(t, 'C16', ty + '::len_problem', 'the size given (%s)' % what, s, v, n)
                for s, v in call('jacobian_provided', st.copy(), self_):
                    check_eq(t, 'C16', ty + '::jacobian_provided', 'as built (%s)' % what, s, v, BoolVal(jac))
                for s, v in call('get_memory', st.copy(), self_):
                    check_eq(t, 'C16', ty + '::get_memory', 'no memory (%s)' % what, s, vlen(v), IntVal(0))
                if fx is not None:
                    for s, v in call('get_residuals', st.copy(), self_):
                        check_residuals(t, ip, M, ty, what, s, v, fx, z)
            for s1, _ in call('set_iteratives', st.copy(), MRef(root), x1):
                getters(s1, x1, None, 'after set')
                jacs(t, ip, M, ty, jac, call, s1, root, x1, 'after set', getters)
                for s2, r in call('evaluate', s1.copy(), MRef(root)):
                    check_eq(t, 'C16', ty + '::evaluate', 'never fails', s2, r.tag, IntVal(0))
                    getters(s2, x1, UV(x1), 'after set and evaluate')
                    for s3, r in call('evaluate', s2.copy(), MRef(root)):
                        getters(s3, x1, UV(x1), 'after a second evaluate')
                    jacs(t, ip, M, ty, jac, call, s2, root, x1, 'after set and evaluate', getters, UV(x1))
                    for s4, _ in call('set_memory', s2.copy(), MRef(root), vecsym('mem', IntVal(0))):
                        getters(s4, x1, UV(x1), 'after set_memory')
        t.group('C16', ty, 'faithful adapter', f)

    # defaults of the interface, on any implementation
    def dflt():
        ip = t.interp()
        x = vecsym('xm', n)
        ip.generic[('model', 'get_iteratives')] = lambda ip_, st, a, info: x
        mod = Agg('model', (IntVal(0),))
        st = St(pc=(n >= 0,))
        st.mem[('obj', 0)] = mod
        kk, s, v = one(ip.call_fn(M.find('Model::jacobian_provided'), st, [mod]), 'jacobian_provided')
        check_eq(t, 'C16', 'Model::jacobian_provided', 'a model has no Jacobian by default', s, v, FALSE)
        kk, s, v = one(ip.call_fn(M.find('Model::get_memory'), st, [mod]), 'get_memory')
        check_eq(t, 'C16', 'Model::get_memory', 'a model has no memory by default', s, vlen(v), IntVal(0))
        kk, s, v = one(ip.call_fn(M.find('Model::set_memory'), st, [MRef(('obj', 0)), vecsym('mm', IntVal(0))]), 'set_memory')
        t.add('C16', 'Model::set_memory', 'does nothing by default', 'proved' if vsame(s.mem[('obj', 0)], mod) else 'refuted')
    t.group('C16', 'Model (defaults)', 'no Jacobian, no memory', dflt)


def check_residuals(t, ip, M, ty, what, s, v, fx, z):
    k = z3.Const('ixq', I)
    for o in ip.call_fn(M.find('ResidualsValues::len'), s.copy(), [v]):
        check_eq(t, 'C16', ty + '::get_residuals', 'one equation per variable (%s)' % what, o[1], o[2], t.n)
    s = s.copy().assume(k >= 0, k < t.n)
    for o in ip.call_fn(M.find('ResidualsValues::get_values'), s, [v, k]):
        if o[0] != 'ret':
            t.prove('C16', ty + '::get_residuals', 'every equation has values', o[1], FALSE)
            continue
        check_eq(t, 'C16', ty + '::get_residuals', 'left = the function at the iteratives, right = 0 (%s)' % what, o[1], o[2], tup(vat(fx, k), TH.num(0)))


def jacs(t, ip, M, ty, jac, call, st, root, x, what, getters, fx=None):
    if not jac:
        return
    i, j = z3.Const('ixi', I), z3.Const('ixj', I)
    for s, r in call('get_jacobian', st.copy(), MRef(root)):
        check_eq(t, 'C16', ty + '::get_jacobian', 'never fails (%s)' % what, s, r.tag, IntVal(0))
        jv = r.ps[0][0]
        for o in ip.call_fn(M.find('JacobianValues::get_jacobians'), s.copy(), [jv]):
            L, R = ip.deref(o[1], o[2].fs[0]), ip.deref(o[1], o[2].fs[1])
            s2 = o[1].copy().assume(i >= 0, i < t.n, j >= 0, j < t.n)
            t.prove('C16', ty + '::get_jacobian', 'the user Jacobian at the current iteratives (%s)' % what, s2, mkand(P.eqs(L, UJ(x)), TH.ident(mat(L, i, j), mat(UJ(x), i, j))))
            a, b = mdim(R)
            t.prove('C16', ty + '::get_jacobian', 'zero right-hand Jacobian (%s)' % what, s2, mkand(mkeq(a, t.n), mkeq(b, t.n), TH.ident(mat(R, i, j), TH.num(0))))
        getters(s, x, fx, what + ' and get_jacobian')
