"""RootFinder::solve against the published algorithm, for every model, dimension, budget and number of iterations.

The monitor (class Mon) is the specification: a ghost state machine that follows the calls made to the model and states
what has to hold at each of them.  The loop handler (s2) proves that the monitor's obligations hold in every iteration:
the state at the loop head is generalised to an inductive invariant in which each part of the solver's state is defined
by the ghost state (model state, state at the start of the last step, current matrix and inverse, number of steps).
"""
import time
from ctx import *
from modelsem import *
import alg
import numeval
from spec_formula import published, METHODS
from values import _walk

CONFIGS = [('newton', 'NR', None)] + [('stationary', 'ST', None)] + [('direct-' + m, 'DIR', m) for m in METHODS] + [('inverse-' + m, 'INVU', m) for m in METHODS]
GH = ('phase', 'first', 'lastout', 'approx', 'force', 'dirty', 'instep')
GT = ('sx', 'sl', 'sr', 'sm', 'bx', 'bl', 'br', 'X', 'J', 'N')
MODEL = ('obj', 'model')
SELF = ('obj', 'self')


def bad_symbols(ts):
    """symbols that stand for values the engine does not know exactly"""
    seen, st = set(), list(ts)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            st.append(t.body())
            continue
        if not z3.is_app(t):
            continue
        nm = t.decl().name()
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (nm.startswith(('h~', 'op~', 'old!op~')) or nm.endswith('@')):
            return nm
        st += t.children()
    return None


def tainted(ts):
    for t in ts:
        for nm in symbols(t):
            if nm.startswith('old!'):
                return nm
    return None


class Mon:
    def __init__(self, t, sem, cfg, damping, guess, tol, mi):
        self.t, self.sem, self.M, self.n = t, sem, t.mir, t.n
        self.name, self.kind, self.meth = cfg
        self.damping, self.guess, self.tol, self.mi = damping, guess, tol, mi
        self.buf = []
        self.nsets = set()
        self.unroll, self.deadline = 0, 0
        self.JP = z3.Bool('jacobian_provided')
        n = self.n
        V2 = (Vec, Vec)
        self.JL, self.JR = z3.Function('JLF', Vec, Vec, Mat), z3.Function('JRF', Vec, Vec, Mat)
        self.JOUT = z3.Function('JOUT', Vec, Vec, I)
        self.JERR = z3.Function('JERR', Vec, Vec, U)
        self.NORMJ = z3.Function('NORMJ', Vec, Vec, Mat, Mat, Mat)
        self.FDJ = z3.Function('FDJ', Vec, Vec, Vec, Vec, Vec, Mat)
        self.FDOUT = z3.Function('FDOUT', Vec, Vec, Vec, Vec, Vec, B)
        self.FDERR = z3.Function('FDERR', Vec, Vec, Vec, Vec, Vec, U)
        self.FDX = [z3.Function('FD' + c, Vec, Vec, Vec, Vec, Vec, Vec) for c in 'xlr']
        self.SLV = z3.Function('SLV', Vec, Vec, Vec)
        self.PERTV = z3.Function('PERTV', Vec, Vec)
        for nm in ('JLF', 'JRF', 'NORMJ', 'FDJ'):
            DIM[nm] = lambda *a: (n, n)
        DIM['INV'] = lambda m: mdim(m)
        for nm in ('FDx', 'FDl', 'FDr', 'SLV', 'PERTV'):
            LEN[nm] = lambda *a: n
        T.AX.append(z3.And(self.JOUT(z3.Const('q1', Vec), z3.Const('q2', Vec)) >= 0))

    # ------------------------------------------------------------------ obligations (collected, proved at the end)
    def ob(self, st, props, clause, goal):
        self.buf.append(dict(kind='goal', props=props, clause=clause, pc=st.pc, hist=st.hist, goal=goal))

    def same(self, st, props, clause, a, b):
        if isz(a) and isz(b) and a.eq(b):
            self.buf.append(dict(kind='goal', props=props, clause=clause, pc=st.pc, hist=st.hist, goal=TRUE))
            return
        self.buf.append(dict(kind='same', props=props, clause=clause, pc=st.pc, hist=st.hist, a=a, b=b))

    def fresh_gh(self):
        g = dict(phase='INIT', first=True, lastout=None, approx=False, force=False, dirty=False, instep=False, nset=0, Jn=None, jsrc=None)
        for k in GT:
            g[k] = None
        g['N'] = IntVal(0)
        return g

    # ------------------------------------------------------------------ derived terms
    def upd(self, g, b=False):
        return self.sem.UPD(g['bl' if b else 'sl'], g['br' if b else 'sr'])

    def stop(self, g, b=False):
        return self.sem.STOP(g['bl' if b else 'sl'], g['br' if b else 'sr'])

    def worse(self, g):
        return TH.lt(amax(self.stop(g, True)), amax(self.stop(g)))

    def conv_at(self, g, k):
        return TH.le(vat(self.stop(g), k), self.tol)

    def conv_goal(self, g):
        k = z3.FreshConst(I, 'ix')
        return mkimp(mkand(IntVal(0) <= k, k < self.n), self.conv_at(g, k))

    def notconv(self, st, props, clause):
        hv = z3.FreshConst(I, 'hv')
        g = st.gh
        s = st.copy()
        s.hist = s.hist + ((IntVal(0), self.n, hv, self.conv_at(g, hv)),)
        self.ob(s, props, clause, FALSE)

    def midpoint(self, g):
        half = TH.num(0.5)
        return a_add(a_scale(half, g['bx']), a_scale(half, g['px']))

    def needed(self, g):
        return self.kind == 'NR' or g['first'] or g['force']

    # ------------------------------------------------------------------ transitions
    def finalise(self, ip, st):
        """the step is over (no further evaluation belongs to it): [states in phase READY]"""
        g = st.gh
        if g['phase'] == 'READY' or g['phase'] not in ('AFTER1', 'AFTER2'):
            return [st]
        if g['phase'] == 'AFTER2' or not self.damping:
            st = st.copy()
            st.gh.update(phase='READY', force=False)
            return [st]
        out = []
        for side, s in ip.fork(st, self.worse(g)):
            s = s.copy()
            s.gh['phase'] = 'READY'
            s.gh['force'] = False
            if side:
                if self.kind != 'NR' and g['approx']:
                    s.gh['force'] = True
                    self.ob(s, ['C11'], 'a worsening step under an approximated Jacobian keeps the proposed point', TRUE)
                else:
                    self.ob(s, ['C11'], 'a worsening step is halved', FALSE)
            else:
                self.ob(s, ['C11'], 'a step that does not worsen keeps the proposed point', TRUE)
            out.append(s)
        return out

    def begin(self, st):
        g = st.gh
        if g['instep']:
            return
        self.notconv(st, ['C03'], 'a step is only taken when the current point is not converged')
        self.ob(st, ['C03'], 'a step is only taken within the iteration budget', ilt(g['N'], self.mi))
        g['N'] = lin(g['N'] + 1)
        g['instep'] = True
        g['stepno'] = g.get('stepno', 0) + 1

    def getm(self, ip, st, a):
        return ip.deref(st, a)

    def putm(self, ip, st, a, x=None, l=None, r=None, m=None):
        v = self.getm(ip, st, a)
        fs = [x if x is not None else v.fs[0], l if l is not None else v.fs[1], r if r is not None else v.fs[2], m if m is not None else v.fs[3]]
        ip.write_ref(st, a, Agg('model', fs))

    def dead(self, st, what, props):
        if st.gh['phase'] == 'DEAD':
            self.ob(st, props, 'nothing is done to the model after a failure (%s)' % what, FALSE)
            return True
        return False

    def settle(self, ip, st, a):
        v = self.getm(ip, st, a)
        st.gh.update(sx=v.fs[0], sl=v.fs[1], sr=v.fs[2], sm=v.fs[3], dirty=False, nset=0)

    # ------------------------------------------------------------------ calls of the model
    def set_it(self, ip, st, a, info):
        st = st.copy()
        self.dead(st, 'set_iteratives', ['C02'])
        self.putm(ip, st, a[0], x=ip.deref(st, a[1]))
        st.gh['dirty'] = True
        st.gh['nset'] += 1
        return [('ret', st, UNIT)]

    def set_mem(self, ip, st, a, info):
        st = st.copy()
        v = self.getm(ip, st, a[0])
        self.same(st, ['C18', 'C14'], 'the solver leaves the memory of the model alone', ip.deref(st, a[1]), v.fs[3])
        self.putm(ip, st, a[0], m=ip.deref(st, a[1]))
        return [('ret', st, UNIT)]

    def evaluate(self, ip, st, a, info):
        st = st.copy()
        g = st.gh
        if self.dead(st, 'evaluate', ['C02', 'C03']):
            return []
        ph = g['phase']
        x = self.getm(ip, st, a[0]).fs[0]
        if ph == 'INIT':
            self.same(st, ['C18'], 'the first point evaluated is the initial guess', x, self.guess)
            return self.do_eval(ip, st, a, 'init', 'READY')
        states = [st]
        if ph == 'AFTER1':
            if self.damping and self.eqv(x, self.midpoint(g)):
                self.ob(st, ['C11'], 'a step is halved only when it worsens the maximum error', self.worse(g))
                self.ob(st, ['C11'], 'a step is halved only when the Jacobian is not an approximation', BoolVal(self.kind == 'NR' or not g['approx']))
                self.ob(st, ['C03'], 'at most one additional evaluation per step', TRUE)
                self.putm(ip, st, a[0], x=self.midpoint(g))
                return self.do_eval(ip, st, a, 'eval', 'AFTER2')
            w = P.prove(st.pc, st.hist, self.worse(g), timeout=3000)[0] if self.damping else 'refuted'
            if w == 'proved' and (self.kind == 'NR' or not g['approx']):
                self.same(st, ['C11'], 'a worsening step is moved to the midpoint of the two points', x, self.midpoint(g))
                self.putm(ip, st, a[0], x=self.midpoint(g))
                return self.do_eval(ip, st, a, 'eval', 'AFTER2')
            if not g.get('looped'):
                # evaluated again inside the same step
                if self.damping:
                    self.ob(st, ['C11', 'C03'], 'an additional evaluation only halves a worsening step', FALSE)
                else:
                    self.ob(st, ['C11', 'C03'], 'no additional evaluation without damping', FALSE)
            states = self.finalise(ip, st)
        elif ph == 'AFTER2':
            states = self.finalise(ip, st)
        out = []
        for s in states:
            out += self.proposal(ip, s.copy(), a)
        return out

    def eqv(self, a, b):
        return alg.alg_eq(a, b)

    def proposal(self, ip, st, a):
        g = st.gh
        self.begin(st)
        F = self.upd(g)
        x = self.getm(ip, st, a[0]).fs[0]
        self.ob(st, ['C18'], 'the proposed point is set before the evaluation', BoolVal(bool(g['dirty'])))
        need = self.needed(g)
        Jn, approx = g['Jn'], False
        if Jn is not None:
            J, X, src = Jn, inv(Jn), 'exact'
            self.ob(st, ['C10', 'C02'], 'a step is only made with an invertible Jacobian', invok(Jn))
        elif need or g['X'] is None:
            self.ob(st, ['C10'], 'an exact Jacobian is computed when one is required (%s)' % ('first step' if g['first'] else 'every step' if self.kind == 'NR' else 'after a refused worsening step'), FALSE)
            return []
        elif self.kind == 'ST':
            J, X, src = g['J'], g['X'], 'reused'
        else:
            up = self.update(g)
            if up is None:
                self.ob(st, ['C10'], 'the update of the Jacobian is defined', FALSE)
                return []
            approx = True
            if self.kind == 'DIR':
                J, X, src = up, inv(up), 'updated'
                self.ob(st, ['C10', 'C02'], 'a step is only made with an invertible updated Jacobian', invok(up))
            else:
                J, X, src = None, up, 'updated'
        raw = a_neg(a_mul(X, F))
        prop = self.SLV(g['sx'], raw)
        clause = 'the proposed point is the limited step -J^-1 F from where the model stands (%s Jacobian)' % src
        own = {'exact': ['C18', 'C10'], 'reused': ['C18', 'C10'], 'updated': ['C18', 'C09', 'C10']}[src]
        if not x.eq(prop):
            if dname(x) == 'SLV':
                self.same(st, ['C18'], 'the step starts from the current iteratives of the model', x.arg(0), g['sx'])
                r = x.arg(1)
                Y = None
                if not self.eqv(r, raw):
                    Y = self.matrix_of(r, F)
                if Y is not None:
                    # a Newton-like step with a wrong matrix
                    own = {'exact': ['C10', 'C18'], 'reused': ['C10', 'C18'], 'updated': ['C09', 'C18']}[src]
                    self.same(st, own, 'the matrix of the step is the inverse of the current Jacobian (%s)' % src, Y, X)
                else:
                    own = {'exact': ['C18', 'C10'], 'reused': ['C18', 'C10'], 'updated': ['C18', 'C09']}[src]
                    self.same(st, own, clause, r, raw)
            else:
                self.same(st, ['C18'], clause, x, prop)
        else:
            self.ob(st, own, clause, TRUE)
        if src == 'updated':
            self.ob(st, ['C10'], 'the Jacobian is updated once when no exact one is required', TRUE)
        if src == 'reused':
            self.ob(st, ['C10'], 'the Jacobian is reused when no exact one is required', TRUE)
        self.putm(ip, st, a[0], x=prop)
        g.update(bx=g['sx'], bl=g['sl'], br=g['sr'], px=prop, J=J, X=X, approx=approx, first=False, force=False, Jn=None, jsrc=None, instep=False)
        return self.do_eval(ip, st, a, 'eval', 'AFTER1')

    def matrix_of(self, r, F):
        """r = -(Y F) for a matrix term Y"""
        neg = 0
        t = r
        while True:
            d = dname(t)
            if d == 'v_neg':
                neg ^= 1
                t = t.arg(0)
            elif d == 'mv':
                Y = t.arg(0)
                if not self.eqv(t.arg(1), F):
                    return None
                while dname(Y) == 'm_neg':
                    neg ^= 1
                    Y = Y.arg(0)
                return Y if neg else None
            else:
                return None

    def update(self, g):
        if g['bx'] is None or g['X'] is None or (self.kind == 'DIR' and g['J'] is None):
            return None
        s = a_sub(g['sx'], g['bx'])
        y = a_sub(self.upd(g), self.upd(g, True))
        return published(self.meth, self.kind == 'INVU', g['J'], g['X'], s, y, self.upd(g))

    def do_eval(self, ip, st, a, kind, nxt):
        sem = self.sem
        v = self.getm(ip, st, a[0])
        x, mem = v.fs[0], v.fs[3]
        self.nsets.add((kind, nxt, st.gh['nset']))
        out = sem.OUT(x, mem)
        self.putm(ip, st, a[0], l=sem.LF(x, mem), r=sem.RF(x, mem), m=sem.MN(x, mem))
        self.settle(ip, st, a[0])
        res = []
        for code in (0, 1, 2):
            s = st.copy().assume(out == code)
            if not ip.feasible(s.pc, s.hist):
                continue
            s.gh['lastout'] = code
            if code == 0:
                s.gh['phase'] = nxt
                res.append(('ret', s, ok(UNIT)))
            elif code == 1:
                s.gh['phase'] = nxt
                res.append(('ret', s, err(enum_val(self.M, '::ModelError', 'InaccurateValuesError', sem.IERR(x, mem)))))
            else:
                e = enum_val(self.M, '::ModelError', 'UnusableValuesError', sem.UERR(x, mem))
                s.gh.update(phase='DEAD', cause=kind, payload=e)
                res.append(('ret', s, err(e)))
        return res

    def jac_ready(self, ip, st, a, what):
        out = []
        for s in self.finalise(ip, st.copy()):
            s = s.copy()
            g = s.gh
            if g['phase'] == 'INIT':
                self.ob(s, ['C18'], 'the initial guess is evaluated before any Jacobian', FALSE)
                continue
            self.begin(s)
            self.ob(s, ['C10'], 'an exact Jacobian is computed only when one is required', BoolVal(bool(self.needed(g))))
            v = self.getm(ip, s, a)
            if g['dirty']:
                self.same(s, ['C10', 'C18'], 'the Jacobian is computed at the current point', v.fs[0], g['sx'])
            out.append(s)
        return out

    def get_jac(self, ip, st, a, info):
        if self.dead(st, 'get_jacobian', ['C02']):
            return []
        res = []
        v = self.getm(ip, st, a[0])
        if st.gh['Jn'] is not None and st.gh['jsrc'] == 'model' and st.gh['sx'].eq(v.fs[0]):
            g = st.gh
            return [('ret', st, ok(self.jacvals(ip, st, self.JL(v.fs[0], v.fs[3]), self.JR(v.fs[0], v.fs[3]))))]
        for s in self.jac_ready(ip, st, a[0], 'model'):
            g = s.gh
            self.ob(s, ['C10'], 'the Jacobian of the model is used when the model provides one', self.JP)
            self.ob(s, ['C10'], 'one exact Jacobian per step', BoolVal(g['Jn'] is None))
            x, m = v.fs[0], v.fs[3]
            JL, JR = self.JL(x, m), self.JR(x, m)
            s1 = s.copy().assume(self.JOUT(x, m) == 0)
            if ip.feasible(s1.pc, s1.hist):
                s1.gh['Jn'] = self.NORMJ(g['sl'], g['sr'], JL, JR)
                s1.gh['jsrc'] = 'model'
                res.append(('ret', s1, ok(self.jacvals(ip, s1, JL, JR))))
            for code, nm in ((1, 'InaccurateValuesError'), (2, 'UnusableValuesError')):
                s2 = s.copy().assume(self.JOUT(x, m) == code)
                if ip.feasible(s2.pc, s2.hist):
                    e = enum_val(self.M, '::ModelError', nm, self.JERR(x, m))
                    s2.gh.update(phase='DEAD', cause='jac', payload=e)
                    res.append(('ret', s2, err(e)))
        return res

    def jacvals(self, ip, st, JL, JR):
        k, s, v = one([o for o in ip.call_fn(self.M.find('JacobianValues::new'), st, [JL, JR]) if o[0] == 'ret'], 'JacobianValues::new')
        return v

    def normalize(self, ip, st, a, info):
        jv = ip.deref(st, a[0])
        ms = [x for p, x in leaves(jv) if x.sort() == Mat]
        l, r = rv_lr(ip, self.M, st, a[1])
        meths = ip.deref(st, a[2])
        k = z3.Const('kq', I)
        want = enum_seq(self.M, NM, 'um', self.n)
        if isinstance(meths, Seq) and vsame(meths.tm, want.tm) and len(ms) == 2:
            return [('ret', st, self.NORMJ(l, r, ms[0], ms[1]))]
        o = z3.Function('NORMX', Vec, Vec, Mat, Mat, Mat)
        DIM['NORMX'] = DIM['NORMJ']
        return [('ret', st, o(l, r, ms[0], ms[1]))]

    def fd(self, ip, st, a, info):
        if self.dead(st, 'finite differences', ['C02']):
            return []
        res = []
        for s in self.jac_ready(ip, st, a[0], 'fd'):
            g = s.gh
            v = self.getm(ip, s, a[0])
            x, l, r, m = v.fs
            d = ip.deref(s, a[1])
            self.ob(s, ['C10'], 'finite differences are used only when the model provides no Jacobian', mknot(self.JP))
            self.ob(s, ['C10'], 'one exact Jacobian per step', BoolVal(g['Jn'] is None))
            self.same(s, ['C10', 'C06'], 'the perturbations of the finite differences are those of the current point', d, self.PERTV(x))
            ar = (x, l, r, m, d)
            s1 = s.copy().assume(mknot(self.FDOUT(*ar)))
            if ip.feasible(s1.pc, s1.hist):
                self.putm(ip, s1, a[0], x=self.FDX[0](*ar), l=self.FDX[1](*ar), r=self.FDX[2](*ar))
                self.settle(ip, s1, a[0])
                s1.gh.update(Jn=self.FDJ(*ar), jsrc='fd')
                res.append(('ret', s1, ok(self.FDJ(*ar))))
            s2 = s.copy().assume(self.FDOUT(*ar))
            if ip.feasible(s2.pc, s2.hist):
                e = enum_val(self.M, '::ModelError', 'UnusableValuesError', self.FDERR(*ar))
                s2.gh.update(phase='DEAD', cause='jac', payload=e)
                res.append(('ret', s2, err(e)))
        return res

    def try_inverse(self, ip, st, a, info):
        """the inverse of a matrix equal to the one the specification expects is taken of the latter"""
        import builtins_ as BB
        v = ip.deref(st, a[0])
        m = BB.lum(v)
        g = st.gh
        if g.get('phase') in ('READY', 'AFTER1', 'AFTER2') and isz(m) and m.sort() == Mat:
            exp = g['Jn']
            if exp is None and self.kind == 'DIR' and not g['first']:
                exp = self.update(g)
            if exp is not None and not m.eq(exp) and self.eqv(m, exp):
                m = exp
        r, c = mdim(m)
        good, bad = BB.need(ip, st, mkeq(r, c), 'inverse of a non-square matrix', info)
        out = list(bad)
        if good is not None:
            for side, s in ip.fork(good, invok(m)):
                out.append(('ret', s, some(inv(m)) if side else none()))
        return out

    def handlers(self):
        get = lambda ip, st, a: self.getm(ip, st, a[0])
        return {
            ('model', 'set_iteratives'): self.set_it, ('model', 'set_memory'): self.set_mem, ('model', 'evaluate'): self.evaluate,
            ('model', 'get_jacobian'): self.get_jac,
            ('model', 'jacobian_provided'): lambda ip, st, a, info: [('ret', st, self.JP)],
            ('model', 'get_residuals'): lambda ip, st, a, info: [o for o in ip.call_fn(self.M.find('ResidualsValues::new'), st, [get(ip, st, a).fs[1], get(ip, st, a).fs[2]])],
            ('model', 'get_iteratives'): lambda ip, st, a, info: get(ip, st, a).fs[0],
            ('model', 'get_memory'): lambda ip, st, a, info: get(ip, st, a).fs[3],
            ('model', 'len_problem'): lambda ip, st, a, info: self.n,
            ('param', 'with_finite_diff'): lambda ip, st, a, info: fn('withfd', TP, B)(ip.deref(st, a[0])),
        }

    def contracts(self):
        c = resid_contracts(self.M, self.sem)
        c['Iteratives::step_limitations'] = lambda ip, st, a, info: [('ret', st, self.SLV(ip.deref(st, a[1]), ip.deref(st, a[2])))]
        c['Iteratives::compute_perturbations'] = lambda ip, st, a, info: [('ret', st, self.PERTV(ip.deref(st, a[1])))]
        c['::compute_jacobian_from_finite_difference'] = self.fd
        c['JacobianValues::normalize'] = self.normalize
        c['::try_inverse'] = self.try_inverse
        return c

    # ------------------------------------------------------------------ the result
    def returned(self, ip, st, v):
        M = self.M
        E = lambda nm: enum_tag(M, '::SolverError', nm)
        INT = lambda nm: enum_tag(M, '::SolverInternalError', nm)

        def tagis(e, i):
            return mkeq(e.tag, IntVal(i))
        for side, s in ip.fork(st, mkeq(v.tag, IntVal(0))):
            if side:
                for q in self.finalise(ip, s.copy()):
                    self.returned_ok(ip, q)
                continue
            e = v.ps[1][0]
            for i in range(len(e.ps)):
                q = s.copy().assume(tagis(e, i))
                if not ip.feasible(q.pc, q.hist):
                    continue
                nm = M.adts[e.name]['variants'][i]['name']
                if q.gh['phase'] == 'DEAD':
                    self.returned_dead(ip, q, nm, e.ps[i])
                    continue
                for q in self.finalise(ip, q):
                    self.returned_err(ip, q.copy(), nm, e.ps[i])

    def returned_dead(self, ip, q, nm, ps):
        cause, pay = q.gh['cause'], q.gh['payload']
        want = {'init': 'ModelInitialEvaluationError', 'eval': 'ModelEvaluationError', 'jac': 'JacobianError'}[cause]
        self.ob(q, ['C02'], {'init': 'unusable values at the initial guess yield ModelInitialEvaluationError', 'eval': 'unusable values later yield ModelEvaluationError',
                             'jac': 'a Jacobian the model fails to deliver yields JacobianError'}[cause], BoolVal(nm == want))
        if nm != want:
            return
        if cause == 'eval':
            self.carries(q, 'ModelEvaluationError carries the error of the model', ps[0], pay)
        if cause == 'jac':
            ie = ps[0]
            tg = enum_tag(self.M, '::SolverInternalError', 'InvalidJacobianError')
            self.ob(q, ['C02'], 'JacobianError carries the error of the model', mkeq(ie.tag, IntVal(tg)))
            if ie.ps[tg]:
                self.carries(q, 'JacobianError carries the error of the model', ie.ps[tg][0], pay)

    def carries(self, q, clause, got, want):
        self.ob(q, ['C02'], clause, mkeq(got.tag, want.tag))
        i = want.tag.as_long()
        if got.ps[i]:
            self.ob(q, ['C02'], clause, mkeq(got.ps[i][0], want.ps[i][0]))

    def returned_ok(self, ip, q):
        g = q.gh
        if g['phase'] == 'DEAD':
            self.ob(q, ['C01', 'C02'], 'Ok is not returned after a failure', FALSE)
            return
        if g['phase'] == 'INIT':
            self.ob(q, ['C01'], 'Ok requires an evaluation', FALSE)
            return
        self.ob(q, ['C01'], 'Ok only when the last evaluation was accurate', BoolVal(g['lastout'] == 0))
        self.ob(q, ['C01'], 'Ok only when every stopping residual is a number not above the tolerance', self.conv_goal(g))
        self.left_at(ip, q, ['C01'], 'Ok leaves the model at the last evaluated point')

    def left_at(self, ip, q, props, clause):
        m = q.mem[MODEL]
        self.ob(q, ['C01'], clause + ' with its residuals', mkand(*(P.leaf_goals(m.fs[1], q.gh['sl']) + P.leaf_goals(m.fs[2], q.gh['sr']))))
        self.same(q, props, clause, m.fs[0], q.gh['sx'])

    def returned_err(self, ip, q, nm, ps):
        g = q.gh
        if g['phase'] == 'INIT':
            self.ob(q, ['C02'], 'no error before the first evaluation', FALSE)
        elif nm == 'FinalEvaluationError':
            self.ob(q, ['C02'], 'FinalEvaluationError only when the last evaluation was inaccurate', BoolVal(g['lastout'] == 1))
            self.ob(q, ['C02'], 'FinalEvaluationError only at convergence', self.conv_goal(g))
        elif nm == 'NonConvergenceError':
            self.notconv(q, ['C02', 'C03'], 'NonConvergenceError only when unconverged')
            self.ob(q, ['C02', 'C03'], 'NonConvergenceError only after exactly max_iter steps', mkeq(g['N'], self.mi))
        elif nm in ('ModelInitialEvaluationError', 'ModelEvaluationError'):
            self.ob(q, ['C02'], '%s only after an evaluation with unusable values' % nm, FALSE)
        elif nm == 'JacobianError':
            ie = ps[0]
            tg = enum_tag(self.M, '::SolverInternalError', 'InvalidJacobianInverseError')
            self.begin(q)
            self.ob(q, ['C02'], 'a delivered Jacobian yields JacobianError only when it is not invertible', mkeq(ie.tag, IntVal(tg)))
            exp = g['Jn']
            if exp is None and self.kind == 'DIR' and not self.needed(g):
                exp = self.update(g)
            if exp is None:
                self.ob(q, ['C02', 'C10'], 'JacobianError without a new Jacobian', FALSE)
            else:
                self.ob(q, ['C02', 'C10'], 'the non-invertible matrix is the current Jacobian', mknot(invok(exp)))
        else:
            self.ob(q, ['C02'], 'a known error', FALSE)


# ---------------------------------------------------------------------- the solve loop
class Head:
    def __init__(self):
        self.arr = {}       # source -> [(leaf values {k: term}, ghost values, shape mem)]
        self.defs = {}      # leaf -> term over ghosts | None (opaque)
        self.mem = None
        self.gh = None
        self.dirty = True
        self.result = None


def s2_handler(mon):
    def handler(ip, fr, h, st):
        g0 = st.gh
        has = reaches_model(ip, fr, h)
        if not has:
            return ip.loops.s1(ip, fr, h, st)
        if mon.unroll:
            return unrolled(ip, fr, h, st, mon)
        return s2(ip, fr, h, st, mon)
    return handler


def unrolled(ip, fr, h, st, mon):
    """the first iterations, executed exactly: only used to look for an exact counterexample of an obligation the
    induction leaves open -- never to prove one"""
    body = ip.mir.cfg(fr.key).headers[h]
    cur, res = [st], []
    for it in range(mon.unroll + 1):
        nxt = []
        for s0 in cur:
            if time.time() > mon.deadline:
                return res
            if s0.gh['phase'] in ('INIT', 'DEAD') or s0.gh['instep'] or s0.gh['dirty']:
                continue
            for s in mon.finalise(ip, s0):
                s = s.copy()
                s.gh.update(Jn=None, jsrc=None, nset=0, looped=True, stepno=0)
                for k, q, v in ip.run(fr, h, s, stops={h}, within=body, head=h):
                    if k == 'stop' and v == h:
                        nxt.append(q)
                    else:
                        res.append((k, q, v))
        cur = nxt
    return res


_reach = {}


def reaches_model(ip, fr, h):
    """does the loop body call a method that changes the model (statically)?"""
    cfg = ip.mir.cfg(fr.key)
    body = cfg.headers[h]
    memo = {}

    def fn_calls(key):
        if key in memo:
            return memo[key]
        memo[key] = False
        f = ip.mir.fns[key]
        r = any(block_calls(b) for b in f['blocks'])
        memo[key] = r
        return r

    def block_calls(b):
        t = b['t']
        if t['k'] != 'call' or 'fn' not in t['f']:
            return False
        c = t['f']['fn']
        if c.get('name') in ('set_iteratives', 'evaluate', 'set_memory') and (c.get('trait') or '').endswith('Model'):
            return True
        res = c.get('res')
        for p in ([res['path']] if res else []) + [c['path']]:
            if p in ip.mir.fns:
                return fn_calls(p)
        return False
    return any(block_calls(fr.fn['blocks'][b]) for b in body)


def ghosts_of(g):
    return {k: g[k] for k in GT if g[k] is not None}


_gsym = {}


def gsym(k, sort, n):
    nm = 'g_' + k
    if nm not in _gsym:
        if sort == Vec:
            LEN[nm] = (lambda: n)
        if sort == Mat:
            DIM[nm] = (lambda: (n, n))
        _gsym[nm] = z3.Const(nm, sort)
    return _gsym[nm]


def concretise(ip, st, entry):
    """case split until every option / flag of the changed state is concrete"""
    work, out = [st], []
    while work:
        s = work.pop()
        hit = None
        for root, v in s.mem.items():
            e = entry.get(root)
            hit = find_sym(v, e, ())
            if hit:
                hit = (root,) + hit
                break
        if hit is None:
            out.append(s)
            continue
        root, path, node, what = hit
        if what == 'bool':
            for side, q in ip.fork(s, node):
                q = q.copy()
                q.mem[root] = _walk(q.mem[root], (), lambda p, x: BoolVal(side) if p == path else x)
                work.append(q)
        else:
            for i in range(len(node.ps)):
                q = s.copy().assume(mkeq(node.tag, IntVal(i)))
                if ip.feasible(q.pc, q.hist):
                    q.mem[root] = set_tag(q.mem[root], path, i)
                    work.append(q)
    return out


def find_sym(v, e, path):
    if v is e or v is None:
        return None
    if e is not None and type(v) is type(e) and vsame_safe(v, e):
        return None
    if isz(v):
        if v.sort() == B and not is_true(v) and not is_false(v):
            return (path, v, 'bool')
        return None
    if isinstance(v, Enum):
        if not isv(v.tag):
            return (path, v, 'enum')
        i = v.tag.as_long()
        p = v.ps[i]
        ep = e.ps[i] if isinstance(e, Enum) and len(e.ps) > i and e.ps[i] is not None else None
        for j, x in enumerate(p or ()):
            r = find_sym(x, ep[j] if ep else None, path + ((i, j),))
            if r:
                return r
        return None
    if isinstance(v, Agg):
        for i, x in enumerate(v.fs):
            r = find_sym(x, e.fs[i] if isinstance(e, Agg) and len(e.fs) == len(v.fs) else None, path + (i,))
            if r:
                return r
    return None


def vsame_safe(a, b):
    try:
        return vsame(a, b)
    except Exception:
        return False


def set_tag(v, path, i):
    if not path:
        return Enum(v.name, IntVal(i), [p if j == i else (() if p == () else None) for j, p in enumerate(v.ps)])
    if isinstance(v, Agg):
        fs = list(v.fs)
        fs[path[0]] = set_tag(fs[path[0]], path[1:], i)
        return Agg(v.name, fs)
    if isinstance(v, Enum):
        a, b = path[0]
        ps = list(v.ps)
        pl = list(ps[a])
        pl[b] = set_tag(pl[b], path[1:], i)
        ps[a] = tuple(pl)
        return Enum(v.name, v.tag, ps)
    raise Unsupported('case split')


def prune(v):
    """drop the payloads of variants that are not the current one"""
    if isinstance(v, Enum) and isv(v.tag):
        i = v.tag.as_long()
        return Enum(v.name, v.tag, [tuple(prune(x) for x in p) if j == i and p is not None else (() if p == () else None) for j, p in enumerate(v.ps)])
    if isinstance(v, Enum):
        return Enum(v.name, v.tag, [None if p is None else tuple(prune(x) for x in p) for p in v.ps])
    if isinstance(v, Agg):
        return Agg(v.name, [prune(x) for x in v.fs])
    return v


def shape(v):
    if v is None:
        return '-'
    if isz(v):
        if v.sort() == B and (is_true(v) or is_false(v)):
            return str(v)
        return v.sort().name()
    if isinstance(v, Agg):
        return '%s(%s)' % (v.name, ','.join(map(shape, v.fs)))
    if isinstance(v, Enum):
        return '%s#%s(%s)' % (v.name, v.tag if isv(v.tag) else '?', ';'.join('-' if p is None else ','.join(map(shape, p)) for p in v.ps))
    if isinstance(v, Seq):
        return 'Seq(%s)' % shape(v.tm)
    if isinstance(v, MRef):
        return 'mref%s' % (v.key(),)
    if isinstance(v, Iter):
        return 'iter-%s(%s)' % (v.kind, ','.join(map(shape, v.data)))
    if isinstance(v, FnV):
        return v.c['path']
    return type(v).__name__


def s2(ip, fr, h, st, mon):
    cfg = ip.mir.cfg(fr.key)
    body = cfg.headers[h]
    live = cfg.live[h]
    n = mon.n
    uid0 = next(ip.uid)
    keep = lambda mem: {r: prune(v) for r, v in mem.items() if r[0] != fr.fid or r[1] in live or r[1] in cfg.addr}
    entry = keep(st.mem)
    esyms = set()
    for v in entry.values():
        for p, x in leaves(v):
            esyms |= set(symbols(x))
    base_pc, base_hist = st.pc, st.hist
    cnt0 = dict(st.cnt)
    heads = {}
    order = []

    def arrive(src, s0, changed):
        g = s0.gh
        if g['phase'] in ('INIT', 'DEAD'):
            raise Unsupported('solve loop entered in phase %s' % g['phase'])
        if g['dirty'] or g['instep']:
            if g['instep']:
                raise Unsupported('solve loop head in the middle of a step')
            raise Unsupported('solve loop head with unevaluated iteratives')
        for s1_ in mon.finalise(ip, s0):
            s1_ = s1_.copy()
            s1_.mem = keep(s1_.mem)
            if src is not None:
                mon.ob(s1_, ['C03'], 'every iteration of the loop makes one step (termination)', mkeq(s1_.gh['N'], lin(g_syms()['N'] + 1)))
            for s in concretise(ip, s1_, entry):
                s.mem = keep(s.mem)
                g = s.gh
                key = tuple(sorted((str(r), shape(v)) for r, v in s.mem.items())) + tuple((k, g[k]) for k in GH) + tuple((k, g[k] is None) for k in GT)
                hd = heads.get(key)
                if hd is None:
                    hd = heads[key] = Head()
                    hd.mem, hd.gh, hd.id = s.mem, dict(g), len(heads)
                    order.append(key)
                vals = {}
                for r, v in s.mem.items():
                    for p, x in leaves(v):
                        if x.sort() == B and (is_true(x) or is_false(x)):
                            continue
                        if isinstance(getnode(v, p), str):
                            continue
                        vals[(r, p)] = x
                hd.arr.setdefault(src, []).append((vals, ghosts_of(g), s.pc, s.hist))
                changed.add(key)

    def g_syms():
        return {k: gsym(k, I if k == 'N' else Mat if k in 'XJ' else Vec, n) for k in GT}

    def pool(gs):
        sy = {k: gsym(k, gs[k].sort(), n) for k in gs}
        up = lambda a, b: mon.sem.UPD(sy[a], sy[b])
        sp = lambda a, b: mon.sem.STOP(sy[a], sy[b])
        vec = [sy[k] for k in ('sx', 'sl', 'sr', 'sm', 'bx', 'bl', 'br') if k in sy]
        vec += [up('sl', 'sr'), sp('sl', 'sr')]
        if 'bl' in sy:
            vec += [up('bl', 'br'), sp('bl', 'br'), a_sub(sy['sx'], sy['bx']), a_sub(up('sl', 'sr'), up('bl', 'br'))]
        mats = [sy[k] for k in ('X', 'J') if k in sy]
        return {'Vec': vec, 'Mat': mats}

    def fold(x, gs):
        mp = {}
        for k, v in gs.items():
            if k == 'N':
                continue
            if v.get_id() not in mp:
                mp[v.get_id()] = gsym(k, v.sort(), n)
        return rebuild(x, dict(mp))

    def holds(d, val, gs, pc, hist):
        got = subst(d, [(gsym(k, v.sort(), n), v) for k, v in gs.items()])
        if got.eq(val):
            return True
        if val.sort() == I:
            return is_true(z3.simplify(mkeq(lin(got), lin(val)))) or lin(got).eq(lin(val))
        if val.sort() in (Vec, Mat):
            return alg.alg_eq(got, val)
        return False

    def candidates(x, gs):
        gnames = {'g_' + k for k in gs}
        out = []
        if x.sort() == I:
            d = lin(x - gs['N'])
            if isv(d):
                out.append(lin(gsym('N', I, n) + d))
            if isv(x):
                out.append(x)
        f = fold(x, gs)
        if set(symbols(f)) <= (esyms | gnames) and not created_apps(f, uid0):
            out.append(f)
        for p in pool(gs).get(x.sort().name(), []):
            if holds(p, x, gs, (), ()):
                out.append(p)
        if set(symbols(x)) <= esyms:
            out.append(x)
        return out

    def refresh(key):
        """recompute the definitions; True if they changed"""
        hd = heads[key]
        arrs = [a for l in hd.arr.values() for a in l]
        new = {}
        for leaf in arrs[0][0]:
            d = hd.defs.get(leaf, 0)
            vals = [(a[0][leaf], a[1], a[2], a[3]) for a in arrs]
            if d is None and hd.opq.get(leaf):
                new[leaf] = None
                continue
            if not isinstance(d, int) and d is not None and all(holds(d, *v) for v in vals):
                new[leaf] = d
                continue
            new[leaf] = None
            e = mon.start_leaves.get(leaf)
            if e is not None and not isv(e) and all(x.eq(e) for x, gs, pc, hist in vals):
                new[leaf] = e
                continue
            for x, gs, pc, hist in reversed(vals):
                for c in candidates(x, gs):
                    if all(holds(c, *v) for v in vals):
                        new[leaf] = c
                        break
                if new[leaf] is not None:
                    break
        ch = set(new) != set(hd.defs) or any((new[l] is None) != (hd.defs[l] is None) or (new[l] is not None and not new[l].eq(hd.defs[l])) for l in new)
        hd.defs = new
        return ch

    def head_state(key):
        hd = heads[key]
        s = st.copy()
        s.pc, s.hist, s.cnt = base_pc, base_hist, dict(cnt0)
        arrs = [a for l in hd.arr.values() for a in l]

        def leafv(r, p, x):
            if (r, p) not in hd.defs:
                return x
            d = hd.defs[(r, p)]
            if d is None:
                ta = any(tainted([a[0][(r, p)]]) for a in arrs)
                if (r, p) not in hd.osym:
                    nm = '%sop~%d' % ('old!' if ta else '', next(ip.uid))
                    srt = x.sort()
                    if srt == Vec and all(mkeq(vlen(a[0][(r, p)]), n) is not None and is_true(z3.simplify(mkeq(vlen(a[0][(r, p)]), n))) for a in arrs):
                        LEN[nm] = lambda: n
                    if srt == Mat and all(is_true(z3.simplify(mkand(*[mkeq(q, n) for q in mdim(a[0][(r, p)])]))) for a in arrs):
                        DIM[nm] = lambda: (n, n)
                    hd.osym[(r, p)] = z3.Const(nm, srt)
                    if srt == I and p and True:
                        pass
                return hd.osym[(r, p)]
            return d
        s.mem = {r: _walk(v, (), lambda p, x, r=r: leafv(r, p, x)) for r, v in hd.mem.items()}
        g = dict(hd.gh)
        for k in GT:
            if g[k] is not None:
                g[k] = gsym(k, g[k].sort(), n)
        g.update(Jn=None, jsrc=None, nset=0, looped=True, stepno=0)
        g.pop('px', None)
        s.gh = g
        N = gsym('N', I, n)
        s.pc = base_pc + (N >= 0, N <= mon.mi)
        return s

    Head.opq = {}
    changed = set()
    arrive(None, st, changed)
    for k in heads.values():
        k.osym = {}
    work = list(changed)
    for k in work:
        refresh(k)
    ran = {}
    outer = mon.buf
    for rnd in range(400):
        if not work:
            break
        key = work.pop(0)
        hd = heads[key]
        for o in heads.values():
            if not hasattr(o, 'osym'):
                o.osym = {}
        mon.buf = []
        outs = ip.run(fr, h, head_state(key), stops={h}, within=body, head=h)
        before = {k: True for k in heads}
        for o in heads.values():
            o.arr.pop(key, None)
        ch = set()
        exits = []
        for k, s, v in outs:
            if k == 'stop' and v == h:
                arrive(key, s, ch)
            else:
                exits.append((k, s, v))
        hd.result = (exits, mon.buf)
        for k2 in ch:
            if not hasattr(heads[k2], 'osym'):
                heads[k2].osym = {}
            if refresh(k2) or k2 not in before or heads[k2].result is None:
                if k2 not in work:
                    work.append(k2)
        if len(heads) > 60:
            raise Unsupported('too many loop states')
    else:
        raise Unsupported('the loop invariant does not stabilise')
    mon.buf = outer
    res = []
    used = reachable(heads, None)
    for key in order:
        if key not in used:
            continue
        ex, bf = heads[key].result
        mon.buf += bf
        res += ex
    mon.heads = getattr(mon, 'heads', []) + [heads[k] for k in order if k in used]
    return res


def reachable(heads, start):
    got = {k for k, o in heads.items() if o.arr.get(start)}
    while True:
        new = {k for k, o in heads.items() if k not in got and any(s in got and l for s, l in o.arr.items())}
        if not new:
            return got
        got |= new


def created_apps(t, uid0):
    """functions introduced by loops inside the iteration"""
    seen, st = set(), [t]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            st.append(t.body())
            continue
        if not z3.is_app(t):
            continue
        nm = t.decl().name()
        if '~' in nm and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            tail = nm.rstrip('@').rsplit('~', 1)[1]
            if tail.isdigit() and int(tail) >= uid0:
                return True
        st += t.children()
    return False


def getnode(v, path):
    """'tag'/'n'-like structural leaves of concrete enums are not data"""
    if path and path[-1] == 'tag':
        for p, x in leaves(v):
            if p == path:
                return 'tag' if isv(x) else x
    return None


# ---------------------------------------------------------------------- running solve
def method_value(M, kind, meth):
    if kind == 'NR':
        return enum_val(M, '::ResolutionMethod', 'NewtonRaphson')
    if kind == 'ST':
        q = enum_val(M, '::QuasiNewtonMethod', 'StationaryNewton')
    else:
        q = enum_val(M, '::QuasiNewtonMethod', 'JacobianUpdate' if kind == 'DIR' else 'InverseJacobianUpdate', enum_val(M, '::UpdateQuasiNewtonMethod', meth))
    return enum_val(M, '::ResolutionMethod', 'QuasiNewton', q)


class Run:
    def __init__(self, t, ci, damping, debug, start=None, unroll=0):
        self.t = t
        M, n = t.mir, t.n
        cfg = CONFIGS[ci]
        sem = ModelSem(M, n)
        guess, tol, mi = vecsym('guess', n), fsym('tol'), intsym('max_iter', 2 ** 62)
        mon = self.mon = Mon(t, sem, cfg, damping, guess, tol, mi)
        mon.unroll, mon.deadline = unroll, time.time() + 20
        ip = self.ip = t.interp(generic=mon.handlers(), contracts=mon.contracts(), max_steps=3000000)

        class LH(dict):
            def get(self, k, d=None):
                return s2_handler(mon)
        ip.loop_handlers = LH()
        st = St(pc=(n >= 0,))
        k, st, sp = one(ip.call_fn(M.find('SolverParameters::new'), st, [n, tol, mi, method_value(M, cfg[1], cfg[2]), BoolVal(damping)]), 'SolverParameters::new')
        k, st, its = one(ip.call_fn(M.find('Iteratives::new'), st, [Seq(n, z3.Const('cfg', z3.ArraySort(I, TP)))]), 'Iteratives::new')
        k, st, rc = one([o for o in ip.call_fn(M.find('ResidualsConfig::new'), st, [enum_seq(M, NM, 'sc', n), enum_seq(M, NM, 'um', n)]) if o[0] == 'ret'], 'ResidualsConfig::new')
        k, st, rf = one([o for o in ip.call_fn(M.find('RootFinder::new'), st, [sp, guess, its, rc]) if o[0] == 'ret'], 'RootFinder::new')
        st.mem[SELF] = rf
        if debug:
            k, st, _ = one([o for o in ip.call_fn(M.find('RootFinder::activate_debug'), st, [MRef(SELF), z3.Const('path', Str)]) if o[0] == 'ret'], 'activate_debug')
        self.fresh = st.mem[SELF]
        if start is not None:
            st.mem[SELF] = start
        mon.start_leaves = {(SELF, p): x for p, x in leaves(st.mem[SELF])}
        v = lambda nm: vecsym(nm, n)
        st.mem[MODEL] = Agg('model', (v('x_init'), v('l_init'), v('r_init'), z3.Const('m_init', Vec)))
        st.gh = mon.fresh_gh()
        self.st = st
        self.outs = ip.call_fn(M.find('RootFinder::solve'), st, [MRef(SELF), MRef(MODEL)])
        for k, s, v in self.outs:
            if k == 'ret':
                mon.returned(ip, s, v)
                self.untainted(s, v)
            else:
                mon.ob(s, ['C04'], 'no panic: %s (%s line %s)' % (v.get('msg'), strip(v.get('fn') or '').rsplit('::', 1)[-1], '') if isinstance(v, dict) else 'no panic', FALSE)
        if not any(o[0] == 'ret' for o in self.outs):
            raise Unsupported('solve never returns')

    def untainted(self, s, v):
        pass

    def left_over(self):
        return [s.mem[SELF] for k, s, v in self.outs if k == 'ret' and SELF in s.mem]


def discharge(t, mon, seen, only=None):
    """prove the collected obligations; -> {(props, clause): (status, detail)}"""
    res = {}
    for o in mon.buf:
        key = (tuple(o['props']), o['clause'])
        if only is not None and (key not in only or time.time() > mon.deadline + 30):
            continue
        cur = res.setdefault(key, ['proved', '', 0, True])
        cur[2] += 1
        if cur[0] == 'refuted':
            continue
        sg = (o['kind'], tuple(c.get_id() for c in o['pc']), tuple((a.get_id(), b.get_id(), c.get_id(), d.get_id()) for a, b, c, d in o['hist']),
              o['goal'].get_id() if o['kind'] == 'goal' else (o['a'].get_id(), o['b'].get_id()))
        if sg in seen:
            r, det, ex = seen[sg]
        else:
            r, det, ex = prove_one(o)
            seen[sg] = (r, det, ex)
            mon.keep = getattr(mon, 'keep', [])
            mon.keep.append(o)
        if r != 'proved':
            if r == 'refuted' and not ex:
                r = 'unknown'
            if cur[0] == 'proved' or r == 'refuted':
                cur[0], cur[1], cur[3] = r, det, ex
    return res


def prove_one(o):
    if o['kind'] == 'goal':
        if is_true(o['goal']):
            return 'proved', '', True
        r, m = P.prove(o['pc'], o['hist'], o['goal'], timeout=8000)
        if r == 'proved':
            return r, '', True
        fx = ext_facts(list(o['pc']), o['hist'], o['goal'])
        if fx:
            r, m = P.prove(o['pc'], o['hist'], o['goal'], timeout=8000, facts=fx)
            if r == 'proved':
                return r, '', True
        b = bad_symbols(list(o['pc']) + [o['goal']] + [x for f in o['hist'] for x in f])
        return r, 'goal %s under %s; model %s' % (str(o['goal'])[:300], [str(c)[:90] for c in o['pc'][-8:]], str(model_inputs(m, None))[:300] if m is not None else ''), b is None
    a, b = o['a'], o['b']
    if alg.alg_eq(a, b):
        return 'proved', '', True
    # equality on this path: pointwise
    gs = P.leaf_goals(a, b)
    rs = [P.prove(o['pc'], o['hist'], q, timeout=4000)[0] for q in gs]
    if all(r == 'proved' for r in rs):
        return 'proved', '', True
    bad = bad_symbols([a, b] + list(o['pc']))
    feas = P.prove(o['pc'], o['hist'], FALSE, timeout=5000)[0]
    if feas == 'proved':
        return 'proved', '', True
    w = numeval.differ(a, b)
    det = '%s  differs from  %s ; %s' % (str(a)[:300], str(b)[:300], w)
    return ('refuted' if w and feas == 'refuted' else 'unknown'), det, bad is None


def generalise_self(fresh, lefts, path_syms):
    """the state a RootFinder may be left in: what solving changes becomes arbitrary"""
    cnt = [0]

    def mk(path, sort):
        if path not in path_syms:
            nm = 'old!%d' % len(path_syms)
            path_syms[path] = z3.Const(nm, sort)
        return path_syms[path]
    g = fresh
    for l in lefts:
        g = generalize(g, l, mk, (), set())
    return g


def bound_old(v):
    """axioms: tags in range, integers non-negative"""
    if isinstance(v, Enum):
        if not isv(v.tag):
            T.AX.append(z3.And(v.tag >= 0, v.tag < len(v.ps)))
        for p in v.ps:
            for x in p or ():
                bound_old(x)
    elif isinstance(v, Agg):
        for x in v.fs:
            bound_old(x)
    elif isz(v) and v.sort() == I and v.decl().name().startswith('old!'):
        T.AX.append(z3.And(v >= 0, v < 2 ** 64))


def solve(t, ci, damping):
    cfg = CONFIGS[ci]
    label = '%s%s' % (cfg[0], ', damping' if damping else '')
    n = t.n

    def f():
        seen = {}
        r1 = Run(t, ci, damping, False)
        d1 = discharge(t, r1.mon, seen)
        syms = {}
        start = generalise_self(r1.fresh, r1.left_over(), syms)
        for rnd in range(4):
            bound_old(start)
            set_lens(syms, start, n)
            r2 = Run(t, ci, damping, False, start)
            nxt = generalise_self(start, r2.left_over(), syms)
            if vsame(nxt, start):
                break
            start = nxt
        else:
            raise Unsupported('state left by earlier solves')
        d2 = discharge(t, r2.mon, seen)
        r3 = Run(t, ci, damping, True, None)
        st3 = generalise_self(r3.fresh, r3.left_over(), syms)
        bound_old(st3)
        set_lens(syms, st3, n)
        r3 = Run(t, ci, damping, True, st3)
        d3 = discharge(t, r3.mon, seen)
        exact_counterexamples(t, ci, damping, seen, (d1, d2, d3))
        emit(t, label, d1, d2, d3, r2.mon, r3.mon)
    def g():
        try:
            f()
        except Unsupported:
            d = {}
            look(t, ci, damping, False, {}, d, None)
            for k, r in d.items():
                t.add(list(k[0]), 'RootFinder::solve', '[%s] %s' % (label, k[1]), r[0], r[1], r[3])
            raise
    t.group(['C01', 'C02', 'C03', 'C04', 'C09', 'C10', 'C11', 'C14', 'C17', 'C18'], 'RootFinder::solve', 'behaviour of solve (%s)' % label, g)


def look(t, ci, damping, debug, seen, into, only):
    """exact refutations among the first iterations from a fresh solver"""
    for steps in (1, 2):
        if only is not None and not (only - set(into)):
            return
        try:
            r = Run(t, ci, damping, debug, unroll=steps)
        except (Unsupported, z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, ValueError):
            return
        for k, v in discharge(t, r.mon, seen, None if only is None else only - set(into)).items():
            if v[0] == 'refuted' and v[3]:
                into.setdefault(k, v)


def exact_counterexamples(t, ci, damping, seen, ds):
    d1, d2, d3 = ds
    open_ = lambda d: {k for k, v in d.items() if v[0] == 'unknown'}
    for debug, group in ((False, (d1, d2)), (True, (d3,))):
        todo = set().union(*[open_(d) for d in group])
        if not todo:
            continue
        got = {}
        look(t, ci, damping, debug, seen, got, todo)
        for d in group:
            for k in open_(d):
                if k in got:
                    d[k] = got[k]


def set_lens(syms, v, n):
    for p, c in syms.items():
        if c.sort() == Vec:
            LEN[c.decl().name()] = lambda: n
        if c.sort() == Mat:
            DIM[c.decl().name()] = lambda: (n, n)


RANK = {'proved': 0, 'unknown': 1, 'refuted': 2}


def emit(t, label, d1, d2, d3, m2, m3):
    def put(props, clause, r):
        t.add([p for p in props], 'RootFinder::solve', '[%s] %s' % (label, clause), r[0], r[1], r[3])
    keys = list(dict.fromkeys(list(d2) + list(d3)))
    for k in keys:
        rs = [d[k] for d in (d2, d3) if k in d]
        put(k[0], k[1], max(rs, key=lambda r: RANK[r[0]]))
    ok4 = [k for k in keys if 'C04' in k[0]]
    if not any(d.get(k, ['proved'])[0] != 'proved' for d in (d2, d3) for k in ok4):
        t.add(['C04'], 'RootFinder::solve', '[%s] every path of solve returns' % label, 'proved')
    # C17: an earlier solve makes no difference
    allk = list(dict.fromkeys(list(d1) + list(d2)))
    for k in allk:
        a, b = d1.get(k, ['proved', '', 0, True]), d2.get(k, ['proved', '', 0, True])
        cl = '[%s] from any state left by earlier solves, as from a fresh one: %s' % (label, k[1])
        if b[0] == 'proved' and a[0] == 'proved':
            t.add(['C17'], 'RootFinder::solve', cl, 'proved')
        elif RANK[b[0]] > RANK[a[0]]:
            t.add(['C17'], 'RootFinder::solve', cl, b[0], b[1], b[3])
        else:
            t.add(['C17'], 'RootFinder::solve', cl, 'unknown', 'not established for a fresh solver either: ' + b[1])
    # C14: logging makes no difference
    allk = list(dict.fromkeys(list(d2) + list(d3)))
    for k in allk:
        a, b = d2.get(k, ['proved', '', 0, True]), d3.get(k, ['proved', '', 0, True])
        cl = '[%s] with logging as without: %s' % (label, k[1])
        if b[0] == 'proved' and a[0] == 'proved':
            t.add(['C14'], 'RootFinder::solve', cl, 'proved')
        elif RANK[b[0]] > RANK[a[0]]:
            t.add(['C14'], 'RootFinder::solve', cl, b[0], b[1], b[3])
        else:
            t.add(['C14'], 'RootFinder::solve', cl, 'unknown', 'not established without logging either: ' + b[1])
    same = m2.nsets == m3.nsets
    t.add(['C14'], 'RootFinder::solve', '[%s] the same setters are called before each evaluation with logging as without' % label, 'proved' if same else 'refuted', '' if same else '%s / %s' % (sorted(map(str, m2.nsets)), sorted(map(str, m3.nsets))))
