"""Loops: inductive invariants found automatically and checked for every iteration.

S1 (this file): the state at the loop head is described as a function of the iteration number t; every leaf of the
state that changes becomes an unknown function h(t), and closed forms of h are guessed from the effect of one
iteration (linear counters, arrays written at one index per iteration, values of the last iteration) and then proved
by induction on t.  Leaves without closed form stay unknown functions with the recursion as their only fact.
"""
import z3
from z3 import IntVal
import terms as T
from terms import *
from values import *
from interp import St, Frame, conj
import prove as P


def run_loop(ip, fr, h, st):
    hd = ip.loop_handlers.get(fr.key)
    if hd is not None:
        return hd(ip, fr, h, st)
    return s1(ip, fr, h, st)


def created(ip, names, uid0, cnt0):
    """is the symbol created after the mark?"""
    def f(nm):
        if '~' in nm:
            tail = nm.rsplit('~', 1)[1]
            return tail.isdigit() and int(tail) >= uid0
        if '!' in nm:
            b, tail = nm.rsplit('!', 1)
            if tail.isdigit() and not b.startswith('str'):
                if b in names:
                    return int(tail) >= cnt0.get(b, 0)
        return False
    return f


def synth(ip, st, runner):
    """a loop inside a library function: runner(st) is one iteration, outcomes ('stop', st, 'synth') to go on,
    ('exit', st, None) to leave, others (panics) as usual"""
    return s1(ip, None, 'synth', st, runner)


def s1(ip, fr, h, st, runner=None):
    st0 = st.copy()
    if runner is None:
        cfg = ip.mir.cfg(fr.key)
        body = cfg.headers[h]
        live = cfg.live[h]
        st0.mem = {r: v for r, v in st.mem.items() if r[0] != fr.fid or r[1] in live or r[1] in cfg.addr}
    uid0 = next(ip.uid)
    cnt0 = dict(st.cnt)
    t = ip.freshu('t', I)
    syms = {}       # (root, path) -> dict(term, v0, closed)
    bound = [None]  # t <= N
    hist = [None]

    def gmem():
        return st0.mem

    G = dict(st0.mem)

    def mkfor(root):
        def mk(path, sort):
            key = (root, path)
            if key not in syms:
                f = z3.Function('h~%d' % next(ip.uid), I, sort)
                v0 = getleaf(st0.mem[root], path)
                syms[key] = dict(f=f, term=f(t), v0=v0, closed=None, sort=sort)
            return syms[key]['term']
        return mk

    def head_state():
        s = st0.copy()
        s.mem = dict(G)
        s.pc = st0.pc + (t >= 0,)
        if bound[0] is not None:
            s.pc = s.pc + (ile(t, bound[0]),)
        if hist[0] is not None:
            s.hist = s.hist + (hist[0],)
        return s

    def run_body():
        s = head_state()
        n = len(s.pc)
        outs = runner(s) if runner is not None else ip.run(fr, h, s, stops={h}, within=body, head=h)
        return n, outs

    def lift(term, at):
        """per-iteration symbols become functions of t; then t := at"""
        sy = symbols(term)
        cr = created(ip, ip_names(ip), uid0 + 2, cnt0)
        pairs = []
        for nm, c in sy.items():
            if c.eq(t):
                continue
            if cr(nm):
                pairs.append((c, z3.Function(nm + '@', I, c.sort())(t)))
        if pairs:
            term = subst(term, pairs)
        if at is not None and not at.eq(t):
            term = subst(term, [(t, at)])
        return term

    # ---- 1. generalise until one iteration preserves the shape
    for rnd in range(30):
        n, outs = run_body()
        conts = [o for o in outs if o[0] == 'stop' and o[2] == h]
        before = len(syms)
        for _, s, _ in conts:
            for r in list(G):
                if r not in s.mem:
                    raise Unsupported('loop moves a live value')
                if s.mem[r] is not G[r]:
                    g2 = generalize(G[r], s.mem[r], mkfor(r), (), set())
                    G[r] = g2
            if s.ev != st0.ev:
                raise Unsupported('monitored events in an inner loop')
        if len(syms) == before and all(same_shape(G[r], s.mem[r]) for _, s, _ in conts for r in G):
            break
    else:
        raise Unsupported('loop generalisation')

    # ---- 2. closed forms
    step = {}
    for rnd in range(12):
        n, outs = run_body()
        conts = [o for o in outs if o[0] == 'stop' and o[2] == h]
        if not conts:
            break
        cr0 = [lift(mkand(*s.pc[n:]), None) for _, s, _ in conts]
        # bound on t
        if bound[0] is None:
            bound[0] = find_bound(ip, st0, t, syms, [s.pc[n:] for _, s, _ in conts])
            if bound[0] is not None:
                continue
        cont = mkor(*cr0)
        guard = [] if bound[0] is None else [ilt(t, bound[0])]
        rest = [strip_guard(c, t, bound[0]) for c in cr0]
        crest = mkor(*rest)
        hv = ip.freshu('hv', I)
        newhist = None if is_true(z3.simplify(crest)) else (IntVal(0), t, hv, subst(crest, [(t, hv)]))
        hist[0] = newhist
        new = False
        step = {}
        for key, sy in syms.items():
            if sy['closed'] is not None:
                continue
            r, path = key
            vals = [lift(getleaf(s.mem[r], path), None) for _, s, _ in conts]
            v = vals[-1]
            for c, x in list(zip(rest, vals))[-2::-1]:
                v = mkif(c, x, v) if not x.eq(v) else v
            step[key] = v
        for key, v in step.items():
            sy = syms[key]
            cf = solve(ip, st0, t, sy, v, [x for k, x in syms.items() if x['closed'] is None], mkand(cont), hist[0], bound[0])
            if cf is not None:
                sy['closed'] = cf
                new = True
        if not new:
            break
        for key, sy in syms.items():
            if sy['closed'] is not None and not sy.get('put'):
                sub = [(sy['term'], sy['closed'](t))]
                for r in G:
                    G[r] = vmap(lambda x: replace_app(x, sub), G[r])
                sy['put'] = True
        for key, sy in syms.items():
            if sy['closed'] is None:
                continue
    # ---- 3. monotone flags
    flags = []
    for key, v in step.items():
        sy = syms[key]
        if sy['closed'] is None and sy['sort'] == B and sy['v0'] is not None and (is_true(sy['v0']) or is_false(sy['v0'])):
            pol = is_true(sy['v0'])
            stay = z3.simplify(replace_app(v, [(sy['term'], BoolVal(not pol))]))
            if (is_false(stay) if pol else is_true(stay)):
                c = replace_app(v, [(sy['term'], BoolVal(pol))])
                c = c if pol else mknot(c)
                if not mentions(c, [sy['term']]):
                    flags.append((sy, sy['term'] if pol else mknot(sy['term']), c))
        elif sy['closed'] is None and sy['sort'] == I and sy['v0'] is not None:
            # a counter that never decreases: it keeps its first value iff no iteration increased it
            d = z3.simplify(replace_app(v, [(sy['term'], IntVal(0))]))
            if not mentions(d, [sy['term']]) and valid(v == sy['term'] + d) and valid(d >= 0):
                flags.append((sy, mkeq(sy['term'], sy['v0']), ile(d, IntVal(0))))
    # ---- 4. the exits
    n, outs = run_body()
    res = []
    nh = len(st0.hist) + (hist[0] is not None)
    lost = any(k == 'stop' and v == h and len(s.hist) > nh for k, s, v in outs)
    for k, s, v in outs:
        if k == 'stop' and v == h:
            continue
        s = s.copy()
        if lost:
            # quantified facts of the earlier iterations are not kept: no counterexample past this point is exact
            s.assume(z3.Bool('op~lost'))
        extra = [key for key in step if syms[key]['closed'] is None and syms[key]['sort'] in (B, I, T.F)]
        for key in extra:
            sy = syms[key]
            hv = ip.freshu('hv', I)
            s.hist = s.hist + ((IntVal(0), t, hv, P.ident(sy['f'](hv + 1), subst(step[key], [(t, hv)]))),)
            if sy['v0'] is not None:
                s.assume(P.ident(sy['f'](IntVal(0)), sy['v0']))
        cand = [s]
        for sy, same, c in flags:
            nxt = []
            for q in cand:
                for side, q2 in ip.fork(q, same):
                    if side:
                        hv = ip.freshu('hv', I)
                        q2 = q2.copy()
                        q2.hist = q2.hist + ((IntVal(0), t, hv, subst(c, [(t, hv)])),)
                    else:
                        w = ip.freshu('w', I)
                        q2 = q2.copy().assume(IntVal(0) <= w, w < t, mknot(subst(c, [(t, w)])))
                        if sy['sort'] == I:
                            q2 = q2.assume(sy['term'] > sy['v0'])
                    if ip.feasible(q2.pc, q2.hist):
                        nxt.append(q2)
            cand = nxt
        for q in cand:
            if bound[0] is not None and not ip.feasible(q.pc + (ilt(t, bound[0]),), q.hist):
                q = subst_state(q, t, bound[0])
            res.append((k, q, v))
    return res


def valid(f):
    s = z3.Solver()
    s.set('timeout', 1000)
    s.add(mknot(f))
    return s.check() == z3.unsat


def ip_names(ip):
    class Any:
        def __contains__(self, x):
            return True
    return Any()


def same_shape(a, b):
    try:
        chg = set()
        seen = []

        def mk(p, s):
            return None
        generalize(a, b, lambda p, s: z3.Const('dummy', s), (), chg)
        return True
    except Unsupported:
        return False


def replace_app(x, pairs):
    """substitute arbitrary subterms"""
    ns = T.names(x)
    pairs = [(a, b) for a, b in pairs if a.decl().kind() != z3.Z3_OP_UNINTERPRETED or a.decl().name() in ns]
    if not pairs:
        return x
    mp = {a.get_id(): b for a, b in pairs}
    # inside lambdas z3.substitute is needed
    keep = [(a, b) for a, b in pairs]
    if has_quant(x):
        return norm(z3.substitute(x, *keep))
    return rebuild(x, mp)


def has_quant(t):
    return '?quant' in T.names(t)


def mentions(t, terms):
    ids = {x.get_id() for x in terms}
    seen = set()
    st = [t]
    while st:
        t = st.pop()
        i = t.get_id()
        if i in ids:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            st.append(t.body())
        elif z3.is_app(t):
            st.extend(t.children())
    return False


def subst_state(s, t, N):
    s = s.copy()
    f = lambda x: subst(x, [(t, N)])
    s.mem = {r: vmap(f, v) for r, v in s.mem.items()}
    s.pc = tuple(c for c in (f(c) for c in s.pc) if not is_true(z3.simplify(c)))
    s.hist = tuple((f(a), f(b), v, f(c)) for a, b, v, c in s.hist)
    return s


def as_lt(c):
    """c as a < b over ints -> (a, b)"""
    neg = False
    if z3.is_not(c):
        neg, c = True, c.arg(0)
    if not z3.is_app(c) or c.num_args() != 2 or c.arg(0).sort() != I:
        return None
    k = c.decl().kind()
    a, b = c.arg(0), c.arg(1)
    if k == z3.Z3_OP_LT:
        return (b, lin(a + 1)) if neg else (a, b)
    if k == z3.Z3_OP_LE:
        return (b, a) if neg else (a, lin(b + 1))
    if k == z3.Z3_OP_GT:
        return (a, lin(b + 1)) if neg else (b, a)
    if k == z3.Z3_OP_GE:
        return (a, b) if neg else (b, lin(a + 1))
    return None


def find_bound(ip, st0, t, syms, sufs):
    unk = [x['term'] for x in syms.values() if x['closed'] is None]
    cands = None
    for suf in sufs:
        here = {}
        for c in suf:
            for x in conj(c):
                ab = as_lt(x)
                if ab is None:
                    continue
                N = lin(ab[1] - ab[0] + t)
                if mentions(N, [t]) or mentions(N, unk):
                    continue
                here[N.get_id()] = N
        cands = here if cands is None else {i: n for i, n in cands.items() if i in here}
    for N in (cands or {}).values():
        if not ip.feasible(st0.pc + (mknot(ile(IntVal(0), N)),), st0.hist):
            return N
    return None


def strip_guard(c, t, N):
    if N is None:
        return c
    keep = []
    for x in conj(c):
        ab = as_lt(x)
        if ab is not None and is_true(mkeq(lin(ab[1] - ab[0] + t), N)):
            continue
        keep.append(x)
    return mkand(*keep)


def elem(v, ks):
    s = v.sort()
    if s == Vec:
        return vat(v, ks[0])
    if s == Mat:
        return mat(v, *ks)
    return sel(v, *ks)


def nidx(sort):
    if sort == Vec:
        return 1
    if sort == Mat:
        return 2
    if isinstance(sort, z3.ArraySortRef):
        return 1 if sort.domain() == I and sort != T.MA else 2
    return 0


def solve(ip, st0, t, sy, v, unknown, cont, hist, bound):
    """closed form of the leaf: function T -> term, or None"""
    h = sy['term']
    unk = [x['term'] for x in unknown]
    v0 = sy['v0']
    if v.eq(h):
        return (lambda T_: v0) if v0 is not None else None
    if sy['sort'] == I:
        d = lin(v - h)
        if isv(d) and v0 is not None:
            c = d.as_long()
            return lambda T_: lin(v0 + c * T_)
    if not mentions(v, unk):
        # value of the last iteration
        if v0 is None:
            return lambda T_: subst(v, [(t, lin(T_ - 1))])
        return lambda T_: mkif(mkeq(T_, IntVal(0)) if isv(T_) else mkeq(T_, IntVal(0)), v0, subst(v, [(t, lin(T_ - 1))]))
    k = nidx(sy['sort'])
    if k == 0:
        return None
    others = [x for x in unk if not x.eq(h)]
    if mentions(v, others):
        return None
    ks = [z3.FreshConst(I, 'ix') for _ in range(k)]
    if v0 is None:
        v0 = z3.Const('undef~%d' % next(ip.uid), sy['sort'])
    base = elem(h, ks)
    e = elem(v, ks)
    e0 = elem(v0, ks)
    writes = []

    def walk(e, cs):
        if e.eq(base):
            return True
        if isite(e):
            return walk(e.arg(1), cs + conj(e.arg(0))) and walk(e.arg(2), cs + [mknot(e.arg(0))])
        writes.append((cs, e))
        return True
    walk(e, [])
    forms = []
    for cs, val in writes:
        te = None
        for c in cs:
            if z3.is_eq(c) and c.arg(0).sort() == I:
                te = solve_for(c, t)
                if te is not None:
                    break
        if te is None:
            return None
        forms.append((te, cs, val))

    def at(kk, T_):
        out = e0_at(kk)
        for te, cs, val in reversed(forms):
            pr = list(zip(ks, kk))
            tx = subst(te, pr) if pr else te
            # unread cells still hold their initial value
            v1 = unhist(val, h, v0, t)
            v1 = subst(subst(v1, [(t, te)]), pr)
            cc = mkand(*[subst(subst(unhist(c, h, v0, t), [(t, te)]), pr) for c in cs])
            cond = mkand(ile(IntVal(0), tx), ilt(tx, T_), cc)
            out = mkif(z3.simplify(cond) if False else cond, v1, out)
        return out

    def e0_at(kk):
        return elem(v0, kk)

    def closed(T_):
        vs = [z3.FreshConst(I, 'k') for _ in range(k)]
        arr = z3.Lambda(vs, at(vs, T_))
        if sy['sort'] == Vec:
            return vmk(vlen(v0), arr)
        if sy['sort'] == Mat:
            return mmk(*mdim(v0), arr)
        return arr
    # dimensions are preserved
    g = []
    if sy['sort'] == Vec:
        g.append(mkeq(replace_app(vlen(v), [(h, closed(t))]), vlen(v0)))
    if sy['sort'] == Mat:
        a, b = mdim(v)
        r0, c0 = mdim(v0)
        g += [mkeq(replace_app(a, [(h, closed(t))]), r0), mkeq(replace_app(b, [(h, closed(t))]), c0)]
    # induction step, pointwise
    lhs = at(ks, lin(t + 1))
    rhs = elem(replace_app(v, [(h, closed(t))]), ks)
    inr = [IntVal(0) <= x for x in ks]
    if sy['sort'] == Vec:
        inr.append(ks[0] < vlen(v0))
    if sy['sort'] == Mat:
        r0, c0 = mdim(v0)
        inr += [ks[0] < r0, ks[1] < c0]
    b0 = at(ks, IntVal(0))
    pc = st0.pc + (t >= 0,) + (() if bound is None else (ile(t, bound),))
    hs = st0.hist + (() if hist is None else (hist,))
    goals = [P.ident(b0, e0), P.ident(lhs, rhs)]
    pcc = pc + (cont,) + tuple(inr)
    if mentions(cont, [h]):
        pcc = pc + tuple(inr)
    for gg in g + goals:
        r, m = P.prove(pcc, hs, gg, timeout=5000)
        if r != 'proved':
            return None
    return closed


def unhist(val, h, v0, t):
    """reads of the array being filled see the initial value (checked by the induction step)"""
    return replace_app(val, [(h, v0)]) if mentions(val, [h]) else val


def solve_for(c, t):
    """equation over ints solved for t (coefficient +-1)"""
    d = lin(c.arg(0) - c.arg(1))
    z = IntVal(0)
    c0 = lin(subst(d, [(t, z)]))
    c1 = lin(subst(d, [(t, IntVal(1))]) - c0)
    if not isv(c1):
        return None
    a = c1.as_long()
    # linear in t?
    if not isv(lin(subst(d, [(t, IntVal(7))]) - c0)) or lin(subst(d, [(t, IntVal(7))]) - c0).as_long() != 7 * a:
        return None
    if a == 1:
        return lin(-c0)
    if a == -1:
        return c0
    return None
