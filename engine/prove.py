"""Discharging obligations."""
import time
import z3
import terms as T
from terms import *
from interp import inst_hist, conj

STATS = {'n': 0, 'time': 0.0, 'proved': 0, 'refuted': 0, 'unknown': 0, 'trivial': 0}


def prove(pc, hist, goal, timeout=20000, extra=(), facts=()):
    """-> ('proved'|'refuted'|'unknown', model or None)"""
    STATS['n'] += 1
    if is_true(goal):
        STATS['trivial'] += 1
        STATS['proved'] += 1
        return 'proved', None
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout)
    ng = mknot(goal)
    fs = list(pc) + list(facts) + [ng]
    fs += inst_hist(list(pc) + [ng], hist, extra)
    for a in T.AX.about(fs) + fs:
        s.add(a)
    r = s.check()
    STATS['time'] += time.time() - t0
    if r == z3.unsat:
        STATS['proved'] += 1
        return 'proved', None
    if r == z3.sat:
        STATS['refuted'] += 1
        return 'refuted', s.model()
    STATS['unknown'] += 1
    return 'unknown', None


def inexact(ts):
    """do the terms mention values the engine does not know exactly?  (loop values of simple sorts come with the recursion
    that determines them)"""
    seen, st = set(), list(ts)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            st.append(t.body())
            continue
        if not z3.is_app(t):
            continue
        nm = t.decl().name()
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (nm.startswith(('op~', 'old!op~')) or nm.startswith('h~') and t.sort() not in (B, I, T.F)):
            return True
        st += t.children()
    return False


def confirm(pc, hist, goal, facts=(), timeout=5000):
    """a counterexample again, with the facts about earlier iterations as quantified formulas"""
    s = z3.Solver()
    s.set('timeout', timeout)
    fs = list(pc) + list(facts) + [mknot(goal)]
    fs += [z3.ForAll([v], z3.Implies(z3.And(lo <= v, v < hi), body)) for lo, hi, v, body in hist]
    for a in T.AX.about(fs) + fs:
        s.add(a)
    r = s.check()
    return 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'


def ident(a, b):
    """equality of leaves as a formula (floats: same value, NaN = NaN)"""
    if a.eq(b):
        return TRUE
    if a.sort() == T.F:
        return TH.ident(a, b) if True else None
    return mkeq(a, b)


def leaf_goals(a, b):
    """a == b for any sort, vectors and matrices pointwise: [formula]"""
    if a.eq(b):
        return []
    s = a.sort()
    if s == T.F:
        return [T.TH.ident(a, b)]
    if s == Vec:
        k = z3.FreshConst(I, 'ix')
        la, lb = vlen(a), vlen(b)
        return [mkeq(la, lb), mkimp(mkand(IntVal(0) <= k, k < la), T.TH.ident(vat(a, k), vat(b, k)))]
    if s == Mat:
        i, j = z3.FreshConst(I, 'ix'), z3.FreshConst(I, 'ix')
        (ra, ca), (rb, cb) = mdim(a), mdim(b)
        return [mkeq(ra, rb), mkeq(ca, cb),
                mkimp(mkand(IntVal(0) <= i, i < ra, IntVal(0) <= j, j < ca), T.TH.ident(mat(a, i, j), mat(b, i, j)))]
    return [mkeq(a, b)]


def eqs(a, b):
    return mkand(*leaf_goals(a, b))
