"""Identities of rational functions under case assumptions: if-then-else conditions are decided by the solver, the
remaining identity of polynomials is decided by expansion (sympy), denominators are shown non-zero by the solver."""
import z3
import sympy
import terms as T
from terms import *
import prove as P


def resolve(pc, t):
    """eliminate the if-then-else nodes whose condition is decided by pc (others stay)"""
    s = z3.Solver()
    s.set('timeout', 2000)
    for c in list(T.AX) + list(pc):
        s.add(c)
    memo = {}

    def dec(c):
        if c.get_id() in memo:
            return memo[c.get_id()][1]
        r = None
        s.push(); s.add(z3.Not(c))
        if s.check() == z3.unsat:
            r = True
        s.pop()
        if r is None:
            s.push(); s.add(c)
            if s.check() == z3.unsat:
                r = False
            s.pop()
        memo[c.get_id()] = (c, r)
        return r
    cache = {}

    def go(t):
        if t.get_id() in cache:
            return cache[t.get_id()][1]
        if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
            r = t
        elif isite(t):
            d = dec(t.arg(0))
            r = go(t.arg(1)) if d is True else go(t.arg(2)) if d is False else z3.If(t.arg(0), go(t.arg(1)), go(t.arg(2)))
        else:
            r = t.decl()(*[go(c) for c in t.children()])
        cache[t.get_id()] = (t, r)
        return r
    return go(t)


def to_sym(t, atoms, dens):
    k = t.decl().kind()
    if z3.is_rational_value(t):
        f = t.as_fraction()
        return sympy.Rational(f.numerator, f.denominator)
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        return sympy.Add(*[to_sym(c, atoms, dens) for c in ch])
    if k == z3.Z3_OP_MUL:
        return sympy.Mul(*[to_sym(c, atoms, dens) for c in ch])
    if k == z3.Z3_OP_SUB:
        r = to_sym(ch[0], atoms, dens)
        for c in ch[1:]:
            r = r - to_sym(c, atoms, dens)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -to_sym(ch[0], atoms, dens)
    if k == z3.Z3_OP_DIV:
        dens.append(ch[1])
        return to_sym(ch[0], atoms, dens) / to_sym(ch[1], atoms, dens)
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1 and ch[1].as_fraction() >= 0:
        return to_sym(ch[0], atoms, dens) ** int(ch[1].as_fraction())
    if k == z3.Z3_OP_ITE:
        raise ValueError('undecided case')
    i = t.get_id()
    if i not in atoms:
        atoms[i] = (t, sympy.Symbol('a%d' % len(atoms)))
    return atoms[i][1]


def equal(pc, a, b):
    """real terms a == b under pc: 'proved' | 'refuted' | 'unknown', detail"""
    try:
        a, b = resolve(pc, a), resolve(pc, b)
        atoms, dens = {}, []
        sa, sb = to_sym(a, atoms, dens), to_sym(b, atoms, dens)
    except ValueError as e:
        return 'unknown', str(e)
    for d in {x.get_id(): x for x in dens}.values():
        if z3.is_rational_value(d):
            if d.as_fraction() == 0:
                return 'unknown', 'division by zero'
            continue
        r, m = P.prove(pc, (), d != 0, timeout=8000)
        if r != 'proved':
            dd, at2 = [], dict(atoms)
            # a product is non-zero when its factors are
            if not all(P.prove(pc, (), f != 0, timeout=8000)[0] == 'proved' for f in factors(d)):
                return 'unknown', 'denominator may vanish: %s' % d
    e = sympy.fraction(sympy.together(sa - sb))[0]
    e = sympy.expand(e)
    if e == 0:
        return 'proved', ''
    # a concrete witness
    import random
    rnd = random.Random(1)
    syms = [(t, s) for t, s in atoms.values()]
    for _ in range(60):
        val = {s: sympy.Rational(rnd.randint(-12, 12), rnd.choice([1, 2, 3])) for _, s in syms}
        sv = z3.Solver()
        sv.set('timeout', 1000)
        for c in list(T.AX) + list(pc):
            sv.add(c)
        for t, s in syms:
            sv.add(t == z3.RealVal(str(val[s])))
        if sv.check() == z3.sat and e.subs(val) != 0:
            return 'refuted', 'values %s' % {str(t): str(val[s]) for t, s in syms}
    return 'unknown', 'polynomial identity fails, no witness'


def factors(d):
    k = d.decl().kind()
    if k == z3.Z3_OP_MUL:
        return [f for c in d.children() for f in factors(c)]
    if k == z3.Z3_OP_POWER:
        return factors(d.arg(0))
    if k == z3.Z3_OP_UMINUS:
        return factors(d.arg(0))
    return [d]
