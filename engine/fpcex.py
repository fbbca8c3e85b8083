"""Exact search for a counterexample of an obligation over scalar binary64 inputs: the terms are evaluated with the
exact IEEE operations on the candidate of the solver and on special values."""
import random
import z3
import terms as T
from terms import *
from ctx import fl

SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 3.0, -3.0, 10.0, -10.0, 1e-3, 0.1, -0.1, 0.3, 5e-324, 1e308, -1e308, 1.7e308, float('inf'), float('-inf'), 1e-300, 7.0, 1.0000000000000002]


def exact(t):
    F = T.F
    fs = []
    for n in ('fp_add', 'fp_mul', 'fp_div'):
        f = z3.Function(n, F, F, F)
        fs.append((f, T.TH.exact_op(n, z3.Var(0, F), z3.Var(1, F))))
    return z3.substitute_funs(t, *fs)


def search(pc, goal, inputs, model=None, seed=1, tries=1500, nans=False):
    """inputs: name -> constant.  -> dict of values violating pc => goal, or None"""
    rnd = random.Random(seed)
    g = exact(goal)
    ps = [exact(c) for c in pc]
    names = list(inputs)
    sp = SPECIAL + ([float('nan')] if nans else [])
    first = []
    if model is not None:
        first.append({k: model.eval(inputs[k], model_completion=True) for k in names})
    for i in range(tries):
        if i < len(first):
            val = first[i]
        else:
            val = {}
            for k in names:
                c = inputs[k]
                if c.sort() == T.F:
                    val[k] = z3.FPVal(rnd.choice(sp) if rnd.random() < 0.8 else rnd.uniform(-10, 10), T.F)
                else:
                    val[k] = IntVal(rnd.randrange(0, 3))
        sub = [(inputs[k], val[k]) for k in names]
        if any(not is_true(z3.simplify(z3.substitute(c, *sub))) for c in ps):
            continue
        if is_false(z3.simplify(z3.substitute(g, *sub))):
            return {k: fl(val[k]) for k in names}
    return None
