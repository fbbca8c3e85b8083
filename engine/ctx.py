"""Shared pieces of the specifications: obligations, symbolic inputs, outcomes of calls."""
import sys
import time
import traceback
import z3
from z3 import Int, IntVal, BoolVal
import terms as T
from terms import *
from values import *
from mir import Mir, strip
from interp import Interp, St, Budget
import prove as P

NM = 'NormalizationMethod'


class Task:
    """One verification task: the obligations of some functions of the crate."""

    def __init__(self, name, mir):
        self.name, self.mir = name, mir
        self.obls = []
        self.ips = []
        self.n = Int('n')
        T.AX.append(self.n >= 0)
        T.AX.append(self.n < 2 ** 56)

    def interp(self, **kw):
        ip = Interp(self.mir, **kw)
        self.ips.append(ip)
        return ip

    def add(self, props, fn, clause, status, detail='', exact=True, t=0.0, model=None):
        if isinstance(props, str):
            props = props.split()
        self.obls.append(dict(props=props, fn=strip(fn).split('solver_n_dimensional::')[-1], clause=clause, status=status,
                              detail=str(detail)[:1500], exact=exact, t=round(t, 3), model=model))

    def prove(self, props, fn, clause, st, goal, exact=True, timeout=20000, facts=(), extra=(), inputs=None):
        t0 = time.time()
        r, m = P.prove(st.pc, st.hist, goal, timeout=timeout, extra=extra, facts=facts)
        mod = None
        det = ''
        if r == 'refuted' and st.hist:
            # the facts about the earlier iterations were only used at the indices that occur
            r = P.confirm(st.pc, st.hist, goal, facts)
            if r == 'proved':
                self.add(props, fn, clause, r, det, exact, time.time() - t0, None)
                return True
            exact, r = exact and r == 'refuted', 'refuted'
        if r == 'refuted' and exact and P.inexact(list(st.pc) + [goal] + [x for f in st.hist for x in f]):
            exact = False
        if r == 'refuted':
            mod = model_inputs(m, inputs)
            det = 'counterexample: %s' % (mod,)
        self.add(props, fn, clause, r, det, exact, time.time() - t0, mod)
        return r == 'proved'

    def prove_real(self, props, fn, clause, st, a, b, inputs=None, nan=None):
        """a == b over the reals (rational identity), and nan (if given) is false"""
        import rational
        t0 = time.time()
        r, d = rational.equal(st.pc, a, b)
        self.add(props, fn, clause, r, d, True, time.time() - t0, None)
        P.STATS['n'] += 1
        P.STATS[r] += 1
        if nan is not None:
            self.prove(props, fn, clause + ' (a number)', st, mknot(nan), inputs=inputs)

    def group(self, props, fn, clause, f, exact=True):
        """run f; outside the reach of the engine -> one undecided obligation"""
        t0 = time.time()
        n0 = len(self.obls)
        try:
            f()
        except Unsupported as e:
            self.add(props, fn, clause, 'unreached', 'outside the reach of the verifier: %s' % e, t=time.time() - t0)
            return
        except KeyError as e:
            self.add(props, fn, clause, 'unreached', 'function not found: %s' % e, t=time.time() - t0)
            return
        except (z3.Z3Exception, RecursionError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
            self.add(props, fn, clause, 'unreached', 'engine: %s %s' % (type(e).__name__, traceback.format_exc()[-700:]), t=time.time() - t0)
            return
        if len(self.obls) == n0:
            self.add(props, fn, clause, 'unreached', 'no obligation generated (vacuous)', t=time.time() - t0)

    def result(self):
        inl, bi, co = set(), {}, {}
        for ip in self.ips:
            inl |= set(strip(k) for k in ip.inlined)
            for k, v in ip.used_builtins.items():
                bi[k] = bi.get(k, 0) + v
            for k, v in ip.used_contracts.items():
                co[k] = co.get(k, 0) + v
        return dict(task=self.name, theory=T.TH.name, obligations=self.obls, functions=sorted(inl), assumed=bi, contracts=co, stats=dict(P.STATS))


def fl(v):
    """python value of a model value"""
    try:
        if z3.is_fp(v):
            if v.isNaN():
                return 'NaN'
            if v.isInf():
                return '-inf' if v.isNegative() else 'inf'
            f = v.as_string() if False else None
            s = v.sign()
            return repr(fpval(v))
        return str(v)
    except Exception:
        return str(v)


def fpval(v):
    bv = z3.simplify(z3.fpToIEEEBV(v))
    import struct
    return struct.unpack('<d', struct.pack('<Q', bv.as_long()))[0]


def model_inputs(m, inputs):
    out = {}
    if m is None:
        return out
    for k, t in (inputs or {}).items():
        try:
            v = m.eval(t, model_completion=True)
            out[k] = fl(v)
        except Exception as e:
            out[k] = '?'
    if not inputs:
        for d in list(m.decls())[:40]:
            if d.arity() == 0:
                out[d.name()] = fl(m[d])[:60]
    return out


def split(outs):
    return [o for o in outs if o[0] == 'ret'], [o for o in outs if o[0] == 'panic']


def vecsym(name, n):
    LEN[name] = lambda: n
    return z3.Const(name, Vec)


def matsym(name, r, c=None):
    c = r if c is None else c
    DIM[name] = lambda: (r, c)
    return z3.Const(name, Mat)


def intsym(name, mx=2 ** 56):
    i = Int(name)
    T.AX.append(z3.And(i >= 0, i < mx))
    return i


def fsym(name):
    return z3.Const(name, T.F)


def enum_of(mir, suffix, tag):
    """symbolic value of a payload-free enum"""
    p = [k for k in mir.adts if k.endswith(suffix)]
    p = p[0]
    a = mir.adts[p]
    return Enum(p, tag, [() for _ in a['variants']])


def enum_tag(mir, suffix, name):
    p = [k for k in mir.adts if k.endswith(suffix)][0]
    for i, v in enumerate(mir.adts[p]['variants']):
        if v['name'] == name:
            return i
    raise KeyError('%s::%s' % (suffix, name))


def enum_val(mir, suffix, name, *payload):
    p = [k for k in mir.adts if k.endswith(suffix)][0]
    a = mir.adts[p]
    ps = [() if not v['fields'] else None for v in a['variants']]
    i = enum_tag(mir, suffix, name)
    ps[i] = tuple(payload)
    return Enum(p, IntVal(i), ps)


def enum_seq(mir, suffix, name, n):
    """symbolic sequence of a payload-free enum"""
    p = [k for k in mir.adts if k.endswith(suffix)][0]
    m = len(mir.adts[p]['variants'])
    arr = z3.Const(name, z3.ArraySort(I, I))
    return Seq(n, Enum(p, arr, [() for _ in range(m)]))


def one(outs, what):
    """the single normal outcome"""
    r = [o for o in outs if o[0] == 'ret']
    if len(r) != 1 or len(outs) != 1:
        raise Unsupported('%s: %d outcomes where one was expected' % (what, len(outs)))
    return r[0]
