"""Symbolic execution of the crate's MIR over the values of values.py.

Every function is executed from its MIR, which the driver dumps from /repo's current source.  A call is replaced by
the callee's contract when one is registered, inlined when the callee is a function of the crate, and handed to
builtins.py (assumed contracts of the standard library, nalgebra and minidom) otherwise.  Loops: loops.py.
"""
import itertools
import z3
from z3 import Int, IntVal, BoolVal, is_true, is_false
import terms as T
from terms import *
from values import *
from mir import strip

UMAX = {'usize': 2 ** 64 - 1, 'u64': 2 ** 64 - 1, 'u32': 2 ** 32 - 1, 'u8': 255, 'u16': 65535, 'u128': 2 ** 128 - 1}
SMAX = {'isize': 2 ** 63 - 1, 'i64': 2 ** 63 - 1, 'i32': 2 ** 31 - 1, 'i8': 127, 'i16': 32767, 'i128': 2 ** 127 - 1}


class Budget(Unsupported):
    pass


class St:
    __slots__ = ('mem', 'pc', 'hist', 'ev', 'gh', 'cnt')

    def __init__(self, mem=None, pc=(), hist=(), ev=(), gh=None, cnt=None):
        self.mem, self.pc, self.hist, self.ev = dict(mem or {}), tuple(pc), tuple(hist), tuple(ev)
        self.gh, self.cnt = dict(gh or {}), dict(cnt or {})

    def copy(self):
        return St(self.mem, self.pc, self.hist, self.ev, self.gh, self.cnt)

    def assume(self, *cs):
        cs = [c for c in cs if not is_true(c)]
        if cs:
            self.pc = self.pc + tuple(cs)
        return self


class Frame:
    __slots__ = ('fid', 'fn', 'key')

    def __init__(self, fid, fn, key):
        self.fid, self.fn, self.key = fid, fn, key


def conj(c):
    """flatten a conjunction"""
    if z3.is_and(c):
        return [x for a in c.children() for x in conj(a)]
    return [c]


class Interp:
    def __init__(self, mir, contracts=None, monitor=None, merge_rets=False, max_steps=400000, generic=None):
        self.mir = mir
        self.contracts = contracts or {}
        self.monitor = monitor
        self.merge_rets = merge_rets
        self.fids = itertools.count(1)
        self.uid = itertools.count(1)
        self.steps = 0
        self.max_steps = max_steps
        self.solver = None
        self.feas = {}
        self.stack = []
        self.loop_handlers = {}
        self.inlined = set()
        self.used_builtins = {}
        self.used_contracts = {}
        self.nfeas = 0
        self.depth = 0
        self.generic = generic or {}
        import builtins_ as B_
        self.builtins = B_.TABLE
        self.bi = B_
        import loops as L_
        self.loops = L_

    # ------------------------------------------------------------------ symbols
    def fresh(self, st, name, sort):
        """deterministic per path and name"""
        n = st.cnt.get(name, 0)
        st.cnt[name] = n + 1
        return z3.Const('%s!%d' % (name, n), sort)

    def freshu(self, name, sort):
        return z3.Const('%s~%d' % (name, next(self.uid)), sort)

    # ------------------------------------------------------------------ feasibility
    def feasible(self, pc, hist=()):
        lits = set()
        for c in pc:
            for x in conj(c):
                if is_false(x):
                    return False
                n = x.arg(0) if z3.is_not(x) else None
                if n is not None:
                    if n.get_id() in lits:
                        return False
                    lits.add(-1 - n.get_id())
                else:
                    if -1 - x.get_id() in lits:
                        return False
                lits.add(x.get_id())
        if not pc:
            return True
        key = (tuple(c.get_id() for c in pc), tuple((h[2].get_id(), h[3].get_id()) for h in hist))
        r = self.feas.get(key)
        if r is None:
            r = self.feas[key] = (self.feasible_(pc, hist), pc, hist)
        return r[0]

    def feasible_(self, pc, hist):
        self.nfeas += 1
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', 3000)
            self.stack, self.axs = [], [set()]
        s = self.solver
        k = 0
        while k < len(self.stack) and k < len(pc) and self.stack[k].eq(pc[k]):
            k += 1
        if len(self.stack) > k:
            s.pop(len(self.stack) - k)
            del self.stack[k:]
            del self.axs[k + 1:]
        for c in pc[k:]:
            s.push()
            have = set(self.axs[-1])
            for x in T.AX.about([c], have):
                zassert(s, x)
            zassert(s, c)
            self.stack.append(c)
            self.axs.append(have)
        if hist:
            s.push()
            have = set(self.axs[-1])
            ins = inst_hist(pc, hist)
            for c in ins + T.AX.about(ins, have):
                zassert(s, c)
            r = s.check()
            s.pop()
        else:
            r = s.check()
        return r != z3.unsat

    def fork(self, st, cond):
        """[(bool, state)] of the feasible sides"""
        if is_true(cond):
            return [(True, st)]
        if is_false(cond):
            return [(False, st)]
        out = []
        nc = mknot(cond)
        a = st.copy().assume(cond)
        b = st.copy().assume(nc)
        fa = self.feasible(a.pc, a.hist)
        if not fa:
            return [(False, b)]
        if not self.feasible(b.pc, b.hist):
            return [(True, a)]
        return [(True, a), (False, b)]

    # ------------------------------------------------------------------ places
    def locate(self, fr, st, place):
        """-> (root, path) after following mutable references, or ('val', value)"""
        root, path = (fr.fid, place['l']), ()
        pr = place['p']
        i = 0
        while i < len(pr):
            e = pr[i]
            k = e['k']
            if k == 'deref':
                v = self.readp(st, root, path)
                if isinstance(v, MRef):
                    root, path = v.root, v.path
            elif k == 'field':
                path = path + (('f', e['i']),)
            elif k == 'downcast':
                nx = pr[i + 1] if i + 1 < len(pr) else None
                if nx is None or nx['k'] != 'field':
                    raise Unsupported('downcast without field')
                path = path + (('p', e['v'], nx['i']),)
                i += 1
            elif k == 'index':
                ix = st.mem[(fr.fid, e['local'])]
                path = path + (('i', ix),)
            elif k == 'cindex' and not e.get('end'):
                path = path + (('i', IntVal(e['off'])),)
            else:
                raise Unsupported('place projection %s' % k)
            i += 1
        return root, path

    def readp(self, st, root, path):
        if root not in st.mem:
            raise Unsupported('read of an uninitialised place %s' % (root,))
        v = st.mem[root]
        for p in path:
            v = self.step_into(st, v, p)
        return v

    def step_into(self, st, v, p):
        k = p[0]
        while isinstance(v, MRef) and k in ('f', 'p', 'i'):
            v = self.readp(st, v.root, v.path)
        if k == 'f':
            if isinstance(v, Agg):
                return v.fs[p[1]]
            if isinstance(v, Enum) and len(v.ps) == 1:
                return v.ps[0][p[1]]
            raise Unsupported('field of %s' % (v.sort().name() if isz(v) else type(v).__name__))
        if k == 'p':
            if isinstance(v, Enum):
                pl = v.ps[p[1]]
                if pl is None:
                    raise Unsupported('payload of an absent variant')
                return pl[p[2]]
            raise Unsupported('variant of %s' % type(v).__name__)
        if k == 'i':
            if isinstance(v, Seq):
                return seq_at(v, p[1])
            if isinstance(v, Agg) and v.name == '[]' and isv(p[1]):
                return v.fs[p[1].as_long()]
            raise Unsupported('index into %s' % type(v).__name__)
        if k == 'at':
            return vat(v, p[1]) if len(p) == 2 else mat(v, p[1], p[2])
        if k == 'oat':
            return oat(v)
        if k == 'col':
            return mcol(v, p[1])
        raise Unsupported('path %r' % (p,))

    def writep(self, st, root, path, x):
        if not path:
            st.mem[root] = x
            return
        st.mem[root] = self.put(st, st.mem.get(root), path, x)

    def put(self, st, v, path, x):
        if not path:
            return x
        p, rest = path[0], path[1:]
        if isinstance(v, MRef):
            self.writep(st, v.root, v.path + tuple(path), x)
            return v
        k = p[0]
        if k == 'f' and isinstance(v, Agg):
            fs = list(v.fs)
            fs[p[1]] = self.put(st, fs[p[1]], rest, x)
            return Agg(v.name, fs)
        if k == 'p' and isinstance(v, Enum):
            ps = list(v.ps)
            pl = list(ps[p[1]])
            pl[p[2]] = self.put(st, pl[p[2]], rest, x)
            ps[p[1]] = tuple(pl)
            return Enum(v.name, v.tag, ps)
        if k == 'i' and isinstance(v, Seq):
            e = self.put(st, seq_at(v, p[1]), rest, x)
            return seq_store(v, p[1], e)
        if k == 'i' and isinstance(v, Agg) and v.name == '[]' and isv(p[1]):
            fs = list(v.fs)
            fs[p[1].as_long()] = self.put(st, fs[p[1].as_long()], rest, x)
            return Agg(v.name, fs)
        if k == 'at' and not rest:
            return v_set(v, p[1], x) if len(p) == 2 else m_set(v, p[1], p[2], x)
        if k == 'col' and rest and rest[0][0] == 'at' and len(rest) == 1:
            return m_set(v, rest[0][1], p[1], x)
        if k == 'col' and not rest:
            return m_setcol(v, p[1], x)
        raise Unsupported('write through %r of %s' % (p, type(v).__name__))

    def deref(self, st, v):
        while isinstance(v, MRef):
            v = self.readp(st, v.root, v.path)
        return v

    def write_ref(self, st, r, x):
        if not isinstance(r, MRef):
            raise Unsupported('write through a non-reference')
        cur = self.readp(st, r.root, r.path)
        while isinstance(cur, MRef):
            r = cur
            cur = self.readp(st, r.root, r.path)
        self.writep(st, r.root, r.path, x)

    # ------------------------------------------------------------------ operands / rvalues
    def operand(self, fr, st, o):
        if o['k'] in ('copy', 'move'):
            root, path = self.locate(fr, st, o['place'])
            return self.readp(st, root, path)
        return self.const(fr, st, o)

    def const(self, fr, st, o):
        ty = self.mir.types[o['ty']]
        if 'fn' in o:
            return FnV(o['fn'])
        if 'bits' in o:
            b = int(o['bits'])
            k = ty['k']
            if k == 'float':
                if o.get('size') != 8:
                    raise Unsupported('float width')
                return TH.lit(b)
            if k == 'bool':
                return BoolVal(b != 0)
            if k == 'int':
                if ty.get('signed') and b >= 1 << (8 * o['size'] - 1):
                    b -= 1 << (8 * o['size'])
                return IntVal(b)
            if k == 'char':
                return IntVal(b)
            if k == 'adt':
                return self.adt_const(ty, b)
            raise Unsupported('constant of type %s' % k)
        if 'str' in o:
            return strlit(o['str'])
        if o.get('promoted') is not None:
            r = self.run_promoted(fr, st, o['promoted'])
            return r
        if o.get('zst'):
            k = ty['k']
            if k == 'adt':
                if ty['path'].endswith('::Const'):
                    return Agg('Const', (IntVal(int(ty['args'][0].get('c', '1'))) if str(ty['args'][0].get('c', '')).isdigit() else IntVal(1),))
                return Agg(ty['path'], ())
            if k == 'tuple':
                return UNIT
            if k == 'closure':
                return Agg('closure:' + ty['path'], ())
            if k == 'fndef':
                raise Unsupported('fndef constant')
            return Agg('zst', ())
        if o.get('opaque') is not None or True:
            return self.sym_opaque(st, ty, 'const')

    def adt_const(self, ty, b):
        a = self.mir.adts.get(ty['path'])
        if a and a['kind'] == 'enum':
            for i, v in enumerate(a['variants']):
                if not v['fields'] and int(v['discr']) == b:
                    return Enum(ty['path'], IntVal(i), [() if not w['fields'] else None for w in a['variants']])
        raise Unsupported('constant of type %s' % ty['path'])

    def sym_opaque(self, st, ty, name):
        k = ty['k']
        if k == 'ref':
            return self.sym_opaque(st, self.mir.types[ty['ty']], name)
        if k == 'str' or (k == 'adt' and ty['path'].endswith('string::String')):
            return self.fresh(st, name, Str)
        if k == 'int':
            v = self.fresh(st, name, I)
            self.int_range(v, ty)
            return v
        if k == 'bool':
            return self.fresh(st, name, B)
        if k == 'float':
            return self.fresh(st, name, T.F)
        if k in ('slice', 'array'):
            n = self.fresh(st, name + 'n', I)
            T.AX.append(n >= 0)
            return Seq(n, z3.Const('%s!arr%d' % (name, next(self.uid)), z3.ArraySort(I, U)))
        return self.fresh(st, name, U)

    def int_range(self, v, ty):
        nm = ty.get('name')
        if nm in UMAX:
            T.AX.append(z3.And(v >= 0, v <= UMAX[nm]))
        elif nm in SMAX:
            T.AX.append(z3.And(v >= -SMAX[nm] - 1, v <= SMAX[nm]))

    def run_promoted(self, fr, st, i):
        p = fr.fn['promoted'][i]
        f = {'locals': p['locals'], 'blocks': p['blocks'], 'argc': 0, 'path': fr.fn['path'] + '::promoted', 'promoted': []}
        fid = next(self.fids)
        s2 = st.copy()
        fr2 = Frame(fid, f, None)
        bb = 0
        for _ in range(100):
            b = f['blocks'][bb]
            for s in b['s']:
                self.stmt(fr2, s2, s)
            t = b['t']
            if t['k'] == 'return':
                return s2.mem[(fid, 0)]
            if t['k'] == 'goto':
                bb = t['t']
            elif t['k'] == 'call':
                # constant constructors
                args = [self.operand(fr2, s2, a) for a in t['args']]
                outs = self.call(fr2, s2, t['f'], args, t)
                if len(outs) != 1 or outs[0][0] != 'ret':
                    raise Unsupported('promoted constant')
                s2 = outs[0][1]
                root, path = self.locate(fr2, s2, t['dest'])
                self.writep(s2, root, path, outs[0][2])
                bb = t['t']
            else:
                break
        raise Unsupported('promoted constant')

    def ty_of(self, fr, o):
        if o['k'] in ('copy', 'move'):
            return self.mir.types[o['place']['ty']]
        return self.mir.types[o['ty']]

    def rvalue(self, fr, st, rv):
        k = rv['k']
        if k == 'use':
            return self.operand(fr, st, rv['o'])
        if k in ('ref', 'rawptr'):
            root, path = self.locate(fr, st, rv['place'])
            if rv.get('bk') == 'mut' or (k == 'rawptr' and rv.get('bk') != 'shared'):
                # a reborrow of a reference held in a place: point at the target
                return MRef(root, path)
            return self.readp(st, root, path)
        if k == 'discr':
            root, path = self.locate(fr, st, rv['place'])
            v = self.deref(st, self.readp(st, root, path))
            if isinstance(v, Enum):
                a = self.mir.adts.get(v.name)
                if a and any(int(x['discr']) != i for i, x in enumerate(a['variants'])):
                    r = IntVal(int(a['variants'][-1]['discr']))
                    for i, x in reversed(list(enumerate(a['variants'][:-1]))):
                        r = mkif(mkeq(v.tag, IntVal(i)), IntVal(int(x['discr'])), r)
                    return r
                return v.tag
            raise Unsupported('discriminant of %s' % (v.sort().name() if isz(v) else type(v).__name__))
        if k == 'bin':
            return self.binop(fr, st, rv)
        if k == 'un':
            a = self.operand(fr, st, rv['o'])
            op = rv['op']
            if op == 'Not':
                return mknot(a) if a.sort() == B else self.un('int not')
            if op == 'Neg':
                return TH.neg(a) if a.sort() == T.F else lin(-a)
            if op == 'PtrMetadata':
                a = self.deref(st, a)
                if isinstance(a, Seq):
                    return a.n
                if isinstance(a, Agg) and a.name == '[]':
                    return IntVal(len(a.fs))
            raise Unsupported('unary %s' % op)
        if k == 'cast':
            v = self.operand(fr, st, rv['o'])
            if isz(v) and v.sort() == I:
                tt = self.mir.types[rv['ty']]
                ft = self.ty_of(fr, rv['o'])
                if tt['k'] == 'int' and ft['k'] == 'int' and tt.get('name') in UMAX and ft.get('name') in UMAX and UMAX[tt['name']] >= UMAX[ft['name']]:
                    return v
                if tt['k'] == 'int' and tt.get('name') == ft.get('name'):
                    return v
                if tt['k'] == 'float' and T.TH.name == 'RN':
                    return TH.mk(FALSE, z3.ToReal(v))
                raise Unsupported('integer cast')
            if isinstance(v, (Agg,)) and v.name == '[]':
                return v
            return v
        if k == 'agg':
            os = [self.operand(fr, st, o) for o in rv['os']]
            ak = rv['ak']
            if ak == 'tuple':
                return tup(*os)
            if ak == 'array':
                return self.mkarray(os)
            if ak == 'closure':
                ty = self.mir.types[rv['ty']]
                return Agg('closure:' + ty['path'], os)
            ty = self.mir.types[rv['ty']]
            return self.mkadt(ty['path'], rv['v'], os)
        if k == 'repeat':
            v = self.operand(fr, st, rv['o'])
            raise Unsupported('repeat')
        raise Unsupported('rvalue %s' % k)

    def mkarray(self, os):
        return Agg('[]', os)

    def mkadt(self, path, v, os):
        a = self.mir.adts.get(path)
        if a is None:
            raise Unsupported('adt %s' % path)
        if a['kind'] == 'enum':
            ps = [() if not x['fields'] else None for x in a['variants']]
            ps[v] = tuple(os)
            return Enum(path, IntVal(v), ps)
        return Agg(path, os)

    def un(self, m):
        raise Unsupported(m)

    def binop(self, fr, st, rv):
        a, b = self.operand(fr, st, rv['a']), self.operand(fr, st, rv['b'])
        op = rv['op']
        if not (isz(a) and isz(b)):
            raise Unsupported('binary %s on %s' % (op, type(a).__name__))
        s = a.sort()
        if s == T.F:
            d = {'Add': TH.add, 'Sub': TH.sub, 'Mul': TH.mul, 'Div': TH.div, 'Lt': TH.lt, 'Le': TH.le, 'Eq': TH.eq,
                 'Gt': lambda x, y: TH.lt(y, x), 'Ge': lambda x, y: TH.le(y, x), 'Ne': lambda x, y: mknot(TH.eq(x, y))}
            if op in d:
                return d[op](a, b)
        elif s == B:
            if op == 'Eq':
                return mkeq(a, b)
            if op == 'Ne':
                return mknot(mkeq(a, b))
            if op == 'BitAnd':
                return mkand(a, b)
            if op == 'BitOr':
                return mkor(a, b)
            if op == 'BitXor':
                return mknot(mkeq(a, b))
        elif s == I:
            d = {'Lt': ilt, 'Le': ile, 'Gt': lambda x, y: ilt(y, x), 'Ge': lambda x, y: ile(y, x), 'Eq': mkeq, 'Ne': lambda x, y: mknot(mkeq(x, y))}
            if op in d:
                return d[op](a, b)
            ty = self.ty_of(fr, rv['a'])
            nm = ty.get('name')
            if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
                r = lin({'A': lambda: a + b, 'S': lambda: a - b, 'M': lambda: a * b}[op[0]]())
                if nm in UMAX:
                    ov = mkor(ilt(r, IntVal(0)) if op[0] == 'S' else FALSE, ilt(IntVal(UMAX[nm]), r) if op[0] != 'S' else FALSE)
                elif nm in SMAX:
                    ov = mkor(ilt(r, IntVal(-SMAX[nm] - 1)), ilt(IntVal(SMAX[nm]), r))
                else:
                    raise Unsupported('overflow of %s' % nm)
                return tup(r, ov)
            if op in ('Add', 'Sub', 'Mul') and nm in ('isize',) or op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
                return lin({'A': lambda: a + b, 'S': lambda: a - b, 'M': lambda: a * b}[op[0]]())
            if op in ('Add', 'Sub', 'Mul'):
                raise Unsupported('wrapping arithmetic')
            if op == 'Rem' and nm in UMAX:
                return a % b
            if op == 'Div' and nm in UMAX:
                return a / b
        elif s == Str and op in ('Eq', 'Ne'):
            return mkeq(a, b) if op == 'Eq' else mknot(mkeq(a, b))
        raise Unsupported('binary %s on %s' % (op, s))

    # ------------------------------------------------------------------ execution
    def stmt(self, fr, st, s):
        if s['k'] != 'assign':
            if s['k'] in ('nop', 'storage', 'fake', 'retag', 'cover'):
                return
            raise Unsupported('statement %s' % s['k'])
        x = self.rvalue(fr, st, s['rv'])
        root, path = self.locate(fr, st, s['place'])
        self.writep(st, root, path, x)

    def call_fn(self, key, st, args, caller=None):
        """inline a function of the crate -> outcomes [(kind, st, value/info)]"""
        fn = self.mir.fns[key]
        self.inlined.add(key)
        fid = next(self.fids)
        fr = Frame(fid, fn, key)
        self.depth += 1
        if self.depth > 40:
            raise Unsupported('recursion through %s' % key)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        try:
            outs = self.run(fr, 0, st)
        finally:
            self.depth -= 1
        res = []
        for k, s, v in outs:
            if k == 'ret':
                r = s.mem.get((fid, 0), UNIT)
                s.mem = {q: w for q, w in s.mem.items() if q[0] != fid}
                res.append(('ret', s, r))
            else:
                res.append((k, s, v))
        return res

    def run(self, fr, bb, st, stops=(), within=None, head=None):
        """execute from block bb; outcomes: ret / panic / ('stop', st, bb)"""
        outs = []
        work = [(bb, st)]
        blocks = fr.fn['blocks']
        cfg = self.mir.cfg(fr.key)
        if cfg.irreducible:
            raise Unsupported('irreducible control flow')
        first = True
        while work:
            bb, st = work.pop()
            if (bb in stops or (within is not None and bb not in within)) and not first:
                outs.append(('stop', st, bb))
                continue
            if bb in cfg.headers and not (first and head == bb):
                first = False
                for k, s, v in self.loops.run_loop(self, fr, bb, st):
                    if k == 'stop':
                        work.append((v, s))
                    else:
                        outs.append((k, s, v))
                continue
            first = False
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget('step budget exhausted')
            b = blocks[bb]
            for s in b['s']:
                self.stmt(fr, st, s)
            t = b['t']
            k = t['k']
            if k == 'goto':
                work.append((t['t'], st))
            elif k == 'return':
                outs.append(('ret', st, None))
            elif k == 'unreachable':
                pass
            elif k == 'switch':
                d = self.operand(fr, st, t['d'])
                work += self.switch(st, d, t)
            elif k == 'assert':
                c = self.operand(fr, st, t['c'])
                if not t['e']:
                    c = mknot(c)
                for side, s in self.fork(st, c):
                    if side:
                        work.append((t['t'], s))
                    else:
                        outs.append(('panic', s, {'msg': t['msg'], 'fn': fr.fn['path'], 'line': t.get('line')}))
            elif k == 'call':
                args = [self.operand(fr, st, a) for a in t['args']]
                for kk, s, v in self.call(fr, st, t['f'], args, t):
                    if kk == 'ret':
                        if t['t'] is None:
                            continue
                        root, path = self.locate(fr, s, t['dest'])
                        self.writep(s, root, path, v)
                        work.append((t['t'], s))
                    else:
                        outs.append((kk, s, v))
            else:
                raise Unsupported('terminator %s' % k)
        return outs

    def switch(self, st, d, t):
        out = []
        if d.sort() == B:
            for side, s in self.fork(st, d):
                tgt = t['other']
                for v, b in t['vals']:
                    if (int(v) != 0) == side:
                        tgt = b
                out.append((tgt, s))
            return out
        cur = st
        if d.sort() != I:
            raise Unsupported('switch on %s' % d.sort())
        for v, b in t['vals']:
            sides = self.fork(cur, mkeq(d, IntVal(int(v))))
            nxt = None
            for side, s in sides:
                if side:
                    out.append((b, s))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        out.append((t['other'], cur))
        return out

    # ------------------------------------------------------------------ calls
    def call(self, fr, st, f, args, t):
        if 'fn' not in f:
            v = self.deref(st, self.operand(fr, st, f))
            return self.apply(st, v, args)
        outs = self.call_const(st, f['fn'], args, {'dest': t['dest']['ty'] if t.get('dest') else None, 'line': t.get('line'), 'fn': fr.fn['path']})
        return outs

    def apply(self, st, f, args):
        """call of a function value / closure"""
        f = self.deref(st, f)
        if isinstance(f, FnV):
            return self.call_const(st, f.c, list(args), {'dest': None, 'line': None, 'fn': ''})
        if isinstance(f, Agg) and f.name.startswith('closure:'):
            key = self.closure_key(f.name[8:])
            return self.maybe_merge(st, self.call_fn(key, st, [f] + list(args)))
        if isinstance(f, Agg) and f.name == 'userfn':
            return self.generic['userfn'](self, st, f, args)
        raise Unsupported('call of %r' % (f,))

    def closure_key(self, path):
        if path in self.mir.fns:
            return path
        r = [k for k in self.mir.fns if strip(k) == strip(path)]
        if len(r) == 1:
            return r[0]
        raise Unsupported('closure %s' % path)

    def call_const(self, st, c, args, info):
        r = self.call_const_(st, c, args, info)
        return r if isinstance(r, list) else [('ret', st, r)]

    def call_const_(self, st, c, args, info):
        path = strip(c['path'])
        res = c.get('res')
        rp = res['path'] if res else None
        if path.startswith('core::ops::function::Fn') and path.rsplit('::', 1)[1] in ('call', 'call_mut', 'call_once') and len(args) == 2:
            ar = self.deref(st, args[1])
            if isinstance(ar, Agg):
                return self.apply(st, args[0], list(ar.fs))
        # contracts (by path suffix)
        for cand in ([strip(rp)] if rp else []) + [path]:
            for suf, h in self.contracts.items():
                if cand.endswith(suf):
                    self.used_contracts[suf] = self.used_contracts.get(suf, 0) + 1
                    return h(self, st, args, info)
        # trait methods on the symbolic model / iterative parameters / user types
        if c.get('trait') and args:
            v0 = self.deref(st, args[0])
            if isinstance(v0, Agg) and v0.name == 'model':
                h = self.generic.get(('model', c['name']))
                if h is None:
                    raise Unsupported('model method %s' % c['name'])
                return h(self, st, args, info)
            if isz(v0) and v0.sort() == TP:
                h = self.generic.get(('param', c['name']))
                if h is None:
                    if c['trait'].startswith('core::fmt') or c['name'] in ('to_string', 'fmt'):
                        return [('ret', st, self.fresh(st, 's', Str) if c['name'] == 'to_string' else ok(UNIT))]
                    raise Unsupported('method %s of a generic parameter' % c['name'])
                return h(self, st, args, info)
        if res and res['local'] and res.get('kind') == 'item' and rp in self.mir.fns:
            return self.maybe_merge(st, self.call_fn(rp, st, args))
        if c.get('local') and not c.get('trait') and c['path'] in self.mir.fns:
            return self.maybe_merge(st, self.call_fn(c['path'], st, args))
        if c.get('trait') and args:
            # dynamic dispatch on the value
            v0 = self.deref(st, args[0])
            if isinstance(v0, (Agg, Enum)):
                k = self.mir.impls.get((c['trait'], v0.name, c['name']))
                if k:
                    return self.maybe_merge(st, self.call_fn(k, st, args))
            # provided method of a local trait
            if c.get('local') and c['path'] in self.mir.fns and not isz(v0):
                return self.maybe_merge(st, self.call_fn(c['path'], st, args))
        ctor = self.ctor(c, args)
        if ctor is not None:
            return [('ret', st, ctor)]
        h = self.builtins.get(path)
        if h is None and rp:
            h = self.builtins.get(strip(rp))
        if h is None:
            h = self.bi.lookup(self, c, args, path)
        if h is None:
            raise Unsupported('external function %s' % path)
        self.used_builtins[path] = self.used_builtins.get(path, 0) + 1
        info = dict(info, c=c)
        r = h(self, st, args, info)
        if isinstance(r, list):
            return r
        return [('ret', st, r)]

    def ctor(self, c, args):
        """tuple-variant / tuple-struct constructors used as functions"""
        p = strip(c['path'])
        if '::' not in p:
            return None
        base, nm = p.rsplit('::', 1)
        a = self.mir.adts.get(base)
        if a and a['kind'] == 'enum':
            for i, v in enumerate(a['variants']):
                if v['name'] == nm and len(v['fields']) == len(args):
                    return self.mkadt(base, i, args)
        a = self.mir.adts.get(p)
        if a and a['kind'] == 'struct' and c.get('name') == nm and p in self.mir.adts and not c.get('trait'):
            return Agg(p, args)
        return None

    # ------------------------------------------------------------------ merging
    def maybe_merge(self, st0, outs):
        if not self.merge_rets:
            return outs
        rets = [o for o in outs if o[0] == 'ret']
        if len(rets) < 2:
            return outs
        try:
            m = self.merge_outs(st0, rets)
        except Unsupported:
            return outs
        return [o for o in outs if o[0] != 'ret'] + [m]

    def merge_outs(self, st0, rets):
        n = len(st0.pc)
        common = n
        acc = None
        conds = []
        for k, s, v in rets:
            for a, b in zip(st0.pc, s.pc):
                if not a.eq(b):
                    raise Unsupported('merge')
            if s.ev != rets[0][1].ev or s.hist != rets[0][1].hist:
                raise Unsupported('merge')
            conds.append(mkand(*s.pc[n:]))
        st, v = rets[-1][1].copy(), rets[-1][2]
        keys = set(st.mem)
        for (k, s, w), c in list(zip(rets, conds))[-2::-1]:
            v = merge(c, w, v) if not (w is None and v is None) else None
            if set(s.mem) != keys:
                raise Unsupported('merge')
            for q in keys:
                if st.mem[q] is not s.mem[q]:
                    st.mem[q] = merge(c, s.mem[q], st.mem[q])
            for q, x in s.cnt.items():
                st.cnt[q] = max(st.cnt.get(q, 0), x)
        st.pc = st0.pc
        st.gh = dict(rets[0][1].gh)
        d = z3.simplify(mkor(*conds))
        st.assume(d)
        return ('ret', st, v)


def zassert(s, c):
    z3.Z3_solver_assert(s.ctx.ref(), s.solver, c.ast)


# ---------------------------------------------------------------------- history facts
_ixt = {}


def index_consts(t):
    """index constants of one term: {id: const}"""
    r = _ixt.get(t.get_id())
    if r is None:
        out = {}
        for nm, c in symbols(t).items():
            if c.sort() == I and nm.startswith(('ix', 'w~', 't~', 'k!', 'w!')):
                out[c.get_id()] = c
        r = _ixt[t.get_id()] = (t, out)
    return r[1]


def index_terms(ts, limit=60):
    """integer constants that may serve as instantiation points"""
    out = {}
    for t in ts:
        out.update(index_consts(t))
    return list(out.values())[:limit]


_inst = {}


def instance(lo, hi, var, body, t):
    k = (lo.get_id(), hi.get_id(), var.get_id(), body.get_id(), t.get_id())
    r = _inst.get(k)
    if r is None:
        r = _inst[k] = (mkimp(mkand(ile(lo, t), ilt(t, hi)), subst(body, [(var, t)])), lo, hi, var, body, t)
    return r[0]


def inst_hist(ts, hist, extra=()):
    """instances of the history facts (lo, hi, var, body): forall lo<=var<hi. body"""
    if not hist:
        return []
    ix = {t.get_id(): t for t in list(index_terms(ts)) + list(extra)}
    out = []
    done = set()
    for lo, hi, _, _ in hist:
        if isv(lo) and isv(hi) and hi.as_long() - lo.as_long() <= 8:
            for k in range(lo.as_long(), hi.as_long()):
                c = z3.IntVal(k)
                ix[c.get_id()] = c
    for _ in range(2):
        new = []
        for i, t in list(ix.items()):
            for n, (lo, hi, var, body) in enumerate(hist):
                if (n, i) in done:
                    continue
                done.add((n, i))
                new.append(instance(lo, hi, var, body, t))
        out += new
        add = index_terms(new)
        if all(a.get_id() in ix for a in add):
            break
        for a in add:
            ix[a.get_id()] = a
    return out
