"""Symbolic values: aggregates, enums, sequences, mutable references, iterators over z3 leaves."""
import z3
from z3 import IntVal
from terms import *
import terms as T


class Unsupported(Exception):
    pass


class Agg:
    __slots__ = ('name', 'fs')

    def __init__(self, name, fs):
        self.name, self.fs = name, tuple(fs)

    def __repr__(self):
        return '%s{%s}' % (self.name.rsplit('::', 1)[-1], ', '.join(map(repr, self.fs)))


class Enum:
    __slots__ = ('name', 'tag', 'ps')

    def __init__(self, name, tag, ps):
        self.name, self.tag, self.ps = name, tag, tuple(ps)

    def __repr__(self):
        return '%s#%s%s' % (self.name.rsplit('::', 1)[-1], self.tag, [p for p in self.ps if p])


class Seq:
    """slice / Vec: length and a struct-of-arrays template (leaves are z3 arrays over Int)"""
    __slots__ = ('n', 'tm')

    def __init__(self, n, tm):
        self.n, self.tm = n, tm

    def __repr__(self):
        return 'Seq(%s,%r)' % (self.n, self.tm)


class MRef:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def __repr__(self):
        return '&mut %s%s' % (self.root, list(self.path))

    def key(self):
        return (self.root, tuple(p if not any(z3.is_expr(x) for x in p) else tuple(x.get_id() if z3.is_expr(x) else x for x in p) for p in self.path))


class Iter:
    """kind: seq(Seq) / vec(term) / range(lo) / kids(elem) / enum(Iter) / zip(Iter,Iter) / rev(Iter) / map(Iter,closure) /
    mut(MRef) -- element i of the underlying source is at(i); pos elements were already taken"""
    __slots__ = ('kind', 'n', 'pos', 'data')

    def __init__(self, kind, n, pos, data):
        self.kind, self.n, self.pos, self.data = kind, n, pos, tuple(data)

    def __repr__(self):
        return 'Iter<%s>(%s/%s)' % (self.kind, self.pos, self.n)


class FnV:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return 'fn %s' % self.c['path']


UNIT = Agg('()', ())
OPTION, RESULT, CF = 'core::option::Option', 'core::result::Result', 'core::ops::control_flow::ControlFlow'


def tup(*xs):
    return Agg('()', xs)


def none():
    return Enum(OPTION, IntVal(0), [(), None])


def some(v):
    return Enum(OPTION, IntVal(1), [(), (v,)])


def ok(v):
    return Enum(RESULT, IntVal(0), [(v,), None])


def err(v):
    return Enum(RESULT, IntVal(1), [None, (v,)])


def isz(v):
    return z3.is_expr(v)


def vmap(f, v):
    if v is None:
        return None
    if isz(v):
        return f(v)
    if isinstance(v, Agg):
        return Agg(v.name, [vmap(f, x) for x in v.fs])
    if isinstance(v, Enum):
        return Enum(v.name, f(v.tag), [None if p is None else tuple(vmap(f, x) for x in p) for p in v.ps])
    if isinstance(v, Seq):
        return Seq(f(v.n), vmap(f, v.tm))
    if isinstance(v, MRef):
        return MRef(v.root, [tuple(f(x) if isz(x) else x for x in p) for p in v.path])
    if isinstance(v, Iter):
        return Iter(v.kind, f(v.n), f(v.pos), [vmap(f, x) for x in v.data])
    return v


def kids(v):
    """(label, child) of a value node"""
    if isinstance(v, Agg):
        return list(enumerate(v.fs))
    if isinstance(v, Enum):
        out = [('tag', v.tag)]
        for i, p in enumerate(v.ps):
            if p is not None:
                out += [((i, j), x) for j, x in enumerate(p)]
        return out
    if isinstance(v, Seq):
        return [('n', v.n), ('tm', v.tm)]
    if isinstance(v, Iter):
        return [('n', v.n), ('pos', v.pos)] + [(('d', i), x) for i, x in enumerate(v.data)]
    return []


def leaves(v, path=(), out=None):
    out = [] if out is None else out
    if v is None:
        return out
    if isz(v):
        out.append((path, v))
    elif isinstance(v, MRef):
        for i, p in enumerate(v.path):
            for j, x in enumerate(p):
                if isz(x):
                    out.append((path + (('p', i, j),), x))
    else:
        for l, x in kids(v):
            leaves(x, path + (l,), out)
    return out


def vsame(a, b):
    """syntactic identity"""
    if a is b:
        return True
    if type(a) is not type(b) and not (isz(a) and isz(b)):
        return False
    if isz(a):
        return a.eq(b)
    if isinstance(a, Agg):
        return a.name == b.name and len(a.fs) == len(b.fs) and all(map(vsame, a.fs, b.fs))
    if isinstance(a, Enum):
        if a.name != b.name or not a.tag.eq(b.tag):
            return False
        for i, (p, q) in enumerate(zip(a.ps, b.ps)):
            if isv(a.tag) and a.tag.as_long() != i:
                continue
            if (p is None) != (q is None):
                return False
            if p is not None and not (len(p) == len(q) and all(map(vsame, p, q))):
                return False
        return True
    if isinstance(a, Seq):
        return a.n.eq(b.n) and vsame(a.tm, b.tm)
    if isinstance(a, MRef):
        return a.key() == b.key()
    if isinstance(a, Iter):
        return a.kind == b.kind and a.n.eq(b.n) and a.pos.eq(b.pos) and len(a.data) == len(b.data) and all(map(vsame, a.data, b.data))
    if isinstance(a, FnV):
        return a.c['path'] == b.c['path']
    return a == b


def merge(c, a, b):
    """if c then a else b"""
    if a is b or a is None or b is None:
        return b if a is None else a
    if isz(a) and isz(b):
        if a.sort() != b.sort():
            raise Unsupported('merge of different sorts')
        return mkif(c, a, b)
    if type(a) is not type(b):
        raise Unsupported('merge of %r and %r' % (type(a).__name__, type(b).__name__))
    if isinstance(a, Agg):
        if a.name != b.name or len(a.fs) != len(b.fs):
            raise Unsupported('merge of %s and %s' % (a.name, b.name))
        return Agg(a.name, [merge(c, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, Enum):
        if a.name != b.name:
            raise Unsupported('merge of enums')
        ps = []
        for p, q in zip(a.ps, b.ps):
            if p is None or q is None:
                ps.append(q if p is None else p)
            else:
                ps.append(tuple(merge(c, x, y) for x, y in zip(p, q)))
        return Enum(a.name, mkif(c, a.tag, b.tag), ps)
    if isinstance(a, Seq):
        return Seq(mkif(c, a.n, b.n), merge(c, a.tm, b.tm))
    if isinstance(a, Iter):
        if a.kind != b.kind:
            raise Unsupported('merge of iterators')
        return Iter(a.kind, mkif(c, a.n, b.n), mkif(c, a.pos, b.pos), [merge(c, x, y) for x, y in zip(a.data, b.data)])
    if vsame(a, b):
        return a
    raise Unsupported('merge of %r' % type(a).__name__)


def generalize(a, b, mk, path=(), chg=None):
    """least common generalisation: differing leaves become mk(path, sort); chg collects the generalised paths.
    a is the current (general) value, b the new one."""
    if a is None or b is None:
        v = b if a is None else a
        if v is None:
            return None
        if a is None:       # appears only in the new value: nothing is known about it
            def f(p, x):
                chg.add(p)
                return mk(p, x.sort())
            return _walk(v, path, f)
        return a
    if isz(a) and isz(b):
        if a.eq(b):
            return a
        if a.sort() != b.sort():
            raise Unsupported('generalisation of different sorts')
        chg.add(path)
        return mk(path, a.sort())
    if type(a) is not type(b):
        raise Unsupported('generalisation of %s and %s' % (type(a).__name__, type(b).__name__))
    if isinstance(a, Agg):
        if a.name != b.name or len(a.fs) != len(b.fs):
            raise Unsupported('generalisation of %s and %s' % (a.name, b.name))
        return Agg(a.name, [generalize(x, y, mk, path + (i,), chg) for i, (x, y) in enumerate(zip(a.fs, b.fs))])
    if isinstance(a, Enum):
        if a.name != b.name:
            raise Unsupported('generalisation of enums')
        tag = generalize(a.tag, b.tag, mk, path + ('tag',), chg)
        ps = []
        for i, (p, q) in enumerate(zip(a.ps, b.ps)):
            if p is None and q is None:
                ps.append(None)
                continue
            m = len(p if p is not None else q)
            ps.append(tuple(generalize(p[j] if p is not None else None, q[j] if q is not None else None, mk, path + ((i, j),), chg) for j in range(m)))
        return Enum(a.name, tag, ps)
    if isinstance(a, Seq):
        return Seq(generalize(a.n, b.n, mk, path + ('n',), chg), generalize(a.tm, b.tm, mk, path + ('tm',), chg))
    if isinstance(a, Iter):
        if a.kind != b.kind:
            raise Unsupported('generalisation of iterators')
        return Iter(a.kind, generalize(a.n, b.n, mk, path + ('n',), chg), generalize(a.pos, b.pos, mk, path + ('pos',), chg),
                    [generalize(x, y, mk, path + (('d', i),), chg) for i, (x, y) in enumerate(zip(a.data, b.data))])
    if vsame(a, b):
        return a
    raise Unsupported('generalisation of %s' % type(a).__name__)


def _walk(v, path, f):
    if v is None:
        return None
    if isz(v):
        return f(path, v)
    if isinstance(v, Agg):
        return Agg(v.name, [_walk(x, path + (i,), f) for i, x in enumerate(v.fs)])
    if isinstance(v, Enum):
        return Enum(v.name, f(path + ('tag',), v.tag), [None if p is None else tuple(_walk(x, path + ((i, j),), f) for j, x in enumerate(p)) for i, p in enumerate(v.ps)])
    if isinstance(v, Seq):
        return Seq(f(path + ('n',), v.n), _walk(v.tm, path + ('tm',), f))
    if isinstance(v, Iter):
        return Iter(v.kind, f(path + ('n',), v.n), f(path + ('pos',), v.pos), [_walk(x, path + (('d', i),), f) for i, x in enumerate(v.data)])
    if isinstance(v, MRef):
        return MRef(v.root, [tuple(f(path + (('p', i, j),), x) if isz(x) else x for j, x in enumerate(p)) for i, p in enumerate(v.path)])
    return v


def walk(v, f):
    return _walk(v, (), f)


def getleaf(v, path):
    for p, x in leaves(v):
        if p == path:
            return x
    return None


# ------------------------------------------------------------------ sequences
def seq_at(s, i):
    return vmap(lambda a: sel(a, i), s.tm)


def seq_store(s, i, x):
    return Seq(s.n, _vzip(lambda a, e: z3.Store(a, i, e), s.tm, x))


def seq_push(s, x):
    if s.tm is None:
        tm = vmap(lambda e: karr(e), x)
    else:
        tm = _vzip(lambda a, e: z3.Store(a, s.n, e), s.tm, x)
    return Seq(lin(s.n + 1), tm)


def _vzip(f, tm, x):
    """combine an array template with an element value (payloads missing on one side are filled in)"""
    if tm is None and x is None:
        return None
    if tm is None:
        return vmap(lambda e: karr(e), x)
    if x is None:
        return tm
    if isz(tm):
        return f(tm, x)
    if isinstance(tm, Agg):
        return Agg(tm.name, [_vzip(f, a, b) for a, b in zip(tm.fs, x.fs)])
    if isinstance(tm, Enum):
        ps = []
        for p, q in zip(tm.ps, x.ps):
            if p is None and q is None:
                ps.append(None)
            elif p is None:
                ps.append(tuple(_vzip(f, None, b) for b in q))
            elif q is None:
                ps.append(p)
            else:
                ps.append(tuple(_vzip(f, a, b) for a, b in zip(p, q)))
        return Enum(tm.name, f(tm.tag, x.tag), ps)
    raise Unsupported('sequence of %s' % type(tm).__name__)


def seq_fn(n, f):
    """sequence from an element function of a z3 index"""
    k = z3.FreshConst(I, 'k')
    return Seq(n, vmap(lambda e: z3.Lambda([k], e), f(k)))


# ------------------------------------------------------------------ structural equality as goals
def eq_goals(a, b, guard=None, path=''):
    """[(guard, a_leaf, b_leaf, path)]"""
    g = TRUE if guard is None else guard
    if a is None or b is None:
        return []
    if isz(a) and isz(b):
        return [] if a.eq(b) else [(g, a, b, path)]
    if type(a) is not type(b):
        return [(g, TRUE, FALSE, path + ':kind')]
    if isinstance(a, Agg):
        if len(a.fs) != len(b.fs):
            return [(g, TRUE, FALSE, path + ':shape')]
        return sum((eq_goals(x, y, g, '%s.%d' % (path, i)) for i, (x, y) in enumerate(zip(a.fs, b.fs))), [])
    if isinstance(a, Enum):
        out = [] if a.tag.eq(b.tag) else [(g, a.tag, b.tag, path + '.tag')]
        for i, (p, q) in enumerate(zip(a.ps, b.ps)):
            gi = mkand(g, mkeq(a.tag, IntVal(i)))
            if is_false(gi) or p is None or q is None:
                continue
            for j, (x, y) in enumerate(zip(p, q)):
                out += eq_goals(x, y, gi, '%s.%d.%d' % (path, i, j))
        return out
    if isinstance(a, Seq):
        k = z3.FreshConst(I, 'ix')
        out = [] if a.n.eq(b.n) else [(g, a.n, b.n, path + '.len')]
        return out + eq_goals(seq_at(a, k), seq_at(b, k), mkand(g, IntVal(0) <= k, k < a.n), path + '[k]')
    if vsame(a, b):
        return []
    return [(g, TRUE, FALSE, path + ':value')]
