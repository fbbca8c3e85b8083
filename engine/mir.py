"""The MIR of the crate, as dumped by driver/ from /repo's current source."""
import functools
import json


class Mir:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns, self.types, self.adts = d['fns'], d['types'], d['adts']
        self.impls = {}
        for k, f in self.fns.items():
            f['key'] = k
            if f.get('impl_trait') and f.get('impl_self_ty') is not None:
                t = self.types[f['impl_self_ty']]
                if t['k'] == 'adt':
                    self.impls[(f['impl_trait'], t['path'], f['name'])] = k
        self._cfg = {}
        self._found = {}

    def find(self, suffix):
        """unique function whose path ends with the given suffix (generics removed)"""
        if suffix in self._found:
            return self._found[suffix]
        r = [k for k in self.fns if strip(k).endswith(suffix)]
        if len(r) == 1:
            self._found[suffix] = r[0]
        if len(r) != 1:
            raise KeyError('%s: %d matches' % (suffix, len(r)))
        return r[0]

    def findall(self, suffix):
        return [k for k in self.fns if strip(k).endswith(suffix)]

    def cfg(self, k):
        c = self._cfg.get(k)
        if c is None:
            c = self._cfg[k] = Cfg(self.fns[k])
        return c


@functools.lru_cache(maxsize=None)
def strip(p):
    out, d = [], 0
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == '<' and not (p[i:i + 2] == '<='):
            d += 1
        elif ch == '>' and p[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s


class Cfg:
    def __init__(self, fn):
        B = fn['blocks']
        n = len(B)
        self.succ = [succs(b['t']) for b in B]
        # dominators
        pred = [[] for _ in range(n)]
        for i in range(n):
            for j in self.succ[i]:
                pred[j].append(i)
        order, seen = [], set()

        def dfs(r):
            st = [(r, iter(self.succ[r]))]
            seen.add(r)
            while st:
                u, it = st[-1]
                for v in it:
                    if v not in seen:
                        seen.add(v)
                        st.append((v, iter(self.succ[v])))
                        break
                else:
                    order.append(u)
                    st.pop()
        dfs(0)
        rpo = order[::-1]
        dom = {u: None for u in rpo}
        allset = set(rpo)
        dom = {u: set(allset) for u in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for u in rpo[1:]:
                ps = [dom[p] for p in pred[u] if p in dom]
                new = set.intersection(*ps) | {u} if ps else {u}
                if new != dom[u]:
                    dom[u] = new
                    ch = True
        self.headers = {}
        for u in rpo:
            for v in self.succ[u]:
                if v in dom[u]:
                    body = self.headers.setdefault(v, {v})
                    st = [u]
                    while st:
                        w = st.pop()
                        if w not in body:
                            body.add(w)
                            st += [p for p in pred[w] if p in dom]
        self.irreducible = any(v not in dom[u] and rpo.index(v) <= rpo.index(u) for u in rpo for v in self.succ[u])
        # liveness of locals
        use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]
        self.addr = set()
        for i, b in enumerate(B):
            def u(l):
                if l not in dfn[i]:
                    use[i].add(l)

            def uplace(p):
                u(p['l'])
                for e in p['p']:
                    if e['k'] == 'index':
                        u(e['local'])

            def uop(o):
                if o['k'] in ('copy', 'move'):
                    uplace(o['place'])

            def dplace(p):
                if p['p']:
                    uplace(p)
                else:
                    dfn[i].add(p['l'])
            for s in b['s']:
                if s['k'] != 'assign':
                    continue
                rv = s['rv']
                k = rv['k']
                if k in ('ref', 'rawptr'):
                    uplace(rv['place'])
                    if rv.get('bk') == 'mut' and not any(e['k'] == 'deref' for e in rv['place']['p']):
                        self.addr.add(rv['place']['l'])
                for x in ('o', 'a', 'b'):
                    if x in rv and isinstance(rv[x], dict):
                        uop(rv[x])
                if 'place' in rv and k not in ('ref', 'rawptr'):
                    uplace(rv['place'])
                for o in rv.get('os', ()):
                    uop(o)
                dplace(s['place'])
            t = b['t']
            if t['k'] == 'switch':
                uop(t['d'])
            elif t['k'] == 'call':
                if isinstance(t['f'], dict) and t['f'].get('k') in ('copy', 'move'):
                    uop(t['f'])
                for o in t['args']:
                    uop(o)
                dplace(t['dest'])
            elif t['k'] == 'assert':
                uop(t['c'])
            elif t['k'] == 'return':
                u(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in reversed(range(n)):
                out = set()
                for j in self.succ[i]:
                    out |= live[j]
                new = use[i] | (out - dfn[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        self.live = live


def succs(t):
    k = t['k']
    if k == 'goto':
        return [t['t']]
    if k == 'switch':
        return [b for _, b in t['vals']] + [t['other']]
    if k == 'call':
        return [t['t']] if t['t'] is not None else []
    if k == 'assert':
        return [t['t']]
    return []
