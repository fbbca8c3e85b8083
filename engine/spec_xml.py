"""C13: reading a configuration file.

A document is an uninterpreted tree: attributes, names and children of an element, and what a string denotes as a float or
an integer, are arbitrary functions.  WF states which documents are well formed; the reader must return exactly on those,
and every value returned must be the one written (in the node or, when absent, in the default of its parent)."""
from ctx import *
from spec_ctor import check_eq, valid_iter
from values import *

IT4 = ['max_step_abs', 'max_step_rel', 'min_value', 'max_value']
CODES = {'NR': None, 'SN': ('StationaryNewton', None)}
for _c, _m in (('BROY1', 'BroydenFirstMethod'), ('BROY2', 'BroydenSecondMethod'), ('GRST1', 'GreenstadtFirstMethod'), ('GRST2', 'GreenstadtSecondMethod')):
    CODES[_c] = ('JacobianUpdate', _m)
    CODES[_c + '_INV'] = ('InverseJacobianUpdate', _m)


def method(M, code):
    c = CODES[code]
    if c is None:
        return enum_val(M, '::ResolutionMethod', 'NewtonRaphson')
    q = enum_val(M, '::QuasiNewtonMethod', c[0], *([enum_val(M, 'UpdateQuasiNewtonMethod', c[1])] if c[1] else []))
    return enum_val(M, '::ResolutionMethod', 'QuasiNewton', q)


has = lambda e, k: fn('has_attr', U, Str, B)(e, strlit(k))
att = lambda e, k: fn('attr', U, Str, Str)(e, strlit(k))
name = lambda e, k: mkeq(fn('el_name', U, Str)(e), strlit(k))
kid = lambda e, i: fn('kid', U, I, U)(e, i if z3.is_expr(i) else IntVal(i))
isf, fof = (lambda s: fn('is_float', Str, B)(s)), (lambda s: fn('float_of', Str, T.F)(s))
isu, uof = (lambda s: fn('is_usize', Str, B)(s)), (lambda s: fn('usize_of', Str, I)(s))


def nch(e):
    import builtins_
    return builtins_.nkids(e)


def code_in(s, codes):
    return mkor(*[mkeq(s, strlit(c)) for c in codes])


def enum_code(M, suffix, s, codes):
    """the payload-free variant denoted by s (meaningful when s is one of the codes)"""
    tag = IntVal(enum_tag(M, suffix, codes[-1]))
    for c in codes[:-1]:
        tag = mkif(mkeq(s, strlit(c)), IntVal(enum_tag(M, suffix, c)), tag)
    return enum_of(M, suffix, tag)


def eff(e, parent, k, dec):
    """decoded attribute of the node, or of its parent when absent"""
    return mkif(has(e, k), dec(att(e, k)), dec(att(parent, k)))


class Doc:
    def __init__(self, M, path, fd):
        self.M, self.fd = M, fd
        text = fn('file_text', Str, Str)(path)
        self.readable = mkand(fn('file_readable', Str, B)(path), fn('is_xml', Str, B)(text))
        r = self.root = fn('xml_root', Str, U)(text)
        self.sol, self.its, self.res = kid(r, 0), kid(r, 1), kid(r, 2)
        self.floats = IT4 + (['dx_abs', 'dx_rel'] if fd else [])
        self.NORM = ['Abs', 'Rel', 'Adapt']
        self.PM = ['Max', 'Sum']
        self.rc = ['stopping_criteria', 'update_method']

    def usable(self, v):
        g = valid_iter(v['max_step_abs'], v['max_step_rel'], v['min_value'], v['max_value'])
        if self.fd:
            g = mkand(g, TH.lt(TH.num(0), v['dx_abs']), TH.lt(TH.num(0), v['dx_rel']))
        return g

    # ---- the well-formedness of the fixed part, and of child i of the two lists
    def fixed(self):
        s, it, rs = self.sol, self.its, self.res
        g = [('the file is readable XML', self.readable), ('the root is "nrf"', name(self.root, 'nrf')), ('three nodes below the root', IntVal(3) <= nch(self.root)),
             ('the nodes are "solver", "iteratives", "residuals"', mkand(name(s, 'solver'), name(it, 'iteratives'), name(rs, 'residuals')))]
        for k in ('problem_size', 'max_iter'):
            g.append(('%s is present and an integer' % k, mkand(has(s, k), isu(att(s, k)))))
        g.append(('tolerance is present and a float', mkand(has(s, 'tolerance'), isf(att(s, 'tolerance')))))
        g.append(('resolution_method is present and known', mkand(has(s, 'resolution_method'), code_in(att(s, 'resolution_method'), CODES))))
        g.append(('damping is absent or a boolean', mkimp(has(s, 'damping'), code_in(att(s, 'damping'), ['true', 'false']))))
        for k in self.floats:
            g.append(('the default %s is present and a float' % k, mkand(has(it, k), isf(att(it, k)))))
        if self.fd:
            g.append(('the default perturbation_method is present and known', mkand(has(it, 'perturbation_method'), code_in(att(it, 'perturbation_method'), self.PM))))
        g.append(('the default iterative values are valid', self.usable({k: fof(att(it, k)) for k in self.floats})))
        for k in self.rc:
            g.append(('the default %s is present and known' % k, mkand(has(rs, k), code_in(att(rs, k), self.NORM))))
        g.append(('as many iterative nodes as problem_size', mkeq(uof(att(s, 'problem_size')), nch(it))))
        g.append(('as many residual nodes as problem_size', mkeq(uof(att(s, 'problem_size')), nch(rs))))
        return g

    def iter_at(self, i):
        e = kid(self.its, i)
        g = [('an iterative node is named "iterative"', name(e, 'iterative')), ('its id is its position', mkand(has(e, 'id'), isu(att(e, 'id')), mkeq(uof(att(e, 'id')), i)))]
        for k in self.floats:
            g.append(('its %s is absent or a float' % k, mkimp(has(e, k), isf(att(e, k)))))
        if self.fd:
            g.append(('its perturbation_method is absent or known', mkimp(has(e, 'perturbation_method'), code_in(att(e, 'perturbation_method'), self.PM))))
        g.append(('its values are valid', self.usable(self.iter_vals(i))))
        return g

    def iter_vals(self, i):
        e = kid(self.its, i)
        return {k: eff(e, self.its, k, fof) for k in self.floats}

    def pm(self, i):
        return enum_code(self.M, 'PerturbationMethod', eff(kid(self.its, i), self.its, 'perturbation_method', lambda s: s), self.PM)

    def res_at(self, i):
        e = kid(self.res, i)
        g = [('a residual node is named "residual"', name(e, 'residual')), ('its id is its position', mkand(has(e, 'id'), isu(att(e, 'id')), mkeq(uof(att(e, 'id')), i)))]
        for k in self.rc:
            g.append(('its %s is absent or known' % k, mkimp(has(e, k), code_in(att(e, k), self.NORM))))
        return g

    def norm(self, i, k):
        return enum_code(self.M, NM, eff(kid(self.res, i), self.res, k, lambda s: s), self.NORM)


def xml(t, fd):
    M = t.mir
    fname = 'from_xml_finite_diff' if fd else 'from_xml_jacobian'

    def f():
        key = M.find(fname)
        ip = t.interp(merge_rets=True)
        path = z3.Const('path', Str)
        d = Doc(M, path, fd)
        outs = ip.call_fn(key, St(), [path])
        rets, pans = split(outs)
        i = z3.Const('ixi', I)
        if not rets:
            t.add('C13', fname, 'a well-formed document is accepted', 'refuted', 'every path panics')
        for n_, (k, s, v) in enumerate(rets):
            tag = '' if len(rets) == 1 else ' (path %d)' % n_
            for what, g in d.fixed():
                t.prove('C13', fname, 'accepts only if %s%s' % (what, tag), s, g)
            qi = s.copy().assume(i >= 0, i < nch(d.its))
            for what, g in d.iter_at(i):
                t.prove('C13', fname, 'accepts only if, for every iterative node, %s%s' % (what, tag), qi, g, extra=(i,))
            qr = s.copy().assume(i >= 0, i < nch(d.res))
            for what, g in d.res_at(i):
                t.prove('C13', fname, 'accepts only if, for every residual node, %s%s' % (what, tag), qr, g, extra=(i,))
            sp, its, stop, upd = v.fs
            for g, w in (('problem_size', uof(att(d.sol, 'problem_size'))), ('max_iter', uof(att(d.sol, 'max_iter'))), ('tolerance', fof(att(d.sol, 'tolerance'))),
                         ('damping', mkand(has(d.sol, 'damping'), mkeq(att(d.sol, 'damping'), strlit('true'))))):
                getter(t, ip, s, 'SolverParameters', sp, g, w, fname, tag)
            for k_, s2, got in ip.call_fn(M.find('SolverParameters::get_resolution_method'), s, [sp]):
                for c in CODES:
                    check_eq(t, 'C13', fname, 'resolution_method "%s" is the method it denotes%s' % (c, tag), s2.copy().assume(mkeq(att(d.sol, 'resolution_method'), strlit(c))), got, method(M, c))
            lens = [('one entry per iterative node', its, d.its), ('one stopping criterion per residual node', stop, d.res), ('one update method per residual node', upd, d.res)]
            for what, q, nd in lens:
                t.prove('C13', fname, what + tag, s, mkeq(q.n, nch(nd)))
            ty = 'IterativeParamsFD' if fd else 'IterativeParams'
            if its.tm is not None:
                e = seq_at(its, i)
                for g, w in d.iter_vals(i).items():
                    getter(t, ip, qi, ty, e, g, w, fname, tag, 'of every iterative ')
                if fd:
                    getter(t, ip, qi, ty, e, 'perturbation_method', d.pm(i), fname, tag, 'of every iterative ')
            for q, g in ((stop, 'stopping_criteria'), (upd, 'update_method')):
                if q.tm is not None:
                    check_eq(t, 'C13', fname, 'the %s of every residual is the one written in its node or in the default%s' % (g, tag), qr, seq_at(q, i), d.norm(i, g))
        for n_, (k, s, v) in enumerate(pans):
            cand = list({c.get_id(): c for x in s.pc for nm, c in symbols(x).items() if c.sort() == I and nm.startswith(('t~', 'w~', 'ix'))}.values())
            w = [g for _, g in d.fixed()]
            for c in cand:
                w.append(mkimp(mkand(IntVal(0) <= c, c < nch(d.its)), mkand(*[g for _, g in d.iter_at(c)])))
                w.append(mkimp(mkand(IntVal(0) <= c, c < nch(d.res)), mkand(*[g for _, g in d.res_at(c)])))
            msg = '%s line %s' % (strip(str(v.get('fn'))).rsplit('::', 1)[-1], v.get('line')) if isinstance(v, dict) else ''
            t.prove('C13', fname, 'rejects only documents that are not well formed (panic %d)' % n_, s, mknot(mkand(*w)))
    t.group('C13', fname, 'faithful reading', f)


def getter(t, ip, st, ty, v, g, want, fname, tag, pre=''):
    for k, s, got in ip.call_fn(t.mir.find('%s::get_%s' % (ty, g)), st, [v]):
        check_eq(t, 'C13', fname, 'the %s%s is the one written%s' % (pre, g, tag), s, got, want)
