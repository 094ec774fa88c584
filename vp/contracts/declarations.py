"""Contracts: construction of components (C04) and tendencies in diagnostics (C13, part)."""
from ..spec import *
from .stubs import *

MODS = ('sympl._core.base_components',)


def per_s(u):
    return E.tmpl(('', ' s^-1'), [u])


def unit_per_s(u):
    """the unit u per second; '' is dimensionless"""
    return z3.If(u == E.lit(''), unit_term(E.lit('s^-1')), unit_term(per_s(u)))


def incompatible(p, u, v):
    """z3: output units v do not fit the input units u (strings)"""
    if p == 'tendency':
        su, tu, tv = unit_term(E.lit('s^-1')), unit_term(per_s(u)), unit_term(v)
        unit_facts(su, tv)
        unit_facts(tu, tv)
        return z3.If(u == E.lit(''), z3.Not(ucompat(su, tv)), z3.Not(ucompat(tu, tv)))
    tu, tv = unit_term(u), unit_term(v)
    unit_facts(tu, tv)
    return z3.Not(ucompat(tu, tv))


def declare(pkg, kind, name='c', focus=None):
    """focus: the dictionary which may be faulty (None: any)"""
    bc = pkg.modules['sympl._core.base_components']
    base = getattr(bc, KINDS[kind])
    P = {}
    E.assume(uvalid(E.lit('s^-1')))
    for p in ('input',) + PROPS[kind]:
        f = focus in (None, p)
        P[p] = EnvProps('%s.%s_properties' % (name, p), alias=f, units_opt=f, dims_opt=f,
                        dom=(lambda k: z3.BoolVal(False)) if E.bound and not f and p != 'input' else None)

        def pre(q, p=p, f=f):
            out = [uvalid(P[p].unit(q)), uvalid(per_s(P[p].unit(q)))]
            if not f and p != 'input':
                out.append(z3.Implies(P['input'].dom(q), z3.Not(incompatible(p, P['input'].unit(q), P[p].unit(q)))))
            return out
        P[p].pre = pre
    ns = {p + '_properties': q.d for p, q in P.items()}
    ns['array_call'] = lambda self, *a: None
    cls = type(base)('Comp', (base,), ns)
    return cls, P


def faults(P, kind, q, r, ground=True):
    """what is wrong about entries q and r (r another entry, for shared aliases), by dictionary"""
    I = P['input']
    out = {}
    for p, D in P.items():
        d = D.dom(q)
        if D.has_units is None:
            continue
        f = [('units missing', z3.And(d, z3.Not(D.has_units(q))))]
        nod = z3.And(d, z3.Not(D.has_dims(q)))
        f.append(('dims missing', nod if p == 'input' else z3.And(nod, z3.Not(I.dom(q)))))
        f.append(('alias shared', z3.And(d, D.dom(r), q != r, D.alias_has(q), D.alias_has(r), D.aliasf(q) == D.aliasf(r))))
        if p != 'input':
            u, v = I.unit(q), D.unit(q)
            if ground:
                bad = incompatible(p, u, v)
            elif p == 'tendency':
                su, tu, tv = unit_term(E.lit('s^-1')), Uof(z3.Function('fmt:{} s^-1', Str, Str)(u)), Uof(v)
                bad = z3.If(u == E.lit(''), z3.Not(ucompat(su, tv)), z3.Not(ucompat(tu, tv)))
            else:
                bad = z3.Not(ucompat(Uof(u), Uof(v)))
            f.append(('units incompatible with the input', z3.And(d, I.dom(q), bad)))
        for n, t in f:
            out['%s: %s' % (p, n)] = t
    return out


def construction(kind, focus=None):
    pkg = load(*MODS)
    Err = pkg.modules['sympl._core.exceptions'].InvalidPropertyDictError
    cls, P = declare(pkg, kind, focus=focus)
    res = outcome(cls)
    x, y = z3.Const('x!e', Str), z3.Const('y!e', Str)
    if res[0] != 'ok':
        E.prove('refused with InvalidPropertyDictError', isinstance(res[1], Err), repr(res[1]))
        fs = faults(P, kind, x, y, ground=False)
        E.prove('refused only for one of the listed faults', z3.Or(*[z3.Exists([x, y], t) for t in fs.values()]))
        E.cover('refused')
        return
    E.cover('accepted')
    k, k2 = z3.Const('K', Str), z3.Const('K2', Str)
    which = E.choose(2, 'aspect')
    if which == 0:
        order_facts(k, k2)
    else:
        loops_done_at(k)
    for n, t in faults(P, kind, k, k2).items():
        if ('alias' in n) == (which == 0):
            E.prove('accepted without fault - %s' % n, z3.Not(t))
    if which == 1:
        c = res[1]
        for p in P:
            P[p].unchanged('declaration', k)


FNS = ('%s.__init__ InputChecker.__init__ TendencyChecker.__init__ DiagnosticChecker.__init__ OutputChecker.__init__ '
       'check_overlapping_aliases get_name_with_incompatible_units get_tendency_name_with_incompatible_units')
for _k in 'TIDS':
    for _p in ('input',) + PROPS[_k]:
        def _f(k=_k, p=_p):
            construction(k, p)
        _f.__name__ = 'construction_of_%s_with_any_%s_properties' % (KINDS[_k], _p)
        contract('C04', FNS % KINDS[_k], bounded='faults in one dictionary at a time (any number of entries; all at once: thorough)')(_f)

    def _f(k=_k):
        construction(k)
    _f.__name__ = 'construction_of_' + KINDS[_k]
    contract('C04', FNS % KINDS[_k], tier='thorough')(_f)
