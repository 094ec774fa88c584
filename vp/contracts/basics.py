"""Contracts: constant and relaxation components (C27)."""
from ..spec import *
from ..native import *
from .. import native
from .arrays import *
from .components import Q, Token, check_raw, wild, follows, raw_lens, B1, BC
from .requested import check_units

BAS = 'sympl._components.basic'


def check_given(label, got, want, pkg, lens):
    """got: exactly the quantities of want = {name: (dims, units)}"""
    E.prove(label + ': exactly the given quantities', set(got) == set(want), sorted(got))
    for n, (dims, units) in want.items():
        g = got.get(n)
        E.prove(label + ': is a quantity', isinstance(g, XDataArray))
        if not isinstance(g, XDataArray):
            continue
        E.prove(label + ': units', g.attrs.get('units') == units)
        E.prove(label + ': dims', g.dims == dims, '%s for %s' % (g.dims, dims))
        if g.dims == dims:
            pos = positions(dims, 'c', lens)
            check_axes(label, g.values, [(d,) for d in dims], lens, source(label + n, dims, pos), pos)


def constant(kind):
    pkg = nload(BC, BAS)
    B = pkg.modules[BAS]
    lens = {d: length('n_' + d) for d in 'xyz'}
    E.assume(uvalid(E.lit('s^-1')))
    arr = [(), ('x',), ('y', 'x'), ('x', 'z', 'y')]
    give = {}
    what = ['diagnostic'] if kind == 'D' else ['tendency', 'diagnostic']
    for w in what:
        if w == 'diagnostic' and kind == 'T' and E.choose(3, 'diagnostics') == 0:
            continue
        give[w] = {n: (pick(arr if n == 'p' else arr[:3], 'dims'), unit('u_' + w + n)) for n in pick([('p',), ('q', 'p'), ()], 'names')}
    das = {w: {n: quantity(pkg, w + n, d, lens, u) for n, (d, u) in l.items()} for w, l in give.items()}
    if kind == 'D':
        comp = B.ConstantDiagnosticComponent(das['diagnostic'])
    elif 'diagnostic' in das:
        comp = B.ConstantTendencyComponent(das['tendency'], das['diagnostic'])
    else:
        comp = B.ConstantTendencyComponent(das['tendency'])
    state = {'time': Token()}
    if E.choose(2, 'state'):
        state['p'] = quantity(pkg, 'sp', ('x', 'w'), {'x': length('other'), 'w': 2}, 'm')
    for n in range(2):
        res = outcome(comp, state)
        if res[0] != 'ok':
            E.fail('call', repr(res[1]))
            return
        r = {'diagnostic': res[1]} if kind == 'D' else dict(zip(what, res[1]))
        E.cover('call')
        for w in what:
            check_given(w, r[w], give.get(w, {}), pkg, lens)
        for w in what:          # the caller may use its results as it likes
            for x in r[w].values():
                x.values[...] = 1.5
                x.attrs['units'] = 'changed'
            r[w].clear()
    for w, l in give.items():
        for n, (d, u) in l.items():
            unchanged('given', das[w][n], w + n, d, lens, {'units': u})


for _k, _n in (('T', 'ConstantTendencyComponent'), ('D', 'ConstantDiagnosticComponent')):
    def _f(k=_k):
        constant(k)
    _f.__name__ = 'constant_' + _n
    contract('C27', '{0}.__init__ {0}.array_call {0}.tendency_properties {0}.diagnostic_properties copy_quantities'.format(_n),
             bounded='up to two quantities of each kind, up to 3 dimensions' + B1)(_f)


@contract('C27', 'RelaxationTendencyComponent.__init__ RelaxationTendencyComponent.array_call RelaxationTendencyComponent.input_properties '
          'RelaxationTendencyComponent.tendency_properties TendencyComponent.__call__', bounded='quantities of up to 2 dimensions' + B1)
def relaxation():
    pkg = nload(BC, BAS)
    B = pkg.modules[BAS]
    lens = {d: length('n_' + d) for d in 'xy'}
    E.assume(z3.And(uvalid(E.lit('s^-1')), uvalid(E.lit('s'))))
    arr = arrangements('xy', 2)
    given = unit('w')
    E.assume(Uof(E.lit('')) != Uof(E.lit('w')))
    qs = []
    for n, name in enumerate(('q', 'equilibrium_q', 'q_relaxation_timescale')):
        q = Q(pkg, name, ('*',), pick(arr if n == 0 else [(), ('x',), ('y', 'x')][:4 - n], 'dims'), lens, units='other')
        q.want = given if n < 2 else 's'
        if n and E.choose(2, 'same units') == 0:
            q.have = q.attrs['units'] = q.da.attrs['units'] = q.want
        qs.append(q)
        if q.have != q.want:
            a, b = uterm(q.have), uterm(q.want)
            unit_facts(a, b)
            E.assume(ucompat(a, b))
    # the tendency is declared in units which fit those of the quantity
    a, b = uterm('w s^-1'), models.umul(uterm('w'), models.uinv(uterm('s')))
    E.assume(models.uinv(Uof(E.lit('s'))) == Uof(E.lit('s^-1')))
    comp = outcome(B.RelaxationTendencyComponent, 'q', given)
    if comp[0] != 'ok':
        E.fail('construction', repr(comp[1]))
        return
    state = {'time': Token()}
    state.update({q.name: q.da for q in qs})
    before = dict(state)
    res = outcome(comp[1], state)
    if res[0] != 'ok':
        E.fail('call', repr(res[1]))
        return
    E.cover('call')
    tend, diag = res[1]
    E.prove('one tendency, no diagnostics', set(tend) == {'q'} and not diag)
    g = tend.get('q')
    if not isinstance(g, XDataArray):
        E.fail('is a quantity')
        return
    check_units('tendency: in the units per second', g, 'w s^-1')
    w = wild(qs)
    E.prove('tendency: dims of the inputs', sorted(g.dims) == sorted(w), '%s for %s' % (g.dims, w))
    if sorted(g.dims) != sorted(w):
        return
    pos = positions(w, lens=lens)
    x, e, t = [q.value(pos) for q in qs]
    E.assume(t != 0)
    check_axes('tendency: (equilibrium - value) / timescale', g.values, [(d,) for d in g.dims], lens, (e - x) / t, pos)
    E.prove('state entries kept', list(state) == list(before) and all(state[k] is before[k] for k in before))
    for q in qs:
        unchanged('state', q.da, q.name, q.actual, q.lens, q.attrs)
