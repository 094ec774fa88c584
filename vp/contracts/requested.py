"""Contracts: tendencies in diagnostics (C13)."""
from ..spec import *
from ..native import *
from .. import native
from .arrays import *
from .stubs import KINDS, PROPS, EnvProps
from .components import Q, Out, component, results, Token, check_raw, wild, BC, B1, U4

MAIN = {'T': 'tendency', 'I': 'tendency', 'S': 'output'}


def check_units(label, got, want):
    u = got.attrs.get('units')
    E.prove(label, isinstance(u, str) and (u == want or Uof(E.lit(u)) == uterm(want)), '%r for %r' % (u, want))


def requested(kind):
    pkg = nload(BC)
    lens = {d: length('n_' + d) for d in U4}
    main = MAIN[kind]
    al = E.choose(3, 'alias')
    q = Q(pkg, 'q', ('x', '*'), pick([('u', 'x'), ('v', 'u')], 'actual'), lens, alias='qa' if al == 1 else None, units=pick(['same', 'other'], 'units'))
    qs = [q]
    same = E.choose(2, 'declared dims')
    oq = Out('q', ('x', '*') if same else None, qs, alias='oa' if al == 2 else None)
    E.assume(uvalid(E.lit('s^-1')))
    if kind == 'S':
        # what is not an input becomes one: the old value is needed
        rr = Q(pkg, 'r', ('*', 'y'), pick([('u', 'y'), ('y',)], 'actual r') if len(q.actual) == 2 and q.actual[1] == 'x' else ('v',), lens)
        rr.want = None
    allqs = qs + ([rr] if kind == 'S' else [])
    orr = Out('r', ('*', 'y') if kind == 'S' else ('*', 'new'), allqs, alias='ra' if al == 2 else None, lens={'y': 1})
    if kind == 'S':
        oq = Out('q', ('x', '*') if same else None, allqs, alias='oa' if al == 2 else None, lens={'x': 1})
        oq.units = oq.props['units'] = q.want if E.choose(2, 'units of the input') else unit('o_q')
        rr.want = orr.units
        rr.have = orr.units
        rr.da.attrs['units'] = rr.attrs['units'] = orr.units
    dg = Out('g', ('*',), allqs)
    outs = {main: [oq, orr], 'diagnostic': [dg]}
    for o in (oq,):
        a, b = (uterm(q.want + ' s^-1') if main == 'tendency' else uterm(q.want)), uterm(o.units)
        unit_facts(a, b)
        E.assume(ucompat(a, b))
    if q.have != q.want:
        a, b = uterm(q.have), uterm(q.want)
        unit_facts(a, b)
        E.assume(ucompat(a, b))
    raw = {o: {x.raw_name: x.raw for x in l} for o, l in outs.items()}
    cls = component(pkg, kind, qs, outs, lambda: raw)
    names = ('input_properties', main + '_properties', 'diagnostic_properties')
    decl = {n: {k: dict(v) for k, v in getattr(cls, n).items()} for n in names}
    given, how, first = pick([(None, 'class', 0), ('nm', 'class', 1), ('nm', 'subclass', 0), (None, 'subclass', 1)], 'other instance')
    sub = type(cls)('Sub', (cls,), {}) if how == 'subclass' else cls
    other = sub() if first else None
    c = outcome(cls, tendencies_in_diagnostics=True, **({'name': given} if given else {}))
    if c[0] != 'ok':
        X = pkg.modules['sympl._core.exceptions']
        a, b = uterm(oq.units), uterm(q.want)
        E.prove('refused only for other units (no difference exists)', kind == 'S' and oq.units != q.want and
                isinstance(c[1], X.InvalidPropertyDictError) and E.must(z3.Not(usame(a, b))), repr(c[1]))
        E.cover('refused')
        return
    comp = c[1]
    other = other or sub()
    E.prove('declarations of the class kept', decl == {n: {k: dict(v) for k, v in getattr(cls, n).items()} for n in names})
    E.prove('declarations of the other instance kept', decl == {n: {k: dict(v) for k, v in getattr(other, n).items()} for n in names})
    time = Token()
    state = {'time': time, 'q': q.da}
    if kind == 'S':
        state['r'] = rr.da
    dt = STd(z3.Const('dt', Real))
    E.assume(dt.t != 0)
    before = dict(state)
    run = lambda c: outcome(c, state, dt) if kind in 'IS' else outcome(c, state)
    if first:
        run(other)
    res = run(comp)
    if res[0] != 'ok':
        E.fail('call', repr(res[1]))
        return
    E.cover('call')
    r = results(kind, res[1])
    label = given or 'Comp'
    tn = {o.name: '%s_tendency_from_%s' % (o.name, label) for o in (oq, orr)}
    E.prove('diagnostics: the declared ones and one per declared quantity', set(r['diagnostic']) == {'g'} | set(tn.values()), sorted(r['diagnostic']))
    E.prove('%ss unchanged by the request' % main, set(r[main]) == {'q', 'r'})
    dg.check('diagnostic', r['diagnostic']['g'])
    for o in (oq, orr):
        if o.name not in r[main] or tn[o.name] not in r['diagnostic']:
            continue
        o.check(main, r[main][o.name])
        g = r['diagnostic'][tn[o.name]]
        if kind != 'S':
            o.check('requested tendency', g)
            continue
        old = q if o is oq else rr
        check_units('requested tendency: declared units per second', g, o.units + ' s^-1')
        E.prove('requested tendency: dims', g.dims == o.full, '%s for %s' % (g.dims, o.full))
        if g.dims != o.full:
            continue
        pos = positions(o.full, 'o', o.lens)
        ov = old.value(pos) if old is q and o.units == q.want else source(old.name, old.actual, pos)
        if old is q and o.units != q.want:
            hv = source('q', q.actual, pos)
            ov = conv(uterm(q.have), uterm(q.want), hv) if q.have != q.want else hv
        check_axes('requested tendency', g.values, [(d,) for d in o.full], o.lens,
                   (source(o.name + '.raw', o.full, pos) - ov) / dt.t, pos)
    res2 = run(other)
    if res2[0] != 'ok':
        E.fail('call of the other instance', repr(res2[1]))
        return
    r2 = results(kind, res2[1])
    E.prove('nothing added for another instance', set(r2['diagnostic']) == {'g'}, sorted(r2['diagnostic']))
    E.prove('same results of another instance', set(r2[main]) == {'q', 'r'})
    E.prove('state entries kept', list(state) == list(before) and all(state[k] is before[k] for k in before))
    q.unchanged()


for _k in 'TIS':
    def _f(k=_k):
        requested(k)
    _f.__name__ = 'requested_tendencies_of_' + KINDS[_k]
    contract('C13', '{0}.__init__ {0}.__call__ {0}._insert_tendency_properties {0}._insert_tendencies_to_diagnostics {0}._get_tendency_name '
             'ensure_instance_has_own_properties get_alias_or_name'.format(KINDS[_k]), bounded='two outputs of up to 3 dimensions' + B1)(_f)


# ------------------------------------------------------------------ TendencySteppers (any dictionaries, any scheme)
def stepper_requested(asked):
    from .steppers import stub_component
    pkg = load('sympl._core.base_components', 'sympl._core.tendencystepper')
    base = pkg.modules['sympl._core.tendencystepper'].TendencyStepper
    DA = pkg.modules['sympl._core.dataarray'].DataArray
    st = State('s', DA)
    outp = EnvProps('out')
    inp = EnvProps('in')
    odom = outp.dom
    new = EnvDA('new', [Str], DA, dims=st.da.dims)
    ndom = fn('news.dom', Str, Bool)
    diag = EnvDA('diag', [Str], DA)
    gdom = fn('diags.dom', Str, Bool)
    tname = lambda q: E.tmpl(('', '_tendency_from_nm'), [q])

    def pre(q):
        # a stepper gives new values for its outputs, which are among its inputs and in the state
        b, s, n = unit_term(inp.unit(q)), unit_term(st.units(q)), unit_term(new.unit(q))
        unit_facts(s, b)
        o = unit_term(outp.unit(q))
        unit_facts(n, b)
        unit_facts(o, b)
        return [z3.Implies(odom(q), z3.And(inp.dom(q), st.has(q), ndom(q), uvalid(inp.unit(q)), uvalid(st.units(q)), uvalid(new.unit(q)), uvalid(outp.unit(q)), uvalid(outp.unit(q)),
                                           ucompat(s, b), ucompat(n, b), ucompat(o, b), z3.Not(gdom(tname(q))))), q != E.lit('time')]
    outp.pre = pre
    inp.pre = None
    news = EnvDict('news', [], lambda a, k: new.at(k), dom=ndom)
    diags = EnvDict('diags', [], lambda a, k: diag.at(k), dom=gdom)
    calls = []

    class Scheme(base):
        input_properties = inp.d
        output_properties = outp.d
        diagnostic_properties = VDict()

        def _call(self, state, timestep):
            calls.append((state, timestep))
            return diags.dict(), news.dict()
    kw = {'name': 'nm'}
    if asked:
        kw['tendencies_in_diagnostics'] = True
    c = outcome(Scheme, stub_component(pkg, 'c', st.has), **kw)
    if c[0] != 'ok':
        E.fail('construction', repr(c[1]))
        return
    dt = STd(z3.Const('dt', Real))
    E.assume(dt.t != 0)
    k = z3.Const('K', Str)
    E.assume(k != E.lit('time'))
    for t in pre(k):
        E.assume(t)
    res = outcome(c[1], st.d, dt)
    if res[0] != 'ok':
        E.fail('call returns', repr(res[1]))
        return
    E.cover('call')
    E.prove('the scheme runs once on the given state and timestep', len(calls) == 1 and conj(same_value(calls[0][0], st.d), same_value(calls[0][1], dt)))
    d, ns = res[1]
    v = get(d, tname(k))
    if asked and E.branch(odom(k)):
        b = inp.unit(k)
        exp = (conv(unit_term(new.unit(k)), unit_term(b), new.val(k)) - conv(unit_term(st.units(k)), unit_term(b), st.val(k))) / dt.t
        prove_da('requested tendency', v, DA, exp)
        if is_da(v):
            u = units_of(v)
            want = E.tmpl(('', ' s^-1'), [b])
            E.assume(z3.Implies(b == E.lit(''), unit_term(E.lit('s^-1')) == unit_term(want)))
            E.prove('requested tendency: declared units per second', u is not None and z3.Or(u == want, unit_term(u) == unit_term(want)))
        E.cover('requested')
    else:
        E.prove('no other tendency added', v is ABSENT if not E.branch(gdom(tname(k))) else same_value(v, diag.at(tname(k))))
    other = z3.Const('other', Str)
    x = z3.Const('x', Str)
    if asked:
        E.assume(z3.ForAll([x], other != z3.Function('fmt:{}_tendency_from_nm', Str, Str)(x)))
    g = get(d, other)
    if E.branch(gdom(other)):
        E.prove('diagnostics of the scheme kept', same_value(g, diag.at(other)))
    else:
        E.prove('nothing else added', g is ABSENT)
    prove_state_unchanged('state', st)
    w = get(ns, k)
    if E.branch(ndom(k)):
        E.prove('new values kept', same_value(w, new.at(k)))
        prove_unchanged_da('new state', new, k)


for _n, _a in (('asked', True), ('not_asked', False)):
    def _f(a=_a):
        stepper_requested(a)
    _f.__name__ = 'tendency_stepper_' + _n
    contract('C13', 'TendencyStepper.__call__ TendencyStepper._insert_tendencies_to_diagnostics TendencyStepper._get_tendency_name copy_untouched_quantities')(_f)


def real_stepper(which):
    pkg = nload(BC, 'sympl._components.timesteppers')
    TS = pkg.modules['sympl._components.timesteppers']
    lens = {'x': length('n_x')}
    E.assume(z3.And(uvalid(E.lit('s^-1')), uvalid(E.lit('s'))))
    q = Q(pkg, 'q', ('x',), ('x',), lens, units='other')
    oq = Out('q', None, [q])
    declared = E.choose(2, 'an input')
    qs = [q] if declared else []
    p = Q(pkg, 'p', ('x',), ('x',), lens)
    if not declared:
        oq = Out('q', ('x',), [q])
    dg = Out('g', ('x',), [q])
    raw = {'tendency': {oq.raw_name: oq.raw}, 'diagnostic': {'g': dg.raw}}
    # units: state h_q, declared input w_q, tendency o_q; all describe the same kind of quantity
    us = [uterm(q.have), uterm(q.want), models.ubase(uterm(oq.units + ' s'))]
    for a in us:
        for b in us:
            unit_facts(a, b)
            E.assume(ucompat(a, b))
    for a in (q.have, q.want):
        x, y = uterm(oq.units), uterm(a + ' s^-1')
        unit_facts(x, y)
        E.assume(ucompat(x, y))
    comp = component(pkg, 'T', qs + [p], {'tendency': [oq], 'diagnostic': [dg]}, lambda: {k: dict(v) for k, v in raw.items()})()
    kw = {'tendencies_in_diagnostics': True} if E.choose(2, 'asked') else {}
    given = pick([None, 'nm'], 'name')
    if given:
        kw['name'] = given
    cls = {'AB': TS.AdamsBashforth, 'LF': TS.Leapfrog, 'RK': TS.SSPRungeKutta}[which]
    if which == 'AB':
        kw['order'] = 1
    elif which == 'RK':
        kw['stages'] = 2
    s = outcome(cls, comp, **kw)
    if s[0] != 'ok':
        E.fail('construction', repr(s[1]))
        return
    tn = 'q_tendency_from_' + (given or cls.__name__)
    asked = 'tendencies_in_diagnostics' in kw
    E.prove('declared diagnostics', set(s[1].diagnostic_properties) == ({'g', tn} if asked else {'g'}))
    dt = STd(z3.Const('dt', Real))
    E.assume(dt.t != 0)
    state = {'time': Token(), 'q': q.da, 'p': p.da}
    res = outcome(s[1], state, dt)
    if res[0] != 'ok':
        E.fail('call', repr(res[1]))
        return
    E.cover('call')
    diag, new = res[1]
    E.prove('diagnostics', set(diag) == ({'g', tn} if asked else {'g'}), sorted(diag))
    if asked and tn in diag:
        g = diag[tn]
        u = g.attrs.get('units')
        bases = [b for b in (q.want, s[1].output_properties['q']['units']) if u in (b + ' s^-1', b + ' s**-1')]
        E.prove('requested tendency: declared units per second', len(bases) == 1 or len(set(bases)) == 1, '%r' % u)
        if bases:
            E.prove('requested tendency: units as declared', isinstance(s[1].diagnostic_properties[tn].get('units'), str))
            b = uterm(bases[0])
            pos = positions(('x',), 'o', lens)
            n = new['q']
            nv = conv(uterm(n.attrs['units']), b, n.values.elem([pos['x']]))
            ov = conv(uterm(q.have), b, source('q', ('x',), pos))
            check_axes('requested tendency', g.values, [('x',)], lens, (nv - ov) / dt.t, pos)


for _w, _n in (('AB', 'AdamsBashforth'), ('LF', 'Leapfrog'), ('RK', 'SSPRungeKutta')):
    def _f(w=_w):
        real_stepper(w)
    _f.__name__ = 'requested_tendencies_of_' + _n
    contract('C13', 'TendencyStepper.__init__ TendencyStepper.__call__ TendencyStepper.input_properties TendencyStepper.output_properties '
             'TendencyStepper.diagnostic_properties TendencyStepper._tendency_properties %s._call' % _n, bounded='one quantity of one dimension' + B1)(_f)
