"""Contracts: construction of components in every configuration (C04): tracers, tendencies in diagnostics, a name,
property dictionaries on the class, on the instance, computed or inherited; on the unmodified modules."""
from ..spec import *
from ..native import *
from .arrays import *
from .stubs import KINDS, PROPS
import itertools
from .components import Q, Out, component, results, Token, check_raw, order_of, BC, B1, U4
from .tracers import TR, MAIN

HOW = ['class', 'instance', 'property', 'inherited']
FEAT = ['plain', 'tendencies in diagnostics', 'tracers', 'prepended tracers', 'name', 'all']
FAULTS = ['none', 'no units', 'no dims', 'alias', 'units']


def configured(kind, p):
    pkg = nload(BC)
    T = pkg.modules[TR]
    X = pkg.modules['sympl._core.exceptions']
    E.assume(uvalid(E.lit('s^-1')))
    main = MAIN.get(kind)
    feat = pick(FEAT, 'feature') if main else 'plain'
    how = pick(HOW, 'declared')
    what = pick(FAULTS, 'fault')
    U = {n: unit('u_' + n) for n in ('q', 'r', 't', 'i')}
    for u in U.values():
        E.assume(uvalid(u.t if hasattr(u, 't') else E.lit(u)))

    def per(u, o):
        return u + ' s^-1' if o == 'tendency' else u
    D = {'input': {'q': {'dims': ['x'], 'units': U['q']}, 'i': {'dims': ['*'], 'units': U['i'], 'alias': 'ia'}}}
    for o in PROPS[kind]:
        D[o] = {'q': {'units': per(U['q'], o)}, 'r_' + o: {'dims': ['x'], 'units': U['r'], 'alias': 'ra'}}
    d = D[p]
    if kind == 'S' and feat in ('tendencies in diagnostics', 'all') and p == 'output' and what == 'units':
        return          # any difference in units is refused then (C13)
    bad = None
    last = 'i' if p == 'input' else 'r_' + p
    which = pick(['q', last], 'entry')
    if what == 'no units':
        del d[which]['units']
        bad = True
    elif what == 'no dims':
        d[which].pop('dims', None)
        bad = p == 'input' or which != 'q'
    elif what == 'alias':
        a = pick(['ia', 'q'], 'alias') if p == 'input' else pick(['ra', 'q', last], 'alias')
        d['q']['alias'] = a
        d[last]['alias'] = pick([a, 'another'], 'other alias')
        bad = d[last]['alias'] == a
    elif what == 'units':
        if p == 'input':
            return
        d['q']['units'] = unit('v')
        a, b = uterm(per(U['q'], p)), uterm(d['q']['units'])
        unit_facts(a, b)
        bad = not E.branch(ucompat(a, b))
    if what == 'none' or not bad:
        bad = False
    if E.choose(2, 'order'):
        D[p] = dict(reversed(list(d.items())))
    kw = {}
    if feat in ('tendencies in diagnostics', 'all'):
        kw['tendencies_in_diagnostics'] = True
    if feat in ('name', 'all'):
        kw['name'] = 'given'
    ns = {}
    if feat in ('tracers', 'prepended tracers', 'all'):
        ns = {'uses_tracers': True, 'tracer_dims': ['tracer', '*']}
        T.register_tracer('t1', U['t'])
        if feat != 'tracers':
            ns['prepend_tracers'] = [('t0', U['t'])]
    props = {n + '_properties': v for n, v in D.items()}
    base = component(pkg, kind, [], {}, lambda: {}, **ns)
    if how == 'class':
        cls = type(base)('C', (base,), props)
    elif how == 'inherited':
        cls = type(base)('C', (type(base)('B', (base,), props),), {})
    elif how == 'property':
        cls = type(base)('C', (base,), {n: property(lambda self, v=v: {k: dict(w) for k, w in v.items()}) for n, v in props.items()})
    else:
        blank = type(base)('B', (base,), {n: None for n in props})

        def init(self, **k):
            for n, v in props.items():
                setattr(self, n, v)
            super(cls, self).__init__(**k)
        cls = type(base)('C', (blank,), {'__init__': init})
    for n in range(2 if what == 'none' else 1):
        res = outcome(cls, **kw)
        if bad:
            E.prove('refused with InvalidPropertyDictError: %s' % what,
                    res[0] == 'exc' and isinstance(res[1], X.InvalidPropertyDictError), repr(res[1]))
            E.cover('refused')
        else:
            E.prove('accepted', res[0] == 'ok', repr(res[1]))
            E.cover('accepted')


for _k in 'TIDS':
    for _p in ('input',) + PROPS[_k]:
        def _f(k=_k, p=_p):
            configured(k, p)
        _f.__name__ = 'configured_%s_with_faults_in_%s' % (KINDS[_k], _p)
        contract('C04', '%s.__init__ InputChecker.__init__ TendencyChecker.__init__ DiagnosticChecker.__init__ OutputChecker.__init__ '
                 'check_overlapping_aliases get_name_with_incompatible_units get_tendency_name_with_incompatible_units' % KINDS[_k],
                 bounded='two entries in each dictionary; units unbounded')(_f)


# ------------------------------------------------------------------ calls with several features at once
COMBOS = [  # tendencies in diagnostics, name, tracers, alias, declared, dims repeated in the outputs, other instance
    (1, 'nm', 1, 'both', 'class', 0, 'before'), (1, None, 1, None, 'instance', 1, 'after'), (0, 'nm', 1, 'input', 'inherited', 1, 'after'),
    (1, 'nm', 0, 'input', 'inherited', 0, None), (0, None, 1, 'both', 'property', 0, None), (1, None, 0, 'output', 'instance', 0, 'before'),
    (1, None, 1, 'input', 'class', 1, None), (1, 'nm', 0, 'both', 'class', 1, 'after'), (0, None, 0, 'both', 'instance', 0, 'before'),
    (1, 'nm', 1, 'output', 'inherited', 0, 'after'), (1, None, 1, 'both', 'instance', 0, None), (0, 'nm', 0, 'output', 'property', 1, 'after'),
    (1, None, 0, 'crossed', 'class', 1, None), (1, 'nm', 1, 'crossed', 'instance', 0, 'before'), (0, None, 0, 'crossed', 'inherited', 0, None)]


def declared_as(pkg, kind, how, cls, props):
    """a component class with these dictionaries, on top of cls"""
    if how == 'class':
        return type(cls)('Comp', (cls,), props)
    if how == 'inherited':
        return type(cls)('Comp', (type(cls)('B', (cls,), props),), {})
    if how == 'property':
        return type(cls)('Comp', (cls,), {n: property(lambda self, v=v: {k: dict(w) for k, w in v.items()}) for n, v in props.items()})
    blank = type(cls)('B', (cls,), {n: None for n in props})

    def init(self, **k):
        for n, v in props.items():
            setattr(self, n, {a: dict(b) for a, b in v.items()})
        super(c, self).__init__(**k)
    c = type(cls)('Comp', (blank,), {'__init__': init})
    return c


def mixed_call(kind, combos):
    pkg = nload(BC)
    T = pkg.modules[TR]
    E.assume(uvalid(E.lit('s^-1')))
    tid, name, tracers, alias, how, dims, other = pick(combos, 'features')
    main = MAIN[kind]
    lens = {d: length('n_' + d) for d in U4}
    q = Q(pkg, 'q', ('x', '*'), pick([('u', 'x'), ('v', 'x', 'u')], 'actual'), lens, alias='qa' if alias in ('input', 'both') else None,
          units=pick(['same', 'other'], 'units'))
    rq = Q(pkg, 'r', ('*', 'x'), ('x', 'u'), lens)
    tq = Q(pkg, 'a', ('*',), ('u',), lens, units='other')
    qs = [q, rq]
    O = {}
    oa = alias in ('output', 'both')
    # crossed: the alias of each output is the name of another quantity
    al = {'q': 'r', 'r': 'q', 'g': 'q'} if alias == 'crossed' else {'q': 'oa', 'r': 'ra', 'g': 'ga'} if oa else {}
    O[main] = [Out('q', ('x', '*') if dims else None, qs, alias=al.get('q')), Out('r', ('*', 'x'), qs, alias=al.get('r'))]
    O['diagnostic'] = [Out('g', ('*', 'new'), qs, alias=al.get('g'))]
    for o, z in zip(O[main], qs):
        if kind == 'S':          # a difference is computed: the declared units are those of the input
            o.units = o.props['units'] = z.want
        else:
            a, b = uterm(z.want + ' s^-1'), uterm(o.units)
            unit_facts(a, b)
            E.assume(ucompat(a, b))
    for z in qs + [tq]:
        if z.have != z.want:
            a, b = uterm(z.have), uterm(z.want)
            unit_facts(a, b)
            E.assume(ucompat(a, b))
    ns, tout = {}, Out('a', ('*',), [tq], w=('u',))
    if tracers:
        T.register_tracer('a', tq.want)
        ns = {'uses_tracers': True, 'tracer_dims': ['tracer', '*']}
    box = {}

    def compute():
        got = base.seen[-1][0]
        w = order_of('array_call', got, qs)
        for l in O.values():
            for x in l:
                if w != x.w:
                    x.set_raw(w)
        r = {o: {x.raw_name: x.raw for x in l} for o, l in O.items()}
        if tracers:
            t = got['tracers']
            E.prove(about('C17', 'tracers: one entry, one axis of the wildcard'), isinstance(t, ArrayModel) and t.ndim == 2 and
                    E.must(as_len(t.shape[0]).z == 1))
            if not isinstance(t, ArrayModel) or t.ndim != 2:
                raise Unsupported('tracer array')
            check_raw('tracers', {'a': t[0]}, [tq])
            out = pkg.modules[TR].np.empty(t.shape)
            out[0] = tout.raw
            r[main]['tracers'] = out
        box['r'] = r, {o: dict(v) for o, v in r.items()}
        return r
    base = component(pkg, kind, [], {}, compute, **ns)
    props = {'input_properties': {z.name: z.props for z in qs}}
    props.update({o + '_properties': {x.name: x.props for x in l} for o, l in O.items()})
    decl = {n: {k: dict(w) for k, w in v.items()} for n, v in props.items()}
    cls = declared_as(pkg, kind, how, base, props)
    kw = dict({'tendencies_in_diagnostics': True} if tid else {}, **({'name': name} if name else {}))
    kw2 = {} if tid else {'tendencies_in_diagnostics': True, 'name': 'other'}
    sib = cls(**kw2) if other == 'before' else None
    c = outcome(cls, **kw)
    if c[0] != 'ok':
        E.fail('construction', repr(c[1]))
        return
    comp = c[1]
    sib = cls(**kw2) if other == 'after' else sib
    time = Token()
    state = {'time': time, 'q': q.da, 'r': rq.da, 'a': tq.da}
    before = dict(state)
    dt = STd(z3.Const('dt', Real))
    E.assume(dt.t != 0)
    run = lambda c: outcome(c, state, dt) if kind in 'IS' else outcome(c, state)
    if sib is not None:
        run(sib)
    del base.seen[:]
    res = run(comp)
    if res[0] == 'exc' and isinstance(res[1], Unsupported):
        raise res[1]
    if res[0] != 'ok':
        E.fail(about('C01 C02 C03 C13 C17', 'a valid call is not rejected'), repr(res[1]))
        return
    E.cover('accepted')
    E.prove(about('C05', 'state entries kept'), list(state) == list(before) and all(state[k] is before[k] for k in before))
    for z in qs + [tq]:
        z.unchanged()
    E.prove(about('C01 C02 C03 C17', 'the computation runs once per call'), len(base.seen) == 1)
    if len(base.seen) != 1:
        return
    raw_in = dict(base.seen[0][0])
    E.prove(about('C17 C01', 'tracers given exactly to components which use them'), ('tracers' in raw_in) == bool(tracers))
    raw_in.pop('tracers', None)
    E.prove(about('C01', 'the computation gets the time of the state'), raw_in.get('time') is time)
    check_raw('array_call', raw_in, qs, extra=('time',))
    r, keep = box['r']
    E.prove(about('C05', "the component's dictionaries kept"), all(list(r[o]) == list(keep[o]) and all(r[o][k] is keep[o][k] for k in r[o]) for o in r))
    E.prove(about('C05 C13', 'the declarations kept'), decl == props)
    out = results(kind, res[1])
    tn = {x.name: '%s_tendency_from_%s' % (x.name, name or 'Comp') for x in O[main]} if tid else {}
    E.prove(about('C02 C17', 'every declared quantity and tracer, and nothing else'), set(out[main]) == {'q', 'r'} | ({'a'} if tracers else set()), sorted(out[main]))
    also = {'a_tendency_from_' + (name or 'Comp')} if tracers and tid and kind != 'S' else set()     # not specified
    E.prove(about('C13 C02', 'diagnostics: the declared and the requested ones'), set(out['diagnostic']) - also == {'g'} | set(tn.values()), sorted(out['diagnostic']))
    for o, l in O.items():
        for x in l:
            if x.name in out[o]:
                x.check(o, out[o][x.name])
            if o == main and tn.get(x.name) in out['diagnostic']:
                g = out['diagnostic'][tn[x.name]]
                if kind != 'S':
                    x.check('requested tendency', g)
                    continue
                want = x.units + ' s^-1'
                u = g.attrs.get('units')
                E.prove(about('C13', 'requested tendency: declared units per second'), isinstance(u, str) and (u == want or Uof(E.lit(u)) == uterm(want)))
                E.prove(about('C13', 'requested tendency: dims'), g.dims == x.full, '%s for %s' % (g.dims, x.full))
                if g.dims == x.full:
                    pos = positions(x.full, 'o', x.lens)
                    old = [z for z in qs if z.name == x.name][0]
                    check_axes('requested tendency', g.values, [(d,) for d in x.full], x.lens,
                               (source(x.name + '.raw', x.full, pos) - old.value(pos)) / dt.t, pos)
    if tracers and 'a' in out[main]:
        tout.units = tq.want if main == 'output' else out[main]['a'].attrs.get('units')
        want = tq.want if main == 'output' else tq.want + ' s^-1'
        E.prove(about('C17', 'tracer: units'), isinstance(tout.units, str) and (tout.units == want or Uof(E.lit(tout.units)) == uterm(want)))
        tout.check('tracer', out[main]['a'])


for _k in 'TIS':
    def _f(k=_k):
        mixed_call(k, COMBOS)
    _f.__name__ = 'combined_features_of_' + KINDS[_k]
    contract('C13 C01 C02 C03 C05 C17', '{0}.__init__ {0}.__call__ {0}._insert_tendency_properties {0}._insert_tendencies_to_diagnostics '
             'TracerPacker.pack TracerPacker.unpack get_numpy_arrays_with_properties restore_data_arrays_with_properties'.format(KINDS[_k]),
             bounded='15 combinations of features; two inputs and three outputs of up to 3 dimensions, one tracer' + B1)(_f)
