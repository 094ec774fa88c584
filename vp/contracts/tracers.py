"""Contracts: tracers (C17, C18) and initialised output arrays (C24), on the unmodified modules."""
from ..spec import *
from ..native import *
from .. import native
from .arrays import *
from .stubs import KINDS, PROPS
from .components import Q, Out, component, results, Token, check_raw, raw_lens, follows, wild, BC, B1, fault

TR = 'sympl._core.tracers'
TDIMS = [('tracer',), ('tracer', '*'), ('*', 'tracer'), ('x', 'tracer', '*'), ('tracer', 'x'), ('*', 'x', 'tracer')]
MAIN = {'T': 'tendency', 'I': 'tendency', 'S': 'output'}


def registry():
    """registered tracers in order, and prepended ones"""
    return pick([(('a', 'b'), ()), (('b', 'a'), ('a',)), (('b', 'a', 'c'), ('c', 'z')), ((), ('z', 'a')), (('a',), ()), (('a', 'b'), ('z',))], 'registry')


def layout(qdims):
    if '*' not in qdims:
        return [t for t in ((), ('x',)) if not set(t) - set(qdims)]
    return [t for t in (('u', 'x'), ('v', 'u'), ('u',), ('u', 'v')) if 'x' in qdims or 'x' not in t]


def tracer_call(kind, dims):
    pkg = nload(BC)
    T = pkg.modules[TR]
    reg, pre = registry()
    tdims = pick(dims, 'tracer dims')
    qdims = tuple(d for d in tdims if d != 'tracer')
    ax = tdims.index('tracer')
    order = list(pre) + [n for n in reg if n not in pre]
    lens = {d: length('n_' + d) for d in ('x', 'y', 'u', 'v')}
    qs = {}
    for i, n in enumerate(order):
        qs[n] = Q(pkg, n, qdims, pick(layout(qdims), 'dims') if i < 2 else layout(qdims)[-1], lens, units='other' if i == len(order) - 1 else 'same',
                  dtype='int64' if i == 0 and len(order) > 1 else 'float64')
    ts = [qs[n] for n in order]
    early = E.choose(2, 'registered before')
    if early:
        for n in reg:
            T.register_tracer(n, qs[n].want)
    p = Q(pkg, 'p', ('y',), ('y',), lens, alias='pa')
    plain = Out('p', None, [p], alias=None)
    main = MAIN[kind]
    E.assume(uvalid(E.lit('s^-1')))
    a, b = (uterm(p.want + ' s^-1') if main == 'tendency' else uterm(p.want)), uterm(plain.units)
    unit_facts(a, b)
    E.assume(ucompat(a, b))
    for q in ts:            # convertible (rejected otherwise)
        if q.have != q.want:
            a, b = uterm(q.have), uterm(q.want)
            unit_facts(a, b)
            E.assume(ucompat(a, b))
    outs = {o: [] for o in PROPS[kind]}
    outs[main] = [plain]
    raw = {o: {} for o in PROPS[kind]}
    raw[main]['pa'] = plain.raw
    ns = {'uses_tracers': True, 'tracer_dims': list(tdims) if early else tdims}
    if pre:
        ns['prepend_tracers'] = [(n, qs[n].want) for n in pre]
    time = Token()
    state = {n: qs[n].da for n in reversed(order)}
    state.update({'time': time, 'p': p.da})
    before = dict(state)
    dt = STd(z3.Const('dt', Real))
    touts = {}

    def compute():
        got = comp.seen[-1][0]['tracers']
        E.prove('tracers: is an array with the axes of tracer_dims', isinstance(got, ArrayModel) and got.ndim == len(tdims))
        if not isinstance(got, ArrayModel) or got.ndim != len(tdims):
            raise Unsupported('tracer array')
        E.prove('tracers: one entry per tracer', E.must(as_len(got.shape[ax]).z == len(order)))
        sl = lambda i: tuple([slice(None)] * ax + [i])
        E.ghost['packed'] = {n: got[sl(i)] for i, n in enumerate(order)}
        w = check_raw('tracers', E.ghost['packed'], ts)
        out = pkg.modules[TR].np.empty(got.shape)
        for n in order:
            touts[n] = Out(n, qdims, ts, w=w, lens={'x': 1})
            touts[n].units = qs[n].want
        for i, n in enumerate(order):
            out[sl(i)] = touts[n].raw
        r = {o: dict(v) for o, v in raw.items()}
        r[main]['tracers'] = out
        E.ghost['returned'] = r, {o: dict(v) for o, v in r.items()}
        return r
    comp = component(pkg, kind, [p], outs, compute, **ns)()
    if not early:
        for n in reg:
            T.register_tracer(n, qs[n].want)
    n = 1 + E.choose(2, 'again') if len(order) == 1 else 1
    for i in range(n):
        res = outcome(comp, state, dt) if kind in 'IS' else outcome(comp, state)
    if res[0] == 'exc' and isinstance(res[1], Unsupported):
        raise res[1]
    if res[0] != 'ok':
        E.fail('a valid call is not rejected', repr(res[1]))
        return
    E.cover('accepted')
    E.prove('state entries kept', list(state) == list(before) and all(state[k] is before[k] for k in before))
    for q in ts + [p]:
        q.unchanged()
    r, keep = E.ghost['returned']
    E.prove("the component's dictionaries kept", all(list(r[o]) == list(keep[o]) and all(r[o][k] is keep[o][k] for k in r[o]) for o in r))
    E.prove('the computation runs once per call', len(comp.seen) == n)
    raw_in = dict(comp.seen[-1][0])
    raw_in.pop('tracers', None)
    check_raw('array_call', raw_in, [p], extra=('time',))
    packed = E.ghost['packed']

    def other_order(dims):
        """another flattening order which the packed array follows just as well (lengths 1)"""
        return any(tuple(e for d in qdims for e in (o if d == '*' else (d,))) == dims and
                   follows('tracers', packed, ts, o) for o in itertools.permutations(wild(ts)))
    out = results(kind, res[1])
    E.prove('every tracer and declared quantity comes back, and nothing else', set(out[main]) == set(order) | {'p'}, sorted(out[main]))
    for n in order:
        if n not in out[main]:
            continue
        g = out[main][n]
        o = touts[n]
        want = qs[n].want if main == 'output' else qs[n].want + ' s^-1'
        E.prove('tracer: units' + ('' if main == 'output' else ' per second'),
                isinstance(g.attrs.get('units'), str) and (g.attrs['units'] == want or Uof(E.lit(g.attrs['units'])) == uterm(want)),
                '%s for %s' % (g.attrs.get('units'), want))
        o.units = g.attrs.get('units')
        o.also = other_order
        o.check('tracer', g)
    plain.check('other output', out[main]['p'])


FN = ('get_tracer_input_properties get_quantity_dims TracerPacker.__init__ TracerPacker.pack TracerPacker.unpack TracerPacker.tracer_names '
      'register_tracer get_numpy_arrays_with_properties restore_data_arrays_with_properties')
for _k in 'TIS':
    for _n, _d in enumerate((TDIMS[:3], TDIMS[3:])):
        def _f(k=_k, d=_d):
            tracer_call(k, d)
        _f.__name__ = 'tracers_of_%s_%d' % (KINDS[_k], _n + 1)
        contract('C17', '%s.__call__ %s' % (KINDS[_k], FN), bounded='up to 4 tracers of up to 3 dimensions' + B1)(_f)


def faulty_tracer_call(kind):
    """what a component with tracers returns is checked like what any other returns"""
    pkg = nload(BC)
    T = pkg.modules[TR]
    X = pkg.modules['sympl._core.exceptions']
    lens = {d: length('n_' + d) for d in ('x', 'y', 'u', 'v')}
    tq = Q(pkg, 'a', ('*',), ('u',), lens)
    p = Q(pkg, 'p', ('y',), ('y',), lens, alias='pa' if E.choose(2, 'alias') else None)
    reg = E.choose(2, 'registered')
    if reg:
        T.register_tracer('a', tq.want)
    E.assume(uvalid(E.lit('s^-1')))
    outs = {o: [Out('p', None, [p]), Out('r_' + o, ('new',), [p])] for o in PROPS[kind]}
    for o in PROPS[kind]:
        outs[o][0].units = outs[o][0].props['units'] = unit('o_p_' + o)
        a, b = (uterm(p.want + ' s^-1') if o == 'tendency' else uterm(p.want)), uterm(outs[o][0].units)
        unit_facts(a, b)
        E.assume(ucompat(a, b))
    raw = {o: {x.raw_name: x.raw for x in outs[o]} for o in PROPS[kind]}
    what = pick(['none', 'missing output', 'extra output', 'wrong shape', 'missing input', 'tracer as output'], 'fault')
    which = pick(PROPS[kind], 'faulty kind')
    x = outs[which][E.choose(2, 'which')]
    if what == 'missing output':
        del raw[which][x.raw_name]
    elif what == 'extra output':
        raw[which]['surplus'] = env_array('s', [])
    elif what == 'tracer as output':
        raw[which]['a'] = env_array('s', [lens['u']])
    elif what == 'wrong shape':
        raw[which][x.raw_name] = env_array('s', [length('k%d' % i) for i in range(2)])

    def compute():
        r = {o: dict(v) for o, v in raw.items()}
        r[MAIN[kind]]['tracers'] = comp.seen[-1][0]['tracers']
        return r
    comp = component(pkg, kind, [p], outs, compute, uses_tracers=True, tracer_dims=['tracer', '*'])()
    state = {'time': Token(), 'p': p.da, 'a': tq.da}
    if what == 'missing input':
        del state['p']
    dt = STd(z3.Const('dt', Real))
    res = outcome(comp, state, dt) if kind in 'IS' else outcome(comp, state)
    if res[0] == 'exc' and isinstance(res[1], Unsupported):
        raise res[1]
    err = {'missing output': X.ComponentMissingOutputError, 'extra output': X.ComponentExtraOutputError,
           'tracer as output': X.ComponentExtraOutputError, 'wrong shape': X.InvalidPropertyDictError,
           'missing input': X.InvalidStateError}.get(what)
    E.cover(what)
    if err:
        E.prove(about('C03', '%s: %s' % (what, err.__name__)), res[0] == 'exc' and isinstance(res[1], err), repr(res[1]))
        if what == 'missing input':
            E.prove(about('C03', 'invalid state: the computation does not run'), not comp.seen)
        return
    if res[0] != 'ok':
        E.fail('a call without fault is not rejected', repr(res[1]))
        return
    r = results(kind, res[1])
    for o in PROPS[kind]:
        E.prove('%s: every declared quantity under its name, and nothing else' % o,
                set(r[o]) == set(x.name for x in outs[o]) | ({'a'} if reg and o == MAIN[kind] else set()), sorted(r[o]))


for _k in 'TIS':
    def _f(k=_k):
        faulty_tracer_call(k)
    _f.__name__ = 'faults_with_tracers_' + KINDS[_k]
    contract('C03 C02', '%s.__call__ %s InputChecker.check_inputs TendencyChecker.check_tendencies DiagnosticChecker.check_diagnostics '
             'OutputChecker.check_outputs' % (KINDS[_k], FN), bounded='one tracer, one input, two outputs of each kind' + B1)(_f)


@contract('C17 C05', 'TracerPacker.pack TracerPacker.unpack TendencyComponent.__call__', bounded='one tracer of up to 2 dimensions, two calls' + B1)
def tracers_of_earlier_calls():
    """the array one call was given, and what it gave back, stay as they are when the next call is made"""
    pkg = nload(BC)
    T = pkg.modules[TR]
    tdims = pick([('tracer',), ('tracer', '*'), ('*', 'tracer'), ('x', 'tracer', '*')], 'tracer dims')
    qdims = tuple(d for d in tdims if d != 'tracer')
    lens = {d: length('n_' + d) for d in ('x', 'y', 'u', 'v')}
    q = Q(pkg, 'a', qdims, pick(layout(qdims), 'dims'), lens)
    T.register_tracer('a', q.want)
    E.assume(uvalid(E.lit('s^-1')))
    same = E.choose(2, 'another instance') == 0

    def compute():
        return {'tendency': {'tracers': cls.seen[-1][0]['tracers']}, 'diagnostic': {}}
    cls = component(pkg, 'T', [], {}, compute, uses_tracers=True, tracer_dims=tdims)
    comp = cls()
    time = Token()
    r1 = outcome(comp, {'time': time, 'a': q.da})
    later = quantity(pkg, 'later', q.actual, lens, attrs=q.attrs, coords=False)
    r2 = outcome(comp if same else cls(), {'time': time, 'a': later})
    for r in (r1, r2):
        if r[0] != 'ok':
            if isinstance(r[1], Unsupported):
                raise r[1]
            E.fail('a valid call is not rejected', repr(r[1]))
            return
    ax = tdims.index('tracer')
    sl = tuple([slice(None)] * ax + [0])
    check_raw('tracers given to an earlier call', {'a': cls.seen[0][0]['tracers'][sl]}, [q])
    out1, out2 = r1[1][0].get('a'), r2[1][0].get('a')
    E.prove('every tracer comes back', out1 is not None and out2 is not None)
    if out1 is None or out2 is None:
        return
    rl = raw_lens([q])
    pos = positions(rl, lens=rl)
    for label, out, src in (('earlier call', out1, 'a'), ('later call', out2, 'later')):
        E.prove('results of an %s: dims' % label, set(q.actual) <= set(out.dims) <= set(rl), '%s' % (out.dims,))
        if set(q.actual) <= set(out.dims) <= set(rl):
            check_axes('results of an %s keep their values' % label, out.values, [(d,) for d in out.dims], rl,
                       source(src, q.actual, pos), pos)
    q.unchanged()


# ------------------------------------------------------------------ the registry
OPS = [('reg', 'a', 0), ('reg', 'a', 1), ('reg', 'b', 0), ('comp', 'T', 'a', ()), ('comp', 'S', 'b', ()), ('comp', 'I', None, ('a',)),
       ('comp', 'I', 'a', ('a',)), ('comp', 'S', 'a', ('b', 'a')), ('comp', 'T', 'b', ('a',))]


def history(ops, first=None):
    pkg = nload(BC)
    T = pkg.modules[TR]
    X = pkg.modules['sympl._core.exceptions']
    us = [unit('u0'), unit('u1')]
    E.assume(uvalid(E.lit('s^-1')))
    reg, comps = [], []          # ghost: registered (name, units) in order; (own outputs, prepended) of the live components
    for step in range(ops):
        op = first if step == 0 and first else pick(OPS, 'op')
        if op[0] == 'reg':
            name, u = op[1], us[op[2]]
            old = dict(reg).get(name)
            conflict = False
            if old is not None and old != u:
                a, b = uterm(old), uterm(u)
                unit_facts(a, b)
                conflict = not E.branch(usame(a, b))
            own = any(name == o for o, p in comps)
            res = outcome(T.register_tracer, name, u)
            if conflict:
                E.prove('other units refused with ValueError', res[0] == 'exc' and isinstance(res[1], ValueError), repr(res[1]))
                E.cover('conflict')
            elif own:
                E.prove("a component's own output refused with InvalidPropertyDictError",
                        res[0] == 'exc' and isinstance(res[1], X.InvalidPropertyDictError), repr(res[1]))
                E.cover('own output')
            else:
                E.prove('valid registration accepted', res[0] == 'ok', repr(res[1]))
                if old is None:
                    reg.append((name, u))
                E.cover('registered')
        else:
            kind, own, pre = op[1:]
            o = 'q' if own is None else own
            qs = []
            outs = {p: [] for p in PROPS[kind]}
            cls = component(pkg, kind, [], outs, lambda: {}, uses_tracers=True, tracer_dims=['tracer', '*'],
                            prepend_tracers=[(n, us[0]) for n in pre],
                            **{MAIN[kind] + '_properties': {o: {'units': us[0], 'dims': ['*']}}})
            res = outcome(cls)
            if own is not None and (own in pre or own in dict(reg)):
                E.prove('tracer among its own outputs refused with InvalidPropertyDictError',
                        res[0] == 'exc' and isinstance(res[1], X.InvalidPropertyDictError), repr(res[1]))
                E.cover('component refused')
            else:
                E.prove('valid component accepted', res[0] == 'ok', repr(res[1]))
                if res[0] == 'ok':
                    comps.append((own, pre))
                    E.ghost.setdefault('live', []).append(res[1])
                E.cover('component')
        names, ud = T.get_tracer_names(), T.get_tracer_unit_dict()
        E.prove('names once each, in order of first registration', tuple(names) == tuple(n for n, _ in reg), '%s for %s' % (names, reg))
        E.prove('unit dictionary: exactly these names', set(ud) == set(n for n, _ in reg))
        for n, u in reg:
            if n in ud:
                E.prove('unit dictionary: the registered units', ud[n] == u or usame(uterm(ud[n]), uterm(u)))
        ud['added'] = 'm'
        ud.pop('a', None)


FNR = 'register_tracer get_tracer_names get_tracer_unit_dict TracerPacker.__init__ TracerPacker.ensure_tracer_not_in_outputs'
for _n in range(3):
    def _f(n=_n):
        history(4, pick(OPS[3 * n:3 * n + 3], 'first'))
    _f.__name__ = 'tracer_registry_%d' % (_n + 1)
    contract('C18', FNR, bounded='histories of 4 registrations and component creations over 2 names; units unbounded')(_f)
for _n, _o in enumerate(OPS):
    def _g(o=_o):
        history(5, o)
    _g.__name__ = 'long_tracer_registry_%d' % (_n + 1)
    contract('C18', FNR, tier='thorough', bounded='histories of 5 registrations and component creations over 2 names; units unbounded')(_g)


# ------------------------------------------------------------------ initialised arrays
def initialised():
    pkg = nload('sympl._core.init_np_arrays')
    I = pkg.modules['sympl._core.init_np_arrays']
    T = pkg.modules[TR]
    X = pkg.modules['sympl._core.exceptions']
    d1 = pick([(), ('x',), ('*',), ('x', '*'), ('y', 'x')], 'd1')
    d2 = pick([('x',), ('*', 'x'), ('y',)], 'd2')
    l1 = {d: length('n_' + d) for d in d1}
    l2 = {d: length('m_' + d) if E.choose(2, 'own') else l1.get(d, length('m_' + d)) for d in d2}
    al = E.choose(2, 'alias')
    inp = {'p': {'dims': list(d1), 'units': 'm'}, 'q': {'dims': list(d2), 'units': 'm'}}
    if al:
        inp['p']['alias'] = 'pa'
    raw = {inp['p'].get('alias', 'p'): env_array('p', [l1[d] for d in d1]), 'q': env_array('q', [l2[d] for d in d2]), 'time': Token()}
    lens = dict(l1)
    bad = False
    known = list(dict.fromkeys(d1 + d2))
    od = pick([None] + [o for o in arrangements(known, 2) if len(o) != 1 or o[0] == known[-1]], 'out dims')
    if al:
        inp['p']['dtype'] = 'int64'         # what is declared for the input does not concern the output
    outs = {'p' if od is None else 'r': {'units': 'm'}, 'a': {'units': 'm', 'dims': [known[0]]}}
    if od is not None:
        outs['r']['dims'] = list(od)
    if al:
        outs['a'].update(dtype='int32', alias='aa')
    kw, want = {}, {}
    tr = E.choose(3, 'tracers')
    reg, pre = [(), ('a', 'b'), ('b', 'c')][tr], [(), ('b', 'c', 'd'), ()][tr]
    for n in reg:
        T.register_tracer(n, unit('t'))
    if tr:
        td = pick([('tracer',), (known[0], 'tracer')], 'tracer dims')
        kw['tracer_dims'] = td
        inp['a'] = {'dims': [known[0]], 'units': 'm', 'tracer': True}
        if pre:
            kw['prepend_tracers'] = [(n, 'm') for n in pre]
    keep = {k: dict(v) for k, v in inp.items()}, {k: dict(v) for k, v in outs.items()}, dict(raw)
    res = outcome(I.initialize_numpy_arrays_with_properties, outs, raw, inp, **kw)
    for d in d2:
        if d in lens and not (lens[d] == l2[d]):
            bad = True
            break
        lens.setdefault(d, l2[d])
    E.prove('arguments kept', keep == ({k: dict(v) for k, v in inp.items()}, {k: dict(v) for k, v in outs.items()}, dict(raw)))
    if bad:
        E.prove('disagreeing lengths refused with InvalidStateError', res[0] == 'exc' and isinstance(res[1], X.InvalidStateError), repr(res[1]))
        E.cover('disagree')
        return
    if res[0] != 'ok':
        E.fail('accepted', repr(res[1]))
        return
    E.cover('accepted')
    for n, p in outs.items():
        if not (tr and n in reg + pre):
            want[n] = (tuple(p['dims']) if 'dims' in p else d1, p.get('dtype', 'float64'))
    if tr:
        want['tracers'] = (td, 'float64')
        lens['tracer'] = len(set(reg + pre))
    E.prove('one array per declared output, keyed by name', set(res[1]) == set(want), '%s for %s' % (sorted(res[1]), sorted(want)))
    for n in want:
        if n in res[1]:
            dims, dt = want[n]
            pos = positions(dims, 'z')
            check_axes('initialised', res[1][n], [(d,) for d in dims], lens, z3.RealVal(0), pos)
            E.prove('initialised: dtype', res[1][n].dtype == dt, repr(res[1][n].dtype))


contract('C24', 'initialize_numpy_arrays_with_properties get_dim_lengths_from_raw_input extract_output_dims_properties',
         bounded='two inputs and two outputs of up to 2 dimensions, up to 4 tracers; lengths (positive) unbounded')(initialised)
