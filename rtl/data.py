"""C17 C18 C19 C20 C23 C24 C26 C27: tracers, units, constants, array utilities, datetime, basic components."""
from .base import *
from sympl import (
    register_tracer, get_tracer_names, get_tracer_unit_dict, units_are_same, units_are_compatible, get_constant, set_constant,
    reset_constants, set_condensible_name, get_numpy_array, restore_dimensions, initialize_numpy_arrays_with_properties,
    ConstantTendencyComponent, ConstantDiagnosticComponent, RelaxationTendencyComponent, is_valid_unit)
from sympl._core.tracers import TracerPacker

TRN = ['tr_a', 'cloud_ice', 'vapor', 'ozone', 'dust', 'aa', 'zz', 'm', 'tracer']


class TracerWorld(object):
    def __init__(self, r, kinds='TIS'):
        self.kind = r.choice(kinds)
        self.L = lengths(r)
        self.units = {}
        names = r.sample(TRN, r.randint(0, 4))
        self.reg = []
        early = r.randint(0, len(names))
        pre = r.sample(TRN, r.randint(0, 2))
        for n in set(names) | set(pre):
            ud = pick_dim(r)
            self.units[n] = pick_unit(r, ud, offset=False, odd=False)
        self.udim = {n: unit_of(u)[0] for n, u in self.units.items()}
        named = r.some(['x', 'y', 'z'], 0, 2)
        wild = r.flip(0.6)
        self.qdims = r.perm(named + (['*'] if wild else []))
        td = list(self.qdims)
        td.insert(r.randint(0, len(td)), 'tracer')
        self.tdims = td if r.flip() else tuple(td)
        self.wpool = r.some(['lat', 'lon', 'm'], 0, 2) if wild else []
        for n in names[:early]:
            register_tracer(n, self.units[n])
            self.reg.append(n)
        self.pre = [(n, self.units[n]) for n in pre]
        extra = {'uses_tracers': True, 'tracer_dims': self.tdims}
        if pre or r.flip():
            extra['prepend_tracers'] = self.pre
        self.fn = lambda raw: raw['tracers'] * 2.0 + 1.0
        self.seen = []
        self.other = r.flip()
        inputs = {'plain': {'dims': ['x'], 'units': 'm'}} if self.other else {}
        main = OUTS[self.kind][0]
        outs = {main: {'plain': {'units': 'm s^-1' if main == 'tendency' else 'm'}}} if self.other else {}

        def compute(raw, dt):
            self.seen.append(raw)
            o = {'tracers': self.fn(raw)}
            if self.other:
                o['plain'] = raw['plain'] * 3.0
            return {main: o, 'diagnostic': {}}
        self.comp = make_class(self.kind, inputs, outs, compute, extra)()
        for n in names[early:]:
            register_tracer(n, self.units[n])
            self.reg.append(n)
        self.names = [n for n, _ in self.pre] + [n for n in self.reg if n not in pre]
        st = {'time': timedelta(0)}
        for n in self.names:
            have = [d for d in self.qdims if d != '*' and r.flip(0.85)] + [d for d in self.wpool if r.flip(0.85)]
            dt = r.choice([float, float, float, 'i8', 'f4', 'i4'])
            st[n] = rand_da(r, r.perm(have), self.L, self.units[n] if dt == 'f4' or dt != float and r.flip() else pick_unit(r, self.udim[n], odd=False, offset=False),
                            dt)
        if self.other:
            st['plain'] = rand_da(r, ['x'], self.L, 'm')
        self.state = dict(r.perm(st.items()))
        self.known = {d: k for n in self.names for d, k in zip(self.state[n].dims, self.state[n].shape)}
        self.wild = []
        for n in self.names:
            for d in self.state[n].dims:
                if d not in self.qdims and d not in self.wild:
                    self.wild.append(d)
        r.note('kind', self.kind, 'tracers', self.names, self.units, 'tracer_dims', self.tdims)
        r.note('state', {k: (v.dims, v.shape, dict(v.attrs)) for k, v in self.state.items() if k != 'time'})

    def full(self, order):
        out = []
        for d in self.qdims:
            out += list(order) if d == '*' else [d]
        return out

    def quantity(self, n, order, flat=True):
        v = self.state[n]
        src = convert(v.values, v.attrs['units'], self.units[n])
        full = self.full(order)
        shape = [self.known.get(d, 1) for d in full]
        out = np.empty(shape)
        for idx in np.ndindex(*shape):
            at = dict(zip(full, idx))
            out[idx] = src[tuple(at[d] for d in v.dims)]
        if not flat:
            return out
        fs = [int(np.prod([self.known[w] for w in order])) if d == '*' else self.known.get(d, 1) for d in self.qdims]
        return out.reshape(fs)


def flat(w, vals, order):
    fs = [int(np.prod([w.known[k] for k in order])) if d == '*' else w.known.get(d, 1) for d in w.qdims]
    return vals.reshape(fs)


@case('C17', 3)
def tracers_packed(r):
    w = TracerWorld(r)
    if r.flip(0.4):
        w.fn = lambda raw: np.array(raw['tracers'])
    dt = timedelta(seconds=10)
    before = snapshot(w.state)
    if not w.names:
        w.fn = lambda raw: raw['tracers']
    res = must_work('call of a tracer component', invoke, w.comp, w.kind, w.state, dt)
    check_snapshot('call', before, w.state)
    raw = w.seen[-1]['tracers']
    ax = list(w.tdims).index('tracer')
    if not w.names:
        need(raw.shape[ax] == 0, 'no tracers, but the array has shape %s', raw.shape)
        return
    need(raw.shape[ax] == len(w.names), 'tracer axis of %s, %d tracers', raw.shape, len(w.names))
    orders = []
    for order in itertools.permutations(w.wild):
        if all(np.take(raw, i, axis=ax).shape == w.quantity(n, order).shape and close(np.take(raw, i, axis=ax), w.quantity(n, order))
               for i, n in enumerate(w.names)):
            orders.append(order)
    need(orders, 'the packed array %s is not the tracers %s in order', raw.tolist() if raw.size < 60 else raw.shape, w.names)
    main = OUTS[w.kind][0]
    out = res[main]
    need(set(out) == set(w.names) | ({'plain'} if w.other else set()), '%s: %s', main, sorted(out))
    computed = np.asarray(w.fn({'tracers': raw}))
    for i, n in enumerate(w.names):
        u = w.units[n] if main == 'output' else per_time(w.units[n])
        gu = out[n].attrs.get('units')
        need(gu == u or gu == w.units[n] + ' s^-1', 'tracer %s has units %r, expected %r', n, gu, u)
        sl = np.take(computed, i, axis=ax)
        ok = False
        for order in orders:
            full = w.full(order)
            if list(out[n].dims) == full and out[n].shape == tuple(w.known.get(d, 1) for d in full) and \
                    np.array_equal(flat(w, out[n].values, order), sl):
                ok = True
        need(ok, 'tracer %s came back with dims %s values %s, slice %s', n, out[n].dims, out[n].values, sl)


@case('C17', 1)
def pack_unpack_roundtrip(r):
    w = TracerWorld(r)
    p = getattr(w.comp, '_tracer_packer', None)
    if not w.names or p is None:
        return
    arr = must_work('pack', p.pack, w.state)
    keep = arr.copy()
    back = must_work('unpack', p.unpack, arr, w.state)
    need(np.array_equal(keep, arr), 'unpack changed the array')
    need(set(back) == set(w.names), 'unpacked %s', sorted(back))
    for n in w.names:
        need(back[n].attrs.get('units') == w.units[n], 'units of %s: %r', n, back[n].attrs.get('units'))
        v = w.state[n]
        c = convert(v.values, v.attrs['units'], w.units[n])
        # every element of the original, at every place of the filled dims
        for idx in np.ndindex(*back[n].shape):
            at = dict(zip(back[n].dims, idx))
            need(abs(back[n].values[idx] - c[tuple(at[d] for d in v.dims)]) <= 1e-9 * (1 + abs(back[n].values[idx])),
                 'tracer %s is not returned unchanged', n)


@case('C17 C05', 1)
def tracers_given_earlier_survive(r):
    w = TracerWorld(r)
    if not w.names:
        return
    w.fn = lambda raw: raw['tracers']        # the array itself
    dt = timedelta(seconds=10)
    kept = []
    for i in range(r.randint(2, 3)):
        st = {k: (v.copy(data=v.values + 1.5 * i) if hasattr(v, 'attrs') else v) for k, v in w.state.items()}
        before = snapshot(st)
        res = must_work('call of a tracer component', invoke, w.comp, w.kind, st, dt)
        raw = w.seen[-1]['tracers']
        kept.append((st, before, res, copy.deepcopy(res), raw, np.array(raw)))
    for i, (st, before, res, resc, raw, rawc) in enumerate(kept):
        check_snapshot('later calls', before, st)
        need(deep_equal(res, resc), 'a later call changed the tracers given back by call %s', i)
        need(np.array_equal(raw, rawc), 'a later call changed the tracer array given to call %s', i)


@case('C17', 1)
def two_tracer_components(r):
    """packers do not disturb each other, tracers registered between calls appear for both"""
    sympl_names = r.sample(TRN, 3)
    comps = []
    for i in range(2):
        td = r.perm(['tracer', '*'])
        comps.append(make_class('T', {}, {}, lambda raw, dt: {'tendency': {'tracers': raw['tracers'] * (i + 2.0)}},
                                {'uses_tracers': True, 'tracer_dims': td})())
        comps[-1].td = td
    reg = []
    st = {'time': timedelta(0)}
    for n in sympl_names:
        register_tracer(n, 'm')
        reg.append(n)
        st[n] = rand_da(r, ['x'], {'x': 3}, 'm')
        for c in comps:
            t, d = must_work('call', c, st)
            raw = c.seen[-1][0]['tracers']
            ax = c.td.index('tracer')
            need(raw.shape[ax] == len(reg), 'tracer axis has length %d for %d tracers', raw.shape[ax], len(reg))
            for i, m in enumerate(reg):
                need(np.array_equal(np.take(raw, i, axis=ax), st[m].values), 'tracer %d is not %s', i, m)
            need(set(t) == set(reg), 'tendencies for %s', sorted(t))


@case('C18', 3)
def registry_history(r):
    names, units = [], {}
    comps = []
    owned = set()
    for n in range(r.randint(1, 10)):
        op = r.choice(['reg', 'reg', 'reg', 'comp'])
        if op == 'reg':
            name = r.choice(TRN)
            u = units.get(name) if name in units and r.flip(0.4) else pick_unit(r, r.choice(['temp', 'none', 'len']), odd=False)
            before = (get_tracer_names(), get_tracer_unit_dict())
            conflict = name in units and not same_unit(units[name], u)
            taken = name in owned
            r.note('register', name, u, 'conflict', conflict, 'taken', taken)
            if taken and not conflict:
                must_raise(InvalidPropertyDictError, 'registering %s, an output of a tracer component' % name, register_tracer, name, u)
            elif conflict:
                must_raise(ValueError, 'registering %s again with other units' % name, register_tracer, name, u)
            else:
                must_work('register', register_tracer, name, u)
                if name not in units:
                    names.append(name)
                    units[name] = u
            if taken or conflict:
                need((get_tracer_names(), get_tracer_unit_dict()) == before, 'a refused registration changed the registry')
        else:
            k = r.choice('TIS')
            main = OUTS[k][0]
            own = r.some(TRN, 0, 2)
            pre = [(x, units.get(x, 'm')) for x in r.some(TRN, 0, 2)]
            uses = r.flip(0.8)
            extra = {'uses_tracers': True, 'tracer_dims': ('tracer', '*'), 'prepend_tracers': pre} if uses else {}
            ins = {x: {'dims': [], 'units': 'm'} for x in own + ['other'] if r.flip(0.3)}
            units_of = 'm s^-1' if main == 'tendency' else 'm'
            cls = make_class(k, ins, {main: {x: {'dims': [], 'units': units_of} for x in own}}, None, extra)
            bad = uses and (set(own) & (set(names) | {x for x, _ in pre}))
            r.note('component', own, pre, uses, 'bad', bool(bad))
            if bad:
                must_raise(InvalidPropertyDictError, 'a tracer component with tracers %s among its own outputs' % sorted(bad), cls)
            else:
                comps.append(must_work('component', cls))
                if uses:
                    owned |= set(own)
        need(tuple(get_tracer_names()) == tuple(names), 'names %s, registered %s', get_tracer_names(), names)
        d = get_tracer_unit_dict()
        need(set(d) == set(names) and all(same_unit(d[x], units[x]) for x in names), 'unit dict %s, registered %s', d, units)
        d['intruder'] = 'm'
        need('intruder' not in get_tracer_unit_dict(), 'get_tracer_unit_dict exposes the registry')
        if names and r.flip(0.2):
            d[names[0]] = 'intruder'
            need(get_tracer_unit_dict().get(names[0]) != 'intruder', 'get_tracer_unit_dict exposes the registry')


# ------------------------------------------------------------------ C19
EXTRA = ['degrees_E', 'degree_north', 'degrees_east', 'degreeN', 'degreesE', '%', u'°', 'percent', 'degree']


FRAGMENTS_OF = [source_fragments('units.py'), source_fragments('dataarray.py')]


@case('C19', 3)
def conversions(r):
    dim = pick_dim(r)
    a, b = pick_unit(r, dim), pick_unit(r, dim)
    L = lengths(r)
    dims = r.some(DIMNAMES, 0, 3)
    coords = r.flip(0.3)
    v = rand_da(r, dims, L, a, r.choice([float, float, 'f4', 'i8']), **({'long_name': 'x', 'n': 3} if r.flip() else {}))
    if coords and dims:
        v.coords[dims[0]] = np.arange(L[dims[0]]) * 10.
    r.note('convert', a, b, v.dims, v.values.tolist())
    before = snapshot({'v': v})
    out = must_work('conversion', v.to_units, b)
    check_snapshot('to_units', before, {'v': v})
    tol = 1e-9 if v.dtype != 'f4' else 1e-5
    exp = convert(v.values, a, b)
    need(close(out.values, exp, tol), '%s -> %s: %s, expected %s', a, b, out.values, exp)
    need(tuple(out.dims) == tuple(v.dims), 'dims %s', out.dims)
    attrs = dict(v.attrs)
    attrs['units'] = a if same_unit(a, b) else b
    need(dict(out.attrs) == attrs or (same_unit(a, b) and dict(out.attrs) == dict(attrs, units=a)), 'attributes %s, expected %s', dict(out.attrs), attrs)
    need(isinstance(out, DataArray), 'type %r', type(out))
    if coords and dims:
        need(dims[0] in out.coords and np.array_equal(out.coords[dims[0]].values, v.coords[dims[0]].values), 'coordinates lost')
    back = must_work('conversion back', out.to_units, a)
    if v.dtype != 'f4' or dim != 'temp':
        need(close(back.values, v.values, max(tol, 1e-6 if dim == 'temp' else tol)), 'there and back %s, started from %s', back.values, v.values)
    if out is not v and out.values.size:
        if out.values.flags.writeable and not np.shares_memory(out.values, v.values):
            out.values[...] = 0
            check_snapshot('writing to the result', before, {'v': v})
    if r.flip(0.2):         # attributes are only attributes
        pool = r.choice(FRAGMENTS_OF)
        extra = {k: r.choice(pool + ['degC']) for k in (pool if r.flip() else r.some(pool))}
        extra['units'] = a
        v2 = DataArray(v.values.copy(), dims=v.dims, attrs=extra)
        out2 = must_work('conversion with other attributes', v2.to_units, b)
        need(close(out2.values, exp, tol), '%s -> %s with attributes %s: %s, expected %s', a, b, extra, out2.values, exp)
        need(dict(v2.attrs) == extra, 'the attributes of the given array were changed')
        need({k: x for k, x in out2.attrs.items() if k != 'units'} == {k: x for k, x in extra.items() if k != 'units'}, 'attributes were changed')
    bad = other_dim_unit(r, a)
    must_raise(ValueError, 'conversion of %r to %r' % (a, bad), v.to_units, bad)
    check_snapshot('a refused conversion', before, {'v': v})
    del v.attrs['units']
    must_raise(KeyError, 'conversion without units', v.to_units, b)


@case('C19', 2)
def unit_predicates(r):
    us = sorted(UNITS)
    a = r.choice(us)
    b = r.choice(us + [u for u in us if UNITS[u][0] == UNITS[a][0]] * 3)
    if r.flip(0.25):
        a, b = per_time(pick_unit(r, UNITS[a][0], offset=False), 's^-1'), per_time(pick_unit(r, UNITS[a][0], offset=False), r.choice(sorted(TIMES)))
    r.note('units', a, b)
    comp = vec(unit_of(a)[0]) == vec(unit_of(b)[0])
    ua, ub = unit_of(a), unit_of(b)
    same = comp and ua[1:] == ub[1:]
    if {ua[0].split('/')[0], ub[0].split('/')[0]} == {'angle', 'none'}:
        return
    if 'degC' in (a, b) and not same and comp:
        same = False
    try:
        ss = (units_are_same(a, b), units_are_same(b, a))
        cc = (units_are_compatible(a, b), units_are_compatible(b, a))
    except Exception as e:
        raise Violation('predicate on %r and %r raised %s: %s' % (a, b, type(e).__name__, e))
    need(ss[0] == ss[1], 'units_are_same(%r, %r) is not symmetric', a, b)
    need(cc[0] == cc[1], 'units_are_compatible(%r, %r) is not symmetric', a, b)
    need(cc[0] == comp, 'units_are_compatible(%r, %r) is %s', a, b, cc[0])
    if abs(ua[1] - ub[1]) > 1e-12 * abs(ua[1]) or ua[1] == ub[1]:
        need(ss[0] == same, 'units_are_same(%r, %r) is %s', a, b, ss[0])


# ------------------------------------------------------------------ C20
CMAP = {'gas_constant_of_vapor_phase': 'gas_constant_of_%s_vapor',
        'heat_capacity_of_vapor_phase': 'heat_capacity_of_%s_vapor_at_constant_pressure',
        'specific_enthalpy_of_vapor_phase': 'specific_enthalpy_of_%s_vapor',
        'density_of_liquid_phase': 'density_of_liquid_%s', 'heat_capacity_of_liquid_phase': 'heat_capacity_of_liquid_%s',
        'latent_heat_of_vaporization': 'latent_heat_of_vaporization_of_%s',
        'freezing_temperature_of_liquid_phase': 'freezing_temperature_of_liquid_%s',
        'thermal_conductivity_of_liquid_phase': 'thermal_conductivity_of_liquid_%s',
        'latent_heat_of_fusion': 'latent_heat_of_fusion_of_%s', 'density_of_solid_phase_as_ice': 'density_of_solid_%s_as_ice',
        'density_of_solid_phase_as_snow': 'density_of_solid_%s_as_snow',
        'heat_capacity_of_solid_phase_as_ice': 'heat_capacity_of_solid_%s_as_ice',
        'heat_capacity_of_solid_phase_as_snow': 'heat_capacity_of_solid_%s_as_snow',
        'thermal_conductivity_of_solid_phase_as_ice': 'thermal_conductivity_of_solid_%s_as_ice',
        'thermal_conductivity_of_solid_phase_as_snow': 'thermal_conductivity_of_solid_%s_as_snow'}
CALIAS = {'latent_heat_of_condensation': 'latent_heat_of_vaporization', 'enthalpy_of_fusion': 'latent_heat_of_fusion',
          'stellar_irradiance': 'solar_constant', 'heat_capacity_of_ice': 'heat_capacity_of_solid_phase_as_ice',
          'heat_capacity_of_snow': 'heat_capacity_of_solid_phase_as_snow',
          'thermal_conductivity_of_ice': 'thermal_conductivity_of_solid_phase_as_ice',
          'thermal_conductivity_of_snow': 'thermal_conductivity_of_solid_phase_as_snow',
          'density_of_ice': 'density_of_solid_phase_as_ice', 'density_of_snow': 'density_of_solid_phase_as_snow'}
PLAIN = {'gravitational_acceleration': ('m s^-2', 9.80665), 'planetary_radius': ('m', 6.371e6), 'solar_constant': ('W m^-2', 1367.),
         'speed_of_light': ('m s^-1', 299792458.), 'density_of_liquid_water': ('kg m^-3', 1e3),
         'gas_constant_of_water_vapor': ('J kg^-1 K^-1', 461.5), 'latent_heat_of_vaporization_of_water': ('J kg^-1', 2.5e6),
         'seconds_per_day': ('', 86400.), 'density_of_solid_water_as_ice': ('kg m^-3', 916.7)}


@case('C20', 3)
def constants_history(r):
    reset_constants()
    cond = ['water']
    values = {n: (u, get_constant(n, u)) for n, (u, v) in PLAIN.items()}
    start = dict(values)
    for n, (u, v) in PLAIN.items():
        need(abs(values[n][1] - v) <= 1e-2 * abs(v), 'constant %s is %s %s', n, values[n][1], u)

    def resolve(n):
        for _ in range(5):
            if n in CALIAS:
                n = CALIAS[n]
            elif n in CMAP:
                n = CMAP[n] % cond[0]
            else:
                break
        return n
    for step in range(r.randint(1, 12)):
        op = r.choice(['set', 'set', 'set', 'bad', 'cond', 'reset', 'get'])
        pool = sorted(PLAIN) + sorted(CALIAS) + sorted(CMAP) + ['user_a', 'user_b', 'density_of_liquid_methane', 'latent_heat_of_fusion_of_methane']
        if op == 'set':
            n = r.choice(pool)
            d = r.choice(['len', 'pres', 'none', 'len/t', 'flux'])
            u, v = pick_unit(r, d, offset=False, odd=False), r.choice([r.uniform(-5, 5), 3, 1e9, 0.])
            must_work('set_constant', set_constant, n, v, u)
            values[resolve(n)] = (u, float(v))
            r.note('set', n, v, u)
        elif op == 'bad':
            must_raise(ValueError, 'an invalid unit', set_constant, r.choice(pool), 2., r.choice(['not_a_unit', 'm^', '(((', 'kg florps^-1']))
        elif op == 'cond':
            cond[0] = r.choice(['methane', 'water', 'carbon_dioxide'])
            must_work('set_condensible_name', set_condensible_name, cond[0])
            r.note('condensible', cond[0])
        elif op == 'reset':
            must_work('reset_constants', reset_constants)
            values = dict(start)
            cond[0] = 'water'
            r.note('reset')
        for n in pool:
            t = resolve(n)
            if t in values:
                u, v = values[t]
                got = must_work('get_constant(%r)' % n, get_constant, n, u)
                need(close(got, v, 1e-12), 'get_constant(%r, %r) is %s, last set to %s', n, u, got, v)
                if u in UNITS:
                    d = UNITS[u][0]
                    u2 = pick_unit(r, d, offset=False, odd=False)
                    need(close(get_constant(n, u2), convert(v, u, u2)), 'get_constant(%r, %r) is %s, set to %s %s', n, u2, get_constant(n, u2), v, u)
            elif n.startswith('user') or 'methane' in t or 'carbon' in t:
                need(raises(KeyError, get_constant, n, 'm'), 'constant %s exists although it was never set', n)


# ------------------------------------------------------------------ C23
@case('C23', 3)
def array_roundtrip(r):
    L = lengths(r, lo=0 if r.flip(0.15) else 1)
    dims = r.some(DIMNAMES, 0, 4)
    v = rand_da(r, dims, L, 'm', r.choice([float, 'f4', 'i8']))
    for d in dims:
        if r.flip(0.4):
            v.coords[d] = np.array(r.perm(range(L[d]))) * 1.5
    named = r.some(dims)
    rest = [d for d in dims if d not in named]
    star = bool(rest) or r.flip(0.4)
    out = r.perm(named + (['*'] if star else []))
    lacking = [d for d in ('x', 'y', 'z') if d not in dims and r.flip(0.15)]
    for d in lacking:
        out.insert(r.randint(0, len(out)), d)
    r.note('dims', dims, 'out', out, 'shape', v.shape)
    before = snapshot({'v': v})
    a = must_work('get_numpy_array', get_numpy_array, v, out)
    check_snapshot('get_numpy_array', before, {'v': v})
    full = []
    for d in out:
        full += rest if d == '*' else [d]
    exp = v.transpose(*[d for d in full if d in dims]).values
    fs = [int(np.prod([L[k] for k in rest])) if d == '*' else (L[d] if d in dims else 1) for d in out]
    exp = exp.reshape(fs)
    need(a.shape == exp.shape and np.array_equal(a, exp), 'array is %s, expected %s', a, exp)
    back = must_work('restore_dimensions', restore_dimensions, np.array(a), out, v)
    need(tuple(back.dims) == tuple(v.dims), 'restored dims %s, original %s', back.dims, v.dims)
    need(np.array_equal(back.values, v.values), 'restored values %s, original %s', back.values, v.values)
    for d in dims:
        need((d in back.coords) == (d in v.coords) or True, '')
        need(np.array_equal(back.coords[d].values if d in back.coords else np.arange(L[d]),
                            v.coords[d].values if d in v.coords else np.arange(L[d])), 'coordinate %s changed', d)
    a2, m = must_work('with matches', get_numpy_array, v, out, return_wildcard_matches=True)
    need(list(m.get('*', [])) == (rest if star and dims or star and out else []) or not (v.shape or out), 'wildcard matches %s, expected %s', m, rest)
    if a.size:
        must_raise(Exception, 'an array of another size', restore_dimensions, np.zeros(a.size + 1), out, v)


@case('C23', 1)
def array_refusals(r):
    L = lengths(r)
    dims = r.some(DIMNAMES, 1, 4)
    v = rand_da(r, dims, L, 'm')
    if r.flip():
        # a dimension not provided for
        out = r.perm(r.some(dims, 0, len(dims) - 1))
        must_raise(Exception, 'dims %s, out dims %s' % (dims, out), get_numpy_array, v, out)
    else:
        miss = r.choice([d for d in DIMNAMES + ['nowhere', 'xy', 'yz', 'zz'] if d not in dims and d not in ('x', 'y', 'z')] or ['nowhere'])
        out = r.perm(list(dims) + [miss])
        must_raise(Exception, 'dims %s, out dims %s' % (dims, out), get_numpy_array, v, out)
        must_raise(Exception, 'restoring dims %s, out dims %s' % (dims, out), restore_dimensions, np.zeros([1] * len(out)), out, v)


# ------------------------------------------------------------------ C24
@case('C24', 3)
def initialised_arrays(r):
    d = Decl(r, n_in=r.randint(1, 4))
    order = r.choice(d.wild_orders())
    raw = {d.inputs[n].get('alias', n): d.expected_input(n, order) for n in d.inputs}
    lens = {}
    for n, p in d.inputs.items():
        for k, l in zip(p['dims'], raw[p.get('alias', n)].shape):
            if lens.setdefault(k, l) != l:
                return
    outs, exp = {}, {}
    ntr = r.sample(TRN, r.randint(0, 3))
    for n in ntr:
        register_tracer(n, 'm')
    use_tr = r.flip(0.4)
    pre = [(n, 'm') for n in r.some(TRN, 0, 2)] if use_tr else []
    trs = set(ntr) | {n for n, _ in pre}
    for n in r.some(list(d.inputs)) + r.some(['o1', 'o2', 'o3']) + r.some(TRN, 0, 2):
        p = {'units': 'm'}
        if n in d.inputs and r.flip():
            dims = d.inputs[n]['dims']
        else:
            dims = r.perm(r.some([k for k in lens]))
            p['dims'] = dims
        dt = None
        if r.flip(0.3):
            dt = p['dtype'] = r.choice([np.float32, np.int64, bool, 'f4'])
        if r.flip(0.2):
            p['alias'] = 'oa_' + n
        if n in d.inputs and r.flip(0.2):
            d.inputs[n]['dtype'] = r.choice([np.float32, np.int64, bool])       # says nothing of the output
        outs[n] = p
        if not use_tr or n not in trs:
            exp[n] = (tuple(lens[k] for k in dims), np.dtype(dt or np.float64))
    kw = {}
    if use_tr:
        td = r.some([k for k in lens], 0, 2)
        td.insert(r.randint(0, len(td)), 'tracer')
        kw = {'tracer_dims': td}
        if pre or r.flip():
            kw['prepend_tracers'] = pre
        exp['tracers'] = (tuple(len(trs) if k == 'tracer' else lens[k] for k in td), np.dtype(np.float64))
    r.note('raw', {k: v.shape for k, v in raw.items()}, 'inputs', d.inputs, 'outputs', outs, kw, 'registered', ntr)
    keep = copy.deepcopy((outs, d.inputs))
    res = must_work('initialize_numpy_arrays_with_properties', initialize_numpy_arrays_with_properties, outs, raw, d.inputs, **kw)
    need(keep == (outs, d.inputs), 'the property dictionaries were changed')
    need(set(res) == set(exp), 'arrays for %s, expected %s', sorted(res), sorted(exp))
    for n, (shape, dt) in exp.items():
        need(res[n].shape == shape, '%s has shape %s, expected %s', n, res[n].shape, shape)
        need(res[n].dtype == dt, '%s has dtype %s, expected %s', n, res[n].dtype, dt)
        need(not np.any(res[n]), '%s is not zero', n)
    ids = [id(x) for x in res.values()]
    need(len(set(ids)) == len(ids), 'two outputs share an array')
    if r.flip(0.5):
        touched = r.flip()
        if touched:
            for x in res.values():
                x[...] = 1
        res2 = must_work('another call', initialize_numpy_arrays_with_properties, outs, raw, d.inputs, **kw)
        need(set(res2) == set(exp), 'arrays for %s, expected %s', sorted(res2), sorted(exp))
        for n, (shape, dt) in exp.items():
            need(res2[n].shape == shape and res2[n].dtype == dt and not np.any(res2[n]), 'another call: %s is %s', n, res2[n])
            need(not any(np.shares_memory(res2[n], x) for x in res.values()), 'two calls give the same array for %s', n)
        for x in res2.values():
            x[...] = 1
        need(touched or not any(np.any(x) for x in res.values()), 'writing to the arrays of one call changed those of another')
    shared = [(n, m, k) for n in d.inputs for m in d.inputs if n < m for k in d.inputs[n]['dims'] if k in d.inputs[m]['dims']]
    if shared:
        n, m, k = r.choice(shared)
        a = d.inputs[n].get('alias', n)
        sh = list(raw[a].shape)
        sh[list(d.inputs[n]['dims']).index(k)] += 1
        raw2 = dict(raw)
        raw2[a] = np.zeros(sh)
        must_raise(InvalidStateError, 'inputs that disagree on %s' % k, initialize_numpy_arrays_with_properties, outs, raw2, d.inputs, **kw)


# ------------------------------------------------------------------ C26
CALS = {'proleptic_gregorian': None, 'all_leap': 'DatetimeAllLeap', '366_day': 'DatetimeAllLeap', 'no_leap': 'DatetimeNoLeap',
        'noleap': 'DatetimeNoLeap', '365_day': 'DatetimeNoLeap', '360_day': 'Datetime360Day', 'julian': 'DatetimeJulian',
        'gregorian': 'DatetimeGregorian'}


@case('C26', 3)
def datetimes(r):
    import cftime
    from datetime import timezone
    cal = r.choice(sorted(CALS))
    spelled = r.choice([cal, cal.upper(), cal.title()])
    f = dict(year=r.choice([1, 1582, 1900, 2000, 2001, 2016, r.randint(1600, 2400)]), month=r.randint(1, 12), day=r.randint(1, 28))
    if r.flip(0.3):
        f['day'] = {'all_leap': 29, '366_day': 29, '360_day': 30}.get(cal, 28)
        f['month'] = 2
    if f['year'] == 1582:
        f['month'] = r.randint(1, 9)     # ten days of October 1582 do not exist in the mixed calendar
    given = {}
    for k, hi in (('hour', 23), ('minute', 59), ('second', 59), ('microsecond', 999999)):
        if r.flip(0.7):
            given[k] = r.randint(0, hi)
    kw = dict(given)
    if cal != 'proleptic_gregorian' or r.flip():
        kw['calendar'] = spelled
    tz = None
    if r.flip(0.2):
        tz = kw['tzinfo'] = r.choice([timezone.utc, timezone(timedelta(hours=5))])
    r.note('datetime', f, kw)
    if tz is not None and cal != 'proleptic_gregorian':
        must_raise(Exception, 'a time zone with calendar %s' % cal, sympl.datetime, f['year'], f['month'], f['day'], **kw)
        return
    got = must_work('datetime', sympl.datetime, f['year'], f['month'], f['day'], **kw)
    for k in ('hour', 'minute', 'second', 'microsecond'):
        f[k] = given.get(k, 0)
    for k, v in f.items():
        need(getattr(got, k) == v, '%s is %s, requested %s', k, getattr(got, k), v)
    if CALS[cal] is None:
        need(type(got) is datetime, 'type %r', type(got))
        need(got.tzinfo == tz, 'tzinfo %r', got.tzinfo)
    else:
        need(type(got) is getattr(cftime, CALS[cal]), 'calendar %s gives %r', cal, type(got))
    pos = must_work('positional', sympl.datetime, f['year'], f['month'], f['day'], f['hour'], f['minute'], f['second'], f['microsecond'], tz, spelled)
    need(pos == got and type(pos) is type(got), 'positional arguments give %r', pos)


@case('C26', 0.5)
def unsupported_calendars(r):
    known = sorted(CALS)
    base = r.choice(known)
    like = r.choice([base + 'x', 'x' + base, base[:-1], base + ' ' + base, base[1:], base + '_calendar', base.replace('_', '-'), base[::-1]])
    if like in known or like == 'standard':
        return
    cal = like if r.flip() else r.choice(['', 'mayan', 'gregoriann', '365', 'noleap_', 'leap', 'standard_', ' julian', 'proleptic', 'utc', '360day'])
    try:
        v = sympl.datetime(2000, 1, 1, calendar=cal)
    except Exception:
        return
    raise Violation('calendar %r gives %r' % (cal, v))


# ------------------------------------------------------------------ C27
@case('C27', 2)
def constant_components(r):
    L = lengths(r)
    def qs(tend):
        out = {}
        for n in r.sample(NAMES, r.randint(0, 3)):
            u = tend_unit(r, pick_dim(r)) if tend else pick_unit(r, pick_dim(r))
            out[n] = rand_da(r, r.some(DIMNAMES, 0, 2), L, u, r.choice([float, float, 'f4', 'i8']))
        return out
    which = r.choice('TD')
    tend, diag = qs(True), qs(False)
    given = (tend, diag)
    keep = copy.deepcopy(given)
    if which == 'T':
        comp = must_work('construction', ConstantTendencyComponent, tend, diag) if r.flip() or diag else must_work('construction', ConstantTendencyComponent, tend)
    else:
        comp = must_work('construction', ConstantDiagnosticComponent, diag)
    for i in range(3):
        st = {'time': timedelta(seconds=i)}
        for n in r.some(NAMES, 0, 3):
            st[n] = rand_da(r, r.some(DIMNAMES, 0, 2), lengths(r), 'm')
        res = must_work('call', comp, st)
        t, d = res if which == 'T' else ({}, res)
        for got, exp in ((t, keep[0] if which == 'T' else {}), (d, keep[1])):
            need(set(got) == set(exp), 'returned %s, configured %s', sorted(got), sorted(exp))
            for n in exp:
                need(tuple(got[n].dims) == tuple(exp[n].dims) and got[n].attrs.get('units') == exp[n].attrs['units'] and
                     np.array_equal(got[n].values, exp[n].values), '%s is %s, configured %s', n, got[n], exp[n])
                # the caller may do anything with what it got, and with what it gave
                if got[n].values.size:
                    got[n].values[...] = 99
                got[n].attrs['units'] = 'spoiled'
        if r.flip():
            for q in list(tend.values()) + list(diag.values()):
                if q.values.size:
                    q.values[...] = 77


@case('C27', 2)
def relaxation(r):
    dim = r.choice(['temp', 'len', 'pres', 'len/t', 'none', 'flux'])
    u = pick_unit(r, dim, offset=False, odd=False)
    name = r.choice(NAMES)
    L = lengths(r)
    dims = r.some(DIMNAMES, 0, 3)
    def q(un, dd=None, positive=False):
        dd = dims if dd is None else dd
        v = rand_da(r, r.perm(dd), L, un)
        if positive:
            v.values[...] = np.abs(v.values) + 0.5
        return v
    tu = pick_unit(r, 'time')
    sub = r.flip(0.3)
    st = {'time': timedelta(0), name: q(pick_unit(r, dim, odd=False)),
          'equilibrium_' + name: q(pick_unit(r, dim, odd=False), r.some(dims) if sub else None),
          name + '_relaxation_timescale': q(tu, r.some(dims) if sub else None, True)}
    comp = must_work('construction', RelaxationTendencyComponent, name, u)
    r.note('relaxation', name, u, {k: (v.dims, v.attrs) for k, v in st.items() if k != 'time'})
    before = snapshot(st)
    t, d = must_work('call', comp, st)
    check_snapshot('call', before, st)
    need(set(t) == {name} and d == {}, 'returned %s %s', sorted(t), sorted(d))
    def at(n, un):
        v = st[n]
        c = DataArray(convert(v.values, v.attrs['units'], un), dims=v.dims)
        return c
    exp = (at('equilibrium_' + name, u) - at(name, u)) / at(name + '_relaxation_timescale', 's')
    got = t[name]
    need(set(got.dims) == set(dims), 'tendency has dims %s, inputs %s', got.dims, dims)
    e = exp.broadcast_like(DataArray(np.zeros([L[k] for k in dims]), dims=dims)).transpose(*got.dims).values
    need(close(got.values, e, 1e-7), 'tendency is %s, expected %s', got.values, e)
    gu = got.attrs.get('units')
    need(units_are_same(gu, per_time(u)), 'tendency has units %r, expected %r', gu, per_time(u))
