# -*- coding: utf-8 -*-
"""Contracts: unit conversion (C19), constants (C20), datetime (C26), on the unmodified modules."""
import types
from ..spec import *
from ..native import *
from .. import native
from .arrays import *
from .components import B1

# ------------------------------------------------------------------ C19
UN = 'sympl._core.units'


def unit_pair():
    """two units: arbitrary, or spelled with a percent or degree sign"""
    what = pick(['any', 'equal', 'percent', 'degree'], 'spelling')
    if what == 'any':
        return unit('a'), unit('b')
    if what == 'equal':
        return unit('a'), 'a'
    names = {'percent': ('%', 'percent'), 'degree': (u'°', 'degree')}[what]
    x = pick([0, 1], 'sign')
    E.assume(uvalid(E.lit(names[1])))
    # one side with the sign, the other an arbitrary unit (possibly the same one)
    o = pick([names[0], names[1], unit('b')], 'other')
    return names[x], o


@contract('C19 C05', 'DataArray.to_units data_array_to_units UnitRegistry.__call__', bounded='arrays of up to 2 dimensions' + B1)
def to_units():
    pkg = nload('sympl._core.dataarray')
    lens = {d: length('n_' + d) for d in 'xy'}
    dims = pick([(), ('x',), ('y', 'x')], 'dims')
    a, b = unit_pair()
    attrs = {'long_name': 'l', 'units': a, 'other': 3}
    if E.choose(4, 'units') == 0:
        del attrs['units']
    da = quantity(pkg, 'v', dims, lens, attrs=attrs, dtype=pick(['float64', 'int64'], 'dtype'))
    res = outcome(da.to_units, b)
    unchanged('source', da, 'v', dims, lens, attrs)
    if 'units' not in attrs:
        E.prove('missing units: KeyError', res[0] == 'exc' and isinstance(res[1], KeyError), repr(res[1]))
        E.cover('missing')
        return
    ua, ub = uterm(a), uterm(b)
    unit_facts(ua, ub)
    if not E.branch(ucompat(ua, ub)):
        E.prove('inconvertible: ValueError', res[0] == 'exc' and isinstance(res[1], ValueError), repr(res[1]))
        E.cover('inconvertible')
        return
    if res[0] != 'ok':
        E.fail('convertible units are converted', '%s to %s: %r' % (a, b, res[1]))
        return
    E.cover('converted')
    got = res[1]
    E.prove('a DataArray', isinstance(got, pkg.modules['sympl._core.dataarray'].DataArray))
    E.prove('dims kept', got.dims == dims)
    E.prove('other attributes kept', {k: v for k, v in got.attrs.items() if k != 'units'} == {'long_name': 'l', 'other': 3})
    gu = got.attrs.get('units')
    if E.branch(usame(ua, ub)):
        E.prove('same unit: its own spelling', gu == a, repr(gu))
    else:
        E.prove('requested units recorded', gu == b)
    pos = positions(dims, lens=lens)
    check_axes('converted', got.values, [(d,) for d in dims], lens, conv(ua, ub, source('v', dims, pos)), pos)
    back = outcome(got.to_units, a)
    if back[0] != 'ok':
        E.fail('the way back', repr(back[1]))
        return
    # pint: conversions between two units are inverse to each other
    unit_facts(ub, ua)
    E.assume(z3.And(models.uA(ub, ua) * models.uA(ua, ub) == 1, models.uB(ub, ua) == -models.uA(ub, ua) * models.uB(ua, ub)))
    x = source('v', dims, pos)
    E.assume(models.uA(ub, ua) * (models.uA(ua, ub) * x) == x)
    check_axes('there and back', back[1].values, [(d,) for d in dims], lens, x, pos)
    E.prove('there and back: units', back[1].attrs.get('units') == a or E.must(usame(uterm(back[1].attrs.get('units')), ua)))
    unchanged('source', da, 'v', dims, lens, attrs)
    # the result does not share attributes with the source
    got.attrs['units' if got is not da else 'other'] = attrs['units'] if got is not da else 3
    unchanged('source', da, 'v', dims, lens, attrs)


@contract('C19', 'units_are_same units_are_compatible is_valid_unit UnitRegistry.__call__')
def unit_predicates():
    pkg = nload(UN)
    U = pkg.modules[UN]
    a, b = unit_pair()
    ua, ub = uterm(a), uterm(b)
    unit_facts(ua, ub)
    for x, y in ((a, b), (b, a)):
        r = outcome(U.units_are_same, x, y)
        E.prove('units_are_same answers', r[0] == 'ok', repr(r[1]))
        if r[0] == 'ok':
            E.prove('units_are_same: whether the conversion is the identity', bool(r[1]) == E.branch(usame(ua, ub)))
        r = outcome(U.units_are_compatible, x, y)
        E.prove('units_are_compatible answers', r[0] == 'ok', repr(r[1]))
        if r[0] == 'ok':
            E.prove('units_are_compatible: whether a conversion exists', bool(r[1]) == E.branch(ucompat(ua, ub)))
        E.prove('is_valid_unit: accepts valid units', bool(U.is_valid_unit(x)))
    m = maybe_unit('maybe')
    r = outcome(U.is_valid_unit, m)
    E.prove('is_valid_unit: whether pint knows it', r[0] == 'ok' and bool(r[1]) == E.branch(uvalid(E.lit(m))))


@contract('C19', 'from_unit_to_another clean_units', bounded='arrays of up to 1 dimension' + B1)
def helper_conversions():
    pkg = nload(UN)
    U = pkg.modules[UN]
    a, b = unit_pair()
    ua, ub = uterm(a), uterm(b)
    unit_facts(ua, ub)
    x = SReal(z3.Real('x'))
    r = outcome(U.from_unit_to_another, x, a, b)
    if E.branch(ucompat(ua, ub)):
        E.prove('from_unit_to_another: value', r[0] == 'ok' and lift_real(r[1]) == conv(ua, ub, x.t), repr(r[1]))
    else:
        E.prove('from_unit_to_another: refused', r[0] == 'exc')


# ------------------------------------------------------------------ C20
CO = 'sympl._core.constants'
PHASE = {'gas_constant_of_vapor_phase': 'gas_constant_of_%s_vapor',
         'heat_capacity_of_vapor_phase': 'heat_capacity_of_%s_vapor_at_constant_pressure',
         'specific_enthalpy_of_vapor_phase': 'specific_enthalpy_of_%s_vapor',
         'density_of_liquid_phase': 'density_of_liquid_%s', 'heat_capacity_of_liquid_phase': 'heat_capacity_of_liquid_%s',
         'latent_heat_of_vaporization': 'latent_heat_of_vaporization_of_%s',
         'freezing_temperature_of_liquid_phase': 'freezing_temperature_of_liquid_%s',
         'thermal_conductivity_of_liquid_phase': 'thermal_conductivity_of_liquid_%s',
         'latent_heat_of_fusion': 'latent_heat_of_fusion_of_%s', 'density_of_solid_phase_as_ice': 'density_of_solid_%s_as_ice',
         'density_of_solid_phase_as_snow': 'density_of_solid_%s_as_snow',
         'heat_capacity_of_solid_phase_as_ice': 'heat_capacity_of_solid_%s_as_ice',
         'heat_capacity_of_solid_phase_as_snow': 'heat_capacity_of_solid_%s_as_snow',
         'thermal_conductivity_of_solid_phase_as_ice': 'thermal_conductivity_of_solid_%s_as_ice',
         'thermal_conductivity_of_solid_phase_as_snow': 'thermal_conductivity_of_solid_%s_as_snow'}
ALIAS = {'latent_heat_of_condensation': 'latent_heat_of_vaporization', 'enthalpy_of_fusion': 'latent_heat_of_fusion',
         'stellar_irradiance': 'solar_constant', 'heat_capacity_of_ice': 'heat_capacity_of_solid_phase_as_ice',
         'heat_capacity_of_snow': 'heat_capacity_of_solid_phase_as_snow',
         'thermal_conductivity_of_ice': 'thermal_conductivity_of_solid_phase_as_ice',
         'thermal_conductivity_of_snow': 'thermal_conductivity_of_solid_phase_as_snow',
         'density_of_ice': 'density_of_solid_phase_as_ice', 'density_of_snow': 'density_of_solid_phase_as_snow'}
BASE = {'stefan_boltzmann_constant': 'W m^-2 K^-4', 'gravitational_acceleration': 'm s^-2',
        'heat_capacity_of_dry_air_at_constant_pressure': 'J kg^-1 K^-1', 'reference_air_pressure': 'Pa', 'reference_air_temperature': 'degK',
        'thermal_conductivity_of_dry_air': 'W m^-1 K^-1', 'gas_constant_of_dry_air': 'J kg^-1 K^-1', 'planetary_rotation_rate': 's^-1',
        'planetary_radius': 'm', 'solar_constant': 'W m^-2', 'planck_constant': 'J s', 'speed_of_light': 'm s^-1',
        'seconds_per_day': 'dimensionless', 'avogadro_constant': 'mole^-1', 'boltzmann_constant': 'J K^-1', 'loschmidt_constant': 'm^-3',
        'universal_gas_constant': 'J mole^-1 K^-1', 'heat_capacity_of_water_vapor_at_constant_pressure': 'J kg^-1 K^-1',
        'specific_enthalpy_of_water_vapor': 'J kg^-1', 'heat_capacity_of_liquid_water': 'J kg^-1 K^-1',
        'freezing_temperature_of_liquid_water': 'K', 'thermal_conductivity_of_liquid_water': 'W m^-1 K^-1',
        'heat_capacity_of_solid_water_as_ice': 'J kg^-1 K^-1', 'thermal_conductivity_of_solid_water_as_ice': 'W m^-1 K^-1',
        'heat_capacity_of_solid_water_as_snow': 'J kg^-1 K^-1', 'thermal_conductivity_of_solid_water_as_snow': 'W m^-1 K^-1',
        'gas_constant_of_water_vapor': 'J kg^-1 K^-1', 'latent_heat_of_vaporization_of_water': 'J kg^-1',
        'latent_heat_of_fusion_of_water': 'J kg^-1', 'density_of_liquid_water': 'kg m^-3', 'density_of_solid_water_as_ice': 'kg m^-3',
        'density_of_solid_water_as_snow': 'kg m^-3'}
POOL = sorted(BASE) + sorted(PHASE) + sorted(ALIAS) + ['user', 'density_of_liquid_methane', 'density_of_solid_methane_as_ice']


class Constants(object):
    def __init__(self):
        self.C = nload(CO).modules[CO]
        for u in set(BASE.values()):
            E.assume(uvalid(E.lit(u)))
        self.values = {}
        for n, u in BASE.items():
            r = outcome(self.C.get_constant, n, u)
            if r[0] != 'ok':
                E.fail('every constant of the documentation exists', '%s: %r' % (n, r[1]))
                raise Unsupported('constants')
            self.values[n] = (u, lift_real(r[1]))
        self.start = dict(self.values)
        self.cond = 'water'
        self.n = 0

    def resolve(self, n):
        n = ALIAS.get(n, n)
        return PHASE[n] % self.cond if n in PHASE else n

    def op(self, names, conds, op=None):
        op = op or pick(['set', 'bad', 'cond', 'reset'], 'op')
        self.n += 1
        C = self.C
        if op == 'set':
            n = pick(names, 'name')
            u, v = unit('u%d' % self.n), z3.Real('v%d' % self.n)
            r = outcome(C.set_constant, n, SReal(v), u)
            E.prove('set_constant accepts a valid unit', r[0] == 'ok', repr(r[1]))
            self.values[self.resolve(n)] = (u, v)
        elif op == 'bad':
            n = pick(names, 'name')
            u = maybe_unit('bad%d' % self.n)
            E.assume(z3.Not(uvalid(E.lit(u))))
            r = outcome(C.set_constant, n, SReal(z3.Real('v')), u)
            E.prove('set_constant: invalid unit refused with ValueError', r[0] == 'exc' and isinstance(r[1], ValueError), repr(r[1]))
        elif op == 'cond':
            self.cond = pick(conds, 'condensible')
            r = outcome(C.set_condensible_name, self.cond)
            E.prove('set_condensible_name accepted', r[0] == 'ok', repr(r[1]))
        else:
            r = outcome(C.reset_constants)
            E.prove('reset_constants accepted', r[0] == 'ok', repr(r[1]))
            self.values, self.cond = dict(self.start), 'water'
        E.cover(op)

    def check(self):
        for n in POOL:
            t = self.resolve(n)
            if t not in self.values:
                r = outcome(self.C.get_constant, n, 'm')
                E.prove('a constant which was never set (or was removed) is an error', r[0] == 'exc' and isinstance(r[1], KeyError), '%s: %r' % (n, r[1]))
                continue
            u, v = self.values[t]
            r = outcome(self.C.get_constant, n, u)
            if r[0] != 'ok':
                E.fail('get_constant: set constants can be read', '%s: %r' % (n, r[1]))
                continue
            prove_eq('get_constant: the value last set', lift_real(r[1]), v, '%s (%s)' % (n, t))

    def convert(self, n):
        t = self.resolve(n)
        if t not in self.values:
            return
        u, v = self.values[t]
        w = unit('w')
        r = outcome(self.C.get_constant, n, w)
        a, b = uterm(u), uterm(w)
        unit_facts(a, b)
        if E.branch(ucompat(a, b)):
            E.prove('get_constant: converted to the requested units', r[0] == 'ok' and lift_real(r[1]) == conv(a, b, v), '%s: %r' % (n, r[1]))
        else:
            E.prove('get_constant: inconvertible units refused', r[0] == 'exc')


FNC = 'get_constant set_constant set_condensible_name reset_constants get_alias get_condensible_map ConstantDict.__setitem__ ConstantDict.__getitem__'
SOME = ['user', 'solar_constant', 'stellar_irradiance', 'density_of_ice', 'density_of_liquid_phase', 'density_of_solid_water_as_ice', 'latent_heat_of_condensation']


@contract('C20', FNC, bounded='one operation on any constant of the documentation; values and units unbounded')
def one_operation_on_any_constant():
    c = Constants()
    c.op(POOL, ['water', 'methane'])
    c.check()
    if c.values != c.start:
        c.convert(pick([n for n in POOL if c.resolve(n) in c.values and c.values[c.resolve(n)] != c.start.get(c.resolve(n))], 'converted'))


def constants_history(n, first=None):
    c = Constants()
    for i in range(n):
        c.op(SOME if i == 0 else SOME[2:6] if i == 1 else SOME[:5], ['methane', 'co2'] if i == 0 else ['water', 'methane'],
             first if i == 0 else None)
    c.check()
    c.convert('density_of_ice')


@contract('C20', FNC, bounded='histories of 2 operations; values and units unbounded')
def two_operations():
    constants_history(2)


for _o in ('set', 'bad', 'cond', 'reset'):
    def _f(o=_o):
        constants_history(3, o)
    _f.__name__ = 'three_operations_beginning_with_' + _o
    contract('C20', FNC, tier='thorough', bounded='histories of 3 operations; values and units unbounded')(_f)


# ------------------------------------------------------------------ C26
FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')
RANGE = {'year': (1, 9999), 'month': (1, 12), 'day': (1, 31), 'hour': (0, 23), 'minute': (0, 59), 'second': (0, 59), 'microsecond': (0, 999999)}
CALENDARS = {'all_leap': 'AllLeap', '366_day': 'AllLeap', 'no_leap': 'NoLeap', 'noleap': 'NoLeap', '365_day': 'NoLeap',
             '360_day': '360Day', 'julian': 'Julian', 'gregorian': 'Gregorian'}
# names cftime knows; asking for them is not an error, but then the calendar must be right
ALSO = {'standard': 'Gregorian'}


class MadeDate(object):
    def __init__(self, *a, **k):
        for n, v in zip(FIELDS, a):
            if n in k:
                raise TypeError('repeated argument ' + n)
            k[n] = v
        rest = a[len(FIELDS):]
        if len(rest) > 1 or not {'year', 'month', 'day'} <= set(k):
            raise TypeError('arguments')
        self.fields = {n: k.pop(n, 0) for n in FIELDS}
        self.more = rest
        self.kw = k


def time_modules(with_cftime):
    dt, ct = types.ModuleType('datetime'), types.ModuleType('cftime')

    class datetime(MadeDate):
        def __init__(self, *a, **k):
            MadeDate.__init__(self, *a, **k)
            self.tz = self.more[0] if self.more else self.kw.pop('tzinfo', None)
            if set(self.kw) - {'fold'}:
                raise TypeError('unexpected keyword')
            self.calendar = 'python'

        def replace(self, **k):
            return type(self)(**dict(self.fields, tzinfo=self.tz, **{}) if not k else dict(dict(self.fields, tzinfo=self.tz), **k))

    class timedelta(object):
        def __init__(self, *a, **k):
            raise Unsupported('timedelta')
    dt.datetime, dt.timedelta = datetime, timedelta

    class CF(MadeDate):
        def __init__(self, *a, **k):
            MadeDate.__init__(self, *a, **k)
            if 'tzinfo' in self.kw:
                raise TypeError('unexpected keyword tzinfo')
            self.calendar = self._c or {'365_day': 'NoLeap', 'noleap': 'NoLeap', 'all_leap': 'AllLeap', '366_day': 'AllLeap',
                                        '360_day': '360Day', 'julian': 'Julian', 'gregorian': 'Gregorian', 'standard': 'Gregorian',
                                        'proleptic_gregorian': 'ProlepticGregorian'}.get(self.kw.get('calendar', 'standard'))
            if self.calendar is None:
                raise ValueError('unsupported calendar')
            self.tz = None
    for n in ('NoLeap', 'ProlepticGregorian', 'AllLeap', '360Day', 'Julian', 'Gregorian'):
        setattr(ct, 'Datetime' + n, type('Datetime' + n, (CF,), {'_c': n}))
    ct.datetime = type('datetime', (CF,), {'_c': None})
    return {'datetime': dt, 'cftime': ct if with_cftime else None}


def strings_of(code):
    """every string the code can compare its argument with"""
    out = set()
    for c in code.co_consts:
        if isinstance(c, str) and len(c) < 40:
            out.add(c)
        elif isinstance(c, (tuple, frozenset)):
            out.update(x for x in c if isinstance(x, str))
        elif isinstance(c, types.CodeType):
            out |= strings_of(c)
    return out


@contract('C26', 'datetime')
def datetime_of_any_calendar():
    TI = 'sympl._core.time'
    have = pick([True, False], 'cftime')
    mods = time_modules(have)
    pkg = nload(TI, extra=mods)
    f = pkg.modules[TI].datetime
    # any calendar name: those documented, those the code mentions, and one it does not mention
    names = (set(CALENDARS) | set(ALSO) | {'proleptic_gregorian', 'calendar_%d' % 0, '', 'proleptic', 'gregoriann', ' gregorian', '365day'}
             | {s.lower() for m in pkg.modules.values() if m.__name__ == TI for s in strings_of(native.source_code(TI))})
    known = set(CALENDARS) | set(ALSO) | {'proleptic_gregorian'}
    # and those which only resemble a supported one
    names |= {f(n) for n in known for f in (lambda n: n + 'x', lambda n: 'x' + n, lambda n: n[:-1], lambda n: n + '_' + n, lambda n: n[1:] + n[0])}
    name = pick(sorted(names), 'calendar')
    cal = pick([name, name.upper(), name.title(), 'default'] if name == 'proleptic_gregorian' else [name, name.upper(), name.title()], 'case')
    vals = {}
    for n in FIELDS:
        vals[n] = SInt(z3.Int(n))
        lo, hi = RANGE[n]
        E.assume(z3.And(vals[n].t >= lo, vals[n].t <= hi))
    tz = object()
    given = pick([3, 5, 7, 'tz'], 'fields given')
    kw = {}
    if cal != 'default':
        kw['calendar'] = cal
    if given == 'tz':
        kw['tzinfo'] = tz
    fs = FIELDS[:7 if given == 'tz' else given]
    if pick([True, False], 'by position'):
        args = [vals[n] for n in fs]
    else:
        args = []
        kw.update({n: vals[n] for n in fs})
    r = outcome(f, *args, **kw)
    known = name == 'proleptic_gregorian' or name in CALENDARS
    if name != 'proleptic_gregorian' and (given == 'tz' or not have or name not in CALENDARS and name not in ALSO):
        why = 'time zone with another calendar' if given == 'tz' else 'cftime is missing' if not have else 'unsupported calendar'
        E.prove('raises an error: ' + why, r[0] == 'exc', '%r: %r' % (cal, r[1]))
        E.prove('never None', not (r[0] == 'ok' and r[1] is None))
        E.cover(why)
        return
    if not known and r[0] == 'exc':
        return
    if r[0] != 'ok':
        E.fail('a documented calendar is accepted', '%r: %r' % (cal, r[1]))
        return
    d = r[1]
    if not isinstance(d, MadeDate):
        E.fail('a datetime object', repr(d))
        return
    want = 'python' if name == 'proleptic_gregorian' else CALENDARS.get(name) or ALSO[name]
    E.cover(want)
    E.prove('exactly the named calendar', d.calendar == want, '%s for %r' % (d.calendar, cal))
    E.prove('the time zone', d.tz is (tz if given == 'tz' else None))
    for n in FIELDS:
        x = d.fields[n]
        want = vals[n].t if n in fs else z3.IntVal(0)
        E.prove('exactly the requested fields', isinstance(x, (SInt, int)) and (SInt(want) == x).t, n)
