"""Witness search on the real code: seeded scenario generators with independent
oracles.  A case is a function f(r) of a seeded Rng; it raises Violation when the
property it is written for is broken by the scenario the seed denotes."""
import random, math, itertools, copy, warnings, traceback, contextlib
from datetime import datetime, timedelta
import numpy as np

warnings.filterwarnings('ignore')
import sympl
from sympl import (
    DataArray, TendencyComponent, ImplicitTendencyComponent, DiagnosticComponent, Stepper,
    InvalidStateError, InvalidPropertyDictError, ComponentMissingOutputError, ComponentExtraOutputError,
    SharedKeyError)


class Violation(Exception):
    pass


class Rng(random.Random):
    def __init__(self, seed):
        random.Random.__init__(self, seed)
        self.notes = []

    def note(self, *a):
        self.notes.append(' '.join(str(x) for x in a)[:2000])

    def flip(self, p=0.5):
        return self.random() < p

    def some(self, seq, lo=0, hi=None):
        seq = list(seq)
        hi = len(seq) if hi is None else min(hi, len(seq))
        return self.sample(seq, self.randint(min(lo, hi), hi))

    def perm(self, seq):
        seq = list(seq)
        self.shuffle(seq)
        return seq

    def arr(self, shape, dtype=float):
        n = int(np.prod(shape)) if len(shape) else 1
        v = [self.choice([self.uniform(-50, 50), self.uniform(0.5, 3), float(self.randint(-9, 9))]) for _ in range(n)]
        a = np.array(v).reshape(shape)
        return a.astype(dtype)


CASES = {}      # property -> [(name, fn, weight)]


def case(prop, weight=1.0):
    def deco(f):
        for p in prop.split():
            CASES.setdefault(p, []).append((f.__name__, f, weight))
        return f
    return deco


def need(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def close(a, b, tol=1e-9, size=0.):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= tol * (1 + size + np.abs(a) + np.abs(b)) + 0.0) and np.all(np.isfinite(a) == np.isfinite(b)))


def same_bits(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def raises(exc, f, *a, **k):
    """True if f raises exc; the value (or other exception) is reported by the caller"""
    try:
        f(*a, **k)
    except exc:
        return True
    except Exception as e:
        raise Violation('expected %s, but %s was raised: %s' % (
            exc_name(exc), type(e).__name__, str(e)[:200]))
    return False


def exc_name(exc):
    return '/'.join(e.__name__ for e in exc) if isinstance(exc, tuple) else exc.__name__


def must_raise(exc, what, f, *a, **k):
    if not raises(exc, f, *a, **k):
        raise Violation('%s: no %s raised' % (what, exc_name(exc)))


def must_work(what, f, *a, **k):
    try:
        return f(*a, **k)
    except Violation:
        raise
    except Exception as e:
        raise Violation('%s: unexpected %s: %s' % (what, type(e).__name__, str(e)[:300]))


# ------------------------------------------------------------------ units
# independent table: unit -> (dimension, scale, offset) with SI = (v + offset) * scale
UNITS = {}


def _u(dim, entries):
    for name, scale, off in entries:
        UNITS[name] = (dim, scale, off)


_u('temp', [('K', 1, 0), ('degK', 1, 0), ('kelvin', 1, 0), ('mK', 1e-3, 0), ('degC', 1, 273.15)])
_u('len', [('m', 1, 0), ('meter', 1, 0), ('km', 1e3, 0), ('cm', 1e-2, 0), ('mm', 1e-3, 0)])
_u('pres', [('Pa', 1, 0), ('hPa', 100, 0), ('mbar', 100, 0), ('kPa', 1e3, 0), ('N m^-2', 1, 0)])
_u('none', [('', 1, 0), ('dimensionless', 1, 0), ('kg kg^-1', 1, 0), ('g kg^-1', 1e-3, 0), ('percent', 0.01, 0), ('%', 0.01, 0)])
_u('len/t', [('m s^-1', 1, 0), ('m/s', 1, 0), ('km hour^-1', 1 / 3.6, 0), ('cm s^-1', 0.01, 0)])
_u('angle', [('radian', 1, 0), ('degree', math.pi / 180, 0), (u'°', math.pi / 180, 0), ('degrees_north', math.pi / 180, 0),
             ('degrees_E', math.pi / 180, 0)])
_u('flux', [('W m^-2', 1, 0), ('kW m^-2', 1e3, 0), ('J s^-1 m^-2', 1, 0)])
_u('time', [('s', 1, 0), ('hour', 3600, 0), ('day', 86400, 0), ('minutes', 60, 0), ('hours', 3600, 0)])
DIMS_OF_UNITS = {}
for _n, (_d, _s, _o) in UNITS.items():
    DIMS_OF_UNITS.setdefault(_d, []).append(_n)
TIMES = {'s^-1': 1.0, 'day^-1': 1 / 86400., 'hour^-1': 1 / 3600.}


def unit_of(u):
    """(dimension, scale, offset) of a unit string, tendencies included."""
    if u in UNITS:
        return UNITS[u]
    for t, f in TIMES.items():
        if u.endswith(' ' + t) or u == t:
            d, s, o = UNITS[u[:-len(t)].strip()]
            return (d + '/t', s * f, 0)
    raise KeyError(u)


def convert(v, a, b):
    """value v in unit a expressed in unit b (independent of pint)"""
    da, sa, oa = unit_of(a)
    db, sb, ob = unit_of(b)
    assert da == db, (a, b)
    if (sa, oa) == (sb, ob):
        return np.asarray(v, dtype=float)
    return (np.asarray(v, dtype=float) + oa) * sa / sb - ob


def compatible(a, b):
    return unit_of(a)[0] == unit_of(b)[0]


def same_unit(a, b):
    return unit_of(a) == unit_of(b)


VEC = {'temp': (1, 0, 0, 0), 'len': (0, 1, 0, 0), 'pres': (0, -1, 1, -2), 'none': (0, 0, 0, 0), 'angle': (0, 0, 0, 0),
       'flux': (0, 0, 1, -3), 'time': (0, 0, 0, 1)}


def vec(dim):
    """exponents of temperature, length, mass and time"""
    n = dim.count('/t')
    v = VEC[dim.replace('/t', '')]
    return v[:3] + (v[3] - n,)


def pick_dim(r, offset=True):
    return r.choice(sorted(DIMS_OF_UNITS))


def pick_unit(r, dim, offset=True, odd=True):
    c = [u for u in DIMS_OF_UNITS[dim] if (offset or UNITS[u][2] == 0) and (odd or u not in ('%', u'°'))]
    return r.choice(c)


def other_dim_unit(r, u):
    """a unit of another physical dimension than u, and than u per time"""
    v = vec(unit_of(u)[0])
    return r.choice(sorted(x for x in UNITS if vec(UNITS[x][0]) not in (v, v[:3] + (v[3] - 1,))))


def per_time(u, t='s^-1'):
    return t if u == '' else '%s %s' % (u, t)


def tend_unit(r, dim):
    """units of a tendency of a quantity of this dimension"""
    u = pick_unit(r, dim, offset=False, odd=False)
    return per_time(u, r.choice(sorted(TIMES)))


# ------------------------------------------------------------------ state
NAMES = ['air_temperature', 'air_pressure', 'specific_humidity', 'longitude', 'wind', 'q', 'T', 'time_of_day', 'equilibrium_T',
         'flux', 'a', 'b', 'snow']
DIMNAMES = ['x', 'y', 'z', 'lat', 'lon', 'mid_levels', 'interface_levels', 'm']


def lengths(r, names=DIMNAMES, lo=1, hi=4):
    out = {}
    pool = r.perm(range(lo, hi + 1))
    for i, n in enumerate(r.perm(names)):
        out[n] = pool[i % len(pool)]
    if r.flip(0.25):
        k = r.randint(lo, hi)
        out = {n: k for n in out}
    return out


def da(values, dims, units, **attrs):
    a = dict(attrs)
    if units is not None:
        a['units'] = units
    return DataArray(np.array(values), dims=list(dims), attrs=a)


def rand_da(r, dims, L, units, dtype=float, **attrs):
    out = da(r.arr([L[d] for d in dims], dtype), dims, units, **attrs)
    if len(dims) > 1 and r.flip(0.15):       # the same values in another memory layout
        out = DataArray(np.asfortranarray(out.values), dims=out.dims, attrs=out.attrs)
    return out


def snapshot(state):
    """deep record of a state dict: keys, object identity, bits, dims, attrs, coords"""
    out = []
    for k in state:
        v = state[k]
        if hasattr(v, 'attrs'):
            out.append((k, id(v), v.values.tobytes(), v.values.dtype.str, v.values.shape, tuple(v.dims), repr(dict(v.attrs)),
                        repr(sorted((str(c), v.coords[c].values.tolist()) for c in v.coords))))
        elif isinstance(v, np.ndarray):
            out.append((k, id(v), v.tobytes(), v.dtype.str, v.shape))
        else:
            out.append((k, id(v), repr(v)))
    return out


def check_snapshot(what, before, state):
    after = snapshot(state)
    if before != after:
        b = {x[0]: x for x in before}
        a = {x[0]: x for x in after}
        diff = [k for k in set(a) | set(b) if a.get(k) != b.get(k)]
        raise Violation('%s: the state was changed (entries %s)' % (what, sorted(map(str, diff)) or 'order'))


def deep_equal(a, b):
    """structural equality of results (nested tuples, dicts, DataArrays)"""
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(deep_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(deep_equal(a[k], b[k]) for k in a)
    if hasattr(a, 'attrs'):
        return (hasattr(b, 'attrs') and tuple(a.dims) == tuple(b.dims) and dict(a.attrs) == dict(b.attrs) and
                np.array_equal(a.values, b.values, equal_nan=True) and a.values.dtype == b.values.dtype)
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    return a == b


# ------------------------------------------------------------------ components
BASES = {'T': TendencyComponent, 'I': ImplicitTendencyComponent, 'D': DiagnosticComponent, 'S': Stepper}
OUTS = {'T': ('tendency', 'diagnostic'), 'I': ('tendency', 'diagnostic'), 'D': ('diagnostic',), 'S': ('output', 'diagnostic')}


def make_class(kind, inputs, outputs, compute=None, extra=None):
    """A component class with the given property dictionaries. outputs: dict of
    'tendency' / 'output' / 'diagnostic' -> properties; compute(raw, timestep) ->
    dict of the same keys -> raw arrays."""
    ns = {'input_properties': inputs}
    for o in OUTS[kind]:
        ns[o + '_properties'] = outputs.get(o, {})
    if compute is None:
        def compute(raw, dt):
            return {}

    def record(self, raw, dt):
        self.__dict__.setdefault('seen', []).append((dict(raw), dt))
        return compute(raw, dt)
    if kind == 'T':
        def array_call(self, state):
            o = record(self, state, None)
            return o.get('tendency', {}), o.get('diagnostic', {})
    elif kind == 'I':
        def array_call(self, state, timestep):
            o = record(self, state, timestep)
            return o.get('tendency', {}), o.get('diagnostic', {})
    elif kind == 'D':
        def array_call(self, state):
            return record(self, state, None).get('diagnostic', {})
    else:
        def array_call(self, state, timestep):
            o = record(self, state, timestep)
            return o.get('diagnostic', {}), o.get('output', {})
    ns['array_call'] = array_call
    ns.update(extra or {})
    return type('Comp' + kind, (BASES[kind],), ns)


def invoke(comp, kind, state, dt):
    """call a component; returns dict of kind of output -> dict"""
    if kind == 'T':
        t, d = comp(state)
        return {'tendency': t, 'diagnostic': d}
    if kind == 'I':
        t, d = comp(state, dt)
        return {'tendency': t, 'diagnostic': d}
    if kind == 'D':
        return {'diagnostic': comp(state)}
    d, o = comp(state, dt)
    return {'output': o, 'diagnostic': d}


class Decl(object):
    """A random component declaration, a state valid for it, and the arrays it
    should be given (up to the order of the wildcard dims)."""

    def __init__(self, r, kinds='TIDS', n_in=None, wildcard=None, outputs=True, time=None):
        self.kind = r.choice(kinds)
        self.L = L = lengths(r)
        dims = r.perm(DIMNAMES)
        use_wild = r.flip(0.6) if wildcard is None else wildcard
        self.wild_pool = dims[:r.randint(0, 3)] if use_wild else []
        self.named_pool = dims[3:]
        n_in = r.randint(0, 4) if n_in is None else n_in
        names = r.sample(NAMES, n_in + 4)
        self.inputs, self.state, self.udim = {}, {}, {}
        aliases = set()
        self.time = time if time is not None else r.choice([timedelta(seconds=r.randint(0, 9999)), datetime(2000, 1, r.randint(1, 28))])
        for name in names[:n_in]:
            ud = pick_dim(r)
            self.udim[name] = ud
            named = r.some(self.named_pool, 0, 2)
            decl = r.perm(named + (['*'] if use_wild and r.flip(0.75) else []))
            p = {'dims': decl if r.flip() else tuple(decl), 'units': pick_unit(r, ud)}
            if r.flip(0.3):
                al = r.choice(['al', 'T_al', 'p', 'zz']) + str(len(aliases))
                aliases.add(al)
                p['alias'] = al
            self.inputs[name] = p
            have = [d for d in named if r.flip(0.75)]
            if '*' in decl:
                have += [d for d in self.wild_pool if r.flip(0.75)]
            self.state[name] = rand_da(r, r.perm(have), L, pick_unit(r, ud), **({'long_name': 'foo'} if r.flip(0.2) else {}))
        for name in names[n_in:n_in + r.randint(0, 2)]:      # quantities the component does not declare
            self.state[name] = rand_da(r, r.some(DIMNAMES, 0, 2), lengths(r), 'm')
        items = r.perm(self.state.items()) + [('time', self.time)]
        self.state = dict(r.perm(items))
        # what the call can know about lengths
        self.known = {}
        for n in self.inputs:
            for d, k in zip(self.state[n].dims, self.state[n].shape):
                self.known[d] = k
        self.wild = []
        for n, p in self.inputs.items():
            if '*' in p['dims']:
                for d in self.state[n].dims:
                    if d not in p['dims'] and d not in self.wild:
                        self.wild.append(d)
        self.has_wild = any('*' in p['dims'] for p in self.inputs.values())
        self.dt = timedelta(seconds=r.choice([1, 10, 600, 0.5, 86400]))
        r.note('kind', self.kind, 'inputs', self.inputs)
        r.note('state', {k: (v.dims, v.shape, dict(v.attrs)) if k != 'time' else v for k, v in self.state.items()})

    def expected_input(self, name, wild_order):
        p = self.inputs[name]
        v = self.state[name]
        src = convert(v.values, v.attrs['units'], p['units'])
        full = []
        for d in p['dims']:
            full += list(wild_order) if d == '*' else [d]
        shape = [self.known.get(d, 1) for d in full]
        out = np.empty(shape)
        for idx in np.ndindex(*shape):
            at = dict(zip(full, idx))
            out[idx] = src[tuple(at[d] for d in v.dims)]
        final = []
        for d in p['dims']:
            final.append(int(np.prod([self.known[w] for w in wild_order])) if d == '*' else self.known.get(d, 1))
        return out.reshape(final)

    def wild_orders(self):
        return list(itertools.permutations(self.wild))


def out_shape(dims, known, wild):
    return [int(np.prod([known[w] for w in wild])) if d == '*' else known[d] for d in dims]


def source_fragments(only=None):
    """String constants of the package's current source: quantity names are also built from these, so that
    code which treats some names specially is exercised."""
    import ast, os, re
    out = set()
    root = os.path.dirname(sympl.__file__)
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.py') and (only is None or f == only):
                try:
                    tree = ast.parse(open(os.path.join(d, f), encoding='utf-8').read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and \
                            re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]{2,40}', n.value) and '__' not in n.value:
                        out.add(n.value)
    return sorted(out - {'time', 'tracers', 'tracer'} - set(DIMNAMES))


FRAGMENTS = source_fragments()
BASE_NAMES = list(NAMES)
BASE_DIMS = list(DIMNAMES)


def pick_names(r):
    NAMES[:] = BASE_NAMES
    DIMNAMES[:] = BASE_DIMS
    if r.flip(0.3):
        for i in range(r.randint(1, 2)):
            n = r.choice(['xy', 'yz', 'tracer_x', 'X', 'dim_0', 'dim_1', 'lat_2', 'la', r.choice(FRAGMENTS)])
            if n not in DIMNAMES and n not in NAMES:
                DIMNAMES.append(n)
    if FRAGMENTS and r.flip(0.4):
        for i in r.sample(range(len(NAMES)), r.randint(1, 5)):
            f = r.choice(FRAGMENTS)
            n = r.choice([f, 'q' + f, 'q_' + f, f + '_q', f + 'q'])
            if n not in NAMES and n not in DIMNAMES and 'tendency_from' not in n:
                NAMES[i] = n


def run_case(fn, seed):
    """None, or a description of the violation"""
    r = Rng(seed)
    pick_names(r)
    reset_globals()
    try:
        fn(r)
        return None
    except Violation as e:
        return {'message': str(e), 'notes': r.notes}
    except Exception as e:
        return {'message': 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]), 'notes': r.notes,
                'traceback': traceback.format_exc()[-3000:]}
    finally:
        reset_globals()


def reset_globals():
    from sympl._core import tracers
    tracers.reset_tracers()
    tracers.reset_packers()
    sympl.reset_constants()
