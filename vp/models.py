"""Models of third-party libraries (trusted contracts; cross-checked against the
real libraries by rt/crosscheck.py)."""
import types, datetime as _dt
import re
from .core import *
from . import core

ABSTRACT_POINT = 'values are tracked at one arbitrary grid point named by dimension names'


# ------------------------------------------------------------------ numpy
class NDArray(Obj):
    """ndarray observed at an arbitrary point; buffer fields live in the store."""

    def __new__(cls, *a, **k):
        return object.__new__(cls)

    # fields
    def _val(self):
        v = read(self._ref, E.lit('#val'))
        return v.t if isinstance(v, SReal) else lift_real(v)

    def _isfloat(self):
        v = read(self._ref, E.lit('#float'))
        return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))

    def _dimsv(self):
        v = read(self._ref, E.lit('#ashape'))
        return None if v is ABSENT else v

    def _set(self, t):
        push(W(self._ref, E.lit('#val'), SReal(t)))

    def _bin(self, o, f, isf=None):
        b, bf, bd = operand(o)
        if b is None:
            return NotImplemented
        return new_array(f(self._val(), b), z3.Or(self._isfloat(), bf) if isf is None else isf, self._dimsv())

    def _ibin(self, o, f, name):
        b, bf, bd = operand(o)
        if b is None:
            return NotImplemented
        if E.branch(z3.And(z3.Not(self._isfloat()), bf)):
            raise TypeError('Cannot cast ufunc output from float64 to int64')   # UFuncTypeError
        self._set(f(self._val(), b))
        return self

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b, z3.BoolVal(True))
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a, z3.BoolVal(True))
    def __neg__(self): return new_array(-self._val(), self._isfloat(), self._dimsv())
    def __iadd__(self, o): return self._ibin(o, lambda a, b: a + b, '+=')
    def __isub__(self, o): return self._ibin(o, lambda a, b: a - b, '-=')
    def __imul__(self, o): return self._ibin(o, lambda a, b: a * b, '*=')
    def __itruediv__(self, o): return self._ibin(o, lambda a, b: a / b, '/=')

    def __eq__(self, o):
        b, _, _ = operand(o)
        return NotImplemented if b is None else SBool(self._val() == b)

    def __ne__(self, o):
        b, _, _ = operand(o)
        return NotImplemented if b is None else SBool(self._val() != b)
    __hash__ = None

    def __getitem__(self, i):
        if full_slice(i):
            return self._with_ref(self._ref)
        raise Unsupported('indexing in the pointwise array model')

    def __setitem__(self, i, v):
        if not full_slice(i):
            raise Unsupported('partial assignment in the pointwise array model')
        b, _, _ = operand(v)
        if b is None:
            raise Unsupported('assignment of %s' % type(v).__name__)
        self._set(b)

    def copy(self, *a, **k):
        return new_array(self._val(), self._isfloat(), self._dimsv())

    __copy__ = copy

    def astype(self, t, copy=True, **k):
        return new_array(self._val(), z3.BoolVal(True), self._dimsv())

    @property
    def dtype(self):
        return SVal(z3.Function('dtype', Bool, Opaque)(self._isfloat()))

    @property
    def shape(self):
        d = self._dimsv()
        return d if d is not None else SVal(E.fresh('shape', Opaque))

    @property
    def values(self):
        raise AttributeError('values')

    @property
    def attrs(self):
        raise AttributeError('attrs')

    def __repr__(self):
        return token(self)

    def __format__(self, s):
        return token(self)


def full_slice(i):
    if i is Ellipsis or (isinstance(i, slice) and i == slice(None)):
        return True
    return isinstance(i, tuple) and all(full_slice(x) for x in i) and len(i) > 0


def new_array(val, isfloat, shape=None):
    r = alloc('a')
    push(W(r, E.lit('#val'), SReal(val)))
    push(W(r, E.lit('#float'), SBool(isfloat)))
    if shape is not None:
        push(W(r, E.lit('#ashape'), shape))
    a = NDArray()
    a._ref = r
    return a


def operand(o):
    """(value at the point, is-float, dims or None) of an arithmetic operand"""
    if isinstance(o, DataArrayModel):
        return o._arr()._val(), o._arr()._isfloat(), o._dims()
    if isinstance(o, NDArray):
        return o._val(), o._isfloat(), None
    t = lift_real(o)
    if t is None:
        return None, None, None
    isf = isinstance(o, float) or (isinstance(o, SReal) and not isinstance(o, SInt))
    return t, z3.BoolVal(isf), None


# ------------------------------------------------------------------ xarray
bdims = z3.Function('bdims', Dims, Dims, Dims)
subdims = z3.Function('subdims', Dims, Dims, Bool)     # dims of first all present in second
NODIMS = z3.Const('nodims', Dims)


def broadcast_dims(a, b):
    """xarray: dims of a, then those of b not in a"""
    if z3.eq(a, b):
        return a
    r = bdims(a, b)
    E.assume(z3.Implies(subdims(b, a), r == a))
    E.assume(z3.Implies(a == b, r == a))
    E.assume(z3.And(subdims(a, a), subdims(b, b), subdims(a, r), subdims(b, r)))
    dims_terms(a, b)
    l = E.ghost.setdefault('bdims', [])
    if not any(z3.eq(r, x[2]) for x in l):
        l.append((a, b, r))
        for s in dims_terms():
            _sub3(a, b, r, s)
    dims_terms(r)
    return r


def _sub3(a, b, r, s):
    if not z3.eq(r, s):
        E.assume(z3.Implies(z3.Or(subdims(s, a), subdims(s, b)), subdims(s, r)))
        E.assume(z3.Implies(z3.And(subdims(a, s), subdims(b, s)), subdims(r, s)))


def dims_terms(*new):
    l = E.ghost.setdefault('dims', [])
    for t in new:
        if not any(z3.eq(t, u) for u in l):
            l.append(t)
            for a, b, r in E.ghost.get('bdims', ()):
                _sub3(a, b, r, t)
    return l


class DataArrayModel(Obj):
    """xarray.DataArray (2024.11): arithmetic drops attrs, aligns by dim name,
    in-place operators write the data buffer, attrs setter copies."""

    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None, **kw):
        if kw:
            raise Unsupported('DataArray arguments %s' % sorted(kw))
        self._ref = alloc('da')
        if isinstance(data, DataArrayModel):
            arr = data._arr()
            if dims is None:
                dims = data.dims
            if attrs is None:
                attrs = data.attrs
        elif isinstance(data, NDArray):
            arr = data
        else:
            t, f, _ = operand(data)
            if t is None:
                raise Unsupported('DataArray of %s' % type(data).__name__)
            arr = new_array(t, f)
        push(W(self._ref, E.lit('#data'), arr))
        push(W(self._ref, E.lit('#dims'), SDims(NODIMS) if dims is None else to_dims(dims)))
        a = VDict()
        if attrs is not None:
            a.update(attrs)
        push(W(self._ref, E.lit('#attrs'), a))

    # fields
    def _arr(self):
        return read(self._ref, E.lit('#data'))

    def _dims(self):
        d = read(self._ref, E.lit('#dims'))
        return d.t if isinstance(d, SDims) else dims_term(d)

    @property
    def attrs(self):
        return read(self._ref, E.lit('#attrs'))

    @attrs.setter
    def attrs(self, v):
        a = VDict()
        a.update(v)
        push(W(self._ref, E.lit('#attrs'), a))

    @property
    def dims(self):
        return read(self._ref, E.lit('#dims'))

    @property
    def values(self):
        return self._arr()

    @values.setter
    def values(self, v):
        if isinstance(v, NDArray):
            push(W(self._ref, E.lit('#data'), v))
        else:
            t, f, _ = operand(v)
            push(W(self._ref, E.lit('#data'), new_array(t, f)))

    data = values

    @property
    def dtype(self):
        return self._arr().dtype

    @property
    def shape(self):
        return SVal(z3.Function('shape', Dims, Opaque)(self._dims()))

    @property
    def size(self):
        raise Unsupported('DataArray.size')

    def _new(self, t, f, dims, attrs=None):
        n = object.__new__(type(self))
        n._ref = alloc('da')
        push(W(n._ref, E.lit('#data'), new_array(t, f)))
        push(W(n._ref, E.lit('#dims'), SDims(dims)))
        a = VDict()
        if attrs is not None:
            a.update(attrs)
        push(W(n._ref, E.lit('#attrs'), a))
        return n

    def _bin(self, o, f, isf=None, refl=False):
        b, bf, bd = operand(o)
        if b is None:
            return NotImplemented
        if isinstance(o, NDArray):
            bd = None
        a, af = self._arr()._val(), self._arr()._isfloat()
        d = self._dims()
        if bd is not None:
            d = broadcast_dims(d, bd)
        v = f(b, a) if refl else f(a, b)
        return self._new(v, z3.Or(af, bf) if isf is None else isf, d)

    def _ibin(self, o, f):
        b, bf, bd = operand(o)
        if b is None:
            return NotImplemented
        if bd is not None and not z3.eq(bd, self._dims()):
            E.assume(z3.Implies(bd == self._dims(), subdims(bd, self._dims())))
            if not E.branch(subdims(bd, self._dims())):
                raise ValueError('dimensions of the operand are not present in the in-place target')
        arr = self._arr()
        if E.branch(z3.And(z3.Not(arr._isfloat()), bf)):
            raise TypeError('Cannot cast ufunc output')
        arr._set(f(arr._val(), b))
        return self

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, refl=True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, refl=True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, refl=True)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b, z3.BoolVal(True))
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: a / b, z3.BoolVal(True), refl=True)

    def __pow__(self, n):
        if isinstance(n, int) and 0 <= n <= 4:
            return self._bin(n, lambda a, b: (SReal(a) ** n).t)
        return NotImplemented

    def __neg__(self): return self._new(-self._arr()._val(), self._arr()._isfloat(), self._dims(), self.attrs)
    def __iadd__(self, o): return self._ibin(o, lambda a, b: a + b)
    def __isub__(self, o): return self._ibin(o, lambda a, b: a - b)
    def __imul__(self, o): return self._ibin(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._ibin(o, lambda a, b: a / b)

    def __eq__(self, o):
        b, _, _ = operand(o)
        return NotImplemented if b is None else SBool(self._arr()._val() == b)

    def __ne__(self, o):
        b, _, _ = operand(o)
        return NotImplemented if b is None else SBool(self._arr()._val() != b)
    __hash__ = None

    def __bool__(self):
        raise Unsupported('truth value of an array')

    def __getitem__(self, i):
        if full_slice(i):
            n = self._with_ref(alloc('da'))
            push(W(n._ref, E.lit('#data'), self._arr()))
            push(W(n._ref, E.lit('#dims'), self.dims))
            a = VDict()
            a.update(self.attrs)
            push(W(n._ref, E.lit('#attrs'), a))
            return n
        raise Unsupported('indexing a DataArray')

    def __setitem__(self, i, v):
        if not full_slice(i):
            raise Unsupported('partial assignment to a DataArray')
        b, _, _ = operand(v)
        self._arr()._set(b)

    def copy(self, deep=True, data=None):
        arr = self._arr()
        n = self._with_ref(alloc('da'))
        push(W(n._ref, E.lit('#data'), data if data is not None else arr.copy() if deep else arr))
        push(W(n._ref, E.lit('#dims'), self.dims))
        a = VDict()
        a.update(self.attrs)
        push(W(n._ref, E.lit('#attrs'), a))
        return n

    def __copy__(self):
        return self.copy(deep=False)

    def __deepcopy__(self, memo):
        return self.copy(deep=True)

    def assign_attrs(self, *a, **k):
        n = self.copy(deep=False)
        n.attrs.update(*a, **k)
        return n

    def astype(self, t, **k):
        return self._new(self._arr()._val(), z3.BoolVal(True), self._dims(), self.attrs)

    def equals(self, o):
        return SBool(self._arr()._val() == operand(o)[0])

    def __repr__(self):
        return token(self)

    def __format__(self, s):
        return token(self)


def to_dims(d):
    if isinstance(d, SDims):
        return d
    return SDims(dims_term(d))


def dims_term(d):
    """opaque term for a concrete/symbolic tuple of names"""
    if isinstance(d, SDims):
        return d.t
    items = d._raw() if isinstance(d, VList) else list(d)
    if not items:
        return NODIMS
    ts = [as_key(x) for x in items]
    return z3.Function('mkdims%d' % len(ts), *([Str] * len(ts) + [Dims]))(*ts)


# ------------------------------------------------------------------ pint
Uof = z3.Function('unit_of', Str, Unit)          # meaning of a unit string
uvalid = z3.Function('unit_valid', Str, Bool)
ucompat = z3.Function('unit_compat', Unit, Unit, Bool)
usame = z3.Function('unit_same', Unit, Unit, Bool)
uA = z3.Function('unit_a', Unit, Unit, Real)     # conversion is affine: a*x+b
uB = z3.Function('unit_b', Unit, Unit, Real)
ubase = z3.Function('unit_base', Unit, Unit)
ustr = z3.Function('unit_str', Unit, Str)


def unit_facts(u, v):
    """ground facts about a pair of units"""
    k = ('uf', u.get_id(), v.get_id())
    if k in E.facts_done:
        return
    E.facts_done.add(k)
    core._KEEP.extend([u, v])
    E.assume(ucompat(u, v) == ucompat(v, u))
    E.assume(z3.Implies(u == v, usame(u, v)))
    E.assume(usame(u, v) == usame(v, u))
    E.assume(z3.Implies(usame(u, v), z3.And(ucompat(u, v), uA(u, v) == 1, uB(u, v) == 0)))


def conv(u, v, x):
    unit_facts(u, v)
    k = E.ghost.get('factors', {}).get((u, v))      # a factor the contract has fixed
    if k is not None:
        return z3.simplify(k * x)
    return uA(u, v) * x + uB(u, v)


class PintError(Exception):
    pass


class UndefinedUnitError(AttributeError, PintError):
    pass


class DimensionalityError(PintError, TypeError):
    def __str__(self):
        return 'Cannot convert'


def unit_str_term(s):
    return as_key(s)


ONE = object()


class UQ(object):
    """A pint quantity: magnitude (number/array proxy or 1) with a unit."""

    def __init__(self, mag, u):
        self.magnitude, self.u = mag, u
        self.m = mag

    def to(self, units):
        v = parse_unit(units)
        unit_facts(self.u, v)
        if not E.branch(ucompat(self.u, v)):
            raise DimensionalityError()
        return UQ(convert_mag(self.magnitude, self.u, v), v)

    def m_as(self, units):
        return self.to(units).magnitude

    def is_compatible_with(self, o):
        v = o.u if isinstance(o, (UQ, UU)) else parse_unit(o)
        unit_facts(self.u, v)
        return SBool(ucompat(self.u, v))

    check = is_compatible_with

    @property
    def units(self):
        return UU(self.u)

    def to_base_units(self):
        b = ubase(self.u)
        return UQ(convert_mag(self.magnitude, self.u, b), b)

    def __eq__(self, o):
        if not isinstance(o, UQ):
            return False
        unit_facts(self.u, o.u)
        if self.magnitude is ONE and o.magnitude is ONE:
            return SBool(usame(self.u, o.u))
        raise Unsupported('comparison of quantities')

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r
    __hash__ = None

    def __mul__(self, o):
        if isinstance(o, UQ):
            raise Unsupported('product of quantities')
        return UQ(o if self.magnitude is ONE else self.magnitude * o, self.u)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, UQ) or self.magnitude is not ONE or o.magnitude is not ONE:
            raise Unsupported('quotient of quantities')
        s, ps = Uof(E.lit('s')), Uof(E.lit('s^-1'))
        if ('uinv',) not in E.facts_done:
            E.facts_done.add(('uinv',))
            E.assume(z3.And(uinv(s) == ps, uvalid(E.lit('s')), uvalid(E.lit('s^-1'))))
        return UQ(ONE, umul(self.u, uinv(o.u)))

    def __str__(self):
        if self.magnitude is not ONE:
            raise Unsupported('text of a quantity')
        return unit_text(self.u)

    def __format__(self, spec):
        return str(self)


def convert_mag(m, u, v):
    unit_facts(u, v)
    if m is ONE:
        return SReal(conv(u, v, z3.RealVal(1)))
    if isinstance(m, DataArrayModel):
        # pint multiplies / adds: new array, attributes dropped
        return m._new(conv(u, v, m._arr()._val()), z3.BoolVal(True), m._dims())
    f = getattr(m, '_vp_convert', None)
    if f is not None:
        return f(u, v)
    if isinstance(m, NDArray):
        return new_array(conv(u, v, m._val()), z3.BoolVal(True), m._dimsv())
    t = lift_real(m)
    if t is None:
        raise Unsupported('magnitude %s' % type(m).__name__)
    return SReal(conv(u, v, t))


class UU(object):
    def __init__(self, u):
        self.u = u

    def _vp_str(self):
        s = ustr(self.u)
        E.assume(z3.And(Uof(s) == self.u, uvalid(s)))
        return SStr(s)

    def __str__(self):
        return unit_text(self.u)

    def __format__(self, spec):
        return str(self)

    def __eq__(self, o):
        return SBool(self.u == o.u) if isinstance(o, UU) else False
    __hash__ = None


def unit_text(u):
    """native text of a unit: an opaque token which denotes it"""
    from .native import unit
    core._KEEP.append(u)
    d = E.ghost.setdefault('unit texts', {})
    if u.get_id() not in d:
        d[u.get_id()] = tok = unit('text%d' % len(d))
        E.assume(Uof(E.lit(tok)) == u)
    return d[u.get_id()]


PER_S = {}


def parse_unit(s):
    if isinstance(s, (UU, UQ)):
        return s.u
    if isinstance(s, str) and E.ghost.get('unit tokens'):
        from .native import uterm
        uterm(s)
    t = as_key(s)
    if not E.branch(uvalid(t)):
        raise UndefinedUnitError('undefined unit')
    return unit_term(t)


def unit_term(t):
    """unit_of(t), with the meaning of composed unit strings."""
    u = Uof(t)
    k = ('ut', t.get_id())
    if k not in E.facts_done:
        E.facts_done.add(k)
        core._KEEP.append(t)
        m = re.match(r'fmt:\{\}(?: | ?\* ?|( ?/ ?))(.*)$', t.decl().name(), re.S) if z3.is_app(t) else None
        if m and m.group(1) and re.match(r'[a-z]+$', m.group(2)):
            m = (m.group(2) + '^-1', 1)         # X/s
        elif m:
            m = None if m.group(1) else (m.group(2), 1)
        if m:
            # 'X <rest>' means the product of X and <rest>
            rest = m[0]
            x = t.children()[0]
            if '{}' in rest:
                if rest == '{}' and len(t.children()) == 2:
                    y = t.children()[1]
                    E.assume(u == umul(unit_term(x), unit_term(y)))
            else:
                E.assume(u == umul(unit_term(x), unit_term(E.lit(rest))))
    return u


umul = z3.Function('unit_mul', Unit, Unit, Unit)
uinv = z3.Function('unit_inv', Unit, Unit)


def _replace_hook(name, args, t, r):
    # '%' -> 'percent', degree sign -> 'degree': same meaning (pint parses both alike)
    if args[0] in ('%', u'\xb0'):
        E.assume(z3.And(Uof(r) == Uof(t), uvalid(r) == uvalid(t)))


core.STR_HOOKS.append(_replace_hook)


class UnitRegistryModel(object):
    def __init__(self, *a, **k):
        pass

    def __call__(self, s, **k):
        if isinstance(s, str) and '\x00' not in s and s == '':
            return UQ(ONE, Uof(E.lit('')))
        return UQ(ONE, parse_unit(s))

    def define(self, *a):
        pass

    def Quantity(self, value, units=None):
        if units is None:
            raise Unsupported('Quantity without units')
        return UQ(value, parse_unit(units))

    def parse_units(self, s):
        return UU(parse_unit(s))

    Unit = parse_units
    parse_expression = __call__

    def get_compatible_units(self, *a):
        raise Unsupported('get_compatible_units')


def make_pint():
    p = types.ModuleType('pint')
    p.UnitRegistry = UnitRegistryModel
    p.UndefinedUnitError = UndefinedUnitError
    p.DimensionalityError = DimensionalityError
    e = types.ModuleType('pint.errors')
    e.DimensionalityError, e.UndefinedUnitError, e.PintError = DimensionalityError, UndefinedUnitError, PintError
    p.errors = e
    return p, e


def make_numpy():
    np = types.ModuleType('numpy')
    np.ndarray = NDArray
    np.float64 = np.float32 = np.float_ = 'float64'

    def asarray(x, dtype=None):
        if isinstance(x, NDArray):
            return x
        if isinstance(x, DataArrayModel):
            return x.values
        t, f, _ = operand(x)
        if t is None:
            raise Unsupported('np.asarray(%s)' % type(x).__name__)
        return new_array(t, f)
    np.asarray = np.asanyarray = asarray
    np.array = lambda x, dtype=None, copy=True: asarray(x).copy()
    np.copy = lambda x: asarray(x).copy()
    np.multiply = lambda a, b, out=None: a * b
    np.add = lambda a, b, out=None: a + b

    def getter(n):
        def f(*a, **k):
            raise Unsupported('numpy.' + n)
        return f
    np.__getattr__ = getter
    return np


def make_models(extra=None):
    xr = types.ModuleType('xarray')
    xr.DataArray = DataArrayModel
    pint, errs = make_pint()
    m = {'xarray': xr, 'pint': pint, 'pint.errors': errs, 'numpy': make_numpy(), 'numba': None,
         'cftime': types.ModuleType('cftime')}
    ct = m['cftime']
    import copy as _copy
    cp = types.ModuleType('copy')
    def ccopy(x):
        f = getattr(x, '__copy__', None)
        return f() if f else (VList(x._raw()) if isinstance(x, VList) else _copy.copy(x))
    def cdeep(x, memo=None):
        if isinstance(x, VDict):
            d = VDict()
            for k, v in loop(x.items(), ()):
                d[k] = cdeep(v)
            return d
        if isinstance(x, (DataArrayModel, NDArray)):
            return x.copy()
        if isinstance(x, VList):
            return VList([cdeep(y) for y in x._raw()])
        if isinstance(x, (Sym, str, int, float, tuple, type(None))):
            return x
        raise Unsupported('deepcopy of %s' % type(x).__name__)
    cp.copy, cp.deepcopy = ccopy, cdeep
    m['copy'] = cp
    if extra:
        m.update(extra)
    return m
