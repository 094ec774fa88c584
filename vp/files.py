"""A ghost file system and the netCDF4, xarray.open_dataset, os and shutil operations on it.

Every operation that touches a file is a step: the contract observes the files before each step (what a crash
there would leave behind) and can make any one step fail."""
import types
import posixpath
import numpy as real_numpy
import z3
from .core import E, Unsupported, SReal, SInt, SBool, Sym, STd, STime, lift_real, Real
from .models import conv, uvalid, Uof
from . import native
from .native import ArrayModel, XDataArray, make_numpy, make_array, as_array, dtname


class FS(object):
    def __init__(self):
        self.files = {}
        self.n = 0
        self.fail_at = None
        self.watch = None

    def step(self, op, *args):
        if self.watch is not None:
            self.watch(op, args)
        self.n += 1
        if self.n == self.fail_at:
            raise OSError('injected failure at ' + op)


class File(object):
    def __init__(self):
        self.dims, self.vars, self.open, self.version = {}, {}, 0, 0
        self.rows = 0           # length of the unlimited dimension
        self.junk = False       # some other file

    def copy_of(self, o):
        self.dims, self.vars, self.rows = o.dims, o.vars, o.rows


class Dim(object):
    def __init__(self, f, name, n):
        self.f, self.name, self.n = f, name, n

    @property
    def size(self):
        return self.f.rows if self.n is None else self.n

    def isunlimited(self):
        return self.n is None

    def _vp_len(self):
        return self.size

    def __len__(self):
        return self.size


class Var(object):
    def __init__(self, ds, name, dtype, dims):
        f = ds._f
        for d in dims:
            if d not in f.dims:
                raise ValueError('dimension %s does not exist' % d)
        for d in dims[1:]:
            if f.dims[d].n is None:
                raise Unsupported('inner unlimited dimension')
        self.__dict__.update(_ds=ds, _f=f, name=name, dtype=dtype, dimensions=tuple(dims), _attrs={}, _data={})

    @property
    def _unlimited(self):
        return bool(self.dimensions) and self._f.dims[self.dimensions[0]].n is None

    @property
    def shape(self):
        return tuple(self._f.dims[d].size for d in self.dimensions)

    @property
    def ndim(self):
        return len(self.dimensions)

    def ncattrs(self):
        return list(self._attrs)

    def getncattr(self, k):
        if k not in self._attrs:
            raise AttributeError(k)
        return self._attrs[k]

    def setncattr(self, k, v):
        self._ds._write('set attribute %s of %s' % (k, self.name))
        self._attrs[k] = v

    def setncatts(self, d):
        for k, v in d.items():
            self.setncattr(k, v)

    def __getattr__(self, k):
        if k.startswith('__') or k not in self._attrs:
            if k in ('set_auto_mask', 'set_auto_scale', 'set_auto_maskandscale', 'delncattr', 'renameAttribute', 'datatype', 'size'):
                raise Unsupported('netCDF variable.' + k)
            raise AttributeError(k)
        return self._attrs[k]

    def __setattr__(self, k, v):
        self.setncattr(k, v)

    def _rows(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        first, rest = key[0], key[1:]
        n = self._f.rows
        if first is Ellipsis:
            first = slice(None)
        if any(not (k is Ellipsis or (isinstance(k, slice) and k == slice(None))) for k in rest):
            raise Unsupported('partial assignment to a netCDF variable')
        if isinstance(first, slice):
            if first.step not in (None, 1):
                raise Unsupported('step')
            a = 0 if first.start is None else first.start
            b = first.stop
            if not isinstance(a, int) or not (b is None or isinstance(b, int)):
                raise Unsupported('symbolic record number')
            if a < 0:
                a += n
            if b is not None and b < 0:
                b += n
            return a, b, True
        if isinstance(first, int) or isinstance(first, real_numpy.integer):
            first = int(first)
            if first < 0:
                first += n
            return first, first + 1, False
        raise Unsupported('index of a netCDF variable')

    def __setitem__(self, key, value):
        self._ds._write('write ' + self.name)
        if not self._unlimited:
            raise Unsupported('variable without records')
        a, b, many = self._rows(key)
        if isinstance(value, XDataArray):
            value = value.values
        if isinstance(value, (list, tuple)):
            value = NumVec([_term(x) for x in value])
        if isinstance(value, NumVec):
            vals = [SReal(t) for t in value.terms]
        elif isinstance(value, ArrayModel) and many:
            n = value.shape[0] if value.axes else None
            if not isinstance(n, int):
                raise Unsupported('records')
            vals = [value[i] for i in range(n)]
        elif isinstance(value, ArrayModel):
            vals = [value]
        else:
            vals = [value]
        if b is None:
            b = a + len(vals)
        if len(vals) == 1 and b - a != 1:
            vals = vals * (b - a)
        if b - a != len(vals):
            raise ValueError('cannot assign %d records to %d' % (len(vals), b - a))
        for i, v in enumerate(vals):
            if len(self.dimensions) == 1 and not isinstance(v, ArrayModel):
                t = _term(v)
                if real_numpy.dtype(dtname(self.dtype)).kind in 'iu' and not whole(t):
                    t = truncated(t)
                self._data[a + i] = SReal(t)
            else:
                # an array of the variable's own type
                new = make_array(self.shape[1:], lambda *ix: z3.RealVal(0), self.dtype)
                new[...] = as_array(v)
                self._data[a + i] = new
        self._f.rows = max(self._f.rows, b)

    def __getitem__(self, key):
        a, b, many = self._rows(key)
        rows = [self._data.get(i) for i in range(a, self._f.rows if b is None else min(b, self._f.rows))]
        if not many:
            if not rows:
                raise IndexError('index exceeds dimension bounds')
            return self._filled(rows[0])
        return self._stack(rows)

    def _filled(self, r):
        if r is None:
            k = E.name('fill')
            return make_array(self.shape[1:], lambda *ix: z3.Real(k), self.dtype)
        return r if isinstance(r, ArrayModel) else r

    def _stack(self, rows):
        rows = [self._filled(r) for r in rows]
        if rows and not any(isinstance(r, ArrayModel) for r in rows):
            return NumVec([_term(r) for r in rows])
        out = make_array((len(rows),) + self.shape[1:], lambda *ix: z3.RealVal(0), self.dtype)
        for i, r in enumerate(rows):
            out[i] = r
        return out

    @property
    def values(self):
        return self[:]


def whole(t):
    return t.decl().kind() == z3.Z3_OP_TO_REAL


def _term(x):
    if isinstance(x, ArrayModel) and not x.axes:
        return x.elem([])
    t = lift_real(x)
    if t is None:
        raise Unsupported('number %r' % type(x).__name__)
    return z3.ToReal(t) if t.is_int() else t


class NumVec(object):
    """a list of numbers as an array"""
    ndim = 1

    def __init__(self, terms, dtype='float64'):
        self.terms, self.dtype = list(terms), dtype

    def _new(self, f):
        return NumVec([f(t) for t in self.terms], self.dtype)

    def _vp_convert(self, u, v):
        if u.eq(v):
            return self._new(lambda t: t)
        whole = E.ghost.get('whole', {})
        return self._new(lambda t: inexact(whole.get(conv(u, v, t), conv(u, v, t))))

    @property
    def shape(self):
        return (len(self.terms),)

    def __len__(self):
        return len(self.terms)

    def __getitem__(self, i):
        if isinstance(i, tuple) and i[1:] in ((), (Ellipsis,)):
            i = i[0]
        if isinstance(i, slice):
            return NumVec(self.terms[i], self.dtype)
        return SReal(self.terms[i])

    def __iter__(self):
        return iter([SReal(t) for t in self.terms])

    def tolist(self):
        return list(self)

    def copy(self):
        return self._new(lambda t: t)

    def astype(self, t, **k):
        if real_numpy.dtype(dtname(t)).kind in 'iu':
            return NumVec([x if whole(x) else truncated(x) for x in self.terms], t)
        return NumVec(self.terms, t)

    def round(self, decimals=0):
        if decimals:
            raise Unsupported('round')
        return self._new(nearest)

    def _bin(self, o, f):
        if isinstance(o, NumVec):
            if len(o.terms) != len(self.terms):
                raise ValueError('operands could not be broadcast')
            return NumVec([inexact(f(a, b)) for a, b in zip(self.terms, o.terms)])
        if isinstance(o, (SReal, int, float)):
            return self._new(lambda a: inexact(f(a, _term(o))))
        return NotImplemented

    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)


def inexact(t):
    """floating-point arithmetic: a number near the mathematical one"""
    e = z3.Real(E.name('rounding'))
    E.assume(z3.And(e * 1000 < 1, e * 1000 > -1))
    return t + e


def truncated(t):
    """the integer towards zero"""
    n = z3.Int(E.name('truncated'))
    r = z3.ToReal(n)
    E.assume(z3.If(t >= 0, z3.And(r <= t, t < r + 1), z3.And(r - 1 < t, t <= r)))
    E.ghost.setdefault('ints', []).append(n)
    return r


def nearest(t):
    n = z3.Int(E.name('nearest'))
    d = t - z3.ToReal(n)
    E.assume(z3.And(d * 2 <= 1, d * 2 >= -1))
    for i in E.ghost.get('ints', ()):       # a lemma the solver does not find: the nearest integer is unique
        x = t - z3.ToReal(i)
        E.assume(z3.Or(n == i, x * 2 >= 1, x * 2 <= -1))
    E.ghost.setdefault('ints', []).append(n)
    return z3.ToReal(n)


# ------------------------------------------------------------------ times
class TD(STd):
    """datetime.timedelta: a whole number of microseconds"""
    __slots__ = ()

    def __init__(self, t=None, seconds=0, microseconds=0, days=0, hours=0, minutes=0, weeks=0, milliseconds=0):
        if isinstance(t, z3.ExprRef):
            self.t = t
            return
        us = (_term(days if t is None else t) * 86400 + _term(seconds) + _term(minutes) * 60 + _term(hours) * 3600 + _term(weeks) * 604800
              + _term(milliseconds) / 1000) * 1000000 + _term(microseconds)
        self.t = nearest(us) / 1000000

    def __hash__(self):
        return 7

    def __lt__(self, o): return STd.__lt__(self, o) if isinstance(o, TD) else NotImplemented
    def __gt__(self, o): return STd.__gt__(self, o) if isinstance(o, TD) else NotImplemented

    def __eq__(self, o):
        return SBool(self.t == o.t) if isinstance(o, TD) else False

    def __ne__(self, o):
        return SBool(self.t != o.t) if isinstance(o, TD) else True


class DT(STime):
    """datetime.datetime"""
    __slots__ = ()

    def __hash__(self):
        return 11

    def __lt__(self, o): return STime.__lt__(self, o) if isinstance(o, DT) else NotImplemented
    def __gt__(self, o): return STime.__gt__(self, o) if isinstance(o, DT) else NotImplemented

    def __eq__(self, o):
        return SBool(self.t == o.t) if isinstance(o, DT) else False

    def __ne__(self, o):
        return SBool(self.t != o.t) if isinstance(o, DT) else True

    def __str__(self):
        k = 'instant <%s>' % self.t
        E.ghost.setdefault('instants', {})[k] = self.t
        return k
    isoformat = __str__

    def __format__(self, spec):
        if spec:
            raise Unsupported('formatted time')
        return str(self)


D2N, N2D = {}, {}


def time_number(units, calendar, t):
    """date2num, num2date: inverse to each other for the same units and calendar"""
    k = (units, calendar)
    if k not in D2N:
        D2N[k] = z3.Function('date2num<%s><%s>' % k, Real, z3.IntSort())
        N2D[k] = z3.Function('num2date<%s><%s>' % k, Real, Real)
    return z3.ToReal(D2N[k](t))


def known_units(units):
    a, s, ref = units.partition(' since ')
    if not s:
        raise ValueError('Incorrectly formatted CF date-time unit_string')
    if ref not in E.ghost.get('instants', {}):
        raise ValueError('unable to parse date string %r' % ref)
    return units


# ------------------------------------------------------------------ modules
def ghost_modules(fs):
    np = make_numpy()
    base_array = np.array

    def array(a, dtype=None, copy=True, **k):
        if isinstance(a, NumVec):
            r = a.copy()
            return r if dtype is None else r.astype(dtype)
        if isinstance(a, (list, tuple)) and all(isinstance(x, (SReal, int, float)) for x in a):
            r = NumVec([_term(x) for x in a])
            return r if dtype is None else r.astype(dtype)
        return base_array(a, dtype)
    base_asarray = np.asarray
    np.array = array
    np.asarray = lambda a, dtype=None: array(a, dtype) if isinstance(a, (list, tuple, NumVec)) else base_asarray(a, dtype)

    def rint(a):
        if isinstance(a, NumVec):
            return a.round()
        if isinstance(a, (SReal, int, float)):
            return SReal(nearest(_term(a)))
        raise Unsupported('np.rint')
    np.rint = np.round = np.around = np.round_ = rint
    np.result_type = lambda *a: str(real_numpy.result_type(*[dtname(x.dtype if isinstance(x, (ArrayModel, XDataArray)) else x) for x in a]))
    np.promote_types = lambda a, b: str(real_numpy.promote_types(dtname(a), dtname(b)))
    np.can_cast = lambda a, b, casting='safe': bool(real_numpy.can_cast(dtname(getattr(a, 'dtype', a)), dtname(b), casting))
    np.dtype = lambda a: dtname(a)
    np.array_equal = None

    dt = types.ModuleType('datetime')
    dt.timedelta, dt.datetime = TD, DT

    nc4 = types.ModuleType('netCDF4')

    class Dataset(object):
        def __init__(self, filename, mode='r', **kw):
            self._open = False
            fs.step('open %s for %s' % (filename, mode), filename)
            if mode == 'r':
                if filename not in fs.files:
                    raise IOError('No such file or directory')
            elif mode in ('a', 'r+'):
                if filename not in fs.files:
                    fs.files[filename] = File()
                if fs.files[filename].junk:
                    raise IOError('NetCDF: Unknown file format')
                fs.files[filename].version += 1
            elif mode in ('w', 'x'):
                if filename in fs.files and (mode == 'x' or kw.get('clobber') is False):
                    raise IOError('Permission denied')
                fs.files[filename] = File()
            else:
                raise ValueError('mode')
            self._f, self._mode, self._open = fs.files[filename], mode, True
            if self._f.junk:
                raise IOError('NetCDF: Unknown file format')
            self._f.open += mode != 'r'

        def _write(self, what):
            if not self._open:
                raise RuntimeError('NetCDF: Not a valid ID')
            if self._mode == 'r':
                raise RuntimeError('NetCDF: Write to read only')
            fs.step(what)

        @property
        def variables(self):
            for v in self._f.vars.values():
                v.__dict__['_ds'] = self
            return self._f.vars

        @property
        def dimensions(self):
            return self._f.dims

        def __getitem__(self, n):
            return self.variables[n]

        def createDimension(self, name, size=None):
            self._write('create dimension ' + name)
            if name in self._f.dims:
                raise RuntimeError('NetCDF: String match to name in use')
            self._f.dims[name] = Dim(self._f, name, size)
            return self._f.dims[name]

        def createVariable(self, name, dtype, dimensions=(), **kw):
            self._write('create variable ' + name)
            if not isinstance(name, str) or name == '':
                raise RuntimeError('NetCDF: Name contains illegal characters')
            if name in self._f.vars:
                raise RuntimeError('NetCDF: String match to name in use')
            if set(kw) & {'least_significant_digit', 'fill_value'}:
                raise Unsupported('createVariable')
            self._f.vars[name] = v = Var(self, name, dtname(dtype), (dimensions,) if isinstance(dimensions, str) else dimensions)
            return v

        def sync(self):
            self._write('sync')

        def close(self):
            if not self._open:
                raise RuntimeError('NetCDF: Not a valid ID')
            self._open = False
            try:
                if self._mode != 'r':
                    fs.step('close')
            finally:
                self._f.open -= self._mode != 'r'

        def isopen(self):
            return self._open

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def __del__(self):
            if self._open:          # an abandoned dataset is closed by the garbage collector, eventually
                pass
    nc4.Dataset = Dataset

    def date2num(dates, units, calendar='standard'):
        u = known_units(units)
        one = isinstance(dates, STime)
        out = []
        for d in [dates] if one else dates:
            if not isinstance(d, STime):
                raise TypeError('not a datetime')
            n = time_number(u, calendar, d.t)
            E.assume(N2D[u, calendar](n) == d.t)        # a whole number of the units
            out.append(n)
        return SReal(out[0]) if one else NumVec(out)

    def num2date(n, units, calendar='standard', only_use_cftime_datetimes=True, only_use_python_datetimes=False, **k):
        u = known_units(units)
        if only_use_cftime_datetimes or not only_use_python_datetimes:
            return CFDate()
        time_number(u, calendar, z3.RealVal(0))
        return DT(N2D[u, calendar](_term(n)))
    nc4.date2num, nc4.num2date = date2num, num2date

    osm = types.ModuleType('os')
    osm.path = types.ModuleType('os.path')
    for n in 'basename dirname join split splitext isabs normpath abspath'.split():
        setattr(osm.path, n, getattr(posixpath, n))
    osm.path.isfile = osm.path.exists = osm.path.lexists = lambda p: p in fs.files
    osm.path.isdir = lambda p: p not in fs.files
    osm.sep = '/'

    def rename(a, b):
        fs.step('rename %s to %s' % (a, b))
        if a not in fs.files:
            raise FileNotFoundError(2, 'No such file or directory')
        fs.files[b] = fs.files.pop(a)

    def remove(a):
        fs.step('remove ' + a)
        if a not in fs.files:
            raise FileNotFoundError(2, 'No such file or directory')
        del fs.files[a]

    def link(a, b):
        fs.step('link %s to %s' % (a, b))
        if a not in fs.files:
            raise FileNotFoundError(2, 'No such file or directory')
        if b in fs.files:
            raise FileExistsError(17, 'File exists')
        fs.files[b] = fs.files[a]
    osm.rename = osm.replace = rename
    osm.remove = osm.unlink = remove
    osm.link = link
    sh = types.ModuleType('shutil')
    sh.move = rename

    def copyfile(a, b, *r, **k):
        fs.step('copy %s to %s' % (a, b))
        if a not in fs.files:
            raise FileNotFoundError(2, 'No such file or directory')
        f = fs.files[b] = File()
        f.open = 1
        fs.step('copied half of %s to %s' % (a, b))
        src = fs.files[a]
        f.copy_of(src)
        f.junk, f.open = src.junk, src.open
    sh.copy = sh.copyfile = sh.copy2 = copyfile

    xr = types.ModuleType('xarray')
    xr.DataArray = XDataArray

    class Opened(object):
        def __init__(self, f, decode):
            self.f = f
            self.variables = {n: Decoded(v, decode) for n, v in f.vars.items()}
            self.data_vars = {n: v for n, v in self.variables.items() if n != 'time'}

        def __getitem__(self, n):
            return self.variables[n]

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

        def keys(self):
            return self.variables.keys()

        def __iter__(self):
            return iter(self.data_vars)

        def load(self):
            return self

    class Decoded(object):
        def __init__(self, v, decode):
            self.dims = v.dimensions
            self.attrs = dict(v._attrs)
            self.values = v[:]
            self.dtype = v.dtype
            u = self.attrs.get('units')
            if decode and isinstance(u, str):
                if v.name == 'time':
                    # decoded into numpy datetimes (nanoseconds)
                    raise Unsupported('decoded times')
                # xarray takes units of time for times
                if E.branch(z3.Const('is a unit of time <%s>' % u, z3.BoolSort())):
                    del self.attrs['units']
                    k = E.name('decoded')
                    self.values = self.values._vp_new(lambda x: z3.Function(k, Real, Real)(x))

        @property
        def shape(self):
            return self.values.shape

    def open_dataset(fn, decode_cf=True, decode_times=True, **kw):
        fs.step('open %s for r' % fn)
        if fn not in fs.files or fs.files[fn].junk:
            raise IOError('No such file or directory')
        if set(kw) - {'engine', 'mask_and_scale', 'decode_coords', 'cache', 'use_cftime', 'decode_timedelta'}:
            raise Unsupported('open_dataset')
        return Opened(fs.files[fn], decode_cf is not False and not (decode_times is False))
    xr.open_dataset = open_dataset
    return {'numpy': np, 'datetime': dt, 'netCDF4': nc4, 'os': osm, 'os.path': osm.path, 'shutil': sh, 'xarray': xr}


class CFDate(object):
    """a cftime date"""


class _F(type):
    def __instancecheck__(c, x):
        return isinstance(x, c._real)

    def __call__(c, x=0, *a):
        if isinstance(x, SReal):
            if c._real is int:
                t = _term(x)
                return SReal(t if whole(t) else truncated(t))
            return x
        return c._real(x, *a)


class vfloat(float, metaclass=_F):
    _real = float


class vint(int, metaclass=_F):
    _real = int


def vround(x, *a):
    if isinstance(x, SReal) and not a:
        return SReal(nearest(_term(x)))
    return round(x, *a)


BUILTINS = {'float': vfloat, 'int': vint, 'round': vround}
