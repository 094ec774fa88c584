"""Structured models for code which rearranges arrays.

The package's modules are executed exactly as they are on disk (no rewriting); only numpy, xarray and
pint are replaced.  Dictionaries, lists, names and dimension names are ordinary Python values (their
arrangements are enumerated by the contract, within a stated bound); dimension lengths, array values and
units are symbolic: an array is a function of the positions along its axes, a length is an arbitrary
positive integer, and reshape / transpose / indexing / broadcasting only rearrange positions.
"""
import os, types, builtins
import numpy as _np
import z3
from . import core, models, loader
from .core import E, Unsupported, SReal, SBool, lift_real, Real, Int, Str
from .models import conv, unit_facts, ucompat, usame, uvalid, unit_term, Uof

REPO = os.environ.get('VP_REPO', '/repo')


# ------------------------------------------------------------------ lengths
_ints, _zs, _fns = {}, {}, {}
ZERO = z3.IntVal(0)


def zint(n):
    r = _ints.get(n)
    if r is None:
        r = _ints[n] = z3.Int(n)
    return r


def zfn(name, n):
    r = _fns.get((name, n))
    if r is None:
        r = _fns[name, n] = z3.Function(name, *([Int] * n + [Real])) if n else z3.Real(name)
    return r


def prove_eq(name, a, b, detail=''):
    if a.eq(b):
        E.phase1 or E.record(name, 'proved', 0.0, 'syntactic')
        return True
    return E.prove(name, a == b, detail)


def _uf():
    return E.ghost.setdefault('len_uf', {})


def _find(n):
    u = _uf()
    while n in u and isinstance(u[n], str):
        n = u[n]
    return u.get(n, n)


class Len(object):
    """A positive integer: coefficient times a product of unknown lengths (or any integer term)."""
    __slots__ = ('coef', 'names', 'term')

    def __init__(self, coef, names, term=None):
        self.coef, self.names, self.term = coef, names, term

    def norm(self):
        if self.names is None:
            return None
        c, out = self.coef, []
        for n in self.names:
            r = _find(n)
            if isinstance(r, str):
                out.append(r)
            else:
                c *= r
        return c, tuple(sorted(out))

    @property
    def z(self):
        if self.names is None:
            return self.term
        k = (self.coef, self.names)
        r = _zs.get(k)
        if r is None:
            t = None
            for n in self.names:
                t = zint(n) if t is None else t * zint(n)
            if t is None:
                r = z3.IntVal(self.coef)
            else:
                r = t if self.coef == 1 else self.coef * t
            _zs[k] = r
        return r

    def __mul__(self, o):
        if isinstance(o, float) and o == int(o):
            o = int(o)
        if isinstance(o, bool) or not isinstance(o, (int, Len)):
            return NotImplemented
        o = as_len(o)
        if self.names is None or o.names is None:
            return Len(1, None, self.z * o.z)
        return simple(Len(self.coef * o.coef, self.names + o.names))
    __rmul__ = __mul__

    def _ar(self, o, f):
        if not isinstance(o, (int, Len)):
            return NotImplemented
        return Len(1, None, f(self.z, as_len(o).z))

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: b + a)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)

    def __floordiv__(self, o):
        q = quotient(self, o)
        return q if q is not None else self._ar(o, lambda a, b: a / b)

    def __mod__(self, o):
        return 0 if quotient(self, o) is not None else self._ar(o, lambda a, b: a % b)

    def __truediv__(self, o):
        q = quotient(self, o)
        if q is None:
            raise Unsupported('quotient of lengths')
        return q

    def __eq__(self, o):
        if isinstance(o, float) and o == int(o):
            o = int(o)
        if isinstance(o, bool) or not isinstance(o, (int, Len)):
            return False
        o = as_len(o)
        a, b = self.norm(), o.norm()
        if a is not None and b is not None:
            if a == b:
                return True
            if not a[1] and not b[1]:
                return False
        r = E.branch(self.z == o.z)
        if r and a is not None and b is not None:
            unite(a, b)
        return r

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o): return E.branch(self.z < as_len(o).z)
    def __le__(self, o): return E.branch(self.z <= as_len(o).z)
    def __gt__(self, o): return E.branch(self.z > as_len(o).z)
    def __ge__(self, o): return E.branch(self.z >= as_len(o).z)

    def __bool__(self):
        return True if self.names is not None else E.branch(self.z != 0)

    def __hash__(self):
        # equality decides (and splits the path); a length of 1 hashes like the integer
        return hash(1) if E.branch(self.z == 1) else 0

    def __index__(self):
        raise Unsupported('dimension length used as a concrete integer')
    __int__ = __float__ = __index__

    def __repr__(self):
        return 'Len(%s)' % self.z


def unite(a, b):
    (ca, na), (cb, nb) = a, b
    common = list(na)
    ra, rb = [], list(nb)
    for n in common:
        if n in rb:
            rb.remove(n)
        else:
            ra.append(n)
    if len(ra) == 1 and len(rb) == 1 and ca == cb:
        _uf()[ra[0]] = rb[0]
    elif len(ra) == 1 and not rb and cb % ca == 0:
        _uf()[ra[0]] = cb // ca
    elif len(rb) == 1 and not ra and ca % cb == 0:
        _uf()[rb[0]] = ca // cb
    elif ca == cb and not (ra and rb):
        for n in ra + rb:           # a product of positive lengths is 1
            _uf()[n] = 1


def as_len(x):
    return x if isinstance(x, Len) else Len(int(x), ())


def simple(l):
    """native int when it has no unknown part"""
    if isinstance(l, Len) and l.names is not None and not l.names:
        return l.coef
    return l


def is1(l):
    n = as_len(l).norm()
    return n == (1, ())


def quotient(a, b):
    """a / b when it is exact by the form of both, else None"""
    a, b = as_len(a).norm(), as_len(b).norm()
    if a is None or b is None or b[0] == 0 or a[0] % b[0]:
        return None
    r = list(a[1])
    for n in b[1]:
        if n not in r:
            return None
        r.remove(n)
    return simple(Len(a[0] // b[0], tuple(r)))


def same_len(a, b):
    x, y = as_len(a).norm(), as_len(b).norm()
    return x is not None and x == y


def length(name):
    """an arbitrary dimension length (at least 1)"""
    if ('len', name) not in E.facts_done:
        E.facts_done.add(('len', name))
        E.assume(zint(name) >= 1)
    return Len(1, (name,))


def product(ls):
    p = 1
    for l in ls:
        p = p * l
    return p


# ------------------------------------------------------------------ arrays
class Atom(object):
    """one axis factor"""
    __slots__ = ('len', 'children')

    def __init__(self, len):
        self.len, self.children = len, None

    def leaves(self):
        if self.children is None:
            return [self]
        return [l for c in self.children for l in c.leaves()]


def leaves(axis):
    return [l for a in axis for l in a.leaves()]


class Buffer(object):
    def __init__(self, atoms, val):
        self.atoms, self.val = atoms, val


def resolver(env, fixed):
    def ix(a):
        if a in env:
            return env[a]
        if a in fixed:
            return fixed[a]
        if a.children is not None:
            t = None
            for c in a.children:
                i = ix(c)
                t = i if t is None else t * as_len(c.len).z + i
            return t
        if is1(a.len):
            return ZERO
        raise Unsupported('position along an axis without index')
    return ix


def dtname(t):
    """canonical name of a dtype (a string)"""
    if isinstance(t, type) and issubclass(t, bool):
        return 'bool'
    if isinstance(t, type) and issubclass(t, int):
        return 'int64'
    if isinstance(t, type) and issubclass(t, float):
        return 'float64'
    return str(_np.dtype(str(t)))


def cast(value, src, dst):
    """the values of an array of type src as elements of an array of type dst"""
    if src == dst or src is None or dst is None:
        return value
    a, b = dtname(src), dtname(dst)
    if _np.can_cast(a, b, 'safe'):
        return value
    f = z3.Function('cast_%s_%s' % (a, b), Real, Real)
    return lambda ix: f(value(ix))


class ArrayModel(object):
    """numpy.ndarray: a view of a buffer"""
    __array_priority__ = 0
    partial = False

    def __init__(self, buf, axes, fixed=None, dtype='float64'):
        self.buf, self.axes, self.fixed, self._dtype = buf, axes, fixed or {}, dtype

    # ---- structure
    @property
    def shape(self):
        return tuple(simple(product(a.len for a in ax)) for ax in self.axes)

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        return product(self.shape)

    @property
    def dtype(self):
        return None if self._dtype is None else _np.dtype(dtname(self._dtype))

    @property
    def T(self):
        return self.transpose()

    def _vp_len(self):
        if not self.axes:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def view(self, axes, fixed=None):
        f = dict(self.fixed)
        f.update(fixed or {})
        return ArrayModel(self.buf, axes, f, self._dtype)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (list, tuple))):
            axes = axes[0]
        if not axes and axes != [] and axes != ():
            axes = None
        if axes is None or (len(axes) == 0 and self.axes):
            axes = range(len(self.axes))[::-1]
        axes = [a + len(self.axes) if a < 0 else a for a in axes]
        if sorted(axes) != list(range(len(self.axes))):
            raise ValueError("axes don't match array")
        return self.view([self.axes[a] for a in axes])

    def reshape(self, *shape, **kw):
        if kw.get('order', 'C') != 'C':
            raise Unsupported('reshape order')
        if len(shape) == 1 and isinstance(shape[0], (list, tuple)):
            shape = shape[0]
        target = []
        for s in shape:
            if isinstance(s, float):
                raise TypeError("'float' object cannot be interpreted as an integer")
            target.append(s)
        if any(isinstance(s, int) and s == -1 for s in target):
            rest = product(s for s in target if not (isinstance(s, int) and s == -1))
            q = quotient(self.size, rest)
            if q is None:
                raise Unsupported('reshape with -1')
            target = [q if isinstance(s, int) and s == -1 else s for s in target]
        flat = [l for ax in self.axes for l in leaves(ax)]
        fixed = {}
        axes, ok = [], True
        flat = [l for l in flat if not (is1(l.len) and not fixed.__setitem__(l, ZERO))]
        pos = 0
        for t in target:
            group, rem = [], t
            while not is1(rem):
                if pos >= len(flat):
                    ok = False
                    break
                l = flat[pos]
                q = quotient(rem, l.len)
                if q is not None:
                    group.append(l)
                    rem = q
                    pos += 1
                    continue
                q = quotient(l.len, rem)
                if q is not None:
                    l.children = [Atom(rem), Atom(q)]
                    group.append(l.children[0])
                    flat[pos] = l.children[1]
                    rem = 1
                    continue
                if as_len(rem).norm() is None or as_len(l.len).norm() is None:
                    if E.must(as_len(rem).z == as_len(l.len).z):
                        group.append(l)
                        rem = 1
                        pos += 1
                        continue
                ok = False
                break
            if not ok:
                break
            axes.append(group)
        if ok and pos == len(flat):
            return self.view(axes, fixed)
        if not (as_len(self.size) == as_len(product(target))):
            raise ValueError('cannot reshape array of size %s into shape %s' % (self.size, tuple(target)))
        # same number of elements, but not by regrouping axes: the elements end up at unrelated positions
        f = z3.Function(E.name('scrambled'), *([Int] * len(target) + [Real]))
        ats = [Atom(t) for t in target]
        return ArrayModel(Buffer(ats, lambda ix: f(*[ix(a) for a in ats])), [[a] for a in ats], {}, self._dtype)

    def ravel(self):
        return self.reshape(self.size)

    def flatten(self):
        return self.reshape(self.size).copy()

    # ---- elements
    def fn(self):
        """the elements as of now: function of (leaf atom -> position)"""
        val, fixed = self.buf.val, self.fixed
        return lambda env: val(resolver(env, fixed))

    def elem(self, idx):
        """element at the given positions, one per axis"""
        env = {}
        for ax, i in zip(self.axes, idx):
            ls = [l for l in leaves(ax) if not is1(l.len)]
            if len(ls) > 1:
                if isinstance(i, (list, tuple)) and len(i) == len(ls):
                    env.update(zip(ls, i))
                    continue
                raise Unsupported('element of a grouped axis')
            if ls:
                env[ls[0]] = i
        return self.fn()(env)

    def _vp_new(self, f, dtype=None):
        """elementwise image"""
        g = self.fn()
        m, axes = {}, []
        for ax in self.axes:
            new = []
            for l in leaves(ax):
                m[l] = Atom(l.len)
                new.append(m[l])
            axes.append(new)
        return ArrayModel(Buffer([a for ax in axes for a in ax], lambda ix: f(g({l: ix(a) for l, a in m.items()}))),
                          axes, {}, dtype or self._dtype)

    def copy(self, *a, **k):
        return self._vp_new(lambda x: x)
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, t, copy=True, **k):
        g = cast(lambda x: x, self._dtype, t)
        return self._vp_new(g, dtype=t)

    def item(self):
        if self.axes:
            raise Unsupported('item of an array')
        return SReal(self.elem([]))

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            n = sum(1 for k in key if k is not None and k is not Ellipsis)
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key = key[:i] + (slice(None),) * (len(self.axes) - n) + key[i + 1:]
        axes, fixed, pos, parts = [], {}, 0, {}
        for k in key:
            if k is None:
                axes.append([])
                continue
            if pos >= len(self.axes):
                raise IndexError('too many indices for array')
            ax = self.axes[pos]
            pos += 1
            if isinstance(k, slice):
                n = simple(product(a.len for a in ax))
                whole = k.step in (None, 1) and (k.start is None or (isinstance(k.start, int) and k.start == 0))
                if whole and k.stop is not None and not same_len(k.stop, n):
                    whole = not isinstance(k.stop, int) and E.must(as_len(k.stop).z == as_len(n).z)
                if not whole:
                    if isinstance(n, int):
                        part = k.indices(n)
                    elif all(isinstance(e, int) and e >= 0 for e in (k.start or 0, k.stop)) and E.must(as_len(n).z >= k.stop):
                        part = (k.start or 0, k.stop, k.step or 1)
                    else:
                        raise Unsupported('partial slice')
                    if part[2] != 1 or len(leaves(ax)) != 1:
                        raise Unsupported('slice')
                    parts[len(axes)] = part
                axes.append(ax)
            elif isinstance(k, int) and not isinstance(k, bool):
                ls = leaves(ax)
                n = product(a.len for a in ax)
                if isinstance(n, int):
                    if not -n <= k < n:
                        raise IndexError('index %d is out of bounds' % k)
                    if k < 0:
                        k += n
                elif k < 0 or not E.must(as_len(n).z > k):
                    raise Unsupported('index into an axis of unknown length')
                if len(ls) > 1:
                    raise Unsupported('index into a grouped axis')
                if ls:
                    fixed[ls[0]] = z3.IntVal(k)
            else:
                raise Unsupported('array index %s' % type(k).__name__)
        axes.extend(self.axes[pos:])
        v = self.view(axes, fixed)
        return v.part(parts) if parts else v

    def part(self, parts):
        """the given parts (axis: (start, stop, 1)); for reading only"""
        g, m, axes = self.fn(), {}, []
        for i, ax in enumerate(self.axes):
            new = []
            for l in leaves(ax):
                lo, hi = parts[i][:2] if i in parts else (0, None)
                m[l] = (Atom(l.len if hi is None else max(hi - lo, 0)), lo)
                new.append(m[l][0])
            axes.append(new)
        v = ArrayModel(Buffer([a for ax in axes for a in ax], lambda ix: g({l: (ix(a) + lo if lo else ix(a)) for l, (a, lo) in m.items()})),
                       axes, {}, self._dtype)
        v.partial = True
        return v

    def __setitem__(self, key, value):
        v = self[key]
        if v.partial:
            raise Unsupported('assignment to a slice')
        src = as_array(value)
        m, sfixed = align_into(v, src)
        g, sf = src.buf.val, dict(src.fixed)
        if isinstance(value, (ArrayModel, XDataArray)):
            g = cast(g, src._dtype, self._dtype)
        sf.update(sfixed)
        old, fixed = self.buf.val, dict(v.fixed)
        atoms = [a for a in self.buf.atoms]

        def val(ix):
            conds = []
            for a in atoms:
                for l in a.leaves():
                    if l in fixed and not is1(l.len):
                        conds.append(ix(l) == fixed[l])
            new = g(resolver({s: ix(d) for s, d in m.items()}, sf))
            return z3.If(z3.And(*conds), new, old(ix)) if conds else new
        self.buf.val = val

    # ---- arithmetic
    def _bin(self, o, f, name):
        if isinstance(o, XDataArray) or not isinstance(o, (ArrayModel, SReal, int, float)):
            return NotImplemented
        return elementwise(self, as_array(o), f)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, '+')
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a, '+')
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, '-')
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a, '-')
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b, '*')
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a, '*')
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b, '/')
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a, '/')
    def __neg__(self): return self._vp_new(lambda a: -a)

    def _ibin(self, o, f):
        r = elementwise(self, as_array(o), f)
        self[...] = r
        return self

    def __iadd__(self, o): return self._ibin(o, lambda a, b: a + b)
    def __isub__(self, o): return self._ibin(o, lambda a, b: a - b)
    def __imul__(self, o): return self._ibin(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._ibin(o, lambda a, b: a / b)
    __hash__ = None

    def __eq__(self, o):
        raise Unsupported('comparison of arrays')
    __ne__ = __eq__

    def __bool__(self):
        raise Unsupported('truth value of an array')

    def __iter__(self):
        raise Unsupported('iteration over an array')

    def __getattr__(self, n):
        if n in NP_NAMES:
            raise Unsupported('ndarray.' + n)
        raise AttributeError("'numpy.ndarray' object has no attribute %r" % n)

    def __repr__(self):
        return 'array(shape=%s)' % (self.shape,)


NP_NAMES = set('''all any argmax argmin argpartition argsort base byteswap choose clip compress conj conjugate ctypes cumprod
cumsum data diagonal dot dump dumps fill flags flat getfield imag itemset itemsize max mean min nbytes newbyteorder nonzero
partition prod ptp put real repeat resize round searchsorted setfield setflags sort squeeze std strides sum swapaxes take tobytes
tofile tolist tostring trace var view'''.split()) - {'view'}


def align_axis(d, s):
    """pair the leaf atoms of two axes of equal length, splitting where one is finer; None: not by regrouping"""
    d = [l for l in leaves(d) if not is1(l.len)]
    s = [l for l in leaves(s) if not is1(l.len)]
    out = []
    while d and s:
        a, b = d[0], s[0]
        if same_len(a.len, b.len):
            out.append((a, b))
            d.pop(0)
            s.pop(0)
            continue
        q = quotient(a.len, b.len)
        if q is not None:
            a.children = [Atom(b.len), Atom(q)]
            d[0:1] = a.children
            continue
        q = quotient(b.len, a.len)
        if q is not None:
            b.children = [Atom(a.len), Atom(q)]
            s[0:1] = b.children
            continue
        if len(d) == len(s) == 1 and E.must(as_len(a.len).z == as_len(b.len).z):
            return out + [(a, b)]
        return None
    return out if not d and not s else None


def align_into(dst, src):
    """map of the leaf atoms of src to those of dst (src broadcast into dst), and fixed positions"""
    if len(src.axes) > len(dst.axes):
        extra = len(src.axes) - len(dst.axes)
        for ax in src.axes[:extra]:
            if not (as_len(product(a.len for a in ax)) == 1):
                raise ValueError('could not broadcast input array')
        src = src.view(src.axes[extra:])
    m, fixed = {}, {}
    for d, s in zip(dst.axes[len(dst.axes) - len(src.axes):], src.axes):
        ls, ld = as_len(product(a.len for a in s)), as_len(product(a.len for a in d))
        if not same_len(ls, ld) and not (ls == ld):
            if not (ls == 1):
                raise ValueError('could not broadcast input array')
            for l in leaves(s):
                fixed[l] = ZERO
            continue
        pairs = align_axis(d, s)
        if pairs is None:
            raise Unsupported('axes of different structure')
        for a, b in pairs:
            m[b] = a
    return m, fixed


def elementwise(x, y, f):
    n = max(len(x.axes), len(y.axes))
    xa = [[] for _ in range(n - len(x.axes))] + list(x.axes)
    ya = [[] for _ in range(n - len(y.axes))] + list(y.axes)
    axes, mx, my, fx, fy = [], {}, {}, {}, {}
    for a, b in zip(xa, ya):
        la, lb = as_len(product(t.len for t in a)), as_len(product(t.len for t in b))
        if same_len(la, lb) or la == lb:
            pairs = align_axis(a, b)
            if pairs is None:
                raise Unsupported('axes of different structure')
            new = []
            for p, q in pairs:
                t = Atom(p.len)
                mx[p], my[q] = t, t
                new.append(t)
            axes.append(new)
        elif la == 1 or lb == 1:
            big, bm, small, sf = (b, my, a, fx) if is1(la) else (a, mx, b, fy)
            for l in leaves(small):
                sf[l] = ZERO
            new = []
            for l in leaves(big):
                t = Atom(l.len)
                bm[l] = t
                new.append(t)
            axes.append(new)
        else:
            raise ValueError('operands could not be broadcast together')
    gx, gy = x.buf.val, y.buf.val
    hx, hy = dict(x.fixed), dict(y.fixed)
    hx.update(fx)
    hy.update(fy)
    return ArrayModel(Buffer([t for ax in axes for t in ax], lambda ix: f(
        gx(resolver({l: ix(t) for l, t in mx.items()}, hx)), gy(resolver({l: ix(t) for l, t in my.items()}, hy)))), axes)


def make_array(shape, val, dtype='float64'):
    """val: function of one position per axis"""
    ats = [Atom(s) for s in shape]
    return ArrayModel(Buffer(ats, lambda ix: val(*[ix(a) for a in ats])), [[a] for a in ats], {}, dtype)


def env_array(name, lens, dtype='float64'):
    """an arbitrary array of the given lengths"""
    if lens:
        f = zfn(name, len(lens))
        return make_array(lens, lambda *i: f(*i), dtype)
    return make_array((), lambda: z3.Real(name), dtype)


class NestedList(object):
    """numbers as nested lists (not an array): numpy.asarray makes the array"""

    def __init__(self, array):
        self.array = array


def as_array(x):
    if isinstance(x, ArrayModel):
        return x
    if isinstance(x, XDataArray):
        return x.values
    if isinstance(x, NestedList):
        return x.array.copy()
    if isinstance(x, (list, tuple)):
        raise Unsupported('array of a sequence')
    t = lift_real(x)
    if t is None:
        raise Unsupported('array of %s' % type(x).__name__)
    return make_array((), lambda: t)


# ------------------------------------------------------------------ xarray
class CoordModel(object):
    def __init__(self, name, n, ident):
        self.name, self.n, self.ident = name, n, ident
        self.dims = (name,)

    def _vp_len(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n


class CoordsModel(object):
    def __init__(self, da):
        self.da = da

    def __getitem__(self, n):
        if n in self.da._coords:
            return self.da._coords[n]
        if n in self.da.dims:
            return CoordModel(n, self.da.shape[self.da.dims.index(n)], None)
        raise KeyError(n)

    def __contains__(self, n):
        return n in self.da._coords

    def __iter__(self):
        return iter(self.da._coords)

    def keys(self):
        return self.da._coords.keys()

    def items(self):
        return self.da._coords.items()

    def _vp_len(self):
        return len(self.da._coords)


class XDataArray(object):
    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None):
        if isinstance(data, XDataArray):
            dims = data.dims if dims is None else dims
            coords = data._coords if coords is None else coords
            attrs = data.attrs if attrs is None else attrs
            data = data.values
        d = as_array(data)
        if dims is None:
            dims = tuple('dim_%d' % i for i in range(len(d.axes)))
        if isinstance(dims, str):
            dims = (dims,)
        dims = tuple(dims)
        if len(dims) != len(d.axes):
            raise ValueError('different number of dimensions on data and dims: %d vs %d' % (len(d.axes), len(dims)))
        self._data, self._dimnames = d, dims
        self._coords = {}
        for n, c in dict(coords or {}).items():
            if not isinstance(c, CoordModel):
                raise Unsupported('coordinate')
            if n in dims and not (as_len(c.n) == d.shape[dims.index(n)]):
                raise ValueError('conflicting sizes for dimension %r' % n)
            self._coords[n] = c
        self.name = name
        self._attrs = dict(attrs or {})

    @property
    def attrs(self):
        return self._attrs

    @attrs.setter
    def attrs(self, v):
        self._attrs = dict(v)

    @property
    def dims(self):
        return self._dimnames

    @property
    def values(self):
        return self._data

    @values.setter
    def values(self, v):
        a = as_array(v)
        if len(a.axes) != len(self._data.axes):
            raise ValueError('replacement data must match the shape')
        self._data = a
    data = values

    @property
    def shape(self):
        return self._data.shape

    @property
    def ndim(self):
        return len(self._dimnames)

    @property
    def sizes(self):
        return dict(zip(self.dims, self.shape))

    @property
    def dtype(self):
        return self._data.dtype

    @property
    def coords(self):
        return CoordsModel(self)

    def _vp_len(self):
        return self._data._vp_len()

    def _vp_make(self, data, dims=None, attrs=None):
        r = object.__new__(type(self))
        r._data, r._dimnames = data, self._dimnames if dims is None else dims
        r._coords = {k: v for k, v in self._coords.items() if k in r._dimnames}
        r.name, r._attrs = None, dict(attrs or {})
        return r

    def transpose(self, *dims):
        if not dims:
            dims = self.dims[::-1]
        if set(dims) != set(self.dims) or len(dims) != len(self.dims):
            raise ValueError('%r must be a permuted list of %r' % (dims, self.dims))
        return self._vp_make(self._data.transpose([self.dims.index(d) for d in dims]), tuple(dims), self._attrs)

    def copy(self, deep=True, data=None):
        return self._vp_make(self._data.copy() if deep else self._data, None, self._attrs)

    def __copy__(self):
        return self.copy(deep=False)

    def __deepcopy__(self, memo):
        return self.copy()

    def _bin(self, o, f, refl=False):
        if isinstance(o, XDataArray):
            dims = self.dims + tuple(d for d in o.dims if d not in self.dims)
            r = elementwise(self._spread(dims), o._spread(dims), f)
            out = self._vp_make(r, dims)
            out._coords.update({k: v for k, v in o._coords.items() if k in dims})
            return out
        if not isinstance(o, (SReal, int, float)):
            return NotImplemented
        return self._vp_make(elementwise(self._data, as_array(o), f))

    def _spread(self, dims):
        a = self._data.transpose([self.dims.index(d) for d in dims if d in self.dims])
        return a.view([a.axes.pop(0) if d in self.dims else [] for d in dims]) if False else a[tuple(
            slice(None) if d in self.dims else None for d in dims)]

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __neg__(self): return self._vp_make(-self._data)
    __hash__ = None

    def __eq__(self, o):
        raise Unsupported('comparison of DataArrays')
    __ne__ = __eq__

    def __bool__(self):
        raise Unsupported('truth value of a DataArray')

    def __getattr__(self, n):
        if n.startswith('__') or n in ('pint', 'magnitude', 'units', 'm', 'keys', 'items'):
            raise AttributeError(n)
        raise Unsupported('DataArray.' + n)

    def _vp_convert(self, u, v):
        return self._vp_make(self._data._vp_convert(u, v))

    def __repr__(self):
        return '<DataArray %s %s>' % (self.dims, self.shape)


def _conv(self, u, v):
    return self._vp_new(lambda x: conv(u, v, x), 'float64')


ArrayModel._vp_convert = _conv


# ------------------------------------------------------------------ numpy
class _DType(str):
    """a numpy scalar type"""

    def __call__(self, x):
        return x


def make_numpy():
    np = types.ModuleType('numpy')
    np.ndarray = ArrayModel
    for t in 'float64 float32 int64 int32 bool_ complex128'.split():
        setattr(np, t, _DType(t))
    np.float_ = np.float64
    np.newaxis = None

    def new(val):
        def f(shape, dtype=np.float64, order='C'):
            if not isinstance(shape, (list, tuple)):
                shape = (shape,)
            for s in shape:
                if isinstance(s, float):
                    raise TypeError("'float' object cannot be interpreted as an integer")
            ats = [Atom(s) for s in shape]
            g = val()
            return ArrayModel(Buffer(ats, lambda ix: g), [[a] for a in ats], {}, dtype)
        return f
    np.zeros = new(lambda: z3.RealVal(0))
    np.ones = new(lambda: z3.RealVal(1))
    np.empty = new(lambda: z3.Real(E.name('uninitialised')))

    def full(shape, value, dtype=np.float64):
        t = lift_real(value)
        if t is None:
            raise Unsupported('np.full')
        return new(lambda: t)(shape, dtype)
    np.full = full
    np.zeros_like = lambda a, dtype=None: np.zeros(a.shape, dtype or a.dtype)
    np.ones_like = lambda a, dtype=None: np.ones(a.shape, dtype or a.dtype)
    np.empty_like = lambda a, dtype=None: np.empty(a.shape, dtype or a.dtype)
    np.asarray = lambda a, dtype=None: as_array(a) if dtype is None else as_array(a).astype(dtype)
    np.asanyarray = np.ascontiguousarray = np.asarray
    np.array = lambda a, dtype=None, copy=True: np.asarray(a, dtype).copy()
    np.reshape = lambda a, shape: as_array(a).reshape(shape)
    np.transpose = lambda a, axes=None: as_array(a).transpose(axes)
    np.ravel = lambda a: as_array(a).ravel()
    np.shape = lambda a: as_array(a).shape
    np.ndim = lambda a: as_array(a).ndim
    np.size = lambda a: as_array(a).size

    def prod(a, *r, **k):
        if r or k or not isinstance(a, (list, tuple)):
            raise Unsupported('np.prod')
        return product(a) if a else 1.0
    np.prod = np.product = prod

    def expand_dims(a, axis):
        a = as_array(a)
        if not isinstance(axis, int):
            raise Unsupported('expand_dims')
        if axis < 0:
            axis += len(a.axes) + 1
        return a.view(a.axes[:axis] + [[]] + a.axes[axis:])
    np.expand_dims = expand_dims

    def moveaxis(a, s, d):
        a = as_array(a)
        n = len(a.axes)
        order = [i for i in range(n) if i != s % n]
        order.insert(d % n, s % n)
        return a.transpose(order)
    np.moveaxis = moveaxis

    def broadcast_to(a, shape, subok=False):
        a = as_array(a)
        out = np.empty(tuple(shape), a.dtype)
        out[...] = a
        return out
    np.broadcast_to = broadcast_to

    def stack(arrays, axis=0):
        arrays = [as_array(a) for a in arrays]
        if not arrays:
            raise ValueError('need at least one array to stack')
        shape = list(arrays[0].shape)
        if axis < 0:
            axis += len(shape) + 1
        shape.insert(axis, len(arrays))
        out = np.empty(shape, str(_np.result_type(*[dtname(a.dtype) for a in arrays])))
        for i, a in enumerate(arrays):
            out[tuple([slice(None)] * axis + [i])] = a
        return out
    np.stack = stack
    np.copy = lambda a: as_array(a).copy()
    np.add = lambda a, b: a + b
    np.multiply = lambda a, b: a * b

    def getter(n):
        if n.startswith('__'):
            raise AttributeError(n)

        def f(*a, **k):
            raise Unsupported('numpy.' + n)
        return f
    np.__getattr__ = getter
    return np


# ------------------------------------------------------------------ loading
def vlen(x):
    f = getattr(type(x), '_vp_len', None)
    return f(x) if f else len(x)


class NativeRT(object):
    BUILTINS = {'len': vlen}


_cache = {}


def source_code(name):
    """the code object of a module already loaded"""
    path = os.path.join(REPO, *name.split('.')) + '.py'
    st = os.stat(path)
    return _cache[path, st.st_mtime_ns, st.st_size]


class NativePackage(loader.Package):
    """Executes the modules unmodified."""

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path, ispkg = self._path(name)
        if not os.path.exists(path):
            raise ImportError('No module named ' + name)
        st = os.stat(path)
        k = (path, st.st_mtime_ns, st.st_size)
        if k not in _cache:
            with open(path, encoding='utf-8') as f:
                _cache[k] = compile(f.read(), path, 'exec', optimize=0)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        b = dict(builtins.__dict__)
        b.update(self.rt.BUILTINS)
        b['__import__'] = self._import
        m.__dict__['__builtins__'] = b
        self.modules[name] = m
        try:
            exec(_cache[k], m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        par, _, leaf = name.rpartition('.')
        if par and par in self.modules:
            setattr(self.modules[par], leaf, m)
        return m


def nload(*mods, **kw):
    """A fresh copy of the real package, unmodified, for this path."""
    from . import spec
    m = models.make_models()
    import copy
    m['copy'] = copy
    xr = types.ModuleType('xarray')
    xr.DataArray = XDataArray
    m['xarray'] = xr
    m['numpy'] = make_numpy()
    m.update(kw.get('extra') or {})
    rt = NativeRT
    if kw.get('builtins'):
        rt = type('RT', (NativeRT,), {'BUILTINS': dict(NativeRT.BUILTINS, **kw['builtins'])})
    p = NativePackage(REPO, m, rt)
    for x in mods:
        p.load(x)
    spec.LOADED.update(x for x in p.modules if x.startswith('sympl'))
    return p


def unit(name):
    """an arbitrary valid unit, spelled with the given token"""
    E.assume(uvalid(E.lit(name)))
    E.ghost.setdefault('unit tokens', set()).add(name)
    return name


def uterm(s):
    """the unit a (native) unit string means"""
    t = E.lit(s)
    for tok in E.ghost.get('unit tokens', ()):
        if s.startswith(tok + ' ') and s[len(tok) + 1:] and ('tok', s) not in E.facts_done:
            E.facts_done.add(('tok', s))
            E.assume(Uof(t) == models.umul(Uof(E.lit(tok)), Uof(E.lit(s[len(tok) + 1:]))))
            E.assume(uvalid(t))
    r = s.replace('%', 'percent').replace(u'\xb0', 'degree')
    if r != s and ('pct', s) not in E.facts_done:          # both spellings are defined as the same unit
        E.facts_done.add(('pct', s))
        E.assume(z3.And(Uof(t) == uterm(r), uvalid(t) == uvalid(E.lit(r))))
    return unit_term(t)


def maybe_unit(name):
    """an arbitrary string, valid as a unit or not"""
    E.ghost.setdefault('unit tokens', set()).add(name)
    return name
