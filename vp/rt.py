"""Run-time support for rewritten code: containers, strings, builtins."""
import builtins as _b
import string as _string
from .core import *
from . import core


def mkdict(items, stars):
    d = VDict()
    for (k, v), st in zip(items, stars):
        if st:
            d.update(v)
        else:
            d[k] = v
    return d


def mklist(items):
    return VList([wrap(x) for x in items])


def mkset(items):
    return VSet(items)


loop = core.loop


def _piece(x):
    if isinstance(x, (str, SStr)):
        return x
    if isinstance(x, (Sym, Obj, VList, View)):
        return token(x)
    try:
        return format(x)
    except Exception:
        return token(x)


def fstring(*parts):
    return _concat([_piece(p) for p in parts])


def _concat(parts):
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    try:
        return sstr_concat(parts)
    except Unsupported:
        return ''.join(p if isinstance(p, str) else token(p) for p in parts)


def str_format(s, *args, **kw):
    if not isinstance(s, str):
        return s.format(*args, **kw)
    if not any(isinstance(a, (SStr, str)) for a in args) and not any(isinstance(a, (SStr, str)) for a in kw.values()):
        return s.format(*[_piece(a) for a in args], **{k: _piece(v) for k, v in kw.items()})
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            return s.format(*[_piece(a) for a in args], **{k: _piece(v) for k, v in kw.items()})
        if (spec or conv) and isinstance(v, Sym):
            out.append(token(v))
        elif spec or conv:
            out.append(('{' + ('!' + conv if conv else '') + (':' + spec if spec else '') + '}').format(v))
        else:
            out.append(_piece(v))
    return _concat(out)


def str_join(sep, *args):
    if not isinstance(sep, str):
        return sep.join(*args)
    xs = args[0]
    if isinstance(xs, (VDict, VSet, View)) or (isinstance(xs, VList) and xs._segs()):
        return token(xs)
    xs = list(loop(xs, ()))
    if all(isinstance(x, str) for x in xs):
        return sep.join(xs)
    parts = []
    for n, x in enumerate(xs):
        if n:
            parts.append(sep)
        parts.append(_piece(x))
    return _concat(parts)


def is_(a, b):
    if isinstance(a, Obj) and isinstance(b, Obj):
        return E.branch(same_value(a, b))
    if isinstance(a, Sym) and isinstance(b, Sym):
        if a is b:
            return True
        # equal immutable values may or may not be one object
        return E.branch(same_value(a, b)) and E.choose(2, 'is') == 0
    return a is b


def mod(a, b):
    if isinstance(a, str):
        t = b if isinstance(b, tuple) else (b,)
        if any(isinstance(x, SStr) for x in t) and a.count('%s') == len(t) == a.count('%'):
            bits = a.split('%s')
            parts = [bits[0]]
            for x, l in zip(t, bits[1:]):
                parts += [_piece(x), l]
            return _concat(parts)
        return a % tuple(_piece(x) if isinstance(x, (Sym, Obj, VList)) else x for x in t)
    return a % b


# ------------------------------------------------------------------ builtins
class _Meta(type):
    def __instancecheck__(cls, x):
        return cls.check(x)

    def __subclasscheck__(cls, c):
        return any(issubclass(c, r) for r in cls.real)

    def __call__(cls, *a, **k):
        return cls.make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o in cls.real

    def __hash__(cls):
        return id(cls)


class Tuple(metaclass=_Meta):
    real = (tuple,)

    @staticmethod
    def check(x):
        return isinstance(x, tuple)

    @staticmethod
    def make(it=()):
        if isinstance(it, tuple):
            return it
        if isinstance(it, VList):
            return tuple(it._raw())
        if isinstance(it, SVal):
            return it
        out = VList()
        for x in loop(it, ()):
            out.append(x)
        return tuple(out._raw())


class ListT(metaclass=_Meta):
    real = (list,)

    @staticmethod
    def check(x):
        return isinstance(x, list)

    @staticmethod
    def make(it=()):
        if isinstance(it, VList):
            return VList(it._raw())
        if isinstance(it, SVal):
            return it
        out = VList()
        for x in loop(it, ()):
            out.append(x)
        return out


class DictT(metaclass=_Meta):
    real = (dict, VDict)

    @staticmethod
    def check(x):
        return isinstance(x, (dict, VDict))

    @staticmethod
    def make(*a, **k):
        return VDict(*a, **k)

    fromkeys = VDict.fromkeys


class SetT(metaclass=_Meta):
    real = (set, VSet)

    @staticmethod
    def check(x):
        return isinstance(x, (set, VSet))

    @staticmethod
    def make(*a):
        return VSet(*a)

    @staticmethod
    def union(s, *its):
        return s.union(*its)

    @staticmethod
    def intersection(s, *its):
        return s.intersection(*its)


class StrT(metaclass=_Meta):
    real = (str, SStr)

    @staticmethod
    def check(x):
        return isinstance(x, (str, SStr))

    @staticmethod
    def make(*a, **k):
        if not a:
            return ''
        x = a[0]
        if isinstance(x, (SStr, str)):
            return x
        f = getattr(x, '_vp_str', None)
        if f is not None:
            return f()
        return _piece(x) if isinstance(x, (Sym, Obj, VList)) else str(*a, **k)


class FloatT(metaclass=_Meta):
    real = (float, SReal)

    @staticmethod
    def check(x):
        return isinstance(x, float) or (isinstance(x, SReal) and not isinstance(x, SInt))

    @staticmethod
    def make(x=0.0):
        if isinstance(x, SInt):
            return SReal(z3.ToReal(x.t))
        if isinstance(x, SReal):
            return x
        f = getattr(x, '_vp_float', None)
        if f is not None:
            return f()
        return float(x)


class IntT(metaclass=_Meta):
    real = (int, SInt)

    @staticmethod
    def check(x):
        return isinstance(x, (int, SInt))

    @staticmethod
    def make(*a):
        if a and isinstance(a[0], SInt):
            return a[0]
        if a and isinstance(a[0], SReal):
            return SInt(z3.ToInt(a[0].t))
        return int(*a)


def vlen(x):
    f = getattr(x, '_len', None)
    if f is not None and not isinstance(x, type):
        return f()
    if isinstance(x, tuple) and any(isinstance(y, (Segment, EnvSeg)) for y in x):
        return VList(x)._len()
    return len(x)


def vany(it):
    for x in loop(it, ()):
        if x:
            return True
    return False


def vall(it):
    for x in loop(it, ()):
        if not x:
            return False
    return True


def _finite(it):
    """A finite native list of the items, or None."""
    x = loop(it, ())
    if isinstance(x, core.LoopIter):
        return None
    return list(x)


def vzip(*its):
    fs = [_finite(i) for i in its]
    if any(f is None for f in fs):
        raise Unsupported('zip over a symbolic collection')
    return list(zip(*fs))


def venumerate(it, start=0):
    x = loop(it, ())
    if isinstance(x, core.LoopIter):
        return core.EnumColl(x.coll, start)
    return enumerate(x, start)


def vsorted(it, key=None, reverse=False):
    f = _finite(it)
    if f is None or any(isinstance(x, Sym) for x in f):
        if isinstance(it, (VSet, VDict, View)):
            return it          # order abstracted: iteration order of symbolic collections is arbitrary
        raise Unsupported('sorted of symbolic values')
    return VList(sorted(f, key=key, reverse=reverse))


def vreversed(x):
    f = _finite(x)
    if f is None:
        raise Unsupported('reversed of a symbolic collection')
    return list(reversed(f))


def vsum(it, start=0):
    f = _finite(it)
    if f is None:
        raise Unsupported('sum over a symbolic collection')
    for x in f:
        start = start + x
    return start


def _ext(name, better):
    def g(*a, **k):
        if len(a) == 1:
            a = _finite(a[0])
            if a is None:
                raise Unsupported(name + ' over a symbolic collection')
        if not a:
            return getattr(_b, name)(a, **k)
        key = k.get('key', lambda x: x)
        r = a[0]
        for x in a[1:]:
            if better(key(x), key(r)):
                r = x
        return r
    return g


def vmap(f, *its):
    out = VList()
    if len(its) == 1:
        for x in loop(its[0], ()):
            out.append(f(x))
        return out
    for t in vzip(*its):
        out.append(f(*t))
    return out


def vfilter(f, it):
    out = VList()
    for x in loop(it, ()):
        if (f(x) if f is not None else x):
            out.append(x)
    return out


def viter(x, *a):
    if a:
        return iter(x, *a)
    y = loop(x, ())
    if isinstance(y, core.LoopIter):
        raise Unsupported('explicit iterator over a symbolic collection')
    return iter(y)


def vrange(*a):
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 1:
            n = a[0].t
            return VList([EnvSeg(n, lambda i: SInt(i))])
        raise Unsupported('symbolic range')
    return range(*a)


def vrepr(x):
    return _piece(x) if isinstance(x, (Sym, Obj, VList)) else repr(x)


BUILTINS = dict(
    dict=DictT, list=ListT, set=SetT, frozenset=SetT, tuple=Tuple, str=StrT, float=FloatT, int=IntT,
    len=vlen, any=vany, all=vall, zip=vzip, enumerate=venumerate, sorted=vsorted, reversed=vreversed,
    sum=vsum, min=_ext('min', lambda a, b: a < b), max=_ext('max', lambda a, b: a > b),
    map=vmap, filter=vfilter, iter=viter, range=vrange, repr=vrepr, print=lambda *a, **k: None)
