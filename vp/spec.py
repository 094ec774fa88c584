"""Vocabulary for contracts: symbolic environments and postcondition helpers."""
import os
from .core import *
from . import core, rt, models, loader
from .models import (NDArray, DataArrayModel, new_array, conv, Uof, uvalid, ucompat, usame, unit_facts,
                     unit_term, uA, uB)

REPO = os.environ.get('VP_REPO', '/repo')


def load(*mods, **kw):
    """A fresh copy of the real package for this path."""
    p = loader.Package(REPO, models.make_models(kw.get('extra')), rt)
    for m in mods:
        p.load(m)
    LOADED.update(m for m in p.modules if m.startswith('sympl'))
    return p


LOADED = set()


def fn(name, *sorts):
    return z3.Function(name, *sorts)


def key(hint='k'):
    return E.fresh(hint, Str)


class EnvDA(object):
    """A family of environment DataArrays name(args): value, units, dims, attrs."""

    def __init__(self, name, sorts, cls, units=True, other_attrs=True, isfloat=True, unit=None, pre=None, dims=None):
        self.name, self.cls = name, cls
        s = list(sorts)
        self.val = fn(name + '.val', *(s + [Real]))
        self.unit = unit if unit is not None else fn(name + '.units', *(s + [Str]))
        self.dims = dims if dims is not None else fn(name + '.dims', *(s + [Dims]))
        self.pre = pre
        self.isf = fn(name + '.isfloat', *(s + [Bool]))
        self.hasattr_ = fn(name + '.hasattr', *(s + [Str, Bool]))
        self.attr = fn(name + '.attr', *(s + [Str, Str]))
        self.units, self.isfloat = units, isfloat
        self.fbuf = Family(name + '.buf', self._rbuf)
        self.fattrs = Family(name + '.attrs', self._rattrs)
        self.fda = Family(name + '.da', self._rda)

    def _rbuf(self, args, k):
        s = LIT_OF.get(k.get_id())
        if s == '#val':
            return SReal(self.val(*args))
        if s == '#float':
            return SBool(z3.BoolVal(True) if self.isfloat else self.isf(*args))
        if s == '#ashape':
            return ABSENT
        raise Unsupported('buffer field %s' % s)

    def _rattrs(self, args, k):
        u = E.lit('units')
        if self.units is True:
            if E.branch(k == u):
                return SStr(self.unit(*args))
        if self.units is False and E.branch(k == u):
            return ABSENT
        if E.branch(self.hasattr_(*(list(args) + [k]))):
            if E.branch(k == u):
                return SStr(self.unit(*args))
            return SStr(self.attr(*(list(args) + [k])))
        return ABSENT

    def _rda(self, args, k):
        s = LIT_OF.get(k.get_id())
        if s == '#data':
            a = NDArray()
            a._ref = self.fbuf.ref(*args)
            return a
        if s == '#attrs':
            d = VDict.__new__(VDict)
            d._ref = self.fattrs.ref(*args)
            return d
        if s == '#dims':
            return SDims(self.dims(*args))
        raise Unsupported('DataArray field %s' % s)

    def at(self, *args):
        d = object.__new__(self.cls)
        d._ref = self.fda.ref(*args)
        if self.units is True:
            E.assume(uvalid(self.unit(*args)))
        if self.pre is not None:
            for t in self.pre(*args):
                E.assume(t)
        return d


class EnvArr(object):
    """family of environment ndarrays"""

    def __init__(self, name, sorts):
        self.val = fn(name + '.val', *(list(sorts) + [Real]))
        self.fbuf = Family(name + '.buf', self._rbuf)

    def _rbuf(self, args, k):
        s = LIT_OF.get(k.get_id())
        if s == '#val':
            return SReal(self.val(*args))
        if s == '#float':
            return SBool(z3.BoolVal(True))
        if s == '#ashape':
            return ABSENT
        raise Unsupported('buffer field %s' % s)

    def at(self, *args):
        a = NDArray()
        a._ref = self.fbuf.ref(*args)
        return a


def bound_names():
    """Bounded fallback (E.bound = K): every environment dictionary has its keys among K arbitrary distinct names."""
    if 'bound names' not in E.ghost:
        E.ghost['bound names'] = ns = [z3.Const('name!%d' % i, Str) for i in range(E.bound)]
        if len(ns) > 1:
            E.assume(z3.Distinct(*ns))
    return E.ghost['bound names']


ENV_DICTS = 0


class EnvDict(object):
    """Environment dict with symbolic domain: `dom` is a z3 predicate over
    args+key; `value(args, key)` builds the entry."""

    def __init__(self, name, sorts, value, dom=None, special=None):
        self.name = name
        self._dom = dom if dom is not None else fn(name + '.dom', *(list(sorts) + [Str, Bool]))
        self.value = value
        self.special = special or {}
        global ENV_DICTS
        ENV_DICTS += 1
        self.fam = Family(name, self._read)
        if E.bound:
            self.fam.explicit = self._list

    def dom(self, *a):
        r = self._dom(*a)
        if E.bound:
            E.assume(z3.Implies(r, z3.Or(*[a[-1] == n for n in bound_names()])))
        return r

    def _list(self, args):
        out = []
        for s, f in self.special.items():
            v = f()
            if v is not ABSENT:
                out.append((E.lit(s), v))
        for n in bound_names():
            for s in self.special:
                E.assume(n != E.lit(s))
            if E.branch(self.dom(*(list(args) + [n]))):
                out.append((n, self.value(list(args), n)))
        return out

    def _read(self, args, k):
        for s, f in self.special.items():
            if E.branch(k == E.lit(s)):
                return f()
        if E.branch(self.dom(*(list(args) + [k]))):
            return self.value(list(args), k)
        return ABSENT

    def dict(self, *args):
        d = VDict.__new__(VDict)
        d._ref = self.fam.ref(*args)
        return d

    def has(self, k, *args):
        return self.dom(*(list(args) + [k]))


class State(object):
    """A symbolic model state: any set of quantities (DataArrays with units) and
    optionally 'time'."""

    def __init__(self, name, cls, time=True, dom=None, units=True, isfloat=True, **kw):
        self.da = EnvDA(name, [Str], cls, units=units, isfloat=isfloat, **kw)
        self.time = STime(z3.Const(name + '.time', Real)) if time else None
        self.env = EnvDict(name, [], lambda a, k: self.da.at(k), dom=dom,
                           special={'time': lambda: self.time} if time else {'time': lambda: ABSENT})
        self.d = self.env.dict()

    def has(self, k):
        return self.env.dom(k)

    def val(self, k):
        return self.da.val(k)

    def units(self, k):
        return self.da.unit(k)


# ---------------------------------------------------------------- reading
def get(d, k):
    """Entry of a dict value at a z3 key (ABSENT when missing)."""
    return read(d._ref, k if z3.is_expr(k) else as_key(k))


def value_of(x):
    if isinstance(x, DataArrayModel):
        return x._arr()._val()
    if isinstance(x, NDArray):
        return x._val()
    return lift_real(x)


def units_of(x):
    u = read(x.attrs._ref, E.lit('units'))
    return None if u is ABSENT else as_key(u)


def is_da(x):
    return isinstance(x, DataArrayModel)


def prove_da(name, x, cls, value, units=None, dims=None, isfloat=None):
    """x is a DataArray with the given value / units / dims"""
    if not isinstance(x, DataArrayModel):
        return E.fail(name + ': is a DataArray', 'got %s' % type(x).__name__)
    ok = E.prove(name + ': value', value_of(x) == value)
    if units is not None:
        u = units_of(x)
        if u is None:
            ok &= E.fail(name + ': has units')
        else:
            ok &= E.prove(name + ': units', u == units)
    if dims is not None:
        ok &= E.prove(name + ': dims', x._dims() == dims)
    return ok


def prove_unchanged_da(name, da_fam, k, dict_=None):
    """The environment array da_fam(k) still has its original data and units."""
    x = da_fam.at(k)
    E.prove(name + ': data not modified', value_of(x) == da_fam.val(k))
    if da_fam.units is True:
        u = units_of(x)
        if u is None:
            E.fail(name + ': units attribute removed')
        else:
            E.prove(name + ': units not modified', u == da_fam.unit(k))


def prove_state_unchanged(name, st):
    """dict entries, array data and attributes of an environment state."""
    k = key('kf')
    v = get(st.d, k)
    if E.branch(k == E.lit('time')):
        if st.time is None:
            E.prove(name + ': no time added', v is ABSENT)
        else:
            E.prove(name + ': time kept', same_value(v, st.time))
        return
    if E.branch(st.has(k)):
        E.prove(name + ': same entries', same_value(v, st.da.at(k)))
        prove_unchanged_da(name, st.da, k)
    else:
        E.prove(name + ': no entries added', v is ABSENT)


def loops_done_at(k):
    """instantiate at k what the completed loops say about every element (that it took no exit)"""
    for B, coll in list(E.done):
        if B.index is not None and B.index.sort() == k.sort() and B.exits and coll.member(k):
            enter_case(B, k)
    empty_at(k)


def outcome(f, *a, **k):
    """('ok', value) or ('exc', exception)"""
    try:
        return 'ok', f(*a, **k)
    except Exception as e:
        return 'exc', e


def digest(x, keys, seen=None, after=None):
    """Everything observable of an object graph of the verified code, dictionaries at the given keys.
    after: a value known to the caller (the state's value after the call), abbreviated."""
    seen = set() if seen is None else seen
    if after is not None:
        t = digest(x, keys, seen)
        return t.replace(' '.join(('(%s |' % z3.simplify(after).sexpr()).split()), '(AFTER |')
    if isinstance(x, Sym):
        return '%s:%s' % (type(x).__name__, x.t.sexpr())
    if keys is None and isinstance(x, Obj):
        return repr(x._ref)          # by identity
    if isinstance(x, DataArrayModel):
        u = units_of(x)
        return 'DA(%s | %s | %s)' % (' '.join(z3.simplify(value_of(x)).sexpr().split()), None if u is None else u.sexpr(), x._dims().sexpr())
    if isinstance(x, NDArray):
        return 'A(%s)' % z3.simplify(x._val()).sexpr()
    if isinstance(x, (VDict, VSet)):
        return '{%s}' % ', '.join(digest(read(x._ref, k), keys, seen) for k in keys)
    if isinstance(x, (list, tuple)):
        raw = x._raw() if isinstance(x, VList) else list(x)
        return '[%s]' % ', '.join(digest(y, keys, seen) for y in raw)
    if isinstance(x, (Segment, EnvSeg, Obj)):
        raise Unsupported('digest of %s' % type(x).__name__)
    if x is None or isinstance(x, (int, float, str, bool)) or x is ABSENT:
        return repr(x)
    if type(x).__module__.startswith('sympl') and hasattr(x, '__dict__'):
        if id(x) in seen:
            return '<%s>' % type(x).__name__
        seen.add(id(x))
        return '%s(%s)' % (type(x).__name__, ', '.join('%s=%s' % (n, digest(v, keys, seen)) for n, v in sorted(x.__dict__.items())))
    if isinstance(x, (STime, STd)) or not hasattr(x, '__dict__'):
        return repr(x)
    return '<%s>' % type(x).__name__


def shift_names(text, steps):
    """renames the environment functions <prefix><n> to <prefix><n+step>"""
    import re
    for prefix, by in steps.items():
        text = re.sub(r'(?<![\w.])%s(\d+)(?=[.\s|),\]]|$)' % re.escape(prefix), lambda m: '%s%d' % (prefix, int(m.group(1)) + by), text)
    return text


def history_closed(name, before, after, steps):
    """Inductive step over histories: the object's data after one more call is the same expression of the
    later calls' inputs, so what is proved for the last call holds for every later one."""
    ok = shift_names(before, steps) == after
    if ok:
        E.record(name, 'proved', 0, 'syntactic')
    else:
        E.notes.append('bounded: %s not established (%s / %s)' % (name, shift_names(before, steps)[:300], after[:300]))
    return ok


CONTRACTS = []


class Contract(object):
    """bounded: None, or what the quantification is bounded by; tier: 'quick' or 'thorough'"""

    def __init__(self, name, props, functions, fn, bounded=None, tier='quick'):
        self.name, self.props, self.functions, self.fn, self.bounded = name, props, functions, fn, bounded
        self.tier = tier


def contract(props, functions, bounded=None, tier='quick'):
    def deco(f):
        CONTRACTS.append(Contract(f.__name__, props.split(), functions.split(), f, bounded, tier))
        return f
    return deco


TAGS = {}


def about(props, name):
    """this obligation concerns only some of the properties its contract serves"""
    TAGS[name] = props.split()
    return name
