"""Arbitrary components for contracts of code which calls components: every method result is
an unconstrained function of the call number, every property dictionary is arbitrary."""
from ..spec import *

KINDS = {'T': 'TendencyComponent', 'I': 'ImplicitTendencyComponent', 'D': 'DiagnosticComponent', 'S': 'Stepper'}
PROPS = {'T': ('tendency', 'diagnostic'), 'I': ('tendency', 'diagnostic'), 'D': ('diagnostic',), 'S': ('output', 'diagnostic')}


class StubFailure(Exception):
    pass


class EnvProps(object):
    """An arbitrary properties dictionary: any names, each with units and dims (and optionally an alias)."""

    def __init__(self, name, dom=None, unit=None, dims=None, pre=None, alias=False, units_opt=False, dims_opt=False):
        self.name = name
        self.unit = unit if unit is not None else fn(name + '.units', Str, Str)
        self.dimsf = dims if dims is not None else fn(name + '.dims', Str, Dims)
        self.alias_has = fn(name + '.hasalias', Str, Bool)
        self.aliasf = fn(name + '.alias', Str, Str)
        self.has_units = fn(name + '.hasunits', Str, Bool) if units_opt else None
        self.has_dims = fn(name + '.hasdims', Str, Bool) if dims_opt else None
        self.pre, self.alias = pre, alias
        self.fin = Family(name + '.entry', self._rin)
        if E.bound:
            self.fin.explicit = lambda args: [(f, v) for f, v in (
                (E.lit(s), self._rin(args, E.lit(s))) for s in ('dims', 'units', 'alias')) if v is not ABSENT]
        self.env = EnvDict(name, [], self._entry, dom=dom)
        self.d = self.env.dict()

    def dom(self, k):
        return self.env.dom(k)

    def _entry(self, args, k):
        if self.pre is not None:
            for t in self.pre(k):
                E.assume(t)
        d = VDict.__new__(VDict)
        d._ref = self.fin.ref(k)
        return d

    def _rin(self, args, f):
        k = args[0]
        if E.branch(f == E.lit('units')):
            if self.has_units is None or E.branch(self.has_units(k)):
                return SStr(self.unit(k))
            return ABSENT
        if E.branch(f == E.lit('dims')):
            if self.has_dims is None or E.branch(self.has_dims(k)):
                return SDims(self.dimsf(k))
            return ABSENT
        if self.alias and E.branch(f == E.lit('alias')):
            return SStr(self.aliasf(k)) if E.branch(self.alias_has(k)) else ABSENT
        return ABSENT

    def unchanged(self, name, k=None):
        k = key('kp') if k is None else k
        f = key('fp')
        if not E.branch(self.dom(k)):
            E.prove(name + ': no entry added', get(self.d, k) is ABSENT)
            return
        v = get(self.d, k)
        if not isinstance(v, VDict):
            E.fail(name + ': entry kept')
            return
        E.prove(name + ': entry kept', same_value(v, self._entry([], k)))
        E.prove(name + ': entry not modified', same_opt(get(v, f), self._rin([k], f)))


def same_opt(a, b):
    if a is ABSENT or b is ABSENT:
        return a is b
    return same_value(a, b)


def stub(pkg, name, kind, same_outputs=False, features=True):
    """An arbitrary component of the given kind; its base constructor is not run (its own contract)."""
    bc = pkg.modules['sympl._core.base_components']
    DA = pkg.modules['sympl._core.dataarray'].DataArray
    base = getattr(bc, KINDS[kind])
    P = {'input': EnvProps(name + '.input_properties')}
    for p in PROPS[kind]:
        P[p] = EnvProps(name + '.%s_properties' % p)
    ns = {p + '_properties': q.d for p, q in P.items()}

    def __init__(self):
        self.calls = []
        self.broken = False

    def outputs(self, n):
        if same_outputs:
            n = 0
        out = {}
        for p in PROPS[kind]:
            da = EnvDA('%s.%s%d' % (name, p, n), [Str], DA)
            pre = self.pre.get(p)
            da.pre = pre
            ed = EnvDict('%s.%ss%d' % (name, p, n), [], lambda a, k, da=da: da.at(k), dom=self.doms.get(p))
            out[p] = (da, ed)
        return out

    def call(self, state, *a):
        if self.broken:
            raise StubFailure()
        n = len(self.calls)
        o = self.outputs(n)
        self.calls.append(dict(state=state, args=a, out=o, snap=E.node))
        ds = [o[p][1].dict() for p in PROPS[kind]]
        if kind == 'D':
            return ds[0]
        if kind == 'S':
            return ds[1], ds[0]
        return tuple(ds)
    if kind in 'IS':
        def __call__(self, state, timestep):
            return call(self, state, timestep)
    else:
        def __call__(self, state):
            return call(self, state)
    ns.update(__init__=__init__, __call__=__call__, outputs=outputs, array_call=lambda self, state: None)
    cls = type(base)('Stub' + kind, (base,), ns)
    s = cls()
    s.P, s.doms, s.pre, s.kind = P, {}, {}, kind
    # whatever features the component uses
    s._tendencies_in_diagnostics = SBool(z3.Const(name + '.tendencies_in_diagnostics', Bool))
    s.name = SStr(z3.Const(name + '.name', Str))
    if features:
        s.uses_tracers = SBool(z3.Const(name + '.uses_tracers', Bool))
    return s


def invoke(comp, wrapper, state, dt):
    """call a wrapper of comp in the way its kind is called; outputs by kind of output"""
    r = wrapper(state, dt) if comp.kind in 'IS' else wrapper(state)
    if comp.kind == 'D':
        return {'diagnostic': r}
    if comp.kind == 'S':
        return {'diagnostic': r[0], 'output': r[1]}
    return {'tendency': r[0], 'diagnostic': r[1]}


def at(snap, f):
    cur, E.node = E.node, snap
    try:
        return f()
    finally:
        E.node = cur


def prove_exists(name, sort, pred, detail=''):
    x = z3.Const('x!ex', sort)
    return E.prove(name, z3.Exists([x], pred(x)), detail)


def prove_attrs_like(name, x, fam, k):
    """x has exactly the original attributes of the environment array fam(k)"""
    a = key('att')
    E.prove(name + ': attributes', same_opt(read(x.attrs._ref, a), fam._rattrs((k,), a)))
