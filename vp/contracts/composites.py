"""Contracts: composites (C06, C07) and the monitors which pass states on (C25)."""
from ..spec import *
from .stubs import *

MODS = ('sympl._core.base_components', 'sympl._core.composite')
NMAX = 3


def no_properties_checks(pkg):
    """The property dictionaries a composite combines have contracts of their own (C07, C08)."""
    cls = pkg.modules['sympl._core.composite']
    for n in ('InputPropertiesCompositeMixin',):
        c = getattr(cls, n)
        c.input_properties = property(lambda self: VDict())
    for n in ('TendencyComponentComposite', 'ImplicitTendencyComponentComposite'):
        getattr(cls, n).tendency_properties = property(lambda self: VDict())


def mk(pkg, i, kind):
    s = stub(pkg, 'c%d' % i, kind, features=False)
    for p in s.P:
        s.doms[p] = fn('c%d.%ss.dom' % (i, p), Str, Bool)
    return s


def mixed(pkg, kinds, n):
    c = E.choose(len(kinds), 'kinds') if n > 2 else None
    return [mk(pkg, i, kinds[E.choose(len(kinds), 'kind') if c is None else (i + c) % len(kinds)]) for i in range(n)]


def tendency_composite(cls_name, kinds, shared=False):
    pkg = load(*MODS)
    DA = pkg.modules['sympl._core.dataarray'].DataArray
    CC = getattr(pkg.modules['sympl._core.composite'], cls_name)
    no_properties_checks(pkg)
    n = E.choose(NMAX, 'components') + 1
    comps = mixed(pkg, kinds, n)
    k = z3.Const('K', Str)
    E.assume(k != E.lit('time'))
    # units of the tendencies of one quantity are convertible (checked at construction: C08)
    us = [fn('c%d.tendency0.units' % i, Str, Str) for i in range(n)]

    def compat(q):
        out = []
        for i in range(n):
            for j in range(i):
                a, b = unit_term(us[i](q)), unit_term(us[j](q))
                unit_facts(a, b)
                out.append(z3.Implies(z3.And(comps[i].doms['tendency'](q), comps[j].doms['tendency'](q)), ucompat(a, b)))
        return out
    for c in comps:
        c.pre['tendency'] = compat
    # no diagnostic is computed twice (refused at construction: C07)
    ddom = [c.doms['diagnostic'] for c in comps]
    for i in range(n):
        for j in range(i):
            E.assume(z3.Not(z3.And(ddom[i](k), ddom[j](k))))
    x = z3.Const('x!d', Str)
    for i in range(n):
        for j in range(i):
            E.assume(z3.ForAll([x], z3.Not(z3.And(comps[i].P['diagnostic'].dom(x), comps[j].P['diagnostic'].dom(x)))))
    res = outcome(CC, *comps)
    if res[0] != 'ok':
        E.fail('construction', repr(res[1]))
        return
    comp = res[1]
    st = State('s', DA)
    dt = STd(z3.Const('dt', Real))
    implicit = cls_name.startswith('Implicit')
    ncalls = 1 + (E.choose(2, 'earlier calls') if n < (2 if implicit else 3) else 0)
    for r in range(ncalls):
        for c in comps:
            c.calls = []
        res = outcome(comp, st.d, dt) if implicit else outcome(comp, st.d)
        if res[0] != 'ok':
            E.fail('call returns', repr(res[1]))
            return
    E.cover('call of %d components' % n)
    tend, diag = res[1]
    for i, c in enumerate(comps):
        E.prove('each component is called exactly once', len(c.calls) == 1)
        if len(c.calls) != 1:
            return
        E.prove('each component is given the state', same_value(c.calls[0]['state'], st.d))
        E.prove('the timestep is given exactly to components which take it', len(c.calls[0]['args']) == (1 if c.kind == 'I' else 0)
                and (c.kind != 'I' or same_value(c.calls[0]['args'][0], dt)))
    v, first, dims = None, None, []
    for i, c in enumerate(comps):
        da, ed = c.calls[0]['out']['tendency']
        if E.branch(ed.has(k)):
            da.at(k)
            if v is None:
                v, first = da.val(k), da.unit(k)
            else:
                v = v + conv(unit_term(da.unit(k)), unit_term(first), da.val(k))
            dims.append(da.dims(k))
    got = get(tend, k)
    if v is None:
        E.prove('no other tendency', got is ABSENT)
    else:
        prove_da('sum of the tendencies in the units of the first', got, DA, v, first)
        if is_da(got):
            models.dims_terms(*dims)
            r = dims[0]
            for j, d in enumerate(dims[1:]):
                models.broadcast_dims(dims[0], d)
                r = models.broadcast_dims(r, d)
            for d in dims:
                E.prove('dims of every tendency are kept', z3.Or(subdims_of(d, got._dims()), d == got._dims()))
    got = get(diag, k)
    exp = ABSENT
    for c in comps:
        da, ed = c.calls[0]['out']['diagnostic']
        if E.branch(ed.has(k)):
            exp = da.at(k)
    E.prove('union of the diagnostics', same_opt(got, exp))
    for c in comps:
        for p in ('tendency', 'diagnostic'):
            da, ed = c.calls[0]['out'][p]
            own = get(ed.dict(), k)
            if E.branch(ed.has(k)):
                E.prove("component's %s dictionary kept" % p, same_value(own, da.at(k)))
                prove_unchanged_da("component's %s" % p, da, k)
            else:
                E.prove("component's %s dictionary not extended" % p, own is ABSENT)
    prove_state_unchanged('state', st)


def subdims_of(a, b):
    return models.subdims(a, b)


BOUND = 'at most %d components in the composite; quantities, values, units and dims unbounded' % NMAX


@contract('C06 C05', 'TendencyComponentComposite.__call__ update_dict_by_adding_another', bounded=BOUND)
def tendency_composite_call():
    tendency_composite('TendencyComponentComposite', 'T')


@contract('C06 C05', 'ImplicitTendencyComponentComposite.__call__ update_dict_by_adding_another', bounded=BOUND)
def implicit_composite_call():
    tendency_composite('ImplicitTendencyComponentComposite', 'TI')


@contract('C06 C05', 'update_dict_by_adding_another')
def adding_dictionaries():
    """for any two dictionaries of quantities: dict1 becomes the sum, dict2 is only read"""
    pkg = load(*MODS)
    DA = pkg.modules['sympl._core.dataarray'].DataArray
    upd = pkg.modules['sympl._core.util'].update_dict_by_adding_another
    k = z3.Const('K', Str)
    a, b = EnvDA('a', [Str], DA), EnvDA('b', [Str], DA)
    ea, eb = EnvDict('A', [], lambda x, q: a.at(q)), EnvDict('B', [], lambda x, q: b.at(q))

    def pre(q):
        u, v = unit_term(a.unit(q)), unit_term(b.unit(q))
        unit_facts(v, u)
        return [z3.Implies(z3.And(ea.has(q), eb.has(q)), ucompat(v, u))]
    a.pre = b.pre = pre
    res = outcome(upd, ea.dict(), eb.dict())
    if res[0] != 'ok':
        E.fail('returns', repr(res[1]))
        return
    got = get(ea.dict(), k)
    E.cover('returns')
    if E.branch(ea.has(k)):
        v = a.val(k)
        if E.branch(eb.has(k)):
            b.at(k)
            v = v + conv(unit_term(b.unit(k)), unit_term(a.unit(k)), b.val(k))
        prove_da('sum', got, DA, v, a.unit(k))
    elif E.branch(eb.has(k)):
        prove_da('new entry', got, DA, b.val(k), b.unit(k), b.dims(k))
        if is_da(got):
            E.prove('new entry does not share data', got._arr()._ref.eq(b.fbuf.ref(k)) is False)
    else:
        E.prove('no other entry', got is ABSENT)
    if E.branch(eb.has(k)):
        E.prove('second dictionary kept', same_value(get(eb.dict(), k), b.at(k)))
        prove_unchanged_da('second dictionary', b, k)
    else:
        E.prove('second dictionary not extended', get(eb.dict(), k) is ABSENT)


@contract('C06 C07 C05', 'DiagnosticComponentComposite.__call__ ensure_no_shared_keys', bounded=BOUND)
def diagnostic_composite_call():
    pkg = load(*MODS)
    DA = pkg.modules['sympl._core.dataarray'].DataArray
    mod = pkg.modules['sympl._core.composite']
    no_properties_checks(pkg)
    n = E.choose(NMAX, 'components') + 1
    comps = [mk(pkg, i, 'D') for i in range(n)]
    k, x = z3.Const('K', Str), z3.Const('x!d', Str)
    E.assume(k != E.lit('time'))
    for i in range(n):
        for j in range(i):
            E.assume(z3.ForAll([x], z3.Not(z3.And(comps[i].P['diagnostic'].dom(x), comps[j].P['diagnostic'].dom(x)))))
    res = outcome(mod.DiagnosticComponentComposite, *comps)
    if res[0] != 'ok':
        E.fail('construction', repr(res[1]))
        return
    st = State('s', DA)
    res2 = outcome(res[1], st.d)
    doms = [c.doms['diagnostic'] for c in comps]
    if res2[0] != 'ok':
        E.prove('refused with SharedKeyError', isinstance(res2[1], pkg.modules['sympl._core.exceptions'].SharedKeyError), repr(res2[1]))
        E.prove('refused only when a quantity is computed twice', z3.Exists([x], z3.Or(
            [z3.And(doms[i](x), doms[j](x)) for i in range(n) for j in range(i)] or [z3.BoolVal(False)])))
        E.cover('refused')
        return
    E.cover('call')
    loops_done_at(k)
    exp = ABSENT
    cnt = 0
    for c in comps:
        E.prove('each component is called exactly once', len(c.calls) == 1)
        if len(c.calls) != 1:
            return
        E.prove('each component is given the state', same_value(c.calls[0]['state'], st.d))
        da, ed = c.calls[0]['out']['diagnostic']
        if E.branch(ed.has(k)):
            exp = da.at(k)
            cnt += 1
    if cnt > 1:
        E.fail('no result overwrites another')
        return
    E.prove('union of the diagnostics', same_opt(get(res2[1], k), exp))
    prove_state_unchanged('state', st)
    for c in comps:
        da, ed = c.calls[0]['out']['diagnostic']
        own = get(ed.dict(), k)
        if E.branch(ed.has(k)):
            E.prove("component's dictionary kept", same_value(own, da.at(k)))
            prove_unchanged_da("component's diagnostics", da, k)
        else:
            E.prove("component's dictionary not extended", own is ABSENT)


@contract('C07', 'DiagnosticPropertiesCompositeMixin.diagnostic_properties DiagnosticPropertiesCompositeMixin.__init__ ensure_no_shared_keys '
          'ComponentComposite.__init__', bounded=BOUND)
def shared_diagnostics_refused():
    pkg = load(*MODS)
    mod = pkg.modules['sympl._core.composite']
    no_properties_checks(pkg)
    which = E.choose(3, 'composite')
    cls = [mod.TendencyComponentComposite, mod.ImplicitTendencyComponentComposite, mod.DiagnosticComponentComposite][which]
    kinds = ['T', 'TI', 'D'][which]
    n = E.choose(NMAX, 'components') + 1
    comps = mixed(pkg, kinds, n)
    if n > 1 and E.choose(2, 'the same component twice'):
        comps[-1] = comps[0]
    k, x = z3.Const('K', Str), z3.Const('x!d', Str)
    res = outcome(cls, *comps)
    doms = [c.P['diagnostic'].dom for c in comps]
    pairs = [(i, j) for i in range(n) for j in range(i)]
    if res[0] != 'ok':
        E.prove('refused with SharedKeyError', isinstance(res[1], pkg.modules['sympl._core.exceptions'].SharedKeyError), repr(res[1]))
        E.prove('refused only when a diagnostic is declared twice', z3.Exists([x], z3.Or(
            [z3.And(doms[i](x), doms[j](x)) for i, j in pairs] or [z3.BoolVal(False)])))
        E.cover('refused')
        return
    E.cover('accepted')
    loops_done_at(k)
    for i, j in pairs:
        E.prove('no diagnostic is declared twice', z3.Not(z3.And(doms[i](k), doms[j](k))))
    d = get(res[1].diagnostic_properties, k)
    exp = ABSENT
    for c in comps:
        if E.branch(c.P['diagnostic'].dom(k)):
            exp = c.P['diagnostic']._entry([], k)
    E.prove('diagnostic_properties is the union', same_opt(d, exp))


@contract('C07', 'ComponentComposite.__init__ ensure_components_have_class ComponentMeta.__instancecheck__', bounded=BOUND)
def wrong_kind_refused():
    pkg = load(*MODS)
    mod = pkg.modules['sympl._core.composite']
    bc = pkg.modules['sympl._core.base_components']
    no_properties_checks(pkg)
    mod.DiagnosticPropertiesCompositeMixin.diagnostic_properties = property(lambda self: VDict())
    which = E.choose(4, 'composite')
    cls = [mod.TendencyComponentComposite, mod.ImplicitTendencyComponentComposite, mod.DiagnosticComponentComposite, mod.MonitorComposite][which]
    kinds = ['T', 'TI', 'D', 'M'][which]

    class Mon(bc.Monitor):
        def store(self, state):
            pass

    class Duck(object):
        input_properties = VDict()
        diagnostic_properties = VDict()

        def __init__(self):
            self.input_properties, self.diagnostic_properties = VDict(), VDict()

        def array_call(self, state):
            return VDict()

        def __call__(self, state):
            return VDict()

    def build(i, kd):
        if kd == 'M':
            return Mon()
        if kd == 'O':
            return object()
        if kd == 'K':
            return Duck()
        return mk(pkg, i, kd)
    n = E.choose(NMAX, 'components') + 1
    ks = ['TIDSMOK'[E.choose(7, 'kind')] for i in range(n)]
    res = outcome(cls, *[build(i, kd) for i, kd in enumerate(ks)])
    fine = all(kd in kinds or (kd == 'K' and kinds == 'D') for kd in ks)
    if fine:
        E.prove('components of the right kind are accepted', res[0] == 'ok', repr(res[1]))
    else:
        E.prove('a component of the wrong kind raises TypeError', res[0] == 'exc' and isinstance(res[1], TypeError), repr(ks) + repr(res[1]))


@contract('C25', 'MonitorComposite.store ComponentComposite.__init__', bounded=BOUND)
def monitor_composite():
    pkg = load(*MODS)
    DA = pkg.modules['sympl._core.dataarray'].DataArray
    bc, mod = pkg.modules['sympl._core.base_components'], pkg.modules['sympl._core.composite']
    log = []

    class Mon(bc.Monitor):
        def __init__(self, i):
            self.i = i

        def store(self, state):
            log.append((self.i, state))
    n = E.choose(NMAX + 1, 'monitors')
    ms = [Mon(i) for i in range(n)]
    if n > 1 and E.choose(2, 'same monitor twice'):
        ms[-1] = ms[0]
    m = mod.MonitorComposite(*ms)
    for r in range(2):
        del log[:]
        st = State('s%d' % r, DA)
        res = outcome(m.store, st.d)
        E.prove('store returns', res[0] == 'ok', repr(res[1]))
        E.prove('each monitor once, in order', [i for i, s in log] == [x.i for x in ms])
        E.prove('each is given the state itself', conj(*[same_value(s, st.d) for i, s in log]))
        prove_state_unchanged('state', st)


@contract('C25 C05', 'PlotFunctionMonitor.store PlotFunctionMonitor.__init__ copy_state')
def plot_monitor():
    import types
    plt = types.ModuleType('matplotlib.pyplot')
    drawn = []

    class Fig(object):
        class canvas(object):
            @staticmethod
            def draw():
                drawn.append('draw')

        def clear(self):
            pass
    plt.figure = lambda *a, **kw: Fig()
    plt.ion = plt.ioff = plt.show = lambda *a, **kw: None
    mpl = types.ModuleType('matplotlib')
    mpl.pyplot = plt
    pkg = load('sympl._core.base_components', 'sympl._components.plot', extra={'matplotlib': mpl, 'matplotlib.pyplot': plt})
    DA = pkg.modules['sympl._core.dataarray'].DataArray
    st = State('s', DA)
    k, at_ = z3.Const('K', Str), key('att')
    seen = []

    def plot(fig, state):
        seen.append(state)
        E.prove('the function is given a dictionary of its own', isinstance(state, VDict) and not E.must(state._ref.eq(st.d._ref)))
        v = get(state, k)
        if E.branch(k == E.lit('time')):
            E.prove('time handed over', same_value(v, st.time))
        elif E.branch(st.has(k)):
            prove_da('quantity', v, DA, st.val(k), st.units(k), st.da.dims(k))
            if is_da(v):
                prove_attrs_like('quantity', v, st.da, k)
                # whatever the function does to what it was given
                v += 1.0
                v.attrs['changed'] = 'yes'
                v.attrs = {'units': 'm'}
        else:
            E.prove('nothing else handed over', v is ABSENT)
        state['new quantity'] = 1
        state['time'] = None
        state.clear()
    w = pkg.modules['sympl._components.plot'].PlotFunctionMonitor(plot, interactive=bool(E.choose(2, 'interactive')))
    res = outcome(w.store, st.d)
    if res[0] != 'ok':
        E.fail('store returns', repr(res[1]))
        return
    E.prove('the plot function is called once per store', len(seen) == 1)
    E.cover('plot')
    if E.branch(k == E.lit('time')):
        E.prove('time kept', same_value(get(st.d, 'time'), st.time))
    elif E.branch(st.has(k)):
        E.prove('same entries', same_value(get(st.d, k), st.da.at(k)))
        prove_unchanged_da('state', st.da, k)
        E.prove('state: attributes', same_opt(read(st.da.at(k).attrs._ref, at_), st.da._rattrs((k,), at_)))
    else:
        E.prove('no entry added', get(st.d, k) is ABSENT)
