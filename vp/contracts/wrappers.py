"""Contracts: wrappers (C14, C15, C16)."""
from ..spec import *
from .stubs import *

MODS = ('sympl._core.base_components', 'sympl._core.wrappers')


def scaling(kind):
    pkg = load(*MODS)
    DA = pkg.modules['sympl._core.dataarray'].DataArray
    SW = pkg.modules['sympl._core.wrappers'].ScalingWrapper
    comp = stub(pkg, 'c', kind, same_outputs=True)
    st = State('s', DA)
    k = z3.Const('K', Str)
    E.assume(k != E.lit('time'))
    fac, doms = {}, {}
    for p in ('input',) + PROPS[kind]:
        doms[p] = fn('factors.%s.dom' % p, Str, Bool)
        f = fn('factors.%s' % p, Str, Real)
        src = st.env.dom if p == 'input' else fn('c.%ss0.dom' % p, Str, Bool)
        if p != 'input':
            comp.doms[p] = src

        def value(a, q, f=f, src=src, p=p):
            E.assume(src(q))                      # valid calls: the quantity to be scaled is there
            E.assume(q != E.lit('time'))
            return SReal(f(q))
        fac[p] = EnvDict('factors.' + p, [], value, dom=doms[p])
        E.assume(z3.Implies(doms[p](k), src(k)))
        E.assume(z3.Not(doms[p](E.lit('time'))))
    kw = {p + '_scale_factors': fac[p].dict() for p in fac}
    res = outcome(SW, comp, **kw)
    if res[0] != 'ok':
        E.prove('refused with ValueError', isinstance(res[1], ValueError), repr(res[1]))
        x = z3.Const('x!ex', Str)
        E.prove('refused only when some factor is for an unknown quantity',
                z3.Or(*[z3.Exists([x], z3.And(doms[p](x), z3.Not(comp.P[p].dom(x)))) for p in doms]))
        E.cover('refusal')
        return
    loops_done_at(k)
    for p in doms:
        E.prove('accepted %s factors are for known quantities' % p, z3.Implies(doms[p](k), comp.P[p].dom(k)))
    w = res[1]
    dt = STd(z3.Const('dt', Real))
    ncalls = E.choose(2, 'earlier calls') + 1
    for n in range(ncalls):
        r = outcome(invoke, comp, w, st.d, dt)
        if r[0] != 'ok':
            E.fail('call returns', repr(r[1]))
            return
    E.cover('call %d' % ncalls)
    E.prove('the component is called once per call', len(comp.calls) == ncalls)
    c = comp.calls[-1]
    if kind in 'IS':
        E.prove('the timestep is passed on', len(c['args']) == 1 and same_value(c['args'][0], dt))
    which = E.choose(2 + len(PROPS[kind]), 'aspect')
    if which == 0:          # what the component saw
        seen = at(c['snap'], lambda: get(c['state'], k))
        if E.branch(doms['input'](k)):
            f = z3.Function('factors.input', Str, Real)
            at(c['snap'], lambda: prove_da('scaled input', seen, DA, f(k) * st.val(k), st.units(k), st.da.dims(k)))
            at(c['snap'], lambda: prove_attrs_like('scaled input', seen, st.da, k) if is_da(seen) else None)
        elif E.branch(st.has(k)):
            E.prove('other quantities passed on', same_value(seen, st.da.at(k)))
        else:
            E.prove('nothing added to the state', seen is ABSENT)
        E.prove('time passed on', same_value(at(c['snap'], lambda: get(c['state'], 'time')), st.time))
    elif which == 1:
        prove_state_unchanged('state', st)
    else:
        p = PROPS[kind][which - 2]
        out = r[1][p]
        da, ed = c['out'][p]
        v = get(out, k)
        if E.branch(doms[p](k)):
            f = z3.Function('factors.' + p, Str, Real)
            prove_da('scaled %s' % p, v, DA, f(k) * da.val(k), da.unit(k), da.dims(k))
            if is_da(v):
                prove_attrs_like('scaled %s' % p, v, da, k)
        elif E.branch(ed.has(k)):
            E.prove('other %s passed on' % p, same_value(v, da.at(k)))
        else:
            E.prove('no %s added' % p, v is ABSENT)
        # nothing of the component's own is changed
        own = get(ed.dict(), k)
        if E.branch(ed.has(k)):
            E.prove("component's %s dictionary kept" % p, same_value(own, da.at(k)))
            prove_unchanged_da("component's %s" % p, da, k)
        else:
            E.prove("component's %s dictionary not extended" % p, own is ABSENT)


for _k in 'TIDS':
    def _f(k=_k):
        scaling(k)
    _f.__name__ = 'scaling_wrapper_' + KINDS[_k]
    contract('C14 C05', 'ScalingWrapper.__init__ ScalingWrapper.__call__ ScalingWrapper._scaled ScalingWrapper._scale_quantities '
             'ScalingWrapper._ensure_fields_have_properties')(_f)


@contract('C14', 'ScalingWrapper.__init__')
def scaling_wrapper_refusals():
    pkg = load(*MODS)
    SW = pkg.modules['sympl._core.wrappers'].ScalingWrapper
    kind = 'TIDS'[E.choose(4, 'kind')]
    comp = stub(pkg, 'c', kind)
    bad = [p for p in ('output', 'tendency') if p not in PROPS[kind]]
    p = bad[E.choose(len(bad), 'factors')]
    f = EnvDict('factors', [], lambda a, q: SReal(fn('f', Str, Real)(q)))
    res = outcome(SW, comp, **{p + '_scale_factors': f.dict()})
    E.prove('factors for a kind of output the component lacks are refused', res[0] == 'exc' and isinstance(res[1], (TypeError, ValueError)))
    res = outcome(SW, object())
    E.prove('objects which are no components are refused', res[0] == 'exc' and isinstance(res[1], TypeError))
    res = outcome(SW, comp)
    E.prove('no factors are fine', res[0] == 'ok')


@contract('C15', 'UpdateFrequencyWrapper.__init__ UpdateFrequencyWrapper.__call__ UpdateFrequencyWrapper._accepts_timestep')
def update_frequency():
    pkg = load(*MODS)
    DA = pkg.modules['sympl._core.dataarray'].DataArray
    UF = pkg.modules['sympl._core.wrappers'].UpdateFrequencyWrapper
    kind = 'TIDS'[E.choose(4, 'kind')]
    comp = stub(pkg, 'c', kind)
    iv = STd(z3.Const('interval', Real))
    w = UF(comp, iv)
    k = z3.Const('K', Str)
    E.assume(k != E.lit('time'))
    N = 3
    last = E.choose(N, 'earlier calls')
    computed, outs = [], []
    digs = []
    for n in range(last + 1):
        st = State('s%d' % n, DA)
        dt = STd(z3.Const('dt%d' % n, Real))
        fails = n < last and E.choose(2, 'fails') == 1
        comp.broken = fails
        c0 = len(comp.calls)
        give = kind in 'IS' or (n == last and E.choose(2, 'timestep given to a component without timestep') == 1)
        res = outcome(w, st.d, dt) if give else outcome(w, st.d)
        due = True if not computed else E.branch(st.time.t >= computed[-1][0] + iv.t)
        if fails and due:
            E.prove('an error of the component is passed on', res[0] == 'exc' and isinstance(res[1], StubFailure))
            E.cover('failing computation')
            continue
        if res[0] != 'ok':
            E.fail('call returns', repr(res[1]))
            return
        if due:
            E.prove('due: computed once', len(comp.calls) == c0 + 1)
            if len(comp.calls) != c0 + 1:
                return
            c = comp.calls[-1]
            E.prove('due: computed from the given state', same_value(c['state'], st.d))
            E.prove('due: given the timestep it takes', len(c['args']) == (1 if kind in 'IS' else 0) and
                    (not c['args'] or same_value(c['args'][0], dt)))
            computed.append((st.time.t, c, n))
            E.cover('due')
        else:
            E.prove('not due: not computed', len(comp.calls) == c0)
            E.cover('not due')
        c = computed[-1][1]
        ds = [c['out'][p][1].dict() for p in PROPS[kind]]
        ds = ds if kind != 'S' else ds[::-1]
        got = [res[1]] if kind == 'D' else list(res[1])
        E.prove('output of the last computation is returned', len(got) == len(ds) and conj(*[same_value(a, b) for a, b in zip(got, ds)]))
        for p in PROPS[kind]:
            da, ed = c['out'][p]
            v = get(ed.dict(), k)
            if E.branch(ed.has(k)):
                E.prove('cached output kept', same_value(v, da.at(k)))
                prove_unchanged_da('cached output', da, k)
            else:
                E.prove('cached output not extended', v is ABSENT)
        ix = next(i for i, x in enumerate(comp.calls) if x is c)
        tx = computed[-1][2]
        t = digest(w, None)
        t = shift_names(t, {'c.%ss' % p: 1000 - ix for p in ('tendency', 'diagnostic', 'output')})
        t = shift_names(t, {'s': 1000 - tx})
        digs.append(t)
    if digs:
        history_closed('history of any length', digs[-1], digs[0], {})


@contract('C15', 'UpdateFrequencyWrapper.__call__')
def update_frequency_passes_keywords():
    pkg = load(*MODS)
    DA = pkg.modules['sympl._core.dataarray'].DataArray
    UF = pkg.modules['sympl._core.wrappers'].UpdateFrequencyWrapper
    seen = []

    class C(object):
        def __call__(self, state, timestep, flag=None):
            seen.append((state, timestep, flag))
            return 'out'

    class D(object):
        def __call__(self, state, flag=None):
            seen.append((state, None, flag))
            return 'out'
    which = E.choose(2, 'component')
    w = UF((C if which == 0 else D)(), STd(z3.Const('interval', Real)))
    st, dt = State('s', DA), STd(z3.Const('dt', Real))
    res = outcome(w, st.d, dt, flag=7)
    E.prove('keyword arguments are passed on', res[0] == 'ok' and len(seen) == 1 and seen[0][2] == 7)
    E.prove('the timestep is passed exactly when accepted', len(seen) == 1 and
            (same_value(seen[0][1], dt) if which == 0 else seen[0][1] is None))

    class B(object):
        n = 0

        def __call__(self, state, timestep):
            self.n += 1
            raise TypeError('raised while computing')
    b = B()
    res = outcome(UF(b, STd(z3.Const('interval', Real))), st.d, dt)
    E.prove('a TypeError of the component is passed on', res[0] == 'exc' and isinstance(res[1], TypeError) and b.n == 1)


@contract('C16', 'TimeDifferencingWrapper.__call__ TimeDifferencingWrapper.__init__')
def time_differencing():
    pkg = load('sympl._core.base_components', 'sympl._components.basic')
    DA = pkg.modules['sympl._core.dataarray'].DataArray
    TD = pkg.modules['sympl._components.basic'].TimeDifferencingWrapper
    comp = stub(pkg, 'c', 'S')
    st = State('s', DA)
    dt = STd(z3.Const('dt', Real))
    E.assume(dt.t != 0)
    odom = fn('c.outputs0.dom', Str, Bool)
    comp.doms['output'] = odom
    ounit = comp.P['output'].unit
    nunit = fn('c.output0.units', Str, Str)

    def pre(q):
        # what a Stepper returns is in units compatible with its declaration and with the state
        n_, s_, o_ = unit_term(nunit(q)), unit_term(st.units(q)), unit_term(ounit(q))
        unit_facts(s_, n_)
        ns, os_ = unit_term(per_s(nunit(q))), unit_term(per_s(ounit(q)))
        unit_facts(ns, os_)
        return [z3.Implies(z3.And(st.has(q), comp.P['output'].dom(q)), ucompat(s_, n_)), uvalid(per_s(nunit(q))), uvalid(per_s(ounit(q))),
                uvalid(st.units(q)), z3.Implies(comp.P['output'].dom(q), ucompat(ns, os_)), q != E.lit('time'), nunit(q) != E.lit('')]
    comp.pre['output'] = pre
    w = TD(comp)
    k = z3.Const('K', Str)
    E.assume(k != E.lit('time'))
    E.assume(z3.Implies(comp.P['output'].dom(k), odom(k)))
    res = outcome(w, st.d, dt)
    if res[0] != 'ok':
        E.prove('refused with an error', isinstance(res[1], (RuntimeError, KeyError)), repr(res[1]))
        x = z3.Const('x!ex', Str)
        E.prove('refused only when an output is missing from the state',
                z3.Exists([x], z3.And(odom(x), comp.P['output'].dom(x), z3.Not(st.has(x)))))
        E.cover('refusal')
        return
    tend, diag = res[1]
    E.cover('call')
    E.prove('the Stepper is called once with the given state and timestep', len(comp.calls) == 1 and conj(
        same_value(comp.calls[0]['state'], st.d), same_value(comp.calls[0]['args'][0], dt)))
    da, ed = comp.calls[0]['out']['output']
    E.prove('diagnostics returned as they are', same_value(diag, comp.calls[0]['out']['diagnostic'][1].dict()))
    v = get(tend, k)
    if E.branch(comp.P['output'].dom(k)):
        E.prove('no output is dropped', st.has(k))
        if E.branch(st.has(k)):
            nu, su, ou = nunit(k), st.units(k), ounit(k)
            diff = (da.val(k) - conv(unit_term(su), unit_term(nu), st.val(k))) / dt.t
            prove_da('tendency', v, DA, conv(unit_term(per_s(nu)), unit_term(per_s(ou)), diff))
            if is_da(v):
                u = units_of(v)
                ok = u is not None and z3.Or(u == per_s(ou), z3.And(usame(unit_term(u), unit_term(per_s(ou)))))
                E.prove('tendency: in the declared output units per second', ok)
    else:
        E.prove('no tendency for other quantities', v is ABSENT)
    prove_state_unchanged('state', st)
    if E.branch(ed.has(k)):
        E.prove("the Stepper's new state is kept", same_value(get(ed.dict(), k), da.at(k)))
        prove_unchanged_da("the Stepper's new state", da, k)
    g, gd = comp.calls[0]['out']['diagnostic']
    if E.branch(gd.has(k)):
        E.prove('diagnostics kept', same_value(get(gd.dict(), k), g.at(k)))
        prove_unchanged_da('diagnostics', g, k)
    else:
        E.prove('no diagnostics added', get(gd.dict(), k) is ABSENT)


def per_s(u):
    return E.tmpl(('', ' s^-1'), [u])
