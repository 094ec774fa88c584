"""Contracts: time steppers (C09, C10, C11, C12)."""
from ..spec import *

MODS = ('sympl._core.base_components', 'sympl._components.timesteppers')


class StubFailure(Exception):
    pass


def stub_component(pkg, name, st_dom):
    """A TendencyComponent whose __call__ is an arbitrary function of the call
    number: returns fresh tendencies / diagnostics dictionaries."""
    base = pkg.modules['sympl._core.base_components'].TendencyComponent
    DA = pkg.modules['sympl._core.dataarray'].DataArray

    class Stub(base):
        input_properties = VDict()
        tendency_properties = VDict()
        diagnostic_properties = VDict()

        def __init__(self):
            super().__init__()
            self.calls = []

        def array_call(self, state):
            raise Unsupported('array_call of a stub')

        def __call__(self, state):
            if self.broken:
                raise StubFailure()
            n = len(self.calls)
            tdims = fn('%s.tend%d.dims' % (name, n), Str, Dims)

            def pre(k):
                models.dims_terms(SDIMS(k))
                return self.tpre(k) + [models.subdims(tdims(k), SDIMS(k))]
            t = EnvDA('%s.tend%d' % (name, n), [Str], DA, unit=self.tunit, pre=pre, dims=tdims)
            td = EnvDict('%s.tends%d' % (name, n), [], lambda a, k: t.at(k), dom=self.tdom_of(n))
            g = EnvDA('%s.diag%d' % (name, n), [Str], DA)
            gd = EnvDict('%s.diags%d' % (name, n), [], lambda a, k: g.at(k))
            snap = E.node
            self.calls.append((state, t, td, g, gd, snap))
            return td.dict(), gd.dict()
    s = Stub()
    s.broken = False
    s.tdom = fn(name + '.tdom', Str, Bool)
    s.varying = False           # do the quantities with a tendency differ between calls
    s.tdom_of = lambda n: fn('%s.tdom%d' % (name, n), Str, Bool) if s.varying else s.tdom
    s.tunit = fn(name + '.tunits', Str, Str)

    def tpre(k):
        # a tendency is of a state quantity, in units convertible to that quantity's per second
        v = per_second(SUNIT(k))
        unit_facts(unit_term(s.tunit(k)), unit_term(v))
        return [st_dom(k), uvalid(v), ucompat(unit_term(s.tunit(k)), unit_term(v)), k != E.lit('time')]
    s.tpre = tpre
    return s


SUNIT = fn('state.units', Str, Str)      # units of each state quantity, the same on every call
SDIMS = fn('state.dims', Str, Dims)


AB = {1: ['1'], 2: ['3/2', '-1/2'], 3: ['23/12', '-4/3', '5/12'], 4: ['55/24', '-59/24', '37/24', '-3/8']}


def per_second(u):
    """meaning of tendency units u as the state's units per second"""
    return E.tmpl(('', ' s^-1'), [u])



class History(object):
    """Runs an arbitrary sequence of calls of a stepper: states are unrelated, or each is the
    one returned by the call before, or the same object is passed every time."""

    def __init__(self, make, N, mode):
        self.pkg = load(*MODS)
        self.ts = self.pkg.modules['sympl._components.timesteppers']
        self.DA = self.pkg.modules['sympl._core.dataarray'].DataArray
        self.dom = fn('s.dom', Str, Bool)
        self.comp = stub_component(self.pkg, 'c', self.dom)
        self.stepper = make(self)
        self.dt = STd(z3.Const('dt', Real))
        self.k = k = z3.Const('K', Str)                      # arbitrary quantity
        E.assume(z3.And(k != E.lit('time')))
        E.assume(z3.Implies(self.comp.tdom(k), self.dom(k)))
        E.assume(z3.Not(self.comp.tdom(E.lit('time'))))
        self.mode = mode
        if mode == 'varying':
            self.comp.varying = True
            for n in range(N):
                E.assume(z3.Implies(self.comp.tdom_of(n)(k), self.dom(k)))
                E.assume(z3.Not(self.comp.tdom_of(n)(E.lit('time'))))
        # independent states: every number of calls; else the largest
        self.last = E.choose(N, 'number of calls') if mode == 'independent' else N - 1
        self.N = N
        self.steps = []
        self.digests = []

    def val(self, d):
        return value_of(get(d, self.k))

    def run(self, per_call=1):
        """per_call: evaluations of the tendency component per step"""
        self.per_call = per_call
        prev = None
        for n in range(self.last + 1):
            if prev is None or self.mode in ('independent', 'varying'):
                st = State('s%d' % n, self.DA, dom=self.dom, unit=SUNIT, dims=SDIMS)
                d = st.d
                self.st = st
            elif self.mode == 'chained':
                d = prev
            before = None
            if E.branch(self.dom(self.k)):
                before = get(d, self.k)
            r = dict(n=n, d=d, obj=before, cur=value_of(before) if before is not None else None, c0=len(self.comp.calls))
            self.steps.append(r)
            res = outcome(self.stepper, d, self.dt)
            if res[0] != 'ok':
                E.fail('call %d returns' % (n + 1), repr(res[1]))
                return None
            E.cover('call %d returns' % (n + 1))
            r['diag'], r['new'] = res[1]
            r['after'] = value_of(before) if before is not None else None
            prev = r['new']
            if self.last == self.N - 1 and n >= self.last - 1 and self.mode == 'independent':
                self.digests.append(digest(self.stepper, [self.k, E.lit('time')], after=r['after']))
        return r

    def tend(self, call):
        """tendency of the given evaluation in the units of the state per second"""
        t = self.comp.calls[call][1]
        return conv(unit_term(t.unit(self.k)), unit_term(per_second(SUNIT(self.k))), t.val(self.k))

    def finish(self, r, exp, after, scheme):
        """postconditions of the last call"""
        n, k = r['n'] + 1, self.k
        if len(self.digests) == 2:
            history_closed('history of any length', self.digests[0], self.digests[1],
                           {'s': 1, 'c.tend': self.per_call, 'c.diag': self.per_call})
        v = get(r['new'], k)
        E.prove('call %d: %d evaluation(s) of the tendencies' % (n, self.per_call),
                len(self.comp.calls) - r['c0'] == self.per_call)
        t = get(r['new'], 'time')
        E.prove('call %d: time passed through' % n, same_value(t, get(r['d'], 'time')))
        if E.branch(self.comp.tdom_of(r['c0'])(k)):
            prove_da('call %d: %s' % (n, scheme), v, self.DA, exp(), SUNIT(k), SDIMS(k))
            now = get(r['d'], k)
            E.prove('call %d: state quantity after the call' % n, value_of(now) == after())
            u = units_of(now)
            E.prove('call %d: units of the state quantity kept' % n, u is not None and u == SUNIT(k))
        elif E.branch(self.dom(k)):
            E.prove('call %d: quantity without tendency passed through' % n, same_value(v, r['obj']))
            E.prove('call %d: quantity without tendency not modified' % n, value_of(v) == r['cur'])
            E.prove('call %d: state entry kept' % n, same_value(get(r['d'], k), r['obj']))
        else:
            E.prove('call %d: no invented quantity' % n, v is ABSENT)
            E.prove('call %d: nothing added to the state' % n, get(r['d'], k) is ABSENT)
        g = get(r['diag'], k)
        c = self.comp.calls[r['c0']]
        if E.branch(c[4].has(k)):
            E.prove('call %d: diagnostics of the first evaluation' % n, same_value(g, c[3].at(k)))
        else:
            E.prove('call %d: no invented diagnostics' % n, g is ABSENT)


def ab_contract(order, mode, N):
    h = History(lambda h: h.ts.AdamsBashforth(h.comp, order=order), N, mode)
    r = h.run()
    if r is None:
        return
    n = r['n']
    o = min(order, n + 1)

    def exp():
        e = r['cur']
        for j, c in enumerate(AB[o]):
            e = e + h.dt.t * z3.RealVal(c) * h.tend(n - j)
        return e
    h.finish(r, exp, lambda: r['cur'], 'order-%d Adams-Bashforth value' % o)



def variants(make, ns):
    """one contract per way in which the states of successive calls are related"""
    for mode in ('independent', 'chained', 'same'):
        def f(mode=mode):
            make(mode, ns[mode])
        f.__name__ = '%s_%s' % (make.__name__, mode)
        yield f


for _o in (1, 2, 3, 4):
    def adams_bashforth(mode, N, o=_o):
        ab_contract(o, mode, N)
    adams_bashforth.__name__ = 'adams_bashforth%d' % _o
    for _f in variants(adams_bashforth, {'independent': _o + 1, 'chained': 3, 'same': 2}):
        contract('C09 C12 C05', 'AdamsBashforth.__init__ AdamsBashforth._call TendencyStepper.__call__ '
                 'convert_tendencies_units_for_state step_forward_euler second_bashforth third_bashforth '
                 'fourth_bashforth copy_untouched_quantities update_dict_by_adding_another',
                 tier='quick' if _o in (1, 3) or 'indep' in _f.__name__ else 'thorough')(_f)


def leapfrog(mode, N):
    a, g = SReal(z3.Const('alpha', Real)), SReal(z3.Const('asselin', Real))
    h = History(lambda h: h.ts.Leapfrog(h.comp, asselin_strength=g, alpha=a), N, mode)
    r = h.run()
    if r is None:
        return
    n, dt = r['n'], h.dt.t

    def parts():
        if n == 0:
            return r['cur'] + dt * h.tend(0), r['cur']
        old = h.steps[n - 1]['after']
        lf = old + 2 * dt * h.tend(n)
        d = g.t / 2 * (old - 2 * r['cur'] + lf)
        return lf - (1 - a.t) * d, r['cur'] + a.t * d
    h.finish(r, lambda: parts()[0], lambda: parts()[1], 'filtered leapfrog value')


def refused_calls(name, make, exp):
    """between two successful calls: a call with another timestep, or one whose component fails"""
    h = History(make, 3, 'refused')
    k = h.k
    ref, at = [(0, 1), (1, 1), (1, 0)][E.choose(3, 'fault')]
    states, curs = [], []
    for n in range(3):
        st = State('s%d' % n, h.DA, dom=h.dom, unit=SUNIT, dims=SDIMS)
        if n == at:
            if ref == 0:
                for i in (2, 3):
                    dt2 = STd(z3.Const('dt%d' % i, Real))
                    E.assume(dt2.t != h.dt.t)
                    res = outcome(h.stepper, st.d, dt2)
                    E.prove('another timestep is refused with ValueError', res[0] == 'exc' and isinstance(res[1], ValueError))
            else:
                h.comp.broken = True
                res = outcome(h.stepper, st.d, h.dt)
                h.comp.broken = False
                E.prove('the error of the component is passed on', res[0] == 'exc' and isinstance(res[1], StubFailure))
            if E.branch(h.dom(k)):
                E.prove('state kept by a refused call', same_value(get(st.d, k), st.da.at(k)))
                prove_unchanged_da('refused call', st.da, k)
            continue
        has = E.branch(h.dom(k))
        cur = value_of(get(st.d, k)) if has else None
        res = outcome(h.stepper, st.d, h.dt)
        if res[0] != 'ok':
            E.fail('successful call returns', repr(res[1]))
            return
        curs.append((cur, value_of(get(st.d, k)) if has else None))
    E.cover('second successful call')
    if E.branch(h.comp.tdom(k)):
        prove_da(name + ' unaffected by the refused call', get(res[1][1], k), h.DA, exp(h, curs), SUNIT(k), SDIMS(k))


def _ab_after(h, curs):
    return curs[1][0] + h.dt.t * (z3.RealVal('3/2') * h.tend(1) - z3.RealVal('1/2') * h.tend(0))


@contract('C09', 'AdamsBashforth._call AdamsBashforth._ensure_constant_timestep AdamsBashforth._perform_step')
def adams_bashforth_refused():
    refused_calls('second step', lambda h: h.ts.AdamsBashforth(h.comp, order=3), _ab_after)


def _lf_after(h, curs):
    lf = curs[0][1] + 2 * h.dt.t * h.tend(1)
    d = z3.RealVal('1/40') * (curs[0][1] - 2 * curs[1][0] + lf)
    return lf - d / 2


@contract('C10', 'Leapfrog._call Leapfrog._ensure_constant_timestep')
def leapfrog_refused():
    refused_calls('second step', lambda h: h.ts.Leapfrog(h.comp), _lf_after)


@contract('C11', 'SSPRungeKutta._call')
def ssp_varying_timestep():
    """another timestep is no fault: the scheme has no history"""
    h = History(lambda h: h.ts.SSPRungeKutta(h.comp, stages=2), 1, 'independent')
    for n in range(2):
        st = State('s%d' % n, h.DA, dom=h.dom, unit=SUNIT, dims=SDIMS)
        dt = STd(z3.Const('dt%d' % n, Real))
        res = outcome(h.stepper, st.d, dt)
        if res[0] != 'ok':
            E.fail('call with another timestep returns', repr(res[1]))
            return
    E.cover('call with another timestep')
    k = h.k
    if E.branch(h.comp.tdom(k)):
        prove_da('step with another timestep', get(res[1][1], k), h.DA,
                 st.val(k) + dt.t * (h.tend(2) + h.tend(3)) / 2, SUNIT(k), SDIMS(k))


@contract('C09 C11', 'AdamsBashforth.__init__ SSPRungeKutta.__init__')
def stepper_arguments():
    pkg = load(*MODS)
    ts = pkg.modules['sympl._components.timesteppers']
    comp = stub_component(pkg, 'c', fn('s.dom', Str, Bool))
    o = SInt(z3.Const('order', Int))
    res = outcome(ts.AdamsBashforth, comp, order=o)
    if E.branch(z3.And(o.t >= 1, o.t <= 4)):
        E.prove('orders 1 to 4 accepted', res[0] == 'ok')
    else:
        E.prove('other orders refused', res[0] == 'exc' and isinstance(res[1], ValueError))
    res = outcome(ts.SSPRungeKutta, comp, stages=o)
    if E.branch(z3.Or(o.t == 2, o.t == 3)):
        E.prove('2 or 3 stages accepted', res[0] == 'ok')
    else:
        E.prove('other numbers of stages refused', res[0] == 'exc' and isinstance(res[1], ValueError))


for _f in variants(leapfrog, {'independent': 3, 'chained': 3, 'same': 3}):
    contract('C10 C12', 'Leapfrog.__init__ Leapfrog._call TendencyStepper.__call__ step_leapfrog step_forward_euler '
             'convert_tendencies_units_for_state copy_untouched_quantities')(_f)


@contract('C10 C12', 'Leapfrog._call step_leapfrog step_forward_euler copy_untouched_quantities',
          bounded='three calls between which the quantities with a tendency differ (any number of quantities)')
def leapfrog_varying():
    leapfrog('varying', 3)


@contract('C10', 'Leapfrog.__init__')
def leapfrog_defaults():
    h = History(lambda h: h.ts.Leapfrog(h.comp), 2, 'independent')
    r = h.run()
    if r is None:
        return
    n, dt = r['n'], h.dt.t

    def parts():
        if n == 0:
            return r['cur'] + dt * h.tend(0), r['cur']
        old = h.steps[n - 1]['after']
        lf = old + 2 * dt * h.tend(n)
        d = z3.RealVal('1/40') * (old - 2 * r['cur'] + lf)
        return lf - d / 2, r['cur'] + d / 2
    h.finish(r, lambda: parts()[0], lambda: parts()[1], 'default filter')


def ssp_contract(stages, mode, N):
    h = History(lambda h: h.ts.SSPRungeKutta(h.comp, stages=stages), N, mode)
    r = h.run(stages)
    if r is None:
        return
    dt, c0 = h.dt.t, r['c0']

    def exp():
        u = r['cur']
        t = [h.tend(c0 + i) for i in range(stages)]
        u1 = u + dt * t[0]
        if stages == 2:
            return (u + u1 + dt * t[1]) / 2
        u2 = z3.RealVal('3/4') * u + z3.RealVal('1/4') * (u1 + dt * t[1])
        return u / 3 + z3.RealVal('2/3') * (u2 + dt * t[2])
    h.finish(r, exp, lambda: r['cur'], '%d-stage SSP Runge-Kutta value' % stages)
    # each stage evaluates the tendencies of the stage state
    if E.branch(h.comp.tdom(h.k)):
        seen = h.comp.calls[c0][0]
        E.prove('stage 1 sees the given values', value_at(seen, h.k, h.comp.calls[c0][5]) == r['cur'])
        s1 = h.comp.calls[c0 + 1][0]
        E.prove('stage 2 sees the Euler step', value_at(s1, h.k, h.comp.calls[c0 + 1][5]) == r['cur'] + dt * h.tend(c0))
        if stages == 3:
            s2 = h.comp.calls[c0 + 2][0]
            E.prove('stage 3 sees the second stage', value_at(s2, h.k, h.comp.calls[c0 + 2][5]) ==
                    z3.RealVal('3/4') * r['cur'] + z3.RealVal('1/4') * (r['cur'] + dt * h.tend(c0) + dt * h.tend(c0 + 1)))


def value_at(d, k, snap):
    """value of entry k of dict d when the snapshot was taken"""
    cur, E.node = E.node, snap
    try:
        return value_of(get(d, k))
    finally:
        E.node = cur



for _o in (2, 3):
    def ssp_rk(mode, N, o=_o):
        ssp_contract(o, mode, N)
    ssp_rk.__name__ = 'ssp_rk%d' % _o
    for _f in variants(ssp_rk, {'independent': 2, 'chained': 2, 'same': 2}):
        contract('C11 C12 C05', 'SSPRungeKutta.__init__ SSPRungeKutta._call SSPRungeKutta._step_2_stages SSPRungeKutta._step_3_stages '
                 'ForwardEuler TendencyStepper.__call__ get_stepped_quantities add multiply copy_untouched_quantities '
                 'convert_tendencies_units_for_state step_forward_euler')(_f)
