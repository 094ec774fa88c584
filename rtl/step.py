"""C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 (and C05 for these): composites, steppers, wrappers."""
from .base import *
from sympl import (
    TendencyComponentComposite, ImplicitTendencyComponentComposite, DiagnosticComponentComposite, AdamsBashforth, Leapfrog,
    SSPRungeKutta, TimeDifferencingWrapper, UpdateFrequencyWrapper, ScalingWrapper)
from sympl._core.combine_properties import combine_properties, combine_component_properties

DT = [1, 10, 600, 0.5, 3600, 1.25, 0.001, 129600, 86400]


class World(object):
    """a model state of a few quantities, and components giving tendencies which are
    functions of the state (deterministic, quantity by quantity)"""

    def __init__(self, r, n=None, offset=False, dtype=float):
        self.r = r
        self.L = lengths(r, ['x', 'y', 'z'])
        self.names = r.sample(NAMES, n or r.randint(1, 4))
        self.udim = {q: pick_dim(r) for q in self.names}
        self.unit = {q: pick_unit(r, self.udim[q], offset=offset, odd=False) for q in self.names}
        self.dims = {q: tuple(r.some(['x', 'y', 'z'], 0, 2)) for q in self.names}
        self.passive = r.sample(['passive_a', 'passive_b', 'note', 'zeta'], r.randint(0, 3))
        self.start = r.choice([timedelta(0), datetime(2000, 1, 1), timedelta(days=300, microseconds=5), sympl.datetime(1999, 12, 30, 23, calendar='no_leap')])

    def state(self, t=0):
        r = self.r
        items = []
        for q in self.names:
            items.append((q, rand_da(r, self.dims[q], self.L, self.unit[q], **({'long_name': q + '!'} if r.flip(0.3) else {}))))
        for q in self.passive:
            if q == 'note':
                items.append((q, r.choice([3, 'text', None, 2.5])))
            else:
                dt = r.choice([float, 'i8', 'f4', float])
                items.append((q, rand_da(r, r.some(['x', 'y'], 0, 2), self.L, 'm', dt, comment='keep')))
        items.append(('time', self.start + timedelta(seconds=t)))
        return dict(r.perm(items))


class Stub(object):
    """records the calls of one component"""

    def __init__(self):
        self.calls = []


def tend_component(w, kind, targets, label, tunits, diags=(), reads=None, fail=None, log=None, kwargs=None, dims=None):
    """A T or I component: tendency of q is an affine function of q, coefficient drawn per component.
    tunits[q] its units. Returns component; comp.f(q, values_in_state_unit)-> tendency in state unit per s."""
    r = w.r
    coef = {q: (r.uniform(-2, 2), r.uniform(-2, 2)) for q in targets}
    inputs = {q: {'dims': list(w.dims[q]), 'units': w.unit[q]} for q in targets}
    for q in reads or ():
        inputs.setdefault(q, {'dims': list(w.dims[q]), 'units': w.unit[q]})
    tends = {q: {'units': tunits[q]} for q in targets}
    dprops = {d: {'dims': [], 'units': 'm'} for d in diags}
    log = log if log is not None else Stub()

    def f(q, v):
        a, b = coef[q]
        return a * np.asarray(v) + b

    def compute(raw, dt):
        log.calls.append((label, {k: np.array(v) for k, v in raw.items() if k != 'time'}, raw['time'], dt))
        if fail is not None and fail():
            raise ArithmeticError('planned failure')
        t = {q: convert(f(q, raw[q]), per_time(w.unit[q]), tunits[q]) for q in targets}
        d = {k: np.array(float(len(log.calls)) if False else sum(float(np.sum(raw[q])) for q in targets)) for k in diags}
        return {'tendency': t, 'diagnostic': d}
    cls = make_class(kind, inputs, {'tendency': tends, 'diagnostic': dprops}, compute)
    comp = cls(**(kwargs or {}))
    comp.f = f
    comp.log = log
    return comp


def random_components(r, w, kinds='TI', n=None, fail=None, distinct_diags=True):
    n = n or r.randint(1, 3)
    comps = []
    for i in range(n):
        k = r.choice(kinds)
        targets = r.some(w.names, 0 if i else 1, 3)
        tun = {q: tend_unit(r, w.udim[q]) for q in targets}
        comps.append((k, targets, tend_component(
            w, k, targets, 'c%d' % i, tun, diags=['diag_%d_%d' % (i, j) for j in range(r.randint(0, 2))], fail=fail)))
    r.note('components', [(k, t, c.input_properties, c.tendency_properties) for k, t, c in comps])
    return comps


def total(comps, q, v):
    return sum(c.f(q, v) for k, t, c in comps if q in t)


# ------------------------------------------------------------------ C06
def out_of(comp, kind, state, dt):
    return comp(state, dt) if kind == 'I' else comp(state)


@case('C06', 3)
def composite_sums(r):
    w = World(r)
    implicit = r.flip()
    comps = random_components(r, w, 'TI' if implicit else 'T', n=r.randint(1, 4))
    cls = ImplicitTendencyComponentComposite if implicit else TendencyComponentComposite
    again = [x for x in comps if not x[2].diagnostic_properties]
    if again and r.flip(0.3):       # the same component more than once
        comps.insert(r.randint(0, len(comps)), r.choice(again))
        r.note('with a component twice')
    C = must_work('construction', cls, *[c for _, _, c in comps])
    st = w.state()
    dt = timedelta(seconds=r.choice(DT))
    for c in comps:
        c[2].log.calls[:] = []
    before = snapshot(st)
    tend, diag = must_work('call', C, st, dt) if implicit else must_work('call', C, st)
    check_snapshot('composite call', before, st)
    for k, t, c in comps:
        times = len([1 for x in comps if x[2] is c])
        need(len(c.log.calls) == times, 'a component was called %d times, not %d', len(c.log.calls), times)
        need(c.log.calls[0][3] == (dt if k == 'I' else None), 'component was given timestep %r', c.log.calls[0][3])
        need(c.log.calls[0][2] == st['time'], 'component was given another time')
    want = {q for _, t, _ in comps for q in t}
    need(set(tend) == want, 'tendencies for %s, expected %s', sorted(tend), sorted(want))
    for q in want:
        first = [c for _, t, c in comps if q in t][0].tendency_properties[q]['units']
        exp = convert(total(comps, q, st[q].values), per_time(w.unit[q]), first)
        need(tend[q].attrs.get('units') == first, '%s has units %r, the first component gives %r', q, tend[q].attrs.get('units'), first)
        need(close(tend[q].transpose(*st[q].dims).values, exp), 'tendency of %s is %s, the sum is %s', q, tend[q].values, exp)
    wd = {}
    for _, t, c in comps:
        for d in c.diagnostic_properties:
            wd[d] = sum(float(np.sum(st[q].values)) for q in t)
    need(set(diag) == set(wd), 'diagnostics are %s, expected %s', sorted(diag), sorted(wd))
    for d in wd:
        need(close(diag[d].values, wd[d]), 'diagnostic %s is %s, not %s', d, diag[d].values, wd[d])


@case('C06', 2)
def composite_sums_given_values(r):
    """components which return arbitrary DataArrays: different dims, dtypes, units; nothing of theirs is changed"""
    L = lengths(r, ['x', 'y'])
    ud = pick_dim(r)
    implicit = r.flip()
    n = r.randint(2, 4)
    vals, comps = [], []
    for i in range(n):
        u = tend_unit(r, ud)
        dims = r.some(['x', 'y'], 0, 2)
        v = rand_da(r, dims, L, u, r.choice([float, float, 'i8', 'f4']))
        dv = rand_da(r, dims, L, 'm')
        vals.append(v)

        def compute(raw, dt, v=v, dv=dv, i=i):
            return {'tendency': {'q': v.values}, 'diagnostic': {'d%d' % i: dv.values}}
        k = r.choice('TI') if implicit else 'T'
        cls = make_class(k, {}, {'tendency': {'q': {'dims': dims, 'units': u}},
                                 'diagnostic': {'d%d' % i: {'dims': dims, 'units': 'm'}}}, compute)
        # dims sets that differ are refused when the properties are combined, so override the declared ones
        comp = cls()
        comps.append((comp, v, dv))
    r.note('tendencies', [(v.dims, v.dtype, v.attrs, v.values.tolist()) for v in vals])
    from sympl._core.util import update_dict_by_adding_another
    acc = {}
    keep = [v.copy(deep=True) for v in vals]
    for c, v, dv in comps:
        must_work('adding a tendency', update_dict_by_adding_another, acc, {'q': v})
    for v, k in zip(vals, keep):
        need(deep_equal(v, k), 'adding tendencies changed one of the given arrays')
    u0 = vals[0].attrs['units']
    full = [d for d in ('x', 'y') if any(d in v.dims for v in vals)]
    exp = 0.
    size = 0.
    for v in vals:
        c = convert(v.values, v.attrs['units'], u0)
        order = [d for d in full if d in v.dims]
        c = DataArray(c, dims=v.dims).transpose(*order).values
        c = c.reshape([L[d] if d in v.dims else 1 for d in full])
        exp = exp + c
        size += float(np.max(np.abs(c))) if c.size else 0.
    exp = np.broadcast_to(exp, [L[d] for d in full])
    got = acc['q']
    need(got.attrs.get('units') == u0, 'sum has units %r, expected %r', got.attrs.get('units'), u0)
    need(set(got.dims) == set(full), 'sum has dims %s, expected %s', got.dims, full)
    tol = (2e-6 if any(v.dtype == 'f4' for v in vals) else 1e-12) * (1 + size)
    got_v = got.transpose(*full).values
    need(got_v.shape == exp.shape and np.all(np.abs(got_v - exp) <= tol),
         'sum is %s, expected %s', got.values, exp)


@case('C06', 1)
def diagnostic_composite(r):
    w = World(r)
    comps, exp = [], {}
    for i in range(r.randint(1, 4)):
        outs = {}
        props = {}
        for j in range(r.randint(0, 2)):
            n = 'd%d_%d' % (i, j)
            dims = r.some(['x', 'y'], 0, 2)
            props[n] = {'dims': dims, 'units': pick_unit(r, pick_dim(r))}
            outs[n] = r.arr([w.L[d] for d in dims])
            exp[n] = (tuple(dims), props[n]['units'], outs[n])
        reads = r.some(w.names, 0, 2)
        comps.append(make_class('D', {q: {'dims': list(w.dims[q]), 'units': w.unit[q]} for q in reads}, {'diagnostic': props},
                                lambda raw, dt, outs=outs: {'diagnostic': outs})())
    st = w.state()
    C = must_work('construction', DiagnosticComponentComposite, *comps)
    res = must_work('call', C, st)
    need(set(res) == set(exp), 'diagnostics %s, expected %s', sorted(res), sorted(exp))
    for n, (dims, u, v) in exp.items():
        need(tuple(res[n].dims) == dims and res[n].attrs.get('units') == u and np.array_equal(res[n].values, v), '%s was changed', n)
    for c in comps:
        need(len(c.seen) == 1, 'component called %d times', len(c.seen))


# ------------------------------------------------------------------ C07
@case('C07', 2)
def shared_diagnostic_refused(r):
    w = World(r)
    kind = r.choice('TID')
    n = r.randint(2, 4)
    names = [['d%d' % i] + (['e%d' % i] if r.flip() else []) for i in range(n)]
    shared = r.flip(0.7)
    if shared:
        i, j = r.sample(range(n), 2)
        names[i].insert(r.randint(0, len(names[i])), 'common')
        names[j].insert(r.randint(0, len(names[j])), 'common')
    comps = []
    for i in range(n):
        k = kind if kind != 'I' else r.choice('TI')
        q = r.choice(w.names)
        extra = {} if k == 'D' else {'tendency': {q: {'units': tend_unit(r, w.udim[q])}} if r.flip() else {}}
        props = {}
        for d in names[i]:
            props[d] = {'dims': r.some(['x', 'y'], 0, 2), 'units': r.choice(['m', 'K', 's'])}
        tid = {'tendencies_in_diagnostics': True, 'name': 'n%d' % i} if k != 'D' and r.flip(0.3) else {}
        comps.append(make_class(k, {q: {'dims': list(w.dims[q]), 'units': w.unit[q]}}, dict(extra, diagnostic=props))(**tid))
    cls = {'T': TendencyComponentComposite, 'I': ImplicitTendencyComponentComposite, 'D': DiagnosticComponentComposite}[kind]
    r.note('diagnostics', names)
    if not shared and r.flip(0.3):      # the same object twice
        i = r.randint(0, n - 1)
        r.note('repeated', i)
        again = list(comps)
        again.insert(r.randint(0, n), comps[i])
        must_raise(SharedKeyError, 'the same component twice', cls, *again)
    if shared:
        must_raise(SharedKeyError, 'two components declare the same diagnostic', cls, *comps)
    else:
        must_work('construction', cls, *comps)
    # wrong kind
    wrong = {'T': 'IDS', 'I': 'DS', 'D': 'TIS'}[kind]
    if not shared:
        bad = make_class(r.choice(wrong), {}, {})()
        args = list(comps)
        args.insert(r.randint(0, len(args)), bad)
        must_raise(TypeError, 'a component of the wrong kind', cls, *args)


@case('C07', 1)
def runtime_clash_refused(r):
    """components whose calls return more than their (instance) properties said at construction"""
    n = r.randint(2, 4)
    comps = []
    a, b = r.sample(range(n), 2)
    calls, late = [0], r.choice([0, 0, 1, 2])
    for i in range(n):
        base_cls = make_class('D', {}, {'diagnostic': {'d%d' % i: {'dims': [], 'units': 'm'}}})

        def call(self, state, i=i):
            out = {'d%d' % i: da(float(i), [], 'm')}
            if i in (a, b) and calls[0] >= late:
                out['hidden'] = da(float(i), [], 'm')
            return out
        comps.append(type('X', (base_cls,), {'__call__': call})())
    C = must_work('construction', DiagnosticComponentComposite, *comps)
    for i in range(late):
        must_work('call without a clash', C, {'time': timedelta(0)})
        calls[0] += 1
    for i in range(r.randint(1, 2)):
        must_raise(SharedKeyError, 'two components return the same diagnostic', C, {'time': timedelta(0)})


# ------------------------------------------------------------------ C08
def satisfies(spec, dims):
    """spec (a list of dims, maybe with *) satisfies a component's dims"""
    a, b = set(spec) - {'*'}, set(dims) - {'*'}
    if '*' in dims:
        return b <= a
    return a == b and '*' not in spec


@case('C08', 3)
def combined_properties(r):
    n = r.randint(1, 4)
    pool = r.sample(DIMNAMES, r.randint(1, 3))
    qs = r.sample(NAMES, r.randint(1, 3))
    udim = {q: pick_dim(r) for q in qs}
    base_dims = {q: r.some(pool, 0, 3) for q in qs}
    lists = []
    with_input = r.flip(0.3)
    inp = {q: {'dims': base_dims[q], 'units': pick_unit(r, udim[q])} for q in qs}
    for i in range(n):
        P = {}
        for q in r.some(qs, 1):
            m = r.random()
            if m < 0.45:
                dims = r.perm(base_dims[q])
            elif m < 0.85:
                dims = r.perm(r.some(base_dims[q]) + ['*'])
            else:
                dims = r.perm(r.some(pool))
            p = {'units': pick_unit(r, udim[q]) if r.flip(0.93) else other_dim_unit(r, pick_unit(r, udim[q])),
                 'dims': dims if r.flip() else tuple(dims)}
            if with_input and r.flip(0.3):
                del p['dims']
            P[q] = p
        lists.append(P)
    names = {q for P in lists for q in P}
    ok = True
    for q in names:
        specs = [P[q].get('dims', base_dims[q]) for P in lists if q in P]
        us = [P[q]['units'] for P in lists if q in P]
        if any(not compatible(us[0], u) for u in us):
            # percent / angle are both dimensionless for pint
            if {unit_of(u)[0] for u in us} <= {'none', 'angle'}:
                return
            ok = False
        allnames = sorted({d for s in specs for d in s if d != '*'})
        cands = [allnames, allnames + ['*']]
        if not any(all(satisfies(c, s) for s in specs) for c in cands):
            ok = False
    r.note('properties', lists, 'inputs', inp if with_input else None)
    for order in [lists] + [r.perm(lists) for _ in range(3)]:
        keep = copy.deepcopy((order, inp))
        try:
            res = combine_properties(list(order), inp if with_input else None)
            good = True
        except InvalidPropertyDictError:
            good = False
        need(keep == (order, inp), 'combining changed the given dictionaries')
        need(good == ok, 'order %s: %s, but a common specification %s', [sorted(x) for x in order],
             'accepted' if good else 'refused', 'exists' if ok else 'does not exist')
        if not good:
            continue
        need(set(res) == names, 'names %s, expected %s', sorted(res), sorted(names))
        for q in names:
            for P in order:
                if q in P:
                    need(compatible(res[q]['units'], P[q]['units']), '%s: units %s not convertible to %s', q, res[q]['units'], P[q]['units'])
                    need(satisfies(res[q]['dims'], P[q].get('dims', base_dims[q])), '%s: combined dims %s do not satisfy %s',
                         q, res[q]['dims'], P[q].get('dims', base_dims[q]))
                    need(len(set(res[q]['dims'])) == len(res[q]['dims']), '%s: combined dims %s repeat', q, res[q]['dims'])


@case('C08', 1)
def combined_component_properties(r):
    """through composites and steppers, with tracers"""
    w = World(r)
    ntr = r.randint(0, 2)
    for i in range(ntr):
        sympl.register_tracer('tr%d' % i, 'kg m^-3')
    comps = []
    trdims = r.some(DIMNAMES + ['tracer_x', 'my_tracer'], 0, 3)
    for i in range(r.randint(1, 3)):
        reads = r.some(w.names, 0, 3)
        ins = {q: {'dims': ['*'] if r.flip(0.3) else r.perm(w.dims[q]), 'units': pick_unit(r, w.udim[q], odd=False)} for q in reads}
        extra = {}
        if r.flip(0.4):
            td = ['*'] if r.flip(0.3) else r.perm(trdims)
            td.insert(r.randint(0, len(td)), 'tracer')
            extra = {'uses_tracers': True, 'tracer_dims': r.choice([tuple, list])(td)}
            if r.flip(0.4):
                extra['prepend_tracers'] = [('pre_tr', 'kg m^-3')]
        comps.append(make_class('T', ins, {}, extra=extra)())
    names = {q for c in comps for q in c.input_properties}
    for c in comps:
        if c.uses_tracers:
            names |= {'tr%d' % i for i in range(ntr)} | {n for n, u in getattr(c, 'prepend_tracers', [])}
    C = must_work('construction', TendencyComponentComposite, *comps)
    p = C.input_properties
    need(set(p) == names, 'combined inputs are %s, expected %s', sorted(p), sorted(names))
    for c in comps:
        if c.uses_tracers:
            for q in ['tr%d' % i for i in range(ntr)] + [n for n, u in getattr(c, 'prepend_tracers', [])]:
                need(satisfies(p[q]['dims'], [d for d in c.tracer_dims if d != 'tracer']), 'tracer %s: %s against tracer_dims %s',
                     q, p[q]['dims'], c.tracer_dims)
                need(p[q]['units'] == 'kg m^-3', 'tracer %s: units %s', q, p[q]['units'])
    S = must_work('construction', AdamsBashforth, *comps)
    need(set(S.input_properties) == names, 'stepper inputs are %s, expected %s', sorted(S.input_properties), sorted(names))
    for q in names:
        for c in comps:
            if q in c.input_properties:
                need(satisfies(p[q]['dims'], c.input_properties[q]['dims']), '%s: %s against %s', q, p[q]['dims'], c.input_properties[q]['dims'])
                need(compatible(p[q]['units'], c.input_properties[q]['units']), '%s: units %s', q, p[q]['units'])


# ------------------------------------------------------------------ steppers
AB = {1: [1.], 2: [1.5, -0.5], 3: [23 / 12., -16 / 12., 5 / 12.], 4: [55 / 24., -59 / 24., 37 / 24., -9 / 24.]}


def check_complete(w, st, new, stepped, what='step'):
    need(set(new) == set(st), '%s: keys of the new state are %s, of the state %s', what, sorted(new), sorted(st))
    for k in st:
        if k in stepped:
            need(isinstance(new[k], DataArray), '%s: %s is %r', what, k, type(new[k]))
            need(new[k].attrs.get('units') == st[k].attrs['units'], '%s: %s has units %r, had %r', what, k, new[k].attrs.get('units'), st[k].attrs['units'])
            need(tuple(new[k].dims) == tuple(st[k].dims), '%s: %s has dims %s, had %s', what, k, new[k].dims, st[k].dims)
        else:
            need(type(new[k]) == type(st[k]), '%s: type of %s changed from %r to %r', what, k, type(st[k]), type(new[k]))
            need(deep_equal(new[k], st[k]), '%s: untouched quantity %s was changed', what, k)


def run_history(r, stepper, w, comps, reference, leapfrog=False, diff_dt=True, prop=None):
    """drive a stepper through a history; reference(n, state, tend_history) -> expected new values"""
    dt = timedelta(seconds=r.choice(DT))
    h = dt.total_seconds()
    stepped = {q for _, t, _ in comps for q in t}
    ref = reference(stepped, h)
    returned = []
    size = {q: 0. for q in stepped}      # rounding errors are relative to the largest value so far
    st = w.state()
    for n in range(r.randint(1, 8)):
        if diff_dt and n and r.flip(0.2):
            keep = snapshot(st)
            must_raise(ValueError, 'call %d with another timestep' % n, stepper, st, timedelta(seconds=h + r.choice([1, -0.25 * h, h])))
            if prop != 'C05':
                check_snapshot('a refused call', keep, st)
        vals = {q: np.array(st[q].values, dtype=float) for q in stepped}
        tend = {q: total(comps, q, vals[q]) for q in stepped}
        before = snapshot(st)
        orig = {k: (v.copy(deep=True) if hasattr(v, 'attrs') else v) for k, v in st.items()}
        diag, new = must_work('call %d' % n, stepper, st, dt)
        exp, filt = ref(vals, tend)
        for q in stepped:
            size[q] = max(size[q], np.max(np.abs(vals[q])), np.max(np.abs(tend[q])) * h)
        if filt is None:
            check_snapshot('stepper call %d' % n, before, st)
        else:
            need(set(st) == set(orig), 'call %d changed the keys of the state', n)
            for q in st:
                if q in stepped:
                    need(close(st[q].values, filt[q], 1e-8, size[q]), 'call %d: filtered %s is %s, expected %s', n, q, st[q].values, filt[q])
                    need(st[q].attrs.get('units') == orig[q].attrs['units'] and st[q].dims == orig[q].dims, 'call %d: filtered %s lost units or dims', n, q)
                else:
                    need(deep_equal(st[q], orig[q]), 'call %d: %s, which has no tendency, was changed', n, q)
        check_complete(w, orig, new, stepped, 'call %d' % n)
        for q in stepped:
            need(close(new[q].values, exp[q], 1e-8, size[q]), 'call %d: new %s is %s, the scheme gives %s', n, q, new[q].values, exp[q])
        for i, (old_out, cp) in enumerate(returned):
            if not leapfrog:
                need(deep_equal(old_out, cp), 'call %d changed what call %d returned', n, i)
        returned.append(((diag, new), copy.deepcopy((diag, new))))
        mode = r.random()
        if mode < 0.6:
            st = dict(new)
            st['time'] = st['time'] + dt
        else:
            # times need not be in order
            st = w.state((n + 1) * h if prop == 'C09' or r.flip(0.6) else r.choice([0, n - 1, n, -n, 3 * n]) * h)
            for q in st:                    # same dims and units, other data
                if q not in w.names and hasattr(new.get(q), 'attrs'):
                    st[q] = new[q]
        returned = returned[-3:]
        if leapfrog:
            returned = []


def ab_reference(order):
    def make(stepped, h):
        hist = []

        def step(vals, tend):
            hist.insert(0, tend)
            del hist[order:]
            c = AB[len(hist)]
            return {q: vals[q] + h * sum(ci * t[q] for ci, t in zip(c, hist)) for q in stepped}, None
        return step
    return make


@case('C09', 3)
def ab_history(r):
    w = World(r)
    comps = random_components(r, w)
    order = r.randint(1, 4)
    r.note('order', order)
    S = must_work('construction', AdamsBashforth, *[c for _, _, c in comps], order=order)
    run_history(r, S, w, comps, ab_reference(order))


@case('C09', 1)
def ab_history_with_failures(r):
    """calls that fail (component raises, or the state is invalid) leave later results unaffected"""
    w = World(r, n=r.randint(1, 2))
    flag = [False]
    comps = random_components(r, w, fail=lambda: flag[0])
    order = r.randint(2, 4)
    S = must_work('construction', AdamsBashforth, *[c for _, _, c in comps], order=order)
    dt = timedelta(seconds=r.choice(DT))
    h = dt.total_seconds()
    stepped = {q for _, t, _ in comps for q in t}
    ref = ab_reference(order)(stepped, h)
    for n in range(r.randint(2, 7)):
        st = w.state(n * h)
        if r.flip(0.4):
            bad = r.choice(['component', 'missing', 'timestep'])
            if bad == 'timestep' and n == 0:
                bad = 'component'
            st2 = dict(st)
            if bad == 'missing':
                del st2[r.choice(sorted(stepped))]
            flag[0] = bad == 'component'
            r.note('failing call before', n, bad)
            other = r.choice([2 * dt, dt / 2, dt + timedelta(microseconds=1)])
            for again in range(r.randint(1, 2)):
                try:
                    S(st2, dt if bad != 'timestep' else other)
                    raise Violation('failing call (%s) did not raise' % bad)
                except (ArithmeticError, InvalidStateError, ValueError):
                    pass
            flag[0] = False
        vals = {q: np.array(st[q].values, dtype=float) for q in stepped}
        diag, new = must_work('call %d' % n, S, st, dt)
        exp, _ = ref(vals, {q: total(comps, q, vals[q]) for q in stepped})
        for q in stepped:
            need(close(new[q].values, exp[q], 1e-8), 'successful call %d: new %s is %s, the scheme gives %s', n, q, new[q].values, exp[q])


@case('C09', 0.5)
def ab_arguments(r):
    w = World(r)
    comps = [c for _, _, c in random_components(r, w)]
    must_raise(ValueError, 'order 0', AdamsBashforth, *comps, order=0)
    must_raise(ValueError, 'order 5', AdamsBashforth, *comps, order=5)
    must_raise(TypeError, 'order 1.5', AdamsBashforth, *comps, order=1.5)


def leapfrog_reference(strength, alpha):
    def make(stepped, h):
        old = [None]

        def step(vals, tend):
            if old[0] is None:
                new = {q: vals[q] + h * tend[q] for q in stepped}
                filt = dict(vals)
            else:
                new, filt = {}, {}
                for q in stepped:
                    star = old[0][q] + 2 * h * tend[q]
                    d = strength / 2. * (old[0][q] - 2 * vals[q] + star)
                    filt[q] = vals[q] + alpha * d
                    new[q] = star - (1 - alpha) * d
            old[0] = filt
            return new, filt
        return step
    return make


@case('C10', 3)
def leapfrog_history(r):
    w = World(r)
    comps = random_components(r, w)
    kw, s, a = {}, 0.05, 0.5
    if r.flip(0.7):
        kw['asselin_strength'] = s = r.choice([0.05, 0., 0.1, 0.3, 1.0])
    if r.flip(0.7):
        kw['alpha'] = a = r.choice([0.5, 1.0, 0.0, 0.53, 0.9, 1.2])
    r.note('leapfrog', kw)
    S = must_work('construction', Leapfrog, *[c for _, _, c in comps], **kw)
    run_history(r, S, w, comps, leapfrog_reference(s, a), leapfrog=True)


def ssp_reference(comps, stages):
    def make(stepped, h):
        def E(s):
            return {q: s[q] + h * total(comps, q, s[q]) for q in stepped}

        def step(vals, tend):
            if stages == 2:
                e = E(E(vals))
                return {q: (vals[q] + e[q]) / 2 for q in stepped}, None
            e = E(E(vals))
            m = {q: 0.75 * vals[q] + 0.25 * e[q] for q in stepped}
            e = E(m)
            return {q: vals[q] / 3 + 2 / 3. * e[q] for q in stepped}, None
        return step
    return make


@case('C11', 3)
def ssp_history(r):
    w = World(r)
    comps = random_components(r, w)
    for i in range(1):
        stages = r.choice([2, 3])
        r.note('stages', stages)
        S = must_work('construction', SSPRungeKutta, *[c for _, _, c in comps], stages=stages)
        run_history(r, S, w, comps, ssp_reference(comps, stages), diff_dt=False)


@case('C11', 1)
def ssp_memoryless(r):
    """changing timesteps, failing calls and other states before do not matter; diagnostics are of the input state"""
    w = World(r)
    flag = [0]
    comps = random_components(r, w, fail=lambda: flag[0] > 0 and r.flip())
    stages = r.choice([2, 3])
    S = must_work('construction', SSPRungeKutta, *[c for _, _, c in comps], stages=stages)
    stepped = {q for _, t, _ in comps for q in t}
    for n in range(3):
        st = w.state(n)
        dt = timedelta(seconds=r.choice(DT))
        if r.flip(0.4):
            flag[0] = 1
            try:
                S(w.state(), dt)
            except ArithmeticError:
                pass
            flag[0] = 0
        vals = {q: np.array(st[q].values, dtype=float) for q in stepped}
        if r.flip(0.3):         # diagnostics of an earlier step are still in the state
            for _, t, c in comps:
                for d in c.diagnostic_properties:
                    st[d] = da(-1234.5, [], 'm')
        diag, new = must_work('call', S, st, dt)
        exp, _ = ssp_reference(comps, stages)(stepped, dt.total_seconds())(vals, None)
        for q in stepped:
            need(close(new[q].values, exp[q], 1e-8), 'call %d: new %s is %s, the scheme gives %s', n, q, new[q].values, exp[q])
        for _, t, c in comps:
            for d in c.diagnostic_properties:
                x = sum(float(np.sum(st[q].values)) for q in t)
                need(d in diag and close(diag[d].values, x), 'diagnostic %s is not that of the input state', d)


def any_stepper(r, comps, **kw):
    k = r.choice(['AB1', 'AB2', 'AB3', 'AB4', 'LF', 'RK2', 'RK3'])
    r.note('stepper', k)
    if k.startswith('AB'):
        return k, must_work('construction', AdamsBashforth, *comps, order=int(k[2]), **kw)
    if k == 'LF':
        return k, must_work('construction', Leapfrog, *comps, **kw)
    return k, must_work('construction', SSPRungeKutta, *comps, stages=int(k[2]), **kw)


@case('C12', 3)
def complete_state(r):
    w = World(r)
    comps = random_components(r, w)
    k, S = any_stepper(r, [c for _, _, c in comps])
    stepped = {q for _, t, _ in comps for q in t}
    dt = timedelta(seconds=r.choice(DT))
    st = w.state()
    for n in range(r.randint(1, 5)):
        # types other than float arrays must pass through
        for x in r.some(['flag', 'count', 'label', 'arr'], 0, 3):
            if r.flip(0.3):         # also quantities which the components compute as diagnostics
                for _, _, c in comps:
                    for dn in r.some(sorted(c.diagnostic_properties), 0, 1):
                        st.setdefault(dn, da(r.arr([2]), ['y'], 'K', comment='other'))
            st.setdefault(x, {'flag': True, 'count': 7, 'label': 'abc', 'arr': da(np.array([True, False]), ['b'], 'm')}[x])
        orig = {q: (v.copy(deep=True) if hasattr(v, 'attrs') else v) for q, v in st.items()}
        diag, new = must_work('call %d' % n, S, st, dt)
        need('time' in new and new['time'] == orig['time'], 'time changed')
        check_complete(w, orig, new, stepped, '%s call %d' % (k, n))
        need(set(st) == set(orig), 'the given state now has keys %s', sorted(st))
        for d in diag:
            need(d in [x for _, _, c in comps for x in c.diagnostic_properties], 'unexpected diagnostic %s', d)
        st = dict(new) if r.flip(0.6) else {**w.state(), **{q: v for q, v in st.items() if q not in w.names}}


@case('C13', 2)
def tendency_stepper_diagnostics(r):
    w = World(r)
    comps = random_components(r, w)
    given = r.choice([None, 'dyn'])
    kw = {} if given is None else {'name': given}
    on = r.flip(0.75)
    k, S = any_stepper(r, [c for _, _, c in comps], tendencies_in_diagnostics=on, **kw)
    stepped = {q for _, t, _ in comps for q in t}
    label = given or S.__class__.__name__
    dt = timedelta(seconds=r.choice(DT))
    plain = {d for _, _, c in comps for d in c.diagnostic_properties}
    st = w.state()
    for n in range(r.randint(1, 4)):
        diag, new = must_work('call', S, st, dt)
        want = plain | ({'%s_tendency_from_%s' % (q, label) for q in stepped} if on else set())
        need(set(diag) == want, 'diagnostics %s, expected %s', sorted(diag), sorted(want))
        for q in stepped if on else ():
            # `new - old`; Leapfrog's old value is the (filtered) one it leaves in the state
            u = diag['%s_tendency_from_%s' % (q, label)].attrs.get('units')
            declared = S.input_properties[q]['units']
            got = diag['%s_tendency_from_%s' % (q, label)]
            need(u == per_time(declared), 'tendency of %s has units %r, declared %r per second', q, u, declared)
            exp = (convert(new[q].values, w.unit[q], declared) - convert(st[q].values, w.unit[q], declared)) / dt.total_seconds()
            need(close(got.transpose(*new[q].dims).values, exp, 1e-7), 'tendency of %s is %s, expected %s', q, got.values, exp)
        st = dict(new)
        st['time'] = st['time'] + dt
    # other instances are not affected
    S2 = type(S)(*[c for _, _, c in comps])
    d2, _ = must_work('call of another stepper', S2, w.state(), dt)
    need(set(d2) == plain, 'a stepper not asked for tendencies gives %s', sorted(d2))


# ------------------------------------------------------------------ wrappers
def simple_component(r, w, kind, keep_raw=False):
    """component with inputs, outputs whose values are simple functions of its inputs; may hand back the very arrays it got or owns"""
    reads = r.some(w.names, 1, 3)
    owned = {}
    outs = OUTS[kind][0]
    props = {o: {} for o in OUTS[kind]}
    plan = {}
    for o in OUTS[kind]:
        for n in (r.some(reads, 0, 2) + (['new_%s' % o[:3]] if r.flip(0.5) else [])):
            src = n if n in reads else r.choice(reads)
            u = tend_unit(r, w.udim[src]) if o == 'tendency' else w.unit[src]
            if o == 'tendency':
                u = per_time(w.unit[src])
            props[o][n] = {'dims': list(w.dims[src]), 'units': u}
            plan[(o, n)] = (src, r.choice(['same', 'owned', 'fresh']))
    inputs = {q: {'dims': list(w.dims[q]), 'units': w.unit[q]} for q in reads}

    def compute(raw, dt):
        res = {}
        for (o, n), (src, how) in plan.items():
            v = raw[src]
            if how == 'owned':
                v = owned.setdefault((o, n), np.array(v, dtype=float))
            elif how == 'fresh':
                v = v * 2.0 + 1.0
            res.setdefault(o, {})[n] = v
        return res
    return make_class(kind, inputs, props, compute), props, inputs, plan, owned


@case('C14', 3)
def scaling_wrapper(r):
    w = World(r)
    kind = r.choice('TIDS')
    cls, props, inputs, plan, owned = simple_component(r, w, kind)
    ref, comp = cls(), cls()
    f = {}
    for g, names in [('input', inputs)] + [(o, props[o]) for o in OUTS[kind]]:
        if r.flip(0.7):
            f[g] = {n: r.choice([2.0, 0.5, -1, 3, 0, 0.1, 1]) for n in r.some(sorted(names))}
    r.note('kind', kind, 'props', props, 'plan', plan, 'factors', f)
    W = must_work('construction', ScalingWrapper, comp, **{g + '_scale_factors': dict(v) for g, v in f.items()})
    for n in range(3):
        st = w.state(n)
        dt = timedelta(seconds=r.choice(DT))
        scaled = dict(st)
        for q, x in f.get('input', {}).items():
            scaled[q] = DataArray(st[q].values * float(x), dims=st[q].dims, attrs=dict(st[q].attrs))
        for i in range(r.randint(1, 3)):
            if i and r.flip(0.4):       # the model changes its arrays in place
                for q in r.some(inputs):
                    st[q].values[...] = st[q].values * 0.5 + 3.0
            before = snapshot(st)
            args = (st,) if kind in 'TD' and r.flip() else (st, dt)
            got = must_work('wrapped call', W, *args)
            check_snapshot('wrapped call', before, st)
            need(len(comp.seen) >= 1, 'component was not called')
            seen, sdt = comp.seen[-1]
            for q in inputs:
                need(close(seen[q], st[q].values.transpose([st[q].dims.index(d) for d in inputs[q]['dims']]) *
                           float(f.get('input', {}).get(q, 1.0))), 'component was given %s = %s', q, seen[q])
            if kind in 'IS':
                need(sdt == dt, 'component was given timestep %r', sdt)
            # expected results from the plan
            if kind == 'D':
                got = {'diagnostic': got}
            elif kind == 'S':
                got = {'diagnostic': got[0], 'output': got[1]}
            else:
                got = {'tendency': got[0], 'diagnostic': got[1]}
            for o in OUTS[kind]:
                need(set(got[o]) == set(props[o]), '%s: %s', o, sorted(got[o]))
                for name in props[o]:
                    src, how = plan[(o, name)]
                    v = np.asarray(seen[src], dtype=float)
                    if how == 'owned':
                        v = np.asarray(owned[(o, name)])
                    elif how == 'fresh':
                        v = v * 2.0 + 1.0
                    v = v * float(f.get(o, {}).get(name, 1.0))
                    g = got[o][name]
                    need(close(g.values, v), 'call %d.%d: %s %s is %s, expected %s', n, i, o, name, g.values, v)
                    need(g.attrs.get('units') == props[o][name]['units'] and list(g.dims) == list(props[o][name]['dims']),
                         '%s %s lost units or dims', o, name)
            need(len(comp.seen) == 1, 'component was called %d times', len(comp.seen))
            del comp.seen[:]
    for k, v in owned.items():
        pass


@case('C14', 1)
def scaling_wrapper_refusals(r):
    w = World(r)
    kind = r.choice('TIDS')
    cls, props, inputs, plan, owned = simple_component(r, w, kind)
    comp = cls()
    bad = r.choice(['input', 'diagnostic', 'output', 'tendency'])
    have = {'input'} | set(OUTS[kind])
    valid = {'input': inputs}
    valid.update(props)
    if bad in have:
        facs = {n: 2.0 for n in r.some(sorted(valid[bad]))}
        facs['not_a_quantity'] = 2.0
        must_raise(ValueError, 'scale factor for an unknown %s' % bad, ScalingWrapper, comp, **{bad + '_scale_factors': dict(r.perm(facs.items()))})
    else:
        must_raise(TypeError, '%s scale factors for a component without them' % bad, ScalingWrapper, comp, **{bad + '_scale_factors': {'q': 1.0}})
    must_raise(TypeError, 'wrapping something which is not a component', ScalingWrapper, r.choice([object(), 3, {}]))


@case('C15', 3)
def update_frequency(r):
    w = World(r)
    kind = r.choice('TIDS')
    flag = [False]
    count = [0]

    def body(self, state, timestep, kw):
        if flag[0]:
            raise ArithmeticError('planned')
        count[0] += 1
        calls.append((state, timestep, kw))
        return ({}, {}) if kind != 'D' else {}
    calls = []
    optional = r.flip(0.2)
    if kind in 'IS':
        def call(self, state, timestep, **kw):
            flag_out = body(self, state, timestep, kw)
            return flag_out + (count[0],) if isinstance(flag_out, tuple) else flag_out
    elif optional:
        def call(self, state, timestep=None, **kw):
            return ('out', body(self, state, timestep, kw), count[0])
    else:
        def call(self, state, **kw):
            return ('out', body(self, state, None, kw), count[0])
    takes = kind in 'IS' or optional
    comp = type('U', (make_class(kind, {}, {}),), {'__call__': call})()
    interval = timedelta(seconds=r.choice([0, 1, 10, 10, 25, 0.5]))
    W = must_work('construction', UpdateFrequencyWrapper, comp, interval)
    start = r.choice([timedelta(0), datetime(2000, 1, 1)])
    t = 0.
    last, out = None, None
    for n in range(r.randint(1, 10)):
        st = {'time': start + timedelta(seconds=t), 'marker': n}
        dt = timedelta(seconds=r.choice(DT))
        kw = {'extra': n} if r.flip(0.3) else {}
        args = (st, dt) if (takes or r.flip()) else (st,)
        due = last is None or timedelta(seconds=t) - last >= interval
        flag[0] = r.flip(0.2)
        k = len(calls)
        r.note('t', t, 'due', due, 'fails', flag[0])
        if due and flag[0]:
            must_raise(ArithmeticError, 'failing computation', W, *args, **kw)
            need(len(calls) == k, 'computed although it fails')
            flag[0] = False
        else:
            flag[0] = False
            got = must_work('call', W, *args, **kw)
            need(len(calls) == k + (1 if due else 0), 'call at t=%s, last computation %s, interval %s: computed %d times', t, last, interval, len(calls) - k)
            if due:
                need(calls[-1][0] is st or calls[-1][0] == st, 'component was given another state')
                need(calls[-1][1] == (dt if takes else None), 'component was given timestep %r', calls[-1][1])
                need(calls[-1][2] == kw, 'component was given keywords %r', calls[-1][2])
                last, out = timedelta(seconds=t), got
                if isinstance(got, tuple):
                    need(got[-1] == count[0], 'returned an output which is not of this computation')
            else:
                need(got is out or got == out, 'a call which is not due did not return the last output')
        t += r.choice([0, 0.5, 1, 5, 9.999999, 10, 10, 10.000001, 25, -3])


@case('C16', 3)
def time_differencing(r):
    w = World(r)
    names = w.names
    outs = r.some(names, 1, 3)
    inputs = {q: {'dims': list(w.dims[q]), 'units': w.unit[q]} for q in names if r.flip(0.7) or q in outs}
    props = {q: {'dims': list(w.dims[q]), 'units': pick_unit(r, w.udim[q], offset=False, odd=False)} for q in outs}
    diags = {'dd': {'dims': [], 'units': 'm'}} if r.flip() else {}
    newv = {}

    def compute(raw, dt):
        for q in outs:
            newv[q] = raw[q] * 1.5 + 1.0
        return {'output': {q: newv[q] for q in outs}, 'diagnostic': {d: np.array(4.0) for d in diags}}
    comp = make_class('S', inputs, {'output': props, 'diagnostic': diags}, compute)()
    W = must_work('construction', TimeDifferencingWrapper, comp)
    for n in range(2):
        st = w.state(n)
        for q in outs:
            u = pick_unit(r, w.udim[q], offset=False, odd=False)
            st[q] = DataArray(st[q].values, dims=st[q].dims, attrs={'units': u})
            if r.flip():
                st[q] = st[q].transpose(*r.perm(st[q].dims))
        dt = timedelta(seconds=r.choice(DT))
        before = snapshot(st)
        tend, diag = must_work('call', W, st, dt)
        check_snapshot('call', before, st)
        need(set(tend) == set(outs), 'tendencies for %s', sorted(tend))
        need(set(diag) == set(diags) and all(float(diag[d].values) == 4.0 and diag[d].attrs['units'] == 'm' for d in diags), 'diagnostics changed')
        for q in outs:
            u = props[q]['units']
            old = convert(st[q].transpose(*w.dims[q]).values, st[q].attrs['units'], u)
            exp = (newv[q] - old) / dt.total_seconds()
            got = tend[q]
            need(close(got.transpose(*w.dims[q]).values, exp, 1e-8), 'tendency of %s is %s, expected %s', q, got.values, exp)
            gu = got.attrs.get('units')
            need(gu == per_time(u) or gu == u + ' s^-1', '%s has units %r, expected %r per second', q, gu, u)
    st = w.state()
    q = r.choice(outs)
    extra = make_class('S', {}, {'output': {'brand_new': {'dims': [], 'units': 'm'}}}, lambda raw, dt: {'output': {'brand_new': np.array(1.)}})()
    try:
        TimeDifferencingWrapper(extra)({'time': timedelta(0)}, timedelta(seconds=1))
    except Exception:
        pass
    else:
        raise Violation('an output missing from the state was silently dropped')


# ------------------------------------------------------------------ C05 for all of these
@case('C05', 3)
def callers_state_unchanged(r):
    w = World(r)
    which = r.choice(['AB', 'RK', 'TC', 'IC', 'DC', 'SW', 'UF', 'TD'])
    dt = timedelta(seconds=r.choice(DT))
    owned, present = {}, {}
    if which in ('AB', 'RK', 'TC', 'IC'):
        # components which own the arrays they return
        comps = []
        for i in range(r.randint(1, 3)):
            targets = r.some(w.names, 1, 3)
            own = {q: r.arr([w.L[d] for d in w.dims[q]]) for q in targets}
            un = {q: r.choice([per_time(w.unit[q]), tend_unit(r, w.udim[q])]) for q in targets}
            owned[i] = own
            k = 'T' if which == 'TC' else r.choice('TI')
            dn = 'd%d' % i
            if i == 0 and r.flip(0.3):      # the state has this quantity already
                present[dn] = rand_da(r, [], {}, 'm')
            comps.append(make_class(
                k, {q: {'dims': list(w.dims[q]), 'units': w.unit[q]} for q in targets},
                {'tendency': {q: {'units': un[q]} for q in targets}, 'diagnostic': {dn: {'dims': [], 'units': 'm'}}},
                lambda raw, dt, own=own, dn=dn: {'tendency': own, 'diagnostic': {dn: np.array(1.0)}})())
        if which == 'AB':
            f = AdamsBashforth(*comps, order=r.randint(1, 4))
        elif which == 'RK':
            f = SSPRungeKutta(*comps, stages=r.choice([2, 3]))
        elif which == 'TC':
            f = TendencyComponentComposite(*comps)
        else:
            f = ImplicitTendencyComponentComposite(*comps)
        args = (dt,) if which != 'TC' else ()
        repeatable = True
    else:
        kind = {'DC': 'D', 'SW': r.choice('TIDS'), 'UF': r.choice('TIDS'), 'TD': 'S'}[which]
        cls, props, inputs, plan, own = simple_component(r, w, kind)
        comp = cls()
        owned[0] = own
        if which == 'DC':
            f = DiagnosticComponentComposite(comp)
        elif which == 'SW':
            f = ScalingWrapper(comp, **{g + '_scale_factors': {n: 2.5 for n in props[g]} for g in OUTS[kind]})
        elif which == 'UF':
            f = UpdateFrequencyWrapper(comp, timedelta(seconds=1))
        else:
            if any(n not in inputs for n in props['output']):
                return
            f = TimeDifferencingWrapper(comp)
        args = (dt,) if kind in 'IS' else ()
        repeatable = which != 'UF'
    r.note('object', which)
    st = w.state()
    st.update(present)
    before = snapshot(st)
    keep0 = {i: {k: np.array(v) for k, v in o.items()} for i, o in owned.items()}
    r1 = must_work('call', f, st, *args)
    check_snapshot('%s call' % which, before, st)
    for i in keep0:
        for k in keep0[i]:
            need(np.array_equal(keep0[i][k], owned[i][k]), '%s: the call changed an array owned by a component (%s)', which, k)
    keep = {i: {k: np.array(v) for k, v in o.items()} for i, o in owned.items()}
    r1c = copy.deepcopy(r1)
    st2 = {k: (v.copy(deep=True) if hasattr(v, 'attrs') else v) for k, v in st.items()}
    r2 = must_work('second call', f, st2, *args)
    check_snapshot('%s second call' % which, before, st)
    need(deep_equal(r1, r1c), '%s: a second call changed what the first returned', which)
    if repeatable and not (which == 'AB'):
        need(close_all(r1, r2), '%s: repeating the call with an equal state gives another result', which)
    for i in keep:
        for k in keep[i]:
            need(np.array_equal(keep[i][k], owned[i][k]), '%s: a call changed an array owned by a component (%s)', which, k)


def close_all(a, b):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(close_all(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(close_all(a[k], b[k]) for k in a)
    if hasattr(a, 'attrs'):
        return a.dims == b.dims and a.attrs == b.attrs and (a.dtype.kind not in 'fiu' or close(a.values, b.values))
    return a == b
