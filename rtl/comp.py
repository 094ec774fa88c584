"""C01 C02 C03 C04 C05 C13: component calls."""
from .base import *
from sympl import register_tracer


def ok_outputs(r, d, kinds, alias=True):
    """declared outputs for Decl d and raw arrays of the right shape.
    Returns (properties, raw, expected) with expected[name] = (dims, units, values) up to wildcard order"""
    props, raws, exp = {}, {}, {}
    newdims = {'new_dim': r.randint(1, 3)}
    for o in kinds:
        P, R, X = {}, {}, {}
        names = r.some(list(d.inputs), 0, 2) + r.sample(['out_a', 'out_b', 'diag_c', 'out_d'], r.randint(0, 2))
        names = [n if n in d.inputs else o[0] + '_' + n for n in names]
        if o in ('tendency', 'output'):
            # a quantity with an offset unit has no tendency
            names = [n for n in names if n not in d.inputs or not UNITS[d.inputs[n]['units']][2]]
        for name in names:
            p = {}
            if name in d.inputs and r.flip(0.5):
                dims = d.inputs[name]['dims']
            else:
                named = r.some([k for k in d.known if k not in d.wild], 0, 2) + (['new_dim'] if r.flip(0.2) else [])
                dims = r.perm(named + (['*'] if d.has_wild and r.flip(0.5) else []))
                dims = dims if r.flip() else tuple(dims)
                p['dims'] = dims
            ud = d.udim[name] if name in d.inputs else pick_dim(r)
            p['units'] = tend_unit(r, ud) if o == 'tendency' else pick_unit(r, ud, offset=o != 'output')
            known = dict(d.known)
            known['new_dim'] = newdims['new_dim']
            for k in dims:
                if k != '*':
                    known.setdefault(k, 1)
            shape = out_shape(dims, known, d.wild)
            a = r.arr(shape, r.choice([float] * 8 + ['f4', 'i8', bool]))
            rname = name
            accepted = [name]
            if alias and r.flip(0.3):
                p['alias'] = 'oal_%s_%d' % (o[0], len(P))
                accepted.append(p['alias'])
            if name in d.inputs and 'alias' in d.inputs[name]:
                accepted.append(d.inputs[name]['alias'])
            rname = r.choice(accepted)
            P[name] = p
            R[rname] = a if r.flip(0.85) else (a.tolist() if a.dtype in (float, 'i8', bool) and a.size else a)
            X[name] = (tuple(dims), p['units'], a, known)
        props[o], raws[o], exp[o] = P, R, X
    r.note('outputs', props, 'raw', {o: {k: np.shape(v) for k, v in R.items()} for o, R in raws.items()})
    return props, raws, exp


def expand(dims, wild):
    out = []
    for d in dims:
        out += list(wild) if d == '*' else [d]
    return tuple(out)


@case('C01', 3)
def inputs_as_declared(r):
    d = Decl(r)
    for n in d.inputs:
        if r.flip(0.15):        # whole numbers
            v = d.state[n]
            d.state[n] = da(np.round(v.values * 4).astype(r.choice(['i8', 'i4'])), v.dims, v.attrs['units'])
    cls = make_class(d.kind, d.inputs, {})
    comp = must_work('construction', cls)
    must_work('call with a valid state', invoke, comp, d.kind, d.state, d.dt)
    need(len(comp.seen) == 1, 'array_call ran %d times', len(comp.seen))
    raw, dt = comp.seen[0]
    if d.kind in 'IS':
        need(dt == d.dt, 'array_call was given timestep %r', dt)
    want = {d.inputs[n].get('alias', n) for n in d.inputs} | {'time'}
    need(set(raw) == want, 'array_call was given %s, expected %s', sorted(raw), sorted(want))
    need(raw['time'] == d.time, 'time %r', raw['time'])
    msgs = []
    for order in d.wild_orders():
        bad = None
        for n, p in d.inputs.items():
            got = raw[p.get('alias', n)]
            exp = d.expected_input(n, order)
            if not isinstance(got, np.ndarray) or got.shape != exp.shape or not close(got, exp, 1e-9):
                bad = 'input %s is %s, expected %s (wildcard order %s)' % (n, repr(got)[:300], repr(exp)[:300], order)
                break
        if bad is None:
            return
        msgs.append(bad)
    raise Violation(msgs[0])


@case('C01', 1)
def inputs_after_other_calls(r):
    """the same instance, states of different shapes, units and dims order one after another"""
    d = Decl(r, n_in=r.randint(1, 3))
    comp = must_work('construction', make_class(d.kind, d.inputs, {}))
    for i in range(3):
        L = lengths(r)
        for n in d.inputs:
            v = d.state[n]
            dims = r.perm(v.dims)
            d.state[n] = rand_da(r, dims, L, pick_unit(r, d.udim[n]))
        d.known = {k: l for n in d.inputs for k, l in zip(d.state[n].dims, d.state[n].shape)}
        must_work('call %d' % i, invoke, comp, d.kind, d.state, d.dt)
        raw = comp.seen[-1][0]
        ok = False
        for order in d.wild_orders():
            if all(np.shape(raw[p.get('alias', n)]) == d.expected_input(n, order).shape and
                   close(raw[p.get('alias', n)], d.expected_input(n, order)) for n, p in d.inputs.items()):
                ok = True
        need(ok, 'call %d: inputs differ from the declared units/dims of the given state', i)


@case('C02', 3)
def outputs_as_declared(r):
    d = Decl(r)
    props, raws, exp = ok_outputs(r, d, OUTS[d.kind])
    comp = must_work('construction', make_class(d.kind, d.inputs, props, lambda raw, dt: raws))
    keep = {o: {k: np.array(v) for k, v in R.items()} for o, R in raws.items()}
    res = must_work('call', invoke, comp, d.kind, d.state, d.dt)
    raw_seen = comp.seen[0][0]
    orders = []
    for order in d.wild_orders():
        if all(np.shape(raw_seen[p.get('alias', n)]) == d.expected_input(n, order).shape and
               close(raw_seen[p.get('alias', n)], d.expected_input(n, order)) for n, p in d.inputs.items()):
            orders.append(order)
    need(orders, 'inputs not as declared')
    for o in OUTS[d.kind]:
        need(set(res[o]) == set(exp[o]), '%s: returned %s, declared %s', o, sorted(res[o]), sorted(exp[o]))
    msg = None
    for order in orders:
        msg = None
        for o in OUTS[d.kind]:
            for n, (dims, units, a, known) in exp[o].items():
                v = res[o][n]
                if not isinstance(v, DataArray):
                    msg = '%s is %r' % (n, type(v))
                elif v.attrs.get('units') != units:
                    msg = '%s has units %r, declared %r' % (n, v.attrs.get('units'), units)
                elif tuple(v.dims) != expand(dims, order):
                    msg = '%s has dims %s, declared %s (* = %s)' % (n, v.dims, dims, order)
                else:
                    want = np.asarray(a).reshape([known[k] for k in expand(dims, order)])
                    if v.shape != want.shape or not np.array_equal(v.values, want) or v.values.dtype != want.dtype:
                        msg = '%s has values %s, computed %s' % (n, repr(v.values)[:300], repr(want)[:300])
        if msg is None:
            break
    if msg:
        raise Violation(msg)
    for o in OUTS[d.kind]:
        for k, v in keep[o].items():
            need(np.array_equal(np.array(raws[o][k]), v), 'the array computed for %s was changed', k)


def maybe_tracers(r, d, raws):
    """sometimes the component also handles a tracer: (class attributes, what it computes)"""
    if d.kind == 'D' or r.flip(0.75):
        return {}, lambda raw, dt: raws
    register_tracer('tracer_a', 'kg')
    d.state['tracer_a'] = da(r.arr([2]), ['trdim'], r.choice(['kg', 'g']))

    def compute(raw, dt):
        out = {o: dict(v) for o, v in raws.items()}
        out.setdefault(OUTS[d.kind][0], {})['tracers'] = np.array(raw['tracers'])
        return out
    return {'uses_tracers': True, 'tracer_dims': r.choice([('tracer', '*'), ['*', 'tracer']])}, compute


@case('C03', 2)
def invalid_state_rejected(r):
    d = Decl(r, n_in=r.randint(1, 4))
    extra, compute = maybe_tracers(r, d, {})
    comp = must_work('construction', make_class(d.kind, d.inputs, {}, compute, extra))
    n = r.choice(list(d.inputs))
    v = d.state[n]
    fault = r.choice(['missing', 'nounits', 'badunits', 'extradim', 'length'])
    if fault == 'missing':
        del d.state[n]
    elif fault == 'nounits':
        del v.attrs['units']
    elif fault == 'badunits':
        v.attrs['units'] = other_dim_unit(r, d.inputs[n]['units'])
    elif fault == 'extradim':
        if '*' in d.inputs[n]['dims']:
            return
        L = dict(d.known)
        L['surplus'] = r.choice([1, 2])
        extra_dim = r.choice(['surplus'] + [k for k in d.known if k not in d.inputs[n]['dims']])
        dims = r.perm(list(v.dims) + [extra_dim])
        d.state[n] = rand_da(r, dims, L, v.attrs['units'])
    else:
        n2 = r.choice(list(d.inputs))
        shared = [k for k in d.state[n].dims if k in d.state[n2].dims]
        if n == n2 or not shared:
            return
        k = r.choice(shared)
        L = dict(d.known)
        L[k] = L[k] + r.choice([1, 2])
        if r.flip(0.3):
            L[k] = 1 if d.known[k] != 1 else 2
        d.state[n] = rand_da(r, v.dims, L, v.attrs['units'])
    r.note('fault', fault, 'in', n)
    must_raise(InvalidStateError, 'state with fault %s in %s' % (fault, n), invoke, comp, d.kind, d.state, d.dt)
    need(not getattr(comp, 'seen', []), 'array_call ran on an invalid state (%s)', fault)


@case('C03', 2)
def state_invalid_later_rejected(r):
    """the same component (and dictionary) again, after the state stopped being valid"""
    d = Decl(r, n_in=r.randint(1, 4))
    props, raws, exp = ok_outputs(r, d, OUTS[d.kind])
    cls = make_class(d.kind, d.inputs, props, lambda raw, dt: raws)
    comp = must_work('construction', cls)
    for i in range(r.randint(1, 2)):
        must_work('valid call', invoke, comp, d.kind, d.state, d.dt)
    n = r.choice(sorted(d.inputs))
    fault = r.choice(['missing', 'units', 'nounits'])
    st = d.state if r.flip(0.7) else dict(d.state)
    if fault == 'missing':
        del st[n]
    else:
        u = other_dim_unit(r, d.inputs[n]['units'])
        v = st[n] if r.flip() else st[n].copy(deep=True)
        if fault == 'units':
            v.attrs['units'] = u
        else:
            del v.attrs['units']
        st[n] = v
    if r.flip(0.2):
        comp = must_work('construction', cls)
    seen = len(getattr(comp, 'seen', []))
    r.note('fault', fault, 'in', n)
    for i in range(r.randint(1, 2)):
        must_raise(InvalidStateError, 'state with fault %s in %s after a valid call' % (fault, n), invoke, comp, d.kind, st, d.dt)
    need(len(getattr(comp, 'seen', [])) == seen, 'array_call ran on an invalid state (%s)', fault)


@case('C03', 2)
def wrong_outputs_rejected(r):
    d = Decl(r)
    props, raws, exp = ok_outputs(r, d, OUTS[d.kind])
    o = r.choice(OUTS[d.kind])
    valid = {k: dict(v) for k, v in raws.items()}
    fault = r.choice(['missing', 'extra', 'rename', 'rank', 'length', 'swap', 'alias_of_undeclared'])
    exc = InvalidPropertyDictError
    if fault == 'missing':
        if not raws[o]:
            return
        raws[o].pop(r.choice(sorted(raws[o])))
        exc = ComponentMissingOutputError
    elif fault == 'extra':
        raws[o]['surplus' if r.flip() else (r.choice([n for n in d.inputs if n not in props[o]] or ['surplus']))] = np.zeros(1)
        exc = ComponentExtraOutputError
        if len(raws[o]) == len(exp[o]):
            return
    elif fault == 'rename':          # as many outputs as declared, one under a name nobody declared
        if not raws[o]:
            return
        raws[o]['surplus'] = raws[o].pop(r.choice(sorted(raws[o])))
        exc = (ComponentMissingOutputError, ComponentExtraOutputError)
    elif fault == 'alias_of_undeclared':
        al = [p['alias'] for n, p in d.inputs.items() if 'alias' in p and n not in props[o]]
        if not al:
            return
        raws[o][r.choice(al)] = np.zeros(1)
        exc = ComponentExtraOutputError
    else:
        if not exp[o]:
            return
        name = r.choice(sorted(exp[o]))
        rname = [k for k in raws[o] if k in (name, props[o][name].get('alias'), d.inputs.get(name, {}).get('alias'))][0]
        dims, units, a, known = exp[o][name]
        known_in = d.known
        if fault == 'rank':
            raws[o][rname] = np.asarray(a).reshape((1,) + np.shape(a)) if r.flip() or not np.ndim(a) else np.asarray(a)[0]
        elif fault == 'length':
            cand = [i for i, k in enumerate(dims) if k in known_in or k == '*']
            if not cand:
                return
            sh = list(np.shape(a))
            sh[r.choice(cand)] += 1
            raws[o][rname] = np.zeros(sh)
        else:
            sh = list(np.shape(a))
            i = [i for i in range(len(sh) - 1) if sh[i] != sh[i + 1] and (dims[i] in known_in or dims[i] == '*') and
                 (dims[i + 1] in known_in or dims[i + 1] == '*')]
            if not i:
                return
            raws[o][rname] = np.swapaxes(np.asarray(a), i[0], i[0] + 1)
    r.note('fault', fault, o)
    later = r.flip(0.4)          # the outputs of earlier calls were right
    current = dict(valid) if later else raws
    extra, compute = maybe_tracers(r, d, current)
    comp = must_work('construction', make_class(d.kind, d.inputs, props, compute, extra))
    if later:
        for i in range(r.randint(1, 2)):
            must_work('valid call', invoke, comp, d.kind, d.state, d.dt)
        r.note('after valid calls')
        current.update(raws)
    for i in range(r.randint(1, 2)):
        must_raise(exc, 'output fault %s (%s)' % (fault, o), invoke, comp, d.kind, d.state, d.dt)


@case('C03', 1)
def valid_calls_accepted(r):
    d = Decl(r)
    props, raws, exp = ok_outputs(r, d, OUTS[d.kind])
    extra, compute = maybe_tracers(r, d, raws)
    comp = must_work('construction', make_class(d.kind, d.inputs, props, compute, extra))
    for i in range(2):
        must_work('valid call', invoke, comp, d.kind, d.state, d.dt)


@case('C04', 2)
def declaration_faults_refused(r):
    d = Decl(r, n_in=r.randint(0, 4))
    props, raws, exp = ok_outputs(r, d, OUTS[d.kind])
    groups = {'input': {n: dict(p) for n, p in d.inputs.items()}}
    for o in OUTS[d.kind]:
        groups[o] = {n: dict(p) for n, p in props[o].items()}
    g = r.choice(sorted(groups))
    if not groups[g]:
        return
    n = r.choice(sorted(groups[g]))
    fault = r.choice(['nounits', 'nodims', 'alias', 'units'])
    if fault == 'nounits':
        del groups[g][n]['units']
        if g == 'input':
            for o in OUTS[d.kind]:        # keep it the only fault
                groups[o].pop(n, None)
    elif fault == 'nodims':
        if g != 'input' and n in groups['input']:
            return
        groups[g][n].pop('dims', None)
        if g == 'input':
            for o in OUTS[d.kind]:
                groups[o].pop(n, None)
        elif r.flip(0.3) and len(OUTS[d.kind]) > 1:     # dims under the same name in another dictionary
            o = r.choice([o for o in OUTS[d.kind] if o != g])
            groups[o][n] = dict(groups[g][n], dims=[])
    elif fault == 'alias':
        m = r.choice(sorted(groups[g]))
        if m == n:
            return
        groups[g][n]['alias'] = groups[g][m]['alias'] = r.choice(['shared_alias', n, m])
        groups[g] = dict(r.perm(groups[g].items()))
    else:
        both = [k for k in groups[g] if g != 'input' and k in groups['input']]
        if not both:
            return
        n = r.choice(sorted(both))
        bad = other_dim_unit(r, groups['input'][n]['units'])
        if g == 'tendency':
            bad = r.choice([bad, groups['input'][n]['units'], per_time(bad)])
        groups[g][n]['units'] = bad
    r.note('fault', fault, g, n, groups)
    cls = make_class(d.kind, groups['input'], {o: groups[o] for o in OUTS[d.kind]})
    must_raise(InvalidPropertyDictError, 'declaration fault %s in %s of %s' % (fault, g, n), cls)


@case('C04', 1)
def valid_declarations_accepted(r):
    d = Decl(r)
    props, raws, exp = ok_outputs(r, d, OUTS[d.kind])
    # the same alias may be used in different dictionaries
    al = 'common'
    if d.inputs and r.flip():
        d.inputs[r.choice(sorted(d.inputs))]['alias'] = al
        for o in OUTS[d.kind]:
            if props[o]:
                props[o][r.choice(sorted(props[o]))]['alias'] = al
    must_work('construction of a valid declaration', make_class(d.kind, d.inputs, props))


@case('C05', 2)
def component_calls_leave_state(r):
    d = Decl(r)
    props, raws, exp = ok_outputs(r, d, OUTS[d.kind])
    kw = {}
    if d.kind != 'D' and r.flip(0.3) and all(
            n in d.inputs and tuple(props['output'][n].get('dims', d.inputs[n]['dims'])) == tuple(d.inputs[n]['dims']) and
            same_unit(props['output'][n]['units'], d.inputs[n]['units'])
            for n in props.get('output', {})):
        kw = {'tendencies_in_diagnostics': True}
    comp = must_work('construction', make_class(d.kind, d.inputs, props, lambda raw, dt: raws), **kw)
    before = snapshot(d.state)
    keep = {o: {k: np.array(v) for k, v in R.items()} for o, R in raws.items()}
    r1 = must_work('call', invoke, comp, d.kind, d.state, d.dt)
    r1c = copy.deepcopy(r1)
    check_snapshot('component call', before, d.state)
    r2 = must_work('second call', invoke, comp, d.kind, d.state, d.dt)
    check_snapshot('component call', before, d.state)
    need(deep_equal(r1, r1c), 'the second call changed the results of the first')
    need(deep_equal(r1, r2), 'repeating the call gives different results')
    for o in OUTS[d.kind]:
        need(set(raws[o]) == set(keep[o]), 'the call changed a dictionary the component returned (%s: %s)', o, sorted(raws[o]))
        for k, v in keep[o].items():
            need(np.array_equal(np.array(raws[o][k]), v), 'the call changed an array owned by the component (%s)', k)


@case('C05', 2)
def arrays_given_earlier_survive(r):
    """a component which keeps, and returns, the arrays it was given: a later call must not change them"""
    d = Decl(r, kinds='TID', n_in=r.randint(1, 3))
    kept = []

    def compute(raw, dt):
        given = {k: v for k, v in raw.items() if k != 'time'}
        kept.append((given, {k: np.array(v) for k, v in given.items()}))
        return {'diagnostic': {'out_' + n: raw[p.get('alias', n)] for n, p in d.inputs.items()}}
    props = {'diagnostic': {'out_' + n: {'dims': list(p['dims']), 'units': p['units']} for n, p in d.inputs.items()}}
    cls = make_class(d.kind, d.inputs, props, compute)
    comps = [must_work('construction', cls)]
    if r.flip():
        comps.append(must_work('construction', cls))
    results = []
    for i in range(r.randint(2, 3)):
        st = {k: (v.copy(data=v.values + 1.5 * i) if hasattr(v, 'attrs') else v) for k, v in d.state.items()}
        before = snapshot(st)
        res = must_work('call', invoke, comps[i % len(comps)], d.kind, st, d.dt)
        results.append((st, before, res, copy.deepcopy(res)))
    for i, (st, before, res, resc) in enumerate(results):
        check_snapshot('later calls', before, st)
        need(deep_equal(res, resc), 'a later call changed the results of call %s', i)
    for i, (given, copies) in enumerate(kept):
        for k in copies:
            need(np.array_equal(np.array(given[k]), copies[k]), 'a later call changed the array of %s given to call %s', k, i)


@case('C13', 2)
def tendencies_in_diagnostics_components(r):
    d = Decl(r, kinds='TIS')
    for n in d.inputs:
        if r.flip(0.2):         # whole numbers in the state
            d.state[n] = da(d.state[n].values.astype(r.choice(['i8', 'i4'])), d.state[n].dims, d.inputs[n]['units'])
    props, raws, exp = ok_outputs(r, d, OUTS[d.kind])
    main = OUTS[d.kind][0]
    if d.kind == 'S':
        for n in list(props[main]):
            dims = exp[main][n][0]
            if n in d.inputs and (tuple(dims) != tuple(d.inputs[n]['dims']) or r.flip(0.5)):
                props[main][n]['units'] = r.choice([u for u in UNITS if UNITS[u] == UNITS[d.inputs[n]['units']]])
                if tuple(dims) != tuple(d.inputs[n]['dims']):
                    return
            elif n in d.inputs:
                props[main][n]['units'] = d.inputs[n]['units']
            else:        # the stepper needs the old value as input
                have = [k for k in dims if k in d.known or k == 'new_dim']
                if '*' in dims:
                    have += [k for k in d.wild]
                known = exp[main][n][3]
                d.state[n] = rand_da(r, r.perm(have), known, props[main][n]['units'])
        for n in props[main]:
            exp[main][n] = (exp[main][n][0], props[main][n]['units']) + exp[main][n][2:]
    given = r.choice([None, 'my_name'])
    kw = {} if given is None else {'name': given}
    cls = make_class(d.kind, d.inputs, props, lambda raw, dt: raws)
    decl_before = copy.deepcopy((cls.input_properties, {o: getattr(cls, o + '_properties') for o in OUTS[d.kind]}))
    plain_first = must_work('construction', cls) if r.flip() else None
    comp = must_work('construction with tendencies_in_diagnostics', cls, tendencies_in_diagnostics=True, **kw)
    plain = plain_first or must_work('construction of another instance', cls)
    need((cls.input_properties, {o: getattr(cls, o + '_properties') for o in OUTS[d.kind]}) == decl_before,
         'asking for tendencies on one instance changed the class dictionaries')
    label = given or cls.__name__
    before = snapshot(d.state)
    res = must_work('call', invoke, comp, d.kind, d.state, d.dt)
    check_snapshot('call', before, d.state)
    want = {'%s_tendency_from_%s' % (n, label) for n in props[main]}
    need(set(res['diagnostic']) == set(exp['diagnostic']) | want, 'diagnostics are %s', sorted(res['diagnostic']))
    for n in props[main]:
        tn = '%s_tendency_from_%s' % (n, label)
        got = res['diagnostic'][tn]
        x = res[main][n]
        if d.kind == 'S':
            old = d.state[n]
            ov = convert(old.values, old.attrs['units'], props[main][n]['units'])
            ov = DataArray(ov, dims=old.dims)
            diff = (x.drop_attrs() if hasattr(x, 'drop_attrs') else x) * 1.0 - ov
            diff = diff.transpose(*x.dims) / d.dt.total_seconds()
            need(tuple(got.dims) == tuple(x.dims), '%s has dims %s', tn, got.dims)
            need(close(got.values, diff.values), '%s is %s, expected %s', tn, got.values, diff.values)
            u = got.attrs.get('units')
            need(u == per_time(props[main][n]['units']), '%s has units %s', tn, u)
        else:
            need(deep_equal(got, x), '%s differs from the tendency', tn)
    # another instance of the class does not give them
    st = {k: v for k, v in d.state.items()}
    res2 = must_work('call of an instance without tendencies_in_diagnostics', invoke, plain, d.kind, st, d.dt)
    need(set(res2['diagnostic']) == set(exp['diagnostic']), 'an instance which was not asked to gives %s', sorted(res2['diagnostic']))
