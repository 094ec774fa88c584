"""Contracts: from the state to arrays and back (C01, C02, C03, C05), on the unmodified modules (vp/native.py)."""
from ..spec import *
from ..native import *
from .. import native
from .arrays import *
from .stubs import KINDS, PROPS

GET = 'sympl._core.get_np_arrays'
RES = 'sympl._core.restore_dataarray'
U4 = ('x', 'y', 'u', 'v')
DECLARED = [(), ('x',), ('x', 'y'), ('*',), ('x', '*'), ('*', 'x'), ('y', '*', 'x')]


class Q(object):
    """one declared input and its quantity in the state"""

    def __init__(self, pkg, name, declared, actual, lens, alias=None, units='same', as_list=True, dtype='float64'):
        self.name, self.declared, self.actual, self.lens, self.alias = name, declared, actual, lens, alias
        self.want = unit('w_' + name)
        self.have = {'same': self.want, 'other': None, 'none': None}[units]
        if units == 'other':
            self.have = unit('h_' + name)
        self.props = {'units': self.want, 'dims': list(declared) if as_list else tuple(declared)}
        if alias:
            self.props['alias'] = alias
        self.attrs = {'long_name': 'l'}
        if self.have is not None:
            self.attrs['units'] = self.have
        self.da = quantity(pkg, name, actual, lens, attrs=self.attrs, coords=False, dtype=dtype)
        self.pdims = type(self.props['dims'])(self.props['dims'])

    def value(self, pos):
        v = source(self.name, self.actual, pos)
        return v if self.have == self.want else conv(uterm(self.have), uterm(self.want), v)

    def unchanged(self):
        unchanged('state', self.da, self.name, self.actual, self.lens, self.attrs)
        p = {'units': self.want, 'dims': self.pdims}
        if self.alias:
            p['alias'] = self.alias
        E.prove(about('C05 C01 C02', 'declaration kept'), self.props == p)


def fault(qs):
    """is the state invalid for these inputs (decides what is undecided on this path)"""
    lens = {}
    for q in qs:
        if q.have is None:
            return 'units missing'
        if q.have != q.want:
            a, b = uterm(q.have), uterm(q.want)
            unit_facts(a, b)
            if not E.branch(ucompat(a, b)):
                return 'units inconvertible'
        if '*' not in q.declared and set(q.actual) - set(q.declared):
            return 'dimension not declared'
        for d in q.actual:
            if d in lens and not (q.lens[d] == lens[d]):
                return 'lengths disagree'
            lens.setdefault(d, q.lens[d])
    return None


def wild(qs):
    out = []
    for q in qs:
        out += [d for d in q.actual if d not in q.declared and d not in out]
    return tuple(out)


def all_lens(qs):
    lens = {}
    for q in qs:
        for d in q.actual:
            lens.setdefault(d, q.lens[d])
    return lens


def matches(arr, groups, lens, expect, pos):
    """does arr have these axes and elements (decided by the solver)"""
    if not isinstance(arr, ArrayModel) or len(arr.shape) != len(groups):
        return False
    for s, g in zip(arr.shape, groups):
        n = native.product(lens[d] for d in g)
        if not same_len(s, n) and not E.must(as_len(s).z == as_len(n).z):
            return False
    flat = [d for g in groups for d in g]
    try:
        v = arr.reshape([lens[d] for d in flat]).elem([pos[d] for d in flat])
        return v.eq(expect) or E.must(v == expect)
    except (ValueError, Unsupported):
        return False


def raw_lens(qs):
    lens = all_lens(qs)
    for q in qs:
        for d in q.declared:
            if d != '*':
                lens.setdefault(d, 1)
    return lens


def follows(label, raw, qs, w):
    """are the '*' dimensions flattened in the order w"""
    lens = raw_lens(qs)
    pos = positions(lens, lens=lens)
    return all(matches(raw[q.alias or q.name], [w if d == '*' else (d,) for d in q.declared], lens, q.value(pos), pos)
               for q in qs if '*' in q.declared)


def order_of(label, raw, qs):
    """the order of the flattened dimensions is not prescribed, but common to all inputs"""
    w = wild(qs)
    if any('*' in q.declared for q in qs) and len(w) > 1 and all((q.alias or q.name) in raw for q in qs):
        for o in itertools.permutations(w):
            if follows(label, raw, qs, o):
                return o
    return w


def check_raw(label, raw, qs, extra=()):
    """raw: exactly the declared inputs"""
    want = {q.alias or q.name: q for q in qs}
    E.prove(about('C01 C17', label + ': exactly the declared inputs'), set(raw) == set(want) | set(extra), sorted(raw))
    if set(raw) != set(want) | set(extra):
        return
    w = order_of(label, raw, qs)
    lens = raw_lens(qs)
    pos = positions(lens, lens=lens)
    for q in qs:
        check_axes(label + ' array', raw[q.alias or q.name], [w if d == '*' else (d,) for d in q.declared], lens, q.value(pos), pos)
    return w


def inputs(qs, pkg):
    m = pkg.modules[GET]
    Bad = pkg.modules['sympl._core.exceptions'].InvalidStateError
    state = {q.name: q.da for q in qs}
    state['other'] = object()
    before = dict(state)
    props = {q.name: q.props for q in qs}
    res = outcome(m.get_numpy_arrays_with_properties, state, props)
    f = fault(qs)
    if any('*' in q.declared and set(q.declared) & set(wild(qs)) for q in qs):
        return          # no consistent layout: not specified
    if f:
        E.prove(about('C03', 'invalid state refused with InvalidStateError'), res[0] == 'exc' and isinstance(res[1], Bad), '%s: %r' % (f, res[1]))
        E.cover(f)
    elif res[0] != 'ok':
        E.fail('valid state accepted', repr([(q.declared, q.actual) for q in qs]) + repr(res[1]))
    else:
        E.cover('accepted')
        check_raw('arrays', res[1], qs)
    E.prove(about('C05', 'state entries kept'), list(state) == list(before) and all(state[k] is before[k] for k in before))
    for q in qs:
        q.unchanged()


FN1 = ('get_numpy_arrays_with_properties get_wildcard_matches_and_dim_lengths flatten_wildcard_dims DataArrayBackend.get_array '
       'DataArrayBackend._get_numpy_array DataArray.to_units data_array_to_units ensure_properties_have_dims_and_units')
B1 = '; lengths (positive), values and units unbounded; dimension names up to renaming'


@contract('C01 C03 C05', FN1, bounded='one input of up to 3 dimensions' + B1)
def one_input_array():
    pkg = nload(GET)
    lens = {d: length('n_' + d) for d in U4}
    d = pick(DECLARED, 'declared')
    a = pick(arrangements(U4, 3), 'actual')
    simple_ = len(a) < 2
    q = Q(pkg, 'q', d, a, lens, alias='al' if E.choose(2, 'alias') else None,
          units=pick(['same', 'other', 'none'], 'units') if simple_ else 'other', as_list=E.choose(2, 'tuple') == 0)
    inputs([q], pkg)


@contract('C05', FN1, bounded='an input of up to 2 dimensions and one giving the other lengths, two calls' + B1)
def arrays_of_earlier_calls():
    """what an earlier call was given keeps its values when later ones are made"""
    pkg = nload(GET)
    lens = {d: length('n_' + d) for d in U4}
    d = pick(DECLARED, 'declared')
    a = pick([a for a in arrangements(U4, 2)
              if not (set(a) - set(d) and ('*' not in d or set(d) & (set(a) - set(d))))], 'actual')
    d2, a2 = pick([((), ()), (('x', 'y'), ('x', 'y')), (('*',), ('u', 'x')), (('*', 'y'), ('y', 'v'))], 'other input')
    if '*' in d and ({'x', 'y'} & set(d)) & set(a2) - set(d2) or '*' in d2 and set(d2) & set(wild([Q(pkg, 'q', d, a, lens)])):
        return
    q = Q(pkg, 'q', d, a, lens)
    q2 = Q(pkg, 'q2', d2, a2, lens)
    m = pkg.modules[GET]
    props = {'q': q.props, 'q2': q2.props}
    raw = m.get_numpy_arrays_with_properties({'q': q.da, 'q2': q2.da}, props)
    check_raw('arrays', raw, [q, q2])
    later = {n: quantity(pkg, 'later' + n, x, lens, attrs=y.attrs, coords=False) for n, x, y in (('q', a, q), ('q2', a2, q2))}
    m.get_numpy_arrays_with_properties(later, props)
    w = order_of('arrays of an earlier call', raw, [q, q2])
    rl = raw_lens([q, q2])
    pos = positions(rl, lens=rl)
    for x in (q, q2):
        E.prove(about('C05', 'arrays of an earlier call keep their values'),
                matches(raw[x.name], [w if k == '*' else (k,) for k in x.declared], rl, x.value(pos), pos))
        x.unchanged()


def two(first):
    pkg = nload(GET)
    lens = {d: length('n_' + d) for d in U4}
    d1 = pick(first, 'declared 1')
    a1 = pick(arrangements(U4, 2), 'actual 1')
    d2 = pick([('x',), ('*',), ('x', '*'), ('y', 'x')], 'declared 2')
    a2 = pick(arrangements(U4, 2), 'actual 2')
    own = dict(lens)
    shared = [d for d in a2 if d in a1]
    if shared and E.choose(2, 'own length'):
        own[shared[-1]] = length('m_' + shared[-1])
    q1 = Q(pkg, 'q1', d1, a1, lens)
    q2 = Q(pkg, 'q2', d2, a2, own, units='other' if own is lens else 'same')
    inputs([q1, q2], pkg)


for _n, _d in enumerate(([(), ('x',)], [('x', 'y'), ('y', '*', 'x')], [('*',)], [('x', '*'), ('*', 'x')])):
    def _f(d=_d):
        two(d)
    _f.__name__ = 'two_input_arrays_%d' % (_n + 1)
    contract('C01 C03', FN1, bounded='two inputs of up to 2 dimensions' + B1)(_f)


@contract('C01 C03', FN1, bounded="three inputs with dims '*' of up to 2 dimensions" + B1)
def three_input_arrays():
    pkg = nload(GET)
    lens = {d: length('n_' + d) for d in 'uvw'}
    arr = arrangements('uvw', 2)
    arr1 = [a for a in arr if list(a) == sorted(a)]
    qs = [Q(pkg, 'q%d' % i, pick([('*',), ('u', '*')], 'd') if i == 1 else ('*',), pick(arr1 if i == 0 else arr, 'a'), lens) for i in range(3)]
    inputs(qs, pkg)


# ------------------------------------------------------------------ outputs
OUT = [None, (), ('x',), ('*',), ('x', '*'), ('*', 'x'), ('new',), ('*', 'new'), ('new', 'x'), ('new', '*', 'x')]


class Out(object):
    """one declared output and the array computed for it"""
    also = None

    def __init__(self, name, dims, qs, alias=None, raw_name=None, wrong=None, w=None, lens=None, dtype='float64', nested=False):
        """wrong: None, 'rank', or a declared dimension which has another length; nested: as nested lists"""
        self.dtype, self.nested = dtype, nested
        self.name, self.qs, self.alias = name, qs, alias
        self.units = unit('o_' + name)
        self.props = {'units': self.units}
        if dims is not None:
            self.props['dims'] = list(dims)
        if alias:
            self.props['alias'] = alias
        ref = [q for q in qs if q.name == name]
        self.dims = tuple(dims) if dims is not None else ref[0].declared
        self.w = wild(qs) if w is None else w
        self.lens = all_lens(qs)
        for d in lens or ():
            self.lens.setdefault(d, lens[d])
        for d in self.dims:
            if d != '*' and d not in self.lens:
                self.lens[d] = length('l_' + d)
        self.wrong = wrong
        self.raw_name = raw_name or alias or ([q.alias for q in ref] + [None])[0] or name
        self.set_raw(self.w)

    def set_raw(self, w):
        """w: the order of the flattened dimensions"""
        wrong, self.w = self.wrong, w
        self.full = tuple(e for d in self.dims for e in (w if d == '*' else (d,)))
        if wrong is None:
            self.raw = env_array(self.name + '.raw', [self.lens[d] for d in self.full], self.dtype).reshape(
                [native.product(self.lens[e] for e in (self.w if d == '*' else (d,))) for d in self.dims])
            if self.nested:
                self.raw = NestedList(self.raw)
        elif wrong == 'rank':
            self.raw = env_array(self.name + '.raw', [length('k%d' % i) for i in range(len(self.dims) + 1)])
        else:
            if not hasattr(self, 'other'):
                self.other = length('wrong')
            self.raw = env_array(self.name + '.raw', [self.other if d == wrong else native.product(
                self.lens[e] for e in (self.w if d == '*' else (d,))) for d in self.dims])

    def fits(self):
        if self.wrong is None:
            return True
        if self.wrong == 'rank':
            return False
        exp = native.product(self.lens[e] for e in (self.w if self.wrong == '*' else (self.wrong,)))
        return None if as_len(exp) == self.other else False     # equal after all: a case of its own

    def check(self, label, got):
        E.prove(about('C02 C13 C17 C27', label + ': is a quantity'), isinstance(got, XDataArray))
        if not isinstance(got, XDataArray):
            return
        E.prove(about('C02 C13 C17 C27', label + ': exactly the declared units'), got.attrs.get('units') == self.units)
        ok = got.dims == self.full or (self.also is not None and self.also(got.dims))
        E.prove(about('C02 C13 C17 C27', label + ': dims'), ok, '%s for %s' % (got.dims, self.full))
        if not ok:
            return
        pos = positions(self.full, 'o', self.lens)
        if isinstance(got.values, ArrayModel):
            E.prove(about('C02 C13 C17 C27', label + ': type of the values'), native.dtname(got.values.dtype) == self.dtype,
                    '%s for %s' % (got.values.dtype, self.dtype))
        check_axes(label, got.values, [(d,) for d in got.dims], self.lens, source(self.name + '.raw', self.full, pos), pos)


FN2 = ('restore_data_arrays_with_properties extract_output_dims_properties get_alias_or_name check_array_shape fill_dims_wildcard '
       'expand_array_wildcard_dims ensure_values_are_arrays DataArrayBackend.create_quantity')


def outputs(qs, outs, pkg):
    m = pkg.modules[RES]
    Bad = pkg.modules['sympl._core.exceptions'].InvalidPropertyDictError
    state = {q.name: q.da for q in qs}
    if len(wild(qs)) > 1:
        # the layout of the computed arrays is that of the arrays the component was given
        got = outcome(pkg.modules[GET].get_numpy_arrays_with_properties, state, {q.name: q.props for q in qs})
        w = order_of('arrays', got[1] if got[0] == 'ok' else {}, qs)
        for o in outs:
            if w != o.w:
                o.set_raw(w)
    raw = {o.raw_name: o.raw for o in outs}
    before = dict(raw)
    res = outcome(m.restore_data_arrays_with_properties, raw, {o.name: o.props for o in outs}, state, {q.name: q.props for q in qs})
    fit = [o.fits() for o in outs]
    if False in fit:
        E.prove(about('C03', 'array which does not fit refused with InvalidPropertyDictError'), res[0] == 'exc' and isinstance(res[1], Bad),
                '%s %r' % ([(o.dims, o.wrong) for o in outs], res[1]))
        E.cover('does not fit')
        return
    if None in fit:
        return
    if res[0] != 'ok':
        E.fail('fitting arrays are accepted', '%s %r' % ([(o.dims, o.wrong) for o in outs], res[1]))
        return
    E.cover('accepted')
    E.prove(about('C02', 'every declared output, under its name, and nothing else'), set(res[1]) == set(o.name for o in outs))
    for o in outs:
        if o.name in res[1]:
            o.check('output', res[1][o.name])
    E.prove(about('C05 C02', "the component's dictionary kept"), list(raw) == list(before) and all(raw[k] is before[k] for k in before))
    for q in qs:
        q.unchanged()


def one_out(half):
    pkg = nload(RES, GET)
    lens = {d: length('n_' + d) for d in U4}
    d = pick([('*',), ('x', '*')], 'declared') if half else pick([(), ('x',), ('x', 'y'), ('*', 'x')], 'declared')
    a = pick([t for t in arrangements(('x', 'u', 'v'), 3) if '*' in d or not set(t) - set(d)], 'actual')
    al = E.choose(3, 'alias')
    q = Q(pkg, 'q', d, a, lens, alias='qa' if al == 1 else None)
    od = pick([o for o in OUT if o is None or '*' in d or '*' not in o], 'out dims')
    w = [None, 'rank'] + [e for e in (od if od is not None else d) if e in a or e == '*']
    o = Out('q' if od is None or E.choose(2, 'same name') else 'r', od, [q], alias='oa' if al == 2 else None,
            raw_name=None if al != 1 or E.choose(2, 'raw') == 0 else ('q' if od is None else None), wrong=pick(w, 'wrong'))
    outputs([q], [o], pkg)


for _n in (0, 1):
    def _f(h=_n):
        one_out(h)
    _f.__name__ = 'one_output_%d' % (_n + 1)
    contract('C02 C03', FN2, bounded='one output and one input of up to 3 dimensions' + B1)(_f)


@contract('C02', FN2, bounded='two outputs and two inputs of up to 2 dimensions' + B1)
def two_outputs():
    pkg = nload(RES, GET)
    lens = {d: length('n_' + d) for d in U4}
    qs = [Q(pkg, 'q1', ('*',), pick(arrangements('uv', 2), 'a1'), lens, alias='qa'),
          Q(pkg, 'q2', ('x', '*'), pick(arrangements('xuv', 2), 'a2'), lens)]
    o1 = pick([None, ('*',), ('x', '*'), ('new', '*')], 'o1')
    o2 = pick([None, ('*', 'x'), ('new',), ('x',), ('*', 'new')], 'o2')
    swap = E.choose(2, 'swapped aliases')
    # an alias of one output may be the name of the other
    outs = [Out('q1', o1, qs, alias='q2' if swap else None, dtype='int64', nested=True), Out('q2', o2, qs, alias='q1' if swap else None)]
    outputs(qs, outs, pkg)


# ------------------------------------------------------------------ whole calls
BC = 'sympl._core.base_components'


def component(pkg, kind, qs, outs, produce, **ns):
    """a component of the given kind; outs: {output kind: [Out]}; produce(): what its computation returns"""
    base = getattr(pkg.modules[BC], KINDS[kind])
    seen = []
    d = {'input_properties': {q.name: q.props for q in qs}}
    for p in PROPS[kind]:
        d[p + '_properties'] = {o.name: o.props for o in outs.get(p, ())}

    def array_call(self, *a):
        seen.append((dict(a[0]),) + a[1:])
        r = produce()
        if kind == 'D':
            return r['diagnostic']
        return (r['diagnostic'], r['output']) if kind == 'S' else (r['tendency'], r['diagnostic'])
    if kind in 'IS':
        d['array_call'] = lambda self, state, timestep: array_call(self, state, timestep)
    else:
        d['array_call'] = lambda self, state: array_call(self, state)
    d.update(ns)
    cls = type(base)('Comp', (base,), d)
    cls.seen = seen
    return cls


def results(kind, r):
    if kind == 'D':
        return {'diagnostic': r}
    return {'diagnostic': r[0], 'output': r[1]} if kind == 'S' else {'tendency': r[0], 'diagnostic': r[1]}


class Token(object):
    """an opaque value (a time)"""

    def __eq__(self, o):
        return self is o
    __hash__ = object.__hash__


FAULTS = ['none', 'missing input', 'units', 'dims', 'lengths', 'missing output', 'extra output', 'wrong shape']


def whole_call(kind):
    pkg = nload(BC)
    X = pkg.modules['sympl._core.exceptions']
    lens = {d: length('n_' + d) for d in U4}
    what = pick(FAULTS, 'fault')
    al = E.choose(3, 'alias')
    q = Q(pkg, 'q', ('x', '*'), pick([('u', 'x'), ('v', 'x', 'u'), ()], 'actual'), lens, alias='qa' if al == 1 else None,
          units=pick(['other', 'none'], 'units') if what == 'units' else 'same')
    own = dict(lens)
    if what == 'lengths':
        own['u'] = length('m_u')
    p = Q(pkg, 'p', ('*',) if what != 'dims' else ('v',), ('u',), own, units='same' if what != 'none' else pick(['same', 'other'], 'units'))
    qs = [q, p]
    outs, raw = {}, {}
    which = pick(PROPS[kind], 'faulty kind') if what in FAULTS[5:] else None
    for o in PROPS[kind]:
        w = 'rank' if which == o and what == 'wrong shape' else None
        l = [Out('q', pick([None, ('*', 'x')], 'dims') if o == PROPS[kind][0] else None, qs, alias='oa' if al == 2 else None,
                 raw_name='q' if al and E.choose(2, 'by name') else None, wrong=w, dtype='float32'),
             Out('r_' + o, ('new', '*'), qs, alias='ra' if al == 2 else None, dtype='int64', nested=al == 1)]
        l[0].units = l[0].props['units'] = unit('o_q_' + o)
        l[0].tag = o
        outs[o] = l
        raw[o] = {x.raw_name: x.raw for x in l}
    E.assume(uvalid(E.lit('s^-1')))
    for o in PROPS[kind]:          # declared units fit those of the input of the same name (refused otherwise: C04)
        a, b = (uterm(q.want + ' s^-1') if o == 'tendency' else uterm(q.want)), uterm(outs[o][0].units)
        unit_facts(a, b)
        E.assume(ucompat(a, b))
    if what == 'missing output':
        i = E.choose(2, 'which')
        del raw[which][outs[which][i].raw_name]
    elif what == 'extra output':
        raw[which]['surplus'] = env_array('s', [])
    keep = {o: dict(r) for o, r in raw.items()}

    def produce():
        w = order_of('array_call', cls.seen[-1][0], qs)
        for o in PROPS[kind]:
            for x in outs[o]:
                if w != x.w:
                    x.set_raw(w)
                    if x.raw_name in raw[o]:
                        raw[o][x.raw_name] = x.raw
            keep[o] = dict(raw[o])
        return raw
    cls = component(pkg, kind, qs, outs, produce)
    props = {n: {k: dict(v) for k, v in getattr(cls, n + '_properties').items()} for n in ('input',) + PROPS[kind]}
    c = outcome(cls)
    if c[0] != 'ok':
        E.fail('construction', repr(c[1]))
        return
    comp = c[1]
    time = Token()
    state = {'time': time, 'q': q.da, 'p': p.da, 'unrelated': quantity(pkg, 'z', ('x',), {'x': length('zz')}, 'm')}
    if what == 'missing input':
        del state[pick(['q', 'p'], 'missing')]
    before = dict(state)
    dt = STd(z3.Const('dt', Real))
    n = 1 + (E.choose(2, 'again') if what == 'none' else 0)
    for i in range(n):
        res = outcome(comp, state, dt) if kind in 'IS' else outcome(comp, state)
    E.prove(about('C05', 'state entries kept'), list(state) == list(before) and all(state[k] is before[k] for k in before))
    for z in qs:
        z.unchanged()
    E.prove(about('C05', "the component's declarations kept"), all(
        props[m] == getattr(comp, m + '_properties') for m in props))
    E.prove(about('C05', "the component's dictionaries kept"), all(
        list(raw[o]) == list(keep[o]) and all(raw[o][k] is keep[o][k] for k in raw[o]) for o in raw))
    f = 'missing input' if what == 'missing input' else fault(qs)
    if f:
        E.prove(about('C03', 'invalid state: InvalidStateError'), res[0] == 'exc' and isinstance(res[1], X.InvalidStateError), '%s: %r' % (f, res[1]))
        E.prove(about('C03', 'invalid state: the computation does not run'), not comp.seen)
        E.cover(f)
        return
    E.prove(about('C01 C02 C03 C17', 'the computation runs once per call'), len(comp.seen) == n)
    if len(comp.seen) != n:
        return
    got = comp.seen[-1]
    E.prove(about('C01', 'the computation gets the time of the state'), got[0].get('time') is time)
    if kind in 'IS':
        E.prove(about('C01', 'the computation gets the timestep'), len(got) == 2 and got[1] is dt)
    check_raw('array_call', got[0], qs, extra=('time',))
    err = {'missing output': X.ComponentMissingOutputError, 'extra output': X.ComponentExtraOutputError,
           'wrong shape': X.InvalidPropertyDictError}.get(what)
    E.cover(what)
    if err:
        E.prove(about('C03', '%s: %s' % (what, err.__name__)), res[0] == 'exc' and isinstance(res[1], err), repr(res[1]))
        return
    if res[0] != 'ok':
        E.fail(about('C02 C03', 'a call without fault is not rejected'), repr(res[1]))
        return
    r = results(kind, res[1])
    for o in PROPS[kind]:
        E.prove(about('C02', '%s: every declared quantity under its name, and nothing else' % o), set(r[o]) == set(x.name for x in outs[o]), sorted(r[o]))
        for x in outs[o]:
            if x.name in r[o]:
                x.check(o, r[o][x.name])


FN3 = ('InputChecker.check_inputs TendencyChecker.check_tendencies DiagnosticChecker.check_diagnostics OutputChecker.check_outputs '
       'get_numpy_arrays_with_properties restore_data_arrays_with_properties')
for _k in 'TIDS':
    def _f(k=_k):
        whole_call(k)
    _f.__name__ = 'call_of_' + KINDS[_k]
    contract('C01 C02 C03 C05', '%s.__call__ %s' % (KINDS[_k], FN3),
             bounded='two inputs of up to 3 dimensions, two outputs of each kind' + B1)(_f)


def state_changed_between_calls(kind):
    """a state accepted once is looked at again by the next call"""
    pkg = nload(BC)
    Bad = pkg.modules['sympl._core.exceptions'].InvalidStateError
    lens = {d: length('n_' + d) for d in U4}
    q = Q(pkg, 'q', ('x', '*'), ('u', 'x'), lens, alias='qa' if E.choose(2, 'alias') else None)
    p = Q(pkg, 'p', ('*',), ('u',), lens)
    outs = {o: [Out('r_' + o, ('new',), [q, p])] for o in PROPS[kind]}
    raw = {o: {x.raw_name: x.raw for x in outs[o]} for o in PROPS[kind]}
    cls = component(pkg, kind, [q, p], outs, lambda: {o: dict(r) for o, r in raw.items()})
    comp = cls()
    time = Token()
    state = {'time': time, 'q': q.da, 'p': p.da}
    dt = STd(z3.Const('dt', Real))
    call = lambda c, s: outcome(c, s, dt) if kind in 'IS' else outcome(c, s)
    first = call(comp, state)
    if first[0] != 'ok':
        if isinstance(first[1], Unsupported):
            raise first[1]
        E.fail('a valid call is not rejected', repr(first[1]))
        return
    what = pick(['values', 'missing', 'units missing', 'dims', 'lengths', 'fresh state, missing', 'another instance, missing'], 'change')
    n = pick(['q', 'p'], 'which')
    x = {'q': q, 'p': p}[n]
    if what == 'fresh state, missing':
        state = dict(state)
    if what == 'another instance, missing':
        comp = cls()
    later = None
    if 'missing' in what and what != 'units missing':
        del state[n]
    elif what == 'units missing':
        state[n] = quantity(pkg, 'later', x.actual, lens, attrs={}, coords=False)
    elif what == 'dims':
        n, x = 'q', q
        state = dict(state) if E.choose(2, 'fresh') else state
        p2 = quantity(pkg, 'later', ('u', 'v'), lens, attrs=p.attrs, coords=False)
        state['p'], state['q'] = p2, quantity(pkg, 'laterq', ('x', 'u'), dict(lens, u=length('m_u')), attrs=q.attrs, coords=False)
    elif what == 'lengths':
        state['p'] = quantity(pkg, 'later', ('u',), dict(lens, u=length('m_u')), attrs=p.attrs, coords=False)
    else:
        later = quantity(pkg, 'later', x.actual, lens, attrs=x.attrs, coords=False)
        state[n] = later
    bad = what != 'values'
    if what in ('dims', 'lengths'):
        bad = not E.branch(length('m_u').z == lens['u'].z)
    res = call(comp, state)
    if res[0] == 'exc' and isinstance(res[1], Unsupported):
        raise res[1]
    if bad:
        E.cover('invalid later')
        E.prove('a state which became invalid is refused with InvalidStateError', res[0] == 'exc' and isinstance(res[1], Bad), repr(res[1]))
        E.prove('invalid state: the computation does not run', len(cls.seen) == 1)
        return
    if res[0] != 'ok':
        E.fail('a valid call is not rejected', repr(res[1]))
        return
    E.cover('valid later')
    E.prove('the computation runs once per call', len(cls.seen) == 2)
    if later is not None and len(cls.seen) == 2:
        raw_in = dict(cls.seen[-1][0])
        old = {'q': q, 'p': p}[n]
        value = old.value
        old.value = lambda pos: source('later', old.actual, pos)
        check_raw('second call', raw_in, [q, p], extra=('time',))
        old.value = value
        check_raw('first call', dict(cls.seen[0][0]), [q, p], extra=('time',))


for _k in 'TIDS':
    def _f(k=_k):
        state_changed_between_calls(k)
    _f.__name__ = 'second_call_of_' + KINDS[_k]
    contract('C03 C05 C01', '%s.__call__ InputChecker.check_inputs InputChecker.__init__ %s' % (KINDS[_k], FN1),
             bounded='two inputs of up to 2 dimensions, two calls' + B1)(_f)


def outputs_changed_between_calls(kind):
    """what the computation gives is looked at again in every call, whatever it gave before"""
    pkg = nload(BC)
    X = pkg.modules['sympl._core.exceptions']
    lens = {d: length('n_' + d) for d in U4}
    q = Q(pkg, 'q', ('x', '*'), ('u', 'x'), lens)
    which = pick(PROPS[kind], 'faulty kind')
    what = pick(['missing', 'extra', 'rank', 'none'], 'fault')
    outs = {o: [Out('q', ('x',), [q], alias='oa'), Out('r_' + o, ('new', '*'), [q])] for o in PROPS[kind]}
    E.assume(uvalid(E.lit('s^-1')))
    for o in PROPS[kind]:
        outs[o][0].units = outs[o][0].props['units'] = unit('o_q_' + o)
        a, b = (uterm(q.want + ' s^-1') if o == 'tendency' else uterm(q.want)), uterm(outs[o][0].units)
        unit_facts(a, b)
        E.assume(ucompat(a, b))
    given = [{o: {x.raw_name: x.raw for x in outs[o]} for o in PROPS[kind]} for i in range(3)]
    given[0][which] = {x.raw_name if i or E.choose(2, 'by name') else x.name: x.raw for i, x in enumerate(outs[which])}
    for g in given[1:]:
        if what == 'missing':
            del g[which][outs[which][E.choose(2, 'missing')].raw_name]
        elif what == 'extra':
            g[which]['surplus'] = env_array('s', [])
        elif what == 'rank':
            g[which][outs[which][1].raw_name] = env_array('k', [length('k%d' % i) for i in range(3)])
    n = [0]

    def produce():
        n[0] += 1
        return {o: dict(r) for o, r in given[n[0] - 1].items()}
    cls = component(pkg, kind, [q], outs, produce)
    comp = cls()
    state = {'time': Token(), 'q': q.da}
    dt = STd(z3.Const('dt', Real))
    err = {'missing': X.ComponentMissingOutputError, 'extra': X.ComponentExtraOutputError, 'rank': X.InvalidPropertyDictError}.get(what)
    for i in range(3):
        res = outcome(comp, state, dt) if kind in 'IS' else outcome(comp, state)
        if res[0] == 'exc' and isinstance(res[1], Unsupported):
            raise res[1]
        if i and err:
            E.prove('a wrong output given after right ones: %s' % err.__name__, res[0] == 'exc' and isinstance(res[1], err), repr(res[1]))
        elif res[0] != 'ok':
            E.fail('a valid call is not rejected', repr(res[1]))
            return
        else:
            r = results(kind, res[1])
            for o in PROPS[kind]:
                E.prove('%s: every declared quantity under its name, and nothing else' % o, set(r[o]) == set(x.name for x in outs[o]), sorted(r[o]))
                for x in outs[o]:
                    if x.name in r[o]:
                        x.check(o, r[o][x.name])
    E.cover(what)


for _k in 'TIDS':
    def _f(k=_k):
        outputs_changed_between_calls(k)
    _f.__name__ = 'changed_outputs_of_' + KINDS[_k]
    contract('C03', '%s.__call__ TendencyChecker.check_tendencies DiagnosticChecker.check_diagnostics OutputChecker.check_outputs '
             'restore_data_arrays_with_properties check_array_shape' % KINDS[_k],
             bounded='one input, two outputs of each kind, three calls' + B1)(_f)
