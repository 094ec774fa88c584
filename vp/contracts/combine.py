"""Contracts: combining the property dictionaries of several components (C08)."""
from ..spec import *
from .stubs import *

MODS = ('sympl._core.base_components', 'sympl._core.combine_properties', 'sympl._core.composite')


class DimSeq(VSet):
    """An arbitrary dims specification: a sequence of distinct names, '*' possibly among them."""

    def __init__(self, name):
        self.dom = fn(name, Str, Bool)
        self.env = EnvDict(name, [], lambda a, k: True, dom=self.dom)
        self._ref = self.env.fam.ref()

    def __eq__(self, o):
        if isinstance(o, DimSeq):
            if o is self:
                return True
            if E.branch(E.fresh('sameseq', Bool)):
                x = z3.Const('x!eq', Str)
                E.assume(z3.ForAll([x], self.dom(x) == o.dom(x)))
                return True
            return False           # (other order or other names)
        if isinstance(o, (list, tuple)):
            raise Unsupported('comparison of dims with a list')
        return VSet.__eq__(self, o)

    def __ne__(self, o):
        return not (self == o)
    __hash__ = None


def seq_has(x, k):
    """is name k in the sequence x (decided by branching)"""
    if isinstance(x, VSet):
        return read(x._ref, k) is not ABSENT
    raw = x._raw() if isinstance(x, VList) else list(x)
    r = False
    for y in raw:
        if isinstance(y, Segment):
            c = y.coll()
            if c.member(k):
                if not E.must(same_value(c.elem(k), SStr(k))):
                    raise Unsupported('sequence of something else than its index')
                r = True
        elif E.branch(as_key(y) == k):
            r = True
    return r


@contract('C08', 'combine_dims')
def combine_dims_contract():
    pkg = load(*MODS)
    m = pkg.modules['sympl._core.combine_properties']
    d1, d2 = DimSeq('dims1'), DimSeq('dims2')
    star = E.lit('*')
    k = z3.Const('K', Str)
    E.assume(k != star)
    x = z3.Const('x!e', Str)
    res = outcome(m.combine_dims, d1, d2)
    w1, w2 = d1.dom(star), d2.dom(star)
    bad = lambda q: z3.And(q != star, z3.Or(z3.And(d1.dom(q), z3.Not(d2.dom(q)), z3.Not(w2)), z3.And(d2.dom(q), z3.Not(d1.dom(q)), z3.Not(w1))))
    if res[0] != 'ok':
        E.prove('refused with InvalidPropertyDictError', isinstance(res[1], pkg.modules['sympl._core.exceptions'].InvalidPropertyDictError), repr(res[1]))
        E.prove('refused only when a name is in one and neither in the other nor matched by its *', z3.Exists([x], bad(x)))
        E.cover('refused')
        return
    E.cover('combined')
    loops_done_at(k)
    E.prove('accepted: every name is in the other or matched by its *', z3.Not(bad(k)))
    has = seq_has(res[1], k)
    E.prove('names of the result: those of either', z3.Or(d1.dom(k), d2.dom(k)) == has)
    has = seq_has(res[1], star)
    E.prove('* in the result exactly when in both', z3.And(w1, w2) == has)
    E.prove('arguments unchanged', z3.And(d1.dom(k) == (get(d1, k) is not ABSENT), d2.dom(k) == (get(d2, k) is not ABSENT)))


@contract('C08', 'combine_dims')
def combining_dims_is_order_independent():
    """Lemma over the contract of combine_dims: for any three specifications both ways of combining
    succeed together and give the same names."""
    names = [fn('names%d' % i, Str, Bool) for i in range(3)]
    stars = [z3.Const('star%d' % i, Bool) for i in range(3)]
    x = z3.Const('x', Str)

    def ok(a, b):
        return z3.ForAll([x], z3.And(z3.Implies(z3.And(a[0](x), z3.Not(b[0](x))), b[1]), z3.Implies(z3.And(b[0](x), z3.Not(a[0](x))), a[1])))

    def comb(a, b):
        return (lambda q: z3.Or(a[0](q), b[0](q))), z3.And(a[1], b[1])
    A = [(names[i], stars[i]) for i in range(3)]
    a, b, c = A
    left = z3.And(ok(a, b), ok(comb(a, b), c))
    for p, q, r in ((0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)):
        right = z3.And(ok(A[p], A[q]), ok(comb(A[p], A[q]), A[r]))
        E.prove('success does not depend on the order', left == right)
        k = z3.Const('K', Str)
        E.prove('nor does the result', z3.And(comb(comb(a, b), c)[0](k) == comb(comb(A[p], A[q]), A[r])[0](k),
                                             comb(comb(a, b), c)[1] == comb(comb(A[p], A[q]), A[r])[1]))
    # a combined specification exists exactly when success is reported
    T, ts = fn('target', Str, Bool), z3.Const('targetstar', Bool)
    sat = lambda d: z3.ForAll([x], z3.And(z3.Implies(d[0](x), T(x)), z3.Implies(z3.And(T(x), z3.Not(d[0](x))), d[1])))
    E.prove('a specification satisfying all exists only when combining succeeds', z3.Implies(z3.And(sat(a), sat(b), sat(c)), left))


def stub_combine_dims(pkg):
    """combine_dims by its contract: some specification, or InvalidPropertyDictError"""
    m = pkg.modules['sympl._core.combine_properties']
    cd, cok = fn('combined', Dims, Dims, Dims), fn('combinable', Dims, Dims, Bool)
    Err = pkg.modules['sympl._core.exceptions'].InvalidPropertyDictError

    def combine_dims(d1, d2):
        a, b = models.dims_term(d1), models.dims_term(d2)
        E.assume(z3.Implies(a == b, z3.And(cok(a, b), cd(a, b) == a)))
        if not E.branch(cok(a, b)):
            raise Err('incompatible')
        return SDims(cd(a, b))
    if hasattr(m, 'combine_dims'):
        m.combine_dims = combine_dims
    return cd, cok


N = 3


@contract('C08', 'combine_properties', bounded='at most %d property dictionaries, each with any number of entries' % N)
def combine_properties_contract():
    pkg = load(*MODS)
    m = pkg.modules['sympl._core.combine_properties']
    Err = pkg.modules['sympl._core.exceptions'].InvalidPropertyDictError
    cd, cok = stub_combine_dims(pkg)
    n = E.choose(N, 'dictionaries') + 1
    # every dictionary comes from a component accepted at construction (C04): units given and valid
    P = [EnvProps('p%d' % i, dims_opt=(i != 1), pre=lambda q, i=i: [uvalid(fn('p%d.units' % i, Str, Str)(q))]) for i in range(n)]
    inp = EnvProps('inp', dims_opt=True)
    with_inputs = E.choose(2, 'input properties given') == 1
    k = z3.Const('K', Str)
    res = outcome(m.combine_properties, VList([p.d for p in P]), inp.d) if with_inputs else outcome(m.combine_properties, VList([p.d for p in P]))
    x = z3.Const('x!e', Str)

    def dims(p, q):
        if p.has_dims is None:
            return p.dimsf(q)
        return z3.If(p.has_dims(q), p.dimsf(q), inp.dimsf(q))

    def nodims(p, q):
        if p.has_dims is None:
            return z3.BoolVal(False)
        return z3.And(z3.Not(p.has_dims(q)), z3.Not(z3.And(inp.dom(q), inp.has_dims(q))) if with_inputs else z3.BoolVal(True))

    def faulty(q):
        """no combined specification for quantity q"""
        out = []
        have, first, acc = z3.BoolVal(False), None, None
        for p in P:
            d = p.dom(q)
            out.append(z3.And(d, nodims(p, q)))
            if acc is None:
                acc, first = dims(p, q), p.unit(q)
            else:
                u, v = unit_term(p.unit(q)), unit_term(first)
                if not q.eq(x):
                    unit_facts(u, v)
                out.append(z3.And(d, have, z3.Not(ucompat(u, v))))
                out.append(z3.And(d, have, z3.Not(cok(acc, dims(p, q)))))
                acc = z3.If(d, z3.If(have, cd(acc, dims(p, q)), dims(p, q)), acc)
                first = z3.If(have, first, p.unit(q))
            have = z3.Or(have, d)
        return z3.Or(out), have, first, acc
    if res[0] != 'ok':
        E.prove('refused with InvalidPropertyDictError', isinstance(res[1], Err), repr(res[1]))
        w = E.ghost.get('raised_at')
        E.prove('refused only when some quantity has no common specification', z3.Exists([x], faulty(x)[0]))
        E.cover('refused')
        return
    E.cover('combined')
    loops_done_at(k)
    f, have, first, acc = faulty(k)
    got = get(res[1], k)
    if not E.branch(have):
        E.prove('no other quantity', got is ABSENT)
    else:
        E.prove('accepted: the quantity has a common specification', z3.Not(f))
        if got is ABSENT:
            E.fail('quantity of a component is in the result')
        else:
            u, d = get(got, E.lit('units')), get(got, E.lit('dims'))
            if u is ABSENT or d is ABSENT:
                E.fail('result has units and dims')
            else:
                E.prove('units of the result are those of the first', as_key(u) == first)
                E.prove('dims of the result satisfy every component', models.dims_term(d) == acc)
    for p in P + [inp]:
        p.unchanged('component properties', k)


@contract('C08', 'combine_component_properties get_tracer_input_properties', bounded='at most 2 components, 2 registered and 2 prepended tracers')
def combine_component_properties_contract():
    """the dictionaries handed to combine_properties: one per component, and one with the tracers
    of a component which uses them"""
    pkg = load(*MODS)
    m = pkg.modules['sympl._core.combine_properties']
    tr = pkg.modules['sympl._core.tracers']
    names = [SStr(z3.Const('tracer%d' % i, Str)) for i in range(2)]
    units = [SStr(z3.Const('tracerunits%d' % i, Str)) for i in range(2)]
    E.assume(names[0].t != names[1].t)
    for u in units:
        E.assume(uvalid(u.t))
    nreg = E.choose(3, 'registered')
    for i in range(nreg):
        tr.register_tracer(names[i], units[i])
    prop = ['input_properties', 'tendency_properties', 'diagnostic_properties'][E.choose(3, 'property')]
    comps, exp, allp = [], [], []
    n = E.choose(2, 'components') + 1
    for i in range(n):
        class C(object):
            pass
        c = C()
        ps = {q: EnvProps('c%d.%s' % (i, q)) for q in ('input_properties', 'tendency_properties', 'diagnostic_properties')}
        for q in ps:
            setattr(c, q, ps[q].d)
        use = E.choose(3, 'tracers')
        if use:
            c.uses_tracers = True
            td = [('tracer', 'x', '*'), ('x', 'tracer')][E.choose(2, 'tracer dims')]
            c.tracer_dims = td
            if use == 2:
                c.prepend_tracers = [(SStr(z3.Const('pre%d' % i, Str)), SStr(z3.Const('preunits%d' % i, Str)))]
        comps.append(c)
        exp.append((c, ps[prop], use))
    seen = []
    marker = VDict()

    def combine_properties(plist, *a, **kw):
        seen.append((list(loop(plist, ())), a, kw))
        return marker
    m.combine_properties = combine_properties
    inp = EnvProps('inp')
    res = outcome(m.combine_component_properties, VList(comps), prop, inp.d)
    if res[0] != 'ok':
        E.fail('returns', repr(res[1]))
        return
    E.prove('combined by combine_properties', len(seen) == 1 and same_value(res[1], marker))
    if len(seen) != 1:
        return
    got, a, kw = seen[0]
    E.prove('input properties passed on', (len(a) == 1 and same_value(a[0], inp.d)) or (len(a) == 0 and same_value(list(kw.values())[0], inp.d)))
    k = z3.Const('K', Str)
    pos = 0
    for c, p, use in exp:
        if pos >= len(got):
            E.fail('a dictionary per component')
            return
        E.prove('a dictionary per component', same_value(got[pos], p.d))
        pos += 1
        if prop == 'input_properties' and use:
            if pos >= len(got):
                E.fail('a dictionary with the tracers')
                return
            t = got[pos]
            pos += 1
            pre = getattr(c, 'prepend_tracers', [])
            e = get(t, k)
            u = None
            for nm, un in zip(names[:nreg], units):
                if E.branch(nm.t == k):
                    u = un
            for nm, un in pre:
                if E.branch(nm.t == k):
                    u = un
            if u is None:
                E.prove('only tracers in it', e is ABSENT)
            elif e is ABSENT:
                E.fail('every tracer is in it')
            else:
                E.prove('tracer units', same_opt(get(e, 'units'), u))
                d = get(e, 'dims')
                E.prove('tracer dims without the tracer axis', d is not ABSENT and
                        [x for x in list(loop(d, ()))] == [x for x in c.tracer_dims if x != 'tracer'])
    E.prove('nothing else combined', pos == len(got))
