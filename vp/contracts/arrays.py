"""Contracts: rearranging arrays (C23, C24)."""
import itertools
from ..spec import *
from ..native import *
from .. import native


def arrangements(names, up_to, at_least=0):
    return [p for n in range(at_least, up_to + 1) for p in itertools.permutations(names, n)]


def pick(options, tag):
    return options[E.choose(len(options), tag)]


def quantity(pkg, name, dims, lens, units=None, coords=True, dtype='float64', attrs=None):
    """an arbitrary quantity with the given dimensions"""
    DA = pkg.modules['sympl._core.dataarray'].DataArray
    a = {} if units is None else {'units': units}
    a.update(attrs or {})
    return DA(env_array(name, [lens[d] for d in dims], dtype), dims=dims, attrs=a,
              coords={d: CoordModel(d, lens[d], name + '.' + d) for d in dims} if coords else None)


def positions(dims, tag='i', lens=None):
    """arbitrary positions along the dimensions"""
    pos = {d: zint('%s_%s' % (tag, d)) for d in dims}
    for d in dims if lens is not None else ():
        k = ('pos', tag, d, str(as_len(lens[d]).norm()))
        if k not in E.facts_done:
            E.facts_done.add(k)
            E.assume(z3.And(0 <= pos[d], pos[d] < as_len(lens[d]).z))
    return pos


def source(name, dims, pos):
    """the element of the environment array `name` at the given positions"""
    if not dims:
        return zfn(name, 0)
    return zfn(name, len(dims))(*[pos[d] for d in dims])


def check_axes(label, arr, groups, lens, expect, pos):
    """arr has one axis per group of dimensions, the dimensions of a group flattened in order, and its element
    at any position is expect"""
    if not isinstance(arr, ArrayModel):
        E.fail(label + ': is an array', repr(arr))
        return
    sh = arr.shape
    E.prove(label + ': number of axes', len(sh) == len(groups), '%s for %s' % (sh, groups))
    if len(sh) != len(groups):
        return
    for s, g in zip(sh, groups):
        n = native.product(lens[d] for d in g)
        E.prove(label + ': length of each axis', True if same_len(s, n) else as_len(s).z == as_len(n).z, '%s for %s' % (sh, groups))
    flat = [d for g in groups for d in g]
    try:
        a = arr.reshape([lens[d] for d in flat])
    except ValueError:
        E.fail(label + ': shape', '%s for %s' % (sh, groups))
        return
    prove_eq(label + ': elements', a.elem([pos[d] for d in flat]), expect)


def unchanged(label, q, name, dims, lens, attrs):
    pos = positions(dims, 'u', lens)
    E.prove(label + ': dims kept', q.dims == tuple(dims))
    E.prove(label + ': attributes kept', q.attrs == attrs)
    prove_eq(label + ': values kept', q.values.elem([pos[d] for d in dims]), source(name, dims, pos))


B23 = 'arrays of up to 3 dimensions and up to 4 output dims; lengths (positive), values and coordinates unbounded'


def roundtrip(first):
    pkg = nload('sympl._core.util')
    U = pkg.modules['sympl._core.util']
    D = pick([d for d in arrangements(('a', 'b', 'x'), 3) if 'b' not in d or ('a' in d and d.index('a') < d.index('b'))], 'dims')
    O = pick([o for o in arrangements(('a', 'b', 'x', '*', 'q'), 4) if (o[0] if o else '') in first], 'out dims')
    lens = {d: length('n_' + d) for d in 'abx'}
    coords = E.choose(2, 'coords') == 1 if len(D) < 3 else True
    da = quantity(pkg, 'v', D, lens, 'm', coords)
    O = list(O) if E.choose(2, 'tuple') == 0 or len(O) > 2 else tuple(O)
    res = outcome(U.get_numpy_array, da, O)
    rest = tuple(d for d in D if d not in O)
    lacking = [o for o in O if o != '*' and o not in D]
    if (rest and '*' not in O) or any(o not in 'xyz' for o in lacking):
        E.prove('refused: a dimension is lacking or not provided for', res[0] == 'exc', '%s %s' % (D, O))
        E.cover('refused')
        return
    if res[0] != 'ok':
        E.fail('valid dims are accepted', '%s %s: %r' % (D, O, res[1]))
        return
    E.cover('accepted')
    arr = res[1]
    groups = [rest if o == '*' else ((o,) if o in D else ()) for o in O]
    pos = positions(D, lens=lens)
    check_axes('get_numpy_array', arr, groups, lens, source('v', D, pos), pos)
    unchanged('source', da, 'v', D, lens, {'units': 'm'})
    what = E.choose(2, 'what')
    if what == 1:
        other = env_array('w', [length('m')])
        r2 = outcome(U.restore_dimensions, other, O, da)
        size = native.product(lens[d] for d in D)
        if as_len(size) == length('m'):
            return
        E.prove('refused: size differs', r2[0] == 'exc')
        E.cover('size differs')
        return
    attrs = {'units': 'K'}
    r2 = outcome(U.restore_dimensions, arr, O, da, attrs)
    if r2[0] != 'ok':
        E.fail('restore_dimensions accepts its own dims', '%s %s: %r' % (D, O, r2[1]))
        return
    back = r2[1]
    E.prove('restored: is a quantity', isinstance(back, XDataArray))
    if not isinstance(back, XDataArray):
        return
    E.prove('restored: dimension order', back.dims == D)
    if back.dims != D:
        return
    for d in D:
        c = back.coords[d]
        E.prove('restored: coordinates', c.ident == ('v.' + d if coords else None) and bool(same_len(c.n, lens[d])))
    E.prove('restored: attributes', back.attrs == attrs)
    check_axes('restored', back.values, [(d,) for d in D], lens, source('v', D, pos), pos)
    unchanged('source', da, 'v', D, lens, {'units': 'm'})


for _n, _o in enumerate((('', 'a', 'b'), ('x', 'q'), ('*',))):
    def _f(o=_o):
        roundtrip(o)
    _f.__name__ = 'get_numpy_array_and_restore_dimensions_%d' % (_n + 1)
    contract('C23', 'get_numpy_array restore_dimensions get_input_array_dim_names get_target_dimension_order get_slices_and_placeholder_nones get_final_shape',
             bounded=B23)(_f)
