# -*- coding: utf-8 -*-
"""Contracts: NetCDFMonitor (C21) and RestartMonitor (C22), on the unmodified modules over a ghost file system."""
from ..spec import *
from ..native import *
from .. import native, files
from ..files import FS, File, TD, DT, NumVec, Var, ghost_modules, BUILTINS, _term
from .arrays import *

NC = 'sympl._components.netcdf'
ALLDIMS = [(), ('x',), ('y', 'x')]


def monitors():
    fs = FS()
    pkg = nload(NC, extra=ghost_modules(fs), builtins=BUILTINS)
    return fs, pkg, pkg.modules[NC]


class Stored(object):
    """an arbitrary quantity, and what it was when it was stored"""

    def __init__(self, pkg, name, dims, lens, attrs, dtype='float64'):
        self.name, self.dims, self.attrs, self.dtype = name, dims, dict(attrs), dtype
        self.lens = {d: lens[d] for d in dims}
        self.da = quantity(pkg, name, dims, lens, attrs=attrs, dtype=dtype, coords=False)

    def change(self):
        """the model goes on with its own arrays"""
        self.da.values[...] = 55.
        self.da.attrs['units'] = 'changed'
        self.da.attrs['later'] = 'x'

    def check_row(self, label, v, i):
        row = v._data.get(i)
        if row is None:
            E.fail(label + ': values written', 'no record %d of %s' % (i, v.name))
            return
        if not isinstance(row, ArrayModel):
            row = as_array(row)
        pos = positions(self.dims, lens=self.lens)
        check_axes(label, row, [(d,) for d in self.dims], self.lens, source(self.name, self.dims, pos), pos)

    def unchanged(self):
        unchanged('stored state', self.da, self.name, self.dims, self.lens, self.attrs)


def new_time(kind, k):
    us = z3.Int('time_%s_us' % k)
    t = z3.ToReal(us) / 1000000
    E.ghost.setdefault('us', {})[t] = us
    E.ghost.setdefault('ints', []).append(us)
    return (TD if kind == 'timedelta' else DT)(t)


def whole_units(t, units):
    """the time is a whole number of the monitor's units"""
    if isinstance(t, TD):
        a, b = uterm('seconds'), uterm(units)
        unit_facts(a, b)
        E.assume(z3.And(uvalid(E.lit('seconds')), ucompat(a, b)))
        n = conv(a, b, t.t)
        i = z3.Int('whole_%s_%s' % (E.ghost['us'][t.t], units))
        k = z3.ToReal(i)
        E.ghost['ints'].append(i)
        if units == 'seconds':          # the number is the time itself
            E.assume(E.ghost['us'][t.t] == 1000000 * i)
            E.assume(t.t == k)
        E.assume(n == k)
        E.ghost.setdefault('whole', {})[n] = k


def check_time(label, f, i, t, units):
    """record i of the time variable means time t"""
    v = f.vars.get('time')
    if v is None or v._data.get(i) is None:
        E.fail(label + ': time written', 'record %d' % i)
        return
    got = _term(v._data[i])
    u = v._attrs.get('units')
    if isinstance(t, TD):
        a, b = uterm('seconds'), uterm(u)
        unit_facts(a, b)
        n = conv(a, b, t.t)
        E.prove(label + ': the time stored', got == E.ghost.get('whole', {}).get(n, n))
    else:
        try:
            files.known_units(u)
        except ValueError:
            E.fail(label + ': units of the time variable', repr(u))
            return
        cal = v._attrs.get('calendar', 'standard')
        files.time_number(u, cal, z3.RealVal(0))
        E.prove(label + ': the calendar of standard datetimes', cal == 'proleptic_gregorian', cal)
        E.prove(label + ': the time stored', files.N2D[u, cal](got) == t.t)


def ordered(times):
    """indices of the times in order; None if two are equal"""
    out = []
    for i, t in enumerate(times):
        for p, j in enumerate(out):
            if E.branch(t.t < times[j].t):
                out.insert(p, i)
                break
        else:
            out.append(i)
    return out


class History(object):
    """a monitor, what it was given, and what the file must hold"""

    def __init__(self, kind='timedelta', **kw):
        self.fs, self.pkg, self.M = monitors()
        self.kind, self.kw = kind, kw
        self.units = kw.get('time_units', 'seconds')
        self.lens = {d: length('n_' + d) for d in 'wxyz'}
        r = outcome(self.M.NetCDFMonitor, 'out.nc', **kw)
        if r[0] != 'ok':
            raise Unsupported('construction: %r' % r[1])
        self.m = r[1]
        self.cache, self.written, self.n = [], [], 0
        self.on_store = kw.get('write_on_store', False)
        self.ren = lambda n: n

    def store(self, quantities, kept, time=None, expect='ok'):
        """quantities: name -> (dims, attrs, dtype)"""
        self.n += 1
        if time is None:
            time = new_time(self.kind, self.n)
            whole_units(time, self.units)
        qs = {n: Stored(self.pkg, '%s%d' % (n, self.n), d, q[3] if len(q) > 3 else self.lens, a, dt)
              for n, q in quantities.items() for d, a, dt in [q[:3]]}
        state = {n: q.da for n, q in qs.items()}
        state['time'] = time
        before = dict(state)
        self.last = outcome(self.m.store, state)
        if expect == 'any' and self.last[0] == 'exc':
            return False
        if self.last[0] != 'ok':
            E.fail('a valid store is accepted', repr(self.last[1]))
            raise Stop()
        E.prove('the stored state is kept', list(state) == list(before) and all(state[k] is before[k] for k in before))
        for q in qs.values():
            q.unchanged()
            q.change()
        entry = {self.ren(n): q for n, q in qs.items() if n in kept}
        for t, e in self.cache:
            if t is time or not t.t.eq(time.t) and E.branch(t.t == time.t) or t.t.eq(time.t):
                e.update(entry)
                E.cover('merged')
                break
        else:
            for t, e in self.written:
                E.assume(t.t != time.t)         # one record per time
            self.cache.append((time, entry))
        if self.on_store:
            self.flushed()
        return True

    def flushed(self):
        for i in ordered([t for t, _ in self.cache]):
            self.written.append(self.cache[i])
        self.cache = []

    def write(self, expect='ok'):
        r = outcome(self.m.write)
        if expect == 'any' and r[0] == 'exc':
            self.last = r
            return False
        if r[0] != 'ok':
            E.fail('a valid write is accepted', repr(r[1]))
            raise Stop()
        self.flushed()
        return True

    def check(self, label='file'):
        if not self.written:
            return
        f = self.fs.files.get('out.nc')
        if f is None:
            E.fail(label + ': exists', sorted(self.fs.files))
            return
        E.prove(label + ': no other file', list(self.fs.files) == ['out.nc'], sorted(self.fs.files))
        E.prove(label + ': complete', f.open == 0)
        names = set().union(*[set(e) for _, e in self.written])
        E.prove(label + ': exactly the selected quantities', set(f.vars) == names | {'time'}, '%s for %s' % (sorted(f.vars), sorted(names)))
        E.prove(label + ': one record per stored time', f.rows == len(self.written), '%d for %d' % (f.rows, len(self.written)))
        E.prove(label + ': time is a record variable', f.vars['time'].dimensions == ('time',) if 'time' in f.vars else False)
        for i, (t, e) in enumerate(self.written):
            check_time(label, f, i, t, self.units)
            for n, q in e.items():
                v = f.vars.get(n)
                if v is None:
                    continue
                E.prove(label + ': dimensions', v.dimensions == ('time',) + q.dims, '%s: %s' % (n, v.dimensions))
                E.prove(label + ': units', v._attrs.get('units') == q.attrs.get('units'), '%s: %s' % (n, v._attrs.get('units')))
                if v.dimensions == ('time',) + q.dims:
                    q.check_row(label + ' values', v, i)


class Stop(Exception):
    pass


def run(f):
    try:
        f()
    except Stop:
        pass


def attrs(n, more=None):
    a = {'units': unit('units_' + n)}
    a.update(more or {})
    return a


FN21 = ('NetCDFMonitor.store NetCDFMonitor.write NetCDFMonitor._ensure_time_exists NetCDFMonitor._ensure_cached_states_have_same_keys '
        'NetCDFMonitor._get_ordered_times_and_states combine_states append_times_to_dataset ensure_variable_exists create_variable '
        'ensure_variable_is_compatible ensure_dimension_exists')
B21 = '; times, values, units and dimension lengths (positive) unbounded'


def histories(ops_left):
    def go():
        E.assume(uvalid(E.lit('seconds')))
        kw = {}
        if E.choose(2, 'time units'):
            kw['time_units'] = unit('tu')
        kind = pick(['timedelta', 'datetime'], 'time')
        h = History(kind, **kw)
        qs = {'a': (('y', 'x'), attrs('a'), 'float64'), 'b': ((), attrs('b', {'long_name': 'l'}), 'int32')}
        for i in range(ops_left):
            op = pick(['store', 'write'], 'op')
            if op == 'store':
                h.store(qs, ('a', 'b'))
            else:
                h.write()
                h.check()
        h.write()
        h.check()
        if len(h.written) > 1:
            E.cover('several records')
    run(go)


@contract('C21 C05', FN21, bounded='histories of up to 3 operations and a final write, two quantities' + B21)
def netcdf_histories():
    histories(3)


@contract('C21 C05', FN21, tier='thorough', bounded='histories of up to 5 operations and a final write, two quantities' + B21)
def netcdf_longer_histories():
    histories(5)


@contract('C21', FN21, bounded='two or three writes of up to 3 records each (3, 3, 1), three quantities of up to 2 dimensions' + B21)
def netcdf_several_records_per_write():
    def go():
        E.assume(uvalid(E.lit('seconds')))
        sizes = pick([(1, 2), (2, 1, 1), (1, 3), (2, 2), (3, 1)], 'records')
        h = History(pick(['timedelta', 'datetime'], 'time') if sum(sizes) < 4 else 'timedelta')
        qs = {'a': (('y', 'x'), attrs('a'), 'float64'), 'b': ((), attrs('b'), 'int32'), 'c': (('z',), attrs('c'), 'float32')}
        for n in sizes:
            for i in range(n):
                h.store(qs, 'abc')
            h.write()
            h.check()
    run(go)


@contract('C21', FN21, bounded='up to 3 stores, written at once' + B21)
def netcdf_write_on_store():
    def go():
        h = History(pick(['timedelta', 'datetime'], 'time'), write_on_store=True)
        qs = {'a': (pick(ALLDIMS, 'dims'), attrs('a'), 'float64'), 'b': (('x',), attrs('b'), 'float64')}
        for i in range(1 + E.choose(3, 'stores')):
            h.store(qs, ('a', 'b'))
            h.check()
    run(go)


@contract('C21', FN21, bounded='two stores and two writes, three quantities of up to 2 dimensions' + B21)
def netcdf_selection_and_aliases():
    def go():
        kw = {}
        names = ['temp', 'temp_tend', 'q']
        sel = pick([None, ['temp', 'q'], ('q', 'absent'), ['time', 'temp_tend'], names], 'store names')
        if sel is not None:
            kw['store_names'] = sel
        al = pick([None, {}, {'temp': 'T'}, {'q': 'humidity', 'temp': 'T'}, {'temp_tend': 'dT'}, {'absent': 'z'}, {'q': 'q'}], 'aliases')
        if al is not None:
            kw['aliases'] = al
        keep = None if al is None else dict(al)
        h = History('timedelta', **kw)

        def ren(n):
            for k, v in (keep or {}).items():
                n = n.replace(k, v)
            return n
        h.ren = ren
        kept = [n for n in names if sel is None or n in sel]
        qs = {'temp': (('y', 'x'), attrs('t'), 'float32'), 'temp_tend': (('x', 'y'), attrs('tt'), 'float64'), 'q': (('z',), {}, 'float64')}
        if E.choose(2, 'order'):
            qs = dict(reversed(list(qs.items())))
        h.store(qs, kept)
        if E.choose(2, 'write'):
            h.write()
        h.store(qs, kept)
        h.write()
        h.check()
    run(go)


@contract('C21', FN21, bounded='two stores and two writes, quantities of up to 3 dimensions' + B21)
def netcdf_ranks_and_types():
    def go():
        h = History('datetime')
        d = pick([p for n in range(4) for p in itertools.permutations('xyz', n)], 'dims')
        qs = {'a': (d, attrs('t', {'other': 3}), pick(['float64', 'int64', 'float32', 'int32'], 'dtype')), 'b': (('z', 'x'), attrs('b'), 'float64')}
        for i in range(2):
            h.store(qs, 'ab')
            h.write()
        h.check()
    run(go)


@contract('C21', FN21, bounded='one time stored in parts, then another time' + B21)
def netcdf_merged_stores():
    def go():
        h = History(pick(['timedelta', 'datetime'], 'time'))
        qs = {'a': (('x',), attrs('a'), 'float64'), 'b': (('y', 'x'), attrs('b'), 'float64'), 'c': ((), attrs('c'), 'float64')}
        t = new_time(h.kind, 'merged')
        whole_units(t, 'seconds')
        parts = pick([('ab', 'c'), ('a', 'bc'), ('abc', 'b'), ('ab', 'bc'), ('b', 'ac', 'a')], 'parts')
        whole_first = E.choose(2, 'another time first')
        if whole_first:
            h.store(qs, 'abc')
            E.assume(h.cache[0][0].t != t.t)
        for i, p in enumerate(parts):
            again = new_time(h.kind, 'merged')      # another object for the same time
            h.store({n: qs[n] for n in p}, 'abc', time=t if i == 0 else again)
        if E.choose(2, 'write'):
            h.write()
            h.check()
        if not whole_first:
            h.store(qs, 'abc')
        h.write()
        h.check()
    run(go)


FAULTS = ['missing', 'extra', 'other dims', 'permuted dims', 'fewer dims', 'other length', 'units', 'no units', 'dtype', 'time kind']


@contract('C21', FN21, bounded='states which differ in one respect, in either order, within a write or between writes' + B21)
def netcdf_refusals():
    def go():
        what = pick(FAULTS, 'fault')
        h = History(pick(['timedelta', 'datetime'], 'time') if what == 'time kind' else 'timedelta')
        dims = pick(ALLDIMS, 'dims')
        a, b = attrs('a'), attrs('b')
        good = {'a': (dims, a, 'int64'), 'b': (('w',), b, 'float64')}
        if E.choose(2, 'order'):
            good = dict(reversed(list(good.items())))
        bad = dict(good)
        lens2 = dict(h.lens)
        if what == 'missing':
            del bad['a']
        elif what == 'extra':
            bad['c'] = ((), attrs('c'), 'float64')
        elif what == 'other dims':
            if not dims:
                return
            bad['a'] = (dims[:-1] + ('z',), a, 'int64')
        elif what == 'permuted dims':
            if len(dims) < 2:
                return
            bad['a'] = (dims[::-1], a, 'int64')
        elif what == 'fewer dims':
            if not dims:
                return
            bad['a'] = (dims[1:], a, 'int64')
        elif what == 'other length':
            if not dims:
                return
            d = pick(dims, 'dim')
            lens2[d] = length('n2_' + d)
            E.assume(as_len(lens2[d]).z != as_len(h.lens[d]).z)
            bad['a'] = (dims, a, 'int64', lens2)
        elif what == 'units':
            u2 = unit('units_2')
            x, y = uterm(a['units']), uterm(u2)
            unit_facts(x, y)
            E.assume(z3.Not(usame(x, y)))
            bad['a'] = (dims, {'units': u2}, 'int64')
        elif what == 'no units':
            bad['a'] = (dims, {}, 'int64')
        elif what == 'dtype':
            bad['a'] = (dims, a, 'float64')
        first, second = (good, bad) if E.choose(2, 'first') == 0 else (bad, good)
        E.cover(what)
        between = E.choose(2, 'written between')
        h.store(first, 'abc')
        if between:
            h.write()
            h.check('first write')
        if what == 'time kind':
            h.kind = 'datetime' if h.kind == 'timedelta' else 'timedelta'
        written = list(h.written)
        t = new_time(h.kind, 'differing')
        whole_units(t, 'seconds')
        for x, _ in h.cache:
            if type(x) is type(t):
                E.assume(x.t != t.t)
        ok = h.store(second, 'abc', time=t, expect='any') and h.write(expect='any')
        if ok:
            # then it must be exactly right
            E.prove('differing quantities are refused', what in ('dtype', 'time kind'), what)
            h.check('accepted ' + what)
            return
        if what in ('dtype', 'time kind') and not isinstance(h.last[1], Exception):
            E.fail('refusal', repr(h.last[1]))
        if isinstance(h.last[1], Unsupported):
            raise h.last[1]
        h.cache, h.written = [], written
        h.check('what was written before')
    run(go)


@contract('C21', 'NetCDFMonitor.store', bounded='two or three quantities; values unbounded')
def netcdf_alias_clashes():
    def go():
        clash = pick([({'a': 'b'}, 'ab'), ({'a': 'time'}, 'ab'), ({'a': 'x', 'b': 'x'}, 'ab'), ({'a': ''}, 'ab')], 'clash')
        h = History('timedelta', aliases=clash[0])
        qs = {n: ((), attrs(n), 'float64') for n in clash[1]}
        if E.choose(2, 'order'):
            qs = dict(reversed(list(qs.items())))
        ok = h.store(qs, (), expect='any') and h.write(expect='any')
        if not ok and isinstance(h.last[1], Unsupported):
            raise h.last[1]
        E.prove('quantities renamed to the same name are refused', not ok, str(clash))
    run(go)


@contract('C21', FN21, bounded='two monitors on the same file, one record each' + B21)
def netcdf_append_to_existing_file():
    def go():
        E.assume(uvalid(E.lit('seconds')))
        h = History(pick(['timedelta', 'datetime'], 'time'))
        qs = {'a': (('x',), attrs('a'), 'float64')}
        h.store(qs, 'a')
        h.write()
        tu = pick(['seconds', unit('tu')], 'other units')
        E.assume(uvalid(E.lit(tu)))
        h.m = h.M.NetCDFMonitor('out.nc', time_units=tu)
        h.units = 'seconds'
        t = new_time(h.kind, 'second')
        whole_units(t, 'seconds')
        whole_units(t, tu)
        ok = h.store(qs, 'a', time=t, expect='any') and h.write(expect='any')
        if not ok:
            if isinstance(h.last[1], Unsupported):
                raise h.last[1]
            E.prove('the same kind of state is accepted', tu != 'seconds', repr(h.last[1]))
            h.cache = []
        h.check('appended')
    run(go)


# ------------------------------------------------------------------ C22
FN22 = ('RestartMonitor.store RestartMonitor.load get_time ' + FN21)
SECONDS_PER = {'microseconds': z3.Q(1, 1000000), 'milliseconds': z3.Q(1, 1000), 'seconds': z3.RealVal(1)}


def time_units():
    """the units of time between which pint converts times"""
    for u in SECONDS_PER:
        E.assume(uvalid(E.lit(u)))
    for u in SECONDS_PER:
        for v in SECONDS_PER:
            a, b = uterm(u), uterm(v)
            if u != v:
                unit_facts(a, b)
                E.ghost.setdefault('factors', {})[a, b] = z3.simplify(SECONDS_PER[u] / SECONDS_PER[v])
                E.assume(z3.And(ucompat(a, b), z3.Not(usame(a, b)), models.uA(a, b) == z3.simplify(SECONDS_PER[u] / SECONDS_PER[v]), models.uB(a, b) == 0))


class Restart(object):
    """a state to be stored"""

    def __init__(self, pkg, k, kind, n=2, simple=False):
        self.lens = {d: length('n%s_%s' % (k, d)) for d in 'xy'}
        self.qs = {}
        dims, dt = (('x',), 'int32') if simple else (pick(ALLDIMS, 'dims'), pick(['float64', 'int32'], 'dtype'))
        spec = [('a', dims, {'units': unit('ua'), 'long_name': 'l', 'level': 3}, dt),
                ('b', ('x',), {'units': unit('ub')}, 'float64')][:n]
        if not simple and k == 'new' and E.choose(2, 'order'):
            spec.reverse()
        for nme, d, at, dt in spec:
            self.qs[nme] = Stored(pkg, nme + k, d, self.lens, at, dt)
        self.time = new_time(kind, k)
        if kind == 'timedelta':
            a, b = uterm('seconds'), uterm('microseconds')
            c = conv(a, b, self.time.t)
            us = z3.ToReal(E.ghost['us'][self.time.t])
            E.ghost.setdefault('whole', {})[c] = us
            E.assume(c == us)
        self.state = {n: q.da for n, q in self.qs.items()}
        self.state['time'] = self.time

    def complete(self, f):
        """the file is closed and holds every quantity and the time"""
        if f is None or f.open or f.junk or set(f.vars) != set(self.state):
            return False
        return all(v._data.get(0) is not None for v in f.vars.values()) and f.rows == 1 and \
            all(f.vars[n].dimensions == ('time',) + q.dims and f.vars[n]._attrs == q.attrs for n, q in self.qs.items())

    def check_file(self, label, f):
        E.prove(label + ': complete', self.complete(f))
        if not self.complete(f):
            return
        v = f.vars['time']
        check_restart_time(label, self, v)
        for n, q in self.qs.items():
            E.prove(label + ': dtype', dtname(f.vars[n].dtype) == q.dtype)
            q.check_row(label + ': values', f.vars[n], 0)

    def check_loaded(self, label, pkg, got):
        DA = pkg.modules['sympl._core.dataarray'].DataArray
        E.prove(label + ': the quantities stored', isinstance(got, dict) and set(got) == set(self.state), sorted(got))
        t = got.get('time')
        E.prove(label + ': a timedelta or datetime', type(t) is type(self.time), repr(type(t)))
        if type(t) is type(self.time):
            E.prove(label + ': the time stored', t.t == self.time.t)
        for n, q in self.qs.items():
            g = got.get(n)
            if not isinstance(g, DA):
                E.fail(label + ': is a DataArray', n)
                continue
            E.prove(label + ': dims', tuple(g.dims) == q.dims, '%s: %s' % (n, g.dims))
            E.prove(label + ': attributes', dict(g.attrs) == q.attrs, '%s: %s' % (n, g.attrs))
            E.prove(label + ': dtype', dtname(g.dtype) == q.dtype, n)
            if tuple(g.dims) == q.dims:
                pos = positions(q.dims, lens=q.lens)
                check_axes(label, g.values, [(d,) for d in q.dims], q.lens, source(q.name, q.dims, pos), pos)


def check_restart_time(label, st, v):
    got, u = _term(v._data[0]), v._attrs.get('units')
    if isinstance(st.time, TD):
        if u not in SECONDS_PER:
            E.fail(label + ': units of the time', repr(u))
            return
        E.prove(label + ': the time stored', got * SECONDS_PER[u] == st.time.t)
    else:
        try:
            files.known_units(u)
        except ValueError:
            E.fail(label + ': units of the time', repr(u))
            return
        cal = v._attrs.get('calendar', 'standard')
        files.time_number(u, cal, z3.RealVal(0))
        E.prove(label + ': the time stored', files.N2D[u, cal](got) == st.time.t)


class Watch(object):
    """what a crash before any file operation would leave behind"""

    def __init__(self, fs, fn, prevs, new):
        self.fs, self.fn, self.prevs, self.new = fs, fn, prevs, new
        self.names = [fn, fn + '.old', fn + '.new']
        self.at0 = fs.files.get(fn)
        self.version = self.at0.version if self.at0 else 0

    def holds(self, f):
        return any(p.complete(f) for p in self.prevs) or self.new.complete(f)

    def __call__(self, op, args):
        files_ = [self.fs.files.get(n) for n in self.names]
        if self.prevs:
            E.prove('at any point: a complete restart file exists', any(self.holds(f) for f in files_), 'before ' + op)
            if self.at0 is not None and not any(self.new.complete(f) for f in files_):
                E.prove('at any point: the previous file is kept until the new one is complete',
                        self.fs.files.get(self.fn) is self.at0 and self.at0.version == self.version and self.holds(self.at0), 'before ' + op)


def write_file(pkg, fs, M, fn, st):
    """a complete restart file, as a store leaves it"""
    r = outcome(M.RestartMonitor(fn).store, st.state)
    if r[0] != 'ok':
        E.fail('a valid store succeeds', repr(r[1]))
        raise Stop()


def partial(fs, fn):
    fs.files[fn] = File()
    fs.files[fn].dims['time'] = files.Dim(fs.files[fn], 'time', None)


NAMES22 = ['restart.nc', '/scratch/run.new/a.old.nc']


def restart_setup(fail):
    time_units()
    fs, pkg, M = monitors()
    fn = pick(NAMES22, 'file name') if not fail else NAMES22[0]
    kind = pick(['timedelta', 'datetime'], 'time')
    prevs = []
    # what earlier stores left: nothing, a file, or what a crash during a store leaves
    left = pick(['nothing', 'file', 'file and .old', 'file and partial .new', 'partial .new', '.old and .new', 'file and .new'], 'left')
    if left not in ('nothing', 'partial .new'):
        p = Restart(pkg, 'prev', 'timedelta', 1, simple=True)
        prevs.append(p)
        write_file(pkg, fs, M, fn, p)
        if left == 'file and .old':
            q = Restart(pkg, 'before', 'timedelta', 1, simple=True)
            prevs.append(q)
            f = fs.files.pop(fn)
            write_file(pkg, fs, M, fn, q)
            fs.files[fn + '.old'] = fs.files.pop(fn)
            fs.files[fn] = f
        elif left in ('.old and .new', 'file and .new'):
            q = Restart(pkg, 'next', 'timedelta', 1, simple=True)
            prevs.append(q)
            f = fs.files.pop(fn)
            write_file(pkg, fs, M, fn, q)
            fs.files[fn + '.new'] = fs.files.pop(fn)
            fs.files[fn if left == 'file and .new' else fn + '.old'] = f
    if 'partial' in left:
        partial(fs, fn + '.new')
    E.cover(left)
    fs.files['other.nc'] = other = File()
    other.junk = True
    return fs, pkg, M, fn, kind, prevs, left, other


@contract('C22 C05', FN22, bounded='one store after any state an earlier store or crash leaves, two quantities of up to 2 dimensions' + B21)
def restart_store_and_load():
    def go():
        fs, pkg, M, fn, kind, prevs, left, other = restart_setup(False)
        new = Restart(pkg, 'new', kind)
        fs.watch = w = Watch(fs, fn, prevs, new)
        m = M.RestartMonitor(fn)
        before = dict(new.state)
        r = outcome(m.store, new.state)
        w('end', ())
        if r[0] == 'exc':
            if isinstance(r[1], Unsupported):
                raise r[1]
            E.prove('a valid store succeeds', '.new' in left, repr(r[1]))
            return
        E.prove('the stored state is kept', list(new.state) == list(before) and all(new.state[k] is before[k] for k in before))
        for q in new.qs.values():
            q.unchanged()
        E.prove('the other files are kept', fs.files.get('other.nc') is other and not other.version)
        E.prove('only the restart file is left', set(fs.files) == {fn, 'other.nc'}, sorted(fs.files))
        if fn not in fs.files:
            return
        new.check_file('restart file', fs.files[fn])
        for q in new.qs.values():
            q.change()
        if E.choose(2, 'monitor'):
            m = M.RestartMonitor(fn)
        fs.watch = None
        keep = {n: (f, f.version) for n, f in fs.files.items()}
        g = outcome(m.load)
        if g[0] != 'ok':
            if isinstance(g[1], Unsupported):
                raise g[1]
            E.fail('load', repr(g[1]))
            return
        E.prove('load keeps the files', {n: (f, f.version) for n, f in fs.files.items()} == keep)
        new.check_loaded('load', pkg, g[1])
        E.cover('loaded')
    run(go)


@contract('C22', FN22, bounded='a failure at any operation of one store, after any state an earlier store or crash leaves' + B21)
def restart_failing_at_any_operation():
    def go():
        fs, pkg, M, fn, kind, prevs, left, other = restart_setup(True)
        new = Restart(pkg, 'new', kind, 1, simple=True)
        k = E.choose(40, 'failing operation')
        fs.watch = w = Watch(fs, fn, prevs, new)
        fs.n, fs.fail_at = 0, k + 1
        r = outcome(M.RestartMonitor(fn).store, new.state)
        fs.fail_at = None
        w('end', ())
        if isinstance(r[1], Unsupported):
            raise r[1]
        if fs.n <= k:
            return              # fewer operations
        E.cover('failed')
        if k == 39:
            raise Unsupported('more operations than the bound')
        E.prove('the other files are kept', fs.files.get('other.nc') is other)
        if r[0] == 'ok':
            E.prove('a store which returns has stored', new.complete(fs.files.get(fn)), 'failing at %d' % k)
    run(go)


@contract('C22', FN22, bounded='two stores and loads' + B21)
def restart_successive_stores():
    def go():
        time_units()
        fs, pkg, M = monitors()
        fn = NAMES22[0]
        m = M.RestartMonitor(fn)
        for k in ('prev', 'new'):
            st = Restart(pkg, k, pick(['timedelta', 'datetime'], 'time'), simple=k == 'prev')
            r = outcome(m.store, st.state)
            if r[0] != 'ok':
                E.fail('a valid store succeeds', repr(r[1]))
                return
            E.prove('only the restart file is left', set(fs.files) == {fn}, sorted(fs.files))
            g = outcome(m.load)
            if g[0] != 'ok':
                E.fail('load', repr(g[1]))
                return
            st.check_loaded('load', pkg, g[1])
    run(go)
