"""C21 C22 C25 and C05 for monitors. All files live in a scratch directory which is removed."""
import os, shutil, sys, tempfile
from .base import *
from sympl import NetCDFMonitor, RestartMonitor, PlotFunctionMonitor, MonitorComposite, Monitor
import netCDF4 as nc4


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vp_rtl_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def read_nc(path):
    """name -> (dims, values, attrs), time values, time units"""
    with nc4.Dataset(path) as f:
        f.set_auto_maskandscale(False)
        out = {}
        for n, v in f.variables.items():
            out[n] = (tuple(v.dimensions), np.array(v[...]), {k: v.getncattr(k) for k in v.ncattrs()})
        return out


def model_state(r, names, dims, L, units, t, dtypes=None):
    st = {n: rand_da(r, dims[n], L, units[n], (dtypes or {}).get(n, float), **({'long_name': n + ' x'} if n in ('a', 'T') else {})) for n in names}
    st['time'] = t
    return dict(r.perm(st.items()))


@case('C21', 3)
def netcdf_history(r):
    with scratch() as d:
        fn = os.path.join(d, 'out.nc')
        names = r.sample(NAMES, r.randint(1, 4))
        L = lengths(r, ['x', 'y', 'z', 'lat'])
        dims = {n: r.some(['x', 'y', 'z', 'lat'], 0, 3) for n in names}
        units = {n: pick_unit(r, pick_dim(r), odd=False) for n in names}
        dtypes = {n: r.choice([float, float, 'f4', 'i4', 'i8']) for n in names}
        sel = r.some(names + ['absent', 'short_1', 'short_3'], 1) if r.flip(0.4) else None
        kept = [n for n in names if sel is None or n in sel]
        tu = r.choice(['seconds', 'seconds', 'minutes', 'hours'])
        scale = {'seconds': 1, 'minutes': 60, 'hours': 3600}[tu]
        kw = {'time_units': tu} if tu != 'seconds' or r.flip() else {}
        on_store = r.flip(0.3)
        if on_store:
            kw['write_on_store'] = True
        if sel is not None:
            kw['store_names'] = sel if r.flip() else tuple(sel)
        aliases = {}
        if r.flip(0.4):
            n = r.choice(names)
            aliases = {n: 'short_%s' % len(n)}
            if not any(m != n and n in m for m in names):
                kw['aliases'] = aliases
            else:
                aliases = {}
        ren = {n: aliases.get(n, n) for n in names}
        if r.flip(0.2):         # another monitor which never writes
            other = must_work('construction', NetCDFMonitor, r.choice([fn, os.path.join(d, 'other.nc')]), **{k: v for k, v in kw.items() if k != 'write_on_store'})
            must_work('store', other.store, model_state(r, names, dims, L, units, timedelta(days=99), dtypes))
        M = must_work('construction', NetCDFMonitor, fn, **kw)
        start = r.choice([timedelta(0), timedelta(hours=5), datetime(2000, 1, 1), datetime(1999, 12, 31, 23)])
        cache = {}
        written = []
        ref = [None]
        r.note('monitor', kw, 'names', names, dims, units, dtypes, 'start', start)

        def flush():
            for t in sorted(cache):
                written.append((t, cache[t]))
            cache.clear()
        t = 0
        for i in range(r.randint(1, 7)):
            op = r.choice(['store', 'store', 'store', 'write', 'merge', 'reopen'])
            if op == 'reopen':
                if not cache and written:
                    M = must_work('construction', NetCDFMonitor, fn, **kw)
                continue
            if op == 'store' or (op == 'merge' and (not cache or on_store)):
                t += r.choice([1, 1, 2, 5, -1 if not on_store else 3]) * scale
                while any(x == start + timedelta(seconds=t) for x in list(cache) + [w for w, _ in written]):
                    t += scale
                st = model_state(r, names, dims, L, units, start + timedelta(seconds=t), dtypes)
                before = snapshot(st)
                expected = {ren[n]: st[n].copy(deep=True) for n in kept}
                split = r.flip(0.3) and len(kept) > 1 and not on_store
                if split:        # the same time stored in two parts
                    k = r.sample(kept, r.randint(1, len(kept) - 1))
                    must_work('store', M.store, {n: v for n, v in st.items() if n in k or n == 'time'})
                    must_work('store', M.store, {n: v for n, v in st.items() if n not in k or n == 'time'})
                else:
                    must_work('store', M.store, st)
                check_snapshot('store', before, st)
                cache[st['time']] = expected
                if on_store:
                    flush()
                elif r.flip(0.3):       # the model goes on to change its arrays
                    for n in names:
                        st[n].values[...] = 55
            elif op == 'merge':
                tt = r.choice(sorted(cache))
                n = r.choice(kept) if kept else None
                if n is None:
                    continue
                v = rand_da(r, dims[n], L, units[n], dtypes[n], **({'long_name': n + ' x'} if n in ('a', 'T') else {}))
                must_work('store', M.store, {n: v, 'time': tt})
                cache[tt] = dict(cache[tt])
                cache[tt][ren[n]] = v.copy(deep=True)
            else:
                must_work('write', M.write)
                flush()
        must_work('write', M.write)
        flush()
        if not written:
            return
        f = read_nc(fn)
        need(set(f) == {ren[n] for n in kept} | {'time'}, 'file holds %s, expected %s', sorted(f), sorted(ren[n] for n in kept))
        tv = f['time'][1]
        need(len(tv) == len(written), '%d times in the file, %d stored', len(tv), len(written))
        u = f['time'][2]['units']
        for i, (tm, vals) in enumerate(written):
            if isinstance(tm, timedelta):
                got = timedelta(seconds=int(tv[i]) * scale)
                need(u == tu, 'time units %r', u)
            else:
                got = nc4.num2date(tv[i], u, calendar='proleptic_gregorian', only_use_cftime_datetimes=False, only_use_python_datetimes=True)
            need(got == tm, 'time %d is %s, stored %s', i, got, tm)
            for n, v in vals.items():
                fd, fv, fa = f[n]
                need(fd == ('time',) + tuple(v.dims), '%s has dims %s', n, fd)
                need(np.array_equal(fv[i], v.values), '%s at time %d is %s, stored %s', n, i, fv[i], v.values)
                need(fa.get('units') == v.attrs['units'], '%s has units %r', n, fa.get('units'))


@case('C21', 2)
def netcdf_refusals(r):
    with scratch() as d:
        fn = os.path.join(d, 'out.nc')
        names = r.sample(NAMES, r.randint(1, 3))
        L = {'x': 2, 'y': 3, 'z': 3}
        dims = {n: r.some(['x', 'y'], 0, 2) for n in names}
        units = {n: pick_unit(r, pick_dim(r), odd=False) for n in names}
        M = must_work('construction', NetCDFMonitor, fn)
        n = r.choice(names)
        first = [model_state(r, names, dims, L, units, timedelta(seconds=i)) for i in range(r.randint(1, 2))]
        bad = model_state(r, names, dims, L, units, timedelta(seconds=10))
        fault = r.choice(['missing', 'extra', 'dims', 'units', 'nounits', 'shape', 'alias'])
        if fault == 'missing':
            del bad[n]
        elif fault == 'extra':
            bad['surplus'] = rand_da(r, [], L, 'm')
        elif fault == 'dims':
            nd = ['y', 'x'] if dims[n] == ['x', 'y'] else (['x', 'y'] if dims[n] == ['y', 'x'] else ['z'])
            bad[n] = rand_da(r, nd, L, units[n])
        elif fault == 'units':
            bad[n] = rand_da(r, dims[n], L, other_dim_unit(r, units[n]))
            if r.flip():
                alt = [x for x in UNITS if UNITS[x][0] == UNITS[units[n]][0] and x != units[n]]
                bad[n].attrs['units'] = r.choice(sorted(alt))
            bad[n].attrs.update({k: v for k, v in first[0][n].attrs.items() if k != 'units'})
        elif fault == 'nounits':
            del bad[n].attrs['units']
        elif fault == 'shape':
            if not dims[n]:
                return
            L2 = dict(L)
            L2[r.choice(dims[n])] = 4
            bad[n] = rand_da(r, dims[n], L2, units[n])
            bad[n].attrs.update(first[0][n].attrs)
        else:
            if len(names) < 2:
                return
            a, b = names[:2]
            M2 = NetCDFMonitor(os.path.join(d, 'o2.nc'), aliases={a: b})
            if a in b or b in a or any(a in x for x in names if x != a):
                return
            try:
                M2.store(first[0])
                M2.write()
            except Exception:
                return
            raise Violation('two quantities aliased to the same name were stored')
        later = r.flip()
        r.note('fault', fault, n, dims, units, 'after a write', later)
        for s in first:
            must_work('store', M.store, s)
        if later:
            must_work('write', M.write)
            old = read_nc(fn)
        try:
            M.store(bad)
            M.write()
        except Exception:
            if later:
                new = read_nc(fn)
                need(len(new['time'][1]) == len(old['time'][1]), 'the refused write left times in the file')
                for k in old:
                    need(np.array_equal(old[k][1], new[k][1]), 'the refused write changed %s', k)
            return
        raise Violation('a state with fault %s in %s was written' % (fault, n))


# ------------------------------------------------------------------ C22
def load_like(path):
    """the complete state in a file, or None"""
    try:
        f = read_nc(path)
        if 'time' not in f or len(f['time'][1]) != 1:
            return None
        return f
    except Exception:
        return None


def same_state(f, st):
    if f is None or set(f) != set(st):
        return False
    for n, v in st.items():
        if n == 'time':
            continue
        fd, fv, fa = f[n]
        if fd != ('time',) + tuple(v.dims) or fv.shape != (1,) + v.shape or not np.array_equal(fv[0], v.values) or fa != dict(v.attrs):
            return False
    return True


def restart_state(r, t):
    L = lengths(r, ['x', 'y', 'z'])
    st = {'time': t}
    for n in r.sample(NAMES, r.randint(1, 3)):
        st[n] = rand_da(r, r.some(['x', 'y', 'z'], 0, 3), L, pick_unit(r, pick_dim(r), odd=False), r.choice([float, 'f4', 'i4', 'i8']),
                        **({'long_name': 'n', 'calendar': 'q', 'level': 3.5} if r.flip(0.3) else {}))
        if r.flip(0.2) and st[n].dtype.kind == 'f' and st[n].values.size:
            st[n].values.flat[0] = np.nan
    return st


def rtime(r):
    return r.choice([timedelta(0), timedelta(days=400, seconds=3, microseconds=7), timedelta(seconds=r.uniform(0, 1e6)),
                     datetime(2000, 1, 1), datetime(2016, 2, 29, 23, 59, 59, 999999), datetime(1850, 6, 5, 4, 3, 2, 1)])


@case('C22', 2)
def restart_roundtrip(r):
    with scratch() as d:
        fn = os.path.join(d, 'restart.nc')
        M = must_work('construction', RestartMonitor, fn)
        for i in range(r.randint(1, 3)):
            st = restart_state(r, rtime(r))
            before = snapshot(st)
            must_work('store', (M if r.flip() else RestartMonitor(fn)).store, st)
            check_snapshot('store', before, st)
            need(sorted(os.listdir(d)) == ['restart.nc'], 'files left: %s', sorted(os.listdir(d)))
            got = must_work('load', (M if r.flip() else RestartMonitor(fn)).load)
            need(set(got) == set(st), 'loaded %s, stored %s', sorted(got), sorted(st))
            need(got['time'] == st['time'] and isinstance(got['time'], (timedelta, datetime)), 'loaded time %r, stored %r', got['time'], st['time'])
            for n, v in st.items():
                if n == 'time':
                    continue
                g = got[n]
                need(isinstance(g, DataArray), '%s is %r', n, type(g))
                need(tuple(g.dims) == tuple(v.dims), '%s: loaded dims %s, stored %s', n, g.dims, v.dims)
                need(np.array_equal(g.values, v.values, equal_nan=v.dtype.kind == 'f') and g.values.dtype == v.values.dtype, '%s: loaded %s, stored %s', n, g.values, v.values)
                ga = {k: (x if isinstance(x, str) else float(np.asarray(x))) for k, x in g.attrs.items()}
                need(ga == dict(v.attrs), '%s: loaded attributes %s, stored %s', n, dict(g.attrs), dict(v.attrs))


class Probe(object):
    """observes (and optionally fails) a store at every line of sympl code and every file operation"""

    def __init__(self, d, fail_at=None):
        self.d, self.n, self.fail_at, self.shots, self.last, self.active = d, 0, fail_at, [], None, False

    def listing(self):
        out = []
        for f in sorted(os.listdir(self.d)):
            s = os.stat(os.path.join(self.d, f))
            out.append((f, s.st_ino, s.st_size, s.st_mtime_ns))
        return out

    def point(self, what):
        if not self.active:
            return
        self.active = False
        try:
            cur = self.listing()
            if cur != self.last:
                self.last = cur
                shot = {}
                for f, *_ in cur:
                    with open(os.path.join(self.d, f), 'rb') as h:
                        shot[f] = h.read()
                self.shots.append((what, shot))
        finally:
            self.active = True
        self.n += 1
        if self.fail_at is not None and self.n == self.fail_at:
            raise OSError('injected failure at %s' % what)

    def trace(self, frame, event, arg):
        if 'sympl' not in frame.f_code.co_filename or 'sympl/_c' not in frame.f_code.co_filename.replace(os.sep, '/'):
            return None
        if event == 'line':
            self.point('%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        return self.trace


PROBE = [None]


def hook(event, args):
    if PROBE[0] is not None and PROBE[0].active and event in ('os.rename', 'os.remove', 'open', 'os.link', 'os.truncate', 'os.symlink',
                                                              'shutil.move', 'shutil.copyfile', 'os.unlink', 'os.chmod'):
        p = str(args[0])
        if event == 'open' and PROBE[0].d not in p:
            return
        PROBE[0].point('%s %s' % (event, os.path.basename(p)))


_hooked = []


def probed(d, f, fail_at=None):
    if not _hooked:
        sys.addaudithook(hook)
        _hooked.append(1)
    p = Probe(d, fail_at)
    PROBE[0] = p
    err = None
    old = sys.gettrace()
    p.active = True
    sys.settrace(p.trace)
    try:
        f()
    except OSError as e:
        err = e
    except Exception as e:
        err = e
    finally:
        sys.settrace(old)
        p.active = False
        PROBE[0] = None
    p.active = True
    try:
        p.fail_at = None
        p.point('end')
    finally:
        p.active = False
    return p, err


def shot_states(shot, d, prev, new):
    """which of prev/new each file of a snapshot holds completely"""
    out = {}
    for f, data in shot.items():
        q = os.path.join(d, 'probe_copy')
        with open(q, 'wb') as h:
            h.write(data)
        s = load_like(q)
        out[f] = 'new' if same_state(s, new) else ('prev' if prev is not None and same_state(s, prev) else 'partial')
        os.remove(q)
    return out


@case('C22', 2)
def restart_crash_points(r):
    with scratch() as d, scratch() as d2:
        fn = os.path.join(d, 'restart.nc')
        t = rtime(r)
        prev = restart_state(r, timedelta(seconds=5)) if r.flip(0.8) else None
        for st in (prev,):
            if st:
                for v in st.values():
                    if hasattr(v, 'values') and v.dtype.kind == 'f':
                        v.values[...] = np.nan_to_num(v.values)
        new = restart_state(r, t)
        for v in new.values():
            if hasattr(v, 'values') and v.dtype.kind == 'f':
                v.values[...] = np.nan_to_num(v.values)
        if prev is not None:
            must_work('store', RestartMonitor(fn).store, prev)
        if r.flip(0.2):
            # left by an earlier crash between the renames and the removal
            with open(fn + '.old', 'wb') as h:
                h.write(b'stale')
        M = RestartMonitor(fn)
        keep = {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d)}
        p, err = probed(d, lambda: M.store(new))
        need(err is None, 'store failed: %r', err)
        total_points = p.n
        def judge(shots, what):
            for where, shot in shots:
                have = shot_states(shot, d2, prev, new)
                names = {f: h for f, h in have.items() if f in ('restart.nc', 'restart.nc.old', 'restart.nc.new')}
                complete = [f for f, h in names.items() if h != 'partial']
                if prev is not None:
                    need(complete, '%s, at %s: no complete restart file (files %s)', what, where, have)
                    if not any(h == 'new' for h in names.values()):
                        need(have.get('restart.nc') == 'prev', '%s, at %s: the previous file is not in place although no new one is complete (%s)', what, where, have)
        judge(p.shots, 'store')
        last = shot_states(p.shots[-1][1], d2, prev, new)
        need(last == {'restart.nc': 'new'}, 'after a successful store: %s', last)
        # a failure at some points of the store
        for k in sorted(r.sample(range(1, total_points + 1), min(6, total_points))):
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))
            for f, data in keep.items():
                with open(os.path.join(d, f), 'wb') as h:
                    h.write(data)
            p2, err = probed(d, lambda: RestartMonitor(fn).store(new), fail_at=k)
            judge(p2.shots, 'store failing at point %d (%s)' % (k, err))
            if err is None:
                last = shot_states(p2.shots[-1][1], d2, prev, new)
                need(last.get('restart.nc') == 'new', 'store returned after an injected failure at point %d without storing: %s', k, last)


# ------------------------------------------------------------------ C25
@case('C25', 2)
def monitor_composite(r):
    log = []

    class Rec(Monitor):
        def __init__(self, i):
            self.i = i

        def store(self, state):
            log.append((self.i, state))
    n = r.randint(0, 4)
    ms = [Rec(i) for i in range(n)]
    if n and r.flip(0.3):
        ms.append(ms[0])
    C = must_work('construction', MonitorComposite, *ms)
    for k in range(3):
        st = {'time': timedelta(seconds=k), 'a': rand_da(r, ['x'], {'x': 2}, 'm')}
        del log[:]
        before = snapshot(st)
        must_work('store', C.store, st)
        check_snapshot('store', before, st)
        need([i for i, _ in log] == [m.i for m in ms], 'monitors called: %s, expected %s', [i for i, _ in log], [m.i for m in ms])
        for i, s in log:
            need(s is st or (set(s) == set(st) and all(deep_equal(s[k], st[k]) for k in st)), 'monitor %d was given another state', i)
    must_raise(TypeError, 'something which is not a monitor', MonitorComposite, *(ms + [object()]))


@case('C25', 1)
def plot_monitor(r):
    import matplotlib
    matplotlib.use('Agg')
    seen = []

    def plot(fig, state):
        seen.append({k: (v.copy(deep=True) if hasattr(v, 'attrs') else v) for k, v in state.items()})
        for k in list(state):
            if hasattr(state[k], 'attrs'):
                if state[k].values.size:
                    state[k].values[...] = -1
                state[k].attrs['units'] = 'spoiled'
                state[k].attrs['new'] = 1
        state.pop('time')
        state['x'] = 3
    M = must_work('construction', PlotFunctionMonitor, plot, interactive=r.flip())
    st = None
    for k in range(3):
        if st is not None and r.flip():        # the same dictionary and arrays, changed in place
            st['a'].values[...] += 7.
            if r.flip():
                st['b'].attrs['units'] = 'Pa'
        else:
            st = {'time': datetime(2000, 1, 1 + k), 'a': rand_da(r, ['x'], {'x': 2}, 'm', long_name='q'), 'b': rand_da(r, [], {}, 'K'), 'flag': 3}
        orig = {q: (v.copy(deep=True) if hasattr(v, 'attrs') else v) for q, v in st.items()}
        before = snapshot(st)
        must_work('store', M.store, st)
        check_snapshot('PlotFunctionMonitor.store', before, st)
        need(len(seen) == k + 1, 'the plot function ran %d times', len(seen))
        need(set(seen[-1]) == set(orig) and all(deep_equal(seen[-1][q], orig[q]) for q in orig), 'the plot function was given another state')
    import matplotlib.pyplot as plt
    plt.close('all')


@case('C05', 1)
def monitors_leave_state(r):
    with scratch() as d:
        st = restart_state(r, rtime(r))
        which = r.choice(['nc', 'ncw', 'restart', 'both'])
        before = snapshot(st)
        if which in ('nc', 'ncw'):
            n = r.choice([k for k in st if k != 'time'])
            M = NetCDFMonitor(os.path.join(d, 'a.nc'), write_on_store=which == 'ncw', aliases={n: 'zzz'} if r.flip() else None,
                              store_names=[n] if r.flip() else None)
        elif which == 'restart':
            M = RestartMonitor(os.path.join(d, 'a.nc'))
        else:
            M = MonitorComposite(NetCDFMonitor(os.path.join(d, 'a.nc')), RestartMonitor(os.path.join(d, 'b.nc')))
        must_work('store', M.store, st)
        check_snapshot('store', before, st)
        if which in ('nc',):
            must_work('write', M.write)
            check_snapshot('write', before, st)
