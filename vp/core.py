"""Symbolic execution / verification-condition core.

The verified text is the real source under /repo (see loader.py for the only
transformation applied).  CPython executes it on symbolic values; every path is
explored by re-execution with recorded decisions, every branch is decided by
the SMT solver, loops over unbounded collections are cut by a summary that is
synthesised from an arbitrary iteration and then *proved* to be preserved from
an arbitrary mid-loop state, and every postcondition is an SMT obligation.
"""
import sys, time, ctypes, subprocess, tempfile, os, re
from fractions import Fraction
import z3

Str = z3.DeclareSort('Str')
Dims = z3.DeclareSort('Dims')
Unit = z3.DeclareSort('Unit')
Opaque = z3.DeclareSort('Opaque')
Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(BaseException):
    """Construct outside the verifier's subset: obligation undecided."""


class PathEnd(BaseException):
    """The current path is infeasible or has been cut."""

    def __init__(self, *a):
        BaseException.__init__(self, *a)
        E.cutting = True


class Obligation(object):
    def __init__(self, contract, name, status, secs, backend, detail=''):
        self.contract, self.name, self.status = contract, name, status
        self.secs, self.backend, self.detail = secs, backend, detail

    def key(self):
        return '%s :: %s' % (self.contract, self.name)


class _Absent(object):
    def __repr__(self):
        return 'ABSENT'


ABSENT = _Absent()
MISS = object()


# =========================================================================
class Engine(object):
    MAX_PATHS = 30000

    def __init__(self):
        self.obligations = []
        self.solver_time = 0.0
        self.queries = 0
        self.contract = '?'
        self.covers = {}
        self.path_count = 0
        self.timeout = 10000
        self.deadline = None
        self.active = False
        self.loops_total = 0
        self.muted = False
        self.bound = 0
        self.notes = []
        self.enough = None        # which obligations decide the answer when they fail

    # ------------------------------------------------------------ exploration
    def explore(self, fn, label):
        """Run fn() on every feasible path."""
        self.contract = label
        self.loops = {}
        self.known_lits = {}
        self.pending = [[]]
        n = 0
        seen, failures = len(self.obligations), 0
        try:
            while self.pending:
                prefix = self.pending.pop()
                n += 1
                self.path_count += 1
                if n > self.MAX_PATHS:
                    raise Unsupported('more than %d paths' % self.MAX_PATHS)
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time budget exhausted')
                self._begin(prefix)
                try:
                    fn()
                except PathEnd:
                    pass
                if self.enough is not None:
                    failures += sum(1 for o in self.obligations[seen:] if self.enough(o))
                    seen = len(self.obligations)
                    if failures >= 3 and self.pending:
                        self.notes.append('stopped after %d failed obligations' % failures)
                        break
        except Unsupported as e:
            self.record('within the verified subset', 'unknown', 0, '-', 'unsupported: %s' % (e,))
        finally:
            self.active = False
        return n

    def _begin(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        self.ns = ''
        self.ctr = {}
        self.idx = []
        self.node = Node(None, None)
        self.live_lists = []
        self.instances = []
        self.done = []            # completed loops (lazy universal facts)
        self.lit_seen = {}
        self.tmpl_inst = []
        self.phase1 = 0
        self.leaving = False
        self.cutting = False
        self.active = True
        self.facts_done = set()
        self.assumed = {}
        self.case_memo = {}
        self.lid = z3.Function('lid', Str, Int)
        self.ghost = {}
        for s in list(self.known_lits):
            self.lit(s)
        for h in PATH_HOOKS:
            h()

    # ------------------------------------------------------------ solver
    def check(self, *extra):
        t0 = time.time()
        self.queries += 1
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            self.solver.pop()
        else:
            r = self.solver.check()
        self.solver_time += time.time() - t0
        return r

    def add(self, kind, t):
        self.pc.append((kind, t))
        self.solver.add(t)

    def assume(self, t):
        i0 = t.get_id()
        if i0 in self.assumed:
            return
        t0, t = t, z3.simplify(t)
        seen = t.get_id() in self.assumed
        self.assumed[i0] = t0         # keeps the term alive: ids are not reused
        if seen or z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathEnd()
        self.assumed[t.get_id()] = t
        self.add('assume', t)

    def require(self, t):
        """assume, and cut the path when it is contradictory"""
        self.assume(t)
        if self.pos >= len(self.prefix) and self.check() == z3.unsat:
            raise PathEnd()

    def branch(self, t):
        if self.leaving:
            raise PathEnd()
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.pos < len(self.prefix):
            d, forced = self.prefix[self.pos]
            self.pos += 1
        else:
            rt = self.check(t)
            rf = self.check(z3.Not(t)) if rt != z3.unsat else z3.sat
            if rt == z3.unsat:
                if self.check(z3.Not(t)) == z3.unsat:
                    raise PathEnd()
                d, forced = False, True
            elif rf == z3.unsat:
                d, forced = True, True
            else:
                d, forced = True, False
                if BRSITES is not None:
                    _site(t)
                self.pending.append(self.trace + [(False, False)])
        self.trace.append((d, forced))
        if not forced:
            self.add('branch', t if d else z3.Not(t))
        return d

    def choose(self, n, tag='c'):
        """Nondeterministic choice among n alternatives (explored in order)."""
        if self.leaving:
            raise PathEnd()
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            d = (tag, 0)
            for k in range(n - 1, 0, -1):
                self.pending.append(self.trace + [(tag, k)])
        self.trace.append(d)
        return d[1]

    def must(self, t):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return self.check() == z3.unsat
        return self.check(z3.Not(t)) == z3.unsat

    # ------------------------------------------------------------ obligations
    def record(self, name, status, secs, backend, detail=''):
        if self.muted:
            return
        self.obligations.append(Obligation(self.contract, name, status, secs, backend, detail))

    def prove(self, name, t, detail=''):
        """Obligation: pc => t."""
        detail = detail if isinstance(detail, str) else repr(detail)
        if self.phase1:
            return True
        if t is True:
            self.record(name, 'proved', 0.0, 'simplify')
            return True
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        t0 = time.time()
        t = z3.simplify(t)
        if z3.is_true(t):
            self.record(name, 'proved', 0.0, 'simplify')
            return True
        r = self.check(z3.Not(t))
        secs = time.time() - t0
        if r == z3.unsat:
            self.record(name, 'proved', secs, 'z3')
            return True
        if r == z3.sat:
            self.solver.push(); self.solver.add(z3.Not(t)); self.solver.check()
            m = self.solver.model(); self.solver.pop()
            md = '; '.join('%s=%s' % (d, m[d]) for d in list(m.decls())[:60]
                           if d.arity() == 0 or True)[:3000]
            self.record(name, 'failed', secs, 'z3', detail + ' goal: %s\ncounter-model: %s' % (str(t)[:1500], md))
            return False
        r = self.cvc5(t)
        secs = time.time() - t0
        if r == 'unsat':
            self.record(name, 'proved', secs, 'cvc5')
            return True
        self.record(name, 'failed' if r == 'sat' else 'unknown', secs, 'cvc5', detail + ' goal: %s' % str(t)[:1500])
        return False

    def cvc5(self, goal):
        s = z3.Solver()
        for a in self.solver.assertions():
            s.add(a)
        s.add(z3.Not(goal))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=15000', f.name], capture_output=True, text=True, timeout=30)
            return p.stdout.strip().split('\n')[0] if p.stdout else 'error'
        except Exception as e:
            return 'error'
        finally:
            os.unlink(f.name)

    def fail(self, name, detail=''):
        """The path is an obligation failure unless infeasible."""
        return self.prove(name, z3.BoolVal(False), detail)

    def cover(self, name):
        """Anti-vacuity: this point must be reachable with consistent facts."""
        if self.phase1:
            return
        k = (self.contract, name)
        if self.covers.get(k):
            return
        self.covers[k] = self.check() == z3.sat

    # ------------------------------------------------------------ symbols
    def name(self, hint):
        n = self.ctr.get(self.ns, 0) + 1
        self.ctr[self.ns] = n
        return '%s!%s%d' % (hint, self.ns, n)

    def fresh(self, hint, sort):
        n = self.name(hint)
        if self.idx:
            return z3.Function(n, *([i.sort() for i in self.idx] + [sort]))(*self.idx)
        return z3.Const(n, sort)

    # ------------------------------------------------------------ strings
    def lit(self, s):
        if s not in self.lit_seen:
            c = z3.Const('lit:' + s, Str)
            self.lit_seen[s] = c
            self.known_lits[s] = True
            k = LIT_IDS.setdefault(s, len(LIT_IDS))
            LIT_OF[c.get_id()] = s
            _KEEP.append(c)
            self.add('assume', self.lid(c) == k)
            for parts, term in self.tmpl_inst:
                if not _tmpl_match(parts, s):
                    self.add('assume', term != c)
        return self.lit_seen[s]

    def tmpl(self, parts, args):
        """String concatenation of literal parts around symbolic args."""
        n = len(args)
        if n == 1 and parts == ('', ''):
            return args[0]
        sig = '{}'.join(parts)
        f = z3.Function('fmt:' + sig, *([Str] * (n + 1)))
        t = f(*args)
        if any(p == parts and z3.eq(u, t) for p, u in self.tmpl_inst):
            return t
        for h in range(n):
            inv = z3.Function('inv%d:%s' % (h, sig), *([Str] * (n + 1)))
            self.add('assume', inv(t, *[a for i, a in enumerate(args) if i != h]) == args[h])
        for s, c in self.lit_seen.items():
            if not _tmpl_match(parts, s):
                self.add('assume', t != c)
        if n == 1 and any(parts):
            self.add('assume', t != args[0])
        for p2, u in self.tmpl_inst:
            if p2 != parts and not _compatible(p2, parts):
                self.add('assume', t != u)
        self.tmpl_inst.append((parts, t))
        return t


def _tmpl_match(parts, s):
    return re.fullmatch('.*'.join(re.escape(p) for p in parts), s, re.S) is not None


def _compatible(p, q):
    a, b = p[0], q[0]
    if not (a.startswith(b) or b.startswith(a)):
        return False
    a, b = p[-1], q[-1]
    return a.endswith(b) or b.endswith(a)


BRSITES = {} if os.environ.get('BR') else None


def _site(t):
    f = sys._getframe(2)
    out = []
    while f is not None and len(out) < 4:
        fn = f.f_code.co_filename
        if '/sympl/' in fn or 'contracts' in fn:
            out.append('%s:%d' % (os.path.basename(fn), f.f_lineno))
        f = f.f_back
    k = ' '.join(out) + ' :: ' + str(t)[:70]
    BRSITES[k] = BRSITES.get(k, 0) + 1


LIT_IDS = {}
CURRENT_CLASS = {}
LIT_OF = {}
_KEEP = []
PATH_HOOKS = []
E = Engine()


# =========================================================================
# references and the store
class Ref(object):
    """('alloc', name, args) - object created by the code;
       ('fam', Family, args) - object supplied by the environment."""
    __slots__ = ('kind', 'base', 'args')

    def __init__(self, kind, base, args):
        self.kind, self.base, self.args = kind, base, tuple(args)

    def sub(self, f):
        if not self.args:
            return self
        return Ref(self.kind, self.base, [f(a) for a in self.args])

    def may(self, o):
        return self.kind == o.kind and (self.base.name == o.base.name if self.kind == 'fam'
                                        else self.base == o.base)

    def eq(self, o):
        """z3 term or bool: same object (families are injective and disjoint)"""
        if not self.may(o):
            return False
        if not self.args:
            return True
        return z3.And(*[a == b for a, b in zip(self.args, o.args)])

    def __repr__(self):
        return '%s%s' % (self.base if self.kind == 'alloc' else self.base.name, self.args or '')


class Family(object):
    """Environment-supplied objects; read(args, key) gives a field / entry."""

    def __init__(self, name, read):
        self.name, self.read = name, read

    def ref(self, *args):
        return Ref('fam', self, args)


def alloc(hint='o'):
    r = Ref('alloc', E.name(hint), tuple(E.idx))
    push(New(r))
    return r


class Node(object):
    __slots__ = ('layer', 'prev', 'depth')

    def __init__(self, layer, prev):
        self.layer, self.prev = layer, prev
        self.depth = 0 if prev is None else prev.depth + 1


def push(layer):
    E.node = Node(layer, E.node)


class Layer(object):
    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join(
            repr(getattr(getattr(self, n), '_ref', getattr(self, n))) for n in ('ref', 'key', 'val', 'src') if hasattr(self, n)))


class New(Layer):
    def __init__(self, ref):
        self.ref = ref

    def sub(self, f, stop):
        return New(self.ref.sub(f))

    def pats(self):
        return [(self.ref, None)]

    def eq(self, o):
        return self.ref.eq(o.ref)


class W(Layer):
    def __init__(self, ref, key, val):
        self.ref, self.key, self.val = ref, key, val

    def sub(self, f, stop):
        return W(self.ref.sub(f), f(self.key), sub_value(self.val, f))

    def pats(self):
        return [(self.ref, self.key)]

    def eq(self, o):
        return conj(self.ref.eq(o.ref), self.key == o.key, same_value(self.val, o.val))


class Copy(Layer):
    """update=False: ref becomes a copy of src@snap; True: entries overlaid."""

    def __init__(self, ref, src, snap, update):
        self.ref, self.src, self.snap, self.update = ref, src, snap, update

    def sub(self, f, stop):
        return Copy(self.ref.sub(f), self.src.sub(f), sub_node(self.snap, f, stop), self.update)

    def pats(self):
        return [(self.ref, None)]

    def eq(self, o):
        return conj(self.ref.eq(o.ref), self.src.eq(o.src), self.update == o.update)


class Case(object):
    __slots__ = ('conds', 'assumes', 'layers', 'lists')

    def __init__(self, conds, assumes, layers, lists):
        self.conds, self.assumes, self.layers, self.lists = conds, assumes, layers, lists

    def cond(self):
        return z3.And(*self.conds) if self.conds else z3.BoolVal(True)


class LoopRec(object):
    def __init__(self, lid, ns, coll, start):
        self.lid, self.ns, self.coll, self.start = lid, ns, coll, start
        self.index = None
        self.cases = []
        self.exits = []          # (conds, assumes)
        self.muts = []
        self.fold = None
        self.lookups = []


class Bulk(Layer):
    def __init__(self, rec, index, cases, P, exits):
        self.rec, self.index, self.cases, self.P, self.exits = rec, index, cases, P, exits

    def sub(self, f, stop):
        cs = []
        for c in self.cases:
            cs.append(Case([f(x) for x in c.conds], [f(x) for x in c.assumes],
                           [l.sub(f, stop) for l in c.layers],
                           {k: [sub_value(v, f) for v in vs] for k, vs in c.lists.items()}))
        P = None if self.P is None else (self.P[0], [f(a) for a in self.P[1]])
        return Bulk(self.rec, f(self.index), cs, P, [f(x) for x in self.exits])

    def done(self, t):
        return None if self.P is None else self.P[0](*(self.P[1] + [t]))

    def pats(self):
        out = []
        for c in self.cases:
            for l in c.layers:
                out.extend(l.pats())
        return out

    def eq(self, o):
        if len(self.cases) != len(o.cases):
            return False
        ts = [self.index == o.index]
        for a, b in zip(self.cases, o.cases):
            if len(a.layers) != len(b.layers):
                return False
            ts.append(a.cond() == b.cond())
            for x, y in zip(a.layers, b.layers):
                if type(x) is not type(y):
                    return False
                ts.append(x.eq(y))
        return conj(*ts)


def conj(*ts):
    out = []
    for t in ts:
        if isinstance(t, bool):
            if not t:
                return False
        else:
            out.append(t)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def disj(*ts):
    out = []
    for t in ts:
        if isinstance(t, bool):
            if t:
                return True
        else:
            out.append(t)
    if not out:
        return False
    return z3.Or(*out) if len(out) > 1 else out[0]


def sub_node(node, f, stop):
    if stop is None or node.depth <= stop.depth:
        return node
    return Node(node.layer.sub(f, stop), sub_node(node.prev, f, stop))


class Inv(Layer):
    """Content of ref given by a user-supplied invariant at iteration j."""

    def __init__(self, ref, spec, j):
        self.ref, self.spec, self.j = ref, spec, j

    def sub(self, f, stop):
        return Inv(self.ref.sub(f), self.spec, f(self.j))

    def pats(self):
        return [(self.ref, None)]

    def eq(self, o):
        return conj(self.ref.eq(o.ref), self.spec is o.spec, self.j == o.j)


def substituter(pairs):
    memo = {}

    def f(t):
        i = t.get_id()
        r = memo.get(i)
        if r is None:
            r = memo[i] = (z3.substitute(t, *pairs), t)
        return r[0]
    return f


def read(ref, key, node=None):
    """Current (or snapshot) value of ref[key]; branches on undecided cases."""
    n = E.node if node is None else node
    while n.layer is not None:
        v = read_layer(n.layer, ref, key)
        if v is not MISS:
            return v
        n = n.prev
    if ref.kind == 'fam':
        return ref.base.read(ref.args, key)
    raise Unsupported('read of unallocated object %r' % (ref,))


def read_layer(L, ref, key):
    if isinstance(L, Bulk):
        return bulk_read(L, ref, key)
    if not L.ref.may(ref):
        return MISS
    t = type(L)
    if t is W:
        if E.branch(conj(L.ref.eq(ref), L.key == key)):
            return L.val
        return MISS
    if not E.branch(L.ref.eq(ref)):
        return MISS
    if t is New:
        return ABSENT
    if t is Copy:
        v = read(L.src, key, L.snap)
        if v is ABSENT and L.update:
            return MISS
        return v
    if t is Inv:
        return L.spec.read(L.j, key)
    raise Unsupported('layer')


def mentions(t, i):
    """does term t contain i as a subterm"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if z3.eq(x, i):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
    return False


def unify(p, t, i):
    """find u with p[i:=u] syntactically t"""
    if z3.eq(p, i):
        return t
    if not mentions(p, i):
        return None
    if z3.is_app(p) and z3.is_app(t) and p.decl().eq(t.decl()):
        for a, b in zip(p.children(), t.children()):
            u = unify(a, b, i)
            if u is not None:
                return u
    return None


def bulk_candidates(B, ref, key):
    i = B.index
    cands, general = [], False
    for pref, pkey in B.pats():
        if not pref.may(ref):
            continue
        t = None
        exact = False
        for a, b in zip(pref.args, ref.args):
            if z3.eq(a, i):
                t, exact = b, True
                break
        if t is None:
            for a, b in zip(pref.args, ref.args):
                u = unify(a, b, i)
                if u is not None:
                    t, exact = u, True     # skolem functions of the index: injective by construction
                    break
        if t is None and pkey is not None and key is not None:
            if z3.eq(pkey, i):
                t, exact = key, True
            else:
                if not mentions(pkey, i) and not pkey.eq(key):
                    # constant key: can it match at all?
                    if _lits_differ(pkey, key):
                        continue
                t = unify(pkey, key, i)
        if t is not None and t.sort() == i.sort():
            if not any(z3.eq(t, c) for c in cands):
                cands.append(t)
        if not exact:
            general = True
    return cands, general


def _lits_differ(a, b):
    x, y = LIT_OF.get(a.get_id()), LIT_OF.get(b.get_id())
    return x is not None and y is not None and x != y


def bulk_read(B, ref, key):
    if not any(p.may(ref) for p, _ in B.pats()):
        return MISS
    cands, general = bulk_candidates(B, ref, key)
    for n, t in enumerate(cands):
        v = bulk_at(B, t, ref, key)
        if v is not MISS:
            for u in cands[n + 1:]:
                if E.branch(u == t):
                    continue
                if bulk_at(B, u, ref, key) is not MISS:
                    raise Unsupported('order-dependent writes in a loop')
            return v
    if general:
        pre = list(ref.args) + ([] if B.P is None else list(B.P[1]))
        tag = '%s:%s' % (B.rec.lid, ref.base if ref.kind == 'alloc' else ref.base.name)
        w = z3.Function('wr!' + tag, *([a.sort() for a in pre] + [key.sort(), Bool]))(*(pre + [key]))
        g = z3.Function('wi!' + tag, *([a.sort() for a in pre] + [key.sort(), B.index.sort()]))(*(pre + [key]))
        if B.P is not None and not ref.args:
            if not any(z3.eq(w, x[0]) for x in B.rec.lookups):
                B.rec.lookups.append((w, key, B, ref, g))
        if E.branch(w):
            v = bulk_at(B, g, ref, key)
            if v is MISS:
                raise PathEnd()
            return v
    return MISS


def order_facts(a, b):
    """The iterations of a completed loop are ordered: for elements a, b one came first, and the later one
    saw what the earlier one had written."""
    for B, coll in list(E.done):
        rec = B.rec
        if rec.index is None or rec.index.sort() != a.sort() or not rec.lookups:
            continue
        if not (coll.member(a) and coll.member(b)) or E.branch(a == b):
            continue
        first = {}
        for w, key, L, ref, g in list(rec.lookups):
            i = rec.index
            for x, y in ((a, b), (b, a)):          # y before x
                fx, fy = substituter([(i, x)]), substituter([(i, y)])
                before = fx(L.P[0](*(L.P[1] + [y])))
                first.setdefault(before.get_id(), before)
                hits = []
                gx = fx(g)
                fg = substituter([(i, gx)])
                for c in rec.cases:
                    for l in c.layers:
                        if isinstance(l, W) and l.ref.may(ref) and l.val is not ABSENT:
                            hits.append(z3.And(fx(L.P[0](*(L.P[1] + [gx]))), fg(c.cond()), fg(l.key) == fx(key)))
                            E.assume(z3.Implies(z3.And(before, fy(c.cond()), fy(l.key) == fx(key)), fx(w)))
                E.assume(z3.Implies(fx(w), z3.Or(*hits)))
        if first:
            E.assume(z3.Or(*first.values()))
        enter_case(B, a)
        enter_case(B, b)


def enter_case(B, t):
    """Decide which case (if any) iteration t was; assume its facts."""
    mk = (id(B), t.get_id())
    hit = E.case_memo.get(mk)
    if hit is not None:
        return hit[:2]
    r = _enter_case(B, t)
    E.case_memo[mk] = r + (B, t)
    return r


def _enter_case(B, t):
    f = substituter([(B.index, t)])
    for e in B.exits:
        E.assume(z3.Not(f(e)))
    for c in B.cases:
        cond = f(c.cond())
        if B.P is not None:
            cond = z3.And(B.done(t), cond)
        if E.branch(cond):
            for a in c.assumes:
                E.assume(f(a))
            return c, f
    return None, f


def bulk_at(B, t, ref, key):
    c, f = enter_case(B, t)
    if c is None:
        return MISS
    for l in c.layers:
        v = read_layer(l.sub(f, B.rec.start), ref, key)
        if v is not MISS:
            return v
    return MISS


# =========================================================================
# values
class Sym(object):
    __slots__ = ()


def lift_real(x):
    if isinstance(x, SReal):
        return x.t
    if isinstance(x, SInt):
        return z3.ToReal(x.t)
    if isinstance(x, SBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        return z3.RealVal(str(rational(x)))
    return None


def rational(x):
    """The simplest rational that rounds to the float (1./3 means 1/3)."""
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('non-finite float literal')
    fr = Fraction(x)
    d = 1
    while d < 10 ** 7:
        c = fr.limit_denominator(d)
        if float(c) == x:
            return c
        d *= 10
    return fr


class SBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = z3.BoolVal(t) if isinstance(t, bool) else t

    def __bool__(self):
        return E.branch(self.t)

    def __and__(self, o):
        return SBool(z3.And(self.t, as_bool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.t, as_bool(o)))
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def __eq__(self, o):
        return SBool(self.t == as_bool(o))

    def __ne__(self, o):
        return SBool(self.t != as_bool(o))

    def all(self):
        return self

    def any(self):
        return self

    __hash__ = None


def as_bool(o):
    return o.t if isinstance(o, SBool) else z3.BoolVal(bool(o))


class SReal(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f):
        b = lift_real(o)
        if b is None:
            return NotImplemented
        return SReal(f(self.t, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o):
        b = lift_real(o)
        if b is None:
            return NotImplemented
        if E.branch(b == 0):
            raise ZeroDivisionError('division by zero')
        return SReal(self.t / b)
    def __rtruediv__(self, o):
        if E.branch(self.t == 0):
            raise ZeroDivisionError('division by zero')
        return self._bin(o, lambda a, b: b / a)
    def __neg__(self): return SReal(-self.t)
    def __pos__(self): return self
    def __abs__(self): return SReal(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, n):
        if isinstance(n, int) and 0 <= n <= 6:
            r = z3.RealVal(1)
            for _ in range(n):
                r = r * self.t
            return SReal(r)
        return NotImplemented

    def _cmp(self, o, f):
        b = lift_real(o)
        if b is None:
            return NotImplemented
        return SBool(f(self.t, b))

    def __eq__(self, o):
        b = lift_real(o)
        return False if b is None else SBool(self.t == b)

    def __ne__(self, o):
        b = lift_real(o)
        return True if b is None else SBool(self.t != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __bool__(self): return E.branch(self.t != 0)
    def __float__(self): raise Unsupported('float() of a symbolic real in C code')
    def __int__(self): raise Unsupported('int() of a symbolic real')
    def __hash__(self): raise Unsupported('hash of symbolic real')


class SInt(SReal):
    """Symbolic integer; t has sort Int."""
    __slots__ = ()

    def _bin(self, o, f):
        if isinstance(o, SInt):
            return SInt(f(self.t, o.t))
        if isinstance(o, bool) or isinstance(o, int):
            return SInt(f(self.t, z3.IntVal(int(o))))
        b = lift_real(o)
        if b is None:
            return NotImplemented
        return SReal(f(z3.ToReal(self.t), b))

    def _cmp(self, o, f):
        if isinstance(o, SInt):
            return SBool(f(self.t, o.t))
        if isinstance(o, int):
            return SBool(f(self.t, z3.IntVal(o)))
        b = lift_real(o)
        if b is None:
            return NotImplemented
        return SBool(f(z3.ToReal(self.t), b))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __index__(self):
        raise Unsupported('symbolic integer used as an index')

    def __hash__(self): raise Unsupported('hash of symbolic int')


class SStr(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        k = as_key(o, soft=True)
        return False if k is None else SBool(self.t == k)

    def __ne__(self, o):
        k = as_key(o, soft=True)
        return True if k is None else SBool(self.t != k)

    def __hash__(self):
        raise Unsupported('symbolic string used as a key of a native dict/set')

    def __bool__(self):
        return E.branch(self.t != E.lit(''))

    def __add__(self, o):
        return sstr_concat([self, o])

    def __radd__(self, o):
        return sstr_concat([o, self])

    def __format__(self, spec):
        return token(self)

    def __str__(self):
        return token(self)

    __repr__ = __str__

    def __contains__(self, o):
        if isinstance(o, str):
            return E.branch(z3.Function('contains:' + o, Str, Bool)(self.t))
        raise Unsupported('symbolic substring test')

    def __len__(self):
        raise Unsupported('len of symbolic string')

    def _uf(self, name, args, sort):
        if all(isinstance(a, str) for a in args):
            return z3.Function('str.%s(%s)' % (name, ','.join(args)), Str, sort)(self.t)
        raise Unsupported('str.%s with symbolic arguments' % name)

    def replace(self, a, b, *n):
        r = self._uf('replace', (a, b), Str)
        if isinstance(a, str):
            # no occurrence: unchanged
            c = z3.Function('contains:' + a, Str, Bool)(self.t)
            E.assume(z3.Implies(z3.Not(c), r == self.t))
        for h in STR_HOOKS:
            h('replace', (a, b), self.t, r)
        return SStr(r)

    def lower(self): return SStr(self._uf('lower', (), Str))
    def upper(self): return SStr(self._uf('upper', (), Str))
    def _strip(self, name, a):
        if a and a != (None,) and a != (' ',):
            return SStr(self._uf(name, a, Str))
        # assumption: strings supplied by the environment have no surrounding whitespace
        lits, args = [''] * 2, [self.t]
        if z3.is_app(self.t) and self.t.decl().name().startswith('fmt:'):
            lits, args = self.t.decl().name()[4:].split('{}'), list(self.t.children())
        if name != 'rstrip':
            lits[0] = lits[0].lstrip()
            while args and not lits[0] and E.branch(args[0] == E.lit('')):
                args.pop(0)
                lits[:2] = [lits[1].lstrip()]
        if name != 'lstrip':
            lits[-1] = lits[-1].rstrip()
            while args and not lits[-1] and E.branch(args[-1] == E.lit('')):
                args.pop()
                lits[-2:] = [lits[-2].rstrip()]
        if not args:
            return lits[0]
        return SStr(args[0]) if lits == ['', ''] else SStr(E.tmpl(tuple(lits), args))

    def strip(self, *a): return self._strip('strip', a)
    def lstrip(self, *a): return self._strip('lstrip', a)
    def rstrip(self, *a): return self._strip('rstrip', a)
    def startswith(self, s): return SBool(self._uf('startswith', (s,), Bool))
    def endswith(self, s): return SBool(self._uf('endswith', (s,), Bool))

    def format(self, *a, **k):
        raise Unsupported('symbolic format string')

    def join(self, *a):
        raise Unsupported('symbolic separator')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic string')


STR_HOOKS = []
TOKENS = []


def token(s):
    TOKENS.append(s)
    return '\x00%d\x00' % (len(TOKENS) - 1)


def sstr_concat(parts):
    lits, args = [''], []
    for p in parts:
        if isinstance(p, SStr):
            args.append(p.t)
            lits.append('')
        elif isinstance(p, str):
            bits = p.split('\x00')
            for n, b in enumerate(bits):
                if n % 2 == 0:
                    lits[-1] += b
                else:
                    s = TOKENS[int(b)]
                    if not isinstance(s, SStr):
                        raise Unsupported('non-string token')
                    args.append(s.t)
                    lits.append('')
        else:
            raise TypeError('can only concatenate str')
    if not args:
        return lits[0]
    # literal arguments are folded in
    out_l, out_a = [lits[0]], []
    for a, l in zip(args, lits[1:]):
        s = LIT_OF.get(a.get_id())
        if s is not None:
            out_l[-1] += s + l
        elif z3.is_app(a) and a.decl().name().startswith('fmt:'):
            sub = a.decl().name()[4:].split('{}')
            out_l[-1] += sub[0]
            for c, piece in zip(a.children(), sub[1:]):
                out_a.append(c)
                out_l.append(piece)
            out_l[-1] += l
        else:
            out_a.append(a)
            out_l.append(l)
    if not out_a:
        return out_l[0]
    return SStr(E.tmpl(tuple(out_l), out_a))


def as_key(k, soft=False):
    """z3 term of sort Str for a dictionary key."""
    if isinstance(k, SStr):
        return k.t
    if isinstance(k, str):
        if '\x00' in k:
            r = sstr_concat([k])
            return r.t if isinstance(r, SStr) else E.lit(r)
        return E.lit(k)
    if soft:
        return None
    if k is None or isinstance(k, (int, bool, tuple, float)):
        return E.lit('\x01%r' % (k,))
    raise Unsupported('dictionary key of type %s' % type(k).__name__)


def from_key(t):
    s = LIT_OF.get(t.get_id())
    if s is not None and not s.startswith('\x01'):
        return s
    if s is not None:
        return eval(s[1:])
    return SStr(t)


class SVal(Sym):
    """Opaque immutable value (dims specification, coordinates, ...)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, SVal) and o.t.sort() == self.t.sort():
            return SBool(self.t == o.t)
        return False

    def __ne__(self, o):
        if isinstance(o, SVal) and o.t.sort() == self.t.sort():
            return SBool(self.t != o.t)
        return True

    def __hash__(self):
        raise Unsupported('hash of opaque value')

    def __format__(self, spec):
        return token(self)
    __str__ = __repr__ = lambda self: token(self)


class SDims(SVal):
    """A declared dims specification / an array's dims: opaque sequence of names."""
    __slots__ = ()

    def __contains__(self, o):
        return E.branch(z3.Function('in_dims', Str, Dims, Bool)(as_key(o), self.t))

    def __iter__(self):
        raise Unsupported('iteration over opaque dims')

    def __len__(self):
        raise Unsupported('len of opaque dims')


class STime(Sym):
    """A time (datetime-like), as real seconds since an arbitrary epoch."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __sub__(self, o):
        if isinstance(o, STime):
            return STd(self.t - o.t)
        s = td_secs(o)
        return NotImplemented if s is None else STime(self.t - s)

    def __add__(self, o):
        s = td_secs(o)
        return NotImplemented if s is None else STime(self.t + s)
    __radd__ = __add__

    def _c(self, o, f):
        if not isinstance(o, STime):
            return NotImplemented
        return SBool(f(self.t, o.t))
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return SBool(self.t == o.t) if isinstance(o, STime) else False
    def __ne__(self, o): return SBool(self.t != o.t) if isinstance(o, STime) else True
    def __hash__(self): raise Unsupported('hash of symbolic time')


import datetime as _dt


def td_secs(o):
    if isinstance(o, STd):
        return o.t
    if isinstance(o, _dt.timedelta):
        f = Fraction(o.days * 86400 + o.seconds) + Fraction(o.microseconds, 10 ** 6)
        return z3.RealVal(str(f))
    return None


class STd(Sym):
    """A timedelta as real seconds."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def total_seconds(self):
        return SReal(self.t)

    @property
    def seconds(self):
        raise Unsupported('timedelta.seconds of a symbolic timedelta')
    days = microseconds = seconds

    def __add__(self, o):
        if isinstance(o, STime):
            return STime(self.t + o.t)
        s = td_secs(o)
        return NotImplemented if s is None else STd(self.t + s)
    __radd__ = __add__

    def __sub__(self, o):
        s = td_secs(o)
        return NotImplemented if s is None else STd(self.t - s)

    def __rsub__(self, o):
        s = td_secs(o)
        return NotImplemented if s is None else STd(s - self.t)

    def __mul__(self, o):
        b = lift_real(o)
        return NotImplemented if b is None else STd(self.t * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        s = td_secs(o)
        if s is not None:
            return SReal(self.t) / SReal(s)
        b = lift_real(o)
        return NotImplemented if b is None else STd((SReal(self.t) / SReal(b)).t)

    def __neg__(self): return STd(-self.t)
    def __abs__(self): return STd(z3.If(self.t >= 0, self.t, -self.t))
    def __bool__(self): return E.branch(self.t != 0)

    def _c(self, o, f):
        s = td_secs(o)
        return NotImplemented if s is None else SBool(f(self.t, s))
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o):
        s = td_secs(o)
        return False if s is None else SBool(self.t == s)
    def __ne__(self, o):
        s = td_secs(o)
        return True if s is None else SBool(self.t != s)
    def __hash__(self): raise Unsupported('hash of symbolic timedelta')


def sub_value(v, f):
    if isinstance(v, Sym):
        return type(v)(f(v.t))
    if isinstance(v, Obj):
        return v._with_ref(v._ref.sub(f))
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(sub_value(x, f) for x in v)
    if isinstance(v, VList):
        if not any(is_symbolic(x) for x in list.__iter__(v)):
            return v
        n = VList.__new__(VList)
        list.__init__(n, [sub_value(x, f) for x in list.__iter__(v)])
        n.frozen = True
        return n
    if isinstance(v, Segment):
        return Segment(v.bulk.sub(f, v.bulk.rec.start), v.key)
    return v


def is_symbolic(v):
    if isinstance(v, VList):
        return any(is_symbolic(x) for x in list.__iter__(v))
    if isinstance(v, tuple):
        return any(is_symbolic(x) for x in v)
    return isinstance(v, (Sym, Obj, Segment))


def same_value(a, b):
    """z3 term / bool: the two values are equal (objects: identical)."""
    if a is b:
        return True
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, (SStr,)) or isinstance(b, SStr):
            x, y = as_key(a, soft=True), as_key(b, soft=True)
            return False if x is None or y is None else x == y
        if isinstance(a, (STime, STd)) or isinstance(b, (STime, STd)):
            if isinstance(a, STime) and isinstance(b, STime):
                return a.t == b.t
            x, y = td_secs(a), td_secs(b)
            return False if x is None or y is None else x == y
        if isinstance(a, SVal) and isinstance(b, SVal):
            return a.t == b.t if a.t.sort() == b.t.sort() else False
        x, y = lift_real(a), lift_real(b)
        return False if x is None or y is None else x == y
    if isinstance(a, Obj) and isinstance(b, Obj):
        return conj((type(a).__module__, type(a).__qualname__) == (type(b).__module__, type(b).__qualname__),
                    a._ref.eq(b._ref))
    if isinstance(a, (tuple, VList)) and isinstance(b, (tuple, VList)):
        x, y = list(tuple.__iter__(a) if isinstance(a, tuple) else list.__iter__(a)), \
            list(tuple.__iter__(b) if isinstance(b, tuple) else list.__iter__(b))
        if len(x) != len(y):
            return False
        return conj(*[same_value(p, q) for p, q in zip(x, y)])
    if isinstance(a, Segment) and isinstance(b, Segment):
        return conj(a.key == b.key, a.bulk.eq(b.bulk))
    try:
        return bool(a == b)
    except Exception:
        return False


# =========================================================================
class Obj(object):
    """Proxy of a heap object."""
    _ref = None

    def __init_subclass__(cls, **kw):
        super().__init_subclass__(**kw)
        CURRENT_CLASS[cls.__module__, cls.__qualname__] = cls

    def _with_ref(self, ref):
        # values recorded on another path carry that path's copy of the class
        t = type(self)
        n = object.__new__(CURRENT_CLASS.get((t.__module__, t.__qualname__), t))
        n._ref = ref
        return n


class VDict(Obj):
    def __init__(self, *args, **kw):
        if not E.active:
            raise Unsupported('VDict outside a path')
        self._ref = alloc('d')
        if args:
            self.update(*args)
        if kw:
            self.update(kw)

    # -- reading
    def _get(self, k, node=None):
        return read(self._ref, as_key(k), node)

    def __getitem__(self, k):
        v = self._get(k)
        if v is ABSENT:
            raise KeyError(k if isinstance(k, str) else token(k) if isinstance(k, SStr) else k)
        return v

    def __contains__(self, k):
        if as_key(k, soft=True) is None and not (k is None or isinstance(k, (int, float, bool, tuple))):
            return False
        return self._get(k) is not ABSENT

    has_key = __contains__

    def get(self, k, d=None):
        v = self._get(k)
        return d if v is ABSENT else v

    def __setitem__(self, k, v):
        push(W(self._ref, as_key(k), wrap(v)))

    def __delitem__(self, k):
        if self._get(k) is ABSENT:
            raise KeyError(k)
        push(W(self._ref, as_key(k), ABSENT))

    def pop(self, k, *d):
        v = self._get(k)
        if v is ABSENT:
            if d:
                return d[0]
            raise KeyError(k)
        push(W(self._ref, as_key(k), ABSENT))
        return v

    def setdefault(self, k, d=None):
        v = self._get(k)
        if v is ABSENT:
            self[k] = d
            return d
        return v

    def update(self, *args, **kw):
        for o in args:
            if isinstance(o, VDict):
                push(Copy(self._ref, o._ref, E.node, True))
            elif isinstance(o, dict):
                for k, v in o.items():
                    self[k] = v
            else:
                for k, v in loop(o, ()):
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        n = VDict.__new__(VDict)
        n._ref = Ref('alloc', E.name('d'), tuple(E.idx))
        push(Copy(n._ref, self._ref, E.node, False))
        return n

    __copy__ = copy

    def clear(self):
        push(New(self._ref))

    def popitem(self):
        it = self._explicit()
        if not it:
            if it is None:
                raise Unsupported('popitem on a symbolic dict')
            raise KeyError('popitem(): dictionary is empty')
        k, v = it[-1]
        push(W(self._ref, k, ABSENT))
        return (from_key(k), v)

    # -- enumeration
    def _explicit(self, node=None):
        """[(key term, value)] in insertion order when finitely many known writes."""
        n = E.node if node is None else node
        ws = []
        ref = self._ref
        while n.layer is not None:
            L = n.layer
            if isinstance(L, Bulk):
                if any(p.may(ref) for p, _ in L.pats()):
                    # may be untouched
                    for p, k in L.pats():
                        if p.may(ref) and not (p.args and E.must(z3.Not(p.eq(ref)) if not isinstance(p.eq(ref), bool) else not p.eq(ref))):
                            return None
            elif L.ref.may(ref) and E.branch(L.ref.eq(ref)):
                if isinstance(L, W):
                    ws.append(L)
                elif isinstance(L, New):
                    break
                elif isinstance(L, Copy):
                    src = VDict.__new__(VDict)
                    src._ref = L.src
                    it = src._explicit(L.snap)
                    if it is None:
                        return None
                    ws.extend(W(ref, k, v) for k, v in reversed(it))
                    if not L.update:
                        break
                else:
                    return None
            n = n.prev
        else:
            base = getattr(self._ref.base, 'explicit', None) if self._ref.kind == 'fam' else None
            if base is None:
                return None
            ws.extend(W(ref, k, v) for k, v in reversed(base(self._ref.args)))
        out = []
        for w in reversed(ws):
            for n, (k, v) in enumerate(out):
                if E.branch(k == w.key):
                    if w.val is ABSENT:
                        out.pop(n)
                    else:
                        out[n] = (k, w.val)
                    break
            else:
                if w.val is not ABSENT:
                    out.append((w.key, w.val))
        return out

    def keys(self):
        return View(self, 'keys')

    def items(self):
        return View(self, 'items')

    def values(self):
        return View(self, 'values')

    iteritems, iterkeys, itervalues = items, keys, values

    def __iter__(self):
        return iter(loop(self, (), sys._getframe(1)))

    def __len__(self):
        it = self._explicit()
        if it is None:
            raise Unsupported('native len of a symbolic dict')
        return len(it)

    def _len(self):
        it = self._explicit()
        if it is not None:
            return len(it)
        n = E.fresh('len', Int)
        E.assume(n >= 0)
        E.ghost.setdefault('lens', []).append((n, self, E.node))
        return SLen(n, self)

    def __bool__(self):
        it = self._explicit()
        if it is not None:
            return len(it) > 0
        return nonempty(self)

    def __eq__(self, o):
        if not isinstance(o, (VDict, dict)):
            return False
        if isinstance(o, VDict) and E.must(self._ref.eq(o._ref)):
            return True
        a = self._explicit()
        b = o._explicit() if isinstance(o, VDict) else [(as_key(k), v) for k, v in o.items()]
        if a is None or b is None:
            raise Unsupported('equality of symbolic dicts')
        if len(a) != len(b):
            return False
        for k, v in a:
            for k2, v2 in b:
                if E.branch(k == k2):
                    if not (v == v2):
                        return False
                    break
            else:
                return False
        return True

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __repr__(self):
        return token(self)

    def __format__(self, s):
        return token(self)

    @classmethod
    def fromkeys(cls, ks, v=None):
        d = VDict()
        for k in loop(ks, ()):
            d[k] = v
        return d


def nonempty(container):
    """Decide emptiness of a symbolic collection, with a witness if non-empty."""
    coll = as_coll(container)
    ck = ('ne', repr(coll.ref), getattr(getattr(coll, 'node', None), 'depth', None)) if coll.ref is not None \
        else ('ne', id(getattr(coll, 'seg', coll)))
    if ck in E.ghost:
        return E.ghost[ck]
    r = E.ghost[ck] = _nonempty(coll)
    return r


def _nonempty(coll):
    b = E.fresh('nonempty', Bool)
    if E.branch(b):
        i = E.fresh('w', coll.sort)
        if not coll.member(i):
            raise PathEnd()
        E.ghost.setdefault('witness', []).append(i)
        empty_at(i)
        return True
    E.ghost.setdefault('empty', []).append(coll)
    for w in E.ghost.get('witness', ()):
        if w.sort() == coll.sort and coll.member(w):
            raise PathEnd()
    return False


def empty_at(k):
    """instantiate at k: it is in none of the collections found empty"""
    for c in list(E.ghost.get('empty', ())):
        if c.sort == k.sort() and c.member(k):
            raise PathEnd()


class SLen(SInt):
    """len() of a symbolic collection: comparisons with 0/1 decide emptiness."""
    __slots__ = ('c',)

    def __init__(self, t, c=None):
        self.t = t
        self.c = c

    def _cmp(self, o, f):
        if isinstance(o, int) and self.c is not None:
            ne = nonempty(self.c)
            E.assume(self.t >= 1 if ne else self.t == 0)
        return SInt._cmp(self, o, f)

    def __bool__(self):
        return bool(self > 0)


class View(object):
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def __contains__(self, k):
        if self.kind == 'keys':
            return k in self.d
        if self.kind == 'values':
            for v in loop(self, ()):
                if v == k:
                    return True
            return False
        raise Unsupported('membership in items()')

    def __iter__(self):
        return iter(loop(self, (), sys._getframe(1)))

    def _len(self):
        return self.d._len()

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return bool(self.d)

    def isdisjoint(self, o):
        for k in loop(self, ()):
            if k in o:
                return False
        return True

    def __and__(self, o):
        return VSet(self).intersection(o)

    def __or__(self, o):
        return VSet(self).union(o)

    def __sub__(self, o):
        return VSet(self).difference(o)

    def __rsub__(self, o):
        return VSet(o).difference(self)

    def __eq__(self, o):
        return VSet(self) == VSet(o)

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __format__(self, s):
        return token(self)
    __repr__ = lambda self: token(self)


class VSet(Obj):
    """A set of strings / hashables; elements are keys of a store object."""

    def __init__(self, it=()):
        self._ref = alloc('s')
        if isinstance(it, VSet):
            push(Copy(self._ref, it._ref, E.node, True))
        elif isinstance(it, VDict) or (isinstance(it, View) and it.kind == 'keys'):
            d = it.d if isinstance(it, View) else it
            push(Copy(self._ref, d._ref, E.node, True))
        else:
            for x in loop(it, ()):
                self.add(x)

    def _d(self):
        d = VDict.__new__(VDict)
        d._ref = self._ref
        return d

    def add(self, x):
        if isinstance(x, Obj) and not isinstance(x, (VDict, VSet)):
            raise Unsupported('set of objects')
        push(W(self._ref, as_key(x), True))

    def discard(self, x):
        push(W(self._ref, as_key(x), ABSENT))

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        k, v = self._d().popitem()
        return k

    def clear(self):
        push(New(self._ref))

    def __contains__(self, x):
        return read(self._ref, as_key(x)) is not ABSENT

    def update(self, *its):
        for it in its:
            if isinstance(it, (VSet, VDict)) or (isinstance(it, View) and it.kind == 'keys'):
                r = it.d._ref if isinstance(it, View) else it._ref
                push(Copy(self._ref, r, E.node, True))
            else:
                for x in loop(it, ()):
                    self.add(x)

    def copy(self):
        return VSet(self)

    def union(self, *its):
        s = VSet(self)
        s.update(*its)
        return s

    def intersection(self, *its):
        s = self
        for it in its:
            r = VSet()
            if not isinstance(it, (VSet, VDict, View)):
                it = VSet(it)
            for x in loop(s, ()):
                if x in it:
                    r.add(x)
            s = r
        return s if its else VSet(self)

    def difference(self, *its):
        s = self
        for it in its:
            r = VSet()
            if not isinstance(it, (VSet, VDict, View)):
                it = VSet(it)
            for x in loop(s, ()):
                if x not in it:
                    r.add(x)
            s = r
        return s if its else VSet(self)

    def difference_update(self, *its):
        for it in its:
            for x in loop(it, ()):
                self.discard(x)

    def symmetric_difference(self, o):
        return self.difference(o).union(VSet(o).difference(self))

    def issubset(self, o):
        for x in loop(self, ()):
            if x not in o:
                return False
        return True

    def issuperset(self, o):
        for x in loop(o, ()):
            if x not in self:
                return False
        return True

    def isdisjoint(self, o):
        for x in loop(self, ()):
            if x in o:
                return False
        return True

    def __and__(self, o): return self.intersection(o)
    def __or__(self, o): return self.union(o)
    def __sub__(self, o): return self.difference(o)
    def __xor__(self, o): return self.symmetric_difference(o)
    def __le__(self, o): return self.issubset(o)
    def __ge__(self, o): return self.issuperset(o)
    def __lt__(self, o): return self.issubset(o) and not VSet(o).issubset(self)
    def __gt__(self, o): return self.issuperset(o) and not self.issubset(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __eq__(self, o):
        if isinstance(o, (set, frozenset)):
            o = VSet(o)
        if not isinstance(o, VSet):
            return False
        return self.issubset(o) and o.issubset(self)

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __iter__(self):
        return iter(loop(self, (), sys._getframe(1)))

    def _len(self):
        return self._d()._len()

    def __len__(self):
        return len(self._d())

    def __bool__(self):
        return bool(self._d())

    def __format__(self, s):
        return token(self)
    __repr__ = lambda self: token(self)


class Segment(object):
    """The (unbounded) run of items appended by a summarised loop, or an
    environment sequence."""

    def __init__(self, bulk, key):
        self.bulk, self.key = bulk, key

    def coll(self):
        return SegColl(self)


class EnvSeg(object):
    """Environment sequence of symbolic length: item(i), 0 <= i < n."""

    def __init__(self, n, item, fold=None):
        self.n, self.item, self.fold = n, item, fold

    def coll(self):
        return SeqColl(self)


class VList(list):
    """A list; may contain Segment / EnvSeg elements standing for runs."""
    frozen = False

    def __init__(self, items=()):
        list.__init__(self, items)
        self.uid = E.name('l') if E.active else 'static'
        if E.active:
            E.live_lists.append(self)

    def _raw(self):
        return list(list.__iter__(self))

    def _segs(self):
        return any(isinstance(x, (Segment, EnvSeg)) for x in list.__iter__(self))

    def _mut(self):
        if self.frozen:
            raise Unsupported('mutation of a list stored in a summarised container')

    def append(self, x):
        self._mut()
        list.append(self, wrap(x))

    def extend(self, it):
        self._mut()
        if isinstance(it, VList):
            list.extend(self, it._raw())
        else:
            for x in loop(it, ()):
                list.append(self, x)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __add__(self, o):
        r = VList(self._raw())
        r.extend(o)
        return r

    def __radd__(self, o):
        r = VList(o._raw() if isinstance(o, VList) else list(o))
        r.extend(self)
        return r

    def __mul__(self, n):
        return VList(list.__mul__(self, n))
    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self._segs():
                raise Unsupported('slice of a symbolic list')
            return VList(list.__getitem__(self, i))
        if self._segs():
            raw = self._raw()
            rng = raw[:i + 1] if i >= 0 else raw[i:]
            if any(isinstance(x, (Segment, EnvSeg)) for x in rng):
                raise Unsupported('element of a symbolic list')
            return raw[i]
        return list.__getitem__(self, i)

    def __contains__(self, x):
        for y in loop(self, ()):
            if y is x or y == x:
                return True
        return False

    def index(self, x, *a):
        if self._segs():
            raise Unsupported('index in a symbolic list')
        for n, y in enumerate(list.__iter__(self)):
            if y == x:
                return n
        raise ValueError('%r is not in list' % (x,))

    def count(self, x):
        if self._segs():
            raise Unsupported('count in a symbolic list')
        return sum(1 for y in list.__iter__(self) if y == x)

    def remove(self, x):
        self._mut()
        del self[self.index(x)]

    def copy(self):
        return VList(self._raw())

    def _len(self):
        if not self._segs():
            return list.__len__(self)
        n = E.fresh('len', Int)
        fixed = sum(1 for x in list.__iter__(self) if not isinstance(x, (Segment, EnvSeg)))
        E.assume(n >= fixed)
        if fixed:
            return SInt(n)
        return SLen(n, self)

    def __bool__(self):
        if not self._segs():
            return list.__len__(self) > 0
        if any(not isinstance(x, (Segment, EnvSeg)) for x in list.__iter__(self)):
            return True
        return nonempty(self)

    def __iter__(self):
        if not self._segs():
            return list.__iter__(self)
        return iter(loop(self, (), sys._getframe(1)))

    def __eq__(self, o):
        if not isinstance(o, list):
            return False
        if self._segs() or (isinstance(o, VList) and o._segs()):
            raise Unsupported('equality of symbolic lists')
        if list.__len__(self) != list.__len__(o):
            return False
        for a, b in zip(list.__iter__(self), list.__iter__(o)):
            if not (a is b or a == b):
                return False
        return True

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __format__(self, s):
        return token(self)
    __repr__ = __str__ = lambda self: token(self)


def wrap(v):
    """Native containers created outside rewritten code become engine values."""
    if type(v) is dict:
        return VDict(v)
    if type(v) is list:
        return VList(v)
    if type(v) in (set, frozenset):
        return VSet(v)
    return v


# =========================================================================
# collections and loops
class DictColl(object):
    def __init__(self, d, kind):
        self.d, self.kind, self.node = d, kind, E.node
        self.sort = Str
        self.ref = d._ref

    def member(self, t):
        return read(self.ref, t, self.node) is not ABSENT

    def elem(self, t):
        if self.kind == 'keys':
            return from_key(t)
        v = read(self.ref, t)
        if v is ABSENT:
            raise Unsupported('dict changed during iteration')
        return v if self.kind == 'values' else (from_key(t), v)


class SegColl(object):
    def __init__(self, seg):
        self.seg = seg
        self.sort = seg.bulk.index.sort()
        self.ref = None

    def member(self, t):
        c, f = enter_case(self.seg.bulk, t)
        self._last = (t, c, f)
        return c is not None and len(c.lists.get(self.seg.key, ())) > 0

    def elem(self, t):
        c, f = enter_case(self.seg.bulk, t)
        items = c.lists[self.seg.key]
        if len(items) != 1:
            raise Unsupported('several appends per iteration')
        return sub_value(items[0], f)


class SeqColl(object):
    def __init__(self, seg):
        self.seg = seg
        self.sort = Int
        self.ref = None

    def member(self, t):
        return E.branch(z3.And(t >= 0, t < self.seg.n))

    def elem(self, t):
        return self.seg.item(t)


class EnumColl(object):
    def __init__(self, c, start=0):
        self.c, self.sort, self.ref = c, c.sort, c.ref
        self.node = getattr(c, 'node', None)
        self.start = start

    def member(self, t):
        return self.c.member(t)

    def elem(self, t):
        if self.sort == Int:
            return (SInt(t + self.start), self.c.elem(t))
        p = E.fresh('pos', Int)
        E.assume(p >= 0)
        return (SInt(p + self.start), self.c.elem(t))


def as_coll(x):
    if isinstance(x, VDict):
        return DictColl(x, 'keys')
    if isinstance(x, View):
        return DictColl(x.d, x.kind)
    if isinstance(x, VSet):
        return DictColl(x._d(), 'keys')
    if isinstance(x, (tuple, VList, list)):
        raw = x._raw() if isinstance(x, VList) else list(x)
        if len(raw) == 1 and isinstance(raw[0], (Segment, EnvSeg)):
            return raw[0].coll()
    if isinstance(x, (EnumColl, SegColl, SeqColl, DictColl)):
        return x
    raise Unsupported('symbolic iteration over %s' % type(x).__name__)


def loop(x, names, frame=None):
    """Called for every `for` loop of the verified code."""
    if isinstance(x, View):
        it = x.d._explicit()
        if it is not None:
            if x.kind == 'keys':
                return [from_key(k) for k, v in it]
            if x.kind == 'values':
                return [v for k, v in it]
            return [(from_key(k), v) for k, v in it]
    elif isinstance(x, (VDict, VSet)):
        it = (x._d() if isinstance(x, VSet) else x)._explicit()
        if it is not None:
            return [from_key(k) for k, v in it]
    elif isinstance(x, (VList, tuple, list)):
        raw = x._raw() if isinstance(x, VList) else x
        segs = [n for n, y in enumerate(raw) if isinstance(y, (Segment, EnvSeg))]
        if not segs:
            if isinstance(x, VList):
                return _LiveList(x)
            return x
        if len(raw) > 1:
            return _mixed(raw, names, frame or sys._getframe(1))
    elif not isinstance(x, (EnumColl, SegColl, SeqColl, DictColl)):
        return x
    return LoopIter(as_coll(x), names, frame or sys._getframe(1))


def _mixed(raw, names, frame):
    for y in raw:
        if isinstance(y, (Segment, EnvSeg)):
            for z in LoopIter(y.coll(), names, frame):
                yield z
        else:
            yield y


def _LiveList(x):
    return list.__iter__(x)


class Poison(object):
    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def _die(self, *a, **k):
        raise Unsupported('value of %r carried across iterations of a symbolic loop'
                          % object.__getattribute__(self, '_n'))

    def __getattribute__(self, n):
        if n == '__class__':
            return Poison
        Poison._die(self)
    __bool__ = __add__ = __radd__ = __iadd__ = __sub__ = __mul__ = __eq__ = __ne__ = __lt__ = __gt__ = \
        __getitem__ = __iter__ = __call__ = __contains__ = __len__ = __str__ = __format__ = __hash__ = \
        __setitem__ = __or__ = __and__ = __ior__ = __iand__ = __le__ = __ge__ = __neg__ = __index__ = \
        __truediv__ = __rmul__ = __imul__ = __isub__ = lambda self, *a: Poison._die(self)


def set_locals(frame, updates):
    d = frame.f_locals
    for n, v in updates.items():
        d[n] = v
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


class LoopIter(object):
    def __init__(self, coll, names, frame):
        self.coll, self.names, self.frame = coll, names, frame
        self.state = 0
        self.phase = None

    def __iter__(self):
        return self

    def _poison(self):
        if self.names:
            loc = self.frame.f_locals
            ups = {n: Poison(n) for n in self.names if n in loc or True}
            set_locals(self.frame, ups)

    def __next__(self):
        if self.state == 0:
            return self._start()
        if self.state == 1:
            self._end()
        raise StopIteration

    # ---- first __next__
    def _start(self):
        lid = E.name('L')
        nph = 3
        key = tuple(E.trace)
        self.phase = E.choose(nph, 'loop')
        rec = E.loops.get(key)
        if rec is None:
            rec = LoopRec(lid, lid, self.coll, E.node)
            E.loops[key] = rec
            E.loops_total += 1
        self.rec = rec
        rec.start = E.node if self.phase == 0 else rec.start
        fold = getattr(getattr(self.coll, 'seg', None), 'fold', None)
        if self.phase == 2:
            return self._after(fold)
        self.outer_ns, self.outer_idx = E.ns, list(E.idx)
        i = E.fresh('i', self.coll.sort)
        E.ns = E.ns + lid + '.'
        E.idx = E.idx + [i]
        self.index = rec.index = i
        self.pc0 = len(E.pc)
        self.node0 = E.node
        self.lists0 = [(l, l._raw()) for l in E.live_lists]
        self.inst0 = [(o, dict(o.__dict__)) for o in E.instances]
        self.open_inner = 0
        self._poison()
        self.state = 1
        if self.phase == 0:
            E.phase1 += 1
            self.p1 = True
        else:
            # arbitrary mid-loop state: an arbitrary set P of other iterations done
            if fold is not None and rec.fold:
                for ref, spec in rec.fold:
                    push(Inv(ref, spec, i))
            else:
                P = z3.Function('P!' + lid, *([x.sort() for x in E.idx] + [self.coll.sort, Bool]))
                Pf = (P, list(E.idx))
                E.assume(z3.Not(P(*(E.idx + [i]))))
                if any(c.layers for c in rec.cases):
                    push(Bulk(rec, i, [c for c in rec.cases], Pf, []))
                for l, raw in self.lists0:
                    if any(c.lists.get(l.uid) for c in rec.cases):
                        list.append(l, Segment(Bulk(rec, i, rec.cases, Pf, []), l.uid))
            self.node1 = E.node
            self.lists1 = [(l, l._raw()) for l in E.live_lists]
        if not self.coll.member(i):
            raise PathEnd()
        # what completed loops established for every element holds for this one
        for B, coll in list(E.done):
            if B.exits and B.index.sort() == i.sort() and not B.rec.lookups and coll.member(i):
                enter_case(B, i)
        return self.coll.elem(i)

    def _after(self, fold):
        rec = self.rec
        i = rec.index
        if fold is not None and rec.fold:
            for ref, spec in rec.fold:
                push(Inv(ref, spec, self.coll.seg.n))
        elif i is not None:
            exits = [z3.And(*c) if c else z3.BoolVal(True) for c in rec.exits]
            B = Bulk(rec, i, rec.cases, None, exits)
            if any(c.layers for c in rec.cases):
                push(B)
            for l in list(E.live_lists):
                if any(c.lists.get(l.uid) for c in rec.cases):
                    list.append(l, Segment(B, l.uid))
            E.done.append((B, self.coll))
        self._poison()
        self.state = 2
        raise StopIteration

    # ---- end of an iteration
    def _effects(self, base_node, base_lists):
        layers = []
        n = E.node
        while n is not base_node:
            layers.append(n.layer)
            n = n.prev
        lists = {}
        for l, raw in base_lists:
            cur = l._raw()
            if len(cur) < len(raw) or any(a is not b for a, b in zip(raw, cur)):
                raise Unsupported('list modified other than by append in a symbolic loop')
            if len(cur) > len(raw):
                lists[l.uid] = cur[len(raw):]
        for o, d0 in self.inst0:
            d1 = o.__dict__
            for k in set(d0) | set(d1):
                if d0.get(k, MISS) is not d1.get(k, MISS):
                    raise Unsupported('attribute %s assigned in a symbolic loop' % k)
        return layers, lists

    def _end(self):
        self.state = 2
        rec = self.rec
        pcs = E.pc[self.pc0:]
        conds = [t for k, t in pcs if k == 'branch']
        assumes = [t for k, t in pcs if k == 'assume' and mentions(t, self.index)]
        self._check_no_key_change()
        if self.phase == 0:
            layers, lists = self._effects(self.node0, self.lists0)
            rec.cases.append(Case(conds, assumes, layers, lists))
            fold = getattr(getattr(self.coll, 'seg', None), 'fold', None)
            if fold is not None:
                for L in layers:
                    for p, k in L.pats():
                        if not any(mentions(a, self.index) for a in p.args) and \
                                p.base not in [r.base for r in rec.muts]:
                            if not (p.kind == 'alloc' and (rec.lid + '.') in str(p.base)):
                                rec.muts.append(p)
                if rec.muts and rec.fold is None:
                    rec.fold = fold(rec.muts, self.node0)
            raise PathEnd()
        if rec.fold:
            for ref, spec in rec.fold:
                spec.check(ref, self.index)
            raise PathEnd()
        layers, lists = self._effects(self.node1, self.lists1)
        ok = False
        why = 'no matching case'
        for c in rec.cases:
            if not E.must(c.cond()):
                continue
            if len(c.layers) != len(layers):
                why = 'different number of effects: %s / %s' % (c.layers, layers)
                continue
            good = all(type(a) is type(b) and E.must(a.eq(b)) for a, b in zip(c.layers, layers))
            good = good and set(c.lists) == set(lists) and all(
                E.must(same_value(tuple(c.lists[k]), tuple(lists[k]))) for k in lists)
            if good:
                ok = True
                break
            why = 'effects differ: ' + '; '.join('%s/%s' % (a, b) for a, b in zip(c.layers, layers)
                                                 if type(a) is not type(b) or not E.must(a.eq(b)))[:600]
        if not ok:
            raise Unsupported('loop iterations are not independent (%s) at %s:%s'
                              % (why, os.path.basename(self.frame.f_code.co_filename), self.frame.f_lineno))
        if not E.phase1:
            E.record('loop invariant preserved at %s:%s' % (os.path.basename(self.frame.f_code.co_filename),
                                                            self.frame.f_code.co_name), 'proved', 0, 'z3')
        raise PathEnd()

    def _check_no_key_change(self):
        ref = self.coll.ref
        if ref is None or not isinstance(self.coll, (DictColl, EnumColl)):
            return
        n = E.node
        base = self.node0 if self.phase == 0 else self.node1
        while n is not base:
            L = n.layer
            if isinstance(L, W) and L.ref.may(ref) and E.branch(L.ref.eq(ref)):
                node = getattr(self.coll, 'node', None)
                if L.val is ABSENT or read(ref, L.key, node) is ABSENT:
                    raise Unsupported('the dict being iterated changes size')
            n = n.prev

    def __del__(self):
        # the loop was left by break / return / exception in iteration `index`
        if self.state == 1 and E.active and not E.cutting:
            self.state = 3
            if self.phase == 0:
                E.leaving = True
            elif self.phase == 1:
                conds = [t for k, t in E.pc[self.pc0:] if k == 'branch']
                self.rec.exits.append(conds)
