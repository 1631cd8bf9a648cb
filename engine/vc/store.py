"""The data store shared by all requests: topics, partitions, records, committed offsets.

Thread-modular reading: what a lock guards is known only while the lock is held.  Every acquisition
starts a new epoch t (a number larger than that of any earlier acquisition); the guarded state at that
moment is an arbitrary function of t, restricted by what every critical section guarantees (topics,
partitions and records are only added).  Every release is obliged to establish that guarantee."""
import types
from .terms import *
from .values import *
from . import solver, natives, spec, maps, server, dispatch
from .exec import Engine, St, Split, Infeasible, GoPanic

DS = ('sym', 'ds', ())
START, END = z3.BitVec('epoch.start', 64), z3.BitVec('epoch.end', 64)
BV = bvsort(64)
bornT = z3.Function('bornT', Str, BV)
bornP = z3.Function('bornP', Str, bvsort(32), BV)
ntop = z3.Function('ntopics', BV, BV)
npar = z3.Function('npartitions', Str, BV, BV)
nrec = z3.Function('nrecords', Str, bvsort(32), BV, BV)
co = z3.Function('committed', Str, bvsort(32), Str, BV, BV)
hasco = z3.Function('hascommitted', Str, bvsort(32), Str, BV, z3.BoolSort())
nco = z3.Function('ngroups', Str, bvsort(32), BV, BV)
RANK = {'ds': 1, 'topic': 2, 'part': 3}
WHAT = {'ds': 'the topics of the store', 'topic': 'the partitions of a topic', 'part': 'the records and committed offsets of a partition'}


def setup():
    solver.register('bornT', lambda a: [], 'bornT')
    solver.register('bornP', lambda a: [bornT(a.children()[0]) < a], 'bornP')
    lim = lambda a: [z3.And(z3.BitVecVal(0, 64) <= a, a <= z3.BitVecVal(1 << 40, 64))]
    for n in ('ntopics', 'npartitions', 'nrecords', 'ngroups'):
        solver.register(n, lim, n)
    solver.register('hascommitted', lambda a: [z3.Implies(z3.Not(a), co(*a.children()) == 0)], 'hasco')
    solver.register('committed', lambda a: [z3.Implies(z3.Not(hasco(*a.children())), a == 0)], 'co')


class Topics(maps.MapKind):
    key = Str

    def n(self, E, st, args):
        return ntop(bv(args[0], 64))

    def has(self, E, st, args, key):
        return simp(bornT(key) < args[0])

    def val(self, E, st, args, key):
        return Ptr(('sym', 'topic', (key,)))


class Parts(maps.MapKind):
    key = bvsort(32)

    def n(self, E, st, args):
        return npar(*args)

    def has(self, E, st, args, key):
        return simp(bornP(args[0], bv(key, 32)) < args[1])

    def val(self, E, st, args, key):
        return Ptr(('sym', 'part', (args[0], key)))


class Offsets(maps.MapKind):
    key = Str

    def n(self, E, st, args):
        return nco(*args)

    def has(self, E, st, args, key):
        return hasco(args[0], args[1], key, args[2])

    def val(self, E, st, args, key):
        return co(args[0], args[1], key, args[2])


class Param(maps.MapKind):
    """a map handed in by the caller, with string keys"""
    key = Str

    def __init__(self, E, name, vt):
        self.name, self.vt = name, vt

    def n(self, E, st, args):
        n = z3.Const('size.' + self.name, BV)
        solver.register(n.decl().name(), lambda a: [z3.And(z3.BitVecVal(0, 64) <= a, a <= z3.BitVecVal(1 << 30, 64))], 'psize')
        return n

    def has(self, E, st, args, key):
        return z3.Function('has.' + self.name, Str, z3.BoolSort())(key)

    def val(self, E, st, args, key):
        return E.sym(self.vt, 'val.' + self.name, (key,))


class Schema:
    """the struct types of the store, found by their shape"""

    def __init__(self, E):
        P = E.p
        own = [t for t in P.types if t.kind == 'struct' and t.pkg == P.pkg and t.fields]

        def mus(t):
            return [k for k, f in enumerate(t.fields) if E.t(f['type']).name in ('Mutex',) and E.t(f['type']).pkg == 'sync']

        def maps_(t, keystr, pred):
            out = []
            for k, f in enumerate(t.fields):
                ft = E.t(f['type'])
                if ft.kind == 'map' and E.t(ft.key).kind == 'basic' and (E.t(ft.key).isstr if keystr else E.t(ft.key).width == 32) and pred(E.t(ft.elem)):
                    out.append(k)
            return out
        ptrto = lambda x: (lambda t: t.kind == 'ptr' and t.elem == x.id)
        self.t = {}
        for t in own:
            recs = [k for k, f in enumerate(t.fields) if E.t(f['type']).kind == 'slice' and E.t(E.t(f['type']).elem).kind == 'ptr' and E.t(E.t(E.t(f['type']).elem).elem).kind == 'struct']
            offs = maps_(t, True, lambda e: e.kind == 'basic' and e.width == 64)
            if mus(t) and len(recs) == 1 and len(offs) == 1:
                self.t['part'] = t
                self.rec, self.off = recs[0], offs[0]
                self.t['rec'] = E.t(E.t(E.t(t.fields[recs[0]]['type']).elem).elem)
        if 'part' not in self.t:
            raise Unsupported('no partition type')
        for t in own:
            if mus(t) and maps_(t, False, ptrto(self.t['part'])):
                self.t['topic'] = t
        if 'topic' not in self.t:
            raise Unsupported('no topic type')
        for t in own:
            if mus(t) and maps_(t, True, ptrto(self.t['topic'])):
                self.t['ds'] = t
        if 'ds' not in self.t:
            raise Unsupported('no store type')
        self.mu = {k: mus(self.t[k])[0] for k in RANK}
        self.guard = {'ds': {maps_(self.t['ds'], True, ptrto(self.t['topic']))[0]}, 'topic': {maps_(self.t['topic'], False, ptrto(self.t['part']))[0]}, 'part': {self.rec, self.off}}
        pt = self.t['part']
        ix = [k for k, f in enumerate(pt.fields) if E.t(f['type']).kind == 'basic' and E.t(f['type']).isint and E.t(f['type']).width == 32]
        self.index = ix[0] if len(ix) == 1 else None
        self.kind = {self.t[k].id: k for k in self.t}


def install(E, guarantee=True):
    """guarantee: every release must establish what other requests rely on"""
    dispatch.install(E)
    setup()
    E.store_schema = Schema(E)
    E.mapkinds['topics'], E.mapkinds['parts'], E.mapkinds['offsets'] = Topics('topics'), Parts('parts'), Offsets('offsets')
    E.kinds_init = types.MethodType(kinds_init, E)
    E.access = types.MethodType(access, E)
    E.survives = types.MethodType(lambda E, k: False, E)
    E.g_ok = types.MethodType(lambda E, k: k in ('now', 'clock', 'readings', 'err'), E)
    E.hooks['lock'] = lock
    E.hooks['unlock'] = unlock
    E.hooks['loopstart'] = loopstart
    E.hooks['now'] = clock
    E.cells = {}
    E.lockobl = 'lock discipline: '
    E.unlocks = 0


def begin(E, st):
    """the start of an operation"""
    st.g['now'] = START
    st.g['clock'] = z3.BitVec('clock.start', 64)
    st.assume(land(sle(0, START), sle(START, END), sle(END, 1 << 60)))
    st.assume(land(sle(0, st.g['clock']), sle(st.g['clock'], 1 << 61)))


def clock(E, st, t):
    """the clock does not run backwards (monotonic reading)"""
    c = st.g.get('clock')
    if c is not None:
        st.assume(sle(c, t))
    st.assume(land(sle(0, t), sle(t, 1 << 61)))
    st.g['clock'] = t
    st.g['readings'] = st.g.get('readings', ()) + (t,)
    return None


def loopstart(E, st, st0):
    for k in ('now', 'clock', 'readings', 'err'):
        if k in st0.g and not isinstance(st0.g[k], tuple):
            n = E.fresh(st, k, BV)
            st.assume(land(sle(st0.g[k], n), sle(n, END if k == 'now' else 1 << 61)))
            st.g[k] = n
    return None


# ------------------------------------------------------------------ cells
def field_init(E, oid, k):
    kind, args = oid[1], oid[2]
    S = E.store_schema
    t = S.t[kind]
    f = t.fields[k]
    if kind in RANK and k == S.mu[kind]:
        return E.zero(f['type'])
    if kind in RANK and k in S.guard[kind]:
        return Dead('%s without the lock' % WHAT[kind])
    if kind == 'part' and k == S.index:
        return args[1]
    if kind == 'rec':
        try:
            return E.sym(f['type'], 'rec.%d' % k, args)
        except Unsupported:
            return Dead('field %s of a record' % f['name'])
    return E.zero(f['type'])


def kinds_init(E, st, oid):
    S = E.store_schema
    if oid[1] not in S.t:
        raise Unsupported('object %s' % (oid[1],))
    k = E.okey(oid)
    if k not in E.cells:
        t = S.t[oid[1]]
        args = tuple(bv(a, 32 if n == 1 else 64) if isinstance(a, int) else a for n, a in enumerate(oid[2]))
        E.cells[k] = StructV([field_init(E, ('sym', oid[1], args), n) for n in range(len(t.fields))], t.id)
    return E.cells[k]


def lkey(E, oid):
    return ('lock', oid[1], E.okey(oid))


def access(E, st, oid, path, write):
    S = E.store_schema
    kind = oid[1]
    if kind not in S.t:
        return
    if kind == 'rec':
        if write:
            violated(E, st, 'a stored record is never modified')
        return
    if not path:
        raise Unsupported('copy of a whole shared object')
    f = path[0]
    if f == S.mu[kind]:
        return
    if f in S.guard[kind]:
        what = E.lockobl + '%s %s only with the lock' % (WHAT[kind], 'change' if write else 'are read')
        if lkey(E, oid) not in st.locks:
            violated(E, st, what)
        E.record(what, what, 'discharged')
        return
    if write:
        violated(E, st, 'field %s of a shared object does not change' % S.t[kind].fields[f]['name'])


def violated(E, st, what):
    if not E.feasible(st):
        raise Infeasible()
    E.record(what, what, 'refuted')
    raise Unsupported('violated: ' + what)


def lock(E, st, p):
    E.nilcheck(st, p)
    oid = E.norm(st, p.oid)
    S = E.store_schema
    if not E.issym(oid):
        return None
    kind = oid[1]
    if kind not in RANK or p.path != (S.mu[kind],):
        raise Unsupported('lock of %r' % (p,))
    what = E.lockobl + 'locks are acquired in the order store, topic, partition'
    for l in st.locks:
        if l[0] == 'lock' and RANK[l[1]] >= RANK[kind]:
            violated(E, st, what)
    E.record(what, what, 'discharged')
    acquire(E, st, oid)
    return (None,)


def acquire(E, st, oid):
    S = E.store_schema
    kind, args = oid[1], oid[2]
    t = E.fresh(st, 'epoch', BV)
    st.assume(land(slt(st.g['now'], t), sle(t, END)))
    st.g['now'] = t
    base = kinds_init(E, st, oid)
    vals = list(base.vals)
    for k in S.guard[kind]:
        if kind == 'ds':
            mk = SymMap('topics', (t,))
        elif kind == 'topic':
            mk = SymMap('parts', (args[0], t))
        elif k == S.off:
            mk = SymMap('offsets', (args[0], bv(args[1], 32), t))
        else:
            iv = fresh_iv('k')
            vals[k] = RSlice(Rope([X(Ptr(('sym', 'rec', (args[0], bv(args[1], 32), iv))), iv, 0, nrec(args[0], bv(args[1], 32), t))]), E.fresh(st, 'nilrecs', z3.BoolSort()) if False else False, 'shared', 'shared')
            continue
        m = ('m', oid, k)
        vals[k] = MapV(m)
        st.heap[E.okey(m)] = MapObj(mk)
    st.heap[E.okey(oid)] = StructV(vals, base.tid)
    st.locks = st.locks + (lkey(E, oid),)
    st.g[('epoch',) + lkey(E, oid)] = t
    st.tips['shared'] = 'shared'
    E.epochs = getattr(E, 'epochs', 0) + 1


def unlock(E, st, p):
    E.nilcheck(st, p)
    oid = E.norm(st, p.oid)
    S = E.store_schema
    if not E.issym(oid):
        return None
    lk = lkey(E, oid)
    what = E.lockobl + 'only a held lock is released'
    if lk not in st.locks:
        violated(E, st, what)
    E.record(what, what, 'discharged')
    release(E, st, oid, st.g[('epoch',) + lk])
    st.locks = tuple(l for l in st.locks if l != lk)
    del st.g[('epoch',) + lk]
    for k in S.guard[oid[1]]:
        st.heap.pop(E.okey(('m', oid, k)), None)
    st.heap[E.okey(oid)] = E.cells[E.okey(oid)]
    return (None,)


def noleak(E, st, what):
    E.must(st, not st.locks, E.lockobl + 'no lock is held when %s returns' % what)


# ------------------------------------------------------------------ guarantees of a release
def ev(st, *a):
    st.trace = st.trace + Rope([V(Ev(*a))])


def release(E, st, oid, t):
    S = E.store_schema
    kind, args = oid[1], oid[2]
    E.unlocks += 1
    cell = st.heap[E.okey(oid)]
    base = E.cells[E.okey(oid)]
    for k, (v, b) in enumerate(zip(cell.vals, base.vals)):
        if kind == 'part' and k == S.rec:
            records(E, st, args, t, v)
        elif k in S.guard[kind]:
            m = ('m', oid, k)
            if not (isinstance(v, MapV) and v.oid == m):
                violated(E, st, '%s are not replaced' % WHAT[kind])
            mo = st.heap[E.okey(m)]
            if mo.acc.segs:
                raise Unsupported('a loop changes %s under one lock' % WHAT[kind])
            if kind == 'part':
                offsets(E, st, args, t, mo)
            else:
                added(E, st, kind, args, t, mo)


def fresh_object(E, st, p, kind, what):
    """a new object of the store, not yet visible to others"""
    p = Ptr(E.norm(st, p.oid), p.path, p.nil)
    if not (isinstance(p, Ptr) and isinstance(p.oid, int) and not p.path and p.nil is False):
        raise Unsupported('%s: %r' % (what, p))
    o = st.heap[p.oid]
    if not isinstance(o, StructV) or o.tid != E.store_schema.t[kind].id:
        raise Unsupported('%s: %r' % (what, o))
    return o


def added(E, st, kind, args, t, mo):
    S = E.store_schema
    child = {'ds': 'topic', 'topic': 'part'}[kind]
    what = 'a new %s' % {'topic': 'topic', 'part': 'partition'}[child]
    for key, v in mo.ups:
        if v is DEL:
            violated(E, st, '%s are never removed' % WHAT[kind])
        if kind == 'ds':
            key = E.strterm(st, key)
            soid = ('sym', 'topic', (key,))
            had = simp(bornT(key) < t)
            born = bornT(key)
        else:
            key = bv(key, 32)
            soid = ('sym', 'part', (args[0], key))
            had = simp(bornP(args[0], key) < t)
            born = bornP(args[0], key)
        if not isinstance(v, Ptr) or v.nil is True:
            violated(E, st, what + ' is an object')
        o = E.norm(st, v.oid)
        if E.issym(o) and o[1] == child:
            # stored again: the same object
            E.must(st, land(had, *[eq(x, y) if z3.is_bv(x) else simp(x == y) for x, y in zip(o[2], soid[2])]), what + ' is a new object')
            continue
        E.must(st, lnot(had), '%s that exist are not replaced' % WHAT[kind])
        c = fresh_object(E, st, v, child, what)
        for k, x in enumerate(c.vals):
            f = S.t[child].fields[k]
            if k in S.guard[child]:
                if isinstance(x, MapV):
                    E.must(st, x.nil is False and not st.heap[E.norm(st, x.oid)].ups and st.heap[E.norm(st, x.oid)].base is None, '%s starts empty' % what)
                else:
                    E.must(st, eq(E.slen(st, x), 0), '%s starts empty' % what)
            elif k == S.mu[child]:
                pass
            elif child == 'part' and k == S.index:
                E.must(st, eq(x, key, 32), '%s carries its number' % what)
            else:
                E.must(st, iszero(E, st, x, f['type']), '%s: field %s starts at zero' % (what, f['name']))
        for l in st.locks:
            if l[0] != 'lock' and E.okey(v.oid) in l:
                E.must(st, False, E.lockobl + '%s is not locked' % what)
        st.alias[o] = soid
        st.heap.pop(o, None)
        st.assume(eq(born, t))
        ev(st, 'new' + child, *soid[2])


def iszero(E, st, x, tid):
    t = E.t(tid)
    if isinstance(x, (bool, int)) or isz(x):
        return lnot(x) if t.isbool else eq(x, 0, t.width or 64)
    n = E.isnil(x) if not isinstance(x, Rope) else eq(x.len(), 0)
    return n


def records(E, st, args, t, v):
    S = E.store_schema
    n = nrec(args[0], bv(args[1], 32), t)
    r = E.force(st, E.srope(st, v))
    if not r.segs:
        E.must(st, eq(n, 0), 'existing records stay')
        return
    x = r.segs[0]
    if not (isinstance(x, X) and isinstance(x.tmpl, Ptr) and E.issym(x.tmpl.oid) and x.tmpl.oid[1] == 'rec'):
        if E.entails(st, eq(n, 0)):
            x, rest = None, r.segs
        else:
            violated(E, st, 'existing records stay where they are')
    else:
        rest = r.segs[1:]
        E.must(st, land(eq(x.off, 0), eq(x.len, n), simp(x.tmpl.oid[2][0] == args[0]), eq(x.tmpl.oid[2][1], bv(args[1], 32), 32), simp(x.tmpl.oid[2][2] == x.iv)), 'existing records stay where they are')
    for k, s in enumerate(rest):
        if not isinstance(s, V) or not isinstance(s.v, Ptr):
            raise Unsupported('records appended: %r' % (s,))
        o = E.norm(st, s.v.oid)
        if E.issym(o):
            violated(E, st, 'an appended record is a new object')
        c = fresh_object(E, st, s.v, 'rec', 'an appended record')
        vals = [spec.snapshot(E, st, q) if not isinstance(q, Dead) else q for q in c.vals]
        ev(st, 'append', args[0], bv(args[1], 32), StructV(vals, c.tid))
        st.alias[o] = ('sym', 'rec', (args[0], bv(args[1], 32), add(n, k)))
        st.heap.pop(o, None)


def offsets(E, st, args, t, mo):
    for key, v in mo.ups:
        g = E.strterm(st, key)
        if v is DEL:
            violated(E, st, 'committed offsets are never removed')
        ev(st, 'offset', args[0], bv(args[1], 32), g, v, co(args[0], bv(args[1], 32), g, t))
