"""Start, stop, restart and the registry of connections (C21; the registry part of C19).

The server object is shared by the caller, the accept task and the end-of-connection callbacks.  Its lock
guards the registry.  Known while the lock is held: every entry belongs to a connection accepted in this run
whose callback has not run; keys of earlier connections are at most `lastkey`.  Every release is obliged to
keep that: the accept task may only add the client it just made under a new key, a callback may only remove
the entry of its own connection, Start may only begin with an empty registry, nothing else may change it."""
import types
from .terms import *
from .values import *
from . import solver, natives, spec, maps, server, dispatch, store
from .exec import Engine, St, Split, Infeasible, GoPanic
from .natives import err, Natives
from .store import ev, violated, BV

KM = ('sym', 'km', ())
REG = 'the registry of connections'
N = Natives()


class Clients(maps.MapKind):
    key = BV

    def n(self, E, st, args):
        n = z3.Function('nclients', BV, BV)
        solver.register('nclients', lambda a: [z3.And(z3.BitVecVal(0, 64) <= a, a <= z3.BitVecVal(1 << 40, 64))], 'nclients')
        return n(bv(args[0], 64))

    def has(self, E, st, args, key):
        return z3.Function('hasclient', BV, BV, z3.BoolSort())(bv(args[0], 64), key)

    def val(self, E, st, args, key):
        return Ptr(('sym', 'client', (bv(args[0], 64), key)))


class Shape:
    def __init__(self, E):
        t = self.t = dispatch.struct_type(E, 'KafkaMock')
        at = {f['name']: k for k, f in enumerate(t.fields)}
        for n in ('started', 'clients', 'ds'):
            if n not in at:
                raise Unsupported('no field %s of the server' % n)
        self.at = at
        self.started, self.clients, self.ds = at['started'], at['clients'], at['ds']
        self.stopped = at.get('stopped')
        ft = lambda k: E.t(t.fields[k]['type'])
        mus = [k for k in range(len(t.fields)) if ft(k).name == 'Mutex' and ft(k).pkg == 'sync']
        if len(mus) != 1:
            raise Unsupported('locks of the server')
        self.mu = mus[0]
        if ft(self.clients).kind != 'map' or E.t(ft(self.clients).key).width != 64:
            raise Unsupported('shape of the registry')
        for k in (self.started, self.stopped):
            if k is not None and not (ft(k).name == 'Bool' and ft(k).pkg == 'sync/atomic'):
                raise Unsupported('flags of the server')
        self.lane = [k for k in range(len(t.fields)) if ft(k).str.endswith('lane.Lane')]
        self.wgs = [k for k in range(len(t.fields)) if ft(k).name == 'WaitGroup']

    def name(self, k):
        return self.t.fields[k]['name']


def install(E):
    store.install(E)
    E.mapkinds['clients'] = Clients('clients')
    E.natives.update(N.n)
    E.invokes.update(N.i)
    E.km = Shape(E)
    E.kmrole = None
    E.kmwait = None
    E.hooks['lock'] = lock
    E.hooks['unlock'] = unlock
    E.hooks['optype'] = optype
    E.hooks['newmap'] = None
    for n in ('initializeApis',):
        if E.p.pkg + '.' + n in E.p.funcs:
            E.contracts[E.p.pkg + '.' + n] = lambda E, st, a, ins: None
    if E.p.pkg + '.newKafkaClient' in E.p.funcs:
        E.contracts[E.p.pkg + '.newKafkaClient'] = c_newclient
    access0, init0 = E.access, E.kinds_init

    def init(st, oid):
        if oid[1] == 'km':
            return E.kmcell
        return init0(st, oid)

    def access(st, oid, path, write):
        if oid[1] == 'km':
            return kmaccess(E, st, path, write)
        if oid[1] == 'client':
            raise Unsupported('access to a registered client')
        return access0(st, oid, path, write)
    E.kinds_init, E.access = init, access


def optype(E, v, t):
    k = {'conn': ('*net.TCPConn',), 'addr': ('*net.TCPAddr',), 'listener': ('*net.TCPListener',), 'err': ()}.get(v.kind)
    return k is not None and t.str in k


def server_object(E, st, started, stopped, fresh=False, listener=True):
    """the server in an arbitrary state between operations"""
    S = E.km
    vals = []
    for k, f in enumerate(S.t.fields):
        t = E.t(f['type'])
        if k == S.started:
            v = Op('ABool', (started,))
        elif k == S.stopped:
            v = Op('ABool', (stopped,))
        elif k == S.clients:
            v = Dead(REG + ' without the lock')
        elif k == S.ds:
            v = Ptr(store.DS)
        elif k in S.lane:
            v = Iface('op', Op('lane', (f['name'],)))
        elif t.kind == 'func':
            v = E.zero(f['type']) if fresh else FuncV('opq:' + f['name'])
        elif t.str == 'net.Listener':
            v = Iface('op', Op('listener', (0,))) if listener and not fresh else NILI
        elif t.kind == 'basic' and t.isint:
            v = z3.BitVec('km.' + f['name'], t.width)
        elif t.kind == 'basic' and t.isbool:
            v = z3.Bool('km.' + f['name'])
        else:
            v = E.zero(f['type'])
        vals.append(v)
    E.kmcell = StructV(vals, S.t.id)
    E.kmfresh = fresh
    st.heap[E.okey(KM)] = E.kmcell
    return Ptr(KM)


# ------------------------------------------------------------------ access and lock
MU = ('kmlock',)


def kmaccess(E, st, path, write):
    S = E.km
    if not path:
        raise Unsupported('copy of the server object')
    f = path[0]
    if f == S.clients:
        what = E.lockobl + '%s %s only with the lock' % (REG, 'changes' if write else 'is read')
        if MU not in st.locks:
            violated(E, st, what)
        E.record(what, what, 'discharged')
    elif f == S.ds and write:
        violated(E, st, 'the store of a server is never replaced')


def lock(E, st, p):
    E.nilcheck(st, p)
    oid = E.norm(st, p.oid)
    if oid != KM:
        return store.lock(E, st, p)
    S = E.km
    if p.path != (S.mu,):
        raise Unsupported('lock of %r' % (p,))
    what = E.lockobl + 'the lock of the server is acquired first and once'
    if st.locks:
        violated(E, st, what)
    E.record(what, what, 'discharged')
    t = E.fresh(st, 'epoch', BV)
    st.assume(land(slt(st.g['now'], t), sle(t, store.END)))
    st.g['now'] = t
    m = ('m', KM, S.clients)
    mine = st.g.get('mykey')
    ups = ((mine[0], mine[1]),) if mine else ()
    st.heap[E.okey(m)] = MapObj(SymMap('clients', (t,)), ups)
    st.g['kmups'] = len(ups)
    c = st.heap[E.okey(KM)]
    vals = list(c.vals)
    vals[S.clients] = MapV(m)
    st.heap[E.okey(KM)] = StructV(vals, c.tid)
    st.locks = st.locks + (MU,)
    return (None,)


def unlock(E, st, p):
    E.nilcheck(st, p)
    oid = E.norm(st, p.oid)
    if oid != KM:
        return store.unlock(E, st, p)
    S = E.km
    what = E.lockobl + 'only a held lock is released'
    if MU not in st.locks:
        violated(E, st, what)
    E.record(what, what, 'discharged')
    c = st.heap[E.okey(KM)]
    m = ('m', KM, S.clients)
    v = c.vals[S.clients]
    if isinstance(v, MapV) and v.oid == m:
        mo = st.heap[E.okey(m)]
        if type(mo) is Op or mo.acc.segs:
            raise Unsupported('a loop changes ' + REG)
        ups = mo.ups[st.g['kmups']:]
        for key, x in ups:
            changed(E, st, key, x)
    else:
        replaced(E, st, v)
    st.locks = tuple(l for l in st.locks if l != MU)
    st.heap.pop(E.okey(m), None)
    vals = list(c.vals)
    vals[S.clients] = E.kmcell.vals[S.clients]
    st.heap[E.okey(KM)] = StructV(vals, c.tid)
    return (None,)


def changed(E, st, key, x):
    k = bv(key, 64)
    if E.kmrole == 'accept':
        if x is DEL or not isinstance(x, Ptr):
            violated(E, st, 'accepting connections only adds to ' + REG)
        made = st.g.get('made', ())
        mine = [c for c in made if E.okey(c[0].oid) == E.okey(E.norm(st, x.oid))]
        if not mine:
            violated(E, st, 'what is registered is the client just made for the connection')
        E.must(st, eq(mine[0][2], st.g['now']), 'a connection cannot end before it is registered')
        last = st.g['lastkey']
        E.must(st, slt(last, k), 'a connection is registered under a key that no other connection has or had')
        st.g['lastkey'] = k
        ev(st, 'reg', k, x, mine[0][1])
        return
    if E.kmrole == 'callback':
        if x is not DEL:
            violated(E, st, 'the end of a connection only removes from ' + REG)
        E.must(st, eq(k, st.g['mykey'][0]), 'the end of a connection removes its own entry and no other')
        ev(st, 'unreg', k)
        return
    violated(E, st, '%s does not change in %s' % (REG, E.kmrole))


def replaced(E, st, v):
    empty = isinstance(v, MapV) and v.nil is False and v.oid is not None
    if empty:
        mo = E.mapobj(st, v)
        empty = type(mo) is not Op and mo.base is None and not mo.ups and not mo.acc.segs
    E.must(st, bool(empty), 'a run begins with an empty registry')
    sets = [e for e in events(st) if e.kind == 'started']
    if E.kmrole == 'init':
        return
    E.must(st, E.kmrole in ('start', 'restart') and len(sets) == 1, '%s is only begun anew by a start' % REG)
    E.must(st, lnot(sets[0].args[1]) if sets else False, '%s is only begun anew when the previous run has ended' % REG)
    ev(st, 'newreg')


def events(st):
    return [x.v for x in st.trace.segs if isinstance(x, V) and isinstance(x.v, Ev)]


# ------------------------------------------------------------------ atomics, wait groups
def isflag(E, st, p, k):
    return k is not None and E.norm(st, p.oid) == KM and p.path == (k,)


def aval(E, st, p):
    return E.load(st, p).args[0]


def setflag(E, st, p, v, old):
    if isflag(E, st, p, E.km.started):
        ev(st, 'started', v, old, MU in st.locks)
    E.store(st, p, Op('ABool', (v,)))


@N.fn('(*sync/atomic.Bool).Load')
def ab_load(E, st, a, ins):
    v = aval(E, st, a[0])
    if isflag(E, st, a[0], E.km.started) and MU not in st.locks and E.kmrole in ('start', 'stop'):
        # another call may change it at any time
        return E.fresh(st, 'flag', z3.BoolSort()) if not E.kmfresh else v
    return v


@N.fn('(*sync/atomic.Bool).Store')
def ab_store(E, st, a, ins):
    setflag(E, st, a[0], a[1], aval(E, st, a[0]))


@N.fn('(*sync/atomic.Bool).Swap')
def ab_swap(E, st, a, ins):
    v = aval(E, st, a[0])
    setflag(E, st, a[0], a[1], v)
    return v


@N.fn('(*sync/atomic.Bool).CompareAndSwap')
def ab_cas(E, st, a, ins):
    v = aval(E, st, a[0])
    if E.decide(st, simp(zb(v) == zb(a[1]))):
        setflag(E, st, a[0], a[2], v)
        return True
    return False


@N.fn('(*sync.WaitGroup).Add', '(*sync.WaitGroup).Done', '(*sync.WaitGroup).Wait')
def wg(E, st, a, ins):
    op = E.wgop
    if E.norm(st, a[0].oid) == KM:
        ev(st, 'wg', op, a[0].path[0], 1 if op == 'Done' else a[1] if op == 'Add' else 0, MU in st.locks)
        if op == 'Wait':
            if MU in st.locks:
                E.must(st, False, E.lockobl + 'nothing is waited for with the lock of the server')
            if E.kmwait is not None and a[0].path[0] in E.kmwait:
                # the accept task has ended: its last act is to mark the server as not started
                E.store(st, Ptr(KM, (E.km.started,)), Op('ABool', (False,)))
    return None


def wgfn(op):
    def f(E, st, a, ins):
        E.wgop = op
        return wg(E, st, a, ins)
    return f


for _n in ('Add', 'Done', 'Wait'):
    N.n['(*sync.WaitGroup).' + _n] = wgfn(_n)


# ------------------------------------------------------------------ lanes, sockets
@N.inv(('lane', 'DeriveWithCancel'), ('lane', 'DeriveWithoutCancel'), ('lane', 'Derive'))
def derive(E, st, a, ins):
    l = Iface('op', Op('lane', ('derived',)))
    return Tup([l, FuncV('opq:cancel')])


@N.fn('net.Listen')
def listen(E, st, a, ins):
    bad = st.copy()
    return [(bad, Tup([NILI, err('listen')])), (st, Tup([Iface('op', Op('listener', (1,))), NILI]))]


@N.inv(('listener', 'Accept'))
def accept(E, st, a, ins):
    bad = st.copy()
    c = Iface('op', Op('conn', (E.newoid(),)))
    ev(st, 'accepted', c.val.args[0])
    return [(bad, Tup([NILI, err('accept')])), (st, Tup([c, NILI]))]


@N.inv(('listener', 'Close'))
def lclose(E, st, a, ins):
    ev(st, 'lclose')
    return NILI


@N.inv(('listener', 'Addr'))
def laddr(E, st, a, ins):
    return Iface('op', Op('addr', (a[0],)))


@N.inv(('conn', 'Close'))
def cclose(E, st, a, ins):
    ev(st, 'closed', a[0].args[0])
    return NILI


@N.fn('opq-call')
def opq(E, st, a, ins):
    ev(st, 'call', a[0].name)
    return None


def c_newclient(E, st, args, ins):
    """a client task for a connection; it may end, and call back, at any time from now on"""
    conn = [a for a in args if isinstance(a, Iface) and isinstance(a.val, Op) and a.val.kind == 'conn']
    ds = [a for a in args if isinstance(a, Ptr)]
    oc = [a for a in args if isinstance(a, FuncV)]
    if len(conn) != 1 or len(oc) != 1 or len(ds) != 1:
        raise Unsupported('arguments of newKafkaClient')
    E.must(st, E.norm(st, ds[0].oid) == store.DS, 'a client works on the store of the server')
    E.must(st, MU in st.locks, 'a connection cannot end before it is registered')
    p = Ptr(E.alloc(st, Op('client', (conn[0].val.args[0],))))
    st.g['made'] = st.g.get('made', ()) + ((p, conn[0].val.args[0], st.g['now']),)
    ev(st, 'client', conn[0].val.args[0], p, oc[0])
    return p


# ------------------------------------------------------------------ the accept loop
def accepts(E, f, L):
    def t(i, seen):
        if i.get('invoke') == 'Accept':
            return True
        n = i.get('fn', {}).get('n') if i['op'] == 'call' else None
        g = E.p.funcs.get(n)
        if g is None or g.pkg != E.p.pkg or n in seen or not g.blocks:
            return False
        seen.add(n)
        return any(t(j, seen) for b in g.blocks for j in b['i'])
    return any(t(i, set()) for b in L.body for i in f.blocks[b]['i'])


def isnum(v):
    return isinstance(v, int) and not isinstance(v, bool) or z3.is_bv(v) if isz(v) else isinstance(v, int) and not isinstance(v, bool)


BOUND = {1: sle, 2: slt}      # how a variable bounds the keys used so far


def content(E, st, v):
    """the number in a variable"""
    if isinstance(v, Ptr) and isinstance(v.oid, int) and not v.path and v.nil is False:
        return st.heap.get(v.oid)
    return v


def accept_loop(E, f, L, prev, env, defers, st):
    if not accepts(E, f, L):
        return None
    S = E.km
    blk = f.blocks[L.header]
    env = dict(env)
    E.phis(blk, L.header, prev, env)
    phis = [i for i in blk['i'] if i['op'] == 'phi']
    known = set(st.heap)
    havoc = {}            # slot -> does it bound the keys used so far
    base = E.ctr.n
    for rnd in range(16):
        s = st.copy()
        e = dict(env)
        last = E.fresh(s, 'lastkey', BV)
        s.g['lastkey'] = last
        s.g['made'] = ()
        s.trace = Rope([])

        def anyval(old, slot):
            if isnum(old):
                w = old.size() if isz(old) else 64
                n = E.fresh(s, 'any', bvsort(w))
                if w == 64:
                    s.assume(land(sle(n, 1 << 61), sle(-(1 << 61), n)))       # fewer connections than that
                    if havoc[slot]:
                        s.assume(BOUND[havoc[slot]](last, n))
                return n
            if isinstance(old, Ptr) and isnum(content(E, st, old)):
                # a variable made anew in each iteration
                return Ptr(E.alloc(s, anyval(content(E, st, old), slot)))
            if isinstance(old, bool) or isz(old) and z3.is_bool(old):
                return E.fresh(s, 'any', z3.BoolSort())
            if isinstance(old, Op) and old.kind in ('WG', 'Mutex'):
                return old
            return Dead('a variable changed by the accept loop')
        for h in havoc:
            if h[0] == 'phi':
                e[h[1]] = anyval(env[h[1]], h)
            elif h[0] == 'cell':
                s.heap[h[1]] = anyval(st.heap[h[1]], h)
            else:
                c = s.heap[E.okey(KM)]
                vs = list(c.vals)
                vs[h[1]] = anyval(st.heap[E.okey(KM)].vals[h[1]], h)
                s.heap[E.okey(KM)] = StructV(vs, c.tid)
        s.writes = set()
        nobl = len(E.obls)
        start = s.copy()
        outs = E.region(f, L.header, prev, e, defers, s, L, True)
        again = False
        for o in outs:
            if o[0] != 'back' or not E.feasible(o[1]):
                continue
            _, bs, be, bd, bp = o
            if len(bd) != len(defers):
                raise Unsupported('defer inside a loop')

            def end(slot):
                if slot[0] == 'phi':
                    i = [i for i in phis if i['r'] == slot[1]][0]
                    return content(E, bs, E.ev(i['edges'][blk['preds'].index(bp)], be))
                return bs.heap[slot[1]] if slot[0] == 'cell' else bs.heap[E.okey(KM)].vals[slot[1]]
            for i in phis:
                nv = end(('phi', i['r']))
                ov = env[i['r']]
                if ('phi', i['r']) not in havoc and nv is not ov and not (isinstance(nv, (int, bool)) and type(nv) == type(ov) and nv == ov):
                    havoc[('phi', i['r'])] = 2 * isnum(content(E, st, ov))
                    again = True
            for k in bs.writes:
                if k not in known:
                    continue
                if k == E.okey(KM):
                    for n, (a, b) in enumerate(zip(st.heap[k].vals, bs.heap[k].vals)):
                        if n == S.started and a is not b:
                            violated(E, bs, 'the server stays started while it accepts connections')
                        if a is not b and n != S.clients and ('km', n) not in havoc:
                            havoc[('km', n)] = 2 * isnum(a)
                            again = True
                elif ('cell', k) not in havoc:
                    havoc[('cell', k)] = 2 * isnum(st.heap[k])
                    again = True
            if again:
                continue
            for h, b in havoc.items():
                if b:
                    v = end(h)
                    ini = content(E, st, env[h[1]]) if h[0] == 'phi' else st.heap[h[1]] if h[0] == 'cell' else st.heap[E.okey(KM)].vals[h[1]]
                    if not isnum(v) or (isz(v) and v.size() != 64) or not isnum(ini):
                        havoc[h] = 0
                        again = True
                    elif not E.entails(bs, BOUND[b](bs.g['lastkey'], v)):
                        havoc[h] = b - 1
                        again = True
        if not again:
            break
        del E.obls[nobl:]
        E.ctr.n = base
    else:
        raise Unsupported('accept loop state')
    res = []
    nback = nreg = 0
    good = None
    for o in outs:
        if o[0] != 'back':
            if E.feasible(o[1]):
                o[1].writes = None
                o[1].trace = st.trace + o[1].trace
                o[1].g['inloop'] = False
                res.append(o)
            continue
        bs = o[1]
        if not E.feasible(bs):
            continue
        nback += 1
        evs = events(bs)
        E.must(bs, not bs.locks, E.lockobl + 'no lock is held between connections')
        for x in evs:
            if x.kind == 'started':
                E.must(bs, False, 'the server stays started while it accepts connections')
        for x in evs:
            if x.kind != 'accepted':
                continue
            cl = [y for y in evs if y.kind == 'client' and y.args[0] == x.args[0]]
            rg = [y for y in evs if y.kind == 'reg' and y.args[2] == x.args[0]]
            cd = [y for y in evs if y.kind == 'closed' and y.args[0] == x.args[0]]
            E.must(bs, len(cl) == len(rg) and len(cl) <= 1, 'every connection that is served is registered, once')
            E.must(bs, len(cl) == 1 or len(cd) == 1, 'every accepted connection is served or closed')
            if not cl or not rg:
                continue
            nreg += 1
            g = callback(E, f, bs, start, havoc, st, cl[0].args[2], rg[0], evs)
            good = g if good is None else good & g
    if not nback or not nreg:
        raise Unsupported('accept loop does not register connections')
    E.kmcounted = good
    E.loopstats['invariant'] = E.loopstats.get('invariant', 0) + 1
    return res


def callback(E, f, bs, start, havoc, st, oc, reg, evs):
    """the end of a connection, at any later time; -> the wait groups that count it"""
    cs = bs.copy()
    for h in havoc:
        if h[0] == 'cell':
            cs.heap[h[1]] = start.heap[h[1]]
            if isz(cs.heap[h[1]]):
                cs.heap[h[1]] = E.fresh(cs, 'later', cs.heap[h[1]].sort())
        elif h[0] == 'km':
            c = cs.heap[E.okey(KM)]
            vs = list(c.vals)
            v = start.heap[E.okey(KM)].vals[h[1]]
            vs[h[1]] = E.fresh(cs, 'later', v.sort()) if isz(v) else v
            cs.heap[E.okey(KM)] = StructV(vs, c.tid)
    cs.trace = Rope([])
    cs.g['mykey'] = (reg.args[0], reg.args[1])
    adds = {}
    for n, x in enumerate(evs):
        if x.kind == 'wg' and x.args[0] == 'Add':
            adds.setdefault(x.args[1], []).append((n, x))
    ireg = [n for n, x in enumerate(evs) if x is reg][0]
    role, E.kmrole = E.kmrole, 'callback'
    good = None
    try:
        for o in E.docall(cs, oc, (), None, None):
            if not E.feasible(o[1]):
                continue
            s = o[1]
            E.must(s, o[0] == 'ret', 'the end of a connection is handled without a panic')
            if o[0] != 'ret':
                continue
            es = events(s)
            un = [n for n, x in enumerate(es) if x.kind == 'unreg']
            E.must(s, len(un) == 1, 'the end of a connection removes its entry')
            E.must(s, not s.locks, E.lockobl + 'no lock is held when the callback of a connection returns')
            w = set()
            for k, l in adds.items():
                d = [(n, x) for n, x in enumerate(es) if x.kind == 'wg' and x.args[1] == k and x.args[0] == 'Done']
                if len(d) == 1 and un and (d[0][1].args[3] or d[0][0] > un[0]) and len(l) == 1 and l[0][1].args[2] == 1 and l[0][0] <= ireg:
                    w.add(k)
                elif len(d) == 1 and un and (d[0][1].args[3] or d[0][0] > un[0]) and len(l) == 1 and l[0][1].args[2] == 1 and l[0][1].args[3]:
                    w.add(k)
            good = w if good is None else good & w
    finally:
        E.kmrole = role
    if good is None:
        raise Unsupported('the callback does not return')
    return good


# ------------------------------------------------------------------ tasks
def fn(E, name):
    return dispatch.method(E, 'KafkaMock', name)


def run(E, st, name, args=()):
    return [o for o in E.call(st, fn(E, name), [Ptr(KM)] + list(args)) if E.feasible(o[1])]


def same_store(E, s, what):
    E.must(s, isinstance(s.heap[E.okey(KM)].vals[E.km.ds], Ptr) and E.norm(s, s.heap[E.okey(KM)].vals[E.km.ds].oid) == store.DS, '%s: the server keeps its store' % what)
    E.must(s, not any(x.kind in ('append', 'newtopic', 'newpart', 'offset') for x in events(s)), '%s: no stored data changes' % what)
    E.must(s, not s.locks, E.lockobl + 'no lock is held when %s returns' % what)


def newstate(E):
    st = St()
    store.begin(E, st)
    return st


def prove_run(E):
    install(E)
    E.kmrole = 'accept'
    E.loop_handlers.append(accept_loop)
    st = newstate(E)
    km = server_object(E, st, True, z3.Bool('km.stopped'), listener=False)
    st.g['lastkey'] = z3.BitVecVal(-(1 << 62), 64)
    n = 0
    final = None
    for o in run(E, st, 'run'):
        s = o[1]
        if o[0] == 'panic':
            continue          # the process ends
        n += 1
        same_store(E, s, 'the accept task')
        evs = events(s)
        off = [k for k, x in enumerate(evs) if x.kind == 'started']
        E.must(s, len(off) == 1 and E.decide(s, lnot(evs[off[0]].args[0])), 'when the accept task ends the server can be started again')
        if len(off) != 1:
            continue
        waited = {x.args[1] for x in evs[:off[0]] if x.kind == 'wg' and x.args[0] == 'Wait'}
        E.must(s, bool(waited & E.kmcounted), 'the server can be started again only after its connections have ended')
        E.must(s, not any(x.kind in ('accepted', 'client', 'reg') for x in evs[off[0]:]), 'no connection is accepted after that')
        done = {x.args[1] for x in evs[off[0]:] if x.kind == 'wg' and x.args[0] == 'Done'}
        final = done if final is None else final & done
    if not n or not E.loopstats.get('invariant'):
        raise Unsupported('the accept task does not end')
    return final


def prove_lifecycle(E):
    """Start, RequestStop, WaitForTermination, Restart, FinishRequests from every state between operations"""
    final = prove_run(E)
    E.loop_handlers.remove(accept_loop)
    started = z3.Bool('km.started')
    # Start
    E.kmrole = 'start'
    begun = None
    for lst in (True, False):
        st = newstate(E)
        server_object(E, st, started, z3.Bool('km.stopped'), listener=lst)
        ok = 0
        for o in run(E, st, 'Start'):
            s = o[1]
            evs = events(s)
            gos = [x for x in evs if x.kind == 'go']
            same_store(E, s, 'Start')
            sets = [x for x in evs if x.kind == 'started']
            if o[0] == 'panic':
                E.must(s, started, 'a server that is not running can be started')
                E.must(s, not gos and not any(x.kind == 'newreg' for x in evs), 'a start that panics has no effect')
                E.must(s, aval(E, s, Ptr(KM, (E.km.started,))), 'a start that panics leaves the server running')
                continue
            ok += 1
            E.must(s, lnot(started), 'starting a running server panics')
            E.must(s, len(sets) == 1, 'a start marks the server as started')
            E.must(s, lnot(sets[0].args[1]) if sets else False, 'of two starts only one succeeds')
            E.must(s, aval(E, s, Ptr(KM, (E.km.started,))), 'a start marks the server as started')
            E.must(s, len(gos) == 1 and gos[0].args[0].name == fn(E, 'run'), 'a start begins one accept task')
            E.must(s, any(x.kind == 'newreg' for x in evs), 'a start begins with an empty registry')
            g = evs.index(gos[0]) if gos else 0
            adds = {x.args[1] for x in evs[:g] if x.kind == 'wg' and x.args[0] == 'Add'}
            begun = adds if begun is None else begun & adds
        if not ok:
            E.must(st, False, 'a server that is not running can be started')
    E.kmwait = (final or set()) & (begun or set())
    if not E.kmwait:
        raise Unsupported('what the end of a run is waited for with')
    # stop: in every state, also before any start, and again
    for role, name in (('stop', 'RequestStop'), ('wait', 'WaitForTermination')):
        E.kmrole = role
        for fresh in (True, False):
            for lst in (True, False):
                if fresh and lst:
                    continue
                st = newstate(E)
                b = False if fresh else started
                server_object(E, st, b, z3.Bool('km.stopped'), fresh=fresh, listener=lst)
                n = 0
                for o in run(E, st, name):
                    s = o[1]
                    n += 1
                    same_store(E, s, name)
                    E.must(s, o[0] == 'ret', '%s: works in every state of the server' % name)
                    E.must(s, not any(x.kind == 'started' for x in events(s)), '%s does not mark the server as not running' % name)
                    if name == 'RequestStop' and E.km.stopped is not None and any(x.kind in ('lclose', 'call') for x in events(s)):
                        E.must(s, lnot(z3.Bool('km.stopped')), 'stopping again has no effect')
                        E.must(s, sum(x.kind == 'lclose' for x in events(s)) <= 1, 'the listener is closed once')
                if not n:
                    raise Unsupported(name + ' does not return')
    # restart
    E.kmrole = 'restart'
    for lst in (True, False):
        st = newstate(E)
        server_object(E, st, started, z3.Bool('km.stopped'), listener=lst)
        n = 0
        for o in run(E, st, 'Restart'):
            s = o[1]
            n += 1
            same_store(E, s, 'Restart')
            E.must(s, o[0] == 'ret', 'Restart does not panic')
            gos = [x for x in events(s) if x.kind == 'go']
            E.must(s, len(gos) == 1 and gos[0].args[0].name == fn(E, 'run'), 'Restart begins one accept task')
            E.must(s, aval(E, s, Ptr(KM, (E.km.started,))), 'after Restart the server is started')
        if not n:
            raise Unsupported('Restart does not return')
    if any(f.endswith('KafkaMock).FinishRequests') for f in E.p.funcs):
        E.kmrole = 'finish'
        st = newstate(E)
        server_object(E, st, True, z3.Bool('km.stopped'))
        for o in run(E, st, 'FinishRequests'):
            same_store(E, o[1], 'FinishRequests')


def prove_newserver(E):
    """a new server is not started and has an empty store of its own"""
    install(E)
    E.kmrole = 'init'
    st = newstate(E)
    f = E.p.funcs.get(E.p.pkg + '.NewKafkaMock')
    if f is None:
        raise Unsupported('no NewKafkaMock')
    args = []
    for p in f.j['params']:
        t = E.t(p['t'])
        args.append(Iface('op', Op('lane', ('parent',))) if t.str.endswith('lane.Lane') else E.sym(p['t'], 'arg.' + p['n']))
    S = E.km
    n = 0
    for s, km in spec_panics(E, E.call(st, f.name, args)):
        n += 1
        v = E.load(s, Ptr(km.oid))
        E.must(s, lnot(v.vals[S.started].args[0]), 'a new server is not started')
        d = v.vals[S.ds]
        E.must(s, isinstance(d, Ptr) and d.nil is False and isinstance(E.norm(s, d.oid), int), 'a new server has a store of its own')
        ms = [x for x in E.load(s, d).vals if isinstance(x, MapV)]
        E.must(s, len(ms) == 1 and ms[0].oid is not None and not s.heap[E.norm(s, ms[0].oid)].ups, 'the store of a new server is empty')
    if not n:
        raise Unsupported('NewKafkaMock does not return')


def spec_panics(E, outs):
    for o in outs:
        if not E.feasible(o[1]):
            continue
        E.must(o[1], o[0] == 'ret', 'a server can be created')
        if o[0] == 'ret':
            yield o[1], o[2]


def prove_oneend(E):
    """a client task calls back exactly once, at its end"""
    dispatch.install(E)
    E.invokes[('conn', 'Read')] = dispatch.conn_read
    E.hooks['atomic'] = dispatch.stop_flag
    E.c07 = spec.Eq(E, 'handle')
    disp = dispatch.method(E, 'kafkaClient', 'dispatcher')
    E.contracts[disp] = dispatch.c_dispatcher
    E.c07names = {disp}
    oc = []
    what = 'a client task calls back once, when it ends'

    def call(E, st, a, ins):
        ev(st, 'oc', a[0].name)
        return None
    E.natives['opq-call'] = call

    def loop(E, f, L, prev, env, defers, st):
        region = E.region

        def watched(f2, b0, prev0, env2, defers2, st2, loop2, first=False):
            outs = region(f2, b0, prev0, env2, defers2, st2, loop2, first)
            if loop2 is L:
                for o in outs:
                    if o[0] == 'back' and E.feasible(o[1]):
                        E.must(o[1], not any(x.kind == 'oc' for x in events(o[1])), what)
            return outs
        E.region = watched
        try:
            return dispatch.read_loop(E, f, L, prev, env, defers, st)
        finally:
            E.region = region
    E.loop_handlers.append(loop)
    st = St()
    kc, t = dispatch.newclient(E, st)
    for k, f in enumerate(t.fields):
        if E.t(f['type']).isbytes:
            E.store(st, Ptr(kc.oid, (k,)), RSlice(E_, False))
    E.c07kc = kc
    dispatch.setghost(E, st, E_)
    n = 0
    for o in E.call(st, dispatch.method(E, 'kafkaClient', 'handle'), [kc]):
        if not E.feasible(o[1]) or o[0] == 'panic':
            continue
        n += 1
        E.must(o[1], sum(x.kind == 'oc' for x in events(o[1])) == 1, what)
    if not n:
        raise Unsupported('a client task does not end')
