"""The server around the codec: package initialisation, dispatch, connections, the read loop."""
from .terms import *
from .values import *
from . import solver, natives, spec, maps
from .exec import GoPanic, Split, Infeasible, St, Engine
from .natives import err, Natives

N = Natives()


def install(E):
    natives.install(E)
    E.natives.update(N.n)
    E.invokes.update(N.i)
    E.hooks['select'] = select
    E.hooks['optype'] = optype
    E.hooks['sort'] = sort_hook
    E.hooks['loop'] = loop_hook
    E.mapkinds['conc'] = Conc('conc')
    E.loop_handlers = []


def loop_hook(E, f, L, prev, env, defers, st):
    for h in E.loop_handlers:
        r = h(E, f, L, prev, env, defers, st)
        if r is not None:
            return r
    return maprange(E, f, L, prev, env, defers, st)


# ------------------------------------------------------------------ maps with literal keys, in any order
class Conc(maps.MapKind):
    """a map whose keys are known; args: an index into Conc.tab"""
    tab = {}

    def n(self, E, st, args):
        return len(self.ent(args))

    def ent(self, args):
        a = args[0]
        return Conc.tab[a if isinstance(a, int) else a.as_long()]

    def has(self, E, st, args, key):
        return lor(*[eq(key, k, 64) for k, v in self.ent(args)])

    def val(self, E, st, args, key):
        es = self.ent(args)
        r = es[-1][1]
        for k, v in reversed(es[:-1]):
            r = merge(eq(key, k, 64), v, r)
        return r


def merge(c, a, b):
    """if c then a else b, leaf by leaf"""
    if isinstance(a, (bool, int)) or isz(a):
        if isinstance(a, bool) or isz(a) and z3.is_bool(a):
            return simp(z3.If(zb(c), zb(a), zb(b))) if not (isinstance(a, bool) and a is b) else a
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        w = a.size() if isz(a) else b.size() if isz(b) else merge.w
        return ite(c, a, b, w)
    if isinstance(a, StructV):
        return StructV([mergew(c, x, y, w) for x, y, w in zip(a.vals, b.vals, fieldw(a.tid, len(a.vals)))], a.tid)
    raise Unsupported('merge of %r' % (a,))


def mergew(c, a, b, w):
    merge.w = w
    return merge(c, a, b)


def fieldw(tid, n):
    t = merge.E.t(tid)
    return [merge.E.t(f['type']).width or 64 for f in t.fields]


merge.w = 64
merge.E = None


def maprange(E, f, L, prev, env, defers, st):
    """a range over a map with known keys: every order must give the same result"""
    it = None
    for i in f.blocks[L.header]['i']:
        if i['op'] == 'next':
            it = E.ev(i['x'], env)
    if not isinstance(it, Iter):
        return None
    o = st.heap.get(it.oid)
    if not isinstance(o, Op) or o.kind != 'MapIter' or o.args[1] != 0:
        return None
    m = o.args[0]
    if m.oid is None:
        return None
    mo = E.mapobj(st, m)
    if type(mo) is Op or mo.base is not None or mo.acc.segs or len(mo.ups) < 2:
        return None
    key = ('order-free', it.oid)
    if st.g.get(key):
        return None
    nobl = len(E.obls)
    try:
        return commuting(E, f, L, prev, env, defers, st.copy(), it, len(mo.ups))
    except NotCommuting:
        del E.obls[nobl:]
    # the general way: an arbitrary enumeration of the keys
    if not all(isinstance(k, int) for k, v in mo.ups):
        raise Unsupported('order of a map with literal string keys')
    merge.E = E
    n = len(Conc.tab)
    Conc.tab[n] = [(mask(k, 64), v) for k, v in mo.ups]
    E.setobj(st, it.oid, Op('MapIter', (MapV(('symmap', n)), 0) + o.args[2:]))
    st.heap[E.okey(('symmap', n))] = MapObj(SymMap('conc', (n,)))
    return None


class NotCommuting(Exception):
    pass


def commuting(E, f, L, prev, env, defers, st, it, n):
    """run the iterations one by one; they must read and write disjoint state and carry nothing over"""
    phis = [i['r'] for i in f.blocks[L.header]['i'] if i['op'] == 'phi']
    foots = []
    outer = st.foot
    tr = st.trace
    first = None
    for k in range(n + 1):
        e2 = dict(env)
        E.phis(f.blocks[L.header], L.header, prev, e2)
        cur = [e2[r] for r in phis]
        if first is None:
            first = cur
        elif any(a is not b and not (isinstance(a, (int, bool)) and a == b) for a, b in zip(first, cur)):
            raise NotCommuting()
        st.foot = set()
        st.g[('order-free', it.oid)] = True
        outs = E.region(f, L.header, prev, e2, defers, st, L, True)
        if len(outs) != 1:
            raise NotCommuting()
        o = outs[0]
        st = o[1]
        own = E.okey(it.oid)
        foots.append({x for x in st.foot if x[1] != own})
        if st.trace is not tr:
            raise NotCommuting()
        if o[0] == 'exit' and k == n:
            break
        if o[0] != 'back' or k == n:
            raise NotCommuting()
        env, defers, prev = o[2], o[3], o[4]
    else:
        raise NotCommuting()
    for i, a in enumerate(foots[:-1]):
        ws = [x for x in a if x[0] == 'w']
        for j, b in enumerate(foots[:-1]):
            if i != j:
                for _, k, c in ws:
                    if any(k2 == k and (c is None or c2 is None or c == c2) for _, k2, c2 in b):
                        raise NotCommuting()
    st.foot = None if outer is None else outer | set().union(*foots)
    E.loopstats['order-free'] = E.loopstats.get('order-free', 0) + 1
    return outs


def sort_hook(E, st, r):
    """sort.Ints of the keys of a map with known keys, enumerated in any order"""
    q = maps.h_sort(E, st, r)
    if q is not None:
        return q
    if len(r.segs) != 1 or not isinstance(r.segs[0], F):
        return None
    s = r.segs[0]
    b = s.body
    while len(b.segs) == 1 and isinstance(b.segs[0], C):
        # alternatives: the others must be impossible for an enumerated key
        live = []
        iv = E.fresh(st, 'k', bvsort(64))
        for c, x in b.segs[0].alts:
            if E.feasible(st, sle(0, iv), slt(iv, s.n), subst(c, [(s.iv, iv)])):
                live.append(x)
        if len(live) != 1:
            return None
        b = live[0]
    if len(b.segs) != 1 or not isinstance(b.segs[0], V):
        return None
    k = b.segs[0].v
    if not (isz(k) and z3.is_app(k) and k.decl().name().startswith('enum!conc!') and k.children()[-1].eq(s.iv)):
        return None
    ents = Conc.tab[k.children()[0].as_long()]
    if not E.entails(st, eq(s.n, len(ents))):
        return None
    return Rope([V(x) for x in sorted((e[0] for e in ents), key=lambda v: sgn(v, 64))])


# ------------------------------------------------------------------ locks (outside the store model)
def mutex(E, st, p):
    E.nilcheck(st, p)
    v = E.load(st, p)
    if not (isinstance(v, Op) and v.kind == 'Mutex'):
        raise Unsupported('lock of %r' % (v,))
    return (E.okey(E.norm(st, p.oid)), p.path)


@N.fn('(*sync.Mutex).Lock')
def lock(E, st, a, ins):
    h = E.hook('lock', st, a[0])
    if h is not None:
        return h[0]
    k = mutex(E, st, a[0])
    if k in st.locks:
        E.must(st, False, 'locks a mutex it already holds')
    st.locks = st.locks + (k,)
    return None


@N.fn('(*sync.Mutex).Unlock')
def unlock(E, st, a, ins):
    h = E.hook('unlock', st, a[0])
    if h is not None:
        return h[0]
    k = mutex(E, st, a[0])
    if k not in st.locks:
        E.must(st, False, 'unlocks a mutex it does not hold')
    st.locks = tuple(x for x in st.locks if x != k)
    return None


# ------------------------------------------------------------------ package state
def boot(E):
    """state after package initialisation and initializeApis"""
    st = St()
    for b in E.p.funcs[E.p.pkg + '.init'].blocks:
        for i in b['i']:
            n = i.get('fn', {}).get('n', '') if i['op'] == 'call' else ''
            if n.endswith('.init') and not n.startswith(E.p.pkg + '.'):
                E.natives[n] = lambda E, st, a, ins: None
    st.heap[E.okey(('global', 'hash/crc32.IEEETable'))] = Op('crctab', (0xedb88320,))
    outs = E.call(st, E.p.pkg + '.init', [])
    st = one(E, outs, 'package initialisation')
    outs = E.call(st, E.p.pkg + '.initializeApis', [])
    st = one(E, outs, 'initializeApis')
    return st


def one(E, outs, what):
    rs = [o for o in outs if o[0] == 'ret']
    if len(rs) != 1 or len(outs) != 1:
        raise Unsupported('%s: %d outcomes' % (what, len(outs)))
    return rs[0][1]


def glob(E, st, name):
    return E.load(st, Ptr(('global', E.p.pkg + '.' + name)))


def table(E, st):
    """the handler table: {(key, version): function name}"""
    m = glob(E, st, 'apiTable')
    mo = E.mapobj(st, m)
    out = {}
    for k, v in mo.ups:
        l = E.ckey(k)
        if l is None or not isinstance(v, FuncV):
            raise Unsupported('handler table')
        a, b = l.decode().split('.')
        if '%d.%d' % (int(a), int(b)) != l.decode():
            raise Unsupported('handler table key ' + l.decode())
        out[(int(a), int(b))] = v
    return out


# ------------------------------------------------------------------ lanes, connections, time
def optype(E, v, t):
    k = {'conn': ('*net.TCPConn',), 'addr': ('*net.TCPAddr',), 'err': ()}.get(v.kind)
    return k is not None and t.str in k


def select(E, st, chans, ins):
    """any ready case may be taken; without a default the select waits"""
    out = []
    alts = list(range(len(chans))) + ([] if ins.get('blocking', True) else [mask(-1, 64)])
    h = E.hooks.get('ready')
    for k, a in enumerate(alts):
        s = st.copy() if k < len(alts) - 1 else st
        if h is None or h(E, s, chans, a):
            out.append((s, selected(E, s, ins, a)))
    return out


def selected(E, st, ins, a):
    tt = E.t(ins['t'])
    vals = [a, False]
    for e in tt.elems[2:]:
        vals.append(E.zero(e))
    if isinstance(a, int) and sgn(a, 64) >= 0:
        st.g['sel'] = st.g.get('sel', ()) + (a,)
    return Tup(vals)


@N.inv(('lane', 'Done'))
def lane_done(E, st, a, ins):
    return Op('donechan', ())


@N.inv(('conn', 'RemoteAddr'), ('conn', 'LocalAddr'))
def conn_addr(E, st, a, ins):
    return Iface('op', Op('addr', (a[0],)))


@N.inv(('addr', 'String'))
def addr_string(E, st, a, ins):
    return ratom(E.fresh(st, 'addr', Str))


@N.fn('time.Now')
def time_now(E, st, a, ins):
    t = E.fresh(st, 'now', bvsort(64))
    E.hook('now', st, t)
    return Op('Time', (t,))


@N.fn('(time.Time).Add')
def time_add(E, st, a, ins):
    return Op('Time', (add(a[0].args[0], a[1]),))


@N.fn('time.Sleep')
def time_sleep(E, st, a, ins):
    E.hook('sleep', st, a[0])
    return None


millis = z3.Function('millis', bvsort(64), bvsort(64))


@N.fn('(time.Time).UnixMilli')
def time_millis(E, st, a, ins):
    return millis(bv(a[0].args[0], 64))


@N.fn('(time.Time).UnixNano')
def time_nanos(E, st, a, ins):
    return a[0].args[0]


@N.fn('(time.Time).After')
def time_after(E, st, a, ins):
    return slt(a[1].args[0], a[0].args[0])


@N.fn('(time.Time).Before')
def time_before(E, st, a, ins):
    return slt(a[0].args[0], a[1].args[0])


@N.fn('(time.Time).Sub')
def time_sub(E, st, a, ins):
    return sub(a[0].args[0], a[1].args[0])


@N.fn('time.Since')
def time_since(E, st, a, ins):
    return sub(time_now(E, st, [], ins).args[0], a[0].args[0])


@N.fn('time.Until')
def time_until(E, st, a, ins):
    return sub(a[0].args[0], time_now(E, st, [], ins).args[0])
