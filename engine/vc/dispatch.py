"""Dispatch of requests (C07-C10): the handler table, the dispatcher, the read loop."""
from .terms import *
from .values import *
from . import solver, natives, spec, server, maps
from .exec import Engine, St, Split, Infeasible, GoPanic
from .spec import Eq, enc, snapshot, low
from .codec import panics, reader

N = natives.Natives()


def install(E):
    server.install(E)
    E.natives.update(N.n)
    E.invokes.update(N.i)
    E.hooks['opval'] = opval
    E.hooks['lazymap'] = lazymap



def struct_type(E, name):
    ts = [t for t in E.p.types if t.kind == 'struct' and t.name == name and t.pkg == E.p.pkg]
    if not ts:
        raise Unsupported('no type ' + name)
    return ts[0]


def method(E, tname, m):
    for n in ('(*%s.%s).%s' % (E.p.pkg, tname, m), '(%s.%s).%s' % (E.p.pkg, tname, m)):
        if n in E.p.funcs:
            return n
    raise Unsupported('no method %s.%s' % (tname, m))


LANE = Iface('op', Op('lane', ()))
CONN = Iface('op', Op('conn', (0,)))


def newclient(E, st, over=None):
    """an arbitrary client object of the server"""
    t = struct_type(E, 'kafkaClient')
    vals = []
    for f in t.fields:
        ft = E.t(f['type'])
        if over and f['name'] in over:
            vals.append(over[f['name']])
        elif ft.str == 'net.Conn':
            vals.append(CONN)
        elif ft.str.endswith('lane.Lane'):
            vals.append(LANE)
        elif ft.kind == 'ptr' and E.t(ft.elem).name == 'kafkaDataStore':
            vals.append(Ptr(('sym', 'ds', ())))
        elif ft.kind == 'func':
            vals.append(FuncV('opq:' + f['name']))
        elif ft.kind == 'basic' and (ft.isint or ft.isbool):
            vals.append(z3.BitVec('kc.' + f['name'], ft.width) if ft.isint else z3.Bool('kc.' + f['name']))
        else:
            vals.append(E.zero(f['type']))
    return Ptr(E.alloc(st, StructV(vals, t.id), t.id)), t


def field(E, st, p, t, name):
    for k, f in enumerate(t.fields):
        if f['name'] == name:
            return E.load(st, Ptr(p.oid, p.path + (k,)))
    raise Unsupported('no field ' + name)


# ------------------------------------------------------------------ natives of the connection
OUT = ('connout', 0)


def out(E, st):
    return st.heap.get(OUT, Op('Out', (E_, False)))


@N.inv(('conn', 'Write'))
def conn_write(E, st, a, ins):
    o = out(E, st)
    r = E.force(st, E.srope(st, a[1]))
    bad = st.copy()
    nb = E.fresh(bad, 'wrote', bvsort(64))
    E.setobj(bad, OUT, Op('Out', (o.args[0], True)))
    E.setobj(st, OUT, Op('Out', (o.args[0] + r, o.args[1])))
    return [(bad, Tup([nb, err('write')])), (st, Tup([r.len(), NILI]))]


@N.inv(('conn', 'Close'))
def conn_close(E, st, a, ins):
    st.trace = st.trace + Rope([V(Ev('closeconn'))])
    return either(E, st)


def either(E, st):
    return [(st.copy(), err('error')), (st, NILI)]


def err(w):
    return natives.err(w)


@N.inv(('conn', 'SetReadDeadline'), ('conn', 'SetDeadline'), ('conn', 'SetWriteDeadline'))
def conn_deadline(E, st, a, ins):
    return err('error') if False else NILI


@N.fn('(*net.TCPConn).File', '(*net.conn).File')
def tcp_file(E, st, a, ins):
    return [(st.copy(), Tup([NILP, err('file')])), (st, Tup([Op('file'), NILI]))]


@N.fn('(*os.File).Fd')
def os_fd(E, st, a, ins):
    return E.fresh(st, 'fd', bvsort(64))


@N.fn('(*os.File).Close')
def os_close(E, st, a, ins):
    return NILI


@N.fn('syscall.Recvfrom')
def recvfrom(E, st, a, ins):
    n = E.fresh(st, 'n', bvsort(64))
    return [(st.copy(), Tup([n, NILI, err('recv')])), (st, Tup([n, NILI, NILI]))]


def opval(E, v, t):
    """the pointer behind a library interface value"""
    if v.kind == 'addr' and t.kind == 'ptr':
        s = E.t(t.elem)
        vals = []
        for f in s.fields:
            ft = E.t(f['type'])
            vals.append(z3.BitVec('addr.' + f['name'], ft.width) if ft.kind == 'basic' and ft.isint else E.zero(f['type']))
        return Ptr(('ro', StructV(vals, s.id)), (), False)
    if v.kind == 'conn' and t.kind == 'ptr':
        return Ptr(('ro', v), (), False)
    return v


def lazymap(E, st, m, mo, key, vt):
    """lookup of an arbitrary key in a map from known integers to strings"""
    if not E.t(vt).isstr or not isz(key) or not all(isinstance(k, int) and isinstance(v, Rope) for k, v in mo.ups):
        return None
    alts, has = [], False
    for k, v in mo.ups:
        c = eq(key, k)
        alts.append((c, v))
        has = lor(has, c)
    alts.append((lnot(has), E_))
    return Rope([C(alts)]), has


# ------------------------------------------------------------------ C10
def prove_apiversions(E):
    install(E)
    st = server.boot(E)
    tab = server.table(E, st)
    want = {}
    for k, v in tab:
        want.setdefault(k, set()).add(v)
    again = server.one(E, E.call(st, E.p.pkg + '.initializeApis', []), 'initializeApis again')
    done = 0
    for s0 in (st.copy(), again):
        for (k, v), fv in sorted(tab.items()):
            if k != 18:
                continue
            s = s0.copy()
            kc, _ = newclient(E, s)
            kmh = Ptr(E.alloc(s, symstruct(E, 'kafkaMessageHeader')))
            rd = Ptr(E.alloc(s, Op('Reader', (ratom(z3.Const('msg', Str)), 0, 0, 16))))
            outs = E.call(s, fv.name, [rd, kc, kmh], fv.binds)
            what = 'ApiVersions v%d' % v
            q = Eq(E, what)
            for s1, r in panics(E, outs, what):
                if not E.feasible(s1):
                    continue
                resp, tags, e = r.vals
                q.need(s1, e.tid is None, what + ': no error')
                q.need(s1, E.isnil(tags), what + ': no response tags')
                segs = [I(2, 0), I(4, len(want))]
                for key in sorted(want):
                    segs += [I(2, mask(key, 16)), I(2, mask(min(want[key]), 16)), I(2, mask(max(want[key]), 16))]
                    q.need(s1, all(x in want[key] for x in range(min(want[key]), max(want[key]) + 1)), what + ': every version between is served')
                q.bytes(s1, respbytes(E, s1, resp), Rope(segs), what + ': response')
                done += 1
    if not done:
        raise Unsupported('no ApiVersions handler')


def symstruct(E, name):
    t = struct_type(E, name)
    vals = []
    for f in t.fields:
        try:
            vals.append(E.sym(f['type'], 'kmh.' + f['name']))
        except Unsupported:
            vals.append(E.zero(f['type']))
    return StructV(vals, t.id)


def respbytes(E, st, resp):
    """what encodeObject writes for a response (its contract)"""
    if not isinstance(resp, Iface) or not isinstance(resp.tid, int):
        raise Unsupported('response %r' % (resp,))
    x = resp.val
    t = E.t(resp.tid)
    if not spec.wire(E, resp.tid):
        raise Unsupported('response of type ' + t.str)
    if t.kind == 'ptr' and not t.name:
        E.must(st, lnot(x.nil), 'response is not nil')
        x = Ptr(x.oid, x.path, False)
    v = snapshot(E, st, x)
    return Rope([spec.Z(spec.target(E, resp.tid), spec.unptr(E, resp.tid, v), E)])


# ------------------------------------------------------------------ C08, C09
RESP = 'resp'


def handlers(E, st):
    tab = server.table(E, st)
    byfn = {}
    for k, fv in tab.items():
        if fv.binds:
            raise Unsupported('handler is a closure')
        byfn.setdefault(fv.name, []).append(k)
    return tab, byfn


def prove_dispatch(E):
    install(E)
    st = server.boot(E)
    E.obls = []
    tab, byfn = handlers(E, st)
    msg = z3.Const('msg', Str)
    n = slen(msg)
    by = lambda o, k: simp(z3.Concat(*[sbyte(msg, bv(o + j, 64)) for j in range(k)]))
    key, ver, corr, idl = by(0, 2), by(2, 2), by(4, 4), by(8, 2)
    idn = simp(z3.SignExt(48, idl))
    hdr = add(10, ite(slt(idn, 0), 0, idn))
    supported = lor(*[land(eq(key, mask(k, 16), 16), eq(ver, mask(v, 16), 16)) for k, v in tab])
    whole = land(sle(10, n), sle(0, idn), sle(hdr, n))
    q = Eq(E, 'dispatcher')

    def c_handler(name):
        def c(E, s, args, ins):
            rd, kc, kmh = args
            rope, pos, end, size = reader(E, s, rd)
            what = 'dispatcher calls a handler'
            q.need(s, lor(*[land(eq(key, mask(k, 16), 16), eq(ver, mask(v, 16), 16)) for k, v in byfn[name]]), what + ': the one registered for the key and version of the request')
            q.need(s, eq(pos, hdr), what + ': reader right after the header')
            q.need(s, eq(end, n), what + ': reader holds the whole request')
            q.need(s, len(s.trace.segs) == 0, what + ': once')
            if rope.atom() is None or not rope.atom().eq(msg):
                q.fail(s, what + ': reader of this request', rope, msg)
            m = E.load(s, kmh)
            for f, x in zip(E.t(m.tid).fields, m.vals):
                w = E.t(f['type']).width
                if f['name'] in ('RequestApiKey', 'RequestApiVersion', 'CorrelationId') and w:
                    v = {'RequestApiKey': key, 'RequestApiVersion': ver, 'CorrelationId': corr}[f['name']]
                    v = simp(z3.SignExt(w - v.size(), v)) if w > v.size() else v
                    q.need(s, eq(x, v, w), what + ': %s of the request' % f['name'])
                if f['name'] == 'Client' and isinstance(x, Rope):
                    q.need(s, eq(x.len(), sub(hdr, 10)), what + ': length of the client id')
            bad = s.copy()
            bad.trace = bad.trace + Rope([V(Ev('handled', False))])
            p2 = E.fresh(s, 'after', bvsort(64))
            s.assume(land(sle(pos, p2), sle(p2, end)))
            E.store(s, rd, Op('Reader', (rope, p2, end, size)))
            s.trace = s.trace + Rope([V(Ev('handled', True, p2))])
            return [(bad, Tup([NILI, MapV(None, True), err('handler')])), (s, Tup([Iface('op', Op(RESP, ())), MapV(None, True), NILI]))]
        return c
    for name in byfn:
        E.contracts[name] = c_handler(name)
    body = z3.Const('response', Str)
    solver.register('response', lambda a: [slen(a) <= 0x7ffffff0], 'resp31')

    def c_encode(E, s, args, ins):
        w, v = args
        if isinstance(v, Iface) and isinstance(v.val, Op) and v.val.kind == RESP:
            wo = E.load(s, w)
            E.store(s, w, Op('Writer', (wo.args[0], wo.args[1] + ratom(body))))
            return [('ret', s, None)]
        return spec.c_encodeObject(E, s, args, ins)
    E.contracts[E.p.pkg + '.encodeObject'] = c_encode
    st.assume(sle(n, 0xffffffff))
    kc, t = newclient(E, st)
    rd = Ptr(E.alloc(st, Op('Reader', (ratom(msg), 0, n, ite(slt(n, 16), 16, n)))))
    what = 'dispatcher'
    outs = E.call(st, method(E, 'kafkaClient', 'dispatcher'), [kc, rd, n])
    accepted = rejected = 0
    for s, r in panics(E, outs, what):
        if not E.feasible(s):
            continue
        e = r
        o, failed = out(E, s).args
        evs = [x.v for x in s.trace.segs]
        q.need(s, all(isinstance(v, Ev) and v.kind == 'handled' for v in evs), what + ': only the handler acts')
        ok = bool(evs) and evs[0].args[0]
        if not evs:
            q.need(s, lnot(land(whole, supported)), what + ': a complete request for a supported api and version reaches its handler')
            q.need(s, e.tid is not None, what + ': a request without handler or complete header is rejected')
        if evs and not ok:
            q.need(s, e.tid is not None, what + ': an error of the handler rejects the request')
        if ok:
            left = slt(evs[0].args[1], n)
            for c in (left, lnot(left)):
                s2 = s.copy()
                try:
                    s2.assume(c)
                except Infeasible:
                    continue
                if not E.feasible(s2):
                    continue
                if c is left:
                    q.need(s2, e.tid is not None, what + ': left-over bytes reject the request')
                    q.bytes(s2, o, E_, what + ': a rejected request gets no response')
                    q.need(s2, not failed, what + ': a rejected request gets no response')
                    rejected += 1
                elif not failed:
                    q.need(s2, e.tid is None, what + ': an accepted request is not an error')
                    want = Rope([I(4, low(add(4, slen(body)), 32)), I(4, corr), S(body)])
                    q.bytes(s2, o, want, what + ': response bytes')
                    accepted += 1
        else:
            q.bytes(s, o, E_, what + ': a rejected request gets no response')
            q.need(s, not failed, what + ': a rejected request gets no response')
            rejected += 1
    if accepted < len(tab) or rejected < 3:
        raise Unsupported('only %d accepting and %d rejecting paths' % (accepted, rejected))


# ------------------------------------------------------------------ C07: the read loop
GHOST = ('stream', 0)      # bytes received and not yet handed to the dispatcher


def ghost(E, st):
    return st.heap[GHOST].args[0]


def setghost(E, st, r):
    E.setobj(st, GHOST, Op('Stream', (r,)))


def conn_read(E, st, a, ins):
    """conn.Read(buf): the next bytes of the stream, or an error and no bytes"""
    q = E.c07
    buf = a[1]
    g = ghost(E, st)
    if not E.quiet:
        full = frame(E, st, g)
        if full is not None:
            q.need(st, lnot(full), 'the server waits for more data only when no complete request is buffered')
    bad = st.copy()
    bad.g['mayend'] = True
    outs = [(bad, Tup([0, err('read')]))]
    m = E.slen(st, buf)
    r = E.fresh(st, 'chunk', Str)
    n = slen(r)
    st.assume(sle(n, m))
    st.assume(sle(1, n) if E.entails(st, slt(0, m)) else sle(0, n))
    if isinstance(buf, ASlice):
        arr = E.load(st, Ptr(buf.oid, buf.path))
        if not isinstance(arr, RopeArr) or buf.path:
            raise Unsupported('reading into a small buffer')
        l, rest = E.cut(st, arr.rope, buf.lo)
        rest = Rope([S(E.fresh(st, 'old', Str), n, sub(sub(arr.rope.len(), buf.lo), n))])
        E.store(st, Ptr(buf.oid, buf.path), RopeArr(l + ratom(r) + rest))
        st.g['readbufs'] = st.g.get('readbufs', ()) + (buf.oid,)
    else:
        raise Unsupported('read into %r' % (buf,))
    setghost(E, st, g + ratom(r))
    outs.append((st, Tup([n, NILI])))
    return outs


def frame(E, st, g):
    """condition that the bytes g start with a complete request"""
    try:
        n = g.len()
        a = g.segs[0] if g.segs else None
        if len(g.segs) == 1 and isinstance(a, S):
            v = simp(z3.Concat(*[sbyte(a.a, bv(add(a.off, j), 64)) for j in range(4)]))
        elif E.entails(st, sle(4, n)):
            v = E.beint(st, g, 4)
        elif E.entails(st, slt(n, 4)):
            return False
        else:
            return None
        return land(sle(4, n), sle(add(4, simp(z3.ZeroExt(32, v))), n))
    except Unsupported:
        return None


def c_dispatcher(E, st, args, ins):
    q = E.c07
    rds = [(k, a) for k, a in enumerate(args) if isinstance(a, Ptr) and isinstance(E.root(st, a.oid)[0], Op)]
    if len(rds) != 1:
        raise Unsupported('arguments of the dispatcher')
    rope, pos, end, size = reader(E, st, rds[0][1])
    ints = [a for k, a in enumerate(args) if isinstance(a, int) or isz(a)]
    g = ghost(E, st)
    what = 'a request handed to the dispatcher'
    fr = frame(E, st, g)
    if fr is None:
        raise Unsupported('frame of %r' % g)
    q.need(st, fr, what + ' is complete')
    try:
        st.assume(fr)
    except Infeasible:
        pass
    v = E.beint(st, g, 4)
    m = simp(z3.ZeroExt(32, v)) if isz(v) else v
    q.need(st, eq(sub(end, pos), m), what + ' has the size its prefix says')
    q.need(st, sle(m, size), what + ' fits the reader')
    for x in ints:
        q.need(st, eq(x, m), what + ': length argument')
    want = E.take(st, g, 4, add(4, m))
    q.bytes(st, E.take(st, rope, pos, end), want, what + ' is the next one of the stream')
    _, rest = E.cut(st, g, add(4, m))
    setghost(E, st, rest)
    bad = st.copy()
    bad.g['mayend'] = True
    pan = st.copy()
    pan.g['mayend'] = True
    return [(bad, err('rejected')), (st, NILI), ('panic', pan, ('panic', 'dispatcher', ''))]


def reaches(E, f, names, seen=None):
    """does f call one of names or read from the connection"""
    seen = seen if seen is not None else set()
    if f is None or f.name in seen or not f.blocks:
        return False
    seen.add(f.name)
    return any(touches(E, i, names, seen) for b in f.blocks for i in b['i'])


def touches(E, i, names, seen):
    if i['op'] == 'makeclosure':
        return reaches(E, E.p.funcs.get(i['fn']['n']), names, seen)
    if i['op'] != 'call':
        return False
    if i.get('invoke') == 'Read':
        return True
    n = i.get('fn', {}).get('n')
    if n in names:
        return True
    f = E.p.funcs.get(n)
    return f is not None and f.pkg == E.p.pkg and reaches(E, f, names, seen)


def read_loop(E, f, L, prev, env, defers, st):
    """loop rule: the buffered bytes are exactly what was received and not yet dispatched"""
    if not any(touches(E, i, E.c07names, None) for b in L.body for i in f.blocks[b]['i']):
        return None
    q = E.c07
    blk = f.blocks[L.header]
    env = dict(env)
    E.phis(blk, L.header, prev, env)
    phis = [i for i in blk['i'] if i['op'] == 'phi']
    kp = E.c07kc
    known = set(st.heap)

    def isbuf(v):
        return isinstance(v, (RSlice, ASlice))
    # where the buffered bytes live: a slice variable of the loop, or a field of the client
    slots = [('phi', i['r']) for i in phis if E.t(i['t']).isbytes]
    t = E.t(st.heap[E.okey(kp.oid)].tid)
    slots += [('kc', k) for k, x in enumerate(t.fields) if E.t(x['type']).isbytes]

    def get(s, e, slot):
        return e.get(slot[1]) if slot[0] == 'phi' else E.load(s, Ptr(kp.oid, kp.path + (slot[1],)))
    if len(slots) != 1:
        raise Unsupported('%d byte slices carried by the read loop' % len(slots))
    slot = slots[0]
    q.bytes(st, E.srope(st, get(st, env, slot)), ghost(E, st), 'read loop: nothing is buffered at the start that was not received')
    havoc = set()
    base = E.ctr.n
    for rnd in range(8):
        s = st.copy()
        e = dict(env)
        B = E.fresh(s, 'buffered', Str)
        bufv = RSlice(ratom(B), False)
        setghost(E, s, ratom(B))
        if slot[0] == 'phi':
            e[slot[1]] = bufv
        else:
            E.store(s, Ptr(kp.oid, kp.path + (slot[1],)), bufv)
        for h in havoc:
            if h[0] == 'phi':
                e[h[1]] = anyval(E, s, e[h[1]], E.t(h[2]))
            else:
                s.heap[h[1]] = Op('WG', (0,)) if isinstance(s.heap[h[1]], Op) and s.heap[h[1]].kind == 'WG' else Dead('an object changed by the read loop')
        s.writes = set()
        s.g['stops'] = ()
        s.g.pop('sel', None)
        s.g.pop('mayend', None)
        s.g.pop('readbufs', None)
        nobl = len(E.obls)
        outs = E.region(f, L.header, prev, e, defers, s, L, True)
        again = False
        for o in outs:
            if o[0] != 'back' or not E.feasible(o[1]):
                continue
            _, bs, be, bd, bp = o
            if len(bd) != len(defers):
                raise Unsupported('defer inside a loop')
            for i in phis:
                nv = E.ev(i['edges'][blk['preds'].index(bp)], be)
                if ('phi', i['r']) == slot or any(h[:2] == ('phi', i['r']) for h in havoc):
                    continue
                if nv is not env[i['r']] and not (isinstance(nv, (int, bool)) and nv == env[i['r']]):
                    havoc.add(('phi', i['r'], i['t']))
                    again = True
            for k in bs.writes:
                if k in known and k not in (GHOST, OUT) and ('heap', k) not in havoc:
                    old, new = st.heap[k], bs.heap.get(k)
                    if k == E.okey(kp.oid):
                        for n, (a, b) in enumerate(zip(old.vals, new.vals)):
                            if a is not b and slot != ('kc', n) and not (isinstance(a, Op) and a.kind in ('WG', 'ABool', 'Mutex')):
                                raise Unsupported('field %s changes in the read loop' % t.fields[n]['name'])
                        continue
                    if isinstance(old, RopeArr):
                        continue          # a read buffer kept over iterations; see below
                    havoc.add(('heap', k))
                    again = True
        if not again:
            break
        del E.obls[nobl:]
        E.ctr.n = base
    else:
        raise Unsupported('read loop state')
    res = []
    nback = 0
    for o in outs:
        if o[0] == 'back':
            _, bs, be, bd, bp = o
            for x in bs.g.get('stops', ()):
                try:
                    bs.assume(lnot(x))
                except Infeasible:
                    break
            if not E.feasible(bs):
                continue
            nback += 1
            if slot[0] == 'phi':
                i = [i for i in phis if i['r'] == slot[1]][0]
                nv = E.ev(i['edges'][blk['preds'].index(bp)], be)
            else:
                nv = get(bs, be, slot)
            if isinstance(nv, ASlice) and (nv.oid in known or nv.oid in bs.g.get('readbufs', ()) and nv.oid in known):
                q.need(bs, not E.feasible(bs, lnot(eq(sub(nv.hi, nv.lo), 0))), 'read loop: the buffered bytes are not in a buffer that later reads overwrite')
            E.curpos = (f.name, '')
            q.bytes(bs, E.srope(bs, nv), ghost(E, bs), 'read loop: exactly the received bytes that were not processed stay buffered')
            continue
        s = o[1]
        if not E.feasible(s):
            continue
        if o[0] == 'ret':
            q.need(s, bool(s.g.get('mayend') or s.g.get('sel')), 'read loop ends only when the connection or the server does')
        elif o[0] == 'panic':
            q.need(s, bool(s.g.get('mayend')), 'read loop: no panic but for a rejected request or a broken connection')
        s.writes = None
        res.append(o)
    if not nback:
        raise Unsupported('read loop does not iterate')
    E.loopstats['invariant'] = E.loopstats.get('invariant', 0) + 1
    return res


def anyval(E, st, v, t):
    if t.kind == 'basic' and t.width:
        return E.fresh(st, 'any', bvsort(t.width))
    if t.kind == 'basic' and t.isbool:
        return E.fresh(st, 'any', z3.BoolSort())
    return Dead('a variable changed by the read loop')


def stop_flag(E, st, p, op, v):
    if op != 'load':
        return None
    b = E.fresh(st, 'stopping', z3.BoolSort())
    st.g['stops'] = st.g.get('stops', ()) + (b,)
    return b


@N.fn('opq-call')
def opq_call(E, st, a, ins):
    return None


def prove_handle(E):
    install(E)
    E.invokes[('conn', 'Read')] = conn_read
    E.hooks['atomic'] = stop_flag
    E.c07 = Eq(E, 'handle')
    E.loop_handlers.append(read_loop)
    disp = method(E, 'kafkaClient', 'dispatcher')
    E.contracts[disp] = c_dispatcher
    E.c07names = {disp}
    st = St()
    kc, t = newclient(E, st)
    for k, f in enumerate(t.fields):
        if E.t(f['type']).isbytes:
            E.store(st, Ptr(kc.oid, (k,)), RSlice(E_, False))
    E.c07kc = kc
    setghost(E, st, E_)
    outs = E.call(st, method(E, 'kafkaClient', 'handle'), [kc])
    n = 0
    for o in outs:
        if not E.feasible(o[1]):
            continue
        n += 1
        if o[0] == 'panic':
            E.c07.need(o[1], bool(o[1].g.get('mayend')), 'handle: no panic but for a rejected request or a broken connection')
    if not E.loopstats.get('invariant') or not n or E.used_contracts.get(disp, 0) < 1:
        raise Unsupported('no read loop')


def prove_newclient(E):
    """a new client has nothing buffered and exactly one task reading its connection"""
    install(E)
    st = St()
    fn = E.p.funcs.get(E.p.pkg + '.newKafkaClient')
    if fn is None:
        raise Unsupported('no newKafkaClient')
    args = []
    oc = FuncV('opq:oc')
    for p in fn.j['params']:
        pt = E.t(p['t'])
        if pt.str == 'net.Conn':
            args.append(CONN)
        elif pt.str.endswith('lane.Lane'):
            args.append(LANE)
        elif pt.kind == 'ptr':
            args.append(Ptr(('sym', 'ds', ())))
        elif pt.kind == 'func':
            args.append(oc)
        else:
            args.append(E.sym(p['t'], 'arg.' + p['n']))
    t = struct_type(E, 'kafkaClient')
    q = Eq(E, 'newKafkaClient')
    hname = method(E, 'kafkaClient', 'handle')
    good = 0
    for s, kc in panics(E, E.call(st, fn.name, args), 'newKafkaClient'):
        if not E.feasible(s):
            continue
        good += 1
        gos = [x.v for x in s.trace.segs if isinstance(x, V) and x.v.kind == 'go']
        q.need(s, len(gos) == 1 and gos[0].args[0].name == hname and len(gos[0].args[1]) == 1 and E.okey(gos[0].args[1][0].oid) == E.okey(kc.oid), 'one task reads the connection of a new client')
        for k, f in enumerate(t.fields):
            v = E.load(s, Ptr(kc.oid, (k,)))
            ft = E.t(f['type'])
            if ft.isbytes:
                q.need(s, eq(E.slen(s, v), 0), 'nothing is buffered for a new client')
            elif ft.str == 'net.Conn':
                q.need(s, isinstance(v, Iface) and isinstance(v.val, Op) and v.val.kind == 'conn', 'the client keeps its connection')
            elif ft.kind == 'ptr' and E.t(ft.elem).name == 'kafkaDataStore':
                q.need(s, isinstance(v, Ptr) and v.oid == ('sym', 'ds', ()), 'the client works on the store of the server')
    if not good:
        raise Unsupported('newKafkaClient does not return')
