"""What each request handler must answer and do (C15-C18, C20), against the store model."""
from .terms import *
from .values import *
from . import solver, natives, spec, server, store, dispatch, kmap
from .exec import Engine, St, Split, Infeasible, GoPanic
from .spec import Eq, snapshot, low
from .codec import panics, decoded, reader
from .store import START, END, bornT, bornP, ntop, npar, nrec, co, hasco


# ------------------------------------------------------------------ layouts
def schema(E, tid):
    """wire layout of a type: b h i q ? s n B, [..] for arrays"""
    t = E.t(tid)
    own = t.pkg == E.p.pkg and t.name
    if t.kind == 'basic':
        if own:
            return t.name
        if t.isbool:
            return '?'
        if t.isstr:
            return 's'
        return {8: 'b', 16: 'h', 32: 'i', 64: 'q'}[t.width]
    if t.kind == 'slice':
        if t.isbytes:
            return 'B' if not own or t.name == 'NullableBytes' else t.name
        return '[' + schema(E, t.elem) + ']'
    if t.kind == 'ptr':
        return 'n' if t.name == 'NullableString' else t.name if own else schema(E, t.elem)
    if t.kind == 'struct':
        return ''.join(schema(E, f['type']) for f in t.fields)
    raise Unsupported('layout of ' + t.str)


def flat(E, tid, v):
    """the leaves of a value in wire order; arrays as (rope, element type)"""
    t = E.t(tid)
    if t.kind == 'struct':
        out = []
        for f, x in zip(t.fields, v.vals):
            out += flat(E, f['type'], x)
        return out
    if t.kind == 'ptr' and not (t.pkg == E.p.pkg and t.name):
        return flat(E, t.elem, spec.deref(E, v))
    if t.kind == 'slice' and not t.isbytes:
        return [(spec.srope(E, v), t.elem)]
    return [v]


def each(E, arr, fn):
    """concatenation of fn(leaves of element) over a request array, preceded by its length"""
    rope, et = arr
    out = []
    for s in rope.segs:
        if not isinstance(s, X):
            raise Unsupported('request array %r' % (s,))
        iv = fresh_iv()
        item = vsubst(s.tmpl, [(s.iv, add(s.off, iv))])
        out.append(spec.mkfold(E, s.len, iv, fn(flat(E, et, item))))
    return Rope([I(4, low(rope.len(), 32))] + out)


def evs(E, arr, fn):
    """like each, for lists of events"""
    rope, et = arr
    out = []
    for s in rope.segs:
        iv = fresh_iv()
        item = vsubst(s.tmpl, [(s.iv, add(s.off, iv))])
        out.append(F(s.len, iv, fn(flat(E, et, item)), PLF('pl!spec%d' % next(E.ctr2), ())))
    return Rope(out)


def string(r):
    return Rope([I(2, low(r.len(), 16))]) + r


# ------------------------------------------------------------------ running a handler
class Run:
    def __init__(self, E, key, ver, layout, errok=False):
        self.E, self.key, self.ver, self.layout = E, key, ver, layout
        self.what = 'api %d v%d' % (key, ver)
        self.q = Eq(E, self.what)
        self.req = None

    def start(self):
        E = self.E
        have = list(E.obls)
        st = server.boot(E)
        E.obls = have
        tab = server.table(E, st)
        if (self.key, self.ver) not in tab:
            raise Unsupported('no handler for %s' % self.what)
        store.begin(E, st)
        E.contracts[E.p.pkg + '.peekObject'] = self.c_peek
        E.contracts[E.p.pkg + '.encodeObject'] = spec.c_encodeObject
        self.kc, self.kct = dispatch.newclient(E, st)
        end = z3.BitVec('reqlen', 64)
        st.assume(land(sle(0, end), sle(end, 0x7fffffff)))
        rd = Ptr(E.alloc(st, Op('Reader', (ratom(z3.Const('reqbytes', Str)), 0, end, end))))
        kmh = Ptr(E.alloc(st, dispatch.symstruct(E, 'kafkaMessageHeader')))
        fv = tab[(self.key, self.ver)]
        return E.call(st, fv.name, [rd, self.kc, kmh], fv.binds)

    def c_peek(self, E, st, args, ins):
        """peekObject on arbitrary bytes (C04, C05): a well-formed value of the type, or a failure"""
        p, off, tt = args
        if isinstance(tt, Iface):
            tt = tt.val
        if not isinstance(tt, RType) or not isinstance(tt.tid, int) or not spec.wire(E, tt.tid):
            return None
        rope, pos, end, size = reader(E, st, p)
        if rope.atom() is None or str(rope.atom()) != 'reqbytes':
            return None
        self.q.need(st, eq(add(pos, off), 0), 'the request is decoded from its start')
        have = schema(E, tt.tid)
        if have != self.layout:
            raise spec.Mismatch('%s: request decoded as %s, specified as %s' % (self.what, have, self.layout))
        v = spec.wfsym(E, tt.tid, 'req')
        self.req = flat(E, tt.tid, v)
        bad = st.copy()
        bad.g['badreq'] = True
        n = E.fresh(st, 'reqend', bvsort(64))
        st.assume(land(sle(0, n), sle(n, end)))
        st.g['goodreq'] = True
        return [(bad, Tup([mask(-1, 64), NILI])), (st, Tup([n, decoded(E, tt.tid, v)]))]

    def outcomes(self, reject=False):
        """paths that answer the request: (state, bytes of the response)"""
        E, q, what = self.E, self.q, self.what
        outs = self.start()
        n = 0
        for s, r in panics(E, outs, what):
            if not E.feasible(s):
                continue
            store.noleak(E, s, what)
            resp, tags, e = r.vals
            good = s.g.get('goodreq')
            q.need(s, bool(good or s.g.get('badreq')), what + ': the request is decoded')
            if not good:
                q.need(s, e.tid is not None, what + ': a malformed request is an error')
                q.need(s, len(s.trace.segs) == 0, what + ': a malformed request changes nothing')
                continue
            if e.tid is not None:
                if not reject:
                    q.need(s, False, what + ': a well-formed request is answered')
                yield s, None
                n += 1
                continue
            q.need(s, E.isnil(tags), what + ': no response tags')
            yield s, dispatch.respbytes(E, s, resp)
            n += 1
        if not n:
            raise Unsupported(what + ': no answer')


def any_(n, what=''):
    return P(n, lambda q, st, r, w: None, what)


def val(q, st, r):
    n = r.len()
    return q.E.beint(st, r, n)


def exists(name, idx=None):
    """(may have existed during the request, may have been missing during the request)"""
    b = bornT(name) if idx is None else bornP(name, idx)
    return slt(b, END), sle(START, b)


def p_err(q, st, r, what, name, idx=None):
    """error code of a topic or partition: 0 if it exists, 3 if it does not"""
    e = val(q, st, r)
    yes, no = exists(name, idx)
    q.need(st, lor(eq(e, 0, 16), eq(e, 3, 16)), what + ' is none or unknown topic or partition')
    q.need(st, implies(eq(e, 0, 16), yes), what + ' is unknown for what does not exist')
    q.need(st, implies(eq(e, 3, 16), no), what + ' is none for what exists')
    st.g['err'] = e


def findapps(x, decl):
    """applications of decl in a value"""
    out = {}

    def f(e):
        for a in apps(e):
            if a.decl().eq(decl):
                out[a.get_id()] = a
        return e
    for s in (x if isinstance(x, (list, tuple)) else [x]):
        if isz(s):
            f(s)
        elif s is not None:
            vmap(s, f)
    return list(out.values())


def nonspec(e):
    return e


# ------------------------------------------------------------------ C20
def prove_metadata(E):
    store.install(E)
    node = {}
    r = Run(E, 3, 1, '[s]')
    n = 0
    port = None
    for s, b in r.outcomes():
        r.q.need(s, len(s.trace.segs) == 0, r.what + ': nothing changes')
        port = simp(z3.Extract(31, 0, bv(dispatch.field(E, s, r.kc, r.kct, 'serverPort'), 64)))
        topics = r.req[0]
        want = Rope([I(4, 1), P(4, lambda q, st, x, w: node.setdefault('id', val(q, st, x)), 'broker id')]) + string(rlit(b'localhost')) + Rope([I(4, port), L(b'\xff\xff'), any_(4, 'controller id')])
        want = want + each(E, topics, lambda v: Rope([P(2, p_err, 'topic error code', (E.strterm(None, v[0]),))]) + string(v[0]) + Rope([L(b'\0'), Q(partitions(E, node), 'partitions', (E.strterm(None, v[0]),))]))
        r.q.bytes(s, b, want, r.what + ': response')
        n += 1
    r2 = Run(E, 10, 0, 's')
    for s, b in r2.outcomes():
        r2.q.need(s, len(s.trace.segs) == 0, r2.what + ': nothing changes')
        port2 = simp(z3.Extract(31, 0, bv(dispatch.field(E, s, r2.kc, r2.kct, 'serverPort'), 64)))
        want = Rope([I(2, 0), I(4, node.get('id', 0))]) + string(rlit(b'localhost')) + Rope([I(4, port2)])
        r2.q.bytes(s, b, want, r2.what + ': response')


def parenum(q, st, r, what, name, t):
    """element number st.idx[-1] of an enumeration of the partitions of the topic"""
    v = val(q, st, r)
    j = st.idx[-1]
    ok = isz(v) and z3.is_app(v) and v.decl().name().startswith('enum!parts!')
    if ok:
        ch = v.children()
        ok = ch[0].eq(name) and ch[1].eq(t) and ch[-1].eq(j)
    if not ok:
        q.fail(st, what + ': each existing partition once', v, 'partition %s of topic %s' % (j, name))


def partitions(E, node):
    def fn(q, st, code, what, name):
        e = st.g.get('err')
        if e is not None and E.entails(st, eq(e, 3, 16)):
            return Rope([I(4, 0)])
        ts = [a for a in findapps(code, npar) if a.children()[0].eq(name)]
        t = ts[0].children()[1] if ts else END
        n = npar(name, t)
        iv = fresh_iv()
        body = Rope([I(2, 0), P(4, parenum, 'partition number', (name, t)), P(4, lambda q, st, x, w: q.need(st, eq(val(q, st, x), node.get('id', 0), 32), w + ' is the broker'), 'leader'),
                     I(4, 1), any_(4), I(4, 1), any_(4)])
        return Rope([I(4, low(n, 32)), F(n, iv, body, PLF('pl!c26', ()))])
    return fn


def prove_coordination(E):
    """heartbeat, join group and leave group are answered without error"""
    store.install(E)
    for key, ver, layout in ((12, 0, 'sis'), (13, 0, 'ss'), (11, 1, 'siiss[sB]')):
        r = Run(E, key, ver, layout)
        for s, b in r.outcomes():
            r.q.need(s, len(s.trace.segs) == 0, r.what + ': nothing changes')
            l, rest = E.cut(s, b, 2)
            r.q.bytes(s, l, Rope([I(2, 0)]), r.what + ': no error')
            if key != 11:
                r.q.bytes(s, rest, E_, r.what + ': response')


# ------------------------------------------------------------------ C18
def prove_syncgroup(E):
    store.install(E)
    r = Run(E, 14, 0, 'sis[sB]')
    answered = rejected = 0
    for s, b in r.outcomes(reject=True):
        r.q.need(s, len(s.trace.segs) == 0, r.what + ': nothing changes')
        asked = r.req[3][0].len()
        if b is None:
            r.q.need(s, lnot(eq(asked, 0)), r.what + ': a request without assignments is answered')
            rejected += 1
            continue
        r.q.need(s, eq(asked, 0), r.what + ': a request that dictates assignments is rejected')
        blob = Rope([any_(2, 'assignment version'), Q(alltopics, 'assigned topics'), Q(userdata, 'user data')])
        want = Rope([I(2, 0), Q(lenof, 'length of the assignment')]) + blob
        r.q.bytes(s, b, want, r.what + ': response')
        answered += 1
    if not answered or not rejected:
        raise Unsupported('%d answers, %d rejections' % (answered, rejected))


def lenof(q, st, code, what):
    """a 32-bit length that covers the rest of the response"""
    l, rest = q.E.cut(st, code, 4)
    n = rest.len()
    return Rope([I(4, low(n, 32))])


def userdata(q, st, code, what):
    l = code.lit()
    return Rope([L(l)]) if l in (b'\xff' * 4, b'\0' * 4) else Rope([L(b'\xff' * 4)])


def alltopics(q, st, code, what):
    ts = findapps(code, ntop)
    t = ts[0].children()[0] if ts else END
    n = ntop(t)
    iv = fresh_iv()
    return Rope([I(4, low(n, 32)), F(n, iv, Rope([Q(assigned, 'topic', (t, iv))]), PLF('pl!spec%d' % next(q.E.ctr2), ()))])


def enumerated(e, decl, *args):
    """e is element j of an enumeration of the map with these arguments"""
    if not (isz(e) and z3.is_app(e) and e.decl().name().startswith('enum!%s!' % decl)):
        return False
    ch = e.children()
    return all(a.eq(b) for a, b in zip(ch, args[:-1])) and ch[-1].eq(args[-1])


def assigned(q, st, code, what, t, j):
    """topic number j with all its partitions"""
    E = q.E
    n = E.beint(st, code, 2)
    k = None
    for s in E.force(st, code).segs:
        if isinstance(s, S) and isz(s.a) and enumerated(s.a, 'topics', t, j):
            k = s.a
            break
    if k is None:
        q.fail(st, what + ': each topic once, under its own name', code, 'topic %s of the store' % j)
        raise Infeasible()
    ts = [a for a in findapps(code, npar) if a.children()[0].eq(k)]
    if not ts:
        q.fail(st, what + ': the partitions of the topic', code, 'partitions of topic %s' % j)
        raise Infeasible()
    pt = ts[0].children()[1]
    m = npar(k, pt)
    iv = fresh_iv()
    return string(ratom(k)) + Rope([I(4, low(m, 32)), F(m, iv, Rope([P(4, parenum, 'partition number', (k, pt))]), PLF('pl!c4', ()))])


# ------------------------------------------------------------------ C15
def prove_listoffsets(E):
    store.install(E)
    r = Run(E, 2, 1, 'i[s[iq]]')
    for s, b in r.outcomes():
        r.q.need(s, len(s.trace.segs) == 0, r.what + ': nothing changes')

        def topic(v):
            name = E.strterm(None, v[0])

            def par(w):
                return Rope([I(4, w[0]), Q(listed, '', (name, w[0], w[1]))])
            return string(v[0]) + each(E, v[1], par)
        r.q.bytes(s, b, each(E, r.req[1], topic), r.what + ': response')


def listed(q, st, code, what, name, idx, T):
    """error code, timestamp and offset for one partition"""
    E = q.E
    e = val(q, st, E.take(st, code, 0, 2))
    p_err(q, st, Rope([I(2, e)]), what + 'error code', name, idx)
    if E.entails(st, eq(e, 3, 16)):
        return Rope([I(2, 3), any_(8), any_(8)])
    ts = [a for a in findapps([code] + list(st.pc), nrec) if a.children()[0].eq(name) and a.children()[1].eq(idx)]
    if not ts:
        q.fail(st, what + ': the log of the partition is read', code, 'log of %s' % idx)
        raise Infeasible()
    if len(ts) > 1:
        raise Unsupported('the log of a partition is read under several locks')
    n = ts[0]
    stamp = lambda k: stampof(E, name, idx, k)
    ts_ = val(q, st, E.take(st, code, 2, 10))
    off = val(q, st, E.take(st, code, 10, 18))
    latest, earliest = eq(T, mask(-1, 64)), eq(T, mask(-2, 64))
    w = what
    q.need(st, implies(latest, eq(off, n)), w + 'latest offset is the length of the log')
    q.need(st, implies(earliest, eq(off, 0)), w + 'earliest offset is 0')
    q.need(st, implies(land(earliest, eq(n, 0)), eq(ts_, 0)), w + 'earliest timestamp of an empty log is 0')
    q.need(st, implies(land(earliest, lnot(eq(n, 0))), eq(ts_, stamp(0))), w + 'earliest timestamp is that of the first record')
    bytime = lnot(lor(latest, earliest))
    q.need(st, implies(bytime, land(sle(0, off), sle(off, n))), w + 'offset by time is in the log')
    q.need(st, implies(land(bytime, lnot(eq(off, 0))), slt(stamp(sub(off, 1)), T)), w + 'the record before the offset is older than the time')
    s2 = st.copy()
    k = E.fresh(s2, 'later', bvsort(64))
    try:
        s2.assume(land(bytime, sle(off, k), slt(k, n)))
        for u in st.univ:
            for x in (sub(sub(n, 1), k), k, sub(k, off)):
                s2.assume(simp(u.inst(x)))
        q.need(s2, sle(T, stamp(k)), w + 'no later record is older than the time')
    except Infeasible:
        pass
    return Rope([I(2, 0), any_(8), any_(8)])


def stampof(E, name, idx, k):
    """the timestamp of a stored record"""
    S = E.store_schema
    t = S.t['rec']
    for n, f in enumerate(t.fields):
        ft = E.t(f['type'])
        if ft.kind == 'basic' and ft.isint and ft.width == 64:
            return E.sym(f['type'], 'rec.%d' % n, (name, bv(idx, 32), bv(k, 64)))
    raise Unsupported('no timestamp in a record')


# ------------------------------------------------------------------ C16
def prove_offsetcommit(E):
    store.install(E)
    r = Run(E, 8, 2, 'sisq[s[iqn]]')
    for s, b in r.outcomes():
        group = E.strterm(None, r.req[0])

        def topic(v):
            name = E.strterm(None, v[0])
            return string(v[0]) + each(E, v[1], lambda w: Rope([I(4, w[0]), P(2, p_err, 'error code', (name, w[0]))]))
        r.q.bytes(s, b, each(E, r.req[4], topic), r.what + ': response')

        def commits(v):
            name = E.strterm(None, v[0])
            return evs(E, v[1], lambda w: Rope([Q(committed, 'commit', (name, w[0], w[1], group))]))
        r.q.bytes(s, s.trace, evs(E, r.req[4], commits), r.what + ': effect')


def committed(q, st, code, what, name, idx, want, group):
    """what one commit does to the store: at most one move of the group's offset of this partition, forward"""
    E = q.E
    yes, no = exists(name, idx)
    if not code.segs:
        # nothing changed: the partition is missing, or its offset was not smaller
        ts = [a for a in findapps(list(st.pc), co) if a.children()[0].eq(name) and a.children()[1].eq(idx) and a.children()[2].eq(group)]
        q.need(st, lor(no, *[sle(want, a) for a in ts]), what + ': an offset that is larger than the committed one is stored')
        return E_
    s = code.segs[0]
    if not isinstance(s, V) or not isinstance(s.v, Ev) or len(code.segs) != 1 or s.v.kind != 'offset':
        q.fail(st, what + ': only the committed offset changes', code, 'one committed offset')
        raise Infeasible()
    n2, i2, g2, new, old = s.v.args
    q.need(st, simp(n2 == name), what + ': in the named topic')
    q.need(st, eq(i2, idx, 32), what + ': in the named partition')
    q.need(st, simp(g2 == group), what + ': for the named group')
    q.need(st, eq(new, ite(slt(old, want), want, old)), what + ': the larger of the previous and the requested offset')
    return Rope([s])


def prove_setoffset(E):
    """the administrative setter"""
    store.install(E)
    st = St()
    store.begin(E, st)
    km = server_object(E, st)
    name, group = z3.Const('arg.topic', Str), z3.Const('arg.group', Str)
    par, off = z3.BitVec('arg.partition', 64), z3.BitVec('arg.offset', 64)
    fn = dispatch.method(E, 'KafkaMock', 'SetConsumerGroupOffset')
    q = Eq(E, 'SetConsumerGroupOffset')
    idx = simp(z3.Extract(31, 0, par))
    yes, no = exists(name, idx)
    n = 0
    for s, r in panics(E, E.call(st, fn, [km, ratom(name), par, ratom(group), off]), q.name):
        if not E.feasible(s):
            continue
        n += 1
        store.noleak(E, s, q.name)
        evs_ = [x.v for x in s.trace.segs]
        if not evs_:
            q.need(s, no, q.name + ': the offset of an existing partition is stored')
            continue
        q.need(s, yes, q.name + ': an unknown partition is ignored')
        q.value(s, evs_[0], Ev('offset', name, idx, group, off, spec.Pred(lambda *a: None)), q.name + ': effect')
        q.need(s, len(evs_) == 1, q.name + ': nothing else changes')
    if n < 2:
        raise Unsupported('SetConsumerGroupOffset: %d outcomes' % n)


def server_object(E, st):
    """the server, as its public methods see it"""
    t = dispatch.struct_type(E, 'KafkaMock')
    vals = []
    for f in t.fields:
        ft = E.t(f['type'])
        if ft.kind == 'ptr' and ft.elem == E.store_schema.t['ds'].id:
            vals.append(Ptr(store.DS))
        elif ft.kind == 'basic' and ft.width:
            vals.append(z3.BitVec('km.' + f['name'], ft.width))
        else:
            vals.append(E.zero(f['type']))
    return Ptr(E.alloc(st, StructV(vals, t.id), t.id))


# ------------------------------------------------------------------ C17
def prove_offsetfetch(E):
    store.install(E)
    kmap.install(E)
    r = Run(E, 9, 1, 's[s[i]]')
    n = 0
    for s, b in r.outcomes():
        group = E.strterm(None, r.req[0])
        r.q.bytes(s, s.trace, Rope([Q(nothing, 'effect', ())]), r.what)
        r.q.bytes(s, b, Rope([Q(told, 'response', (r.req[1], group))]), r.what)
        n += 1
    if not n:
        raise Unsupported('no answer')


def nothing(q, st, code, what):
    """no committed offset changes: only the absent one may be stored as 0"""
    E = q.E

    def ev_(q, st, code, what):
        out = []
        for s in code.segs:
            if isinstance(s, C):
                raise Unsupported('effect %r' % (s,))
            if isinstance(s, F):
                q.fold(st, s, F(s.n, fresh_iv(), Rope([Q(ev_, '', ())]), s.pl), what)
            elif isinstance(s, V) and isinstance(s.v, Ev) and s.v.kind == 'offset':
                q.need(st, eq(s.v.args[3], s.v.args[4]), what + ': no committed offset changes')
            else:
                q.fail(st, what + ': nothing changes', code, 'no effect')
            out.append(s)
        return Rope(out)
    return ev_(q, st, code, what)


def told(q, st, code, what, topics, group):
    """the map of requested partitions, each with its committed offset"""
    E = q.E
    segs = list(E.force(st, code).segs)
    if len(segs) != 2 or not isinstance(segs[0], (I, L)) or not isinstance(segs[1], F):
        raise Unsupported('%s: %r' % (what, code))
    n = E.beint(st, Rope([segs[0]]), 4)
    f = segs[1]
    # which map is it?
    names = [a for a in findapps(f.body, kmap.keyat)]
    if not names:
        raise Unsupported('%s: topics from no known map' % what)
    k = names[0].children()[0]
    parts_ = k.decl().name().split('!')
    if parts_[0] != 'enum' or not parts_[1].startswith('kmap'):
        raise Unsupported('%s: topics numbered by %s' % (what, k))
    q.need(st, simp(k.children()[-1] == f.iv), what + ': each topic once')
    oid = int(parts_[1][4:])
    K = E.mapkinds[parts_[1]]
    kappa = E.kmaps[oid].kappa
    val_, has = K.o.args
    lst = E.srope(st, val_)
    q.need(st, eq(n, low(K.n_, 32), 32), what + ': number of topics')
    q.need(st, eq(f.n, K.n_), what + ': number of topics')
    # what the entry of any key holds
    s0 = st.copy()
    kfacts(E, s0, oid, kappa)
    q.need(s0, implies(slt(0, lst.len()), has), what + ': every topic with an existing partition is reported')

    def topic(v):
        name = E.strterm(None, v[0])
        rope, et = v[1]
        return Rope([Q(wanted, 'topic', (name, rope, et, kappa))])
    rope, et = topics
    out = []
    for x in rope.segs:
        iv = fresh_iv()
        item = vsubst(x.tmpl, [(x.iv, add(x.off, iv))])
        out.append(F(x.len, iv, topic(flat(E, et, item)), PLF('pl!spec%d' % next(E.ctr2), ())))
    s1 = s0.copy()
    s1.idx = st.idx if any(x.eq(kappa) for x in st.idx) else st.idx + (kappa,)
    q.bytes(s1, lst, Rope(out), what + ': partitions of a topic')
    # the response lists exactly that
    iv = fresh_iv()
    here = vsubst(lst, [(kappa, vsubst(k, [(f.iv, iv)]))])
    m = here.len()
    jv = fresh_iv()
    body = string(ratom(vsubst(names[0], [(f.iv, iv)]))) + Rope([I(4, low(m, 32)), F(m, jv, Rope([Q(entry, 'partition', (here, jv, group))]), PLF('pl!spec%d' % next(E.ctr2), ()))])
    return Rope([I(4, low(K.n_, 32)), F(K.n_, iv, body, PLF('pl!spec%d' % next(E.ctr2), ()))])


def kfacts(E, st, oid, k):
    class m_:
        pass
    m_.oid = oid
    kmap.facts(E, st, m_, k)


def wanted(q, st, code, what, name, rope, et, kappa):
    """the entry of one requested topic: its existing partitions if it is the one looked at"""
    E = q.E
    same_ = simp(name == kmap.keyat(kappa))
    return Rope([C([(same_, wanted_parts(q, st, code, what, name, rope, et)), (lnot(same_), E_)])])


def wanted_parts(q, st, code, what, name, rope, et):
    E = q.E
    out = []
    for x in rope.segs:
        iv = fresh_iv()
        item = vsubst(x.tmpl, [(x.iv, add(x.off, iv))])
        p = flat(E, et, item)[0]
        out.append(F(x.len, iv, Rope([Q(onepart, 'partition', (name, p))]), PLF('pl!spec%d' % next(E.ctr2), ())))
    return Rope(out)


def onepart(q, st, code, what, name, p):
    E = q.E
    yes, no = exists(name, p)
    if not code.segs:
        q.need(st, no, what + ': each existing requested partition is reported')
        return E_
    s = code.segs[0]
    if not isinstance(s, V) or not isinstance(s.v, Ptr) or not E.issym(s.v.oid) or s.v.oid[1] != 'part':
        q.fail(st, what, code, 'partition')
        raise Infeasible()
    q.need(st, land(simp(s.v.oid[2][0] == name), eq(s.v.oid[2][1], p, 32)), what + ' is the requested one')
    q.need(st, yes, what + ' exists')
    return Rope([s])


def entry(q, st, code, what, lst, j, group):
    E = q.E
    v = E.item(st, lst, j)
    if not isinstance(v, Ptr) or not E.issym(v.oid):
        raise Unsupported('%s: %r' % (what, v))
    name, idx = v.oid[2]

    def offset(q, st, x, w):
        o = val(q, st, x)
        xs = [o] + list(st.pc)
        ts = [a.children() for d in (co, hasco) for a in findapps(xs, d) if a.children()[2].eq(group)]
        q.need(st, lor(*[land(eq(o, co(*a)), eq(a[1], idx, 32), True if a[0].eq(name) else a[0] == name) for a in ts]), w + ' is the committed one')
    return Rope([I(4, idx), P(8, offset, 'offset'), P(2, lambda q, st, x, w: q.need(st, lor(eq(val(q, st, x), 65535, 16)), w + ' is null'), 'metadata'), I(2, 0)])


# ------------------------------------------------------------------ C11
def fieldno(t, name):
    for k, f in enumerate(t.fields):
        if f['name'] == name:
            return k
    raise Unsupported('no field %s in %s' % (name, t.str))


def prove_post(E, how):
    """one of the two ways to post a record"""
    store.install(E)
    st = St()
    store.begin(E, st)
    km = server_object(E, st)
    name = z3.Const('arg.topic', Str)
    par = z3.BitVec('arg.partition', 64)
    fn = dispatch.method(E, 'KafkaMock', how)
    q = Eq(E, how)
    idx = simp(z3.Extract(31, 0, par))
    f = E.p.funcs[fn]
    bt = f.j['params'][3]['t']
    key, value = E.sym(bt, 'arg.key'), E.sym(bt, 'arg.value')
    args = [km, ratom(name), par, key, value]
    ts = None
    if how == 'ExtendedPost':
        mt = E.t(f.j['params'][5]['t'])
        E.mapkinds['headers'] = store.Param(E, 'headers', mt.elem)
        m = E.alloc(st, MapObj(SymMap('headers', ())))
        nil = z3.Bool('arg.headers.nil')
        st.assume(implies(nil, eq(E.mapkinds['headers'].n(E, st, ()), 0)))
        st.tips['arg.headers'] = 'arg.headers'
        ts = z3.BitVec('arg.timestamp', 64)
        args += [MapV(m, nil), Op('Time', (ts,))]
    wantkey, wantval = snapshot(E, st, key), snapshot(E, st, value)
    S = E.store_schema
    rt = S.t['rec']
    n = 0
    for s, r in panics(E, E.call(st, fn, args), how):
        if not E.feasible(s):
            continue
        n += 1
        store.noleak(E, s, how)
        evs_ = [x.v for x in s.trace.segs]
        if not all(isinstance(x, Ev) for x in evs_):
            raise Unsupported(how + ': %r' % (s.trace,))
        if evs_ and evs_[0].kind == 'newtopic':
            q.need(s, simp(evs_[0].args[0] == name), how + ': only the named topic is created')
            evs_ = evs_[1:]
        if evs_ and evs_[0].kind == 'newpart':
            q.need(s, land(simp(evs_[0].args[0] == name), eq(evs_[0].args[1], idx, 32)), how + ': only the named partition is created')
            evs_ = evs_[1:]
        if len(evs_) != 1 or evs_[0].kind != 'append':
            q.fail(s, how + ': exactly one record is appended, nothing else changes', evs_, 'append')
            continue
        an, ai, rec = evs_[0].args
        q.need(s, land(simp(an == name), eq(ai, idx, 32)), how + ': the record goes to the named partition')
        q.value(s, rec.vals[fieldno(rt, 'Key')], wantkey, how + ': key')
        q.value(s, rec.vals[fieldno(rt, 'Value')], wantval, how + ': value')
        times = [ts] if ts is not None else list(s.g.get('readings', ()))
        stamp = rec.vals[fieldno(rt, 'Timestamp')]
        q.need(s, lor(*[eq(stamp, server.millis(bv(t, 64)), 64) for t in times]), how + ': timestamp')
    if not n:
        raise Unsupported(how + ': no outcome')


def prove_createtopics(E):
    """the administrative creation of topics and partitions"""
    store.install(E)
    st = St()
    store.begin(E, st)
    km = server_object(E, st)
    fn = dispatch.method(E, 'KafkaMock', 'CreatePartitionTopics')
    q = Eq(E, 'CreatePartitionTopics')
    f = E.p.funcs[fn]
    topics = E.sym(f.j['params'][1]['t'], 'arg.topics')
    par = z3.BitVec('arg.partition', 64)
    idx = simp(z3.Extract(31, 0, par))
    arr = flat(E, f.j['params'][1]['t'], topics)[0]
    n = 0
    for s, r in panics(E, E.call(st, fn, [km, topics, par]), q.name):
        if not E.feasible(s):
            continue
        n += 1
        store.noleak(E, s, q.name)
        q.bytes(s, s.trace, evs(E, arr, lambda v: Rope([Q(created, 'creation', (E.strterm(None, v[0]), idx))])), q.name + ': effect')
    if not n:
        raise Unsupported(q.name + ': no outcome')


def created(q, st, code, what, name, idx):
    """at most the topic and the partition are created, and the partition exists afterwards"""
    E = q.E
    segs = list(code.segs)
    out = []
    if segs and isinstance(segs[0], V) and segs[0].v.kind == 'newtopic':
        q.need(st, simp(segs[0].v.args[0] == name), what + ': only the named topics are created')
        out.append(segs.pop(0))
    if segs and isinstance(segs[0], V) and segs[0].v.kind == 'newpart':
        q.need(st, land(simp(segs[0].v.args[0] == name), eq(segs[0].v.args[1], idx, 32)), what + ': only the named partition is created')
        out.append(segs.pop(0))
    q.need(st, sle(bornP(name, bv(idx, 32)), END), what + ': the partition exists afterwards')
    return Rope(out)
