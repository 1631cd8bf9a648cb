"""Fetch (C12, C13) and the message sets it sends (C14).

What a fetch keeps per requested partition is made once per iteration of the loop over the request and
changed later, through pointers, by the polling loop.  The objects made at one allocation site form a family
indexed by the iterations that made them.  What a family object holds is known when it is made; once the
polling loop is entered it is known only up to an object invariant: fields that are never changed keep their
value, counters that follow the message set are the initial value plus its number n of messages, and the
message set of request item (i, j) starts at the requested offset, holds the n records of the item's own
partition from there on, all of them in the log, and its bytes stay within the item's limit.  Every iteration
of a polling loop is obliged to re-establish the invariant of what it touched (appendMessage is the only way
to change a message set; each call is obliged to append the next record of the right partition)."""
import types
from .terms import *
from .values import *
from . import solver, natives, spec, server, store, dispatch, handlers, loops
from .exec import Engine, St, Split, Infeasible, GoPanic
from .spec import Eq, low
from .codec import panics
from .loops import vsame
from .store import BV, END, START, nrec, bornP, violated, RANK
from .handlers import Run, Q, P, each, string, val, flat, any_

IDX = 2


# ------------------------------------------------------------------ the type of a message set
class SetType:
    def __init__(self, E):
        ts = [t for t in E.p.types if t.kind == 'struct' and t.name == 'messageSetV1' and t.pkg == E.p.pkg]
        if not ts:
            raise Unsupported('no type messageSetV1')
        self.t = ts[0]
        r = {}
        for k, f in enumerate(self.t.fields):
            ft = E.t(f['type'])
            role = 'msgs' if ft.kind == 'slice' else {'int64': 'offset', 'int': 'total', 'int32': 'total'}.get(ft.basic if ft.kind == 'basic' else '', None)
            if role is None or role in r:
                raise Unsupported('shape of messageSetV1')
            r[role] = k
        if set(r) != {'msgs', 'offset', 'total'}:
            raise Unsupported('shape of messageSetV1')
        self.r = r
        self.elem = E.t(self.t.fields[r['msgs']]['type']).elem
        self.w = E.t(self.t.fields[r['total']]['type']).width

    def make(self, msgs, offset, total):
        vs = [None] * 3
        vs[self.r['msgs']], vs[self.r['offset']], vs[self.r['total']] = msgs, offset, total
        return StructV(vs, self.t.id)

    def get(self, v, role):
        return v.vals[self.r[role]]


# ------------------------------------------------------------------ C14
def i64(v):
    return Rope([I(8, v)])


def blob(E, v):
    """a byte slice with its length, -1 for null"""
    r = spec.srope(E, v)
    body = Rope([I(4, low(r.len(), 32))]) + r
    return spec.choice(v.nil, rlit(b'\xff' * 4), body)


def tail(E, rec):
    """what the checksum covers"""
    return rlit(b'\x01\x00') + Rope([I(8, rec['ts'])]) + blob(E, rec['key']) + blob(E, rec['value'])


def record_arg(E, st):
    """an arbitrary stored record"""
    S = E.store_schema = store.Schema(E)
    t = S.t['rec']
    vals = [spec.wfsym(E, f['type'], 'rec.' + f['name']) if f['name'] in ('Key', 'Value', 'Timestamp') else Dead('field %s of a record' % f['name']) for f in t.fields]
    at = {f['name']: v for f, v in zip(t.fields, vals)}
    for n in ('Key', 'Value', 'Timestamp'):
        if n not in at:
            raise Unsupported('no %s in a record' % n)
    k, v = at['Key'].rope.len(), at['Value'].rope.len()
    st.assume(land(sle(0, k), sle(0, v), slt(k, 1 << 30), slt(v, 1 << 30), slt(add(k, v), 1 << 30)))
    return Ptr(('ro', StructV(vals, t.id))), {'ts': at['Timestamp'], 'key': at['Key'], 'value': at['Value'], 'size': add(22, add(k, v))}


def prove_append(E):
    """one more message at the end of any message set, or nothing"""
    natives.install(E)
    M_ = SetType(E)
    server.install(E)
    have = list(E.obls)
    st = server.boot(E)
    E.obls = have
    E.contracts[E.p.pkg + '.encodeObject'] = spec.c_encodeObject
    offset, total, limit = z3.BitVec('ms.offset', 64), z3.BitVec('ms.total', M_.w), z3.BitVec('maxSize', 64)
    st.assume(land(sle(0, total, M_.w), sle(total, 1 << 31 if M_.w == 64 else 1 << 30, M_.w)))
    el = spec.wfsym(E, M_.elem, 'ms[]', (z3.BitVec('k', 64),))
    iv = z3.BitVec('k', 64)
    n = z3.BitVec('ms.n', 64)
    st.assume(land(sle(0, n), sle(n, 1 << 31)))
    old = RSlice(Rope([X(el, iv, 0, n, ('ms', ()))]), False, 'ms', 'ms')
    st.tips['ms'] = 'ms'
    p = Ptr(E.alloc(st, M_.make(old, offset, total), M_.t.id))
    rp, rec = record_arg(E, st)
    fname = dispatch.method(E, 'messageSetV1', 'appendMessage')
    q = Eq(E, 'appendMessage')
    done = {True: 0, False: 0}
    for s, r in panics(E, E.call(st, fname, [p, rp, limit]), q.name):
        if not E.feasible(s):
            continue
        ok = E.decide(s, r) if not isinstance(r, bool) else r
        done[ok] += 1
        now = E.load(s, p)
        msgs = E.srope(s, M_.get(now, 'msgs'))
        if not ok:
            q.need(s, eq(M_.get(now, 'total'), total, M_.w), 'appendMessage: a rejected record leaves the total as it is')
            q.need(s, eq(M_.get(now, 'offset'), offset), 'appendMessage: a rejected record leaves the offset as it is')
            q.need(s, eq(msgs.len(), n), 'appendMessage: a rejected record is not added')
            size = add(total if M_.w == 64 else simp(z3.SignExt(32, total)), add(rec['size'], 12))
            q.need(s, slt(limit, size), 'appendMessage: only a record that does not fit is rejected')
            continue
        segs = E.force(s, msgs).segs
        if len(segs) != 2 or not isinstance(segs[0], X) or not isinstance(segs[1], V):
            q.fail(s, 'appendMessage: one message is added at the end', msgs, 'the old ones and a new one')
            continue
        q.need(s, land(eq(segs[0].off, 0), eq(segs[0].len, n)), 'appendMessage: existing messages stay')
        size = add(rec['size'], 12)
        q.need(s, eq(M_.get(now, 'total'), add(total, low(size, M_.w), M_.w), M_.w), 'appendMessage: the total counts the bytes of the message')
        q.need(s, eq(M_.get(now, 'offset'), add(offset, 1)), 'appendMessage: the next offset follows')
        tot = M_.get(now, 'total')
        q.need(s, sle(tot if M_.w == 64 else simp(z3.SignExt(32, tot)), limit), 'appendMessage: the total stays within the limit')
        t = tail(E, rec)
        got = spec.enc(E, M_.elem, spec.snapshot(E, s, segs[1].v))
        want = i64(offset) + Rope([I(4, low(rec['size'], 32)), P(4, checksum, 'checksum', (rec,))]) + t
        q.bytes(s, got, want, 'appendMessage: message')
        q.need(s, eq(got.len(), size), 'appendMessage: size of the message')
    if not done[True] or not done[False]:
        raise Unsupported('appendMessage: outcomes %s' % done)


def checksum(q, st, r, what, rec):
    """CRC-32 (IEEE) of what follows the checksum"""
    E = q.E
    v = val(q, st, r)
    name = str(v.decl().name()) if isz(v) and z3.is_app(v) else None
    if name not in E.crcs:
        q.fail(st, what, v, 'a CRC-32')
        return
    c0, poly, rope, idx = E.crcs[name]
    q.need(st, eq(c0, 0, 32), what + ' starts at 0')
    q.need(st, eq(poly, 0xedb88320, 32), what + ' uses the IEEE polynomial')
    q.bytes(st, rope, tail(E, rec), what + ' covers what follows it')


def prove_newset(E):
    natives.install(E)
    M_ = SetType(E)
    st = St()
    offset = z3.BitVec('offset', 64)
    q = Eq(E, 'newMessageSetV1')
    n = 0
    for s, r in panics(E, E.call(st, E.p.pkg + '.newMessageSetV1', [offset]), q.name):
        if not E.feasible(s):
            continue
        n += 1
        v = E.load(s, r)
        q.need(s, eq(M_.get(v, 'total'), 0, M_.w), 'newMessageSetV1: no bytes')
        q.need(s, eq(M_.get(v, 'offset'), offset), 'newMessageSetV1: starts at the offset')
        q.need(s, eq(E.srope(s, M_.get(v, 'msgs')).len(), 0), 'newMessageSetV1: no messages')
    if not n:
        raise Unsupported('newMessageSetV1: no outcome')


def prove_encset(E, ptr):
    """the 32-bit total, then the messages, each field in its place"""
    M_ = SetType(E)
    fn = E.p.pkg + '.encodeObject'
    tid = M_.t.id
    if ptr:
        tids = [t.id for t in E.p.types if t.kind == 'ptr' and not t.name and t.elem == tid]
        if not tids:
            raise Unsupported('no pointer to a message set')
        tid = tids[0]
    E.verifying = {tid}
    E.contracts[fn] = spec.c_encodeObject
    st = St()
    w = natives.newwriter(E, st, [NILI], None)
    v = spec.wfsym(E, tid, 'v')
    what = 'encoding of a message set'
    outs = E.call(st, fn, [w, Iface(tid, v)])
    q = Eq(E, what)
    ms = spec.deref(E, v) if ptr else v
    tot = M_.get(ms, 'total')
    et = E.t(M_.elem)
    at = {f['name']: k for k, f in enumerate(et.fields)}

    def message(x):
        g = lambda n: x.vals[at[n]]
        return Rope([I(8, g('Offset')), I(4, g('MessageSize')), I(4, g('Crc')), I(1, g('MagicByte')), I(1, g('Attributes')), I(8, g('Timestamp'))]) + blob(E, g('Key')) + blob(E, g('Value'))
    n = 0
    for s, _ in panics(E, outs, what):
        n += 1
        x = M_.get(ms, 'msgs').rope.segs[0]
        iv = fresh_iv()
        want = Rope([I(4, low(tot, 32) if M_.w == 64 else tot), spec.mkfold(E, x.len, iv, message(vsubst(x.tmpl, [(x.iv, iv)])))])
        q.bytes(s, E.load(s, w).args[1], want, what)
    if not n:
        raise Unsupported(what + ': no outcome')


# ------------------------------------------------------------------ families
class Fam:
    def __init__(self, fid, tid, kind, loop, idx):
        self.fid, self.tid, self.kind, self.loop, self.params = fid, tid, kind, loop, idx
        self.alts = []            # (condition, content) per path of the iteration that made the object


def install(E, run):
    store.install(E)
    E.run = run
    E.M_ = SetType(E)
    E.fams, E.sites, E.famsite, E.famstat = {}, {}, {}, {}
    E.famoid = {}
    for n in ('msn', 'msbytes', 'mstext'):
        solver.register(n, None, None)
    msetup(E)
    h = E.hooks
    h['famptr'], h['famdone'], h['famround'], h['snapptr'], h['mset'], h['prefix'] = famptr, famdone, famround, snapptr, enc_mset, prefix
    h['now'], h['sleep'], h['ready'], h['lock'] = now, sleep, ready, lock
    init0, access0, alloc0, g0 = E.kinds_init, E.access, E.i_alloc, E.g_ok

    def init(st, oid):
        if oid[1] == 'fam':
            E.famoid[E.okey(oid)] = oid
            return content(E, st, oid)
        return init0(st, oid)

    def access(st, oid, path, write):
        if oid[1] != 'fam':
            return access0(st, oid, path, write)
        g = st.g.get('ghost')
        if g and all(E.okey(o) != E.okey(oid[2][1:]) for o in g['touch']):
            st.g['ghost'] = dict(g, touch=g['touch'] + (oid[2][1:],))
        if write:
            f = E.fams[oid[2][0]]
            if f.kind == 'set' and not E.inappend:
                raise Unsupported('a message set is changed by other means than appendMessage')
            d = st.g.get('famdirty', ())
            if all(E.okey(o) != E.okey(oid) for o in d):
                st.g['famdirty'] = d + (oid,)

    def alloc(st, env, ins):
        p = alloc0(st, env, ins)
        t = E.t(ins['elem'])
        if t.kind == 'struct' and t.pkg == E.p.pkg and t.id not in E.store_schema.kind and not spec.wire(E, t.id):
            E.famsite[p.oid] = site(E, ins, t.name or 'struct')
        return p
    E.inappend = False
    E.kinds_init, E.access, E.i_alloc = init, access, alloc
    E.g_ok = lambda k: k in ('famver', 'famdirty', 'famnew', 'readings', 'times', 'times0', 'acq', 'ghost', 'polled', 'sel') or g0(k)
    E.survives = lambda k: isinstance(k, tuple) and k[:2] == ('sym', 'fam')
    E.contracts[E.p.pkg + '.newMessageSetV1'] = c_newset
    E.contracts[dispatch.method(E, 'messageSetV1', 'appendMessage')] = c_append
    E.loop_handlers.append(poll_loop)


def site(E, ins, name):
    n = E.sites.setdefault(id(ins), len(E.sites))
    return '%s.%d' % (name, n)


def msetup(E):
    """what is known of the message set of item (i, j) at any moment of the polling loop"""
    def facts(a):
        ch = a.children()
        ver, idx = ch[0], ch[1:]
        n, b = msn(*ch), msbytes(*ch)
        out = [0 <= n, n <= z3.BitVecVal(1 << 31, 64), 0 <= b, z3.Implies(n == 0, b == 0), z3.Implies(n > 0, b >= 34)]
        it = item(E, idx)
        if it is not None:
            name, num, frm, lim = it
            out += [z3.Implies(n > 0, zb(land(sle(0, frm), sle(add(frm, n), nrec(name, bv(num, 32), END)), slt(bornP(name, bv(num, 32)), END), sle(b, sext(lim)))))]
        return out
    solver.register('msn', facts, 'msn')
    solver.register('msbytes', facts, 'msb')
    lim = lambda a: [z3.And(z3.BitVecVal(0, 64) <= a, a <= z3.BitVecVal(1 << 40, 64))] + \
        ([] if a.children()[2].eq(END) else [z3.Implies(a.children()[2] <= END, a <= nrec(a.children()[0], a.children()[1], END))])
    # records are only added (every release is obliged to that)
    solver.register('nrecords', lim, 'nrecords')


msn = z3.Function('msn', BV, *([BV] * IDX), BV)
msbytes = z3.Function('msbytes', BV, *([BV] * IDX), BV)
mstext = z3.Function('mstext', BV, *([BV] * IDX), Str)


def sext(v):
    return simp(z3.SignExt(32, v)) if isz(v) else mask(sgn(v, 32), 64)


def item(E, idx):
    """request item (i, j): topic, partition number, offset, byte limit"""
    if E.run.req is None:
        return None
    topics = E.run.req[3][0].segs
    if len(topics) != 1 or not isinstance(topics[0], X):
        raise Unsupported('request %r' % (topics,))
    x = topics[0]
    v = flat(E, E.run.req[3][1], vsubst(x.tmpl, [(x.iv, add(x.off, idx[0]))]))
    y = v[1][0].segs[0]
    w = flat(E, v[1][1], vsubst(y.tmpl, [(y.iv, add(y.off, idx[1]))]))
    return E.strterm(None, v[0]), w[0], w[1], w[2]


def famptr(E, st, p, conv):
    s = E.famsite.get(p.oid)
    if s is None or not st.idx:
        return None
    v = st.heap[p.oid]
    if not isinstance(v, StructV):
        return None
    if len(st.idx) != IDX:
        raise Unsupported('objects made per iteration of %d loops' % len(st.idx))
    busy = st.g.get('fambusy', ())
    q = Ptr(('sym', 'fam', (s,) + tuple(st.idx)), p.path, p.nil)
    if s in busy:
        return q
    new = dict(st.g.get('famnew', {}))
    if s in new and new[s][0] != p.oid:
        raise Unsupported('two objects of a family in one iteration')
    st.g['fambusy'] = busy + (s,)
    try:
        c = conv(v)
    finally:
        st.g['fambusy'] = busy
    new = dict(st.g.get('famnew', {}))
    new[s] = (p.oid, c)
    st.g['famnew'] = new
    return q


def famround(E, f, L, st0):
    if not st0.idx:
        for k in [k for k, x in E.fams.items() if x.loop == (f.name, L.header)]:
            del E.fams[k]
        E.famouter = ((f.name, L.header), len(st0.pc))


def famdone(E, backs):
    for bs in backs:
        for s, (oid, c) in bs.g.get('famnew', {}).items():
            loop, base = E.famouter
            f = E.fams.get(s)
            if f is None:
                kind = 'set' if c.tid == E.M_.t.id else 'data'
                f = E.fams[s] = Fam(s, c.tid, kind, loop, tuple(bs.idx))
            f.alts.append((land(*bs.pc[base:]), c, tuple(bs.idx)))
        bs.g.pop('famnew', None)


def sets(E):
    fs = [f for f in E.fams.values() if f.kind == 'set']
    if len(fs) != 1:
        raise Unsupported('%d kinds of message sets' % len(fs))
    return fs[0]


def initial(E, st, f, idx):
    """the object as it was made, one form for all paths"""
    alts = []
    for c, v, params in f.alts:
        ps = list(zip(params, [bv(x, 64) for x in idx]))
        alts.append((subst(c, ps) if isz(c) else c, vsubst(v, ps)))
    cond, v0 = alts[0]
    vals = list(v0.vals)
    for c, v in alts[1:]:
        for k, (a, b) in enumerate(zip(vals, v.vals)):
            vals[k] = both(E, st, cond, a, c, b)
        cond = lor(cond, c)
    return StructV(vals, v0.tid)


def both(E, st, ca, a, cb, b):
    """a under ca, b under cb"""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.nil is True and b.nil is True:
            return a
        if a.nil is True:
            return Ptr(b.oid, b.path, lor(ca, b.nil))
        if b.nil is True:
            return Ptr(a.oid, a.path, lor(cb, a.nil))
        if a.path == b.path and vsame(E, st, a.oid, b.oid):
            if a.nil is b.nil or isz(a.nil) and isz(b.nil) and a.nil.eq(b.nil):
                return a
            return Ptr(a.oid, a.path, lor(land(ca, a.nil), land(cb, b.nil)))
    elif isterm(a) and isterm(b) and vsame(E, st, a, b):
        return a
    elif isinstance(a, Op) and isinstance(b, Op) and vsame(E, st, a, b):
        return a
    elif type(a) is type(b) and not isinstance(a, Dead) and vsame(E, st, a, b):
        return a
    return Dead('a field that differs between the ways an object is made')


def isterm(v):
    return isinstance(v, (bool, int)) or isz(v)


def content(E, st, oid, ver=None):
    fid, idx = oid[2][0], oid[2][1:]
    f = E.fams.get(fid)
    if f is None:
        raise Unsupported('object of an unknown family')
    k = E.okey(oid)
    for o in st.g.get('famdirty', ()):
        if o[2][0] == fid and E.okey(o) != k:
            if not E.entails(st, lor(*[lnot(eq(a, b)) for a, b in zip(o[2][1:], idx)])):
                raise Unsupported('two objects of a family that may be the same')
    v = initial(E, st, f, idx)
    ver = st.g.get('famver')
    if ver is None:
        return v
    n = msn(ver, *[bv(x, 64) for x in idx])
    if f.kind == 'set':
        b = msbytes(*n.children())
        return E.M_.make(Dead('the messages of a set'), add(E.M_.get(v, 'offset'), n), b if E.M_.w == 64 else low(b, 32))
    vals = []
    for j, (x, fd) in enumerate(zip(v.vals, E.t(f.tid).fields)):
        s = E.famstat.get((fid, j), 'const')
        if s == 'const':
            vals.append(x)
        elif s == 'plusn':
            vals.append(add(x, n))
        else:
            t = E.t(fd['type'])
            if t.kind == 'basic' and (t.isint or t.isbool):
                fn = z3.Function('fam!%s!%d' % (fid, j), BV, *([BV] * IDX), z3.BoolSort() if t.isbool else bvsort(t.width))
                vals.append(fn(*n.children()))
            else:
                vals.append(Dead('a field changed while polling'))
    return StructV(vals, f.tid)


class Weaken(Exception):
    pass


def flush(E, st):
    """the objects that were changed keep their invariant; what they hold is forgotten"""
    dirty = st.g.get('famdirty', ())
    if dirty:
        if st.g.get('famver') is None:
            raise Unsupported('an object is changed before polling')
        seen = set()
        for o in dirty:
            idx = o[2][1:]
            key = E.okey(idx)
            if key in seen:
                continue
            seen.add(key)
            n = count(E, st, idx)
            for f in E.fams.values():
                if f.kind == 'set':
                    continue
                oid = ('sym', 'fam', (f.fid,) + tuple(idx))
                cur = st.heap.get(E.okey(oid)) or content(E, st, oid)
                ini = initial(E, st, f, idx)
                for j, (c, i) in enumerate(zip(cur.vals, ini.vals)):
                    s = E.famstat.get((f.fid, j), 'const')
                    while True:
                        if s == 'const' and (c is i or not isinstance(c, Dead) and not isinstance(i, Dead) and vsame(E, st, c, i)):
                            break
                        if s == 'plusn' and isterm(c) and isterm(i) and E.t(E.t(f.tid).fields[j]['type']).width == 64 and E.entails(st, eq(c, add(i, n))):
                            break
                        if s == 'any':
                            break
                        s = {'const': 'plusn', 'plusn': 'any'}[s]
                    if s != E.famstat.get((f.fid, j), 'const'):
                        E.famstat[(f.fid, j)] = s
                        raise Weaken()
        st.g['famver'] = E.fresh(st, 'ver', BV)
        st.g['famdirty'] = ()
    for k in [k for k in st.heap if isinstance(k, tuple) and k[:2] == ('sym', 'fam')]:
        del st.heap[k]


def count(E, st, idx):
    """the number of messages in the set of item idx now"""
    f = sets(E)
    oid = ('sym', 'fam', (f.fid,) + tuple(idx))
    v = st.heap.get(E.okey(oid))
    if v is None:
        return msn(st.g['famver'], *[bv(x, 64) for x in idx])
    ini = initial(E, st, f, idx)
    return sub(E.M_.get(v, 'offset'), E.M_.get(ini, 'offset'))


# ------------------------------------------------------------------ contracts
def c_newset(E, st, args, ins):
    p = Ptr(E.alloc(st, E.M_.make(Dead('the messages of a set'), args[0], 0), E.M_.t.id))
    E.famsite[p.oid] = site(E, ins, 'set')
    return [('ret', st, p)]


def c_append(E, st, args, ins):
    """true: the record is the next message, and the bytes stay within maxSize; false: nothing changes (C14)"""
    p, rec, mx = args
    E.nilcheck(st, p)
    oid = E.norm(st, p.oid)
    if not (E.issym(oid) and oid[1] == 'fam') or p.path or not st.g.get('ghost'):
        raise Unsupported('a message set outside the polling loop')
    E.nilcheck(st, rec)
    ro = E.norm(st, rec.oid)
    if not (E.issym(ro) and ro[1] == 'rec') or rec.path:
        raise Unsupported('record %r' % (rec,))
    idx = oid[2][1:]
    v = E.load(st, p)
    name, num, frm, lim = item(E, idx)
    ini = initial(E, st, E.fams[oid[2][0]], idx)
    n = count(E, st, idx)
    rn, ri, k = ro[2]
    E.must(st, simp(rn == name), 'records of a partition come from its own topic')
    E.must(st, eq(ri, num, 32), 'records of a partition come from that partition')
    E.must(st, eq(E.M_.get(ini, 'offset'), frm), 'the records of a partition start at the requested offset')
    E.must(st, eq(k, add(frm, n)), 'the next record of a partition is appended, none is left out or repeated')
    inlog = lor(*[land(simp(a == name), eq(b, num, 32), sle(0, k), slt(k, nrec(a, bv(b, 32), t))) for a, b, t in st.g.get('acq', ())])
    if not E.entails(st, inlog):
        soft(E, 'a record read under an earlier lock')
    st.g['ghost'] = dict(st.g['ghost'], called=True)
    rt = E.store_schema.t['rec']
    ln = 34
    cell = store.kinds_init(E, st, ro)
    for f, x in zip(rt.fields, cell.vals):
        if f['name'] in ('Key', 'Value'):
            ln = add(ln, E.slen(st, x))
    # records are shorter than 2^30 bytes
    st.assume(land(sle(34, ln), sle(ln, (1 << 30) + 34)))
    b = E.M_.get(v, 'total')
    b = b if E.M_.w == 64 else sext(b)
    nb = add(b, ln)
    mx64 = mx if not isz(mx) or mx.size() == 64 else sext(mx)
    no = st.copy()
    res = []
    try:
        no.assume(slt(mx64, nb))
        res.append(('ret', no, False))
    except Infeasible:
        pass
    try:
        st.assume(sle(nb, mx64))
    except Infeasible:
        return res
    if not E.feasible(st):
        return res
    E.must(st, sle(nb, sext(lim)), 'the records of a partition stay within its byte limit')
    E.inappend = True
    try:
        E.store(st, p, E.M_.make(Dead('the messages of a set'), add(E.M_.get(v, 'offset'), 1), nb if E.M_.w == 64 else low(nb, 32)))
    finally:
        E.inappend = False
    st.g['ghost'] = dict(st.g['ghost'], added=True)
    res.append(('ret', st, True))
    return res


def snapptr(E, st, p):
    oid = E.norm(st, p.oid)
    if not (E.issym(oid) and oid[1] == 'fam'):
        return None
    f = E.fams.get(oid[2][0])
    if f is None or f.kind != 'set' or p.path:
        raise Unsupported('response contains %r' % (p,))
    if st.g.get('famver') is None or st.g.get('famdirty'):
        raise Unsupported('a message set before polling')
    return Ptr(('ro', Op('mset', (st.g['famver'],) + tuple(bv(x, 64) for x in oid[2][1:]))), (), False)


def enc_mset(E, v):
    """the encoding of a message set is its total and as many bytes of messages (C14)"""
    t = mstext(*v.args)
    if 'mstext!' not in E.__dict__.setdefault('_mst', set()):
        solver.register('mstext', lambda a: [slen(a) == msbytes(*a.children())], 'mst')
        E._mst.add('mstext!')
    return Rope([I(4, low(msbytes(*v.args), 32))]) + ratom(t)


# ------------------------------------------------------------------ clock, locks, shutdown
def now(E, st, t):
    store.clock(E, st, t)
    k = 'times' if st.g.get('ghost') else 'times0'
    st.g[k] = st.g.get(k, ()) + (t,)


def ready(E, st, chans, a):
    if isinstance(a, int) and a == mask(-1, 64) and any(isinstance(c, Op) and c.kind == 'donechan' for c in chans):
        st.g['polled'] = True
    return True


def lock(E, st, p):
    r = store.lock(E, st, p)
    if r is not None:
        oid = E.norm(st, p.oid)
        if oid[1] == 'part':
            st.g['acq'] = st.g.get('acq', ()) + ((oid[2][0], oid[2][1], st.g['now']),)
    return r


def sleep(E, st, d):
    g = st.g.get('ghost')
    if g is None:
        raise Unsupported('a sleep outside the polling loop')
    w = E.run.what + ': '
    E.must(st, not st.locks, E.lockobl + 'no lock is held while waiting')
    E.must(st, land(slt(0, d), sle(d, 1000000000)), w + 'a pause between passes is short')
    if g['added'] is not False:
        E.must(st, lnot(g['added']), w + 'it does not wait with data at hand')
    if not covered(E, st):
        soft(E, 'cannot tell that every partition was looked at before waiting')
    E.must(st, lnot(g['offered']), w + 'it only waits when no partition has a record to offer')
    wait = mul(sext(E.run.req[1]), 1000000)
    E.must(st, lor(*[sle(c, add(r, wait)) for r in st.g.get('times0', ()) for c in st.g.get('times', ())]), w + 'it only waits while the maximum wait has not passed')
    E.must(st, bool(st.g.get('polled')), w + 'it only waits while the client is not stopping')
    st.g['ghost'] = dict(st.g['ghost'], slept=True)


def soft(E, why):
    """a gap that only counts once the invariant of the polling loop is found"""
    E.softs.append(why)


def covered(E, st):
    g = st.g['ghost']
    return E.famlist is not None and E.entails(st, sle(E.famlist[0].len(), g['seen']))


# ------------------------------------------------------------------ polling
def polls(E, f, L):
    ap = dispatch.method(E, 'messageSetV1', 'appendMessage')

    def t(i, seen):
        if i['op'] not in ('call', 'defer'):
            return False
        n = i.get('fn', {}).get('n')
        if n == ap or n == 'time.Sleep':
            return True
        g = E.p.funcs.get(n)
        if g is None or g.pkg != E.p.pkg or n in seen or not g.blocks:
            return False
        seen.add(n)
        return any(t(j, seen) for b in g.blocks for j in b['i'])
    return any(t(i, set()) for b in L.body for i in f.blocks[b]['i'])


def findlist(E, env, st):
    """the list of what is kept per requested partition"""
    found = []

    def look(r):
        for s in r.segs:
            if isinstance(s, F) and isinstance(s.pl, PLF) and len(s.body.segs) == 1 and isinstance(s.body.segs[0], F) and len(s.body.segs[0].body.segs) == 1:
                v = s.body.segs[0].body.segs[0]
                if isinstance(v, V) and isinstance(v.v, Ptr) and E.issym(v.v.oid) and v.v.oid[1] == 'fam':
                    a = v.v.oid[2][1:]
                    if a[0].eq(s.iv) and a[1].eq(s.body.segs[0].iv):
                        found.append((r, s.pl))
    for v in list(env.values()) + list(st.heap.values()):
        if isinstance(v, RSlice):
            look(v.rope)
        elif isinstance(v, StructV):
            for x in v.vals:
                if isinstance(x, RSlice):
                    look(x.rope)
    return found[0] if found else None


def prefix(E, st, init, d, i):
    """a running position in the list, counted item by item"""
    if getattr(E, 'famlist', None) is None or st.g.get('famver') is None:
        return None
    return E.famlist[1]


def poll_loop(E, f, L, prev, env, defers, st):
    if not polls(E, f, L):
        return None
    g = st.g.get('ghost')
    level = g['level'] + 1 if g else 1
    if level == 1:
        E.famlist = findlist(E, env, st)
        sets(E)
    nobl, base = len(E.obls), E.ctr.n
    softs = list(getattr(E, 'softs', ()))
    havoc = {}
    for rnd in range(40):
        E.softs = list(softs)
        try:
            r = attempt(E, f, L, prev, env, defers, st.copy(), level, havoc)
        except Weaken:
            if level > 1:
                raise
            havoc, r = {}, None
        except Exception:
            # what was not shown in a round that may not be the last one says nothing
            del E.obls[nobl:]
            raise
        if r is not None:
            if level == 1 and E.softs:
                raise Unsupported(E.softs[0])
            return r
        del E.obls[nobl:]
        E.ctr.n = base
    raise Unsupported('no invariant of the polling loop')


def isnum(v):
    return isinstance(v, int) and not isinstance(v, bool) or isz(v) and z3.is_bv(v)


def isflag(v):
    return isinstance(v, bool) or isz(v) and z3.is_bool(v)


def candidates(v0, g0, level):
    """what may hold of a variable and the ghost state; v0, g0: before the loop"""
    out = {}
    if isflag(v0):
        for nm, neg in (('', False), ('not ', True)):
            y = (lambda v, neg=neg: lnot(v) if neg else v)
            out['added => %sv' % nm] = lambda v, g, y=y: implies(g['added'], y(v))
            out['%sv => added' % nm] = lambda v, g, y=y: implies(y(v), g['added'])
            out['offered => %sv' % nm] = lambda v, g, y=y: implies(g['offered'], y(v))
            if level > 2:
                out['called => %sv' % nm] = lambda v, g, y=y: implies(g['called'], y(v))
    elif isnum(v0):
        w = v0.size() if isz(v0) else 64
        if w == 64:
            out['v >= v0'] = lambda v, g: sle(v0, v)
            out['v <= max'] = lambda v, g: sle(v, 1 << 61)
            out['v - v0 = seen'] = lambda v, g: eq(sub(v, v0), sub(g['seen'], g0['seen']))
            out['added => v > v0'] = lambda v, g: implies(g['added'], slt(v0, v))
            out['v > v0 => added'] = lambda v, g: implies(slt(v0, v), g['added'])
            out['offered => v > v0'] = lambda v, g: implies(g['offered'], slt(v0, v))
    return out


def attempt(E, f, L, prev, env0, defers, st, level, havoc):
    outer = level == 1
    blk = f.blocks[L.header]
    env = dict(env0)
    flush(E, st)
    E.phis(blk, L.header, prev, env)
    phis = [i for i in blk['i'] if i['op'] == 'phi']
    known = set(st.heap)
    s = st.copy()
    e = dict(env)
    for k in ('now', 'clock'):
        n = E.fresh(s, k, BV)
        s.assume(land(sle(st.g[k], n), sle(n, END if k == 'now' else 1 << 61)))
        s.g[k] = n
    s.g['famver'] = E.fresh(s, 'ver', BV)
    s.writes = set()
    if outer:
        g0 = {'added': False, 'offered': False, 'seen': 0, 'slept': False, 'called': False, 'touch': (), 'level': 1}
        g = dict(g0)
        s.g['times'], s.g['polled'] = (), False
    else:
        g0 = st.g['ghost']
        g = dict(g0, level=level)
        for k in ('added', 'offered') + (('called',) if level > 2 else ()):
            g[k] = E.fresh(s, k, z3.BoolSort())
            s.assume(implies(g0[k], g[k]))
        if level == 2:
            g['called'], g['touch'] = False, ()
            g['seen'] = E.fresh(s, 'seen', BV)
            s.assume(land(sle(g0['seen'], g['seen']), sle(g['seen'], 1 << 61)))
        if g0['slept'] is not False:
            raise Unsupported('partitions are looked at after a pause')
    if level <= 2:
        s.g['acq'] = ()
    s.g['ghost'] = g
    init = {}
    for h, cs in havoc.items():
        v0 = env[h[1]] if h[0] == 'phi' else st.heap[h[1]]
        init[h] = v0
        if isflag(v0):
            x = E.fresh(s, 'any', z3.BoolSort())
        elif isnum(v0):
            w = v0.size() if isz(v0) else next((E.t(i['t']).width for i in phis if i['r'] == h[1]), 64) if h[0] == 'phi' else 64
            x = E.fresh(s, 'any', bvsort(w or 64))
        elif isinstance(v0, Op) and v0.kind in ('WG', 'Mutex'):
            x = v0
        else:
            x = Dead('a variable changed while polling')
        if isz(x):
            for nm in list(cs):
                c = candidates(v0, g0, level)[nm]
                try:
                    s.assume(c(x, g))
                except Infeasible:
                    return []
        if h[0] == 'phi':
            e[h[1]] = x
        else:
            s.heap[h[1]] = x
    nobl = len(E.obls)
    outs = E.region(f, L.header, prev, e, defers, s, L, True)
    again = False
    for o in outs:
        if o[0] != 'back' or not E.feasible(o[1]):
            continue
        _, bs, be, bd, bp = o
        if len(bd) != len(defers):
            raise Unsupported('defer inside a loop')
        E.must(bs, bs.locks == st.locks, E.lockobl + 'no lock is held from one round to the next')
        if level == 2:
            examine(E, bs)
        elif level > 2 and any(all(E.okey(a) != E.okey(b) for b in st.g['ghost']['touch']) for a in bs.g['ghost']['touch']):
            soft(E, 'a loop over records of several partitions')
        flush(E, bs)
        gb = bs.g['ghost']

        def end(h):
            if h[0] == 'phi':
                i = [i for i in phis if i['r'] == h[1]][0]
                return E.ev(i['edges'][blk['preds'].index(bp)], be)
            return bs.heap[h[1]]
        slots = [(('phi', i['r']), env[i['r']]) for i in phis] + [(('cell', k), st.heap[k]) for k in bs.writes if k in known]
        for h, v0 in slots:
            v = end(h)
            if h not in havoc:
                if v is v0 or isinstance(v, (int, bool)) and type(v) == type(v0) and v == v0:
                    continue
                if isz(v) and isz(v0) and v.eq(v0):
                    continue
                cs = candidates(v0, g0, level)
                ok = []
                for nm, c in cs.items():
                    try:
                        if E.entails(st, c(v0, g0)):
                            ok.append(nm)
                    except (Unsupported, z3.Z3Exception):
                        pass
                havoc[h] = ok
                again = True
        for k in bs.writes:
            if k not in known and isinstance(k, tuple) and k[0] == 'sym' and k[1] != 'fam':
                raise Unsupported('the store changes while polling')
        if again:
            continue
        if bs.trace is not st.trace and not vsame(E, bs, bs.trace, st.trace):
            violated(E, bs, E.run.what + ': a fetch changes nothing')
        for h in havoc:
            v = end(h)
            cs = candidates(init[h], g0, level)
            keep = [nm for nm in havoc[h] if isterm(v) and E.entails(bs, cs[nm](v, gb))]
            if len(keep) < len(havoc[h]):
                havoc[h] = keep
                again = True
        if again:
            continue
        if outer:
            E.must(bs, lor(gb['added'], gb['slept']), E.run.what + ': a pass that adds nothing is the last one or is followed by a pause')
            E.nback += 1
    if again:
        return None
    res = []
    for o in outs:
        if o[0] == 'back' or not E.feasible(o[1]):
            continue
        x = o[1]
        if level == 2 and o[0] == 'exit':
            # what the last round looked at before it left the loop
            examine(E, x, True)
        flush(E, x)
        x.writes = None if st.writes is None else st.writes | x.writes
        if outer:
            if o[0] != 'panic':
                gb = x.g['ghost']
                if not covered(E, x) or not E.entails(x, lnot(gb['added'])):
                    soft(E, 'cannot tell that every partition was looked at in the last pass')
            x.g.pop('ghost')
        else:
            x.g['ghost'] = dict(x.g['ghost'], level=level - 1)
        res.append(o)
    if getattr(E, 'debug', False):
        import time
        print('   [polling %s: %d outcomes, havoc %s]' % (('passes', 'partitions', 'records')[level - 1], len(res), {str(k)[:60]: v for k, v in havoc.items()}), time.time())
    E.loopstats['invariant'] = E.loopstats.get('invariant', 0) + 1
    return joined(E, f, st, env0, res) if outer else res


def joined(E, f, st, env0, res):
    """the ways out of polling that go on at the same place, as one: of what the loop did only the object invariant is kept"""
    groups = {}
    for o in res:
        k = (o[0],) + ((o[5], len(o[3])) if o[0] == 'exit' else ())
        if o[0] == 'panic' or o[0] == 'exit' and any(i['op'] == 'phi' for i in f.blocks[o[5]]['i']) or o[1].locks != st.locks:
            k = k + (id(o),)
        groups.setdefault(k, []).append(o)
    out = []
    for k, os in groups.items():
        s = st.copy()
        if os[0][0] == 'panic' or k[-1] == id(os[0]) or any(x not in s.g and x != 'famver' and x not in POLLG or x in s.g and x not in POLLG and not loops.gsame(s.g[x], o[1].g[x]) for o in os for x in o[1].g):
            out.extend(os)
            continue
        for c in ('now', 'clock'):
            n = E.fresh(s, c, BV)
            s.assume(land(sle(st.g[c], n), sle(n, END if c == 'now' else 1 << 61)))
            s.g[c] = n
        s.g['famver'] = E.fresh(s, 'ver', BV)
        s.g.pop('ghost', None)

        def one(vs, v0, has):
            if has and all(v is v0 for v in vs):
                return v0
            if all(isinstance(v, (bool, int)) and type(v) == type(vs[0]) and v == vs[0] for v in vs):
                return vs[0]
            z = [v for v in vs if isz(v)]
            if z and all(isterm(v) for v in vs) and all(v.sort().eq(z[0].sort()) for v in z) and (z3.is_bv(z[0]) or z3.is_bool(z[0])):
                return E.fresh(s, 'any', z[0].sort())
            return Dead('a variable that differs between the ways out of the polling loop')
        if st.writes is not None:
            s.writes = set().union(*[o[1].writes for o in os])
        for x in list(s.heap):
            vs = [o[1].heap.get(x) for o in os]
            s.heap[x] = Dead('a removed object') if any(v is None for v in vs) else one(vs, s.heap[x], True)
        if os[0][0] == 'ret':
            vs = [o[2] for o in os]
            if any(v is not None and not isterm(v) for v in vs):
                out.extend(os)
                continue
            out.append(('ret', s, None if vs[0] is None else one(vs, None, False)))
            continue
        env = {}
        for r in set().union(*[o[2].keys() for o in os]):
            vs = [o[2].get(r) for o in os]
            if all(v is not None for v in vs):
                env[r] = one(vs, env0.get(r), r in env0)
        out.append(('exit', s, env) + os[0][3:])
    return out


POLLG = ('now', 'clock', 'famver', 'famdirty', 'famnew', 'times', 'polled', 'acq', 'ghost', 'readings', 'sel')


def examine(E, st, leaving=False):
    """what one round of the loop over the partitions found out"""
    objs = st.g['ghost']['touch']
    if leaving and not objs:
        return
    g = dict(st.g['ghost'])
    why = understood(E, st, g, objs)
    if why:
        if getattr(E, 'debug', False):
            print('   [round not understood: %s]' % why)
        g['seen'] = E.fresh(st, 'unknown', BV)
        g['offered'] = E.fresh(st, 'unknown', z3.BoolSort())
    st.g['ghost'] = g


def understood(E, st, g, objs):
    if len(objs) != 1:
        return '%d objects' % len(objs)
    idx = objs[0]
    if not E.famlist:
        return 'no list of what is kept per partition'
    pos = add(E.famlist[1](idx[0]), idx[1])
    name, num, frm, lim = item(E, idx)
    k = add(frm, count(E, st, idx))
    acq = [t for a, b, t in st.g.get('acq', ()) if E.entails(st, land(simp(a == name), eq(b, num, 32)))]
    off = False
    if acq:
        off = g['called']
        if not E.entails(st, lor(off, lnot(land(sle(0, k), slt(k, nrec(name, bv(num, 32), acq[-1])))))):
            return 'the next record may be there, but is not appended'
    elif not E.entails(st, sle(START, bornP(name, bv(num, 32)))):
        return 'the partition is not looked at'
    if not E.entails(st, eq(pos, g['seen'])):
        return 'partitions are not looked at in order'
    g['seen'] = add(g['seen'], 1)
    g['offered'] = lor(g['offered'], off)
    return None


# ------------------------------------------------------------------ C12, C13
def prove_fetch(E):
    r = Run(E, 1, 2, 'iii[s[iqi]]')
    E.nback = 0
    E.famlist = None
    install(E, r)
    n = 0
    for s, b in r.outcomes():
        r.q.need(s, len(s.trace.segs) == 0, r.what + ': nothing changes')
        want = Rope([any_(4, 'throttle time')]) + each(E, r.req[3], lambda v: string(v[0]) + each(E, v[1], lambda w: Rope([Q(fetched, 'partition', (E.strterm(None, v[0]), w[0], w[1], w[2]))])))
        r.q.bytes(s, b, want, r.what + ': response')
        n += 1
    if not n or not E.nback:
        raise Unsupported('%s: no answer, or no polling' % r.what)


def fetched(q, st, code, what, name, num, frm, lim):
    """one partition: number, error code, high watermark, its own message set"""
    E = q.E
    idx = st.idx[-2:]
    e = val(q, st, E.take(st, code, 4, 6))
    hw = val(q, st, E.take(st, code, 6, 14))
    _, rest = E.cut(st, code, 14)
    while rest.segs and isinstance(rest.segs[0], spec.Z):
        rest = rest.segs[0].expand() + Rope(rest.segs[1:])
    _, m = E.cut(st, rest, 4)
    if not m.segs or not isinstance(m.segs[0], S) or not m.segs[0].a.decl().eq(mstext):
        q.fail(st, what + ': a message set', rest, 'the records of the partition')
        raise Infeasible()
    ch = m.segs[0].a.children()
    q.need(st, land(*[eq(a, b) for a, b in zip(ch[1:], idx)]), what + ': its own records')
    n, b = msn(*ch), msbytes(*ch)
    q.need(st, implies(slt(frm, 0), land(eq(n, 0), eq(e, 1, 16))), what + ': an offset below the log start is flagged and returns nothing')
    q.need(st, implies(slt(0, n), eq(e, 0, 16)), what + ': records come without an error')
    q.need(st, implies(slt(0, n), sle(add(frm, n), hw)), what + ': high watermark not below the offset after the last record')
    q.need(st, lor(sle(hw, frm), land(slt(bornP(name, bv(num, 32)), END), sle(hw, nrec(name, bv(num, 32), END)))), what + ': high watermark not beyond the end of the log')
    q.need(st, sle(b, smax(sext(lim))), what + ': bytes within the limit')
    return Rope([I(4, num), I(2, e), I(8, hw), I(4, low(b, 32))]) + ratom(mstext(*ch))


def smax(v):
    return ite(slt(v, 0), 0, v)
