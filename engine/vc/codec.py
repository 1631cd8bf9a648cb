"""Verification of the codec: every wire type against the wire-format specification."""
from .terms import *
from .values import *
from . import solver, natives, spec
from .exec import Engine, St, Infeasible, GoPanic, Split
from .spec import Eq, enc, wfsym, wire, Z, target, unptr
from .loops import vsame


def fn(E, short):
    return E.p.pkg + '.' + short


def panics(E, outs, what):
    """no outcome is a panic"""
    ok = []
    for k, s, v in outs:
        if k == 'panic':
            if E.feasible(s):
                E.curpos = (str(v[1]), str(v[2])) if isinstance(v, tuple) and len(v) > 2 else E.curpos
                r, m = solver.check(s.pc, s.univ, E.timeout, want_model=True)
                E.record(what + ': no panic', 'panic', 'refuted' if r == 'sat' else 'unknown', {'panic': str(v), 'model': E.model(m) if r == 'sat' else ''})
        else:
            ok.append((s, v))
    E.record(what + ': no panic', 'panic', 'discharged')
    return ok


# ------------------------------------------------------------------ encoding
def prove_enc(E, tid):
    E.verifying = {tid}
    E.contracts[fn(E, 'encodeObject')] = spec.c_encodeObject
    st = St()
    w = natives.newwriter(E, st, [NILI], None)
    v = wfsym(E, tid, 'v')
    what = 'encodeObject(%s)' % E.t(tid).str
    outs = E.call(st, fn(E, 'encodeObject'), [w, Iface(tid, v)])
    q = Eq(E, what + ': bytes')
    n = 0
    for s, _ in panics(E, outs, what):
        n += 1
        q.bytes(s, E.load(s, w).args[1], enc(E, tid, v), what)
    if not n:
        raise Unsupported('no path encodes ' + E.t(tid).str)


# ------------------------------------------------------------------ decoding
def reader(E, st, p):
    r = E.load(st, p)
    if not (isinstance(r, Op) and r.kind == 'Reader'):
        raise Unsupported('not a bufio.Reader')
    return r.args


def decoded(E, tid, v):
    """the interface value that decoding yields for v"""
    t = E.t(tid)
    if t.kind == 'slice' and not t.name:
        if v.nil is True:
            return NILI
        return Iface(tid, v)
    return Iface(tid, v)


def c_peek_rt(E, st, args, ins):
    """peekObject(r, off, T) on an encoding of a T: its value, or -1 if cut off"""
    p, off, tt = args
    if not isinstance(tt, (RType,)) and isinstance(tt, Iface):
        tt = tt.val
    if not isinstance(tt, RType) or not isinstance(tt.tid, int) or not wire(E, tt.tid) or tt.tid in E.verifying:
        return None
    rope, pos, end, size = reader(E, st, p)
    _, right = E.cut(st, rope, add(pos, off))
    while right.segs and not isinstance(right.segs[0], Z):
        h = right.segs[0]
        if isinstance(h, F) and E.entails(st, slt(0, h.n)):
            right = E.peel(h, right)
        elif not isinstance(h, C) and E.entails(st, eq(seglen(h), 0)):
            right = Rope(right.segs[1:])
        elif isinstance(h, C) and any(a.segs and isinstance(a.segs[0], Z) and a.segs[0].tid == tt.tid for _, a in h.alts):
            for k, (g, a) in enumerate(h.alts):
                if k == len(h.alts) - 1 or E.decide(st, g):
                    right = a + Rope(right.segs[1:])
                    break
        else:
            break
    if not right.segs or not isinstance(right.segs[0], Z) or right.segs[0].tid != tt.tid:
        return None
    z = right.segs[0]
    n = seglen(z)
    nx = add(off, n)
    if E.decide(st, sle(add(pos, nx), end)):
        val = decoded(E, z.tid, z.v)
        if val.tid is not None and isinstance(z.v, RSlice) and z.v.nil is not False:
            if E.decide(st, z.v.nil):
                val = NILI
        return Tup([nx, val])
    return Tup([mask(-1, 64), NILI])


def c_peek_fn(tid):
    """peekX(r, off): like peekObject at its type"""
    def c(E, st, args, ins):
        r = c_peek_rt(E, st, [args[0], args[1], RType(tid)], ins)
        if r is None:
            if getattr(E, 'debug', False):
                rope, pos, end, size = reader(E, st, args[0])
                print('   [not an encoding of %s: %s]' % (E.t(tid).str, E.cut(st, rope, add(pos, args[1]))[1]))
            return None
        nx, v = r.vals
        return Tup([nx, v.val if v.tid is not None else E.zero(tid)])
    return c


def h_position(E, st, init):
    """fold positions in the data a loop decodes"""
    rd = getattr(E, 'cur_reader', None)
    if rd is None:
        return None
    rope, pos, end, size = E.load(st, rd).args
    if isinstance(init, bool) or isz(init) and (not z3.is_bv(init) or init.size() != 64):
        return None
    try:
        _, right = E.cut(st, rope, add(pos, init))
    except (Unsupported, Split):
        return None
    for s in right.segs:
        if isinstance(s, F):
            c = s.body.len()
            if isinstance(c, int):
                return lambda i, c=c: mul(i, c)
            return s.pl
        if isinstance(s, S) and s.full() and False:
            return None
        n = seglen(s)
        if not (isinstance(n, int) and n == 0):
            if isinstance(s, S):
                return lambda i: i      # byte by byte
            return None
    return None


def h_bounds(E, st):
    rd = getattr(E, 'cur_reader', None)
    if rd is None:
        return []
    rope, pos, end, size = E.load(st, rd).args
    return [('end', sub(end, pos))]


def prove_dec(E, tid, fname=None):
    """decoding a possibly cut-off encoding at any position of a buffer"""
    E.verifying = {tid}
    E.contracts[fn(E, 'peekObject')] = c_peek_rt
    E.hooks['position'] = h_position
    E.hooks['bounds'] = h_bounds
    vi = [t.id for t in E.p.types if t.name == 'VarInt' and t.pkg == E.p.pkg]
    if fname is None and vi and E.t(tid).kind in ('struct', 'ptr') and fn(E, 'peekVarInt') in E.p.funcs:
        E.contracts[fn(E, 'peekVarInt')] = c_peek_fn(vi[0])
        E.zcount = vi[0]
    st = St()
    v = wfsym(E, tid, 'v')
    pre, suf = z3.Const('before', Str), z3.Const('after', Str)
    body = enc(E, tid, v)
    n = body.len()
    rope = Rope([S(pre)]) + body + Rope([S(suf)])
    off = slen(pre)
    end, size = z3.BitVec('end', 64), z3.BitVec('size', 64)
    st.assume(sle(off, end))
    st.assume(sle(end, rope.len()))
    st.assume(sle(end, size))
    st.assume(sle(size, 2 * LIM))
    st.assume(sle(n, 1 << 45))
    oid = E.alloc(st, Op('Reader', (rope, 0, end, size)))
    p = Ptr(oid)
    E.cur_reader = p
    if fname:
        what = fname
        outs = E.call(st, fn(E, fname), [p, off])
    else:
        what = 'peekObject(%s)' % E.t(tid).str
        outs = E.call(st, fn(E, 'peekObject'), [p, off, RType(tid)])
    q = Eq(E, what)
    good = 0
    for s, r in panics(E, outs, what):
        if not E.feasible(s):
            continue
        nx, obj = r.vals
        if fname:
            obj = Iface(tid, obj)
        whole = sle(add(off, n), end)
        for cond in (whole, lnot(whole)):
            s2 = s.copy()
            try:
                s2.assume(cond)
            except Infeasible:
                continue
            if not E.feasible(s2):
                continue
            if cond is whole:
                good += 1
                q.need(s2, eq(nx, add(off, n)), what + ': position after a whole encoding')
                roundtrip(E, q, s2, tid, obj, v, what)
            else:
                q.need(s2, slt(nx, 0), what + ': a cut-off encoding is rejected')
    if not good:
        raise Unsupported('no path decodes ' + E.t(tid).str)


def roundtrip(E, q, st, tid, obj, v, what):
    t = E.t(tid)
    if not isinstance(obj, Iface):
        raise Unsupported('decoded %r' % (obj,))
    if t.kind == 'slice':
        if obj.tid is None:
            q.need(st, v.nil, what + ': null decoded from a value')
            return
        own = obj.val
        if t.name and obj.tid != tid or not t.name and obj.tid != tid:
            q.fail(st, what + ': type', obj, t.str)
            return
        q.value(st, own, v, what + ': value')
        return
    if obj.tid != tid:
        q.fail(st, what + ': type', obj, t.str)
        return
    q.value(st, obj.val, v, what + ': value')


# ------------------------------------------------------------------ arbitrary bytes
def c_peek_any(E, st, args, ins):
    """peekObject on arbitrary bytes: -1, or a position up to the end and some value of the type"""
    p, off, tt = args
    if isinstance(tt, Iface):
        tt = tt.val
    if not isinstance(tt, RType) or not isinstance(tt.tid, int) or not E.any_ok(tt.tid) or tt.tid in E.verifying:
        return None
    rope, pos, end, size = reader(E, st, p)
    avail = sub(end, pos)
    E.must(st, land(sle(0, off), sle(off, avail)), 'peekObject: offset within the data')
    s1, s2 = st, st.copy()
    nx = E.fresh(s1, 'next', bvsort(64))
    s1.assume(sle(off, nx))
    s1.assume(sle(nx, avail))
    name = 'dec!%d' % next(E.ctr)
    t = E.t(tt.tid)
    v = E.sym(tt.tid, name, s1.idx)
    out = [('ret', s2, Tup([mask(-1, 64), NILI]))]
    if t.kind == 'slice':
        s3 = s1.copy()
        out.append(('ret', s3, Tup([nx, NILI])))
    if t.kind == 'ptr' and not t.name:
        v = Ptr(v.oid, v.path, False)
    out.append(('ret', s1, Tup([nx, Iface(tt.tid, v)])))
    return out


def decodable(E, tid):
    """types the decoder accepts (wire types except those only the encoder knows)"""
    t = E.t(tid)
    own = t.pkg == E.p.pkg
    if t.kind == 'slice' and t.isbytes and t.name == 'CompactBytes':
        return False
    if t.kind == 'struct' and own and t.name == 'messageSetV1':
        return False
    if t.kind == 'struct':
        return all(decodable(E, f['type']) for f in t.fields)
    if t.kind in ('slice', 'ptr') and not t.name:
        return decodable(E, t.elem)
    return True


def prove_any(E, tid):
    E.verifying = {tid}
    E.any_ok = lambda i: wire(E, i) and decodable(E, i)
    E.contracts[fn(E, 'peekObject')] = c_peek_any
    E.hooks['bounds'] = h_bounds
    st = St()
    d = z3.Const('data', Str)
    end, size, off = z3.BitVec('end', 64), z3.BitVec('size', 64), z3.BitVec('off', 64)
    st.assume(sle(0, off))
    st.assume(sle(off, end))
    st.assume(sle(end, slen(d)))
    st.assume(sle(16, size))
    st.assume(sle(size, 2 * LIM))
    p = Ptr(E.alloc(st, Op('Reader', (ratom(d), 0, end, size))))
    E.cur_reader = p
    what = 'peekObject(%s) on arbitrary bytes' % E.t(tid).str
    outs = E.call(st, fn(E, 'peekObject'), [p, off, RType(tid)])
    n = 0
    for s, r in panics(E, outs, what):
        if not E.feasible(s):
            continue
        n += 1
        nx, obj = r.vals
        E.must(s, lor(slt(nx, 0), land(sle(off, nx), sle(nx, end))), what + ': position within the data', what)
        if obj.tid is not None:
            E.must(s, obj.tid == tid or slt(nx, 0), what + ': type of the value', what)
        elif E.t(tid).kind != 'slice':
            E.must(s, slt(nx, 0), what + ': no value', what)
        if E.t(tid).kind == 'ptr' and not E.t(tid).name and obj.tid is not None:
            E.must(s, lnot(obj.val.nil), what + ': nil pointer', what)
    if not n:
        raise Unsupported('no path decodes')


def prove_varint(E, tid):
    """arbitrary bytes decoded as a varint: accepted exactly if a final group comes within the limit"""
    t = E.t(tid)
    limit = (t.width + 6) // 7
    E.verifying = {tid}
    E.any_ok = lambda i: wire(E, i) and decodable(E, i)
    st = St()
    d = z3.Const('data', Str)
    end, size, off = z3.BitVec('end', 64), z3.BitVec('size', 64), z3.BitVec('off', 64)
    for c in (sle(0, off), sle(off, end), sle(end, slen(d)), sle(16, size), sle(end, size), sle(size, 2 * LIM)):
        st.assume(c)
    p = Ptr(E.alloc(st, Op('Reader', (ratom(d), 0, end, size))))
    E.cur_reader = p
    what = 'peekObject(%s) groups' % t.str
    outs = E.call(st, fn(E, 'peekObject'), [p, off, RType(tid)])
    by = lambda i: sbyte(d, add(off, i))
    acc = rej = 0
    for s, r in panics(E, outs, what):
        if not E.feasible(s):
            continue
        nx, obj = r.vals
        for k in range(1, limit + 1):
            # exactly k groups: k-1 continuation bytes, then a final one, all before the end
            c = land(sle(add(off, k), end), ult(by(k - 1), 128, 8))
            for i in range(k - 1):
                c = land(c, ule(128, by(i), 8))
            s2 = s.copy()
            try:
                s2.assume(c)
            except Infeasible:
                continue
            if E.feasible(s2):
                acc += 1
                E.must(s2, eq(nx, add(off, k)), what + ': %d groups are consumed' % k, what)
        none = True
        for k in range(1, limit + 1):
            none = land(none, lor(slt(end, add(off, k)), ule(128, by(k - 1), 8)))
        s2 = s.copy()
        try:
            s2.assume(none)
        except Infeasible:
            continue
        if E.feasible(s2):
            rej += 1
            E.must(s2, slt(nx, 0), what + ': without a final group in the limit the input is rejected', what)
    if acc < limit or not rej:
        raise Unsupported('%s: only %d accepting and %d rejecting cases reached' % (what, acc, rej))
