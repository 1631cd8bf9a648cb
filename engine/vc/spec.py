"""Wire-format specification (the oracle) and equality of ropes."""
from .terms import *
from .values import *
from . import solver
from .exec import Split, Infeasible, GoPanic
from .loops import vsame


class Z(Seg):
    """the encoding of value v at type tid, expanded on demand"""
    __slots__ = ('tid', 'v', 'E', '_r')

    def __init__(self, tid, v, E):
        self.tid, self.v, self.E, self._r = tid, v, E, None

    def expand(self):
        if self._r is None:
            self._r = enc(self.E, self.tid, self.v)
        return self._r

    def size(self):
        t = self.E.t(self.tid)
        if t.name in ('VarUint', 'VarInt') and isz(self.v):
            fn = z3.Function('zlen!' + t.name, bvsort(32), bvsort(64))
            if fn.name() not in solver.registry:
                E, tid = self.E, self.tid
                solver.register(fn.name(), lambda a: [a == bv(enc(E, tid, a.children()[0]).len(), 64), z3.BitVecVal(1, 64) <= a,
                                                      a <= z3.BitVecVal(5, 64)], fn.name())
            return fn(self.v)
        return self.expand().len()

    def __repr__(self):
        return 'Z(%s %s)' % (self.E.t(self.tid).str, self.v)


# ------------------------------------------------------------------ types of the protocol
def compactarr(E, f):
    """a field that is tagged as a compact array"""
    t = E.t(f['type'])
    return f.get('tag') == 'kafka:"compact"' and t.kind == 'slice' and not t.name and not t.isbytes


def wire(E, tid, seen=()):
    """is this a type of the wire protocol (no tags, nothing dynamic)?"""
    c = E.__dict__.setdefault('_wire', {})
    if tid in c:
        return c[tid]
    if tid in seen:
        return False
    t = E.t(tid)
    s = seen + (tid,)
    r = False
    own = t.pkg == E.p.pkg
    if t.kind == 'basic':
        r = t.isint or t.isbool or t.isstr or (t.isfloat and t.basic == 'float64')
        if t.basic == 'uintptr':
            r = False
        if t.name and t.pkg and not own:
            r = False
        if t.isint and own and t.name not in ('VarInt', 'VarUint', 'VarInt64', 'VarUint64'):
            r = False
        if t.isstr and own and t.name != 'CompactString':
            r = False
        if t.isbool and own:
            r = False
    elif t.kind == 'array':
        r = t.name == 'UUID' and t.pkg.endswith('google/uuid')
    elif t.kind == 'slice':
        if t.isbytes:
            r = not t.name or own and t.name in ('CompactBytes', 'NullableBytes', 'CompactNullableBytes')
        else:
            r = not t.name and wire(E, t.elem, s)
    elif t.kind == 'ptr':
        e = E.t(t.elem)
        if own and t.name in ('NullableString', 'CompactNullableString'):
            r = True
        elif not t.name and e.kind == 'struct':
            r = wire(E, t.elem, s)
    elif t.kind == 'struct':
        if own and t.name == 'messageSetV1':
            r = True
        else:
            r = t.fields is not None and all(f['exported'] and (not f.get('tag') or compactarr(E, f)) and wire(E, f['type'], s) for f in t.fields)
            if t.pkg and not own:
                r = False
    c[tid] = r
    return r


def varint(u, w):
    """minimal base-128 groups of the unsigned w-bit value u"""
    n = (w + 6) // 7
    alts = []
    for k in range(1, n + 1):
        segs = []
        for g in range(k):
            x = (u >> (7 * g)) & 127 if isinstance(u, int) else simp(z3.Extract(7, 0, z3.LShR(u, z3.BitVecVal(7 * g, w))) & 127)
            if g < k - 1:
                x = x | 128 if isinstance(x, int) else simp(x | 128)
            segs.append(I(1, x))
        lo = 1 << (7 * (k - 1)) if k > 1 else 0
        c = True
        if k > 1:
            c = land(c, ule(lo, u, w))
        if k < n:
            c = land(c, ult(u, 1 << (7 * k), w))
        alts.append((c, Rope(segs)))
    return Rope([C(alts)])


def zigzag(v, w):
    if isinstance(v, int):
        s = sgn(v, w)
        return mask((s << 1) ^ (s >> (w - 1)), w)
    return simp((v << 1) ^ (v >> (w - 1)))


def low(n, w=64):
    """low w bits of a 64-bit term"""
    return mask(n, w) if isinstance(n, int) else simp(z3.Extract(w - 1, 0, n))


def length32(r):
    return Rope([I(4, low(r.len(), 32))]) + r


def compactlen(n):
    """signed varint of length+1, kept exact in 32 bits"""
    return varint(zigzag(low(add(n, 1), 32), 32), 32)


def deref(E, p):
    if isinstance(p, Ptr) and isinstance(p.oid, tuple) and p.oid[0] == 'ro':
        v = p.oid[1]
        for e in p.path:
            v = v.vals[e]
        return v
    raise Unsupported('dereference of %r in a specification' % (p,))


def srope(E, v):
    if isinstance(v, Rope):
        return v
    if isinstance(v, RSlice):
        return v.rope
    raise Unsupported('content of %r in a specification' % (v,))


def enc(E, tid, v):
    """the bytes of value v of wire type tid"""
    t = E.t(tid)
    own = t.name if t.pkg == E.p.pkg else ''
    if t.kind == 'basic':
        if t.isbool:
            if isinstance(v, bool):
                return Rope([L(bytes([int(v)]))])
            return Rope([I(1, simp(z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))))])
        if t.isfloat:
            return Rope([I(8, v)])
        if t.isint:
            if own == 'VarInt':
                return varint(zigzag(v, 32), 32)
            if own == 'VarInt64':
                return varint(zigzag(v, 64), 64)
            if own == 'VarUint':
                return varint(v, 32)
            if own == 'VarUint64':
                return varint(v, 64)
            if t.basic in ('int', 'uint'):
                return Rope([I(4, low(v, 32))])
            return Rope([I(t.width // 8, v)])
        if t.isstr:
            if own == 'CompactString':
                return compactlen(v.len()) + v
            return Rope([I(2, low(v.len(), 16))]) + v
    if t.kind == 'array':
        return E.bytesrope(v.vals)
    if t.kind == 'slice':
        if t.isbytes:
            r = srope(E, v)
            if own in ('CompactBytes', 'CompactNullableBytes'):
                return choice(v.nil, rlit(b'\0'), compactlen(r.len()) + r)
            return choice(v.nil, rlit(b'\xff' * 4), length32(r))
        r = srope(E, v)
        n = r.len()
        body = Rope([I(4, low(n, 32))]) + mapenc(E, t.elem, r)
        return choice(v.nil, rlit(b'\xff' * 4), body)
    if t.kind == 'ptr':
        if own == 'NullableString':
            if v.nil is True:
                return rlit(b'\xff\xff')
            s = deref(E, v)
            return choice(v.nil, rlit(b'\xff\xff'), Rope([I(2, low(s.len(), 16))]) + s)
        if own == 'CompactNullableString':
            if v.nil is True:
                return rlit(b'\0')
            s = deref(E, v)
            return choice(v.nil, rlit(b'\0'), compactlen(s.len()) + s)
        return enc(E, t.elem, deref(E, v))
    if t.kind == 'struct':
        if own == 'messageSetV1':
            if isinstance(v, Op) and v.kind == 'mset':
                return E.hooks['mset'](E, v)
            names = [f['name'] for f in t.fields]
            ms = v.vals[names.index('msgs')]
            tot = v.vals[names.index('totalSize')]
            et = E.t(t.fields[names.index('msgs')]['type']).elem
            return Rope([I(4, low(tot, 32))]) + mapenc(E, et, srope(E, ms))
        out = E_
        for f, x in zip(t.fields, v.vals):
            ft = E.t(f['type'])
            if ft.kind in ('struct', 'ptr') and not ft.name == 'NullableString' and not ft.name == 'CompactNullableString':
                out = out + Rope([Z(target(E, f['type']), unptr(E, f['type'], x), E)])
            elif compactarr(E, f):
                r = srope(E, x)
                n = low(add(r.len(), 1), 32)
                vi = getattr(E, 'zcount', None)
                cnt = Rope([Z(vi, n, E)]) if vi is not None and isz(n) else varint(zigzag(n, 32), 32)
                out = out + choice(x.nil, Rope([Z(vi, 0, E)]) if vi is not None else rlit(b'\0'), cnt + mapenc(E, ft.elem, r))
            else:
                out = out + enc(E, f['type'], x)
        return out
    raise Unsupported('encoding of ' + t.str)


def target(E, tid):
    t = E.t(tid)
    return t.elem if t.kind == 'ptr' and not (t.pkg == E.p.pkg and t.name) else tid


def unptr(E, tid, v):
    t = E.t(tid)
    return deref(E, v) if t.kind == 'ptr' and not (t.pkg == E.p.pkg and t.name) else v


def choice(nil, a, b):
    if nil is True:
        return a
    if nil is False:
        return b
    return Rope([C([(nil, a), (lnot(nil), b)])])


def mapenc(E, et, r):
    """concatenation of the encodings of the items of a list rope"""
    out = []
    for s in r.segs:
        if isinstance(s, V):
            out.append(Z(target(E, et), unptr(E, et, s.v), E))
        elif isinstance(s, X):
            iv = fresh_iv()
            item = vsubst(s.tmpl, [(s.iv, add(s.off, iv))])
            if s.id is not None and isinstance(s.off, int) and s.off == 0 and s.id[0] in E.lists:
                out.append(F(s.len, iv, Rope([Z(target(E, et), unptr(E, et, item), E)]), listpl(E, et, s.id)))
                continue
            out.append(mkfold(E, s.len, iv, Rope([Z(target(E, et), unptr(E, et, item), E)])))
        elif isinstance(s, F):
            body = mapenc(E, et, s.body)
            out.append(mkfold(E, s.n, s.iv, body))
        elif isinstance(s, C):
            out.append(C([(c, mapenc(E, et, x)) for c, x in s.alts]))
        elif isinstance(s, M):
            raise Unsupported('encoding a list that is still being built')
        elif isinstance(s, W):
            raise Unsupported('encoding a part of a list')
        else:
            raise Unsupported('encoding of list %r' % (s,))
    return Rope(out)


def listpl(E, et, id):
    """prefix length of the encoding of a named symbolic list"""
    name, args = id
    key = ('listpl', name, et)
    names = E.__dict__.setdefault('_folds', {})
    if key not in names:
        idx, iv, tmpl = E.lists[name]
        ln = Rope([Z(target(E, et), unptr(E, et, tmpl), E)]).len()
        if isinstance(ln, int):
            names[key] = 'pl!c%d' % ln
        else:
            names[key] = 'pl!l%d!%s' % (next(E.ctr2), name)
            gen = tuple(idx)
            solver.prefix[names[key]] = (lambda args, t, ln=ln, iv=iv, gen=gen: subst(ln, list(zip(gen, args)) + [(iv, t)]), True)
    return PLF(names[key], () if names[key].startswith('pl!c') else args)


def mkfold(E, n, iv, body):
    """fold with a prefix-length function over the free indices of the body"""
    ln = body.len()
    if isinstance(ln, int):
        return F(n, iv, body, PLF('pl!c%d' % ln, ()))
    free = free_indices(ln, iv)
    key = (str(ln.sexpr()) if isz(ln) else str(ln)).replace(str(iv), '@')
    names = E.__dict__.setdefault('_folds', {})
    k = (key, tuple(str(x) for x in free))
    if k not in names:
        name = 'pl!s%d' % next(E.ctr2)
        names[k] = name

        def step(args, t, ln=ln, iv=iv, free=tuple(free)):
            return subst(ln, [(a, b) for a, b in zip(free, args)] + [(iv, t)])
        solver.prefix[name] = (step, True)
    return F(n, iv, body, PLF(names[k], free))


def free_indices(e, iv):
    """the index terms (arguments of applications) that e depends on besides iv"""
    out = []
    for a in apps(e):
        for c in a.children():
            if z3.is_bv(c) and c.size() == 64 and not z3.is_bv_value(c) and not c.eq(iv) and not any(c.eq(o) for o in out):
                if c.decl().name().startswith('pl!') or mentions(c, [iv]):
                    continue
                out.append(c)
    return out


# ------------------------------------------------------------------ symbolic well-formed values
def wf_registry(E):
    """strings of at most 32767 bytes, blobs and arrays of at most 2^31-1"""
    pass


def wfsym(E, tid, name, idx=(), depth=0):
    t = E.t(tid)

    def fn(sfx, sort):
        n = name + sfx
        return z3.Function(n, *[x.sort() for x in idx], sort)(*idx) if idx else z3.Const(n, sort)
    if t.kind == 'basic' and t.isstr:
        a = fn('', Str)
        solver.register(a.decl().name(), lambda x: [slen(x) <= 32767], 'str15')
        return ratom(a)
    if t.kind == 'basic' and t.basic in ('int', 'uint'):
        v = fn('', bvsort(32))
        return simp(z3.SignExt(32, v) if t.signed else z3.ZeroExt(32, v))
    if t.kind == 'slice' and t.isbytes:
        a, nil = fn('', Str), fn('.nil', z3.BoolSort())
        ad = a.decl()
        solver.register(ad.name(), lambda x: [slen(x) <= 0x7ffffff0], 'str31')
        solver.register(nil.decl().name(), lambda x, ad=ad: [z3.Implies(x, slen(ad(*x.children())) == 0)], 'nil' + name)
        return RSlice(ratom(a), nil)
    if t.kind == 'slice':
        n, nil = fn('.len', bvsort(64)), fn('.nil', z3.BoolSort())
        nd = n.decl()
        solver.register(nd.name(), lambda x: [z3.And(z3.BitVecVal(0, 64) <= x, x <= 0x7ffffff0)], 'len31')
        solver.register(nil.decl().name(), lambda x, nd=nd: [z3.Implies(x, nd(*x.children()) == 0)], 'nil' + name)
        iv = fresh_iv('e')
        tmpl = wfsym(E, t.elem, name + '[]', tuple(idx) + (iv,))
        E.lists[name] = (tuple(idx), iv, tmpl)
        return RSlice(Rope([X(tmpl, iv, 0, n, (name, tuple(idx)))]), nil)
    if t.kind == 'ptr':
        own = t.pkg == E.p.pkg and t.name
        return Ptr(('ro', wfsym(E, t.elem, name + '*', idx)), (), fn('.nil', z3.BoolSort()) if own else False)
    if t.kind == 'struct':
        return StructV([wfsym(E, f['type'], '%s.%s' % (name, f['name']), idx) for f in t.fields], tid)
    if t.kind == 'array':
        return ArrV([wfsym(E, t.elem, '%s.%d' % (name, k), idx) for k in range(t.len)])
    return E.sym(tid, name, idx)


def snapshot(E, st, v):
    """v with everything it points to, as an immutable value"""
    t = type(v)
    if t is ASlice:
        return RSlice(snapshot(E, st, E.force(st, E.srope(st, v))), False)
    if t is RSlice:
        return RSlice(snapshot(E, st, v.rope), v.nil)
    if t is Rope:
        if not any(isinstance(s, (V, C, F)) for s in v.segs):
            return v
        out = []
        for s in v.segs:
            if isinstance(s, V):
                out.append(V(snapshot(E, st, s.v)))
            elif isinstance(s, C):
                out.append(C([(c, snapshot(E, st, x)) for c, x in s.alts]))
            elif isinstance(s, F):
                out.append(F(s.n, s.iv, snapshot(E, st, s.body), s.pl))
            else:
                out.append(s)
        return Rope(out)
    if t is Ptr:
        if v.nil is True or isinstance(v.oid, tuple) and v.oid[0] == 'ro':
            if v.nil is not True and v.path:
                return Ptr(('ro', deref(E, v)), (), v.nil)
            return v
        if v.nil is not False and not E.entails(st, lnot(v.nil)):
            raise Unsupported('pointer that may be nil')
        h = E.hooks.get('snapptr')
        h = h(E, st, v) if h else None
        if h is not None:
            return h
        return Ptr(('ro', snapshot(E, st, E.load(st, v))), (), False)
    if t is StructV:
        return StructV([snapshot(E, st, x) for x in v.vals], v.tid)
    if t is ArrV:
        return ArrV([snapshot(E, st, x) for x in v.vals])
    if t is Iface and v.tid is not None:
        return Iface(v.tid, snapshot(E, st, v.val))
    if t is Dead:
        raise Unsupported('use of ' + v.why)
    return v


# ------------------------------------------------------------------ equality
class Mismatch(Exception):
    pass


class Eq:
    """proves equalities on a path, splitting it where alternatives remain"""

    def __init__(self, E, name):
        self.E, self.name = E, name
        self.n = 0

    def need(self, st, c, what):
        self.n += 1
        if c is False:
            if not self.E.feasible(st):
                self.E.record(self.name, what, 'discharged')
                return
            try:
                self.E.must(st, c, what, self.name)
            except GoPanic:
                pass
            raise Mismatch(what)
        try:
            self.E.must(st, c, what, self.name)
        except Infeasible:
            pass

    def fail(self, st, what, a=None, b=None):
        if not self.E.feasible(st):
            return
        raise Mismatch('%s: code gives %s, specification %s' % (what, short(a), short(b)))

    def cases(self, st, s):
        for c, x in s.alts:
            if isinstance(c, bool) and not c:
                continue
            s2 = st.copy()
            try:
                s2.assume(c)
            except Infeasible:
                continue
            if self.E.feasible(s2):
                yield s2, x

    def bytes(self, st, a, b, what='bytes'):
        """rope a (code) equals rope b (spec)"""
        E = self.E
        a, b = list(a.segs), list(b.segs)
        while True:
            while a and self.gone(st, a[0]):
                a.pop(0)
            while b and self.gone(st, b[0]):
                b.pop(0)
            if not a and not b:
                return
            x, y = (a[0] if a else None), (b[0] if b else None)
            if x is None or y is None:
                z = x if y is None else y
                rest = Rope(a if y is None else b)
                if isinstance(z, C):
                    for s2, alt in self.cases(st, z):
                        r = Rope(alt.segs + tuple((a if y is None else b)[1:]))
                        self.bytes(s2, r, E_, what) if y is None else self.bytes(s2, E_, r, what)
                    return
                if isinstance(z, Z):
                    (a if y is None else b)[0:1] = list(z.expand().segs)
                    continue
                if x is None and isinstance(z, F) and any(isinstance(g, Q) for g in z.body.segs):
                    self.fold(st, F(z.n, fresh_iv(), E_, PLF('pl!c0', ())), z, what)
                    b.pop(0)
                    continue
                if y is None and isinstance(z, F) and not isinstance(z.body.len(), int):
                    # nothing is expected: no iteration adds anything
                    self.fold(st, z, F(z.n, fresh_iv(), E_, PLF('pl!c0', ())), what)
                    a.pop(0)
                    continue
                if isinstance(z, Q):
                    b[0:1] = list(z.fn(self, st, E_, what + ' ' + z.what, *z.args).segs)
                    continue
                n = rest.len()
                self.need(st, eq(n, 0), what + ': extra data' if y is None else what + ': missing data')
                return
            if isinstance(x, Z) and isinstance(y, Z) and x.tid == y.tid:
                if self.veq_quick(st, x.v, y.v):
                    a.pop(0)
                    b.pop(0)
                    continue
            if isinstance(x, W):
                a[0:1] = list(E.force(st, Rope([x])).segs)
                continue
            if isinstance(y, W):
                b[0:1] = list(E.force(st, Rope([y])).segs)
                continue
            if isinstance(x, Z):
                a[0:1] = list(x.expand().segs)
                continue
            if isinstance(y, Z):
                b[0:1] = list(y.expand().segs)
                continue
            if isinstance(y, Q) and not isinstance(x, C):
                b[0:1] = list(y.fn(self, st, Rope(a), what + ' ' + y.what, *y.args).segs)
                continue
            if isinstance(x, C) and isinstance(y, C) and len(x.alts) == len(y.alts) and self.same_choice(st, x, y):
                a.pop(0)
                b.pop(0)
                continue
            if isinstance(x, C):
                for s2, alt in self.cases(st, x):
                    self.bytes(s2, Rope(alt.segs + tuple(a[1:])), Rope(b), what)
                return
            if isinstance(y, C):
                for s2, alt in self.cases(st, y):
                    self.bytes(s2, Rope(a), Rope(alt.segs + tuple(b[1:])), what)
                return
            if isinstance(y, P):
                try:
                    l, r = E.cut(st, Rope(a), y.n)
                except Unsupported as u:
                    raise Mismatch(str(u))
                y.fn(self, st, l, what + ' ' + y.what, *y.args)
                a = list(r.segs)
                b.pop(0)
                continue
            if isinstance(x, F) and isinstance(y, F):
                self.fold(st, x, y, what)
                a.pop(0)
                b.pop(0)
                continue
            if isinstance(x, (V, X)) or isinstance(y, (V, X)):
                if isinstance(x, V) and isinstance(y, V):
                    self.value(st, x.v, y.v, what)
                    a.pop(0)
                    b.pop(0)
                    continue
                if isinstance(x, X) and isinstance(y, X) or isinstance(x, X) and isinstance(y, F) or isinstance(x, F) and isinstance(y, X):
                    self.fold(st, self.asfold(x), self.asfold(y), what)
                    a.pop(0)
                    b.pop(0)
                    continue
                self.fail(st, what, Rope(a), Rope(b))
                return
            if isinstance(x, S) and isinstance(y, S):
                if x.a.eq(y.a) or E.entails(st, x.a == y.a):
                    self.need(st, eq(x.off, y.off), what + ': different part of a byte string')
                    self.need(st, eq(x.len, y.len), what + ': length of a byte string')
                    a.pop(0)
                    b.pop(0)
                    continue
                if x.full() and y.full():
                    self.need(st, simp(x.a == y.a), what + ': different byte string')
                    a.pop(0)
                    b.pop(0)
                    continue
            nx, ny = seglen(x), seglen(y)
            if isinstance(nx, int) and isinstance(ny, int) and (min(nx, ny) <= 64 or isinstance(x, L) and isinstance(y, L)) and isinstance(x, (L, I, D, S)) and isinstance(y, (L, I, S)):
                n = min(nx, ny)
                if isinstance(x, I) and isinstance(y, I) and nx == ny:
                    self.need(st, eq(x.v, y.v), what)
                    a.pop(0)
                    b.pop(0)
                    continue
                if n == 0:
                    (a if nx == 0 else b).pop(0)
                    continue
                xa, ra = E.cut(st, Rope([x]), n)
                yb, rb = E.cut(st, Rope([y]), n)
                if isinstance(x, L) and isinstance(y, L):
                    self.need(st, xa.lit() == yb.lit(), what)
                elif n <= 8:
                    self.need(st, eq(E.beint(st, xa, n), E.beint(st, yb, n), n * 8), what)
                else:
                    for k in range(n):
                        self.need(st, eq(E.item(st, xa, k), E.item(st, yb, k), 8), what)
                a[0:1] = list(ra.segs)
                b[0:1] = list(rb.segs)
                continue
            if isinstance(x, F) and not isinstance(y, F) or isinstance(y, F) and not isinstance(x, F):
                f = x if isinstance(x, F) else y
                lst = a if isinstance(x, F) else b
                if E.entails(st, eq(f.n, 0)):
                    lst.pop(0)
                    continue
            self.fail(st, what, Rope(a), Rope(b))
            return

    def gone(self, st, s):
        if isinstance(s, (C, V, I, Z, Q)) or isinstance(s, L):
            return False
        n = s.n if isinstance(s, F) else seglen(s)
        if isinstance(n, int):
            return n == 0
        return self.E.inpc(st, eq(n, 0)) if isz(eq(n, 0)) else eq(n, 0)

    def asfold(self, x):
        if isinstance(x, F):
            return x
        iv = fresh_iv()
        return F(x.len, iv, Rope([V(vsubst(x.tmpl, [(x.iv, add(x.off, iv))]))]), PLF('pl!c1', ()))

    def same_choice(self, st, x, y):
        for (c, r), (d, q) in zip(x.alts, y.alts):
            if not same(c, d):
                return False
        n = self.n
        for (c, r), (d, q) in zip(x.alts, y.alts):
            s2 = st.copy()
            try:
                s2.assume(c)
            except Infeasible:
                continue
            if not self.E.feasible(s2):
                continue
            self.bytes(s2, r, q)
        return True

    def fold(self, st, x, y, what):
        E = self.E
        self.need(st, eq(x.n, y.n), what + ': number of elements')
        s2 = st.copy()
        t = E.fresh(s2, 't', bvsort(64))
        try:
            s2.assume(sle(0, t))
            s2.assume(slt(t, x.n))
        except Infeasible:
            return
        for u in st.univ:
            f = u.inst(t)
            if f is not None:
                try:
                    s2.assume(simp(f))
                except Infeasible:
                    return
            if u.nest:
                s2.univ = s2.univ + tuple(u.nested(t))
        s2.idx = st.idx + (t,)
        if not E.feasible(s2):
            return
        # body conditions of the code come with their own facts
        self.bytes(s2, vsubst(x.body, [(x.iv, t)]), vsubst(y.body, [(y.iv, t)]), what + '[]')

    def veq_quick(self, st, a, b):
        try:
            return vsame(self.E, st, a, b)
        except Unsupported:
            return False

    # ---- Go values against expected Go values
    def value(self, st, a, b, what='value'):
        E = self.E
        if a is b:
            return
        if isinstance(b, Pred):
            b.fn(self, st, a, what)
            return
        if isinstance(a, Dead):
            raise Unsupported('use of ' + a.why)
        if isinstance(b, (bool, int)) or isz(b):
            if not (isinstance(a, (bool, int)) or isz(a)):
                return self.fail(st, what, a, b)
            self.need(st, eq(a, b, width(b) if isz(b) and z3.is_bv(b) else 64), what)
            return
        if isinstance(b, Rope):
            if isinstance(a, Rope):
                return self.bytes(st, a, b, what)
            return self.fail(st, what, a, b)
        if isinstance(b, (RSlice, ASlice)):
            if not isinstance(a, (RSlice, ASlice)):
                return self.fail(st, what, a, b)
            self.need(st, eq(E.isnil(a), E.isnil(b)) if not same(E.isnil(a), E.isnil(b)) else True, what + ': nil-ness')
            return self.bytes(st, E.srope(st, a), E.srope(st, b), what)
        if isinstance(b, StructV):
            if not isinstance(a, StructV) or len(a.vals) != len(b.vals):
                return self.fail(st, what, a, b)
            t = E.t(b.tid) if b.tid is not None else None
            for k, (x, y) in enumerate(zip(a.vals, b.vals)):
                self.value(st, x, y, what + '.' + (t.fields[k]['name'] if t else str(k)))
            return
        if isinstance(b, ArrV):
            for k, (x, y) in enumerate(zip(a.vals, b.vals)):
                self.value(st, x, y, what + '[%d]' % k)
            return
        if isinstance(b, Iface):
            if not isinstance(a, Iface) or a.tid != b.tid:
                return self.fail(st, what, a, b)
            if b.tid is not None:
                self.value(st, a.val, b.val, what)
            return
        if isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                return self.fail(st, what, a, b)
            self.need(st, eq(a.nil, b.nil), what + ': nil-ness')
            if b.nil is True:
                return
            s2 = st.copy()
            try:
                s2.assume(lnot(b.nil))
            except Infeasible:
                return
            if not E.feasible(s2):
                return
            a2 = Ptr(a.oid, a.path, False)
            b2 = Ptr(b.oid, b.path, False)
            self.value(s2, E.load(s2, a2), E.load(s2, b2), what + '*')
            return
        if isinstance(b, Ev):
            if not isinstance(a, Ev) or a.kind != b.kind or len(a.args) != len(b.args):
                return self.fail(st, what, a, b)
            for k, (x, y) in enumerate(zip(a.args, b.args)):
                self.value(st, x, y, '%s %s.%d' % (what, b.kind, k))
            return
        if isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return self.fail(st, what, a, b)
            for x, y in zip(a, b):
                self.value(st, x, y, what)
            return
        if isinstance(b, Op):
            if isinstance(a, Op) and a.kind == b.kind and len(a.args) == len(b.args):
                for x, y in zip(a.args, b.args):
                    self.value(st, x, y, what)
                return
            return self.fail(st, what, a, b)
        if a is None and b is None or a == b:
            return
        self.fail(st, what, a, b)


class Pred:
    """expected value given by a predicate fn(eq, st, actual, what)"""
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


def short(x):
    s = repr(x)
    return s if len(s) < 700 else s[:700] + '…'


# ------------------------------------------------------------------ contracts of the codec
def c_encodeObject(E, st, args, ins):
    """encodeObject(w, v): appends exactly enc(type of v, v)"""
    w, v = args
    if not isinstance(v, Iface) or not isinstance(v.tid, int) or v.tid in E.verifying or not wire(E, v.tid):
        return None
    t = E.t(v.tid)
    x = v.val
    if t.kind == 'ptr' and not t.name:
        E.must(st, lnot(x.nil), 'encodeObject: nil pointer')
        if isinstance(x, Ptr) and x.nil is not False:
            x = Ptr(x.oid, x.path, False)
    val = snapshot(E, st, x)
    wo = E.load(st, w)
    if not (isinstance(wo, Op) and wo.kind == 'Writer'):
        return None
    E.store(st, w, Op('Writer', (wo.args[0], wo.args[1] + Rope([Z(target(E, v.tid), unptr(E, v.tid, val), E)]))))
    E.used_enc.add(v.tid)
    return [('ret', st, None)]
