"""Values of the symbolic executor.  All values are immutable; mutable state lives
in the heap of a path state."""
from .terms import *
import itertools


class Unsupported(Exception):
    pass


_ctr = itertools.count()


# ---------------------------------------------------------------- ropes
# A rope is a finite sequence written as a concatenation of segments.  The same
# structure is used for byte sequences and for lists of Go values and events.

class Seg:
    __slots__ = ()


class L(Seg):           # literal bytes
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = bytes(b)

    def __repr__(self):
        return 'L(%s)' % self.b.hex()


class I(Seg):           # n-byte big-endian integer
    __slots__ = ('n', 'v')

    def __init__(self, n, v):
        self.n, self.v = n, v

    def __repr__(self):
        return 'I%d(%s)' % (self.n, self.v)


class S(Seg):           # bytes [off, off+len) of a byte-string atom
    __slots__ = ('a', 'off', 'len')

    def __init__(self, a, off=0, len=None):
        self.a, self.off = a, off
        self.len = simp(slen(a)) if len is None else len

    def full(self):
        return isinstance(self.off, int) and self.off == 0 and isz(self.len) and self.len.eq(slen(self.a))

    def __repr__(self):
        return 'S(%s)' % self.a if self.full() else 'S(%s,%s,%s)' % (self.a, self.off, self.len)


class F(Seg):           # concatenation over iv = 0 .. n-1 of body
    __slots__ = ('n', 'iv', 'body', 'pl')

    def __init__(self, n, iv, body, pl):
        self.n, self.iv, self.body, self.pl = n, iv, body, pl

    def __repr__(self):
        return 'F(%s<%s: %s)' % (self.iv, self.n, self.body)


class C(Seg):           # exactly one alternative, by condition
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return 'C(%s)' % '; '.join('%s -> %s' % (str(c).replace('\n', ' ')[:200], r) for c, r in self.alts)


class D(Seg):           # decimal rendering of a signed/unsigned integer
    __slots__ = ('v', 'w', 'signed')

    def __init__(self, v, w, signed):
        self.v, self.w, self.signed = v, w, signed

    def __repr__(self):
        return 'D(%s)' % self.v


class V(Seg):           # one list item
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'V(%s)' % (self.v,)


class X(Seg):           # items tmpl[iv := off .. off+len-1] of a symbolic list; id names a whole list
    __slots__ = ('tmpl', 'iv', 'off', 'len', 'id')

    def __init__(self, tmpl, iv, off, len, id=None):
        self.tmpl, self.iv, self.off, self.len, self.id = tmpl, iv, off, len, id

    def __repr__(self):
        return 'X(%s[%s] @%s +%s)' % (self.tmpl, self.iv, self.off, self.len)


class M(Seg):           # what a loop under analysis has appended so far
    __slots__ = ('id', 'len')

    def __init__(self, id, len):
        self.id, self.len = id, len

    def __repr__(self):
        return 'M(%s)' % self.id


class W(Seg):           # window [off, off+len) of another rope, cut lazily
    __slots__ = ('r', 'off', 'len')

    def __init__(self, r, off, len):
        self.r, self.off, self.len = r, off, len

    def __repr__(self):
        return 'W(%s+%s of %s)' % (self.off, self.len, self.r)


class P(Seg):           # only in specifications: a leaf of n bytes judged by a predicate fn(eq, st, bytes, what, *args)
    __slots__ = ('n', 'fn', 'what', 'args')

    def __init__(self, n, fn, what='', args=()):
        self.n, self.fn, self.what, self.args = n, fn, what, tuple(args)

    def __repr__(self):
        return 'P%s(%s)' % (self.n, self.what)


_qid = itertools.count()


class Q(Seg):           # only in specifications: replaced by the rope fn(eq, st, rest of the code's rope, what, *args)
    __slots__ = ('fn', 'what', 'args', 'id')

    def __init__(self, fn, what='', args=(), id=None):
        self.fn, self.what, self.args = fn, what, tuple(args)
        self.id = next(_qid) if id is None else id

    def size(self):
        a = [x for x in self.args if isz(x)]
        return z3.Function('qlen!%d' % self.id, *[x.sort() for x in a], bvsort(64))(*a) if a else z3.Const('qlen!%d' % self.id, bvsort(64))

    def __repr__(self):
        return 'Q(%s)' % self.what


def seglen(s):
    if isinstance(s, L):
        return len(s.b)
    if isinstance(s, I):
        return s.n
    if isinstance(s, (S, X, M, W)):
        return s.len
    if isinstance(s, V):
        return 1
    if isinstance(s, F):
        c = s.body.len()
        if isinstance(c, int):
            return mul(s.n, c)
        return s.pl(s.n)
    if isinstance(s, C):
        r = None
        for c, x in reversed(s.alts):
            r = x.len() if r is None else ite(c, x.len(), r)
        return r
    if isinstance(s, P):
        return s.n
    if isinstance(s, D):
        return declen(bv(s.v, s.w) if s.w == 64 else (z3.SignExt(64 - s.w, bv(s.v, s.w)) if s.signed else z3.ZeroExt(64 - s.w, bv(s.v, s.w))))
    if type(s).__name__ in ('Z', 'Q'):
        return s.size()
    raise Unsupported('len of ' + repr(s))


declen = z3.Function('declen', bvsort(64), bvsort(64))


def bytefold(s):
    """byte-by-byte copies of a part of a byte string are that part"""
    x = s.body.segs[0]
    if x.n == 1 and isz(x.v) and x.v.decl().name() == 'sbyte':
        a, k = x.v.children()
        off = sub(k, s.iv)
        if not mentions(a, [s.iv]) and not (isz(off) and mentions(off, [s.iv])):
            return S(a, off, s.n)
    return s


class Rope:
    __slots__ = ('segs', '_len')

    def __init__(self, segs=()):
        out = []
        for s in segs:
            if isinstance(s, L):
                if not s.b:
                    continue
                if out and isinstance(out[-1], L):
                    out[-1] = L(out[-1].b + s.b)
                    continue
            elif isinstance(s, I) and isinstance(s.v, int):
                b = s.v.to_bytes(s.n, 'big')
                if out and isinstance(out[-1], L):
                    out[-1] = L(out[-1].b + b)
                else:
                    out.append(L(b))
                continue
            elif isinstance(s, (S, X, W)) and isinstance(s.len, int) and s.len == 0:
                continue
            elif isinstance(s, F):
                if isinstance(s.n, int) and s.n == 0 or not s.body.segs:
                    continue
                if len(s.body.segs) == 1 and isinstance(s.body.segs[0], I):
                    s = bytefold(s)
            elif isinstance(s, D) and isinstance(s.v, int):
                b = str(sgn(s.v, s.w) if s.signed else s.v).encode()
                if out and isinstance(out[-1], L):
                    out[-1] = L(out[-1].b + b)
                else:
                    out.append(L(b))
                continue
            elif isinstance(s, C):
                alts = [(c, r) for c, r in s.alts if c is not False]
                if len(alts) == 1 or (alts and alts[0][0] is True):
                    for q in alts[0][1].segs:
                        if isinstance(q, L) and out and isinstance(out[-1], L):
                            out[-1] = L(out[-1].b + q.b)
                        else:
                            out.append(q)
                    continue
                if all(not r.segs for c, r in alts):
                    continue
                s = C(alts)
            elif isinstance(s, W) and isinstance(s.off, int) and s.off == 0 and same(s.len, s.r.len()):
                out.extend(s.r.segs)
                continue
            out.append(s)
        self.segs = tuple(out)
        self._len = None

    def len(self):
        if self._len is None:
            n = 0
            for s in self.segs:
                n = add(n, seglen(s))
            self._len = n
        return self._len

    def __add__(self, o):
        if not o.segs:
            return self
        if not self.segs:
            return o
        return Rope(self.segs + o.segs)

    def __repr__(self):
        return '[' + ' '.join(map(repr, self.segs)) + ']'

    def lit(self):
        """the bytes if fully literal, else None"""
        if not self.segs:
            return b''
        if len(self.segs) == 1 and isinstance(self.segs[0], L):
            return self.segs[0].b
        return None

    def atom(self):
        if len(self.segs) == 1 and isinstance(self.segs[0], S) and self.segs[0].full():
            return self.segs[0].a
        return None


E_ = Rope()


def rlit(b):
    return Rope([L(b.encode() if isinstance(b, str) else b)])


def ratom(a):
    return Rope([S(a)])


# ---------------------------------------------------------------- values

class RSlice:
    """slice with immutable content; tok identifies the newest extension of its backing array"""
    __slots__ = ('rope', 'nil', 'bk', 'tok')

    def __init__(self, rope, nil=False, bk=None, tok=None):
        self.rope, self.nil, self.bk, self.tok = rope, nil, bk, tok

    def __repr__(self):
        return 'RS%s%s' % (self.rope, '' if self.nil is False else '?nil=%s' % self.nil)


class ASlice:
    """view [lo,hi) of a mutable array object (heap value ArrV or RopeArr)"""
    __slots__ = ('oid', 'path', 'lo', 'hi', 'cap')

    def __init__(self, oid, path, lo, hi, cap):
        self.oid, self.path, self.lo, self.hi, self.cap = oid, path, lo, hi, cap

    def __repr__(self):
        return 'AS(%s%s[%s:%s])' % (self.oid, self.path, self.lo, self.hi)


class ArrV:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def __repr__(self):
        return 'Arr%s' % (self.vals,)


class RopeArr:
    """array object whose content is a rope (large or symbolic-length make)"""
    __slots__ = ('rope', 'frozen')

    def __init__(self, rope):
        self.rope = rope

    def __repr__(self):
        return 'RA%s' % (self.rope,)


class Ptr:
    __slots__ = ('oid', 'path', 'nil')

    def __init__(self, oid, path=(), nil=False):
        self.oid, self.path, self.nil = oid, path, nil

    def __repr__(self):
        return '&%s%s%s' % (self.oid, ''.join('.%s' % (p,) for p in self.path), '' if self.nil is False else '?%s' % self.nil)


NILP = Ptr(None, (), True)


class StructV:
    __slots__ = ('vals', 'tid')

    def __init__(self, vals, tid=None):
        self.vals = tuple(vals)
        self.tid = tid

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self.vals))


class Iface:
    __slots__ = ('tid', 'val')

    def __init__(self, tid, val):
        self.tid, self.val = tid, val

    def __repr__(self):
        return 'nil' if self.tid is None else 'If(%s:%s)' % (self.tid, self.val)


NILI = Iface(None, None)


class MapV:
    __slots__ = ('oid', 'nil')

    def __init__(self, oid, nil=False):
        self.oid, self.nil = oid, nil

    def __repr__(self):
        return 'map%s' % (self.oid,)


class MapObj:
    """base: None or a SymMap; ups: newest last (key, value or DEL); order irrelevant to iteration"""
    __slots__ = ('base', 'ups', 'acc')

    def __init__(self, base=None, ups=(), acc=None):
        self.base, self.ups = base, tuple(ups)
        self.acc = acc if acc is not None else E_     # later updates, as a rope of (key, value) tuples

    def __repr__(self):
        return 'MapObj(%s,%s)' % (self.base, self.ups)


DEL = 'DEL'


class SymMap:
    """symbolic map: kind selects interpretation functions"""
    __slots__ = ('kind', 'args')

    def __init__(self, kind, args):
        self.kind, self.args = kind, tuple(args)

    def __repr__(self):
        return 'SymMap(%s,%s)' % (self.kind, self.args)


class FuncV:
    __slots__ = ('name', 'binds')

    def __init__(self, name, binds=()):
        self.name, self.binds = name, tuple(binds)

    def __repr__(self):
        return 'func(%s)' % self.name


NILF = FuncV(None)


class Tup:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def __repr__(self):
        return 'Tup%s' % (self.vals,)


class RType:
    __slots__ = ('tid',)

    def __init__(self, tid):
        self.tid = tid

    def __repr__(self):
        return 'RType(%s)' % self.tid


class RVal:
    """reflect.Value; addr is a Ptr when addressable"""
    __slots__ = ('tid', 'val', 'addr', 'ro')

    def __init__(self, tid, val=None, addr=None, ro=False):
        self.tid, self.val, self.addr, self.ro = tid, val, addr, ro

    def __repr__(self):
        return 'RVal(%s,%s)' % (self.tid, self.val if self.addr is None else self.addr)


class Op:
    """opaque value with an identity: kind and argument values"""
    __slots__ = ('kind', 'args')

    def __init__(self, kind, args=()):
        self.kind, self.args = kind, tuple(args)

    def __repr__(self):
        return '%s(%s)' % (self.kind, ','.join(map(str, self.args)))


class Iter:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid


class Ev:
    """trace event"""
    __slots__ = ('kind', 'args')

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args

    def __repr__(self):
        return 'Ev.%s%s' % (self.kind, self.args)


class Dead:
    """a loop-carried value the analysis could not describe; any use is unsupported"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Dead(%s)' % self.why

    def __add__(self, o):
        raise Unsupported('use of ' + self.why)


def is_leaf(v):
    return v is None or isinstance(v, (bool, int, str, float, bytes)) or isz(v)


def vmap(v, f, fseg=None):
    """rebuild v with f applied to every term, id and fseg to rope segments (returning a list of segments or None)"""
    def r(v):
        if isz(v):
            return f(v)
        if v is None or isinstance(v, (bool, int, str, float, bytes)):
            return v
        t = type(v)
        if t is tuple:
            return tuple(r(x) for x in v)
        if t is list:
            return [r(x) for x in v]
        if t is Rope:
            out = []
            for s in v.segs:
                out.extend(seg(s))
            return Rope(out)
        if t is RSlice:
            return RSlice(r(v.rope), r(v.nil), v.bk, v.tok)
        if t is ASlice:
            return ASlice(r(v.oid), v.path, r(v.lo), r(v.hi), r(v.cap))
        if t is Ptr:
            return Ptr(r(v.oid), r(v.path), r(v.nil))
        if t is StructV:
            return StructV([r(x) for x in v.vals], v.tid)
        if t is ArrV:
            return ArrV([r(x) for x in v.vals])
        if t is RopeArr:
            return RopeArr(r(v.rope))
        if t is Iface:
            return v if v.tid is None else Iface(v.tid, r(v.val))
        if t is MapV:
            return MapV(r(v.oid), r(v.nil))
        if t is MapObj:
            return MapObj(r(v.base), r(v.ups), r(v.acc))
        if t is SymMap:
            return SymMap(v.kind, [r(x) for x in v.args])
        if t is FuncV:
            return FuncV(v.name, [r(x) for x in v.binds])
        if t is Tup:
            return Tup([r(x) for x in v.vals])
        if t is RVal:
            return RVal(v.tid, r(v.val), r(v.addr), v.ro)
        if t is Op:
            return Op(v.kind, [r(x) for x in v.args])
        if t is Ev:
            return Ev(v.kind, *[r(x) for x in v.args])
        if t is PLF:
            return PLF(v.name, [r(x) for x in v.args])
        if t is dict:
            return {k: r(x) for k, x in v.items()}
        if isinstance(v, Seg):
            return seg(v)[0]
        return v

    def seg(s):
        if fseg is not None:
            q = fseg(s, r)
            if q is not None:
                return q
        t = type(s)
        if t is L:
            return [s]
        if t is P:
            return [P(s.n, s.fn, s.what, [r(x) for x in s.args])] if s.args else [s]
        if t is Q:
            return [Q(s.fn, s.what, [r(x) for x in s.args], s.id)]
        if t is I:
            return [I(s.n, r(s.v))]
        if t is S:
            a = r(s.a)
            return [S(a, r(s.off), r(s.len))]
        if t is F:
            return [F(r(s.n), s.iv, r(s.body), r(s.pl))]
        if t is C:
            return [C([(r(c), r(x)) for c, x in s.alts])]
        if t is D:
            return [D(r(s.v), s.w, s.signed)]
        if t is V:
            return [V(r(s.v))]
        if t is X:
            return [X(r(s.tmpl), s.iv, r(s.off), r(s.len), r(s.id))]
        if t is M:
            return [M(s.id, r(s.len))]
        if t is W:
            return [W(r(s.r), r(s.off), r(s.len))]
        if t.__name__ == 'Z':
            return [t(s.tid, r(s.v), s.E)]
        raise Unsupported('vmap ' + repr(s))
    return r(v)


class PLF:
    """prefix-length function of a fold: a z3 function applied to outer indices"""
    __slots__ = ('name', 'args')

    def __init__(self, name, args):
        self.name, self.args = name, tuple(args)

    def __call__(self, t):
        f = z3.Function(self.name, *([bvsort(64)] * (len(self.args) + 1)), bvsort(64))
        return f(*[bv(a, 64) for a in self.args], bv(t, 64))


def vsubst(v, pairs):
    if not pairs:
        return v
    return vmap(v, lambda e: subst(e, pairs))


def fresh_iv(tag='j'):
    return z3.BitVec('%s!%d' % (tag, next(_ctr)), 64)
