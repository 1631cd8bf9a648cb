"""Terms: Python ints/bools for concrete values, z3 bit-vectors/bools otherwise."""
import z3

Str = z3.DeclareSort('Str')     # identity of a byte string
Ep = z3.DeclareSort('Ep')       # a moment at which a lock was acquired
LIM = 1 << 46                   # no byte sequence or list in memory is longer

slen = z3.Function('slen', Str, z3.BitVecSort(64))
sbyte = z3.Function('sbyte', Str, z3.BitVecSort(64), z3.BitVecSort(8))

_bvs = {w: z3.BitVecSort(w) for w in (1, 8, 16, 32, 64)}


def bvsort(w):
    return _bvs[w] if w in _bvs else z3.BitVecSort(w)


def isz(x):
    return isinstance(x, z3.ExprRef)


def bv(x, w):
    return z3.BitVecVal(x, w) if isinstance(x, int) else x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def mask(x, w):
    return x & ((1 << w) - 1)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def width(x, d=64):
    return x.size() if isz(x) else d


def add(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return mask(a + b, w)
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return simp(bv(a, w) + bv(b, w))


def sub(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return mask(a - b, w)
    if isinstance(b, int) and b == 0:
        return a
    return simp(bv(a, w) - bv(b, w))


def mul(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return mask(a * b, w)
    return simp(bv(a, w) * bv(b, w))


def eq(a, b, w=64):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        return simp(zb(a) == zb(b))
    if isz(a) and isz(b) and a.eq(b):
        return True
    if isz(a):
        w = a.size() if z3.is_bv(a) else w
    elif isz(b):
        w = b.size()
    return simp(bv(a, w) == bv(b, w))


def slt(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return sgn(a, w) < sgn(b, w)
    return simp(bv(a, w) < bv(b, w))


def sle(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return sgn(a, w) <= sgn(b, w)
    return simp(bv(a, w) <= bv(b, w))


def ult(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return simp(z3.ULT(bv(a, w), bv(b, w)))


def ule(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return simp(z3.ULE(bv(a, w), bv(b, w)))


def lnot(a):
    if isinstance(a, bool):
        return not a
    return simp(z3.Not(a))


def land(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            ys.append(x)
    if not ys:
        return True
    if len(ys) == 1:
        return ys[0]
    return simp(z3.And(*ys))


def lor(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            ys.append(x)
    if not ys:
        return False
    if len(ys) == 1:
        return ys[0]
    return simp(z3.Or(*ys))


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b, w=64):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        return simp(z3.If(c, zb(a), zb(b)))
    if isz(a) and isz(b):
        if a.eq(b):
            return a
    elif isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if isz(a) and z3.is_bv(a):
        w = a.size()
    elif isz(b) and z3.is_bv(b):
        w = b.size()
    return simp(z3.If(c, bv(a, w), bv(b, w)))


def subst(e, pairs):
    """pairs: list of (z3 const, term)"""
    if not isz(e) or not pairs:
        return e
    ps = [(k, (bv(v, k.size()) if isinstance(v, int) and not isinstance(v, bool) else zb(v) if isinstance(v, bool) else v)) for k, v in pairs]
    return simp(z3.substitute(e, *ps))


def same(a, b):
    """syntactic identity"""
    if isz(a) and isz(b):
        return a.eq(b)
    if isz(a) or isz(b):
        return False
    return type(a) == type(b) and a == b


_apps_cache = {}
_keep = []


def apps2(e):
    """the uninterpreted applications (incl. constants) in e, as (id, expr) pairs"""
    k = e.get_id()
    r = _apps_cache.get(k)
    if r is not None:
        return r
    todo = [(e, k, None)]
    while todo:
        x, i, ch = todo[-1]
        if i in _apps_cache:
            todo.pop()
            continue
        if ch is None:
            ch = [(c, c.get_id()) for c in x.children()] if z3.is_app(x) else []
            todo[-1] = (x, i, ch)
            more = [(c, j, None) for c, j in ch if j not in _apps_cache]
            if more:
                todo.extend(more)
                continue
        todo.pop()
        u = z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED
        if not u and len(ch) == 1:
            r = _apps_cache[ch[0][1]]
        else:
            d = {i: x} if u else {}
            for c, j in ch:
                for q, y in _apps_cache[j]:
                    d[q] = y
            r = tuple(d.items())
        _apps_cache[i] = r
        _keep.append(x)     # keep ids valid
    return _apps_cache[k]


def apps(e):
    return [a for _, a in apps2(e)] if isz(e) else ()


def mentions(e, consts):
    ids = {c.get_id() for c in consts}
    return any(a.get_id() in ids for a in apps(e))
