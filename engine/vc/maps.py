"""Symbolic maps: content given by has(key), val(key) and a size; ranging enumerates the keys in an arbitrary order."""
from .terms import *
from .values import *
from . import solver


class MapKind:
    """interpretation of a kind of symbolic map; args are the map's own arguments"""
    key = bvsort(64)

    def __init__(self, name):
        self.name = name

    def n(self, E, st, args):
        raise NotImplementedError

    def has(self, E, st, args, key):
        raise NotImplementedError

    def val(self, E, st, args, key):
        raise NotImplementedError

    def wrap(self, k):
        return ratom(k) if self.key == Str else k

    def unwrap(self, E, st, key):
        return E.strterm(st, key) if self.key == Str else bv(key, self.key.size())


def enumfn(E, kind, base, inst, outer):
    """key number j of one enumeration (a range statement, or the sorted order) of a map"""
    K = E.mapkinds[kind]
    args = [bv(a, 64) if not isz(a) else a for a in list(base.args) + list(outer)]
    nm = 'enum!%s!%s' % (kind, inst)
    pos = 'epos!%s!%s' % (kind, inst)
    sorts = [a.sort() for a in args]
    fn = z3.Function(nm, *sorts, bvsort(64), K.key)
    inv = z3.Function(pos, *sorts, K.key, bvsort(64))
    na = len(base.args)
    if nm not in solver.registry:
        def facts(app):
            ch = app.children()
            a, t = ch[:-1], ch[-1]
            ba = a[:na]
            n = bv(K.n(E, None, ba), 64)
            return [z3.Implies(z3.And(z3.BitVecVal(0, 64) <= t, t < n), z3.And(zb(K.has(E, None, ba, app)), inv(*a, app) == t))]

        def ifacts(app):
            ch = app.children()
            a, k = ch[:-1], ch[-1]
            ba = a[:na]
            n = bv(K.n(E, None, ba), 64)
            return [z3.Implies(zb(K.has(E, None, ba, k)), z3.And(z3.BitVecVal(0, 64) <= app, app < n, fn(*a, app) == k))]
        solver.register(nm, facts, nm)
        solver.register(pos, ifacts, pos)
    return lambda j: fn(*args, bv(j, 64)), lambda k: inv(*args, k)


def lookup(E, st, m, base, key, vt):
    K = E.mapkinds[base.kind]
    k = K.unwrap(E, st, key)
    h = K.has(E, st, base.args, k)
    if E.decide(st, h):
        return K.val(E, st, base.args, k), True
    return E.zero(vt), False


def nxt(E, st, it, o, m, mo, pos, tt):
    if mo.ups or mo.acc.segs:
        raise Unsupported('range over a map that was modified')
    base = mo.base
    K = E.mapkinds[base.kind]
    outer = o.args[2:]
    fn, _ = enumfn(E, base.kind, base, 'r%s' % it.oid, outer)
    n = K.n(E, st, base.args)
    if E.decide(st, slt(pos, n)):
        k = fn(pos)
        E.setobj(st, it.oid, Op('MapIter', (m, add(pos, 1)) + tuple(outer)))
        st.assume(K.has(E, st, base.args, k))
        return Tup([True, K.wrap(k), K.val(E, st, base.args, k)])
    return Tup([False, E.zero(tt.elems[1]) if tt.elems[1] is not None and E.t(tt.elems[1]).kind != 'invalid' else None, None])


def mlen(E, st, m, mo):
    if mo.base is not None and not mo.ups and not mo.acc.segs:
        return E.mapkinds[mo.base.kind].n(E, st, mo.base.args)
    raise Unsupported('len of a modified symbolic map')


def h_sort(E, st, r):
    """the keys of a map, ranged over in any order, sorted"""
    if len(r.segs) != 1:
        return None
    s = r.segs[0]
    if isinstance(s, X):
        return None
    if not isinstance(s, F) or len(s.body.segs) != 1 or not isinstance(s.body.segs[0], V):
        return None
    k = s.body.segs[0].v
    if not (isz(k) and z3.is_app(k) and k.decl().name().startswith('enum!')):
        return None
    ch = k.children()
    if not ch[-1].eq(s.iv):
        return None
    kind = k.decl().name().split('!')[1]
    K = E.mapkinds[kind]
    na = len(K.args) if hasattr(K, 'args') else 0
    base = SymMap(kind, ch[:na])
    if not E.entails(st, eq(s.n, K.n(E, st, base.args))):
        return None
    fn, _ = enumfn(E, kind, base, 'sorted', ())
    return Rope([F(s.n, s.iv, Rope([V(fn(s.iv))]), s.pl)])
