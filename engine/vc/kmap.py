"""Maps from strings to lists that an operation builds up itself.

One arbitrary key (kappa) is followed exactly; an access with another key returns something unknown and
changes nothing about kappa's entry.  What has been shown about kappa's entry then holds for every key."""
from .terms import *
from .values import *
from . import solver, maps

keyat = z3.Function('keyat', bvsort(64), Str)
keyidx = z3.Function('keyidx', Str, bvsort(64))


def setup():
    solver.register('keyat', lambda a: [keyidx(a) == a.children()[0]], 'keyat')
    solver.register('keyidx', lambda a: [keyat(a) == a.children()[0]], 'keyidx')


def install(E):
    setup()
    E.kmaps = {}
    E.hooks['newmap'] = newmap


class Info:
    def __init__(self, kappa, depth, vt):
        self.kappa, self.depth, self.vt = kappa, depth, vt


def newmap(E, st, ins):
    t = E.t(ins['t'])
    if t.kind == 'named' or t.kind != 'map':
        return None
    kt, vt = E.t(t.key), E.t(t.elem)
    if not (kt.kind == 'basic' and kt.isstr and vt.kind == 'slice'):
        return None
    oid = E.alloc(st, Op('KMap', (E.zero(t.elem), False)), ins['t'])
    kappa = z3.BitVec('kappa!%d' % oid, 64)
    st.idx = st.idx + (kappa,)
    E.kmaps[oid] = Info(kappa, len(st.idx), t.elem)
    return MapV(oid)


def frozen(E, st, m):
    return st.g.get(('kfrozen', m.oid))


def facts(E, st, m, k):
    """what was known about kappa's entry when the map was complete, for key k"""
    inf = E.kmaps[m.oid]
    pcs, univ = frozen(E, st, m)
    ps = [(inf.kappa, k)]
    for q in pcs:
        st.assume(subst(q, ps))
    st.univ = st.univ + tuple(u.sub(lambda t: subst(t, ps)) for u in univ)


def touch(E, st, m, key):
    """is it kappa? (splits the path)"""
    inf = E.kmaps[m.oid]
    if not any(x.eq(inf.kappa) for x in st.idx if isz(x)):
        raise Unsupported('a map used outside of its scope')
    kt = E.strterm(st, key)
    c = simp(kt == keyat(inf.kappa))
    r = E.decide(st, c)
    st.g = dict(st.g)
    st.g[('ksplit', m.oid)] = True
    return r


def lookup(E, st, m, o, key, vt):
    if frozen(E, st, m):
        inf = E.kmaps[m.oid]
        k = simp(keyidx(E.strterm(st, key)))
        facts(E, st, m, k)
        v, has = o.args
        return vsubst(v, [(inf.kappa, k)]), vsubst(has, [(inf.kappa, k)])
    if touch(E, st, m, key):
        v, has = o.args
        return v, has
    has = E.fresh(st, 'has', z3.BoolSort())
    n = E.fresh(st, 'len', bvsort(64))
    st.assume(land(sle(0, n), sle(n, LIM)))
    st.assume(implies(lnot(has), eq(n, 0)))
    iv = fresh_iv()
    b = ('kother', m.oid, next(E.ctr))
    st.tips[b] = b
    return RSlice(Rope([X(Ptr(('sym', 'opaque', (m.oid, iv))), iv, 0, n)]), lnot(has), b, b), has


def update(E, st, m, o, key, val):
    if frozen(E, st, m):
        raise Unsupported('a map changed after it was ranged over')
    if val is DEL:
        raise Unsupported('a deletion from a map built by an operation')
    k = touch(E, st, m, key)
    if not isinstance(val, RSlice) and not isinstance(val, ASlice):
        raise Unsupported('map entry %r' % (val,))
    if not k:
        return
    E.setobj(st, m.oid, Op('KMap', (val, True)))


def freeze(E, st, m):
    if frozen(E, st, m):
        return
    inf = E.kmaps[m.oid]
    if st.g.get(('ksplit', m.oid)):
        raise Unsupported('a map entry is treated specially')
    if len(st.idx) != inf.depth:
        raise Unsupported('a map ranged over in a loop')
    pcs = [q for q in st.pc if isz(q) and mentions(q, [inf.kappa])]
    univ = [u for u in st.univ if mentions(zb(u.body), [inf.kappa]) or isz(u.hi) and mentions(u.hi, [inf.kappa]) or u.nest]
    st.g = dict(st.g)
    st.g[('kfrozen', m.oid)] = (tuple(pcs), tuple(univ))


class Keys(maps.MapKind):
    """the keys, numbered"""
    def __init__(self, E, oid):
        self.name, self.E, self.oid = 'kmap%d' % oid, E, oid
        self.n_ = z3.BitVec('nkeys!%d' % oid, 64)
        solver.register(self.n_.decl().name(), lambda a: [z3.And(z3.BitVecVal(0, 64) <= a, a <= z3.BitVecVal(LIM, 64))], 'nkeys')

    def n(self, E, st, args):
        return self.n_

    def has(self, E, st, args, key):
        o = self.o
        return vsubst(o.args[1], [(E.kmaps[self.oid].kappa, key)])

    def wrap(self, k):
        return ratom(simp(keyat(k)))


def kind(E, st, m, o):
    name = 'kmap%d' % m.oid
    K = E.mapkinds.get(name)
    if K is None:
        K = E.mapkinds[name] = Keys(E, m.oid)
    K.o = o
    return K


def begin_range(E, st, m):
    freeze(E, st, m)


def nxt(E, st, it, o, m, km, pos, tt):
    if not frozen(E, st, m):
        raise Unsupported('range over a map that is not complete')
    K = kind(E, st, m, km)
    inf = E.kmaps[m.oid]
    base = SymMap(K.name, ())
    fn, _ = maps.enumfn(E, K.name, base, 'r%s' % it.oid, o.args[2:])
    if E.decide(st, slt(pos, K.n_)):
        k = fn(pos)
        E.setobj(st, it.oid, Op('MapIter', (m, add(pos, 1)) + tuple(o.args[2:])))
        st.assume(K.has(E, st, (), k))
        facts(E, st, m, k)
        return Tup([True, K.wrap(k), vsubst(km.args[0], [(inf.kappa, k)])])
    return Tup([False, E.zero(tt.elems[1]) if tt.elems[1] is not None and E.t(tt.elems[1]).kind != 'invalid' else None, None])


def mlen(E, st, m, km):
    freeze(E, st, m)
    return kind(E, st, m, km).n_
