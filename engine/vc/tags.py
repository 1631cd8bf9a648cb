"""Tag sections (C06): encodeTags on an arbitrary tag map, peekTags on the encoding of one."""
from .terms import *
from .values import *
from . import solver, natives, spec, codec, maps
from .exec import St, Infeasible
from .spec import Eq, varint, low, mkfold

I64 = bvsort(64)
encv = z3.Function('tagenc', I64, Str)      # encoding of the value of tag id


class TagMap(maps.MapKind):
    """map[int]any with arbitrary ids and values"""
    key = I64

    def n(self, E, st, args):
        return z3.BitVec('tags.len', 64)

    def has(self, E, st, args, key):
        return z3.Function('tags.has', I64, z3.BoolSort())(key)

    def val(self, E, st, args, key):
        return Iface('opq', Op('tagval', (key,)))


class FieldMap(maps.MapKind):
    """the declared tags: map[int]*kafkaField"""
    key = I64

    def n(self, E, st, args):
        return z3.BitVec('fields.len', 64)

    def has(self, E, st, args, key):
        return z3.Function('fields.has', I64, z3.BoolSort())(key)

    def val(self, E, st, args, key):
        t = self.struct
        vals = []
        for f in E.t(t).fields:
            ft = E.t(f['type'])
            if ft.kind == 'iface' and f['name'] == 'valType':
                vals.append(Iface('rtype', RType(('tagtype', key))))
            else:
                vals.append(E.zero(f['type']))
        return Ptr(('ro', StructV(vals, t)), (), False)


def setup(E):
    solver.register('tagenc', lambda a: [slen(a) <= 0x7ffffff0], 'tagenc')
    solver.register('tags.len', lambda a: [z3.And(z3.BitVecVal(0, 64) <= a, a <= 0x7ffffff0)], 'tagslen')
    solver.register('fields.len', lambda a: [z3.And(z3.BitVecVal(0, 64) <= a, a <= 0x7ffffff0)], 'tagslen')
    E.mapkinds['tags'] = TagMap('tags')
    fm = FieldMap('fields')
    fs = [t.id for t in E.p.types if t.kind == 'struct' and t.name == 'kafkaField' and t.pkg == E.p.pkg]
    if not fs:
        raise Unsupported('no kafkaField type')
    fm.struct = fs[0]
    E.mapkinds['fields'] = fm
    E.hooks['sort'] = maps.h_sort


def c_encode_tag(E, st, args, ins):
    """encodeObject(w, value of a tag): appends its encoding"""
    w, v = args
    if isinstance(v, Iface) and isinstance(v.val, Op) and v.val.kind == 'tagval':
        wo = E.load(st, w)
        if not (isinstance(wo, Op) and wo.kind == 'Writer'):
            return None
        E.store(st, w, Op('Writer', (wo.args[0], wo.args[1] + ratom(encv(bv(v.val.args[0], 64))))))
        return [('ret', st, None)]
    return spec.c_encodeObject(E, st, args, ins)


def varuint(E):
    ts = [t.id for t in E.p.types if t.name == 'VarUint' and t.pkg == E.p.pkg]
    if not ts:
        raise Unsupported('no VarUint type')
    return ts[0]


def zsection(E, n, idfn):
    """section with its varints kept whole, for decoding"""
    j = fresh_iv()
    k = idfn(j)
    a = encv(k)
    z = lambda v: Rope([spec.Z(varuint(E), low(v, 32), E)])
    return z(n) + Rope([mkfold(E, n, j, z(k) + z(slen(a)) + ratom(a))])


def section(E, n, idfn):
    """varint count, then id, length and encoding of each tag in order"""
    j = fresh_iv()
    k = idfn(j)
    a = encv(k)
    body = varint(low(k, 32), 32) + varint(low(slen(a), 32), 32) + ratom(a)
    return varint(low(n, 32), 32) + Rope([mkfold(E, n, j, body)])


def prove_enc_tags(E):
    setup(E)
    E.contracts[codec.fn(E, 'encodeObject')] = c_encode_tag
    st = St()
    w = natives.newwriter(E, st, [NILI], None)
    base = SymMap('tags', ())
    m = MapV(E.alloc(st, MapObj(base)))
    what = 'encodeTags'
    outs = E.call(st, codec.fn(E, 'encodeTags'), [w, m])
    q = Eq(E, what + ': bytes')
    n = 0
    sk, _ = maps.enumfn(E, 'tags', base, 'sorted', ())
    cnt = E.mapkinds['tags'].n(E, st, ())
    for s, _ in codec.panics(E, outs, what):
        n += 1
        q.bytes(s, E.load(s, w).args[1], section(E, cnt, sk), what)
    if not n:
        raise Unsupported('no path encodes tags')


def c_peek_tag(E, st, args, ins):
    """peekObject on the encoding of a declared tag's value; other types as usual"""
    p, off, tt = args
    if isinstance(tt, Iface):
        tt = tt.val
    if isinstance(tt, RType) and isinstance(tt.tid, tuple) and tt.tid[0] == 'tagtype':
        rope, pos, end, size = codec.reader(E, st, p)
        _, right = E.cut(st, rope, add(pos, off))
        while right.segs:
            h = right.segs[0]
            if isinstance(h, F) and E.entails(st, slt(0, h.n)):
                right = E.peel(h, right)
            elif not isinstance(h, (C, S)) and E.entails(st, eq(seglen(h), 0)):
                right = Rope(right.segs[1:])
            else:
                break
        key = tt.tid[1]
        if not right.segs or not isinstance(right.segs[0], S) or not right.segs[0].full():
            raise Unsupported('decoding a tag value somewhere else')
        a = right.segs[0].a
        E.must(st, simp(a == encv(bv(key, 64))), 'a declared tag is decoded at its own value')
        nx = add(off, slen(a))
        if E.decide(st, sle(add(pos, nx), end)):
            return Tup([nx, Iface('opq', Op('tagval', (key,)))])
        return Tup([mask(-1, 64), NILI])
    return codec.c_peek_rt(E, st, args, ins)


def prove_dec_tags(E):
    setup(E)
    E.contracts[codec.fn(E, 'peekObject')] = c_peek_tag
    if codec.fn(E, 'peekVarUint') in E.p.funcs:
        E.contracts[codec.fn(E, 'peekVarUint')] = codec.c_peek_fn(varuint(E))
    E.hooks['position'] = codec.h_position
    E.hooks['bounds'] = codec.h_bounds
    st = St()
    n = z3.BitVec('tags.len', 64)
    idf = z3.Function('tagid', I64, bvsort(32))
    rank = z3.Function('tagrank', bvsort(32), I64)
    solver.register('tagid', lambda a: [rank(a) == a.children()[0]], 'tagid')     # ids are distinct
    idz = lambda j: simp(z3.ZeroExt(32, idf(bv(j, 64))))
    pre, suf = z3.Const('before', Str), z3.Const('after', Str)
    body = zsection(E, n, idz)
    rope = Rope([S(pre)]) + body + Rope([S(suf)])
    ln = body.len()
    off = slen(pre)
    end, size = z3.BitVec('end', 64), z3.BitVec('size', 64)
    for c in (sle(off, end), sle(end, rope.len()), sle(end, size), sle(size, 2 * LIM), sle(ln, 1 << 45)):
        st.assume(c)
    p = Ptr(E.alloc(st, Op('Reader', (rope, 0, end, size))))
    E.cur_reader = p
    fields = MapV(E.alloc(st, MapObj(SymMap('fields', ()))))
    what = 'peekTags'
    outs = E.call(st, codec.fn(E, 'peekTags'), [p, off, fields])
    q = Eq(E, what)
    good = 0
    fm = E.mapkinds['fields']
    for s, r in codec.panics(E, outs, what):
        if not E.feasible(s):
            continue
        nx, tags = r.vals
        whole = sle(add(off, ln), end)
        for cond in (whole, lnot(whole)):
            s2 = s.copy()
            try:
                s2.assume(cond)
            except Infeasible:
                continue
            if not E.feasible(s2):
                continue
            if cond is not whole:
                q.need(s2, slt(nx, 0), what + ': a cut-off section is rejected')
                continue
            good += 1
            q.need(s2, eq(nx, add(off, ln)), what + ': ends right after the section')
            q.need(s2, lnot(E.isnil(tags)) if tags.oid is None else True, what + ': a map is returned')
            mo = E.mapobj(s2, tags)
            got = Rope([V(Tup([k, v])) for k, v in mo.ups]) + mo.acc
            if mo.base is not None:
                q.fail(s2, what + ': decoded map', mo, '')
            j = fresh_iv()
            key = idz(j)
            a = encv(key)
            known = fm.has(E, s2, (), key)
            want = Rope([F(n, j, Rope([C([(known, Rope([V(Tup([key, Iface('opq', Op('tagval', (key,)))]))])),
                                         (lnot(known), Rope([V(Tup([key, Op('tagraw', (key,))]))]))])]), PLF('pl!c1', ()))])
            TagEq(E, what).bytes(s2, got, want, what + ': decoded tags')
    if not good:
        raise Unsupported('no path decodes tags')


class TagEq(Eq):
    def value(self, st, a, b, what='value'):
        if isinstance(b, Tup):
            if not isinstance(a, Tup) or len(a.vals) != len(b.vals):
                return self.fail(st, what, a, b)
            self.value(st, a.vals[0], b.vals[0], what + ' id')
            return self.value(st, a.vals[1], b.vals[1], what + ' value')
        if isinstance(b, Op) and b.kind == 'tagraw':
            E = self.E
            if not isinstance(a, Iface) or not isinstance(a.tid, int) or not E.t(a.tid).isbytes or E.t(a.tid).name:
                return self.fail(st, what + ': raw bytes', a, b)
            return self.bytes(st, E.srope(st, a.val), ratom(encv(bv(b.args[0], 64))), what + ': raw bytes')
        return Eq.value(self, st, a, b, what)
