"""Models of the library functions the package calls (assumed contracts)."""
from .terms import *
from .values import *
from . import solver
from .exec import GoPanic, Split, Infeasible

KIND = {'bool': 1, 'int': 2, 'int8': 3, 'int16': 4, 'int32': 5, 'int64': 6, 'uint': 7, 'uint8': 8, 'byte': 8, 'uint16': 9,
        'uint32': 10, 'uint64': 11, 'uintptr': 12, 'float32': 13, 'float64': 14, 'string': 24, 'rune': 5}
KINDT = {'array': 17, 'chan': 18, 'func': 19, 'iface': 20, 'map': 21, 'ptr': 22, 'slice': 23, 'struct': 25}
KNAME = {1: 'bool', 2: 'int', 3: 'int8', 4: 'int16', 5: 'int32', 6: 'int64', 7: 'uint', 8: 'uint8', 9: 'uint16', 10: 'uint32',
         11: 'uint64', 12: 'uintptr', 13: 'float32', 14: 'float64', 17: 'array', 18: 'chan', 19: 'func', 20: 'interface', 21: 'map',
         22: 'ptr', 23: 'slice', 24: 'string', 25: 'struct', 0: 'invalid'}


def err(what):
    return Iface('op', Op('err', (what,)))


class Natives:
    def __init__(self):
        self.n, self.i = {}, {}

    def fn(self, *names):
        def d(f):
            for x in names:
                self.n[x] = f
            return f
        return d

    def inv(self, *keys):
        def d(f):
            for x in keys:
                self.i[x] = f
            return f
        return d


N = Natives()


def install(E):
    E.natives.update(N.n)
    E.invokes.update(N.i)


def kindof(E, tid):
    if tid is None:
        return 0
    t = E.t(tid)
    if t.kind == 'basic':
        return KIND.get(t.basic, 0)
    return KINDT.get(t.kind, 0)


def derive(E, kind, elem):
    for t in E.p.types:
        if t.kind == kind and not t.name and t.elem == elem and (kind in ('slice', 'ptr')):
            return t.id
    from .ssa import T
    i = len(E.p.types)
    s = {'slice': '[]', 'ptr': '*'}[kind] + E.t(elem).str
    E.p.types.append(T(E.p, {'id': i, 'str': s, 'kind': kind, 'elem': elem}))
    return i


def assignable(E, a, b):
    if a == b:
        return True
    ta, tb = E.t(a), E.t(b)
    if tb.kind == 'iface':
        return True
    if ta.kind != tb.kind:
        return False
    ua = ta.under if ta.name and ta.pkg else a
    ub = tb.under if tb.name and tb.pkg else b
    na = bool(ta.name) or ta.kind == 'basic'
    nb = bool(tb.name) or tb.kind == 'basic'
    return ua == ub and not (na and nb)


def items(E, st, s):
    """the values of a slice with a concrete number of elements"""
    r = E.srope(st, s)
    out = []
    for x in r.segs:
        if not isinstance(x, V):
            raise Unsupported('variadic arguments of unknown number')
        out.append(x.v)
    return out


# ------------------------------------------------------------------ reflect
@N.fn('reflect.TypeOf')
def typeof(E, st, a, ins):
    x = a[0]
    if x.tid is None:
        return NILI
    if x.tid == 'op' or x.tid == 'opq':
        raise Unsupported('reflection on an unknown value')
    return RType(x.tid)


@N.fn('reflect.ValueOf')
def valueof(E, st, a, ins):
    x = a[0]
    if x.tid is None:
        return RVal(None)
    if not isinstance(x.tid, int):
        raise Unsupported('reflection on an unknown value')
    return RVal(x.tid, x.val)


def rv(E, st, v):
    """current value of a reflect.Value"""
    return E.load(st, v.addr) if v.addr is not None else v.val


def valid(E, st, v, what):
    if not isinstance(v, RVal):
        raise Unsupported('reflect on %r' % (v,))
    E.must(st, v.tid is not None, 'reflect: call of %s on zero Value' % what)


@N.inv(('RType', 'Kind'))
def t_kind(E, st, a, ins):
    return kindof(E, a[0].tid)


@N.inv(('RType', 'Name'))
def t_name(E, st, a, ins):
    t = E.t(a[0].tid)
    if t.name:
        return rlit(t.name)
    if t.kind == 'basic':
        return rlit(t.basic)
    return E_


@N.inv(('RType', 'String'))
def t_string(E, st, a, ins):
    return rlit(E.t(a[0].tid).str)


@N.inv(('RType', 'PkgPath'))
def t_pkg(E, st, a, ins):
    return rlit(E.t(a[0].tid).pkg or '')


@N.inv(('RType', 'Elem'))
def t_elem(E, st, a, ins):
    t = E.t(a[0].tid)
    E.must(st, t.elem is not None, 'reflect: Elem of invalid type')
    return RType(t.elem)


@N.inv(('RType', 'Key'))
def t_key(E, st, a, ins):
    return RType(E.t(a[0].tid).key)


@N.inv(('RType', 'Len'))
def t_len(E, st, a, ins):
    return E.t(a[0].tid).len


@N.inv(('RType', 'NumField'))
def t_numfield(E, st, a, ins):
    t = E.t(a[0].tid)
    E.must(st, t.kind == 'struct', 'reflect: NumField of non-struct type')
    return len(t.fields)


def sfield(E, f, i):
    """reflect.StructField as a StructV of the library type, by field name"""
    ft = E.p.bystr.get('reflect.StructField')
    t = E.t(ft)
    vals = []
    for q in t.fields:
        n = q['name']
        if n == 'Name':
            vals.append(rlit(f['name']))
        elif n == 'PkgPath':
            vals.append(E_ if f['exported'] else rlit(E.p.pkg))
        elif n == 'Type':
            vals.append(RType(f['type']))
        elif n == 'Tag':
            vals.append(rlit(f.get('tag') or ''))
        elif n == 'Anonymous':
            vals.append(bool(f.get('embedded')))
        else:
            vals.append(E.zero(q['type']))
    return StructV(vals, ft)


@N.inv(('RType', 'Field'))
def t_field(E, st, a, ins):
    t = E.t(a[0].tid)
    i = a[1]
    if not isinstance(i, int):
        raise Unsupported('field of symbolic number')
    E.must(st, t.kind == 'struct' and i < len(t.fields), 'reflect: field index out of range')
    return sfield(E, t.fields[i], i)


@N.inv(('RType', 'Implements'), ('RType', 'AssignableTo'), ('RType', 'ConvertibleTo'))
def t_assign(E, st, a, ins):
    if isinstance(a[1], RType):
        return assignable(E, a[0].tid, a[1].tid)
    raise Unsupported('reflect type relation')


@N.fn('(reflect.StructField).IsExported')
def sf_exported(E, st, a, ins):
    return not a[0].vals[[q['name'] for q in E.t(E.p.bystr['reflect.StructField']).fields].index('PkgPath')].segs


@N.fn('(reflect.StructTag).Get')
def tag_get(E, st, a, ins):
    return rlit(taglookup(a[0], a[1])[0])


@N.fn('(reflect.StructTag).Lookup')
def tag_lookup(E, st, a, ins):
    v, ok = taglookup(a[0], a[1])
    return Tup([rlit(v), ok])


def taglookup(tag, key):
    import re
    s, k = tag.lit(), key.lit()
    if s is None or k is None:
        raise Unsupported('symbolic tag')
    for m in re.finditer(r'([^\s":]+):"((?:[^"\\]|\\.)*)"', s.decode()):
        if m.group(1) == k.decode():
            return m.group(2).replace('\\"', '"'), True
    return '', False


@N.fn('reflect.SliceOf')
def sliceof(E, st, a, ins):
    return RType(derive(E, 'slice', a[0].tid))


@N.fn('reflect.PointerTo', 'reflect.PtrTo')
def pointerto(E, st, a, ins):
    return RType(derive(E, 'ptr', a[0].tid))


@N.fn('reflect.Zero')
def rzero(E, st, a, ins):
    return RVal(a[0].tid, E.zero(a[0].tid))


@N.fn('reflect.New')
def rnew(E, st, a, ins):
    tid = a[0].tid
    oid = E.alloc(st, E.zero(tid), tid)
    return RVal(derive(E, 'ptr', tid), Ptr(oid))


@N.fn('reflect.MakeSlice')
def rmakeslice(E, st, a, ins):
    t = E.t(a[0].tid)
    n, c = a[1], a[2]
    E.must(st, land(sle(0, n), sle(n, c)), 'reflect.MakeSlice: bad length')
    E.hook('makeslice', st, c, t)
    bk, tok = E.newoid(), E.newoid()
    if isinstance(n, int) and n == 0:
        st.tips[bk] = tok
        return RVal(a[0].tid, RSlice(E_, False, bk, tok))
    oid = E.alloc(st, RopeArr(Rope([X(E.zero(t.elem), fresh_iv('z'), 0, n)])))
    st.g[('aelem', oid, ())] = t.elem
    return RVal(a[0].tid, ASlice(oid, (), 0, n, c))


@N.fn('reflect.Append')
def rappend(E, st, a, ins):
    s = a[0]
    valid(E, st, s, 'Append')
    t = E.t(s.tid)
    E.must(st, t.kind == 'slice', 'reflect.Append of non-slice')
    val = rv(E, st, s)
    tail = []
    for x in items(E, st, a[1]):
        valid(E, st, x, 'Append')
        E.must(st, assignable(E, x.tid, t.elem), 'reflect.Append: value not assignable')
        tail.append(elemval(E, st, x, t.elem))
    if t.isbytes:
        return RVal(s.tid, E.append(st, val, E.bytesrope(tail)))
    return RVal(s.tid, E.append(st, val, Rope([V(x) for x in tail])))


def elemval(E, st, x, tid):
    v = rv(E, st, x)
    if E.t(tid).kind == 'iface' and E.t(x.tid).kind != 'iface':
        return Iface(x.tid, v)
    return v


@N.fn('reflect.Indirect')
def rindirect(E, st, a, ins):
    if a[0].tid is not None and E.t(a[0].tid).kind == 'ptr':
        return rv_elem(E, st, a, ins)
    return a[0]


@N.fn('(reflect.Value).Kind')
def rv_kind(E, st, a, ins):
    return kindof(E, a[0].tid)


@N.fn('(reflect.Value).IsValid')
def rv_isvalid(E, st, a, ins):
    return a[0].tid is not None


@N.fn('(reflect.Value).Type')
def rv_type(E, st, a, ins):
    valid(E, st, a[0], 'Type')
    return RType(a[0].tid)


@N.fn('(reflect.Value).IsNil')
def rv_isnil(E, st, a, ins):
    valid(E, st, a[0], 'IsNil')
    E.must(st, E.t(a[0].tid).kind in ('ptr', 'slice', 'map', 'iface', 'func', 'chan'), 'reflect: IsNil of wrong kind')
    return E.isnil(rv(E, st, a[0]))


@N.fn('(reflect.Value).IsZero')
def rv_iszero(E, st, a, ins):
    v = rv(E, st, a[0])
    return E.equal(st, v, E.zero(a[0].tid), E.t(a[0].tid))


@N.fn('(reflect.Value).Len')
def rv_len(E, st, a, ins):
    valid(E, st, a[0], 'Len')
    v = rv(E, st, a[0])
    E.must(st, E.t(a[0].tid).kind in ('slice', 'array', 'map') or E.t(a[0].tid).isstr, 'reflect: Len of wrong kind')
    return E.builtin(st, 'len', [v], ins)


@N.fn('(reflect.Value).NumField')
def rv_numfield(E, st, a, ins):
    return t_numfield(E, st, [RType(a[0].tid)], ins)


@N.fn('(reflect.Value).Index')
def rv_index(E, st, a, ins):
    x, i = a
    valid(E, st, x, 'Index')
    t = E.t(x.tid)
    v = rv(E, st, x)
    if t.kind == 'array':
        E.bound(st, i, t.len, 'reflect: index out of range')
        return RVal(t.elem, E.nav(st, v, i), x.addr and Ptr(x.addr.oid, x.addr.path + (i,), x.addr.nil))
    E.must(st, t.kind == 'slice' or t.isstr, 'reflect: Index of wrong kind')
    E.bound(st, i, E.slen(st, v), 'reflect: slice index out of range')
    if isinstance(v, ASlice):
        p = Ptr(v.oid, v.path + (add(v.lo, i),))
        return RVal(t.elem, None, p)
    el = E.item(st, v.rope if isinstance(v, RSlice) else v, i)
    return RVal(t.elem if t.kind == 'slice' else E.p.bystr['uint8'], el, None, x.ro)


@N.fn('(reflect.Value).Field')
def rv_field(E, st, a, ins):
    x, i = a
    valid(E, st, x, 'Field')
    t = E.t(x.tid)
    if not isinstance(i, int):
        raise Unsupported('field of symbolic number')
    E.must(st, t.kind == 'struct' and i < len(t.fields), 'reflect: field index out of range')
    f = t.fields[i]
    ro = x.ro or not f['exported']
    if x.addr is not None:
        return RVal(f['type'], None, Ptr(x.addr.oid, x.addr.path + (i,)), ro)
    return RVal(f['type'], x.val.vals[i], None, ro)


@N.fn('(reflect.Value).CanInterface')
def rv_canif(E, st, a, ins):
    valid(E, st, a[0], 'CanInterface')
    return not a[0].ro


@N.fn('(reflect.Value).CanSet', '(reflect.Value).CanAddr')
def rv_canset(E, st, a, ins):
    return a[0].addr is not None and not a[0].ro


@N.fn('(reflect.Value).Interface')
def rv_interface(E, st, a, ins):
    x = a[0]
    valid(E, st, x, 'Interface')
    E.must(st, not x.ro, 'reflect: Interface of unexported field')
    v = rv(E, st, x)
    if E.t(x.tid).kind == 'iface':
        return v
    return Iface(x.tid, v)


@N.fn('(reflect.Value).Elem')
def rv_elem(E, st, a, ins):
    x = a[0]
    valid(E, st, x, 'Elem')
    t = E.t(x.tid)
    v = rv(E, st, x)
    if t.kind == 'ptr':
        if isinstance(v, Ptr) and v.nil is not False:
            if E.decide(st, v.nil):
                return RVal(None)
        return RVal(t.elem, None, Ptr(v.oid, v.path), x.ro)
    if t.kind == 'iface':
        return RVal(None) if v.tid is None else RVal(v.tid, v.val, None, x.ro)
    E.must(st, False, 'reflect: Elem of wrong kind')


@N.fn('(reflect.Value).Addr')
def rv_addr(E, st, a, ins):
    E.must(st, a[0].addr is not None, 'reflect: Addr of unaddressable value')
    return RVal(derive(E, 'ptr', a[0].tid), a[0].addr)


@N.fn('(reflect.Value).Set')
def rv_set(E, st, a, ins):
    d, x = a
    valid(E, st, d, 'Set')
    valid(E, st, x, 'Set')
    E.must(st, d.addr is not None and not d.ro, 'reflect: Set using unaddressable or unexported value')
    E.must(st, assignable(E, x.tid, d.tid), 'reflect.Set: value not assignable')
    E.store(st, d.addr, elemval(E, st, x, d.tid))


def getter(kinds, conv):
    def g(E, st, a, ins):
        valid(E, st, a[0], 'get')
        E.must(st, kindof(E, a[0].tid) in kinds, 'reflect: wrong kind')
        return conv(E, E.t(a[0].tid), rv(E, st, a[0]))
    return g


def widen(E, t, v):
    if isinstance(v, int):
        return mask(sgn(v, t.width), 64) if t.signed else v
    if v.size() == 64:
        return v
    return simp(z3.SignExt(64 - v.size(), v) if t.signed else z3.ZeroExt(64 - v.size(), v))


N.n['(reflect.Value).Int'] = getter((2, 3, 4, 5, 6), widen)
N.n['(reflect.Value).Uint'] = getter((7, 8, 9, 10, 11), widen)
N.n['(reflect.Value).Bool'] = getter((1,), lambda E, t, v: v)
N.n['(reflect.Value).Float'] = getter((14,), lambda E, t, v: v)
N.n['(reflect.Value).Bytes'] = getter((23,), lambda E, t, v: v)


@N.fn('(reflect.Value).String')
def rv_string(E, st, a, ins):
    if a[0].tid is not None and E.t(a[0].tid).isstr:
        return rv(E, st, a[0])
    raise Unsupported('reflect String')


def setter(kinds):
    def s(E, st, a, ins):
        d, v = a
        valid(E, st, d, 'Set')
        t = E.t(d.tid)
        E.must(st, kindof(E, d.tid) in kinds and d.addr is not None and not d.ro, 'reflect: Set of wrong kind')
        if t.width and t.width < 64:
            v = mask(v, t.width) if isinstance(v, int) else simp(z3.Extract(t.width - 1, 0, v))
        E.store(st, d.addr, v)
    return s


N.n['(reflect.Value).SetInt'] = setter((2, 3, 4, 5, 6))
N.n['(reflect.Value).SetUint'] = setter((7, 8, 9, 10, 11))
N.n['(reflect.Value).SetBool'] = setter((1,))
N.n['(reflect.Value).SetString'] = setter((24,))


@N.fn('(reflect.Value).Convert')
def rv_convert(E, st, a, ins):
    x, t = a
    if not isinstance(t, RType):
        raise Unsupported('reflect Convert')
    return RVal(t.tid, E.convert(st, rv(E, st, x), E.t(x.tid), E.t(t.tid)))


@N.fn('(reflect.Kind).String')
def kind_string(E, st, a, ins):
    return rlit(KNAME.get(a[0], 'kind'))


# ------------------------------------------------------------------ bytes.Buffer, bufio
def obj(E, st, p, kind):
    E.nilcheck(st, p)
    v = E.load(st, p)
    if not isinstance(v, Op) or v.kind != kind:
        raise Unsupported('%s method on %r' % (kind, v))
    return v


def flat(E, st, r):
    return E.force(st, r)


@N.fn('bytes.NewBuffer')
def newbuffer(E, st, a, ins):
    return Ptr(E.alloc(st, Op('Buffer', (E.srope(st, a[0]),))))


@N.fn('bytes.NewBufferString')
def newbufferstring(E, st, a, ins):
    return Ptr(E.alloc(st, Op('Buffer', (a[0],))))


@N.fn('bytes.NewReader', 'strings.NewReader')
def newreader_b(E, st, a, ins):
    return Ptr(E.alloc(st, Op('Buffer', (E.srope(st, a[0]),))))


@N.fn('(*bytes.Buffer).Write', '(*bytes.Buffer).WriteString', '(*strings.Builder).WriteString', '(*strings.Builder).Write')
def buf_write(E, st, a, ins):
    b = obj(E, st, a[0], 'Buffer')
    r = E.srope(st, a[1])
    E.store(st, a[0], Op('Buffer', (b.args[0] + flat(E, st, r),)))
    return Tup([r.len(), NILI])


@N.fn('(*bytes.Buffer).WriteByte', '(*strings.Builder).WriteByte')
def buf_writebyte(E, st, a, ins):
    b = obj(E, st, a[0], 'Buffer')
    E.store(st, a[0], Op('Buffer', (b.args[0] + Rope([I(1, a[1])]),)))
    return NILI


@N.fn('(*bytes.Buffer).Bytes')
def buf_bytes(E, st, a, ins):
    nopending(E, st, a[0])
    return RSlice(obj(E, st, a[0], 'Buffer').args[0], False)


def nopending(E, st, p):
    """a bufio.Writer on top flushes by itself once its 4096-byte buffer is full"""
    k = E.okey(E.norm(st, p.oid))
    for w in st.g.get(('writers', k, p.path), ()):
        v = st.heap.get(w)
        if isinstance(v, Op) and v.kind == 'Writer' and v.args[1].segs and not E.entails(st, sle(v.args[1].len(), 4096)):
            raise Unsupported('buffer read before the writer on top is flushed')


@N.fn('(*bytes.Buffer).String', '(*strings.Builder).String')
def buf_string(E, st, a, ins):
    nopending(E, st, a[0])
    return obj(E, st, a[0], 'Buffer').args[0]


@N.fn('(*bytes.Buffer).Len', '(*strings.Builder).Len')
def buf_len(E, st, a, ins):
    nopending(E, st, a[0])
    return obj(E, st, a[0], 'Buffer').args[0].len()


@N.fn('(*bytes.Buffer).Reset')
def buf_reset(E, st, a, ins):
    E.store(st, a[0], Op('Buffer', (E_,)))


@N.fn('(*bytes.Buffer).Grow')
def buf_grow(E, st, a, ins):
    return None


@N.fn('bufio.NewWriter')
def newwriter(E, st, a, ins):
    oid = E.alloc(st, Op('Writer', (a[0], E_)))
    d = a[0]
    if isinstance(d, Iface) and isinstance(d.val, Ptr):
        k = ('writers', E.okey(E.norm(st, d.val.oid)), d.val.path)
        st.g[k] = st.g.get(k, ()) + (oid,)
    return Ptr(oid)


@N.fn('bufio.NewWriterSize')
def newwritersize(E, st, a, ins):
    return newwriter(E, st, a[:1], ins)


@N.fn('(*bufio.Writer).Write', '(*bufio.Writer).WriteString')
def w_write(E, st, a, ins):
    w = obj(E, st, a[0], 'Writer')
    r = E.srope(st, a[1])
    E.store(st, a[0], Op('Writer', (w.args[0], w.args[1] + flat(E, st, r))))
    return Tup([r.len(), NILI])


@N.fn('(*bufio.Writer).WriteByte')
def w_writebyte(E, st, a, ins):
    w = obj(E, st, a[0], 'Writer')
    E.store(st, a[0], Op('Writer', (w.args[0], w.args[1] + Rope([I(1, a[1])]))))
    return NILI


@N.fn('(*bufio.Writer).Flush')
def w_flush(E, st, a, ins):
    w = obj(E, st, a[0], 'Writer')
    d = w.args[0]
    E.store(st, a[0], Op('Writer', (d, E_)))
    if not w.args[1].segs:
        return NILI
    if isinstance(d, Iface) and isinstance(d.val, Ptr):
        b = E.load(st, d.val)
        if isinstance(b, Op) and b.kind == 'Buffer':
            E.store(st, d.val, Op('Buffer', (b.args[0] + w.args[1],)))
            return NILI
        if isinstance(b, Op) and b.kind == 'Writer':
            E.store(st, d.val, Op('Writer', (b.args[0], b.args[1] + w.args[1])))
            return NILI
    if isinstance(d, Iface) and isinstance(d.val, Op):
        return [(s, v.vals[1]) for _, s, v in E.invoke(st, d, 'Write', [RSlice(w.args[1], False)], ins)]
    raise Unsupported('flush to %r' % (d,))


@N.fn('(*bufio.Writer).Buffered')
def w_buffered(E, st, a, ins):
    return obj(E, st, a[0], 'Writer').args[1].len()


@N.fn('bufio.NewReader')
def newreader(E, st, a, ins):
    return newreadersize(E, st, [a[0], 4096], ins)


@N.fn('bufio.NewReaderSize')
def newreadersize(E, st, a, ins):
    d = a[0]
    n = a[1]
    size = ite(slt(n, 16), 16, n)
    if isinstance(d, Iface) and isinstance(d.val, Ptr):
        b = E.load(st, d.val)
        if isinstance(b, Op) and b.kind == 'Buffer':
            r = b.args[0]
            return Ptr(E.alloc(st, Op('Reader', (r, 0, r.len(), size))))
    raise Unsupported('reader on %r' % (d,))


@N.fn('(*bufio.Reader).Peek')
def r_peek(E, st, a, ins):
    p, n = a
    r = obj(E, st, p, 'Reader')
    rope, pos, end, size = r.args
    if E.decide(st, slt(n, 0)):
        return Tup([RSlice(E_, True), err('negative count')])
    avail = sub(end, pos)
    if E.decide(st, sle(n, avail)) and E.decide(st, sle(n, size)):
        return Tup([RSlice(E.window(rope, pos, add(pos, n)), False), NILI])
    m = avail if E.decide(st, sle(avail, size)) else size
    return Tup([RSlice(E.window(rope, pos, add(pos, m)), False), err('short')])


@N.fn('(*bufio.Reader).Discard')
def r_discard(E, st, a, ins):
    p, n = a
    r = obj(E, st, p, 'Reader')
    rope, pos, end, size = r.args
    if E.decide(st, slt(n, 0)):
        return Tup([0, err('negative count')])
    if E.decide(st, sle(n, sub(end, pos))):
        E.store(st, p, Op('Reader', (rope, add(pos, n), end, size)))
        return Tup([n, NILI])
    E.store(st, p, Op('Reader', (rope, end, end, size)))
    return Tup([sub(end, pos), err('EOF')])


@N.fn('(*bufio.Reader).Buffered')
def r_buffered(E, st, a, ins):
    raise Unsupported('bufio.Reader.Buffered')


@N.fn('(*bufio.Reader).Size')
def r_size(E, st, a, ins):
    return obj(E, st, a[0], 'Reader').args[3]


@N.fn('(*bufio.Reader).ReadByte')
def r_readbyte(E, st, a, ins):
    r = obj(E, st, a[0], 'Reader')
    rope, pos, end, size = r.args
    if E.decide(st, slt(pos, end)):
        v = E.item(st, rope, pos)
        E.store(st, a[0], Op('Reader', (rope, add(pos, 1), end, size)))
        return Tup([v, NILI])
    return Tup([0, err('EOF')])


# ------------------------------------------------------------------ encoding/binary, math, crc, uuid
def bytes_of(E, st, s, n):
    r = E.srope(st, s)
    E.must(st, sle(n, r.len()), 'index out of range')
    return r


def get_be(n):
    def g(E, st, a, ins):
        return E.beint(st, bytes_of(E, st, a[-1], n), n)
    return g


def get_le(n):
    def g(E, st, a, ins):
        r = bytes_of(E, st, a[-1], n)
        vs = [bv(E.item(st, r, k), 8) for k in range(n)]
        return simp(z3.Concat(*reversed(vs)))
    return g


def put(n, big):
    def g(E, st, a, ins):
        s, v = a[-2], a[-1]
        E.must(st, sle(n, E.slen(st, s)), 'index out of range')
        if not isinstance(s, ASlice):
            raise Unsupported('write into shared bytes')
        vs = [((v >> (8 * k)) & 255 if isinstance(v, int) else simp(z3.Extract(8 * k + 7, 8 * k, v))) for k in range(n)]
        if big:
            vs.reverse()
        for k, x in enumerate(vs):
            E.store(st, Ptr(s.oid, s.path + (add(s.lo, k),)), x)
    return g


def app(n, big):
    def g(E, st, a, ins):
        s, v = a[-2], a[-1]
        if big:
            return E.append(st, s, Rope([I(n, v)]))
        vs = [((v >> (8 * k)) & 255 if isinstance(v, int) else simp(z3.Extract(8 * k + 7, 8 * k, v))) for k in range(n)]
        return E.append(st, s, Rope([I(1, x) for x in vs]))
    return g


for _n in (2, 4, 8):
    N.n['(encoding/binary.bigEndian).Uint%d' % (8 * _n)] = get_be(_n)
    N.n['(encoding/binary.littleEndian).Uint%d' % (8 * _n)] = get_le(_n)
    N.n['(encoding/binary.bigEndian).PutUint%d' % (8 * _n)] = put(_n, True)
    N.n['(encoding/binary.littleEndian).PutUint%d' % (8 * _n)] = put(_n, False)
    N.n['(encoding/binary.bigEndian).AppendUint%d' % (8 * _n)] = app(_n, True)
    N.n['(encoding/binary.littleEndian).AppendUint%d' % (8 * _n)] = app(_n, False)


@N.fn('math.Float64bits', 'math.Float64frombits')
def f64bits(E, st, a, ins):
    return a[0]


@N.fn('hash/crc32.MakeTable')
def crc_table(E, st, a, ins):
    return Op('crctab', (a[0],))


@N.fn('hash/crc32.Update')
def crc_update(E, st, a, ins):
    return crc(E, st, a[0], a[1], E.srope(st, a[2]))


@N.fn('hash/crc32.Checksum')
def crc_checksum(E, st, a, ins):
    return crc(E, st, 0, a[1], E.srope(st, a[0]))


@N.fn('hash/crc32.ChecksumIEEE')
def crc_ieee(E, st, a, ins):
    return crc(E, st, 0, Op('crctab', (0xedb88320,)), E.srope(st, a[0]))


def crc(E, st, c0, tab, rope):
    if not (isinstance(tab, Op) and tab.kind == 'crctab'):
        raise Unsupported('crc table %r' % (tab,))
    rope = E.force(st, rope)
    t = E.fresh(st, 'crc', bvsort(32))
    name = t.decl().name()
    E.crcs[name] = (c0, tab.args[0], rope, list(st.idx))
    return t


@N.fn('(github.com/google/uuid.UUID).MarshalBinary')
def uuid_marshal(E, st, a, ins):
    return Tup([RSlice(E.bytesrope(a[0].vals), False), NILI])


@N.fn('github.com/google/uuid.FromBytes')
def uuid_frombytes(E, st, a, ins):
    r = E.srope(st, a[0])
    if E.decide(st, eq(r.len(), 16)):
        return Tup([ArrV([E.item(st, r, k) for k in range(16)]), NILI])
    return Tup([ArrV([0] * 16), err('uuid')])


@N.fn('(github.com/google/uuid.UUID).String')
def uuid_string(E, st, a, ins):
    return ratom(E.fresh(st, 'uuidstr', Str))


# ------------------------------------------------------------------ fmt, strings, errors, sort
@N.fn('fmt.Errorf', 'errors.New')
def errorf(E, st, a, ins):
    return err('error')


@N.fn('fmt.Sprintf')
def sprintf(E, st, a, ins):
    f = a[0].lit()
    vals = None
    try:
        vals = items(E, st, a[1]) if a[1] is not None else []
    except Unsupported:
        pass
    if f is None or vals is None:
        return ratom(E.fresh(st, 'fmt', Str))
    out, k, n = [], 0, 0
    f = f.decode()
    while k < len(f):
        if f[k] != '%':
            out.append(L(f[k].encode()))
            k += 1
            continue
        c = f[k + 1] if k + 1 < len(f) else ''
        k += 2
        if c == '%':
            out.append(L(b'%'))
            continue
        if n >= len(vals):
            return ratom(E.fresh(st, 'fmt', Str))
        v = vals[n]
        n += 1
        t = E.t(v.tid) if isinstance(v.tid, int) else None
        if t is None:
            return ratom(E.fresh(st, 'fmt', Str))
        if c in 'dv' and t.isint and not E.p.methods.get(v.tid, {}).get('String'):
            out.append(D(v.val, t.width, t.signed))
        elif c in 'sv' and t.isstr:
            out.extend(v.val.segs)
        else:
            return ratom(E.fresh(st, 'fmt', Str))
    if n != len(vals):
        return ratom(E.fresh(st, 'fmt', Str))
    return Rope(out)


@N.fn('fmt.Sprint', 'fmt.Sprintln', 'strconv.Quote')
def sprint(E, st, a, ins):
    return ratom(E.fresh(st, 'fmt', Str))


@N.fn('strconv.Itoa')
def itoa(E, st, a, ins):
    return Rope([D(a[0], 64, True)])


@N.fn('strconv.FormatInt')
def formatint(E, st, a, ins):
    if a[1] != 10:
        raise Unsupported('FormatInt base')
    return Rope([D(a[0], 64, True)])


@N.fn('strconv.FormatUint')
def formatuint(E, st, a, ins):
    if a[1] != 10:
        raise Unsupported('FormatUint base')
    return Rope([D(a[0], 64, False)])


@N.fn('errors.Is')
def errors_is(E, st, a, ins):
    h = E.hooks.get('errors.Is')
    if h:
        return h(E, st, a)
    return E.fresh(st, 'errIs', z3.BoolSort())


@N.fn('strings.Split')
def strsplit(E, st, a, ins):
    s, sep = a[0].lit(), a[1].lit()
    if s is not None and sep:
        return RSlice(Rope([V(rlit(x)) for x in s.split(sep)]), False)
    return None if False else split_d(E, st, a)


def split_d(E, st, a):
    """split of literals and decimals at a separator that is not a digit or sign"""
    sep = a[1].lit()
    if sep is None or len(sep) != 1 or sep in b'0123456789-':
        raise Unsupported('strings.Split')
    out, cur = [], []
    for s in a[0].segs:
        if isinstance(s, D):
            cur.append(s)
        elif isinstance(s, L):
            ps = s.b.split(sep)
            cur.append(L(ps[0]))
            for p in ps[1:]:
                out.append(Rope(cur))
                cur = [L(p)]
        else:
            raise Unsupported('strings.Split')
    out.append(Rope(cur))
    return RSlice(Rope([V(x) for x in out]), False)


@N.fn('strings.Contains', 'strings.HasPrefix', 'strings.HasSuffix', 'strings.Index', 'strings.EqualFold', 'strings.Join', 'strings.TrimSpace', 'strings.ToLower', 'strings.Repeat')
def strfun(E, st, a, ins):
    fn = ins['fn']['n'].split('.')[1]
    vs = [x.lit() if isinstance(x, Rope) else x for x in a]
    if all(isinstance(v, (bytes, int)) for v in vs):
        return {'Contains': lambda s, x: x in s, 'HasPrefix': lambda s, x: s.startswith(x), 'HasSuffix': lambda s, x: s.endswith(x),
                'Index': lambda s, x: mask(s.find(x), 64), 'EqualFold': lambda s, x: s.lower() == x.lower(),
                'TrimSpace': lambda s: rlit(s.strip()), 'ToLower': lambda s: rlit(s.lower()), 'Repeat': lambda s, n: rlit(s * n)}[fn](*vs)
    raise Unsupported('strings.' + fn)


@N.fn('strconv.Atoi')
def atoi(E, st, a, ins):
    l = a[0].lit()
    if l is not None:
        try:
            if not l or not l.lstrip(b'+-').isdigit():
                raise ValueError
            return Tup([mask(int(l), 64), NILI])
        except ValueError:
            return Tup([0, err('atoi')])
    if len(a[0].segs) == 1 and isinstance(a[0].segs[0], D):
        d = a[0].segs[0]
        v = bv(d.v, d.w)
        if d.w < 64:
            v = z3.SignExt(64 - d.w, v) if d.signed else z3.ZeroExt(64 - d.w, v)
        elif not d.signed:
            raise Unsupported('Atoi of unsigned')
        return Tup([simp(v), NILI])
    raise Unsupported('strconv.Atoi')


@N.fn('sort.Ints', 'slices.Sort[[]int, int]', 'slices.Sort[[]int]')
def sort_ints(E, st, a, ins):
    s = a[0]
    n = E.slen(st, s)
    r = E.srope(st, s)
    if all(isinstance(x, V) and isinstance(x.v, int) for x in r.segs):
        vs = sorted([x.v for x in r.segs], key=lambda v: sgn(v, 64))
        return setslice(E, st, s, Rope([V(v) for v in vs]), ins)
    h = E.hooks.get('sort')
    if h:
        q = h(E, st, r)
        if q is not None:
            return setslice(E, st, s, q, ins)
    raise Unsupported('sorting a symbolic list')


def setslice(E, st, s, rope, ins):
    """in-place replacement of the elements of a slice"""
    if isinstance(s, ASlice):
        vs = [x.v for x in rope.segs]
        for k, v in enumerate(vs):
            E.store(st, Ptr(s.oid, s.path + (s.lo + k,)), v)
        return None
    # value slices: the caller's register is rebound by the executor
    E.rebind(st, s, rope)
    return None


# ------------------------------------------------------------------ sync, time, lane
@N.fn('(*sync.WaitGroup).Add', '(*sync.WaitGroup).Done', '(*sync.WaitGroup).Wait')
def wg(E, st, a, ins):
    E.hook('wg', st, a, ins)
    return None


@N.fn('(*sync/atomic.Bool).Store')
def ab_store(E, st, a, ins):
    E.hook('atomic', st, a[0], 'store', a[1])
    E.store(st, a[0], Op('ABool', (a[1],)))


@N.fn('(*sync/atomic.Bool).Load')
def ab_load(E, st, a, ins):
    h = E.hook('atomic', st, a[0], 'load', None)
    return h if h is not None else E.load(st, a[0]).args[0]


@N.fn('(*sync/atomic.Bool).Swap')
def ab_swap(E, st, a, ins):
    h = E.hook('atomic', st, a[0], 'load', None)
    v = h if h is not None else E.load(st, a[0]).args[0]
    E.hook('atomic', st, a[0], 'store', a[1])
    E.store(st, a[0], Op('ABool', (a[1],)))
    return v


@N.fn('(*sync/atomic.Bool).CompareAndSwap')
def ab_cas(E, st, a, ins):
    h = E.hook('atomic', st, a[0], 'load', None)
    v = h if h is not None else E.load(st, a[0]).args[0]
    if E.decide(st, eq(v, a[1])):
        E.hook('atomic', st, a[0], 'store', a[2])
        E.store(st, a[0], Op('ABool', (a[2],)))
        return True
    return False


for _m in ('Tracef', 'Trace', 'Debugf', 'Debug', 'Infof', 'Info', 'Warnf', 'Warn', 'Errorf', 'Error'):
    N.i[('lane', _m)] = lambda E, st, a, ins: None


@N.inv(('err', 'Error'))
def err_error(E, st, a, ins):
    return ratom(E.fresh(st, 'errstr', Str))


@N.fn('reflect.DeepEqual')
def deepequal(E, st, a, ins):
    raise Unsupported('reflect.DeepEqual')


@N.fn('runtime.Gosched')
def gosched(E, st, a, ins):
    return None
