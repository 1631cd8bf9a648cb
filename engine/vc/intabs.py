"""Integer reading of bit-vector queries.

Every w-bit term stands for its signed value; wrap-around is kept by an explicit multiple
of 2^w, anything else becomes an unconstrained integer of the right range.  The reading
over-approximates; a 'sat' answer counts only when no term was left unconstrained."""
import z3

K = z3


class Tr:
    def __init__(self):
        self.memo, self.side, self.n, self.exact = {}, [], 0, True

    def fresh(self, tag, sort=None):
        self.n += 1
        return z3.Const('%s?%d' % (tag, self.n), sort or z3.IntSort())

    def ranged(self, v, w):
        h = 1 << (w - 1)
        self.side.append(z3.And(v >= -h, v < h))
        return v

    def wrap(self, raw, w):
        r, k = self.fresh('r'), self.fresh('k')
        self.side.append(r == raw - k * (1 << w))
        return self.ranged(r, w)

    def uns(self, x, w):
        return z3.If(x < 0, x + (1 << w), x)

    def tr(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self.memo[i] = self._tr(e)
        return r

    def isort(self, s):
        return z3.IntSort() if s.kind() == z3.Z3_BV_SORT else s

    def _tr(self, e):
        k = e.decl().kind()
        ch = e.children()
        if z3.is_bv(e):
            w = e.size()
            if z3.is_bv_value(e):
                return z3.IntVal(e.as_signed_long())
            if k == K.Z3_OP_UNINTERPRETED:
                return self.ranged(self.app(e), w)
            if k == K.Z3_OP_BADD:
                return self.wrap(z3.Sum([self.tr(c) for c in ch]), w)
            if k == K.Z3_OP_BSUB:
                return self.wrap(self.tr(ch[0]) - z3.Sum([self.tr(c) for c in ch[1:]]), w)
            if k == K.Z3_OP_BNEG:
                return self.wrap(-self.tr(ch[0]), w)
            if k == K.Z3_OP_BMUL:
                cs = [c for c in ch if z3.is_bv_value(c)]
                if len(cs) >= len(ch) - 1:
                    p = 1
                    for c in cs:
                        p *= c.as_signed_long()
                    rest = [c for c in ch if not z3.is_bv_value(c)]
                    return self.wrap(p * self.tr(rest[0]) if rest else z3.IntVal(p), w)
            if k == K.Z3_OP_ITE:
                return z3.If(self.tr(ch[0]), self.tr(ch[1]), self.tr(ch[2]))
            if k == K.Z3_OP_SIGN_EXT:
                return self.tr(ch[0])
            if k == K.Z3_OP_ZERO_EXT:
                return self.uns(self.tr(ch[0]), ch[0].size())
            if k == K.Z3_OP_EXTRACT:
                hi, lo = e.params()
                if lo == 0:
                    return self.wrap(self.tr(ch[0]), w)
            if k == K.Z3_OP_CONCAT:
                last = ch[-1]
                if all(z3.is_bv_value(c) and c.as_long() == 0 for c in ch[:-1]):
                    return self.uns(self.tr(last), last.size())
                top = simp_top(last)
                if top is not None and all(same_bit(c, top) for c in ch[:-1]):
                    return self.tr(last)
            self.exact = False
            return self.ranged(self.fresh('u'), w)
        if z3.is_bool(e):
            if z3.is_true(e) or z3.is_false(e):
                return e
            if k == K.Z3_OP_UNINTERPRETED:
                return self.app(e)
            if k == K.Z3_OP_AND:
                return z3.And([self.tr(c) for c in ch])
            if k == K.Z3_OP_OR:
                return z3.Or([self.tr(c) for c in ch])
            if k == K.Z3_OP_NOT:
                return z3.Not(self.tr(ch[0]))
            if k == K.Z3_OP_IMPLIES:
                return z3.Implies(self.tr(ch[0]), self.tr(ch[1]))
            if k == K.Z3_OP_ITE:
                return z3.If(self.tr(ch[0]), self.tr(ch[1]), self.tr(ch[2]))
            if k in (K.Z3_OP_EQ, K.Z3_OP_IFF):
                return self.tr(ch[0]) == self.tr(ch[1])
            if k == K.Z3_OP_XOR:
                return z3.Xor(self.tr(ch[0]), self.tr(ch[1]))
            if k == K.Z3_OP_DISTINCT:
                return z3.Distinct([self.tr(c) for c in ch])
            ops = {K.Z3_OP_SLT: ('<', 0), K.Z3_OP_SLEQ: ('<=', 0), K.Z3_OP_SGT: ('>', 0), K.Z3_OP_SGEQ: ('>=', 0),
                   K.Z3_OP_ULT: ('<', 1), K.Z3_OP_ULEQ: ('<=', 1), K.Z3_OP_UGT: ('>', 1), K.Z3_OP_UGEQ: ('>=', 1)}
            if k in ops:
                o, u = ops[k]
                a, b = self.tr(ch[0]), self.tr(ch[1])
                if u:
                    w = ch[0].size()
                    a, b = self.uns(a, w), self.uns(b, w)
                return a < b if o == '<' else a <= b if o == '<=' else a > b if o == '>' else a >= b
            self.exact = False
            return self.fresh('b', z3.BoolSort())
        if k == K.Z3_OP_UNINTERPRETED:
            return self.app(e)
        if k == K.Z3_OP_ITE:
            return z3.If(self.tr(ch[0]), self.tr(ch[1]), self.tr(ch[2]))
        self.exact = False
        return self.fresh('o', e.sort())

    def app(self, e):
        d = e.decl()
        ch = e.children()
        rs = self.isort(e.sort())
        if not ch:
            return z3.Const(d.name(), rs)
        f = z3.Function(d.name(), *[self.isort(c.sort()) for c in ch], rs)
        return f(*[self.tr(c) for c in ch])


def simp_top(last):
    """the term and bit that sign-extension of last repeats"""
    w = last.size()
    if z3.is_app(last) and last.decl().kind() == K.Z3_OP_EXTRACT:
        hi, lo = last.params()
        return last.arg(0), hi
    return last, w - 1


def same_bit(c, top):
    if not (z3.is_app(c) and c.decl().kind() == K.Z3_OP_EXTRACT):
        return False
    hi, lo = c.params()
    return hi == lo == top[1] and c.arg(0).eq(top[0])


def check(assertions, timeout):
    """'unsat', 'sat' (the integer translation lost nothing and has a model), or 'unknown'"""
    t = Tr()
    s = z3.SimpleSolver()
    s.set('timeout', timeout)
    out = [t.tr(a) for a in assertions]
    s.add(*out)
    s.add(*t.side)
    r = s.check()
    return 'unsat' if r == z3.unsat else 'sat' if r == z3.sat and t.exact else 'unknown'
