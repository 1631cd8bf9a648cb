"""Symbolic execution of SSA with inferred loop invariants: the VC generator."""
import sys
import time
import itertools
from .terms import *
from .values import *
from . import solver

sys.setrecursionlimit(20000)


class Split(Exception):
    def __init__(self, cond):
        self.cond = cond


class GoPanic(Exception):
    def __init__(self, info):
        self.info = info


class Infeasible(Exception):
    pass


class St:
    __slots__ = ('pc', 'pcs', 'heap', 'trace', 'locks', 'univ', 'idx', 'tips', 'alias', 'pubs', 'writes', 'foot', 'g')

    def __init__(self):
        self.pc, self.pcs, self.heap = [], set(), {}
        self.trace, self.locks, self.univ, self.idx = E_, (), (), ()
        self.tips, self.alias, self.pubs = {}, {}, {}
        self.writes, self.foot = None, None
        self.g = {}

    def copy(self):
        s = St.__new__(St)
        s.pc, s.pcs, s.heap = list(self.pc), set(self.pcs), dict(self.heap)
        s.trace, s.locks, s.univ, s.idx = self.trace, self.locks, self.univ, self.idx
        s.tips, s.alias, s.pubs = dict(self.tips), dict(self.alias), dict(self.pubs)
        s.writes = None if self.writes is None else set(self.writes)
        s.foot = None if self.foot is None else set(self.foot)
        s.g = dict(self.g)
        return s

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        i = c.get_id()
        if i not in self.pcs:
            self.pcs.add(i)
            self.pc.append(c)


class Obl:
    __slots__ = ('name', 'kind', 'fn', 'pos', 'status', 'detail', 'ms', 'n')

    def __init__(self, name, kind, fn, pos, status, detail=None, ms=0):
        self.name, self.kind, self.fn, self.pos, self.status, self.detail, self.ms = name, kind, fn, pos, status, detail, ms
        self.n = 1


class Counter:
    def __init__(self, n):
        self.n = n

    def __next__(self):
        self.n += 1
        return self.n


class Engine:
    def __init__(self, prog, timeout=10000):
        self.p = prog
        self.timeout = timeout
        self.obls = []
        self.quiet = 0
        self.natives = {}
        self.invokes = {}
        self.contracts = {}
        self.active = []          # functions whose own contract is being verified
        self.otype = {}
        self.ctr = Counter(1)
        self.ctr2 = Counter(1)    # names that outlive an analysis round
        self.kinds = {}           # struct type id -> Kind
        self.under = set()        # functions executed (under contract, transitively)
        self.used_contracts = {}
        self.assumed = set()      # models of external functions used
        self.fam = {}
        self.curpos = ('', '')
        self.stack = []
        self.fuel = 2000000
        self.deadline = None
        self.max_unroll = 14
        self.hooks = {}
        self.loopstats = {'summarised': 0, 'unrolled': 0, 'concrete': 0}
        self.mapenum = {}
        self.mapkinds = {}
        self.byproof = 0
        self.crcs = {}
        self.symtypes = {}
        self.verifying = set()
        self.used_enc = set()
        self.lists = {}

    # ------------------------------------------------------------ helpers
    def t(self, i):
        return self.p.types[i]

    def newoid(self):
        return next(self.ctr)

    def fresh(self, st, tag, sort, facts=None, key=None):
        n = '%s!%d' % (tag, next(self.ctr))
        solver.register(n, facts, key)
        if st.idx:
            return z3.Function(n, *([bvsort(64)] * len(st.idx)), sort)(*st.idx)
        return z3.Const(n, sort)

    def univs(self, st):
        return st.univ

    def decide(self, st, c):
        """truth of c on this path; forks the path when both are possible"""
        if isinstance(c, bool):
            return c
        if c.get_id() in st.pcs:
            return True
        n = simp(z3.Not(c))
        if isinstance(n, bool):
            return not n
        if n.get_id() in st.pcs:
            return False
        r1, _ = solver.check(st.pc + [c], st.univ, self.timeout, light=1)
        if r1 == 'unsat':
            st.assume(n)
            return False
        r2, _ = solver.check(st.pc + [n], st.univ, self.timeout, light=1)
        if r2 == 'unsat':
            st.assume(c)
            self.byproof += 1
            return True
        raise Split(c)

    def entails(self, st, c):
        if isinstance(c, bool):
            return c
        if self.inpc(st, c):
            return True
        n = simp(z3.Not(c))
        if isinstance(n, bool):
            return not n
        return solver.check(st.pc + [n], st.univ, self.timeout, light=2)[0] == 'unsat'

    def feasible(self, st, *cs):
        return solver.check(st.pc + list(cs), st.univ, self.timeout, light=1)[0] != 'unsat'

    def record(self, name, kind, status, detail=None, ms=0):
        o = Obl(name, kind, self.curpos[0], self.curpos[1], status, detail, ms)
        self.obls.append(o)
        return o

    def must(self, st, c, kind, name=None):
        """proof obligation: c holds whenever this point is reached"""
        if self.quiet:
            if c is False:
                raise GoPanic(kind)
            st.assume(c)
            return True
        t0 = time.time()
        if c is True:
            self.record(name or kind, kind, 'discharged')
            return True
        n = lnot(c)
        r, m = solver.check(st.pc + [n], st.univ, self.timeout)
        if r == 'unknown':
            r, m = solver.check(st.pc + [n], st.univ, self.timeout * 3)
        ms = (time.time() - t0) * 1000
        if r == 'unsat':
            self.record(name or kind, kind, 'discharged', None, ms)
            st.assume(c)
            return True
        if r == 'sat':
            r, m = solver.check(st.pc + [n], st.univ, self.timeout, want_model=True)
        self.record(name or kind, kind, 'refuted' if r == 'sat' else 'unknown', {'model': self.model(m) if r == 'sat' else str(m), 'cond': str(c)[:2000], 'path': [str(x)[:300] for x in st.pc[-12:]]}, ms)
        if c is False:
            raise GoPanic(kind)
        st.assume(c)
        return False

    def model(self, m):
        out = {}
        if m is None:
            return out
        for d in m.decls():
            try:
                v = m[d]
                out[d.name()] = str(v)[:400]
            except Exception:
                pass
        return out

    # ------------------------------------------------------------ values of types
    NAT = {('sync', 'Mutex'): lambda: Op('Mutex', (0,)), ('sync', 'RWMutex'): lambda: Op('Mutex', (0,)),
           ('sync', 'WaitGroup'): lambda: Op('WG', (0,)), ('sync/atomic', 'Bool'): lambda: Op('ABool', (False,)),
           ('sync/atomic', 'Int32'): lambda: Op('AInt', (0,)), ('sync/atomic', 'Int64'): lambda: Op('AInt', (0,)),
           ('sync', 'Once'): lambda: Op('Once', (0,)),
           ('bytes', 'Buffer'): lambda: Op('Buffer', (E_,)), ('strings', 'Builder'): lambda: Op('Buffer', (E_,)),
           ('time', 'Time'): lambda: Op('Time', (0,)), ('bufio', 'Writer'): lambda: Op('Writer', (None, E_)),
           ('bufio', 'Reader'): lambda: Op('Reader', (None, 0, 0, 0)), ('context', 'CancelFunc'): None,
           ('reflect', 'Value'): lambda: RVal(None)}

    def zero(self, tid):
        t = self.t(tid)
        k = self.NAT.get((t.pkg, t.name))
        if k:
            return k()
        if t.kind == 'basic':
            if t.isstr:
                return E_
            if t.isbool:
                return False
            if t.basic == 'untyped nil':
                return NILI
            return 0
        if t.kind == 'ptr':
            return NILP
        if t.kind == 'slice':
            return RSlice(E_, True)
        if t.kind == 'map':
            return MapV(None, True)
        if t.kind == 'iface':
            return NILI
        if t.kind == 'func':
            return NILF
        if t.kind == 'chan':
            return Op('nilchan')
        if t.kind == 'struct':
            return StructV([self.zero(f['type']) for f in t.fields], tid)
        if t.kind == 'array':
            if t.len > 4096:
                return RopeArr(Rope([L(bytes(t.len))]))
            return ArrV([self.zero(t.elem)] * t.len)
        if t.kind == 'tuple':
            return Tup([self.zero(e) for e in t.elems])
        raise Unsupported('zero of ' + t.str)

    def sym(self, tid, name, idx=()):
        """an arbitrary value of a type; name identifies it, idx are the list indices leading to it"""
        t = self.t(tid)

        def fn(sfx, sort, *more):
            n = name + sfx
            a = list(idx) + list(more)
            if a:
                return z3.Function(n, *[x.sort() for x in a], sort)(*a)
            return z3.Const(n, sort)
        if t.kind == 'basic':
            if t.isstr:
                return ratom(fn('', Str))
            if t.isbool:
                return fn('', z3.BoolSort())
            return fn('', bvsort(t.width))
        if t.kind == 'slice':
            n = fn('.len', bvsort(64))
            solver.registry[n.decl().name()] = lambda a: [z3.And(z3.BitVecVal(0, 64) <= a, a <= z3.BitVecVal(LIM, 64))]
            nil = fn('.nil', z3.BoolSort())
            if t.isbytes:
                a = fn('', Str)
                # nil implies empty
                nn = nil.decl()
                aa = a.decl()
                solver.registry[nn.name()] = lambda x, aa=aa: [z3.Implies(x, slen(aa(*x.children())) == 0)]
                return RSlice(ratom(a), nil)
            nd, ld = nil.decl(), n.decl()
            solver.registry[nd.name()] = lambda x, ld=ld: [z3.Implies(x, ld(*x.children()) == 0)]
            iv = fresh_iv('e')
            tmpl = self.sym(t.elem, name + '[]', tuple(idx) + (iv,))
            return RSlice(Rope([X(tmpl, iv, 0, n)]), nil)
        if t.kind == 'ptr':
            nil = fn('.nil', z3.BoolSort())
            v = self.sym(t.elem, name + '*', idx)
            return Ptr(('ro', v), (), nil)
        if t.kind == 'struct':
            return StructV([self.sym(f['type'], '%s.%d' % (name, i), idx) for i, f in enumerate(t.fields)], tid)
        if t.kind == 'array':
            return ArrV([self.sym(t.elem, '%s.%d' % (name, i), idx) for i in range(t.len)])
        if t.kind == 'iface':
            return Iface('opq', Op('opq', (t.str, name) + tuple(idx)))
        if t.kind == 'func':
            return FuncV('opq:' + name, idx)
        raise Unsupported('symbolic ' + t.str)

    # ------------------------------------------------------------ ropes
    def resolve(self, st, r):
        """drop alternatives that the path condition has decided"""
        out, ch = [], False
        for s in r.segs:
            if isinstance(s, C):
                pick = None
                for c, x in s.alts:
                    if c is True or (isz(c) and self.inpc(st, c)):
                        pick = x
                        break
                if pick is not None:
                    out.extend(self.resolve(st, pick).segs)
                    ch = True
                    continue
            out.append(s)
        return Rope(out) if ch else r

    def inpc(self, st, c):
        if c.get_id() in st.pcs:
            return True
        if z3.is_and(c):
            return all(self.inpc(st, x) for x in c.children())
        if z3.is_or(c):
            return any(self.inpc(st, x) for x in c.children())
        return z3.is_true(c)

    def survives(self, k):
        return False

    def g_ok(self, k):
        return False

    def splitalts(self, st, s):
        """make the path decide which alternative of a Choice holds"""
        for c, x in s.alts[:-1]:
            if self.decide(st, c):
                return x
        st.assume(s.alts[-1][0])
        return s.alts[-1][1]

    def choose(self, st, rope):
        """resolve every top-level Choice by splitting the path"""
        while True:
            rope = self.resolve(st, rope)
            for k, s in enumerate(rope.segs):
                if isinstance(s, C):
                    x = self.splitalts(st, s)
                    rope = Rope(rope.segs[:k] + x.segs + rope.segs[k + 1:])
                    break
            else:
                return rope

    def peq(self, st, a, b):
        """provably equal 64-bit terms"""
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        d = sub(a, b)
        if isinstance(d, int):
            return d == 0
        return self.entails(st, eq(a, b))

    def cut(self, st, rope, pos):
        """split rope at pos (0 <= pos <= len): (left, right)"""
        if isinstance(pos, int) and pos == 0:
            return E_, rope
        acc = 0
        segs = list(rope.segs)
        k = 0
        while k < len(segs):
            s = segs[k]
            d = sub(pos, acc)
            if isinstance(d, int) and d == 0:
                return Rope(segs[:k]), Rope(segs[k:])
            if isinstance(s, C):
                r2 = self.resolve(st, Rope([s]))
                x = r2 if not (len(r2.segs) == 1 and isinstance(r2.segs[0], C)) else self.splitalts(st, s)
                segs[k:k + 1] = list(x.segs)
                continue
            if isinstance(s, W):
                a, b = self.cut(st, s.r, s.off)
                a, _ = self.cut(st, b, s.len)
                segs[k:k + 1] = list(a.segs)
                continue
            if type(s).__name__ == 'Z':
                n = seglen(s)
                e = sub(d, n)
                if isinstance(e, int) and sgn(e, 64) >= 0 or not isinstance(e, int) and self.entails(st, sle(n, d)):
                    acc = add(acc, n)
                    k += 1
                    continue
                segs[k:k + 1] = list(s.expand().segs)
                continue
            n = seglen(s)
            if isinstance(d, int) and isinstance(n, int):
                if d < n:
                    a, b = self.cutseg(s, d)
                    return Rope(segs[:k] + a), Rope(b + segs[k + 1:])
                acc = add(acc, n)
                k += 1
                continue
            e = sub(d, n)
            if isinstance(e, int) and sgn(e, 64) >= 0:
                acc = add(acc, n)
                k += 1
                continue
            # symbolic: inside a prefix of a fold?
            if isinstance(s, F):
                q = self.cutfold(st, s, d)
                if q is not None:
                    a, b = q
                    return Rope(segs[:k] + a), Rope(b + segs[k + 1:])
                # pos = pl(i) + rest
                q = self.foldindex(st, s, d)
                if q is not None:
                    i, rest = q
                    item = vsubst(s.body, [(s.iv, i)])
                    left = [F(i, s.iv, s.body, s.pl)]
                    j = fresh_iv()
                    i1 = add(i, 1)
                    plr = self.shiftpl(s, i1)
                    right = [F(sub(s.n, i1), j, vsubst(s.body, [(s.iv, add(j, i1))]), plr)]
                    if isinstance(rest, int) and rest == 0:
                        return Rope(segs[:k] + left), Rope(list(item.segs) + right + segs[k + 1:])
                    a, b = self.cut(st, item, rest)
                    return Rope(segs[:k] + left + list(a.segs)), Rope(list(b.segs) + right + segs[k + 1:])
            if self.entails(st, sle(n, d)):
                acc = add(acc, n)
                k += 1
                continue
            if self.entails(st, eq(d, 0)):
                return Rope(segs[:k]), Rope(segs[k:])
            if isinstance(s, (S, X)):
                if self.entails(st, land(sle(0, d), sle(d, n))):
                    a, b = self.cutseg(s, d)
                    return Rope(segs[:k] + a), Rope(b + segs[k + 1:])
            if isinstance(s, (I, L)):
                # a symbolic distance within a few bytes
                for q in range(1, n):
                    if self.entails(st, eq(d, q)):
                        a, b = self.cutseg(s, q)
                        return Rope(segs[:k] + a), Rope(b + segs[k + 1:])
            raise Unsupported('cut at %s of %s' % (pos, rope))
        d = sub(pos, acc)
        if (isinstance(d, int) and d == 0) or self.entails(st, eq(d, 0)):
            return Rope(segs), E_
        raise Unsupported('cut beyond end: %s of %s' % (pos, rope))

    def shiftpl(self, s, by):
        body_len = s.body.len()
        if isinstance(body_len, int):
            return PLF('pl!c%d' % body_len, ())
        base = s.pl

        class Shift:
            def __init__(self, b, by):
                self.b, self.by = b, by

            def __call__(self, t):
                return sub(self.b(add(t, self.by)), self.b(self.by))
        return Shift(base, by)

    def foldindex(self, st, s, d):
        """d as pl(i) + rest for an index i known on this path"""
        c = s.body.len()
        if isinstance(c, int):
            return None
        cands = []
        for a in apps(d) if isz(d) else ():
            if isinstance(s.pl, PLF) and a.decl().name() == s.pl.name and [x.get_id() for x in a.children()[:-1]] == [bv(y, 64).get_id() for y in s.pl.args]:
                cands.append(a.children()[-1])
        for i in cands:
            rest = sub(d, s.pl(i))
            if isz(rest) and mentions(rest, [s.pl(i)]):
                continue
            if self.entails(st, land(sle(0, i), slt(i, s.n))):
                return i, rest
        if not cands and isz(d):
            n0 = vsubst(s.body, [(s.iv, 0)]).len()
            if self.entails(st, land(slt(0, s.n), sle(0, d), sle(d, n0))):
                return 0, d
        return None

    def cutfold(self, st, s, d):
        c = s.body.len()
        if isinstance(c, int) and c == 1:
            if self.entails(st, land(sle(0, d), sle(d, s.n))):
                j = fresh_iv()
                return [F(d, s.iv, s.body, s.pl)], [F(sub(s.n, d), j, vsubst(s.body, [(s.iv, add(j, d))]), s.pl)]
        if isinstance(c, int) and c > 1 and isz(d):
            # d = c*i (+ rest) with i an index in the path
            for i in st.idx:
                rest = sub(d, mul(i, c))
                if isinstance(rest, int) and rest < c and self.entails(st, land(sle(0, i), slt(i, s.n))):
                    i1 = add(i, 1)
                    j = fresh_iv()
                    item = vsubst(s.body, [(s.iv, i)])
                    a, b = self.cut(st, item, rest)
                    return [F(i, s.iv, s.body, s.pl)] + list(a.segs), list(b.segs) + [F(sub(s.n, i1), j, vsubst(s.body, [(s.iv, add(j, i1))]), s.pl)]
        return None

    def cutseg(self, s, d):
        if isinstance(s, L):
            return [L(s.b[:d])], [L(s.b[d:])]
        if isinstance(s, I):
            hi = simp(z3.Extract(s.n * 8 - 1, (s.n - d) * 8, s.v))
            lo = simp(z3.Extract((s.n - d) * 8 - 1, 0, s.v))
            return [I(d, hi)], [I(s.n - d, lo)]
        if isinstance(s, S):
            return [S(s.a, s.off, d)], [S(s.a, add(s.off, d), sub(s.len, d))]
        if isinstance(s, X):
            return [X(s.tmpl, s.iv, s.off, d)], [X(s.tmpl, s.iv, add(s.off, d), sub(s.len, d))]
        if isinstance(s, P) and isinstance(d, int) and d == 0:
            return [], [s]
        raise Unsupported('cut inside %r' % s)

    def take(self, st, rope, lo, hi):
        _, r = self.cut(st, rope, lo)
        r, _ = self.cut(st, r, sub(hi, lo))
        return r

    def window(self, rope, lo, hi):
        if len(rope.segs) == 1 and isinstance(rope.segs[0], W):
            w = rope.segs[0]
            return Rope([W(w.r, add(w.off, lo), sub(hi, lo))])
        if isinstance(lo, int) and lo == 0 and same(hi, rope.len()):
            return rope
        if not rope.segs:
            return rope
        return Rope([W(rope, lo, sub(hi, lo))])

    def force(self, st, rope):
        """cut all windows"""
        if not any(isinstance(s, W) for s in rope.segs):
            return rope
        out = []
        for s in rope.segs:
            if isinstance(s, W):
                out.extend(self.force(st, self.take(st, s.r, s.off, add(s.off, s.len))).segs)
            else:
                out.append(s)
        return Rope(out)

    def item(self, st, rope, i):
        """element i (0 <= i < len known): byte value or list item"""
        segs = list(rope.segs)
        if len(segs) == 1:
            s = segs[0]
            if isinstance(s, W):
                return self.item(st, s.r, add(s.off, i))
            if isinstance(s, C):
                # there is an element, so an alternative that has one holds
                full = [(c, x) for c, x in s.alts if x.segs and not (isinstance(x.len(), int) and x.len() == 0)]
                if full and len(full) < len(s.alts):
                    st.assume(lor(*[c for c, _ in full]))
                    if all(segsame(x, full[0][1]) for _, x in full[1:]):
                        return self.item(st, full[0][1], i)
                    return self.item(st, Rope([C(full)]), i)
            if isinstance(s, V):
                return s.v
            if isinstance(s, X):
                return vsubst(s.tmpl, [(s.iv, add(s.off, i))])
            if isinstance(s, F):
                c = s.body.len()
                if isinstance(c, int) and c == 1:
                    return self.item(st, vsubst(s.body, [(s.iv, i)]), 0)
                if not isinstance(c, int) and isinstance(s.pl, PLF):
                    q = self.foldindex(st, s, i) or self.located(st, s, i)
                    return self.item(st, vsubst(s.body, [(s.iv, q[0])]), q[1])
            if isinstance(s, S):
                return simp(sbyte(s.a, bv(add(s.off, i), 64)))
            if isinstance(s, L):
                if isinstance(i, int):
                    return s.b[i]
                r = s.b[-1]
                for k in range(len(s.b) - 1):
                    r = ite(eq(i, k), s.b[k], r, 8)
                return r
        _, r = self.cut(st, rope, i)
        r = self.nonempty(st, r)
        s = r.segs[0]
        if isinstance(s, V):
            return s.v
        if isinstance(s, L):
            return s.b[0]
        if isinstance(s, I):
            return simp(z3.Extract(s.n * 8 - 1, s.n * 8 - 8, s.v))
        return self.item(st, Rope([s]), 0)

    def located(self, st, s, j):
        """position j of a list built piece by piece: (number of the piece, position in it)"""
        args = [bv(x, 64) for x in s.pl.args] + [bv(j, 64)]
        w = z3.Function('at!' + s.pl.name, *([bvsort(64)] * (len(args) + 1)))(*args)
        st.assume(land(sle(0, w), slt(w, s.n), sle(s.pl(w), j), slt(j, s.pl(add(w, 1)))))
        return w, sub(j, s.pl(w))

    def nonempty(self, st, r):
        """drop segments that are provably empty, split choices, until the first has an element"""
        while r.segs:
            s = r.segs[0]
            if isinstance(s, C):
                x = self.splitalts(st, s)
                r = Rope(x.segs + r.segs[1:])
                continue
            if isinstance(s, W):
                r = Rope(self.force(st, Rope([s])).segs + r.segs[1:])
                continue
            if type(s).__name__ == 'Z':
                r = Rope(s.expand().segs + r.segs[1:])
                continue
            n = seglen(s)
            if isinstance(n, int):
                if n == 0:
                    r = Rope(r.segs[1:])
                    continue
                if isinstance(s, F):
                    r = self.peel(s, r)
                    continue
                return r
            if self.entails(st, slt(0, n)):
                if isinstance(s, F):
                    if self.entails(st, slt(0, s.n)):
                        r = self.peel(s, r)
                        continue
                    raise Unsupported('first of %r' % s)
                return r
            if self.decide(st, eq(n, 0)):
                r = Rope(r.segs[1:])
                continue
        raise Unsupported('element of an empty sequence')

    def peel(self, s, r):
        item = vsubst(s.body, [(s.iv, 0)])
        j = fresh_iv()
        rest = F(sub(s.n, 1), j, vsubst(s.body, [(s.iv, add(j, 1))]), self.shiftpl(s, 1))
        return Rope(item.segs + (rest,) + r.segs[1:])

    def beint(self, st, rope, n):
        """value of the first n bytes, big-endian"""
        r = self.force(st, rope) if len(rope.segs) > 1 else rope
        if len(r.segs) == 1 and isinstance(r.segs[0], W):
            w = r.segs[0]
            _, r = self.cut(st, w.r, w.off)
            while r.segs and (isinstance(r.segs[0], C) or isinstance(seglen(r.segs[0]), int) and seglen(r.segs[0]) == 0):
                r = self.nonempty(st, r)
        if r.segs:
            s = r.segs[0]
            if isinstance(s, I) and s.n == n:
                return s.v
            if isinstance(s, L) and len(s.b) >= n:
                return int.from_bytes(s.b[:n], 'big')
        vs = [self.item(st, r, k) for k in range(n)]
        if all(isinstance(v, int) for v in vs):
            return int.from_bytes(bytes(vs), 'big')
        return simp(z3.Concat(*[bv(v, 8) for v in vs])) if n > 1 else vs[0]

    # ------------------------------------------------------------ strings as identities
    def strterm(self, st, r):
        """a term for the identity of the byte sequence r"""
        r = self.force(st, self.resolve(st, r))
        l = r.lit()
        if l is not None:
            return solver.strlit(l)
        a = r.atom()
        if a is not None:
            return a
        raise Unsupported('identity of %r' % r)

    def streq(self, st, a, b):
        a, b = self.resolve(st, a), self.resolve(st, b)
        la, lb = a.lit(), b.lit()
        if la is not None and lb is not None:
            return la == lb
        if lb is not None:
            a, b, la, lb = b, a, lb, la
        if la is not None and any(isinstance(s, D) for s in b.segs):
            return self.declit(la, list(b.segs))
        if la is not None and la == b'':
            return eq(b.len(), 0)
        aa, bb = a.atom(), b.atom()
        if aa is not None and bb is not None:
            return simp(aa == bb)
        if (aa is not None or la is not None) and (bb is not None or lb is not None):
            return simp(self.strterm(st, a) == self.strterm(st, b))
        try:
            a2, b2 = self.force(st, a), self.force(st, b)
            if (a2.atom() is not None or a2.lit() is not None) and (b2.atom() is not None or b2.lit() is not None):
                return self.streq(st, a2, b2)
        except Unsupported:
            pass
        if repr(a) == repr(b):
            return True
        raise Unsupported('string equality %r %r' % (a, b))

    def declit(self, lit, segs):
        """condition that the concatenation of segs (literals and decimals) equals lit"""
        import re
        if not segs:
            return lit == b''
        s = segs[0]
        if isinstance(s, L):
            return self.declit(lit[len(s.b):], segs[1:]) if lit.startswith(s.b) else False
        if isinstance(s, D):
            alts = []
            for k in range(1, len(lit) + 1):
                m = re.fullmatch(rb'-?[0-9]+', lit[:k])
                if not m or (lit[:k] != str(int(lit[:k])).encode()):
                    continue
                v = int(lit[:k])
                lo, hi = (-(1 << (s.w - 1)), 1 << (s.w - 1)) if s.signed else (0, 1 << s.w)
                if not lo <= v < hi:
                    continue
                rest = self.declit(lit[k:], segs[1:])
                if rest is not False:
                    alts.append(land(eq(s.v, mask(v, s.w), s.w), rest))
            return lor(*alts)
        raise Unsupported('literal match of %r' % s)

    # ------------------------------------------------------------ heap
    def norm(self, st, oid):
        while oid in st.alias:
            oid = st.alias[oid]
        return oid

    def issym(self, oid):
        return isinstance(oid, tuple) and oid and oid[0] == 'sym'

    def okey(self, oid):
        """hashable identity of an object id"""
        if isinstance(oid, tuple):
            return tuple(self.okey(x) for x in oid)
        if isz(oid):
            return ('z', oid.get_id(), _pin(oid))
        if isinstance(oid, (int, str, bool)) or oid is None:
            return oid
        return ('py', id(oid), _pin(oid))

    def root(self, st, oid):
        oid = self.norm(st, oid)
        k = self.okey(oid)
        if k in st.heap:
            return st.heap[k], k, oid
        if isinstance(oid, tuple):
            if oid[0] == 'ro':
                return oid[1], None, oid
            if oid[0] == 'elem':
                return self.item(st, oid[1], oid[2]), None, oid
            if oid[0] == 'sym':
                v = self.kinds_init(st, oid)
                st.heap[k] = v
                return v, k, oid
            if oid[0] == 'global':
                gt = self.t(self.p.globals[oid[1]]['type']).elem
                if not oid[1].startswith(self.p.pkg + '.') and self.t(gt).kind == 'iface':
                    v = Iface('op', Op('err', (oid[1],)))       # an error value of another package
                else:
                    v = self.zero(gt)
                st.heap[k] = v
                return v, k, oid
            if oid[0] == 'fam':
                f = self.fam[oid[1]]
                v = vsubst(f['val'], list(zip(f['idx'], oid[2:])))
                st.heap[k] = v
                return v, k, oid
        raise Unsupported('no object %s' % (oid,))

    def kinds_init(self, st, oid):
        raise Unsupported('symbolic object %s' % (oid,))

    def access(self, st, oid, path, write):
        """hook: lock discipline"""

    def nilcheck(self, st, p):
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of %r' % (p,))
        if p.nil is False:
            return
        if p.nil is True:
            self.must(st, False, 'nil dereference')
        self.must(st, lnot(p.nil), 'nil dereference')

    def load(self, st, p):
        self.nilcheck(st, p)
        v, k, oid = self.root(st, p.oid)
        if self.issym(oid):
            self.access(st, oid, p.path, False)
            v, k, oid = self.root(st, p.oid)
        if st.foot is not None and k is not None:
            st.foot.add(('r', k, None))
        for e in p.path:
            v = self.nav(st, v, e)
        return v

    def nav(self, st, v, e):
        if isinstance(v, StructV):
            return v.vals[e]
        if isinstance(v, ArrV):
            if isinstance(e, int):
                return v.vals[e]
            r = v.vals[-1]
            if not all(is_leaf(x) for x in v.vals):
                raise Unsupported('symbolic array index')
            for k in range(len(v.vals) - 2, -1, -1):
                r = ite(eq(e, k), v.vals[k], r)
            return r
        if isinstance(v, RopeArr):
            return self.item(st, v.rope, e)
        raise Unsupported('field %s of %r' % (e, v))

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if isinstance(v, StructV):
            vs = list(v.vals)
            vs[e] = self.upd(st, vs[e], path[1:], val)
            return StructV(vs, v.tid)
        if isinstance(v, ArrV) and isinstance(e, int):
            vs = list(v.vals)
            vs[e] = self.upd(st, vs[e], path[1:], val)
            return ArrV(vs)
        if isinstance(v, RopeArr) and isinstance(e, int) and not path[1:] and v.rope.lit() is not None and isinstance(val, int):
            b = bytearray(v.rope.lit())
            b[e] = val
            return RopeArr(Rope([L(b)]))
        raise Unsupported('store to %s of %r' % (path, type(v)))

    def store(self, st, p, val):
        self.nilcheck(st, p)
        v, k, oid = self.root(st, p.oid)
        if k is None:
            raise Unsupported('store to read-only element')
        if self.issym(oid):
            self.access(st, oid, p.path, True)
            v, k, oid = self.root(st, p.oid)
        if st.g.get('frozen') and k in st.g['frozen']:
            raise Unsupported('store to shared array')
        st.heap[k] = self.upd(st, v, p.path, val)
        if st.writes is not None:
            st.writes.add(k)
        if st.foot is not None:
            st.foot.add(('w', k, None))

    def setobj(self, st, oid, val):
        oid = self.norm(st, oid)
        k = self.okey(oid)
        st.heap[k] = val
        if st.writes is not None:
            st.writes.add(k)
        if st.foot is not None:
            st.foot.add(('w', k, None))

    def alloc(self, st, val, tid=None):
        oid = self.newoid()
        st.heap[oid] = val
        self.otype[oid] = tid
        return oid

    # ------------------------------------------------------------ slices
    def srope(self, st, s):
        if isinstance(s, Rope):
            return s
        if isinstance(s, RSlice):
            return s.rope
        if isinstance(s, ASlice):
            arr = self.load(st, Ptr(s.oid, s.path))
            if isinstance(arr, ArrV):
                if isinstance(s.lo, int) and isinstance(s.hi, int):
                    vs = arr.vals[s.lo:s.hi]
                    t = self.aelem(st, s)
                    if t is not None and self.t(t).kind == 'basic' and self.t(t).basic in ('uint8', 'byte'):
                        return self.bytesrope(vs)
                    return Rope([V(x) for x in vs])
                raise Unsupported('symbolic bounds of a small array')
            if isinstance(arr, RopeArr):
                return self.window(arr.rope, s.lo, s.hi)
        if isinstance(s, Dead):
            raise Unsupported('use of ' + s.why)
        raise Unsupported('content of %r' % (s,))

    def aelem(self, st, s):
        return st.g.get(('aelem', self.okey(s.oid), s.path))

    def bytesrope(self, vs):
        out = []
        k = 0
        while k < len(vs):
            if isinstance(vs[k], int):
                out.append(L(bytes([vs[k]])))
                k += 1
                continue
            # join consecutive extracts of one term
            j = k + 1
            while j < len(vs) and not isinstance(vs[j], int) and j - k < 8:
                j += 1
            best = None
            for n in (8, 4, 2):
                if k + n <= j:
                    c = simp(z3.Concat(*vs[k:k + n]))
                    if isz(c) and not c.decl().kind() == z3.Z3_OP_CONCAT:
                        best = (n, c)
                        break
            if best:
                out.append(I(best[0], best[1]))
                k += best[0]
            else:
                out.append(I(1, vs[k]))
                k += 1
        return Rope(out)

    def slen(self, st, s):
        if isinstance(s, Rope):
            return s.len()
        if isinstance(s, RSlice):
            return s.rope.len()
        if isinstance(s, ASlice):
            return sub(s.hi, s.lo)
        if isinstance(s, Dead):
            raise Unsupported('use of ' + s.why)
        raise Unsupported('len of %r' % (s,))

    def isnil(self, v):
        if isinstance(v, RSlice):
            return v.nil
        if isinstance(v, ASlice):
            return False
        if isinstance(v, Ptr):
            return v.nil
        if isinstance(v, MapV):
            return v.nil
        if isinstance(v, FuncV):
            return v.name is None
        if isinstance(v, Iface):
            return v.tid is None
        if isinstance(v, Op):
            return v.kind == 'nilchan'
        if isinstance(v, Dead):
            raise Unsupported('use of ' + v.why)
        raise Unsupported('nil test of %r' % (v,))

    def append(self, st, s, tail):
        """append(s, tail...) with tail a rope"""
        r = self.srope(st, s)
        n = tail.len()
        if isinstance(n, int) and n == 0 and isinstance(s, RSlice):
            return s
        bk = getattr(s, 'bk', None)
        if isinstance(s, ASlice):
            if not same(s.hi, s.cap):
                if not self.decide(st, sle(add(s.hi, n), s.cap)):
                    bk = None       # reallocated: the content is copied
                else:
                    arr = self.load(st, Ptr(s.oid, s.path))
                    if isinstance(arr, ArrV) and isinstance(n, int) and isinstance(s.hi, int):
                        for j in range(n):
                            self.store(st, Ptr(s.oid, s.path + (s.hi + j,)), self.item(st, tail, j))
                        return ASlice(s.oid, s.path, s.lo, s.hi + n, s.cap)
                    raise Unsupported('append into spare capacity of an array')
            bk = None
        if bk is not None:
            if s.tok is None or st.tips.get(bk) != s.tok:
                raise Unsupported('append to a slice sharing its backing array')
        else:
            bk = self.newoid()
        tok = self.newoid()
        st.tips[bk] = tok
        nil = False
        if isinstance(s, RSlice) and s.nil is not False:
            nil = land(s.nil, eq(n, 0))
        return RSlice(self.resolve(st, r) + tail, nil, bk, tok)

    # ------------------------------------------------------------ evaluation
    def const(self, c):
        t = self.t(c['t'])
        if c.get('nil'):
            return self.zero(c['t'])
        v = c['v']
        if c.get('str'):
            return rlit(bytes(v))
        if isinstance(v, bool):
            return v
        if t.isfloat:
            import struct
            f = float(c['f']) if 'f' in c else float(v)
            return struct.unpack('>Q', struct.pack('>d', f))[0]
        if c.get('int'):
            return mask(int(v), t.width or 64)
        raise Unsupported('constant %s' % c)

    def ev(self, v, env):
        if v is None:
            return None
        k = v['k']
        if k == 'reg':
            try:
                return env[v['n']]
            except KeyError:
                raise Unsupported('unset register ' + v['n'])
        if k == 'const':
            r = v.get('_c')
            if r is None:
                r = v['_c'] = self.const(v)
            return r
        if k == 'global':
            return Ptr(('global', v['n']))
        if k == 'func':
            return FuncV(v['n'])
        if k == 'builtin':
            return FuncV('builtin:' + v['n'])
        raise Unsupported('operand %s' % k)

    # ------------------------------------------------------------ functions
    def call(self, st, name, args, binds=(), ins=None):
        """-> list of ('ret', st, value) | ('panic', st, info)"""
        if name is None:
            self.must(st, False, 'call of nil function')
        if name.startswith('builtin:'):
            return [('ret', st, self.builtin(st, name[8:], args, ins))]
        c = self.contracts.get(name)
        if c is not None and name not in self.active:
            r = c(self, st, args, ins)
            if r is not None:
                self.used_contracts[name] = self.used_contracts.get(name, 0) + 1
                return self.native_result(st, r)
        n = self.natives.get(name)
        if n is not None:
            self.assumed.add(name)
            return self.native_result(st, n(self, st, args, ins))
        f = self.p.funcs.get(name)
        if f is None or f.blocks is None:
            raise Unsupported('call of ' + name)
        if f.pkg == self.p.pkg:
            self.under.add(name)
        return self.exec_fn(f, args, binds, st)

    def native_result(self, st, r):
        if isinstance(r, list):
            return [x if len(x) == 3 else ('ret', x[0], x[1]) for x in r]
        return [('ret', st, r)]

    def exec_fn(self, f, args, binds, st):
        if len(self.stack) > 80:
            raise Unsupported('recursion too deep in ' + f.name)
        env = dict(zip(f.params, args))
        env.update(zip(f.freevars, binds))
        self.stack.append(f.name)
        save = self.curpos
        try:
            outs = self.region(f, 0, None, env, (), st, None)
        finally:
            self.stack.pop()
            self.curpos = save
        res = []
        for o in outs:
            if o[0] == 'ret':
                res.append(('ret', o[1], o[2]))
            elif o[0] == 'panic':
                res.append(('panic', o[1], o[2]))
            else:
                raise Unsupported('region left function')
        return res

    def unwind(self, f, st, defers, info):
        """run deferred calls, then keep panicking"""
        outs = [('ret', st, None)]
        for d in reversed(defers):
            nxt = []
            for k, s, v in outs:
                nxt.extend(self.docall(s, d[0], d[1], d[2], None))
            outs = nxt
        return [('panic', s, info) for k, s, v in outs]

    def docall(self, st, fv, args, invoke, ins):
        """call with Split handling for use outside the instruction loop"""
        work, res = [st], []
        while work:
            s = work.pop()
            snap = s.copy()
            try:
                if invoke:
                    res.extend(self.invoke(s, fv, invoke, args, ins))
                elif isinstance(fv, FuncV) and fv.name is not None and fv.name.startswith('opq:') and 'opq-call' in self.natives:
                    res.extend(self.native_result(s, self.natives['opq-call'](self, s, [fv] + list(args), ins)))
                else:
                    res.extend(self.call(s, fv.name, args, fv.binds, ins))
            except Split as sp:
                for c in (sp.cond, lnot(sp.cond)):
                    s2 = snap.copy()
                    try:
                        s2.assume(c)
                        work.append(s2)
                    except Infeasible:
                        pass
            except Infeasible:
                pass
            except GoPanic as g:
                res.append(('panic', s, g.info))
        return res

    # region: execute from block b until return, panic, or (for a loop) back edge / exit
    def region(self, f, b0, prev0, env, defers, st, loop, first=False):
        outs = []
        work = [(st, env, defers, b0, prev0, 0, first)]
        while work:
            st, env, defers, b, prev, k, first = work.pop()
            self.fuel -= 1
            if self.fuel < 0 or (self.deadline and time.time() > self.deadline):
                raise Unsupported('budget exhausted')
            blk = f.blocks[b]
            if k == 0 and not first:
                if loop is not None:
                    if b == loop.header:
                        outs.append(('back', st, env, defers, prev))
                        continue
                    if b not in loop.body:
                        outs.append(('exit', st, env, defers, prev, b))
                        continue
                if b in f.loops:
                    for o in self.run_loop(f, f.loops[b], prev, env, defers, st):
                        if o[0] == 'exit':
                            _, s2, e2, d2, p2, b2 = o
                            work.append((s2, e2, d2, b2, p2, 0, False))
                        else:
                            outs.append(o)
                    continue
                self.phis(blk, b, prev, env)
            instrs = blk['i']
            n = len(instrs)
            while k < n:
                ins = instrs[k]
                op = ins['op']
                if op == 'phi':
                    k += 1
                    continue
                if op == 'jump':
                    work.append((st, env, defers, blk['succs'][0], b, 0, False))
                    break
                if op == 'if':
                    c = self.ev(ins['x'], env)
                    try:
                        if isinstance(c, Dead):
                            raise Unsupported('use of ' + c.why)
                        d = self.decide(st, c)
                        work.append((st, env, defers, blk['succs'][0 if d else 1], b, 0, False))
                    except Split:
                        s2 = st.copy()
                        s2.assume(lnot(c))
                        st.assume(c)
                        work.append((s2, dict(env), defers, blk['succs'][1], b, 0, False))
                        work.append((st, env, defers, blk['succs'][0], b, 0, False))
                    break
                if op == 'return':
                    rs = [self.ev(r, env) for r in ins['rs']]
                    outs.append(('ret', st, rs[0] if len(rs) == 1 else (Tup(rs) if rs else None)))
                    break
                if op == 'panic':
                    self.curpos = (f.name, ins.get('pos', ''))
                    outs.extend(self.unwind(f, st, defers, ('panic', f.name, ins.get('pos', ''))))
                    break
                if op == 'defer':
                    args = tuple(self.ev(a, env) for a in ins['args'])
                    if 'invoke' in ins:
                        defers = defers + ((self.ev(ins['recv'], env), args, ins['invoke']),)
                    else:
                        defers = defers + ((self.ev(ins['fn'], env), args, None),)
                    k += 1
                    continue
                if op == 'rundefers':
                    res = [('ret', st, None)]
                    for d in reversed(defers):
                        nxt = []
                        for kk, s, v in res:
                            if kk == 'ret':
                                nxt.extend(self.docall(s, d[0], d[1], d[2], None))
                            else:
                                nxt.append((kk, s, v))
                        res = nxt
                    cont = False
                    for j, (kk, s, v) in enumerate(res):
                        if kk == 'panic':
                            outs.append((kk, s, v))
                        else:
                            work.append((s, dict(env), (), b, prev, k + 1, True))
                    break
                # ordinary instruction
                self.curpos = (f.name, ins.get('pos') or self.curpos[1] if self.curpos[0] == f.name else ins.get('pos', ''))
                snap = st.copy() if op in _risky else None
                try:
                    if op == 'call':
                        res = self.instr_call(st, env, ins)
                        for o in res:
                            if o[1].g.get('rebind'):
                                if o[1] is not st or len(res) > 1:
                                    env = dict(env)
                                self.rebound(o[1], env)
                        r = ins.get('r')
                        if len(res) == 1 and res[0][0] == 'ret':
                            st = res[0][1]
                            env[r] = res[0][2]
                            k += 1
                            continue
                        for kk, s, v in res:
                            if kk == 'panic':
                                outs.extend(self.unwind(f, s, defers, v))
                            else:
                                e2 = dict(env)
                                e2[r] = v
                                work.append((s, e2, defers, b, prev, k + 1, True))
                        break
                    v = self.step(st, env, ins, op)
                    if op == 'select':
                        for s, x in v:
                            e2 = dict(env)
                            e2[ins['r']] = x
                            work.append((s, e2, defers, b, prev, k + 1, True))
                        break
                    if 'r' in ins:
                        env[ins['r']] = v
                    k += 1
                except Split as sp:
                    c = sp.cond
                    base = snap if snap is not None else st
                    for cc in (lnot(c), c):
                        s2 = base.copy()
                        try:
                            s2.assume(cc)
                            work.append((s2, dict(env), defers, b, prev, k, True))
                        except Infeasible:
                            pass
                    break
                except Infeasible:
                    break
                except GoPanic as g:
                    outs.extend(self.unwind(f, st, defers, ('runtime', f.name, ins.get('pos', ''), g.info)))
                    break
        return outs

    def rebind(self, st, s, rope):
        """the elements of slice s were rearranged in place"""
        if s.bk is not None and s.bk != -1:
            for v in st.heap.values():
                if isinstance(v, RSlice) and v.bk == s.bk:
                    raise Unsupported('sorting a slice that is stored elsewhere')
        st.g['rebind'] = st.g.get('rebind', ()) + ((s, RSlice(rope, s.nil, s.bk, s.tok)),)

    def rebound(self, st, env):
        for old, new in st.g['rebind']:
            for k, v in list(env.items()):
                if v is old:
                    env[k] = new
                elif isinstance(v, RSlice) and v is not new and v.bk == old.bk and old.bk is not None:
                    env[k] = Dead('a slice that was sorted under another name')

    def phis(self, blk, b, prev, env):
        vals = {}
        for ins in blk['i']:
            if ins['op'] != 'phi':
                break
            e = ins['edges'][blk['preds'].index(prev)]
            vals[ins['r']] = self.ev(e, env)
        env.update(vals)

    def instr_call(self, st, env, ins):
        args = [self.ev(a, env) for a in ins['args']]
        if 'invoke' in ins:
            return self.invoke(st, self.ev(ins['recv'], env), ins['invoke'], args, ins)
        fv = self.ev(ins['fn'], env)
        if isinstance(fv, Op):
            h = self.natives.get('op:' + fv.kind)
            if h:
                return self.native_result(st, h(self, st, [fv] + args, ins))
        if not isinstance(fv, FuncV):
            raise Unsupported('call of %r' % (fv,))
        if fv.name is not None and fv.name.startswith('opq:'):
            h = self.natives.get('opq-call')
            if h is None:
                raise Unsupported('call of unknown function')
            return self.native_result(st, h(self, st, [fv] + args, ins))
        return self.call(st, fv.name, args, fv.binds, ins)

    def invoke(self, st, recv, m, args, ins):
        if isinstance(recv, Iface) and recv.tid is None:
            self.must(st, False, 'method call on nil interface')
        v = recv.val if isinstance(recv, Iface) else recv
        if isinstance(recv, Iface) and isinstance(recv.tid, int):
            ms = self.p.methods.get(recv.tid)
            if ms and m in ms:
                return self.call(st, ms[m], [v] + args, (), ins)
            t = self.t(recv.tid)
            pre = ('(*%s.%s)' % (self.t(t.elem).pkg, self.t(t.elem).name)) if t.kind == 'ptr' else '(%s.%s)' % (t.pkg, t.name)
            if pre + '.' + m in self.natives:
                return self.native_result(st, self.natives[pre + '.' + m](self, st, [v] + args, ins))
        key = m
        if isinstance(v, Op):
            h = self.invokes.get((v.kind, m))
            if h is not None:
                self.assumed.add('%s.%s' % (v.kind, m))
                return self.native_result(st, h(self, st, [v] + args, ins))
        if isinstance(v, (RType,)):
            h = self.invokes.get(('RType', m))
            if h is not None:
                return self.native_result(st, h(self, st, [v] + args, ins))
        raise Unsupported('method %s of %r' % (m, recv))

    # ------------------------------------------------------------ instructions
    def step(self, st, env, ins, op):
        m = getattr(self, 'i_' + op, None)
        if m is None:
            raise Unsupported('instruction ' + op)
        return m(st, env, ins)

    def i_alloc(self, st, env, ins):
        e = ins['elem']
        oid = self.alloc(st, self.zero(e), e)
        t = self.t(e)
        if t.kind == 'array':
            st.g[('aelem', oid, ())] = t.elem
            if ins.get('comment') == 'makeslice':
                st.g[('mkslice', oid)] = True
        return Ptr(oid)

    def i_changetype(self, st, env, ins):
        return self.ev(ins['x'], env)

    i_changeiface = i_changetype

    def i_makeiface(self, st, env, ins):
        return Iface(ins['xt'], self.ev(ins['x'], env))

    def i_extract(self, st, env, ins):
        v = self.ev(ins['x'], env)
        return v.vals[ins['i']]

    def i_field(self, st, env, ins):
        v = self.ev(ins['x'], env)
        if isinstance(v, StructV):
            return v.vals[ins['i']]
        if isinstance(v, RVal) or isinstance(v, Op):
            h = self.natives.get('field:' + (v.kind if isinstance(v, Op) else 'RVal'))
            if h:
                return h(self, st, v, ins['i'])
        raise Unsupported('field of %r' % (v,))

    def i_fieldaddr(self, st, env, ins):
        p = self.ev(ins['x'], env)
        if isinstance(p, Dead):
            raise Unsupported('use of ' + p.why)
        self.nilcheck(st, p)
        return Ptr(p.oid, p.path + (ins['i'],))

    def bound(self, st, i, n, what='index out of range'):
        self.must(st, land(sle(0, i), slt(i, n)), what)

    def w64(self, v, tref, env=None):
        """an index operand as a 64-bit term"""
        if isinstance(v, int):
            t = self.t(tref) if tref is not None else None
            if t is not None and t.signed and t.width and t.width < 64:
                return mask(sgn(v, t.width), 64)
            return v
        if v.size() == 64:
            return v
        t = self.t(tref)
        return simp(z3.SignExt(64 - v.size(), v) if t.signed else z3.ZeroExt(64 - v.size(), v))

    def i_index(self, st, env, ins):
        x = self.ev(ins['x'], env)
        i = self.w64(self.ev(ins['y'], env), ins['y'].get('t'))
        if isinstance(x, ArrV):
            self.bound(st, i, len(x.vals))
            return self.nav(st, x, i)
        if isinstance(x, Rope):
            self.bound(st, i, x.len())
            return self.item(st, x, i)
        raise Unsupported('index of %r' % (x,))

    def i_indexaddr(self, st, env, ins):
        x = self.ev(ins['x'], env)
        i = self.w64(self.ev(ins['y'], env), ins['y'].get('t'))
        if isinstance(x, Ptr):
            self.nilcheck(st, x)
            t = self.t(self.t(ins['x']['t']).elem)
            self.bound(st, i, t.len)
            return Ptr(x.oid, x.path + (i,))
        n = self.slen(st, x)
        self.bound(st, i, n)
        if isinstance(x, ASlice):
            return Ptr(x.oid, x.path + (add(x.lo, i),))
        return Ptr(('elem', x.rope, i))

    def i_unop(self, st, env, ins):
        o = ins['o']
        x = self.ev(ins['x'], env)
        if o == '*':
            return self.load(st, x)
        if o == '!':
            return lnot(x)
        t = self.t(ins['t'])
        if o == '-':
            return sub(0, x, t.width)
        if o == '^':
            return mask(~x, t.width) if isinstance(x, int) else simp(~x)
        if o == '<-':
            h = self.hooks.get('recv')
            if h:
                return h(self, st, x, ins)
        raise Unsupported('unary ' + o)

    def i_store(self, st, env, ins):
        self.store(st, self.ev(ins['x'], env), self.ev(ins['v'], env))

    def i_binop(self, st, env, ins):
        o = ins['o']
        x, y = self.ev(ins['x'], env), self.ev(ins['y'], env)
        for q in (x, y):
            if isinstance(q, Dead):
                raise Unsupported('use of ' + q.why)
        xt = self.t(ins['x']['t'])
        if o in ('==', '!='):
            r = self.equal(st, x, y, xt)
            return r if o == '==' else lnot(r)
        if xt.isstr:
            if o == '+':
                return x + y
            if isinstance(x, Rope) and x.lit() is not None and y.lit() is not None:
                a, b = x.lit(), y.lit()
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[o]
            raise Unsupported('string ' + o)
        if xt.isfloat:
            raise Unsupported('float arithmetic')
        w, s = xt.width, xt.signed
        if o in ('<', '<=', '>', '>='):
            if o in ('>', '>='):
                x, y, o = y, x, {'>': '<', '>=': '<='}[o]
            if o == '<':
                return slt(x, y, w) if s else ult(x, y, w)
            return sle(x, y, w) if s else ule(x, y, w)
        if o in ('<<', '>>'):
            yt = self.t(ins['y']['t'])
            if yt.signed:
                self.must(st, sle(0, y, yt.width), 'negative shift amount')
            if isinstance(x, int) and isinstance(y, int):
                if o == '<<':
                    return mask(x << y, w) if y < w else 0
                return mask((sgn(x, w) if s else x) >> min(y, 64), w)
            xx = bv(x, w)
            if isinstance(y, int):
                yy = z3.BitVecVal(min(y, w), w)
            elif yt.width == w:
                yy = y
            elif yt.width < w:
                yy = z3.ZeroExt(w - yt.width, y)
            else:
                yy = z3.If(z3.ULT(y, z3.BitVecVal(w, yt.width)), z3.Extract(w - 1, 0, y), z3.BitVecVal(w, w))
            if o == '<<':
                return simp(xx << yy)
            return simp(xx >> yy if s else z3.LShR(xx, yy))
        if o == '+':
            return add(x, y, w)
        if o == '-':
            return sub(x, y, w)
        if o == '*':
            return mul(x, y, w)
        if o in ('/', '%'):
            self.must(st, lnot(eq(y, 0, w)), 'division by zero')
            if isinstance(x, int) and isinstance(y, int):
                a, b = (sgn(x, w), sgn(y, w)) if s else (x, y)
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return mask(q if o == '/' else a - q * b, w)
            xx, yy = bv(x, w), bv(y, w)
            if o == '/':
                return simp(xx / yy if s else z3.UDiv(xx, yy))
            return simp(z3.SRem(xx, yy) if s else z3.URem(xx, yy))
        if isinstance(x, bool) or (isz(x) and z3.is_bool(x)):
            return land(x, y) if o == '&' else lor(x, y)
        if isinstance(x, int) and isinstance(y, int):
            return mask({'&': x & y, '|': x | y, '^': x ^ y, '&^': x & ~y}[o], w)
        xx, yy = bv(x, w), bv(y, w)
        return simp({'&': lambda: xx & yy, '|': lambda: xx | yy, '^': lambda: xx ^ yy, '&^': lambda: xx & ~yy}[o]())

    def equal(self, st, x, y, t):
        if isinstance(x, Rope):
            return self.streq(st, x, y)
        if isinstance(x, (bool, int)) or isz(x):
            return eq(x, y, t.width or 64)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if y.oid is None:
                return x.nil
            if x.oid is None:
                return y.nil
            a, b = self.okey(self.norm(st, x.oid)), self.okey(self.norm(st, y.oid))
            if a == b and x.path == y.path:
                return simp(zb(x.nil) == zb(y.nil))
            if isinstance(a, int) and isinstance(b, int):
                return False
            if self.issym(x.oid) and self.issym(y.oid) and x.oid[1] == y.oid[1]:
                return land(*[eq(p, q) for p, q in zip(x.oid[2], y.oid[2])])
            if isinstance(a, int) != isinstance(b, int):
                return False
            raise Unsupported('pointer equality')
        if isinstance(x, Iface) or isinstance(y, Iface):
            if isinstance(x, Iface) and isinstance(y, Iface):
                if x.tid is None and y.tid is None:
                    return True
                if x.tid is None or y.tid is None:
                    z = x if y.tid is None else y
                    h = self.hooks.get('ifacenil')
                    if h:
                        return h(self, st, z)
                    return False
                if x.tid != y.tid:
                    return False
                return self.equal(st, x.val, y.val, self.t(x.tid) if isinstance(x.tid, int) else t)
            raise Unsupported('interface equality')
        if isinstance(x, (RSlice, ASlice, MapV, FuncV)):
            z = y if self.isnil(x) is True else x
            return self.isnil(z)
        if isinstance(x, RType) and isinstance(y, RType):
            return x.tid == y.tid
        if isinstance(x, StructV) and isinstance(y, StructV):
            r = True
            for a, b, f in zip(x.vals, y.vals, t.fields):
                r = land(r, self.equal(st, a, b, self.t(f['type'])))
            return r
        if isinstance(x, ArrV) and isinstance(y, ArrV):
            r = True
            for a, b in zip(x.vals, y.vals):
                r = land(r, self.equal(st, a, b, self.t(t.elem)))
            return r
        if isinstance(x, Op) and isinstance(y, Op) and repr(x) == repr(y):
            return True
        if isinstance(x, Op) or isinstance(y, Op):
            h = self.hooks.get('opeq')
            if h:
                return h(self, st, x, y)
        raise Unsupported('equality of %r and %r' % (type(x), type(y)))

    def i_convert(self, st, env, ins):
        x = self.ev(ins['x'], env)
        ft, tt = self.t(ins['x']['t']), self.t(ins['t'])
        return self.convert(st, x, ft, tt)

    def convert(self, st, x, ft, tt):
        if ft.isint and tt.isint:
            fw, tw = ft.width, tt.width
            if isinstance(x, int):
                return mask(sgn(x, fw) if ft.signed else x, tw)
            if tw == fw:
                return x
            if tw < fw:
                return simp(z3.Extract(tw - 1, 0, x))
            if tw == 64 and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EXTRACT and x.params() == [fw - 1, 0] and x.arg(0).size() == 64:
                y = x.arg(0)      # widening what was cut from a 64-bit value that fits
                if self.entails(st, land(sle(0, y), slt(y, 1 << (fw - 1 if ft.signed else fw)))):
                    return y
            return simp(z3.SignExt(tw - fw, x) if ft.signed else z3.ZeroExt(tw - fw, x))
        if tt.isstr and ft.isbytes:
            return self.force(st, self.srope(st, x))
        if tt.isbytes and ft.isstr:
            return RSlice(x, False)
        if tt.isstr and ft.isstr:
            return x
        if ft.kind == tt.kind and ft.kind != 'basic':
            return x
        raise Unsupported('conversion %s to %s' % (ft, tt))

    def i_makeslice(self, st, env, ins):
        n = self.w64(self.ev(ins['len'], env), ins['len'].get('t'))
        c = self.w64(self.ev(ins['cap'], env), ins['cap'].get('t'))
        t = self.t(ins['t'])
        self.must(st, land(sle(0, n), sle(n, c)), 'makeslice: len out of range')
        self.hook('makeslice', st, c, t)
        if isinstance(n, int) and n == 0:
            bk, tok = self.newoid(), self.newoid()
            st.tips[bk] = tok
            return RSlice(E_, False, bk, tok)
        if isinstance(n, int) and n <= 64 and not (t.isbytes and n > 16):
            oid = self.alloc(st, ArrV([self.zero(t.elem)] * n))
            st.g[('aelem', oid, ())] = t.elem
            return ASlice(oid, (), 0, n, c)
        if t.isbytes and isinstance(n, int):
            oid = self.alloc(st, RopeArr(Rope([L(bytes(n))])))
            st.g[('aelem', oid, ())] = t.elem
            return ASlice(oid, (), 0, n, c)
        iv = fresh_iv('z')
        oid = self.alloc(st, RopeArr(Rope([X(self.zero(t.elem), iv, 0, n)])))
        st.g[('aelem', oid, ())] = t.elem
        return ASlice(oid, (), 0, n, c)

    def hook(self, name, *a):
        h = self.hooks.get(name)
        if h:
            return h(self, *a)

    def i_slice(self, st, env, ins):
        x = self.ev(ins['x'], env)
        lo = self.w64(self.ev(ins['lo'], env), ins['lo'].get('t')) if ins['lo'] else 0
        hi = self.w64(self.ev(ins['hi'], env), ins['hi'].get('t')) if ins['hi'] else None
        if ins.get('max'):
            raise Unsupported('3-index slice')
        if isinstance(x, Ptr):
            self.nilcheck(st, x)
            t = self.t(self.t(ins['x']['t']).elem)
            n = t.len
            hi = n if hi is None else hi
            self.must(st, land(sle(0, lo), sle(lo, hi), sle(hi, n)), 'slice bounds out of range')
            if hi == 0 and not x.path and st.g.get(('mkslice', x.oid)):
                bk, tok = self.newoid(), self.newoid()
                st.tips[bk] = tok
                return RSlice(E_, False, bk, tok)
            st.g.setdefault(('aelem', self.okey(x.oid), x.path), t.elem)
            return ASlice(x.oid, x.path, lo, hi, n)
        if isinstance(x, ASlice):
            n = sub(x.hi, x.lo)
            hi = n if hi is None else hi
            cap = sub(x.cap, x.lo)
            self.must(st, land(sle(0, lo), sle(lo, hi), sle(hi, cap)), 'slice bounds out of range')
            return ASlice(x.oid, x.path, add(x.lo, lo), add(x.lo, hi), x.cap)
        r = self.srope(st, x)
        n = r.len()
        full = hi is None
        hi = n if hi is None else hi
        if isinstance(x, RSlice) and x.bk is not None and not self.entails(st, sle(hi, n)):
            raise Unsupported('reslice within capacity')
        if not full or not (isinstance(lo, int) and lo == 0):
            self.must(st, land(sle(0, lo), sle(lo, hi), sle(hi, n)), 'slice bounds out of range')
        w = self.window(r, lo, hi)
        if isinstance(x, Rope):
            return w
        tip = x.tok if (full or same(hi, n) or self.peq(st, hi, n)) else None
        bk = x.bk
        if bk is None and tip is None:
            bk = self.newoid()    # may share capacity with x: appends are not modelled
        return RSlice(w, x.nil, bk, tip)

    # maps -----------------------------------------------------------
    def i_makemap(self, st, env, ins):
        h = self.hooks.get('newmap')
        if h is not None:
            r = h(self, st, ins)
            if r is not None:
                return r
        return MapV(self.alloc(st, MapObj(), ins['t']))

    def mapobj(self, st, m):
        if isinstance(m, Dead):
            raise Unsupported('use of ' + m.why)
        if m.oid is None:
            return MapObj()
        if isinstance(m.oid, tuple) and m.oid[0] == 'm':
            self.access(st, m.oid[1], (m.oid[2],), False)
        v, k, _ = self.root(st, m.oid)
        return v

    def keyeq(self, st, a, b):
        if isinstance(a, Rope):
            return self.streq(st, a, b)
        if isinstance(a, Iface) or isinstance(a, StructV):
            raise Unsupported('map key')
        return eq(a, b)

    def ckey(self, k):
        if isinstance(k, int):
            return k
        if isinstance(k, Rope):
            return k.lit()
        return None

    def map_lookup(self, st, m, key, vt):
        """-> (value, present) with present a bool term; splits the path on aliasing keys"""
        mo = self.mapobj(st, m)
        if type(mo) is Op:
            return kmap.lookup(self, st, m, mo, key, vt)
        if st.foot is not None and m.oid is not None:
            st.foot.add(('r', self.okey(m.oid), self.ckey(key)))
        if mo.base is None and not mo.acc.segs and len(mo.ups) > 4 and self.ckey(key) is None:
            h = self.hooks.get('lazymap')
            if h is not None:
                r = h(self, st, m, mo, key, vt)
                if r is not None:
                    return r
        if mo.acc.segs:
            h = self.hooks.get('accmap')
            r = h(self, st, m, mo, key, vt) if h is not None else None
            if r is not None:
                return r
            raise Unsupported('lookup in a map built by a loop')
        for k, v in reversed(mo.ups):
            if self.decide(st, self.keyeq(st, key, k)):
                if v is DEL:
                    return self.zero(vt), False
                return v, True
        if mo.base is None:
            return self.zero(vt), False
        return self.sym_lookup(st, m, mo.base, key, vt)

    def sym_lookup(self, st, m, base, key, vt):
        return maps.lookup(self, st, m, base, key, vt)

    def i_lookup(self, st, env, ins):
        m = self.ev(ins['x'], env)
        key = self.ev(ins['y'], env)
        if isinstance(m, Rope):
            i = self.w64(key, ins['y'].get('t'))
            self.bound(st, i, m.len())
            return self.item(st, m, i)
        mt = self.t(ins['x']['t'])
        if isinstance(m, MapV) and m.nil is not False and m.oid is None:
            v, ok = self.zero(mt.elem), False
        else:
            v, ok = self.map_lookup(st, m, key, mt.elem)
        return Tup([v, ok]) if ins.get('commaok') else v

    def i_mapupdate(self, st, env, ins):
        self.map_update(st, self.ev(ins['m'], env), self.ev(ins['k'], env), self.ev(ins['v'], env))

    def map_update(self, st, m, key, val):
        if m.oid is None:
            self.must(st, False, 'assignment to entry in nil map')
        if isinstance(m.oid, tuple) and m.oid[0] == 'm':
            self.access(st, m.oid[1], (m.oid[2],), True)
        mo, k, _ = self.root(st, m.oid)
        if type(mo) is Op:
            return kmap.update(self, st, m, mo, key, val)
        ups = mo.ups
        ck = self.ckey(key)
        if mo.acc.segs:
            st.heap[k] = MapObj(mo.base, ups, mo.acc + Rope([V(Tup([key, val]))]))
            if st.writes is not None:
                st.writes.add(k)
            return
        if ck is not None:
            ups = tuple(u for u in ups if self.ckey(u[0]) != ck)
        if val is DEL and mo.base is None and ck is not None and all(self.ckey(u[0]) is not None for u in ups):
            st.heap[k] = MapObj(None, ups)
        else:
            st.heap[k] = MapObj(mo.base, ups + ((key, val),))
        if st.writes is not None:
            st.writes.add(k)
        if st.foot is not None:
            st.foot.add(('w', k, ck))

    def i_range(self, st, env, ins):
        x = self.ev(ins['x'], env)
        if isinstance(x, Rope):
            l = x.lit()
            if l is None:
                raise Unsupported('range over symbolic string')
            return Iter(self.alloc(st, Op('StrIter', (l, 0))))
        if isinstance(x, MapV) and x.oid is not None and type(self.mapobj(st, x)) is Op:
            kmap.begin_range(self, st, x)
        return Iter(self.alloc(st, Op('MapIter', (x, 0) + tuple(st.idx))))

    def i_next(self, st, env, ins):
        it = self.ev(ins['x'], env)
        o = st.heap[it.oid]
        tt = self.t(ins['t'])
        if o.kind == 'StrIter':
            l, pos = o.args
            if pos >= len(l):
                return Tup([False, 0, 0])
            ch = l[pos]
            if ch >= 0x80:
                raise Unsupported('utf-8 range')
            self.setobj(st, it.oid, Op('StrIter', (l, pos + 1)))
            return Tup([True, pos, ch])
        m, pos = o.args[:2]
        mo = self.mapobj(st, m)
        if type(mo) is Op:
            return kmap.nxt(self, st, it, o, m, mo, pos, tt)
        if mo.acc.segs:
            h = self.hooks.get('accrange')
            if h is not None:
                return h(self, st, it, o, m, mo, pos, tt)
            raise Unsupported('range over a map built by a loop')
        if mo.base is None and (isinstance(pos, int) or not isinstance(pos, int) and st.g.get(('enum', it.oid)) is None):
            order = st.g.get(('order', it.oid)) or range(len(mo.ups))
            if not isinstance(pos, int):
                raise Unsupported('map position')
            if pos >= len(mo.ups):
                return Tup([False, self.zero(tt.elems[1]) if tt.elems[1] is not None and self.t(tt.elems[1]).kind != 'invalid' else None, None])
            k, v = mo.ups[list(order)[pos]]
            self.setobj(st, it.oid, Op('MapIter', (m, pos + 1) + o.args[2:]))
            return Tup([True, k, v])
        return self.sym_next(st, it, o, m, mo, pos, tt)

    def sym_next(self, st, it, o, m, mo, pos, tt):
        return maps.nxt(self, st, it, o, m, mo, pos, tt)

    def i_makeclosure(self, st, env, ins):
        return FuncV(ins['fn']['n'], [self.ev(b, env) for b in ins['binds']])

    def i_typeassert(self, st, env, ins):
        x = self.ev(ins['x'], env)
        at = ins['at']
        t = self.t(at)
        if isinstance(x, Iface) and x.tid == 'opq':
            raise Unsupported('type assertion on unknown value')
        if t.kind == 'iface':
            ok = x.tid is not None
            if ok and isinstance(x.tid, int) and t.methods and not isinstance(x.val, (Op, RType)):
                ms = self.p.methods.get(x.tid, {})
                ok = all(m in ms for m in t.methods)
            val = x
        else:
            ok = self.typeis(st, x, at)
            val = x.val if ok else self.zero(at)
            if ok and isinstance(val, Op) and self.hooks.get('opval'):
                val = self.hooks['opval'](self, val, t)
        if ins.get('commaok'):
            return Tup([val if ok else self.zero(at), ok])
        self.must(st, ok, 'type assertion')
        return val

    def typeis(self, st, x, at):
        if x.tid == 'op':
            h = self.hooks.get('optype')
            if h:
                return h(self, x.val, self.t(at))
            return False
        return x.tid == at

    def i_go(self, st, env, ins):
        args = [self.ev(a, env) for a in ins['args']]
        fv = self.ev(ins['fn'], env) if 'fn' in ins else self.ev(ins['recv'], env)
        st.trace = st.trace + Rope([V(Ev('go', fv, tuple(args)))])

    def i_select(self, st, env, ins):
        h = self.hooks.get('select')
        if h is None:
            raise Unsupported('select')
        return h(self, st, [self.ev(s['chan'], env) for s in ins['states']], ins)

    def i_makechan(self, st, env, ins):
        return Op('chan', (self.newoid(),))

    # builtins ---------------------------------------------------------
    def builtin(self, st, n, args, ins):
        if n == 'len':
            x = args[0]
            if isinstance(x, MapV):
                return self.map_len(st, x)
            if isinstance(x, ArrV):
                return len(x.vals)
            return self.slen(st, x)
        if n == 'cap':
            x = args[0]
            if isinstance(x, ASlice):
                return sub(x.cap, x.lo)
            raise Unsupported('cap')
        if n == 'append':
            s = args[0]
            if len(args) == 1:
                return s
            t = args[1]
            return self.append(st, s, self.srope(st, t))
        if n == 'copy':
            d, s = args
            if isinstance(d, ASlice):
                src = self.srope(st, s)
                nd, ns = self.slen(st, d), src.len()
                k = nd if self.decide(st, sle(nd, ns)) else ns
                arr = self.load(st, Ptr(d.oid, d.path))
                if isinstance(arr, ArrV) and isinstance(k, int):
                    for j in range(k):
                        self.store(st, Ptr(d.oid, d.path + (d.lo + j,)), self.item(st, src, j))
                    return k
                if isinstance(arr, RopeArr):
                    a, b = self.cut(st, arr.rope, d.lo)
                    _, c = self.cut(st, b, k)
                    x = self.take(st, src, 0, k)
                    self.store(st, Ptr(d.oid, d.path), RopeArr(a + x + c))
                    return k
            raise Unsupported('copy')
        if n == 'delete':
            if args[0].oid is not None:
                self.map_update(st, args[0], args[1], DEL)
            return None
        if n in ('min', 'max'):
            t = self.t(ins['t'])
            r = args[0]
            for a in args[1:]:
                c = slt(r, a, t.width) if t.signed else ult(r, a, t.width)
                r = ite(c, r, a, t.width) if n == 'min' else ite(c, a, r, t.width)
            return r
        if n == 'close':
            st.trace = st.trace + Rope([V(Ev('close', args[0]))])
            return None
        if n == 'ssa:wrapnilchk':
            self.nilcheck(st, args[0])
            return args[0]
        raise Unsupported('builtin ' + n)

    def map_len(self, st, m):
        if m.oid is None:
            return 0
        mo = self.mapobj(st, m)
        if type(mo) is Op:
            return kmap.mlen(self, st, m, mo)
        if mo.base is None and not mo.acc.segs and all(self.ckey(k) is not None for k, v in mo.ups):
            return len(mo.ups)
        return self.sym_maplen(st, m, mo)

    def sym_maplen(self, st, m, mo):
        return maps.mlen(self, st, m, mo)


_risky = {'call', 'lookup', 'mapupdate', 'next', 'unop', 'store', 'slice', 'index', 'indexaddr', 'convert', 'makeslice',
          'typeassert', 'select', 'binop', 'fieldaddr', 'range', 'go'}
_pins = []


def segsame(a, b):
    """the same sequence, by construction"""
    if a is b:
        return True
    if type(a) != type(b):
        return False
    if isz(a):
        return a.eq(b)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(segsame(x, y) for x, y in zip(a, b))
    if isinstance(a, F):
        return segsame(a.n, b.n) and getattr(a.pl, 'name', 0) == getattr(b.pl, 'name', 1) and a.pl.name.startswith('pl!acc') and segsame(a.pl.args, b.pl.args)
    if isinstance(a, Rope):
        return segsame(a.segs, b.segs)
    if a is None or isinstance(a, (bool, int, str, bytes)):
        return a == b
    sl = getattr(type(a), '__slots__', None)
    return bool(sl) and all(segsame(getattr(a, s, None), getattr(b, s, None)) for s in sl)


def _pin(o):
    _pins.append(o)
    return 0


from . import maps, kmap               # noqa: E402
from .loops import run_loop            # noqa: E402
Engine.run_loop = run_loop
