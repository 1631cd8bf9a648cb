"""Loops: unroll when the bound is concrete, otherwise infer an inductive summary.

The state at the start of iteration i is described slot by slot (header phis, written
heap objects, trace).  A description is a guess that is weakened until one generic
iteration preserves it; only what has been shown inductive is used."""
import time
from .terms import *
from .values import *
from . import solver

MAXC = 600


def run_loop(self, f, L, prev, env, defers, st):
    key = (f.name, L.header)
    if shifty(self, f, L):
        try:
            return unroll(self, f, L, prev, env, defers, st.copy(), self.max_unroll)
        except NotDone:
            pass
    out, work = [], [(st, env, defers, prev, 0)]
    while work:
        st, env, defers, prev, k = work.pop()
        c = header_cond(self, f, L, prev, env, st)
        if c is None:
            h = self.hooks.get('loop')
            r = h(self, f, L, prev, env, defers, st) if h else None
            if r is not None:
                out.extend(r)
                continue
            out.extend(symbolic(self, f, L, prev, env, defers, st))
            continue
        self.loopstats['concrete'] += 1
        if k > MAXC:
            raise Unsupported('loop runs too long')
        e2 = dict(env)
        self.phis(f.blocks[L.header], L.header, prev, e2)
        for o in self.region(f, L.header, prev, e2, defers, st, L, True):
            if o[0] == 'back':
                work.append((o[1], o[2], o[3], o[4], k + 1))
            else:
                out.append(o)
        if len(work) > 400:
            raise Unsupported('too many paths in a loop')
    return out


class NotDone(Exception):
    pass


class Overflow(Exception):
    pass


def shifty(self, f, L):
    c = getattr(L, '_shifty', None)
    if c is None:
        c = False
        phis = {i['r'] for i in f.blocks[L.header]['i'] if i['op'] == 'phi'}
        calls = False
        for b in L.body:
            for i in f.blocks[b]['i']:
                if i['op'] == 'binop' and i['o'] in ('<<', '>>'):
                    for q in (i['x'], i['y']):
                        if q.get('k') == 'reg':
                            c = True
                if i['op'] == 'binop' and i['o'] in ('/', '%', '*', '|') and i['x'].get('n') in phis:
                    c = True
        L._shifty = c
    return c


def header_cond(self, f, L, prev, env, st):
    """the loop condition as a Python bool if it is already decided"""
    blk = f.blocks[L.header]
    last = blk['i'][-1]
    if last['op'] != 'if' or all(s in L.body for s in blk['succs']):
        return None
    s, e = st.copy(), dict(env)
    self.quiet += 1
    save = self.curpos
    proofs = self.byproof
    try:
        self.phis(blk, L.header, prev, e)
        for ins in blk['i'][:-1]:
            op = ins['op']
            if op == 'phi':
                continue
            if op == 'call':
                fv = self.ev(ins.get('fn'), e) if 'fn' in ins else None
                if not (isinstance(fv, FuncV) and fv.name and (fv.name.startswith('builtin:') or fv.name in self.natives)):
                    if 'invoke' not in ins:
                        return None
                res = self.instr_call(s, e, ins)
                if len(res) != 1 or res[0][0] != 'ret':
                    return None
                e[ins['r']] = res[0][2]
                s = res[0][1]
                continue
            v = self.step(s, e, ins, op)
            if 'r' in ins:
                e[ins['r']] = v
        c = self.ev(last['x'], e)
        if c is True and self.byproof > proofs:
            return None                # another iteration follows, but their number is not a constant
        return c if isinstance(c, bool) else None
    except Exception as x:
        if type(x).__name__ in ('Split', 'Unsupported', 'Infeasible', 'GoPanic', 'KeyError'):
            return None
        raise
    finally:
        self.quiet -= 1
        self.curpos = save


def symbolic(self, f, L, prev, env, defers, st):
    snap = (st.copy(), dict(env))
    nobl = len(self.obls)
    try:
        r = summarise(self, f, L, prev, env, defers, st)
        self.loopstats['summarised'] += 1
        return r
    except Unsupported as u:
        del self.obls[nobl:]
        if 'budget' in str(u):
            raise
        try:
            self.loopstats['unrolled'] += 1
            if getattr(self, 'debug', False):
                print('   [unroll %s#%d: %s]' % (f.name, L.header, u))
            return unroll(self, f, L, prev, snap[1], defers, snap[0], self.max_unroll)
        except NotDone:
            raise Unsupported('loop %s at %s: %s' % (f.name, looppos(f, L), u))


def looppos(f, L):
    for i in f.blocks[L.header]['i']:
        if i.get('pos'):
            return i['pos']
    for b in sorted(L.body):
        for i in f.blocks[b]['i']:
            if i.get('pos'):
                return i['pos']
    return ''


def unroll(self, f, L, prev, env, defers, st, limit):
    out, work = [], [(st, env, defers, prev, 0)]
    nobl = len(self.obls)
    while work:
        st, env, defers, prev, k = work.pop()
        if k > limit:
            if self.feasible(st):
                del self.obls[nobl:]
                raise NotDone()
            continue
        e2 = dict(env)
        self.phis(f.blocks[L.header], L.header, prev, e2)
        for o in self.region(f, L.header, prev, e2, defers, st, L, True):
            if o[0] == 'back':
                work.append((o[1], o[2], o[3], o[4], k + 1))
            else:
                out.append(o)
        if len(out) + len(work) > 300:
            del self.obls[nobl:]
            raise NotDone()
    return out


# ------------------------------------------------------------------ equality of values
def vsame(self, st, a, b):
    """provably the same value"""
    if a is b:
        return True
    if isz(a) or isz(b):
        if isinstance(a, (Seg, Rope)) or isinstance(b, (Seg, Rope)) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return False
        if isz(a) and isz(b):
            if a.eq(b):
                return True
            if a.sort() != b.sort():
                return False
        elif isz(a) and not isinstance(b, (bool, int)) or isz(b) and not isinstance(a, (bool, int)):
            return False
        c = eq(a, b) if not (isz(a) and a.sort() == Str) else simp(a == b)
        return self.entails(st, c)
    if type(a) != type(b):
        return False
    if a is None or isinstance(a, (bool, int, str, float, bytes)):
        return a == b
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(vsame(self, st, x, y) for x, y in zip(a, b))
    if isinstance(a, Rope):
        if len(a.segs) != len(b.segs):
            return False
        return all(vsame(self, st, x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, F):
        j = fresh_iv()
        return vsame(self, st, a.n, b.n) and vsame(self, st, vsubst(a.body, [(a.iv, j)]), vsubst(b.body, [(b.iv, j)]))
    if isinstance(a, X):
        j = fresh_iv()
        return vsame(self, st, a.off, b.off) and vsame(self, st, a.len, b.len) and vsame(self, st, vsubst(a.tmpl, [(a.iv, j)]), vsubst(b.tmpl, [(b.iv, j)]))
    if isinstance(a, RSlice):
        return vsame(self, st, a.rope, b.rope) and vsame(self, st, a.nil, b.nil) and a.bk == b.bk and a.tok == b.tok
    sl = getattr(type(a), '__slots__', None)
    if sl is None:
        return a == b
    return all(vsame(self, st, getattr(a, s, None), getattr(b, s, None)) for s in sl if s != 'pl')


def rsame(self, st, a, b):
    """slices with the same content (identity of the backing array aside)"""
    if isinstance(a, RSlice) and isinstance(b, RSlice):
        return vsame(self, st, a.rope, b.rope) and vsame(self, st, a.nil, b.nil)
    return vsame(self, st, a, b)


# ------------------------------------------------------------------ descriptions
class D_:
    pass


class Const(D_):
    def __init__(self, v):
        self.v = v

    def at(self, S, i):
        return self.v

    def __repr__(self):
        return 'const'


class Lin(D_):
    def __init__(self, init, c, w):
        self.init, self.c, self.w = init, c, w

    def at(self, S, i):
        ii = i if self.w == 64 else (mask(i, self.w) if isinstance(i, int) else simp(z3.Extract(self.w - 1, 0, i)))
        return add(self.init, mul(ii, self.c, self.w), self.w)

    def __repr__(self):
        return 'lin(%s)' % self.c


class Pos(D_):
    """start of item i of a fold in the input"""
    def __init__(self, init, pl):
        self.init, self.pl = init, pl

    def at(self, S, i):
        return add(self.init, self.pl(i))

    def __repr__(self):
        return 'pos'


class Rec(D_):
    """value given by a recurrence; bounds are inductive candidates"""
    def __init__(self, S, init, sort, cands=()):
        self.init, self.sort = init, sort
        self.name = 'rec!%d' % next(S.E.ctr2)
        self.cands = list(cands)
        self.step = None

    def term(self, S, t):
        outer = [bv(x, 64) for x in S.outer]
        fn = z3.Function(self.name, *([bvsort(64)] * (len(outer) + 1)), self.sort)
        return fn(*outer, bv(t, 64))

    def at(self, S, i):
        v = self.term(S, i)
        return ratom(v) if self.sort == Str else v

    def facts(self, S, i):
        v = self.term(S, i)
        return [c[1](v, i) for c in self.cands]

    def __repr__(self):
        return 'rec%s' % [c[0] for c in self.cands]


class Acc(D_):
    """append-only list; kind: 'rope' or 'slice'"""
    def __init__(self, S, init, slice_, slot):
        self.init, self.slice, self.slot = init, slice_, slot
        self.id = 'acc!%d' % next(S.E.ctr2)
        self.per = None
        self.pl = PLF('pl!' + self.id, S.outer)
        S.accs.append(self)
        # until its elements are known the lengths of the list are some growing sequence
        nm = 'plstep!' + self.id
        solver.prefix[self.pl.name] = (lambda args, t: z3.Function(nm, *([bvsort(64)] * (len(args) + 2)))(*[bv(x, 64) for x in tuple(args) + (t,)]), True)
        if slice_:
            self.bk = 'b%d' % next(S.E.ctr2)
            self.tok = 'k%d' % next(S.E.ctr2)

    def mlen(self, i):
        return mul(i, self.per) if self.per is not None else self.pl(i)

    def rope(self, i):
        base = self.init.rope if self.slice else self.init
        return base + Rope([M(self.id, self.mlen(i))])

    def at(self, S, i):
        r = self.rope(i)
        if not self.slice:
            return r
        S.tips[self.bk] = self.tok
        nil = self.init.nil
        if nil is not False:
            nil = land(nil, eq(self.mlen(i), 0))
        return RSlice(r, nil, self.bk, self.tok)

    def __repr__(self):
        return 'acc(%s)' % self.per


class Fill(D_):
    """array filled one element per iteration"""
    def __init__(self, S, init):
        self.init = init
        self.id = 'fill!%d' % next(S.E.ctr2)
        self.x = init.rope.segs[0]

    def at(self, S, i):
        x = self.x
        return RopeArr(Rope([M(self.id, i), X(x.tmpl, x.iv, add(x.off, i), sub(x.len, i))]))

    def __repr__(self):
        return 'fill'


class Comp(D_):
    def __init__(self, mk, subs):
        self.mk, self.subs = mk, subs

    def at(self, S, i):
        return self.mk([d.at(S, i) for d in self.subs])

    def __repr__(self):
        return 'comp%s' % self.subs


class Gone(D_):
    def __init__(self, why):
        self.why = why

    def at(self, S, i):
        return Dead(self.why)

    def __repr__(self):
        return 'gone(%s)' % self.why


def parts(v):
    """(constructor, sub-values, shape) for composite values"""
    t = type(v)
    if t is StructV:
        return (lambda xs, tid=v.tid: StructV(xs, tid)), list(v.vals), ('S', v.tid, len(v.vals))
    if t is ArrV:
        return (lambda xs: ArrV(xs)), list(v.vals), ('A', len(v.vals))
    if t is Tup:
        return (lambda xs: Tup(xs)), list(v.vals), ('T', len(v.vals))
    if t is Iface and v.tid is not None:
        return (lambda xs, tid=v.tid: Iface(tid, xs[0])), [v.val], ('I', v.tid)
    if t is Op:
        return (lambda xs, k=v.kind: Op(k, xs)), list(v.args), ('O', v.kind, len(v.args))
    if t is RVal:
        return (lambda xs, tid=v.tid, ro=v.ro: RVal(tid, xs[0], xs[1], ro)), [v.val, v.addr], ('R', v.tid)
    if t is MapObj:
        return (lambda xs, b=v.base, u=v.ups: MapObj(b, u, xs[0])), [v.acc], ('MO', id(v.base), len(v.ups))
    if t is ASlice:
        return (lambda xs, o=v.oid, p=v.path: ASlice(o, p, xs[0], xs[1], xs[2])), [v.lo, v.hi, v.cap], ('AS', str(v.oid), str(v.path))
    if t is Ptr and v.oid is not None and isinstance(v.oid, tuple) and v.oid[0] == 'elem' and not v.path:
        return None
    return None


def isterm(v):
    return isinstance(v, (bool, int)) or isz(v)


def sortof(a, b):
    for x in (a, b):
        if isz(x):
            return x.sort()
    if isinstance(a, bool):
        return z3.BoolSort()
    return bvsort(64)


class Summary:
    def __init__(self, E, f, L, st):
        self.E, self.f, self.L = E, f, L
        self.outer = st.idx
        self.tips = {}
        self.killed = set()
        self.bc = None
        self.slots = {}
        self.widths = {}
        self.accs = []
        self.cur = None

    # ---- weakening
    def weaken(self, d, new, st, i, slot):
        """a description that covers both d and the next value new; None if d already does"""
        E = self.E
        t = type(d)
        if t is Const:
            if rsame(E, st, d.v, new) and not (isinstance(new, RSlice) and isinstance(d.v, RSlice) and new.bk != d.v.bk and False):
                return None
            return self.start(d.v, new, st, i, slot)
        if t is Lin:
            nx = d.at(self, add(i, 1))
            if isterm(new) and E.entails(st, eq(nx, new, d.w)):
                return None
            h = E.hooks.get('prefix')
            h = h(E, st, d.init, d, i) if h else None
            if h is not None and d.w == 64:
                return Pos(d.init, h)
            return self.recurse(d.init, new, st, i, slot)
        if t is Pos:
            nx = d.at(self, add(i, 1))
            if isterm(new) and E.entails(st, eq(nx, new)):
                return None
            return self.recurse(d.init, new, st, i, slot)
        if t is Rec:
            if not (isterm(new) or isz(new)):
                if isinstance(new, Rope) and d.sort == Str:
                    try:
                        E.strterm(st, new)
                        return None
                    except Unsupported:
                        return Gone('a loop variable (%s)' % (slot,))
                return Gone('a loop variable (%s)' % (slot,))
            ok = []
            for c in d.cands:
                q = c[1](bvl(new, d.sort), add(i, 1))
                if E.entails(st, q):
                    ok.append(c)
            if len(ok) < len(d.cands):
                d.cands = ok
                return d
            return None
        if t is Acc:
            tail = self.tail(d, new, st, i)
            if tail is None:
                if getattr(E, 'debug', False) == 2:
                    print('   [list %s: %r -> %r bk %s tok %s tip %s]' % (slot, d.rope(i), new, getattr(new, 'bk', None), getattr(new, 'tok', None), st.tips.get(getattr(new, 'bk', None))))
                return Gone('a list that is not only appended to (%s)' % (slot,))
            n = tail.len()
            if isinstance(n, int) and not any(isinstance(s, C) for s in tail.segs):
                if getattr(d, 'seen', None) is None:
                    d.seen = n
                    if d.per is None and not getattr(d, 'var', False):
                        d.per = n
                        return d
            if d.per is not None and not (isinstance(n, int) and n == d.per):
                d.per = None
                d.var = True
                return d
            return None
        if t is Fill:
            if isinstance(new, RopeArr):
                s = new.rope.segs
                nx = self.x_next(d, i)
                if len(s) >= 2 and isinstance(s[0], M) and s[0].id == d.id and isinstance(s[1], V):
                    if len(s) == 3 and vsame(E, st, s[2], nx) or len(s) == 2 and E.entails(st, eq(nx.len, 0)):
                        return None
            return Gone('an array that is not filled in order (%s)' % (slot,))
        if t is Comp:
            p = parts(new)
            q = parts(d.at(self, i))
            if p is None or q is None or p[2] != q[2]:
                return Gone('a loop variable that changes shape (%s)' % (slot,))
            ch = False
            # flags and counters first: lists are judged by what is known about them
            for k, (sd, sv) in sorted(enumerate(zip(d.subs, p[1])), key=lambda x: not isterm(x[1][1])):
                if ch and not isterm(sv):
                    return d
                w = self.weaken(sd, sv, st, i, slot + '.%d' % k)
                if w is not None:
                    d.subs[k] = w
                    ch = True
            return d if ch else None
        if t is Gone:
            return None
        raise Unsupported('description ' + repr(d))

    def x_next(self, d, i):
        x = d.x
        i1 = add(i, 1)
        return X(x.tmpl, x.iv, add(x.off, i1), sub(x.len, i1))

    def tail(self, d, new, st, i):
        """what was appended to d's list, or None"""
        E = self.E
        if d.slice:
            if isinstance(new, ASlice):
                return None
            if not isinstance(new, RSlice):
                return None
            if new.bk is None or new.tok is None or st.tips.get(new.bk) != new.tok:
                return None
            r = new.rope
        else:
            if not isinstance(new, Rope):
                return None
            r = new
        base = d.rope(i).segs
        if not has_marker(r) and has_marker(d.rope(i)) and E.entails(st, eq(d.rope(i).len(), 0)):
            return r           # nothing so far, and a new list
        if len(r.segs) < len(base):
            # literal merging at the seam
            return None
        for k, (a, b) in enumerate(zip(base, r.segs)):
            if a is b:
                continue
            if isinstance(a, M) and isinstance(b, M) and a.id == b.id:
                continue
            if not vsame(E, st, a, b):
                return None
        tail = Rope(r.segs[len(base):])
        if has_marker(tail):
            return None
        return tail

    def start(self, init, new, st, i, slot):
        E = self.E
        if isterm(init) and isterm(new):
            so = sortof(init, new)
            if so == Str:
                return Rec(self, init, Str)
            if z3.is_bool(zb(init)) if isinstance(init, bool) else (isz(init) and z3.is_bool(init)):
                return self.recurse(init, new, st, i, slot)
            w = self.widths.get(slot) or (so.size() if isz(init) or isz(new) else 64)
            h = self.position(init, st)
            if h is not None:
                return Pos(init, h)
            d = sub(new, init, w)
            if isinstance(d, int) or not self.local(d, i):
                return Lin(init, d, w)
            h = self.E.hooks.get('prefix')
            h = h(self.E, st, init, d, i) if h else None
            if h is not None:
                return Pos(init, h)
            return self.recurse(init, new, st, i, slot)
        if isinstance(init, Rope) and isinstance(new, Rope):
            if self.prefixed(init, new, st):
                return Acc(self, init, False, slot)
            try:
                a, b = E.strterm(st, init), E.strterm(st, new)
                return Rec(self, a, Str)
            except Unsupported:
                return Gone('a byte sequence (%s)' % slot)
        if isinstance(init, ASlice) and isinstance(new, RSlice) and same(init.hi, init.cap):
            init = RSlice(E.srope(self.entry, init), False)
        if isinstance(init, RSlice) and isinstance(new, RSlice):
            own = init.bk is None or init.tok is not None and self.entry.tips.get(init.bk) == init.tok
            if own and self.prefixed(init.rope, new.rope, st):
                return Acc(self, init, True, slot)
            return Gone('a slice variable (%s)' % slot)
        if isinstance(init, RopeArr) and isinstance(new, RopeArr):
            s = init.rope.segs
            if len(s) == 1 and isinstance(s[0], X):
                return Fill(self, init)
            return Gone('an array (%s)' % slot)
        if isinstance(init, MapObj) and isinstance(new, MapObj) and init.base is new.base and not init.acc.segs and not new.acc.segs \
                and len(new.ups) >= len(init.ups) and all(a is b for a, b in zip(init.ups, new.ups)):
            new = MapObj(init.base, init.ups, Rope([V(Tup([k, v])) for k, v in new.ups[len(init.ups):]]))
        p, q = parts(init), parts(new)
        if p is not None and q is not None and p[2] == q[2]:
            subs = [None] * len(p[1])
            for k, (a, b) in sorted(enumerate(zip(p[1], q[1])), key=lambda x: isterm(x[1][1])):
                subs[k] = self.weaken(Const(a), b, st, i, slot + '.%d' % k) or Const(a)
            return Comp(p[0], subs)
        return Gone('a loop variable (%s)' % slot)

    def prefixed(self, a, b, st):
        if not has_marker(b) and has_marker(a) and self.E.entails(st, eq(a.len(), 0)):
            return True
        if len(b.segs) < len(a.segs):
            return False
        for k, (x, y) in enumerate(zip(a.segs, b.segs)):
            if x is y:
                continue
            if isinstance(x, L) and isinstance(y, L) and k == len(a.segs) - 1 and y.b.startswith(x.b):
                continue
            if not vsame(self.E, st, x, y):
                return False
        return True

    def local(self, d, i):
        """depends on the iteration"""
        if not isz(d):
            return False
        ids = {bv(i, 64).get_id()}
        for a in apps(d):
            if a.get_id() in ids:
                return True
            n = a.decl().name()
            if n.startswith('rec!') or n.startswith('pl!'):
                return True
            if '!' in n and n.rsplit('!', 1)[1].isdigit() and int(n.rsplit('!', 1)[1]) > self.mark:
                return True
        return False

    def position(self, init, st):
        h = self.E.hooks.get('position')
        return h(self.E, st, init) if h else None

    def recurse(self, init, new, st, i, slot):
        so = sortof(init, new)
        if isinstance(init, int) and not isinstance(init, bool):
            w = self.widths.get(slot) or (so.size() if isz(new) else 64)
            so = bvsort(w)
        r = Rec(self, init, so)
        if z3.is_bv_sort(so):
            w = so.size()
            c = [('>=init', lambda v, t, a=init, w=w: sle(a, v, w))]
            if w == 64:
                c.append(('<=init+i', lambda v, t, a=init: sle(v, add(a, t))))
                c.append(('<=i', lambda v, t: sle(v, t)))
                for nm, b in self.bounds(st):
                    c.append(('<=' + nm, lambda v, t, b=b: sle(v, b)))
            c.append(('>=0', lambda v, t, w=w: sle(0, v, w)))
            # base case
            ok = []
            for q in c:
                if self.E.entails(self.entry, q[1](init, 0)):
                    ok.append(q)
            r.cands = ok
        if so == z3.BoolSort():
            # a flag that says whether a list has elements
            c = []
            for a in self.accs:
                ln = lambda t, a=a: self.acclen(a, t)
                c.append(('<=len', lambda v, t, ln=ln: implies(slt(0, ln(t)), v)))
                c.append(('=>len', lambda v, t, ln=ln: implies(v, slt(0, ln(t)))))
            r.cands = [q for q in c if self.E.entails(self.entry, q[1](init, 0))]
        return r

    def acclen(self, a, t):
        """length of an accumulated list at the start of iteration t; at the end of the iteration under analysis"""
        if isinstance(t, int) and t == 0:
            return (a.init.rope if a.slice else a.init).len()
        if self.cur is not None:
            for s in sorted(self.cur, key=len, reverse=True):
                if a.slot == s or a.slot.startswith(s + '.'):
                    v = self.cur[s]
                    for k in a.slot[len(s) + 1:].split('.') if a.slot != s else ():
                        p = parts(v)
                        if p is None:
                            return bv(-1, 64)
                        v = p[1][int(k)]
                    return (v.rope if isinstance(v, RSlice) else v).len() if isinstance(v, (RSlice, Rope)) else bv(-1, 64)
        return add((a.init.rope if a.slice else a.init).len(), a.mlen(t))

    def bounds(self, st):
        h = self.E.hooks.get('bounds')
        out = list(h(self.E, self.entry)) if h else []
        return out


def bvl(v, so):
    return v


def has_marker(v):
    found = []

    def fs(s, r):
        if isinstance(s, M):
            found.append(s)
        return None
    vmap(v, lambda e: e, fs)
    return bool(found)


def summarise(self, f, L, prev, env0, defers, st0):
    if not self.feasible(st0):
        return []
    S = Summary(self, f, L, st0)
    S.mark = next(self.ctr)
    S.entry = st0
    blk = f.blocks[L.header]
    env = dict(env0)
    self.phis(blk, L.header, prev, env)
    phis = [ins for ins in blk['i'] if ins['op'] == 'phi']
    for ins in phis:
        s = 'phi ' + ins['r']
        S.slots[s] = Const(env[ins['r']])
        t = self.t(ins['t'])
        if t.kind == 'basic' and t.width:
            S.widths[s] = t.width
    S.slots['trace'] = Const(st0.trace)
    outer_writes = st0.writes
    i = self.fresh(st0, 'i', bvsort(64))
    known = set(st0.heap)
    S.base = self.ctr.n
    settled = False
    for rnd in range(14):
        outs, back, stable = round_(self, S, f, L, prev, env, defers, st0, i, phis, known, quiet=not settled)
        if stable and (settled or self.quiet):
            break
        settled = stable
    else:
        raise Unsupported('no stable description of the loop')
    return finish(self, S, f, L, st0, outs, back, i, known, outer_writes)


def start_state(self, S, st0, env, i, phis):
    st = st0.copy()
    e = dict(env)
    S.tips = {}
    for s, d in S.slots.items():
        v = d.at(S, i)
        if s == 'trace':
            st.trace = v
        elif s.startswith('phi '):
            e[s[4:]] = v
        else:
            st.heap[S.hkeys[s]] = v
    st.tips.update(S.tips)
    for b in S.killed:
        st.tips.pop(b, None)
    st.idx = st0.idx + (i,)
    st.writes = set()
    st.assume(sle(0, i))
    st.assume(sle(i, LIM))
    self.hook('loopstart', st, st0)
    npc = len(st.pc)
    for s, d in leaves(S):
        if isinstance(d, Rec):
            for q in d.facts(S, i):
                st.assume(q)
    if S.bc is not None:
        st.univ = st.univ + (S.bc(i),)
    return st, e, npc


def leaves(S):
    out = []

    def go(s, d):
        if isinstance(d, Comp):
            for x in d.subs:
                go(s, x)
        else:
            out.append((s, d))
    for s, d in S.slots.items():
        go(s, d)
    return out


def Infeasible_():
    from .exec import Infeasible
    return Infeasible


def round_(self, S, f, L, prev, env, defers, st0, i, phis, known, quiet):
    if not hasattr(S, 'hkeys'):
        S.hkeys = {}
    self.ctr.n = S.base
    self.hook('famround', f, L, st0)
    # as long as the description stays, the loops inside get the same names again
    if getattr(S, 'changed', True):
        S.base2 = self.ctr2.n
    else:
        self.ctr2.n = S.base2
    S.changed = False
    try:
        st, e, npc = start_state(self, S, st0, env, i, phis)
    except Infeasible_():
        return [], [], True
    npc = len(st0.pc)
    if quiet:
        self.quiet += 1
    nobl = len(self.obls)
    try:
        outs = self.region(f, L.header, prev, e, defers, st, L, True)
    finally:
        if quiet:
            self.quiet -= 1
    stable = True
    back = []
    for o in outs:
        if o[0] != 'back':
            continue
        _, bs, be, bd, bp = o
        if not self.feasible(bs):
            continue
        if len(bd) != len(defers):
            raise Unsupported('defer inside a loop')
        if lockset(self, bs) != lockset(self, st0):
            if not quiet:
                self.record('lock balance of loop iteration', 'lock held at the end of a loop iteration', 'refuted', {'locks': str(bs.locks)})
            raise Unsupported('loop iteration changes the held locks')
        for k, v in st0.g.items():
            if k in bs.g and bs.g[k] is not v and not self.g_ok(k) and not gsame(bs.g[k], v):
                raise Unsupported('ghost state %s changes in a loop' % (k,))
        # tips of older backing arrays
        for bk, tok in st0.tips.items():
            if bk not in S.killed and bs.tips.get(bk) != tok and bk not in S.tips:
                S.killed.add(bk)
                stable = False
        new = {}
        for n, ins in enumerate(phis):
            edge = ins['edges'][blk_preds(f, L).index(bp)]
            new['phi ' + ins['r']] = self.ev(edge, be)
        new['trace'] = bs.trace
        for k in (bs.writes or ()):
            if k in known or k in st0.heap:
                s = 'heap %s' % (k,)
                if s not in S.slots:
                    S.hkeys[s] = k
                    S.slots[s] = Const(st0.heap[k])
                    stable = False
            elif self.survives(k):
                s = 'heap %s' % (k,)
                if s not in S.slots:
                    raise Unsupported('a shared object stays modified after a loop iteration')
        for s, k in S.hkeys.items():
            new[s] = bs.heap.get(k, Dead('a removed object'))
        new = {s: freeze(self, bs, v, known) for s, v in new.items()}
        back.append((bs, new, npc))
    changed = set()
    for bs, new, _ in back:
        for s in list(S.slots):
            if s not in new or s in changed:
                continue
            S.cur = new
            w = S.weaken(S.slots[s], new[s], bs, i, s)
            S.cur = None
            if w is not None:
                S.slots[s] = w
                changed.add(s)
                stable = False
                if getattr(self, 'debug', False) == 2:
                    print('   [%s %s -> %s]' % (f.name.split('.')[-1], s, w))
    # Acc seen-reset so every path is compared
    for s, d in leaves(S):
        if isinstance(d, Acc):
            d.seen = None
    S.changed = not stable
    # back condition
    if stable:
        conds = [land(*bs.pc[npc:]) for bs, new, _ in back]
        cur = lor(*conds) if conds else False
        if S.bc is None or S.bcx is None:
            if conds:
                setbc(S, cur, i)
                S.back = back
                return outs, back, False
        else:
            want = S.bcx
            for bs, new, _ in back:
                if not self.entails(bs, want):
                    # weaken to what this round shows, and try again
                    setbc(S, lor(want, cur) if getattr(S, 'bcn', 0) < 3 else True, i)
                    S.bcn = getattr(S, 'bcn', 0) + 1
                    return outs, back, False
    else:
        S.bc = S.bcx = None
    return outs, back, stable


def setbc(S, cond, i):
    S.bcx = cond
    if cond is True:
        S.bc = None
        return
    # symbols that are fresh in this round stay functions of the index, so the condition is generic in i
    iv = fresh_iv('t')
    S.iv = iv
    body = subst(cond, [(i, iv)])
    S.bc = lambda hi: solver.Univ(iv, hi, body)


def gsame(a, b):
    if isz(a) or isz(b):
        return isz(a) and isz(b) and a.eq(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(gsame(x, y) for x, y in zip(a, b))
    return a == b


def blk_preds(f, L):
    return f.blocks[L.header]['preds']


def lockset(self, st):
    return tuple(sorted(str(x) for x in st.locks)) if st.locks else ()


def freeze(self, st, v, known):
    """objects allocated in this iteration become immutable values"""
    def conv(v):
        t = type(v)
        if t is ASlice and isinstance(v.oid, int) and v.oid not in known:
            return RSlice(conv_rope(self.srope(st, v)), False, -1, None)
        if t is Ptr and isinstance(v.oid, int) and v.oid in st.alias:
            return Ptr(self.norm(st, v.oid), v.path, v.nil)
        if t is Ptr and isinstance(v.oid, int) and v.oid not in known and v.oid in st.heap:
            h = self.hooks.get('famptr')
            if h is not None:
                q = h(self, st, v, conv)
                if q is not None:
                    return q
            if v.path:
                return Ptr(('ro', conv(self.load(st, v))), (), v.nil)
            return Ptr(('ro', conv(st.heap[v.oid])), (), v.nil)
        if t is StructV:
            return StructV([conv(x) for x in v.vals], v.tid)
        if t is ArrV:
            return ArrV([conv(x) for x in v.vals])
        if t is Iface and v.tid is not None:
            return Iface(v.tid, conv(v.val))
        if t is Tup:
            return Tup([conv(x) for x in v.vals])
        if t is RSlice:
            return RSlice(conv_rope(v.rope), v.nil, v.bk, v.tok)
        if t is RVal:
            return RVal(v.tid, conv(v.val), conv(v.addr), v.ro)
        if t is Op:
            return Op(v.kind, [conv(x) for x in v.args])
        if t is RopeArr:
            return RopeArr(conv_rope(v.rope))
        if t is Rope:
            return conv_rope(v)
        if t is Ev:
            return Ev(v.kind, *[conv(x) for x in v.args])
        if t is tuple:
            return tuple(conv(x) for x in v)
        return v

    def conv_rope(r):
        if not any(isinstance(s, (V, C)) for s in r.segs):
            return r
        out = []
        for s in r.segs:
            if isinstance(s, V):
                out.append(V(conv(s.v)))
            elif isinstance(s, C):
                out.append(C([(c, conv_rope(x)) for c, x in s.alts]))
            else:
                out.append(s)
        return Rope(out)
    return conv(v)


def finish(self, S, f, L, st0, outs, back, i, known, outer_writes):
    folds, arrays = {}, {}
    npc = len(st0.pc)
    self.hook('famdone', [bs for bs, _, _ in back])
    conds = [land(*bs.pc[npc:]) for bs, new, _ in back]
    outer = list(S.outer)

    def leaf_new(slot_path, new):
        v = new[slot_path[0]]
        for k in slot_path[1:]:
            v = parts(v)[1][k]
        return v

    def walk(d, path):
        if isinstance(d, Comp):
            for k, x in enumerate(d.subs):
                walk(x, path + (k,))
            return
        if isinstance(d, Acc):
            if d.slice:
                for n, v in enumerate([d.init] + [leaf_new(path, new) for _, new, _ in back]):
                    bk = getattr(v, 'bk', None)
                    if bk is not None and arrays.setdefault((n, bk), d) is not d:
                        raise Unsupported('two lists of a loop in one array')
            tails = []
            for (bs, new, _), c in zip(back, conds):
                t = S.tail(d, leaf_new(path, new), bs, i)
                if t is None:
                    raise Unsupported('unstable list in a loop')
                tails.append((c, t))
            iv = fresh_iv()
            if not tails:
                body = E_
            else:
                # one form for all paths, if it is right on each of them
                for _, r in tails:
                    if all(vsame(self, bs, r, t) for (bs, _, _), (_, t) in zip(back, tails)):
                        body = r
                        break
                else:
                    body = Rope([C([(c, t) for c, t in tails])])
            body = vsubst(body, [(i, iv)])
            pl = d.pl
            ln = body.len()
            if not isinstance(ln, int):
                register_prefix(pl, outer, ln, iv)
            else:
                solver.prefix[pl.name] = (lambda args, t, c=ln: z3.BitVecVal(c, 64), True)
            folds[d.id] = lambda n, iv=iv, body=body, pl=pl: F(n, iv, body, pl)
        if isinstance(d, Fill):
            vals = []
            for (bs, new, _), c in zip(back, conds):
                vals.append((c, leaf_new(path, new).rope.segs[1]))
            iv = fresh_iv()
            if not vals:
                return
            if len(vals) == 1:
                body = Rope([vals[0][1]])
            else:
                body = Rope([C([(c, Rope([v])) for c, v in vals])])
            body = vsubst(body, [(i, iv)])
            folds[d.id] = lambda n, iv=iv, body=body: F(n, iv, body, PLF('pl!c1', ()))
        if isinstance(d, Rec):
            step = None
            for (bs, new, _), c in reversed(list(zip(back, conds))):
                v = leaf_new(path, new)
                if isinstance(v, Rope):
                    v = self.strterm(bs, v)
                if isinstance(v, int) and not isinstance(v, bool):
                    v = z3.BitVecVal(v, d.sort.size())
                v = zb(v)
                step = v if step is None else z3.If(zb(c), v, step)
            if step is not None:
                register_rec(S, d, outer, simp(step), i)
    for s, d in S.slots.items():
        walk(d, (s,))

    def fseg(s, r):
        if isinstance(s, M) and s.id in folds:
            n = i
            return [folds[s.id](n)]
        return None

    def fix(v):
        return vmap(v, lambda e: e, fseg)
    res = []
    iso = i
    nest = []
    for (bs, new, _), c in zip(back, conds):
        for u in bs.univ[len(st0.univ):]:
            if S.bc is not None and u.iv is S.iv:
                continue
            nest.append((c, u))
    for o in outs:
        if o[0] == 'back':
            continue
        s = o[1]
        if nest:
            iv = fresh_iv('t')
            f = lambda e: subst(e, [(i, iv)])
            nn = tuple((f(c) if isz(c) else c, u.sub(f)) for c, u in nest)
            s.univ = tuple(u for u in s.univ if S.bc is None or u.iv is not S.iv) + (solver.Univ(iv, i, f(S.bcx) if S.bc is not None and isz(S.bcx) else z3.BoolVal(True), nn),)
        if not self.feasible(s):
            continue
        s.idx = st0.idx
        if S.bc is not None:
            s.univ = s.univ
        if outer_writes is None:
            s.writes = None
        else:
            s.writes = set(outer_writes) | (s.writes or set()) | {k for k in S.hkeys.values()}
        if folds:
            s.trace = fix(s.trace)
            for k, v in list(s.heap.items()):
                if st0.heap.get(k) is not v:
                    s.heap[k] = fix(v)
        if o[0] == 'exit':
            e = o[2]
            if folds:
                e = {k: (v if env_same(st0, v) else fix(v)) for k, v in e.items()}
            x = exact(self, s, npc, i)
            if x is not None:
                ps = [(i, x)]
                e = {k: vsubst(v, ps) for k, v in e.items()}
                s.trace = vsubst(s.trace, ps)
                for k, v in list(s.heap.items()):
                    if st0.heap.get(k) is not v:
                        s.heap[k] = vsubst(v, ps)
                old = s.pc[npc:]
                s.pc = s.pc[:npc]
                s.pcs = {c.get_id() for c in s.pc}
                try:
                    for c in old:
                        s.assume(subst(c, ps))
                except Infeasible_():
                    continue
                s.univ = tuple(u.sub(lambda t: subst(t, ps)) for u in s.univ)
            res.append(('exit', s, e) + tuple(o[3:]))
        elif o[0] == 'ret':
            res.append(('ret', s, fix(o[2])))
        else:
            res.append(('panic', s, o[2]))
    return res


def exact(self, s, npc, i):
    """the number of iterations as a term over the state before the loop, if the exit determines it"""
    for c in s.pc[npc:]:
        neg = False
        d = c
        if z3.is_not(c):
            d, neg = c.arg(0), True
        if not (z3.is_app(d) and d.num_args() == 2 and z3.is_bv(d.arg(0)) and d.arg(0).size() == 64):
            continue
        a, b = d.arg(0), d.arg(1)
        for x, o in ((a, b), (b, a)):
            if o.eq(i) and not mentions(x, [i]) and not any(z3.is_app(q) and i.get_id() in [g.get_id() for g in q.children()] for q in apps(x)):
                x = simp(x)
                if self.entails(s, eq(i, x)):
                    return x
    return None


def env_same(st0, v):
    return v is None or isinstance(v, (bool, int)) or isz(v)


def register_prefix(pl, outer, ln, iv):
    def step(args, t):
        ps = [(a, b) for a, b in zip(outer, args)] + [(iv, t)]
        return subst(ln, [(a, b) for a, b in ps if isz(a)])
    solver.prefix[pl.name] = (step, True)


def register_rec(S, d, outer, step, i):
    n = d.name
    init = d.init
    if isinstance(init, Rope):
        raise Unsupported('rec init')
    ini = z3.BitVecVal(init, d.sort.size()) if isinstance(init, int) and not isinstance(init, bool) else zb(init)

    def stepf(args, t):
        return zb_or(subst(step, [(a, b) for a, b in zip(outer, args) if isz(a)] + [(i, t)]), d.sort)

    def initf(args):
        return zb_or(subst(ini, [(a, b) for a, b in zip(outer, args) if isz(a)]), d.sort)
    solver.recs[n] = (initf, stepf, [(nm, fn, outer) for nm, fn in d.cands])


def zb_or(v, so):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, so.size())
    return v
