"""Queries: path condition plus the facts that the occurring symbols carry."""
import time
from .terms import *
from .values import PLF
from . import intabs

registry = {}     # function name -> fact generator(app) -> list of bools
prefix = {}       # prefix-sum function name -> (step(args, t) -> term, monotone)
stats = {'queries': 0, 'time': 0.0, 'unknown': 0, 'lia': 0}
recs = {}         # recurrence function name -> (init(args), step(args, t), bounds)
regkey = {}
lits = {}         # literal bytes -> Str constant
_litnames = {}


def register(n, facts=None, key=None):
    """facts(app) for the function named n; key identifies their meaning"""
    if n in registry:
        if facts is not None and key is not None and regkey.get(n) == key:
            return
        del registry[n]
        _cache.clear()
    if facts is not None:
        registry[n] = facts
        regkey[n] = key


def reset():
    registry.clear()
    prefix.clear()
    recs.clear()
    regkey.clear()
    _memo.clear()
    registry['slen'] = lambda a: [z3.And(z3.BitVecVal(0, 64) <= a, a <= z3.BitVecVal(LIM, 64))]
    registry['declen'] = lambda a: [z3.And(z3.BitVecVal(1, 64) <= a, a <= z3.BitVecVal(20, 64))]


_cache = {}
_memo, _decl, _keepa = {}, {}, []
_hold = []
reset()


def strlit(b):
    c = lits.get(b)
    if c is None:
        n = 'lit!%d!%s' % (len(lits), ''.join(ch if ch.isalnum() else '_' for ch in b[:24].decode('latin1')))
        c = z3.Const(n, Str)
        lits[b] = c
        _litnames[n] = b
    return c


def litval(name):
    return _litnames.get(name)


def closure(assertions, univ=(), rounds=6, cap=4000):
    """facts about the symbols occurring in assertions"""
    facts, done, pend = [], set(), []
    groups = {}
    litseen = []
    ground = {}        # decl name -> list of apps
    uniq = set()

    def scan(e):
        for i, a in apps2(e):
            if i not in done:
                done.add(i)
                pend.append((i, a))
    for e in assertions:
        scan(e)
    doneinst = set()
    for _ in range(rounds):
        if not pend and _ > 0 or len(facts) > cap:
            break
        new, pend = pend, []
        newfacts = []
        for ai, a in new:
            d = _decl.get(ai)
            if d is None:
                ch = a.children()
                d = _decl[ai] = (a.decl().name(), tuple(c.get_id() for c in ch[:-1]), ch)
                _keepa.append(a)
            n, cid, ch = d
            ground.setdefault(n, []).append(ch)
            g = registry.get(n)
            if g is not None:
                newfacts.append(memo(('r', id(g), ai), g, lambda: g(a)))
            for defs, gen in ((prefix, _prefix_facts), (recs, _rec_facts)):
                if n in defs:
                    f = defs[n]
                    k = (n, cid)
                    lst = groups.setdefault(k, [])
                    newfacts.append(memo(('d', id(f), ai), f, lambda: gen(f, a, None)))
                    for oi, o in lst:
                        newfacts.append(memo(('d', id(f), ai, oi), f, lambda: gen(f, a, o)))
                    lst.append((ai, a))
            if n in _litnames:
                b = _litnames[n]
                newfacts.append(pairs([slen(a) == z3.BitVecVal(len(b), 64)]))
                for o in litseen:
                    newfacts.append(pairs([a != o]))
                litseen.append(a)
        for ui, u in enumerate(univ):
            for t in u.triggers(ground):
                ti = t.get_id() if isz(t) else ('c', t)
                k = (ui, ti)
                if k in doneinst:
                    continue
                doneinst.add(k)
                newfacts.append(memo(('u', u.key(), ti), (u, t), lambda: [u.inst(t)]))
        for fs in newfacts:
            for i, f in fs:
                if i not in uniq:
                    uniq.add(i)
                    facts.append(f)
                    scan(f)
            if len(facts) > cap:
                break
    return facts


def memo(key, hold, fn):
    r = _memo.get(key)
    if r is None:
        r = _memo[key] = (pairs(fn()), hold)
    return r[0]


def pairs(fs):
    fs = [z3.BoolVal(f) if isinstance(f, bool) else f for f in fs if f is not None]
    return tuple((f.get_id(), f) for f in fs)


def _prefix_facts(d, a, o):
    """what holds of a prefix sum at one point, or at two points"""
    step, mono = d
    ch = a.children()
    args, t = ch[:-1], ch[-1]
    z = z3.BitVecVal(0, 64)
    if o is None:
        out = [z3.Implies(t == z, a == z)]
        if mono:
            out.append(z3.Implies(t >= z, z3.And(a >= z, a <= z3.BitVecVal(LIM, 64))))
        return out
    out = []
    u = o.children()[-1]
    for x, fx, y, fy in ((t, a, u, o), (u, o, t, a)):
        d = simp(y - x)
        if isinstance(d, int) and d != 1 and not mono:
            continue
        s = bv(step(args, x), 64)
        if isinstance(d, int) and d == 1:
            out.append(fy == fx + s)
        elif not (isinstance(d, int) and d != 1):
            out.append(z3.Implies(y == x + 1, fy == fx + s))
        if mono and not (isinstance(d, int) and d == 1):
            out.append(z3.Implies(z3.And(z <= x, x < y), z3.And(fx + s <= fy, fx <= fy, s >= z)))
    return out


def _rec_facts(d, a, o):
    init, step, bounds = d
    ch = a.children()
    args, t = ch[:-1], ch[-1]
    z = z3.BitVecVal(0, 64)
    if o is None:
        return [z3.Implies(t == z, a == init(args))]
    out = []
    u = o.children()[-1]
    for x, fx, y, fy in ((t, a, u, o), (u, o, t, a)):
        d = simp(y - x)
        if isinstance(d, int):
            if d == 1:
                out.append(fy == step(args, x))
        else:
            out.append(z3.Implies(y == x + 1, fy == step(args, x)))
    return out


class Univ:
    """forall iv in [0, hi): body(iv)"""
    __slots__ = ('iv', 'hi', 'body', '_trig', 'nest')

    def __init__(self, iv, hi, body, nest=()):
        self.iv, self.hi, self.body = iv, hi, body
        self._trig = None
        self.nest = tuple(nest)      # (cond(iv), Univ): what inner loops of iteration iv established

    def trig(self):
        if self._trig is None:
            t = set()
            for a in apps(self.body):
                for k, c in enumerate(a.children()):
                    if c.get_id() == self.iv.get_id():
                        t.add((a.decl().name(), k))
            self._trig = t
        return self._trig

    def key(self):
        h, b = self.hi, self.body
        return (self.iv.get_id(), h.get_id() if isz(h) else h, b.get_id() if isz(b) else b)

    def triggers(self, ground):
        out = [sub(self.hi, 1), 0]
        for n, k in self.trig():
            for a in ground.get(n, ()):
                out.append(a[k])
        return out

    def inst(self, t):
        return z3.Implies(z3.And(z3.BitVecVal(0, 64) <= bv(t, 64), bv(t, 64) < bv(self.hi, 64)), zb(subst(self.body, [(self.iv, t)])))

    def sub(self, f):
        return Univ(self.iv, f(self.hi) if isz(self.hi) else self.hi, f(self.body), [(f(c) if isz(c) else c, u.sub(f)) for c, u in self.nest])

    def nested(self, t):
        """the facts of the inner loops of iteration t"""
        g = z3.And(z3.BitVecVal(0, 64) <= bv(t, 64), bv(t, 64) < bv(self.hi, 64))
        out = []
        for c, u in self.nest:
            f = lambda e: subst(e, [(self.iv, t)])
            w = u.sub(f)
            out.append(Univ(w.iv, w.hi, z3.Implies(z3.And(g, zb(f(c))), zb(w.body)), w.nest))
        return out



def check(assertions, univ=(), timeout=10000, want_model=False, light=0):
    """-> ('unsat'|'sat'|'unknown', model or reason); light: an early 'unknown' is good enough"""
    asr = []
    for a in assertions:
        if isinstance(a, bool):
            if not a:
                return 'unsat', None
            continue
        asr.append(a)
    key = (frozenset(a.get_id() for a in asr), tuple(u.body.get_id() if isz(u.body) else u.body for u in univ), tuple(u.hi.get_id() if isz(u.hi) else u.hi for u in univ))
    if not want_model:
        if key in _cache:
            return _cache[key]
        if (key, light, timeout) in _cache:
            return _cache[key, light, timeout]
    _hold.append((asr, univ))
    t0 = time.time()
    r = z3.unknown
    facts = few = closure(asr, univ, 2)
    if len(few) > 100:
        s = z3.SimpleSolver()
        s.add(*asr)
        s.add(*few)
        s.set('timeout', 250)
        if s.check() == z3.unsat:
            r = z3.unsat
    if r == z3.unknown:
        facts = closure(asr, univ, 3 if light == 1 else 4 if light else 6, 400 if light == 1 else 700 if light else 4000)
    big, lia = (z3.Solver, 1000), (None, 3000 if light and len(facts) <= 300 else 1000 if light else min(timeout, 10000))
    plan = [(z3.SimpleSolver, 120)] + ([big, lia] if len(facts) > 300 else [lia, big]) + [(z3.SimpleSolver, timeout)]
    if light:
        plan = [(z3.SimpleSolver, 120), (z3.Solver, 500)] if light == 1 and len(facts) > 300 else plan[:-1]
    for mk, ms in plan:
        if r != z3.unknown:
            break
        if mk is None:
            stats['lia'] += 1
            q = intabs.check(asr + facts, ms)
            if q == 'unsat':
                r = z3.unsat
            elif q == 'sat' and not want_model:
                r = z3.sat
            continue
        s = mk()
        s.add(*asr)
        s.add(*facts)
        s.set('timeout', ms)
        r = s.check()
    stats['queries'] += 1
    res = (str(r), None)
    if r == z3.sat and want_model:
        res = ('sat', s.model())
    elif r == z3.unknown:
        stats['unknown'] += 1
        res = ('unknown', s.reason_unknown())
    stats['time'] += time.time() - t0
    if not want_model:
        _cache[(key, light, timeout) if r == z3.unknown else key] = res
    return res


def smt2(assertions, univ=()):
    asr = [zb(a) for a in assertions]
    s = z3.SimpleSolver()
    s.add(*asr)
    s.add(*closure(asr, univ))
    return s.to_smt2()
