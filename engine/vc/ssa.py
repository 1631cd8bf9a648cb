"""The SSA dump of the package under verification."""
import json


class T:
    __slots__ = ('id', 'str', 'kind', 'name', 'pkg', 'under', 'elem', 'key', 'len', 'fields', 'basic',
                 'params', 'results', 'variadic', 'elems', 'methods', 'width', 'signed', 'prog')

    def __init__(self, prog, j):
        self.prog = prog
        g = j.get
        self.id, self.str, self.kind = j['id'], j['str'], j['kind']
        self.name, self.pkg, self.under = g('name', ''), g('pkg', ''), g('under', j['id'])
        self.elem, self.key, self.len = g('elem'), g('key'), g('len')
        self.fields = g('fields')
        self.basic = g('basic')
        self.params, self.results, self.variadic = g('params'), g('results'), g('variadic')
        self.elems, self.methods = g('elems'), g('methods')
        self.width = self.signed = None
        if self.kind == 'basic':
            b = self.basic
            tab = {'int': (64, True), 'int8': (8, True), 'int16': (16, True), 'int32': (32, True), 'int64': (64, True),
                   'uint': (64, False), 'uint8': (8, False), 'byte': (8, False), 'uint16': (16, False),
                   'uint32': (32, False), 'uint64': (64, False), 'uintptr': (64, False), 'rune': (32, True),
                   'untyped int': (64, True), 'untyped rune': (32, True)}
            if b in tab:
                self.width, self.signed = tab[b]
            elif b in ('float64', 'untyped float'):
                self.width, self.signed = 64, False

    @property
    def isint(self):
        return self.kind == 'basic' and self.width is not None and 'float' not in self.basic

    @property
    def isstr(self):
        return self.kind == 'basic' and self.basic in ('string', 'untyped string')

    @property
    def isbool(self):
        return self.kind == 'basic' and self.basic in ('bool', 'untyped bool')

    @property
    def isfloat(self):
        return self.kind == 'basic' and 'float' in self.basic

    @property
    def isbytes(self):
        return self.kind == 'slice' and self.prog.types[self.elem].kind == 'basic' and self.prog.types[self.elem].basic in ('uint8', 'byte')

    def __repr__(self):
        return self.str


class Loop:
    def __init__(self, header):
        self.header, self.body = header, {header}


class Fn:
    def __init__(self, prog, j):
        self.j = j
        self.name = j['name']
        self.short = j.get('short')
        self.pkg = j['pkg']
        self.sig = j['sig']
        self.blocks = j.get('blocks')
        self.params = [p['n'] for p in j['params']]
        self.freevars = [p['n'] for p in j.get('freevars', [])]
        self.recover = j.get('recover')
        self.loops = {}
        if self.blocks:
            self._loops()

    def _loops(self):
        n = len(self.blocks)
        succs = [b['succs'] for b in self.blocks]
        preds = [b['preds'] for b in self.blocks]
        # dominators (iterative)
        allb = set(range(n))
        dom = [allb.copy() for _ in range(n)]
        dom[0] = {0}
        changed = True
        while changed:
            changed = False
            for b in range(1, n):
                ps = [dom[p] for p in preds[b]]
                d = (set.intersection(*ps) if ps else set()) | {b}
                if d != dom[b]:
                    dom[b] = d
                    changed = True
        for b in range(n):
            for s in succs[b]:
                if s in dom[b]:
                    L = self.loops.setdefault(s, Loop(s))
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x not in L.body:
                            L.body.add(x)
                            todo.extend(preds[x])


class Prog:
    def __init__(self, path):
        j = json.load(open(path))
        self.pkg = j['pkg']
        self.types = []
        for t in j['types']:
            self.types.append(T(self, t))
        self.funcs = {n: Fn(self, f) for n, f in j['funcs'].items()}
        self.globals = j['globals']
        self.named = {n: i for n, i in j['named'].items()}
        self.methods = {int(k): v for k, v in j['methods'].items()}
        self.bystr = {}
        for t in self.types:
            self.bystr.setdefault(t.str, t.id)

    def t(self, i):
        return self.types[i]

    def local(self, short):
        """a package-level function of the package by name"""
        return self.funcs.get(self.pkg + '.' + short)

    def method(self, tname, m, ptr=True):
        n = ('(*%s.%s).%s' if ptr else '(%s.%s).%s') % (self.pkg, tname, m)
        return self.funcs.get(n)
