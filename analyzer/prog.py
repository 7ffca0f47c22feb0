"""Loads a MIR dump and precomputes what the analysis needs of it."""
import json


class Fn:
    __slots__ = ('id', 'name', 'defn', 'kind', 'closure', 'args', 'intr', 'crate', 'file', 'line', 'unsafe',
                 'body', 'bbs', 'locals', 'argc', 'spread', 'live', 'heads', 'addrtaken', 'model', 'names')


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        for t in self.types:
            # discriminants are given as bits
            r = self.types[t['dt']] if t.get('k') == 'adt' and t.get('dt') is not None else None
            if r and r['k'] == 'int' and r['s']:
                for v in t.get('v', ()):
                    if type(v['d']) is int and v['d'] >> (r['b'] - 1) & 1:
                        v['d'] -= 1 << r['b']
        self.roots = dict((n, i) for n, i in d['roots'])
        self.fns = []
        for i, f in enumerate(d['fns']):
            o = Fn()
            o.id = i
            o.name, o.defn, o.kind, o.closure = f['name'], f['def'], f['kind'], f['closure']
            o.args, o.intr, o.crate, o.file, o.line = f['args'], f['intr'], f['crate'], f['file'], f['line']
            o.unsafe = f.get('unsafe', 0)
            o.body = f['body']
            o.live = None
            o.model = None
            if o.body:
                o.bbs = o.body['bbs']
                o.locals = o.body['locals']
                o.argc = o.body['argc']
                o.spread = o.body['spread']
                o.names = dict(o.body['names'])
            self.fns.append(o)
        self.kcells = {}     # constant value -> cell
        self.kmem = {}       # cell -> value
        self.kcache = {}

    def prepare(self, f):
        if f.live is None:
            liveness(f)

    # ---- types
    def ty(self, t):
        return self.types[t]

    def tyname(self, t):
        t = self.types[t]
        k = t['k']
        if k == 'adt':
            return t['n']
        return k

    # ---- constants
    def kcell(self, v):
        c = self.kcells.get(v)
        if c is None:
            c = ('k', len(self.kcells))
            self.kcells[v] = c
            self.kmem[c] = v
        return c


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'assert':
        return [t[3]]
    if k == 'call':
        return [] if t[4] is None else [t[4]]
    return []


def place_uses(p, out):
    out.add(p[0])
    for e in p[1]:
        if type(e) is list and e[0] == 'i':
            out.add(e[1])


def op_uses(o, out):
    if type(o) is list and o and o[0] in ('c', 'm'):
        place_uses(o[1], out)


def rv_uses(r, out):
    k = r[0]
    if k in ('use', 'un', 'rep'):
        for x in r[1:]:
            if type(x) is list:
                op_uses(x, out)
    elif k in ('ref', 'discr', 'len', 'addr', 'rawref'):
        for x in r[1:]:
            if type(x) is list and x and type(x[0]) is int:
                place_uses(x, out)
    elif k in ('bin', 'cbin', 'cast'):
        for x in r[1:]:
            op_uses(x, out)
    elif k == 'agg':
        for x in r[2]:
            op_uses(x, out)
    elif k in ('arr', 'rawptr'):
        for x in r[1]:
            op_uses(x, out)


def liveness(f):
    n = len(f.bbs)
    use = [set() for _ in range(n)]
    kill = [set() for _ in range(n)]

    def addu(i, s):
        for x in s:
            if x not in kill[i]:
                use[i].add(x)
    for i, (stmts, term) in enumerate(f.bbs):
        for _, s in stmts:
            u = set()
            k = None
            if s[0] == '=':
                rv_uses(s[3], u)
                if s[1][1]:
                    if s[1][1][0] == '*':
                        place_uses(s[1], u)
                    else:
                        for e in s[1][1]:
                            if type(e) is list and e[0] == 'i':
                                u.add(e[1])
                        # a partial write neither reads nor kills the rest
                        u.add(s[1][0])
                else:
                    k = s[1][0]
            elif s[0] == 'setd':
                u.add(s[1][0])
            elif s[0] in ('live', 'dead'):
                k = s[1]
            elif s[0] == 'copy':
                for x in s[1:]:
                    op_uses(x, u)
            addu(i, u)
            if k is not None:
                kill[i].add(k)
        t = term[2]
        u = set()
        k = None
        if t[0] == 'switch':
            op_uses(t[1], u)
        elif t[0] == 'ret':
            u.add(0)
        elif t[0] == 'drop':
            if t[3] is not None:
                place_uses(t[1], u)
        elif t[0] == 'assert':
            op_uses(t[1], u)
            for x in t[4][1:] if type(t[4]) is list else []:
                op_uses(x, u)
        elif t[0] == 'call':
            if type(t[1]) is list and t[1][0] == 'ptr':
                op_uses(t[1][1], u)
            for a in t[2]:
                op_uses(a, u)
            if t[3][1]:
                place_uses(t[3], u)
            else:
                k = t[3][0]
        addu(i, u)
        if k is not None:
            kill[i].add(k)
    live = [set(x) for x in use]
    preds = [[] for _ in range(n)]
    for i, (_, term) in enumerate(f.bbs):
        for s in succs(term[2]):
            preds[s].append(i)
    work = list(range(n))
    while work:
        i = work.pop()
        for p in preds[i]:
            new = live[i] - kill[p] - live[p]
            if new:
                live[p] |= new
                work.append(p)
    f.live = [tuple(sorted(x)) for x in live]
    # loop heads: targets of back edges of a depth-first walk
    heads = set()
    color = {}
    stack = [(0, iter(succs(f.bbs[0][1][2])))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            c = color.get(s)
            if c == 1:
                heads.add(s)
            elif c is None:
                color[s] = 1
                stack.append((s, iter(succs(f.bbs[s][1][2]))))
                break
        else:
            color[b] = 2
            stack.pop()
    f.heads = heads
