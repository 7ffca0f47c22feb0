"""Abstract interpreter over MIR: states of abstract values are propagated through the control flow
of the analysed functions, in the product with the automaton of a property, until no new state
appears at any loop head."""
import time
from terms import *
from prog import Prog

U64 = (1 << 64) - 1
ISZ = (1 << 63) - 1
UNIT = ('A', 0, ())
UNDEF = ('undef',)


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts


class Stop(Exception):
    """Ends the current path (infeasible or of no further interest)."""


class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg


class Unsupported(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, key=None):
        self.msg = msg
        self.key = key or msg


class State:
    __slots__ = ('fn', 'bb', 'si', 'depth', 'frames', 'mem', 'facts', 'mon', 'nv', 'nc', 'trace', 'ti', 'hist')

    def clone(self):
        s = State()
        s.fn = self.fn
        s.bb = self.bb
        s.si = self.si
        s.depth = self.depth
        s.frames = self.frames
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.mon = self.mon
        s.nv = self.nv
        s.nc = self.nc
        s.trace = self.trace
        s.ti = 0
        s.hist = self.hist
        return s


def proj(v, e):
    t = v[0] if type(v) is tuple else None
    if t == 'A':
        f = v[2]
        if type(e) is int:
            if e < len(f):
                return f[e]
            if not f:
                return UNIT
            raise Unsupported('projection %r of %d fields' % (e, len(f)))
        if e == 'b':
            return v
    if t == 'vec':
        if e == 'b':
            return v[1]
        raise Unsupported('field %r of a Vec' % (e,))
    if t == 'box':
        return v
    if t == 'undef':
        raise Unsupported('read of an uninitialised place')
    if t == 'rope' and type(e) is int:
        return rope_byte(v, e)
    # transparent wrappers are represented by their content
    if e == 0:
        return v
    raise Unsupported('projection %r of %r' % (e, str(v)[:80]))


CURRENT = None       # the interpreter and the state it works on


def rope_byte(v, i):
    for c in v[1]:
        if c[0] == 'b':
            if i < len(c[1]):
                return c[1][i]
            i -= len(c[1])
        elif c[0] == 'n':
            if i == 0:
                return c[1]
            i -= 1
        elif c[0] == 'ch':
            # a character whose number of bytes is known
            r = CURRENT[0].rs(CURRENT[1], ('f', 'utf8len', (c[1],)))
            n = r[0][0]
            if r[-1][1] != n or i < n and n > 1:
                raise Unsupported('byte of an unknown string')
            if i < n:
                return c[1]
            i -= n
        else:
            raise Unsupported('byte of an unknown string')
    raise Unsupported('byte index')


def wr(v, path, i, new):
    if i == len(path):
        return new
    e = path[i]
    t = v[0] if type(v) is tuple else None
    if t == 'A' and type(e) is int:
        f = v[2]
        if e >= len(f):
            f = f + (UNDEF,) * (e + 1 - len(f))
        x = wr(f[e], path, i + 1, new)
        return ('A', v[1], f[:e] + (x,) + f[e + 1:])
    if t == 'A' and e == 'b':
        return wr(v, path, i + 1, new)
    if t == 'vec' and e == 'b':
        return ('vec', wr(v[1], path, i + 1, new))
    if t == 'undef' and type(e) is int:
        return ('A', 0, (UNDEF,) * e + (wr(UNDEF, path, i + 1, new),))
    if e == 0:
        return wr(v, path, i + 1, new)
    raise Unsupported('write %r into %r' % (e, str(v)[:80]))


class Interp:
    def __init__(self, prog, mon, limits=None):
        self.p = prog
        self.mon = mon
        # relate differences of variables transitively
        self.zones = getattr(mon, 'zones', False)
        self.mem_k = prog.kmem
        self.compiled = {}
        self.visited = {}
        self.shapecount = {}
        self.leafsets = {}
        self.leafhull = {}
        self.leafpts = {}
        self.leafvecs = {}
        self.leafrel = {}
        self.work = []
        self.undecided = {}
        self.dropm = {}
        self.violations = {}
        self.assumed = {}
        self.stats = dict(states=0, merged=0, paths=0, panics=0, steps=0, forks=0)
        self.fns_seen = set()
        self.sites = set()
        self.limits = limits or dict(states=300000, seconds=800)
        self.exceeded = None
        import models, coll
        self.models = models.MODELS
        self.prefix_models = models.PREFIX
        self.t0 = time.time()

    # ------------------------------------------------------------------ memory
    def read(self, st, cell, path):
        try:
            v = st.mem[cell]
        except KeyError:
            try:
                v = self.mem_k[cell]
            except KeyError:
                raise Unsupported('read of dead cell %r' % (cell,))
        for e in path:
            if type(v) is tuple and v[0] == 'A' and type(e) is int:
                f = v[2]
                if e < len(f):
                    v = f[e]
                    continue
            v = proj(v, e)
        return v

    def write(self, st, cell, path, val):
        if not path:
            st.mem[cell] = val
            return
        if cell[0] == 'k':
            raise Unsupported('write to a constant')
        st.mem[cell] = wr(st.mem.get(cell, UNDEF), path, 0, val)

    def alloc(self, st, val):
        c = ('h', st.nc)
        st.nc += 1
        st.mem[c] = val
        return c

    def load(self, st, ptr):
        if type(ptr) is tuple and ptr[0] == 'box':
            return self.read(st, ptr[1], ())
        if type(ptr) is not tuple or ptr[0] != 'p':
            raise Unsupported('load through %r' % (str(ptr)[:60],))
        return self.read(st, ptr[1], ptr[2])

    def store(self, st, ptr, val):
        if ptr[0] == 'box':
            self.write(st, ptr[1], (), val)
        else:
            self.write(st, ptr[1], ptr[2], val)

    # ------------------------------------------------------------------ numbers
    def var(self, st, rs=None):
        v = ('v', st.nv)
        st.nv += 1
        if rs is not None:
            # a fact about this variable is already there when the step is repeated after a fork
            old = st.facts.get(v)
            if old is not None:
                rs = rs_inter(rs, old)
                if not rs:
                    raise Stop()
            st.facts[v] = rs
        return v

    def rs(self, st, t):
        """The range set of a term."""
        if type(t) is int:
            return ((t, t),)
        if t[0] == '+':
            s, f, c = split(t)
            if f[0] != '+' :
                r = self.rs(st, f)
            else:
                r = self.frs(st, f)
            if s == 1:
                return tuple((a + c, b + c) for a, b in r)
            return tuple((c - b, c - a) for a, b in reversed(r))
        r = st.facts.get(t)
        if r is None:
            if t[0] == 'f':
                return self.fnrange(st, t)
            return ((-(1 << 200), 1 << 200),)
        if t[0] == 'f':
            r2 = rs_inter(r, self.fnrange(st, t))
            return r2 or r
        return r

    def frs(self, st, f):
        """The range set of a form (a linear form without constant)."""
        if f[0] != '+':
            return self.rs(st, f)
        lo = hi = 0
        for a, k in f[2]:
            r = self.rs(st, a)
            l, h = r[0][0], r[-1][1]
            if k > 0:
                lo += l * k
                hi += h * k
            else:
                lo += h * k
                hi += l * k
        r = ((lo, hi),)
        k = st.facts.get(f)
        if k is not None:
            r = rs_inter(r, k)
            if not r:
                raise Stop()
        if self.zones and len(f[2]) == 2 and sorted(k for _, k in f[2]) == [-1, 1]:
            a, b = f[2] if f[2][0][1] == 1 else f[2][::-1]
            r = rs_inter(r, ((-self.distance(st, b[0], a[0]), self.distance(st, a[0], b[0])),))
            if not r:
                raise Stop()
        return r

    def distance(self, st, a, b):
        """The least upper bound of a - b which follows from the known differences."""
        edges = []
        for f, r in st.facts.items():
            if f[0] == '+' and len(f[2]) == 2 and sorted(k for _, k in f[2]) == [-1, 1]:
                x, y = f[2] if f[2][0][1] == 1 else f[2][::-1]
                edges.append((x[0], y[0], r[-1][1]))
                edges.append((y[0], x[0], -r[0][0]))
            elif f[0] == 'v':
                edges.append((f, 0, r[-1][1]))
                edges.append((0, f, -r[0][0]))
        dist = {a: 0}
        for _ in range(24):
            done = True
            for x, y, w in edges:
                d = dist.get(x)
                if d is not None and d + w < dist.get(y, 1 << 201):
                    dist[y] = d + w
                    done = False
            if done:
                break
        else:
            if dist.get(a, 0) < 0:
                raise Stop()
        return dist.get(b, 1 << 200)

    def fnrange(self, st, t):
        op, args = t[1], t[2]
        if op == 'and':
            m = 1 << 200
            for a in args:
                r = self.rs(st, a)
                if r[0][0] >= 0:
                    m = min(m, r[-1][1])
            return ((0, m),)
        if op == 'utf8len':
            r = self.rs(st, args[0])
            out = []
            for lo, hi, n in ((0, 0x7f, 1), (0x80, 0x7ff, 2), (0x800, 0xffff, 3), (0x10000, 0x10ffff, 4)):
                if rs_inter(r, ((lo, hi),)):
                    out.append((n, n))
            return rs_norm(out)
        if op == 'len' or op == 'nat':
            return ((0, ISZ),)
        if op in ('shr', 'div'):
            r = self.rs(st, args[0])
            d = args[1]
            if type(d) is int and d > 0 and r[0][0] >= 0:
                return ((r[0][0] // d, r[-1][1] // d),)
        if op == 'rem':
            d = args[1]
            r = self.rs(st, args[0])
            if type(d) is int and d > 0 and r[0][0] >= 0:
                if r[0][0] // d == r[-1][1] // d:
                    return tuple((x % d, y % d) for x, y in r)
                return ((0, d - 1),)
        if op == 'ty':      # ('f','ty',(signed,bits,...))
            return (int_range(args[0], args[1]),)
        if op in ('or', 'xor', 'bits'):
            m = 0
            for a in args:
                r = self.rs(st, a)
                if r[0][0] < 0:
                    return ((-(1 << 200), 1 << 200),)
                m |= (1 << r[-1][1].bit_length()) - 1
            return ((0, m),)
        if op == 'mul':
            a, b = (self.rs(st, x) for x in args)
            if a[0][0] >= 0 and b[0][0] >= 0:
                return ((a[0][0] * b[0][0], a[-1][1] * b[-1][1]),)
        return ((-(1 << 200), 1 << 200),)

    def refine(self, st, form, rs):
        """Adds the fact that the form lies in the range set. Raises Stop if that is impossible."""
        cur = self.frs(st, form)
        new = rs_inter(cur, rs)
        if not new:
            raise Stop()
        if new == cur:
            return
        st.facts[form] = new
        self.refine_parts(st, form, new)
        # what the other facts say about the variables which got narrower
        work, n = [form], 0
        while work and n < 40:
            f = work.pop()
            changed = {f} if f[0] == 'v' else {a for a, _ in f[2]} if f[0] == '+' else set()
            if not changed:
                continue
            for g, k in list(st.facts.items()):
                if g[0] == '+' and g != f and any(a in changed for a, _ in g[2]):
                    before = [st.facts.get(a) for a, _ in g[2]]
                    r = rs_inter(self.frs(st, g), k)
                    if not r:
                        raise Stop()
                    self.refine_parts(st, g, r)
                    if [st.facts.get(a) for a, _ in g[2]] != before:
                        work.append(g)
                        n += 1

    def refine_parts(self, st, form, new):
        if form[0] == 'f':
            self.refine_arg(st, form, new)
        if form[0] == '+':
            lo, hi = new[0][0], new[-1][1]
            atoms = form[2]
            for i, (a, k) in enumerate(atoms):
                l = h = 0
                for j, (b, kb) in enumerate(atoms):
                    if i != j:
                        r = self.rs(st, b)
                        x, y = r[0][0] * kb, r[-1][1] * kb
                        l += min(x, y)
                        h += max(x, y)
                # k*a in [lo-h, hi-l]
                x, y = lo - h, hi - l
                if k > 0:
                    r = (-(-x // k), y // k)
                else:
                    r = (-(y // -k) if True else 0, (-x) // -k)
                    r = (-(y // (-k)), (-x) // (-k))
                if r[0] > r[1]:
                    raise Stop()
                ca = self.rs(st, a)
                na = rs_inter(ca, ((r[0], r[1]),))
                if not na:
                    raise Stop()
                if na != ca:
                    st.facts[a] = na
                    if a[0] == 'f':
                        self.refine_arg(st, a, na)

    def refine_arg(self, st, t, rs):
        """What a range of a quotient or remainder says about the dividend."""
        if t[1] not in ('div', 'rem'):
            return
        x, d = t[2]
        if type(d) is not int or d <= 0 or type(x) is int:
            return
        r = self.rs(st, x)
        if r[0][0] < 0:
            return
        if t[1] == 'div':
            want = tuple((max(lo, 0) * d, hi * d + d - 1) for lo, hi in rs if hi >= 0)
        else:
            q = r[0][0] // d
            if r[-1][1] // d != q:
                return
            want = tuple((q * d + lo, q * d + hi) for lo, hi in rs)
        s, f, c = split(x)
        if s == 1:
            want = tuple((lo - c, hi - c) for lo, hi in want)
        else:
            want = tuple((c - hi, c - lo) for lo, hi in reversed(want))
        if not want:
            raise Stop()
        self.refine(st, f, want)

    def test(self, st, t, yes):
        """Decides whether a term lies in the range set `yes`, forking when both are possible."""
        if type(t) is int:
            for lo, hi in yes:
                if lo <= t <= hi:
                    return True
            return False
        r = self.rs(st, t)
        i = rs_inter(r, yes)
        if not i:
            return False
        no = rs_minus(r, yes)
        if not no:
            return True
        if t[0] != 'v':
            e = self.exact(st, t)
            if e is not None:
                v, pairs = e
                if not pairs:
                    raise Stop()
                hit = [x for x, y in pairs if any(lo <= y <= hi for lo, hi in yes)]
                if not hit:
                    return False
                if len(hit) == len(pairs):
                    return True
                here, there = points(hit), points([x for x, y in pairs if x not in set(hit)])
                if len(here) <= 8 and len(there) <= 8:
                    raise Fork([('fact', v, here), ('fact', v, there)])
        s, f, c = split(t)

        def back(q):
            if s == 1:
                return tuple((a - c, b - c) for a, b in q)
            return tuple((c - b, c - a) for a, b in reversed(q))
        raise Fork([('fact', f, back(i)), ('fact', f, back(no))])

    def exact(self, st, t):
        """The variable of a term which depends on one variable of a small range, and its values with the
        values of the term; None if that is unknown."""
        v = one_var(t)
        if not v:
            return None
        r = self.rs(st, v)
        if sum(hi - lo + 1 for lo, hi in r) > 256:
            return None
        known = [(f, k) for f, k in st.facts.items() if f[0] != 'v' and one_var(f) == v]
        out = []
        for lo, hi in r:
            for x in range(lo, hi + 1):
                if all((y := evaluate(f, v, x)) is None or any(a <= y <= b for a, b in k) for f, k in known):
                    y = evaluate(t, v, x)
                    if y is None:
                        return None
                    out.append((x, y))
        return v, out

    def le(self, st, a, b):
        return self.test(st, sub(b, a), ((0, 1 << 220),))

    def lt(self, st, a, b):
        return self.test(st, sub(b, a), ((1, 1 << 220),))

    def eq(self, st, a, b):
        return self.test(st, sub(a, b), ((0, 0),))

    def conc(self, st, t):
        """The concrete value of a term, if it has only one."""
        if type(t) is int:
            return t
        r = self.rs(st, t)
        if r[0][0] == r[-1][1]:
            return r[0][0]
        return None

    def conc_fork(self, st, t, limit=64):
        """A concrete value of a term: forks over all its values."""
        c = self.conc(st, t)
        if c is not None:
            return c
        r = self.rs(st, t)
        n = sum(b - a + 1 for a, b in r)
        if n > limit:
            raise Unsupported('enumeration of %d values' % n)
        s, f, c = split(t)
        alts = []
        for a, b in r:
            for x in range(a, b + 1):
                y = (x - c) * s
                alts.append(('fact', f, ((y, y),)))
        raise Fork(alts)

    def refine_eq0(self, st, t):
        """Assumes that `t` is zero."""
        if type(t) is int:
            if t != 0:
                raise Stop()
            return
        s, form, off = split(t)
        self.refine(st, form, ((-off * s, -off * s),))

    def choose(self, st, n, label=None):
        if n == 1:
            return 0
        if st.ti < len(st.trace):
            r = st.trace[st.ti]
            st.ti += 1
            return r
        raise Fork([('choice', i) for i in range(n)])

    # ------------------------------------------------------------------ unknown values
    def fresh(self, st, ty, depth=0):
        t = self.p.types[ty]
        k = t['k']
        if k == 'bool':
            return self.var(st, ((0, 1),))
        if k == 'char':
            return self.var(st, CHARS)
        if k == 'int':
            return self.var(st, (int_range(t['s'], t['b']),))
        if k == 'float':
            return ('fl', self.var(st))
        if k in ('ref', 'ptr'):
            e = self.p.types[t['e']]
            if e['k'] == 'str':
                return self.any_str(st)
            return ('p', self.alloc(st, self.fresh(st, t['e'], depth + 1)), (), None)
        if k == 'tuple':
            return ('A', 0, tuple(self.fresh(st, x, depth + 1) for x in t['f']))
        if k == 'adt':
            n = t['n']
            if n.endswith('NameMap') or n.endswith('E') and False:
                return ('o', self.var(st))
            if n.endswith('Cow'):
                return ('A', 0, (self.any_str(st),))
            if n.endswith('string::String'):
                v = self.var(st)
                return ('vec', ('rope', (('blob', v, self.var(st, ((0, ISZ),))),)))
            if t['a'] == 'struct':
                return ('A', 0, tuple(self.fresh(st, x, depth + 1) for _, x in t['v'][0]['f']))
            if t['a'] == 'enum':
                i = self.choose(st, len(t['v']))
                return ('A', i, tuple(self.fresh(st, x, depth + 1) for _, x in t['v'][i]['f']))
        if k == 'array':
            return ('A', 0, tuple(self.fresh(st, t['e'], depth + 1) for _ in range(t['n'])))
        return ('o', self.var(st))

    def any_str(self, st):
        v = self.var(st)
        ln = self.var(st, ((0, ISZ),))
        c = self.alloc(st, ('rope', (('blob', v, ln),)))
        return ('p', c, (), ('s', 0, ln))

    # ------------------------------------------------------------------ constants
    def const(self, v, ty):
        if type(v) is int:
            return v
        if v == 'zst':
            return self.zst(ty)
        k = v[0]
        if k == 'str':
            r = ('rope', (('b', bytes(v[1])),) if v[1] else ())
            return ('p', self.p.kcell(r), (), ('s', 0, len(v[1])))
        if k in ('slice', 'arr'):
            e = None
            if ty is not None:
                e = self.p.types[ty].get('e')
                if k == 'slice' and e is not None:
                    e = self.p.types[e].get('e')
            x = ('A', 0, tuple(self.const(y, e) for y in v[1]))
            if k == 'arr':
                return x
            return ('p', self.p.kcell(x), (), ('s', 0, len(v[1])))
        if k == 'ref':
            ety = None
            if ty is not None and self.p.types[ty]['k'] in ('ref', 'ptr'):
                ety = self.p.types[ty]['e']
            return ('p', self.p.kcell(self.const(v[1], ety)), (), None)
        if k == 'wrap':
            return self.const(v[1], None)
        if k == 'adt':
            fts = None
            if ty is not None and self.p.types[ty]['k'] == 'adt':
                vs = self.p.types[ty]['v']
                if v[1] < len(vs):
                    fts = [x for _, x in vs[v[1]]['f']]
            elif ty is not None and self.p.types[ty]['k'] == 'tuple':
                fts = self.p.types[ty]['f']
            out = []
            for i, x in enumerate(v[2]):
                out.append(self.const(x, fts[i] if fts and i < len(fts) else None))
            if ty is not None and self.p.tyname(ty).endswith('num::NonZero'):
                r = out[0]
                while type(r) is tuple and r[0] == 'A':
                    r = r[2][0]
                return r
            return ('A', v[1], tuple(out))
        if k == 'fl':
            return ('fl', ('k', v[1]))
        if k == 'fnptr':
            return ('fn', v[1])
        if k == 'static':
            c = ('static', v[1])
            if c not in self.mem_k:
                self.mem_k[c] = self.const(v[2], None) if len(v) > 2 and v[2] is not None else ('o', ('static', v[1]))
            return ('p', c, (), None)
        if k == 'uninit':
            return UNDEF
        if k == 'addr':
            return ('addr', v[1])
        if k == 'union':
            return self.const(v[2], None)
        raise Unsupported('constant %r' % (str(v)[:80],))

    def zst(self, ty, depth=0):
        if ty is None or depth > 6:
            return UNIT
        t = self.p.types[ty]
        if t['k'] == 'adt' and t['a'] == 'struct':
            return ('A', 0, tuple(self.zst(x, depth + 1) for _, x in t['v'][0]['f']))
        if t['k'] == 'tuple':
            return ('A', 0, tuple(self.zst(x, depth + 1) for x in t['f']))
        if t['k'] == 'fndef':
            return ('fn', t['f'])
        if t['k'] == 'closure':
            return ('A', 0, ())
        return UNIT

    # ------------------------------------------------------------------ compilation to closures
    def c_place(self, fn, p):
        local, projs = p
        steps = []
        ty = fn.locals[local]
        types = self.p.types
        for e in projs:
            if e == '*':
                ty = self.pointee(ty) if ty is not None else None
                thin = ty is not None and types[ty]['k'] not in ('slice', 'str', 'dyn', 'array') and \
                    not self.unsized_adt(ty)
                steps.append(('*', thin))
            elif e[0] == 'f':
                if ty is None or not (self.wrapper(ty) or self.unsized_adt(ty) and len(self.p.types[ty]['v'][0]['f']) == 1):
                    steps.append(('f', e[1]))
                ty = e[2]
            elif e[0] == 'i':
                steps.append(('i', e[1]))
                ty = types[ty].get('e') if ty is not None else None
            elif e[0] == 'c':
                steps.append(('c', e[1], e[2], e[3]))
                ty = types[ty].get('e') if ty is not None else None
            elif e[0] == 's':
                steps.append(('s', e[1], e[2], e[3]))
            elif e[0] == 'd':
                pass
            elif e[0] == 'o':
                ty = e[1] if len(e) > 1 else None
            else:
                raise Unsupported('place projection %r' % (e,))
        if not steps:
            return lambda st: ((st.depth, local), (), None)
        if all(s[0] == 'f' for s in steps):
            path = tuple(s[1] for s in steps)
            return lambda st: ((st.depth, local), path, None)
        read = self.read

        def run(st):
            cell = (st.depth, local)
            path = ()
            meta = None
            for s in steps:
                k = s[0]
                if k == '*':
                    v = read(st, cell, path)
                    if type(v) is not tuple:
                        raise Unsupported('deref of %r' % (v,))
                    if v[0] == 'p':
                        cell, path, meta = v[1], v[2], v[3]
                        if s[1] and meta is not None and meta[0] == 's':
                            # a pointer to one element of a sequence
                            i = self.conc(st, meta[1])
                            if i is None:
                                raise Unsupported('access to an element at an unknown place')
                            path = path + (i,)
                            meta = None
                    elif v[0] == 'box':
                        cell, path, meta = v[1], (), v[2] if len(v) > 2 else None
                    else:
                        raise Unsupported('deref of %r' % (str(v)[:60],))
                elif k == 'f':
                    path = path + (s[1],)
                elif k == 'i':
                    idx = self.conc(st, st.mem[(st.depth, s[1])])
                    if idx is None:
                        idx = self.sym_index(st, cell, path, meta, st.mem[(st.depth, s[1])])
                    if meta is not None:
                        b = self.conc(st, add(meta[1], idx))
                        if b is None:
                            raise Unsupported('symbolic index')
                        idx = b
                        meta = None
                    path = path + (idx,)
                elif k == 'c':
                    off, _, fromend = s[1:]
                    if meta is not None:
                        base, ln = meta[1], meta[2]
                        idx = add(base, sub(ln, off) if fromend else off)
                        meta = None
                    else:
                        v = read(st, cell, path)
                        idx = len(v[2]) - off if fromend else off
                    idx = self.conc(st, idx)
                    if idx is None:
                        raise Unsupported('symbolic index')
                    path = path + (idx,)
                else:
                    frm, to, fromend = s[1:]
                    if meta is None:
                        v = read(st, cell, path)
                        meta = ('s', 0, len(v[2]))
                    n = sub(sub(meta[2], to), frm) if fromend else to - frm
                    meta = ('s', add(meta[1], frm), n)
            return cell, path, meta
        return run

    def sym_index(self, st, cell, path, meta, t):
        return self.conc_fork(st, t)

    def c_operand(self, fn, o):
        if o[0] == 'k':
            key = (id(o))
            v = self.const(o[2], o[1])
            return lambda st: v
        local, projs = o[1]
        if not projs:
            def rd(st):
                try:
                    return st.mem[(st.depth, local)]
                except KeyError:
                    raise Unsupported('read of uninitialised local %d' % local)
            return rd
        pl = self.c_place(fn, o[1])
        read = self.read

        def rd2(st):
            c, p, m = pl(st)
            if m is not None and m[0] == 's':
                return read(st, c, p)
            return read(st, c, p)
        return rd2

    def c_stmt(self, fn, line, s):
        k = s[0]
        if k == '=':
            rv = self.c_rvalue(fn, s[3], s[2])
            local, projs = s[1]
            if not projs:
                def f(st):
                    st.mem[(st.depth, local)] = rv(st)
                return f
            pl = self.c_place(fn, s[1])
            write = self.write

            def g(st):
                v = rv(st)
                c, p, m = pl(st)
                write(st, c, p, v)
            return g
        if k == 'setd':
            pl = self.c_place(fn, s[1])
            v = s[2]

            def h(st):
                c, p, m = pl(st)
                try:
                    x = self.read(st, c, p)
                    fs = x[2] if x[0] == 'A' else ()
                except Unsupported:
                    fs = ()
                self.write(st, c, p, ('A', v, fs))
            return h
        if k in ('live', 'dead'):
            l = s[1]

            def d(st):
                st.mem.pop((st.depth, l), None)
            return d
        if k == 'copy':
            src, dst, n = (self.c_operand(fn, x) for x in s[1:4])

            def cp(st):
                import models
                models.copy_nonoverlapping(self, st, src(st), dst(st), n(st))
            return cp
        if k in ('nop',):
            return lambda st: None
        raise Unsupported('statement %s' % k)

    def c_rvalue(self, fn, r, ty):
        k = r[0]
        if k == 'use':
            return self.c_operand(fn, r[1])
        if k == 'ref':
            pl = self.c_place(fn, r[1])

            def ref(st):
                c, p, m = pl(st)
                return ('p', c, p, m)
            return ref
        if k == 'bin':
            a, b = self.c_operand(fn, r[2]), self.c_operand(fn, r[3])
            op, ta, tb = r[1], r[4], r[5]
            return lambda st: self.binop(st, op, a(st), b(st), ta, tb, ty)
        if k == 'cbin':
            a, b = self.c_operand(fn, r[2]), self.c_operand(fn, r[3])
            op, ta, tb = r[1], r[4], r[5]
            return lambda st: self.cbin(st, op, a(st), b(st), ta)
        if k == 'un':
            a = self.c_operand(fn, r[2])
            op, ta = r[1], r[3]
            return lambda st: self.unop(st, op, a(st), ta)
        if k == 'cast':
            a = self.c_operand(fn, r[2])
            kind, frm, to = r[1], r[3], r[4]
            return lambda st: self.cast(st, kind, a(st), frm, to)
        if k == 'discr':
            pl = self.c_place(fn, r[1])
            vs = self.p.types[r[2]].get('v')

            def discr(st):
                c, p, m = pl(st)
                v = self.read(st, c, p)
                if type(v) is tuple and v[0] == 'A':
                    return vs[v[1]]['d'] if vs else 0
                return self.discr_of(st, v, r[2])
            return discr
        if k == 'len':
            pl = self.c_place(fn, r[1])

            def ln(st):
                c, p, m = pl(st)
                if m is not None:
                    return m[2]
                return len(self.read(st, c, p)[2])
            return ln
        if k == 'rep':
            a = self.c_operand(fn, r[1])
            n = r[2]
            return lambda st: ('A', 0, (a(st),) * n)
        if k == 'agg':
            ops = [self.c_operand(fn, o) for o in r[2]]
            var = r[1]
            tn = self.p.tyname(ty)
            if r[3] is not None or self.wrapper(ty):
                return lambda st: ops[0](st)
            if tn.endswith('num::NonZero'):
                return lambda st: ops[0](st)
            n = len(ops)
            if n == 0:
                v0 = ('A', var, ())
                return lambda st: v0
            if n == 1:
                o0 = ops[0]
                return lambda st: ('A', var, (o0(st),))
            return lambda st: ('A', var, tuple([o(st) for o in ops]))
        if k == 'arr':
            ops = [self.c_operand(fn, o) for o in r[1]]
            return lambda st: ('A', 0, tuple([o(st) for o in ops]))
        if k == 'rawptr':
            ops = [self.c_operand(fn, o) for o in r[1]]

            def rawptr(st):
                d = ops[0](st)
                m = ops[1](st)
                if is_term(m):
                    off = 0
                    if d[0] == 'p':
                        if d[3] is not None and d[3][0] == 's':
                            off = d[3][1]
                        return ('p', d[1], d[2], ('s', off, m))
                if d[0] == 'p':
                    return ('p', d[1], d[2], None)
                return d
            return rawptr
        raise Unsupported('rvalue %s' % k)

    def discr_of(self, st, v, ty):
        raise Unsupported('discriminant of %r' % (str(v)[:60],))

    # ------------------------------------------------------------------ operators
    def ity(self, t):
        t = self.p.types[t]
        k = t['k']
        if k == 'int':
            return t['s'], t['b']
        if k == 'bool':
            return False, 1
        if k == 'char':
            return False, 32
        if k in ('ptr', 'ref', 'fnptr'):
            return False, 64
        return None

    def binop(self, st, op, a, b, ta, tb, ty):
        if is_term(a) and is_term(b):
            if op in ('Eq', 'Ne'):
                r = self.eq(st, a, b)
                return int(r == (op == 'Eq'))
            if op == 'Lt':
                return int(self.lt(st, a, b))
            if op == 'Le':
                return int(self.le(st, a, b))
            if op == 'Gt':
                return int(self.lt(st, b, a))
            if op == 'Ge':
                return int(self.le(st, b, a))
            if op == 'Cmp':
                if self.lt(st, a, b):
                    return ('A', 0, ())
                return ('A', 1, ()) if self.eq(st, a, b) else ('A', 2, ())
            s, bits = self.ity(ta)
            return self.arith(st, op, a, b, s, bits)
        if op in ('Eq', 'Ne'):
            r = self.veq(st, a, b)
            return int(r == (op == 'Eq'))
        if type(a) is tuple and a[0] == 'fl' or type(b) is tuple and b[0] == 'fl':
            if op in ('Lt', 'Le', 'Gt', 'Ge'):
                return self.choose(st, 2)
            return ('fl', ('f', op, (a, b)))
        if op == 'Offset':
            return self.ptr_off(st, a, b)
        if op in ('Lt', 'Le', 'Gt', 'Ge') and type(a) is tuple and type(b) is tuple and a[0] == 'p' and b[0] == 'p':
            d = self.ptr_diff(st, a, b)
            if d is not None:
                return self.binop(st, op, d, 0, ta, tb, ty)
        if op in ('BitAnd', 'Sub') :
            if op == 'BitAnd' and type(b) is int and 0 <= b < 16 and type(a) is tuple and a[0] == 'p':
                return 0        # allocations are aligned
            if op == 'Sub' and type(a) is tuple and type(b) is tuple and a[0] == 'p' and b[0] == 'p':
                d = self.ptr_diff(st, a, b)
                if d is not None:
                    return d
        raise Unsupported('%s on %r, %r' % (op, str(a)[:50], str(b)[:50]))

    def ptr_off(self, st, a, n):
        if a[0] == 'p' and a[3] is not None and a[3][0] == 's':
            return ('p', a[1], a[2], ('s', add(a[3][1], n), sub(a[3][2], n)))
        if n == 0:
            return a
        if a[0] == 'p' and a[2] and type(a[2][-1]) is int:
            return ('p', a[1], a[2][:-1] + (self.conc(st, add(a[2][-1], n)),), a[3])
        raise Unsupported('pointer offset')

    def ptr_pos(self, p):
        """(base, byte position) of a pointer into a byte sequence."""
        if p[3] is not None and p[3][0] == 's':
            return (p[1], p[2]), p[3][1]
        return None, None

    def ptr_diff(self, st, a, b):
        ba, oa = self.ptr_pos(a)
        bb, ob = self.ptr_pos(b)
        if ba is not None and ba == bb:
            return sub(oa, ob)
        return None

    def veq(self, st, a, b):
        if a == b:
            return True
        if type(a) is tuple and type(b) is tuple:
            if a[0] == 'p' and b[0] == 'p':
                d = self.ptr_diff(st, a, b)
                if d is not None:
                    return self.eq(st, d, 0) and (a[3] == b[3] or self.eq(st, a[3][2], b[3][2]))
                return False
            if a[0] == 'fl' and b[0] == 'fl':
                return bool(self.choose(st, 2))
            if a[0] in ('fn',) and b[0] in ('fn',):
                return False
            if a[0] == 'addr' or b[0] == 'addr':
                return False
        if a == 0 and b[0] in ('p', 'box') or b == 0 and a[0] in ('p', 'box'):
            return False            # references aren't null
        raise Unsupported('equality of %r and %r' % (str(a)[:60], str(b)[:60]))

    def wrap(self, st, t, s, bits):
        lo, hi = int_range(s, bits)
        if type(t) is int:
            t &= (1 << bits) - 1
            if s and t >> (bits - 1):
                t -= 1 << bits
            return t
        if self.test(st, t, ((lo, hi),)):
            return t
        r = self.rs(st, t)
        m = 1 << bits
        # out of range by a known number of turns
        k1, k2 = (r[0][0] - lo) // m, (r[-1][1] - lo) // m
        if k1 == k2:
            return sub(t, k1 * m)
        if k2 - k1 <= 2:
            for k in range(k1, k2):
                if k and self.test(st, t, ((lo + k * m, hi + k * m),)):
                    return sub(t, k * m)
            return sub(t, k2 * m)
        return ('f', 'ty', (s, bits, t))

    def arith(self, st, op, a, b, s, bits):
        """Wrapping machine arithmetic."""
        if op in ('Add', 'AddUnchecked'):
            return self.wrap(st, add(a, b), s, bits)
        if op in ('Sub', 'SubUnchecked'):
            return self.wrap(st, sub(a, b), s, bits)
        if op in ('Mul', 'MulUnchecked'):
            return self.wrap(st, self.mul(st, a, b), s, bits)
        if op in ('Div', 'Rem'):
            ca, cb = self.conc(st, a), self.conc(st, b)
            if ca is not None and cb is not None and cb != 0:
                q = abs(ca) // abs(cb)
                if (ca < 0) != (cb < 0):
                    q = -q
                return self.wrap(st, q, s, bits) if op == 'Div' else ca - q * cb
            if cb is not None and cb > 0 and self.rs(st, a)[0][0] >= 0:
                return self.divrem(st, op, a, cb)
            return ('f', 'ty', (s, bits, (op, a, b)))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bitop(st, op, a, b, s, bits)
        if op in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked'):
            n = self.conc(st, b)
            if n is None:
                return ('f', 'ty', (s, bits, (op, a, b)))
            n %= bits
            if op.startswith('Shl'):
                return self.wrap(st, scale(a, 1 << n), s, bits)
            if type(a) is int:
                return a >> n
            return self.divrem(st, 'Div', a, 1 << n)
        raise Unsupported('operator ' + op)

    def mul(self, st, a, b):
        ca, cb = self.conc(st, a), self.conc(st, b)
        if ca is not None:
            return scale(b, ca)
        if cb is not None:
            return scale(a, cb)
        return ('f', 'mul', tuple(sorted((a, b), key=repr)))

    def divrem(self, st, op, a, d):
        c, m = lin(a)
        if all(k % d == 0 for k in m.values()):
            if op == 'Div':
                return mk(c // d, {x: k // d for x, k in m.items()})
            return c % d
        # the part which is not a multiple may be small
        rest = mk(c % d, {x: k % d for x, k in m.items() if k % d})
        r = self.rs(st, rest)
        q = r[0][0] // d
        if q == r[-1][1] // d and (r[0][0] >= 0 or self.rs(st, a)[0][0] >= 0):
            if op == 'Div':
                return mk((c - c % d) // d + q, {x: (k - k % d) // d for x, k in m.items()})
            return sub(rest, q * d)
        return ('f', 'div' if op == 'Div' else 'rem', (a, d))

    def bitop(self, st, op, a, b, s, bits):
        if type(a) is tuple and a[0] == 'p' and op == 'BitAnd' and type(b) is int and b < 16:
            return 0        # pointers are aligned
        ca, cb = self.conc(st, a), self.conc(st, b)
        if ca is not None and cb is not None:
            x = {'BitAnd': ca & cb, 'BitOr': ca | cb, 'BitXor': ca ^ cb}[op]
            return self.wrap(st, x, s, bits)
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None and self.rs(st, a)[0][0] >= 0 or cb is not None and cb >= 0:
            lo, hi = self.rs(st, a)[0][0], self.rs(st, a)[-1][1]
            if lo >= 0:
                full = (1 << max(hi.bit_length(), 1)) - 1
                m = cb & ((1 << bits) - 1)
                if op == 'BitAnd':
                    m &= full
                    if m == 0:
                        return 0
                    if m == full:
                        return a
                    # the bits which the mask clears are the same for the whole range of a
                    k = (lo ^ hi).bit_length()
                    if m & ((1 << k) - 1) == (1 << k) - 1:
                        return sub(a, (lo >> k << k) & ~m)
                    cleared = full & ~m
                    t = cleared.bit_length()
                    if cleared == 1 << (t - 1) and hi < 1 << 32:
                        # one bit is cleared: tell apart the values below it, with it, and above it
                        for cut in (1 << t, 1 << (t - 1)):
                            if lo < cut <= hi:
                                self.test(st, a, ((lo, cut - 1),))
                                lo, hi = self.rs(st, a)[0][0], self.rs(st, a)[-1][1]
                        if hi < 1 << t:
                            return a if hi < 1 << (t - 1) else sub(a, 1 << (t - 1))
                        r = ('f', 'and', tuple(sorted((a, b), key=repr)))
                        st.facts[r] = ((lo & ~cleared, hi),)
                        return r
                    tz = (m & -m).bit_length() - 1
                    top = m.bit_length()
                    if m == ((1 << top) - 1) ^ ((1 << tz) - 1):
                        # a contiguous mask: (a mod 2^top) with the low tz bits cleared
                        x = a
                        if top < full.bit_length():
                            x = self.divrem(st, 'Rem', x, 1 << top)
                        if tz:
                            x = sub(x, self.divrem(st, 'Rem', x, 1 << tz))
                        return x
                if op == 'BitOr':
                    if m == 0:
                        return a
                    # bits known to be zero in a: below the power of two dividing it, above its range
                    c, d = lin(a)
                    g = 1
                    while all(k % (g * 2) == 0 for k in d.values()) and c % (g * 2) == 0 and g < (1 << 64):
                        g *= 2
                    if m < g or (m & full) == 0:
                        return add(a, m)
                    # the high bits of a are the same for its whole range
                    k = (lo ^ hi).bit_length()
                    if m & ((1 << k) - 1) == 0:
                        h = lo >> k << k
                        return add(a, (h | m) - h)
                if op == 'BitXor' and bits == 1 and m == 1:
                    return sub(1, a)
        if op == 'BitOr':
            # operands with disjoint bits add up
            for x, y in ((a, b), (b, a)):
                c, d = lin(x)
                hi = self.rs(st, y)[-1][1]
                if self.rs(st, y)[0][0] >= 0:
                    g = 1 << hi.bit_length()
                    if all(k % g == 0 for k in d.values()) and c % g == 0:
                        return add(x, y)
        if bits == 1:
            # booleans: decide them
            x = self.eq(st, a, 1)
            y = self.eq(st, b, 1)
            return int({'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[op])
        n = {'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[op]
        return ('f', n, tuple(sorted((a, b), key=repr)))

    def cbin(self, st, op, a, b, ta):
        s, bits = self.ity(ta)
        lo, hi = int_range(s, bits)
        if op == 'Sub' and type(a) is tuple and type(b) is tuple and a[0] == 'p' and b[0] == 'p':
            # the distance of two places in the same allocation
            t = self.ptr_diff(st, a, b)
            if t is None:
                raise Unsupported('difference of unrelated pointers')
        else:
            t = {'Add': add, 'Sub': sub}.get(op)
            t = t(a, b) if t else self.mul(st, a, b)
        if type(t) is int:
            return ('A', 0, (self.wrap(st, t, s, bits), int(not (lo <= t <= hi))))
        r = self.rs(st, t)
        if r[0][0] >= lo and r[-1][1] <= hi:
            return ('A', 0, (t, 0))
        # A counter stepped by a small constant doesn't leave a range of 2^31 or more.
        if op in ('Add', 'Sub') and bits >= 32 and not st.fn.defn.startswith(('core::num::', 'std::num::')) and \
                (type(b) is int and abs(b) <= 64 or type(a) is int and op == 'Add' and abs(a) <= 64):
            d = b if type(b) is int else a
            if op == 'Sub':
                d = -d
            ok = None
            if d > 0:
                ok = ((lo, hi),) if r[0][0] >= lo else None
            elif s:
                ok = ((lo, hi),)
            if ok:
                self.assumed[(st.fn.name, op)] = self.assumed.get((st.fn.name, op), 0) + 1
                sg, f, c = split(t)
                q = rs_inter(r, ok)
                if not q:
                    raise Stop()
                if sg == 1:
                    q = tuple((x - c, y - c) for x, y in q)
                else:
                    q = tuple((c - y, c - x) for x, y in reversed(q))
                self.refine(st, f, q)
                return ('A', 0, (t, 0))
        if self.test(st, t, ((lo, hi),)):
            return ('A', 0, (t, 0))
        return ('A', 0, (self.wrap(st, t, s, bits), 1))

    def unop(self, st, op, a, ta):
        if op == 'Not':
            t = self.p.types[ta]
            if t['k'] == 'bool':
                return 1 - a if type(a) is int else sub(1, a)
            if t['s']:
                return sub(-1, a)
            return sub((1 << t['b']) - 1, a)
        if op == 'Neg':
            if type(a) is tuple and a[0] == 'fl':
                return ('fl', ('f', 'neg', (a,)))
            s, bits = self.ity(ta)
            return self.wrap(st, scale(a, -1), s, bits)
        if op == 'PtrMetadata':
            if a[0] == 'p' and a[3] is not None and a[3][0] == 's':
                return a[3][2]
            if a[0] == 'p' and a[3] is None:
                return UNIT
        raise Unsupported('unary %s of %r' % (op, str(a)[:60]))

    def cast(self, st, kind, v, frm, to):
        if kind in ('IntToInt',):
            if not is_term(v):
                if type(v) is tuple and v[0] == 'A':
                    return self.p.types[frm]['v'][v[1]]['d']
                return self.opq_cast(st, v, to)
            if self.p.types[frm]['k'] == 'adt':
                return v
            s, bits = self.ity(to)
            if type(v) is not int and not s:
                # truncation of a value which is not negative
                r = self.rs(st, v)
                if r[0][0] >= 0 and r[-1][1] >= (1 << bits):
                    return self.divrem(st, 'Rem', v, 1 << bits)
            return self.wrap(st, v, s, bits)
        if kind.startswith('PointerCoercion(Unsize'):
            return self.unsize(st, v, frm, to)
        if kind.startswith('PointerCoercion'):
            if 'ReifyFn' in kind or 'Closure' in kind:
                t = self.p.types[frm]
                if t['k'] == 'fndef':
                    return ('fn', t['f'])
                if t['k'] == 'closure':
                    return ('fn', t.get('call'))
            return v
        if kind in ('PtrToPtr', 'FnPtrToPtr'):
            return self.ptr_cast(st, v, frm, to)
        if kind in ('PointerExposeAddress', 'PointerExposeProvenance'):
            return v if v[0] != 'addr' else v[1]
        if kind == 'PointerWithExposedProvenance':
            return ('addr', v) if is_term(v) else v
        if kind in ('Transmute', 'BoxDerefTransmute'):
            return self.transmute(st, v, frm, to)
        if kind in ('IntToFloat', 'FloatToFloat'):
            return ('fl', ('f', kind, (v,)))
        raise Unsupported('cast %s of %r' % (kind, str(v)[:60]))

    def opq_cast(self, st, v, to):
        raise Unsupported('integer cast of %r' % (str(v)[:60],))

    def unsize(self, st, v, frm, to):
        e = self.pointee(frm)
        t2 = self.pointee(to)
        if e is not None and t2 is not None:
            a, b = self.p.types[e], self.p.types[t2]
            if a['k'] == 'array' and b['k'] == 'slice':
                if v[0] == 'p':
                    return ('p', v[1], v[2], ('s', 0, a['n']))
                if v[0] == 'box':
                    return ('box', v[1], ('s', 0, a['n']))
            if b['k'] == 'dyn':
                if v[0] == 'p':
                    return ('p', v[1], v[2], ('d', e))
                if v[0] == 'box':
                    return ('box', v[1], ('d', e))
        return v

    def pointee(self, t):
        t = self.p.types[t]
        if t['k'] in ('ref', 'ptr'):
            return t['e']
        if t['k'] == 'adt' and t['n'].endswith('boxed::Box'):
            return t['args'][0] if t.get('args') else None
        return None

    def ptr_cast(self, st, v, frm, to):
        a, b = self.pointee(frm), self.pointee(to)
        if type(v) is tuple and v[0] == 'p' and b is not None:
            bk = self.p.types[b]['k']
            if v[3] is None and a is not None and a != b:
                at = self.p.types[self.unwrapped(a)]
                if at['k'] == 'array' and self.unwrapped(at['e']) == self.unwrapped(b):
                    return ('p', v[1], v[2], ('s', 0, at['n']))
            if v[3] is not None and v[3][0] == 's' and bk not in ('slice', 'str') and not self.unsized_adt(b):
                if bk == 'array':
                    return ('p', v[1], v[2], None)
                # a thin pointer to the first element keeps its place in the sequence
                return v
        return v

    def raw_pointee(self, t):
        x = self.p.types[t]
        if x['k'] == 'adt' and x['n'].endswith('NonNull') and x.get('args'):
            return x['args'][0]
        return self.pointee(t)

    def array_pointee(self, t):
        a = self.raw_pointee(t)
        if a is not None:
            a = self.unwrapped(a)
            if self.p.types[a]['k'] == 'array':
                return a
        return None

    def wrapper(self, t):
        x = self.p.types[t]
        return x['k'] == 'adt' and x['n'].rsplit('::', 1)[-1] in ('ManuallyDrop', 'MaybeUninit', 'MaybeDangling')

    def unwrapped(self, t):
        """The content of ManuallyDrop and MaybeUninit, which are represented by it."""
        n = 0
        while n < 5:
            x = self.p.types[t]
            if self.wrapper(t) and x.get('args'):
                t = x['args'][0]
                n += 1
            else:
                break
        return t

    def unsized_adt(self, t):
        t = self.p.types[t]
        if t['k'] == 'adt' and t['a'] == 'struct' and t['v'][0]['f']:
            l = t['v'][0]['f'][-1][1]
            return self.p.types[l]['k'] in ('slice', 'str', 'dyn') or self.unsized_adt(l)
        return False

    def transmute(self, st, v, frm, to):
        ft, tt = self.p.types[frm], self.p.types[to]
        if type(v) is tuple and v[0] in ('p', 'box', 'addr', 'fn'):
            if v[0] == 'box' and tt['k'] in ('ptr', 'ref'):
                return ('p', v[1], (), v[2] if len(v) > 2 else None)
            if v[0] == 'p' and v[3] is None:
                a = self.array_pointee(frm)
                b = self.raw_pointee(to)
                if a is not None and b is not None:
                    at = self.p.types[a]
                    if self.unwrapped(at['e']) == self.unwrapped(b):
                        return ('p', v[1], v[2], ('s', 0, at['n']))
            return v
        if tt['k'] == 'adt' and tt['n'].endswith('Option') and is_term(v):
            # Option<NonZero>
            if self.eq(st, v, 0):
                return ('A', 0, ())
            return ('A', 1, (v,))
        if is_term(v):
            if tt['k'] in ('int', 'char', 'bool'):
                if tt['k'] == 'int':
                    return self.wrap(st, v, tt['s'], tt['b'])
                return v
            if tt['k'] == 'adt' and tt['a'] == 'enum':
                c = self.conc_fork(st, v, 300)
                for i, x in enumerate(tt['v']):
                    if x['d'] == c:
                        return ('A', i, ())
                raise Stop()
            return v
        if type(v) is tuple and v[0] == 'A' and tt['k'] in ('int',) and ft['k'] == 'adt' and ft['a'] == 'enum':
            full = [x for x in ft['v'] if x['f'] and self.p.types[x['f'][0][1]].get('size', 1) != 0]
            if full:
                # the variants without data are the values which the data of the other cannot have
                if len(full) == 1 and self.p.types[full[0]['f'][0][1]]['k'] == 'bool' and len(ft['v']) == 2:
                    return v[2][0] if ft['v'][v[1]] is full[0] else 2
                raise Unsupported('reinterpretation of an enum')
            return ft['v'][v[1]]['d']
        if ft['k'] == 'array' and tt['k'] == 'array':
            return v
        if ft['k'] == 'adt' and tt['k'] in ('int', 'ptr', 'ref', 'char') and v[0] == 'A' and len(v[2]) == 1:
            return v[2][0]
        return v

    # ------------------------------------------------------------------ terminators
    def c_term(self, fn, line, file, t):
        k = t[0]
        if k == 'goto':
            tgt = t[1]

            def goto(st):
                st.bb = tgt
                st.si = 0
            return goto
        if k == 'switch':
            op = self.c_operand(fn, t[1])
            table = dict((v, b) for v, b in t[2])
            other = t[3]
            ity = self.ity(t[4])
            if ity and ity[0]:
                table = {v - (1 << ity[1]) if v >> (ity[1] - 1) & 1 else v: b for v, b in table.items()}

            def switch(st):
                v = op(st)
                if type(v) is not int:
                    if not is_term(v):
                        raise Unsupported('switch on %r' % (str(v)[:60],))
                    c = self.conc(st, v)
                    if c is None:
                        r = self.rs(st, v)
                        sg, f, off = split(v)
                        alts = []
                        rest = r
                        for val in table:
                            if rs_inter(rest, ((val, val),)):
                                y = (val - off) * sg
                                alts.append(('fact', f, ((y, y),)))
                                rest = rs_minus(rest, ((val, val),))
                        if rest:
                            if sg == 1:
                                q = tuple((a - off, b - off) for a, b in rest)
                            else:
                                q = tuple((off - b, off - a) for a, b in reversed(rest))
                            if not alts:
                                st.bb = other
                                st.si = 0
                                return
                            alts.append(('fact', f, q))
                        raise Fork(alts)
                    v = c
                if v not in table and ity and ity[0] and v < 0 and (v + (1 << ity[1])) in table:
                    v += 1 << ity[1]
                st.bb = table.get(v, other)
                st.si = 0
            return switch
        if k == 'ret':
            return self.do_return
        if k == 'unreachable':
            def unreachable(st):
                raise Unsupported('unreachable code reached')
            return unreachable
        if k == 'resume':
            def resume(st):
                raise Stop()
            return resume
        if k == 'drop':
            tgt = t[2]
            if t[3] is None or not self.drop_matters(t[3]):
                def nodrop(st):
                    st.bb = tgt
                    st.si = 0
                return nodrop
            pl = self.c_place(fn, t[1])
            f = t[3]

            def drop(st):
                c, p, m = pl(st)
                try:
                    self.read(st, c, p)
                except Unsupported:
                    st.bb = tgt
                    st.si = 0
                    return
                cell = ('x', st.depth)
                self.enter(st, f, (('p', c, p, m),), None, (), tgt)
            return drop
        if k == 'assert':
            op = self.c_operand(fn, t[1])
            exp, tgt, msg = t[2], t[3], t[4]
            exp = 1 if exp else 0

            def asrt(st):
                v = op(st)
                if type(v) is not int:
                    v = 1 if self.eq(st, v, 1) else 0
                if v == exp:
                    st.bb = tgt
                    st.si = 0
                else:
                    raise Panic('assert:' + str(msg[0]))
            return asrt
        if k == 'call':
            return self.c_call(fn, line, file, t)
        raise Unsupported('terminator ' + k)

    def drop_matters(self, fid):
        """Does dropping run any code of the analysed crates?"""
        r = self.dropm.get(fid)
        if r is None:
            seen, todo, r = {fid}, [fid], False
            while todo:
                f = self.p.fns[todo.pop()]
                if f.defn and f.defn.endswith('Drop>::drop') and (f.crate.startswith('serdere') or f.crate == 'model'):
                    r = True
                    break
                if not f.body:
                    continue
                for _, term in f.bbs:
                    t = term[2]
                    n = t[3] if t[0] == 'drop' else t[1] if t[0] == 'call' else None
                    if type(n) is int and n not in seen:
                        seen.add(n)
                        todo.append(n)
            self.dropm[fid] = r
        return r

    def c_call(self, fn, line, file, t):
        callee, args, dest, target, destty, argtys = t[1:7]
        ops = [self.c_operand(fn, a) for a in args]
        dl, dp = dest
        dpl = None if not dp else self.c_place(fn, dest)

        def finish(st, val):
            if target is None:
                raise Stop()
            if dpl is None:
                st.mem[(st.depth, dl)] = val
            else:
                c, p, m = dpl(st)
                self.write(st, c, p, val)
            st.bb = target
            st.si = 0

        if type(callee) is list:
            if callee[0] == 'ptr':
                fop = self.c_operand(fn, callee[1])

                def icall(st):
                    f = fop(st)
                    if f[0] != 'fn':
                        raise Unsupported('call through %r' % (str(f)[:60],))
                    vals = [o(st) for o in ops]
                    if dpl is None:
                        c, p = (st.depth, dl), ()
                    else:
                        c, p, m = dpl(st)
                    self.call_fn(st, f[1], vals, c, p, target, destty, argtys, (fn, line, file))
                return icall

            def ucall(st):
                raise Unsupported('unresolved call %s' % callee[1])
            return ucall
        f = self.p.fns[callee]
        model = self.find_model(f)
        site = (fn.name, line, file)
        if model is not None:
            def mcall(st):
                self.site = site
                vals = [o(st) for o in ops]
                snap = st.clone()
                snap.si = st.si
                try:
                    r = model(self, st, f, vals, argtys, destty)
                    if type(r) is tuple and r and r[0] == 'CALL':
                        # the model asks to call a function of the program, giving the result as is
                        if dpl is None:
                            c, p = (st.depth, dl), ()
                        else:
                            c, p, m = dpl(st)
                        self.call_fn(st, r[1], list(r[2]), c, p, target, destty, argtys, (fn, line, file))
                        return
                    finish(st, r)
                except Fork:
                    self.restore(st, snap)
                    raise
            return mcall
        if f.body is None:
            ctor = self.ctor(f, destty)
            if ctor is not None:
                return lambda st: finish(st, ('A', ctor, tuple(o(st) for o in ops)))

            def nobody(st):
                raise Unsupported('no body for %s' % f.defn)
            return nobody

        def call(st):
            vals = [o(st) for o in ops]
            if dpl is None:
                c, p = (st.depth, dl), ()
            else:
                c, p, m = dpl(st)
            self.enter(st, callee, vals, c, p, target)
        return call

    def restore(self, st, snap):
        st.fn, st.bb, st.si, st.depth, st.frames = snap.fn, snap.bb, snap.si, snap.depth, snap.frames
        st.mem, st.facts, st.mon, st.nv, st.nc, st.hist = snap.mem, snap.facts, snap.mon, snap.nv, snap.nc, snap.hist

    def call_fn(self, st, fid, vals, c, p, target, destty, argtys, where):
        f = self.p.fns[fid]
        model = self.find_model(f)
        if model is not None:
            r = model(self, st, f, vals, argtys, destty)
            if type(r) is tuple and r and r[0] == 'CALL':
                return self.call_fn(st, r[1], list(r[2]), c, p, target, destty, argtys, where)
            if target is None:
                raise Stop()
            self.write(st, c, p, r)
            st.bb = target
            st.si = 0
            return
        if f.body is None:
            ctor = self.ctor(f, destty)
            if ctor is None:
                raise Unsupported('no body for %s' % f.defn)
            if target is None:
                raise Stop()
            self.write(st, c, p, ('A', ctor, tuple(vals)))
            st.bb = target
            st.si = 0
            return
        self.enter(st, fid, vals, c, p, target)

    def ctor(self, f, destty):
        """The variant which the constructor function `f` makes."""
        t = self.p.types[destty]
        if t['k'] == 'adt' and t['v']:
            n = f.defn.rsplit('::', 1)[-1]
            for i, v in enumerate(t['v']):
                if v['n'].rsplit('::', 1)[-1] == n:
                    return i
        return None

    def find_model(self, f):
        if f.model is None:
            m = self.mon.intercept(f)
            if m is None:
                m = self.models.get(f.defn)
            if m is None and f.kind == 'intrinsic':
                m = self.models.get('intrinsic:' + (f.intr or ''))
                if m is None:
                    nm = f.defn.rsplit('::', 1)[-1]
                    m = self.models.get('intrinsic:' + nm)
            if m is None and f.defn.endswith('::precondition_check'):
                m = self.models['intrinsic:assume']
            if m is None:
                for pre, fnm in self.prefix_models:
                    if f.defn.startswith(pre):
                        m = fnm
                        break
            f.model = m if m is not None else False
        return f.model or None

    def enter(self, st, fid, vals, c, p, target):
        f = self.p.fns[fid]
        if st.depth > 60:
            raise Unsupported('call depth')
        self.p.prepare(f)
        self.fns_seen.add(fid)
        st.frames = st.frames + ((st.fn.id, target, c, p),)
        st.depth += 1
        d = st.depth
        vals = list(vals)
        if f.spread is not None:
            # the callee takes its last arguments as a tuple
            n = f.argc - 1
            if len(vals) != f.argc or not (type(vals[-1]) is tuple and vals[-1][0] == 'A'):
                vals = vals[:n] + [('A', 0, tuple(vals[n:]))]
        elif len(vals) != f.argc:
            # a closure called through a Fn trait gets its arguments as a tuple
            if vals and type(vals[-1]) is tuple and vals[-1][0] == 'A' and len(vals) - 1 + len(vals[-1][2]) == f.argc:
                vals = vals[:-1] + list(vals[-1][2])
            else:
                raise Unsupported('argument count of %s' % f.defn)
        elif f.closure and f.argc == 2 and type(vals[-1]) is tuple and vals[-1][0] == 'A' and self.tupled(f, vals[-1]):
            vals = vals[:-1] + list(vals[-1][2])
        for i, v in enumerate(vals):
            st.mem[(d, i + 1)] = v
        st.fn = f
        st.bb = 0
        st.si = 0

    def tupled(self, f, v):
        if len(v[2]) != 1:
            return False
        # a single argument: unpack the one-tuple (closures are always called with a tuple)
        return True

    def do_return(self, st):
        d = st.depth
        mem = st.mem
        v = mem.get((d, 0), UNIT)
        for i in range(len(st.fn.locals)):
            mem.pop((d, i), None)
        if not st.frames:
            raise Stop()
        fid, target, c, p = st.frames[-1]
        st.frames = st.frames[:-1]
        st.depth = d - 1
        if fid is None:
            raise Stop()
        st.fn = self.p.fns[fid]
        if target is None:
            raise Stop()
        if c is not None:
            self.write(st, c, p, v)
        st.bb = target
        st.si = 0

    # ------------------------------------------------------------------ engine
    def block(self, fn, bb):
        key = (fn.id, bb)
        b = self.compiled.get(key)
        if b is None:
            stmts, term = fn.bbs[bb]
            out = []
            for line, s in stmts:
                try:
                    out.append(self.c_stmt(fn, line, s))
                except Unsupported as e:
                    out.append(self.bad(e))
            try:
                t = self.c_term(fn, term[0], term[1], term[2])
            except Unsupported as e:
                t = self.bad(e)
            b = (out, t)
            self.compiled[key] = b
        return b

    def bad(self, e):
        def f(st):
            raise Unsupported(str(e))
        return f

    def where(self, st):
        """The innermost position in the analysed crates, and the call chain."""
        out = []
        f, bb, si = st.fn, st.bb, st.si
        stmts, term = f.bbs[bb]
        line = stmts[si][0] if si < len(stmts) else term[0]
        out.append((f.name, term[1] if si >= len(stmts) or True else f.file, line))
        for fid, target, c, p in reversed(st.frames):
            if fid is None:
                break
            g = self.p.fns[fid]
            ln = g.line
            for stmts, term in g.bbs:
                if term[2][0] == 'call' and term[2][4] == target:
                    ln = term[0]
                    break
            out.append((g.name, g.file, ln))
        return out

    def start(self, root):
        f = self.p.fns[self.p.roots[root]]
        self.p.prepare(f)
        self.fns_seen.add(f.id)
        st = State()
        st.fn = f
        st.bb = 0
        st.si = 0
        st.depth = 0
        st.frames = ()
        st.mem = {}
        st.facts = {}
        st.mon = self.mon.initial(root)
        st.nv = 0
        st.nc = 0
        st.trace = ()
        st.ti = 0
        st.hist = None
        self.root = root
        self.work.append(st)

    def run(self):
        work = self.work
        while work:
            st = work.pop()
            try:
                self.advance(st)
            except Stop:
                self.stats['paths'] += 1
            except Fork as f:
                self.fork(st, f)
            except Panic as p:
                self.stats['panics'] += 1
                try:
                    self.mon.on_panic(self, st, p.msg)
                except Violation as v:
                    self.report(st, v)
                except Fork as f:
                    self.fork(st, f)
                except Stop:
                    pass
            except Violation as v:
                self.report(st, v)
            except Unsupported as e:
                self.unsup(st, e)
            if self.stats['states'] > self.limits['states'] or \
                    (self.stats['steps'] & 255) == 0 and time.time() - self.t0 > self.limits['seconds']:
                self.exceeded = 'limit reached in %s after %d states' % (self.root, self.stats['states'])
                work.clear()
                break

    def unsup(self, st, e):
        key = (str(e), st.fn.name)
        if key not in self.undecided:
            self.undecided[key] = dict(reason=str(e), root=self.root, where=self.where(st), hist=self.history(st))

    def report(self, st, v):
        w = self.where(st)
        if v.key not in self.violations:
            self.violations[v.key] = dict(msg=v.msg, key=v.key, root=self.root, where=w, hist=self.history(st))

    def history(self, st):
        out = []
        h = st.hist
        while h is not None:
            out.append(h[1])
            h = h[0]
        return out[::-1][-60:]

    def fork(self, st, f):
        self.stats['forks'] += 1
        n = len(f.alts)
        for i, a in enumerate(reversed(f.alts)):
            s = st if i == n - 1 else st.clone()
            s.ti = 0
            if a[0] == 'fact':
                try:
                    self.refine(s, a[1], a[2])
                except Stop:
                    continue
            else:
                s.trace = s.trace + (a[1],)
            self.work.append(s)

    def advance(self, st):
        global CURRENT
        CURRENT = self, st
        stats = self.stats
        while True:
            stats['steps'] += 1
            fn = st.fn
            stmts, term = self.block(fn, st.bb)
            i = st.si
            n = len(stmts)
            try:
                while i < n:
                    stmts[i](st)
                    i += 1
            except (Fork, Unsupported, Panic):
                st.si = i
                raise
            st.si = n
            term(st)
            if st.trace:
                st.trace = ()
            st.ti = 0
            if st.si == 0 and st.bb in st.fn.heads and st.fn is fn:
                if not self.merge(st):
                    stats['merged'] += 1
                    return

    # ------------------------------------------------------------------ merging at loop heads
    def merge(self, st):
        import canon
        return canon.merge(self, st)


def int_range(s, bits):
    if s:
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1
