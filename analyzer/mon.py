"""The environment of the clients in `model/`, as seen by the automaton of a property."""
from terms import *
from interp import CHARS, Panic, Stop, Fork, Unsupported, Violation, UNIT
import models
from models import some, ok, err, NONE

PRE = 'model::env::'


class Monitor:
    # how many different states at one place, and values of one of their integers, before widening
    many_shapes, many_values, many_facts = 40, 6, 6
    flat = False       # forget relations between values which are gone
    many_points = 0     # up to how many values of such an integer are told apart

    def __init__(self):
        self.count = {}
        self.table = {}
        for n in dir(self):
            if n.startswith('env_'):
                self.table[PRE + n[4:]] = self.wrap(getattr(self, n))

    def wrap(self, g):
        def m(I, st, f, vals, argtys, destty):
            return g(I, st, f, vals, argtys, destty)
        return m

    def tick(self, rule):
        self.count[rule] = self.count.get(rule, 0) + 1

    def intercept(self, f):
        return self.table.get(f.defn)

    def initial(self, root):
        return ()

    # ---- helpers
    def lit(self, I, st, p):
        """The Rust string a constant pointer points to."""
        v = I.read(st, p[1], p[2])
        b = b''.join(c[1] for c in v[1])
        s, n = p[3][1], p[3][2]
        return b[s:s + n].decode()

    def hist(self, I, st, text):
        st.hist = (st.hist, text)

    def same(self, I, st, a, b):
        """Are two values certainly equal?"""
        if a == b:
            return True
        if is_term(a) and is_term(b):
            d = sub(a, b)
            if type(d) is not int:
                d = normal(d)
            if type(d) is int:
                return d == 0
            r = I.rs(st, d)
            return r[0][0] == 0 and r[-1][1] == 0
        if type(a) is tuple and type(b) is tuple and a and b and a[0] == b[0]:
            if a[0] == 'A':
                return a[1] == b[1] and len(a[2]) == len(b[2]) and all(self.same(I, st, x, y) for x, y in zip(a[2], b[2]))
            if a[0] == 'p' and a[3] is not None and b[3] is not None and a[3][0] == 's' == b[3][0]:
                x, y = self.text(I, st, a), self.text(I, st, b)
                return x is not None and x == y
            if a[0] == 'p' and a[3] is None and b[3] is None:
                return self.same(I, st, I.load(st, a), I.load(st, b))
            if a[0] == 'box':
                return self.same(I, st, I.load(st, a), I.load(st, b))
            if a[0] == 'vec':
                return self.same(I, st, a[1], b[1])
        return False

    def text(self, I, st, p):
        """A value standing for the characters of a string slice."""
        v = I.read(st, p[1], p[2])
        if type(v) is tuple and v[0] == 'vec':
            v = v[1]
        s, n = p[3][1], p[3][2]
        if v[0] == 'rope':
            ln = rope_len(v)
            if s == 0 and (n == ln or self.same(I, st, n, ln)):
                return v[1]
            if all(c[0] == 'b' for c in v[1]) and type(s) is int and type(n) is int:
                b = b''.join(c[1] for c in v[1])[s:s + n]
                return (('b', b),) if b else ()
            return ('part', v[1], s, n)
        return None

    def str_eq(self, I, st, a, b):
        import coll
        r = coll.text_eq(I, st, a, b)
        if r is None:
            return I.choose(st, 2)
        return int(r)

    def copyval(self, I, st, v):
        return v

    # ---- environment
    def env_any(self, I, st, f, vals, argtys, destty):
        return I.fresh(st, destty)

    def env_any_str(self, I, st, f, vals, argtys, destty):
        return I.any_str(st)

    def env_any_text(self, I, st, f, vals, argtys, destty):
        r = ('rope', tuple(('ch', I.var(st, CHARS)) for _ in range(vals[0])))
        return ('p', I.alloc(st, r), (), ('s', 0, rope_len(r)))

    def env_choose(self, I, st, f, vals, argtys, destty):
        return I.choose(st, vals[0])

    def env_stop(self, I, st, f, vals, argtys, destty):
        raise Stop()

    def env_op(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        if I.choose(st, 2) == 0:
            r = ok()
        else:
            r = err(('A', 0, (I.var(st, ((0, (1 << 64) - 1),)),)))
        self.on_op(I, st, name, vals[1], r)
        return r

    def env_get(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        if I.choose(st, 2) == 0:
            ety = I.p.types[destty]['v'][0]['f'][0][1]
            r = ok(I.fresh(st, ety))
        else:
            r = err(('A', 0, (I.var(st, ((0, (1 << 64) - 1),)),)))
        self.on_op(I, st, name, vals[1], r)
        return r

    def env_ask(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        r = I.fresh(st, destty)
        self.on_op(I, st, name, vals[1], ok(r))
        return r

    def env_will(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        self.hist(I, st, 'call ' + name)
        self.on_will(I, st, name, vals[1])
        return UNIT

    def env_did(self, I, st, f, vals, argtys, destty):
        self.on_did(I, st, vals[0])
        return UNIT

    def env_note(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        self.hist(I, st, name)
        self.on_note(I, st, name, vals[1])
        return UNIT

    def on_op(self, I, st, name, arg, res):
        pass

    def on_will(self, I, st, name, arg):
        pass

    def on_did(self, I, st, out):
        pass

    def on_note(self, I, st, name, arg):
        pass

    def on_panic(self, I, st, msg):
        pass


def rope_len(v):
    n = 0
    for c in v[1]:
        if c[0] == 'b':
            n = add(n, len(c[1]))
        elif c[0] == 'n':
            n = add(n, 1)
        elif c[0] == 'ch':
            n = add(n, chlen(c[1]))
        else:
            n = add(n, c[2])
    return n


def chlen(t):
    if type(t) is int:
        return 1 if t < 0x80 else 2 if t < 0x800 else 3 if t < 0x10000 else 4
    return ('f', 'utf8len', (t,))
