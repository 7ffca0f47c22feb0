"""C22: name tables. Names and queries are strings of symbolic bytes; the analysis relates the bytes in the zone
domain (differences of two variables, closed under transitivity), which decides every comparison of the code."""
from collections import namedtuple
from terms import *
from interp import CHARS, Violation, Stop, Unsupported, UNIT
from mon import Monitor, rope_len
from models import NONE

Nm = namedtuple('Nm', 'tag names query entries')
ASCII = ((0, 127),)
# by number of names: the greatest length of the names and of the pieces of the query (quick, thorough)
SIZES = {0: ((0, 1), (0, 3)), 1: ((3, 3), (4, 4)), 2: ((2, 2), (3, 3)), 3: ((2, 2), (2, 3)), 4: ((1, 2), (2, 2)),
         5: ((1, 1), (1, 2)), 6: (None, (1, 1))}
TIER = [0]
# names in increasing order: how many (quick, thorough)
SORTED = ((5,), (5, 6))
UTF8 = ('\u00e9', 'z', '', '\u00e8', '\u20ac', '\U0001f600', '\u00e9z')


class Names(Monitor):
    zones = True
    many_shapes = many_facts = 1 << 60

    def initial(self, root):
        self.root = root
        self.utf8 = root.endswith('utf8')
        self.sorted = root.startswith('r_n_s')
        self.sizes = (0, 2) if self.utf8 else (2, 2) if self.sorted else SIZES[int(root[-1])][TIER[0]]
        if self.utf8:
            return Nm('nm', tuple(tuple(s.encode()) for s in UTF8), (), ())
        return Nm('nm', (), (), ())

    def bad(self, I, st, msg):
        # names are distinct
        ns = st.mon.names
        for i, a in enumerate(ns):
            for b in ns[:i]:
                if self.eq(I, st, a, b):
                    raise Stop()
        raise Violation(msg, '%s: %s' % (self.root, msg))

    def eq(self, I, st, a, b):
        return len(a) == len(b) and all(I.eq(st, x, y) for x, y in zip(a, b))

    def string(self, I, st, n):
        bs = tuple(I.var(st, ASCII) for _ in range(n))
        cell = I.alloc(st, ('rope', tuple(('n', b) for b in bs)))
        return bs, ('p', cell, (), ('s', 0, n))

    def greater(self, I, st, names):
        """A name of one or two bytes which is greater than the last one."""
        k = I.choose(st, 3 if names else 2)
        if k == 2:
            b = names[-1][0]
            c = I.var(st, ASCII)
            if len(names[-1]) == 2 and not I.lt(st, names[-1][1], c):
                raise Stop()
            bs = (b, c)
        else:
            b = I.var(st, ASCII)
            if names and not I.lt(st, names[-1][0], b):
                raise Stop()
            bs = (b,) if k == 0 else (b, I.var(st, ASCII))
        return bs, ('p', I.alloc(st, ('rope', tuple(('n', x) for x in bs))), (), ('s', 0, len(bs)))

    def bytes(self, I, st, p):
        v = I.read(st, p[1], p[2])
        out = []
        for c in v[1]:
            if c[0] == 'b':
                out += c[1]
            elif c[0] == 'n':
                out.append(c[1])
            else:
                raise Unsupported('bytes of a name')
        return tuple(out[p[3][1]:p[3][1] + p[3][2]])

    def env_ask(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        m = st.mon
        if name == 'name':
            if vals[1] != len(m.names):
                raise Unsupported('order of names')
            if self.sorted:
                bs, p = self.greater(I, st, m.names)
            else:
                bs, p = self.string(I, st, I.choose(st, self.sizes[0] + 1))
            st.mon = m._replace(names=m.names + (bs,))
            return p
        if name == 'query':
            bs, p = self.string(I, st, I.choose(st, self.sizes[1] + 1))
            st.mon = m._replace(query=m.query + bs)
            return p
        if name == 'char':
            if not self.utf8:
                bs, p = self.string(I, st, 1)
                st.mon = m._replace(query=m.query + bs)
                return bs[0]
            c = I.var(st, CHARS)
            st.mon = m._replace(query=m.query + (('char', c),))
            return c
        raise Unsupported('ask ' + name)

    def on_note(self, I, st, name, arg):
        m = st.mon
        if name == 'size':
            if arg != len(m.names):
                self.bad(I, st, 'the size is not the number of names')
        elif name == 'result':
            self.result(I, st, arg)
            raise Stop()
        elif name == 'entry':
            p, i = arg[2]
            if type(i) is not int or not 0 <= i < len(m.names) or i in m.entries or self.bytes(I, st, p) != m.names[i]:
                self.bad(I, st, 'an entry is not one of those given')
            st.mon = m._replace(entries=m.entries + (i,))
        elif name == 'entries':
            self.tick('tables')
            if len(m.entries) != len(m.names):
                self.bad(I, st, 'an entry is missing')
            raise Stop()

    def matches(self, I, st, name):
        m = st.mon
        if self.utf8 and any(type(q) is tuple and q[0] == 'char' for q in m.query):
            cs = tuple(bytes(name).decode())
            return len(cs) == len(m.query) and all(I.eq(st, q[1], ord(c)) for q, c in zip(m.query, cs))
        return self.eq(I, st, name, m.query)

    def result(self, I, st, r):
        m = st.mon
        self.tick('lookups')
        if r != NONE:
            i = r[2][0]
            if type(i) is not int or not 0 <= i < len(m.names):
                self.bad(I, st, 'the value found is none of those stored')
            if not self.matches(I, st, m.names[i]):
                self.bad(I, st, 'the value of another name is found')
            self.tick('names found')
            return
        for n in m.names:
            if self.matches(I, st, n):
                self.bad(I, st, 'a name of the table is not found')

    def on_panic(self, I, st, msg):
        self.bad(I, st, 'panics')


MONITOR = Names
SPEC = dict(
    features=['names'], level='other',
    technique='abstract interpretation of the MIR of the table\'s construction and lookup with names and queries of '
    'symbolic bytes in the zone domain',
    note='Tables of up to five names (six in the thorough run) of up to one to three bytes each in any order, queries '
    'in one or two pieces or by characters; a table with characters of two to four bytes. Larger tables and longer '
    'names are beyond the bound. Trusts the interpreter in analyzer/.',
    explanation='The clients in model/src/names.rs build a table from names whose bytes are unknown and look an unknown '
    'string up. Each comparison of bytes splits the abstract state by a difference constraint, closed under '
    'transitivity. Where a value is returned, its name must equal the query; where none is returned, no name may.',
    assumptions=['the names of a table are distinct'],
    seconds={'quick': 600, 'thorough': 850},
    floors={'lookups': 40000, 'names found': 8000, 'tables': 600})


def jobs(tier, prog):
    TIER[0] = int(tier == 'thorough')
    return ['r_n_%s_%s' % (op, n) for n in list(range(6 + TIER[0])) + ['utf8'] for op in ('get', 'parts', 'chars', 'entries')][::-1] + [
                'r_n_s%s_%d' % (op, n) for n in SORTED[TIER[0]] for op in ('get', 'parts', 'chars')]
