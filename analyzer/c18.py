"""C18: tags decode to a declared variant or an error."""
from collections import namedtuple
from terms import *
from interp import CHARS, Violation, Stop, Unsupported, UNIT
from mon import Monitor, rope_len
from models import NONE, some, ok, err
from mirror import E64, roots_of

Tag = namedtuple('Tag', 'tag phase arg index errs failed chars out')
LONGEST = 3     # one more than the longest name of the tables in model/src/tags.rs
STRING = 0      # ValueType::String


class C18(Monitor):
    def initial(self, root):
        self.root = root
        return Tag('tag', 'start', None, None, (), None, None, None)

    def set(self, st, **kw):
        st.mon = st.mon._replace(**kw)

    def bad(self, msg):
        raise Violation(msg, '%s: %s' % (self.root, msg))

    def fails(self, I, st):
        if I.choose(st, 2):
            e = ('A', 0, (I.var(st, E64),))
            self.set(st, failed=e)
            return err(e)
        return None

    def called(self, I, st, name):
        self.hist(I, st, name)
        self.tick('calls on the format')
        if st.mon.failed is not None:
            self.bad('%s is called after an error' % name)

    # ---- what the formats answer
    def env_op(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        self.called(I, st, name)
        r = self.fails(I, st)
        if r:
            return r
        if st.mon.phase in ('put name', 'put index'):
            return self.put(I, st, name, vals[1])
        if name == 'open_str':
            self.set(st, chars=())
        return ok()

    def env_get(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        self.called(I, st, name)
        ety = I.p.types[destty]['v'][0]['f'][0][1]
        m = st.mon
        if name == 'next_char':
            if m.chars is None:
                self.bad('characters are read although no string is open')
            r = self.fails(I, st)
            if r:
                return r
            if I.choose(st, 2) == 0:
                self.set(st, out='text', index=None)
                return ok(NONE)
            if len(m.chars) == LONGEST:
                raise Stop()
            c = I.var(st, CHARS)
            self.set(st, chars=m.chars + (c,))
            return ok(some(c))
        r = self.fails(I, st)
        if r:
            return r
        if name == 'get_tag':
            self.tick('tags read by generated code')
            v = I.fresh(st, ety)
            self.set(st, index=(m.index or ()) + (v,))
            return ok(v)
        if name == 'get_u64':
            v = I.fresh(st, ety)
            self.set(st, index=v, out='number')
            return ok(v)
        if m.phase != 'declared':
            self.bad('a tag is read with ' + name)
        return ok(I.fresh(st, ety))

    def env_ask(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        self.hist(I, st, name)
        if name.startswith('error'):
            if st.mon.failed is not None:
                self.bad('an error is replaced by ' + name)
            e = ('A', 0, (I.var(st, E64),))
            self.set(st, errs=st.mon.errs + ((name, vals[1], e),))
            return e
        r = I.fresh(st, destty)
        if name == 'peek_value_type':
            if st.mon.out in ('string', 'other'):
                if (st.mon.out == 'string') != (r[1] == STRING):
                    raise Stop()
            self.set(st, out='string' if r[1] == STRING else 'other')
        return r

    # ---- writing
    def put(self, I, st, name, arg):
        m = st.mon
        t = m.out or ()
        if name == 'put_u64' and m.phase == 'put index':
            if m.out is not None or not self.same(I, st, arg, m.arg):
                self.bad('another index is written')
            self.set(st, out='written')
            return ok()
        if m.phase == 'put index':
            self.bad('a tag without a name is written with ' + name)
        if name == 'open_str':
            if m.out is not None:
                self.bad('a second string is opened')
            self.set(st, out=())
        elif name in ('append_char', 'append_str') and type(m.out) is tuple:
            self.set(st, out=m.out + ((('ch', arg),) if name == 'append_char' else self.text(I, st, arg)))
        elif name == 'close_str' and type(m.out) is tuple:
            if m.out != self.text(I, st, m.arg):
                self.bad('another name is written')
            self.set(st, out='written')
        elif name == 'put_str' and m.out is None:
            if self.text(I, st, arg) != self.text(I, st, m.arg):
                self.bad('another name is written')
            self.set(st, out='written')
        else:
            self.bad('a tag with a name is written with ' + name)
        return ok()

    # ---- outcomes
    def declared(self, I, st, p):
        v = I.read(st, p[1], p[2])
        return v[2]

    def made(self, I, st, e):
        for x in st.mon.errs:
            if self.same(I, st, e, x[2]):
                return x
        return None

    def on_note(self, I, st, name, arg):
        m = st.mon
        if name in ('declared', 'max', 'name', 'put name', 'put index'):
            self.set(st, phase=name, arg=arg)
        elif name in ('decoded', 'tag') and m.failed is not None:
            self.bad('a tag is decoded although the format failed')
        elif name in ('refused', 'no tag') and m.failed is not None:
            self.tick('errors returned')
            if not self.same(I, st, arg, m.failed):
                self.bad('another error than that of the format is returned')
        elif name == 'put' and m.failed is not None:
            self.tick('errors returned')
            if arg[1] == 0 or not self.same(I, st, arg[2][0], m.failed):
                self.bad('another error than that of the format is returned')
        elif name == 'decoded':
            self.tick('variants decoded')
            if m.index is None:
                self.bad('a variant is made up')
            d = self.declared(I, st, m.arg)
            if not self.same(I, st, m.index[0], d[arg]):
                self.bad('an index decodes to a variant which has another')
        elif name == 'refused':
            self.tick('indices refused')
            if m.index is None:
                self.bad('an error is made up')
            x = self.made(I, st, arg)
            if x is None or x[0] != 'error_invalid_index' or not self.same(I, st, x[1], m.index[-1]):
                self.bad('an unknown index does not give the error for that index')
            # the second tag read for `Inlined` is that of `Sum`
            for d in self.declared(I, st, m.arg) if len(m.index) == 1 else (0, 1, 2):
                if I.eq(st, m.index[-1], d):
                    self.bad('a declared index is refused')
        elif name in ('tag', 'no tag'):
            self.judge(I, st, name, arg)
        elif name == 'put':
            self.tick('tags written')
            if arg[1] != 0:
                self.bad('writing a tag fails although the format did not')
            if m.out != 'written':
                self.bad('nothing is written for a tag')
        else:
            raise Unsupported('note ' + name)

    def judge(self, I, st, name, arg):
        m = st.mon
        if m.out == 'number':
            if name == 'tag':
                self.tick('indices accepted')
                if not self.same(I, st, arg, m.index):
                    self.bad('another index than the one read is returned')
                if not I.le(st, m.index, m.arg):
                    self.bad('an index above the limit is accepted')
            else:
                self.tick('indices refused')
                x = self.made(I, st, arg)
                if x is None or x[0] != 'error_invalid_index':
                    self.bad('a bad index does not give the error for indices')
                if I.le(st, m.index, m.arg):
                    self.bad('an index within the limit is refused')
            return
        if m.out == 'text':
            hit = None
            for n, i in self.names():
                if len(n) == len(m.chars) and all(I.eq(st, c, ord(k)) for c, k in zip(m.chars, n)):
                    hit = i
            if name == 'tag':
                self.tick('names accepted')
                if hit is None:
                    self.bad('a name which is not listed is accepted')
                if arg != hit:
                    self.bad('a name gives the index of another')
            else:
                self.tick('names refused')
                x = self.made(I, st, arg)
                if x is None or x[0] != 'error_invalid_name':
                    self.bad('an unknown name does not give the error for names')
                if hit is not None:
                    self.bad('a listed name is refused')
            return
        self.bad('a tag is decided without reading a value')

    def names(self):
        if 'one' in self.root:
            return [('x', 1)]
        if 'empty' in self.root:
            return []
        return [('b', 3), ('', 9), ('ab', 0), ('\xe9', 4), ('a', 7)]

    def on_panic(self, I, st, msg):
        self.hist(I, st, 'panic')
        self.bad('panics')


MONITOR = C18
jobs = roots_of(('r_e_', 'r_g_', 'r_p_'))
SPEC = dict(
    features=['c18'], level='other',
    technique='abstract interpretation of the MIR of the standard tag functions, the provided trait methods and the '
    'generated decoders, with symbolic tags',
    note='Every index; every string (characters are symbolic, strings longer than %d characters are cut off as longer '
    'than any name of the tables); tables and enums of a corpus.' % LONGEST,
    explanation='get_tag/put_tag of serdere_json run on formats that give arbitrary answers; each result is compared '
    'with the rule in the property. Each derived enum decodes an arbitrary index: every path must end in the variant '
    'with that declared index, or in error_invalid_index of an undeclared one.',
    assumptions=['the format returns from get_tag only the index it read'],
    floors={'variants decoded': 15, 'indices refused': 8, 'names accepted': 5, 'names refused': 5, 'tags written': 4,
            'indices accepted': 1})
