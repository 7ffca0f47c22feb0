"""C01, C02, C14, C20: what the JSON text serializer hands to its writer is read back by a JSON automaton and compared
with the calls that were made."""
from collections import namedtuple
from terms import *
from interp import CHARS, Violation, Stop, Unsupported, UNIT
from mon import Monitor, rope_len
from models import NONE, some, ok, err

# phase: between calls / in a call / failed; stack: items of the documented stack (top first);
# queue: content announced by calls and not yet written; mode, js: state of the JSON automaton;
# args: arguments still to be given to the call under way
Ser = namedtuple('Ser', 'tag call stack queue mode js args err')

CALLS = {0: 'put_bool', 1: 'put_i8', 2: 'put_i16', 3: 'put_i32', 4: 'put_i64', 5: 'put_u8', 6: 'put_u16', 7: 'put_u32',
         8: 'put_u64', 9: 'put_f32', 10: 'put_f64', 11: 'put_char', 12: 'pop_null', 13: 'put_str', 14: 'open_str',
         15: 'append_char', 16: 'append_str', 17: 'close_str', 18: 'put_tag', 19: 'put_tag', 20: 'open_struct',
         21: 'push_field', 22: 'close_struct', 23: 'open_tuple', 24: 'push_element', 25: 'close_tuple',
         26: 'open_list_sized', 27: 'open_list_streaming', 28: 'push_item', 29: 'close_list', 30: 'open_object',
         31: 'push_entry', 32: 'add_entry', 33: 'close_object', 99: 'close'}
SCALARS = list(range(0, 14)) + [18, 19]
OPENS = [20, 23, 26, 27, 30]
E64 = ((0, (1 << 64) - 1),)
SHORT = {0x22: 0x22, 0x5c: 0x5c, 0x2f: 0x2f, 0x62: 8, 0x66: 12, 0x6e: 10, 0x72: 13, 0x74: 9}
WS = (0x20, 9, 10, 13)


class Writer(Monitor):
    faults = False
    deep = False

    def initial(self, root):
        self.root = root
        if root == 'r_s_struct':
            self.maxdepth, self.scalars, self.strlen = 4 if self.deep else 3, [0, 5, 13], (1,)
        elif root == 'r_s_scalar':
            self.maxdepth, self.scalars, self.strlen = 2, SCALARS, (1,)
        elif root == 'r_s_mut':
            self.maxdepth, self.scalars, self.strlen = 1, [0, 5, 9, 12, 13], (1,)
        else:
            self.maxdepth, self.scalars, self.strlen = 1, [11, 13, 19], range(4 if self.deep else 3)
        return Ser('ser', None, (('val',),), (), 'v', (), (), None)

    def set(self, st, **kw):
        st.mon = st.mon._replace(**kw)

    def bad(self, msg):
        raise Violation(msg, '%s: %s' % (self.root, msg))

    def intercept(self, f):
        d = f.defn
        for n in ('is_finite', 'is_nan', 'is_infinite'):
            if d.endswith('::' + n) and ('f32' in d or 'f64' in d):
                return self.classify(n)
        if d.split('::')[0] in ('itoa', 'ryu', 'zmij') and 'Buffer::' in d:
            n = d.rsplit('::', 1)[1]
            if n in ('new', 'default'):
                return lambda I, st, f, v, a, d: ('A', 0, (UNIT,))
            if n in ('format', 'format_finite'):
                return self.m_format
        return Monitor.intercept(self, f)

    # every symbolic float is finite; the others are constants
    def classify(self, n):
        def m(I, st, f, vals, argtys, destty):
            v = vals[0]
            if v[0] != 'fl':
                raise Unsupported('class of a float')
            if type(v[1]) is tuple and v[1][0] == 'k':
                bits = v[1][1]
                e, fr = ((bits >> 23) & 255, bits & ((1 << 23) - 1)) if 'f32' in f.defn else \
                    ((bits >> 52) & 2047, bits & ((1 << 52) - 1))
                top = e == (255 if 'f32' in f.defn else 2047)
                cls = 'is_finite' if not top else 'is_nan' if fr else 'is_infinite'
                return int(n == cls)
            if type(v[1]) is tuple and v[1][0] == 'f':
                raise Unsupported('class of a computed float')
            return int(n == 'is_finite')
        return m

    def m_format(self, I, st, f, vals, argtys, destty):
        v = vals[1]
        c = I.alloc(st, ('rope', (('num', v, I.var(st, ((1, 40),))),)))
        return ('p', c, (), ('s', 0, rope_len(I.read(st, c, ()))))

    # ---- choosing calls
    def env_ask(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        if name == 'call':
            opts = self.options(st.mon)
            n = opts[I.choose(st, len(opts))]
            self.begin(I, st, n)
            return n
        if name == 'arg':
            a = st.mon.args
            self.set(st, args=a[1:])
            return a[0]
        raise Unsupported('ask ' + name)

    def options(self, m):
        if not m.stack:
            return [99]
        t = m.stack[0]
        if t[0] == 'val':
            out = list(self.scalars) + [14]
            if sum(1 for x in m.stack if x[0] in ('obj', 'list', 'struct', 'tuple')) < self.maxdepth:
                out += OPENS
            return out
        if t[0] == 'str':
            return [15, 16, 17]
        if t[0] == 'struct':
            return [21, 22]
        if t[0] == 'tuple':
            return [24, 25]
        if t[0] == 'list':
            if t[1] is None:
                return [28, 29]
            return [28] if t[1] else [29]
        if t[0] == 'obj':
            return [31, 32, 33]

    def strarg(self, I, st):
        n = self.strlen[I.choose(st, len(self.strlen))]
        cs = tuple(('ch', I.var(st, CHARS)) for _ in range(n))
        c = I.alloc(st, ('rope', cs))
        return ('p', c, (), ('s', 0, rope_len(('rope', cs)))), tuple(('c', x[1]) for x in cs)

    def begin(self, I, st, n):
        m = st.mon
        call = CALLS[n]
        s, q, args = m.stack, (), ()
        SIGNED = {1: 8, 2: 16, 3: 32, 4: 64}
        UNSIGNED = {5: 8, 6: 16, 7: 32, 8: 64}
        Q1, Q2 = (('q"',),), (('/"',),)
        if n == 0:
            v = I.choose(st, 2)
            s, q, args = s[1:], (('bool', v),), (v,)
        elif n in SIGNED or n in UNSIGNED:
            b = (SIGNED.get(n) or UNSIGNED.get(n))
            v = I.var(st, ((-(1 << b - 1), (1 << b - 1) - 1) if n in SIGNED else (0, (1 << b) - 1),))
            s, q, args = s[1:], (('int', v),), (v,)
        elif n in (9, 10):
            k = I.choose(st, 4)
            if k == 0:
                v = ('fl', I.var(st))
                q = (('flt', v),)
            else:
                v = ('fl', ('k', {9: (0x7f800000, 0xff800000, 0x7fc00000),
                                  10: (0x7ff << 52, 0xfff << 52, 0x7ff8 << 48)}[n][k - 1]))
                q = (('null',),)
            s, args = s[1:], (v,)
        elif n == 11:
            v = I.var(st, CHARS)
            s, q, args = s[1:], Q1 + (('c', v),) + Q2, (v,)
        elif n == 12:
            s, q = s[1:], (('null',),)
        elif n == 13:
            p, cs = self.strarg(I, st)
            s, q, args = s[1:], Q1 + cs + Q2, (p,)
        elif n == 14:
            s, q = (('str',),) + s[1:], Q1
        elif n == 15:
            v = I.var(st, CHARS)
            q, args = (('c', v),), (v,)
        elif n == 16:
            p, cs = self.strarg(I, st)
            q, args = cs, (p,)
        elif n == 17:
            s, q = s[1:], Q2
        elif n == 18:
            i = I.var(st, E64)
            s, q, args = s[1:], (('int', i),), (I.var(st, E64), i)
        elif n == 19:
            p, cs = self.strarg(I, st)
            s, q, args = s[1:], Q1 + cs + Q2, (I.var(st, E64), I.var(st, E64), p)
        elif n in (20, 30):
            s, q = (('struct',) if n == 20 else ('obj',),) + s[1:], (('{',),)
        elif n == 23:
            s, q = (('tuple',),) + s[1:], (('[',),)
        elif n == 26:
            k = I.choose(st, 3)
            s, q, args = (('list', k),) + s[1:], (('[',),), (k,)
        elif n == 27:
            s, q = (('list', None),) + s[1:], (('[',),)
        elif n in (24, 28):
            if s[0] == ('tuple',) or s[0][1] is None:
                s = (('val',),) + s
            else:
                s = (('val',), ('list', s[0][1] - 1)) + s[1:]
        elif n in (21, 31):
            p, cs = self.strarg(I, st)
            s, q, args = (('val',),) + s, Q1 + cs + Q2, (p,)
        elif n == 32:
            s, q = (('str',), ('val',)) + s, Q1
        elif n in (22, 33):
            s, q = s[1:], (('}',),)
        elif n in (25, 29):
            s, q = s[1:], ((']',),)
        self.hist(I, st, 'call ' + call)
        self.tick('calls')
        st.mon = m._replace(call=call, stack=s, queue=m.queue + q, args=args)

    # ---- notes
    def on_note(self, I, st, name, arg):
        m = st.mon
        if name == 'null':
            if arg != 1:
                self.bad('null is said to be unsupported')
        elif name == 'done':
            if m.err is not None:
                if arg[1] == 0:
                    self.bad('%s succeeds although the writer failed' % m.call)
                if not self.same(I, st, arg[2][0], ('A', 0, (m.err,))):
                    self.bad('%s returns another error than the writer gave' % m.call)
                self.tick('errors returned')
                raise Stop()
            if arg[1] == 1:
                self.bad('%s fails although the writer did not' % m.call)
            self.tick('calls completed')
            # the content of a call may be written late, but never early
            self.set(st, call=None)
            if len(m.queue) > 4:
                self.bad('nothing is written for %s' % m.call)
        elif name == 'closed':
            if m.mode in ('num', 'numend'):
                self.number_end(I, st)
            m = st.mon
            if m.queue:
                self.bad('the document ends before %s was written' % self.name(m.queue[0]))
            if m.mode != 'end' or m.js:
                self.bad('the text is not a complete JSON value')
            self.tick('documents')

    def on_panic(self, I, st, msg):
        self.hist(I, st, 'panic')
        self.bad('%s panics' % st.mon.call)

    def name(self, tok):
        return {'c': 'a character', 'int': 'an integer', 'flt': 'a number', 'q"': 'the start of a string',
                '/"': 'the end of a string'}.get(tok[0], '`%s`' % tok[0])

    # ---- the writer
    def env_op(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        m = st.mon
        if m.err is not None:
            self.bad('something is written after an error')
        if m.call is None:
            self.bad('something is written outside of a call')
        if self.faults and I.choose(st, 2) == 1:
            e = I.var(st, E64)
            self.hist(I, st, name + ' FAILS')
            self.set(st, err=e)
            return err(('A', 0, (e,)))
        self.tick('pieces of text')
        if name == 'write_char':
            self.hist(I, st, 'write %s' % (chr(vals[1]) if type(vals[1]) is int else 'a character'))
            self.char(I, st, vals[1])
        else:
            t = self.text(I, st, vals[1])
            if t and t[0] == 'part':
                raise Unsupported('part of a string is written')
            for c in t:
                if c[0] == 'b':
                    self.hist(I, st, 'write %s' % c[1].decode())
                    for ch in c[1].decode():
                        self.char(I, st, ord(ch))
                elif c[0] == 'ch':
                    self.hist(I, st, 'write a character')
                    self.char(I, st, c[1])
                elif c[0] == 'num':
                    self.hist(I, st, 'write a number')
                    self.number(I, st, c[1])
                else:
                    raise Unsupported('bytes are written')
        return ok()

    def emit(self, I, st, tok):
        m = st.mon
        if not m.queue:
            self.bad('%s writes %s, which no call asked for' % (m.call, self.name(tok)))
        head = m.queue[0]
        if head[0] != tok[0]:
            self.bad('%s writes %s where the calls ask for %s' % (m.call, self.name(tok), self.name(head)))
        self.tick('tokens')
        if len(tok) > 1 and not self.equal(I, st, head[1], tok[1]):
            self.bad('%s writes %s other than the one given' % (m.call, self.name(tok)))
        self.set(st, queue=m.queue[1:])

    def equal(self, I, st, a, b):
        if self.same(I, st, a, b):
            return True
        if is_term(a) and is_term(b):
            d = sub(a, b)
            if type(d) is int:
                return d == 0
            return I.eq(st, a, b)
        return False

    def value_done(self, st):
        m = st.mon
        self.set(st, mode='c' if m.js else 'end')

    def number(self, I, st, v):
        m = st.mon
        if m.mode not in ('v', 'v0'):
            self.bad('a number is written where no value may stand')
        if type(v) is tuple and v[0] == 'fl':
            if type(v[1]) is tuple and v[1][0] == 'k':
                self.bad('a number which JSON cannot express is written')
            self.emit(I, st, ('flt', v))
        else:
            self.emit(I, st, ('int', v))
        self.set(st, mode='numend')

    def number_end(self, I, st):
        m = st.mon
        if m.mode == 'num':
            import re
            t = m.js[0][1]
            if not re.fullmatch(r'-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?', t):
                self.bad('`%s` is not a number' % t)
            self.set(st, js=m.js[1:])
            if not re.fullmatch(r'-?[0-9]+', t):
                raise Unsupported('a literal number is written')
            self.emit(I, st, ('int', int(t)))
        self.value_done(st)

    def char(self, I, st, c):
        mode = st.mon.mode
        if mode in ('num', 'numend') and not (mode == 'numend' and type(c) is int and chr(c) in '0123456789+-.eE'):
            if type(c) is int and chr(c) in '0123456789+-.eE':
                js = st.mon.js
                self.set(st, js=((js[0][0], js[0][1] + chr(c)),) + js[1:])
                return
            self.number_end(I, st)
            mode = st.mon.mode
        m = st.mon
        if mode == 'str':
            if I.eq(st, c, 0x22):
                self.emit(I, st, ('/"',))
                top = m.js[0] if m.js else None
                if top == 'key':
                    self.set(st, mode=':', js=m.js[1:])
                else:
                    self.value_done(st)
            elif I.eq(st, c, 0x5c):
                self.set(st, mode='esc')
            elif I.lt(st, c, 0x20):
                self.bad('a control character is written unescaped')
            else:
                self.emit(I, st, ('c', c))
            return
        if mode == 'esc':
            if type(c) is not int:
                c = self.pin(I, st, c)
            if c in SHORT:
                self.emit(I, st, ('c', SHORT[c]))
                self.set(st, mode='str')
            elif c == 0x75:
                self.set(st, mode='u', js=((0, 0),) + m.js)
            else:
                self.bad('an invalid escape sequence is written')
            return
        if mode == 'u':
            n, v = m.js[0]
            if I.le(st, 48, c) and I.le(st, c, 57):
                d = sub(c, 48)
            elif I.le(st, 97, c) and I.le(st, c, 102):
                d = sub(c, 87)
            elif I.le(st, 65, c) and I.le(st, c, 70):
                d = sub(c, 55)
            else:
                self.bad('an invalid unicode escape is written')
            v = add(scale(v, 16), d)
            if n < 3:
                self.set(st, js=((n + 1, v),) + m.js[1:])
                return
            m = m._replace(js=m.js[1:], mode='str')
            st.mon = m
            if m.js and type(m.js[0]) is tuple and m.js[0][0] == 'hi':
                hi = m.js[0][1]
                self.set(st, js=m.js[1:])
                v = self.pin(I, st, v)
                if not 0xdc00 <= v <= 0xdfff:
                    self.bad('an unpaired surrogate is written')
                v = 0x10000 + ((hi - 0xd800) << 10) + (v - 0xdc00)
            elif not I.lt(st, v, 0xd800) and not I.lt(st, 0xdfff, v):
                v = self.pin(I, st, v)
                if v >= 0xdc00:
                    self.bad('an unpaired surrogate is written')
                self.set(st, js=(('hi', v),) + m.js)
                return
            self.emit(I, st, ('c', v))
            return
        if m.js and type(m.js[0]) is tuple and m.js[0][0] == 'hi':
            self.bad('an unpaired surrogate is written')
        if type(c) is not int:
            x = I.conc(st, c)
            if x is None:
                self.bad('an arbitrary character is written outside of a string')
            c = x
        if mode == 'lit':
            word, n = m.js[0]
            if ord(word[n]) != c:
                self.bad('a misspelt literal is written')
            if n + 1 < len(word):
                self.set(st, js=((word, n + 1),) + m.js[1:])
            else:
                self.set(st, js=m.js[1:])
                self.emit(I, st, {'null': ('null',), 'true': ('bool', 1), 'false': ('bool', 0)}[word])
                self.value_done(st)
            return
        if c in WS:
            return
        ch = chr(c)
        if mode in ('v', 'v0'):
            if ch == ']' and mode == 'v0':
                return self.close(I, st, ch)
            if ch == '"':
                self.emit(I, st, ('q"',))
                self.set(st, mode='str')
            elif ch in '[{':
                self.emit(I, st, (ch,))
                self.set(st, js=(ch,) + m.js, mode='v0' if ch == '[' else 'k0')
            elif ch in 'ntf':
                self.set(st, mode='lit', js=(({'n': 'null', 't': 'true', 'f': 'false'}[ch], 1),) + m.js)
            elif ch in '-0123456789':
                self.set(st, mode='num', js=(('num', ch),) + m.js)
            else:
                self.bad('`%s` is written where a value is expected' % ch)
        elif mode in ('k', 'k0'):
            if ch == '}' and mode == 'k0':
                return self.close(I, st, ch)
            if ch != '"':
                self.bad('`%s` is written where a key is expected' % ch)
            self.emit(I, st, ('q"',))
            self.set(st, mode='str', js=('key',) + m.js)
        elif mode == ':':
            if ch != ':':
                self.bad('`%s` is written where a colon is expected' % ch)
            self.set(st, mode='v')
        elif mode == 'c':
            if ch == ',':
                self.set(st, mode='v' if m.js[0] == '[' else 'k')
            else:
                self.close(I, st, ch)
        else:
            self.bad('`%s` is written after the end of the value' % ch)

    def close(self, I, st, ch):
        m = st.mon
        if {'[': ']', '{': '}'}[m.js[0]] != ch:
            self.bad('`%s` is written where `%s` is open' % (ch, m.js[0]))
        self.emit(I, st, (ch,))
        self.set(st, js=m.js[1:])
        self.value_done(st)

    def pin(self, I, st, t):
        if type(t) is int:
            return t
        return I.conc_fork(st, t, 4096)


MONITOR = Writer


def jobs(tier, prog):
    Writer.deep = tier == 'thorough'
    return ['r_s_struct', 'r_s_scalar', 'r_s_string', 'r_s_chars', 'r_s_mut']
