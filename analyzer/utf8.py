"""C16, C17: decoding and encoding of UTF-8 streams, and the position of the stream reader."""
from collections import namedtuple
from terms import *
from interp import CHARS, Violation, Stop, Unsupported, UNIT
from mon import Monitor, rope_len
from models import NONE, some, ok, err

U8 = namedtuple('U8', 'tag phase bytes fault eof cur line col want')
BYTE = ((0, 255),)
# RFC 3629: ranges of the first byte, number of bytes, ranges of the second byte
FORMS = (((0, 0x7f), 1, None), ((0xc2, 0xdf), 2, (0x80, 0xbf)), ((0xe0, 0xe0), 3, (0xa0, 0xbf)),
         ((0xe1, 0xec), 3, (0x80, 0xbf)), ((0xed, 0xed), 3, (0x80, 0x9f)), ((0xee, 0xef), 3, (0x80, 0xbf)),
         ((0xf0, 0xf0), 4, (0x90, 0xbf)), ((0xf1, 0xf3), 4, (0x80, 0xbf)), ((0xf4, 0xf4), 4, (0x80, 0x8f)))
LEAD = {1: 0, 2: 0xc0, 3: 0xe0, 4: 0xf0}


class Utf8(Monitor):
    many_shapes, many_values = 3, 2

    def initial(self, root):
        self.root = root
        return U8('u8', 'start', (), None, False, None, 0, 0, ())

    def set(self, st, **kw):
        st.mon = st.mon._replace(**kw)

    positions = False     # C17: positions only; C16: everything else

    def bad(self, msg, position=False):
        if position != self.positions:
            raise Stop()
        raise Violation(msg, '%s: %s' % (self.root, msg))

    def intercept(self, f):
        d = f.defn
        if 'io::Error' in d or 'io::error::' in d:
            n = d.rsplit('::', 1)[1]
            if n in ('new', 'other', 'from', 'from_static_message', 'new_const', '_new'):
                return lambda I, st, f, v, a, d: ('o', I.var(st))
            if n == 'is_interrupted':
                return lambda I, st, f, v, a, d: 0
            if n == 'kind':
                return self.m_kind
        return Monitor.intercept(self, f)

    def m_kind(self, I, st, f, vals, argtys, destty):
        raise Unsupported('kind of an I/O error')

    # ---- the stream
    def env_ask(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        m = st.mon
        if name in ('read', 'write'):
            if m.fault is not None:
                self.bad('the stream is used after it failed')
            if name == 'read' and m.eof:
                return some(0)
            n = vals[1]
            if type(n) is not int:
                raise Unsupported('buffer of unknown size')
            if n == 0:
                return some(0)
            self.tick('calls on the stream')
            k = I.choose(st, n + 2)
            if k == n + 1:
                self.hist(I, st, name + ' fails')
                return NONE
            if k == 0:
                if name == 'write':
                    raise Stop()
                self.hist(I, st, 'end of data')
                self.set(st, eof=True)
                return some(0)
            self.hist(I, st, '%s %d bytes' % (name, k))
            return some(k)
        if name == 'fault' or name == 'eof':
            e = ('o', I.var(st))
            self.set(st, fault=(name, e))
            return e
        if name == 'byte':
            b = I.var(st, BYTE)
            if self.root == 'r_u_reader' and self.positions:
                # the position doesn't depend on which character it is, except for three of them
                if m.bytes:
                    b = (0xa9, 0xff)[I.choose(st, 2)]
                elif I.choose(st, 2):
                    b = (0xc3, 0xff)[I.choose(st, 2)]
                else:
                    b = I.var(st, ((0, 0x7f),))
            self.set(st, bytes=m.bytes + (b,))
            return b
        if name in ('char', 'str'):
            if name == 'char' and self.root != 'r_u_string':
                if m.want or m.bytes:
                    raise Unsupported('unfinished call')
            if name == 'char':
                c = I.var(st, CHARS)
                self.set(st, want=m.want + (c,))
                return c
            n = I.choose(st, 3)
            if self.root == 'r_u_string':
                cs = tuple(('ch', I.var(st, CHARS)) for _ in range(n))
                want = tuple(c[1] for c in cs)
            else:
                # characters of every form, given by their bytes
                cs, want = (), ()
                for _ in range(n):
                    first, k, second = FORMS[I.choose(st, len(FORMS))]
                    bs = [I.var(st, (first,))]
                    for i in range(1, k):
                        bs.append(I.var(st, (second if i == 1 else (0x80, 0xbf),)))
                    c = sub(bs[0], LEAD[k])
                    for b in bs[1:]:
                        c = add(scale(c, 64), sub(b, 0x80))
                    cs += tuple(('n', b) for b in bs)
                    want += (c,)
            cell = I.alloc(st, ('rope', cs))
            self.set(st, want=m.want + want)
            return ('p', cell, (), ('s', 0, rope_len(('rope', cs))))
        raise Unsupported('ask ' + name)

    # ---- the encoding
    def decode(self, I, st, bs):
        """The character which some bytes start with: (character, length), 'prefix' or 'bad'. The bytes are terms."""
        if not bs:
            return 'prefix'
        for (lo, hi), n, second in FORMS:
            if not I.test(st, bs[0], ((lo, hi),)):
                continue
            c = sub(bs[0], LEAD[n])
            for i in range(1, n):
                if i >= len(bs):
                    return 'prefix'
                if not I.test(st, bs[i], (second if i == 1 else (0x80, 0xbf),)):
                    return 'bad'
                c = add(scale(c, 64), sub(bs[i], 0x80))
            return c, n
        return 'bad'

    def equal(self, I, st, a, b):
        return self.same(I, st, a, b) or I.eq(st, a, b)

    # ---- outcomes
    def on_note(self, I, st, name, arg):
        m = st.mon
        if name == 'byte':
            self.emitted(I, st, arg)
        elif name == 'wrote':
            if m.fault is not None:
                self.bad('writing succeeds although the stream failed')
            if m.want or m.bytes:
                self.bad('the stream gets fewer bytes than the text has')
            self.tick('pieces of text written')
        elif name == 'collected':
            t = self.text(I, st, arg)
            if tuple(('ch', c) for c in (m.want[0],) + m.want[1:] + (m.want[0],)) != tuple(t):
                self.bad('the string collects other text than was written')
            self.tick('pieces of text written')
        elif name == 'error':
            if m.phase.startswith('advance'):
                self.bad('unexpected outcome')
            self.failed(I, st, arg)
        elif name == 'char':
            self.char(I, st, arg)
            self.set(st, bytes=())
        elif name == 'none':
            self.none(I, st)
            self.set(st, eof=False)
        elif name == 'new':
            self.set(st, phase='reader', cur=self.upcoming(I, st), bytes=())
        elif name == 'position':
            if not self.positions:
                return
            self.tick('positions')
            l, c = arg[2]
            if not self.same(I, st, l, m.line):
                self.bad('the line of the position is wrong', True)
            if not self.same(I, st, c, m.col):
                self.bad('the column of the position is wrong', True)
            self.set(st, line=l, col=c)
        elif name == 'peek':
            self.option(I, st, arg, 'peek')
        elif name == 'advance':
            phase, line, col = 'advance', m.line, m.col
            if m.cur is not None and self.positions:
                c = m.cur[0]
                if I.eq(st, c, 10):
                    phase, line, col = 'advance line', add(line, 1), 0
                elif I.eq(st, c, 9):
                    phase, col = 'advance tab', add(col, 4)
                elif I.eq(st, c, 13):
                    phase = 'advance return'
                else:
                    col = add(col, 1)
            self.set(st, phase=phase, line=line, col=col)
        elif name == 'next':
            self.option(I, st, arg, 'next')
            if m.cur is None:
                if m.bytes:
                    self.bad('bytes are read after the end of data')
                raise Stop()
            nxt = self.upcoming(I, st)
            self.set(st, phase='reader', cur=nxt, bytes=())

    def option(self, I, st, v, what):
        cur = st.mon.cur
        self.tick('characters')
        if cur is None:
            if v != NONE:
                self.bad('%s gives a character at the end of data' % what)
        elif v[1] != 1 or not self.equal(I, st, v[2][0], cur[0]):
            self.bad('%s does not give the character which comes next' % what)

    def upcoming(self, I, st):
        m = st.mon
        if m.fault is not None:
            self.bad('reading goes on although the stream failed')
        d = self.decode(I, st, m.bytes)
        if d == 'bad':
            self.bad('bytes which are not UTF-8 are accepted')
        if d == 'prefix':
            if m.bytes or not m.eof:
                self.bad('a character which is not complete is accepted')
            return None
        if d[1] != len(m.bytes):
            self.bad('more bytes are read than the character has')
        return (d[0],)

    def char(self, I, st, c):
        cur = self.upcoming(I, st)
        self.tick('characters')
        if cur is None:
            self.bad('a character is given at the end of data')
        if not self.equal(I, st, c, cur[0]):
            self.bad('the character differs from the one the bytes encode')

    def none(self, I, st):
        m = st.mon
        if m.fault is not None:
            self.bad('reading gives none although the stream failed')
        if m.bytes or not m.eof:
            self.bad('reading gives none before the end of data')
        self.tick('ends of data')

    def failed(self, I, st, e):
        m = st.mon
        self.tick('errors')
        if m.fault is not None:
            # an end of data within a character may be reported by any error
            if m.fault[0] == 'fault' and e != m.fault[1]:
                self.bad('another error than the one of the stream is given')
            raise Stop()
        if self.root.startswith('r_u_write'):
            self.bad('writing fails although the stream did not')
        d = self.decode(I, st, m.bytes)
        if type(d) is tuple:
            self.bad('valid UTF-8 is refused')
        if d == 'prefix' and not (m.eof and m.bytes):
            self.bad('valid UTF-8 is refused before it was read')
        raise Stop()

    def emitted(self, I, st, b):
        m = st.mon
        self.tick('bytes')
        bs = m.bytes + (b,)
        d = self.decode(I, st, bs)
        if d == 'bad':
            self.bad('the bytes written are not UTF-8')
        if d == 'prefix':
            self.set(st, bytes=bs)
            return
        if not m.want or not self.equal(I, st, d[0], m.want[0]):
            self.bad('the bytes written encode another character than the one given')
        self.set(st, bytes=(), want=m.want[1:])

    def on_panic(self, I, st, msg):
        m = st.mon
        self.hist(I, st, 'panic')
        if m.fault is not None and m.fault[0] == 'fault':
            self.bad('panics when the stream fails')
        self.bad('panics when the stream is not valid UTF-8' if m.fault is not None or m.bytes else 'panics')


MONITOR = Utf8


def jobs(tier, prog):
    return ['r_u_read', 'r_u_reader', 'r_u_write_char', 'r_u_write_str', 'r_u_string']
