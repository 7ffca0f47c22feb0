"""Reading JSON text: a reference parser follows the characters which the deserializer consumes, and judges the
result of each call. Used by several properties."""
from collections import namedtuple
from terms import *
from interp import CHARS, Panic, Violation, Stop, Unsupported, UNIT
from mon import Monitor, rope_len
from models import NONE, some, ok, err
import coll

Txt = namedtuple('Txt', 'tag cm doc ph cur nxt dead call arg ev base vals first num top last popped calls passed')

WS = ((9, 10), (13, 13), (32, 32))
DIGIT = ((48, 57),)
STRING, NUMBER, OBJECT, ARRAY, BOOL, NULL = range(6)
NAMES = {0: 'get_bool', 1: 'pop_null', 2: 'check_null', 3: 'peek_value_type', 4: 'open_str', 5: 'open_object',
         6: 'open_list', 7: 'skip_value', 8: 'get_char', 9: 'next_char', 10: 'close_str', 11: 'flush_str',
         12: 'skip_str', 13: 'read_str', 14: 'next_entry', 15: 'try_push_entry', 16: 'push_entry',
         17: 'close_object', 18: 'skip_object', 19: 'open_struct', 20: 'push_field', 21: 'close_struct',
         22: 'open_tuple', 23: 'push_element', 24: 'close_tuple', 25: 'next_item', 26: 'push_item',
         27: 'close_list', 28: 'peek_collection_type', 29: 'error', 30: 'error_expected_type', 31: 'supports_null',
         40: 'get_i8', 41: 'get_i16', 42: 'get_i32', 43: 'get_i64', 44: 'get_u8', 45: 'get_u16', 46: 'get_u32',
         47: 'get_u64', 48: 'get_f32', 49: 'get_f64', 50: 'read_number<i128>', 51: 'read_number<u128>', 60: 'close',
         61: 'forget', 62: 'give_up'}
CODES = {v: k for k, v in NAMES.items()}
INTS = {'get_i8': (True, 8), 'get_i16': (True, 16), 'get_i32': (True, 32), 'get_i64': (True, 64), 'get_u8': (False, 8),
        'get_u16': (False, 16), 'get_u32': (False, 32), 'get_u64': (False, 64), 'read_number<i128>': (True, 128),
        'read_number<u128>': (False, 128)}
FLOATS = {'get_f32': 32, 'get_f64': 64}
WANT = {'get_bool': (BOOL,), 'pop_null': (NULL,), 'open_str': (STRING,), 'open_object': (OBJECT,), 'open_list': (ARRAY,),
        'get_char': (STRING,), 'read_str': (STRING,), 'open_struct': (OBJECT, ARRAY), 'open_tuple': (ARRAY,)}
for _n in list(INTS) + list(FLOATS):
    WANT[_n] = (NUMBER,)
# calls during which the tokens aren't kept
SKIPS = {'skip_value', 'skip_object', 'close_struct', 'close_list', 'close_tuple', 'skip_str'}
# calls which go on to find out whether there is more
SEEK = {'next_entry', 'try_push_entry', 'push_entry', 'push_field', 'close_object', 'skip_object', 'close_struct',
        'next_item', 'push_item', 'push_element', 'close_list', 'close_tuple'}
ESC = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9}
LITS = {116: ('rue', True), 102: ('alse', False), 110: ('ull', None)}


def one(c):
    return ((c, c),)


def minus(rs, cut):
    out = []
    for lo, hi in rs:
        for a, b in cut:
            if b < lo or a > hi:
                continue
            if a > lo:
                out.append((lo, a - 1))
            lo = b + 1
        if lo <= hi:
            out.append((lo, hi))
    return tuple(out)


def size(x):
    """Number of values in a value."""
    if x[0] == 'arr':
        return 1 + sum(size(y) for y in x[2])
    if x[0] == 'obj':
        return 1 + sum(size(y) for k, y in x[2])
    return 1


class Text(Monitor):
    many_points = 24
    MAXCHARS = 3        # characters of a string which is kept as a whole
    MAXEXP = 999        # exponents, up to
    MAXDIGITS = 3       # digits of a number whose digits are kept
    MAXTOKENS = 12      # tokens read by one call which keeps them
    MAXNEST = 3
    lengths = True
    rehash = True        # hash tables may be rehashed, and searched in any order
    MAXDEAD = 6         # characters after the text can't be well formed any more
    comments = (0,)
    counted = ()
    escapes = True      # backslashes in strings
    unicode = True       # escapes by number
    controls = True      # control characters in strings
    fractions = True     # points in numbers
    exponents = True     # exponents in numbers
    negatives = True
    nochars = ()         # characters which aren't offered within strings
    leaves = None        # characters which values may start with
    MAXVALUES = 1 << 60  # values passed over in one document, and read by one call

    def initial(self, root):
        self.root = root
        return Txt('txt', None, '', ('V', False), ('v', 0), None, None, 'new', None, (), 0, 0, None, None,
                   None, None, False, 0, 0)

    def set(self, st, **kw):
        st.mon = st.mon._replace(**kw)

    counts = ('text', 'panic')      # what this check is about

    def bad(self, st, msg, aspect='text'):
        if aspect not in self.counts:
            if aspect == 'pos':
                return
            raise Stop()
        raise Violation('%s: %s' % (st.mon.call, msg), '%s: %s: %s' % (self.root, st.mon.call, msg))

    # ------------------------------------------------------------------ the text
    def env_ask(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        m = st.mon
        if name == 'next':
            if m.nxt is None:
                self.peek(I, st)
            m = st.mon
            if m.nxt == 'eof':
                return NONE
            c = m.nxt
            self.tick('characters read')
            self.step(I, st, c)
            self.set(st, nxt=None, cur=I.var(st, ((0, (1 << 64) - 1),)))
            return some(c)
        if name == 'peek':
            if m.nxt is None:
                self.peek(I, st)
            return NONE if st.mon.nxt == 'eof' else some(st.mon.nxt)
        if name == 'position':
            return m.cur
        if name == 'comments':
            c = self.comments[I.choose(st, len(self.comments))]
            self.set(st, cm=c)
            return c
        if name == 'call':
            return self.next_call(I, st)
        if name == 'key':
            k = self.keys(st)
            k = k[I.choose(st, len(k))]
            self.set(st, arg=tuple(k.encode()))
            self.hist(I, st, 'key %r' % k)
            c = I.alloc(st, ('rope', (('b', k.encode()),) if k else ()))
            return ('p', c, (), ('s', 0, len(k.encode())))
        raise Unsupported('ask ' + name)

    def keys(self, st):
        return ['a']

    def peek(self, I, st):
        ph = st.mon.ph
        if ph[0] == 'N' and not st.mon.dead:
            # digits are represented by their value
            k = I.choose(st, 3)
            if k == 1:
                return self.set(st, nxt=add(I.var(st, ((0, 9),)), 48))
            if k == 2:
                no = DIGIT if self.exponents else DIGIT + ((69, 69), (101, 101))
                return self.set(st, nxt=I.var(st, minus(CHARS, no if self.fractions else ((46, 46),) + no)))
        elif ph[0] == 'S' and ph[2] == 'u' and not st.mon.dead:
            k = I.choose(st, 5)
            if 1 <= k <= 3:
                return self.set(st, nxt=add(I.var(st, ((0, 9) if k == 1 else (10, 15),)), (48, 55, 87)[k - 1]))
            if k == 4:
                return self.set(st, nxt=I.var(st, minus(CHARS, self.HEX)))
        elif I.choose(st, 2) == 1:
            return self.set(st, nxt=I.var(st, self.alphabet(ph, st.mon.doc)))
        self.set(st, nxt='eof')

    def alphabet(self, ph, doc):
        """The characters which may come next."""
        no = ()
        if ph[0] == 'S' and ph[2] == '':
            no = (() if self.controls else ((0, 31),)) + (() if self.escapes else ((92, 92),)) + self.nochars
        elif ph[0] == 'S' and ph[2] == '\\' and not self.unicode:
            no = ((117, 117),)
        elif ph[0] == 'V' and self.leaves is not None:
            ok = self.leaves if doc else '{'
            no = tuple((ord(c), ord(c)) for c in '"-0123456789[fnt{' if c not in ok)
        elif ph[0] == 'V' and not self.negatives:
            no = ((45, 45),)
        return minus(CHARS, no) if no else CHARS

    # ------------------------------------------------------------------ the reference parser
    def cls(self, I, st, c, ranges):
        return I.test(st, c, ranges)

    VALUES = ('"', 'n', 'l', '{', '[')

    def token(self, st, t):
        m = st.mon
        if m.ev is None:
            return
        if len(m.ev) >= self.MAXTOKENS:
            raise Stop()
        if t[0] in self.VALUES and m.passed + sum(x[0] in self.VALUES for x in m.ev) >= self.MAXVALUES:
            raise Stop()
        self.set(st, ev=m.ev + (t,))

    def die(self, I, st, why):
        self.set(st, dead=(why, 0), ph=('D',), ev=(), num=None, doc='', nxt=None)

    def finished(self, st):
        """A value is complete."""
        m = st.mon
        self.set(st, ph=('E',), vals=m.vals + 1 if len(m.doc) == m.base and m.vals < 2 else m.vals)

    def seen(self, st, kind):
        if st.mon.first is None:
            self.set(st, first=(kind, st.mon.cur) if st.mon.call in WANT else (None, 0))

    def step(self, I, st, c):
        m = st.mon
        if m.dead:
            if m.dead[1] >= self.MAXDEAD:
                raise Stop()
            return self.set(st, dead=(m.dead[0], m.dead[1] + 1))
        k = m.ph[0]
        if k == 'N':
            if self.number(I, st, c):
                return
            if st.mon.dead:
                return
            self.end_number(st)
            k = 'E'
        m = st.mon
        if k in ('V', 'K', ':', 'E'):
            if I.test(st, c, WS):
                return
            if m.cm and I.test(st, c, one(47)):
                self.set(st, ph=('C', '/', m.ph))
                return
        getattr(self, 'in_' + {':': 'colon'}.get(k, k))(I, st, c)

    def in_C(self, I, st, c):
        _, sub, back = st.mon.ph
        if sub == '/':
            if I.test(st, c, one(47)):
                self.set(st, ph=('C', 'line', back))
            elif I.test(st, c, one(42)):
                self.set(st, ph=('C', 'block', back))
            else:
                self.die(I, st, 'a stray slash')
        elif sub == 'line':
            if I.test(st, c, one(10)):
                self.set(st, ph=back)
        elif sub == 'block':
            if I.test(st, c, one(42)):
                self.set(st, ph=('C', 'star', back))
        elif I.test(st, c, one(47)):
            self.set(st, ph=back)
        elif not I.test(st, c, one(42)):
            self.set(st, ph=('C', 'block', back))

    def in_V(self, I, st, c):
        m = st.mon
        T = lambda r: I.test(st, c, r)
        if m.ph[1] and T(one(93)):
            return self.close(I, st, ']')
        if T(one(34)):
            self.seen(st, STRING)
            self.token(st, ('"', m.cur))
            self.set(st, ph=('S', False, ''))
        elif T(one(45)) or T(DIGIT):
            self.seen(st, NUMBER)
            keep = self.keep_digits(st)
            if T(one(45)):
                self.set(st, num=(m.cur, 1, 0, 0, 0, 0, () if keep else None), ph=('N', '-'))
            elif T(one(48)):
                self.set(st, num=(m.cur, 0, 0, 0, 0, 0, (0,) if keep else None), ph=('N', '0'))
            else:
                d = 0 if self.coarse else sub(c, 48)
                self.set(st, num=(m.cur, 0, d, 0, 0, 0, (d,) if keep else None), ph=('N', 'i'))
        elif T(one(123)):
            self.seen(st, OBJECT)
            self.open(st, 'O', ('{', m.cur), ('K', True))
        elif T(one(91)):
            self.seen(st, ARRAY)
            self.open(st, 'A', ('[', m.cur), ('V', True))
        elif T(one(116)):
            self.seen(st, BOOL)
            self.set(st, ph=('L', 'rue', 1, m.cur))
        elif T(one(102)):
            self.seen(st, BOOL)
            self.set(st, ph=('L', 'alse', 0, m.cur))
        elif T(one(110)):
            self.seen(st, NULL)
            self.set(st, ph=('L', 'ull', None, m.cur))
        else:
            self.die(I, st, 'not a value')

    def open(self, st, k, tok, ph):
        m = st.mon
        if len(m.doc) >= self.MAXNEST:
            raise Stop()
        self.token(st, tok)
        self.set(st, doc=m.doc + k, ph=ph)

    def close(self, I, st, t):
        m = st.mon
        self.token(st, (t,))
        self.set(st, doc=m.doc[:-1])
        self.finished(st)

    def in_K(self, I, st, c):
        m = st.mon
        if I.test(st, c, one(34)):
            self.token(st, ('k', m.cur))
            self.set(st, ph=('S', True, ''))
        elif m.ph[1] and I.test(st, c, one(125)):
            self.close(I, st, '}')
        else:
            self.die(I, st, 'not a key')

    def in_colon(self, I, st, c):
        if I.test(st, c, one(58)):
            self.set(st, ph=('V', False))
        else:
            self.die(I, st, 'no colon after the key')

    def in_E(self, I, st, c):
        m = st.mon
        if m.doc:
            if I.test(st, c, one(44)):
                self.set(st, ph=('K', False) if m.doc[-1] == 'O' else ('V', False))
                return
            t = '}' if m.doc[-1] == 'O' else ']'
            if I.test(st, c, one(ord(t))):
                self.close(I, st, t)
                return
        self.die(I, st, 'neither a comma nor the end')

    def in_L(self, I, st, c):
        _, rest, v, pos = st.mon.ph
        if not I.test(st, c, one(ord(rest[0]))):
            return self.die(I, st, 'a misspelt literal')
        if len(rest) > 1:
            self.set(st, ph=('L', rest[1:], v, pos))
        else:
            self.token(st, ('l', pos, v))
            self.finished(st)

    def char(self, st, t):
        ev = st.mon.ev
        if ev is not None:
            n = self.MAXCHARS
            if len(ev) >= n and all(x[0] == 'c' for x in ev[-n:]):
                raise Stop()
            self.token(st, ('c', t))

    def in_S(self, I, st, c):
        _, key, sub_ = st.mon.ph[:3]
        T = lambda r: I.test(st, c, r)
        if sub_ == '':
            if T(one(34)):
                m = st.mon
                if m.call == 'close_object' and m.ev and m.ev[0][0] == 'k':
                    # the key of an entry too many
                    self.set(st, arg=tuple(x[1] for x in m.ev[1:]), ev=None)
                self.token(st, ('.',))
                if key:
                    self.set(st, ph=(':',))
                else:
                    self.finished(st)
            elif T(one(92)):
                self.set(st, ph=('S', key, '\\'))
            elif T(((0, 31),)):
                self.die(I, st, 'a control character in a string')
            else:
                self.char(st, c)
        elif sub_ == '\\':
            if T(one(117)):
                self.set(st, ph=('S', key, 'u', 0, 0, 0))
                return
            for a, b in ESC.items():
                if T(one(a)):
                    self.char(st, b)
                    self.set(st, ph=('S', key, ''))
                    return
            self.die(I, st, 'an unknown escape')
        elif sub_ == 'u':
            _, _, _, n, code, high = st.mon.ph
            if not self.is_hex(I, st, c):
                return self.die(I, st, 'a bad digit in an escape')
            code = add(scale(code, 16), self.hex_value(I, st, c))
            n += 1
            if n < 4:
                self.set(st, ph=('S', key, 'u', n, code, high))
                return
            lo = I.test(st, code, ((0xDC00, 0xDFFF),))
            if high:
                if not lo:
                    return self.die(I, st, 'an unpaired surrogate')
                code = add(scale(sub(high, 0xD800), 0x400), add(sub(code, 0xDC00), 0x10000))
            elif lo:
                return self.die(I, st, 'an unpaired surrogate')
            elif I.test(st, code, ((0xD800, 0xDBFF),)):
                self.set(st, ph=('S', key, 'h', code))
                return
            self.char(st, code)
            self.set(st, ph=('S', key, ''))
        elif sub_ == 'h':
            if T(one(92)):
                self.set(st, ph=('S', key, 'hu', st.mon.ph[3]))
            else:
                self.die(I, st, 'an unpaired surrogate')
        else:
            if T(one(117)):
                self.set(st, ph=('S', key, 'u', 0, 0, st.mon.ph[3]))
            else:
                self.die(I, st, 'an unpaired surrogate')

    HEX = ((48, 57), (65, 70), (97, 102))

    def is_hex(self, I, st, c):
        return I.test(st, c, self.HEX)

    def hex_value(self, I, st, c):
        if I.test(st, c, DIGIT):
            return sub(c, 48)
        if I.test(st, c, ((65, 70),)):
            return sub(c, 55)
        return sub(c, 87)

    def simplify(self, I, st):
        """Before states are compared: long runs of digits are forgotten."""
        for c, v in st.mem.items():
            if type(v) is tuple and v:
                u = self.fewer(I, st, v)
                if u is not v:
                    st.mem[c] = u

    def fewer(self, I, st, v):
        if v[0] == 'vec' and len(v[1]) == 2 and v[1][0] == 'rope' and v[1][1]:
            ch = v[1][1]
            first = ch[0][0] == 'num'
            if first and len(ch) == 1:
                return v
            if (not first and len(ch) < 24 or first and len(ch) < 2) or not all(digits(I, st, c) for c in ch):
                return v
            return ('vec', ('rope', (('num', I.var(st, ((0, 1 << 199),)),
                                     I.var(st, ((1, (1 << 63) - 1),))),)))
        if v[0] == 'A':
            out = [self.fewer(I, st, x) if type(x) is tuple and x else x for x in v[2]]
            if any(a is not b for a, b in zip(out, v[2])):
                return ('A', v[1], tuple(out))
        return v

    unbounded = ()      # calls which read numbers of any length
    coarse = False      # the values of numbers aren't followed

    def keep_digits(self, st):
        return st.mon.call not in self.unbounded

    def number(self, I, st, c):
        """One more character in a number. Does it belong to it?"""
        m = st.mon
        sub_ = m.ph[1]
        T = lambda r: I.test(st, c, r)
        pos, neg, x, frac, eneg, e, digits = m.num

        def digit():
            if self.coarse:
                return 0, None
            d = sub(c, 48)
            ds = digits
            if ds is not None:
                if len(ds) >= self.MAXDIGITS:
                    raise Stop()
                ds += (d,)
            return add(scale(x, 10), d), ds
        if sub_ == '-':
            if T(one(48)):
                self.set(st, ph=('N', '0'), num=(pos, neg, 0, 0, 0, 0, None if digits is None else (0,)))
                return True
            if T(DIGIT):
                x, ds = digit()
                self.set(st, ph=('N', 'i'), num=(pos, neg, x, 0, 0, 0, ds))
                return True
        elif sub_ in ('0', 'i', 'f'):
            if sub_ != '0' and T(DIGIT):
                x, ds = digit()
                self.set(st, num=(pos, neg, x, frac if sub_ == 'i' or self.coarse else add(frac, 1), 0, 0, ds))
                return True
            if sub_ != 'f' and T(one(46)):
                self.set(st, ph=('N', '.'))
                return True
            if T(((69, 69), (101, 101))):
                self.set(st, ph=('N', 'e'))
                return True
            return False
        elif sub_ == '.':
            if T(DIGIT):
                x, ds = digit()
                self.set(st, ph=('N', 'f'), num=(pos, neg, x, 1, 0, 0, ds))
                return True
        elif sub_ == 'e' and (T(one(43)) or T(one(45))):
            self.set(st, ph=('N', 's'), num=(pos, neg, x, frac, int(T(one(45))), 0, digits))
            return True
        elif sub_ in ('e', 's', 'x'):
            if T(DIGIT):
                e = 0 if self.coarse else add(scale(e, 10), sub(c, 48))
                if digits is not None and not I.le(st, e, self.MAXEXP):
                    raise Stop()
                self.set(st, ph=('N', 'x'), num=(pos, neg, x, frac, eneg, e, digits))
                return True
            if sub_ == 'x':
                return False
        self.die(I, st, 'a malformed number')
        return False

    def accepting(self, st):
        ph = st.mon.ph
        return ph[0] == 'N' and ph[1] in ('0', 'i', 'f', 'x')

    def end_number(self, st):
        self.token(st, ('n',) + st.mon.num)
        self.set(st, num=None)
        self.finished(st)

    def settle(self, I, st):
        """At the end of a call: the number being read has to be complete."""
        m = st.mon
        if m.ph[0] != 'N' or m.dead:
            return
        if not self.accepting(st):
            self.bad(st, 'stops in the middle of a number')
        if m.nxt is None:
            self.bad(st, 'stops in the middle of a number')
        if m.nxt != 'eof' and self.number(I, st, m.nxt):
            st.mon = m
            self.bad(st, 'stops in the middle of a number')
        st.mon = m
        self.end_number(st)

    def kind_of(self, I, st, c):
        for r, k in ((one(34), STRING), (one(45), NUMBER), (DIGIT, NUMBER), (one(123), OBJECT), (one(91), ARRAY),
                     (one(116), BOOL), (one(102), BOOL), (one(110), NULL)):
            if I.test(st, c, r):
                return k
        return None

    # ------------------------------------------------------------------ the calls
    def config(self, st):
        """The calls which may be made now."""
        raise NotImplementedError

    def next_call(self, I, st):
        m = st.mon
        names = self.config(st)
        if not names:
            raise Stop()
        name = names[I.choose(st, len(names))]
        self.hist(I, st, '-> ' + name)
        self.tick('calls')
        self.set(st, call=name, arg=None, ev=None if name in SKIPS else (), base=len(m.doc), vals=0, first=None,
                 calls=m.calls + 1 if m.calls < 40 and self.counted else 0)
        return CODES[name]

    def on_note(self, I, st, name, arg):
        m = st.mon
        if name == 'failed':
            self.failed(I, st, self.lit(I, st, arg[2][0]), arg[2][1], arg[2][2])
        elif name == 'ok':
            if m.dead:
                self.bad(st, 'succeeds on malformed text (%s)' % m.dead[0])
            self.settle(I, st)
            if st.mon.ph[0] == 'C':
                self.bad(st, 'stops inside a comment')
            self.tick('results compared')
            self.judge(I, st, arg)
            self.set(st, ev=(), num=None, arg=None, first=None, vals=0)
        else:
            raise Unsupported('note ' + name)

    def on_panic(self, I, st, msg):
        self.hist(I, st, 'panic')
        self.bad(st, 'panics', 'panic')

    # what is on the stack
    def top(self, st):
        m = st.mon
        return m.top[-1] if m.top else None

    def poptop(self, st, n=1):
        self.set(st, top=st.mon.top[:len(st.mon.top) - n])

    def pushtop(self, st, f):
        self.set(st, top=st.mon.top + (f,))

    def expect(self, I, st, tokens, ph):
        """The call read just these tokens, and the text goes on in the given way."""
        m = st.mon
        if len(m.ev) != len(tokens) or any(a[0] != b for a, b in zip(m.ev, tokens)):
            self.bad(st, 'reads the wrong part of the text')
        if m.ph[0] != ph:
            self.bad(st, 'stops at the wrong place')

    def still(self, st):
        """Nothing may have been read."""
        m = st.mon
        if m.ev or m.vals or len(m.doc) != m.base or m.first is not None:
            self.bad(st, 'reads from the text')

    def took(self, st, pos):
        """A value which starts at `pos` is done."""
        self.set(st, last=pos, popped=True)

    def entered(self, st):
        self.set(st, popped=False)

    def judge(self, I, st, v):
        m = st.mon
        call = m.call
        if call == 'new':
            if m.ev or m.ph[0] != 'V':
                self.bad(st, 'reads from the value')
            self.set(st, top=(('V', 's'),))
            return
        if call == 'close':
            if m.ev or m.ph[0] != 'E' or m.doc or m.nxt != 'eof':
                self.bad(st, 'succeeds before the end of the text')
            self.tick('documents accepted')
            raise Stop()
        t = self.top(st)
        if call == 'error':
            self.still(st)
            if not self.same(I, st, v, m.last):
                self.bad(st, 'an error about a value does not have the position of the value', 'pos')
            self.tick('positions compared')
            return
        if call == 'supports_null':
            return
        if call == 'peek_collection_type':
            self.still(st)
            if v[1] != (0 if t[0] == 'O' else 1):
                self.bad(st, 'gives the wrong type')
            return
        getattr(self, {'V': 'judge_value', 'S': 'judge_string', 'O': 'judge_object', 'L': 'judge_array'}[t[0]])(
            I, st, call, t, v)

    # ---- values
    def judge_value(self, I, st, call, t, v):
        m = st.mon
        src = t[1]
        if call in ('peek_value_type', 'error_expected_type'):
            self.still(st)
            if call == 'error_expected_type':
                want = self.value_pos(st, t)
                if not self.same(I, st, v, want):
                    self.bad(st, 'does not have the position of the value', 'pos')
                self.tick('positions compared')
                return
            k = self.kind(I, st, t)
            if k is not None and v[1] != k:
                self.bad(st, 'gives the wrong type')
            if k is None and m.nxt is None:
                self.bad(st, 'gives a type without looking')
            return
        if call == 'check_null' and v == 0:
            self.still(st)
            k = self.kind(I, st, t)
            if k is None and m.nxt is None or k == NULL:
                self.bad(st, 'null is overlooked')
            return
        if call == 'check_null':
            call = 'pop_null'
        if src == 's':
            self.stream_value(I, st, call, v)
        elif src == 't':
            self.still(st)
            self.kept_value(I, st, call, t[2], v)
        else:
            self.still(st)
            if call not in ('pop_null', 'skip_value'):
                self.bad(st, 'a missing entry is read as a value')
            self.poptop(st)
            self.took(st, t[3])

    def value_pos(self, st, t):
        return st.mon.cur if t[1] == 's' else t[2][1] if t[1] == 't' else t[3]

    def kind(self, I, st, t):
        if t[1] == 's':
            c = st.mon.nxt
            if c is None or c == 'eof':
                return None
            return self.kind_of(I, st, c)
        if t[1] == 't':
            x = t[2]
            if x[0] == 'lit':
                return NULL if x[2] is None else BOOL
            return {'str': STRING, 'num': NUMBER, 'obj': OBJECT, 'arr': ARRAY}[x[0]]
        return NULL

    def stream_value(self, I, st, call, v):
        m = st.mon
        if call in ('open_struct', 'open_tuple'):
            call = 'open_list' if m.doc[-1:] == 'A' and call == 'open_struct' or call == 'open_tuple' else 'open_object'
        if call == 'skip_value':
            if m.vals != 1 or len(m.doc) != m.base or m.ph[0] != 'E':
                self.bad(st, 'does not read exactly one value')
            self.poptop(st)
            self.set(st, popped=False)
            return
        if call in ('open_object', 'open_list'):
            o = call == 'open_object'
            self.expect(I, st, '{' if o else '[', 'K' if o else 'V')
            pos = m.ev[0][1]
            self.poptop(st)
            self.pushtop(st, ('O', pos, (), True) if o else ('L', pos, 's'))
            self.entered(st)
            return
        if call == 'open_str':
            self.expect(I, st, '"', 'S')
            self.poptop(st)
            self.pushtop(st, ('S', 's', False))
            self.set(st, last=m.ev[0][1], popped=False)
            return
        if call in ('read_str', 'get_char'):
            cs = m.ev[1:-1]
            self.expect(I, st, '"' + 'c' * len(cs) + '.', 'E')
            self.content(I, st, call, tuple(c[1] for c in cs), v)
        elif call in ('get_bool', 'pop_null'):
            self.expect(I, st, 'l', 'E')
            self.literal(st, call, m.ev[0][2], v)
        else:
            self.expect(I, st, 'n', 'E')
            self.numeric(I, st, call, m.ev[0][1:], v)
        self.poptop(st)
        self.took(st, m.ev[0][1])

    def content(self, I, st, call, chars, v):
        if call == 'get_char':
            if len(chars) != 1 or not self.same_char(I, st, v, chars[0]):
                self.bad(st, 'gives another character')
        else:
            self.same_text(I, st, v, chars)

    def same_char(self, I, st, a, b):
        if self.same(I, st, a, b):
            return True
        return not I.lt(st, a, b) and not I.lt(st, b, a)

    def same_text(self, I, st, v, chars):
        """The string value (Cow, String or pointer) has these characters."""
        while v[0] == 'A':
            v = v[2][0]
        if v[0] == 'vec':
            r = v[1]
        elif v[0] == 'p':
            r = coll.slice_rope(I, st, v)
        else:
            raise Unsupported('text %r' % (v[0],))
        r = coll.norm(r[1])[1]
        out = []
        for c in r:
            if c[0] == 'ch':
                out.append(c[1])
            elif c[0] == 'b':
                out += [ord(x) for x in c[1].decode()]
            else:
                raise Unsupported('text of bytes')
        if len(out) != len(chars) or not all(self.same_char(I, st, a, b) for a, b in zip(out, chars)):
            self.bad(st, 'gives another text')

    def literal(self, st, call, x, v):
        if call == 'get_bool':
            if x is None or v != x:
                self.bad(st, 'gives another value')
        elif x is not None:
            self.bad(st, 'accepts a value which is not null')

    def kept_value(self, I, st, call, x, v):
        k = x[0]
        m = st.mon
        if call in ('open_struct', 'open_tuple'):
            call = 'open_list' if k == 'arr' and call == 'open_struct' or call == 'open_tuple' else 'open_object'
        self.poptop(st)
        if call == 'skip_value':
            self.set(st, popped=False)
            return
        want = {'open_object': 'obj', 'open_list': 'arr', 'open_str': 'str', 'read_str': 'str', 'get_char': 'str',
                'get_bool': 'lit', 'pop_null': 'lit'}.get(call, 'num')
        if k != want:
            self.bad(st, 'accepts a value of another type')
        if call == 'open_object':
            self.pushtop(st, ('O', x[1], x[2], False))
            return self.entered(st)
        if call == 'open_list':
            self.pushtop(st, ('L', x[1], x[2]))
            return self.entered(st)
        if call == 'open_str':
            self.pushtop(st, ('S', 't', x[2], None))
            self.set(st, last=x[1], popped=False)
            return
        if want == 'str':
            self.content(I, st, call, x[2], v)
        elif want == 'lit':
            self.literal(st, call, x[2], v)
        else:
            self.numeric(I, st, call, x[1:], v)
        self.took(st, x[1])

    # ---- numbers
    def exponent(self, num):
        pos, neg, x, frac, eneg, e, digits = num
        return sub(scale(e, -1) if eneg else e, frac)

    def numeric(self, I, st, call, num, v):
        self.tick('numbers compared')
        if self.coarse:
            return
        if call in FLOATS:
            return self.floating(I, st, call, num, v)
        pos, neg, x, frac, eneg, e, digits = num
        ex = self.exponent(num)
        if x == 0 or not I.test(st, x, ((1, 1 << 210),)):
            if not self.same(I, st, v, 0):
                self.bad(st, 'zero is read as another number')
            return
        if not I.test(st, ex, ((-45, 45),)):
            self.bad(st, 'a number which no integer type holds is accepted')
        ex = I.conc_fork(st, ex, 100)
        want = scale(x, 10 ** ex) if ex >= 0 else None
        if neg:
            v = scale(v, -1)
        if ex < 0:
            k = 10 ** -ex
            if I.test(st, I.divrem(st, 'Rem', x, k), ((1, k),)):
                self.bad(st, 'a fraction is read as an integer')
            want = I.divrem(st, 'Div', x, k)
        if not self.same(I, st, v, want) and (I.lt(st, v, want) or I.lt(st, want, v)):
            self.bad(st, 'gives another number')

    def floating(self, I, st, call, num, v):
        pos, neg, x, frac, eneg, e, digits = num
        if v[0] != 'fl':
            raise Unsupported('not a float')
        v = v[1]
        minus = 0
        while v[:2] == ('f', 'neg'):
            minus ^= 1
            v = v[2][0][1]
        if minus != neg:
            self.bad(st, 'gives a number with another sign')
        ds = list(digits)
        while ds and ds[0] == 0:
            ds.pop(0)
        ex = self.exponent(num)
        if v[0] == 'k':
            if v[1] not in (0, 0.0, '0', 0x0) or any(d != 0 and I.test(st, d, ((1, 9),)) for d in ds):
                self.bad(st, 'gives another number')
            return
        if v[:2] != ('f', 'parse'):
            raise Unsupported('a computed float %r' % (v[:2],))
        _, ds2, ex2 = v[2]
        ds2 = list(ds2)
        while ds2 and ds2[0] == 0:
            ds2.pop(0)
        if len(ds) != len(ds2) or not all(self.same(I, st, a, b) for a, b in zip(ds, ds2)):
            self.bad(st, 'gives a number with other digits')
        if ds and not self.same(I, st, ex, ex2):
            self.bad(st, 'gives a number with another exponent')

    def refusal(self, I, st, call, num):
        """May this number be refused because it is too large, or not an integer?"""
        if self.coarse:
            return True
        pos, neg, x, frac, eneg, e, digits = num
        if not I.le(st, e, (1 << 31) - 1) or not I.test(st, self.exponent(num), ((-(1 << 31), (1 << 31) - 1),)):
            return True
        if call in FLOATS or call not in INTS:
            return False
        s, bits = INTS[call]
        big = (1 << bits) - 1
        if not I.le(st, x, big):
            return True
        ex = self.exponent(num)
        k = len(str(big)) - 1
        if not I.test(st, ex, ((-k, k),)):
            return True
        ex = I.conc_fork(st, ex, 100)
        if ex >= 0:
            w = scale(x, 10 ** ex)
        else:
            if I.test(st, I.divrem(st, 'Rem', x, 10 ** -ex), ((1, 10 ** -ex),)):
                return True
            w = I.divrem(st, 'Div', x, 10 ** -ex)
        if neg:
            lim = 1 << (bits - 1) if s else 0
        else:
            lim = (1 << (bits - 1)) - 1 if s else big
        return not I.le(st, w, lim)

    # ---- strings
    def judge_string(self, I, st, call, t, v):
        m = st.mon
        if t[1] == 's':
            key = t[2]
            if call == 'next_char' and v[1] == 1:
                self.expect(I, st, 'c', 'S')
                if m.ph[2] != '':
                    self.bad(st, 'stops inside an escape')
                if not self.same_char(I, st, v[2][0], m.ev[0][1]):
                    self.bad(st, 'gives another character')
                self.tick('characters compared')
                return
            if call == 'flush_str':
                cs = m.ev[:-1]
                self.expect(I, st, 'c' * len(cs) + '.', 'V' if key else 'E')
                self.same_text(I, st, v, tuple(c[1] for c in cs))
            elif call == 'skip_str':
                if key and (m.ph[0] != 'V' or len(m.doc) != m.base or m.first is not None) or \
                        not key and (m.ph[0] != 'E' or m.vals != 1):
                    self.bad(st, 'stops at the wrong place')
            else:
                self.expect(I, st, '.', 'V' if key else 'E')
            self.poptop(st)
            self.set(st, popped=True)
            if key:
                self.pushtop(st, ('V', 's'))
                self.set(st, popped=False)
        else:
            self.still(st)
            chars, tree = t[2], t[3]
            if call == 'next_char' and v[1] == 1:
                if not chars:
                    self.bad(st, 'gives a character too many')
                if not self.same_char(I, st, v[2][0], chars[0]):
                    self.bad(st, 'gives another character')
                self.tick('characters compared')
                self.poptop(st)
                self.pushtop(st, ('S', 't', chars[1:], tree))
                return
            if call == 'flush_str':
                self.same_text(I, st, v, chars)
            elif call != 'skip_str' and chars:
                self.bad(st, 'the end of a string is reported too early')
            self.poptop(st)
            self.set(st, popped=True)
            if tree is not None:
                self.pushtop(st, ('V', 't', tree))
                self.set(st, popped=False)

    # ---- arrays
    def judge_array(self, I, st, call, t, v):
        m = st.mon
        pos, src = t[1], t[2]
        has = call in ('push_item', 'push_element', 'push_field') or call == 'next_item' and v == 1
        if src == 's':
            if has:
                self.expect(I, st, '', 'V')
                if m.ph[1]:
                    # the first item: the array has to be known to have one
                    if m.nxt is None:
                        self.bad(st, 'an item is announced without looking')
                    if m.nxt != 'eof' and I.test(st, m.nxt, one(93)):
                        self.bad(st, 'an item is announced at the end of the array')
                    self.set(st, ph=('V', False))
                self.pushtop(st, ('V', 's'))
                return self.entered(st)
            if m.ev is None:
                if len(m.doc) != m.base - 1 or m.vals:
                    self.bad(st, 'does not end at the end of the array')
                if m.ph[0] != 'E':
                    self.bad(st, 'stops at the wrong place')
            else:
                self.expect(I, st, ']', 'E')
        else:
            self.still(st)
            if has:
                if not src:
                    self.bad(st, 'an item is announced after the last')
                self.poptop(st)
                self.pushtop(st, ('L', pos, src[1:]))
                self.pushtop(st, ('V', 't', src[0]))
                return self.entered(st)
            if src:
                self.bad(st, 'the array ends before its last item')
        self.poptop(st)
        self.took(st, pos)

    # ---- objects
    def judge_object(self, I, st, call, t, v):
        m = st.mon
        _, pos, pend, stream = t
        if call == 'next_entry' and v == 1:
            if pend:
                self.still(st)
                self.poptop(st)
                self.pushtop(st, ('O', pos, pend[1:], stream))
                self.pushtop(st, ('S', 't', pend[0][0], pend[0][1]))
                self.set(st, last=None, popped=False)
                return
            if not stream:
                self.bad(st, 'an entry is announced after the last')
            self.expect(I, st, 'k', 'S')
            self.pushtop(st, ('S', 's', True))
            self.set(st, last=m.ev[0][1], popped=False)
            return
        if call == 'push_null':
            return
        if call in ('try_push_entry', 'push_entry', 'push_field'):
            return self.found(I, st, call, t, v)
        # the end of the object
        if call in ('next_entry', 'close_object') and pend:
            self.bad(st, 'the object ends before its last entry')
        if stream:
            if m.ev is None:
                if len(m.doc) != m.base - 1:
                    self.bad(st, 'does not end at the end of the object')
                if m.ph[0] != 'E':
                    self.bad(st, 'stops at the wrong place')
                if call == 'close_object' and m.first is not None:
                    self.bad(st, 'an entry is passed over')
            else:
                self.expect(I, st, '}', 'E')
        else:
            self.still(st)
        self.poptop(st)
        self.took(st, pos)

    def found(self, I, st, call, t, v):
        """An entry was asked for by its key."""
        m = st.mon
        _, pos, pend, stream = t
        key = m.arg
        hit = v == 1 if call == 'try_push_entry' else None
        self.poptop(st)
        for i, (k, x) in enumerate(pend):
            if self.key_eq(I, st, k, key):
                self.still(st)
                if hit is False:
                    self.bad(st, 'an entry which was passed over before is not found')
                self.tick('entries found again')
                self.pushtop(st, ('O', pos, pend[:i] + pend[i + 1:], stream))
                self.pushtop(st, ('V', 't', x))
                return self.entered(st)
        if not stream:
            self.still(st)
            if hit or call == 'push_entry':
                self.bad(st, 'an entry is found which is not there')
            self.pushtop(st, t)
            return self.absent(I, st, call, t)
        # what was read: entries passed over, and then the key or the end
        ev = list(m.ev)
        new = []
        while ev and ev[0][0] == 'k':
            ev.pop(0)
            chars = []
            while ev and ev[0][0] == 'c':
                chars.append(ev.pop(0)[1])
            if not ev or ev[0][0] != '.':
                self.bad(st, 'stops at the wrong place')
            ev.pop(0)
            if self.key_eq(I, st, chars, key):
                if ev or m.ph[0] != 'V':
                    self.bad(st, 'passes over the entry, or reads from its value')
                if hit is False:
                    self.bad(st, 'an entry is not found')
                self.tick('entries found')
                self.set(st, passed=m.passed + sum(size(x) for k, x in new))
                self.pushtop(st, ('O', pos, pend + tuple(new), True))
                self.pushtop(st, ('V', 's'))
                return self.entered(st)
            if not ev:
                self.bad(st, 'another entry is found')
            x = self.tree(st, ev)
            for k, _ in pend + tuple(new):
                if len(k) == len(chars) and all(self.char_eq(I, st, a, b) for a, b in zip(k, chars)):
                    raise Stop()       # which of two entries with the same key is found is not specified
            new.append((tuple(chars), x))
        if len(ev) != 1 or ev[0][0] != '}' or m.ph[0] != 'E':
            self.bad(st, 'stops at the wrong place')
        if hit or call == 'push_entry':
            self.bad(st, 'an entry is found which is not there')
        self.tick('entries missed')
        self.set(st, passed=m.passed + sum(size(x) for k, x in new))
        u = ('O', pos, pend + tuple(new), False)
        self.pushtop(st, u)
        self.absent(I, st, call, u)

    def absent(self, I, st, call, t):
        if call == 'push_field':
            self.pushtop(st, ('V', 'n', st.mon.arg, t[1]))
            self.entered(st)

    def char_eq(self, I, st, a, b):
        return I.eq(st, a, b)

    def key_eq(self, I, st, chars, key):
        ks = [ord(c) for c in bytes(key).decode()]
        if len(ks) != len(chars):
            return False
        return all(self.char_eq(I, st, c, k) for c, k in zip(chars, ks))

    def tree(self, st, ev):
        """Builds the value which the tokens describe."""
        t = ev.pop(0)
        if t[0] == 'l':
            return ('lit', t[1], t[2])
        if t[0] == 'n':
            return ('num',) + t[1:]
        if t[0] == '"':
            chars = []
            while ev[0][0] == 'c':
                chars.append(ev.pop(0)[1])
            ev.pop(0)
            return ('str', t[1], tuple(chars))
        if t[0] == '[':
            items = []
            while ev[0][0] != ']':
                items.append(self.tree(st, ev))
            ev.pop(0)
            return ('arr', t[1], tuple(items))
        if t[0] == '{':
            items = []
            while ev[0][0] != '}':
                ev.pop(0)
                chars = []
                while ev[0][0] == 'c':
                    chars.append(ev.pop(0)[1])
                ev.pop(0)
                items.append((tuple(chars), self.tree(st, ev)))
            ev.pop(0)
            return ('obj', t[1], tuple(items))
        raise Unsupported('token %r' % (t[0],))

    # ------------------------------------------------------------------ failures
    def goal(self, st):
        """Had the call read all it was asked for?"""
        m = st.mon
        if m.call == 'close':
            return m.ph[0] == 'E' and not m.doc and m.nxt == 'eof'
        if m.call in SEEK or m.call == 'new':
            return False
        if m.call == 'skip_value':
            return len(m.doc) == m.base and (m.ph[0] == 'E' and m.vals >= 1 or self.accepting(st))
        return m.ph[0] == 'E' and m.vals >= 1 or self.accepting(st)

    def failed(self, I, st, code, pos, arg):
        m = st.mon
        self.hist(I, st, 'failed ' + code)
        self.tick('errors judged')
        call = m.call
        t = self.top(st) if m.top is not None else None
        if m.dead:
            raise Stop()
        if call == 'new':
            if m.ph[0] == 'C' or m.nxt == 'eof':
                raise Stop()
            return self.unjust(I, st, code)
        if code == 'NumberOverflow':
            return self.overflow(I, st, t, pos)
        if t is not None and t[0] == 'V':
            if t[1] == 's':
                f = m.first
                if f is None and m.nxt not in (None, 'eof') and m.ph[0] == 'V':
                    k = self.kind_of(I, st, m.nxt)
                    if k is not None:
                        f = (k, m.cur)
                if f is not None and call in WANT and f[0] not in WANT[call]:
                    return self.mismatch(I, st, code, pos, arg, f[1], f[0])
            elif t[1] == 't':
                k = self.kind(I, st, t)
                self.still(st)
                if call in WANT and k not in WANT[call]:
                    return self.mismatch(I, st, code, pos, arg, t[2][1], k)
            else:
                self.still(st)
                if call in WANT and NULL not in WANT[call]:
                    if t[2] is not None:
                        if code != 'MissingKey':
                            self.bad(st, 'a missing entry is not reported as missing')
                        self.same_text(I, st, arg, [ord(c) for c in bytes(t[2]).decode()])
                        self.tick('missing entries reported')
                    raise Stop()
        if code in ('ExtraKey', 'ExcessItems') and self.accepting(st) and m.nxt is not None:
            if m.nxt == 'eof' or not self.number(I, st, m.nxt):
                self.end_number(st)
        if self.protocol(I, st, call, t, code, pos, arg):
            raise Stop()
        # the text
        if t is None or t[0] == 'V' and t[1] == 's' or t[0] == 'S' and t[1] == 's' or t[0] == 'O' and t[3] or \
                t[0] == 'L' and t[2] == 's':
            if not self.goal(st):
                if m.nxt == 'eof':
                    raise Stop()
                if m.nxt is not None:
                    self.step(I, st, m.nxt)
                    if st.mon.dead:
                        raise Stop()
                    st.mon = m
        self.unjust(I, st, code)

    def unjust(self, I, st, code):
        self.bad(st, 'refuses what is well formed (%s)' % code)

    def mismatch(self, I, st, code, pos, arg, want, kind):
        if code != 'Expected':
            self.bad(st, 'a value of the wrong type is reported as %s' % code)
        if not self.same(I, st, pos, want):
            self.bad(st, 'a type mismatch does not have the position of the value', 'pos')
        self.tick('mismatches reported')
        raise Stop()

    def overflow(self, I, st, t, pos):
        m = st.mon
        if t is None or t[0] != 'V' and m.call not in SEEK and m.call != 'skip_value':
            self.bad(st, 'a number is refused where there is none')
        if t[0] == 'V' and t[1] == 't':
            x = t[2]
            if x[0] == 'num' and self.refusal(I, st, m.call, x[1:]):
                raise Stop()
        elif m.num is not None or m.ev and m.ev[-1][0] == 'n':
            if self.refusal(I, st, m.call, m.num or m.ev[-1][1:]):
                raise Stop()
        self.bad(st, 'a number which can be represented is refused')

    def protocol(self, I, st, call, t, code, pos, arg):
        """Errors about what the items of a well-formed text are."""
        m = st.mon

        def at(p):
            if not self.same(I, st, pos, p):
                self.bad(st, '%s does not have the position of the value it is about' % code, 'pos')
            self.tick('structure errors judged')
            return True
        if t is None:
            return False
        closed = len(m.doc) < m.base
        if code == 'MissingItems' and call in ('push_item', 'push_element', 'push_field') and t[0] == 'L':
            return (closed if t[2] == 's' else not t[2]) and at(t[1])
        if code == 'ExcessItems' and call in ('close_list', 'close_tuple', 'close_struct') and t[0] == 'L':
            return (m.vals == 1 and not closed if t[2] == 's' else len(t[2]) > 0) and at(t[1])
        if code == 'MissingKey' and call == 'push_entry' and t[0] == 'O':
            self.same_text(I, st, arg, [ord(c) for c in bytes(m.arg).decode()])
            if any(self.key_eq(I, st, k, m.arg) for k, x in t[2]):
                return False
            ev = list(m.ev)
            while ev and ev[0][0] == 'k':
                ev.pop(0)
                chars = []
                while ev and ev[0][0] == 'c':
                    chars.append(ev.pop(0)[1])
                ev.pop(0)
                if self.key_eq(I, st, chars, m.arg):
                    return False
                self.tree(st, ev)
            return (closed if t[3] else True) and at(t[1])
        if code == 'ExtraKey' and call == 'close_object' and t[0] == 'O':
            if t[2]:
                self.same_text(I, st, arg, t[2][0][0])
                return at(t[1])
            if m.arg is None:
                return False
            self.same_text(I, st, arg, m.arg)
            return t[3] and m.vals == 1 and at(t[1])
        if code == 'Custom' and call == 'get_char':
            if t[0] == 'V' and t[1] == 't':
                return t[2][0] == 'str' and len(t[2][2]) != 1 and at(t[2][1])
            return m.ev[:1] and m.ev[0][0] == '"' and len(m.ev) != 3 and at(m.ev[0][1]) and \
                (len(m.ev) > 2 or m.ev[-1][0] == '.')
        if code == 'Custom' and call == 'close_str':
            if t[1] == 't':
                return len(t[2]) > 0
            return m.ev[:1] and m.ev[0][0] == 'c'
        return False

    # ------------------------------------------------------------------ library functions
    def intercept(self, f):
        r = self.table.get(f.defn)
        if r is None:
            r = LIBRARY.get(f.defn)
            if r is not None:
                return r.__get__(self)
        return r


def lib_encode(self, I, st, f, vals, argtys, destty):
    c = vals[0]
    if self.lengths:
        # the number of bytes is known from here on
        for hi in (0x7f, 0x7ff, 0xffff):
            if I.test(st, c, ((0, hi),)):
                break
    r = coll.norm((('ch', c),))
    return ('p', I.alloc(st, r), (), ('s', 0, rope_len(r)))


def chars_of(I, st, p):
    """The characters of a byte slice, or None."""
    r = coll.norm(coll.slice_rope(I, st, p)[1])[1]
    out = []
    for i, c in enumerate(r):
        if c[0] == 'ch':
            out.append(c[1])
        elif c[0] == 'b':
            try:
                out += [ord(x) for x in c[1].decode()]
            except UnicodeDecodeError:
                return None
        elif c[0] == 'n' and not coll.not_ascii(I, st, c[1], r[i + 1:]):
            out.append(c[1])
        else:
            return None
    return tuple(out)


def lib_mix(self, I, st, f, vals, argtys, destty):
    cs = chars_of(I, st, vals[1])
    if cs is None:
        raise Unsupported('hash of bytes')
    return ('f', 'hash', (vals[0], 'data') + cs)


def lib_mix_int(self, I, st, f, vals, argtys, destty):
    return ('f', 'hash', (vals[0], 'int', vals[1], vals[2]))


def lib_same_hash(self, I, st, f, vals, argtys, destty):
    def same(a, b):
        if type(a) is not tuple or type(b) is not tuple or a[:2] != ('f', 'hash') or b[:2] != ('f', 'hash'):
            return a == b
        x, y = a[2], b[2]
        if len(x) != len(y) or x[1] != y[1] or not same(x[0], y[0]):
            return False
        return all(I.eq(st, p, q) for p, q in zip(x[2:], y[2:]))
    if same(vals[0], vals[1]):
        return 1
    return I.choose(st, 2)


def lib_maybe(self, I, st, f, vals, argtys, destty):
    return I.choose(st, 2) if self.rehash else 0


def lib_itoa(self, I, st, f, vals, argtys, destty):
    v = vals[1]
    n = I.conc(st, v)
    r = ('rope', (('b', str(n).encode()),)) if n is not None else ('rope', (('num', v, I.var(st, ((1, 11),))),))
    return ('p', I.alloc(st, r), (), ('s', 0, rope_len(r)))


def digits(I, st, c):
    if c[0] == 'b':
        return all(48 <= x <= 57 for x in c[1])
    if c[0] == 'n':
        r = I.rs(st, c[1])
        return r[0][0] >= 48 and r[-1][1] <= 57
    if c[0] == 'num':
        r = I.rs(st, c[1])
        return r[0][0] >= 0
    return False


def lib_parse(self, I, st, f, vals, argtys, destty):
    """Parsing the text of a floating-point number."""
    v = coll.norm(coll.slice_rope(I, st, vals[0])[1])[1]
    syms = []
    for c in v:
        if c[0] == 'b':
            syms += [('b', x) for x in c[1]]
        elif c[0] == 'n':
            syms.append(('n', c[1]))
        elif c[0] == 'num':
            syms.append(c)
        else:
            raise Unsupported('parse of %s' % c[0])
    ds, ex, i = [], 0, 0
    point = False
    while i < len(syms):
        s = syms[i]
        if s[0] == 'b' and 48 <= s[1] <= 57:
            ds.append(s[1] - 48)
        elif s[0] == 'n':
            d = sub(s[1], 48)
            r = I.rs(st, d)
            if r[0][0] < 0 or r[-1][1] > 9:
                raise Unsupported('parse of a byte which may not be a digit')
            ds.append(d)
        elif self.coarse and s[0] == 'num' and I.le(st, 0, s[1]):
            # digits which were forgotten
            ds.append(I.var(st, ((0, 9),)))
        elif s == ('b', 46) and not point:
            point = True
            i += 1
            continue
        else:
            break
        if point:
            ex -= 1
        i += 1
    if not ds:
        return err(('A', 0, (0,)))
    if i < len(syms):
        if syms[i] not in (('b', 101), ('b', 69)) or i + 1 >= len(syms):
            return err(('A', 0, (0,)))
        rest = syms[i + 1:]
        if len(rest) == 1 and rest[0][0] == 'num':
            ex = add(ex, rest[0][1])
        elif all(s[0] == 'b' for s in rest):
            try:
                ex = add(ex, int(bytes(s[1] for s in rest)))
            except ValueError:
                return err(('A', 0, (0,)))
        else:
            raise Unsupported('parse of a symbolic exponent')
    return ok(('fl', ('f', 'parse', (f.defn, tuple(ds), ex))))


def lib_pow(kind, signed, bits):
    def g(self, I, st, f, vals, argtys, destty):
        base = I.conc(st, vals[0])
        if base is None or base < 2:
            raise Unsupported('power of an unknown base')
        top = 1 << (bits - signed)
        k = 0
        while base ** (k + 1) < top:
            k += 1
        if I.test(st, vals[1], ((0, k),)):
            r = base ** I.conc_fork(st, vals[1], 100)
            return some(r) if kind == 'checked' else ('A', 0, (r, 0)) if kind == 'overflowing' else r
        if kind == 'checked':
            return NONE
        if kind == 'saturating':
            return top - 1
        if kind == 'pow':
            raise Panic('attempt to multiply with overflow')
        if base % 2 or not I.test(st, vals[1], ((0, bits - 1),)):
            if base % 2:
                raise Unsupported('power which wraps')
            r = 0
        else:
            r = I.wrap(st, base ** I.conc_fork(st, vals[1], 200), signed, bits)
        return r if kind == 'wrapping' else ('A', 0, (r, 1))
    return g


LIBRARY = {'core::char::methods::<impl char>::encode_utf8': lib_encode,
           'std::char::methods::<impl char>::encode_utf8': lib_encode,
           'hashbrown::mix': lib_mix, 'hashbrown::mix_int': lib_mix_int, 'hashbrown::same_hash': lib_same_hash,
           'hashbrown::maybe': lib_maybe, 'itoa::Buffer::format': lib_itoa,
           'core::num::float_parse::<impl std::str::FromStr for f32>::from_str': lib_parse,
           'core::num::float_parse::<impl std::str::FromStr for f64>::from_str': lib_parse}
for _b in (8, 16, 32, 64, 128):
    for _p in ('core', 'std'):
        for _k in ('checked', 'wrapping', 'saturating', 'overflowing', 'pow'):
            for _s in (0, 1):
                LIBRARY['%s::num::<impl %s%d>::%s' % (_p, 'ui'[_s], _b, _k if _k == 'pow' else _k + '_pow')] = \
                    lib_pow(_k, _s, _b)
