"""C15: the functions which process one whole document."""
from textc import *
from terms import *
from interp import Violation, Stop, Unsupported
from mon import rope_len
from models import some
from ser import Writer, CALLS
import coll
from models import ok

VALUE, CONTEXT = 0x5a17, 0x70c3


class Entry(Walk):
    """A type reads its value, gives up, or does not read it."""
    comments = (0,)

    def initial(self, root):
        return Walk.initial(self, root)._replace(cm=0, call='new')

    def config(self, st):
        m = st.mon
        if m.top:
            return Walk.config(self, st) + (('forget',) if m.last is None else ('forget', 'give_up'))
        return ('close',)

    def env_ask(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        if name == 'result':
            return VALUE
        if name == 'context':
            return CONTEXT
        return Walk.env_ask(self, I, st, f, vals, argtys, destty)

    def on_note(self, I, st, name, arg):
        if name == 'context':
            if arg != CONTEXT:
                self.bad(st, 'the type gets another context')
            self.tick('contexts compared')
        elif name == 'whole':
            if st.mon.call == 'forget':
                self.bad(st, 'succeeds although the type did not read its value')
            if st.mon.call == 'give_up':
                self.bad(st, 'succeeds although the type gave up')
            if st.mon.call != 'close':
                self.bad(st, 'succeeds although %s failed' % st.mon.call)
            if arg != VALUE:
                self.bad(st, 'gives another value than the type did')
            Walk.on_note(self, I, st, 'ok', arg)
        else:
            Walk.on_note(self, I, st, name, arg)

    def failed(self, I, st, code, pos, arg):
        c = st.mon.call
        if c == 'give_up':
            if code != 'Custom':
                self.bad(st, 'gives another error than the type did')
            self.tick('errors of the type passed on')
            raise Stop()
        if c == 'forget':
            raise Stop()
        Walk.failed(self, I, st, code, pos, arg)

    def on_panic(self, I, st, msg):
        if st.mon.call == 'forget':
            self.tick('values not read are noticed')
            raise Stop()
        Walk.on_panic(self, I, st, msg)


class Str(Walk):
    """Strings of a few characters, each read as a whole."""
    comments = (0,)
    LENGTH = 3
    many_shapes, many_values, many_facts, many_points = 1 << 30, 1 << 30, 1 << 30, 1 << 30
    escapes = controls = True

    def initial(self, root):
        return Walk.initial(self, root)._replace(cm=0, call='skip_value')

    def env_ask(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        if name == 'context':
            return CONTEXT
        if name != 'text':
            raise Unsupported('ask ' + name)
        cs = []
        for n in range(self.LENGTH + 1):
            self.peek(I, st)
            c = st.mon.nxt
            if c == 'eof':
                break
            if n == self.LENGTH:
                raise Stop()
            self.step(I, st, c)
            self.set(st, nxt=None, ev=())
            cs.append(('ch', c))
            I.test(st, c, ((0, 0x7f),))
        r = coll.norm(tuple(cs))
        self.hist(I, st, 'text of %d characters' % len(cs))
        return ('p', I.alloc(st, r), (), ('s', 0, rope_len(r)))

    def on_note(self, I, st, name, arg):
        m = st.mon
        if name == 'context':
            if arg != CONTEXT:
                self.bad(st, 'the type gets another context')
        elif name == 'string':
            good = not m.dead and not m.doc and (m.ph[0] == 'E' or self.accepting(st))
            if arg and not good:
                self.bad(st, 'accepts malformed text')
            if not arg and good:
                self.bad(st, 'refuses well-formed text')
            self.tick('strings accepted' if good else 'strings refused')
            raise Stop()
        else:
            raise Unsupported('note ' + name)


class Str5(Str):
    LENGTH = 5


class Str4(Str):
    LENGTH = 4


class Out(Writer):
    """A type writes its value, gives up, or does not write it."""
    faults = True
    kept = False
    CALLS = 12

    def initial(self, root):
        m = Writer.initial(self, root)
        self.maxdepth, self.scalars, self.strlen = 2, [0, 5, 12, 13], (1,)
        self.kept = 'to_str' in root
        return m

    def env_ask(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        if name in ('context', 'value'):
            return CONTEXT if name == 'context' else VALUE
        return Writer.env_ask(self, I, st, f, vals, argtys, destty)

    def options(self, m):
        if not m.stack:
            return [99]
        if self.kept and len(m.queue) >= 6:
            return [98]
        return [n for n in Writer.options(self, m) if n in (0, 5, 12, 13, 20, 21, 22, 23, 24, 25, 27, 28, 29, 30, 31, 33)] + \
            [98]

    def begin(self, I, st, n):
        if n == 98:
            self.hist(I, st, 'forget')
            self.set(st, call='forget')
        elif n == 99:
            self.set(st, call='close')
        else:
            Writer.begin(self, I, st, n)

    def on_note(self, I, st, name, arg):
        m = st.mon
        if name in ('context', 'value'):
            if arg != (CONTEXT if name == 'context' else VALUE):
                self.bad('the type gets another %s' % name)
            self.tick('arguments compared')
        elif name == 'done':
            if m.err is not None:
                if arg:
                    self.bad('%s succeeds although the writer failed' % m.call)
                return
            if not arg:
                self.bad('%s fails although the writer did not' % m.call)
            if self.kept:
                self.set(st, call=None)
            else:
                Writer.on_note(self, I, st, 'done', ok())
        elif name == 'written':
            if m.err is not None:
                if arg[1] == 0:
                    self.bad('succeeds although the writer failed')
                if not self.same(I, st, arg[2][0], ('A', 0, (m.err,))):
                    self.bad('returns another error than the writer gave')
                self.tick('errors returned')
                raise Stop()
            if m.call == 'forget':
                if arg[1] == 0:
                    self.bad('succeeds although the type did not write its value')
                raise Stop()
            if m.call != 'close' or arg[1] != 0:
                self.bad('fails although everything was written')
            self.complete(I, st)
        elif name == 'text':
            if m.call == 'forget':
                self.bad('succeeds although the type did not write its value')
            for c in self.text(I, st, arg):
                if c[0] == 'b':
                    for ch in c[1].decode():
                        self.char(I, st, ord(ch))
                elif c[0] == 'ch':
                    self.char(I, st, c[1])
                elif c[0] == 'num':
                    self.number(I, st, c[1])
                else:
                    raise Unsupported('a string which is not text')
            self.complete(I, st)
        else:
            raise Unsupported('note ' + name)

    def complete(self, I, st):
        Writer.on_note(self, I, st, 'closed', None)
        raise Stop()

    def on_panic(self, I, st, msg):
        if st.mon.call == 'forget':
            self.tick('values not written are noticed')
            raise Stop()
        Writer.on_panic(self, I, st, msg)


def jobs(tier, prog):
    s = 'Str5' if tier == 'thorough' else 'Str4'
    return ['r_e_read:Entry', 'r_e_read_using:Entry', 'r_e_str:' + s, 'r_e_str_using:' + s, 'r_e_write:Out',
            'r_e_write_using:Out', 'r_e_to_str:Out', 'r_e_to_str_using:Out']


SPEC = dict(
    features=['entry'], level='other',
    technique='abstract interpretation of the MIR of the entry points, instantiated with a type which makes any '
    'sequence of calls, over symbolic text, in product with reference automata of JSON',
    note='from_reader(_using): every text, nesting up to two, any type that reads a value, gives up with an error or '
    'leaves its value or part of it unread. from_str(_using): every string of up to four characters (five in the '
    'thorough run). to_writer(_using): every type, nesting up to two, with failures of the writer. to_str(_using): '
    'up to about six pieces of output.',
    explanation='The type which is read or written makes any legal call on the (de)serializer, returns an error, or '
    'returns early. Success is allowed only if the reference parser saw exactly one complete value and the end of the '
    'text (or the automaton read exactly one complete value in what was written) and the type used its value up; '
    'failure only with a reason in the text, in the type or in the writer. Context, value and errors have to be the '
    'ones given.',
    assumptions=['itoa and ryu write a JSON number'],
    floors={'calls': 5000, 'documents accepted': 2, 'documents': 100, 'strings accepted': 300, 'strings refused': 1400,
            'values not read are noticed': 100, 'values not written are noticed': 1000,
            'errors of the type passed on': 60, 'errors returned': 250, 'contexts compared': 1})
