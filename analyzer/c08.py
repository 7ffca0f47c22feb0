"""C08: the automaton of `Value`, `Struct`, `Tuple` and `List`."""
from collections import namedtuple
from terms import *
from interp import Violation, Stop, Unsupported, UNIT
from mon import Monitor
from models import NONE, some, ok, err

Ctx = namedtuple('Ctx', 'tag kind done ready failed known rem')
Call = namedtuple('Call', 'tag name arg phase seq res')
Mon = namedtuple('Mon', 'tag ctxs calls')


def ctx(kind, done, known=0, rem=0):
    return Ctx('ctx', kind, done, 1, 0, known, rem)


class C08(Monitor):
    prop = 'C08'
    roots = ['r_c08_struct', 'r_c08_tuple', 'r_c08_list', 'r_c08_list_de', 'r_c08_value', 'r_c08_value_de',
             'r_c08_value_with', 'r_c08_struct_with', 'r_c08_tuple_with']

    def initial(self, root):
        return Mon('mon', (), ())

    # ---- state access
    def top(self, st):
        return st.mon.ctxs[-1]

    def settop(self, st, **kw):
        m = st.mon
        st.mon = m._replace(ctxs=m.ctxs[:-1] + (m.ctxs[-1]._replace(**kw),))

    def push(self, st, c):
        st.mon = st.mon._replace(ctxs=st.mon.ctxs + (c,))

    def pop(self, st):
        st.mon = st.mon._replace(ctxs=st.mon.ctxs[:-1])

    def setcall(self, st, **kw):
        m = st.mon
        st.mon = m._replace(calls=m.calls[:-1] + (m.calls[-1]._replace(**kw),))

    def bad(self, st, msg):
        name = st.mon.calls[-1].name if st.mon.calls else 'client'
        raise Violation('%s: %s' % (name, msg), '%s: %s' % (name, msg))

    # ---- notes
    def on_note(self, I, st, name, arg):
        if name in ('struct', 'tuple', 'value'):
            self.push(st, ctx(name, arg))
        elif name == 'list':
            d, ln = arg[2]
            self.push(st, ctx('list', d, ln[1], ln[2][0] if ln[1] else 0))
        elif name == 'child_done':
            c = self.top(st)
            if c.kind == 'value':
                self.settop(st, done=1)
            else:
                self.settop(st, ready=1)
        elif name == 'enter':
            c = st.mon.calls[-1]
            if c.phase == 'mustpanic':
                self.bad(st, 'hands out its item although it is no longer usable')
            if c.phase != 'outer':
                self.bad(st, 'calls its closure more than once')
            self.setcall(st, phase='inside')
            if c.name.endswith('::with'):
                self.push(st, ctx(c.name.split('::')[0].lower(), 0))
        elif name == 'leave':
            c = st.mon.calls[-1]
            t = self.top(st)
            done = int(I.eq(st, t.done, 1))
            if c.name.endswith('::with'):
                self.pop(st)
            if arg[1] == 1:
                self.setcall(st, phase='result', res=arg)
            elif not done:
                self.setcall(st, phase='mustpanic')
            elif c.name == 'Value::validate_with' and arg[2][0][1] == 1:
                self.setcall(st, phase='ops', seq=('error',), res=arg[2][0][2][0])
            elif c.name == 'Value::validate_with':
                self.setcall(st, phase='result', res=arg[2][0])
            else:
                self.setcall(st, phase='result', res=arg)
        elif name == 'end':
            c = self.top(st)
            self.tick('done flag at the end')
            if not self.same(I, st, c.done, arg):
                raise Violation('the done flag is %s where the history of calls makes it %s' % (arg, c.done),
                                'done flag: %s' % c.kind)

    # ---- calls
    def on_will(self, I, st, name, arg):
        st.mon = st.mon._replace(calls=st.mon.calls + (Call('call', name, arg, 'ops', (), None),))
        cls, meth = name.split('::')
        if meth == 'with':
            self.setcall(st, phase='outer')
            return
        c = self.top(st)
        legal = True
        seq = ()
        if cls == 'Value':
            legal = I.eq(st, c.done, 0)
            if meth.startswith('into_') and meth != 'into_raw':
                seq = ({'into_struct': 'open_struct', 'into_tuple': 'open_tuple', 'into_list': 'open_list',
                        'into_list_sized': 'open_list_sized', 'into_null': 'pop_null'}[meth],)
            elif meth == 'get_str':
                seq = ('read_str',)
            elif meth.startswith('put_') or meth.startswith('get_'):
                seq = (meth,)
            elif meth == 'check_null':
                seq = ('supports_null',)
        else:
            legal = bool(c.ready)
            if cls == 'List' and meth in ('push', 'close') and legal and c.known:
                empty = I.eq(st, c.rem, 0)
                legal = empty == (meth == 'close')
            seq = {'field': ('push_field',), 'element': ('push_element',), 'push': ('push_item',),
                   'next': ('next_item',), 'rem_len': (),
                   'close': ('close_' + cls.lower(),)}[meth]
            if meth == 'rem_len':
                legal = True
        self.setcall(st, seq=seq, phase='ops' if legal else 'mustpanic')
        if legal and meth == 'validate_with':
            self.setcall(st, phase='outer')

    def on_op(self, I, st, name, arg, res):
        self.hist(I, st, '  source.%s' % name)
        if not st.mon.calls:
            raise Violation('source.%s is called outside any call on the wrapper' % name)
        c = st.mon.calls[-1]
        self.tick('calls on the source')
        if c.phase == 'mustpanic':
            self.bad(st, 'source.%s is called although the wrapper may not be used' % name)
        if not c.seq or c.phase != 'ops':
            self.bad(st, 'source.%s is called and should not be' % name)
        if c.seq[0] != name:
            self.bad(st, 'source.%s is called instead of source.%s' % (name, c.seq[0]))
        # the payload
        want = c.arg
        if name == 'error':
            want = None
            if arg[0] != 'box' or not self.same(I, st, I.load(st, arg), c.res):
                self.bad(st, 'the error given to source.error is not the one of the closure')
        elif name in ('supports_null', 'check_null'):
            want = UNIT
        if want is not None and not self.same(I, st, want, arg):
            self.bad(st, 'source.%s gets another argument than the caller gave' % name)
        seq = c.seq[1:]
        if name == 'supports_null':
            if I.eq(st, res[2][0], 1):
                self.setcall(st, seq=('check_null',))
            else:
                self.setcall(st, seq=(), phase='result', res=ok(0))
            return
        if name == 'error':
            self.setcall(st, seq=(), phase='result', res=err(res[2][0]))
            return
        if name == 'next_item' and res[1] == 0:
            t = self.top(st)
            if t.known:
                empty = I.eq(st, t.rem, 0)
                more = I.eq(st, res[2][0], 1)
                if empty == more:
                    self.setcall(st, seq=(), phase='mustpanic')
                    return
        self.setcall(st, seq=seq, phase='result', res=res)

    def on_did(self, I, st, out):
        c = st.mon.calls[-1]
        cls, meth = c.name.split('::')
        self.tick('outcomes of calls')
        if c.phase == 'mustpanic':
            self.bad(st, 'returns although the wrapper may not be used')
        t = st.mon.ctxs[-1] if st.mon.ctxs else None
        if c.phase in ('outer', 'inside'):
            self.bad(st, 'returns without calling its closure')
        if c.seq:
            self.bad(st, 'returns without calling source.%s' % c.seq[0])
        res = c.res
        if meth == 'as_raw':
            pass
        elif meth == 'into_raw':
            if not self.same(I, st, out, 0):
                self.bad(st, 'gives out a done flag which is set')
        elif meth == 'rem_len':
            if not t.failed:
                if t.known != out[1]:
                    self.bad(st, 'the remaining length is %sgiven' % ('' if out[1] else 'not '))
                if t.known and not self.same(I, st, t.rem, out[2][0]):
                    self.bad(st, 'the remaining length is %s and should be %s' % (out[2][0], t.rem) + repr(st.facts)[:0])
        else:
            if res is None:
                self.bad(st, 'gives a result without calling the source')
            if res[1] != out[1]:
                self.bad(st, 'returns %s where the source gave %s' % (('Ok', 'Err')[out[1]], ('Ok', 'Err')[res[1]]))
            if res[1] == 1:
                if not self.same(I, st, res[2][0], out[2][0]):
                    self.bad(st, 'returns another error than the source gave')
            self.effect(I, st, cls, meth, t, c, res, out)
        st.mon = st.mon._replace(calls=st.mon.calls[:-1])

    def effect(self, I, st, cls, meth, t, c, res, out):
        good = res[1] == 0
        if meth == 'with' or meth == 'validate_with':
            if good and not self.same(I, st, res[2][0], out[2][0]):
                self.bad(st, 'returns another value than its closure')
            return
        if cls == 'Value':
            if not good:
                return
            if meth == 'check_null':
                v = res[2][0]
                if not self.same(I, st, v, out[2][0]):
                    self.bad(st, 'returns another value than the source gave')
                if I.eq(st, v, 1):
                    self.settop(st, done=1)
            elif meth == 'into_struct':
                self.settop(st, kind='struct')
            elif meth == 'into_tuple':
                self.settop(st, kind='tuple')
            elif meth == 'into_list_sized':
                self.settop(st, kind='list', known=1, rem=c.arg)
            elif meth == 'into_list':
                ln = res[2][0]
                self.settop(st, kind='list', known=ln[1], rem=ln[2][0] if ln[1] else 0)
            else:
                if meth.startswith('get_') and not self.same(I, st, res[2][0], out[2][0]):
                    self.bad(st, 'returns another value than the source gave')
                self.settop(st, done=1)
            return
        if meth == 'close':
            if good:
                self.settop(st, done=1)
            return
        if meth == 'next':
            if not good:
                self.settop(st, ready=0, failed=1)
                return
            if not self.same(I, st, out[2][0], res[2][0]):
                self.bad(st, 'returns %s where the source said otherwise' % ('an item', 'no item')[out[2][0] == 0])
            if I.eq(st, res[2][0], 1):
                self.settop(st, ready=0, rem=sub(t.rem, 1) if t.known else 0)
            else:
                self.settop(st, ready=0, done=1)
            return
        # field, element, push
        if not good:
            self.settop(st, ready=0, failed=1)
        elif cls == 'List':
            self.settop(st, ready=0, rem=sub(t.rem, 1) if t.known else 0)
        else:
            self.settop(st, ready=0)

    def on_panic(self, I, st, msg):
        self.hist(I, st, 'panic')
        self.tick('panics')
        if not st.mon.calls:
            raise Violation('panic outside any call on the wrapper')
        if st.mon.calls[-1].phase != 'mustpanic':
            self.bad(st, 'panics although the call is allowed')


MONITOR = C08
SPEC = dict(
    features=['c08'], level='other',
    technique='typestate analysis by abstract interpretation of MIR under a most general client',
    note='Every call history on one wrapper (unbounded length, by fixpoint) and every outcome of the source. Trusts the '
    'abstract interpreter in analyzer/ and the MIR rustc emits.',
    explanation='Typestate analysis: a most general client makes every sequence of calls on Value, Struct, Tuple and '
    'List over a serializer or deserializer whose every call may succeed or fail with any result. The MIR of the '
    'wrappers is interpreted over an abstract domain (symbolic values with ranges, one cell per object) to a fixpoint '
    'at loop heads; an automaton of the property checks every call on the source, every panic, every result and the '
    'final done flag.',
    assumptions=['rustc lowers the source to the MIR that is analysed', 'standard library functions outside the '
                 'analysed crates behave as documented'],
    floors={'calls on the source': 50, 'outcomes of calls': 80, 'panics': 30, 'done flag at the end': 20})
