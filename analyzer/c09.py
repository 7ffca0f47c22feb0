"""C09: the automaton of `Object`, `Entry`, `Collection` and the JSON methods of `Value`."""
from terms import *
from interp import Violation, UNIT
from models import ok, err, NONE
import c08
from c08 import ctx


class C09(c08.C08):
    prop = 'C09'
    roots = ['r_c09_object', 'r_c09_object_de', 'r_c09_entry', 'r_c09_value', 'r_c09_value_de']
    VT = None

    def variant(self, I, name):
        """The index of a variant of ValueType."""
        if self.VT is None:
            for t in I.p.types:
                if t['k'] == 'adt' and t['a'] == 'enum' and t['n'].endswith('::ValueType'):
                    self.VT = {v['n'].split('::')[-1]: i for i, v in enumerate(t['v'])}
        return self.VT[name]

    def on_note(self, I, st, name, arg):
        if name == 'object':
            self.push(st, ctx('object', arg))
        elif name == 'entry':
            self.push(st, ctx('entry', 0))
        elif name == 'entry_end':
            self.pop(st)
        elif name == 'enter':
            c = st.mon.calls[-1]
            if c.phase == 'mustpanic':
                self.bad(st, 'hands out its item although it is no longer usable')
            if c.phase != 'outer':
                self.bad(st, 'reads its content more than once')
            self.setcall(st, phase='inside')
            self.push(st, ctx('struct', 0))
        elif name == 'leave':
            t = self.top(st)
            self.pop(st)
            if arg[1] == 1 or t.ready:
                self.setcall(st, phase='result', res=arg)
            else:
                self.setcall(st, phase='mustpanic')
        else:
            super().on_note(I, st, name, arg)

    def on_will(self, I, st, name, arg):
        cls, meth = name.split('::')
        if (cls, meth) in [('List', 'push'), ('List', 'close'), ('List', 'rem_len'), ('Struct', 'field')]:
            return super().on_will(I, st, name, arg)
        st.mon = st.mon._replace(calls=st.mon.calls + (c08.Call('call', name, arg, 'ops', (), None),))
        c = self.top(st)
        phase = 'ops'
        legal = bool(c.ready)
        if cls == 'Value':
            legal = I.eq(st, c.done, 0)
            seq = {'into_null': ('pop_null',), 'into_object': ('open_object',), 'skip': ('skip_value',),
                   'into_list_streaming': ('open_list_streaming',), 'ty': ('peek_value_type',),
                   'into_collection': ('peek_value_type',)}[meth]
        elif cls == 'Object':
            seq = {'entry': ('push_entry',), 'close': ('close_object',), 'try_entry': ('try_push_entry',),
                   'next_entry': ('next_entry',), 'inline': ()}[meth]
            if meth == 'inline':
                phase = 'outer'
        elif cls == 'Entry':
            # `ready`: the key has not been read
            if meth == 'key':
                seq = ('flush_str',)
            else:
                seq = ('skip_str',) if legal else ()
                if not legal:
                    self.setcall(st, phase='result', seq=(), res=ok(UNIT))
                    return
        elif cls == 'Collection':
            seq = ('next_entry',) if c.kind == 'object' else ('next_item',)
        self.setcall(st, seq=seq, phase=phase if legal else 'mustpanic')

    def on_op(self, I, st, name, arg, res):
        if st.mon.calls:
            c = st.mon.calls[-1]
            cls, meth = c.name.split('::')
            if c.phase == 'ops' and c.seq and c.seq[0] == name:
                if meth == 'into_collection' and name == 'peek_value_type':
                    self.hist(I, st, '  source.' + name)
                    v = res[2][0]
                    obj = v[1] == self.variant(I, 'Object')
                    self.setcall(st, seq=('open_object',) if obj else ('open_list',), arg=UNIT)
                    return
                if cls == 'Collection' and name == 'next_entry' and res[1] == 0 and I.eq(st, res[2][0], 1):
                    self.hist(I, st, '  source.' + name)
                    self.setcall(st, seq=('skip_str',))
                    return
        super().on_op(I, st, name, arg, res)
        if name == 'open_object' and res[1] == 0 and c.name == 'Value::into_collection':
            self.setcall(st, res=ok('object'))

    def effect(self, I, st, cls, meth, t, c, res, out):
        good = res[1] == 0
        if cls == 'Value':
            if meth == 'into_object':
                if good:
                    self.settop(st, kind='object')
                return
            if meth == 'into_list_streaming':
                if good:
                    self.settop(st, kind='list')
                return
            if meth == 'ty':
                return
            if meth == 'into_collection':
                if good:
                    # open_object gives (), open_list the length
                    v = res[2][0]
                    obj = v == 'object'
                    if not self.same(I, st, out[2][0], 1 if obj else 0):
                        self.bad(st, 'gives a collection of the wrong kind')
                    if obj:
                        self.settop(st, kind='object')
                    else:
                        self.settop(st, kind='list', known=v[1], rem=v[2][0] if v[1] else 0)
                return
            if meth in ('skip', 'into_null'):
                if good:
                    self.settop(st, done=1)
                return
        if cls == 'Object':
            if meth == 'close':
                if good:
                    self.settop(st, done=1)
            elif meth == 'entry':
                self.settop(st, ready=0)
            elif meth == 'inline':
                if good and not self.same(I, st, res[2][0], out[2][0]):
                    self.bad(st, 'returns another value than the type read')
                if not good:
                    self.settop(st, ready=0)
            elif meth in ('try_entry', 'next_entry'):
                if not good:
                    self.settop(st, ready=0)
                    return
                if not self.same(I, st, out[2][0], res[2][0]):
                    self.bad(st, 'returns %s where the source said otherwise' % ('an entry', 'no entry')[out[2][0] == 0])
                if I.eq(st, res[2][0], 1):
                    self.settop(st, ready=0)
                elif meth == 'next_entry':
                    self.settop(st, ready=0, done=1)
            return
        if cls == 'Entry':
            if meth == 'key':
                self.settop(st, ready=0)
                if good and not self.same(I, st, res[2][0], out[2][0]):
                    self.bad(st, 'returns another key than the source gave')
            return
        if cls == 'Collection':
            if t.kind == 'list':
                return super().effect(I, st, 'List', 'next', t, c, res, out)
            if not good:
                self.settop(st, ready=0)
                return
            some = res[2][0] == UNIT or I.eq(st, res[2][0], 1)
            if not self.same(I, st, out[2][0], 1 if some else 0):
                self.bad(st, 'returns %s where the source said otherwise' % ('an item', 'no item')[out[2][0] == 0])
            if some:
                self.settop(st, ready=0)
            else:
                self.settop(st, ready=0, done=1)
            return
        super().effect(I, st, cls, meth, t, c, res, out)

    def on_did(self, I, st, out):
        c = st.mon.calls[-1]
        if c.name == 'Value::ty':
            self.tick('outcomes of calls')
            if c.phase == 'mustpanic':
                self.bad(st, 'returns although the wrapper may not be used')
            if c.seq:
                self.bad(st, 'returns without calling source.%s' % c.seq[0])
            if not self.same(I, st, c.res[2][0], out):
                self.bad(st, 'returns another type than the source gave')
            st.mon = st.mon._replace(calls=st.mon.calls[:-1])
            return
        super().on_did(I, st, out)


MONITOR = C09
SPEC = dict(
    features=['c09'], level='other',
    technique='typestate analysis by abstract interpretation of MIR under a most general client',
    note='Every call history on one wrapper (unbounded length, by fixpoint) and every outcome of the source. Trusts the '
    'abstract interpreter in analyzer/ and the MIR rustc emits.',
    explanation='Typestate analysis: a most general client makes every sequence of calls on Object, Entry, Collection '
    'and the JSON methods of Value over a serializer or deserializer whose every call may succeed or fail with any '
    'result. The MIR of the wrappers is interpreted over an abstract domain to a fixpoint at loop heads; an automaton '
    'of the property checks every call on the source, every panic, every result and the final done flag.',
    assumptions=['rustc lowers the source to the MIR that is analysed', 'standard library functions outside the '
                 'analysed crates behave as documented'],
    floors={'calls on the source': 30, 'outcomes of calls': 50, 'panics': 20, 'done flag at the end': 15})
