"""C13, C14: the standard implementations on top of the required methods of a JSON deserializer."""
from collections import namedtuple
from terms import *
from interp import CHARS, Violation, Stop, Unsupported, UNIT
from mon import Monitor, rope_len
from models import NONE, some, ok, err
from mirror import E64

# stack: items, top first: ('val', kind or None), ('str', read so far), ('obj', read so far), ('arr', read so far);
# an error is given at most once, after which nothing may be called
Std = namedtuple('Std', 'tag stack err errname text chosen arg nested looked')

KINDS = ('String', 'Number', 'Object', 'Array', 'Bool', 'Null')
START = {'skip_value': ('val', None), 'skip_object': ('obj', 0), 'skip_str': ('str', 0), 'flush_str': ('str', 0),
         'read_str': ('val', None), 'open_struct': ('val', None), 'push_field': None, 'close_struct': None,
         'push_item': ('arr', 0), 'close_list': ('arr', 0)}
NEEDS = {'get_bool': 'Bool', 'get_f32': 'Number', 'get_f64': 'Number', 'get_char': 'String', 'open_str': 'String',
         'pop_null': 'Null', 'open_object': 'Object', 'open_list': 'Array'}
for t in ('i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64'):
    NEEDS['get_' + t] = 'Number'


class StdImpl(Monitor):
    faults = False
    items = 2
    depth = 2

    def initial(self, root):
        self.root = root
        self.call = root[4:]
        return Std('std', None, None, None, (), None, None, 0, None)

    def set(self, st, **kw):
        st.mon = st.mon._replace(**kw)

    def bad(self, msg):
        raise Violation(msg, '%s: %s' % (self.root, msg))

    def stack(self, I, st):
        m = st.mon
        if m.stack is None:
            t = START[self.call] or (('obj', 0) if I.choose(st, 2) == 0 else ('arr', 0))
            self.set(st, stack=(t,), chosen=t)
        return st.mon.stack

    def kind(self, I, st):
        s = self.stack(I, st)
        if not s or s[0][0] != 'val':
            self.bad('a value is asked for where the top of the stack is %s' % self.show(s))
        if s[0][1] is None:
            opts = [k for k in KINDS if k not in ('Object', 'Array') or st.mon.nested < self.depth]
            k = opts[I.choose(st, len(opts))]
            self.set(st, stack=(('val', k),) + s[1:])
            if len(s) == 1 and st.mon.chosen[0] == 'val':
                self.set(st, chosen=('val', k))
            self.hist(I, st, 'the value is a ' + k)
        return st.mon.stack[0][1]

    def show(self, s):
        return {'val': 'a value', 'str': 'a string', 'obj': 'an object', 'arr': 'a list'}[s[0][0]] if s else 'nothing'

    def need(self, I, st, what, name):
        s = self.stack(I, st)
        if not s or s[0][0] != what:
            self.bad('%s is called where the top of the stack is %s' % (name, self.show(s)))
        return s

    def fail(self, I, st, name):
        e = I.var(st, E64)
        self.set(st, err=e, errname=name)
        return err(('A', 0, (e,)))

    def more(self, I, st, k):
        return k < self.items and I.choose(st, 2) == 1

    def step(self, I, st, name, arg, ety):
        m = st.mon
        if m.err is not None:
            self.bad('%s is called after an error' % name)
        self.tick('calls on the deserializer')
        if self.faults and I.choose(st, 2) == 1:
            self.stack(I, st)
            self.hist(I, st, name + ' FAILS')
            return self.fail(I, st, 'fault')
        self.hist(I, st, name)
        if name in NEEDS:
            k = self.kind(I, st)
            s = st.mon.stack
            if NEEDS[name] != k:
                return self.fail(I, st, 'kind')
            if name in ('open_object', 'open_list'):
                self.set(st, stack=(('obj' if name == 'open_object' else 'arr', 0),) + s[1:], nested=m.nested + 1)
                if name == 'open_list':
                    return ok(NONE)
                return ok()
            if name == 'open_str':
                self.set(st, stack=(('str', 0),) + s[1:])
                return ok()
            if name.startswith('get_') and name[4] in 'iu' and I.choose(st, 2):
                return self.fail(I, st, 'overflow')
            if name == 'get_char' and I.choose(st, 2):
                return self.fail(I, st, 'length')
            self.set(st, stack=s[1:])
            return ok(I.fresh(st, ety) if ety is not None else UNIT)
        if name == 'check_null':
            if self.kind(I, st) == 'Null':
                self.set(st, stack=st.mon.stack[1:])
                return ok(1)
            return ok(0)
        if name == 'next_char':
            s = self.need(I, st, 'str', name)
            if self.more(I, st, s[0][1]):
                c = I.var(st, CHARS)
                if len(s) == 1 and self.call in ('flush_str', 'read_str'):
                    self.set(st, text=st.mon.text + (('ch', c),))
                self.set(st, stack=(('str', s[0][1] + 1),) + s[1:])
                return ok(some(c))
            self.set(st, stack=s[1:])
            return ok(NONE)
        if name == 'close_str':
            s = self.need(I, st, 'str', name)
            if self.more(I, st, s[0][1]):
                return self.fail(I, st, 'string has characters')
            self.set(st, stack=s[1:])
            return ok()
        if name == 'next_entry':
            s = self.need(I, st, 'obj', name)
            if self.more(I, st, s[0][1]):
                self.set(st, stack=(('str', 0), ('val', None), ('obj', s[0][1] + 1)) + s[1:])
                return ok(1)
            self.set(st, stack=s[1:])
            return ok(0)
        if name in ('try_push_entry', 'push_entry'):
            s = self.need(I, st, 'obj', name)
            if self.call == 'push_field':
                if not self.same(I, st, arg, st.mon.arg):
                    self.bad('an entry with another key than the given one is asked for')
            if self.more(I, st, s[0][1]):
                self.set(st, stack=(('val', None), ('obj', s[0][1] + 1)) + s[1:], looked=1)
                return ok(1 if name == 'try_push_entry' else UNIT)
            self.set(st, looked=0)
            if name == 'push_entry':
                return self.fail(I, st, 'missing entry')
            return ok(0)
        if name == 'close_object':
            s = self.need(I, st, 'obj', name)
            if self.more(I, st, s[0][1]):
                return self.fail(I, st, 'extra entry')
            self.set(st, stack=s[1:])
            return ok()
        if name == 'next_item':
            s = self.need(I, st, 'arr', name)
            if self.more(I, st, s[0][1]):
                self.set(st, stack=(('val', None), ('arr', s[0][1] + 1)) + s[1:])
                if len(s) == 1:
                    self.set(st, looked=1)
                return ok(1)
            self.set(st, stack=s[1:])
            return ok(0)
        raise Unsupported('call of ' + name)

    def env_op(self, I, st, f, vals, argtys, destty):
        return self.step(I, st, self.lit(I, st, vals[0]), vals[1], None)

    def env_get(self, I, st, f, vals, argtys, destty):
        ety = I.p.types[destty]['v'][0]['f'][0][1]
        return self.step(I, st, self.lit(I, st, vals[0]), vals[1], ety)

    def env_ask(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        if name == 'arg':
            self.set(st, arg=I.any_str(st))
            return st.mon.arg
        m = st.mon
        if m.err is not None:
            self.bad('%s is called after an error' % name)
        self.hist(I, st, name)
        self.tick('calls on the deserializer')
        if name == 'peek_value_type':
            k = self.kind(I, st)
            return ('A', KINDS.index(k), ())
        if name == 'peek_collection_type':
            s = self.stack(I, st)
            if not s or s[0][0] not in ('obj', 'arr'):
                self.bad('%s is called where the top of the stack is %s' % (name, self.show(s)))
            return ('A', 0 if s[0][0] == 'obj' else 1, ())
        if name == 'push_null':
            s = self.stack(I, st)
            if not s or s[0][0] not in ('obj', 'arr'):
                self.bad('%s is called where the top of the stack is %s' % (name, self.show(s)))
            if self.call == 'push_field':
                if arg_of(vals)[1] != 1 or not self.same(I, st, arg_of(vals)[2][0], m.arg):
                    self.bad('the absent field has another key than the given one')
                if m.looked != 0:
                    self.bad('a field is treated as absent without looking for it')
            self.set(st, stack=(('val', 'Null'),) + s)
            return UNIT
        if name.startswith('error_'):
            if name == 'error_expected_type':
                s = self.stack(I, st)
                if not s or s[0][0] != 'val':
                    self.bad('%s is called where the top of the stack is %s' % (name, self.show(s)))
                got = sorted(KINDS[e[1]] for e in self.elems(I, st, vals[1]))
                if self.call == 'open_struct' and got != ['Array', 'Object']:
                    self.bad('the expected kinds are said to be %s' % ', '.join(got))
            if name == 'error_extra_item':
                s = self.stack(I, st)
                if not s or s[0][0] != 'arr':
                    self.bad('%s is called where the top of the stack is %s' % (name, self.show(s)))
            return self.fail(I, st, name)[2][0]
        raise Unsupported('call of ' + name)

    def elems(self, I, st, p):
        v = I.read(st, p[1], p[2])
        n = p[3][2] if p[3] is not None else len(v[2])
        return v[2][:n]

    def on_panic(self, I, st, msg):
        self.hist(I, st, 'panic')
        self.bad('panics')

    # ---- outcomes
    def on_note(self, I, st, name, arg):
        m = st.mon
        s = self.stack(I, st)
        m = st.mon
        self.tick('outcomes')
        if name == 'ok':
            if m.err is not None:
                self.bad('succeeds although the deserializer failed')
            want = self.result(m)
            if type(want) is str:
                self.bad('succeeds although %s' % want)
            if tuple(x[0] for x in s) != want:
                self.bad('leaves %s on the stack where %s is documented' % (
                    ' above '.join(self.show((x,)) for x in s) or 'nothing',
                    ' above '.join(self.show(((x,),)) for x in want) or 'nothing'))
            if self.call in ('flush_str', 'read_str'):
                v = arg
                while type(v) is tuple and v[0] == 'A' and len(v[2]) == 1:
                    v = v[2][0]
                if v[0] == 'vec':
                    got = v[1][1]
                elif v[0] == 'p':
                    got = self.text(I, st, v)
                else:
                    raise Unsupported('string result')
                if tuple(got) != m.text:
                    self.bad('gives other characters than the string has')
        else:
            if m.err is None or not self.same(I, st, arg, ('A', 0, (m.err,))):
                self.bad('gives another error than the deserializer did')
            if m.errname == 'fault':
                return
            allowed = {'read_str': ('kind',), 'open_struct': ('error_expected_type',),
                       'push_field': ('error_missing_item',), 'close_struct': ('error_extra_item',),
                       'push_item': ('error_missing_item',), 'close_list': ('error_extra_item',)}.get(self.call, ())
            if m.errname not in allowed:
                self.bad('fails (%s) on well-formed input' % m.errname)
            t = m.chosen
            if self.call == 'open_struct' and t[1] in ('Object', 'Array'):
                self.bad('refuses a %s' % t[1])
            if self.call in ('push_field', 'close_struct') and t[0] == 'obj':
                self.bad('fails (%s) on an object' % m.errname)
            if self.call == 'read_str' and t[1] == 'String':
                self.bad('refuses a string')
            if self.call in ('push_field', 'push_item') and s:
                self.bad('an item is said to be missing although there is one')

    def result(self, m):
        """The stack the call should leave; a string if it should fail."""
        c, t = self.call, m.chosen
        if c in ('skip_value', 'skip_object', 'skip_str', 'flush_str'):
            return ()
        if c == 'read_str':
            return () if t[1] == 'String' else 'the value is not a string'
        if c == 'open_struct':
            return {'Object': ('obj',), 'Array': ('arr',)}.get(t[1], 'the value is not a collection')
        if c == 'push_field':
            return ('val', t[0])
        if c == 'push_item':
            return ('val', 'arr')
        if c in ('close_struct', 'close_list'):
            if t[0] == 'arr' and m.looked:
                return 'there are items left'
            return ()


def arg_of(vals):
    return vals[1]


class Faulty(StdImpl):
    faults = True


MONITOR = StdImpl


def jobs(tier, prog):
    return ['r_j_' + c for c in START]
