"""C10, C11, C14, C18, C21: what a type writes is recorded, and reading it must ask for the same."""
from collections import namedtuple
from terms import *
from interp import Violation, Stop, Unsupported, UNIT
from mon import Monitor, rope_len
from models import NONE, some, ok, err

Mir = namedtuple('Mir', 'tag phase events pos sup err wnull opt defaults')

PAIR = {'get_' + t: 'put_' + t for t in ('bool', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64',
                                         'char', 'opaque', 'nullable')}
SAME = {'open_struct', 'push_field', 'close_struct', 'open_tuple', 'push_element', 'close_tuple', 'push_item',
        'close_list', 'pop_null'}
E64 = ((0, (1 << 64) - 1),)


class Mirror(Monitor):
    faults = False
    nullrule = False
    expect = None

    def initial(self, root):
        self.root = root
        return Mir('mir', 'start', (), 0, None, None, None, None, ())

    def set(self, st, **kw):
        st.mon = st.mon._replace(**kw)

    def bad(self, msg):
        raise Violation(msg, '%s: %s' % (self.root, msg))

    def show(self, I, st, name, arg):
        if type(arg) is tuple and arg and arg[0] == 'p' and arg[3] is not None:
            try:
                return '%s %s' % (name, self.lit(I, st, arg))
            except Exception:
                return name
        return name

    # ---- notes
    def on_note(self, I, st, name, arg):
        m = st.mon
        if name == 'write':
            self.set(st, phase='write', wnull=arg)
        elif name == 'option':
            self.set(st, opt=(arg[2][0], arg[2][1]))
        elif name == 'written':
            if m.phase == 'failed':
                if arg[1] == 0:
                    self.bad('writing succeeds although the serializer failed')
                self.tick('errors returned by writing')
                if not self.same(I, st, arg[2][0], ('A', 0, (m.err,))):
                    self.bad('writing returns another error than the serializer gave')
                raise Stop()
            if arg[1] == 1:
                self.bad('writing fails although the serializer did not')
            self.written(I, st)
        elif name == 'read':
            if not self.same(I, st, m.wnull, arg):
                self.bad('the two directions declare NULLABLE differently')
            self.tick('NULLABLE declarations')
            self.set(st, phase='read', pos=0)
        elif name == 'failed':
            if m.phase != 'failed':
                self.bad('reading fails although the deserializer did not')
            self.tick('errors returned by reading')
            if not self.same(I, st, arg, ('A', 0, (m.err,))):
                self.bad('reading returns another error than the deserializer gave')
        elif name == 'default':
            for v in arg[2]:
                if v not in m.defaults:
                    self.bad('a null is not read as the default value')
            self.tick('defaulted fields')
        elif name == 'same':
            if m.phase == 'failed':
                self.bad('reading succeeds although the deserializer failed')
            if m.pos != len(m.events):
                self.bad('reading stops before `%s`, which was written' % m.events[m.pos][0])
            a, b = arg[2]
            self.tick('values compared')
            if not self.same(I, st, a, b):
                self.bad('the value read differs from the value written')
        elif name == 'any':
            self.set(st, phase='any')
        elif name in ('valid', 'invalid'):
            self.outcome(I, st, name, arg)
        else:
            raise Unsupported('note ' + name)

    def outcome(self, I, st, name, arg):
        """A validating type read an arbitrary integer: `events` is (value, error)."""
        m = st.mon
        if m.phase == 'failed':
            if name == 'valid':
                self.bad('reading succeeds although the deserializer failed')
            if not self.same(I, st, arg, ('A', 0, (m.err,))):
                self.bad('reading returns another error than the deserializer gave')
            self.tick('errors returned by reading')
            return
        vals = [e for e in m.events if e[0] == 'value']
        errs = [e for e in m.events if e[0] == 'error']
        if len(vals) != 1:
            self.bad('reads %d integers' % len(vals))
        self.tick('validated values')
        if name == 'valid':
            if not self.same(I, st, arg, vals[0][1]):
                self.bad('the value differs from the integer that was read')
        else:
            if len(errs) != 1 or not self.same(I, st, arg, errs[0][1]):
                self.bad('an invalid value does not give the error of the deserializer')
            if I.eq(st, vals[0][1], 0) is False:
                self.bad('a valid value gives an error')

    def written(self, I, st):
        m = st.mon
        ev = m.events
        if self.expect is not None and self.expect.get(self.root):
            wants = self.expect[self.root]
            got = [e[2] for e in ev]
            self.tick('expected shapes')
            if got not in wants:
                best = None
                for want in wants:
                    for i in range(max(len(got), len(want))):
                        g = got[i] if i < len(got) else 'nothing'
                        w = want[i] if i < len(want) else 'nothing'
                        if g != w:
                            if best is None or i > best[0]:
                                best = i, g, w
                            break
                self.bad('writes `%s` where its declaration says `%s`' % best[1:])
        if not m.wnull and ev and ev[0][0] in ('pop_null', 'put_nullable'):
            self.bad('a type which is not NULLABLE writes null')
        if m.opt is not None and self.nullrule:
            present, can = m.opt
            self.tick('optional values')
            compact = m.sup == 1 and not can
            if m.sup is None and not can:
                self.bad('an optional value is written without asking whether null is supported')
            if compact:
                if present:
                    if ev[0][0] == 'pop_null' or ev[0][2] == 'open_struct Option':
                        self.bad('a present optional value is not written as itself')
                elif [e[0] for e in ev] != ['pop_null']:
                    self.bad('an absent optional value is not written as null')
            else:
                if ev[0][0] == 'pop_null':
                    self.bad('an optional value is written as null although that is ambiguous')
                flags = [i for i, e in enumerate(ev) if e[0] == 'put_bool' and self.same(I, st, e[1], present)]
                if not flags or flags[0] > 3 or any(e[0].startswith('put_') for e in ev[:flags[0]]):
                    self.bad('an optional value has no explicit presence flag')

    # ---- calls on the source
    def env_op(self, I, st, f, vals, argtys, destty):
        return self.step(I, st, self.lit(I, st, vals[0]), vals[1], None)

    def env_get(self, I, st, f, vals, argtys, destty):
        ety = I.p.types[destty]['v'][0]['f'][0][1]
        return self.step(I, st, self.lit(I, st, vals[0]), vals[1], ety)

    def env_ask(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        m = st.mon
        if name == 'supports_null':
            if m.sup is None:
                self.set(st, sup=I.choose(st, 2))
            return st.mon.sup
        if name == 'default':
            v = I.fresh(st, destty)
            self.set(st, defaults=m.defaults + (v,))
            return v
        if name.startswith('error'):
            self.hist(I, st, name)
            if m.phase == 'any':
                e = ('A', 0, (I.var(st, E64),))
                self.set(st, events=m.events + (('error', e, name, vals[1]),))
                return e
            if m.phase == 'failed':
                self.bad('an error is replaced by %s' % name)
            self.bad('reading what was written reports %s' % name)
        r = I.fresh(st, destty)
        return r

    def step(self, I, st, name, arg, ety):
        m = st.mon
        if m.phase == 'failed':
            self.bad('%s is called after an error' % name)
        if self.faults and I.choose(st, 2) == 1:
            self.hist(I, st, self.show(I, st, name, arg) + ' FAILS')
            e = I.var(st, E64)
            self.set(st, phase='failed', err=e)
            return err(('A', 0, (e,)))
        self.tick('calls on the source')
        if m.phase == 'write':
            self.hist(I, st, 'write ' + self.show(I, st, name, arg))
            return self.wstep(I, st, name, arg)
        if m.phase == 'read':
            self.hist(I, st, 'read ' + self.show(I, st, name, arg))
            return ok(self.rstep(I, st, name, arg, ety))
        if m.phase == 'any':
            return ok(self.astep(I, st, name, arg, ety))
        self.bad('%s is called after the value was complete' % name)

    def wstep(self, I, st, name, arg):
        m = st.mon
        if name == 'pop_null' and m.sup != 1:
            self.bad('null is written although it is not known to be supported')
        text = self.show(I, st, name, arg)
        if name == 'put_tag':
            mx, ix, nm = arg[2]
            text = 'put_tag %s %s %s' % (mx, ix, self.lit(I, st, nm[2][0]) if nm[1] else None)
        if name in ('open_struct', 'open_tuple'):
            text = name + (' ' + self.lit(I, st, arg[2][0]) if arg[1] else '')
        if name == 'put_str':
            arg = self.snapshot(I, st, arg)
            text = name
        if name == 'open_str':
            name, arg, text = 'put_str', ('rope', ()), 'put_str'
            self.set(st, events=m.events + (('put_str', arg, text),))
            return ok()
        if name in ('append_char', 'append_str', 'close_str'):
            last = m.events[-1]
            if last[0] != 'put_str':
                self.bad('%s without an opened string' % name)
            r = last[1]
            if name == 'append_char':
                r = ('rope', r[1] + (('ch', arg),))
            elif name == 'append_str':
                r = ('rope', r[1] + self.snapshot(I, st, arg)[1])
            self.set(st, events=m.events[:-1] + (('put_str', r, 'put_str'),))
            return ok()
        self.set(st, events=m.events + ((name, arg, text),))
        return ok()

    def snapshot(self, I, st, p):
        t = self.text(I, st, p)
        if type(t) is tuple and (not t or type(t[0]) is tuple):
            return ('rope', t)
        raise Unsupported('part of a string is written')

    def rstep(self, I, st, name, arg, ety):
        m = st.mon
        if m.pos >= len(m.events):
            self.bad('reading asks for %s after everything written was read' % name)
        ev = m.events[m.pos]
        nxt = lambda: self.set(st, pos=m.pos + 1)
        if name == 'check_null':
            if m.sup != 1:
                self.bad('null is checked although it is not known to be supported')
            if m.pos == 0 and not m.wnull:
                self.bad('a type which is not NULLABLE accepts null')
            if ev[0] == 'pop_null' or ev[0] == 'put_nullable' and I.choose(st, 2):
                nxt()
                return 1
            return 0
        if name in PAIR:
            if ev[0] != PAIR[name]:
                self.bad('reading asks for %s where writing gave `%s`' % (name, ev[2]))
            nxt()
            return ev[1]
        if name in SAME:
            if ev[0] != name:
                self.bad('reading asks for %s where writing gave `%s`' % (self.show(I, st, name, arg), ev[2]))
            if not self.same(I, st, arg, ev[1]):
                self.bad('reading asks for `%s` where writing gave `%s`' % (self.show(I, st, name, arg), ev[2]))
            nxt()
            return UNIT
        if name in ('read_str', 'open_str'):
            if ev[0] != 'put_str':
                self.bad('reading asks for a string where writing gave `%s`' % ev[2])
            if name == 'open_str':
                return UNIT
            nxt()
            return self.cow(I, st, ev[1])
        if name == 'flush_str':
            nxt()
            return self.cow(I, st, ev[1])
        if name == 'open_list':
            if ev[0] not in ('open_list_sized', 'open_list_streaming'):
                self.bad('reading asks for a list where writing gave `%s`' % ev[2])
            nxt()
            return some(ev[1]) if ev[0] == 'open_list_sized' and I.choose(st, 2) else NONE
        if name == 'next_item':
            if ev[0] == 'push_item':
                nxt()
                return 1
            if ev[0] == 'close_list':
                nxt()
                return 0
            self.bad('reading asks for the next item where writing gave `%s`' % ev[2])
        if name == 'get_tag':
            if ev[0] != 'put_tag':
                self.bad('reading asks for a tag where writing gave `%s`' % ev[2])
            wm, wi, wn = ev[1][2]
            rm, names = arg[2]
            if not self.same(I, st, wm, rm):
                self.bad('the largest index of a tag is %s when writing and %s when reading' % (wm, rm))
            nxt()
            if wn[1]:
                n = self.lit(I, st, wn[2][0])
                tab = self.names(I, st, names)
                self.tick('name tables')
                if n not in tab:
                    self.bad('the tag `%s` is written, but not accepted' % n)
                by_name = tab[n]
                if I.choose(st, 2) == 0:
                    return by_name
            return wi
        raise Unsupported('read ' + name)

    def names(self, I, st, p):
        """The entries of a NameMap."""
        v = I.read(st, p[1], p[2])
        while type(v) is tuple and v[0] == 'A' and len(v[2]) == 1 and v[2][0][0] == 'A' and \
                not (len(v[2][0][2]) == 2 and v[2][0][2][0][0] == 'p'):
            v = v[2][0]
        out = {}
        for e in v[2]:
            out[self.lit(I, st, e[2][0])] = e[2][1]
        return out

    def cow(self, I, st, rope):
        if I.choose(st, 2):
            return ('A', 1, (('vec', rope),))
        c = I.alloc(st, rope)
        return ('A', 0, (('p', c, (), ('s', 0, rope_len(rope))),))

    def astep(self, I, st, name, arg, ety):
        m = st.mon
        if name not in PAIR:
            self.bad('reading asks for ' + name)
        r = I.fresh(st, ety)
        self.set(st, events=m.events + (('value', r, name),))
        return r

    def on_panic(self, I, st, msg):
        self.hist(I, st, 'panic')
        self.bad('panics')


def roots_of(prefix):
    def jobs(tier, prog):
        return sorted(r for r in prog.roots if r.startswith(prefix))
    return jobs
