"""C06: the types which have an implementation of Deserialize, read from a source which gives any answer at all."""
from mirror import *
from interp import CHARS


class Wild(Mirror):
    items = 2

    def bad(self, msg):
        raise Stop()

    def on_note(self, I, st, name, arg):
        if name in ('write', 'read', 'any'):
            self.set(st, phase='write' if name == 'write' else 'read', pos=0)
        elif name in ('failed', 'same', 'valid', 'invalid', 'default'):
            self.tick('types read')

    def env_ask(self, I, st, f, vals, argtys, destty):
        name = self.lit(I, st, vals[0])
        if name == 'supports_null':
            return 1
        if name.startswith('error'):
            return ('A', 0, (I.var(st, E64),))
        return I.fresh(st, destty)

    def step(self, I, st, name, arg, ety):
        m = st.mon
        if m.phase == 'write':
            return ok()
        if m.phase == 'failed':
            raise Stop()
        self.tick('calls on the source')
        self.hist(I, st, 'read ' + name)
        if I.choose(st, 2):
            self.set(st, phase='failed')
            return err(('A', 0, (I.var(st, E64),)))
        if name in SAME or name == 'open_str':
            return ok()
        if name == 'open_list':
            return ok(NONE)
        if name == 'check_null':
            return ok(I.choose(st, 2))
        if name == 'next_item':
            if m.pos >= self.items:
                return ok(0)
            k = I.choose(st, 2)
            self.set(st, pos=m.pos + k)
            return ok(k)
        if name in ('read_str', 'flush_str'):
            n = I.choose(st, 3)
            return ok(self.cow(I, st, ('rope', tuple(('ch', I.var(st, CHARS)) for _ in range(n)))))
        if name == 'get_tag':
            mx, names = arg[2]
            tab = sorted(set(self.names(I, st, names).values()))
            k = I.choose(st, len(tab) + 1)
            return ok(tab[k] if k < len(tab) else I.var(st, ((0, mx),)))
        return ok(I.fresh(st, ety))

    def on_panic(self, I, st, msg):
        if st.mon.phase in ('write', 'start'):
            raise Stop()
        self.hist(I, st, 'panic')
        raise Violation('panics while a value is read', '%s: panics' % self.root)


MONITOR = Wild
jobs = roots_of(('r_b_', 'r_d_', 'r_v_'))
