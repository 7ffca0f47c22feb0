"""C06: byte streams which are not valid UTF-8."""
from utf8 import *


class Panics(Utf8):
    def bad(self, msg, position=False):
        raise Stop()

    def on_panic(self, I, st, msg):
        m = st.mon
        self.hist(I, st, 'panic')
        if m.fault is not None and m.fault[0] == 'fault':
            raise Stop()
        msg = 'panics when the stream is not valid UTF-8' if m.fault is not None or m.bytes else 'panics'
        raise Violation(msg, '%s: %s' % (self.root, msg))


MONITOR = Panics


def jobs(tier, prog):
    return ['r_u_read', 'r_u_reader']
