"""C17: positions."""
import textc
from textc import *


class PosWalk(Walk):
    counts = ('pos',)
    values = Walk.values + ('error_expected_type', 'skip_value')


class PosSkip(Skip):
    counts = ('pos',)


class PosNumber(Walk):
    """An error about a number which was read."""
    counts = ('pos',)
    comments = (0,)
    MAXNEST = 1
    MAXDIGITS = 1
    values = ('get_i8', 'get_u64', 'get_f32', 'get_f64', 'open_list')
    objects = ()
    arrays = ('next_item', 'close_list')


class PosText(Walk):
    """An error about a string which was read."""
    counts = ('pos',)
    comments = (0,)
    MAXNEST = 1
    values = ('open_str', 'read_str', 'get_char', 'open_object', 'open_list', 'open_tuple', 'open_struct')
    strings = ('next_char', 'close_str', 'flush_str', 'skip_str')
    objects = ('next_entry', 'close_object')
    arrays = ('next_item', 'push_element', 'close_list', 'close_tuple')


class PosLook(Look):
    """An error about a value which was passed over."""
    counts = ('pos',)
    MAXVALUES = 1
    leaves = 'n7"[{'
    kept = Look.kept + ('error_expected_type', 'read_str', 'get_char')
    streamed = ('pop_null',)
    objects = ('try_push_entry', 'next_entry', 'close_object', 'push_entry')
    nochars = ((0, 96), (99, 0x10ffff))

    def config(self, st):
        m = st.mon
        e = ('error',) if m.popped and m.last is not None else ()
        return Look.config(self, st) + e


class PosBack(PosLook):
    """An error about a collection which was passed over, after its items."""
    MAXVALUES = 2
    rehash = False
    leaves = 't[{'
    kept = ('get_bool', 'open_object', 'open_list')
    objects = ('try_push_entry', 'next_entry', 'close_object')
    nochars = ((0, 96), (98, 0x10ffff))


def jobs(tier, prog):
    return ['r_w_walk:' + n for n in ('PosWalk', 'PosSkip', 'PosNumber', 'PosText', 'PosBack', 'PosLook')]


SPEC = dict(
    features=['text', 'utf8'], level='other',
    technique='abstract interpretation of the MIR: positions are symbolic terms which are compared with the position a '
    'reference parser recorded; the counting of lines and columns is compared with a reference for every character',
    note='The stream reader: every character, any split of the data. The deserializer: every error about a value which '
    'was read, missing or left-over items, and kind mismatches, for streamed and set-aside values. Errors about '
    'malformed text have no promised position.',
    explanation='The reader gives a fresh symbolic position after each character. The reference parser records the '
    'position at which each value starts; errors must carry exactly that term.',
    assumptions=['line and column counters do not overflow', 'the position of a looked-back key is that of its value'],
    seconds={'quick': 500},
    floors={'positions compared': 600, 'mismatches reported': 4000, 'structure errors judged': 650, 'positions': 1800})
