"""Configurations of the reference parser in text.py: which calls are made, and which text is offered."""
from text import *


class Walk(Text):
    """Everything is read in document order: structure, whitespace, comments and literals."""
    comments = (0, 1)
    MAXNEST = 2
    MAXDIGITS = 2
    MAXCHARS = 1
    escapes = controls = fractions = exponents = False
    values = ('get_bool', 'pop_null', 'check_null', 'peek_value_type', 'open_object', 'open_list', 'open_str', 'get_i32')
    strings = ('next_char', 'close_str')
    objects = ('next_entry', 'close_object')
    arrays = ('next_item', 'push_item', 'close_list')

    def config(self, st):
        t = self.top(st)
        m = st.mon
        e = ('error',) if m.popped and m.last is not None else ()
        if t is None:
            return ('close',) + e
        if t[0] == 'V':
            return self.values
        if t[0] == 'S':
            return self.strings
        return (self.objects if t[0] == 'O' else self.arrays) + ('peek_collection_type',) + e


class Skip(Walk):
    """Values and rests of collections are skipped; structs and tuples."""
    values = ('skip_value', 'open_struct', 'open_tuple', 'error_expected_type', 'open_str', 'get_bool')
    strings = ('skip_str',)
    objects = ('next_entry', 'skip_object', 'close_struct')
    arrays = ('next_item', 'push_element', 'close_tuple', 'close_struct', 'push_item')


class Strings(Walk):
    """Strings and keys, with every escape sequence."""
    comments = (0,)
    escapes = controls = True
    MAXNEST = 1
    MAXCHARS = 1
    values = ('open_str', 'read_str', 'get_char', 'open_object')
    strings = ('next_char', 'close_str', 'flush_str', 'skip_str')
    objects = ('next_entry',)
    arrays = ('next_item',)


class StringSkip(Strings):
    """Strings within values which are skipped."""
    MAXNEST = 2
    values = ('skip_value', 'open_object', 'open_list')
    strings = ('skip_str',)
    objects = ('next_entry', 'skip_object', 'close_object')


class Number(Walk):
    """Numbers: integers with any number of digits, read at the top and inside an array."""
    comments = (0,)
    fractions = exponents = True
    MAXNEST = 1
    types = ()
    objects = ()
    arrays = ('next_item',)

    @property
    def unbounded(self):
        return [t for t in self.types if t in INTS]

    @property
    def values(self):
        return self.types + ('open_list',)


def _number(*names):
    c = type('Number_' + names[0], (Number,), {'types': names})
    globals()[c.__name__.replace('<', '_').replace('>', '')] = c


for _n in INTS:
    _number(_n)


class Forms(Number):
    """The texts of numbers, of any length; their values aren't looked at."""
    coarse = flat = True
    types = ("get_i32",)
    many_shapes, many_values, many_facts, many_points = 2, 1, 1, 0

    def keep_digits(self, st):
        return False


def _forms(name):
    c = type('Forms_' + name, (Forms,), {'types': (name,)})
    globals()[c.__name__.replace('<', '_').replace('>', '')] = c


for _n in INTS:
    _forms(_n)
for _n in FLOATS:
    _forms(_n)


class FormsSkip(Forms):
    """Numbers which are skipped."""
    types = ('skip_value',)
    arrays = ('next_item', 'close_list')


class Exact(Number):
    """The values of numbers with few digits."""
    counts = ('text', 'panic')
    MAXDIGITS = 3
    arrays = ()

    @property
    def values(self):
        return self.types

    unbounded = ()


def _exact(name):
    n = len(str(1 << INTS[name][1])) + 1 if name in INTS else 6
    c = type('Exact_' + name, (Exact,), {'types': (name,), 'MAXDIGITS': n if n < 8 else 4})
    globals()[c.__name__.replace('<', '_').replace('>', '')] = c
    # any number of digits which matters
    c = type('Whole_' + name, (Exact,), {'types': (name,), 'MAXDIGITS': n if name in INTS else 36,
                                         'fractions': name in FLOATS, 'exponents': False})
    globals()[c.__name__.replace('<', '_').replace('>', '')] = c


for _n in INTS:
    _exact(_n)
for _n in FLOATS:
    _exact(_n)


class Look(Walk):
    """Entries are asked for by key; what was passed over is read afterwards."""
    comments = (0,)
    nochars = ((128, 0x10ffff),)
    leaves = 'n7"[{'
    MAXNEST = 3
    MAXDIGITS = 1
    MAXCHARS = 1
    MAXVALUES = 2
    streamed = ('pop_null',)
    kept = ('get_bool', 'pop_null', 'check_null', 'peek_value_type', 'open_object', 'open_list', 'open_str', 'get_i32',
            'skip_value')
    strings = ('next_char', 'close_str')
    objects = ('try_push_entry', 'next_entry', 'close_object')
    arrays = ('next_item', 'close_list')

    def keys(self, st):
        return ['a']

    def config(self, st):
        t = self.top(st)
        m = st.mon
        if t is None:
            return ('close',)
        if t[0] == 'V':
            if t[1] == 's':
                return ('open_object',) if len(m.top) == 1 else self.streamed
            return self.kept
        if t[0] == 'S':
            return self.strings
        return self.objects if t[0] == 'O' else self.arrays


class LookKey(Look):
    """Every way of asking for an entry, and what a missing entry may be read as."""
    rehash = False
    nochars = ((0, 96), (99, 0x10ffff))
    leaves = 't{'
    MAXNEST = 2
    MAXCHARS = 2
    MAXVALUES = 1
    streamed = ('get_bool', 'open_object')
    kept = ('skip_value', 'get_bool')
    missing = ('get_bool', 'pop_null', 'check_null', 'peek_value_type', 'open_object', 'open_list', 'open_str',
               'get_i32', 'get_f64', 'read_str', 'get_char', 'skip_value', 'open_struct', 'open_tuple')
    objects = ('try_push_entry', 'push_field', 'push_entry', 'skip_object', 'close_struct', 'next_entry',
               'close_object')

    def keys(self, st):
        return ['ab']

    def config(self, st):
        t = self.top(st)
        if t is not None and t[0] == 'V' and t[1] == 'n':
            return self.missing
        return Look.config(self, st)


class LookDeep(Look):
    """Nested values are passed over."""
    rehash = False
    nochars = ((0, 96), (98, 0x10ffff))
    leaves = 't[{'
    MAXVALUES = 3
    MAXNEST = 4
    streamed = ('get_bool',)
    kept = ('get_bool', 'open_object', 'open_list')
    objects = ('try_push_entry', 'next_entry')
    arrays = ('next_item', )


class LookSpace(Look):
    """White space and comments within what is passed over."""
    rehash = False
    comments = (0, 1)
    nochars = ((0, 96), (98, 0x10ffff))
    leaves = 't[{'
    MAXVALUES = 2
    streamed = ('get_bool',)
    kept = ('skip_value',)
    objects = ('try_push_entry',)


class LookStrings(Look):
    """Keys and strings which are passed over."""
    rehash = False
    nochars = ()
    escapes = controls = True
    unicode = False
    leaves = '"'
    MAXVALUES = 1
    streamed = ('read_str',)
    kept = ('open_str', 'read_str', 'get_char')
    strings = ('next_char', 'close_str', 'flush_str', 'skip_str')
    objects = ('try_push_entry', 'next_entry')


class LookPast(Look):
    """Larger values are passed over; they aren't read afterwards."""
    rehash = False
    nochars = ((0, 96), (98, 0x10ffff))
    leaves = 't[{'
    MAXVALUES = 4
    MAXNEST = 5
    streamed = ()
    objects = ('try_push_entry',)

    def keys(self, st):
        return ['a']


class LookPast1(LookPast):
    comments = (1,)


class LookPast5(LookPast):
    MAXVALUES = 5


class LookNumber(Look):
    """Numbers which are passed over, and their values."""
    rehash = False
    nochars = ((0, 96), (98, 0x10ffff))
    leaves = '-0123456789n'
    fractions = exponents = negatives = True
    MAXVALUES = 1
    MAXNEST = 1
    MAXDIGITS = 3
    streamed = ('pop_null',)
    objects = ('try_push_entry', 'next_entry')
    kept = tuple(INTS) + tuple(FLOATS)
    MAXEXP = 9


class LookFew(LookNumber):
    MAXDIGITS = 2


class LookFrac(LookNumber):
    exponents = False
    MAXDIGITS = 3


class LookExp(LookNumber):
    fractions = False
    MAXDIGITS = 2
