"""C20: scalars are carried unchanged."""
import textc
from textc import *

NAMES = [n.replace('<', '_').replace('>', '') for n in INTS]


class Bools(Walk):
    """Booleans, in the text and passed over."""
    comments = (0,)
    MAXNEST = 1
    values = ('get_bool', 'pop_null', 'open_list')
    objects = ()
    arrays = ('next_item',)


class LookBools(Look):
    leaves = 'n'
    MAXVALUES = 1
    MAXNEST = 1
    rehash = False
    nochars = ((0, 96), (98, 0x10ffff))
    kept = ('get_bool', 'pop_null')
    streamed = ('get_bool',)
    objects = ('try_push_entry', 'next_entry')


class LookInts(LookExp):
    kept = tuple(INTS)


class LookByte(LookNumber):
    """Numbers which were set aside are near the limits of a byte."""
    kept = ('get_i8', 'get_u8')
    fractions = exponents = False
    MAXDIGITS = 4


def jobs(tier, prog):
    l = ['r_w_look:LookInts', 'r_w_look:LookByte', 'r_w_look:LookBools', 'r_w_walk:Bools']
    return l + ['r_w_number:Exact_' + n for n in NAMES] + ['r_w_number:Whole_' + n for n in NAMES]


for _n in dir(textc):
    if _n.startswith(('Exact_', 'Whole_')):
        globals()[_n] = getattr(textc, _n)

SPEC = dict(
    features=['text', 'ser'], level='other',
    technique='abstract interpretation of the MIR with symbolic values: the number built from symbolic digits is compared, '
    'as a linear term, with the number a reference computed; machine arithmetic is exact (wrapping forks)',
    note='Reading: every integer type; whole numbers with up to one digit more than the type can hold (leading zeros are '
    'malformed); up to 4 digits (6 for 16 bits) with any point and exponents up to 999. '
    'Writing: every scalar call with an unknown value.',
    explanation='Each successful read must give exactly the number of the text, each refusal must be of a number the type '
    'cannot hold. What the serializer writes for a scalar is decoded by an automaton and must be the value given.',
    assumptions=['itoa writes the decimal digits of the integer it is given'],
    seconds={'quick': 500},
    floors={'numbers compared': 8000, 'errors judged': 12000, 'tokens': 3000, 'results compared': 8000, 'entries found': 60})
