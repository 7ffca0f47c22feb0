"""C03: the grammar of numbers."""
import textc
from textc import *

NAMES = [n.replace('<', '_').replace('>', '') for n in list(INTS) + list(FLOATS)]


def jobs(tier, prog):
    look = ['LookExp', 'LookFrac'] + (['LookNumber'] if tier == 'thorough' else [])
    return ['r_w_number:FormsSkip'] + ['r_w_look:' + n for n in look] + ['r_w_number:Forms_' + n for n in reversed(NAMES)] + \
        ['r_w_number:Exact_' + n for n in NAMES]


for _n in dir(textc):
    if _n.startswith(('Forms_', 'Exact_', 'Whole_')):
        globals()[_n] = getattr(textc, _n)

SPEC = dict(
    features=['text'], level='other',
    technique='abstract interpretation of the MIR of number reading with symbolic characters, in product with a '
    'reference automaton of the JSON number grammar',
    note='Every text of any length for every numeric type and for skipped numbers, at the top and inside an array, as to '
    'the grammar (digits and exponents are widened to ranges). As to the value: numbers of up to 4 to 6 digits with any '
    'point and exponents up to 999. Numbers set aside: up to 3 digits with any point, up to 2 with an exponent (up to 9).',
    explanation='The reference automaton follows the characters taken by the deserializer: a number must be accepted '
    'exactly where the automaton accepts, just after its last character; it may be refused only as an overflow. The '
    'values of short numbers are compared as terms.',
    assumptions=['parsing of floating-point text in the standard library is right', 'fewer than 2^31 digits'],
    seconds={'quick': 500, 'thorough': 800},
    floors={'numbers compared': 40000, 'errors judged': 50000, 'characters read': 40000, 'entries found': 40})
