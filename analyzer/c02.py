"""C02: string escaping and unescaping."""
from textc import *


def jobs(tier, prog):
    return ['r_w_walk:' + n for n in ('Strings', 'StringSkip', 'LookStrings')]


SPEC = dict(
    features=['text', 'ser'], level='other',
    technique='abstract interpretation of the MIR of string reading and writing with symbolic characters, composed with '
    'a reference automaton of the JSON string grammar',
    note='All characters, all escape sequences (symbolic hexadecimal digits), surrogate pairs; content is compared '
    'character by character as terms. Strings which are iterated or skipped have any length; strings kept as a whole '
    'have at most one character (two when written).',
    explanation='Reading: strings and keys are opened, iterated, flushed, skipped, read as a whole, skipped inside '
    'other values and read after they were passed over; a reference automaton fed with the same symbolic characters '
    'gives the content and says which texts are malformed. Writing: what put_str, put_char, append_char, append_str '
    'and keys write is decoded by a JSON automaton whose content must be the characters given.',
    assumptions=['a string which is kept as a whole behaves as its characters do one by one'],
    seconds={'quick': 500},
    floors={'calls': 4000, 'characters read': 130000, 'characters compared': 150, 'results compared': 2500,
            'tokens': 6000})
