"""C05: entries which are passed over are parsed with the same grammar."""
from textc import *


class LookDeeper(LookDeep):
    MAXVALUES = 4


class LookKeys(LookKey):
    MAXVALUES = 2


def jobs(tier, prog):
    l = ['LookDeep', 'Look', 'LookPast1', 'LookSpace', 'LookKey', 'LookStrings']
    if tier == 'thorough':
        l = ['LookDeeper', 'LookPast5', 'LookKeys', 'LookPast'] + l
    return ['r_w_walk:' + n for n in l]


SPEC = dict(
    features=['text'], level='other',
    technique='abstract interpretation of the MIR of the deserializer with symbolic characters, in product with a '
    'reference push-down automaton of the JSON grammar which also builds the values passed over',
    note='Entries are asked for by key; every text of the entries passed over (up to three values per document, nested '
    'up to four deep, keys and strings of one character, white space and comments of any length). Numbers passed over '
    'are limited to one digit here. Hash tables are abstracted by their contract.',
    explanation='While entries are passed over a reference parser follows the characters; it must accept them if the '
    'entry is found, malformed text must be refused, well-formed text must not be, and the call must stop just after '
    'the colon of the entry asked for. What was passed over is read afterwards and compared with the reference.',
    assumptions=['an object with two equal pending keys: which one is found is not specified',
                 'hashbrown behaves as the specification in model/hashbrown'],
    seconds={'quick': 600, 'thorough': 800},
    floors={'calls': 20000, 'entries found': 2300, 'entries found again': 20, 'entries missed': 900,
            'errors judged': 130000})
