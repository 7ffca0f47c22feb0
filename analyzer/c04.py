"""C04: documents are accepted exactly as the grammar says."""
from textc import *


def jobs(tier, prog):
    return ['r_w_walk:' + n for n in ('Walk', 'Skip')]


SPEC = dict(
    features=['text'], level='other',
    technique='abstract interpretation of the MIR of the deserializer with symbolic characters, in product with a '
    'reference push-down automaton of the JSON grammar, to a fixpoint',
    note='All characters; comments allowed or not; any number of siblings, white space and comments of any length; two '
    'levels of nesting; reading in order, skipping values and the rest of collections. Numbers and string content are '
    'the business of C02 and C03.',
    explanation='Every character the deserializer consumes also drives a reference parser. A call may succeed only if '
    'the parser accepts what was read and is at the place the call has to stop at; it may fail only if the text read '
    'so far (with the character which comes next) can no longer be the start of a document of that shape.',
    assumptions=['a line comment ends with a line feed; without one at the end of the text it is an error'],
    floors={'calls': 2500, 'results compared': 2000, 'errors judged': 11000, 'characters read': 25000,
            'documents accepted': 3})
