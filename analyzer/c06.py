"""C06: no input text makes deserialization panic."""
import textc
from textc import *

LIST = ('FormsSkip', 'Forms_get_f64', 'Forms_get_i64', 'Forms_get_u8', 'Forms_read_number_i128', 'LookExp', 'LookFrac', 'Walk',
        'Skip', 'Strings', 'StringSkip', 'LookKey', 'LookStrings', 'LookSpace', 'Look')
for _n in LIST:
    globals()['P' + _n] = type('P' + _n, (getattr(textc, _n),), {'counts': ('panic',)})


def jobs(tier, prog):
    return ['r_w_walk:P' + n for n in LIST]


SPEC = dict(
    features=['text', 'c10', 'c11', 'utf8'], level='other',
    technique='abstract interpretation of the MIR of the deserializer over symbolic characters and every legal sequence '
    'of calls, to a fixpoint; every panic edge of the control-flow graph must be unreachable',
    note='All panics which MIR knows: overflow and bounds checks, unwrap, unreachable, unimplemented, explicit panics. '
    'Text over all characters, numbers of any length; nesting, length of kept strings, digits of numbers set aside and '
    'number of values passed over are bounded as listed in DESIGN.md. Types: every built-in one and the corpus of '
    'derived ones, from a source giving any answer.',
    explanation='The deserializer is driven by the client in model/src/text.rs through every legal call in every '
    'abstract state, while its reader gives any character or the end. No path may reach a panic. The same holds for '
    'the Deserialize impls of built-in and derived types, which read from a source that answers anything, and for the '
    'decoder of byte streams (where an I/O failure is not the input).',
    assumptions=['counters do not overflow', 'allocation does not fail'],
    seconds={'quick': 500},
    floors={'calls': 15000, 'characters read': 250000, 'types read': 1000, 'calls on the stream': 15000})
