"""C12: a value reads the same whether streamed or looked back."""
from textc import *


def jobs(tier, prog):
    return ['r_w_walk:' + n for n in ('Look', 'LookKey', 'LookStrings', 'LookDeep')]


SPEC = dict(
    features=['text'], level='other',
    technique='abstract interpretation of the MIR of the deserializer; every accessor is judged against the same '
    'reference value in the streamed and in the set-aside state',
    note='All accessors on every kind of value which was passed over (up to three values per document) and on missing '
    'entries; the kind reported, the value and the item left on the stack come from one reference.',
    explanation='Values which were set aside while a key was looked for are read by every accessor; the reference says '
    'which kinds each accessor accepts (the same table as for streamed values, which C04 and C13 use), which value it '
    'gives, and what remains. A missing entry must succeed as null and report the missing key to every other accessor.',
    assumptions=['hashbrown behaves as the specification in model/hashbrown'],
    seconds={'quick': 600},
    floors={'calls': 19000, 'results compared': 12000, 'missing entries reported': 1000, 'mismatches reported': 3500})
