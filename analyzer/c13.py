"""C13: the stack effect of the calls of a deserializer."""
from textc import *


def jobs(tier, prog):
    return ['r_w_walk:' + n for n in ('Walk', 'Skip', 'LookKey', 'Look')]


SPEC = dict(
    features=['text', 'stdj'], level='other',
    technique='typestate analysis: abstract interpretation of the MIR of every deserializer call against the documented '
    'stack effect, with the text read symbolic',
    note='Every legal call sequence over every text (same bounds as C04 and C05), and the provided and standard '
    'implementations over an abstract deserializer. The effect is judged by what the next calls do and by how much of '
    'the text was read.',
    explanation='A reference stack is kept next to the deserializer: each successful call has to read exactly the part '
    'of the text its effect covers, each failure needs a reason (missing, left-over or absent elements and entries), '
    'and the calls that follow are judged by the stack which the documentation promises.',
    assumptions=['hashbrown behaves as the specification in model/hashbrown'],
    seconds={'quick': 600},
    floors={'calls': 12000, 'results compared': 6000, 'structure errors judged': 800, 'errors judged': 45000,
            'calls on the deserializer': 1400})
