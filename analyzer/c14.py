from mirror import *


class C14(Mirror):
    faults = True


MONITOR = C14
jobs = roots_of(('r_b_', 'r_d_', 'r_v_'))
SPEC = dict(
    features=['c14', 'ser', 'stdj'], level='other',
    technique='abstract interpretation of the MIR with every fallible call of the environment failing or succeeding',
    note='Every built-in type and the corpus of derived types against an abstract format, the provided methods of the '
    'traits, and the JSON text serializer in front of an abstract writer. One failure per path (nothing may follow it). '
    'The scoped wrappers are covered by C08 and C09. Trusts the interpreter in analyzer/.',
    explanation='At every call on the writer, serializer or deserializer the analysis follows both outcomes. After a '
    'failure the code under analysis must make no further call and must return that very error (errors are symbolic '
    'terms, so a replaced error is seen).',
    assumptions=['a failed call may be followed by any state of the format, which is not used again'],
    floors={'calls on the source': 200, 'errors returned by reading': 150, 'errors returned by writing': 150,
            'errors returned': 100, 'pieces of text': 300, 'calls on the deserializer': 100})
