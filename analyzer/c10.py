from mirror import *


class C10(Mirror):
    pass


MONITOR = C10
jobs = roots_of(('r_b_', 'r_v_'))
SPEC = dict(
    features=['c10'], level='other',
    technique='abstract interpretation of the MIR of each pair of impls against a recording/replaying source',
    note='Every built-in type, every value (symbolic), every format that follows the trait contracts; Vec up to three '
    'items, arrays up to three. Inner types are opaque, nullable or not. Trusts the interpreter in analyzer/.',
    explanation='For each type the calls made by Serialize on an abstract serializer are recorded with symbolic '
    'arguments; Deserialize is then interpreted against an abstract deserializer which only answers the mirror image of '
    'the recorded call. Any other call, a value that is not the recorded term, or a leftover call is a violation.',
    assumptions=['Vec and String behave as documented', 'lists of more than three items behave like those of three'],
    floors={'calls on the source': 100, 'values compared': 30, 'validated values': 8})
