from mirror import *


class C21(Mirror):
    nullrule = True


MONITOR = C21
jobs = roots_of(('r_n_',))
SPEC = dict(
    features=['c21'], level='other',
    technique='abstract interpretation of the MIR of the Option impls and of each inner type against a format which '
    'may or may not support null',
    note='Options of every built-in type (any value), of opaque nullable and non-nullable types, of options up to depth '
    'three and of the corpus of derived types; the answer of supports_null is arbitrary but constant for a format.',
    explanation='The calls made by Serialize for Some and None are recorded and judged by the rule in the property: null '
    'exactly if the format supports it and the inner type never writes null, else an explicit flag. Deserialize must '
    'accept exactly the mirror image. NULLABLE of both directions is compared for every type.',
    assumptions=['supports_null gives the same answer throughout', 'opaque types which declare themselves non-nullable '
                 'do not write null'],
    floors={'calls on the source': 200, 'values compared': 60, 'optional values': 60, 'NULLABLE declarations': 60})
