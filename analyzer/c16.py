"""C16: byte streams are decoded and encoded exactly."""
from utf8 import MONITOR, jobs

SPEC = dict(
    features=['utf8'], level='other',
    technique='abstract interpretation of the MIR of the decoder and encoder with symbolic bytes and characters, '
    'composed with an automaton of the UTF-8 grammar (RFC 3629)',
    note='Every byte value, every split of the data over calls, every point of failure or end of data; strings of up '
    'to two arbitrary characters. Trusts the interpreter in analyzer/ and that `read`/`write` return no more than they '
    'were given.',
    explanation='The clients in model/src/utf8.rs read characters from a stream whose bytes are symbolic and which may '
    'end or fail at every call, and write symbolic characters and strings to a sink which takes any number of bytes at '
    'a time. The bytes are decoded by the table of well-formed byte sequences of RFC 3629 next to the code; results, '
    'number of bytes consumed and errors must agree on every path.',
    assumptions=['a write which accepts no bytes is not followed further',
                 'the counters of the position do not overflow'],
    floors={'calls on the stream': 1500, 'characters': 1000, 'errors': 300, 'bytes': 250, 'pieces of text written': 50})
