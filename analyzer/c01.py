from ser import *
SPEC = dict(
    features=['ser'], level='other',
    technique='abstract interpretation of the MIR of the text serializer, composed with a JSON push-down automaton '
    'that reads what is written',
    note='Every call sequence allowed by the documented stack protocol, with any number of siblings and containers '
    'nested up to three deep (four in the thorough run), all scalar values symbolic, strings and keys of up to two '
    'arbitrary characters, indentation on and off. itoa and ryu are taken to write a JSON number for finite values.',
    explanation='The client in model/src/ser.rs makes every legal call in every reachable abstract state of the '
    'serializer (to a fixpoint); every character handed to the writer drives a JSON automaton, whose tokens must be '
    'those of the calls, in order. Anything the automaton cannot accept is a violation with the call path.',
    assumptions=['itoa formats an integer as its decimal digits and ryu a finite float as a JSON number',
                 'the indentation string consists of white space', 'the depth counter does not overflow'],
    floors={'calls': 2000, 'tokens': 4000, 'documents': 6, 'pieces of text': 4000})
