from mirror import *

# The declared representation of each type of model/src/derived.rs: the calls which must be made on the format.


def st(name, *fields):
    out = ['open_struct ' + name]
    for f in fields:
        out += f
    return out + ['close_struct']


def fl(name, *ops):
    out = ['push_field ' + name]
    for o in ops or (O,):
        out += o
    return out


def tag(mx, ix, name):
    return ['put_tag %d %d %s' % (mx, ix, name)]


O, N = ['put_opaque'], ['put_nullable']
NULL = ['pop_null']
FLAG = st('Option', fl('has_value', ['put_bool']))
FULL = st('Option', fl('has_value', ['put_bool']), fl('value', O))
PLAIN = fl('a') + fl('b', N) + fl('c')
RENAMED = fl('z') + fl('b') + fl('a')
FLAT = fl('p') + PLAIN + fl('q') + RENAMED


def summed(name, t, mx, ix, v, *fields):
    return st(name, fl(t, tag(mx, ix, v)), *fields)


EXPECT = {
    'r_d_unit': [st('Unit')],
    'r_d_plain': [st('Plain', PLAIN)],
    'r_d_renamed': [st('Renamed', RENAMED)],
    'r_d_flat': [st('Flat', FLAT)],
    'r_d_defaulted': [st('Defaulted', fl('a'), fl('b'), fl('c', x), fl('dd')) for x in (O, FULL)],
    'r_d_defaulted2': [st('Defaulted', fl('a'), fl('b'), fl('c', x), fl('dd')) for x in (NULL, FLAG)],
    'r_d_generic': [st('Generic', fl('x', N), fl('y', x)) for x in (O, FULL)],
    'r_d_arrayed': [st('Arrayed', fl('x', ['open_tuple', 'push_element'], O, ['push_element'], O, ['close_tuple']))],
    'r_d_tag_a': [tag(2, 0, 'A')], 'r_d_tag_b': [tag(2, 1, 'B')], 'r_d_tag_c': [tag(2, 2, 'C')],
    'r_d_num_a': [tag(6, 5, 'A')], 'r_d_num_b': [tag(6, 6, 'B')], 'r_d_num_c': [tag(6, 2, 'see')],
    'r_d_num_d': [tag(6, 3, 'D')],
    'r_d_re_a': [tag(11, 7, 'A')], 'r_d_re_b': [tag(11, 4, 'B')], 'r_d_re_c': [tag(11, 1, 'C')],
    'r_d_re_d': [tag(11, 3, 'A2')], 'r_d_re_e': [tag(11, 11, 'E')],
    'r_d_mixed_a': [tag(1000, 0, '0')], 'r_d_mixed_b': [tag(1000, 1, 'A')], 'r_d_mixed_c': [tag(1000, 40, 'C')],
    'r_d_mixed_d': [tag(1000, 41, 'D')], 'r_d_mixed_e': [tag(1000, 1000, 'E')],
    'r_d_sum_a': [summed('Sum', 'type', 2, 0, 'A')],
    'r_d_sum_b': [summed('Sum', 'type', 2, 1, 'B', fl('x', N), fl('y'))],
    'r_d_sum_c': [summed('Sum', 'type', 2, 2, 'sea', fl('w'))],
    'r_d_tagged_a': [summed('Tagged', 'kind', 6, 0, 'A')],
    'r_d_tagged_b': [summed('Tagged', 'kind', 6, 6, 'B')],
    'r_d_tagged_c': [summed('Tagged', 'kind', 6, 2, 'C', fl('a'))],
    'r_d_inl_a': [summed('Other', 't', 3, 0, 'A', PLAIN)],
    'r_d_inl_b': [summed('Other', 't', 3, 1, 'B', RENAMED, fl('q'))],
    'r_d_inl_c': [summed('Other', 't', 3, 2, 'C', RENAMED)],
    'r_d_inl_d': [summed('Other', 't', 3, 3, 'D', fl('type', tag(2, 1, 'B')), fl('x', N), fl('y'))],
    'r_d_only_a': [summed('OnlyTags', 'only', 1, 0, 'A')], 'r_d_only_b': [summed('OnlyTags', 'only', 1, 1, 'B')],
    'r_d_gen_l': [summed('GenericSum', 'type', 1, 0, 'L', fl('v', N))],
    'r_d_gen_r': [summed('GenericSum', 'type', 1, 1, 'R', fl('v', N), fl('w'))],
    'r_d_deep_a': [summed('Deep', 'type', 2, 0, 'A', fl('type', tag(2, 2, 'sea')), fl('w'))],
    'r_d_deep_b': [summed('Deep', 'type', 2, 1, 'A B', FLAT)],
    'r_d_deep_c': [summed('Deep', 'type', 2, 2, 'C', fl('A', x), fl('y', y)) for x, y in ((O, NULL), (FULL, FLAG))],
    'r_d_nested': [st('Nested', fl('a', tag(2, 1, 'B')), fl('b', summed('Sum', 'type', 2, 2, 'sea', fl('w'))),
                      fl('c', ['open_list_sized', 'push_item'], st('Plain', PLAIN), ['close_list']),
                      fl('d', ['open_tuple', 'push_element'], tag(2, 2, 'C'), ['push_element'], O, ['close_tuple']))],
    # written by a hand-made source
    'r_d_nulls': None, 'r_d_proxied': None,
}


class C11(Mirror):
    expect = EXPECT


MONITOR = C11


def jobs(tier, prog):
    names = sorted(r for r in prog.roots if r.startswith('r_d_'))
    if set(names) != set(EXPECT):
        raise SystemExit('the roots %s have no declared representation' % sorted(set(names) ^ set(EXPECT)))
    return names


SPEC = dict(
    features=['c11'], level='other',
    technique='abstract interpretation of the MIR generated by the derive macros against a recording/replaying source',
    note='Every value of each type of a corpus of %d declarations which uses every attribute and shape the macros accept '
    '(struct, tag enum, tagged enum; rename, tag, reindex, discriminants, flatten, transparent, default, proxy, generics)'
    '; declarations outside the corpus are covered only as far as the macros treat them alike.' % 18,
    explanation='The calls made by the generated Serialize are compared with the representation which the declaration '
    'asks for (names, order, tag indices) and recorded with symbolic values; the generated Deserialize is then '
    'interpreted against a source which answers only the mirror image of each recorded call, and its result compared.',
    assumptions=['field values are opaque types which follow the Serialize and Deserialize contracts'],
    floors={'calls on the source': 400, 'values compared': 40, 'expected shapes': 35, 'name tables': 30,
            'defaulted fields': 1})
