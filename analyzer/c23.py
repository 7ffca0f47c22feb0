"""C23: the entries of an object in any order."""
from textc import *


class Order(Look):
    """Entries are asked for by several keys, in any order, mixed with the next one."""
    counts = ('text',)
    rehash = False
    many_shapes = many_values = many_facts = 1 << 30
    leaves = 't'
    MAXNEST = 1
    MAXVALUES = 3
    streamed = kept = ('get_bool',)
    strings = ('next_char', 'close_str')
    objects = ('try_push_entry', 'next_entry', 'close_object')
    letters = ((97, 99),)

    def keys(self, st):
        return ['a', 'b', 'c']

    def alphabet(self, ph, doc):
        if ph[0] == 'S' and ph[2] == '':
            return ((34, 34),) + self.letters
        return Look.alphabet(self, ph, doc)

    def peek(self, I, st):
        m = st.mon
        if m.ph[0] != 'N' and (m.doc or m.ph[0] in 'VSL'):
            return self.set(st, nxt=I.var(st, self.alphabet(m.ph, m.doc)))
        Look.peek(self, I, st)

    def die(self, I, st, why):
        raise Stop()        # malformed text is the subject of C04 and C05


class OrderRehash(Order):
    """The table of keys in any order of its own."""
    rehash = True
    MAXVALUES = 2


class OrderNest(Order):
    """The same within objects, which are themselves passed over or not."""
    leaves = 't{'
    MAXNEST = 2
    MAXVALUES = 3
    streamed = kept = ('get_bool', 'open_object')
    letters = ((97, 98),)

    def keys(self, st):
        return ['a', 'b']


class OrderInner(OrderNest):
    """Objects read in order within each other, while entries of those around them are pending."""
    MAXNEST = 3
    MAXVALUES = 2
    leaves = 't{['
    streamed = ('get_bool', 'open_object', 'open_list')
    kept = ('get_bool',)
    arrays = ('next_item',)
    objects = ('try_push_entry', 'close_object')
    letters = ((97, 98),)

    def keys(self, st):
        return ['a', 'b']


class OrderInner4(OrderInner):
    MAXNEST = 4


class OrderDeep(OrderNest):
    """Objects within objects within lists."""
    leaves = 't{['
    MAXNEST = 4
    MAXVALUES = 4
    streamed = ('get_bool',)
    kept = ('get_bool', 'open_object', 'open_list')
    objects = ('try_push_entry', 'next_entry')
    arrays = ('next_item',)
    letters = ((97, 97),)

    def keys(self, st):
        return ['a']


class OrderData(Order):
    """Strings and numbers."""
    leaves = '"7'
    MAXVALUES = 2
    MAXCHARS = MAXDIGITS = 1
    fractions = exponents = negatives = False
    streamed = ('get_i32', 'read_str')
    kept = ('get_i32', 'read_str')
    letters = ((97, 98),)

    def keys(self, st):
        return ['a', 'b']


class OrderParts(Order):
    """Fields, entries which have to be there, and the rest of an object."""
    MAXVALUES = 2
    objects = ('try_push_entry', 'push_field', 'push_entry', 'next_entry', 'close_object', 'skip_object',
               'close_struct')
    missing = ('get_bool', 'pop_null')
    letters = ((97, 98),)

    def keys(self, st):
        return ['a', 'b']

    def config(self, st):
        t = self.top(st)
        if t is not None and t[0] == 'V' and t[1] == 'n':
            return self.missing
        return Order.config(self, st)


class OrderMixed(Order):
    """Values of every kind."""
    leaves = 'n7"[{'
    MAXNEST = 3
    MAXVALUES = 2
    MAXCHARS = MAXDIGITS = 1
    fractions = exponents = negatives = False
    streamed = ('pop_null',)
    kept = ('pop_null', 'open_object', 'open_list', 'read_str', 'get_i32')
    arrays = ('next_item', 'close_list')
    letters = ((97, 98),)

    def keys(self, st):
        return ['a', 'b']


def jobs(tier, prog):
    l = ['OrderNest', 'OrderInner', 'Order', 'OrderDeep', 'OrderMixed', 'OrderData', 'OrderParts', 'OrderRehash']
    if tier == 'thorough':
        l = ['OrderInner4'] + l
    return ['r_w_walk:' + n for n in l]


SPEC = dict(
    features=['text'], level='other',
    technique='abstract interpretation of the MIR of the deserializer with symbolic characters under every order of '
    'access, in product with a reference parser which keeps the entries that are still to be delivered',
    note='Every order of asking for entries by key or taking the next one. Per document up to three entries passed over '
    'with three different keys, or up to four values in nested objects and lists; keys and strings of one character. '
    'Longer documents are beyond the bound. Two entries with the same key are left out.',
    explanation='The reference keeps the entries which were passed over with their keys and values; each call has to '
    'find exactly the entry which is there and was not delivered before, and the accessors have to give the value that '
    'the text has for it.',
    assumptions=['hashbrown behaves as the specification in model/hashbrown'],
    seconds={'quick': 700, 'thorough': 800},
    floors={'calls': 12000, 'results compared': 10000, 'entries found': 1200, 'entries found again': 400,
            'entries missed': 300})
