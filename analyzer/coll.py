"""Vectors and strings: ('vec', ('A', 0, elements)) or, for bytes and strings, ('vec', ('rope', chunks))."""
from terms import *
from interp import CHARS, Panic, Stop, Fork, Unsupported, UNIT, UNDEF
from models import MODELS, PREFIX, model, some, ok, err, NONE
from mon import rope_len, chlen

EMPTY = ('rope', ())


def is_u8(I, t):
    t = I.p.types[t]
    return t['k'] == 'int' and t['b'] == 8 and not t['s']


def norm(chunks):
    out = []
    for c in chunks:
        if c[0] == 'ch' and type(c[1]) is int:
            c = ('b', chr(c[1]).encode())
        elif c[0] == 'n' and type(c[1]) is int:
            c = ('b', bytes([c[1]]))
        if c[0] == 'b' and not c[1]:
            continue
        if c[0] == 'b' and out and out[-1][0] == 'b':
            out[-1] = ('b', out[-1][1] + c[1])
        else:
            out.append(c)
    return ('rope', tuple(out))


def clen(c):
    return len(c[1]) if c[0] == 'b' else 1 if c[0] == 'n' else chlen(c[1]) if c[0] == 'ch' else c[2]


def length(I, v):
    """Length of the content of a vector."""
    if v[0] == 'A':
        return len(v[2])
    if v[0] == 'rope':
        return rope_len(v)
    raise Unsupported('length of %r' % (v[0],))


def content(I, st, p):
    """Content of the vector behind a pointer."""
    v = I.load(st, p)
    n = 0
    while type(v) is tuple and v[0] == 'A' and len(v[2]) == 1 and n < 3:
        v = v[2][0]
        n += 1
    if type(v) is not tuple or v[0] != 'vec':
        raise Unsupported('not a vector: %r' % (str(v)[:60],))
    return v[1]


def setcontent(I, st, p, v):
    old = I.load(st, p)
    if type(old) is not tuple or old[0] != 'vec':
        raise Unsupported('not a vector')
    I.store(st, p, ('vec', v))


def body(p):
    """The pointer to the content of the vector behind `p`."""
    if p[0] == 'box':
        return p[1], ('b',)
    return p[1], p[2] + ('b',)


def eqz(I, st, a, b):
    d = sub(a, b)
    if type(d) is int:
        return d == 0
    r = I.rs(st, d)
    if r and r[0][0] == 0 and r[-1][1] == 0:
        return True
    if not any(lo <= 0 <= hi for lo, hi in r):
        return False
    return None


def cut(I, st, v, at):
    """Splits rope `v` at position `at`: (left, right)."""
    pos = 0
    left = []
    rest = list(v[1])
    while True:
        e = eqz(I, st, pos, at)
        if e:
            return tuple(left), tuple(rest)
        if not rest:
            if e is None:
                # positions of a string never lie past its end
                return tuple(left), ()
            raise Unsupported('position in a string')
        c = rest[0]
        n = clen(c)
        d = sub(at, pos)
        if c[0] == 'b' and type(d) is int:
            if d < 0:
                raise Unsupported('position in a string')
            if d < n:
                left.append(('b', c[1][:d]))
                rest[0] = ('b', c[1][d:])
                return tuple(left), tuple(rest)
        if c[0] == 'ch' and type(d) is int and 0 < d < 4 and I.lt(st, d, n):
            # within a character: its bytes, of which little is known
            k = I.conc_fork(st, n, 4)
            lead = ((0xc2, 0xdf), (0xe0, 0xef), (0xf0, 0xf4))[k - 2]
            rest[:1] = [('n', I.var(st, (lead,)))] + [('n', I.var(st, ((0x80, 0xbf),))) for _ in range(k - 1)]
            continue
        left.append(rest.pop(0))
        pos = add(pos, n)


def subrope(I, st, v, s, n):
    if s == 0 and eqz(I, st, n, rope_len(v)):
        return v
    a, b = cut(I, st, v, s)
    c, d = cut(I, st, ('rope', b), n)
    return ('rope', c)


def slice_rope(I, st, p):
    """The rope a &str or &[u8] denotes."""
    if p[0] == 'box':
        v = I.read(st, p[1], ())
        return v[1] if v[0] == 'vec' else v
    v = I.read(st, p[1], p[2])
    if is_term(v):
        return ('rope', (('n', v),))
    if v[0] == 'vec':
        v = v[1]
    if v[0] == 'A':
        v = ('rope', tuple(('n', x) for x in v[2]))
    if p[3] is None:
        return v
    return norm(subrope(I, st, v, p[3][1], p[3][2])[1])


def slice_elems(I, st, p):
    v = I.read(st, p[1], p[2])
    if v[0] == 'vec':
        v = v[1]
    if v[0] == 'rope':
        return slice_rope(I, st, p)
    s, n = (0, len(v[2])) if p[3] is None else p[3][1:3]
    s, n = I.conc(st, s), I.conc(st, n)
    if s is None or n is None:
        raise Unsupported('part of a vector')
    return ('A', 0, v[2][s:s + n])


def concat(a, b):
    if a[0] == 'rope':
        if b[0] == 'A':
            b = ('rope', tuple(('n', x) for x in b[2]))
        return norm(a[1] + b[1])
    return ('A', 0, a[2] + b[2])


# ------------------------------------------------------------------ Vec
def vec_new(I, st, f, vals, argtys, destty):
    t = [a for a in f.args if type(a) is int][0]
    return ('vec', EMPTY if is_u8(I, t) else ('A', 0, ()))


for n in ('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::vec::Vec::<T, A>::new_in',
          '<std::vec::Vec<T> as std::default::Default>::default'):
    MODELS[n] = vec_new


@model('std::vec::Vec::<T, A>::push', 'std::vec::Vec::<T, A>::push_mut')
def vec_push(I, st, f, vals, argtys, destty):
    v = content(I, st, vals[0])
    if v[0] == 'rope':
        r = norm(v[1] + (('n', vals[1]),))
    else:
        r = ('A', 0, v[2] + (vals[1],))
    setcontent(I, st, vals[0], r)
    if f.defn.endswith('_mut'):
        c, p = body(vals[0])
        return ('p', c, p + (length(I, v),), None)
    return UNIT


@model('std::vec::Vec::<T, A>::pop')
def vec_pop(I, st, f, vals, argtys, destty):
    v = content(I, st, vals[0])
    if v[0] == 'rope':
        if not v[1]:
            return NONE
        c = v[1][-1]
        if c[0] == 'n':
            setcontent(I, st, vals[0], ('rope', v[1][:-1]))
            return some(c[1])
        if c[0] == 'b':
            setcontent(I, st, vals[0], norm(v[1][:-1] + (('b', c[1][:-1]),)))
            return some(c[1][-1])
        raise Unsupported('pop of an unknown byte')
    if not v[2]:
        return NONE
    setcontent(I, st, vals[0], ('A', 0, v[2][:-1]))
    return some(v[2][-1])


@model('std::vec::Vec::<T, A>::len', 'std::string::String::len')
def vec_len(I, st, f, vals, argtys, destty):
    return length(I, content(I, st, vals[0]))


@model('std::vec::Vec::<T, A>::capacity', 'std::string::String::capacity')
def vec_capacity(I, st, f, vals, argtys, destty):
    n = length(I, content(I, st, vals[0]))
    top = (1 << 63) - 1
    return I.var(st, ((n, top),)) if type(n) is int else add(n, I.var(st, ((0, 1 << 40),)))


@model('std::vec::Vec::<T, A>::is_empty', 'std::string::String::is_empty')
def vec_is_empty(I, st, f, vals, argtys, destty):
    n = length(I, content(I, st, vals[0]))
    return int(n == 0) if type(n) is int else int(I.eq(st, n, 0))


@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
       'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', 'std::string::String::as_str',
       'std::string::String::as_bytes', '<std::string::String as std::ops::Deref>::deref',
       '<std::string::String as std::ops::DerefMut>::deref_mut', 'std::string::String::as_mut_str',
       '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', '<std::string::String as std::convert::AsRef<str>>::as_ref',
       '<std::string::String as std::convert::AsRef<[u8]>>::as_ref', '<std::string::String as std::borrow::Borrow<str>>::borrow',
       'std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow',
       'alloc::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow',
       '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow',
       'std::vec::Vec::<T, A>::as_ptr', 'std::vec::Vec::<T, A>::as_mut_ptr')
def vec_deref(I, st, f, vals, argtys, destty):
    v = content(I, st, vals[0])
    c, p = body(vals[0])
    return ('p', c, p, ('s', 0, length(I, v)))


@model('std::vec::Vec::<T, A>::clear', 'std::string::String::clear')
def vec_clear(I, st, f, vals, argtys, destty):
    v = content(I, st, vals[0])
    setcontent(I, st, vals[0], EMPTY if v[0] == 'rope' else ('A', 0, ()))
    return UNIT


@model('std::vec::Vec::<T, A>::truncate', 'std::string::String::truncate')
def vec_truncate(I, st, f, vals, argtys, destty):
    v = content(I, st, vals[0])
    n = length(I, v)
    if not I.le(st, vals[1], n):
        return UNIT
    if v[0] == 'rope':
        setcontent(I, st, vals[0], norm(cut(I, st, v, vals[1])[0]))
    else:
        k = I.conc_fork(st, vals[1])
        setcontent(I, st, vals[0], ('A', 0, v[2][:k]))
    return UNIT


@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::reserve_exact', 'std::string::String::reserve',
       'std::vec::Vec::<T, A>::shrink_to_fit', 'std::string::String::shrink_to_fit')
def vec_reserve(I, st, f, vals, argtys, destty):
    return UNIT


@model('std::vec::Vec::<T, A>::extend_from_slice', 'std::string::String::push_str')
def vec_extend(I, st, f, vals, argtys, destty):
    v = content(I, st, vals[0])
    if v[0] == 'rope':
        r = concat(v, slice_rope(I, st, vals[1]))
    else:
        r = concat(v, slice_elems(I, st, vals[1]))
    setcontent(I, st, vals[0], r)
    return UNIT


@model('std::vec::Vec::<T, A>::insert')
def vec_insert(I, st, f, vals, argtys, destty):
    v = content(I, st, vals[0])
    k = I.conc_fork(st, vals[1])
    if v[0] != 'A':
        raise Unsupported('insert of a byte')
    if k > len(v[2]):
        raise Panic('insert out of bounds')
    setcontent(I, st, vals[0], ('A', 0, v[2][:k] + (vals[2],) + v[2][k:]))
    return UNIT


@model('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def vec_remove(I, st, f, vals, argtys, destty):
    v = content(I, st, vals[0])
    k = I.conc_fork(st, vals[1])
    if v[0] != 'A':
        raise Unsupported('removal of a byte')
    e = v[2]
    if k >= len(e):
        raise Panic('remove out of bounds')
    if f.defn.endswith('swap_remove'):
        r = e[:k] + (() if k == len(e) - 1 else (e[-1],)) + e[k + 1:-1]
    else:
        r = e[:k] + e[k + 1:]
    setcontent(I, st, vals[0], ('A', 0, r))
    return e[k]


@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def vec_into_iter(I, st, f, vals, argtys, destty):
    return ('A', 0, (vals[0],))


@model('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next')
def into_iter_next(I, st, f, vals, argtys, destty):
    it = I.load(st, vals[0])
    v = it[2][0][1]
    if v[0] != 'A':
        raise Unsupported('iteration over bytes')
    if not v[2]:
        return NONE
    I.store(st, vals[0], ('A', 0, (('vec', ('A', 0, v[2][1:])),)))
    return some(v[2][0])


@model('<std::vec::Vec<T, A> as std::clone::Clone>::clone', '<std::string::String as std::clone::Clone>::clone')
def vec_clone(I, st, f, vals, argtys, destty):
    v = content(I, st, vals[0])
    if v[0] != 'rope':
        raise Unsupported('clone of a vector')
    return ('vec', v)


@model('std::slice::<impl [T]>::to_vec', '<T as std::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec',
       'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned')
def to_vec(I, st, f, vals, argtys, destty):
    v = slice_elems(I, st, vals[0])
    if v[0] != 'rope':
        t = [a for a in f.args if type(a) is int][0]
        if is_u8(I, t):
            v = norm(tuple(('n', x) for x in v[2]))
        elif I.p.types[t]['k'] not in ('int', 'bool', 'char'):
            raise Unsupported('clone of a slice')
    return ('vec', v)


@model('std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def array_into_iter(I, st, f, vals, argtys, destty):
    if vals[0][0] != 'A':
        raise Unsupported('iteration over an array of bytes')
    return ('A', 0, (('vec', vals[0]),))


@model('<std::array::IntoIter<T, N> as std::iter::Iterator>::next')
def array_iter_next(I, st, f, vals, argtys, destty):
    return into_iter_next(I, st, f, vals, argtys, destty)


@model('<std::array::IntoIter<T, N> as std::ops::Drop>::drop')
def array_iter_drop(I, st, f, vals, argtys, destty):
    return UNIT


# ------------------------------------------------------------------ String
@model('std::string::String::new', 'std::string::String::with_capacity',
       '<std::string::String as std::default::Default>::default')
def string_new(I, st, f, vals, argtys, destty):
    return ('vec', EMPTY)


@model('std::string::String::push')
def string_push(I, st, f, vals, argtys, destty):
    v = content(I, st, vals[0])
    setcontent(I, st, vals[0], norm(v[1] + (('ch', vals[1]),)))
    return UNIT


@model('std::str::<impl std::borrow::ToOwned for str>::to_owned', 'alloc::str::<impl std::borrow::ToOwned for str>::to_owned',
       '<std::string::String as std::convert::From<&str>>::from', '<str as std::string::ToString>::to_string',
       'std::str::<impl str>::to_string', '<str as std::string::SpecToString>::spec_to_string',
       '<std::string::String as std::convert::From<&mut str>>::from', 'std::str::<impl str>::to_owned',
       '<std::vec::Vec<u8> as std::convert::From<&str>>::from')
def str_to_owned(I, st, f, vals, argtys, destty):
    return ('vec', slice_rope(I, st, vals[0]))


@model('std::string::String::into_bytes', 'std::string::String::from_utf8_unchecked', 'std::string::String::into_boxed_str',
       'std::str::<impl str>::into_string')
def ident(I, st, f, vals, argtys, destty):
    return vals[0]


@model('std::str::from_utf8_unchecked', 'core::str::from_utf8_unchecked', 'core::str::<impl str>::as_bytes',
       'std::str::<impl str>::as_bytes', 'core::str::<impl str>::from_utf8_unchecked',
       'std::string::String::as_mut_vec', 'core::str::converts::from_utf8_unchecked',
       'std::str::<impl str>::from_utf8_unchecked', 'std::str::from_utf8_unchecked_mut')
def ident2(I, st, f, vals, argtys, destty):
    return vals[0]


@model('core::str::<impl str>::len', 'std::str::<impl str>::len')
def str_len(I, st, f, vals, argtys, destty):
    p = vals[0]
    return p[3][2] if p[3] is not None else rope_len(slice_rope(I, st, p))


@model('std::str::<impl str>::is_empty', 'core::str::<impl str>::is_empty')
def str_is_empty(I, st, f, vals, argtys, destty):
    n = str_len(I, st, f, vals, argtys, destty)
    return int(n == 0) if type(n) is int else int(I.eq(st, n, 0))


@model('core::str::<impl str>::chars', 'std::str::<impl str>::chars')
def str_chars(I, st, f, vals, argtys, destty):
    """The state of the iterator is the rest of the string."""
    return ('A', 0, (vals[0],))


@model("<std::str::Chars<'a> as std::iter::Iterator>::next", '<std::str::Chars<\'_> as std::iter::Iterator>::next')
def chars_next(I, st, f, vals, argtys, destty):
    it = I.load(st, vals[0])[2][0]
    kept = it[0] == 'rope'
    r = it if kept else slice_rope(I, st, it)
    rest = r[1]
    while rest:
        e = eqz(I, st, clen(rest[0]), 0)
        if not e:
            break
        rest = rest[1:]
    if not rest:
        return NONE
    c, rest = rest[0], rest[1:]
    if c[0] == 'ch':
        ch = c[1]
        n = chlen(ch)
    elif c[0] == 'b':
        s = c[1].decode()
        ch = ord(s[0])
        n = len(s[0].encode())
        rest = norm((('b', s[1:].encode()),) + rest)[1]
    elif c[0] == 'blob':
        # any character, and some more or none
        if I.choose(st, 2) == 0:
            I.refine_eq0(st, c[2])
            I.store(st, vals[0], ('A', 0, (('rope', rest),)))
            return chars_next(I, st, f, vals, argtys, destty)
        ch = I.var(st, CHARS)
        rest = (('blob', I.var(st), I.var(st, ((0, (1 << 63) - 1),))),) + rest
        kept = True
    elif c[0] == 'n' and not not_ascii(I, st, c[1], rest):
        ch, n = c[1], 1
    else:
        raise Unsupported('characters of bytes')
    if kept:
        it = ('rope', rest)
    else:
        if it[3] is None:
            it = ('p', it[1], it[2], ('s', 0, rope_len(r)))
        it = ('p', it[1], it[2], ('s', add(it[3][1], n), sub(it[3][2], n)))
    I.store(st, vals[0], ('A', 0, (it,)))
    return some(ch)


def not_ascii(I, st, byte, rest):
    """Is this byte of a string, at the start of a character, beyond ASCII? It mustn't be if it is alone."""
    if not I.test(st, byte, ((128, 255),)):
        return False
    if (not rest or rest[0][0] == 'ch') and hasattr(I.mon, 'bad'):
        I.mon.bad(st, 'the bytes of a string are not UTF-8')
    return True


@model("std::str::Chars::<'a>::as_str", "std::str::Chars::<'_>::as_str", "core::str::Chars::<'a>::as_str")
def chars_as_str(I, st, f, vals, argtys, destty):
    it = I.load(st, vals[0])[2][0]
    if it[0] == 'rope':
        return ('p', I.alloc(st, it), (), ('s', 0, rope_len(it)))
    return it


def position(I, st, x, n):
    """Is x <= n? Panics when it isn't."""
    if not I.le(st, x, n):
        raise Panic('index out of range')


@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut')
def vec_index(I, st, f, vals, argtys, destty):
    p = vec_deref(I, st, f, vals, argtys, destty)
    n = p[3][2]
    ix = vals[1]
    k = I.p.types[argtys[1]]
    if k['k'] == 'int':
        i = I.conc_fork(st, ix)
        if not I.lt(st, i, n):
            raise Panic('index out of range')
        return ('p', p[1], p[2] + (i,), None)
    name = k.get('n', '').rsplit('::', 1)[-1]
    if name == 'Range':
        a, b = ix[2]
    elif name == 'RangeTo':
        a, b = 0, ix[2][0] if ix[0] == 'A' else ix
    elif name == 'RangeFrom':
        a, b = ix[2][0] if ix[0] == 'A' else ix, n
    elif name == 'RangeFull':
        a, b = 0, n
    else:
        raise Unsupported('index by ' + name)
    position(I, st, a, b)
    position(I, st, b, n)
    return ('p', p[1], p[2], ('s', a, sub(b, a)))


def text_eq(I, st, a, b):
    """Equality of two ropes: True, False or None (unknown)."""
    a, b = norm(a[1])[1], norm(b[1])[1]
    if a == b:
        return True
    if all(c[0] == 'b' for c in a) and all(c[0] == 'b' for c in b):
        return False
    e = eqz(I, st, rope_len(('rope', a)), rope_len(('rope', b)))
    if e is False:
        return False
    kinds = set(c[0] for c in a + b)
    if kinds <= {'b', 'ch'}:
        x, y = chars_of(a), chars_of(b)
    elif kinds <= {'b', 'ch', 'n'}:
        x, y = bytes_of(I, st, a), bytes_of(I, st, b)
    else:
        return None
    return len(x) == len(y) and all(I.eq(st, p, q) for p, q in zip(x, y))


def chars_of(chunks):
    out = []
    for c in chunks:
        if c[0] == 'b':
            out += [ord(x) for x in c[1].decode()]
        else:
            out.append(c[1])
    return out


def bytes_of(I, st, chunks, limit=1 << 30):
    """The (first) bytes of a rope without unknown parts."""
    out = []
    for c in chunks:
        if len(out) >= limit:
            break
        if c[0] == 'b':
            out += c[1]
        elif c[0] == 'n':
            out.append(c[1])
        elif c[0] == 'ch':
            out += encode(I, st, c[1])
        else:
            raise Unsupported('bytes of an unknown string')
    return out


def encode(I, st, c):
    """The bytes of a character."""
    if I.test(st, c, ((0, 0x7f),)):
        return [c]
    n = 2 if I.test(st, c, ((0, 0x7ff),)) else 3 if I.test(st, c, ((0, 0xffff),)) else 4
    out = []
    for i in range(n - 1):
        out.insert(0, add(I.divrem(st, 'Rem', c, 64), 0x80))
        c = I.divrem(st, 'Div', c, 64)
    return [add(c, {2: 0xc0, 3: 0xe0, 4: 0xf0}[n])] + out


@model('intrinsic:compare_bytes', 'std::intrinsics::compare_bytes', 'core::intrinsics::compare_bytes')
def compare_bytes(I, st, f, vals, argtys, destty):
    n = I.conc_fork(st, vals[2])

    def first(p):
        if n == 0:
            return []
        v = I.read(st, p[1], p[2])
        if v[0] == 'vec':
            v = v[1]
        if v[0] == 'A':
            v = ('rope', tuple(('n', x) for x in v[2]))
        return bytes_of(I, st, cut(I, st, v, p[3][1] if p[3] is not None else 0)[1], n)[:n]
    a, b = first(vals[0]), first(vals[1])
    for x, y in zip(a, b):
        if not I.eq(st, x, y):
            return -1 if I.lt(st, x, y) else 1
    return 0


@model('std::str::traits::<impl std::cmp::PartialEq for str>::eq', 'core::str::traits::<impl std::cmp::PartialEq for str>::eq',
       '<str as std::cmp::PartialEq>::eq', '<std::string::String as std::cmp::PartialEq>::eq',
       '<std::string::String as std::cmp::PartialEq<str>>::eq', '<str as std::cmp::PartialEq<std::string::String>>::eq')
def str_eq(I, st, f, vals, argtys, destty):
    def rope(p):
        v = I.read(st, p[1], p[2])
        if v[0] == 'vec':
            return v[1]
        if v[0] == 'p':
            return slice_rope(I, st, v)
        return slice_rope(I, st, p)
    a, b = rope(vals[0]), rope(vals[1])
    return I.mon.str_eq(I, st, a, b)
