"""Meanings of standard-library functions whose source isn't part of the analysed program."""
from terms import *
from interp import Panic, Stop, Fork, Unsupported, UNIT, UNDEF, int_range, ISZ

MODELS = {}
PREFIX = []
NONE = ('A', 0, ())


def some(v):
    return ('A', 1, (v,))


def ok(v=UNIT):
    return ('A', 0, (v,))


def err(v):
    return ('A', 1, (v,))


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def copy_nonoverlapping(I, st, src, dst, n):
    """Copies bytes."""
    import coll
    if src[0] != 'p' or dst[0] != 'p' or dst[3] is None or dst[3][0] != 's':
        raise Unsupported('copy_nonoverlapping')
    v = I.read(st, src[1], src[2])
    if is_term(v):
        new = ('rope', (('n', v),))
    else:
        s = 0 if src[3] is None else src[3][1]
        new = coll.slice_rope(I, st, ('p', src[1], src[2], ('s', s, n)))
    v = I.read(st, dst[1], dst[2])
    if v[0] == 'A' and all(is_term(x) for x in v[2]):
        v = ('rope', tuple(('n', x) for x in v[2]))
    if v[0] != 'rope' or new[0] != 'rope':
        raise Unsupported('copy_nonoverlapping')
    a, b = coll.cut(I, st, v, dst[3][1])
    k = I.conc(st, n)
    if k is not None:
        rest = coll.cut(I, st, ('rope', b), k)[1]
    else:
        # what is overwritten has an unknown length
        total = I.conc(st, sub(coll.length(I, ('rope', b)), 0))
        if total is None:
            raise Unsupported('copy_nonoverlapping')
        rest = (('blob', I.var(st), sub(total, n)),)
    out = coll.norm(a + new[1] + rest)
    if all(c[0] in 'bn' for c in out[1]):
        out = ('A', 0, tuple(x for c in out[1] for x in (c[1] if c[0] == 'b' else (c[1],))))
    I.write(st, dst[1], dst[2], out)


# ------------------------------------------------------------------ panics
@model('std::rt::panic_fmt', 'core::panicking::panic_fmt', 'std::rt::panic_display', 'core::panicking::panic',
       'core::panicking::panic_display', 'core::panicking::panic_explicit', 'core::panicking::assert_failed',
       'core::panicking::panic_str_2015', 'core::panicking::unreachable_display', 'std::rt::begin_panic',
       'core::option::expect_failed', 'core::option::unwrap_failed', 'core::result::unwrap_failed',
       'core::panicking::panic_bounds_check', 'std::option::expect_failed', 'std::option::unwrap_failed',
       'std::result::unwrap_failed', 'core::panicking::unreachable_unchecked', 'core::panicking::assert_failed_inner',
       'std::rt::panic_str_2015', 'core::slice::index::slice_index_fail', 'core::str::slice_error_fail',
       'core::cell::panic_already_borrowed', 'core::panicking::panic_nounwind', 'core::panicking::panic_nounwind_fmt',
       'core::panicking::panic_const::panic_const_add_overflow', 'core::panicking::assert_matches_failed')
def m_panic(I, st, f, vals, argtys, destty):
    raise Panic(f.defn)


PREFIX.append(('core::panicking::', m_panic))
PREFIX.append(('std::rt::panic', m_panic))
PREFIX.append(('std::rt::begin_panic', m_panic))


# ------------------------------------------------------------------ boxes
@model('std::boxed::Box::<T>::new')
def m_box_new(I, st, f, vals, argtys, destty):
    return ('box', I.alloc(st, vals[0]))


# ------------------------------------------------------------------ mem
@model('std::mem::take')
def m_take(I, st, f, vals, argtys, destty):
    raise Unsupported('mem::take')


@model('std::mem::replace', 'std::mem::swap_')
def m_replace(I, st, f, vals, argtys, destty):
    old = I.load(st, vals[0])
    I.store(st, vals[0], vals[1])
    return old


@model('std::mem::swap')
def m_swap(I, st, f, vals, argtys, destty):
    a, b = I.load(st, vals[0]), I.load(st, vals[1])
    I.store(st, vals[0], b)
    I.store(st, vals[1], a)
    return UNIT


@model('std::mem::forget', 'std::mem::drop_')
def m_forget(I, st, f, vals, argtys, destty):
    return UNIT


# ------------------------------------------------------------------ intrinsics
@model('intrinsic:assert_inhabited', 'intrinsic:assert_zero_valid', 'intrinsic:assert_mem_uninitialized_valid',
       'intrinsic:assume', 'intrinsic:cold_path')
def m_unit(I, st, f, vals, argtys, destty):
    return UNIT


@model('intrinsic:ub_checks', 'intrinsic:overflow_checks', 'intrinsic:contract_checks')
def m_false(I, st, f, vals, argtys, destty):
    return 0


@model('intrinsic:likely', 'intrinsic:unlikely', 'intrinsic:black_box')
def m_ident(I, st, f, vals, argtys, destty):
    return vals[0]


def arith_model(op, ret_overflow=False):
    def m(I, st, f, vals, argtys, destty):
        s, b = I.ity(argtys[0])
        if ret_overflow:
            return I.cbin(st, op, vals[0], vals[1], argtys[0])
        return I.arith(st, op, vals[0], vals[1], s, b)
    return m


for n, op in (('wrapping_add', 'Add'), ('wrapping_sub', 'Sub'), ('wrapping_mul', 'Mul'), ('unchecked_add', 'Add'),
              ('unchecked_sub', 'Sub'), ('unchecked_mul', 'Mul'), ('unchecked_div', 'Div'), ('unchecked_rem', 'Rem'),
              ('exact_div', 'Div'), ('unchecked_shl', 'Shl'), ('unchecked_shr', 'Shr'), ('disjoint_bitor', 'BitOr')):
    MODELS['intrinsic:' + n] = arith_model(op)
for n, op in (('add_with_overflow', 'Add'), ('sub_with_overflow', 'Sub'), ('mul_with_overflow', 'Mul')):
    MODELS['intrinsic:' + n] = arith_model(op, True)


@model('intrinsic:discriminant_value')
def m_discr(I, st, f, vals, argtys, destty):
    t = I.pointee(argtys[0])
    v = I.load(st, vals[0])
    vs = I.p.types[t].get('v')
    return vs[v[1]]['d'] if vs else 0


@model('intrinsic:needs_drop')
def m_needs_drop(I, st, f, vals, argtys, destty):
    return 0


@model('intrinsic:size_of', 'std::mem::size_of')
def m_size_of(I, st, f, vals, argtys, destty):
    for a in f.args:
        if type(a) is int:
            return I.p.types[a].get('size') or 0
    raise Unsupported('size_of')


# ------------------------------------------------------------------ comparison of simple values
@model('std::cmp::impls::<impl std::cmp::PartialEq for usize>::eq')
def m_eq_(I, st, f, vals, argtys, destty):
    return int(I.eq(st, I.load(st, vals[0]), I.load(st, vals[1])))


# ------------------------------------------------------------------ characters
VALID = ((0, 0xD7FF), (0xE000, 0x10FFFF))


@model('std::char::convert::from_u32', 'core::char::convert::from_u32', 'std::char::methods::<impl char>::from_u32',
       'core::char::methods::<impl char>::from_u32', 'std::char::from_u32')
def char_from_u32(I, st, f, vals, argtys, destty):
    return some(vals[0]) if I.test(st, vals[0], VALID) else NONE


@model('std::char::convert::char_try_from_u32', 'core::char::convert::char_try_from_u32')
def char_try_from_u32(I, st, f, vals, argtys, destty):
    return ok(vals[0]) if I.test(st, vals[0], VALID) else err(('A', 0, (UNIT,)))


@model('std::hint::select_unpredictable', 'core::hint::select_unpredictable', 'intrinsic:select_unpredictable')
def select_unpredictable(I, st, f, vals, argtys, destty):
    return vals[1] if I.test(st, vals[0], ((1, 1),)) else vals[2]

