"""Numeric terms of the abstract domain: concrete integers, variables, linear forms over atoms, and
uninterpreted function applications; plus sets of integer ranges."""

# A term is an int, an atom, or ('+', c, ((atom, coef), ...)) in normal form.
# An atom is ('v', id) or ('f', op, args).


def is_term(x):
    return type(x) is int or (type(x) is tuple and len(x) > 0 and x[0] in ('v', '+', 'f'))


def lin(x):
    """Returns (c, dict atom->coef)."""
    if type(x) is int:
        return x, {}
    if x[0] == '+':
        return x[1], dict(x[2])
    return 0, {x: 1}


def mk(c, d):
    items = [(a, k) for a, k in d.items() if k != 0]
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=repr)
    return ('+', c, tuple(items))


def add(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    ca, da = lin(a)
    cb, db = lin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + v
    return mk(ca + cb, da)


def scale(a, k):
    if type(a) is int:
        return a * k
    if k == 0:
        return 0
    c, d = lin(a)
    return mk(c * k, {x: v * k for x, v in d.items()})


def sub(a, b):
    if type(a) is int and type(b) is int:
        return a - b
    return add(a, scale(b, -1))


def fn(op, *args):
    return ('f', op, args)


def split(t):
    """Splits a non-constant term into (sign, form, offset) with t = sign*form + offset, where form
    has no constant and a positive first coefficient."""
    c, d = lin(t)
    f = mk(0, d)
    if f[0] == '+':
        if f[2][0][1] < 0:
            return -1, mk(0, {a: -k for a, k in d.items()}), c
    return 1, f, c


# Range sets: sorted tuples of disjoint (lo, hi).

def rs_inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def rs_norm(rs):
    out = []
    for lo, hi in sorted(rs):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def rs_minus(a, b):
    out = []
    for lo, hi in a:
        cur = lo
        for l2, h2 in b:
            if h2 < cur or l2 > hi:
                continue
            if l2 > cur:
                out.append((cur, l2 - 1))
            cur = max(cur, h2 + 1)
        if cur <= hi:
            out.append((cur, hi))
    return tuple(out)


def rs_subset(a, b):
    return not rs_minus(a, b)


CHARS = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def one_var(t, seen=None):
    """The only variable a term depends on: the variable, None (no variable) or False (several)."""
    if type(t) is int:
        return seen
    if t[0] == 'v':
        return t if seen in (None, t) else False
    for a in (t[2] if t[0] == 'f' else [x for x, _ in t[2]]):
        if not is_term(a):
            return False
        seen = one_var(a, seen)
        if seen is False:
            return False
    return seen


def points(xs):
    """The range set of some increasing numbers."""
    out = []
    for x in xs:
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return tuple((a, b) for a, b in out)


def evaluate(t, v, x):
    """The value of a term when its only variable `v` is `x`; None if unknown."""
    if type(t) is int:
        return t
    if t == v:
        return x
    if t[0] == '+':
        n = t[1]
        for a, k in t[2]:
            y = evaluate(a, v, x)
            if y is None:
                return None
            n += k * y
        return n
    if t[0] != 'f':
        return None
    args = [evaluate(a, v, x) for a in t[2]]
    if None in args:
        return None
    op = t[1]
    if min(args) < 0:
        return None
    if op == 'div':
        return args[0] // args[1] if args[1] else None
    if op == 'rem':
        return args[0] % args[1] if args[1] else None
    if op == 'shr':
        return args[0] >> args[1]
    if op == 'mul':
        return args[0] * args[1]
    if op == 'and':
        r = args[0]
        for a in args[1:]:
            r &= a
        return r
    if op == 'or':
        r = args[0]
        for a in args[1:]:
            r |= a
        return r
    if op == 'xor':
        r = args[0]
        for a in args[1:]:
            r ^= a
        return r
    if op == 'utf8len':
        return 1 if args[0] < 0x80 else 2 if args[0] < 0x800 else 3 if args[0] < 0x10000 else 4
    return None


def normal(t):
    """Rewrites remainders to quotients and nested quotients to single ones, so that equal terms coincide."""
    if type(t) is int or t[0] == 'v':
        return t
    if t[0] == '+':
        r = t[1]
        for a, k in t[2]:
            r = add(r, scale(normal(a), k))
        return r
    op, args = t[1], t[2]
    if op in ('rem', 'div', 'shr') and is_term(args[0]) and type(args[1]) is int and args[1] > 0:
        x, d = normal(args[0]), args[1]
        if op == 'shr':
            d = 1 << d
        if op == 'rem':
            return sub(x, scale(quotient(x, d), d))
        return quotient(x, d)
    return t


def quotient(x, d):
    if type(x) is int:
        return x // d
    if x[0] == 'f' and x[1] == 'div' and type(x[2][1]) is int:
        return ('f', 'div', (x[2][0], x[2][1] * d))
    return ('f', 'div', (x, d))
