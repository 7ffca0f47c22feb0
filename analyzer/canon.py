"""Canonical forms of abstract states at loop heads: garbage collection, renaming, abstraction of terms
which nothing else depends on, subsumption against the states already seen, and widening."""
from terms import *

MANY_FACTS = 6
MANY_SHAPES = 40
LOS = [0, -(1 << 7), -(1 << 15), -(1 << 31), -(1 << 63), -(1 << 200)]
HIS = [1, 127, 255, (1 << 15) - 1, (1 << 16) - 1, 0x10ffff, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1, 1 << 200]


def term_vars(t, out):
    if type(t) is int:
        return
    k = t[0]
    if k == 'v':
        out.add(t)
    elif k == '+':
        for a, _ in t[2]:
            term_vars(a, out)
    else:
        for a in t[2]:
            any_vars(a, out)


def any_vars(v, out):
    if type(v) is tuple:
        if v and v[0] in ('v', '+', 'f') and is_term(v):
            term_vars(v, out)
        else:
            for x in v:
                any_vars(x, out)


def subst(t, m):
    """Substitutes atoms of a term."""
    if type(t) is int:
        return t
    k = t[0]
    if k == 'v':
        return m.get(t, t)
    if k == 'f':
        r = m.get(t)
        if r is not None:
            return r
        return ('f', t[1], tuple(subst_any(a, m) for a in t[2]))
    r = m.get(t)
    if r is not None:
        return r
    out = t[1]
    for a, c in t[2]:
        out = add(out, scale(subst(a, m), c))
    return out


def subst_any(v, m):
    if is_term(v):
        return subst(v, m)
    if type(v) is tuple:
        return tuple(subst_any(x, m) for x in v)
    return v


class Walk:
    """Visits the live part of a state in a fixed order."""

    def __init__(self, I, st):
        self.I = I
        self.st = st
        self.cells = {}
        self.order = []
        self.queue = []
        self.stackseen = {}

    def cell(self, c):
        if c[0] == 'h':
            n = self.cells.get(c)
            if n is None:
                n = ('h', len(self.cells))
                self.cells[c] = n
                self.queue.append(c)
            return n
        if c[0] == 'k' or c[0] == 'static':
            return c
        if c not in self.stackseen:
            self.stackseen[c] = 1
            self.queue.append(c)
        return c


def map_value(v, fcell, fterm):
    """Rebuilds a value with its cells and terms mapped."""
    if type(v) is int:
        return fterm(v)
    if type(v) is not tuple:
        if isinstance(v, tuple):
            return type(v)._make([map_value(x, fcell, fterm) for x in v])
        return v
    if not v:
        return v
    k = v[0]
    if k == 'A':
        fs = v[2]
        if not fs:
            return v
        return ('A', v[1], tuple([map_value(x, fcell, fterm) for x in fs]))
    if k == 'v' or k == '+' or k == 'f':
        return fterm(v)
    if k == 'p':
        m = v[3]
        if m is not None and m[0] == 's':
            m = ('s', fterm(m[1]), fterm(m[2]))
        return ('p', fcell(v[1]), v[2], m)
    if k == 'box':
        if len(v) > 2 and v[2] is not None:
            m = v[2]
            if m[0] == 's':
                m = ('s', fterm(m[1]), fterm(m[2]))
            return ('box', fcell(v[1]), m)
        return ('box', fcell(v[1])) + v[2:]
    if k == 'fn' or k == 'undef':
        return v
    if k == 'cell':
        return ('cell', fcell(v[1]))
    return tuple([map_value(x, fcell, fterm) if type(x) is int or isinstance(x, tuple) else x for x in v])


def live_cells(I, st):
    """The live locals of every frame."""
    out = []
    p = I.p
    for d in range(st.depth):
        fid, target, c, path = st.frames[d]
        if target is None or fid is None:
            continue
        f = p.fns[fid]
        p.prepare(f)
        # the caller of frames[d] runs at depth d
        skip = None
        if c is not None and not path and c[0] == d:
            skip = c[1]
        for l in f.live[target]:
            if l != skip:
                out.append((d, l))
    for l in st.fn.live[st.bb]:
        out.append((st.depth, l))
    return out


def canonical(I, st):
    """Rewrites the state into canonical form. Returns (skeleton, facts)."""
    w = Walk(I, st)
    mem = st.mem
    roots = [c for c in live_cells(I, st) if c in mem]
    mon = st.mon
    for fr in st.frames:
        pass
    # collect: visit the values in order, remembering the terms
    terms = []
    ap = terms.append

    def ft(t):
        if type(t) is not int:
            ap(t)
        return t
    seen = {}
    order = []

    def visit(c):
        if c in seen:
            return
        seen[c] = 1
        if c not in mem:
            return
        order.append(c)
        map_value(mem[c], w.cell, ft)
    for c in roots:
        visit(c)
    for fr in st.frames:
        if fr[2] is not None and fr[2][0] == 'h':
            w.cell(fr[2])
        elif fr[2] is not None and fr[3] and fr[2] in mem:
            visit(fr[2])
    map_value(mon, w.cell, ft)
    i = 0
    while i < len(w.queue):
        visit(w.queue[i])
        i += 1
    # constants: variables with one value
    facts = st.facts
    m = {}
    for v, r in facts.items():
        if v[0] == 'v' and len(r) == 1 and r[0][0] == r[0][1]:
            m[v] = r[0][0]
    if m:
        terms = [subst(t, m) for t in terms]
    # facts which speak about live variables only
    live = set()
    for t in terms:
        term_vars(t, live)
    nf = {}
    for f, r in facts.items():
        if f[0] == 'v':
            if f in live:
                nf[f] = r
            continue
        g = subst(f, m) if m else f
        if type(g) is int:
            continue
        vs = set()
        term_vars(g, vs)
        if not vs <= live:
            continue
        s, form, c = split(g)
        q = tuple((a - c, b - c) for a, b in r) if s == 1 else tuple((c - b, c - a) for a, b in reversed(r))
        if form in nf:
            q = rs_inter(q, nf[form]) or q
        nf[form] = q
    # abstraction: a form whose atoms occur nowhere else becomes a variable
    occ = {}       # var -> set of forms it occurs in
    offs = {}      # form -> list of (sign, offset) in order
    forms = []
    for t in terms:
        if type(t) is int:
            continue
        s, form, c = split(t)
        if form not in offs:
            offs[form] = []
            forms.append(form)
            vs = set()
            term_vars(form, vs)
            for v in vs:
                occ.setdefault(v, set()).add(form)
        offs[form].append((s, c))
    if I.mon.flat:
        # only what is known of the values which are left counts
        nf = {f: r for f, r in nf.items() if f[0] == 'v' or f in offs}
    for f in nf:
        if f[0] != 'v':
            vs = set()
            term_vars(f, vs)
            for v in vs:
                occ.setdefault(v, set()).add(f)
    sub_forms = {}
    n = 0
    ren = {}
    newfacts = {}
    tmp = st
    for form in forms:
        vs = set()
        term_vars(form, vs)
        if form[0] == 'v':
            closed = len(occ[form]) == 1
        else:
            # hash codes are compared by what was hashed
            closed = form[:2] != ('f', 'hash') and all(occ[v] == {form} for v in vs)
        if not closed:
            continue
        # replace s*form + c by s*(x - c0*s0) + c
        s0, c0 = offs[form][0]
        if form[0] == 'v':
            r = nf.get(form)
        else:
            old = tmp.facts
            tmp.facts = nf
            try:
                r = I.frs(tmp, form) if form[0] == '+' else I.rs(tmp, form)
            finally:
                tmp.facts = old
            if r[0][0] <= -(1 << 199) and r[-1][1] >= 1 << 199:
                r = None
        x = ('v', n)
        n += 1
        # first occurrence s0*form + c0 becomes the variable itself
        sub_forms[form] = (x, s0, c0)
        nf.pop(form, None)
        if r is not None:
            q = tuple((a + c0, b + c0) for a, b in r) if s0 == 1 else tuple((c0 - b, c0 - a) for a, b in reversed(r))
            newfacts[x] = q
    # the other variables, in order
    for t in terms:
        if type(t) is int:
            continue
        s, form, c = split(t)
        if form in sub_forms:
            continue
        vs = []
        collect(form, vs)
        for v in vs:
            if v not in ren:
                ren[v] = ('v', n)
                n += 1
    for f, r in nf.items():
        g = subst(f, ren)
        if type(g) is int:
            continue
        vs = set()
        term_vars(f, vs)
        if any(v not in ren for v in vs):
            continue
        if g[0] == 'v':
            newfacts[g] = r
        else:
            s, form, c = split(g)
            newfacts[form] = r if s == 1 else tuple((-b, -a) for a, b in reversed(r))

    cache = {}

    def fterm(t):
        if type(t) is int:
            return t
        x = cache.get(t)
        if x is None:
            u = subst(t, m) if m else t
            if type(u) is not int:
                s, form, c = split(u)
                y = sub_forms.get(form)
                if y is not None:
                    v, s0, c0 = y
                    # form = s0*(v - c0)
                    u = add(scale(sub(v, c0), s * s0), c)
                else:
                    u = subst(u, ren)
            cache[t] = u
            x = u
        return x

    def fcell(c):
        return w.cells.get(c, c)
    newmem = {}
    for c in order:
        newmem[fcell(c)] = map_value(mem[c], fcell, fterm)
    nmon = map_value(mon, fcell, fterm)
    frames = tuple((a, b, fcell(c) if c is not None else None, d) for a, b, c, d in st.frames)
    return newmem, nmon, frames, newfacts, n, len(w.cells)


def collect(t, out):
    if type(t) is int:
        return
    k = t[0]
    if k == 'v':
        out.append(t)
    elif k == '+':
        for a, _ in t[2]:
            collect(a, out)
    else:
        for a in t[2]:
            collect_any(a, out)


def collect_any(v, out):
    if type(v) is tuple:
        if is_term(v):
            collect(v, out)
        else:
            for x in v:
                collect_any(x, out)


def leaves(newmem, nmon):
    """The integer leaves of a state and its shape without them."""
    ls = []

    def ft(t):
        if type(t) is int and t not in (0, 1):
            ls.append(t)
            return '#'
        return t
    ident = lambda c: c
    shape = tuple([(c, map_value(v, ident, ft)) for c, v in newmem.items()])
    return ls, (shape, map_value(nmon, ident, ft))


def relation(vecs, i, others):
    """Another leaf j with leaf i = s * leaf j + c in all the vectors."""
    for j in others:
        for sg in (1, -1):
            cs = set(v[i] - sg * v[j] for v in vecs)
            if len(cs) == 1:
                return j, sg, cs.pop()
    return None


def widen_lo(x):
    for l in LOS:
        if x >= l:
            return l
    return x


def widen_hi(x):
    for h in HIS:
        if x <= h:
            return h
    return x


def merge(I, st):
    if I.mon.flat:
        I.mon.simplify(I, st)
    newmem, nmon, frames, facts, nv, nc = canonical(I, st)
    where = (st.fn.id, st.bb, st.depth, frames)
    I.stats['states'] += 1
    cnt = I.shapecount.get(where, 0)
    if cnt > I.mon.many_shapes:
        ls, shape = leaves(newmem, nmon)
        key = (where, hash(shape))
        sets = I.leafsets.get(key)
        if sets is None:
            sets = I.leafsets[key] = [set() for _ in ls]
        wide = set()
        vecs = I.leafvecs.setdefault(key, [])
        if len(vecs) < 4 * MANY_FACTS and ls not in vecs:
            vecs.append(ls)
        for i, x in enumerate(ls):
            s = sets[i]
            if s is None:
                wide.add(i)
            else:
                s.add(x)
                if len(s) > I.mon.many_values:
                    I.leafhull[(key, i)] = (min(s), max(s))
                    I.leafpts[(key, i)] = set(s)
                    sets[i] = None
                    # does it always keep the same distance from, or sum with, another one?
                    I.leafrel[(key, i)] = relation(vecs, i, [j for j in range(len(ls)) if sets[j] is None and j != i and
                                                             I.leafrel.get((key, j)) is None])
                    wide.add(i)
        if wide:
            fixed = {}

            def value(i):
                if i in fixed:
                    return fixed[i]
                t = ls[i]
                r = I.leafrel.get((key, i))
                if r is not None:
                    j, sg, c = r
                    if t == sg * ls[j] + c:
                        fixed[i] = add(scale(value(j), sg), c)
                        return fixed[i]
                    I.leafrel[(key, i)] = None
                lo, hi = I.leafhull[(key, i)]
                lo, hi = min(lo, t), max(hi, t)
                v = ('v', k[0])
                k[0] += 1
                pts = I.leafpts[(key, i)]
                if len(pts) <= I.mon.many_points:
                    pts.add(t)
                if len(pts) <= I.mon.many_points:
                    I.leafhull[(key, i)] = (lo, hi)
                    facts[v] = rs_norm(tuple((x, x) for x in sorted(pts)))
                else:
                    lo, hi = widen_lo(lo), widen_hi(hi)
                    I.leafhull[(key, i)] = (lo, hi)
                    facts[v] = ((lo, hi),)
                fixed[i] = v
                return v
            pos = [0]
            k = [nv]

            def ft(t):
                if type(t) is not int or t in (0, 1):
                    return t
                i = pos[0]
                pos[0] += 1
                return value(i) if i in wide else t
            ident = lambda c: c
            newmem = {c: map_value(v, ident, ft) for c, v in newmem.items()}
            nmon = map_value(nmon, ident, ft)
            nv = k[0]
            I.stats['widened'] = I.stats.get('widened', 0) + 1
    skel = (where, tuple(newmem.items()), nmon)
    lst = I.visited.get(skel)
    if lst is None:
        I.visited[skel] = [facts]
        I.shapecount[where] = cnt + 1
    else:
        for old in lst:
            ok = True
            for f, r in old.items():
                q = facts.get(f)
                if q is None:
                    if f[0] == 'v':
                        ok = False
                        break
                    # a relation: maybe implied
                    o = st.facts
                    st.facts = facts
                    try:
                        q = I.frs(st, f) if f[0] == '+' else I.rs(st, f)
                    except Exception:
                        q = ((-(1 << 200), 1 << 200),)
                    st.facts = o
                if q != r and not rs_subset(q, r):
                    ok = False
                    break
            if ok:
                return False
        if len(lst) >= I.mon.many_facts:
            # widening: the hull of what was seen, extended to a threshold where it still grows
            prev = lst[-1]
            out = {}
            for f, r in facts.items():
                q = prev.get(f)
                if q is None:
                    continue
                if rs_subset(r, q):
                    out[f] = q
                    continue
                u = rs_norm(r + q)
                if len(lst) < (12 if I.mon.flat else 60 if f[0] != 'v' else 400) and len(u) <= 24 and u[-1][1] <= 0x10ffff and u[0][0] >= 0:
                    out[f] = u
                    continue
                lo, hi = min(r[0][0], q[0][0]), max(r[-1][1], q[-1][1])
                if lo < q[0][0]:
                    lo = widen_lo(lo)
                if hi > q[-1][1]:
                    hi = widen_hi(hi)
                out[f] = ((lo, hi),)
            facts = out
            I.stats['widened'] = I.stats.get('widened', 0) + 1
        lst.append(facts)
    st.mem = newmem
    st.mon = nmon
    st.frames = frames
    st.facts = dict(facts)
    st.nv = nv
    st.nc = nc
    return True
