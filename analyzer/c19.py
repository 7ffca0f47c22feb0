"""C19: what is done without the compiler's checks is done to data for which it is right."""
import os
import time
from textc import *
from interp import Violation, Unsupported
import coll
import models

TEXT = ('from_utf8_unchecked', 'from_utf8_unchecked_mut', 'as_mut_vec', 'as_bytes_mut', 'from_u32_unchecked')
SITES = {}


def mine(f):
    return f.crate.startswith('serdere')


# ------------------------------------------------------------------ the places
def pointee(p, t):
    x = p.types[t]
    return x.get('e') if x['k'] in ('ref', 'ptr') else None


def plain(p, t):
    """Is every pattern of bits a value of this type?"""
    x = p.types[t]
    if x['k'] in ('int', 'float'):
        return True
    return x['k'] == 'array' and plain(p, x['e'])


def fields(p, t):
    x = p.types[t]
    return [f[1] for v in x['v'] for f in v['f']] if x['k'] == 'adt' and x['a'] == 'struct' else None


def wraps(p, outer, inner):
    """Is `outer` a transparent wrapper of `inner`?"""
    seen = 0
    while outer != inner:
        x = p.types[outer]
        if x['k'] != 'adt' or x['a'] != 'struct' or not x.get('tr') or seen > 8:
            return False
        fs = [f for f in fields(p, outer) if p.types[f].get('size') != 0]
        if len(fs) != 1:
            return False
        outer, seen = fs[0], seen + 1
    return True


def sound(p, a, b):
    """May a value of type `a` be taken for one of type `b`?"""
    if a == b or wraps(p, a, b) or wraps(p, b, a):
        return True
    x, y = p.types[a], p.types[b]
    if x['k'] in ('ref', 'ptr') and y['k'] in ('ref', 'ptr'):
        e, f = x['e'], y['e']
        return e == f or wraps(p, e, f) or wraps(p, f, e) or same_layout(p, e, f)
    if plain(p, a) and plain(p, b):
        return x.get('size') == y.get('size')
    return x['k'] == 'ptr' and y['k'] == 'int'


def same_layout(p, a, b):
    x, y = p.types[a], p.types[b]
    if x['k'] == 'slice' and y['k'] == 'slice':
        return x['e'] == y['e'] or wraps(p, x['e'], y['e']) or wraps(p, y['e'], x['e'])
    return plain(p, a) and plain(p, b) and (x.get('size') or 0) >= (y.get('size') or 1 << 60)


def origins(p, f):
    """Where the pointers in the locals of a function come from: local -> list of (line, how, from, to)."""
    out = {}
    for stmts, term in f.bbs:
        for line, s in stmts:
            if s[0] != '=' or s[1][1]:
                continue
            rv = s[3]
            if rv[0] == 'cast':
                out.setdefault(s[1][0], []).append((line, 'cast', rv[3], rv[4], rv[2]))
            elif rv[0] == 'use':
                out.setdefault(s[1][0], []).append((line, 'use', None, None, rv[1]))
            elif rv[0] == 'ref':
                out.setdefault(s[1][0], []).append((line, 'ref', None, None, None))
            else:
                out.setdefault(s[1][0], []).append((line, '?', None, None, None))
        t = term[2]
        if t[0] == 'call' and not t[3][1]:
            out.setdefault(t[3][0], []).append((term[0], 'call', None, None, None))
    return out


def trace(p, f, o, local, depth=0):
    """Judges where a pointer which is followed comes from: None when it is sound, or the reason."""
    if depth > 12:
        return 'unknown'
    if local not in o:
        return None if p.types[f.locals[local]]['k'] == 'ref' else 'unknown'
    for line, how, a, b, op in o[local]:
        if how == 'cast':
            if boxed(p, a):
                continue
            if not sound(p, a, b):
                return 'line %s takes %s for %s' % (line, p.types[a]['disp'], p.types[b]['disp'])
        if how in ('cast', 'use'):
            if op[0] in ('c', 'm') and not op[1][1]:
                r = trace(p, f, o, op[1][0], depth + 1)
                if r:
                    return r
            elif p.types[f.locals[local]]['k'] == 'ptr' and how == 'use':
                return 'unknown'
        elif how in ('call', '?'):
            return 'unknown'
    return None


def boxed(p, t):
    """Is this the pointer inside a box? The compiler follows it as such."""
    x = p.types[t]
    return x['k'] == 'adt' and x['crate'] in ('alloc', 'core', 'std') and \
        x['n'].rsplit('::', 1)[-1] in ('NonNull', 'Unique', 'BoxRaw', 'Box')


def places(x):
    if type(x) is list:
        if len(x) == 2 and type(x[0]) is int and type(x[1]) is list and x[1][:1] == ['*']:
            yield x
        for y in x:
            yield from places(y)


def static(p, tier, prop):
    t0 = time.time()
    SITES.clear()
    viols, und, count, seen = {}, [], {}, set()

    def tick(k):
        count[k] = count.get(k, 0) + 1

    def bad(f, line, msg):
        key = '%s: %s' % (os.path.basename(f.file), msg)
        viols.setdefault(key, dict(msg=msg, key=key, root='unsafe operations', where=[(f.name, f.file, line)], hist=[]))

    def unknown(f, line, msg):
        und.append(dict(reason=msg, root='unsafe operations', where=[(f.name, f.file, line)], hist=[]))
    for f in p.fns:
        if not mine(f) or not f.body:
            continue
        tick('functions searched for unsafe operations')
        seen.add((f.name, f.file, f.line))
        o = None
        for stmts, term in f.bbs:
            t = term[2]
            if t[0] == 'call' and type(t[1]) is int and p.fns[t[1]].unsafe:
                g = p.fns[t[1]]
                n = g.defn.rsplit('::', 1)[1]
                tick('unsafe operations')
                if n in TEXT:
                    SITES[(f.file, term[0], n)] = False
                elif n == 'transmute':
                    a, b = t[6][0], t[5]
                    if not sound(p, a, b):
                        bad(f, term[0], '%s is taken for %s' % (p.types[a]['disp'], p.types[b]['disp']))
                elif not (mine(g) and g.body):
                    unknown(f, term[0], 'an unsafe function: ' + g.defn)
            if t[0] == 'unk':
                unknown(f, term[0], 'assembly')
            for line, s in stmts:
                if s[0] == '=' and s[3][0] == 'cast' and s[3][1] == 'Transmute':
                    a, b = s[3][3], s[3][4]
                    if boxed(p, a) and p.types[b]['k'] == 'ptr':
                        continue
                    tick('reinterpretations')
                    if not sound(p, a, b):
                        bad(f, line, '%s is taken for %s' % (p.types[a]['disp'], p.types[b]['disp']))
                for pl in places(s):
                    if p.types[f.locals[pl[0]]]['k'] != 'ptr':
                        continue
                    tick('pointers followed')
                    if o is None:
                        o = origins(p, f)
                    r = trace(p, f, o, pl[0])
                    if r == 'unknown':
                        unknown(f, line, 'a raw pointer of unknown origin is followed')
                    elif r:
                        bad(f, line, r)
    count['texts taken without a check'] = len(SITES)
    return dict(root='unsafe operations', module='c19', missing=False, stats={}, violations=list(viols.values()),
                undecided=und, exceeded=None, count=count, crash=None, seen=sorted(seen), blocks=0, assumed=[],
                wall=time.time() - t0)


def after(results):
    """Every place where bytes are taken for text has to have been reached by the interpretation."""
    out = []
    for f, line, n in SITES:
        k = 'text taken at %s:%s' % (os.path.basename(f), line)
        if not any(k in r['count'] for r in results):
            out.append(dict(reason='%s is not reached' % n, root='unsafe operations', where=[('', f, line)], hist=[]))
    return out


# ------------------------------------------------------------------ the bytes
class Bytes:
    """Bytes which are taken for text without a check are checked here."""
    counts = ('utf8',)

    def intercept(self, f):
        n = f.defn.rsplit('::', 1)[-1]
        if n in TEXT and not mine(f):
            return self.taken
        return super().intercept(f)

    def taken(self, I, st, f, vals, argtys, destty):
        n = f.defn.rsplit('::', 1)[-1]
        own = mine(st.fn)
        if own:
            self.tick('text taken at %s:%s' % (os.path.basename(st.fn.file), st.fn.bbs[st.bb][1][0]))
        if n == 'from_u32_unchecked':
            if not I.test(st, vals[0], CHARS):
                self.wrong(I, st, 'a number which is not a character is taken for one')
            return vals[0]
        v = vals[0]
        if n.startswith('from_utf8') and own:
            r = coll.content(I, st, v) if v[0] == 'A' else v[1] if v[0] == 'vec' else coll.slice_rope(I, st, v)
            self.valid(I, st, r)
        elif own:
            raise Unsupported('the bytes of a string are written')
        m = models.MODELS.get(f.defn)
        if m is None:
            raise Unsupported(f.defn)
        return m(I, st, f, vals, argtys, destty)

    def wrong(self, I, st, msg):
        self.hist(I, st, msg)
        raise Violation(msg, '%s: %s' % (self.root, msg))

    def valid(self, I, st, r):
        if r[0] == 'A':
            r = ('rope', tuple(('n', x) for x in r[2]))
        self.tick('texts checked')
        open_ = b''
        for c in r[1]:
            if c[0] == 'n' and type(c[1]) is int:
                c = ('b', bytes([c[1]]))
            if c[0] == 'b':
                open_ += c[1]
                continue
            self.closed(I, st, open_)
            open_ = b''
            if c[0] == 'n':
                if I.test(st, c[1], ((128, 255),)):
                    self.wrong(I, st, 'bytes which are not UTF-8 are taken for text')
            elif c[0] not in ('ch', 'num', 'blob'):
                raise Unsupported('bytes of %s' % c[0])
        self.closed(I, st, open_)

    def closed(self, I, st, b):
        try:
            b.decode()
        except UnicodeDecodeError:
            self.wrong(I, st, 'bytes which are not UTF-8 are taken for text')

    def bad(self, st, msg, aspect='text'):
        if msg == 'the bytes of a string are not UTF-8':
            raise Violation(msg, '%s: %s' % (self.root, msg))
        return super().bad(st, msg, aspect)


class LookBytes(Bytes, LookStrings):
    """Strings and keys which were passed over, character by character."""
    MAXCHARS = 2
    many_shapes, many_values, many_facts = 400, 60, 100
    nochars = ((0, 33), (35, 96), (98, 0x2602), (0x2604, 0x10ffff))
    streamed = ('read_str',)
    kept = ('open_str', 'read_str')
    strings = ('next_char', 'flush_str', 'skip_str')


class LookEscapes(Bytes, LookStrings):
    """One character each, which may have been escaped."""


class LookFloats(Bytes, LookFew):
    kept = ('get_f32', 'get_f64')


class Floats(Bytes, FormsSkip):
    """The digits of numbers which are read as floating-point numbers."""
    types = ('get_f64',)


class Floats32(Floats):
    types = ('skip_value',)


def jobs(tier, prog):
    return ['r_w_look:LookBytes', 'r_w_look:LookEscapes', 'r_w_look:LookFloats', 'r_w_number:Floats', 'r_w_number:Floats32']


SPEC = dict(
    features=['text', 'names', 'ser', 'utf8', 'stdj', 'entry'], level='other',
    technique='inventory of the unsafe operations in the MIR of the crates with a rule on layouts for each, and abstract '
    'interpretation up to each place where bytes are taken for text, deciding from their provenance that they are UTF-8',
    note='All functions instantiated by the clients of the deserializer, serializer, readers, writers and name tables. '
    'Strings passed over have up to two characters (of all there are), numbers passed over up to two digits, numbers in '
    'the text any length.',
    explanation='Calls of unsafe functions, transmutes, raw pointers which are followed and assembly are looked for in '
    'every function of the repository. A reinterpretation must be between a type and its repr(transparent) wrapper, '
    'plain numbers, or slices of these. For from_utf8_unchecked the abstract value of the bytes (which says what was '
    'written there: whole characters, digits, literal text) must be text, in each state in which the call is reached.',
    assumptions=['itoa writes ASCII', 'the standard library is sound'],
    floors={'functions searched for unsafe operations': 100, 'texts checked': 200})
