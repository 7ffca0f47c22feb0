"""C07: the depth of the call stack does not depend on the input."""
import time
from textc import *
from interp import Violation

CYCLES = []


def edges(p):
    """Who may call whom, destructors included."""
    g = {}
    for f in p.fns:
        out = g.setdefault(f.id, {})
        if not f.body:
            continue
        for stmts, term in f.bbs:
            line = term[0] if type(term[0]) is int else f.line
            t = term[2]
            n = t[1] if t[0] == 'call' else t[3] if t[0] == 'drop' else None
            if type(n) is int:
                out.setdefault(n, line)
            for x in stmts:
                s = x[1]
                if s[0] == '=' and s[3][0] == 'cast' and 'PointerCoercion' in str(s[3][1]):
                    for n in reified(p, s[3]):
                        out.setdefault(n, line)
    return g


def reified(p, rv):
    if 'ReifyFn' not in rv[1] and 'Closure' not in rv[1]:
        return []
    t = p.types[rv[3]]
    n = t['f'] if t['k'] == 'fndef' else t.get('call') if t['k'] == 'closure' else None
    return [n] if type(n) is int else []


def components(g):
    """The strongly connected components which contain a cycle (Tarjan, without recursion)."""
    index, low, on, stack, out = {}, {}, set(), [], []
    for root in g:
        if root in index:
            continue
        work = [(root, iter(g[root]))]
        index[root] = low[root] = len(index)
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(g.get(w, ()))))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in g[v]:
                        out.append(c)
    return out


def mine(f):
    return f.crate.startswith('serdere')


def glue(p, f):
    """Is this the destructor of a type of the repository?"""
    return f.kind == 'shim' and 'serdere' in f.name


def static(prog, tier, prop):
    t0 = time.time()
    g = edges(prog)
    del CYCLES[:]
    viols, seen = [], []
    for c in components(g):
        fs = [prog.fns[i] for i in c]
        own = [f for f in fs if mine(f)]
        if not own and any(glue(prog, f) for f in fs):
            f = [f for f in fs if glue(prog, f)][0]
            viols.append(dict(msg='the destructor %s calls itself' % f.name, key='drop:' + f.name, root='call graph',
                              where=[(f.name, f.file, f.line)], hist=[x.name for x in fs]))
        elif own:
            CYCLES.append([f.name for f in own])
    for f in prog.fns:
        if mine(f):
            seen.append((f.name, f.file, f.line))
    unresolved = sum(1 for f in prog.fns if f.body for _, t in f.bbs if t[2][0] == 'call' and type(t[2][1]) is list)
    return dict(root='call graph', module='c07', missing=False, stats={}, violations=viols, exceeded=None,
                undecided=[dict(reason='may call itself: ' + ', '.join(sorted(c)), root='call graph', where=[], hist=[])
                           for c in CYCLES],
                count={'functions in the call graph': len(prog.fns), 'calls and drops': sum(len(x) for x in g.values()),
                       'functions of the repository': len(seen), 'cycles': len(CYCLES),
                       'calls through pointers': unresolved},
                crash=None, seen=sorted(set(seen)), blocks=0, assumed=[], wall=time.time() - t0)


class Stack:
    """No function stands on the call stack three times."""
    counts = ()

    def env_ask(self, I, st, f, vals, argtys, destty):
        seen = {}
        for x in st.frames + ((st.fn.id,),):
            n = seen[x[0]] = seen.get(x[0], 0) + 1
            if n == 3 and mine(I.p.fns[x[0]]) and len(st.mon.doc) > 2:
                fn = I.p.fns[x[0]].name
                self.hist(I, st, '%s is on the call stack three times' % fn)
                raise Violation('%s calls itself once for each level of nesting' % fn, 'recursion: ' + fn)
        return super().env_ask(I, st, f, vals, argtys, destty)


class DeepSkip(Stack, Skip):
    comments = (0,)
    MAXNEST = 4
    leaves = 't[{'
    nochars = ((0, 96), (98, 0x10ffff))


class DeepLook(Stack, LookPast5):
    pass


class DeepRead(Stack, LookDeep):
    pass


def jobs(tier, prog):
    return ['r_w_walk:DeepSkip', 'r_w_look:DeepLook', 'r_w_look:DeepRead'] if CYCLES else []


SPEC = dict(
    features=['entry', 'stdj', 'c09', 'c10'], level='other',
    technique='call-graph analysis: strongly connected components of the monomorphised call graph (destructors '
    'included) of everything reachable from the deserializer, the standard implementations, the wrappers and the built-in types',
    note='No cycle in the call graph means that the depth of the stack is bounded by a constant, for every input. '
    'Target types are those of the clients, none of which is recursive. Should there be a cycle, the abstract '
    'interpretation of reading and skipping decides whether it is entered once for each level of nesting.',
    explanation='Nodes are the functions rustc instantiates for the clients of C04-C10 and C15 (all public methods '
    'of the deserializer and the entry points), edges are calls, destructors and functions turned into pointers. A '
    'cycle through a function of the repository which is on the call stack three times in an abstract state at '
    'nesting three is reported with the path; so is a destructor of a type of the repository which calls itself.',
    assumptions=['functions of the standard library called through a vtable or without MIR do not call back into '
                 'the deserializer'],
    floors={'functions in the call graph': 500, 'calls and drops': 1200, 'functions of the repository': 60})
