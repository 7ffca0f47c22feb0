#!/usr/bin/env python3
"""python3 analyzer/run.py PROPERTY: builds the MIR of the clients of that property against /repo's
current tree, analyses it, prints the verdict and writes the evidence file."""
import importlib, json, multiprocessing, os, shutil, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

CHECKS = {
    'C01': ['c01'],
    'C02': ['c02', 'c02s'],
    'C03': ['c03'],
    'C04': ['c04'],
    'C05': ['c05'],
    'C06': ['c06', 'c06t', 'c06u'],
    'C07': ['c07'],
    'C08': ['c08'],
    'C09': ['c09'],
    'C10': ['c10'],
    'C11': ['c11'],
    'C12': ['c12'],
    'C13': ['c13', 'c13s'],
    'C14': ['c14', 'c14s', 'c14j'],
    'C15': ['c15'],
    'C16': ['c16'],
    'C17': ['c17', 'c17u'],
    'C18': ['c18'],
    'C19': ['c19'],
    'C20': ['c20', 'c20s'],
    'C21': ['c21'],
    'C22': ['c22'],
    'C23': ['c23'],
}
REPO = os.environ.get('VERIF_REPO', '/repo')


def sh(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot'])[1].strip()


def build_driver(work, env):
    out = os.path.join(work, 'driver')
    rc, text = sh(['rustc', '+nightly', '--edition', '2021', '-O', os.path.join(VERIF, 'driver', 'driver.rs'),
                   '-o', out], env=env, cwd=work)
    if rc != 0 or not os.path.exists(out):
        raise SystemExit('the compiler driver does not build:\n' + text)
    return out


def dump(prop, features, work):
    """Compiles the clients (and with them /repo's crates) and returns the path of the MIR dump,
    or the compiler's output when they do not build."""
    env = dict(os.environ)
    env['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
    driver = build_driver(work, env)
    model = os.path.join(work, 'model')
    shutil.copytree(os.path.join(VERIF, 'model'), model, ignore=shutil.ignore_patterns('target'))
    out = os.path.join(work, 'dump.json')
    if REPO != '/repo':
        f = os.path.join(model, 'Cargo.toml')
        text = open(f).read().replace('/repo/', REPO + '/')
        open(f, 'w').write(text)
    env.update(RUSTC_WORKSPACE_WRAPPER=driver, VERIF_DUMP=out, VERIF_CRATE='model',
               VERIF_STOP=os.path.join(VERIF, 'model', 'stop.txt'), CARGO_INCREMENTAL='0',
               RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=on -Coverflow-checks=on',
               CARGO_TARGET_DIR=os.path.join(work, 'target'))
    cmd = ['cargo', '+nightly', 'check', '--offline', '--features', ','.join(features)]
    rc, text = sh(cmd, env=env, cwd=model)
    if rc != 0:
        # the crates may use some part of hashbrown which its specification (model/hashbrown) lacks
        f = os.path.join(model, 'Cargo.toml')
        toml = open(f).read().split('[patch.crates-io]')[0]
        open(f, 'w').write(toml)
        shutil.copy(os.path.join(VERIF, 'model', 'Cargo.lock.plain'), os.path.join(model, 'Cargo.lock'))
        rc, text = sh(cmd, env=env, cwd=model)
    if rc != 0 or not os.path.exists(out):
        return None, text
    return out, text


# ---------------------------------------------------------------------------------------- analysis
PROG = None


def analyse(job):
    modname, root, seconds, states = job
    from interp import Interp
    entry = root
    root, _, cls = root.partition(':')
    M = getattr(importlib.import_module(modname), cls or 'MONITOR')
    m = M()
    I = Interp(PROG, m, dict(states=states, seconds=seconds))
    t = time.time()
    if root not in PROG.roots:
        return dict(root=entry, module=modname, missing=True)
    crash = None
    try:
        I.start(root)
        I.run()
        if hasattr(m, 'finish'):
            m.finish(I)
    except Exception:
        crash = traceback.format_exc()
    seen = sorted(set((PROG.fns[i].name, PROG.fns[i].file, PROG.fns[i].line) for i in I.fns_seen
                      if PROG.fns[i].file.startswith(REPO) or PROG.fns[i].crate.startswith('serdere')))
    blocks = len(I.compiled)
    return dict(root=entry, module=modname, missing=False, stats=I.stats, violations=list(I.violations.values()),
                undecided=list(I.undecided.values()), exceeded=I.exceeded, count=m.count, crash=crash,
                seen=seen, blocks=blocks, assumed=[(a, b, n) for (a, b), n in I.assumed.items()],
                wall=time.time() - t)


def run_roots(jobs):
    if not jobs:
        return []
    if len(jobs) == 1:
        return [analyse(jobs[0])]
    n = min(len(jobs), os.cpu_count() or 4, 8)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(n, maxtasksperchild=1) as pool:
        return pool.map(analyse, jobs, chunksize=1)


def known_findings():
    """Lines `known: property=<id> key=<key> | <text>` and `fixed: ...` of known-findings.txt."""
    out = []
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for line in open(f):
            if line.startswith('known: '):
                head, text = line[len('known: '):].rstrip('\n').split(' | ', 1)
                pid, key = head.split(' key=', 1)
                out.append((pid.split('=')[1].strip(), key.strip(), text))
    return out


def main():
    global PROG
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = importlib.import_module(CHECKS[prop][0]).SPEC
    work = os.path.join(BUILD, '%s-%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    code = 1
    try:
        code = check(prop, tier, seed, t0, spec, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def replay_file(prop, n, v):
    d = os.path.join(BUILD, 'replay')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, '%s-%d.txt' % (prop, n))
    with open(f, 'w') as h:
        h.write('property  %s\nrule      %s\n' % (prop, v['msg']))
        h.write('entry     %s\nkey       %s\n' % (v.get('root'), v.get('key')))
        h.write('where\n')
        for name, file, line in v.get('where', []):
            h.write('    %s  (%s:%s)\n' % (name, file, line))
        h.write('path (calls and choices leading here)\n')
        for x in v.get('hist', []):
            h.write('    %s\n' % (x,))
    return f


def check(prop, tier, seed, t0, spec, work):
    global PROG
    features = spec['features']
    viols, results, text = [], [], ''
    path, text = dump(prop, features, work)
    if path is None:
        errs = [l for l in text.splitlines() if l.startswith('error')][:5]
        viols.append(dict(msg='the clients of this property no longer compile against the crates: ' + '; '.join(errs),
                          key='build', root='build', where=[], hist=text.splitlines()[-60:]))
    else:
        from prog import Prog
        PROG = Prog(path)
        for f in PROG.fns:
            f.model = None
        jobs = []
        for modname in CHECKS[prop]:
            mod = importlib.import_module(modname)
            if hasattr(mod, 'static'):
                results.append(mod.static(PROG, tier, prop))
            if hasattr(mod, 'MONITOR') or hasattr(mod, 'jobs'):
                roots = mod.jobs(tier, PROG) if hasattr(mod, 'jobs') else mod.MONITOR.roots
                budget = spec.get('seconds', {}).get(tier, 300 if tier == 'quick' else 700)
                jobs += [(modname, r, budget, spec.get('states', 2000000)) for r in roots]
        results += run_roots(jobs)
        for r in results:
            if r.get('missing'):
                viols.append(dict(msg='entry point %s is missing' % r['root'], key='missing:' + r['root'],
                                  root=r['root'], where=[], hist=[]))
            else:
                viols += r['violations']
    known = [k for k in known_findings() if k[0] == prop]
    total, stats, undecided, seen, assumed = {}, {}, [], set(), {}
    blocks = 0
    for r in results:
        if r.get('missing'):
            continue
        for k, n in r['count'].items():
            total[k] = total.get(k, 0) + n
        for k, n in r.get('stats', {}).items():
            stats[k] = stats.get(k, 0) + n
        for u in r.get('undecided', []):
            undecided.append(u)
        if r.get('exceeded'):
            undecided.append(dict(reason=r['exceeded'], root=r['root'], where=[], hist=[]))
        if r.get('crash'):
            undecided.append(dict(reason='internal: ' + r['crash'][-2000:], root=r['root'], where=[], hist=[]))
        seen |= set(tuple(x) for x in r.get('seen', []))
        blocks += r.get('blocks', 0)
        for a, b, n in r.get('assumed', []):
            assumed[(a, b)] = assumed.get((a, b), 0) + n
    for modname in CHECKS[prop]:
        if path is not None and hasattr(sys.modules.get(modname), 'after'):
            undecided += sys.modules[modname].after(results)
    # floors: a rule which matched far less than it did on the tree it was written for proves nothing
    if path is not None:
        for rule, n in spec.get('floors', {}).items():
            if total.get(rule, 0) < n:
                what = 'rule "%s" was applied %d times, at least %d expected' % (rule, total.get(rule, 0), n)
                if undecided:
                    undecided.append(dict(reason=what, root='floors', where=[], hist=[]))
                else:
                    viols.append(dict(msg=what, key='floor:' + rule, root='floors', where=[], hist=[]))
    seen_keys, fresh, shown = set(), [], []
    for v in viols:
        k = [x for x in known if x[1] == v['key']]
        if k:
            if k[0] not in shown:
                shown.append(k[0])
        elif v['key'] not in seen_keys:
            seen_keys.add(v['key'])
            fresh.append(v)
    for pid, key, what in shown:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    for u in undecided[:20]:
        w = u['where'][0] if u['where'] else ('', '', '')
        print('UNDECIDED property=%s root=%s %s at %s (%s:%s)' % (prop, u['root'], u['reason'], w[0], w[1], w[2]))
    for n, v in enumerate(fresh):
        f = replay_file(prop, n, v)
        w = v['where'][0] if v['where'] else ('', '', '')
        if n < 20:
            print('%s: %s [entry %s, in %s, %s:%s]' % (prop, v['msg'], v['root'], w[0], w[1], w[2]))
            print('VIOLATION property=%s replay=%s' % (prop, f))
    ev = dict(property=prop, tier=tier, seed=seed, level=spec['level'], wall_s=round(time.time() - t0, 2),
              violations=len(fresh), assumptions=spec.get('assumptions', []),
              coverage=dict(explanation=spec['explanation'],
                            rules_applied=total, entry_points=[r['root'] for r in results if not r.get('missing')],
                            fixpoint_reached=not undecided, basic_blocks_interpreted=blocks,
                            abstract_states=stats.get('states', 0), subsumed_states=stats.get('merged', 0),
                            paths_ended=stats.get('paths', 0), panics_reached=stats.get('panics', 0),
                            repo_functions_analysed=len(seen),
                            functions=['%s (%s:%s)' % x for x in sorted(seen)][:400],
                            undecided=[u['reason'][:300] + ' in ' + str(u['root']) for u in undecided[:40]],
                            known_findings=[k[2] for k in shown],
                            overflow_assumed_absent=['%s: %s' % k for k in sorted(assumed)]))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as h:
        json.dump(ev, h, indent=1)
    print('%s: %d entry points, %d functions of the repository, %d abstract states, %d violations, %d undecided, %.1f s'
          % (prop, len(results), len(seen), stats.get('states', 0), len(fresh), len(undecided), time.time() - t0))
    return 1 if fresh else 0


if __name__ == '__main__':
    main()
