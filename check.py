#!/usr/bin/env python3
"""Builds the simulation from /repo's working tree and decides one property by seeded search.
usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--time SECONDS]
       check.py --replay FILE        replays a violation
       check.py --determinism PROPERTY [N]   runs every seed twice and compares the event hashes
       check.py --setup              prepares the simulator objects
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', V + '/build')
sys.path.insert(0, V)
from props import PROPS, FEATURES, COMPONENTS
CXX = 'g++'
COMMON = ['-g1', '-DNDEBUG', '-march=x86-64-v2', '-ffast-math', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-w', '-pthread']
REPOFLAGS = ['-std=c++11', '-O2', '-DROUTINGKIT_SIM', '-I' + REPO + '/include', '-I' + REPO + '/src']
INST = {'t': ['-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0'], 'a': ['-fsanitize=address', '-fno-omit-frame-pointer']}
# the configuration doc/Setup.md describes for other compilers and operating systems
FALLBACK = ['-DROUTING_KIT_NO_GCC_EXTENSIONS', '-DROUTING_KIT_NO_POSIX', '-DROUTING_KIT_NO_ALIGNED_ALLOC', '-DROUTING_KIT_ASSUME_LITTLE_ENDIAN']
INST['f'] = INST['t'] + FALLBACK
SIMSRC = {'t': ['core', 'tsan', 'gomp', 'mem', 'io', 'main'], 'a': ['core', 'gomp', 'nomem', 'io', 'main']}
SIMSRC['f'] = SIMSRC['t']

class BuildError(Exception): pass

def text(p):
    return open(p, 'rb').read()

def tree_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(REPO + '/include/**/*.h', recursive=True) + glob.glob(REPO + '/src/*.h')):
        h.update(p.encode()); h.update(text(p))
    return h.hexdigest()

def simhdr_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(V + '/sim/*.h') + glob.glob(V + '/scen/*.h')):
        h.update(text(p))
    return h.hexdigest()

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])

def compile_one(src, out, flags, extra_key):
    key = hashlib.sha256((' '.join(flags) + extra_key).encode() + text(src)).hexdigest()
    try:
        if os.path.exists(out) and open(out + '.key').read() == key:
            return out
    except OSError:
        pass
    run([CXX, '-c', src, '-o', out] + flags)
    with open(out + '.key', 'w') as f: f.write(key)
    return out

def strip_comments(s):
    return re.sub(r'//[^\n]*|/\*.*?\*/', ' ', s, flags=re.S)

def repo_sources():
    lib, mains = [], []
    for p in sorted(glob.glob(REPO + '/src/*.cpp')):
        s = strip_comments(open(p, errors='replace').read())
        (mains if re.search(r'\bint\s+main\s*\(', s) else lib).append(p)
    return lib, mains

def omp(p):
    return ['-fopenmp'] if re.search(r'#\s*pragma\s+omp|omp\.h', open(p, errors='replace').read()) else []

def build(kind, scens, tools=()):
    """returns path of the simulator binary for build kind 't', 'a' or 'f' with the given scenario files"""
    d = B + '/' + kind
    os.makedirs(d, exist_ok=True)
    lib, mains = repo_sources()
    th, sh = tree_hash(), simhdr_hash()
    jobs = []
    for p in lib:
        jobs.append((p, d + '/repo_' + os.path.basename(p)[:-4] + '.o', COMMON + REPOFLAGS + INST[kind] + omp(p), th))
    nlib = len(jobs)
    for s in scens:
        jobs.append((V + '/scen/' + s + '.cpp', d + '/scen_' + s + '.o', COMMON + ['-std=c++17', '-O1', '-DROUTINGKIT_SIM', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + V + '/sim'] + (['-DSIM_ASAN'] + INST['a'] if kind == 'a' else FALLBACK if kind == 'f' else []), th + sh))
    nsc = len(jobs)
    for s in SIMSRC[kind]:
        jobs.append((V + '/sim/' + s + '.cpp', d + '/sim_' + s + '.o', COMMON + ['-std=c++17', '-O2'] + (['-DSIM_ASAN'] if kind == 'a' else ['-DSIM_FALLBACK'] if kind == 'f' else []), sh))
    for t in tools:
        p = REPO + '/src/' + t + '.cpp'
        if p in mains:
            jobs.append((p, d + '/tool_' + t + '.o', COMMON + REPOFLAGS + INST[kind] + omp(p) + ['-fPIC'], th))
    order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][0]))
    objs = [None] * len(jobs)
    with cf.ThreadPoolExecutor(8) as ex:
        for i, r in zip(order, ex.map(lambda i: compile_one(*jobs[i]), order)):
            objs[i] = r
    link = ['-pthread', '-lz', '-ldl', '-lgomp'] + (['-fsanitize=address'] if kind == 'a' else [])
    libobjs = objs[:nlib]
    simobjs = objs[nsc:nsc + len(SIMSRC[kind])]
    key = hashlib.sha256(''.join(open(o + '.key').read() for o in objs).encode()).hexdigest()[:16]
    exe = d + '/sim_' + '_'.join(scens)[:60]
    stamp = exe + '.key'
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
        jobs2 = [[CXX, '-rdynamic', '-o', exe] + libobjs + objs[nlib:nsc] + simobjs + link]
        for t in tools:
            to = d + '/tool_' + t + '.o'
            if to in objs:
                jobs2.append([CXX, '-shared', '-o', d + '/tool_' + t + '.so', to] + (['-fsanitize=address'] if kind == 'a' else []))
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs2))
        open(stamp, 'w').write(key)
    return exe

def known_findings():
    out = []
    p = V + '/KNOWN_FINDINGS.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) (.*)', l)
            if m: out.append((m.group(1), m.group(2)))
    return out

def main():
    a = sys.argv[1:]
    t0 = time.time()
    if a and a[0] == '--setup':
        for k in 'taf':
            try: build(k, [])
            except BuildError as e:
                if k != 'f': raise
                print('the fallback configuration does not compile: %s' % str(e)[:500])
        print('setup done in %.1f s' % (time.time() - t0)); return 0
    if a and a[0] == '--replay':
        rd = dict(l.rstrip('\n').split(' ', 1) for l in open(a[1]) if ' ' in l and not l.startswith('#'))
        p = PROPS[rd['property']]
        exe = build(rd['build'], p['files'], p.get('tools', ()))
        env = dict(os.environ, SIM_TOOLDIR=B + '/' + rd['build'])
        r = subprocess.run([exe, '--replay', os.path.abspath(a[1])], env=env)
        return r.returncode
    det = 0
    if a and a[0] == '--determinism':
        det = int(a[2]) if len(a) > 2 else 300
        a = [a[1]]
    prop = a[0]
    opt = dict(zip(a[1::2], a[2::2]))
    tier = opt.get('--tier') or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(opt.get('--seed') or os.environ.get('VERIF_SEED') or 1)
    P = PROPS[prop]
    total = float(opt.get('--time') or (P.get('quick_s', 50) if tier == 'quick' else P.get('thorough_s', 1500)))
    scen = P['scenarios']
    only = opt.get('--only')
    if only: scen = [x for x in scen if x[1] == only]
    rdir = V + '/replays'
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    kinds = []
    for k, n, w in scen:
        if k not in kinds: kinds.append(k)
    exes, skipped = {}, []
    try:
        for k in kinds:
            try: exes[k] = build(k, P['files'], P.get('tools', ()))
            except BuildError as e:
                if k != 'f': raise
                print('the fallback configuration does not compile and is left out:\n%s' % str(e)[:2000]); skipped.append(k)
    except BuildError as e:
        print('cannot build the simulation from %s:\n%s' % (REPO, e), file=sys.stderr); return 2
    scen = [x for x in scen if x[0] not in skipped]
    tb = time.time() - t0
    print('built in %.1f s' % tb); sys.stdout.flush()
    if det:
        rc = 0
        for k, n, w in scen:
            for workers in ('8', '3'):
                r = subprocess.run([exes[k], '--scenario', n, '--seed', str(seed), '--count', str(det), '--twice', '--workers', workers, '--tier', tier, '--property', prop, '--replay-dir', rdir], env=dict(os.environ, SIM_TOOLDIR=B + '/' + k))
                rc = rc or r.returncode
        return rc
    wsum = sum(w for _, _, w in scen)
    res, viol, err = [], None, None
    for k, n, w in scen:
        out = B + '/result_%s_%s_%s.json' % (prop, n, k)
        if os.path.exists(out): os.remove(out)
        r = subprocess.run([exes[k], '--scenario', n, '--seed', str(seed), '--time', '%.2f' % (total * w / wsum), '--tier', tier, '--property', prop, '--out', out, '--replay-dir', rdir, '--verbose', '--min-time', '40' if tier == 'quick' else '120'],
                           env=dict(os.environ, SIM_TOOLDIR=B + '/' + k))
        if os.path.exists(out): res.append(json.load(open(out)))
        if r.returncode == 1 and res and res[-1]['violation']:
            viol = res[-1]['violation']; break
        if r.returncode != 0:
            err = 'scenario %s (%s) ended with status %d' % (n, k, r.returncode); break
    wall = time.time() - t0
    def tot(f): return sum(x[f] for x in res)
    faults = {}
    for x in res:
        for f, (c, r) in x['faults'].items():
            y = faults.setdefault(f, {'fired': 0, 'runs_with_it': 0}); y['fired'] += c; y['runs_with_it'] += r
    feats = {}
    for x in res:
        for b, c in x['features'].items():
            name = FEATURES.get(x['scenario'], {}).get(int(b), 'probe %s' % b)
            feats[x['scenario'] + ': ' + name] = feats.get(x['scenario'] + ': ' + name, 0) + c
    runwall = max(1e-6, tot('wall_s'))
    lvl = P.get('level', 'exploration')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': lvl, 'wall_s': round(wall, 2), 'violations': 1 if viol else 0,
          'coverage': {
              'evaluations': tot('runs'), 'distinct_nontrivial': tot('distinct'),
              'rule': 'One evaluation is one simulated run in a fresh process: the seed draws the workload, the schedule of all threads and the faults. A run is non-trivial if at least one oracle comparison was made; distinct runs are counted by a hash over all workload choices, context switches (thread, position, target), faults and observed results.',
              'samples': sum((x['samples'] for x in res), [])[:8],
              'runs_per_hour': int(tot('runs') / runwall * 3600), 'seeds_per_hour': int(tot('runs') / runwall * 3600),
              'simulated_seconds': round(tot('simulated_s'), 6), 'context_switches': tot('context_switches'), 'synchronisation_steps': tot('sync_steps'),
              'instrumented_memory_accesses': tot('memory_accesses'), 'simulated_threads': tot('threads'), 'oracle_comparisons': tot('oracle_checks'),
              'faults_injected': faults, 'situations_reached_in_runs': feats,
              'determinism': {'runs_executed_twice': tot('determinism_rechecks'), 'hash_mismatches': tot('determinism_mismatches'), 'how': 'every 64th run is executed again, alternately from its seed and from its recorded schedule and fault trace, and the event hashes compared'},
              'per_scenario': [{k: x[k] for k in ('scenario', 'build', 'runs', 'distinct', 'wall_s', 'context_switches', 'oracle_checks', 'first_seed')} for x in res],
              'components': COMPONENTS.get(prop, COMPONENTS['*']),
              'build_s': round(tb, 1), 'builds_left_out': skipped},
          'assumptions': P.get('assumptions', []) + ['sequentially consistent memory: reorderings by the hardware or the optimiser beyond program order are not simulated']}
    if viol: ev['coverage']['violation'] = viol
    json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    seen = set(m for x in res for m in x['known'])
    for p, what in known_findings():
        if p == prop: print('KNOWN-FINDING: property=%s %s' % (p, what))
    if viol:
        print('%s: %s' % (viol['class'], viol['message'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, viol['replay'])); return 1
    if err:
        print('ERROR: ' + err, file=sys.stderr); return 2
    print('%s held: %d runs, %d distinct, %.0f s' % (prop, tot('runs'), tot('distinct'), wall))
    return 0

if __name__ == '__main__':
    sys.exit(main())
