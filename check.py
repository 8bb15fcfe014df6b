#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--seed N] [--budget S]   decide one property by simulation
   check.py --replay FILE [--trace]                                re-execute a replay file
   check.py --build DIR                                            only build the simulator (setup)

Builds the simulator from /repo's working tree, runs seeded executions, confirms, minimises and reports violations."""
import sys, os, subprocess, tempfile, shutil, json, glob, re, time, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = max(1, min(8, os.cpu_count() or 1))
OK, VIOL, SIG, BROKEN, HANG = 1, 2, 3, 4, 5

PROPS = json.load(open(os.path.join(HERE, 'sim', 'props.json')))

CF = ['-g', '-O1', '-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0', '-fno-omit-frame-pointer',
      '-DHAVE_CONFIG_H', '-I' + HERE + '/sim/conf', '-DLINUX', '-D_REENTRANT', '-D_GNU_SOURCE', '-I/usr/include/apr-1.0',
      '-I' + REPO + '/src', '-I' + REPO + '/src/vendor/xxhash', '-DHAVE_APR', '-DFTWIN_TEST_BUILD', '-U_FORTIFY_SOURCE',
      '-fno-builtin-memcpy', '-w']
CXXF = ['-std=c++17', '-O1', '-g', '-Wall', '-D_GNU_SOURCE', '-U_FORTIFY_SOURCE', '-I' + HERE + '/sim/conf', '-I/usr/include/apr-1.0',
        '-I' + REPO + '/src', '-I' + REPO + '/src/vendor/xxhash']
LIBS = '-ljansson -lapr-1 -laprutil-1 -lpcre -lz -lbz2 -lgd -lpuzzle -larchive -ldl -lpthread'.split()

def die(msg):
    print('ERROR: ' + msg, flush=True)
    sys.exit(2)

def build(out):
    os.makedirs(out, exist_ok=True)
    jobs = []
    for f in sorted(glob.glob(REPO + '/src/*.c')):
        jobs.append(['clang'] + CF + ['-c', f, '-o', out + '/r_' + os.path.basename(f)[:-2] + '.o'])
    jobs.append(['clang', '-O2', '-w', '-I' + REPO + '/src/vendor/xxhash', '-c', REPO + '/src/vendor/xxhash/xxhash.c', '-o', out + '/r_xxhash.o'])
    for f in sorted(glob.glob(HERE + '/sim/*.cc')):
        jobs.append(['clang++'] + CXXF + ['-c', f, '-o', out + '/s_' + os.path.basename(f)[:-3] + '.o'])
    jobs.sort(key=lambda j: 0 if j[0] == 'clang++' else 1)
    def one(c):
        return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with ThreadPoolExecutor(JOBS) as ex:
        for c, r in zip(jobs, ex.map(one, jobs)):
            if r.returncode:
                die('cannot compile %s\n%s' % (c[-3], r.stdout[-4000:]))
    r = one(['clang++', '-rdynamic', '-Wl,--wrap=XXH3_128bits,--wrap=XXH3_128bits_digest', '-o', out + '/simrun'] + sorted(glob.glob(out + '/*.o')) + LIBS)
    if r.returncode:
        die('cannot link\n' + r.stdout[-4000:])
    return out + '/simrun'

def single(exe, mode, prop, arg, dump='-', trace=False, timeout=120):
    env = dict(os.environ, SIM_TIER=TIER)
    try:
        r = subprocess.run([exe, mode, prop, str(arg), dump] + (['trace'] if trace else []), stdout=subprocess.PIPE,
                           stderr=None if trace else subprocess.DEVNULL, text=True, timeout=timeout, env=env)
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception as e:
        return {'status': BROKEN, 'hash': '', 'msg': 'simrun: %r' % e, 'sample': ''}

def cls(r):
    if r['status'] == SIG:
        return (SIG, r['msg'].split(' <')[0])
    m = re.sub(r"'[^']*'|\"[^\"]*\"|[0-9a-fx]*[0-9][0-9a-fx]*", '#', r['msg'])
    return (r['status'], ' '.join(m.split()[:4]))

def read_entries(path):
    return [tuple(l.split()) for l in open(path) if l.strip() and l[0] != '#']

def write_entries(path, es, head=()):
    with open(path, 'w') as f:
        for h in head:
            f.write('# ' + h.replace('\n', ' ') + '\n')
        for e in es:
            f.write(' '.join(e) + '\n')

def minimise(exe, prop, es, want, tmp, budget):
    """Delta debugging over the recorded non-default decisions, candidates tried in parallel."""
    t0 = time.time()
    n_try = [0]
    def fails(es2):
        n_try[0] += 1
        p = '%s/m%d' % (tmp, n_try[0])
        write_entries(p, es2)
        r = single(exe, 'replay', prop, p, timeout=100)
        os.unlink(p)
        return cls(r) == want
    def first(cands):
        with ThreadPoolExecutor(JOBS) as ex:
            i = 0
            while i < len(cands) and time.time() - t0 < budget:
                chunk = cands[i:i + JOBS]
                for c, ok in zip(chunk, list(ex.map(fails, chunk))):
                    if ok:
                        return c
                i += JOBS
        return None
    # whole decision classes first
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for k in sorted({e[0] for e in es}):
            c = [e for e in es if e[0] != k]
            if time.time() - t0 < budget and fails(c):
                es, changed = c, True
    n = 2
    while len(es) > 1 and time.time() - t0 < budget:
        size = max(1, (len(es) + n - 1) // n)
        cands = [es[:i] + es[i + size:] for i in range(0, len(es), size)]
        c = first(cands)
        if c is not None:
            es, n = c, max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(es), n * 2)
    for i in range(len(es)):                       # smaller values
        if time.time() - t0 > budget:
            break
        v = int(es[i][2])
        for w in sorted({1, v // 2, v - 1}):
            if 0 < w < v:
                c = es[:i] + [es[i][:2] + (str(w),)] + es[i + 1:]
                if fails(c):
                    es = c
                    break
    return es, n_try[0]

def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out

def main():
    global TIER
    a = sys.argv[1:]
    TIER = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    budget = None
    trace = '--trace' in a
    if trace:
        a.remove('--trace')
    for opt in ('--tier', '--seed', '--budget'):
        if opt in a:
            i = a.index(opt)
            v = a[i + 1]
            del a[i:i + 2]
            if opt == '--tier': TIER = v
            elif opt == '--seed': seed = int(v)
            else: budget = float(v)
    if TIER not in ('quick', 'thorough'):
        TIER = 'quick'
    t0 = time.time()
    if a[:1] == ['--build']:
        print(build(os.path.abspath(a[1])))
        return 0
    tmp = tempfile.mkdtemp(prefix='ftwin-sim-')
    try:
        exe = build(tmp + '/b')
        t_build = time.time() - t0
        if a[:1] == ['--replay']:
            head = open(a[1]).readline()
            m = re.match(r'# property=(\S+) tier=(\S+)', head)
            if not m:
                die('not a replay file')
            TIER = m.group(2)
            r = single(exe, 'replay', m.group(1), a[1], trace=trace)
            print(json.dumps(r))
            if r['status'] != OK:
                print('VIOLATION property=%s replay=%s' % (m.group(1), a[1]))
                return 1
            return 0
        return decide(a[0], exe, tmp, seed, budget, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def decide(prop, exe, tmp, seed, budget, t0, t_build):
    P = PROPS[prop]
    if budget is None:
        budget = P.get('quick_s', 45) if TIER == 'quick' else P.get('thorough_s', 420)
    seed0 = (seed * 1000003 + int(hashlib.sha256(prop.encode()).hexdigest()[:6], 16) * 7) * 10000000
    # determinism: the same seeds in separate processes and with another worker count must give the same traces
    det = {}
    n_det = 24 if TIER == 'quick' else 200
    for tag, jobs in (('a', 1 if TIER == 'quick' else 3), ('b', JOBS)):
        subprocess.run([exe, 'batch', prop, str(seed0), str(n_det), str(jobs), '60', TIER, tmp + '/d' + tag], stderr=subprocess.DEVNULL)
        det[tag] = sorted(l.split()[1] for f in glob.glob(tmp + '/d' + tag + '.*') for l in open(f) if l[0] == 'H')
    det_same = det['a'] == det['b']
    tb = time.time()
    subprocess.run([exe, 'batch', prop, str(seed0), '9000000', str(JOBS), str(budget), TIER, tmp + '/out'], stderr=subprocess.DEVNULL)
    wall_batch = time.time() - tb
    hashes, nt_hashes, samples, fails = set(), set(), [], []
    tot = dict(runs=0, nontrivial=0, points=0, events=0, preemptions=0, simns=0)
    faults, probes = {}, {}
    for f in sorted(glob.glob(tmp + '/out.*')):
        for l in open(f):
            if l[0] == 'H':
                _, h, n = l.split()
                hashes.add(h)
                if n == '1':
                    nt_hashes.add(h)
            elif l[0] == 'S':
                samples.append(json.loads(l[2:]))
            elif l[0] == 'F':
                fails.append(json.loads(l[2:]))
            elif l[0] == 'T':
                d = json.loads(l[2:])
                for k in tot:
                    tot[k] += d[k]
                for src, dst in ((d['faults'], faults), (d['probes'], probes)):
                    for k, v in src.items():
                        x = dst.setdefault(k, [0, 0])
                        x[0] += v[0]
                        x[1] += v[1]
    if tot['runs'] == 0:
        die('no simulated run completed')
    known = known_findings(prop)
    seen_known, confirmed, unconfirmed = {}, None, []
    fails.sort(key=lambda f: f['seed'])
    for f in fails:
        k = next((w for rx, w in known if rx.search(f['msg'])), None)
        if k:
            seen_known[k] = seen_known.get(k, 0) + 1
            continue
        if confirmed:
            continue
        if f['status'] == BROKEN:
            unconfirmed.append(f)
            continue
        # gate: the same seed again, then its decision list in a fresh process
        dump = tmp + '/dump'
        r1 = single(exe, 'one', prop, f['seed'], dump)
        if r1['status'] != f['status'] or (f['status'] != HANG and (r1['hash'] != f['hash'])):
            unconfirmed.append(f)
            continue
        r2 = single(exe, 'replay', prop, dump)
        if cls(r2) != cls(r1):
            unconfirmed.append(f)
            continue
        es = read_entries(dump)
        n0 = len(es)
        want = cls(r2)
        es2, tries = minimise(exe, prop, es, want, tmp, 3 if f['status'] == HANG else (40 if TIER == 'quick' else 150))
        os.makedirs(HERE + '/replays', exist_ok=True)
        path = HERE + '/replays/%s-%d.replay' % (prop, f['seed'])
        mp = tmp + '/min'
        write_entries(mp, es2)
        r3 = single(exe, 'replay', prop, mp)
        r4 = single(exe, 'replay', prop, mp)
        if cls(r3) != want or r3['hash'] != r4['hash'] and f['status'] != HANG:
            es2, r3 = es, r2
        write_entries(path, es2, ['property=%s tier=%s' % (prop, TIER), 'seed=%d decisions=%d minimised=%d replays_tried=%d' % (f['seed'], n0, len(es2), tries),
                                  'violation: ' + r3['msg'], 'run: ' + r3['sample'], 'trace hash: ' + r3['hash'],
                                  'each line: class.index ordinal value (see enum Class in sim/sim.h); re-run: python3 check.py --replay FILE --trace'])
        confirmed = (f, r3, path, n0, len(es2))
    # a failure whose executions are not identical to the last event (the program reads memory it never set, say) still counts if
    # the same seed fails again and again
    for f in [] if confirmed else [f for f in unconfirmed if f['status'] != BROKEN][:6]:
        dump = tmp + '/dump'
        rs = [single(exe, 'one', prop, f['seed'], dump) for _ in range(4)]
        bad = [r for r in rs if r['status'] not in (OK, BROKEN)]
        if len(bad) >= 3:
            os.makedirs(HERE + '/replays', exist_ok=True)
            path = HERE + '/replays/%s-%d.replay' % (prop, f['seed'])
            es = read_entries(dump)
            write_entries(path, es, ['property=%s tier=%s' % (prop, TIER), 'seed=%d decisions=%d not minimised: %d of 4 executions of this seed fail, not all alike' % (f['seed'], len(es), len(bad)),
                                     'violation: ' + bad[0]['msg'], 'run: ' + bad[0]['sample']])
            confirmed = (f, bad[0], path, len(es), len(es))
            break
    ev = {
        'property': prop, 'tier': TIER, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['runs'], 'distinct_nontrivial': len(nt_hashes),
            'rule': P['rule'] + ' A run is one seed; distinct = different hash over its event trace (operations, results, system calls, switches, faults).',
            'samples': samples[:4],
            'simulated_runs_per_hour': int(tot['runs'] / wall_batch * 3600), 'seed_range': [seed0, seed0 + tot['runs']],
            'simulated_seconds': round(tot['simns'] / 1e9, 3), 'preemption_points': tot['points'], 'preemptions': tot['preemptions'],
            'trace_events': tot['events'], 'distinct_traces': len(hashes), 'nontrivial_runs': tot['nontrivial'],
            'faults_injected': {k: {'times': v[0], 'runs': v[1]} for k, v in sorted(faults.items())},
            'reach_probes': {k: {'times': v[0], 'runs': v[1]} for k, v in sorted(probes.items())},
            'determinism': {'seeds_run_twice': n_det, 'worker_counts': [1 if TIER == 'quick' else 3, JOBS], 'identical_traces': det_same},
            'real_code': P['real'], 'stubs': P['stub'],
            'known_findings_seen': seen_known, 'unconfirmed_failures': len(unconfirmed), 'build_s': round(t_build, 1)},
        'assumptions': P.get('assumptions', []) + ['scheduling points are memory accesses of /repo sources and intercepted library calls; weak memory reorderings are not explored'],
        'wall_s': round(time.time() - t0, 2), 'violations': 1 if confirmed else 0}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open(HERE + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1)
    for k, n in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('%s: %d runs, %d distinct non-trivial, %d preemptions, %d faults injected, %.1f s, traces repeatable: %s' % (
        prop, tot['runs'], len(nt_hashes), tot['preemptions'], sum(v[0] for v in faults.values()), time.time() - t0, det_same))
    if confirmed:
        f, r, path, n0, n1 = confirmed
        print('seed %d: %s' % (f['seed'], r['msg']))
        print('decisions: %d, minimised to %d' % (n0, n1))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if unconfirmed:
        die('failure not reproduced: ' + json.dumps(unconfirmed[0]))
    if not det_same:
        print('WARNING: traces differ between repeated runs of the same seeds (recorded in the evidence)')
    return 0

if __name__ == '__main__':
    sys.exit(main())
