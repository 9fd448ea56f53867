#!/usr/bin/env python3
"""Builds the simulator for one property from /repo's working tree and runs it.

  run_check.py C01                 the registered check (VERIF_SEED, VERIF_TIER)
  run_check.py C01 --replay FILE   re-executes a replay file
  run_check.py --build-all         compiles every simulator (setup)

Exit 0: held on everything explored; 1: violation(s), one VIOLATION line each;
2: the check itself failed (build error, unreproducible failure, harness error).
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, struct, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
REPLAYS = os.path.join(HERE, 'replays')
SIM = os.path.join(HERE, 'sim')
CXX = 'clang++'
COMMON = ['-std=c++17', '-O1', '-g1', '-pthread', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer', '-w']
VARIANTS = {
    'fast': [],
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr'],
    'tsan': ['-fsanitize=thread', '-DSIM_TSAN'],
}
COV = ['-fsanitize-coverage=trace-pc-guard']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_abort=0:abort_on_error=0:allocator_may_return_null=1:symbolize=0:detect_stack_use_after_return=0:exitcode=99',
           TSAN_OPTIONS='halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0:symbolize=0:report_thread_leaks=0:detect_deadlocks=0:ignore_noninstrumented_modules=1:history_size=2',
           UBSAN_OPTIONS='print_stacktrace=0:symbolize=0:exitcode=99', LC_ALL='C')
for k in ('SIM_NOASLR',): ENV.pop(k, None)
# runs per tier: (fast, asan)
RUNS = {
    'quick': {'*': (120000, 5000)},
    'thorough': {'*': (600000, 30000)},
}
sys.path.insert(0, HERE)
import simconf
RUNS['quick'].update(simconf.QUICK); RUNS['thorough'].update(simconf.THOROUGH)
JOBS = int(os.environ.get('SIM_JOBS', '8'))

class Fail(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def lib_sources():
    d = os.path.join(REPO, 'src')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cpp') and f != 'winmain.cpp')

def tree_hash(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        if os.path.isdir(p):
            for r, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(r, f); h.update(q.encode()); h.update(open(q, 'rb').read())
        else:
            h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]

def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj): return None
    tmp = obj + '.%d.tmp' % os.getpid()
    r = sh([CXX] + flags + ['-c', src, '-o', tmp])
    if r.returncode: return '%s:\n%s' % (src, '\n'.join([l for l in r.stdout.splitlines() if 'error' in l][:8]))
    os.rename(tmp, obj)
    return None

def variants_of(prop): return simconf.VARIANTS.get(prop, ('fast', 'asan'))

def build(props, only=None):
    """returns {(prop, variant): binary}"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    srcs = lib_sources()
    hdr = [os.path.join(REPO, 'include'), os.path.join(REPO, 'src')]
    allow = os.path.join(BUILD, 'allow.txt')
    with open(allow, 'w') as f: f.write('src:*\nfun:*program_options*\nfun:*5boost6detail7convert*\n')
    jobs, links = [], []
    simh = [os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith('.hpp')]
    for v in (only or sorted({v for p in props for v in variants_of(p)})):
        fl = COMMON + VARIANTS[v]
        lh = tree_hash(hdr, (fl, COV))
        libs = []
        for s in srcs:
            o = os.path.join(BUILD, '%s-%s-%s.o' % (os.path.basename(s)[:-4], v, lh))
            jobs.append((s, o, fl + COV + ['-I', os.path.join(REPO, 'include')])); libs.append(o)
        core = os.path.join(SIM, 'core.cpp')
        ch = tree_hash([core, os.path.join(SIM, 'core.hpp')], fl)
        co = os.path.join(BUILD, 'core-%s-%s.o' % (v, ch))
        jobs.append((core, co, [f for f in fl if f != '-fsanitize=thread'])) # the scheduler must be invisible to the race detector
        for p in props:
            if v not in variants_of(p): continue
            s = os.path.join(SIM, 'props', p.lower() + '.cpp')
            ph = tree_hash(hdr + simh + [s], (fl, COV, 'allow2'))
            o = os.path.join(BUILD, '%s-%s-%s.o' % (p, v, ph))
            jobs.append((s, o, fl + COV + ['-fsanitize-coverage-allowlist=' + allow, '-I', os.path.join(REPO, 'include'), '-I', SIM]))
            b = os.path.join(BUILD, '%s-%s-%s-%s-%s.bin' % (p, v, lh, ch, ph))
            links.append((p, v, fl, [o, co] + libs, b))
    # slowest first
    jobs.sort(key=lambda j: ('/props/' not in j[0], 'san' not in j[1]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs: raise Fail('build failed\n' + '\n'.join(errs[:3]))
    def link(l):
        p, v, fl, objs, b = l
        if not os.path.exists(b):
            tmp = b + '.%d.tmp' % os.getpid()
            extra = ['-shared-libsan', '-Wl,-rpath,' + sh([CXX, '-print-runtime-dir']).stdout.strip()] if v == 'tsan' else []
            r = sh([CXX] + fl + objs + ['-o', tmp, '-ldl'] + extra)
            if r.returncode: return r.stdout[-4000:]
            os.rename(tmp, b)
        return None
    with cf.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(link, links) if e]
    if errs: raise Fail('link failed\n' + '\n'.join(errs[:3]))
    # keep the cache small
    keep = {j[1] for j in jobs} | {l[4] for l in links}
    old = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.endswith(('.o', '.bin'))), key=os.path.getmtime)
    old = [f for f in old if f not in keep]
    for f in old[:-200] if len(old) > 200 else []:
        try: os.unlink(f)
        except OSError: pass
    lock.close()
    return {(p, v): b for p, v, _, _, b in links}

def run_json(cmd, timeout):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV, cwd='/')
    if r.returncode: raise Fail('simulator failed (%d): %s\n%s' % (r.returncode, ' '.join(cmd), r.stderr.decode('utf8', 'replace')[-2000:]))
    return json.loads(r.stdout.decode('utf8', 'replace').strip().splitlines()[-1])

def batch(binary, seed, tier, start, n, workers, tmax, hashes=False, states=None, maxv=6, slow=15):
    def one(w):
        cnt = (n - w + workers - 1) // workers
        if cnt <= 0: return None
        cmd = [binary, 'batch', '--seed', str(seed), '--tier', str(tier), '--start', str(start + w), '--stride', str(workers), '--n', str(cnt), '--tmax', str(tmax), '--maxv', str(maxv), '--slow', str(slow)]
        if hashes: cmd += ['--hashes', '1']
        if states: cmd += ['--states', '%s.%d' % (states, w)]
        return run_json(cmd, tmax + 400)
    with cf.ThreadPoolExecutor(workers) as ex:
        return [r for r in ex.map(one, range(workers)) if r]

def execute(binary, plan_path, log=None, stderr=False):
    cmd = [binary, 'exec', '--plan', plan_path]
    if log: cmd += ['--log', log]
    return run_json(cmd, 400)

def load_known(prop):
    """known_findings.txt: 'finding: property=Cxx sig=<signature> <text>' (lines 'fixed: ...' suppress nothing)"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) sig=(\S+) (.*)$', l.strip())
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

def check(prop):
    t0 = time.time()
    tiername = os.environ.get('VERIF_TIER', 'quick')
    if tiername not in RUNS: tiername = 'quick'
    tier = 1 if tiername == 'thorough' else 0
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    known = load_known(prop)
    ENV['SIM_KNOWN'] = ','.join(known)
    bins = build([prop])
    tb = time.time() - t0
    scale = float(os.environ.get('SIM_SCALE', '1'))
    plan = [(v, max(40, int(n * scale)), i * 10**9) for i, (v, n) in enumerate(zip(variants_of(prop), RUNS[tiername].get(prop, RUNS[tiername]['*'])))]
    cap = 200 if tier == 0 else 3600
    tmp = tempfile.mkdtemp(prefix='sim')
    res, viol, total = {}, [], {'runs': 0, 'nontrivial': 0, 'steps': 0, 'events': 0}
    stats, distinct, states, edges = {}, set(), set(), set()
    simwall, maxsteps, maxstack = 0.0, 0, {}
    dets, nondet = [], []
    try:
        for v, n, base in plan:
            b = bins[(prop, v)]
            if viol: n = min(n, max(40, n // 10)) # something was found already: the other builds only add to it
            # determinism first: the same runs, differently distributed over processes
            nd = 0 if viol else min(n, 160 if v == 'fast' else 40)
            h1 = dict(x for r in batch(b, seed, tier, base, nd, JOBS, 60, True, maxv=1, slow=0) for x in r['hashes'])
            h2 = dict(x for r in batch(b, seed, tier, base, nd, 3, 60, True, maxv=1, slow=0) for x in r['hashes'])
            common = set(h1) & set(h2)
            diff = [i for i in common if h1[i] != h2[i]]
            dets.append({'build': v, 'runs_twice': len(common), 'differing': len(diff)})
            if diff: nondet.append('property %s build %s runs %s' % (prop, v, diff[:5]))
            ts = time.time()
            rs = batch(b, seed, tier, base, n, JOBS, cap, states=os.path.join(tmp, v))
            simwall += time.time() - ts
            for r in rs:
                for k in total: total[k] += r[k]
                maxsteps = max(maxsteps, r['max_steps'])
                maxstack[v] = max(maxstack.get(v, 0), r['max_stack'])
                for k, x in r['stats'].items(): stats[k] = stats.get(k, 0) + x
                for x in r['violations']: viol.append(dict(x, build=v))
            res[v] = {'runs': sum(r['runs'] for r in rs), 'planned': n}
            for w in range(JOBS):
                f = os.path.join(tmp, '%s.%d' % (v, w))
                if os.path.exists(f):
                    d = open(f, 'rb').read()
                    for tag, val in struct.iter_unpack('<QQ', d):
                        if tag == 1: distinct.add(val)
                        elif tag == 2: states.add(val)
                        elif v == 'fast': edges.add(val)
                    os.unlink(f)
        harness = [x for x in viol if x['class'] == 'harness']
        if harness: raise Fail('harness error: %s (run %d)' % (harness[0]['detail'], harness[0]['idx']))
        ncorp = corpus(prop, bins, viol, stats)
        lines = report(prop, seed, tier, bins, viol, tmp)
        if nondet and not lines: raise Fail('not deterministic: ' + '; '.join(nondet))
        samples = sample(prop, bins, seed, tier, tmp)
    finally:
        for f in os.listdir(tmp): os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    wall = time.time() - t0
    faults = {k: v for k, v in sorted(stats.items()) if k.startswith('fault.')}
    ev = {
        'property': prop, 'tier': tiername, 'seed': seed, 'level': simconf.LEVEL.get(prop, 'exploration'),
        'coverage': {
            'evaluations': total['runs'], 'distinct_nontrivial': len(distinct),
            'rule': simconf.RULE[prop] + ' A run counts once per distinct event log (hash of everything the run observed) and only if it was marked non-trivial.',
            'samples': samples,
            'runs_by_build': res, 'nontrivial_runs': total['nontrivial'],
            'runs_per_hour': int(total['runs'] / max(simwall, 1e-3) * 3600),
            'seeds': 'VERIF_SEED=%d, run indices ' % seed + ', '.join('%d..%d (%s)' % (b, b + n - 1, v) for v, n, b in plan) + '; one index is one seed',
            'simulated_time': {'unit': 'basic blocks of library code executed', 'total': total['steps'], 'longest_run': maxsteps, 'deepest_stack_bytes': maxstack, 'events_logged': total['events']},
            'faults_injected': faults,
            'probes': {k: v for k, v in sorted(stats.items()) if not k.startswith('fault.')},
            'distinct_abstract_states': len(states), 'library_edges_reached': len(edges),
            'determinism_selftest': dets, 'directed_plans': ncorp,
            'components_real': simconf.REAL.get(prop, simconf.REAL['*']),
            'components_stubbed': simconf.STUB[prop],
            'build_s': round(tb, 1), 'simulation_s': round(simwall, 1),
        },
        'assumptions': simconf.ASSUME.get(prop, []) + simconf.ASSUME['*'],
        'wall_s': round(wall, 2), 'violations': len(lines),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in sorted(known):
        if stats.get('known.' + k): print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    for l in lines: print(l)
    if not lines: print('%s held: %d runs (%d distinct non-trivial), %d faults, %.1f s' % (prop, total['runs'], len(distinct), sum(faults.values()), wall))
    sys.stdout.flush()
    return 1 if lines else 0

def sample(prop, bins, seed, tier, tmp):
    out = []
    b = bins[(prop, 'fast')]
    for idx in (1, 2):
        plan = subprocess.run([b, 'gen', '--seed', str(seed), '--tier', str(tier), '--idx', str(idx)], stdout=subprocess.PIPE, env=ENV).stdout
        pp, lp = os.path.join(tmp, 's.plan'), os.path.join(tmp, 's.log')
        open(pp, 'wb').write(plan)
        execute(b, pp, lp)
        log = open(lp, errors='replace').read() if os.path.exists(lp) else ''
        out.append({'run': idx, 'plan': plan.decode('utf8', 'replace')[:1500], 'log': log[:1500]})
    return out

def corpus(prop, bins, viol, stats):
    """directed plans: what once failed, and the demonstrations of known findings"""
    d = os.path.join(SIM, 'corpus', prop)
    n = 0
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        p = os.path.join(d, f)
        for v in variants_of(prop):
            r = execute(bins[(prop, v)], p)
            n += 1
            for k, x in r['stats'].items():
                if k.startswith('known.'): stats[k] = stats.get(k, 0) + x
            if r['status'] == 2: viol.append({'class': r['class'], 'detail': r['detail'], 'hash': r['hash'], 'idx': -1, 'plan': p, 'build': v})
            elif r['status'] != 1: raise Fail('corpus plan %s: %s' % (p, r))
    return n

def write_replay(prop, seed, x, a, plan):
    rp = os.path.join(REPLAYS, '%s-%s-%d.replay' % (prop, re.sub(r'[^A-Za-z0-9]+', '_', a['class'])[:40], x['idx']))
    os.makedirs(REPLAYS, exist_ok=True)
    with open(rp, 'wb') as f:
        f.write(('# property %s class %s build %s seed %d run %d hash %s\n# %s\n# replay: python3 %s %s --replay %s\n' % (prop, a['class'], x['build'], seed, x['idx'], a['hash'], a['detail'].replace('\n', ' ')[:800], os.path.join(HERE, 'run_check.py'), prop, rp)).encode('utf8', 'replace'))
        f.write(plan)
    print('-- %s: %s' % (a['class'], a['detail'][:600]))
    return 'VIOLATION property=%s replay=%s' % (prop, rp)

def report(prop, seed, tier, bins, viol, tmp):
    lines = []
    byc = {}
    for x in sorted(viol, key=lambda x: (x['build'] != 'fast', x['idx'])): byc.setdefault(x['class'], []).append(x)
    unrepro, soft = [], None
    t0 = time.time()
    for n, (cls, xs) in enumerate(sorted(byc.items(), key=lambda kv: (kv[0] == 'stall', kv[1][0]['idx']))):
        if n >= 4 or (lines and (cls == 'stall' or time.time() - t0 > 60)): break
        ok = False
        for x in xs[:3]:
            b = bins[(prop, x['build'])]
            if x.get('plan'): plan = open(x['plan'], 'rb').read()
            else: plan = subprocess.run([b, 'gen', '--seed', str(seed), '--tier', str(tier), '--idx', str(x['idx'])], stdout=subprocess.PIPE, env=ENV, check=True).stdout
            pp = os.path.join(tmp, 'v.plan'); open(pp, 'wb').write(plan)
            a, c = execute(b, pp), execute(b, pp)
            if not (a['status'] == c['status'] == 2 and a['class'] == c['class'] == cls and a['hash'] == c['hash'] == x['hash']):
                unrepro.append((cls, x['idx']))
                if a['status'] == c['status'] == 2 and not soft: soft = (x, a, plan) # fails every time, but not in exactly the same way
                continue
            mp = os.path.join(tmp, 'm.plan')
            try: mi = run_json([b, 'minimize', '--plan', pp, '--class', cls, '--out', mp, '--budget', '1500', '--tmax', '40'], 600)
            except (Fail, subprocess.TimeoutExpired): mi = None
            if mi is None: open(mp, 'wb').write(plan)
            a, c = execute(b, mp), execute(b, mp)
            if not (a['status'] == c['status'] == 2 and a['class'] == c['class'] == cls and a['hash'] == c['hash']):
                open(mp, 'wb').write(plan); a = execute(b, mp)
            lines.append(write_replay(prop, seed, x, a, open(mp, 'rb').read()))
            ok = True
            break
    if soft and not lines: lines.append(write_replay(prop, seed, *soft))
    if byc and not lines:
        raise Fail('violations that do not replay: %s' % unrepro)
    return lines

def replay(prop, path):
    path = os.path.abspath(path)
    ENV['SIM_KNOWN'] = ','.join(load_known(prop))
    head = open(path, errors='replace').readline()
    m = re.search(r'build (\S+) .*hash (\S+)', head)
    v = m.group(1) if m else 'fast'
    b = build([prop], (v,))[(prop, v)]
    log = tempfile.mktemp(prefix='simlog')
    r = execute(b, path, log)
    print(open(log, errors='replace').read() if os.path.exists(log) else '')
    if os.path.exists(log): os.unlink(log)
    print(json.dumps(r))
    if m and r['status'] == 2: print('hash %s the recorded one' % ('equals' if r['hash'] == m.group(2) else 'DIFFERS from'))
    if r['status'] == 2: print('VIOLATION property=%s replay=%s' % (prop, path)); return 1
    return 0 if r['status'] == 1 else 2

def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ['--build-all']:
            build(simconf.CLAIMED); return 0
        if len(a) == 3 and a[1] == '--replay': return replay(a[0], a[2])
        return check(a[0])
    except Fail as e:
        print('CHECK ERROR: %s' % e); return 2
    except subprocess.TimeoutExpired as e:
        print('CHECK ERROR: %s' % e); return 2
if __name__ == '__main__': sys.exit(main())
