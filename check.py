#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] : decide one property on /repo's current tree."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
B = os.environ.get('VP_BUILD', os.path.join(V, '.build'))
CLANG = '/usr/bin/clang++-18'
LINK = '/usr/bin/llvm-link-18'
COMMON = ['-std=c++20', '-DBOOST_ASIO_NO_DEPRECATED', '-fno-access-control', '-D_GLIBCXX_ASSERTIONS', '-w',
          '-I' + os.path.join(V, 'lib'), '-I' + os.path.join(V, 'spec'), '-I' + os.path.join(REPO, 'include')]
BC = ['-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-fsized-deallocation', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
      '-fno-vectorize', '-fno-slp-vectorize', '-emit-llvm', '-c']
NPROC = os.cpu_count() or 4


def run(cmd, timeout=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'


def engine():
    src = os.path.join(V, 'engine', 'vcx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(B, 'vcx-' + h)
    if not os.path.exists(exe):
        os.makedirs(B, exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        rc, o, e = run(['bash', os.path.join(V, 'engine', 'build.sh'), tmp])
        if rc:
            sys.stderr.write(e)
            sys.exit(2)
        os.rename(tmp, exe)
    return exe


class Unit:
    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        t = self.text = open(path).read()

        def d(k, default=''):
            m = re.findall(r'^// vp-%s:[ \t]*(.*)$' % k, t, re.M)
            return ' '.join(m) if m else default
        self.level = d('level', 'proof')
        self.bound = d('bound')
        self.sources = d('sources').split()
        self.flags = d('flags').split()
        self.source_flags = {s: f.split() for s, f in re.findall(r'^// vp-source-flags (\S+):[ \t]*(.*)$', t, re.M)}
        self.optional = '// vp-optional' in t
        self.threads = 'vp_thread_preempt' in t
        self.tier = d('tier', 'quick')
        self.assume = re.findall(r'^// vp-assume:[ \t]*(.*)$', t, re.M)
        self.timeout = float(d('timeout', '400'))
        self.steps = d('steps', '3000000')
        self.contract_bound = dict(re.findall(r'^// vp-bounded (\S+):[ \t]*(.*)$', t, re.M))
        texts, seen = [t], set()
        for x in texts:                                      # contracts may live in shared spec headers
            for i in re.findall(r'^#include [<"](\w+\.hpp)[>"]', x, re.M):
                p = os.path.join(V, 'spec', i)
                if i not in seen and os.path.exists(p):
                    seen.add(i)
                    texts.append(open(p).read())
        self.covers = {}
        for t in texts:
            parts = re.split(r'^VP_CONTRACT\((\w+)\)', t, flags=re.M)
            for n, body in zip(parts[1::2], parts[2::2]):
                self.covers[n] = re.findall(r'VP_COVER\("([^"]*)"\)', body)
        self.contracts = list(self.covers)
        self.wraps = sorted({n for t in texts for n in re.findall(r'VP_SYS\((\w\w+)\)', t)})

    def compile_bc(self, dst):
        objs = []
        out = os.path.join(dst, self.name + '.bc')
        jobs = [[CLANG, *COMMON, *BC, *self.flags, self.path, '-o', out],
                [CLANG, *COMMON, *BC, *self.flags, os.path.join(V, 'lib', 'rt.cpp'), '-o', os.path.join(dst, self.name + '.rt.bc')]]
        for s in self.sources:
            jobs.append([CLANG, *COMMON, *BC, *self.flags, *self.source_flags.get(s, []), os.path.join(REPO, 'src', s + '.cpp'), '-o', os.path.join(dst, self.name + '.' + s.replace('/', '_') + '.bc')])
        for j in jobs:
            j_rc, o, e = run(j)
            if j_rc:
                return None, 'compile of %s failed:\n%s' % (j[-3], e[:4000])
            objs.append(j[-1])
        lk = os.path.join(dst, self.name + '.l.bc')
        rc, o, e = run([LINK, *objs, '-o', lk])
        if rc:
            return None, 'llvm-link failed: ' + e[:2000]
        return lk, None

    def compile_native(self, dst, cxx, san=True, tsan=False):
        exe = os.path.join(dst, self.name + '.' + os.path.basename(cxx) + ('.tsan' if tsan else '.san' if san else ''))
        if os.path.exists(exe):
            return exe, ''
        disp = os.path.join(dst, self.name + '.disp.cpp')
        with open(disp, 'w') as f:
            f.write('#include <cstring>\n#include <cstdlib>\n')
            for c in self.contracts:
                f.write('extern "C" void vp_C_%s();\n' % c)
            f.write('extern "C" void vp_dispatch(const char*n){\n')
            for c in self.contracts:
                f.write('if(!strcmp(n,"%s")) return vp_C_%s();\n' % (c, c))
            f.write('abort();}\n')
        srcs = [self.path, disp, os.path.join(V, 'lib', 'native.cpp')] + [os.path.join(REPO, 'src', s + '.cpp') for s in self.sources]
        extra = {os.path.join(REPO, 'src', s + '.cpp'): f for s, f in self.source_flags.items()}
        cmd = [cxx, *COMMON, '-DVP_NATIVE', '-g', '-O0', '-fsized-deallocation'] + self.flags
        if tsan:
            cmd += ['-fsanitize=thread', '-DVP_TSAN']
            extra[os.path.join(V, 'lib', 'native.cpp')] = ['-fno-sanitize=thread']
        elif san:
            cmd += ['-fsanitize=address']
        objs = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = []
            for s in srcs:
                o = exe + '.' + hashlib.md5(s.encode()).hexdigest()[:8] + '.o'
                objs.append(o)
                futs.append(ex.submit(run, cmd + extra.get(s, []) + ['-c', s, '-o', o]))
            for f in futs:
                rc, so, se = f.result()
                if rc:
                    return None, se
        rc, o, e = run(cmd + objs + ['-o', exe, '-lpthread', '-lssl', '-lcrypto'] + ['-Wl,--wrap=' + w for w in self.wraps])
        return (exe, '') if not rc else (None, e)


ENV = dict(ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:detect_stack_use_after_return=1')


def native_run(exe, args, timeout=40, env={}):
    try:
        p = subprocess.run(['setarch', '-R', exe, *args] if False else [exe, *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace',
                           env={**os.environ, **ENV, **env}, cwd=B)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'VP-FAIL: timeout'


def replay(u, dst, v):
    """replay a verifier counterexample natively; -> (confirmed, log)"""
    log = ''
    for cxx in ('/usr/bin/g++', CLANG):
        exe, e = u.compile_native(dst, cxx)
        if not exe:
            log += '%s: native build failed: %s\n' % (cxx, e[:1500])
            continue
        args = [v['contract'], 'replay'] + [str(i[2]) for i in v['inputs'] if not i[0].startswith('switch to thread')]
        rc, out = native_run(exe, args)
        if rc in (0, 77) and u.threads:
            # the schedule: repeated with delays at the synchronisations of the threads
            with cf.ThreadPoolExecutor(NPROC) as ex:
                for k in range(1, 320, 32):
                    bad = [(r, o) for r, o in ex.map(lambda j: native_run(exe, args, env=dict(VP_JITTER=str(j))), range(k, k + 32)) if r not in (0, 77)]
                    if bad:
                        rc, out = bad[0]
                        break
        log += '%s: exit %d\n%s\n' % (cxx, rc, out[-6000:])
        if rc not in (0, 77):
            return True, log
    if u.threads and v['obligation'] == 'no-data-race':
        exe, e = u.compile_native(dst, '/usr/bin/g++', tsan=True)
        if not exe:
            return False, log + 'native build with the thread sanitizer failed: ' + e[:1500]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for k in range(5):
                bad = [(r, o) for r, o in ex.map(lambda j: native_run(exe, args, env=dict(TSAN_OPTIONS='exitcode=66')), range(8)) if 'ThreadSanitizer: data race' in o]
                if bad:
                    return True, log + 'thread sanitizer: exit %d\n%s\n' % (bad[0][0], bad[0][1][:6000])
    return False, log


def canary(vcx, dst):
    bc = os.path.join(dst, 'canary.bc')
    rc, o, e = run([CLANG, *COMMON, *BC, os.path.join(V, 'lib', 'canary.cpp'), '-o', bc])
    if rc:
        return 'canary does not compile: ' + e[:500]
    out = os.path.join(dst, 'canary.json')
    run([vcx, '-o', out, bc], timeout=60)
    r = {c['name']: c for c in json.load(open(out))['contracts']}
    if not (r['canary_true']['complete'] and r['canary_true']['failed'] == 0 and r['canary_false']['failed'] and r['canary_uaf']['failed']):
        return 'canary contracts have the wrong verdict: %s' % {k: (v['complete'], v['failed']) for k, v in r.items()}
    return None


def main():
    if '--setup' in sys.argv:
        d = os.path.join(B, 'setup')
        os.makedirs(d, exist_ok=True)
        e = canary(engine(), d)
        print(e or 'engine ready')
        sys.exit(2 if e else 0)
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = sys.argv[sys.argv.index('--contract') + 1] if '--contract' in sys.argv else None
    t0 = time.time()
    vcx = engine()
    dst = os.path.join(B, pid)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst, exist_ok=True)
    repdir = os.path.join(B, 'replay')
    os.makedirs(repdir, exist_ok=True)
    ce = canary(vcx, dst)
    if ce:
        print('error: ' + ce)
        sys.exit(2)
    units = [Unit(p) for p in sorted(glob.glob(os.path.join(V, 'spec', pid + '*.cpp')))]
    units = [u for u in units if tier == 'thorough' or u.tier == 'quick']
    notes, errors, stop = [], [], []
    # known findings
    kf = []
    kfp = os.path.join(V, 'known_findings.json')
    if os.path.exists(kfp):
        kf = [k for k in json.load(open(kfp))['findings'] if k['property'] == pid]
    results, viols, functions, externs = [], [], set(), set()
    tools = dict(queries=0, solver_s=0.0, steps=0)

    def one(u, lk, c, cover=True):
        out = os.path.join(dst, '%s.%s.json' % (u.name, c))
        tl = u.timeout * (4 if tier == 'thorough' else 1)
        if tier != 'thorough':
            tl = min(tl, 560 - (time.time() - t0))
            if stop and not only or tl < 5:
                return 'skipped', ''
        rc, o, e = run([vcx, '-f', c, '-o', out, '-T', str(tl), '-S', u.steps, lk], timeout=tl + 60)
        try:
            j = json.load(open(out))
            if any(not any(k['contract'] == v['contract'] and k['obligation'] == v['obligation'] for k in kf) for v in j['violations']):
                stop.append(c)
            return j, e
        except Exception:
            return None, 'engine exit %d: %s' % (rc, e[-2000:])

    with cf.ThreadPoolExecutor(NPROC) as ex:
        built = [(u, ex.submit(u.compile_bc, dst)) for u in units]
        futs = []
        ok_units = 0
        for u, f in built:
            lk, err = f.result()
            if err:
                (notes if u.optional else errors).append('%s: %s' % (u.name, err))
                continue
            ok_units += 1
            rc, o, e = run([vcx, '-l', lk])
            for c in o.split():
                if only and c != only:
                    continue
                futs.append((u, c, ex.submit(one, u, lk, c)))
        for u, c, f in futs:
            j, e = f.result()
            if j == 'skipped':
                results.append(dict(unit=u.name, name=c, complete=False, level=u.level, vcs=0, undecided={'skipped after a violation or at the time limit': 1}, obligations={}, failed=0, covers={}, paths=0, queries=0, solver_s=0, wall_s=0, skipped=True))
                continue
            if j is None:
                notes.append('%s/%s: %s' % (u.name, c, e))
                results.append(dict(unit=u.name, name=c, complete=False, level=u.level, vcs=0, undecided={'engine': 1}, obligations={}, failed=0, covers={}, paths=0, queries=0, solver_s=0, wall_s=0))
                continue
            for k in tools:
                tools[k] += j[k]
            functions.update(j['functions'])
            externs.update(j['externs'])
            for r in j['contracts']:
                r['unit'] = u.name
                r['level'] = 'bounded' if (u.level == 'bounded' or c in u.contract_bound) else 'proof'
                r['bound'] = u.contract_bound.get(c, u.bound)
                r['missing_covers'] = [x for x in u.covers.get(c, []) if not r['covers'].get(x)]
                results.append(r)
            for v in j['violations']:
                v['unit'] = u
                viols.append(v)

    real, known = [], {}
    for v in viols:
        hit = None
        for k in kf:
            if k['contract'] == v['contract'] and k['obligation'] == v['obligation'] and all([i[0], i[2]] in [[a[0], a[2]] for a in v['inputs']] for i in k.get('inputs', [])):
                hit = k
        if hit:
            known[hit['id']] = hit
        else:
            real.append(v)
    for k in known.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

    # replay
    reported = []
    tried = {}
    for v in real:
        key = (v['contract'], v['obligation'])
        if tried.get(key) is True or len([1 for x in tried.values() if x]) >= 3:
            continue
        okc, log = replay(v['unit'], dst, v)
        tried[key] = tried.get(key, False) or okc
        path = os.path.join(repdir, '%s-%s-%d.json' % (pid, v['contract'], len(reported)))
        json.dump(dict(property=pid, contract=v['contract'], spec=v['unit'].path, obligation=v['obligation'], detail=v['detail'], where=v['where'], inputs=v['inputs'],
                       stack=v['stack'], confirmed=okc, native=log,
                       how='python3 %s/check.py %s --contract %s   (or run the native binary: CONTRACT replay VALUES...)' % (V, pid, v['contract'])), open(path, 'w'), indent=1)
        reported.append((v, okc, path))
    # native random fall-back where the engine could not decide
    und = [r for r in results if not r['complete'] and not r['failed'] and not (stop and r.get('skipped'))]
    byname = {u.name: u for u in units}
    if und and not any(o for _, o, _ in reported):
        for r in und[:40]:
            u = byname[r['unit']]
            exe, e = u.compile_native(dst, '/usr/bin/g++')
            if not exe:
                continue
            t1 = time.time()
            k = 0
            def rnd(i):
                return native_run(exe, [r['name'], 'random', str(seed * 100000 + i)])
            with cf.ThreadPoolExecutor(NPROC) as ex:
                while time.time() - t1 < (8 if tier == 'quick' else 60):
                    outs = list(ex.map(rnd, range(k, k + 32)))
                    k += 32
                    bad = [o for rc, o in outs if rc not in (0, 77)]
                    if bad:
                        path = os.path.join(repdir, '%s-%s-rnd.json' % (pid, r['name']))
                        json.dump(dict(property=pid, contract=r['name'], obligation='native execution', confirmed=True, native=bad[0][-6000:], note='the verifier could not decide this contract (%s); found by native execution' % r['undecided']), open(path, 'w'), indent=1)
                        reported.append((dict(contract=r['name'], obligation='native execution', detail='', where=''), True, path))
                        break
            r['native_runs'] = k
    for r in results:
        if r.get('missing_covers') and r['complete'] and not r['failed']:
            path = os.path.join(repdir, '%s-%s-cover.json' % (pid, r['name']))
            json.dump(dict(property=pid, contract=r['name'], obligation='reachability of: %s' % r['missing_covers'], confirmed=False,
                           note='every path was explored and none reaches the named situation, which the contract requires to be possible', covers=r['covers']), open(path, 'w'), indent=1)
            reported.append((dict(contract=r['name'], obligation='reachability of %s' % r['missing_covers'], detail='', where=''), False, path))
    conf = [x for x in reported if x[1]]
    out_lines = []
    for v, okc, path in (conf or reported)[:3]:
        print('failed obligation: %s / %s: %s %s' % (v['contract'], v['obligation'], v['detail'], v['where']))
        out_lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if okc else ' no-failing-input-found'))
    proof = [r for r in results if r['level'] == 'proof']
    bnd = [r for r in results if r['level'] != 'proof']

    def nobs(rs):
        return sum(len(r['obligations']) for r in rs)

    def dobs(rs):
        return sum(1 for r in rs for o in r['obligations'].values() if r['complete'] and o[3] == 0 and o[4] == 0)
    vcs = sum(r['vcs'] for r in results)
    disch = sum(sum(o[1] + o[2] for o in r['obligations'].values()) for r in results)
    base = proof or bnd
    named, named_ok = nobs(base), dobs(base)
    incomplete = [r for r in results if not r['complete']]
    vac = [(r['name'], r.get('missing_covers')) for r in results if r.get('missing_covers') and r['complete'] and not r['failed']]
    dem = {}
    if functions:
        p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(sorted(functions)), stdout=subprocess.PIPE, text=True)
        fl = sorted({x for x in p.stdout.split('\n') if x and 'boost::cobalt' in x and not x.startswith('non-virtual')})
    else:
        fl = []
    short = sorted({re.sub(r'^.*?(boost::cobalt::)', r'\1', x)[:140] for x in fl})
    trusted = ['the VC engine engine/vcx.cpp (own code: LLVM IR semantics, Itanium EH model, byte-level memory model)', 'clang 18 front end and coroutine lowering (-O0); the shipped build uses g++',
               'z3 4.8.12 (QF_BV/QF_ABV)', 'lib/rt.cpp: models of libstdc++.so functions (exceptions, error categories, pmr default resources)',
               'lib/ghost.hpp: executor contract (FIFO, execute() never runs inline)']
    assum = sorted({a for u in units for a in u.assume} | {'operator new does not fail unless the contract says so', 'single thread of execution per executor'})
    ev = dict(property=pid, tier=tier, seed=seed, level='proof' if proof else 'other',
              coverage=dict(explanation='obligations/discharged count named obligations of the %s contracts only; bounded contracts are listed separately and not counted as proved' % ('proof' if proof else 'bounded'), obligations=named, discharged=named_ok, bounded_obligations=nobs(bnd) if proof else 0, bounded_discharged=dobs(bnd) if proof else 0, verification_conditions=vcs, vcs_discharged=disch, paths=sum(r['paths'] for r in results),
                            checker_cmd='python3 /verif/check.py %s' % pid, trusted_base=trusted,
                            contracts=[dict(name=r['name'], unit=r['unit'], level=r['level'], bound=r.get('bound') or None, complete=r['complete'], paths=r['paths'], vcs=r['vcs'], solver_queries=r['queries'],
                                            solver_s=round(r['solver_s'], 3), obligations={k: dict(vcs=o[0], by_constant_propagation=o[1], by_z3=o[2], failed=o[3], unknown=o[4]) for k, o in r['obligations'].items()},
                                            undecided=r['undecided'], covers=r['covers'], native_random_runs=r.get('native_runs', 0)) for r in results],
                            proved_contracts=sum(1 for r in proof if r['complete'] and not r['failed']), bounded_contracts=sum(1 for r in results if r['level'] != 'proof'),
                            functions_under_contract=len(short), functions=short[:400], external_functions_modelled=sorted(externs),
                            back_end='vcx + z3 4.8.12', solver_queries=tools['queries'], solver_s=round(tools['solver_s'], 2), instructions=tools['steps'], notes=notes, vacuous=vac),
              assumptions=assum, wall_s=round(time.time() - t0, 2), violations=len(conf or reported))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d contracts (%d complete), %d named obligations, %d VCs, %d discharged, %d functions, %.1fs' % (pid, len(results), len(results) - len(incomplete), named, vcs, disch, len(short), time.time() - t0))
    for r in incomplete:
        print('undecided: %s %s' % (r['name'], json.dumps(r['undecided'])[:600]))
    for n in notes:
        print('note: ' + n[:3000])
    for e in errors:
        print('error: ' + e[:3000])
    for x in vac:
        print('vacuous: %s never reached %s' % x)
    for l in out_lines:
        print(l)
    sys.stdout.flush()
    if out_lines:
        sys.exit(1)
    if not results or errors and not ok_units:
        sys.exit(2)
    sys.exit(0)


main()
