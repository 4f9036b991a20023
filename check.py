#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's current tree. Exit 0 holds, 1 violated (VIOLATION line), 2 error."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'contracts'))
PY = 'python3-vt'
CLANG, CLANGXX = 'clang-18', 'clang++-18'
T0 = time.time()


def say(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


PROOFS = []          # running proofs; ended early once a failing input is known
STOPPED = False


def sh_proof(cmd, timeout):
    if STOPPED:
        return -9, '', 'stopped: a failing input is known'
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors='replace')
    PROOFS.append(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e if not STOPPED else 'stopped: a failing input is known'
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        return -9, o, e
    finally:
        PROOFS.remove(p)


def stop_proofs():
    global STOPPED
    STOPPED = True
    for p in list(PROOFS):
        try:
            p.kill()
        except OSError:
            pass


def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda x: x.decode(errors='replace') if isinstance(x, bytes) else (x or '')
        return -9, d(e.stdout), d(e.stderr)


class ToolError(Exception):
    pass


def ensure_irdump():
    out = os.path.join(V, 'build', 'irdump')
    src = os.path.join(V, 'engine', 'irdump.cpp')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    fl = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).replace('-fno-exceptions', '').split()
    tmp = out + '.%d' % os.getpid()
    r, o, e = sh(['g++', '-std=c++17', '-O1'] + fl + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], 300)
    if r:
        raise ToolError('building irdump: ' + e[-2000:])
    os.rename(tmp, out)
    return out


def incs(P):
    return sum([['-I', os.path.join(V, 'contracts', 'stubs', d)] for d in P.get('stubs', [])], []) + ['-I', os.path.join(REPO, 'src'), '-I', os.path.join(V, 'contracts'), '-DREPO_SRC=' + REPO + '/src']


def build_ir(P, D):
    irdump = ensure_irdump()
    ll, js = os.path.join(D, 'm.ll'), os.path.join(D, 'm.json')
    cmd = [CLANGXX, '-std=c++20', '-O1', '-DNDEBUG', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-mllvm', '-rotation-max-header-size=0', '-g1', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
           '-w', '-isystem', os.path.join(V, 'model', 'std')] + P.get('cflags', []) + incs(P) + ['-S', '-emit-llvm', os.path.join(V, 'contracts', P['src']), '-o', ll]
    r, o, e = sh(cmd, 300)
    if r:
        raise ToolError('contract does not compile against the current tree:\n' + e[-3000:])
    r, o, e = sh([irdump, ll], 120)
    if r:
        raise ToolError('irdump: ' + e[-2000:])
    open(js, 'w').write(o)
    return js


def build_native(P, D, fuzz=False):
    with open(os.path.join(D, 'vf_table.inc'), 'w') as f:
        for h in P['harnesses']:
            f.write('extern "C" void %s();\n' % h['name'])
        f.write('static struct { const char* name; void (*fn)(); } vf_table[] = {%s};\n' % ', '.join('{"%s", %s}' % (h['name'], h['name']) for h in P['harnesses']))
    out = os.path.join(D, 'fuzz' if fuzz else 'drv')
    san = 'fuzzer,address' if fuzz else 'address'
    base = [CLANGXX, '-std=c++20', '-O1', '-g1', '-DNDEBUG', '-DVF_NATIVE', '-D_GLIBCXX_ASSERTIONS', '-w', '-fsanitize=' + san, '-fsanitize-recover=none' if 0 else '-fno-omit-frame-pointer'] + (['-DVF_LIBFUZZER'] if fuzz else []) + P.get('cflags', []) + incs(P)
    objs = []
    jobs = []
    for s in (os.path.join(V, 'contracts', P['src']), os.path.join(V, 'contracts', 'vf_native.cpp')):
        o = os.path.join(D, ('f_' if fuzz else 'n_') + os.path.basename(s) + '.o')
        objs.append(o)
        jobs.append(subprocess.Popen(base + ['-I', D, '-c', s, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
    for j in jobs:
        e = j.communicate(timeout=300)[1]
        if j.returncode:
            raise ToolError('native build: ' + e[-3000:])
    r, o, e = sh(base + objs + ['-fuse-ld=lld', '-Wl,--unresolved-symbols=ignore-all', '-o', out], 200)
    if r:
        raise ToolError('native link: ' + e[-3000:])
    return out


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=76:allocator_may_return_null=1:handle_abort=1', UBSAN_OPTIONS='halt_on_error=1')


def verify(js, h, opts):
    r, o, e = sh_proof([PY, os.path.join(V, 'engine', 'verify.py'), js, h, json.dumps(opts)], opts.get('deadline', 300) + 60)
    m = re.search(r'^@@@(.*)$', o, re.M)
    if not m:
        return {'harness': h, 'mode': opts.get('mode', 'prove'), 'obligations': 0, 'by_solver': 0, 'violations': [], 'unknowns': [], 'missing_covers': [], 'bounded': [],
                'limits': ['the verifier gave no report (exit %s): %s' % (r, e[-500:])], 'functions': [], 'solver_s': 0, 'wall_s': 0, 'summarised': [], 'unrolled': [], 'paths': 0, 'queries': 0, 'covers': [], 'sites': 0}
    d = json.loads(m.group(1))
    if e.strip():
        d['stderr'] = e[-1500:]
    return d


def write_replay(path, label, inputs):
    with open(path, 'w') as f:
        f.write('# %s\n' % label)
        for x in inputs:
            if 'w' in x:
                f.write('u %d %d\n' % (x['w'], x['v']))
            else:
                f.write('b %d%s\n' % (len(x['b']), ''.join(' %d' % b for b in x['b'])))


def replay(drv, h, path):
    """True when the real code breaks the contract on these inputs"""
    r, o, e = sh([drv, 'replay', h, path], 60, ENV)
    return r not in (0, 3, 4), e


def fuzz_random(drv, h, seed, secs, out, maxlen):
    r, o, e = sh([drv, 'fuzz', h, str(seed), str(secs), out, str(maxlen)], secs + 60, ENV)
    return r, o, e


def search(drv, D, h, secs, seed, P):
    """native search for a failing input: random + libFuzzer"""
    outs = []
    with cf.ThreadPoolExecutor(7) as tp:
        fs = []
        for k, ml in enumerate(h.get('maxlens', [4, 16, 64, 300])):
            out = os.path.join(D, 'r_%s_%d' % (h['name'], k))
            fs.append((out, tp.submit(fuzz_random, drv, h['name'], seed * 1000 + k, secs, out, ml)))

        def lf(out):
            try:
                fz = os.path.join(D, 'fuzz')
                if not os.path.exists(fz):
                    fz = build_native(P, D, True)
                cd = tempfile.mkdtemp(dir=D)
                return sh([fz, '-max_total_time=%d' % secs, '-seed=%d' % (seed + 1), '-max_len=700', '-timeout=20', '-rss_limit_mb=4096', '-artifact_prefix=%s/' % cd, '-use_value_profile=1', cd], secs + 120,
                          dict(ENV, VF_HARNESS=h['name'], VF_OUT=out))
            except ToolError:
                return None
        out = os.path.join(D, 'lf_%s' % h['name'])
        fs.append((out, tp.submit(lf, out)))
        for out, f in fs:
            f.result()
            if os.path.exists(out):
                bad, e = replay(drv, h['name'], out)
                if bad:
                    outs.append((out, e))
    return outs


def main():
    ids = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    import props
    P = props.PROPS[ids]
    os.makedirs(os.path.join(V, 'build'), exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    D = tempfile.mkdtemp(prefix='run-%s-' % ids, dir=os.path.join(V, 'build'))
    try:
        return run(ids, P, D, tier, seed, thorough)
    finally:
        shutil.rmtree(D, ignore_errors=True)


def known(ids):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^known: property=(\S+) harness=(\S+) replay=(\S+) (.*)$', l.strip())
            if m and m.group(1) == ids:
                out.append(m.groups()[1:])
    return out


def run(ids, P, D, tier, seed, thorough):
    H = P['harnesses']
    budget = float(os.environ.get('VERIF_BUDGET', 2400 if thorough else 420))
    say('property', ids, 'tier', tier)
    with cf.ThreadPoolExecutor(2) as tp:
        fi = tp.submit(build_ir, P, D)
        fn = tp.submit(build_native, P, D)
        js, drv = fi.result(), fn.result()
    say('built IR and native drivers')
    rep = os.path.join(V, 'build', 'replay')
    os.makedirs(rep, exist_ok=True)
    natsecs = 60 if thorough else 4
    reports = {}
    nat = {}
    with cf.ThreadPoolExecutor(8) as tp, cf.ThreadPoolExecutor(3) as tpn:
        fs = {}
        for h in sorted(H, key=lambda h: -h.get('cost', 1)):
            if h.get('native_only'):
                continue
            o = dict(deadline=h.get('deadline', 240 if not thorough else 900), unroll=h.get('unroll', 8), mode=h.get('mode', 'prove'))
            if h.get('max_bytes') is not None:
                o['max_bytes'] = h['max_bytes'] if not thorough else h.get('max_bytes_thorough', h['max_bytes'])
            if h.get('mode') == 'bmc' and thorough:
                o['unroll'] = h.get('unroll_thorough', o['unroll'])
            if thorough:
                o.update(ob_ms=60000, feas_ms=6000)
            fs[h['name']] = tp.submit(verify, js, h['name'], o)
        for h in H:
            if h.get('proof_only'):
                continue
            out = os.path.join(D, 'nat_' + h['name'])
            nat[h['name']] = (out, tpn.submit(fuzz_random, drv, h['name'], seed, natsecs, out, 40))
        nruns = {}
        nfail = {}
        for n, (out, f) in nat.items():
            r, o, e = f.result()
            nruns[n] = int(o.strip() or 0) if r == 0 else -1
            if os.path.exists(out):
                bad, e = replay(drv, n, out)
                if bad:
                    nfail[n] = (out, e)
                elif r != 0:
                    say('native run of %s failed, but its input does not fail when replayed (exit %s)' % (n, r))
        if nfail:
            say('failing input found by native runs:', ', '.join(nfail))
            stop_proofs()
        for n, f in fs.items():
            reports[n] = f.result()
    known_list = known(ids)
    viol = []           # (harness, label, replay path, found)
    undone = []
    for h in H:
        n = h['name']
        R = reports.get(n)
        why = []
        if R is not None:
            if R['violations']:
                why += ['refuted: %s at %s' % (v['label'], v['where']) for v in R['violations']]
            why += ['undecided: %s at %s (%s)' % tuple(u) for u in R['unknowns']]
            why += ['tool limit: ' + l for l in R['limits']]
            why += ['not reached: ' + c for c in R['missing_covers']]
            if not R['obligations']:
                why.append('no obligations generated')
            say('%-28s %-5s obligations %5d (solver %4d) paths %4d solver %.1fs wall %.1fs native runs %s%s' % (
                n, R['mode'], R['obligations'], R['by_solver'], R['paths'], R['solver_s'], R['wall_s'], nruns.get(n, '-'), '  NOT DISCHARGED' if why else ''))
        if n in nfail:
            why.append('native: ' + nfail[n][1][-300:])
        if why:
            for w in why[:6]:
                say('   ', w[:300])
            undone.append((h, R, why))

    def save(h, src, extra):
        dst = os.path.join(rep, '%s-%s.replay' % (ids, h['name']))
        t = open(src).read()
        with open(dst, 'w') as f:
            f.write(t)
            f.write('# harness %s\n# replay: build the native driver with check.py --replay %s %s %s\n' % (h['name'], ids, h['name'], dst))
            for l in extra:
                f.write('# ' + l.replace('\n', ' ')[:1000] + '\n')
        return dst
    left = max(60.0, budget - (time.time() - T0))
    if nfail:
        undone = [u for u in undone if u[0]['name'] in nfail]
    for k, (h, R, why) in enumerate(undone):
        n = h['name']
        found = None
        if n in nfail:
            found = nfail[n][0]
        if found is None and R is not None:
            for j, v in enumerate(R['violations']):
                p = os.path.join(D, 'm_%s_%d' % (n, j))
                write_replay(p, v['label'], v['inputs'])
                bad, e = replay(drv, n, p)
                if bad:
                    found = p
                    break
        if found is None and R is not None and h.get('bmc', True) and not h.get('proof_only'):
            slot = max(20.0, min(80.0, left / (2 * len(undone))))
            say('   searching', n, 'for a failing input: bounded exploration, random and coverage guided runs')
            with cf.ThreadPoolExecutor(8) as tp:
                fs = [tp.submit(verify, js, n, dict(mode='bmc', deadline=slot, unroll=u, max_bytes=b, first_only=True)) for u, b in ((3, 3), (6, 12))]
                fz = tp.submit(search, drv, D, h, min(slot, 45), seed, P)
                for f in fs:
                    B = f.result()
                    for j, v in enumerate(B['violations']):
                        p = os.path.join(D, 'b_%s_%d_%d' % (n, j, id(f)))
                        write_replay(p, v['label'], v['inputs'])
                        bad, e = replay(drv, n, p)
                        if bad and found is None:
                            found = p
                so = fz.result()
                if found is None and so:
                    found = so[0][0]
        left = max(30.0, budget - (time.time() - T0))
        if found:
            viol.append((h, save(h, found, why), True))
            break
        dst = os.path.join(rep, '%s-%s.obligation' % (ids, n))
        with open(dst, 'w') as f:
            f.write('# harness %s: obligations not discharged; no failing input found\n' % n)
            for w in why:
                f.write(w + '\n')
            f.write(json.dumps(R, indent=1) if R else '')
        viol.append((h, dst, False))
    # known findings
    kf = []
    for hn, rp, what in known_list:
        bad, e = replay(drv, hn, os.path.join(V, rp))
        if bad:
            kf.append(what)
            print('KNOWN-FINDING: property=%s %s' % (ids, what), flush=True)
    proved = [h for h in H if h['name'] in reports and not any(u[0] is h for u in undone)]
    ob = sum(reports[n]['obligations'] for n in reports)
    bounded = [h['name'] for h in H if h.get('mode') == 'bmc' or h.get('bound')]
    tb = props_trusted(P)
    ev = {
        'property': ids, 'tier': tier, 'seed': seed, 'level': P.get('level', 'proof'),
        'coverage': {
            'obligations': ob,
            'discharged': ob - sum(len(reports[n]['violations']) + len(reports[n]['unknowns']) for n in reports),
            'checker_cmd': 'python3 check.py ' + ids,
            'trusted_base': tb,
            'solver_answers': {b: sum(reports[n].get('backends', {}).get(b, 0) for n in reports) for b in ('z3', 'cvc5-int', 'cvc5', 'z3-new')},
            'discharged_by': {'solver': sum(reports[n]['by_solver'] for n in reports), 'simplifier': ob - sum(reports[n]['by_solver'] for n in reports)},
            'solver_s': round(sum(reports[n]['solver_s'] for n in reports), 1),
            'queries': sum(reports[n]['queries'] for n in reports),
            'harnesses': [{'name': n, 'mode': reports[n]['mode'], 'obligations': reports[n]['obligations'], 'by_solver': reports[n]['by_solver'], 'sites': reports[n]['sites'],
                           'paths': reports[n]['paths'], 'wall_s': reports[n]['wall_s'], 'covers_reached': reports[n]['covers'],
                           'loops_summarised_unbounded': reports[n]['summarised'], 'loops_unrolled_completely': reports[n]['unrolled'],
                           'bounded_loops': reports[n]['bounded'], 'calls_checked_against_contracts': reports[n].get('replaced', []), 'functions_executed': reports[n]['functions']} for n in reports],
            'functions_under_contract': P.get('functions', []),
            'bounded_standins': [{'harness': h['name'], 'bound': h.get('bound', 'unroll %s, lengths <= %s' % (h.get('unroll'), h.get('max_bytes')))} for h in H if h.get('mode') == 'bmc' or h.get('bound')],
            'native_only_harnesses': [h['name'] for h in H if h.get('native_only')],
            'native_model_crosscheck_runs': {n: v for n, v in nruns.items()},
            'known_findings': kf,
        },
        'assumptions': P.get('assumptions', []) + COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - T0, 1), 'violations': len(viol),
    }
    with open(os.path.join(V, 'evidence', ids + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if viol:
        best = next((v for v in viol if v[2]), viol[0])
        h, path, found = best
        for w in next(u[2] for u in undone if u[0] is h)[:10]:
            print('  ' + w[:400])
        print('VIOLATION property=%s replay=%s%s' % (ids, path, '' if found else ' no-failing-input-found'), flush=True)
        return 1
    say('held: %d obligations discharged, harnesses proved for all inputs: %d, bounded: %d' % (ob, len([h for h in proved if h['name'] not in bounded]), len(bounded)))
    return 0


COMMON_ASSUMPTIONS = [
    'partial correctness: termination is not proved (native runs are timed)',
    'loops run fewer than 2^48 iterations and containers stay below 2^42 bytes; allocation never fails',
    'clang -O1 translates the C++ source to LLVM IR faithfully; the IR semantics used by engine/exec.py (two-complement, poison not tracked)',
    'what() text, exception message contents and to_string results are unspecified',
]


def props_trusted(P):
    return ['engine/exec.py, core.py, loops.py, builtins_vf.py (VC generator and memory model)', 'z3, and on its undecided queries cvc5 1.1.2 / z3 5.3.2', 'clang 18 front end and -O1 pipeline',
            'model/std: contract models of std::vector, std::string, std::unordered_map (storage as an array of exactly size() elements)',
            'contracts of the C/C++ runtime in engine/builtins_vf.py'] + P.get('trusted', [])


if __name__ == '__main__':
    if sys.argv[1] == '--setup':
        ensure_irdump()
        sys.exit(0)
    if sys.argv[1] == '--replay':
        import props
        P = props.PROPS[sys.argv[2]]
        D = tempfile.mkdtemp(prefix='replay-', dir=os.path.join(V, 'build'))
        try:
            bad, e = replay(build_native(P, D), sys.argv[3], sys.argv[4])
            print(e)
            sys.exit(1 if bad else 0)
        finally:
            shutil.rmtree(D, ignore_errors=True)
    try:
        sys.exit(main())
    except ToolError as e:
        print('ERROR', e)
        sys.exit(2)
