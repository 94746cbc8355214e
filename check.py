#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current tree (quick or thorough by VERIF_TIER).
check.py --setup: builds everything the checks use.
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: a counterexample that the natively compiled code
reproduces. Exit 2: nothing could be decided."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'tools'))
import jobs as J  # noqa: E402

BUILD = os.path.join(V, 'build')
TC = 'stable-x86_64-unknown-linux-gnu'
CPUS = min(8, os.cpu_count() or 1)
T0 = time.time()


def log(*a):
    print(*a, flush=True)


def run(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE='true')
    e.pop('RUSTFLAGS', None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def must(cmd, **k):
    rc, out = run(cmd, **k)
    if rc:
        log(out[-6000:])
        raise RuntimeError('BUILD-FAILED: ' + ' '.join(cmd))
    return out


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for base, sub, files in os.walk(d):
            sub[:] = sorted(x for x in sub if x not in ('target', '.git', 'node_modules', 'pkg'))
            for f in sorted(files):
                p = os.path.join(base, f)
                if os.path.islink(p) or not f.endswith(('.rs', '.toml', '.lock')):
                    continue
                h.update(p.encode())
                with open(p, 'rb') as g:
                    h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()


def stale(target, dirs):
    """cargo compares times, which copying a tree may have set back: forget everything built from other contents"""
    h = tree_hash(dirs)
    mark = os.path.join(target, 'contents')
    old = open(mark).read() if os.path.exists(mark) else ''
    if h != old:
        local = set()
        for d in dirs:
            for f in glob.glob(os.path.join(d, '**', 'Cargo.toml'), recursive=True):
                m = re.search(r'(?m)^name\s*=\s*"([^"]+)"', open(f).read())
                if m:
                    local.add(m.group(1))
        for f in glob.glob(os.path.join(target, '*', '.fingerprint', '*')):
            if os.path.basename(f).rsplit('-', 1)[0] in local:
                shutil.rmtree(f)
        if os.path.exists(mark):
            os.remove(mark)
    return h, mark


def build_symex():
    d = os.path.join(V, 'symex')
    t = os.path.join(BUILD, 'symex')
    os.makedirs(t, exist_ok=True)
    h, mark = stale(t, [d])
    must(['cargo', 'build', '--release', '--offline'], cwd=d, env={'CARGO_TARGET_DIR': t})
    open(mark, 'w').write(h)
    return os.path.join(t, 'release', 'symex')


SOURCES = ['/repo/lib/sia/rust']


def exported():
    names = set()
    for f in glob.glob(os.path.join(V, 'harness', 'src', '*.rs')):
        names.update(re.findall(r'fn ([a-z]+[0-9]+_[a-z0-9_]+)\(\)', open(f).read()))
    return sorted(names)


def build_ir():
    """the encoding's input: LLVM IR of /repo's crates, their dependencies, std and the harness"""
    d = os.path.join(V, 'harness')
    t = os.path.join(BUILD, 'sym')
    os.makedirs(t, exist_ok=True)
    h, mark = stale(t, [d] + SOURCES)
    pat = os.path.join(t, 'debug', 'deps', '*lto.input.bc')
    for f in glob.glob(pat):
        os.remove(f)
    # always compile the harness itself again: the whole-program bitcode is a by-product of that
    for f in glob.glob(os.path.join(t, 'debug', '.fingerprint', 'harness-*')):
        shutil.rmtree(f)
    must(['cargo', 'rustc', '--lib', '--offline', '--locked', '--crate-type', 'staticlib', '--', '--emit=llvm-ir', '-C', 'save-temps'], cwd=d,
         env={'CARGO_TARGET_DIR': t, 'RUSTFLAGS': '--cfg sia_verif --cfg sia_symbolic'})
    bc = glob.glob(pat)
    if len(bc) != 1:
        raise RuntimeError('BUILD-FAILED: no whole-program bitcode')
    sysroot = must(['rustc', '--print', 'sysroot']).strip().splitlines()[-1]
    b = os.path.join(sysroot, 'lib', 'rustlib', 'x86_64-unknown-linux-gnu', 'bin')
    a, o, ll = os.path.join(BUILD, 'a.bc'), os.path.join(BUILD, 'b.bc'), os.path.join(BUILD, 'all.ll')
    # the error-correcting decoder stays a function of its own, so that the executor can recognise the call
    dec = [x for x in must([b + '/llvm-nm', '--defined-only', bc[0]]).split() if '13labrador_ldpc' in x and x.endswith('9decode_bf')]
    must([b + '/opt', '-passes=forceattrs,internalize,globaldce', '-internalize-public-api-list=' + ','.join(exported() + dec)] +
         ['-force-attribute=%s:noinline' % x for x in dec] + [bc[0], '-o', a])
    must([b + '/opt', '-passes=default<O2>,function(lcssa)', '-vectorize-loops=false', '-vectorize-slp=false', a, '-o', o])
    must([b + '/llvm-dis', o, '-o', ll])
    for f in glob.glob(os.path.join(t, 'debug', 'deps', 'harness*.bc')) + glob.glob(os.path.join(t, 'debug', 'deps', 'harness*.o')) + [a, o]:
        os.remove(f)
    open(mark, 'w').write(h)
    return ll


def build_native(kind):
    """kind 'harness': the stubs of the symbolic runs; 'native': the real dependencies"""
    d = os.path.join(V, kind)
    t = os.path.join(BUILD, 'replay-' + kind)
    os.makedirs(t, exist_ok=True)
    h, mark = stale(t, [os.path.join(V, 'harness'), d] + SOURCES)
    must(['cargo', 'build', '--release', '--offline', '--locked', '--bin', 'replay'], cwd=d, env={'CARGO_TARGET_DIR': t, 'RUSTFLAGS': '--cfg sia_verif'})
    open(mark, 'w').write(h)
    return os.path.join(t, 'release', 'replay')


def native(binary, fn, params, model, stub, tag, keep=None):
    """run a harness natively; returns (observed, failures, last)"""
    p = keep or os.path.join(BUILD, 'run-%d-%s.txt' % (os.getpid(), tag))
    with open(p, 'w') as f:
        f.write('%s\n%s\n%s\n%s\n' % (fn, ' '.join(map(str, params)), ' '.join(model), ' '.join(stub)))
    try:
        q = subprocess.run([binary, p], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
        out = q.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return [], ['does not end within 120 s'], 'TIMEOUT'
    finally:
        if not keep:
            os.remove(p)
    obs, bad, last = [], [], 'NONE'
    for l in out.splitlines():
        if not l.startswith('@@'):
            continue
        w = l[2:].split(' ', 1)
        last = w[0]
        if w[0] == 'OBS':
            obs.append(w[1])
        elif w[0] == 'CHECK-FAILED':
            bad.append('check ' + w[1])
        elif w[0] == 'PANIC':
            bad.append('panic: ' + (w[1] if len(w) > 1 else ''))
    if last == 'ASSUME-FAILED':
        bad = []
    if last not in ('END', 'PANIC', 'EXPECTED-PANIC', 'ASSUME-FAILED'):
        bad.append('process ended with status %s' % q.returncode)
    return obs, bad, last


def known_findings():
    r = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) job=(\S+) params=(\S*) (.*)', l.strip())
            if m:
                r.append(m.groups())
    return r


def main():
    if sys.argv[1:] == ['--setup']:
        os.makedirs(BUILD, exist_ok=True)
        build_symex()
        build_ir()
        build_native('harness')
        build_native('native')
        return 0
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    limit = float(os.environ.get('VERIF_LIMIT', '780' if tier == 'quick' else '10800'))
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    symex = build_symex()
    ll = build_ir()
    built = time.time()
    stop = threading.Event()
    procs = set()
    pool2 = cf.ThreadPoolExecutor(2)
    natives = {k: pool2.submit(build_native, k) for k in ('harness', 'native')}
    todo = J.jobs(prop, tier)
    results = []

    def one(n):
        fn, params, t = todo[n]
        if stop.is_set():
            return None
        left = limit - (time.time() - T0) - 30
        if left < 5:
            return dict(status='inconclusive', reason='time limit of the check', fn=fn, params=params)
        cmd = [symex, '--ll', ll, '--fn', fn, '--params', ','.join(map(str, params)), '--time', str(int(min(t, left))), '--seed', str(seed)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        procs.add(p)
        try:
            out, err = p.communicate(timeout=left + 20)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
        procs.discard(p)
        try:
            d = json.loads(out)
        except ValueError:
            d = dict(status='inconclusive', reason='executor ended with status %s: %s' % (p.returncode, err.decode('utf-8', 'replace')[-200:]))
        d['fn'], d['params'] = fn, params
        return d

    def replay(d, model, stub, tag):
        """the model on the real code; first with the real dependencies, then with the stubs' values of the model"""
        for k in ('native', 'harness'):
            _, bad, _ = native(natives[k].result(), d['fn'], d['params'], model, stub, tag + k)
            if bad:
                return k, bad
        return None, []

    violations, validated, mismatch = [], 0, []
    known = known_findings()

    def listed(v):
        return [k for k in known if k[0] == prop and k[1] == v[0] and k[2] == ','.join(map(str, v[1]))]

    def finish(n, d):
        nonlocal validated
        if d is None:
            return
        results.append(d)
        d['verdict'] = d['status']
        if d['status'] == 'violation':
            k, bad = replay(d, d['model'], d['stub_model'], str(n))
            if bad:
                p = os.path.join(V, 'evidence', 'replay-%s-%d.txt' % (prop, n))
                native(natives[k].result(), d['fn'], d['params'], d['model'], d['stub_model'], '', keep=p)
                with open(p, 'a') as f:
                    f.write('# %s\n# run: %s %s\n# %s\n' % (d['what'], natives[k].result(), p, '; '.join(bad)))
                violations.append((d['fn'], d['params'], d['what'], p, bad))
            else:
                d['verdict'] = 'inconclusive'
                d['reason'] = 'counterexample not reproduced natively: ' + d['what']
        elif d['status'] == 'ok' or d.get('witnesses'):
            for w in d.get('witnesses', [])[:2]:
                obs, bad, _ = native(natives['harness'].result(), d['fn'], d['params'], w['model'], w['stub_model'], str(n))
                if bad:
                    p = os.path.join(V, 'evidence', 'replay-%s-%d.txt' % (prop, n))
                    native(natives['harness'].result(), d['fn'], d['params'], w['model'], w['stub_model'], '', keep=p)
                    violations.append((d['fn'], d['params'], 'an input the executor took for harmless', p, bad))
                elif obs != w['observed'] and not d.get('undetermined_codewords'):
                    mismatch.append((d['fn'], d['params'], w['observed'][:8], obs[:8]))
                    d['verdict'] = 'inconclusive'
                    d['reason'] = 'the native run of a witness differs from its symbolic run'
                elif obs == w['observed']:
                    validated += 1
        if any(not listed(v) for v in violations) and not stop.is_set():
            stop.set()
            for p in list(procs):
                p.kill()

    # the long runs first
    order = sorted(range(len(todo)), key=lambda n: (-todo[n][2], -todo[n][1][0] * (todo[n][1][1] if prop[0] == 'E' else 1)))
    with cf.ThreadPoolExecutor(CPUS) as pool:
        fs = {pool.submit(one, n): n for n in order}
        for f in cf.as_completed(fs):
            if not stop.is_set():
                finish(fs[f], f.result())
    ok = [d for d in results if d['verdict'] == 'ok']
    und = [d for d in results if d['verdict'] == 'inconclusive'] if not stop.is_set() else []
    real = []
    for fn, params, what, p, bad in violations:
        m = listed((fn, params))
        if m:
            log('KNOWN-FINDING: property=%s %s' % (prop, m[0][3]))
        else:
            real.append((fn, params, what, p, bad))
    tot = lambda k: sum(d.get(k, 0) for d in results)
    functions = {}
    for d in results:
        for f, c in d.get('functions', {}).items():
            functions[f] = functions.get(f, 0) + c
    hist = {}
    for d in results:
        for k, c in d.get('check_ids', {}).items():
            key = d['fn'] + ' check ' + k
            hist[key] = hist.get(key, 0) + c
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'explanation': 'Bounded symbolic execution of the LLVM IR compiled from /repo in this run. Each configuration below is one run of a harness '
                           'with every input symbolic; every assertion, overflow check, bounds check and panic on it is either decided by the executor\'s normal form and '
                           'interval arithmetic or by an SMT query (z3). states: ends of (merged) paths; transitions: IR instructions executed symbolically.',
            'states': tot('ends') + tot('dead'), 'transitions': tot('instructions'), 'traces_validated_against_impl': validated,
            'configurations': len(todo), 'configurations_decided': len(ok), 'configurations_undecided': len(und),
            'bounds': ['%s(%s)' % (d['fn'], ','.join(map(str, d['params']))) for d in ok],
            'undecided': [{'run': '%s(%s)' % (d['fn'], ','.join(map(str, d['params']))), 'why': d.get('reason', '')} for d in und],
            'symbolic_inputs': tot('vars'), 'forks': tot('forks'),
            'assertions': tot('checks'), 'assertions_by_normal_form_or_intervals': tot('checks_structural'), 'assertions_by_solver': tot('checks_solver'),
            'normal_form_and_interval_decisions_confirmed_by_solver': tot('confirmed'), 'of_tried': tot('confirm_tried'), 'comparison_lemmas_by_solver': tot('lemmas'), 'panic_sites_refuted_by_solver': tot('panics_refuted'),
            'sums_recognised_by_the_xor_normal_form': tot('xor_sums'), 'of_these_proven_again_by_solver': tot('xor_proven'),
            'undetermined_codewords': tot('undetermined_codewords'),
            'queries': tot('queries'), 'queries_answered_from_cache': tot('cached'), 'unsat': tot('unsat'), 'sat': tot('sat'), 'unknown': tot('unknown'), 'solver_seconds': round(tot('solver_time'), 2),
            'executor_seconds': round(tot('time'), 2), 'build_seconds': round(built - T0, 1),
            'assertions_by_id': hist,
            'functions_encoded': sorted(functions, key=lambda f: -functions[f])[:300],
            'translator_mismatches': [list(m) for m in mismatch],
            'samples': [{'run': d['fn'], 'params': d['params'], 'input': w['model'][:12], 'observed': w['observed'][:8]} for d in ok for w in d.get('witnesses', [])[:1]][:6] or ['none'],
        },
        'assumptions': ASSUMPTIONS.get(prop, []) + COMMON,
        'wall_s': round(time.time() - T0, 2), 'violations': len(real),
    }
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for d in und[:20]:
        log('UNDECIDED %s(%s): %s' % (d['fn'], ','.join(map(str, d['params'])), d.get('reason', '')))
    for m in mismatch[:5]:
        log('TRANSLATOR-MISMATCH', m)
    log('%s %s: %d of %d configurations decided, %d undecided, %d assertions, %d queries (%.1f s), %d traces validated, %.1f s' % (
        prop, tier, len(ok), len(todo), len(und), tot('checks'), tot('queries'), tot('solver_time'), validated, time.time() - T0))
    if real:
        for fn, params, what, p, bad in real[:3]:
            log('%s(%s): %s; natively: %s' % (fn, ','.join(map(str, params)), what, '; '.join(bad[:3])))
            log('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if not ok:
        return 2
    return 0


COMMON = [
    'bounds: the configurations listed (sizes, depths, steps are concrete; pixels, payloads, features, noise, keys\' messages are symbolic)',
    'symex (our symbolic executor) and z3 are trusted; every configuration\'s execution is compared with a native run of one witness',
    'code as compiled with opt-level 1 and overflow checks for x86-64; console output (println) is skipped',
]
_SIG = 'ed25519-dalek is replaced by an ideal signature scheme (exactly the recorded key, message, signature triples verify)'
_NOISE = 'error correction of a word with more unknown bits than a codeword of its code has (bytes that were never encoded) may yield any bits; that the decoder of labrador-ldpc itself ends without a panic on such words is assumed'
ASSUMPTIONS = {
    'E01': [_NOISE], 'E03': [_NOISE], 'C03': [_NOISE],
    'G01': [_SIG],
    'D01': [_NOISE, _SIG],
    'A01': [_SIG, _NOISE, 'features are arbitrary symbolic values supplied through the hook; histogram equalisation is replaced by a pixel inversion'],
    'W01': [_SIG, 'features are supplied by the harness (a function of the channel\'s pixels); histogram equalisation is replaced by a pixel inversion'],
    'W02': [_SIG, _NOISE, 'features are arbitrary symbolic values supplied through the hook; histogram equalisation is replaced by a pixel inversion'],
}

if __name__ == '__main__':
    try:
        sys.exit(main())
    except RuntimeError as e:
        log(e)
        sys.exit(2)
