#!/usr/bin/env python3
"""Decides one property: builds the engine and, from /repo's current tree, the
LLVM IR and native binaries of the harnesses; executes the property's entries
symbolically; replays models and counterexamples against the native build.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: a
counterexample that reproduces natively. Anything else (2): no verdict.

FD_REPO (a copy of /repo) and FD_CACHE are for development only.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import suite  # noqa: E402

REPO = os.environ.get('FD_REPO', '/repo')
CACHE = os.environ.get('FD_CACHE', os.path.join(VERIF, '.cache'))
TRIPLE = 'x86_64-unknown-linux-gnu'
TOOLCHAIN = 'stable-' + TRIPLE
PROFILES = {'release': 'release', 'checked': 'checked'}
JOBS = int(os.environ.get('FD_JOBS', '8'))


class Broken(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=600):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        out = p.stdout.decode('utf-8', 'replace')
        raise Broken('%s failed:\n%s' % (' '.join(cmd), out[-4000:]))


def digest(*paths):
    h = hashlib.sha256()
    for root in paths:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs
            if '/target/' not in d + '/')
        for f in files:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as x:
                h.update(x.read())
            h.update(b'\1')
    return h.hexdigest()[:16]


def base_env(target, flags):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(('CARGO', 'RUST')) or k in ('CARGO_HOME', 'RUSTUP_HOME')}
    e.update(CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=target,
             RUSTUP_TOOLCHAIN=TOOLCHAIN, RUSTC_BOOTSTRAP='1', RUSTFLAGS=flags)
    return e


def build_engine():
    src = os.path.join(VERIF, 'sx')
    t = os.path.join(CACHE, 'engine')
    e = base_env(t, '')
    sh(['cargo', 'build', '--release', '--offline', '--quiet'], env=e, cwd=src)
    return os.path.join(t, 'release', 'sx')


def harness_dir(key):
    """The harness crate; a copy pointing at FD_REPO if that is set."""
    if REPO == '/repo':
        return os.path.join(VERIF, 'harness')
    d = os.path.join(CACHE, 'h-' + key)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, 'harness'), d,
                    ignore=shutil.ignore_patterns('target'))
    f = os.path.join(d, 'Cargo.toml')
    with open(f) as x:
        s = x.read().replace('path = "/repo"', 'path = "%s"' % REPO)
    with open(f, 'w') as x:
        x.write(s)
    return d


def fresh_target(kind, key):
    """Target directory of this source state; dependencies may be reused, the
    library and the harnesses never are unless the sources are the same."""
    t = os.path.join(CACHE, '%s-%s' % (kind, key))
    if os.path.isdir(t):
        return t
    old = [o for o in glob.glob(os.path.join(CACHE, kind + '-*')) if os.path.exists(o + '/done')]
    old.sort(key=os.path.getmtime)
    if old:
        tmp = t + '.tmp%d' % os.getpid()
        shutil.copytree(old[-1], tmp, symlinks=True)
        for pat in ('.fingerprint/%s-*', 'deps/*%s-*', 'build/%s-*', 'incremental/%s*',
                    '*%s*'):
            for c in ('flatdata', 'fdh', 'replay'):
                for f in glob.glob(os.path.join(tmp, '*', '*', pat % c)) + \
                        glob.glob(os.path.join(tmp, '*', pat % c)):
                    if os.path.isdir(f) and not os.path.islink(f):
                        shutil.rmtree(f)
                    else:
                        os.unlink(f)
        os.unlink(os.path.join(tmp, 'done'))
        os.rename(tmp, t)
        for o in old[:-2]:
            shutil.rmtree(o, ignore_errors=True)
    return t


def build_ir(profile, key, hdir):
    t = fresh_target('ir-' + profile, key)
    e = base_env(t, '--cap-lints=allow --cfg=flatdata_verif --emit=llvm-ir,link '
                 '-Ccodegen-units=1 -Cno-vectorize-loops -Cno-vectorize-slp '
                 '-Cdebuginfo=0 -Cembed-bitcode=no -Crelocation-model=static')
    done = os.path.join(t, 'done')
    if not os.path.exists(done):
        sh(['cargo', 'build', '--quiet', '--lib', '--profile', profile, '--target', TRIPLE,
            '-Zbuild-std=core,alloc,std,panic_unwind', '-Zbuild-std-features=panic-unwind'],
           env=e, cwd=hdir)
        open(done, 'w').close()
    os.utime(t)
    # panic_abort is built but not linked; both define the same symbols
    ll = sorted(f for f in glob.glob(os.path.join(t, TRIPLE, profile, 'deps', '*.ll'))
                if not os.path.basename(f).startswith('panic_abort-'))
    names = [re.sub(r'-[0-9a-f]{16}\.ll$', '', os.path.basename(f)) for f in ll]
    if any(names.count(n) != 1 for n in ('fdh', 'flatdata', 'std', 'core', 'alloc', 'panic_unwind')):
        raise Broken('unexpected modules: %s' % names)
    return ll


def build_native(profile, key, hdir):
    t = fresh_target('native-' + profile, key)
    e = base_env(t, '--cap-lints=allow --cfg=flatdata_verif -Zsanitizer=address')
    done = os.path.join(t, 'done')
    if not os.path.exists(done):
        sh(['cargo', 'build', '--quiet', '--bin', 'replay', '--profile', profile,
            '--target', TRIPLE], env=e, cwd=hdir)
        open(done, 'w').close()
    os.utime(t)
    return os.path.join(t, TRIPLE, profile, 'replay')


def build(variants):
    os.makedirs(CACHE, exist_ok=True)
    key = digest(os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'),
                 os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'lib', 'run.py'))
    hdir = harness_dir(key)
    with cf.ThreadPoolExecutor(8) as ex:
        eng = ex.submit(build_engine)
        ir = {v: ex.submit(build_ir, PROFILES[v], key, hdir) for v in variants}
        nat = {v: ex.submit(build_native, PROFILES[v], key, hdir) for v in variants}
        return (eng.result(), {v: f.result() for v, f in ir.items()},
                {v: f.result() for v, f in nat.items()})


# ---- native runs ------------------------------------------------------------
def job_line(i, entry, model):
    ins = ','.join(str(v) for v, _ in model['inputs']) or '-'
    ns = ','.join('%s=%s' % (k, v) for k, v in model['notes']) or '-'
    return '%d %s %s %s' % (i, entry, ins, ns)


def run_native(exe, lines, scratch, timeout=300, hangs=3):
    """{id: (outcome, text)}; a job that ends the process has outcome 'crash',
    one that does not end within the time limit 'hang'."""
    res = {}
    todo = list(lines)
    while todo and hangs:
        d = tempfile.mkdtemp(dir=scratch)
        f = os.path.join(d, 'jobs')
        with open(f, 'w') as x:
            x.write('\n'.join(todo) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:color=never:allocator_may_return_null=1',
                   RUST_BACKTRACE='0')
        err = os.path.join(d, 'err')
        try:
            with open(err, 'wb') as ef:
                p = subprocess.run([exe, f, d], env=env, stdout=subprocess.PIPE,
                                   stderr=ef, timeout=timeout)
            out, code = p.stdout.decode('utf-8', 'replace'), p.returncode
        except subprocess.TimeoutExpired as x:
            out, code = (x.stdout or b'').decode('utf-8', 'replace'), 'timeout'
        started = None
        for l in out.splitlines():
            w = l.split(' ', 2)
            if len(w) < 2 or not w[0].isdigit():
                continue
            if w[1] == 'start':
                started = int(w[0])
            else:
                res[int(w[0])] = (w[1], w[2] if len(w) > 2 else '')
                started = None
        with open(err, 'rb') as ef:
            et = ef.read().decode('utf-8', 'replace')
        shutil.rmtree(d, ignore_errors=True)
        if started is not None:
            m = re.search(r'ERROR: AddressSanitizer:? ([^\n]*)', et)
            if code == 'timeout':
                hangs -= 1
                res[started] = ('hang', 'no end after %d s' % timeout)
            else:
                res[started] = ('crash', 'AddressSanitizer: ' + m.group(1)[:160] if m else
                                'process ended with %s' % code)
        left = [l for l in todo if int(l.split(' ', 1)[0]) not in res]
        if len(left) == len(todo) or started is None and code != 0:
            raise Broken('replay ended with %s\n%s' % (code, et[-1500:]))
        todo = left
    return res


# ---- one property -----------------------------------------------------------
class Skipped(Exception):
    pass


def run_entry(engine, ll, job, secs, out, stop):
    cmd = [engine, out, job['entry'], str(secs), str(job.get('paths', 2000000)),
           str(job.get('query_ms', 60000))] + ll
    t = time.time()
    log = out + '.log'
    with open(log, 'wb') as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT)
    try:
        grace = None
        while True:
            try:
                p.wait(0.5)
                break
            except subprocess.TimeoutExpired:
                if stop.is_set() and grace is None:
                    grace = time.time() + 20
                if grace and time.time() > grace:
                    raise Skipped()
                if time.time() - t > secs + 120:
                    raise Broken('engine on %s (%s): out of time' % (job['entry'], job['variant']))
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
    if p.returncode != 0:
        with open(log, 'rb') as f:
            text = f.read().decode('utf-8', 'replace')
        at = text.find('panicked at')
        raise Broken('engine on %s (%s): exit %s: %s' % (
            job['entry'], job['variant'], p.returncode,
            ' '.join((text[at:at + 300] if at >= 0 else text[-300:]).split())))
    with open(out) as f:
        r = json.load(f)
    os.unlink(out)
    os.unlink(log)
    r['variant'] = job['variant']
    r['elapsed'] = time.time() - t
    return r


def fmt(model):
    return ' '.join('%s:%s' % (v, w) for v, w in model['inputs'][:24])


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    rnd = random.Random(seed)
    start = time.time()
    spec = suite.SUITE[prop]
    jobs = suite.jobs(prop, tier)
    only = [a[7:] for a in sys.argv if a.startswith('--only=')]
    if only:
        jobs = [j for j in jobs if any(j['entry'].startswith(o) for o in only)]
    variants = sorted(set(j['variant'] for j in jobs))
    engine, ir, native = build(variants)
    built = time.time() - start

    scratch = tempfile.mkdtemp(prefix='fdverif-')
    errors, results = [], []
    # entries that were not explored to the end within their limits
    limits = []
    violations, unconfirmed = [], []
    validated = 0
    lock = threading.Lock()
    # a counterexample decides: what has not started then is left out
    stop = threading.Event()
    deadline = start + (780 if tier == 'quick' else 6 * 3600)
    skipped = []

    def one(n, job):
        nonlocal validated
        secs = int(min(job['secs'], deadline - time.time()))
        if stop.is_set():
            raise Skipped()
        if secs < 5:
            with lock:
                limits.append('%s (%s): no time left' % (job['entry'], job['variant']))
            return
        r = run_entry(engine, ir[job['variant']], job, secs, os.path.join(scratch, 'o%d' % n), stop)
        exe = native[job['variant']]
        where = '%s (%s)' % (job['entry'], job['variant'])
        bad = r['violations']
        confirmed, other, slow = [], [], False
        if bad:
            lines = [job_line(i, job['entry'], m) for i, m in enumerate(bad[:12])]
            nat = run_native(exe, lines, scratch, 60, 1)
            for i, m in enumerate(bad[:12]):
                o = nat.get(i, ('none', ''))
                m['native'] = '%s %s' % o
                m['where'] = where
                m['entry'] = job['entry']
                m['variant'] = job['variant']
                if o[0] in ('assert', 'panic', 'crash', 'hang'):
                    confirmed.append(m)
                elif m['kind'] == 'hang':
                    # slow to explore, but it ends
                    slow = True
                elif o[0] != 'none' or not confirmed:
                    other.append(m)
            if any(not is_known(m) for m in confirmed):
                stop.set()
        # the engine's account of passing paths against the real thing
        pm = r['path_models']
        cap = job.get('replays', 150 if tier == 'quick' else 1500)
        with lock:
            idx = list(range(len(pm)))
            if len(idx) > cap:
                idx = sorted(rnd.sample(idx, cap))
        nat = {} if stop.is_set() else run_native(
            exe, [job_line(i, job['entry'], pm[i]) for i in idx], scratch)
        errs, lims, good = [], [], 0
        for i in idx:
            o = nat.get(i, ('none', ''))
            if o[0] == 'ok':
                good += 1
            elif o[0] in ('assert', 'crash', 'panic'):
                # passes in the model, fails in reality: report what is real
                m = dict(pm[i], kind='native', msg='%s %s' % o, native='%s %s' % o, trace=[],
                         where=where, entry=job['entry'], variant=job['variant'])
                confirmed.append(m)
            elif len(errs) < 3 and not stop.is_set():
                errs.append('%s: model and native run disagree: %s [%s]' % (
                    where, ' '.join(o), fmt(pm[i])))
        if not bad:
            if r['status'] == 'limit' or 'too much allocated' in r['detail']:
                lims.append('%s: %s' % (where, r['detail']))
            elif r['status'] != 'complete':
                errs.append('%s: %s' % (where, r['detail']))
            elif r['missing_covers']:
                errs.append('%s: cover points not reached: %s' % (where, r['missing_covers']))
            elif r['paths'] == 0:
                errs.append('%s: no path' % where)
        elif slow:
            lims.append('%s: a path is too long to be explored' % where)
        r['validated'] = good
        r['samples'] = [{'entry': where, 'inputs': fmt(m), 'observed': m['notes'][:12]}
                        for m in pm[:1] + pm[len(pm) // 2:len(pm) // 2 + 1]]
        r.pop('path_models')
        with lock:
            validated += good
            results.append(r)
            errors.extend(errs)
            limits.extend(lims)
            violations.extend(confirmed)
            unconfirmed.extend(other)
        if os.environ.get('FD_VERBOSE'):
            print('%-34s %-8s %6d paths %6d asserts %6d queries %6.2fs %5d replays %s' % (
                job['entry'], job['variant'], r['paths'], r['asserts'], r['queries'],
                r['elapsed'], good, '' if r['status'] == 'complete' else r['detail'][:80]),
                flush=True)

    known = suite.known(VERIF, prop)

    def is_known(v):
        return next((k for k in known if k['entry'] == v['entry'].split(':')[0]
                     and k['match'] in v['msg']), None)

    try:
        order = sorted(range(len(jobs)), key=lambda n: -jobs[n].get('weight', 1))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fs = [ex.submit(one, n, jobs[n]) for n in order]
            for f in cf.as_completed(fs):
                try:
                    f.result()
                except Broken as b:
                    errors.append(str(b))
                except Skipped:
                    skipped.append(1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    fresh, listed = [], {}
    for v in violations:
        k = is_known(v)
        if k:
            listed[k['what']] = v
        else:
            fresh.append(v)
    replay = None
    if fresh:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, prop + '.json')
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'how': 'lib/replay.sh %s' % replay,
                       'counterexamples': fresh[:20]}, f, indent=1)
    funcs = sorted(set(f for r in results for f in r['functions']) | set(spec['functions']))
    tot = lambda k: sum(r[k] for r in results)  # noqa: E731
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('paths') + tot('infeasible'),
            'transitions': tot('steps'),
            'traces_validated_against_impl': validated,
            'samples': [s for r in results for s in r['samples']][:40],
            'entries': len(results),
            'symbolic_paths': tot('paths'),
            'branches_forked': tot('forks'),
            'assertions_checked': tot('asserts'),
            'assertions_decided_by_solver': tot('asserts_solved'),
            'solver_queries': tot('queries'),
            'solver_unsat': tot('unsat'),
            'solver_cache_hits': tot('cache_hits'),
            'solver_seconds': round(tot('solver_s'), 2),
            'solver': sorted(set('z3 ' + r['solver'] for r in results)),
            'entries_left_out_after_a_violation': len(skipped),
            'incomplete': [e[:300] for e in errors + limits],
            'functions_encoded': funcs,
            'bounds': spec['bounds'] + ([spec['thorough']] if tier == 'thorough' and spec.get('thorough') else []),
            'outside_bounds': spec['outside'],
            'build_variants': variants,
            'build_seconds': round(built, 1),
            'exhaustive': False,
            'per_entry': [{'entry': r['entry'], 'variant': r['variant'], 'paths': r['paths'],
                           'asserts': r['asserts'], 'queries': r['queries'],
                           'solver_s': r['solver_s'], 'wall_s': round(r['elapsed'], 2)}
                          for r in sorted(results, key=lambda r: (r['entry'], r['variant']))],
        },
        'assumptions': suite.ASSUMPTIONS + spec.get('assumptions', []),
        'wall_s': round(time.time() - start, 2),
        'violations': len(fresh),
    }
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for what in listed:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if fresh:
        seen = set()
        for v in fresh:
            k = (v['entry'].split(':')[0], v['msg'])
            if k in seen or len(seen) > 8:
                continue
            seen.add(k)
            print('  %s: %s: %s; natively: %s; inputs %s' % (
                v['where'], v['kind'], v['msg'], v['native'], fmt(v)))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if unconfirmed:
        for v in unconfirmed[:4]:
            print('  unconfirmed: %s: %s: %s; natively: %s; inputs %s' % (
                v['where'], v['kind'], v['msg'], v['native'], fmt(v)))
        errors.append('counterexamples that do not reproduce natively')
    for e in limits[:12]:
        print('  INCOMPLETE: ' + e)
    if len(limits) * 2 > len(jobs):
        errors.append('most entries were not explored to the end')
    if errors:
        for e in errors[:12]:
            print('  error: ' + e)
        print('NO VERDICT property=%s' % prop)
        return 2
    print('OK property=%s: %d paths, %d assertions, %d solver queries, %d traces replayed, %.0f s' % (
        prop, tot('paths'), tot('asserts'), tot('queries'), validated, time.time() - start))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as b:
        print(b)
        print('NO VERDICT property=%s' % sys.argv[1])
        sys.exit(2)
