#!/usr/bin/env python3
"""Run the check of one property:  check.py P07 [--tier quick|thorough]
                replay a violation:  check.py --replay FILE

Stages (all of them work on /repo's current working tree, regenerated on every run):
  1. Verus   - contracts on the mechanically extracted real functions (tools/verus_stage.py)
  3. native  - bounded stand-in: the same contracts evaluated on the real crate (native/)
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Other: error of the check.
"""
import json, os, re, subprocess, sys, tempfile, time, shutil, threading
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(ROOT, 'work')
sys.path.insert(0, os.path.join(ROOT, 'tools'))

ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
ENV.pop('RUSTC_WRAPPER', None)
ENV.pop('CARGO_TARGET_DIR', None)
if 'HOME' not in ENV:
    ENV['HOME'] = '/root'
ENV['PATH'] = '/root/.cargo/bin:' + ENV.get('PATH', '/usr/local/bin:/usr/bin:/bin')

def log(*a):
    print(*a, flush=True)

# ---------------------------------------------------------------- native stage

def native_build():
    """Build the native stand-in against REPO; returns path of the binary."""
    src = os.path.join(ROOT, 'native')
    tgt = os.path.join(WORK, 'native-target')
    os.makedirs(WORK, exist_ok=True)
    if REPO != '/repo':     # development only: point the path dependency elsewhere
        alt = os.path.join(WORK, 'native-src')
        shutil.rmtree(alt, ignore_errors=True)
        shutil.copytree(src, alt, ignore=shutil.ignore_patterns('target'))
        p = os.path.join(alt, 'Cargo.toml')
        s = open(p).read().replace('/repo', REPO)
        open(p, 'w').write(s)
        src = alt
    cmd = ['cargo', 'build', '--release', '--offline', '--quiet']
    # cargo goes by mtime: forget the fingerprint of the crate under test
    fp = os.path.join(tgt, 'release', '.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith('cbm-'):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    r = subprocess.run(cmd, cwd=src, env=dict(ENV, CARGO_TARGET_DIR=tgt, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        raise RuntimeError('native build failed:\n' + r.stdout[-4000:])
    return os.path.join(tgt, 'release', 'cbmnat')

def native_run(binary, prop, seed, scale, only=None, timeout=700):
    scratch = tempfile.mkdtemp(prefix='cbmnat-%s-' % prop)
    try:
        cmd = [binary, prop, '--seed', str(seed), '--scale', str(scale), '--scratch', scratch]
        if only is not None:
            cmd += ['--only', str(only)]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout)
        except subprocess.TimeoutExpired:
            return dict(seed=seed, scale=scale, fails=[], done=None, timeout=True, rc=None)
        fails, done = [], None
        for l in r.stdout.splitlines():
            m = re.match(r'FAIL (\w+) (.*)', l)
            if m:
                try:
                    fails.append(json.loads(m.group(2)))
                except ValueError:
                    fails.append(dict(case=None, what='?', message=l))
            if l.startswith('DONE '):
                try:
                    done = json.loads(l[5:])
                except ValueError:
                    done = {}
        if done is None and not fails:
            # the process died (abort, stack overflow, ...): a crash of the code under test
            fails.append(dict(case=None, what='process ended with status %s' % r.returncode, message=r.stderr[-2000:]))
        return dict(seed=seed, scale=scale, fails=fails, done=done, timeout=False, rc=r.returncode)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def native_many(binary, prop, seeds, scale, timeout, jobs):
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda s: native_run(binary, prop, s, scale, timeout=timeout), seeds))

# Properties whose native stage enumerates its whole domain: one shard is enough.
SINGLE = {'P01', 'P18', 'P19'}

# ---------------------------------------------------------------- known findings

def known_findings(prop):
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) (\w+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out

# ---------------------------------------------------------------- main

def violation(prop, kind, body, suffix=''):
    d = os.path.join(WORK, 'replay')
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, '%s-%s-%d.json' % (prop, kind, n))):
        n += 1
    p = os.path.join(d, '%s-%s-%d.json' % (prop, kind, n))
    body = dict(property=prop, kind=kind, **body)
    with open(p, 'w') as f:
        json.dump(body, f, indent=1)
    log('VIOLATION property=%s replay=%s%s' % (prop, p, suffix))
    return p

def replay(path):
    b = json.load(open(path))
    prop = b['property']
    if b['kind'] == 'native':
        binary = native_build()
        r = native_run(binary, prop, b['seed'], b['scale'], only=b['fail'].get('case'))
        for f in r['fails']:
            log('reproduced: case %s (%s): %s' % (f.get('case'), f.get('what'), f.get('message')))
        return 1 if r['fails'] else 0
    log(json.dumps(b, indent=1))
    return 1

def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    skip_proof = '--native-only' in a
    skip_native = '--proof-only' in a
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)

    proof = {'verus': None}
    errors = []

    def run_verus():
        import verus_stage
        proof['verus'] = verus_stage.run(prop, tier, REPO, WORK, ENV, log)

    def guarded(f, name):
        try:
            f()
        except ImportError as e:
            proof[name] = dict(units=[], degraded=['%s stage not available: %s' % (name, e)], failed=[])
        except Exception as e:                      # a tool problem is never an alarm
            import traceback
            proof[name] = dict(units=[], degraded=['%s stage error: %r' % (name, e)], failed=[], trace=traceback.format_exc())

    threads = []
    if not skip_proof:
        for f, n in ((run_verus, 'verus'),):
            t = threading.Thread(target=guarded, args=(f, n))
            t.start()
            threads.append(t)

    results, binary = [], None
    if not skip_native:
        binary = native_build()
        if prop in SINGLE:
            seeds, scale = [seed], (1.0 if tier == 'quick' else 4.0)
        elif tier == 'quick':
            seeds, scale = [seed * 1000 + i for i in range(6)], 1.0
        else:
            seeds, scale = [seed * 1000 + 500 + i for i in range(24)], 2.0
        results = native_many(binary, prop, seeds, scale, 420 if tier == 'quick' else 3000, 6)
    for t in threads:
        t.join()

    fails = [(r, f) for r in results for f in r['fails']]
    # an obligation failed but the sampled inputs were fine: search harder before giving up
    failed = []
    for n in ('verus',):
        if proof[n]:
            failed += [dict(x, backend=n) for x in proof[n].get('failed', [])]
    searched = 0
    if failed and not fails and binary:
        left = 600 - (time.time() - t0) if tier == 'quick' else 1800
        if left > 60:
            more = native_many(binary, prop, [seed * 7919 + 13 * i for i in range(8)], 2.0, left, 8)
            searched = len(more)
            results += more
            fails = [(r, f) for r in more for f in r['fails']]

    # known findings
    known = known_findings(prop)
    stats = {}
    for r in results:
        for k, v in ((r['done'] or {}).get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + v
    nviol = 0
    for k in sorted(stats):
        if k.startswith('known:'):
            kid = k[6:]
            if kid in known:
                log('KNOWN-FINDING: property=%s %s %s (%d occurrences in this run)' % (prop, kid, known[kid], stats[k]))
            else:
                nviol += 1
                violation(prop, 'native', dict(seed=seed, scale=1.0, fail=dict(case=None, what=k, message='finding %s is not in known-findings.txt' % kid)))
    if fails:
        r, f = fails[0]
        for rr, ff in fails[:5]:
            log('  seed %s case %s (%s): %s' % (rr['seed'], ff.get('case'), ff.get('what'), ff.get('message')))
        nviol += 1
        violation(prop, 'native', dict(seed=r['seed'], scale=r['scale'], fail=f, others=[x[1] for x in fails[1:6]], failed_obligations=failed))
    elif failed:
        concrete = [x for x in failed if x.get('concrete')]
        for x in failed[:8]:
            log('  failed obligation (%s): %s' % (x['backend'], x.get('name')))
        nviol += 1
        if concrete:
            violation(prop, 'obligation', dict(failed_obligations=failed))
        else:
            violation(prop, 'obligation', dict(failed_obligations=failed, searched_shards=searched), ' no-failing-input-found')

    # evidence
    write_evidence(prop, tier, seed, proof, results, stats, nviol, time.time() - t0)
    for n in ('verus',):
        if proof[n]:
            for g in proof[n].get('degraded', []):
                log('  note: %s: %s' % (n, g))
    tot = sum(u['obligations'] for n in ('verus',) if proof[n] for u in proof[n].get('units', []))
    dis = sum(u['discharged'] for n in ('verus',) if proof[n] for u in proof[n].get('units', []))
    log('%s %s: %d/%d obligations discharged, %s native cases, %d violations, %.1f s' %
        (prop, tier, dis, tot, stats.get('cases', 0), nviol, time.time() - t0))
    to = [r for r in results if r['timeout']]
    if to and len(to) == len(results) and not nviol:
        log('all native shards ran out of time')
        return 3
    return 1 if nviol else 0

def write_evidence(prop, tier, seed, proof, results, stats, nviol, wall):
    man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    chk = [c for c in man['checks'] if c['property'] == prop]
    level = chk[0]['level'] if chk else 'other'
    units = [dict(u, backend=n) for n in ('verus',) if proof[n] for u in proof[n].get('units', [])]
    degraded = [g for n in ('verus',) if proof[n] for g in proof[n].get('degraded', [])]
    if level == 'proof' and (degraded or not units):
        level = 'other'
    obl = sum(u['obligations'] for u in units)
    dis = sum(u['discharged'] for u in units)
    trusted = sorted(set(x for u in units for x in u.get('trusted', [])))
    samples = [dict(seed=r['seed'], scale=r['scale'], stats=(r['done'] or {}).get('stats')) for r in results[:3]]
    cov = dict(
        obligations=obl, discharged=dis,
        checker_cmd='; '.join(u.get('cmd', '') for u in units)[:4000] or 'none',
        trusted_base=trusted,
        functions_under_contract=sorted(set(f for u in units for f in u.get('functions', []))),
        units=[{k: u[k] for k in u if k not in ('trusted', 'functions', 'cmd')} for u in units],
        degraded=degraded,
        evaluations=int(sum(v for k, v in stats.items() if k == 'cases')),
        distinct_nontrivial=int(sum(v for k, v in stats.items() if k == 'cases')),
        rule='bounded stand-in: each case is one generated image, history or input set (distinct seed); a case is one that reached its final comparison',
        samples=samples, native_stats=stats,
        explanation='Deductive part: contracts on the functions listed, discharged by the back ends named per unit. '
                    'Bounded part (never counted as proved): %d cases on the real crate.' % stats.get('cases', 0),
        exhaustive=False)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=trusted, wall_s=round(wall, 2), violations=nviol)
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

if __name__ == '__main__':
    sys.exit(main())
