"""Verus stage: generate the crate from /repo's current text, verify the modules a property relies on.

An obligation that fails is reported as a violation of the properties its contract belongs to (//@props in
the templates).  What is not a verdict (text the verifier does not accept, a lost anchor of an invariant or of
a proof hint, the resource limit) degrades: that function is assumed for this run, it is listed in the
evidence, and the bounded stand-in alone decides.
"""
import json, os, re, subprocess, time
import vgen

ORDER = ['prelude', 'block', 'bam', 'format', 'tables', 'end']
TRUSTED_BASE = [
    'Verus 0.2026.09.13 and Z3 (soundness of the back end), vstd specifications of the standard library',
    'tools/vgen.py: mechanical extraction (verbatim function bodies; the rewritings applied are listed under "extraction")',
    'Rc<RefCell<..>> handles are passed explicitly: all handles of one disk denote the same device/map; RefCell borrow panics are not modelled',
]

def order(tdir):
    o = os.path.join(tdir, 'ORDER')
    return open(o).read().split() if os.path.exists(o) else ORDER

def run_verus(path, mods, env, rlimit, timeout, threads=4):
    cmd = ['verus', path, '--crate-type=lib', '--num-threads', str(threads), '--multiple-errors', '4', '--rlimit', str(rlimit),
           '--triggers-mode', 'silent', '--output-json', '--time', '--error-format=json']
    for m in mods:
        cmd += ['--verify-module', m]
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, timeout=timeout,
                       cwd=os.path.dirname(path))
    diags = []
    for l in p.stderr.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if isinstance(d, dict) and d.get('level') in ('error', 'error: internal compiler error') and d.get('spans'):
            diags.append(d)
    try:
        out = json.loads(p.stdout)
    except ValueError:
        out = {}
    return cmd, out, diags, p.stderr, time.time() - t

def spans(d):
    s = [x for x in d['spans'] if x['is_primary']] or d['spans']
    return s

def run(prop, tier, REPO, WORK, ENV, log, tdir=None, keep=None):
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    tdir = tdir or os.path.join(root, 'verus')
    g = vgen.Gen(REPO, tdir)
    mods = order(tdir)
    wdir = os.path.join(WORK, 'verus-%s' % prop)
    os.makedirs(wdir, exist_ok=True)
    path = os.path.join(wdir, 'all.rs')
    external, degraded, failed = {}, [], []
    cmd = out = None
    wall = 0
    nsub = {}
    for attempt in range(14):
        text = g.build(mods, external)
        with open(path, 'w') as f:
            f.write(text)
        want = g.modules_of(prop)
        if not want:
            return dict(units=[], degraded=[], failed=[])
        # nested modules: verify-module takes full paths
        vm = []
        for m in want:
            a, b = g.modrange[m]
            stack = []
            for i in range(a - 1, b):
                mm = re.match(r'pub mod (\w+) \{', g.lines[i])
                if mm:
                    stack.append(mm.group(1))
                    vm.append('::'.join(stack))
                elif re.match(r'\} // mod', g.lines[i]) and stack:
                    stack.pop()
        cmd, out, diags, err, w = run_verus(path, vm, ENV, 60 if tier == 'quick' else 300, 400 if tier == 'quick' else 2400)
        wall += w
        res = out.get('verification-results') or {}
        if 'smt' in (out.get('times-ms') or {}) and not res.get('encountered-vir-error') and (out['times-ms']['smt'].get('smt-run-module-times') or not diags):
            break
        # the text was not accepted: assume the functions concerned and try again
        bad = {}
        for d in diags:
            for s in spans(d):
                wq = g.where(s['line_start'])
                if wq:
                    bad[(wq[0], wq[1])] = d['message'].split('\n')[0][:160]
        new = {k: v for k, v in bad.items() if k[0] not in external}
        if not new:
            msg = diags[0]['message'][:200] if diags else err[-300:]
            if not diags and not err.strip():
                msg = 'no output'
            return dict(units=[], degraded=['the extracted text as a whole is not accepted by Verus: %s' % msg] + degraded, failed=[],
                        external=external)
        for (q, m), v in new.items():
            external[q] = v
            if any(prop in g.props_at(a) for a, b, qq, mm, _ in g.ranges if qq == q):
                degraded.append('%s: not accepted by Verus (%s); assumed in this run' % (q, v))
    else:
        return dict(units=[], degraded=['too many functions not accepted by Verus'] + degraded, failed=[])
    lostfn = {}
    for q, why, hint in g.lost:
        lostfn.setdefault(q, []).append(why)
    seen = set()
    notes = []
    for d in diags:
        ls = [s['line_start'] for s in spans(d)]
        wq = next((g.where(l) for l in ls if g.where(l)), None)
        props = set(p for l in ls for p in g.props_at(l))
        name = wq[0] if wq else 'lemma at line %d' % ls[0]
        if not wq:
            # the lemma that contains the line
            for i in range(ls[0] - 1, max(0, ls[0] - 200), -1):
                mm = re.match(r'\s*pub proof fn (\w+)', g.lines[i])
                if mm:
                    name = mm.group(1)
                    break
        msg = d['message'].split('\n')[0]
        if prop not in props:
            notes.append('%s: %s (belongs to %s)' % (name, msg, ' '.join(sorted(props))))
            continue
        if re.search(r'rlimit|resource limit', msg, re.I):
            degraded.append('%s: %s' % (name, msg))
            continue
        if wq and (wq[2] or q_lost(lostfn, wq[0])):
            degraded.append('%s: %s, but %s' % (name, msg, '; '.join(wq[2] or lostfn[wq[0]])))
            continue
        if prop == 'P12' and not re.search(r'overflow|underflow|precondition|decreases|termination|divi|unreachable|panic|out of bounds', msg):
            degraded.append('%s: %s (no crash or hang by itself; what relies on it is not proved in this run)' % (name, msg))
            continue
        key = (name, msg, ls[0])
        if key in seen:
            continue
        seen.add(key)
        failed.append(dict(name='%s: %s' % (name, msg), line=g.lines[ls[0] - 1].strip(), output=(d.get('rendered') or '')[:3000]))
    for q, why in lostfn.items():
        if any(prop in g.props_at(a) for a, b, qq, mm, _ in g.ranges if qq == q) or not any(qq == q for _, _, qq, _, _ in g.ranges):
            if not any(x.startswith(q + ':') for x in degraded):
                degraded.append('%s: %s' % (q, '; '.join(why)))
    fb = []
    for m in (out['times-ms']['smt'].get('smt-run-module-times') or []):
        for f in m.get('function-breakdown') or []:
            fb.append(f)
    names = {}
    for f in fb:
        k = f['function']
        names.setdefault(k, True)
        names[k] = names[k] and f.get('success', False)
    trusted = list(TRUSTED_BASE)
    L = g.lines
    for i, l in enumerate(L):
        if 'external_body' in l or 'assume_specification' in l or re.search(r'\badmit\(\)|\bassume\(', l):
            j = i
            while j < len(L) and not re.search(r'\bfn\b|assume_specification|\bstruct\b|static', L[j]):
                j += 1
            trusted.append('assumed: ' + re.sub(r'\s+', ' ', L[j]).strip()[:160])
    funcs = sorted(q for a, b, q, m, _ in g.ranges if prop in g.props_at(a) and q not in external)
    unit = dict(name='verus', obligations=len(names), discharged=sum(1 for v in names.values() if v), functions=funcs, trusted=trusted,
                cmd=' '.join(cmd), solver_ms=out['times-ms']['smt'].get('total'), modules=vm, wall_s=round(wall, 1),
                extraction=sorted(set(x for x in g.subs_used)), notes=notes, assumed_this_run=external)
    return dict(units=[unit], degraded=degraded, failed=failed)

def q_lost(lostfn, q):
    return q in lostfn

if __name__ == '__main__':
    import sys
    r = run(sys.argv[1], 'quick', os.environ.get('VERIF_REPO', '/repo'), os.environ.get('VW', '/tmp/vw'), dict(os.environ), print)
    for u in r['units']:
        print(u['obligations'], u['discharged'], u['modules'], u['wall_s'], 's', u['solver_ms'], 'ms solver; notes', u['notes'])
        if '-v' in sys.argv:
            print('\n'.join(u['functions'])); print('\n'.join(u['trusted']))
    for x in r['degraded']:
        print('DEGRADED', x)
    for x in r['failed']:
        print('FAILED', x['name'], '|', x['line'])
