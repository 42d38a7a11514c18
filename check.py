#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

1. vcg proves every obligation of the contracts that carry the property.
2. the harness runs the real code against independent oracles: it looks for a failing input when an
   obligation fails, validates the assumed contracts of external functions, and is the (labelled,
   bounded) stand-in for code that is not under contract.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
# seconds of bounded exploration: (quick, thorough, when an obligation failed)
BUDGET = {'quick': 15, 'thorough': 240, 'search': 60}
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOSUMDB='off', CGO_ENABLED='0')


def run(cmd, cwd, timeout, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -1, 'timeout after %ss\n%s' % (timeout, e.stdout or '')


def level(prop, has_contracts):
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if c['property'] == prop:
                return c['level']
    except Exception:
        pass
    return 'proof' if has_contracts else 'exploration'


def known():
    """known-findings.txt: 'KNOWN property=<id> case=<case> match=<regexp> :: what fails' lines and 'fixed: ...' lines"""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN property=(\S+) case=(\S+) match=/(.*)/ :: (.*)$', l.strip())
            if m:
                out.append(dict(prop=m[1], case=m[2], re=re.compile(m[3]), what=m[4]))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='goorc-verif-')
    evdir = os.path.join(HERE, 'evidence')
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.remove(os.path.join(rdir, f))
    try:
        return check(prop, tier, seed, t0, work, evdir, rdir)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, t0, work, evdir, rdir):
    violations = []  # (replay file, found input?)
    # --- build from the current sources
    hdir = os.path.join(work, 'harness')
    shutil.copytree(os.path.join(HERE, 'harness'), hdir)
    gm = open(os.path.join(hdir, 'go.mod')).read().replace('=> /repo', '=> ' + REPO)
    open(os.path.join(hdir, 'go.mod'), 'w').write(gm)
    vcg, vh = os.path.join(work, 'vcg'), os.path.join(work, 'vh')
    rc, o = run(['go', 'build', '-o', vcg, '.'], os.path.join(HERE, 'vcg'), 300)
    if rc:
        print(o)
        print('cannot build the verifier')
        return 2
    rc, hb = run(['go', 'build', '-o', vh, '.'], hdir, 300)
    hok = rc == 0
    if not hok:
        print(hb)

    # --- proof
    vout = os.path.join(work, 'vcg.json')
    dump = os.path.join(work, 'dump')
    cmd = [vcg, '-prop', prop, '-repo', REPO, '-specs', os.path.join(HERE, 'contracts'), '-out', vout, '-dump', dump,
           '-timeout', '20' if tier == 'quick' else '60', '-deadline', '600' if tier == 'quick' else '2400']
    rc, o = run(cmd, HERE, 720 if tier == 'quick' else 3000)
    try:
        res = json.load(open(vout))
    except Exception:
        res = {'units': [], 'failed': [], 'obligations': 0, 'discharged': 0, 'by_solver': {}, 'solver_ms': 0, 'trusted': [], 'error': o[-2000:]}
    failed = res.get('failed') or []
    if res.get('error'):
        failed.append({'unit': 'vcg', 'name': 'run', 'kind': 'error', 'pos': '', 'verdict': 'error', 'detail': res['error']})
    units = res.get('units') or []
    has_contracts = any(u.get('kind') == 'function' for u in units)
    print('%s: %d units under contract, %d obligations, %d discharged, %.1f s' % (prop, len(units), res['obligations'], res['discharged'], time.time() - t0))

    # --- bounded exploration of the real code
    budget = BUDGET[tier]
    if failed:
        budget = max(budget, BUDGET['search'])
    rep = {'evaluations': 0, 'distinct_nontrivial': 0, 'per_case': {}, 'samples': [], 'failures': []}
    if hok:
        hout = os.path.join(work, 'vh.json')
        hrc, o = run([vh, '-prop', prop, '-seed', str(seed), '-budget', str(budget), '-out', hout, '-maxfail', '20'], work, budget + 240)
        try:
            rep = json.load(open(hout))
        except Exception:
            # the run died (fatal error, out of memory): that is a crash of the code under test or a hang
            rep['failures'] = [{'property': prop, 'case': 'run', 'index': 0, 'error': 'the harness died: ' + o[-1500:], 'input': None}]
        print('bounded: %d cases evaluated, %d distinct' % (rep['evaluations'], rep['distinct_nontrivial']))
    else:
        rep['failures'] = []
        failed.append({'unit': 'harness', 'name': 'build', 'kind': 'error', 'pos': '', 'verdict': 'error', 'detail': hb[-2000:]})

    # --- known findings
    kn = [k for k in known() if k['prop'] == prop]
    new, seen = [], set()
    for f in rep.get('failures') or []:
        hit = None
        for k in kn:
            if k['case'] == f['case'] and k['re'].search(f['error'] + ' ' + json.dumps(f['input'])):
                hit = k
                break
        if hit is None:
            new.append(f)
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    n = 0
    for f in new[:5]:
        n += 1
        p = os.path.join(rdir, '%s-%d.json' % (prop, n))
        f['how'] = 'cd /verif/harness && go build -o /tmp/vh . && /tmp/vh -replay ' + p
        f['failed_obligations'] = [x['unit'] + ' ' + x['name'] for x in failed][:20]
        json.dump(f, open(p, 'w'), indent=1)
        print('  failing input (%s): %s' % (f['case'], f['error'][:300]))
        violations.append((p, True))
    if failed:
        for x in failed[:12]:
            print('  undischarged: %s %s [%s] %s %s' % (x['unit'], x['name'], x.get('pos', ''), x.get('verdict', ''), (x.get('detail') or '')[:200]))
        if not new:
            p = os.path.join(rdir, '%s-obligations.json' % prop)
            for x in failed[:12]:
                s = x.get('script')
                if s and os.path.exists(s):
                    d = os.path.join(rdir, prop + '-' + os.path.basename(s))
                    shutil.copy(s, d)
                    x['script'] = d
            json.dump({'property': prop, 'failed_obligations': failed, 'searched': rep['evaluations']}, open(p, 'w'), indent=1)
            violations.append((p, False))
    if not failed and not units and not rep['evaluations']:
        print('nothing was checked')
        return 2

    # --- evidence
    byk = {}
    for u in units:
        byk.setdefault(u.get('kind', 'function'), []).append(u)
    funs = [u['name'] for u in byk.get('function', [])]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level(prop, has_contracts),
        'coverage': {
            'obligations': res['obligations'], 'discharged': res['discharged'],
            'checker_cmd': 'vcg -prop %s -repo /repo -specs /verif/contracts (z3 5.3 / z3 4.8 / cvc5 1.1, one query per obligation)' % prop,
            'trusted_base': sorted(set(res.get('trusted') or [])) + ['the condition generator vcg', 'the SMT solvers', 'the Go type checker and compiler'],
            'functions_under_contract': funs,
            'lemmas': [u['name'] for u in byk.get('lemma', [])],
            'functions_inlined': sorted({i for u in units for i in (u.get('inlined') or [])}),
            'by_back_end': res.get('by_solver') or {}, 'solver_ms': res.get('solver_ms', 0),
            'evaluations': rep['evaluations'], 'distinct_nontrivial': rep['distinct_nontrivial'],
            'rule': 'bounded part, never counted as proved: seeded generators per case (boundary oriented for small indices, random after), run on the real code and compared with an independently written oracle; non-trivial = distinct inputs that are not empty',
            'samples': (rep.get('samples') or [])[:4],
            'bounded_cases': rep.get('per_case') or {},
            'explanation': 'obligations/discharged count proof obligations of the contracts that carry the property; evaluations count bounded runs of the real code (stand-in for what is not under contract)',
        },
        'assumptions': ASSUME,
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    for p, found in violations:
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if found else ' no-failing-input-found'))
    return 1 if violations else 0


ASSUME = [
    'slices are values in the verifier: no two live slices of the functions under contract share storage that is written through one and read through the other',
    'slice and string lengths are below 2^48; int is 64 bits',
    'distinct allocations, and references given by the caller for different parameters where the contract says so, do not alias',
    'logging calls have no effect (ignored)',
    'single goroutine: no concurrent access to the objects',
    'contracts of external functions (trusted_base) hold',
    'stream, chunk and file lengths are at most 2^62; counts of values do not wrap',
    'pointers of different static types are distinct; the address of a field given to a library call is the address of a copy',
    'float + - * / and float32 to float64 conversion are uninterpreted; Ceil(float64(n)/8) is exact for the small n used',
    'recursive functions without a measure are proved partially correct only',
    'column.Reader and column.Writer interface contracts are assumed in package orc; the primitive columns are proved on their own terms, composite columns are run on bounded inputs',
]

if __name__ == '__main__':
    sys.exit(main())
