#!/usr/bin/env python3
"""check.py PROPERTY: verify the contracts of a property against /repo's current tree, then look for failing inputs.

Exit 0: every obligation is discharged and no failing input was found.
Exit 1: a VIOLATION line tells which.
"""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
START = time.time()
HARD = 840  # seconds: a check is ended at 900


def env():
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    e.update(GOFLAGS='-mod=mod -buildvcs=false', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local')
    e['PATH'] = '/usr/local/go/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    try:
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], env=e, stdout=subprocess.PIPE).stdout
        for kv in out.split(b'\0'):
            k, _, v = kv.decode('utf-8', 'replace').partition('=')
            if k and (k.startswith('GO') or k == 'PATH'):
                e[k] = v
    except OSError:
        pass
    return e


ENV = env()


def go_build(d, out, extra, work):
    e = dict(ENV)
    if not e.get('GOCACHE') and not os.path.isdir(os.path.expanduser('~/.cache')):
        e['GOCACHE'] = os.path.join(work, 'gocache')
    r = subprocess.run(['go', 'build'] + extra + ['-o', out, '.'], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode('utf-8', 'replace'))
        print('cannot build', d)
        return False
    return True


def group(cmd, work, limit):
    """runs a command and everything it starts"""
    p = subprocess.Popen(cmd, env=ENV, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
        return out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        pass
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    out, _ = p.communicate()
    return out.decode('utf-8', 'replace') + '\nnot ended after %d s\n' % limit


def known():
    """findings: {property: [(pattern, text)]}; see known-findings.txt"""
    out = {}
    try:
        for line in open(os.path.join(VERIF, 'known-findings.txt')):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            w = line[len('finding:'):].split(None, 1)
            prop = w[0].split('=')[1]
            pat, _, text = w[1].partition(' -- ')
            out.setdefault(prop, []).append((pat.strip().strip('"'), text))
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    work = tempfile.mkdtemp(prefix='winres-check-')
    try:
        return run(prop, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def harness(exe, prop, tier, seed, budget, work, n):
    out = os.path.join(work, 'harness%d.json' % n)
    scratch = os.path.join(work, 'tmp%d' % n)
    os.mkdir(scratch)
    ENV['TMPDIR'] = scratch
    try:
        log = group([exe, '-prop', prop, '-tier', tier, '-seed', str(seed), '-budget', str(budget), '-o', out], scratch, budget + 240)
        return json.load(open(out)), ''
    except (OSError, ValueError):
        return None, log[-3000:]


def run(prop, tier, seed, work):
    gv, hx = os.path.join(work, 'gv'), os.path.join(work, 'harness')
    if not go_build(os.path.join(VERIF, 'gv'), gv, ['-mod=vendor', '-buildvcs=false'], work):
        return 2
    if not go_build(os.path.join(VERIF, 'harness'), hx, ['-mod=mod', '-buildvcs=false'], work):
        return 2

    # 1. the obligations
    rep = os.path.join(work, 'gv.json')
    ms = 30000 if tier == 'quick' else 60000
    cmd = [gv, '-repo', REPO, '-contracts', os.path.join(VERIF, 'contracts'), '-prop', prop, '-ms', str(ms), '-o', rep]
    limit = 480 if tier == 'quick' else 3000
    cmd += ['-limit', str(limit)]
    log = ''
    log = group(cmd, work, limit + 30)
    fns = []
    try:
        fns = json.load(open(rep))
    except (OSError, ValueError):
        fns = [{'name': 'gv', 'error': 'no report: ' + log[-1500:], 'obls': []}]
    obls = [o for f in fns for o in (f.get('obls') or [])]
    bad = [o for o in obls if o['status'] != 'proved']
    errs = [f for f in fns if f.get('error') and not any(o['status'] != 'proved' for o in (f.get('obls') or []))]
    if not obls and not errs:
        errs = [{'name': prop, 'error': 'no obligation was generated: every function under contract is gone'}]
    for f in fns:
        o = f.get('obls') or []
        print('%s: %d of %d obligations discharged in %.1f s%s' % (
            f['name'], sum(x['status'] == 'proved' for x in o), len(o), f.get('secs', 0),
            ' (the function is gone: its callers are checked with what replaced it)' if f.get('missing') else ''))
    for o in bad:
        print('  not discharged: %s: %s (%s)' % (o['fn'], o['name'], o.get('pos', '')))
    for f in errs:
        print('  error: %s: %s' % (f['name'], f['error'][:600]))
    failed_proof = bool(bad or errs)

    # 2. failing inputs of the real code
    budgets = [30] if tier == 'quick' else [420]
    if failed_proof:
        budgets.append(120 if tier == 'quick' else 600)
    kf = known().get(prop, [])
    total, cases, secs, fails, quiet = 0, {}, 0.0, [], {}
    samples = []
    for n, b in enumerate(budgets):
        if tier == 'quick':
            b = min(b, HARD - 150 - (time.time() - START))
            if b < 5 and n > 0:
                break
            b = max(b, 5)
        h, msg = harness(hx, prop, tier, seed + 1000 * n, b, work, n)
        if h is None:
            print('the search for failing inputs gave no result:', msg)
            if not failed_proof:
                return 2
            break
        total += h['total']
        secs += h['seconds']
        for k, v in (h['cases'] or {}).items():
            cases[k] = cases.get(k, 0) + v
        samples = samples or h.get('samples') or []
        for f in h['failures'] or []:
            hit = next((t for p, t in kf if p in f['message']), None)
            if hit is not None:
                quiet[hit] = quiet.get(hit, 0) + 1
            else:
                fails.append(f)
        if fails:
            break
    for t in quiet:
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    print('%d cases on the real code in %.1f s: %s' % (total, secs, ', '.join('%s %d' % kv for kv in sorted(cases.items()))))

    # 3. evidence
    assumptions = sorted({m for f in fns for m in (f.get('models') or [])} | {m for f in fns for m in (f.get('trusted') or [])})
    by, ssecs = {}, {}
    for f in fns:
        for k, v in (f.get('decided_by') or {}).items():
            by[k] = by.get(k, 0) + v
        for k, v in (f.get('solver_secs') or {}).items():
            ssecs[k] = round(ssecs.get(k, 0) + v, 2)
    man = {}
    try:
        for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']:
            if c['property'] == prop:
                man = c
    except (OSError, ValueError, KeyError):
        pass
    violations = 1 if fails or failed_proof else 0
    kinds = {}
    for o in obls:
        kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': man.get('level', 'proof'),
        'coverage': {
            'obligations': len(obls), 'discharged': len(obls) - len(bad),
            'checker_cmd': '/verif/run.sh %s (builds /verif/gv and runs: gv -repo /repo -contracts /verif/contracts -prop %s)' % (prop, prop),
            'trusted_base': [
                'gv, the verification-condition generator in /verif/gv (go/ssa of /repo as built by go/packages of x/tools)',
                'z3 4.8.12, z3 5.3.2 and cvc5 1.1.2 (one of them must answer unsat)',
                'the contracts and models listed under assumptions',
            ],
            'functions_under_contract': [{'name': f['name'], 'obligations': len(f.get('obls') or []),
                                          'discharged': sum(o['status'] == 'proved' for o in (f.get('obls') or [])),
                                          'paths': f.get('states', 0), 'returns': f.get('returns', 0),
                                          'seconds': round(f.get('secs', 0), 1),
                                          'inlined': f.get('inlined') or []} for f in fns if not f.get('missing')],
            'contracts_without_function': [f['name'] for f in fns if f.get('missing')],
            'obligations_by_kind': kinds,
            'queries_decided_by': by, 'solver_seconds': ssecs,
            'property_clauses': sorted({o['fn'] + ': ' + o['name'] for o in obls if o['kind'] in ('post', 'ensures', 'lemma', 'effect')}),
            'undischarged': [o['fn'] + ': ' + o['name'] for o in bad],
            'bounded_search': {
                'label': 'bounded: never counted as proved',
                'cases_on_the_real_code': total, 'by_family': cases, 'seconds': round(secs, 1),
                'covers': man.get('level_note', ''),
            },
        },
        'assumptions': assumptions, 'wall_s': round(time.time() - START, 1), 'violations': violations,
    }
    if samples:
        ev['coverage']['bounded_search']['samples'] = samples
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not violations:
        print('ok: property=%s, %d obligations discharged' % (prop, len(obls)))
        return 0

    # 4. the violation
    rdir = os.path.join(VERIF, 'replay')
    os.makedirs(rdir, exist_ok=True)
    body = {
        'property': prop,
        'failing_inputs': fails,
        'replay_cmd': ['cd /verif/harness && go build -o /tmp/h . && /tmp/h -prop %s -tier %s -case %s -seed %d' % (prop, f['tier'], f['case'], f['seed']) for f in fails],
        'failed_obligations': [{k: o.get(k) for k in ('fn', 'name', 'kind', 'pos', 'status', 'detail')} for o in bad],
        'errors': [{'fn': f['name'], 'error': f['error']} for f in errs],
        'verifier_output': log[-20000:] if failed_proof else '',
    }
    key = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(rdir, '%s-%s.json' % (prop, key))
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
    for f in fails[:3]:
        print('failing input: case %s, seed %s: %s' % (f['case'], f['seed'], f['message'][:800]))
    print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if fails else ' no-failing-input-found'))
    return 1


sys.exit(main())
