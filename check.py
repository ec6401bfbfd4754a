#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property of /repo's current working tree:
  V  every contract listed for the property in contracts/props.txt, discharged by Verus
     over the function bodies extracted from /repo/src on this run;
  R  a bounded run of the real crate (replay/) that looks for a concrete failing input.
Exit 0 held, 1 violated (VIOLATION line), 2 the check itself could not run."""
import json, os, re, subprocess, sys, time, shutil, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import assemble as A, vrun

REPO = os.environ.get('VERIF_REPO', '/repo')
REFACTOR_NOTES = ('unsupported', 'lost', 'loops', 'missing', 'nocontract', 'refusal-gone')


def log(*a):
    print(*a, flush=True)


def die(msg):
    log('CHECK-ERROR', msg)
    sys.exit(2)


def cargo(d, what):
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    r = subprocess.run(['cargo', 'build', '--release', '--offline', '-q'], cwd=d, env=env, capture_output=True, text=True)
    if r.returncode:
        die('%s does not build:\n%s' % (what, r.stderr[-3000:]))


def build_tools():
    if not os.path.exists(HERE + '/extract/target/release/vextract'):
        cargo(HERE + '/extract', 'extractor')
    # cargo compares modification times only: force a rebuild of the code under test
    for p in glob.glob(HERE + '/replay/target/release/.fingerprint/magog-*'):
        shutil.rmtree(p, ignore_errors=True)
    cargo(HERE + '/replay', 'replay driver (or /repo)')


def run_r(pid, mult, seed, secs):
    exe = HERE + '/replay/target/release/vreplay'
    try:
        r = subprocess.run([exe, 'check', pid, str(mult), str(seed), str(secs)], capture_output=True, text=True, timeout=secs + 120)
    except subprocess.TimeoutExpired:
        # the code under test does not come back: a hang is a failure of every property that calls it
        return {'timeout': True, 'fails': [], 'evaluations': 0, 'distinct_nontrivial': 0, 'kinds': [], 'samples': [], 'exhaustive': []}
    try:
        return json.loads(r.stdout)
    except Exception:
        return {'crash': True, 'stderr': r.stderr[-2000:], 'rc': r.returncode, 'fails': [], 'evaluations': 0, 'distinct_nontrivial': 0, 'kinds': [], 'samples': [], 'exhaustive': []}


def load_known():
    """known_findings.txt: 'known: property=<id> <case text>' lines suppress exactly that case."""
    known = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) case=(.*?)(?: # (.*))?$', line.strip())
            if m:
                known.append((m.group(1), m.group(2).strip(), m.group(3) or ''))
    return known


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = HERE + '/work/' + pid
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    build_tools()
    props = A.parse_props()
    prop = props.get(pid) or A.Prop(pid)
    known = load_known()
    for k in known:
        if k[0] == pid:
            log('KNOWN-FINDING: property=%s %s %s' % k)

    # ---- R: concrete search on the real crate --------------------------------
    mult, secs = (25, 35) if tier == 'quick' else (300, 240)
    r = run_r(pid, mult, seed, secs)
    fails = [f for f in r['fails'] if not any(k[0] == pid and k[1] == f['case'] for k in known)]

    # ---- V: contracts --------------------------------------------------------
    v = vrun.run(prop, REPO, work, tier) if prop.fns else None

    violations = []
    if v and v['status'] in ('failed', 'undecided') and not fails and not r.get('crash') and not r.get('timeout'):
        # search harder: for the input that the failed obligation predicts, or because the proof could not be redone
        log('obligation failed; searching for a failing input' if v['status'] == 'failed' else 'proof not redone; searching longer for a failing input')
        r2 = run_r(pid, 250, seed + 1, 150)
        for k in ('evaluations', 'distinct_nontrivial'):
            r[k] += r2[k]
        fails = [f for f in r2['fails'] if not any(k[0] == pid and k[1] == f['case'] for k in known)]
        for k in ('crash', 'timeout'):
            if r2.get(k):
                r[k] = r2[k]
                r['stderr'] = r2.get('stderr', '')
    obl = ''
    if v and v['errors']:
        obl = ''.join('obligation: %s (%s): %s\n' % (e['fn'], e['kind'], e['message']) for e in v['errors'])
    if fails:
        f = fails[0]
        path = work + '/replay.txt'
        open(path, 'w').write('property: %s\ncase: %s\n# kind: %s\n# %s\n# input: %s\n%s# run: replay/target/release/vreplay replay %s\n' % (
            pid, f['case'], f['kind'], f['msg'], f.get('input', ''), ''.join('# ' + l + '\n' for l in obl.splitlines()), path))
        log('failing input: %s -- %s' % (f['case'][:400], f['msg'][:400]))
        violations.append('VIOLATION property=%s replay=%s' % (pid, path))
    elif r.get('crash') or r.get('timeout'):
        # abort (stack overflow, out of memory) or endless loop inside the code under test
        path = work + '/replay.txt'
        what = 'does not terminate' if r.get('timeout') else 'aborts: ' + r.get('stderr', '')[-500:]
        open(path, 'w').write('property: %s\nsweep: check %s %s %s %s\n# the code under test %s\n%s' % (pid, pid, mult, seed, secs, what, obl))
        log('the sweep over the real code ' + what)
        violations.append('VIOLATION property=%s replay=%s' % (pid, path))
    elif v and v['status'] == 'failed':
        path = work + '/replay.txt'
        open(path, 'w').write('property: %s\n%s\nverifier: %s\nsource: %s\n\n%s' % (pid, obl, v['cmd'], v['file'], v['rendered']))
        violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))

    # ---- evidence -------------------------------------------------------------
    proved = bool(v) and v['status'] == 'verified' and not v['vacuous']
    full = proved and not prop.bounded
    level = 'proof' if full else 'exploration'
    cov = {
        'evaluations': r['evaluations'], 'distinct_nontrivial': r['distinct_nontrivial'],
        'rule': 'bounded run of the real crate: ' + '; '.join(r['kinds']),
        'samples': r['samples'] or ['none'],
        'bounded_exhaustive_parts': r['exhaustive'],
    }
    assumptions = list(A.ASSUMPTIONS)
    if v:
        cov.update({
            'obligations': v['obligations'], 'discharged': v['discharged'],
            'verified_units': v['verified'], 'unit_errors': v['nerrors'],
            'checker_cmd': v['cmd'], 'back_end': 'Verus / Z3', 'solver_time_ms': v['smt_ms'], 'verifier_wall_s': v['wall'],
            'functions_under_contract': v['fns'], 'trusted_base': v['trusted'],
            'inlined_without_contract': v['inlined'], 'probes_that_must_fail': v['probes'],
            'proof_status': v['status'], 'notes': ['%s %s: %s' % n for n in v['notes']],
        })
        assumptions += prop.trusted
    else:
        cov['proof_status'] = 'no contracts for this property'
    if prop.bounded:
        cov['bounded_not_proved'] = prop.bounded
    if prop.note:
        cov['explanation'] = prop.note.strip()
    if v and not proved and v['status'] != 'failed':
        cov['proof_status'] = v['status'] + ': proof not redone on this source; the bounded run decided'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    json.dump(ev, open(HERE + '/evidence/%s.json' % pid, 'w'), indent=1)
    if v and v['vacuous'] and not violations:
        die('vacuous contract: ' + ', '.join(v['vacuous']))
    log('%s: %s, R %d cases (%d non-trivial), V %s' % (pid, 'VIOLATED' if violations else 'held', r['evaluations'], r['distinct_nontrivial'],
        '%s %d/%d obligations, %d units' % (v['status'], v['discharged'], v['obligations'], v['verified']) if v else 'none'))
    if v and v['status'] == 'undecided':
        log('proof not redone: ' + v['why'])
    for x in violations:
        log(x)
    sys.exit(1 if violations else 0)


main()
