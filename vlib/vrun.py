"""Runs the extractor and Verus for one property and classifies the outcome."""
import json, os, re, subprocess, time
from . import assemble as A

HERE = A.HERE
# diagnostics of a proof obligation that did not hold
OBLIGATION = [
    (r'postcondition not satisfied', 'postcondition'),
    (r'precondition not satisfied', 'precondition of a callee'),
    (r'invariant not satisfied before loop', 'loop invariant on entry'),
    (r'invariant not satisfied at end of loop body', 'loop invariant preserved'),
    (r'loop ensures not satisfied|loop invariant not satisfied', 'loop invariant'),
    (r'assertion failed|assertion not satisfied', 'assertion'),
    (r'possible arithmetic underflow/overflow', 'no overflow'),
    (r'possible division by zero', 'no division by zero'),
    (r'possible bit shift underflow/overflow', 'no overflow in a shift'),
    (r'decreases not satisfied', 'termination'),
    (r'recommendation not met', 'recommendation'),
    (r'unreachable', 'no panic'),
]
LIMIT = r'Resource limit|rlimit|timed? ?out|canceled'


def sh(cmd, timeout):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return None, '', ''


def extract(repo, keys_file=None):
    cmd = [HERE + '/extract/target/release/vextract', repo + '/src'] + ([keys_file] if keys_file else [])
    rc, out, err = sh(cmd, 120)
    if rc != 0:
        return None, (err or 'timeout')[-2000:]
    return json.loads(out), ''


def diags(err):
    ds = []
    for line in err.splitlines():
        if line.startswith('{'):
            try:
                d = json.loads(line)
            except Exception:
                continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting due to'):
                ds.append(d)
    return ds


def classify(d):
    m = d['message']
    if re.search(LIMIT, m):
        return 'limit'
    for pat, name in OBLIGATION:
        if re.search(pat, m):
            return name
    return None


def verus(path, rlimit, extra=(), timeout=300, log_dir=None):
    cmd = ['verus', path, '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--num-threads', '8', '--multiple-errors', '3']
    if rlimit:
        cmd += ['--rlimit', str(rlimit)]
    if log_dir:
        cmd += ['--log-dir', log_dir, '--log', 'air']
    cmd += list(extra) + ['--error-format=json']
    t0 = time.time()
    rc, out, err = sh(cmd, timeout)
    res = {'cmd': ' '.join(cmd), 'wall': round(time.time() - t0, 2), 'rc': rc, 'diags': diags(err), 'json': None, 'err': err}
    i = out.find('{')
    if rc is not None and i >= 0:
        try:
            res['json'] = json.loads(out[i:])
        except Exception:
            pass
    return res


def count_obligations(log_dir):
    n = 0
    for f in os.listdir(log_dir) if os.path.isdir(log_dir) else []:
        if f.endswith('.air'):
            inq = False
            for line in open(os.path.join(log_dir, f)):
                if line.startswith('(check-valid'):
                    inq = True
                elif line.startswith(')'):
                    inq = False
                elif inq and re.match(r'\s+\(assert\b', line):
                    n += 1
    return n


def trusted_scan(text):
    out = []
    for m in re.finditer(r'(external_body\][^;{]*?\bfn\s+(\w+))|(\baxiom\s+fn\s+(\w+))|(\bassume\s*\()|(\badmit\s*\()|(external_type_specification)|(assume_specification[^\[]*\[([^\]]*)\])', text):
        if m.group(2):
            out.append('external_body fn ' + m.group(2))
        elif m.group(4):
            out.append('axiom ' + m.group(4))
        elif m.group(9):
            out.append('assume_specification ' + m.group(9).strip())
        else:
            out.append(m.group(0))
    return sorted(set(out))


def where(spans, line):
    for a, b, k in spans:
        if a <= line <= b:
            return k
    return None


def run(prop, repo, work, tier):
    cons = A.parse_contracts()
    try:
        base = json.load(open(A.CON + '/baseline.json'))
    except Exception:
        base = {}
    r = {'status': 'undecided', 'why': '', 'errors': [], 'rendered': '', 'cmd': '', 'file': '', 'obligations': 0, 'discharged': 0, 'verified': 0,
         'nerrors': 0, 'smt_ms': 0, 'wall': 0, 'fns': [], 'trusted': [], 'inlined': [], 'probes': 0, 'notes': [], 'vacuous': []}
    keys = work + '/known_keys.txt'
    open(keys, 'w').write('\n'.join(sorted(set(cons) | set(base))) + '\n')
    ex, err = extract(repo, keys)
    if ex is None:
        r['why'] = 'extraction failed: ' + err
        return r
    f = '%s/%s.rs' % (work, prop.id)
    r['file'] = f
    for _ in range(6):
        text, info = A.build(prop, ex, cons, base)
        open(f, 'w').write(text)
        v = verus(f, prop.rlimit, ['--no-verify'])
        add = A.more_fns([d['message'] for d in v['diags']], prop, ex, cons)
        if not add:
            break
        prop.fns += add
    r['notes'] = info['notes']
    r['fns'] = info['fns']
    r['inlined'] = sorted(set(i for x in ex['fns'] if x['key'] in info['fns'] for i in x.get('inlined', [])))
    r['trusted'] = trusted_scan(text) + ['contract assumed: ' + k for k in info['fns'] if k in prop.assume or (cons.get(k) and cons[k].trusted)]
    logd = work + '/log'
    v = verus(f, prop.rlimit, log_dir=logd)
    r['cmd'] = v['cmd']
    r['wall'] = v['wall']
    if v['rc'] is None:
        r['why'] = 'verifier ran out of time'
        return r
    j = v['json'] or {}
    vr = j.get('verification-results', {})
    r['verified'] = vr.get('verified', 0) or 0
    r['nerrors'] = vr.get('errors', 0) or 0
    r['smt_ms'] = j.get('times-ms', {}).get('smt', {}).get('total', 0)
    r['obligations'] = count_obligations(logd)
    import shutil
    shutil.rmtree(logd, ignore_errors=True)
    r['rendered'] = '\n'.join(d.get('rendered') or d['message'] for d in v['diags'])
    open(work + '/verus.txt', 'w').write(r['rendered'])
    notes = [n for n in info['notes']]
    if v['rc'] == 0 and vr.get('success') and not v['diags'] and r['verified'] > 0 and not any(n[0] in ('missing', 'nocontract', 'unsupported') for n in notes):
        r['status'] = 'verified'
        r['discharged'] = r['obligations']
        probe(prop, ex, cons, base, work, r)
        return r
    limit = front = False
    for d in v['diags']:
        k = classify(d)
        ln = [s for s in d['spans'] if s['file_name'].endswith('.rs')]
        prim = [s for s in ln if s['is_primary']] or ln
        fn = None
        for s in ln:
            fn = fn or where(info['spans'], s['line_start'])
        # the function whose body produced the obligation: non-primary spans point there
        for s in ln:
            if not s['is_primary'] and where(info['spans'], s['line_start']):
                fn = where(info['spans'], s['line_start'])
        if k == 'limit':
            limit = True
        elif k is None:
            front = True
        else:
            txt = ' '.join(t['text'].strip() for s in prim for t in s.get('text', []))
            r['errors'].append({'fn': fn or 'theory', 'kind': k, 'message': d['message'] + ': ' + txt[:300]})
    failed_units = r['nerrors']
    r['discharged'] = max(0, r['obligations'] - max(len(r['errors']), failed_units))
    if front or not vr or vr.get('encountered-vir-error'):
        r['why'] = 'verifier front end rejects the extracted text: ' + '; '.join(d['message'] for d in v['diags'])[:600]
        r['errors'] = []
        return r
    noted = set(n[1] for n in notes if n[0] in ('unsupported', 'lost', 'loops', 'missing', 'nocontract'))
    genuine = [e for e in r['errors'] if e['fn'] not in noted and e['fn'] != 'theory' and e['kind'] != 'recommendation']
    if genuine and not any(n[0] in ('unsupported', 'missing') for n in notes):
        r['status'] = 'failed'
        r['errors'] = genuine
        return r
    r['why'] = 'undecided: ' + ('resource limit; ' if limit else '') + '; '.join('%s %s: %s' % n for n in notes)[:600]
    return r


def probe(prop, ex, cons, base, work, r):
    """Vacuity guard: with `assert(false)` at the end of every body, no body may verify;
    nor may `assert(false)` follow from the axioms."""
    text, info = A.build(prop, ex, cons, base, probe=True)
    f = '%s/%s_probe.rs' % (work, prop.id)
    open(f, 'w').write(text)
    v = verus(f, 3, ['--verify-root'], timeout=240)
    j = v['json'] or {}
    if v['rc'] is None or 'verification-results' not in j:
        r['vacuous'] = []
        r['probes'] = 0
        r['notes'].append(('probe', prop.id, 'probe run did not finish'))
        return
    hit = set()
    for d in v['diags']:
        for s in d['spans']:
            k = where(info['spans'], s['line_start'])
            if k:
                hit.add(k)
            if where([(info['axiom_probe'][0], info['axiom_probe'][1], 'ax')], s['line_start']):
                hit.add('ax')
    want = [k for k in info['probed']]
    r['probes'] = len([k for k in want if k in hit])
    r['vacuous'] = [k for k in want if k not in hit]
    if 'ax' not in hit:
        r['vacuous'].append('axioms are contradictory')
