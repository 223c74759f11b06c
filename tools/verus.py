"""Runs Verus on a contract template and sorts out what it says."""
import json
import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import assemble

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# What the verifier says when an obligation cannot be shown.  Everything else
# (unsupported construct, type error, resource limit) decides nothing.
FAILED = re.compile(
    r'^(postcondition not satisfied|precondition not satisfied|precondition not met|assertion failed|invariant not satisfied|'
    r'possible arithmetic (underflow|overflow)|possible division by zero|decreases not satisfied|'
    r'loop invariant not satisfied|could not prove termination|failed (precondition|this postcondition)|'
    r'possible bit shift underflow/overflow|unable to prove|assertion not satisfied|recommendation not met|'
    r'requires not satisfied|unreachable|possible out of bounds|.*not satisfied)', re.I)
UNDECIDED = re.compile(r'resource limit|rlimit|not supported|unsupported|timed? ?out|not yet', re.I)


def run(path, extra=(), timeout=600):
    cmd = ['verus', path, '--output-json', '--time-expanded', '--error-format=json', '--multiple-errors', '20'] + list(extra)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {'cmd': cmd, 'errors': [], 'verified': 0, 'failed': 0, 'timeout': True, 'ok': False, 'ms': timeout * 1000, 'functions': []}
    errs = []
    for ln in p.stderr.decode('utf8', 'replace').splitlines():
        if not ln.startswith('{'):
            continue
        try:
            d = json.loads(ln)
        except ValueError:
            continue
        if d.get('level') != 'error' or d.get('message', '').startswith('aborting due to'):
            continue
        errs.append({'message': d['message'], 'text': d.get('rendered') or '',
                     'spans': [(s['line_start'], s['line_end'], bool(s.get('is_primary')), ' '.join(t['text'].strip() for t in s.get('text', [])), s.get('label') or '')
                               for s in d.get('spans', []) if s['file_name'].endswith(os.path.basename(path))]})
    r = {'cmd': cmd, 'errors': errs, 'verified': 0, 'failed': 0, 'timeout': False, 'ok': False, 'ms': 0, 'functions': [], 'stderr': p.stderr.decode('utf8', 'replace')[-3000:]}
    try:
        d = json.loads(p.stdout.decode('utf8', 'replace'))
        v = d['verification-results']
        r.update(verified=v.get('verified', 0), failed=v.get('errors', 0), ok=bool(v.get('success')) and p.returncode == 0)
        smt = d['times-ms'].get('smt', {})
        r['ms'] = smt.get('smt-run', 0)
        for m in smt.get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                r['functions'].append((f['function'], f.get('time', 0), f.get('success')))
    except (ValueError, KeyError):
        if p.returncode == 0:
            r['stderr'] += ' (no JSON)'
    return r


def item_at(crate, spans):
    """The contracted item an error belongs to."""
    for want in (True, False):
        for a, z, prim, _, _ in spans:
            if prim == want:
                for it in crate.items:
                    if it['first'] <= a <= it['last'] and it['status'] == 'contract':
                        return it
    return None


def check(name, out_dir, root='/repo/src', vac=True, extra=()):
    """Assembles and verifies contracts/NAME.rs; items beyond the verifier's
    reach are degraded to their contract until the rest goes through."""
    os.makedirs(out_dir, exist_ok=True)
    res = {'crate': name, 'degraded': {}, 'lost': {}, 'fatal': None, 'failures': [], 'verified': 0, 'failed': 0, 'ms': 0,
           'items': [], 'functions': [], 'reachable': 0, 'reachable_open': 0, 'unreachable': 0, 'cmd': '', 'text': '', 'undecided': []}
    template = os.path.join(VERIF, 'contracts', name + '.rs')
    path = os.path.join(out_dir, name + '.rs')
    for _ in range(12):
        c = assemble.assemble(template, root, 'normal', tuple(res['degraded']))
        if c.fatal:
            res['fatal'] = c.fatal
            return res
        with open(path, 'w') as f:
            f.write(c.text)
        r = run(path, extra)
        res['cmd'] = ' '.join(r['cmd'])
        if r['timeout']:
            res['fatal'] = 'the verifier did not finish'
            return res
        bad = {}
        stray = []
        for e in r['errors']:
            hard = UNDECIDED.search(e['message']) or not FAILED.search(e['message'])
            if hard:
                it = item_at(c, e['spans'])
                if it is None:
                    # an unknown name is reported where it is used, which may be outside any item
                    stray.append(e['message'])
                else:
                    bad[it['id']] = e['message']
        if bad:
            res['degraded'].update(bad)
            continue
        if stray:
            res['fatal'] = '; '.join(stray[:3])
            return res
        break
    else:
        res['fatal'] = 'too many functions beyond the verifier'
        return res
    res['lost'] = dict(c.lost)
    res['text'] = c.text
    res.update(verified=r['verified'], failed=r['failed'], ms=r['ms'], functions=r['functions'], items=c.items)
    for e in r['errors']:
        it = item_at(c, e['spans'])
        res['failures'].append({'item': it['id'] if it else None, 'message': e['message'],
                                'where': [s[3] for s in e['spans']], 'text': e['text']})
    if not r['ok'] and not r['errors']:
        res['fatal'] = 'the verifier stopped: ' + r['stderr'][-500:]
    if vac and not res['failures'] and not res['fatal']:
        v = assemble.assemble(template, root, 'vac', tuple(res['degraded']))
        vpath = os.path.join(out_dir, name + '_vac.rs')
        with open(vpath, 'w') as f:
            f.write(v.text)
        rv = run(vpath, list(extra) + ['--rlimit', '4'])
        hit = set()
        for e in rv['errors']:
            for a, z, prim, t, _ in e['spans']:
                for m in re.finditer(r'vac\((\d+)\)', v.text.split('\n')[a - 1]):
                    hit.add(int(m.group(1)))
        open_ = set()
        vl = v.text.split('\n')
        for e in rv['errors']:
            if UNDECIDED.search(e['message']):
                for it in v.items:
                    if any(it['first'] <= a <= it['last'] for a, z, prim, t, _ in e['spans']):
                        for m in re.finditer(r'vac\((\d+)\)', '\n'.join(vl[it['first'] - 1:it['last']])):
                            open_.add(int(m.group(1)))
        res['reachable'] = len(hit)
        res['reachable_open'] = len(open_ - hit)       # the solver gave up on "false": it did not derive it
        res['unreachable_points'] = sorted(set(range(v.nvac)) - hit - open_)
        res['unreachable'] = len(res['unreachable_points'])
    return res


def trusted(text):
    """Every assumption in an assembled crate."""
    out = []
    lines = text.split('\n')
    for i, ln in enumerate(lines):
        s = ln.strip()
        if s.startswith('//') or s.startswith('///'):
            continue
        if re.match(r'#\[verifier::external_body\] (pub )?(broadcast )?proof fn ', s):
            continue    # proved in the crate it comes from, which the same check verifies (assemble.assume_lemmas)
        if 'external_body' in s or re.match(r'(pub )?(broadcast )?axiom fn', s) or 'assume_specification' in s or re.search(r'\b(assume|admit)\(', s) or 'external_type_specification' in s or 'external_trait_specification' in s:
            j = i
            if 'external_body' in s or 'external_t' in s:
                while j + 1 < len(lines) and (lines[j].strip().startswith('#[') or not lines[j].strip()):
                    j += 1
            out.append(re.sub(r'\s+', ' ', lines[j].strip())[:150])
    return out


if __name__ == '__main__':
    import time
    for n in sys.argv[1:]:
        t = time.time()
        r = check(n, os.path.join(VERIF, 'build', 'verus'))
        print(n, 'verified', r['verified'], 'failed', r['failed'], 'lost', r['lost'], 'degraded', r['degraded'], 'fatal', r['fatal'],
              'reach', r['reachable'], 'unreach', r['unreachable'], r.get('unreachable_points'), '%.1fs' % (time.time() - t))
        for f in r['failures']:
            print('  ', f['item'], f['message'], f['where'])
