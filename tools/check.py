#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's working tree.

1. Every contract crate the property rests on is assembled from /repo/src and
   verified (all obligations, all inputs).
2. The harness runs the real code against oracles of its own.  It finds the
   failing input for an obligation that broke, and stands in (bounded) for what
   is outside the verifier's reach.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verus
from props import PROPS, CRATES

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
REPO = '/repo'


def cargo_env():
    e = dict(os.environ)
    home = '/root'
    e.update(HOME=home, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             CARGO_TARGET_DIR=os.path.join(BUILD, 'harness'), RUSTC_WRAPPER='')
    e['PATH'] = home + '/.cargo/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    e.pop('CARGO_RESOLVER_LOCKFILE_PATH', None)
    return e


def build_harness():
    """Returns (path, None) or (None, why)."""
    d = os.path.join(VERIF, 'harness')
    lock = open(os.path.join(d, 'Cargo.lock')).read()
    p = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=d, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if open(os.path.join(d, 'Cargo.lock')).read() != lock:
        with open(os.path.join(d, 'Cargo.lock'), 'w') as f:
            f.write(lock)
    exe = os.path.join(BUILD, 'harness', 'debug', 'harness')
    if p.returncode != 0 or not os.path.exists(exe):
        return None, p.stdout.decode('utf8', 'replace')[-3000:]
    return exe, None


def run_one(exe, prop, seed, secs, out):
    for f in (out, out + '.at'):
        if os.path.exists(f):
            os.remove(f)
    cmd = [exe, 'run', prop, str(seed), str(secs), out]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 150, cwd=BUILD)
        rc, said = p.returncode, p.stdout.decode('utf8', 'replace')[-500:]
    except subprocess.TimeoutExpired:
        rc, said = 'timeout', ''
    if os.path.exists(out):
        with open(out) as f:
            return json.load(f)
    at = None
    if os.path.exists(out + '.at'):
        t = open(out + '.at').read().split()
        at = int(t[0]) if t else 0
    if at is None:
        return {'evaluations': 0, 'distinct': 0, 'samples': [], 'failure': None, 'seed': seed, 'broken': 'harness ended with %s: %s' % (rc, said)}
    if rc == -9:
        # ended from outside (memory): says nothing about the code
        return {'evaluations': at, 'distinct': 0, 'samples': [], 'failure': None, 'seed': seed, 'broken': 'harness was killed'}
    what = 'the case does not end' if rc in (4, 'timeout') else 'the process dies (%s) %s' % (rc, said.strip())
    return {'evaluations': at + 1, 'distinct': 0, 'samples': [], 'seed': seed, 'failure': {'index': at, 'what': what}}


def explore(exe, prop, seeds, secs):
    outs = []
    os.makedirs(os.path.join(BUILD, 'run'), exist_ok=True)
    with cf.ThreadPoolExecutor(max_workers=min(8, len(seeds))) as ex:
        fs = [ex.submit(run_one, exe, prop, s, secs, os.path.join(BUILD, 'run', '%s-%d.json' % (prop, s))) for s in seeds]
        for f in fs:
            outs.append(f.result())
    return outs


def relevant(prop, crate, item):
    pats = PROPS[prop]['crates'].get(crate)
    if pats is None:
        return False
    if item is None:
        return True
    return any(re.search(p, item) for p in pats)


def main():
    prop = sys.argv[1]
    p = PROPS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    vdir = os.path.join(BUILD, 'verus', prop)
    shutil.rmtree(vdir, ignore_errors=True)

    crates = list(p['crates'])
    deps = []
    for c in crates:
        for d in CRATES[c]:
            if d not in crates and d not in deps:
                deps.append(d)
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        hb = ex.submit(build_harness)
        vs = {c: ex.submit(verus.check, c, vdir, REPO + '/src', c in crates) for c in crates + deps}
        exe, why = hb.result()
        res = {c: f.result() for c, f in vs.items()}

    broken = []      # (crate, item, failure)
    elsewhere = []
    undecided = []
    for c, r in res.items():
        if r['fatal']:
            undecided.append('%s: %s' % (c, r['fatal']))
        for i, w in list(r['lost'].items()) + list(r['degraded'].items()):
            if relevant(prop, c, i):
                undecided.append('%s: %s' % (i, w))
        for f in r['failures']:
            if relevant(prop, c, f['item']):
                broken.append((c, f))
            else:
                elsewhere.append((c, f))
    if broken:
        # once more, with more time and another seed, before calling it broken
        again = {}
        for c in sorted({c for c, _ in broken}):
            again[c] = verus.check(c, os.path.join(vdir, 'again'), REPO + '/src', False, ('--rlimit', '60', '--smt-option', 'smt.random_seed=%d' % (seed + 6)))
        still = []
        for c, f in broken:
            if again[c]['fatal'] or any(g['item'] == f['item'] for g in again[c]['failures']):
                still.append((c, f))
        for c in again:
            if not any(x == c for x, _ in still) and not again[c]['fatal']:
                again[c].update({k: res[c].get(k) for k in ('reachable', 'reachable_open', 'unreachable', 'unreachable_points')})
                res[c] = again[c]
        broken = still
    if tier == 'thorough':
        # the proofs are stable under other solver seeds
        for c in crates:
            for s in (3, 11):
                r = verus.check(c, os.path.join(vdir, 's%d' % s), REPO + '/src', False, ('--smt-option', 'smt.random_seed=%d' % s))
                res[c].setdefault('seeds', []).append([s, r['verified'], r['failed']])

    # the harness
    runs = []
    if exe:
        secs, seeds = p.get('secs', 8), [seed * 1000 + k for k in range(4)]
        if tier == 'thorough':
            secs = p.get('thorough_secs', 100)
            seeds = [seed * 1000 + k for k in range(8)]
        runs = explore(exe, prop, seeds, secs)
        if (broken or undecided) and not any(r.get('failure') for r in runs):
            for k in range(1, 3 if tier == 'quick' else 5):
                runs += explore(exe, prop, [seed * 1000 + 100 * k + j for j in range(8)], max(20, secs))
                if any(r.get('failure') for r in runs):
                    break
    for r in runs:
        if r.get('broken'):
            undecided.append(r['broken'])
    found = next((r for r in runs if r.get('failure')), None)

    finish(prop, p, tier, seed, t0, res, crates, deps, broken, elsewhere, undecided, runs, found, exe, why)


def finish(prop, p, tier, seed, t0, res, crates, deps, broken, elsewhere, undecided, runs, found, exe, why):
    findings = known_findings(prop)
    for kf in findings:
        if exe and kf.get('cmd'):
            q = subprocess.run([exe] + kf['cmd'].split(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=BUILD)
            if q.returncode == 0:
                continue      # it holds now
        print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    items = []
    for c in crates:
        for it in res[c]['items']:
            if it['status'] in ('contract', 'assumed') and relevant(prop, c, it['id']):
                items.append('%s (%s%s)' % (it['id'], it['status'], ', rewrites: ' + '; '.join(it['info']['rewrites']) if it['info']['rewrites'] else ''))
    fns = []
    for c in crates:
        fns += [(n, ms) for n, ms, ok in res[c]['functions']]
    fns.sort(key=lambda x: -x[1])
    trust = []
    for c in crates:
        txt = res[c]['text']
        local = {i['id'] for i in res[c]['items'] if i['status'] in ('elsewhere', 'lost', 'degraded')}
        lines = txt.split('\n')
        skip = set()
        for i in res[c]['items']:
            if i['id'] in local:
                skip.update(range(i['first'] - 1, i['last'] + 1))
        kept = '\n'.join('' if k in skip else ln for k, ln in enumerate(lines))
        trust += ['%s: %s' % (c, t) for t in verus.trusted(kept)]
    trust = sorted(set(t.split(': ', 1)[1] for t in trust))
    samples = []
    for r in runs:
        samples += r.get('samples', [])[:2]
    assumptions = list(p.get('assumptions', []))
    assumptions.append('byte-consuming closures are represented by a trait with one method (FnMut(u8) -> ByteSink); the rewrites of each function are listed under functions_under_contract')
    assumptions += ['undecided by the verifier on this tree, bounded harness only: ' + u for u in undecided]
    assumptions += ['broken contract outside this property: %s %s' % (f['item'], f['message']) for _, f in elsewhere]
    cov = {
        'obligations': sum(res[c]['verified'] + res[c]['failed'] for c in crates),
        'discharged': sum(res[c]['verified'] for c in crates),
        'checker_cmd': '; '.join(res[c]['cmd'] for c in crates if res[c]['cmd']) or 'none',
        'trusted_base': ['Verus 0.2026.09.13 and vstd', 'Z3 (bundled with Verus)', 'rustc'] + trust,
        'functions_under_contract': items,
        'function_count': len(items),
        'back_end': 'Verus / Z3',
        'solver_ms': sum(res[c]['ms'] for c in crates),
        'slowest': [{'function': n, 'ms': ms} for n, ms in fns[:5]],
        'callee_crates': [{'crate': c, 'verified': res[c]['verified'], 'failed': res[c]['failed'], 'fatal': res[c]['fatal']} for c in deps],
        'reachability_points': {c: {'reached': res[c]['reachable'], 'solver_gave_up': res[c]['reachable_open'], 'contradiction_derived': res[c]['unreachable']} for c in crates},
        'stability': {c: res[c]['seeds'] for c in crates if res[c].get('seeds')},
        'bounded_stand_in': p.get('bounded', 'none: the harness only looks for failing inputs'),
        'evaluations': sum(r.get('evaluations', 0) for r in runs),
        'distinct_nontrivial': sum(r.get('distinct', 0) for r in runs),
        'rule': p['rule'],
        'samples': samples[:6] or ['none'],
        'harness_seeds': [r.get('seed') for r in runs],
    }
    if why:
        cov['harness'] = 'did not build: ' + why[-800:]
    violation = None
    rdir = os.path.join(BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, prop + '.json')
    if found or broken:
        rep = {'property': prop,
               'failed_obligations': [{'crate': c, 'function': f['item'], 'message': f['message'], 'where': f['where'], 'verifier_output': f['text']} for c, f in broken]}
        if found:
            rep['failing_input'] = {'seed': found['seed'], 'case': found['failure']['index'], 'what': found['failure']['what']}
            rep['replay'] = '%s case %s %s %s' % (exe, prop, found['seed'], found['failure']['index'])
        with open(replay, 'w') as f:
            json.dump(rep, f, indent=1)
        violation = 'VIOLATION property=%s replay=%s' % (prop, replay) + ('' if found else ' no-failing-input-found')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': p['level'], 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 1), 'violations': 1 if violation else 0}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for c, f in broken:
        print('failed obligation: %s: %s %s' % (f['item'] or c, f['message'], f['where'][:2]))
    if found:
        print('failing input (seed %s, case %s): %s' % (found['seed'], found['failure']['index'], ''.join(c if c.isprintable() else '\\u{%x}' % ord(c) for c in found['failure']['what'][:1500])))
    for u in undecided:
        print('undecided by the verifier: %s' % u[:400])
    print('%s: %d of %d obligations discharged, %d functions under contract, %d cases on the real code, %.0f s'
          % (prop, cov['discharged'], cov['obligations'], len(items), cov['evaluations'], time.time() - t0))
    if violation:
        print(violation)
        sys.exit(1)
    if not exe and undecided:
        print('nothing decided: ' + (why or '')[-1500:])
        sys.exit(3)
    sys.exit(0)


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r'finding: property=(\S+) (?:\[cmd: (.*?)\] )?(.*)', ln.strip())
            if m and m.group(1) == prop:
                out.append({'cmd': m.group(2), 'what': m.group(3)})
    return out


if __name__ == '__main__':
    main()
