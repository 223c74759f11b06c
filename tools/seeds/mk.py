"""Writes /verif/seeded/<id> from a file of bugs, after confirming each in a scratch copy."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SCRATCH = '/tmp/seedrepo'


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def bugs(path):
    """### id | property | needs | breaks;  --- file;  <<<< old ==== new >>>>;  %%%% main.rs"""
    for part in re.split(r'^### ', open(path).read(), flags=re.M)[1:]:
        head, _, rest = part.partition('\n')
        i, p, needs, breaks = [x.strip() for x in head.split('|')]
        edits, _, main = rest.partition('%%%%\n')
        ed, cur = [], None
        for m in re.finditer(r'^--- (\S+)$|^<<<<\n(.*?)\n====\n(.*?)\n?>>>>$', edits, re.S | re.M):
            if m.group(1):
                cur = m.group(1)
            else:
                ed.append((cur, m.group(2), m.group(3)))
        yield i, p, needs, breaks, ed, main


def main():
    only = sys.argv[2:]
    if not os.path.exists(SCRATCH):
        sh('cp -a /repo %s' % SCRATCH)
    base = sh('git rev-list --max-parents=0 HEAD', '/repo').stdout.strip()
    head = sh('git rev-parse HEAD', '/repo').stdout.strip()
    sh('git fetch -q /repo HEAD; git checkout -q -f %s' % head, SCRATCH)
    for i, p, needs, breaks, ed, main in bugs(sys.argv[1]):
        if only and i not in only:
            continue
        d = os.path.join(VERIF, 'seeded', i)
        sh('git checkout -q -- .', SCRATCH)
        bad = None
        for f, old, new in ed:
            path = os.path.join(SCRATCH, f)
            s = open(path).read()
            if s.count(old) != 1:
                bad = '%s: %d matches of %r' % (f, s.count(old), old[:60])
                break
            orig = sh('git show %s:%s' % (base, f), SCRATCH).stdout
            mine = [x for x in old.split('\n') if x not in new.split('\n') and x.strip() and x.strip() not in orig]
            if mine:
                print(i, 'NOTE: line not in the original:', mine)
            open(path, 'w').write(s.replace(old, new))
        if bad:
            print(i, 'BAD', bad)
            continue
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, 'src'))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', SCRATCH).stdout)
        shutil.copy(os.path.join(HERE, 'demo.sh'), d)
        shutil.copy(os.path.join(HERE, 'Cargo.toml.in'), d)
        shutil.copy(os.path.join(VERIF, 'harness/Cargo.lock'), d)
        shutil.copytree(os.path.join(VERIF, 'harness/shim'), os.path.join(d, 'shim'))
        shutil.copy(os.path.join(HERE, 'common.rs'), os.path.join(d, 'src'))
        open(os.path.join(d, 'src', 'main.rs'), 'w').write(main)
        json.dump({'property': p, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        t = sh('. /opt/vp/env.sh; CARGO_TARGET_DIR=/tmp/seedtarget cargo test --offline 2>&1 | grep -E "^test result|FAILED|error" | head; CARGO_TARGET_DIR=/tmp/seedtarget cargo check --features indexing --offline 2>&1 | grep -E "^error"', SCRATCH)
        r1 = sh('sh %s/demo.sh' % d, SCRATCH)
        sh('git checkout -q -- .', SCRATCH)
        r0 = sh('sh %s/demo.sh' % d, SCRATCH)
        ok = r0.returncode == 0 and r1.returncode != 0 and 'FAILED' not in t.stdout and not re.search('^error', t.stdout, re.M) and '8 passed' in t.stdout
        print(i, p, 'ok' if ok else 'NOT OK', r0.returncode, r1.returncode, '' if ok else t.stdout + r0.stdout[-1500:] + '\n---\n' + r1.stdout[-1500:], flush=True)
        if ok and 'error[' in r1.stdout:
            print('   demo does not build with the patch', r1.stdout[-500:])
        if not ok:
            shutil.rmtree(d)


main()
