#!/usr/bin/env python3
"""mkseed.py TABLE.py : (development) makes /verif/seeded/<id> from a table of edits, after checking them in a scratch copy.

TABLE.py defines SEEDS = [(id, property, file, old, new, needs, breaks, demo source)]; several (old, new) pairs may be given as lists."""
import sys, os, json, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = '87ae4a1'
DEMO = '#!/bin/sh\n# exit 0: the property holds in this case; nonzero: it is broken\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    base_ok = json.load(open('/opt/vp/BASELINE.json'))
    for id_, prop, file, old, new, needs, breaks, demo in ns['SEEDS']:
        if only and id_ not in only:
            continue
        tmp = tempfile.mkdtemp(prefix='seed')
        r = os.path.join(tmp, 'repo')
        sh(f'git clone -q /repo {r}', '/')
        p = os.path.join(r, file)
        s = open(p).read()
        olds, news = (old, new) if isinstance(old, list) else ([old], [new])
        blame = sh(f'git blame -s {file}', r).stdout.split('\n')
        bad = False
        for o, n in zip(olds, news):
            if s.count(o) != 1:
                print(id_, 'text found', s.count(o), 'times:', o[:60]); bad = True; break
            s = s.replace(o, n)
        if bad:
            shutil.rmtree(tmp); continue
        d = os.path.join(HERE, 'seeded', id_)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.py'), 'w').write(demo.strip() + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh(f'sh {d}/demo.sh', r, timeout=300)
        open(p, 'w').write(s)
        diff = sh('git diff', r).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        b = sh(f'sh {d}/demo.sh', r, timeout=300)
        t = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -3', r, env=dict(os.environ, PYTHONPATH=r))
        import re
        lines = []
        cur = None
        for l in sh('git diff -U0', r).stdout.split('\n'):
            m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
            if m:
                lines += range(int(m[1]), int(m[1]) + int(m[2] if m[2] is not None else 1))
        orig = [blame[i - 1].startswith('^' + BASE) or BASE in blame[i - 1][:12] for i in lines]
        ok = a.returncode == 0 and b.returncode != 0 and 'failed' not in t.stdout and 'passed' in t.stdout and all(orig) and orig
        print(id_, 'OK' if ok else 'BAD', 'clean demo', a.returncode, 'patched demo', b.returncode, t.stdout.strip().split('\n')[-1][-60:], 'original lines', orig)
        if not ok:
            print((a.stderr or b.stderr)[-300:])
            shutil.rmtree(d)
        shutil.rmtree(tmp)


main()
