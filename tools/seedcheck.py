#!/usr/bin/env python3
"""Verify planted bugs: seedcheck.py [-j N] ID...   (no ID: all of seeded/)

For each: demo passes on a copy of /repo, patch applies and builds, the stable
tests pass, the demo fails; then runs the check of its property (and prints
whether it caught the bug)."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
BASE = {'TestMixedcaseAccount_Address'}


def sh(cmd, cwd, env=ENV, t=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -9, 'timeout'


def one(i):
    s = os.path.join(V, 'seeded', i)
    meta = json.load(open(s + '/meta.json'))
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        repo = os.path.join(d, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        sd = os.path.join(d, 'demo')
        shutil.copytree(s, sd)
        for x in os.listdir(sd):
            if x.endswith(('.diff', '.patch')) or x == 'meta.json':
                os.unlink(os.path.join(sd, x))
        if not NODEMO:
            rc, o = sh(['bash', sd + '/demo.sh'], repo, t=300)
            if rc:
                return i, 'BAD demo fails on clean tree: ' + o[-800:]
        rc, o = sh(['git', 'apply', s + '/patch.diff'], repo)
        if rc:
            return i, 'BAD does not apply: ' + o
        if not NODEMO:
            rc, o = sh(['go', 'build', './common/...', './crypto/...', './event/...', './log/...', './rlp/internal/...'], repo)
            if rc:
                return i, 'BAD build: ' + o[-800:]
            rc, o = sh(['go', 'test', '-timeout', '120s', './common/...', './event/...', './log/...', './crypto/...'], repo)
            bad = set(re.findall(r'(?m)^\s*--- FAIL: (\S+)', o)) - BASE
            if bad or 'panic:' in o or 'build failed' in o:
                return i, 'BAD tests fail: %s %s' % (bad, o[-800:])
            rc, o = sh(['bash', sd + '/demo.sh'], repo, t=300)
            if rc == 0:
                return i, 'BAD demo passes with patch'
            if 'build failed' in o or 'setup failed' in o:
                return i, 'BAD demo does not build: ' + o[-800:]
            dem = o
        res = []
        for p in [meta['property']]:
            t = time.time()
            rc, o = sh(['python3', V + '/run.py', p], V, dict(ENV, VERIF_REPO=repo, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_EVIDENCE=d))
            c = rc == 1 and 'VIOLATION property=' in o
            res.append('%s %s (%.0fs)%s' % (p, 'caught' if c else 'MISSED rc=%d' % rc, time.time() - t, '' if c else ' ' + o[-300:]))
            if c:
                res.append(o.strip().split('\n')[0][:160])
        return i, ' | '.join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


args = sys.argv[1:]
j, NODEMO = 4, False
while args and args[0].startswith('-'):
    k = args.pop(0)
    if k == '-j':
        j = int(args.pop(0))
    if k == '-c':
        NODEMO = True
ids = args or sorted(os.listdir(V + '/seeded'))
with ThreadPoolExecutor(j) as ex:
    for i, r in ex.map(one, ids):
        print(i, r, flush=True)
