#!/usr/bin/env python3
"""Looks for small changes the checks do not notice.

  mutants.py OUT.jsonl [-j N] [-n SAMPLE] FILE...

Every mutant is made in a scratch copy of /repo; it counts if it builds and
passes the stable tests, and is then run against the checks of its file.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    (r'event/feed(of)?\.go', 'C01 C02 C03'), (r'event/event\.go', 'C04 C05'), (r'event/subscription\.go', 'C06 C07 C08'),
    (r'common/mclock/', 'C09 C10 C11'),
    (r'log/logger\.go', 'C12 C13 C20'), (r'log/root\.go', 'C13 C12'), (r'log/format\.go', 'C14 C15 C16 C17 C13'),
    (r'log/handler_glog\.go', 'C19'), (r'log/syslog\.go', 'C21'), (r'log/handler', 'C20 C18 C21 C12'),
    (r'common/hexutil', 'C22 C23 C24'), (r'common/types\.go', 'C24 C25'), (r'common/bytes\.go', 'C26 C24'),
    (r'common/(math|big)', 'C27 C28'), (r'common/(size|format)\.go', 'C29'), (r'common/(path|debug|test_utils)', 'C30'),
    (r'crypto/sha3', 'C31'), (r'crypto/curve', 'C32 C33'), (r'crypto/randentropy', 'C33'), (r'crypto/mnemonic', 'C34'),
    (r'rlp/internal', 'C35 C36'), (r'rlp/rlpgen', 'C36'), (r'common/compiler', 'C37'),
]
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')


def sh(cmd, cwd, env=ENV, t=900):
    try:
        r = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
        o, _ = r.communicate(timeout=t)
        return r.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(r.pid, 9)
        r.wait()
        return -9, 'timeout'


def one(job):
    f, m = job
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        repo = os.path.join(d, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        shutil.rmtree(os.path.join(repo, '.git'), ignore_errors=True)
        p = os.path.join(repo, f)
        b = open(p, 'rb').read()
        open(p, 'wb').write(b[:m['off']] + m['new'].encode() + b[m['end']:])
        rc, o = sh(['go', 'build', './' + os.path.dirname(f)], repo)
        if rc:
            return dict(m, file=f, verdict='no build')
        rc, o = sh(['go', 'test', '-vet=off', '-timeout', '20s', './' + os.path.dirname(f).split('/')[0] + '/...'], repo, t=300)
        bad = set(re.findall(r'(?m)^\s*--- FAIL: (\S+)', o)) - BASE
        if bad or 'panic:' in o and 'can\'t load package RLP' not in o:
            return dict(m, file=f, verdict='tests', by=sorted(bad)[:3])
        cs = next(c for r, c in MAP if re.search(r, f)).split()
        seen = []
        for c in cs:
            rc, o = sh(['python3', os.path.join(V, 'run.py'), c], V, dict(ENV, VERIF_REPO=repo, VERIF_SEED='1', VERIF_EVIDENCE=d), t=400)
            if rc == 1 and 'VIOLATION property=' in o:
                return dict(m, file=f, verdict='caught', by=c)
            if rc:
                seen.append('%s=%d %s' % (c, rc, o[-200:]))
        return dict(m, file=f, verdict='inconclusive' if seen else 'SURVIVED', by=seen)
    finally:
        shutil.rmtree(d, ignore_errors=True)


BASE = {'TestMixedcaseAccount_Address'}
args = sys.argv[1:]
out, j, n = args.pop(0), 3, 10**9
while args and args[0] in ('-j', '-n'):
    k = args.pop(0)
    if k == '-j':
        j = int(args.pop(0))
    else:
        n = int(args.pop(0))
sh(['go', 'build', '-o', '/tmp/mutate.bin', os.path.join(V, 'tools/mutate/main.go')], '/tmp')
jobs = []
for f in args:
    rc, o = sh(['/tmp/mutate.bin', '/repo/' + f], '/tmp')
    jobs += [(f, json.loads(l)) for l in o.splitlines()]
random.Random(7).shuffle(jobs)
jobs = jobs[:n]
print(len(jobs), 'mutants', flush=True)
done = set()
if os.path.exists(out):
    done = {(r['file'], r['off'], r['new']) for r in map(json.loads, open(out))}
jobs = [x for x in jobs if (x[0], x[1]['off'], x[1]['new']) not in done]
with ThreadPoolExecutor(j) as ex, open(out, 'a') as w:
    for r in ex.map(one, jobs):
        w.write(json.dumps(r) + '\n')
        w.flush()
        if r['verdict'] in ('SURVIVED', 'inconclusive'):
            print(r['verdict'], r['file'], r['line'], r['what'].replace('\n', ' ')[:160], r.get('by'), flush=True)
