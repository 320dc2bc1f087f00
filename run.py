#!/usr/bin/env python3
"""Supervisor of one check: builds the monitored test binary from the current
tree of the code under test, runs it, reads what the monitors recorded, turns
crashes, race reports and recorded violations into a verdict and writes the
evidence file.

  run.py <property-id>

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Anything else: the check itself failed (inconclusive).
"""
import ctypes, json, os, re, shutil, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import checks as table  # noqa

REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
LIB = re.compile(r'(?m)^(flychain/|main\.)')


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', HOME=e.get('HOME', '/root'))
    e.pop('GODEBUG', None)
    return e


def sh(cmd, env, cwd, timeout=800):
    return subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors='replace', timeout=timeout)


def die_with_parent():
    """The monitored process ends when this supervisor does (PR_SET_PDEATHSIG)."""
    ctypes.CDLL(None, use_errno=True).prctl(1, 9, 0, 0, 0)


def harness_dir(tmp):
    """A private copy of the harness module, its replace pointing at REPO."""
    d = os.path.join(tmp, 'harness')
    shutil.copytree(os.path.join(VERIF, 'harness'), d)
    p = os.path.join(d, 'go.mod')
    s = open(p).read().replace('=> /repo', '=> ' + REPO)
    open(p, 'w').write(s)
    return d


def build(tmp, chk, env):
    d = harness_dir(tmp)
    extra = []
    if chk.get('prepare'):
        extra = table.PREPARE[chk['prepare']](REPO, VERIF, d, tmp, env, sh)
    out = os.path.join(tmp, 'check.test')
    cmd = ['go', 'test', '-c', '-vet=off', '-o', out]
    if chk.get('race', True):
        cmd.append('-race')
    cmd += extra + ['./' + chk['pkg']]
    r = sh(cmd, env, d)
    if r.returncode != 0 or not os.path.exists(out):
        print('build failed:\n' + r.stdout[-4000:], file=sys.stderr)
        sys.exit(3)
    return out, d


def own_stack(goroutine):
    """The frames of a goroutine dump without the creation site."""
    return goroutine.split('\ncreated by')[0]


def crash_in_library(text):
    """Text of an aborted process: is the crash the code under test's doing?

    It is if a frame of it is on the crashing stack, if the process deadlocked
    (the workloads never do by themselves), or if the monitor met a run-time
    error while handling what it was given."""
    m = re.search(r'(?m)^(panic: |fatal error: |unexpected fault address|SIGSEGV)', text)
    if not m:
        return None
    tail = text[m.start():]
    head = tail.split('\n', 1)[0]
    if 'out of memory' in head or 'cannot allocate' in head or 'newosproc' in head:
        return None
    if 'deadlock' in head or 'all goroutines are asleep' in head or 'concurrent map' in head:
        return head
    if head.startswith('panic: runtime error') or head.startswith('panic: interface conversion'):
        return head
    stacks = [g for g in re.split(r'\n\n', tail) if g.startswith('goroutine ') or '\ngoroutine ' in g]
    return head if stacks and LIB.search(own_stack(stacks[0])) else None


def race_reports(prefix):
    out = []
    for f in glob.glob(prefix + '*'):
        txt = open(f, errors='replace').read()
        for rep in txt.split('=================='):
            if 'WARNING: DATA RACE' not in rep:
                continue
            acc = re.split(r'\n\nGoroutine ', rep)[0]
            lib = re.search(r'(?m)^  flychain/', acc) is not None
            out.append((lib, rep.strip()))
    return out


def load_known(pid):
    res = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'):
                continue
            k = json.loads(l)
            if k['property'] == pid:
                res.append(k)
    return res


def main():
    pid = sys.argv[1]
    chk = table.CHECKS[pid]
    t0 = time.time()
    env = goenv()
    seed = int(env.get('VERIF_SEED', '1') or 1)
    tier = env.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    env['VERIF_SEED'], env['VERIF_TIER'] = str(seed), tier
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        rc = run(pid, chk, t0, env, seed, tier, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(pid, chk, t0, env, seed, tier, tmp):
    binary, hdir = build(tmp, chk, env)
    outp = os.path.join(tmp, 'out.jsonl')
    scratch = os.path.join(tmp, 'scratch')
    os.mkdir(scratch)
    env['VERIF_OUT'] = outp
    env['VERIF_SCRATCH'] = scratch
    env['TMPDIR'] = scratch
    env['GORACE'] = 'halt_on_error=0 exitcode=66 log_path=%s/race' % tmp
    env['GOTRACEBACK'] = 'all'
    limit = 780 if tier == 'quick' else 6 * 3600
    timed_out = False
    try:
        p = subprocess.run([binary, '-test.run', '^Test%s$' % pid, '-test.timeout', '0'], env=env, cwd=os.path.join(hdir, chk['pkg']),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=limit,
                           preexec_fn=die_with_parent)
        text, code = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        timed_out = True
        text, code = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), -1
    recs = []
    if os.path.exists(outp):
        for l in open(outp, errors='replace'):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    viols = [(r['sig'], r['detail']) for r in recs if r.get('kind') == 'violation']
    results = [r for r in recs if r.get('kind') == 'result']
    herr = [r['detail'] for r in recs if r.get('kind') == 'harness_error']
    races = race_reports(os.path.join(tmp, 'race'))
    for lib, rep in races:
        # A race between two callers is one the code under test should have
        # ordered (the workloads have none of their own).
        viols.append(('data race' if lib else 'data race between callers', rep))
    crash = crash_in_library(text) if code not in (0, 1) or not results else None
    if crash:
        viols.append(('crash: ' + crash[:100], text[-6000:]))

    known = load_known(pid)
    fresh = []
    hit = {}
    for sig, det in viols:
        k = next((k for k in known if re.search(k['match'], sig + '\n' + det)), None)
        if k:
            hit[k['id']] = k
        else:
            fresh.append((sig, det))
    for k in known:
        # Listed findings are printed whether or not this run met them again.
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

    res = results[-1] if results else {}
    wall = round(time.time() - t0, 2)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': chk.get('level', 'exploration'),
        'coverage': {
            'evaluations': res.get('evaluations', 0),
            'distinct_nontrivial': res.get('distinct', 0),
            'rule': res.get('rule', ''),
            'samples': res.get('samples') or ['(run ended before any case completed)'],
            'observed': res.get('counters', {}),
            'race_detector': bool(chk.get('race', True)),
        },
        'assumptions': chk.get('assumptions', []) + table.COMMON_ASSUMPTIONS,
        'wall_s': wall,
        'violations': len(fresh),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')

    if fresh and (herr or not res.get('completed')):
        print('\n'.join(herr)[-2000:] or text[-2000:], file=sys.stderr)
    if fresh:
        rp = os.path.join(EVID, 'replay-%s.txt' % pid)
        with open(rp, 'w') as f:
            f.write('property %s, seed %d, tier %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3 /verif/run.py %s\n' % (pid, seed, tier, seed, tier, pid))
            for sig, det in fresh:
                f.write('\n--- %s\n%s\n' % (sig, det))
        for sig, det in fresh[:5]:
            print('  %s: %s' % (sig, det.replace('\n', ' | ')[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    done = bool(res.get('completed'))
    ok = code == 0 or code == 1 and viols and not fresh  # 1: known findings only
    if herr or timed_out or not done or not ok:
        print('check %s inconclusive (exit %s, timeout %s, completed %s)\n%s\n%s' % (pid, code, timed_out, done, '\n'.join(herr)[-3000:], text[-3000:]), file=sys.stderr)
        return 4
    if res.get('evaluations', 0) == 0:
        print('check %s observed nothing' % pid, file=sys.stderr)
        return 4
    print('property %s held: %d executions observed, %d distinct, %.1f s' % (pid, res['evaluations'], res['distinct'], wall))
    return 0


if __name__ == '__main__':
    main()
