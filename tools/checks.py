"""Table of checks used by run.py."""
import re

COMMON_ASSUMPTIONS = [
    'Go 1.27 toolchain, runtime, race detector and testing/synctest are trusted',
    'only the executions generated from the seed are observed; nothing is proved about others',
]

CHECKS = {}


def add(pid, pkg, **kw):
    CHECKS[pid] = dict(pkg=pkg, **kw)


PREPARE = {}


def _rlpgen(repo, verif, hdir, tmp, env, sh):
    """Build the generator. x/tools of the repository's go.mod predates the
    toolchain's export format, so a go.mod with the cached newer version is
    used, kept outside the repository."""
    import os, sys
    mod = os.path.join(tmp, 'go.mod')
    s = open(os.path.join(repo, 'go.mod')).read()
    s = re.sub(r'golang.org/x/tools v\S+', 'golang.org/x/tools v0.52.0', s)
    s = re.sub(r'golang.org/x/mod v\S+', 'golang.org/x/mod v0.42.0', s)
    open(mod, 'w').write(s)
    open(os.path.join(tmp, 'go.sum'), 'w').write(open(os.path.join(repo, 'go.sum')).read())
    out = os.path.join(tmp, 'rlpgen')
    e = dict(env, GOSUMDB='off', GONOSUMDB='*')
    r = sh(['go', 'build', '-modfile=' + mod, '-o', out, './rlp/rlpgen'], e, repo)
    if r.returncode != 0 or not os.path.exists(out):
        print('building rlpgen failed:\n' + r.stdout[-3000:], file=sys.stderr)
        sys.exit(3)
    env['VERIF_RLPGEN'] = out
    return []


def _rlpstruct(repo, verif, hdir, tmp, env, sh):
    """Lay a package re-exporting rlp/internal/rlpstruct over the tree."""
    import json, os
    ov = os.path.join(tmp, 'overlay.json')
    src = os.path.join(hdir, 'rlpstruct', 'bridge.go.txt')
    json.dump({'Replace': {os.path.join(repo, 'rlp/verifbridge/bridge.go'): src}}, open(ov, 'w'))
    return ['-overlay=' + ov]


def _vast(repo, verif, hdir, tmp, env, sh):
    """Build the hasher of long messages, without the race detector."""
    import os, sys
    out = os.path.join(tmp, 'vast')
    r = sh(['go', 'build', '-o', out, './crypto/vast'], env, hdir)
    if r.returncode != 0 or not os.path.exists(out):
        print('build failed:\n' + r.stdout[-3000:], file=sys.stderr)
        sys.exit(3)
    env['VERIF_VAST'] = out
    return []


PREPARE['rlpgen'] = _rlpgen
PREPARE['vast'] = _vast
PREPARE['rlpstruct'] = _rlpstruct

for _i in range(1, 9):
    add('C%02d' % _i, 'event')
for _i in range(9, 12):
    add('C%02d' % _i, 'mclock')
for _i in range(12, 22):
    add('C%02d' % _i, 'log')
for _i in range(22, 31):
    add('C%02d' % _i, 'common')
for _i in range(31, 35):
    add('C%02d' % _i, 'crypto', prepare='vast' if _i == 31 else None)
add('C35', 'rlpstruct', prepare='rlpstruct')
add('C36', 'rlp', prepare='rlpgen', race=False)
add('C37', 'compiler')
add('C38', 'release')
