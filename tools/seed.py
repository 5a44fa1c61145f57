#!/usr/bin/env python3
"""Builds and validates /verif/seeded/<id> from tools/seeds.py.  usage: seed.py [--check] [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS
import seeds2, seeds3, seeds4, seeds5, seeds6, seeds7, seeds8, seeds9, seeds10  # noqa
R = '/repo'


def sh(cmd, cwd=None, timeout=600, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)
    return p.returncode, p.stdout


def mine():
    base = sh('git rev-list --max-parents=0 HEAD', R)[1].split()[0]
    return base


def pack_go(d, demo):
    """a demonstration in Go: the module of the harness and one program"""
    for n in ('stubs', 'mc') + tuple(n for n in ('hv', 'tx', 'node', 'entry', 'take', 'cons', 'mctime', 'logs') if '"vgo/%s"' % n in demo or n in ('node', 'mctime') and '"vgo/cons"' in demo or n in ('mctime',) and '"vgo/logs"' in demo):
        shutil.copytree(V + '/go/' + n, d + '/' + n)
    shutil.copy(V + '/go/go.sum', d)
    shutil.copy(V + '/go/go.mod', d)
    if '"vgo/cons"' in demo or '"vgo/logs"' in demo:
        shutil.copy(V + '/go/overlay.sh', d)
    os.makedirs(d + '/demo')
    open(d + '/demo/main.go', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
R=$(pwd -P)
trap 'rm -rf "$T"' EXIT
for x in mc hv tx node entry take cons mctime logs stubs demo go.sum; do [ ! -e "$D/$x" ] || cp -r "$D/$x" "$T/"; done
sed "s#=> /repo\\$#=> $PWD#" "$D/go.mod" > "$T/go.mod"
cd "$T"
export HOME=${HOME:-/root} GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=0
O=
if [ -e "$D/overlay.sh" ]; then
  bash "$D/overlay.sh" "$R" "$T/overlay"
  O=-overlay=$T/overlay/overlay.json
fi
go build $O -o "$T/run" ./demo || exit 9
exec timeout 100 "$T/run"
''')
    os.chmod(d + '/demo.sh', 0o755)


def tests(root):
    t = tempfile.mkdtemp()
    rc, out = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=%s/pyee PYTHONPYCACHEPREFIX=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors 2>&1 | tail -15' % (root, t), root + '/pyee')
    shutil.rmtree(t)
    return out


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    docheck = '--check' in sys.argv
    base = mine()
    for s in SEEDS:
        if ids and s['id'] not in ids:
            continue
        w = tempfile.mkdtemp(prefix='seed')
        root = w + '/repo'
        sh('git worktree add --detach %s HEAD' % root, R)
        try:
            for f, old, new in s['edits']:
                p = os.path.join(root, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'EDIT does not match once:', t.count(old), old[:60]); break
                open(p, 'w').write(t.replace(old, new))
            else:
                d = os.path.join(V, 'seeded', s['id'])
                shutil.rmtree(d, True)
                os.makedirs(d)
                diff = sh('git diff', root)[1]
                open(d + '/patch.diff', 'w').write(diff)
                # lines changed must be original ones
                own = 0
                rem = 0
                for f in sorted({e[0] for e in s['edits']}):
                    for line in sh('git diff -U0 HEAD -- %s' % f, root)[1].splitlines():
                        if line.startswith('@@'):
                            a = line.split()[1][1:].split(',')
                            st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                            if n:
                                for b in sh('git blame -s -l -L %d,+%d HEAD -- %s' % (st, n, f), R)[1].splitlines():
                                    rem += 1
                                    if not b.lstrip('^').startswith(base[:38]):
                                        own += 1
                if own or not rem:
                    print(s['id'], 'WARNING changes own lines:', own, 'of', rem)
                if s.get('go'):
                    pack_go(d, s['demo'])
                else:
                    os.makedirs(d + '/mc')
                    for m in ('__init__', 'wire', 'node', 'host', 'common'):
                        shutil.copy(V + '/mc/%s.py' % m, d + '/mc/')
                    shutil.copy(V + '/tools/demolib.py', d)
                    open(d + '/demo.py', 'w').write('from demolib import *\n' + s['demo'].lstrip('\n'))
                    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = repository\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec timeout 200 /opt/venv/bin/python "$D/demo.py" 2>/dev/null\n')
                    os.chmod(d + '/demo.sh', 0o755)
                json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
                out = tests(root)
                ok = '19 passed' in out
                c0, o0 = sh('bash %s/demo.sh' % d, R)
                c1, o1 = sh('bash %s/demo.sh' % d, root)
                line = '%s tests=%s clean=%d patched=%d %s' % (s['id'], 'ok' if ok else out[-300:], c0, c1, o1.strip()[-150:])
                if c0:
                    line += '\n   clean says: ' + o0[-600:]
                if docheck and ok and c0 == 0 and c1:
                    rc, _ = sh('git apply %s/patch.diff' % d, R)
                    assert rc == 0
                    try:
                        rc, out = sh('./check %s' % s['prop'], V, 900)
                    finally:
                        sh('git checkout -- .', R)
                    line += '\n   check %s rc=%d %s' % (s['prop'], rc, 'CAUGHT' if rc == 1 and 'VIOLATION property=' + s['prop'] in out else 'MISSED ' + out[-300:])
                    rp = V + '/tools/seed_results.json'
                    res = json.load(open(rp)) if os.path.exists(rp) else {}
                    res[s['id']] = 'check %s' % s['prop'] if 'CAUGHT' in line else 'missed'
                    json.dump(res, open(rp, 'w'), indent=0, sort_keys=True)
                print(line)
                sys.stdout.flush()
        finally:
            sh('git worktree remove --force %s' % root, R)
            shutil.rmtree(w, True)


main()
