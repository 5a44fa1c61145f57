"""Runs a check written in Go (go/cmd/<id>) against the packages of the working tree of REPO."""
import base64
import json
import os
import shutil
import signal
import struct
import subprocess

from . import run

GO = os.path.join(run.VERIF, 'go')


def env():
    e = dict(os.environ, GOFLAGS='-mod=readonly', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off', GONOSUMDB='*', GOSUMDB='off',
             CGO_ENABLED='0')
    e.setdefault('HOME', '/root')
    return e


def build(cmd, root, overlay=False):
    """Builds go/cmd/<cmd> with the packages of REPO."""
    text = open(os.path.join(GO, 'go.mod')).read()
    text = text.replace('=> ./stubs/', '=> %s/stubs/' % GO).replace('=> /repo', '=> ' + os.path.realpath(run.REPO))
    with open(os.path.join(root, 'go.mod'), 'w') as f:
        f.write(text)
    shutil.copy(os.path.join(GO, 'go.sum'), os.path.join(root, 'go.sum'))
    out = os.path.join(root, cmd)
    opt = []
    if overlay:
        # timers of the consensus under the control of the check
        d = os.path.join(root, 'overlay')
        subprocess.run(['bash', os.path.join(GO, 'overlay.sh'), os.path.realpath(run.REPO), d], check=True)
        opt = ['-overlay=' + os.path.join(d, 'overlay.json')]
    p = subprocess.run(['go', 'build'] + opt + ['-modfile=' + os.path.join(root, 'go.mod'), '-o', out, './cmd/' + cmd], cwd=GO, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (out, None) if p.returncode == 0 else (None, p.stdout)


def unpack(s):
    b = base64.b64decode(s)
    return set(struct.unpack('>%dQ' % (len(b) // 8), b))


def main(mod, a, t0):
    pid = a.property
    root = run.scratch()
    try:
        binary, err = build(pid.lower(), root, getattr(mod, 'OVERLAY', False))
        if err:
            print('CHECK ERROR: the harness does not build with the packages of the working tree\n' + err[-4000:])
            return 3
        names = json.loads(subprocess.run([binary, 'units', a.tier], stdout=subprocess.PIPE, check=True).stdout)
        units = list(enumerate(names))
        if a.unit is not None:
            units = [units[a.unit]]

        known = '\n'.join(x[1] for x in run.load_known() if x[0] == pid)

        def unit(u, ctx):
            signal.setitimer(signal.ITIMER_REAL, 0)
            ctx.case(u[1])
            ctx.execs = 0
            out = os.path.join(ctx.scores.root, 'out.json')
            errs = os.path.join(ctx.scores.root, 'err')
            with open(errs, 'wb') as ef:
                p = subprocess.run([binary, 'run', a.tier, str(u[0]), out], stdout=ef, stderr=ef, cwd=ctx.scores.root,
                                   env=dict(env(), GOMAXPROCS='2', GOGC='300', TMPDIR=ctx.scores.root, VGO_KNOWN=known))
            if not os.path.exists(out):
                with open(errs, 'rb') as f:
                    t = f.read()
                head = t[:6000].decode('utf-8', 'replace')
                # an abnormal end (panic in a goroutine, fatal error)
                if 'github.com/icon-project/goloop/' in head:
                    ctx.problems.append((u[1], 'the process ended with %d\n%s' % (p.returncode, head)))
                    return
                raise RuntimeError('exit %d\n%s' % (p.returncode, head))
            r = json.load(open(out))
            ctx.states |= unpack(r['states'])
            ctx.outcomes |= unpack(r['outcomes'])
            ctx.transitions += r['transitions']
            ctx.execs += r['execs']
            ctx.samples += r['samples'] or []
            for k, v in (r['notes'] or {}).items():
                ctx.note(k, v)
            ctx.problems += [('unit %r case %s' % (u[1], c), t) for c, t in r['problems'] or []]
            ctx.known += r['known'] or []
            if r['end'] == 'error':
                if ctx.problems:
                    return
                raise RuntimeError(r['error'])
        merged = run.run_units(unit, units, a.tier, jobs=a.jobs, budget=getattr(mod, 'BUDGET', {}).get(a.tier))
        return run.finish(pid, merged, a.tier, t0, mod.BOUNDS[a.tier], assumptions=getattr(mod, 'ASSUMPTIONS', ()))
    finally:
        shutil.rmtree(root, ignore_errors=True)
