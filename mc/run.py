"""Runs the units of a check in forked workers, merges coverage, writes evidence and violations."""
import hashlib
import json
import mmap
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from .node import Problem

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_S = 150


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode('utf-8', 'surrogatepass'), digest_size=8).digest(), 'big')


class Ctx:
    """What a unit reports into."""

    def __init__(self, tier, only=None):
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.execs = 0
        self.outcomes = set()
        self.samples = []
        self.problems = []      # (case, text)
        self.known = []
        self.notes = {}
        self._cur = None
        self.only = only

    def state(self, *obj):
        self.states.add(h64(obj))

    def outcome(self, *obj):
        self.outcomes.add(h64(obj))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def case(self, desc):
        """Start of one execution; `desc` must identify it inside the unit (JSON-able or repr-able)."""
        self.execs += 1
        self.cur = desc
        if self._cur is not None:
            b = repr(desc).encode('utf-8', 'backslashreplace')[:4000]
            self._cur.seek(0)
            self._cur.write(len(b).to_bytes(4, 'big') + b)
        if self.execs % 64 == 1:
            signal.setitimer(signal.ITIMER_REAL, HANG_S)

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def fail(self, text):
        self.problems.append((repr(self.cur)[:4000], text))
        if len(self.problems) >= 5:
            raise StopUnit()


class StopUnit(BaseException):
    pass


def scratch():
    base = os.environ.get('VERIF_SCRATCH')
    return tempfile.mkdtemp(prefix='vmc-', dir=base)


def setup_path():
    sys.dont_write_bytecode = True
    p = os.path.join(REPO, 'pyee')
    if p not in sys.path:
        sys.path.insert(0, p)


def check_origin():
    import pyexec
    import iconservice
    want = os.path.realpath(os.path.join(REPO, 'pyee'))
    for m in (pyexec, iconservice):
        if not os.path.realpath(m.__file__).startswith(want + os.sep):
            raise RuntimeError('%s loaded from %s, not from %s' % (m.__name__, m.__file__, want))


class Scores:
    """Scratch directory in which SCORE packages are written."""

    def __init__(self, root, tag=None):
        self.root = root
        self.tag = tag
        self.n = 0

    def make(self, source, name=None, main_module='main', main_score='Score', files=None, package=None):
        if name is None:
            self.n += 1
            name = 's%s_%d' % (self.tag or os.getpid(), self.n)
        d = os.path.join(self.root, name)
        os.makedirs(d, exist_ok=True)
        if source is not None:
            with open(os.path.join(d, main_module.replace('.', '/') + '.py'), 'w') as f:
                f.write(source)
        for fn, text in (files or {}).items():
            p = os.path.join(d, fn)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(text)
        if package is None:
            package = {'version': '0.0.1', 'main_module': main_module, 'main_score': main_score}
        if package is not False:
            with open(os.path.join(d, 'package.json'), 'w') as f:
                f.write(package if isinstance(package, str) else json.dumps(package))
        return d


def _child(fn, unit, tier, path, cur, root):
    os.setpgid(0, 0)
    if not os.environ.get('VERIF_STDERR'):
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)    # the engine's own log noise
    ctx = Ctx(tier)
    ctx._cur = cur
    ctx.cur = None
    ctx.scores = Scores(root)

    def on_alarm(sig, frm):
        try:
            ctx.problems.append((repr(ctx.cur)[:4000], 'no progress for %d s (hang)\n%s' % (
                HANG_S, ''.join(traceback.format_stack(frm, limit=8)))))
            dump('hang')
        finally:
            os._exit(0)

    def dump(end):
        signal.setitimer(signal.ITIMER_REAL, 0)
        with open(path + '.tmp', 'wb') as f:
            pickle.dump(dict(end=end, states=ctx.states, transitions=ctx.transitions, execs=ctx.execs,
                             outcomes=ctx.outcomes, samples=ctx.samples, problems=ctx.problems, known=ctx.known,
                             notes=ctx.notes), f)
        os.rename(path + '.tmp', path)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, HANG_S)
    end = 'done'
    try:
        fn(unit, ctx)
    except StopUnit:
        end = 'stopped'
    except Problem as e:
        ctx.problems.append((repr(getattr(ctx, 'cur', None))[:4000], str(e)))
    except BaseException as e:
        # an exception out of the code under test is a violation, one out of the harness alone is an error
        frames = traceback.extract_tb(e.__traceback__)
        own = os.path.realpath(os.path.join(REPO, 'pyee')) + os.sep
        if any(os.path.realpath(f.filename).startswith(own) for f in frames):
            ctx.problems.append((repr(getattr(ctx, 'cur', None))[:4000],
                                 'unexpected exception from the code under test\n' + traceback.format_exc()))
        else:
            end = 'error'
            ctx.notes['error'] = traceback.format_exc()
    dump(end)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def run_units(fn, units, tier, jobs=None, budget=None, memlimit=None):
    """fn(unit, ctx) for each unit in its own forked process. Returns merged dict."""
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 8)
    tmp = scratch()
    t0 = time.time()
    merged = dict(states=set(), transitions=0, execs=0, outcomes=set(), samples=[], problems=[], known=[], notes={},
                  units=0, units_total=len(units), errors=[])
    pend = list(enumerate(units))[::-1]
    live = {}
    try:
        while pend or live:
            stop = len(merged['problems']) >= 10
            while pend and len(live) < jobs and not stop:
                if budget and time.time() - t0 > budget:
                    merged['capped'] = True
                    pend.clear()
                    break
                i, u = pend.pop()
                path = os.path.join(tmp, 'r%d' % i)
                root = os.path.join(tmp, 'w%d' % i)
                os.mkdir(root)
                cur = mmap.mmap(-1, 8192)
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    _child(fn, u, tier, path, cur, root)
                live[pid] = (i, u, path, cur, root)
            if stop:
                pend.clear()
            if not live:
                break
            pid, st = os.wait()
            if pid not in live:
                continue
            i, u, path, cur, root = live.pop(pid)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            merged['units'] += 1
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    r = pickle.load(f)
                os.unlink(path)
                merged['states'] |= r['states']
                merged['outcomes'] |= r['outcomes']
                merged['transitions'] += r['transitions']
                merged['execs'] += r['execs']
                if len(merged['samples']) < 8:
                    merged['samples'] += r['samples']
                merged['problems'] += [(i, c, t) for c, t in r['problems']]
                merged['known'] += r['known']
                if r['end'] == 'error':
                    merged['errors'].append((i, repr(u)[:300], r['notes'].pop('error')))
                for k, v in r['notes'].items():
                    merged['notes'][k] = merged['notes'].get(k, 0) + v
            else:
                n = int.from_bytes(cur[:4], 'big')
                c = cur[4:4 + n].decode('utf-8', 'replace')
                merged['problems'].append((i, c, 'the process running the engine ended abnormally (wait status %d)' % st))
            cur.close()
            shutil.rmtree(root, ignore_errors=True)
    finally:
        for pid in live:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)
    return merged


def load_known():
    """known_findings.txt: `finding: property=<id> match=<substring> :: <what fails>` and `fixed: ...` lines."""
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: '):
                head, _, what = line[len('finding: '):].partition(' :: ')
                pid = head.split()[0].split('=', 1)[1]
                match = head.split('match=', 1)[1]
                r.append((pid, match, what))
    return r


def finish(pid, merged, tier, t0, bounds, level='model_checking', assumptions=(), extra=None):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    wall = time.time() - t0
    cov = dict(states=len(merged['states']), transitions=merged['transitions'],
               traces_validated_against_impl=merged['execs'],
               distinct_outcomes=len(merged['outcomes']), units_completed=merged['units'],
               units_total=merged['units_total'], bounds=bounds, samples=merged['samples'][:6],
               exhaustive=not merged.get('capped', False), notes={k: v for k, v in merged['notes'].items()})
    if extra:
        cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov,
              assumptions=list(assumptions), wall_s=round(wall, 2), violations=0)
    known = load_known()
    shown = set()
    viol = []
    for i, case, text in merged['problems']:
        k = [x for x in known if x[0] == pid and x[1] in (case + '\n' + text)]
        if k:
            shown.add((k[0][0], k[0][2]))
        else:
            viol.append((i, case, text))
    for k in merged['known']:
        for x in known:
            if x[0] == pid and x[1] in k:
                shown.add((x[0], x[2]))
                break
        else:
            viol.append((-1, k, 'known-finding marker without an entry'))
    for p, what in sorted(shown):
        print('KNOWN-FINDING: property=%s %s' % (p, what))
    ev['violations'] = len(viol)
    path = os.path.join(VERIF, 'evidence', '%s.json' % pid)
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(path + '.tmp', path)
    print('%s tier=%s states=%d transitions=%d executions=%d outcomes=%d units=%d/%d wall=%.1fs' % (
        pid, tier, cov['states'], cov['transitions'], merged['execs'], cov['distinct_outcomes'], merged['units'],
        merged['units_total'], wall))
    if merged['errors'] and not viol:
        for e in merged['errors'][:3]:
            print('CHECK ERROR unit %s %s\n%s' % e)
        return 3
    if viol:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s.json' % pid)
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, tier=tier,
                           replay='cd /verif && ./check %s --tier %s --unit %d' % (pid, tier, max(viol[0][0], 0)),
                           violations=[dict(unit=i, case=c, what=t) for i, c, t in viol]), f, indent=1)
        for i, c, t in viol[:3]:
            print('--- unit %d case %s\n    %s' % (i, c[:1500], t[:3000]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
