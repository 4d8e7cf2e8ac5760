"""Shared machinery of the checks: TLC runs, implementation runs, evidence, verdicts."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
PY = '/opt/venv/bin/python'
CPUS = os.cpu_count() or 4
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
TLA_CP = ('/opt/veriftools/tla/tla2tools.jar:'
          '/opt/veriftools/tla/CommunityModules-deps.jar')


class MachineryError(Exception):
    """The check itself failed (neither 'holds' nor 'violated')."""


class SpecError(MachineryError):
    """TLC stopped on a case: it cannot be evaluated, or breaks a law of the specification."""


class Ctx:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop, dir=base)
        self.rng = random.Random('%s/%d' % (prop, SEED))
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.notes = {}
        self.violations = []
        self.replay_dir = os.path.join(VERIF, 'replays', prop)

    def scale(self, quick, thorough):
        return thorough if THOROUGH else quick

    def note(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and isinstance(self.notes.get(k), int):
                self.notes[k] += v
            else:
                self.notes[k] = v

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def violation(self, what, data):
        """what: short text; data: JSON-serialisable replay information"""
        os.makedirs(self.replay_dir, exist_ok=True)
        path = os.path.join(self.replay_dir, 'v%03d.json' % len(self.violations))
        if len(self.violations) < 20:
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'seed': SEED, 'tier': TIER, 'what': what,
                           'replay': data}, f, indent=1, default=str)
        self.violations.append((what, path))

    def finish(self, assumptions=()):
        ev = {
            'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
            'coverage': dict(states=self.states, transitions=self.transitions,
                             traces_validated_against_impl=self.validated,
                             samples=self.samples or ['(none)'], **self.notes),
            'assumptions': list(assumptions),
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for what, path in self.violations[:5]:
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  ' + what[:600])
        if len(self.violations) > 5:
            print('  ... %d violations in total' % len(self.violations))
        print('%s %s: %d states, %d transitions, %d implementation runs validated, %.1f s' % (
            self.prop, 'VIOLATED' if self.violations else 'ok', self.states, self.transitions,
            self.validated, time.time() - self.t0))
        return 1 if self.violations else 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def split(items, n):
    n = max(1, min(n, len(items)))
    size = (len(items) + n - 1) // n
    return [items[i:i + size] for i in range(0, len(items), size)]


def impl_env(extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONPATH=REPO + ':' + HARNESS, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PYTHONIOENCODING='utf-8', LC_ALL='C.UTF-8', TZ='UTC')
    if extra:
        env.update(extra)
    return env


def run_impl(ctx, script, cases, procs=CPUS, timeout=600, env=None):
    """Run harness/<script> over the cases with the implementation's Python.

    The script reads a JSON list of cases from argv[1] and writes a JSON list with one
    observation per case to argv[2].  A case for which it gives nothing (crash) gets None.
    """
    if not cases:
        return []
    chunks = split(list(cases), procs)
    jobs = []
    for i, chunk in enumerate(chunks):
        inp = os.path.join(ctx.tmp, '%s.%d.in.json' % (script, i))
        out = os.path.join(ctx.tmp, '%s.%d.out.json' % (script, i))
        with open(inp, 'w') as f:
            json.dump(chunk, f)
        if os.path.exists(out):
            os.unlink(out)
        work = os.path.join(ctx.tmp, 'w%d' % i)
        os.makedirs(work, exist_ok=True)
        err = open(out + '.err', 'w')
        p = subprocess.Popen([PY, os.path.join(HARNESS, script), inp, out, work], cwd=work,
                             stdout=subprocess.DEVNULL, stderr=err, env=impl_env(env),
                             stdin=subprocess.DEVNULL)
        jobs.append((p, chunk, out, err))
    res = []
    end = time.time() + timeout
    for p, chunk, out, err in jobs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        err.close()
        got = []
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    try:
                        got.append(json.loads(line))
                    except ValueError:
                        break
        if len(got) < len(chunk):
            tail = open(out + '.err').read()[-2000:]
            ctx.note(impl_crash=tail)
        got += [None] * (len(chunk) - len(got))
        res += got
    return res


def errors_of(out):
    lines = [x for x in out.splitlines() if not x.startswith('"{')]
    at = [i for i, x in enumerate(lines) if x.startswith(('Error', '***', 'Parse'))]
    res = []
    for i in at[:6]:
        res += [x[:400] for x in lines[i:i + 8]]
    return '\n'.join(res) or '\n'.join(lines[-30:])


TLC_STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def tlc(ctx, module, cfg=None, env=None, workers=CPUS, timeout=800, extra=(), count=True,
        spec_dir=SPEC, heap='8g'):
    """Run TLC; returns (ok, output).  ok is False if a property of the model is violated."""
    meta = tempfile.mkdtemp(prefix='tlc_', dir=ctx.tmp)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss512m', '-cp', TLA_CP, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', cfg or module + '.cfg', *extra, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=spec_dir, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired as ex:
        raise MachineryError('TLC timed out on %s' % module) from ex
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = TLC_STATS.findall(out)
    if m and count:
        ctx.transitions += int(m[-1][0])
        ctx.states += int(m[-1][1])
    if p.returncode == 0:
        return True, out
    if p.returncode in (10, 11, 12, 13) and 'violated' in out:
        return False, out
    if 'OutOfMemory' in out or 'StackOverflow' in out or p.returncode < 0 or not m:
        raise MachineryError('TLC failed on %s (exit %d):\n%s' % (module, p.returncode, errors_of(out)))
    raise SpecError('TLC stopped on %s (exit %d):\n%s' % (module, p.returncode, errors_of(out)))


def tlc_lines(out):
    """The JSON values a specification printed (PrintT(ToJson(..)))."""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"{') and line.endswith('"'):
            res.append(json.loads(json.loads(line)))
        elif line.startswith('{') and line.endswith('}'):
            try:
                res.append(json.loads(line))
            except ValueError:
                pass
    return res


def tlc_cases(ctx, module, cases, cfg=None, env=None, timeout=800, chunk=600):
    """Run a trace specification over the cases: what it printed for each of them.

    A case on which TLC stops (an observation outside of what the specification can evaluate,
    or one that breaks a law of the specification) gets the text of the error instead.
    """
    res = [None] * len(cases)
    broken = [0]

    def run(lo, hi):
        path = os.path.join(ctx.tmp, module + '.cases.json')
        with open(path, 'w') as f:
            json.dump(cases[lo:hi], f)
        e = {'CASES': path, 'PROP': ctx.prop}
        e.update(env or {})
        try:
            ok, out = tlc(ctx, module, cfg, e, timeout=timeout)
            if not ok:
                raise SpecError('a law of %s is violated:\n%s' % (module, errors_of(out)))
        except SpecError as ex:
            if hi - lo == 1:
                broken[0] += 1
                res[lo] = str(ex)
            elif broken[0] >= 2:        # enough to report
                res[lo:hi] = [[] for _ in range(lo, hi)]
                ctx.note(cases_not_judged=hi - lo)
            else:
                mid = (lo + hi) // 2
                run(lo, mid)
                run(mid, hi)
            return
        res[lo:hi] = [[] for _ in range(lo, hi)]
        for v in tlc_lines(out):
            k = v.get('case', v.get('accepted'))
            if k is not None:
                res[lo + k - 1].append(v)
    for start in range(0, len(cases), chunk):
        run(start, min(len(cases), start + chunk))
    return res


def tlc_verdicts(ctx, module, cases, cfg=None, env=None, timeout=800, chunk=600):
    """Judge the cases with a trace specification that prints one verdict per case.

    Returns a list with the failed clauses (list) of every case, or None where the
    specification leaves the case open.
    """
    res = []
    out = tlc_cases(ctx, module, cases, cfg, env, timeout, chunk)
    stopped = any(isinstance(r, str) for r in out)
    for r in out:
        if isinstance(r, str):
            res.append(['the specification cannot explain the observation: ' + r[:1500]])
        elif not r:
            if not stopped:
                raise MachineryError('%s gave no verdict on a case' % module)
            res.append(None)
        else:
            res.append(None if r[-1]['unspec'] else list(r[-1]['failed']))
    return res


def tlc_accepts(ctx, module, cases, cfg=None, env=None, timeout=800, chunk=2000):
    """For every case: is it a behaviour of the specification?  (None: not judged)"""
    out = tlc_cases(ctx, module, cases, cfg, env, timeout, chunk)
    stopped = any(isinstance(r, str) for r in out)
    return [False if isinstance(r, str) else bool(r) or (None if stopped else False) for r in out]
