"""Shared machinery: running TLC, writing traces, parsing verdicts, evidence, known findings."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.environ.get('VERIF', '/verif')
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


OUT = sys.stdout          # verdicts; the code under test prints to the null device


class ToolError(Exception):
    """The machinery itself (not the code under test) failed."""


class Late(BaseException):
    """Raised in code that has used up its processor time, many times what it needs."""


def limit(secs):
    """Processor time this process may use from now on; 0: any."""
    import signal

    def stop(*_):
        raise Late
    signal.signal(signal.SIGPROF, stop)
    signal.setitimer(signal.ITIMER_PROF, secs)


def _limited(arg):
    fn, n, job, secs = arg
    try:
        limit(secs)
        r = fn(job)
        limit(0)
        return n, r, False
    except Late:
        return n, None, True


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', '').replace(
            'states generated ', 'states generated, '))
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r'The number of states generated: ([\d,]+)', out)
        if m and not self.states:                            # simulation
            self.transitions = self.states = int(m[-1].replace(',', ''))
        self.ok = 'Model checking completed. No error has been found.' in out or 'The number of states generated: ' in out and 'Error:' not in out

    def prints(self, tag):
        """Values printed by PrintT(<<tag, ...>>) as raw text after the tag (printed on one line)."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('<<"%s", ' % tag) and line.endswith('>>'):
                res.append(line[len(tag) + 6:-2])
        return res


def tlc(module, cfg, workdir, env=None, workers=4, timeout=600, extra=(), heap='4g'):
    """Run TLC on spec/<module>.tla with spec/<cfg>; metadata in workdir."""
    meta = tempfile.mkdtemp(prefix='tlc_', dir=workdir)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + meta, '-cp', JARS,
           'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-deadlock', '-config', os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on %s/%s' % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode('utf-8', 'replace')
    return TLCResult(out, p.returncode, time.time() - t0)


def model_check(module, cfg, workdir, **kw):
    """Exhaustively check a design model; an error there is a defect of the specification (tool error)."""
    r = tlc(module, cfg, workdir, **kw)
    if not r.ok:
        raise ToolError('design model %s/%s does not hold:\n%s' % (module, cfg, r.out[-4000:]))
    return r


class Trace:
    """An ndjson trace to be validated by a trace specification."""

    def __init__(self, path):
        self.path = path
        self.events = []

    def add(self, **kw):
        self.events.append(kw)

    def write(self):
        with open(self.path, 'w') as f:
            for e in self.events:
                f.write(json.dumps(e) + '\n')


def validate(module, cfg, trace, workdir, timeout=600, chunk=None, reset='scn'):
    """Run the trace specification on a trace.

    Returns (violations, states, n_traces): violations are (clause, index of the event, scenario event).
    `chunk`: split the trace at `reset` events into pieces validated in parallel.
    """
    ev = trace.events if isinstance(trace, Trace) else list(trace)
    starts = [i for i, e in enumerate(ev) if e['ev'] == reset] or [0]
    pieces = []
    if chunk is None or len(starts) <= 1:
        pieces = [(0, ev)]
    else:
        n = max(1, min(chunk, len(starts)))
        per = max(1, len(ev) // n)
        b = 0
        for s in starts[1:]:
            if s - b >= per:
                pieces.append((b, ev[b:s]))
                b = s
        pieces.append((b, ev[b:]))

    def one(arg):
        k, (base, part) = arg
        path = os.path.join(workdir, 'piece_%s_%d.ndjson' % (module, k))
        with open(path, 'w') as f:
            for e in part:
                f.write(json.dumps(e) + '\n')
        r = tlc(module, cfg, workdir, env={'TRACE': path}, workers=1, timeout=timeout, heap='3g')
        os.unlink(path)
        done = r.prints('CONSUMED')
        if not r.ok or not done or int(done[-1]) != len(part):
            raise ToolError('trace specification %s stopped after %s of %d events:\n%s'
                            % (module, done[-1:], len(part), r.out[-3500:]))
        bad = []
        for b in r.prints('BAD'):
            i, clause = b.split(', ', 1)
            bad.append((clause.strip('"'), base + int(i) - 1))
        return bad, r.states

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(one, enumerate(pieces)))
    bad, states = [], 0
    for b, s in res:
        bad += b
        states += s
    out = []
    for clause, i in sorted(set(bad), key=lambda x: (x[1], x[0])):
        j = max([s for s in starts if s <= i] or [0])
        out.append((clause, i, ev[j]))
    return out, states, len(starts)


def excinfo(e):
    """Short, stable description of an exception raised by the code under test."""
    return type(e).__name__


class Check:
    """Context of one check run (one property, one tier)."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        base = os.path.join(VERIF, 'build')
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix='%s_%s_' % (prop, tier), dir=base)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.assumptions = [], [], []
        self.extra = {}
        self.viol = []          # (clause, description, replay dict)
        self.exhaustive = False

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True, file=OUT)

    def model(self, module, cfg, **kw):
        r = model_check(module, cfg, self.work, **kw)
        self.states += r.states
        self.transitions += r.transitions
        self.log('model %s/%s: %d states, %d transitions, %.1fs' % (module, cfg, r.states, r.transitions, r.wall))
        return r

    def validate(self, module, cfg, trace, clauses, chunk=8, timeout=700, props_only=True, keep=None):
        """Validate a trace; keep violated clauses belonging to this property."""
        bad, states, n = validate(module, cfg, trace, self.work, timeout=timeout, chunk=chunk)
        self.traces += n
        self.states += states
        self.transitions += states
        mine = [b for b in bad if not props_only or self.prop in clauses.get(b[0], (b[0].split('.')[0],))]
        if keep is not None:
            mine = [b for b in mine if keep(b[0])]
        self.log('trace %s: %d events, %d scenarios, %d clause failures (%d of this property)'
                 % (module, len(trace.events), n, len(bad), len(mine)))
        ev = trace.events
        for clause, i, scn in mine:
            j = i
            while j > 0 and ev[j] is not scn:
                j -= 1
            self.viol.append((clause, {'clause': clause, 'scenario': scn, 'event': ev[i],
                                       'history': ev[j:i + 1][:200], 'spec': module}))
        if self.samples == [] and ev:
            self.samples = [json.loads(json.dumps(e)) for e in ev[:3]]
        return mine

    def fail(self, clause, **info):
        self.viol.append((clause, {'clause': clause, **info}))

    def pmap(self, fn, jobs, secs=None, procs=8, chunksize=1):
        """fn of every job, in processes; a job that does not end is a violation and ends the check."""
        import multiprocessing
        jobs = list(jobs)
        secs = secs or (200 if self.quick else 600)
        res = [None] * len(jobs)
        with multiprocessing.get_context('fork').Pool(procs) as pool:
            for n, r, late in pool.imap_unordered(_limited, [(fn, n, j, secs) for n, j in enumerate(jobs)], chunksize):
                if late:
                    self.fail('unfinished', seconds=secs, job=repr(jobs[n])[:2000])
                    raise Late
                res[n] = r
        return res

    # -- verdict ------------------------------------------------------------------------------
    def finish(self, level):
        findings = load_findings(self.prop)
        new, known = [], {}
        for clause, info in self.viol:
            f = match_finding(findings, clause, info)
            if f is None:
                new.append((clause, info))
            else:
                known.setdefault(f['id'], f)
        for f in known.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']), file=OUT, flush=True)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples[:6],
               'exhaustive': self.exhaustive, **self.extra}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        rc = 0
        if new:
            rdir = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s_%s.json' % (self.prop, self.tier))
            with open(path, 'w') as f:
                json.dump([info for _, info in new[:50]], f, indent=1, default=str)
            seen = []
            for clause, info in new:
                if clause not in seen:
                    seen.append(clause)
            print('violated clauses:', ', '.join(seen), file=OUT)
            print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True, file=OUT)
            rc = 1
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        self.log('done: %s' % ('VIOLATION' if rc else 'held'))
        return rc

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def load_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [x for x in data.get('findings', []) if x['property'] == prop]


def match_finding(findings, clause, info):
    for f in findings:
        if f['clause'] != clause:
            continue
        scn = info.get('scenario') or {}
        if all(scn.get(k) == v for k, v in f.get('scenario', {}).items()):
            return f
    return None


def silence():
    """Quiet the logging of the code under test."""
    import logging
    import warnings
    warnings.filterwarnings('ignore')
    logging.disable(logging.CRITICAL)
    sys.stdout = open(os.devnull, 'w')
