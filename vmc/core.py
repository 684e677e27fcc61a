"""Bounded exhaustive exploration: the driver shared by all checks.

A check module (checks/<ID>.py) provides

    ID, TITLE, TECHNIQUE, BOUNDS(tier) -> str / dict
    cases(tier)      -> iterator over JSON-able case descriptors, simplest
                        first, complete for the bounds stated in BOUNDS
    run(case, ctx)   -> explores every behaviour of that case on the real code;
                        raises Violation (or any exception escaping from the
                        code under test) when the property is broken

The parent process never imports the code under test.  It spawns workers, each
of which takes every n-th case.  A worker that dies (segfault) or burns more
CPU time on one case than CASE_CPU seconds is itself a counterexample.
"""
import hashlib
import importlib
import json
import os
import signal
import struct
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU = 900.0 if os.environ.get('VERIF_TIER') == 'thorough' else 120.0


class Violation(Exception):
    def __init__(self, what, finding=None, **details):
        super(Violation, self).__init__(what)
        self.what = what
        self.finding = finding     # key into KNOWN_FINDINGS.json, if listed
        self.details = details


def check(cond, what, *fmt, **details):
    if not cond:
        raise Violation(what.format(*fmt) if fmt else what, **details)


class Ctx(object):
    """Counters of what was really explored."""

    def __init__(self, known=()):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.known = set(known)
        self.known_hit = {}
        self.samples = []

    @staticmethod
    def digest(obj):
        if not isinstance(obj, bytes):
            obj = repr(obj).encode()
        return hashlib.blake2b(obj, digest_size=8).digest()

    def state(self, *obj):
        self.states.add(self.digest(obj))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *obj):
        self.outcomes.add(self.digest(obj))


def jsonable(x):
    try:
        import numpy as np
    except ImportError:
        np = None
    if np is not None:
        if isinstance(x, np.ndarray):
            return x.tolist()
        if isinstance(x, np.generic):
            return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def load_known(pid):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data['findings']
            if k['property'] == pid and k['status'] == 'known']


def worker_env(hashseed='0'):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=hashseed,
               PYTHONNOUSERSITE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
               LANG='C.UTF-8',
               PYTHONPATH=os.environ.get('VMC_REPO', '/repo') + ':' + VERIF)
    return env


# ------------------------------------------------------------------ worker --

class CaseTimeout(Exception):
    pass


def _on_alarm(signum, frame):
    raise CaseTimeout('no result after %d s of CPU time' % CASE_CPU)


def _run_one(mod, case, ctx):
    """Returns None or a violation record."""
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
    try:
        mod.run(case, ctx)
        return None
    except Violation as v:
        return dict(what=v.what, details=jsonable(v.details),
                    finding=v.finding, trace=traceback.format_exc()[-3000:])
    except MemoryError:
        raise
    except BaseException as e:     # escaped from the code under test
        if isinstance(e, KeyboardInterrupt):
            raise
        return dict(what='unexpected %s: %s' % (type(e).__name__,
                                                str(e)[:300]),
                    details={}, finding=None,
                    trace=traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def load_module(pid, so):
    import warnings
    warnings.filterwarnings('ignore')
    from vmc import build
    build.install(so)
    import numpy as np
    np.seterr(all='ignore')
    return importlib.import_module('checks.' + pid)


def worker_main(pid, tier, shard, nshards, so, outdir):
    shard, nshards = int(shard), int(nshards)
    out = os.path.join(outdir, 'w%d.json' % shard)
    prog = os.open(os.path.join(outdir, 'w%d.prog' % shard),
                   os.O_RDWR | os.O_CREAT)
    signal.signal(signal.SIGPROF, _on_alarm)
    res = dict(violations=[], cases=0, import_error=None)
    try:
        mod = load_module(pid, so)
    except Exception:
        res['import_error'] = traceback.format_exc()[-3000:]
        json.dump(res, open(out, 'w'))
        return
    known = load_known(pid)
    ctx = Ctx(k['key'] for k in known)
    hits = {}
    for i, case in enumerate(mod.cases(tier)):
        if i % nshards != shard:
            continue
        os.pwrite(prog, struct.pack('qd', i, time.time()), 0)
        v = _run_one(mod, case, ctx)
        res['cases'] += 1
        if len(ctx.samples) < 2 and i % 97 in (0, 5):
            ctx.samples.append(case)
        if v is None:
            continue
        if v['finding'] and v['finding'] in ctx.known:
            hits[v['finding']] = hits.get(v['finding'], 0) + 1
            continue
        v['index'] = i
        v['case'] = jsonable(case)
        res['violations'].append(v)
        break
    for k, n in ctx.known_hit.items():
        hits[k] = hits.get(k, 0) + n
    os.pwrite(prog, struct.pack('qd', -1, time.time()), 0)
    res.update(states=[s.hex() for s in ctx.states],
               transitions=ctx.transitions, traces=ctx.traces,
               outcomes=[s.hex() for s in ctx.outcomes],
               known=hits, samples=jsonable(ctx.samples))
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)


# ------------------------------------------------------------------ parent --

def parent_main(pid, tier):
    import shutil
    import tempfile
    from vmc import build
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        so = build.ensure_extension()
    except subprocess.CalledProcessError as e:
        sys.stderr.write((e.stderr or b'').decode(errors='replace')[-2000:])
        sys.stderr.write('\nthe extension of /repo does not build\n')
        return 2
    meta = json.load(open(os.path.join(VERIF, 'checks', 'meta.json')))[pid]
    n = int(os.environ.get('VMC_JOBS', meta.get('jobs', 8)))
    tmp = tempfile.mkdtemp(prefix='vmc_%s_' % pid)
    viols, workers = [], []
    agg = dict(cases=0, transitions=0, traces=0, known={}, samples=[],
               states=set(), outcomes=set())
    stall = 820 if tier == 'quick' else 7200
    try:
        for s in range(n):
            wtmp = os.path.join(tmp, 's%d' % s)
            os.mkdir(wtmp)
            env = worker_env(str(meta.get('hashseed', 0)))
            env['TMPDIR'] = wtmp
            env['VERIF_TIER'] = tier
            log = open(os.path.join(tmp, 'w%d.log' % s), 'wb')
            workers.append(subprocess.Popen(
                [build.PY, '-W', 'ignore', '-c', 'import sys; from vmc.core '
                 'import worker_main as w; w(*sys.argv[1:])', pid,
                 tier, str(s), str(n), so, tmp], cwd=wtmp,
                env=env, stdout=log, stderr=log))
        for s, w in enumerate(workers):
            left = stall - (time.time() - t0)
            hung = False
            try:
                w.wait(timeout=max(1, left))
            except subprocess.TimeoutExpired:
                hung = True
                w.kill()
                w.wait()
            out = os.path.join(tmp, 'w%d.json' % s)
            if os.path.exists(out):
                r = json.load(open(out))
                if r['import_error']:
                    viols.append(dict(
                        index=-1, what='the code under test cannot be '
                        'imported or driven', case=None, details={},
                        trace=r['import_error']))
                    continue
                viols.extend(r['violations'])
                for k in ('cases', 'transitions', 'traces'):
                    agg[k] += r[k]
                agg['states'].update(r['states'])
                agg['outcomes'].update(r['outcomes'])
                agg['samples'].extend(r['samples'])
                for k, c in r['known'].items():
                    agg['known'][k] = agg['known'].get(k, 0) + c
            else:
                try:
                    raw = open(os.path.join(tmp, 'w%d.prog' % s), 'rb').read()
                    idx = struct.unpack('qd', raw)[0]
                except Exception:
                    idx = -1
                tail = open(os.path.join(tmp, 'w%d.log' % s), 'rb').read()
                tail = tail[-1500:].decode(errors='replace')
                if hung:
                    sys.stderr.write('worker %d exceeded %d s at case %d\n'
                                     % (s, stall, idx))
                    return 2
                if w.returncode in (-9,):
                    sys.stderr.write('worker %d was killed\n' % s)
                    return 2
                if w.returncode > 0:
                    sys.stderr.write('worker %d failed:\n%s\n' % (s, tail))
                    return 2
                viols.append(dict(
                    index=idx, case=None, details={'log': tail},
                    what='the process died with signal %d in case #%d'
                    % (-w.returncode, idx), trace=tail))
    finally:
        for w in workers:
            if w.poll() is None:
                w.kill()
                w.wait()
        shutil.rmtree(tmp, ignore_errors=True)
    viols.sort(key=lambda v: v['index'])
    wall = time.time() - t0
    samples = sorted(agg['samples'], key=lambda c: json.dumps(c))[:4]
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=len(agg['states']),
                            transitions=agg['transitions'],
                            traces_validated_against_impl=agg['traces'],
                            cases=agg['cases'],
                            distinct_outcomes=len(agg['outcomes']),
                            bounds=meta['bounds'].get(tier, meta['bounds']
                                                      .get('quick')),
                            exhaustive=not viols,
                            samples=samples or ['(none)']),
              assumptions=meta.get('assumptions', []),
              wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for k in load_known(pid):
        print('KNOWN-FINDING: property=%s %s [seen in %d explored cases]'
              % (pid, k['what'], agg['known'].get(k['key'], 0)))
    print('%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d '
          'wall=%.1fs' % (pid, tier, agg['cases'], len(agg['states']),
                          agg['transitions'], agg['traces'],
                          len(agg['outcomes']), wall))
    if not viols:
        return 0
    v = viols[0]
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s.json' % pid)
    with open(path, 'w') as f:
        json.dump(dict(property=pid, tier=tier, index=v['index'],
                       case=v['case'], what=v['what'], details=v['details'],
                       trace=v['trace'],
                       how='cd /verif && %s run.py replay %s' % (build.PY,
                                                                 path)),
                  f, indent=1)
    print('  what: %s' % v['what'])
    print('  case #%d: %s' % (v['index'], json.dumps(v['case'])[:600]))
    print('  ' + v['trace'].strip().replace('\n', '\n  ')[-1200:])
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def replay_main(path):
    """Re-execute one recorded counterexample without the explorer."""
    from vmc import build
    rec = json.load(open(path))
    mod = load_module(rec['property'], build.ensure_extension())
    ctx = Ctx()
    for i, case in enumerate(mod.cases(rec['tier'])):
        if i == rec['index']:
            assert rec['case'] is None or jsonable(case) == rec['case'], \
                'the enumeration changed since the replay was recorded'
            mod.run(case, ctx)
            print('replay: property held')
            return 0
    return 2

