"""Runner shared by all checks.

A check is a module with one `Suite`.  Its jobs run the real code in separate processes (own environment,
own crash domain); monitors inside a job report observations, and violations, through a `Ctx`.  The runner
collects them, writes the evidence file, and turns them into the verdict:

    exit 0   every monitor was satisfied, and every monitor saw what it declared it has to see
    exit 1   a monitor saw the property broken: `VIOLATION property=<id> replay=<path>`
    exit 2   no verdict (build failure, harness failure, timeout, too few observations)
"""
import argparse
import hashlib
import json
import math
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
PY = '/opt/venv/bin/python'
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')

# settings of the code under test must never leak in from the caller's environment
SCRUB = ('SPLIT_COLLISION_INTEGRAL', 'FIXED_ORDER_1D_QUADRATURE', 'GAUSS_LEGENDRE_ORDER', 'GAUSS_LAGUERRE_ORDER',
         'LOGARITHMIC_TIMESTEP', 'ADAMS_BASHFORTH_TEMPERATURE_CORRECTION', 'ADAMS_MOULTON_DISTRIBUTION_CORRECTION',
         'MOMENTUM_SAMPLES', 'MAX_MOMENTUM_MEV', 'MAX_SCALE_FACTOR', 'FOUR_PARTICLE_GRID_RESOLUTION',
         'NORMAL_HIERARCHY_NEUTRINOS', 'REGIME_SWITCHING_FACTOR', 'SIMPSONS_INTEGRATION', 'SIMPSONS_NONEQ_PARTICLES',
         'LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES', 'HNL_ENERGY', 'STERILE_DECAYED',
         'Relativistic_decoupling', 'KAWANO', 'OMP_NUM_THREADS', 'LD_PRELOAD')


class Inconclusive(Exception):
    pass


class CodeFailure(Exception):
    """ The code under test raised on a workload it has to accept """


def in_repo(tb):
    """ Did the error happen while the code under test was running (or calling back)? """
    return any(os.path.abspath(fr.filename).startswith(REPO + os.sep) for fr in traceback.extract_tb(tb))


def num(text):
    """ a number of an exported file: what is none is undefined and compares unequal to everything """
    try:
        return float(text)
    except ValueError:
        return float('nan')


class Ctx(object):
    def __init__(self, pid, job, tier, seed):
        self.pid, self.job, self.tier, self.seed = pid, job, tier, seed
        self.thorough = tier == 'thorough'
        h = hashlib.sha256('{}/{}/{}'.format(pid, job, seed).encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], 'big'))
        self.np_seed = int.from_bytes(h[8:12], 'big')
        self.evals = 0
        self.states = {}
        self.violations = []
        self.samples = []
        self.stats = {}
        self.required = []
        self.t0 = time.time()
        self.budget = None

    # ---- observations
    def seen(self, *key):
        k = '|'.join(str(x) for x in key)
        self.states[k] = self.states.get(k, 0) + 1

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(json.loads(json.dumps(obj, default=str)))

    def stat(self, name, value):
        v = float(value)
        s = self.stats.setdefault(name, [v, v, 0])
        s[0], s[1], s[2] = min(s[0], v), max(s[1], v), s[2] + 1

    def require(self, what, count, minimum):
        self.required.append((what, int(count), int(minimum)))

    # ---- verdicts
    def check(self, ok, signature, **detail):
        """ One monitor evaluation.  `signature` names the violated clause (stable key for known findings) """
        self.evals += 1
        if not bool(ok):
            if len(self.violations) < 40:
                d = {k: (v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)[:400]) for k, v in detail.items()}
                self.violations.append({'signature': signature, 'detail': d})
        return bool(ok)

    def close(self, got, want, signature, rel=1e-9, abs_=0., **detail):
        got, want = float(got), float(want)
        err = abs(got - want)
        tol = abs_ + rel * abs(want)
        ok = (err <= tol) if math.isfinite(got) and math.isfinite(want) else False
        if abs(want) > 0 and math.isfinite(err):
            self.stat('relerr:' + signature, err / abs(want))
        return self.check(ok, signature, got=got, want=want, err=err, tol=tol, **detail)

    def code(self, signature, fn, *a, **kw):
        """ Call the code under test; an exception escaping from it is a violation of `signature` """
        try:
            return fn(*a, **kw)
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            if in_repo(sys.exc_info()[2]) or isinstance(e, CodeFailure):
                self.check(False, signature + ':raised', error=repr(e)[:300],
                           where=traceback.format_exc()[-600:])
                raise _Abandon()
            raise

    def elapsed(self):
        return time.time() - self.t0

    def dump(self):
        return dict(evals=self.evals, states=self.states, violations=self.violations, samples=self.samples,
                    stats=self.stats, required=self.required, wall=self.elapsed())


class _Abandon(Exception):
    """ The current case cannot go on; its violation is already recorded """


Abandon = _Abandon


class Suite(object):
    def __init__(self, pid, rule, level='exploration', assumptions=None):
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions = assumptions or []
        self.jobs = {}

    def job(self, env=None, variant='release', timeout=600, tiers=('quick', 'thorough'), native=True, stderr_scan=None,
            preload=None, name=None, wrap=()):
        def deco(fn):
            self.jobs[name or fn.__name__] = dict(fn=fn, env=env or {}, variant=variant, timeout=timeout, tiers=tiers,
                                          native=native, stderr_scan=stderr_scan, preload=preload, wrap=list(wrap))
            return fn
        return deco

    # ---------------------------------------------------------------- worker
    def run_worker(self, name, tier, seed, out):
        j = self.jobs[name]
        ctx = Ctx(self.pid, name, tier, seed)
        res = {}
        import warnings
        warnings.simplefilter('ignore')
        try:
            if j['native']:
                from lib.boot import boot
                boot(j['variant'])
            else:
                sys.path.insert(0, REPO)
            j['fn'](ctx)
        except _Abandon:
            pass
        except Inconclusive as e:
            res['error'] = 'inconclusive: {}'.format(e)
        except BaseException as e:
            if isinstance(e, CodeFailure) or in_repo(sys.exc_info()[2]):
                ctx.check(False, 'raised', error=repr(e)[:300], where=traceback.format_exc()[-1500:])
            else:
                res['error'] = traceback.format_exc()[-3000:]
        res.update(ctx.dump())
        with open(out, 'w') as f:
            json.dump(res, f)
            f.flush()
            os.fsync(f.fileno())
        sys.stdout.flush()
        os._exit(0)

    # ---------------------------------------------------------------- parent
    def spawn(self, name, tier, seed, scratch):
        j = self.jobs[name]
        env = {k: v for k, v in os.environ.items() if k not in SCRUB and not k.startswith(('OMP_', 'GOMP_', 'ASAN_', 'TSAN_', 'UBSAN_'))}
        env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='', MPLBACKEND='Agg',
                   OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='1', OMP_WAIT_POLICY='PASSIVE', LC_ALL='C.UTF-8',
                   VP_SCRATCH=scratch, HOME=scratch, TMPDIR=scratch)
        env.update({k: str(v) for k, v in j['env'].items()})
        if j['preload']:
            libs = []
            for lib in j['preload']:
                p = subprocess.run(['gcc', '-print-file-name=' + lib], stdout=subprocess.PIPE, text=True).stdout.strip()
                libs.append(os.path.realpath(p))
            env['LD_PRELOAD'] = ' '.join(libs)
        out = os.path.join(scratch, 'result.json')
        log = open(os.path.join(scratch, 'log.txt'), 'wb')
        err = open(os.path.join(scratch, 'err.txt'), 'wb')
        p = subprocess.Popen(j['wrap'] + [PY, '-W', 'ignore', '-X', 'faulthandler', sys.argv[0], '--worker', name, '--tier', tier,
                              '--seed', str(seed), '--out', out],
                             stdout=log, stderr=err, env=env, cwd=scratch, start_new_session=True)
        return dict(proc=p, name=name, out=out, t0=time.time(), scratch=scratch, timeout=j['timeout'])

    def collect(self, h, killed):
        j = self.jobs[h['name']]
        err = ''
        try:
            with open(os.path.join(h['scratch'], 'err.txt'), errors='replace') as f:
                err = f.read()
        except OSError:
            pass
        res = None
        if os.path.exists(h['out']):
            try:
                with open(h['out']) as f:
                    res = json.load(f)
            except ValueError:
                res = None
        rc = h['proc'].returncode
        if res is None:
            res = dict(evals=0, states={}, violations=[], samples=[], stats={}, required=[], wall=time.time() - h['t0'])
            if killed:
                res['error'] = 'timeout after {:.0f} s'.format(time.time() - h['t0'])
            elif rc == -signal.SIGKILL:
                res['error'] = 'killed (memory?)'
            elif rc < 0 or 'terminate called' in err or rc == 66 or rc == 1 and 'Sanitizer' in err:
                # the process running the code under test died: abort, segmentation fault, sanitizer report
                res['evals'] = 1
                res['violations'].append({'signature': 'crash', 'detail': {'returncode': rc, 'stderr': err[:1200] + ' ... ' + err[-600:]}})
            else:
                res['error'] = 'worker exited with {}: {}'.format(rc, err[-2000:])
        if callable(j['stderr_scan']):
            report = j['stderr_scan'](err)
            if report:
                res['violations'].append({'signature': 'sanitizer', 'detail': {'report': report[:3000]}})
        elif j['stderr_scan'] and j['stderr_scan'] in err:
            i = err.index(j['stderr_scan'])
            res['violations'].append({'signature': 'sanitizer', 'detail': {'report': err[max(0, i - 200):i + 3000]}})
        return res

    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
        ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
        ap.add_argument('--worker')
        ap.add_argument('--out')
        ap.add_argument('--jobs', help='comma separated subset of jobs (for debugging)')
        ap.add_argument('--replay', help='re-run the job and seed recorded in a replay file')
        ap.add_argument('--no-evidence', action='store_true')
        ap.add_argument('-v', action='store_true')
        args = ap.parse_args()
        if args.worker:
            return self.run_worker(args.worker, args.tier, args.seed, args.out)
        sys.argv[0] = os.path.abspath(sys.argv[0])
        names = [n for n, j in self.jobs.items() if args.tier in j['tiers']]
        if args.replay:
            with open(args.replay) as f:
                r = json.load(f)
            args.tier, args.seed = r['tier'], r['seed']
            names = sorted({v['job'] for v in r['violations']})
        if args.jobs:
            names = [n for n in names if n in args.jobs.split(',')]
        t0 = time.time()
        errors, results = [], {}
        variants = sorted({self.jobs[n]['variant'] for n in names if self.jobs[n]['native']})
        from lib import native
        for v in variants:
            try:
                native.build(v)
            except native.BuildError as e:
                print('build of variant {} failed:\n{}'.format(v, e))
                return 2
        par = int(os.environ.get('VP_PAR', '6'))
        base = tempfile.mkdtemp(prefix='vp-' + self.pid + '-')
        try:
            queue, running = list(names), []
            while queue or running:
                while queue and len(running) < par:
                    n = queue.pop(0)
                    s = os.path.join(base, n)
                    os.makedirs(s)
                    running.append(self.spawn(n, args.tier, args.seed, s))
                for h in list(running):
                    killed = False
                    if h['proc'].poll() is None:
                        if time.time() - h['t0'] < h['timeout']:
                            continue
                        killed = True
                    try:
                        os.killpg(h['proc'].pid, signal.SIGKILL)
                    except OSError:
                        pass
                    h['proc'].wait()
                    running.remove(h)
                    results[h['name']] = self.collect(h, killed)
                time.sleep(0.02)
        finally:
            subprocess.run(['rm', '-rf', base])
        return self.report(args, names, results, errors, time.time() - t0)

    def report(self, args, names, results, errors, wall):
        known = load_known(self.pid)
        evals, distinct, samples, violations, hits = 0, {}, [], [], {}
        stats = {}
        for n in names:
            r = results[n]
            evals += r['evals']
            for k, c in r['states'].items():
                distinct[n + ':' + k] = c
            samples += [dict(job=n, **s) if isinstance(s, dict) else dict(job=n, value=s) for s in r['samples']]
            stats[n] = dict(evaluations=r['evals'], distinct=len(r['states']), wall_s=round(r.get('wall', 0), 2),
                            ranges={k: v for k, v in sorted(r['stats'].items())[:40]})
            for v in r['violations']:
                v['job'] = n
                key = n + '/' + v['signature']
                if key in known:
                    hits[key] = hits.get(key, 0) + 1
                else:
                    violations.append(v)
            if r.get('error'):
                errors.append('{}: {}'.format(n, r['error']))
            for what, count, minimum in r['required']:
                if count < minimum and not r['violations']:
                    errors.append('{}: observed {} of {}, needs {}'.format(n, count, what, minimum))
        if not evals:
            errors.append('no monitor evaluated anything')
        replay = None
        evdir = os.path.join(VERIF, 'evidence')
        if violations:
            os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
            replay = os.path.join(evdir, 'replay', self.pid + '.json')
            with open(replay, 'w') as f:
                json.dump(dict(property=self.pid, tier=args.tier, seed=args.seed, violations=violations[:40],
                               how='{} {} --replay {}'.format(PY, sys.argv[0], replay)), f, indent=1)
        if not args.no_evidence and not args.jobs and not args.replay:
            os.makedirs(evdir, exist_ok=True)
            ev = dict(property=self.pid, tier=args.tier, seed=args.seed, level=self.level,
                      coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=self.rule,
                                    samples=samples[:12] or [dict(states=sorted(distinct)[:5])],
                                    jobs=stats, state_names=sorted(distinct)[:60]),
                      assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(violations))
            tmp = os.path.join(evdir, self.pid + '.json.tmp')
            with open(tmp, 'w') as f:
                json.dump(ev, f, indent=1)
            os.rename(tmp, os.path.join(evdir, self.pid + '.json'))
        for key in sorted(hits):
            print('KNOWN-FINDING: property={} {} ({})'.format(self.pid, known[key], key))
        if args.v:
            print(json.dumps(stats, indent=1))
        print('{} {} seed={}: {} monitor evaluations, {} distinct states, {} jobs, {:.1f} s'.format(
            self.pid, args.tier, args.seed, evals, len(distinct), len(names), wall))
        for v in violations[:8]:
            print('  violated: {}/{} {}'.format(v['job'], v['signature'], json.dumps(v['detail'])[:900]))
        for e in errors:
            print('  no verdict: ' + e[:1500])
        if violations:
            print('VIOLATION property={} replay={}'.format(self.pid, replay))
            return 1
        return 2 if errors else 0


def load_known(pid):
    """ {job/signature: description} of the recorded findings of a property """
    table = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('fixed:') or line.startswith('#'):
                    continue
                r = json.loads(line)
                if r.get('property') == pid:
                    table[r['key']] = r['what']
    return table


def main(suite):
    rc = suite.main()
    sys.stdout.flush()
    sys.exit(rc)
