"""Bounded exhaustive exploration engine.

A check module (checks/Cxx.py) defines

    PROPERTY = 'Cxx'; LEVEL = 'exploration' | 'model_checking' | 'fault_enumeration'
    RULE = '...'; ASSUMPTIONS = [...]
    SUBS = [Sub(name, gen, run), ...]

`gen(tier)` enumerates the *complete* bounded case space of the sub-check (JSON-able cases, simplest
first); `run(case, R)` executes the real code of /repo on one case, compares it with the reference
model / invariant and records what it saw on R.  The engine splits the enumeration over the cores,
never samples, and reports what was covered.  Any exception that escapes from code in /repo, and any
case that does not terminate, is a violation; an exception raised by the harness itself is a harness
error (exit 2).
"""
import hashlib
import json
import math
import multiprocessing
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
MAXREPORT = 8
# to try planted bugs: results go to MC_OUT, and MC_FIRST=1 stops at the first failure
OUT = os.environ.get('MC_OUT', VERIF)
FIRST = bool(os.environ.get('MC_FIRST')) and OUT != VERIF


class Timeout(BaseException):
    pass


class Harness(Exception):
    """the harness, not the code under test, went wrong"""


class Sub(object):
    def __init__(self, name, gen, run, timeout=60):
        self.name = name
        self.gen = gen
        self.run = run
        self.timeout = timeout


class Raised(object):
    """outcome of a call that raised"""

    def __init__(self, exc):
        self.kind = type(exc).__name__
        self.text = str(exc)[:200]

    def __repr__(self):
        return 'raised %s(%s)' % (self.kind, self.text)


def attempt(f, *a, **k):
    """value of f(*a), or Raised"""
    try:
        return f(*a, **k)
    except (Timeout, KeyboardInterrupt):
        raise
    except SystemExit as e:
        return Raised(e)
    except Exception as e:
        return Raised(e)


def plain(x):
    """JSON-able rendering of a value"""
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    if isinstance(x, (set, frozenset)):
        return sorted((plain(i) for i in x), key=repr)
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if hasattr(x, 'item') and getattr(x, 'shape', None) == ():
        return plain(x.item())
    return repr(x)


def close(a, b, tol=1e-6):
    """equality up to float rounding; exact for everything else"""
    if isinstance(a, Raised) or isinstance(b, Raised):
        return False
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        try:
            return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
        except TypeError:
            return False
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k], tol) for k in a)
    try:
        fa, fb = float(a), float(b)
    except Exception:
        return a == b
    if math.isnan(fa) or math.isnan(fb):
        return math.isnan(fa) and math.isnan(fb)
    if math.isinf(fa) or math.isinf(fb):
        return fa == fb
    return abs(fa - fb) <= tol * max(1.0, abs(fa), abs(fb))


def h64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), 'little')


class Rec(object):
    """what one worker saw"""

    def __init__(self, replay=False):
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.outcomes = {}
        self.samples = []
        self.fails = []
        self.nfails = 0
        self.errors = []
        self.keys = set()
        self.replay = replay
        self._sub = None
        self._case = None
        self.cases = 0

    # -- counting
    def ev(self, n=1):
        self.evaluations += n

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def state(self, x):
        self.states.add(h64(x))

    def outcome(self, x):
        x = str(x)
        self.outcomes[x] = self.outcomes.get(x, 0) + 1

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(plain(x))

    # -- judging
    def fail(self, key, what, **detail):
        """key identifies the specific failing input (used by the known-findings file)"""
        self.nfails += 1
        key = '%s/%s' % (self._sub, key)
        if key in self.keys:
            return
        if len(self.keys) < 20000:
            self.keys.add(key)
        if len(self.fails) < 4000:
            self.fails.append({'sub': self._sub, 'case': self._case, 'key': key, 'what': what,
                               'detail': plain(detail)})

    def eq(self, key, got, want, what, tol=1e-6, **detail):
        self.evaluations += 1
        if not close(got, want, tol):
            self.fail(key, what, got=got, expected=want, **detail)
            return False
        return True

    def true(self, key, cond, what, **detail):
        self.evaluations += 1
        if not cond:
            self.fail(key, what, **detail)
            return False
        return True


def _in_repo(tb):
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + '/'):
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise Timeout('case did not terminate')


def run_case(sub, case, R):
    R._sub, R._case = sub.name, case
    R.cases += 1
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(sub.timeout)
    try:
        sub.run(case, R)
    except Timeout as e:
        R.fail('timeout:%s' % json.dumps(plain(case), sort_keys=True)[:120],
               'no answer within %d s' % sub.timeout)
    except Harness:
        R.errors.append('%s %r\n%s' % (sub.name, case, traceback.format_exc()))
    except (Exception, SystemExit) as e:
        tb = e.__traceback__
        if _in_repo(tb):
            R.fail('exception:%s:%s' % (type(e).__name__, json.dumps(plain(case), sort_keys=True)[:120]),
                   'the code under test raised %s: %s' % (type(e).__name__, str(e)[:200]),
                   traceback=traceback.format_exc()[-1500:])
        else:
            # the reference side never raises on the cases enumerated, so what the code answered has
            # a type or shape that no answer of it can have
            R.fail('answer:%s:%s' % (type(e).__name__, json.dumps(plain(case), sort_keys=True)[:120]),
                   'the answer cannot be interpreted (%s: %s)' % (type(e).__name__, str(e)[:200]),
                   traceback=traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)


def _cover(seen):
    """collect the lines of the repository that are executed (to find what no check reaches; never used to decide)"""
    m = sys.monitoring
    m.use_tool_id(3, 'mc')

    def line(code, n):
        if code.co_filename.startswith(REPO + '/'):
            seen.add((os.path.basename(code.co_filename), n))
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)


def _worker(k, n, subs, tier, conn, scratch, stop):
    R = Rec()
    seen = set()
    if os.environ.get('MC_COVER'):
        _cover(seen)
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get('MC_DEBUG'):
            os.dup2(devnull, 2)
        sys.stdout = open(os.devnull, 'w')
        os.makedirs(scratch)
        os.environ['MC_SCRATCH'] = scratch
        os.chdir(scratch)
        persub = {}
        for sub in subs:
            t0 = time.time()
            c0 = R.cases
            for i, case in enumerate(sub.gen(tier)):
                if i % n != k:
                    continue
                if FIRST:
                    if stop.is_set():
                        break
                    if R.nfails:
                        stop.set()
                        break
                run_case(sub, case, R)
                if c0 == R.cases - 1 and k == 0 and len(R.samples) < 12:
                    s = json.dumps(plain(case), sort_keys=True)
                    R.samples.append({'sub': sub.name, 'case': s[:400]})
                if len(R.errors) > 5:
                    break
            persub[sub.name] = (R.cases - c0, time.time() - t0)
        R.persub = persub
    except BaseException:
        R.errors.append(traceback.format_exc())
        R.persub = {}
    if os.environ.get('MC_COVER'):
        with open('%s/%s_%d.json' % (os.environ['MC_COVER'], os.environ['MC_CHECK'], k), 'w') as f:
            json.dump(sorted(seen), f)
    out = pickle.dumps(R.__dict__)
    conn.send_bytes(out)
    conn.close()
    os._exit(0)


def load_known():
    known = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: '):
                head, _, what = line[len('known: '):].rstrip('\n').partition(' | ')
                parts = head.split(' ', 1)
                pid = parts[0].split('=', 1)[1]
                key = parts[1].split('=', 1)[1]
                known.setdefault(pid, {})[key] = what
    return known


def main(mod, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    only = None
    args = list(argv)
    while args:
        a = args.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--replay':
            replay = args.pop(0)
        elif a == '--sub':
            only = args.pop(0)
    pid = mod.PROPERTY
    if replay:
        return do_replay(mod, replay)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    n = int(os.environ.get('MC_PROCS', '0')) or min(8, os.cpu_count() or 1)
    scratch = tempfile.mkdtemp(prefix='mc_%s_' % pid)
    subs = [s for s in mod.SUBS if only is None or s.name == only]
    pipes = []
    try:
        ctx = multiprocessing.get_context('fork')
        stop = ctx.Event()
        for k in range(n):
            a, b = ctx.Pipe(False)
            sys.stdout.flush()
            sys.stderr.flush()
            p = ctx.Process(target=_worker, args=(k, n, subs, tier, b, os.path.join(scratch, 'w%d' % k), stop))
            p.start()
            b.close()
            pipes.append((p, a))
        res = []
        for p, a in pipes:
            try:
                res.append(pickle.loads(a.recv_bytes()))
            except EOFError:
                res.append({'errors': ['worker died'], 'evaluations': 0, 'transitions': 0, 'traces': 0,
                            'states': set(), 'outcomes': {}, 'samples': [], 'fails': [], 'nfails': 0,
                            'persub': {}, 'cases': 0})
            p.join()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    states = set()
    outcomes = {}
    persub = {}
    samples = []
    fails = {}
    errors = []
    ev = tr = tc = cases = nf = 0
    for r in res:
        states |= r['states']
        ev += r['evaluations']
        tr += r['transitions']
        tc += r['traces']
        cases += r['cases']
        nf += r['nfails']
        errors += r['errors']
        samples += r['samples']
        for k2, v in r['outcomes'].items():
            outcomes[k2] = outcomes.get(k2, 0) + v
        for k2, (c, t) in r['persub'].items():
            o = persub.setdefault(k2, [0, 0.0])
            o[0] += c
            o[1] = max(o[1], t)
        for f in r['fails']:
            fails.setdefault(f['key'], f)

    known = load_known().get(pid, {})
    viol = []
    seen_known = []
    for key in sorted(fails, key=lambda k2: (len(json.dumps(plain(fails[k2]['case']))), k2)):
        if key in known:
            seen_known.append(key)
        else:
            viol.append(fails[key])

    level = mod.LEVEL
    cov = {'exhaustive': True, 'samples': samples[:12], 'cases': cases,
           'distinct_outcomes': len(outcomes),
           'outcomes': dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:40]),
           'per_subcheck': {k2: {'cases': v[0], 'wall_s': round(v[1], 2)} for k2, v in persub.items()},
           'bounds': getattr(mod, 'BOUNDS', {}).get(tier, '') if hasattr(mod, 'BOUNDS') else ''}
    if level == 'model_checking':
        cov.update({'states': len(states), 'transitions': tr, 'traces_validated_against_impl': tc,
                    'comparisons': ev, 'rule': mod.RULE})
    else:
        cov.update({'evaluations': ev, 'distinct_nontrivial': len(states), 'rule': mod.RULE})
        if tr:
            cov['transitions'] = tr
    evid = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': plain(cov),
            'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2),
            'violations': len(viol)}
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    if only is None:
        tmp = os.path.join(OUT, 'evidence', '.%s.tmp' % pid)
        with open(tmp, 'w') as f:
            json.dump(evid, f, indent=1)
        os.replace(tmp, os.path.join(OUT, 'evidence', '%s.json' % pid))

    print('%s %s: cases=%d evaluations=%d states=%d transitions=%d outcomes=%d wall=%.1fs' %
          (pid, tier, cases, ev, len(states), tr, len(outcomes), time.time() - t0))
    for k2, v in persub.items():
        print('   %-28s cases=%-8d %.1fs' % (k2, v[0], v[1]))
    for key in seen_known:
        print('KNOWN-FINDING: property=%s %s | %s' % (pid, key, known[key]))
    if viol:
        rd = os.path.join(OUT, 'replays', pid)
        os.makedirs(rd, exist_ok=True)
        for i, f in enumerate(viol[:MAXREPORT]):
            path = os.path.join(rd, '%d.json' % i)
            f = dict(f)
            f['property'] = pid
            f['how'] = './run.sh %s --replay %s' % (pid, path)
            with open(path, 'w') as fh:
                json.dump(plain(f), fh, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('   %s: %s %s' % (f['key'], f['what'], json.dumps(plain(f['detail']))[:600]))
        if len(viol) > MAXREPORT:
            print('   ... %d distinct failing inputs in all (%d failures)' % (len(viol), nf))
    if errors:
        for e in errors[:5]:
            print('HARNESS-ERROR', e)
        if not viol:
            return 2
    if cases == 0 and not viol:
        print('HARNESS-ERROR nothing explored')
        return 2
    return 1 if viol else 0


def do_replay(mod, path):
    rp = json.load(open(path))
    R = Rec(replay=True)
    scratch = tempfile.mkdtemp(prefix='mc_replay_')
    os.environ['MC_SCRATCH'] = scratch
    os.chdir(scratch)
    try:
        sub = [s for s in mod.SUBS if s.name == rp['sub']][0]
        run_case(sub, rp['case'], R)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for f in R.fails:
        print('%s: %s\n%s' % (f['key'], f['what'], json.dumps(f['detail'], indent=1)))
    for e in R.errors:
        print('HARNESS-ERROR', e)
    if not R.fails and not R.errors:
        print('replay: no failure')
    if R.fails:
        print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, path))
    return 1 if R.fails else (2 if R.errors else 0)
