"""Records of drifters are cut into chunks at the gaps and submitted as the run mode says"""
import itertools
import os
import shlex
import subprocess
import sys
import time

import YMCounter as ym
import Tracking_QC_wrapper as wrapper
from mc.engine import Sub

PROPERTY = 'C25'
LEVEL = 'model_checking'
RULE = ('every pattern of months with and without data in a period x every gap length from 1 to beyond the period, on the real counter, '
        'compared with a reference that groups the months; every such pattern of two buoys through the real wrapper in all four modes, where the '
        'submitted jobs are read back and compared; every sequence of loads of the scheduler\'s queue, in which no job may be submitted while it is full; a state is the pattern with the chunks found')
BOUNDS = {'quick': 'all patterns of 12 months x 14 gaps, of 15 months x 4 gaps; wrapper: 2^8 patterns x 4 modes x 3 gaps; 4^5 sequences of loads of the queue',
          'thorough': 'all patterns of 16 months x 18 gaps; wrapper: 2^10 patterns; 4^7 sequences of loads'}
ASSUMPTIONS = ['sbatch and squeue are stand-ins that record the call', 'the gap is at least one month']


def ymonth(y, m, k):
    k += m - 1
    return y + k // 12, k % 12 + 1


def chunks(pat, gap):
    out = []
    for i, x in enumerate(pat):
        if x:
            if out and i - out[-1][1] - 1 < gap:
                out[-1][1] = i
            else:
                out.append([i, i])
    return [tuple(c) for c in out]


def kinds(c, n, gap):
    k = set()
    if c[0] < gap:
        k.add('start_edge_case')
    if n - 1 - c[1] < gap:
        k.add('end_edge_case')
    if n - 1 - c[1] == gap:
        k.add('new')
    if not k & {'start_edge_case', 'end_edge_case'}:
        k.add('regular')
    return k


# ------------------------------------------------------------------------------------ counter

def gen_counter(tier):
    if tier == 'quick':
        plan = [(12, list(range(1, 15))), (15, [1, 3, 11, 13])]
    else:
        plan = [(12, list(range(1, 15))), (16, list(range(1, 19)))]
    for n in (1, 2, 3):
        yield [n, list(range(1, 6)), []]
    for n, gaps in plan:
        for pre in itertools.product((0, 1), repeat=6):
            yield [n, gaps, list(pre)]


def run_counter(case, R):
    n, gaps, pre = case
    y1, m1 = 1999, 1 + n % 12
    y2, m2 = ymonth(y1, m1, n - 1)
    for rest in itertools.product((0, 1), repeat=n - len(pre)):
        pat = tuple(pre) + rest
        g = ym.YMCounter(y1, m1, y2, m2)
        for i, x in enumerate(pat):
            if x:
                y, m = ymonth(y1, m1, i)
                g.setym(y, m, 1)
        for gap in gaps:
            want = [ymonth(y1, m1, a) + ymonth(y1, m1, b) + (kinds((a, b), n, gap),) for a, b in chunks(pat, gap)]
            got = [tuple(int(v) for v in x[:4]) + (set(x[4]),) for x in g.yield_start_and_end_dates(gap)]
            R.trace()
            R.trans(n)
            R.true('chunks %s gap %d' % (''.join(map(str, pat)), gap), got == want, 'first and last months and kinds of the chunks', got=got, expected=want)
            R.state((pat, gap, repr(chunks(pat, gap))))
            R.outcome('%d chunks' % len(want))


def gen_set(tier):
    for m1 in range(1, 13):
        for n in (1, 2, 11, 12, 13, 25):
            yield [m1, n]


def run_set(case, R):
    """setting a month sets that month only, and the index of a month is its place"""
    m1, n = case
    y2, m2 = ymonth(1998, m1, n - 1)
    for k in range(-2, n + 2):
        g = ym.YMCounter(1998, m1, y2, m2)
        y, m = ymonth(1998, m1, k)
        g.setym(y, m, 1)
        want = [1.0 if i == k else 0.0 for i in range(n)]
        R.eq('setym %d %d %d' % (m1, n, k), [float(x) for x in g.counter], want, 'months with data after setting one')
        R.eq('index %d %d %d' % (m1, n, k), [int(i) for i in g.index(y, m)], [k] if 0 <= k < n else [], 'place of a month')
        g.setym(y, m, 0)
        R.eq('unset %d %d %d' % (m1, n, k), [float(x) for x in g.counter], [0.0] * n, 'months with data after unsetting it')
        R.state((m1, n, k))


# ------------------------------------------------------------------------------------ wrapper
IDS = ['51514    ', ' D/B U*  ']
N = {'quick': 8, 'thorough': 10}
MODES = ['standard', 'all', 'new', 'noend']


def gen_wrapper(tier):
    n = N[tier]
    for mode in MODES:
        for gap in (1, 2, 3):
            for hi in range(2 ** (n - 4)):
                yield [n, mode, gap, hi]
    yield [4, 'wrong', 1, 0]


def submitted(mode, k):
    if mode == 'all':
        return True
    if mode == 'standard':
        return 'start_edge_case' not in k and 'end_edge_case' not in k
    if mode == 'new':
        return 'new' in k
    return 'end_edge_case' not in k


def shell(line):
    """the words a shell makes of a command and, as '>', where its output goes; None when it would make anything else of it"""
    out, cur, i = [], None, 0
    while i < len(line):
        c = line[i]
        if c == "'":
            j = line.find("'", i + 1)
            if j < 0:
                return None
            cur, i = (cur or '') + line[i + 1:j], j
        elif c == '"':
            i, cur = i + 1, cur or ''
            while i < len(line) and line[i] != '"':
                if line[i] in '$`':
                    return None
                if line[i] == '\\' and line[i + 1:i + 2] in ('"', '\\', '$', '`'):
                    i += 1
                cur, i = cur + line[i], i + 1
            if i >= len(line):
                return None
        elif c == '\\':
            i += 1
            cur = (cur or '') + line[i:i + 1]
        elif c in ' \t':
            out, cur = out + ([cur] if cur is not None else []), None
        elif c == '>':
            out, cur = out + ([cur] if cur is not None else []) + [Redirect('>')], None
        elif c in ';&|`$()<*?[\n!{}' or (c in '#~' and cur is None):
            return None
        else:
            cur = (cur or '') + c
        i += 1
    return out + ([cur] if cur is not None else [])


class Redirect(str):
    pass


def parse(text):
    """the options of the tracking command of a job"""
    line = [x for x in text.splitlines() if 'tracking_qc.py' in x]
    if len(line) != 1 or not text.startswith('#!'):
        return None
    words = shell(line[0])
    if words is None:
        return None
    at = [k for k, w in enumerate(words) if isinstance(w, Redirect)]
    if at:
        if len(words) != at[0] + 2:
            return None
        words = words[:at[0]]
    i = [k for k, w in enumerate(words) if w.endswith('tracking_qc.py')][0]
    opts, cur = {}, None
    for w in words[i + 1:]:
        if w.startswith('-') and len(w) > 1 and w[1:2].isalpha():
            cur = w[1:]
            opts[cur] = []
        elif cur is None:
            return None
        else:
            opts[cur].append(w)
    return opts


class Env(object):
    """scratch directories, with sbatch and squeue replaced by recorders"""

    def __init__(self, y1, m1, n, runid='standard'):
        base = os.path.join(os.environ['MC_SCRATCH'], 'c25')
        self.base = base
        self.out = base + '/out'
        self.track = base + '/track'
        os.makedirs(self.track, exist_ok=True)
        self.months = [ymonth(y1, m1, k) for k in range(n)]
        for y, m in self.months:
            os.makedirs('%s/%d/%02d' % (self.out, y, m), exist_ok=True)
        with open(base + '/parameters.json', 'w') as f:
            f.write('{"runid": "%s"}' % runid)
        with open(base + '/configuration.txt', 'w') as f:
            f.write('[Directories]\nout_dir = %s\ntrack_out_dir = %s\n[Files]\nparameter_file = %s/parameters.json\n' % (self.out, self.track, base))

    def run(self, argv, queue=None):
        jobs = []

        class Str(str):
            def decode(self, *a):
                return self

        def listing(w):
            return Str(queue.list()) if queue is not None and w[0] == 'squeue' else Str()

        class Done(object):
            returncode, stderr, args = 0, Str(), ''

            def __init__(self, w):
                self.stdout = listing(w)

            def communicate(self, *a, **k):
                return self.stdout, Str()

            def wait(self, *a, **k):
                return 0
            poll = wait

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

        def system(cmd, *a, **k):
            w = shlex.split(cmd) if isinstance(cmd, str) else list(cmd)
            if w[0] != 'squeue':
                with open(w[1]) as f:
                    jobs.append((w[0], f.read()))
                if queue is not None:
                    queue.submit()
            return 0

        def words(cmd):
            return shlex.split(cmd) if isinstance(cmd, str) else list(cmd)

        def done(cmd, *a, **k):
            system(cmd)
            return Done(words(cmd))
        stubs = [(os, 'system', system), (subprocess, 'call', system), (subprocess, 'check_call', system), (subprocess, 'run', done), (subprocess, 'Popen', done),
                 (subprocess, 'check_output', lambda cmd, *a, **k: (system(cmd), listing(words(cmd)))[1]),
                 (time, 'sleep', lambda s: queue.sleep(s) if queue is not None else None)]
        keep = [(m, n, getattr(m, n)) for m, n, _ in stubs]
        argv0 = sys.argv
        sys.argv = ['Tracking_QC_wrapper.py'] + argv
        for m, n, v in stubs:
            setattr(m, n, v)
        try:
            wrapper.main(argv)
        finally:
            sys.argv = argv0
            for m, n, v in keep:
                setattr(m, n, v)
        return jobs


def run_wrapper(case, R):
    n, mode, gap, hi = case
    y1, m1 = 2001, 7
    env = Env(y1, m1, n)
    y2, m2 = env.months[-1]
    argv = ['-config', env.base + '/configuration.txt', '-gap', str(gap), '-yr1', str(y1), '-mn1', str(m1), '-yr2', str(y2), '-mn2', str(m2), '-edge', mode]
    if mode == 'wrong':
        for k in range(n):
            open('%s/%d/%02d/ID_file.txt' % ((env.out,) + env.months[k]), 'w').close()
        try:
            env.run(argv)
            R.true('unknown mode', False, 'an unknown run mode was accepted')
        except Exception:
            R.true('unknown mode', True, '')
        return
    for lo in range(16):
        pat = tuple((hi * 16 + lo) >> (n - 1 - i) & 1 for i in range(n))
        pats = [pat, tuple(1 - x for x in reversed(pat))]
        for k in range(n):
            with open('%s/%d/%02d/ID_file.txt' % ((env.out,) + env.months[k]), 'w') as f:
                for i, p in zip(IDS, pats):
                    if p[k]:
                        f.write(i + ',' + i.replace('/', '_').replace('*', '_') + '\n')
        jobs = env.run(argv)
        want = []
        for i, p in zip(IDS, pats):
            for c in chunks(p, gap):
                kk = kinds(c, n, gap)
                if submitted(mode, kk):
                    want.append((i.rstrip(),) + env.months[c[0]] + env.months[c[1]] + (sorted(kk),))
        got = []
        for verb, text in jobs:
            o = parse(text)
            try:
                got.append((o['id'][0].rstrip() if len(o['id']) == 1 else o['id'], int(o['yr1'][0]), int(o['mn1'][0]), int(o['yr2'][0]), int(o['mn2'][0]), sorted(o['edge'])))
                ok = verb == 'sbatch' and o['config'] == [env.base + '/configuration.txt'] and \
                    o['runmonthid'] == ['%d%02d-%d%02d' % (y1, m1, y2, m2)]
                R.true('job options %s' % case, ok, 'configuration and run of a job', options=o)
            except (KeyError, TypeError, IndexError, ValueError):
                got.append(('unreadable job', text[-300:]))
        R.trace()
        R.trans(len(want))
        R.true('jobs %s %d %s' % (mode, gap, ''.join(map(str, pat))), sorted(got) == sorted(want), 'jobs submitted', got=sorted(got), expected=sorted(want))
        R.state((mode, gap, pat))
        R.outcome('%s %d jobs' % (mode, len(want)))


# ------------------------------------------------------------------------------------ long periods, many buoys, long gaps

def gen_years(tier):
    for mode in MODES:
        for gap in (1, 3, 11, 12, 13, 14, 18, 24, 30):
            for start in (1, 7, 12):
                yield [mode, gap, start]


def run_years(case, R):
    """every buoy has data in two stretches: how far from the start, how long, how far apart"""
    mode, gap, m1 = case
    n, y1 = 52, 1999
    env = Env(y1, m1, n, 'Run-7.B')
    y2, m2 = env.months[-1]
    argv = ['-config', env.base + '/configuration.txt', '-gap', str(gap), '-yr1', str(y1), '-mn1', str(m1), '-yr2', str(y2), '-mn2', str(m2), '-edge', mode]
    pats = {}
    for lead in (0, 1, 2, 3, 11, 12, 13, 14):
        for hole in (0, 1, 2, 3, 10, 11, 12, 13, 14, 17, 18, 19, 24, 30):
            for length in (1, 2, 13):
                p = [0] * n
                for k in list(range(lead, lead + length)) + list(range(lead + length + hole, lead + length + hole + 2)):
                    if k < n:
                        p[k] = 1
                pats['B%02d%02d%02d  ' % (lead, hole, length)] = tuple(p)
    for k in range(n):
        with open('%s/%d/%02d/ID_file.txt' % ((env.out,) + env.months[k]), 'w') as f:
            for i in sorted(pats) if k % 2 else sorted(pats, key=lambda i: i[::-1]):
                if pats[i][k]:
                    f.write(i + ',' + i + '\n')
    want = []
    for i, p in pats.items():
        for c in chunks(p, gap):
            kk = kinds(c, n, gap)
            if submitted(mode, kk):
                want.append((i.rstrip(),) + env.months[c[0]] + env.months[c[1]] + (sorted(kk),))
    got = []
    for verb, text in env.run(argv):
        o = parse(text)
        try:
            got.append((o['id'][0].rstrip(), int(o['yr1'][0]), int(o['mn1'][0]), int(o['yr2'][0]), int(o['mn2'][0]), sorted(o['edge'])))
        except (KeyError, TypeError, IndexError, ValueError):
            got.append(('unreadable job', text[-300:]))
    R.trace()
    R.trans(len(want))
    a, b = sorted(map(repr, got)), sorted(map(repr, want))
    R.true('years %s %d %d' % (mode, gap, m1), a == b, 'jobs submitted', surplus=[x for x in a if x not in b][:5], lacking=[x for x in b if x not in a][:5], numbers=[len(a), len(b)])
    R.state(tuple(case))
    R.outcome('years %s %d jobs' % (mode, len(want)))


def gen_chars(tier):
    for c in range(33, 127):
        if chr(c) != ',':
            yield [c]


def run_chars(case, R):
    """whatever characters an identifier has, the job is for it and nothing else"""
    c = chr(case[0])
    env = Env(2001, 7, 2)
    argv = ['-config', env.base + '/configuration.txt', '-gap', '1', '-yr1', '2001', '-mn1', '7', '-yr2', '2001', '-mn2', '8', '-edge', 'all']
    for ident in (c + '1234', '12' + c + '34', '12 ' + c + c + '4', '1234' + c, '12345678' + c):
        with open('%s/2001/07/ID_file.txt' % env.out, 'w') as f:
            f.write(ident.ljust(9) + ',' + ident.ljust(9).replace('/', '_').replace('*', '_') + '\n')
        open('%s/2001/08/ID_file.txt' % env.out, 'w').close()
        jobs = env.run(argv)
        o = [parse(text) for _, text in jobs]
        R.trace()
        R.trans(1)
        R.true('id %s' % ident, len(o) == 1 and o[0] is not None and [x.rstrip() for x in o[0].get('id', ())] == [ident], 'the ID of a job', got=[t[-400:] for _, t in jobs])
        R.state(ident)
    R.outcome('one job')


# ------------------------------------------------------------------------------------ queue
LOADS = [0, 250, 251, 400]


class Queue(object):
    """the queue of the scheduler: how many jobs of the user it holds each time it is asked, and a job of his and of others is one line"""

    def __init__(self, loads):
        self.loads, self.last, self.log, self.slept = list(loads), 0, [], True

    def list(self):
        self.last = self.loads.pop(0) if self.loads else 0
        self.log.append(('asked', self.last))
        line = '  %d  spice  Tracking  %s  RUNNING  0:01  30:00  1 node\n'
        return ''.join(line % (i, 'hadjj') for i in range(self.last)) + ''.join(line % (i, 'other') for i in range(300))

    def submit(self):
        self.log.append(('submitted', self.last))

    def sleep(self, s):
        self.log.append(('slept', s))


def gen_queue(tier):
    k = 5 if tier == 'quick' else 7
    for loads in itertools.product(LOADS, repeat=3):
        yield [k, list(loads)]
    for full in (40, 200, 1000):
        for head in ((), (0,), (0, 3)):
            yield [0, list(head) + [300] * full]


def run_queue(case, R):
    """no job is submitted while more than 250 of the user's are in the queue; every job is submitted in the end"""
    k, head = case
    env = Env(2001, 7, 7)
    for i in range(7):
        with open('%s/%d/%02d/ID_file.txt' % ((env.out,) + env.months[i]), 'w') as f:
            if i % 2 == 1:
                f.write('51514    ,51514\n')
    y2, m2 = env.months[-1]
    argv = ['-config', env.base + '/configuration.txt', '-gap', '1', '-yr1', '2001', '-mn1', '7', '-yr2', str(y2), '-mn2', str(m2), '-edge', 'all']
    for tail in itertools.product(LOADS, repeat=max(0, k - 3)):
        loads = tuple(head) + tail
        q = Queue(loads)
        jobs = env.run(argv, q)
        R.trace()
        R.trans(len(q.log))
        key = loads if len(loads) < 20 else (loads[:3], len(loads))
        R.true('all %r' % (key,), len(jobs) == 3, 'jobs submitted in the end', got=len(jobs))
        R.true('waits %r' % (key,), all(n <= 250 for what, n in q.log if what == 'submitted'), 'a job was submitted to a full queue', log=q.log)
        if sum(1 for what, n in q.log if what == 'slept') > 0:
            R.outcome('waited')
        R.state((key, repr(q.log)))
        R.outcome('%d waits' % sum(1 for what, n in q.log if what == 'slept'))


SUBS = [Sub('queue', gen_queue, run_queue), Sub('counter', gen_counter, run_counter), Sub('months', gen_set, run_set), Sub('characters', gen_chars, run_chars), Sub('years', gen_years, run_years), Sub('wrapper', gen_wrapper, run_wrapper)]
