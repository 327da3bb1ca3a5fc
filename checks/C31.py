"""Input files are found, unpacked and named right in every state of the file system"""
import bz2
import calendar
import itertools
import os
import re
import select
import shutil
import signal
import sys
import time

import BackgroundField as bf
from mc.engine import Sub, Raised, attempt

PROPERTY = 'C31'
LEVEL = 'fault_enumeration'
RULE = ('every state of the candidate files (absent, empty, complete, packed, packed and damaged, already unpacked) for two places, every failure and every '
        'crash of the unpacking after k of n blocks followed by a second call, and all interleavings of two processes that unpack the same field block by block; '
        'the real function runs on real files and the content it leads to is compared; a case is distinct by the state and the answer')
BOUNDS = {'quick': '576 states of two places x 2 dates; 30 failures and crashes; all 70 interleavings of two processes of 4 steps; all days of 4 years for the names',
          'thorough': '20736 states of three places; interleavings of 6 steps; all days of 300 years'}
ASSUMPTIONS = ['a stand-in for the bunzip2 command is put first on the PATH where failures, crashes and interleavings are injected',
               'a file system state is built in a scratch directory']

REAL = shutil.which('bunzip2')
PLACES = ['first/YYYY/MMMM', 'second/YYYY/MMMM/', 'third']
NAMES = ['a_YYYYMMMMDDDD.nc', 'b_YYYYMMMMDDDD', 'c_YYYYMMMMDDDD-l4.nc']
PLAIN = ['absent', 'empty', 'full']
PACKED = ['absent', 'empty', 'full', 'damaged']
NBLOCK = 4
BLOCK = 1000


def fill(stub, y, m, d):
    t = {'YYYY': '%04d' % y, 'MMMM': '%02d' % m, 'DDDD': '%02d' % d}
    return re.sub('YYYY|MMMM|DDDD', lambda g: t[g.group(0)], stub)


def field(place, date):
    """the content of the field of that place and day"""
    return (('%s %r ' % (place, tuple(date))) * 300)[:NBLOCK * BLOCK].encode()


def fresh():
    root = os.path.join(os.environ['MC_SCRATCH'], 'fs')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root + '/scratch')
    os.environ['SCRATCH'] = root + '/scratch'
    return root


def put(path, data):
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    with open(path, 'wb') as f:
        f.write(data)


def read(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except OSError as e:
        return 'unreadable: %s' % type(e).__name__


def packed(data):
    return bz2.compress(data)


def build(root, state, date):
    for place, name, (plain, pack, done) in zip(PLACES, NAMES, state):
        p = os.path.join(root, fill(place, *date), fill(name, *date))
        data = field(place, date)
        if plain != 'absent':
            put(p, data if plain == 'full' else b'')
        if pack != 'absent':
            z = packed(data)
            put(p + '.bz2', {'full': z, 'empty': b'', 'damaged': z[:-7] + b'garbage'}[pack])
        if done:
            put(os.path.join(root, 'scratch', fill(name, *date)), data)


def stubs(root, n):
    return [os.path.join(root, p) for p in PLACES[:n]], NAMES[:n]


def allowed(state, date):
    """(contents that may be found, may there be no answer)"""
    ok = []
    for place, (plain, pack, done) in zip(PLACES, state):
        if plain == 'full':
            return ok + [field(place, date)], False if not ok else True
        if pack == 'full':
            return ok + [field(place, date)], False if not ok else True
        if pack == 'damaged':
            if done:                       # unpacked before it was damaged
                ok.append(field(place, date))
            else:
                ok.append(None)
    return [x for x in ok if x is not None], True


# ------------------------------------------------------------------------------ states

def gen_states(tier):
    n = 2 if tier == 'quick' else 3
    one = list(itertools.product(PLAIN, PACKED, [0, 1]))
    for s in itertools.product(one, repeat=n - 1 if n == 3 else 1):
        for date in ([2002, 11, 30], [2012, 2, 29]) if n == 2 else ([2002, 11, 30],):
            yield [[list(x) for x in s], n, date]


def run_states(case, R):
    head, n, date = case
    one = list(itertools.product(PLAIN, PACKED, [0, 1]))
    for tail in itertools.product(one, repeat=n - len(head)):
        state = [tuple(x) for x in head] + list(tail)
        root = fresh()
        build(root, state, date)
        d, f = stubs(root, n)
        before = snapshot(root)
        for call in (1, 2):
            R.ev()
            R.trans()
            got = attempt(bf.get_background_filename, d, f, *date)
            judge(R, 'state %r %r call %d' % (state, date, call), got, *allowed(state, date))
        after = snapshot(root)
        R.true('kept %r %r' % (state, date), {k: v for k, v in after.items() if not k.startswith('scratch/')} ==
               {k: v for k, v in before.items() if not k.startswith('scratch/')}, 'the files the fields are read from were changed')
        R.state((tuple(state), tuple(date), repr(got)[-30:]))


def snapshot(root):
    out = {}
    for p, dd, ff in os.walk(root):
        for x in ff:
            q = os.path.join(p, x)
            out[os.path.relpath(q, root)] = read(q)
    return out


def judge(R, key, got, contents, none):
    if isinstance(got, Raised):
        return R.fail(key, 'finding the background field failed', got=got)
    if got is None:
        R.outcome('no field')
        return R.true(key, none, 'no field found although one is there')
    c = read(got)
    R.outcome('field found')
    R.true(key, c in contents, 'the file found does not hold the field of the day', got=got, size=len(c), expected=len(contents))


def gen_none(tier):
    yield []


def run_none(case, R):
    root = fresh()
    build(root, [('full', 'absent', 0)] * 2, [2002, 11, 30])
    d, f = stubs(root, 2)
    for date in itertools.product([2002, None], [11, None], [30, None]):
        if None in date:
            R.true('none %r' % (date,), bf.get_background_filename(d, f, *date) is None, 'a field for no date')
    # another day than those there are
    for date in ([2002, 11, 29], [2002, 12, 30], [2003, 11, 30]):
        R.true('day %r' % (date,), bf.get_background_filename(d, f, *date) is None, 'a field of another day')
    R.state('none')


# ------------------------------------------------------------------------------ failures of the unpacking
FAKE = r'''#!/bin/sh
# stand-in for bunzip2 -c FILE: block by block as told
for last in "$@"; do :; done
%s -c "$last" > "$MC_TMP.$$" || exit 1
i=0
while [ $i -lt "$MC_BLOCKS" ]; do
  if [ -n "$MC_FIFO" ]; then echo x > "$MC_FIFO.ask"; read g < "$MC_FIFO.go"; fi
  dd if="$MC_TMP.$$" bs=1000 skip=$i count=1 2>/dev/null
  i=$((i+1))
done
if [ -n "$MC_FIFO" ]; then echo x > "$MC_FIFO.ask"; read g < "$MC_FIFO.go"; fi
case "$MC_END" in
  ok) exit 0;;
  fail) exit 1;;
  die) kill -9 $$;;
  crash) kill -9 $MC_VICTIM; kill -9 $$;;
esac
'''


def fake(root):
    b = os.path.join(root, 'bin')
    os.makedirs(b)
    p = os.path.join(b, 'bunzip2')
    with open(p, 'w') as f:
        f.write(FAKE % REAL)
    os.chmod(p, 0o755)
    os.environ['MC_TMP'] = os.path.join(root, 'unpacked')
    os.environ['MC_FIFO'] = ''
    return b


def gen_fail(tier):
    for end in ('fail', 'die', 'crash', 'ok'):
        for k in range(NBLOCK + 1):
            if end == 'ok' and k < NBLOCK:
                continue
            for second in ('absent', 'full'):
                yield [end, k, second]


def run_fail(case, R):
    end, k, second = case
    date = [2007, 1, 31]
    root = fresh()
    state = [('absent', 'full', 0), (second, 'absent', 0)]
    build(root, state, date)
    d, f = stubs(root, 2)
    one, two = field(PLACES[0], date), field(PLACES[1], date)
    b = fake(root)
    path = os.environ['PATH']
    try:
        os.environ.update(PATH=b + ':' + path, MC_BLOCKS=str(k), MC_END=end)
        R.ev()
        if end == 'crash':
            pid = os.fork()
            if pid == 0:
                os.environ['MC_VICTIM'] = str(os.getpid())
                try:
                    bf.get_background_filename(d, f, *date)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)
            R.outcome('crash')
        else:
            got = attempt(bf.get_background_filename, d, f, *date)
            judge(R, 'unpacking ends with %s after %d blocks' % (end, k), got, [one] + ([two] if second == 'full' else []), end != 'ok' and second == 'absent' or end != 'ok')
    finally:
        os.environ['PATH'] = path
    got = attempt(bf.get_background_filename, d, f, *date)
    judge(R, 'second call after %s after %d blocks' % (end, k), got, [one], False)
    R.state((end, k, second))


# ------------------------------------------------------------------------------ two processes

def gen_two(tier):
    n = 4 if tier == 'quick' else 6
    for c in itertools.combinations(range(2 * n), n):
        yield [n, list(c)]


class Proc(object):
    def __init__(self, root, name, d, f, date, blocks):
        self.fifo = os.path.join(root, 'fifo' + name)
        os.mkfifo(self.fifo + '.ask')
        os.mkfifo(self.fifo + '.go')
        self.ask = os.open(self.fifo + '.ask', os.O_RDWR)
        self.go = os.open(self.fifo + '.go', os.O_RDWR)
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            out = b'raised'
            try:
                os.environ.update(MC_FIFO=self.fifo, MC_BLOCKS=str(blocks), MC_END='ok')
                x = bf.get_background_filename(d, f, *date)
                # what it finds at the moment it is told the name
                out = b'none' if x is None else b'field ' + (read(x) if isinstance(read(x), bytes) else b'?')
            except BaseException as e:
                out = ('raised %r' % e).encode()
            finally:
                os.write(w, out)
                os._exit(0)
        os.close(w)
        self.r = r
        self.answer = None

    def wait(self):
        """until the unpacking wants to go on, or the answer is there"""
        if self.answer is not None:
            return False
        r, _, _ = select.select([self.ask, self.r], [], [], 30)
        if self.ask in r:
            os.read(self.ask, 2)
            return True
        if self.r in r:
            out = b''
            while True:
                x = os.read(self.r, 65536)
                if not x:
                    break
                out += x
            self.answer = out
            os.waitpid(self.pid, 0)
            os.close(self.r)
            os.close(self.ask)
            os.close(self.go)
            return False
        os.kill(self.pid, signal.SIGKILL)
        raise RuntimeError('a process does not come back')

    def step(self):
        os.write(self.go, b'x\n')


def run_two(case, R):
    n, order = case
    date = [2007, 1, 31]
    root = fresh()
    build(root, [('absent', 'full', 0)], date)
    d, f = stubs(root, 1)
    b = fake(root)
    path = os.environ['PATH']
    data = field(PLACES[0], date)
    key = ''.join('A' if i in order else 'B' for i in range(2 * n))
    try:
        os.environ['PATH'] = b + ':' + path
        ps = {}
        for who in key:
            # first step: the call up to the point where the unpacking starts; each further step one block
            if who not in ps:
                ps[who] = Proc(root, who, d, f, date, NBLOCK)
                ps[who].at = ps[who].wait()
            elif ps[who].at:
                ps[who].step()
                ps[who].at = ps[who].wait()
            R.trans()
        for who in 'AB':
            while ps[who].at:
                ps[who].step()
                ps[who].at = ps[who].wait()
    finally:
        os.environ['PATH'] = path
    for who in 'AB':
        a = ps[who].answer
        R.true('two %s %s' % (key, who), a == b'field ' + data or a == b'none', 'a process found something else than the field', size=len(a), got=a[:40])
    R.true('two %s some' % key, any(ps[w].answer == b'field ' + data for w in 'AB'), 'no process found the field')
    judge(R, 'two %s afterwards' % key, attempt(bf.get_background_filename, d, f, *date), [data], False)
    R.outcome('A first' if key[0] == 'A' else 'B first')
    R.state(key)


# ------------------------------------------------------------------------------ names
STUBS = [('/data/YYYY/MMMM/DDDD/', 'f_YYYYMMMMDDDD.nc'), ('/data/YYYY', 'DDDD-MMMM-YYYY.nc'), ('/data/x', 'plain.nc'), ('/data/YYYY/YYYYMMMM', 'YYYYMMMMDDDD_YYYY.gz'),
         ('/data/DDDD/MMMM/DDDD', 'MMMMDDDD_DDDDMMMM_YYYY-YYYY.nc')]


def gen_names(tier):
    for y in ([1850, 1999, 2000, 2023] if tier == 'quick' else range(1850, 2150)):
        for m in range(1, 13):
            yield [y, m]


def run_names(case, R):
    y, m = case
    for d in range(1, calendar.monthrange(y, m)[1] + 1):
        for a, b in STUBS:
            R.eq('string %r %r' % (b, (y, m, d)), bf.process_string(b, y, m, d), fill(b, y, m, d), 'name with the date filled in')
            R.eq('name %r %r' % (b, (y, m, d)), bf.make_filename(a, b, y, m, d), fill(a, y, m, d).rstrip('/') + '/' + fill(b, y, m, d), 'path with the date filled in')
        R.state((y, m, d))
    R.outcome('%d' % m)


def gen_icoads(tier):
    for s in itertools.product(['absent', 'file', 'folder'], repeat=3):
        yield list(s)


def run_icoads(case, R):
    for date in ([1999, 12], [2010, 1], [None, 1], [2010, None]):
        root = fresh()
        d, f = stubs(root, 3)
        want = None
        for s, a, b in zip(case, d, f):
            if None in date:
                continue
            p = os.path.join(fill(a, date[0], date[1], 1), fill(b, date[0], date[1], 1))
            if s == 'file':
                put(p, b'x')
                want = want or p
            elif s == 'folder':
                os.makedirs(p)
        R.eq('icoads %r %r' % (case, date), bf.icoads_filename_from_stub(d, f, *date), want, 'first monthly file there is')
        if want:
            R.eq('other %r %r' % (case, date), bf.icoads_filename_from_stub(d, f, date[0], 5), None, 'a file of another month')
        R.state((tuple(case), tuple(date)))
        R.outcome('found' if want else 'none')


LINES = ['', 'A', 'ABCDEFGHI', 'ABCDEFGHIJK', 'AB CD', '      ', ' LEAD', 'SHIP1    ', '         ', '12345678 ']


def gen_bad(tier):
    for n in range(0, 4 if tier == 'quick' else 5):
        for s in itertools.product(range(len(LINES)), repeat=n):
            yield list(s)
    for n in (7, 8, 40, 41, 100, 1000) + (() if tier == 'quick' else (10000,)):
        for k in range(len(LINES)):
            yield [(i * (k + 1)) % len(LINES) for i in range(n)]


def run_bad(case, R):
    p = os.path.join(os.environ['MC_SCRATCH'], 'ids')
    lines = [LINES[i] for i in case]
    for end in ('\n', ''):
        with open(p, 'w') as f:
            f.write('\n'.join(lines) + (end if lines else ''))
        want = [x.rstrip().ljust(9) for x in lines if x.strip()]
        R.eq('bad %d %r %r' % (len(lines), lines[:9], end), bf.process_bad_id_file(p), want, 'IDs to exclude, padded to nine places')
    R.state(tuple(case))
    R.outcome('%d IDs' % len(want))


DIRS = [['a'], ['2003', '07'], ['TrackingQC', '1999', '12'], ['x', 'y', 'z', 'w'], list('abcdefgh'), ['d%d' % k for k in range(42)]]


def gen_dirs(tier):
    for i, s in enumerate(DIRS):
        for have in range(len(s) + 1):
            for again in (1, 2):
                yield [i, have, again]


def run_dirs(case, R):
    i, have, again = case
    s = DIRS[i]
    root = fresh()
    base = os.path.join(root, 'out')
    os.makedirs(base)
    want = [os.path.join(base, *s[:k]) for k in range(1, len(s) + 1)]
    R.eq('completions %r' % s, bf.build_completions(base, s), want, 'names of the folders')
    for k in range(have):
        os.mkdir(want[k])
        put(want[k] + '/kept', b'1')
    for _ in range(again):
        R.eq('generic %r' % case, bf.safe_make_dir_generic(base, s), want[-1], 'name of the folder made')
        R.true('there %r' % case, all(os.path.isdir(w) for w in want), 'a folder was not made')
        if len(s) == 2:
            R.eq('month %r' % case, bf.safe_make_dir(base, int(s[0]), int(s[1])), want[-1], 'name of the folder of the month')
    R.true('kept %r' % case, all(read(want[k] + '/kept') == b'1' for k in range(have)), 'something in a folder was lost')
    root = fresh()
    for y, m in ((1850, 1), (2003, 12)):
        w = os.path.join(root, str(y), '%02d' % m)
        R.eq('made %r' % ((y, m),), bf.safe_make_dir(root, y, m), w, 'name of the folder of the month')
        R.true('made there %r' % ((y, m),), os.path.isdir(w), 'the folder was not made')
    R.state(tuple(case))
    R.outcome('%d there before' % have)


def gen_fixed(tier):
    for y in range(1660, 2031):
        yield y


def run_fixed(y, R):
    """name of the monthly file by version and year"""
    for m in range(1, 13):
        for base in ('/data', 'x/y'):
            w = {'2.5': '%s/ICOADS.2.5.1/R2.5.1.%d.%02d.gz' % (base, y, m) if not 2008 <= y <= 2014 else '%s/R2.5.2.%d.%02d.gz' % (base, y, m),
                 '3.0': '%s/ICOADS.3.0.%d/IMMA1_R3.0.%d_%d-%02d.gz' % (base, y > 2014, y > 2014, y, m)}
            for v in w:
                R.eq('fixed %s %d-%d' % (v, y, m), attempt(bf.icoads_filename, base, y, m, v), w[v], 'name of the monthly file')
        R.state((y, m))
    for v in ('2.4', '3', '', 3.0):
        R.true('version %r' % (v,), isinstance(attempt(bf.icoads_filename, '/data', y, 1, v), Raised), 'an unknown version was accepted')


SUBS = [Sub('fixed', gen_fixed, run_fixed), Sub('states', gen_states, run_states), Sub('none', gen_none, run_none), Sub('failures', gen_fail, run_fail), Sub('two', gen_two, run_two),
        Sub('names', gen_names, run_names), Sub('icoads', gen_icoads, run_icoads), Sub('bad', gen_bad, run_bad), Sub('folders', gen_dirs, run_dirs)]
