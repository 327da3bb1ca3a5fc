"""Try changes quickly: python3 tools/probe.py FILE...   (not part of any check)

Each file holds PROBES = [(properties, file, old, new)...]; says for each whether the quick check of one of the properties, or else the test suite, notices it."""
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/tools')
import plant


def one(job):
    n, (props, f, old, new) = job
    d = tempfile.mkdtemp(prefix='probe_')
    try:
        copy = d + '/repo'
        shutil.copytree('/repo', copy, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        p = os.path.join(copy, f)
        s = open(p, newline='').read()
        if isinstance(old, tuple):
            s = s[:old[0]] + new + s[old[1]:]
        else:
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                return n, props, 'BAD: found %d times' % s.count(old), ''
            s = s.replace(old, new)
        open(p, 'w', newline='').write(s)
        out = ''
        for c in props.split(','):
            r = plant.inside(copy, ['./run.sh', c, 'quick'], cwd=HERE, env=dict(os.environ, MC_FIRST='1', MC_OUT=d, MC_PROCS=os.environ.get('MC_PROCS', '3')), timeout=1500)
            if r.returncode == 1:
                return n, props, 'caught ' + c, ''
            if r.returncode:
                out += (r.stdout + r.stderr)[-300:]
        t = plant.tests(copy)
        return n, props, 'tests' if t else 'MISSED', str(t[:2]) + out
    except Exception as e:
        return n, props, 'BAD', repr(e)[-300:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    jobs = []
    for path in sys.argv[1:]:
        ns = {}
        exec(open(path).read(), ns)
        jobs += list(enumerate(ns['PROBES']))
    with multiprocessing.Pool(int(os.environ.get('JOBS', '4'))) as pool:
        for n, props, what, why in pool.imap_unordered(one, jobs):
            print(n, props, what, why, '' if what.startswith('caught') else jobs[n][1][3][:100].replace('\n', '/'), flush=True)
