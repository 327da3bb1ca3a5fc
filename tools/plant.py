"""Plant bugs: python3 tools/plant.py FILE.py...

Each file holds BUG = dict(id=, property=, edits=[(file, old, new)...], needs=, breaks=, demo=source of demo.py).
A bug is kept in seeded/<id>/ when on a copy of /repo it builds, passes the stable tests, and the demo tells it apart."""
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='/opt/vp/py2compat', PYTHONHASHSEED='0', TZ='UTC', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1',
           SCRATCH='/scratch/hadjj', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def inside(copy, cmd, cwd='/repo', timeout=900, env=None):
    """run cmd where /repo is the copy (a mount namespace of its own; nothing outside sees it)"""
    pre = ['unshare', '-m', 'bash', '-c', 'mount --bind "$0" /repo && cd "$1" && shift && exec "$@"', copy, cwd] if copy != '/repo' else []
    return subprocess.run(pre + cmd, cwd=cwd if not pre else '/', env=env or ENV, capture_output=True, text=True, timeout=timeout)


def tests(d):
    """stable tests that do not pass in directory d"""
    rep = tempfile.mktemp(prefix='junit_')
    inside(d, ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'py2compat', '-p', 'pytest_timeout', '--assert=plain', '-p', 'no:cacheprovider', '--timeout=100',
               '--continue-on-collection-errors', '--tb=no', '-o', 'junit_family=xunit2', '--junitxml=' + rep])
    out = rep + '.json'
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + rep], env=ENV, capture_output=True)
    o = json.load(open(out))
    b = json.load(open('/opt/vp/BASELINE.json'))
    os.remove(rep)
    os.remove(out)
    return [t for t in b['stable'] if t not in set(o['passed'])]


def demo(folder, copy):
    p = inside(copy, ['bash', os.path.join(folder, 'demo.sh')], timeout=300, env={k: v for k, v in ENV.items() if k != 'PYTHONPATH'})
    return p.returncode, (p.stdout + p.stderr)[-600:]


def not_original(diff):
    """lines the diff takes away that are not in the original (the last commit before the first fix)"""
    root = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--invert-grep', '--grep=^fix:', '-1'], capture_output=True, text=True).stdout.strip()
    mine = {}
    bad, f, n = [], None, 0
    for line in diff.split('\n'):
        if line.startswith('--- a/'):
            f = line[6:].strip()
            if f not in mine:
                mine[f] = set()
                d = subprocess.run(['git', '-C', '/repo', 'diff', '-U0', root, 'HEAD', '--', f], capture_output=True, text=True).stdout
                for h in d.split('\n'):
                    if h.startswith('@@'):
                        at = h.split()[2][1:].split(',')
                        mine[f] |= set(range(int(at[0]), int(at[0]) + (int(at[1]) if len(at) > 1 else 1)))
        elif line.startswith('@@'):
            n = int(line.split()[1].split(',')[0][1:])
        elif line.startswith('+'):
            continue
        elif f and line[:1] in ('-', ' '):
            if line[0] == '-' and n in mine[f]:
                bad.append('%s:%d' % (f, n))
            n += 1
    return bad


def plant(b):
    d = tempfile.mkdtemp(prefix='plant_')
    copy = os.path.join(d, 'repo')
    shutil.copytree('/repo', copy, symlinks=True)
    tmp = os.path.join(d, 'seed')
    os.makedirs(tmp)
    try:
        for f, old, new in b['edits']:
            p = os.path.join(copy, f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                return b, 'REJECTED', 'found %d times: %s' % (s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
        raw = subprocess.run(['git', 'diff'], cwd=copy, capture_output=True).stdout
        diff = raw.decode()
        open(os.path.join(tmp, 'patch.diff'), 'wb').write(raw)
        open(os.path.join(tmp, 'demo.py'), 'w').write(
            'import os\nimport sys\n\nimport py2compat  # noqa\n\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n' + b['demo'].lstrip('\n'))
        open(os.path.join(tmp, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONPATH=/opt/vp/py2compat PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC\n'
                                                      'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(tmp, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(tmp, 'meta.json'), 'w'), indent=1)
        clean = demo(tmp, '/repo')
        dirty = demo(tmp, copy)
        miss = tests(copy)
        foreign = not_original(diff)
        if clean[0] != 0 or dirty[0] == 0 or miss or foreign:
            return b, 'REJECTED', 'clean %s dirty %s missing %s not original %s' % (clean, dirty, miss[:3], foreign)
        dest = os.path.join(HERE, 'seeded', b['id'])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(tmp, dest)
        p = inside(copy, ['./run.sh', b['property'], 'quick'], cwd=HERE, env=dict(os.environ, MC_FIRST='1', MC_OUT=d))
        if p.returncode == 1 and 'VIOLATION property=%s' % b['property'] in p.stdout:
            first = [l for l in p.stdout.splitlines() if l.startswith('   ') and ': ' in l and '/' in l]
            return b, 'CAUGHT', first[0].strip()[:200] if first else ''
        return b, 'MISSED rc=%d' % p.returncode, p.stdout[-300:] + p.stderr[-300:]
    except Exception as e:
        return b, 'REJECTED', repr(e)[-400:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    only = set(os.environ.get('ONLY', '').split(',')) - {''}
    bugs = []
    for path in sys.argv[1:]:
        ns = {}
        ns['__file__'] = os.path.abspath(path)
        exec(open(path).read(), ns)
        bugs += [b for b in ns['BUGS'] if not only or b['id'] in only]
    table = os.path.join(HERE, 'tools/detections.json')
    with multiprocessing.Pool(int(os.environ.get('JOBS', '3'))) as pool:
        for b, what, why in pool.imap_unordered(plant, bugs):
            print(b['id'], b['property'], what, why, flush=True)
            seen = json.load(open(table)) if os.path.exists(table) else {}
            if what == 'REJECTED':
                continue
            seen[b['id']] = [b['property'], what.split()[0].lower(), why.split(':')[0] if what == 'CAUGHT' else '', b['breaks']]
            json.dump(seen, open(table, 'w'), indent=0, sort_keys=True)


if __name__ == '__main__':
    main()
