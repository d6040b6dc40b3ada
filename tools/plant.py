"""Confirm planted bugs: python3 tools/plant.py [--notest] ID...

For every seeded/<ID>: demo.sh passes on a plain copy of /repo, fails with
the patch, and the stable tests pass with the patch.  With --check, also runs
the check of the property on the patched copy.  Copies live in /tmp.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, cwd, **env):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, text=True, env={
        **os.environ, **env}, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT)


def one(bug, tests, check):
    d = os.path.join(ROOT, 'seeded', bug)
    tmp = tempfile.mkdtemp(prefix='plant.')
    try:
        c = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', c, symlinks=True)
        dd = os.path.join(tmp, 'demo')
        shutil.copytree(d, dd)
        env = dict(PYTHONPATH=c)
        a = sh(f'bash {dd}/demo.sh', c, **env)
        p = sh(f'git apply {d}/patch.diff', c)
        b = sh(f'bash {dd}/demo.sh', c, **env)
        msg = [f'{bug}: clean={a.returncode} apply={p.returncode} '
               f'patched={b.returncode}']
        if a.returncode or p.returncode or not b.returncode:
            msg.append('BAD ' + a.stdout[-600:] + p.stdout + b.stdout[-300:])
        else:
            msg.append((b.stdout.strip().split('\n') or [''])[-1][:150])
        if tests:
            out = os.path.join(tmp, 'o.json')
            s = open('/opt/vp/test.sh').read().replace('/repo', c)
            s = '\n'.join(q for q in s.split('\n')
                          if 'pip install' not in q)
            t = os.path.join(tmp, 't.sh')
            open(t, 'w').write(s)
            r = sh(f'bash {t} {out}', c, **env)
            try:
                ok = json.load(open(out))['passed']
                miss = [q for q in BASE if q not in ok]
                msg.append(f'tests missing: {miss}' + ('' if not miss else
                                                       ' BADTEST'))
            except Exception as ex:
                msg.append(f'BADTEST {ex} {r.stdout[-500:]}')
        if check:
            pid = json.load(open(f'{d}/meta.json'))['property']
            r = sh(f'python3-vt check.py {pid}', ROOT, VSTAT_REPO=c,
                   VSTAT_JOBS='4')
            hit = r.returncode == 1 and f'VIOLATION property={pid}' in \
                r.stdout
            msg.append(f'check {pid}: ' + ('CAUGHT ' if hit else 'MISSED ')
                       + '\n    '.join(r.stdout.strip().split('\n')[-4:-1]))
        return '\n  '.join(msg)
    finally:
        shutil.rmtree(tmp)


def main():
    a = sys.argv[1:]
    ids = [i for i in a if not i.startswith('-')] or sorted(
        os.listdir(os.path.join(ROOT, 'seeded')))
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda i: one(i, '--notest' not in a,
                                      '--check' in a), ids):
            print(r, flush=True)


if __name__ == '__main__':
    main()
