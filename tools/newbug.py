"""Create seeded/<id> from a spec: python3 tools/newbug.py SPEC.py

SPEC defines BUGS: list of dicts id, property, edits [(file, old, new)],
needs, breaks, demo (python text).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def main():
    for b in runpy.run_path(sys.argv[1])['BUGS']:
        d = os.path.join(ROOT, 'seeded', b['id'])
        tmp = tempfile.mkdtemp(prefix='newbug.')
        try:
            c = os.path.join(tmp, 'r')
            subprocess.run(['git', 'clone', '-q', '/repo', c], check=True)
            for f, old, new in b['edits']:
                p = os.path.join(c, f)
                s = open(p).read()
                assert s.count(old) == 1, (b['id'], s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.run(['git', 'diff'], cwd=c, check=True,
                                  stdout=subprocess.PIPE, text=True).stdout
        finally:
            shutil.rmtree(tmp)
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.sh', 'w').write(SH)
        open(f'{d}/demo.py', 'w').write(b['demo'].strip() + '\n')
        json.dump(dict(property=b['property'], needs=b['needs'],
                       what_it_breaks=b['breaks']),
                  open(f'{d}/meta.json', 'w'), indent=1)
        print(b['id'])


if __name__ == '__main__':
    main()
