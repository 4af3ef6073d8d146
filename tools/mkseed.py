"""Development aid, not used by any check: build /verif/seeded/<id> from seeds.py entries and validate them.

usage: mkseed.py [id ...]   for every entry of tools/seeds.py: apply the change in a scratch copy of /repo, check that the
stable tests pass, that the demonstration passes without and fails with the change, and write seeded/<id>/."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS   # noqa

PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ORIG = '96fdb0f'


def run(cmd, cwd):
    env = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE='1', QT_QPA_PLATFORM='offscreen', MPLBACKEND='Agg')
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=300)


def tests(copy):
    r = run([PY, '-m', 'pytest', 'unit-test', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors',
             '-o', 'junit_family=xunit2', f'--junitxml={copy}/../junit.xml'], copy)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(copy + '/../junit.xml').iter('testcase'):
        if not len(c):
            ok.add(f"{c.get('classname')}::{c.get('name')}")
    return STABLE - ok


def one(s, verbose):
    if True:
        tmp = tempfile.mkdtemp(prefix='seed', dir='/tmp')
        copy = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', os.environ.get('VERIF_REPO', '/repo'), copy], check=True)
        out = os.path.join('/verif/seeded', s['id'])
        os.makedirs(out, exist_ok=True)
        demo = os.path.join(out, 'demo.sh')
        with open(os.path.join(out, 'demo.py'), 'w') as f:
            f.write(s['demo'].strip() + '\n')
        with open(demo, 'w') as f:
            f.write('#!/bin/bash\n# run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" QT_QPA_PLATFORM=offscreen MPLBACKEND=Agg\n'
                    'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(demo, 0o755)
        msgs = []
        r = run(['bash', demo], copy)
        if r.returncode:
            msgs.append('demo fails on the unchanged tree: ' + (r.stderr or r.stdout)[-600:])
        for path, old, new in s['edits']:
            p = os.path.join(copy, path)
            src = open(p).read()
            if src.count(old) != 1:
                msgs.append(f'{path}: {src.count(old)} occurrences of {old!r}')
                continue
            open(p, 'w').write(src.replace(old, new))
        diff = run(['git', 'diff'], copy).stdout
        if not diff:
            msgs.append('empty diff')
        # removed lines must exist in the original
        for path in {e[0] for e in s['edits']}:
            orig = run(['git', 'show', f'{ORIG}:{path}'], copy).stdout.splitlines()
            for line in diff.splitlines():
                if line.startswith('-') and not line.startswith('---') and line[1:] not in orig:
                    msgs.append('not an original line: ' + line)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        broken = tests(copy)
        if broken:
            msgs.append(f'tests broken {broken}')
        r = run(['bash', demo], copy)
        if r.returncode == 0:
            msgs.append('demo passes with the change')
        if verbose:
            print(r.stdout[-300:], r.stderr[-300:])
        shutil.rmtree(tmp)
        print(s['id'], s['property'], 'OK' if not msgs else msgs)
        return bool(msgs)


def main():
    from concurrent.futures import ThreadPoolExecutor
    want = sys.argv[1:]
    todo = [s for s in SEEDS if not want or s['id'] in want or s['property'] in want]
    with ThreadPoolExecutor(4) as pool:
        sys.exit(any(list(pool.map(lambda s: one(s, len(todo) == 1), todo))))


main()
