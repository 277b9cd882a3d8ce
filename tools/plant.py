"""plant.py: write /verif/seeded/<id>/ from the table in tools/seeds.py and
confirm each (applies, builds, stable tests pass, demo 0 clean / nonzero patched).
plant.py write|confirm [id ...]"""
import json
import os
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH=/opt/pykrylov-py3/build/lib
exec timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def write(s):
    d = os.path.join(ROOT, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='plant')
    subprocess.check_call(['git', 'clone', '-q', REPO, tmp])
    for f, a, b in s['edits']:
        p = os.path.join(tmp, f)
        t = open(p, encoding='utf-8', newline='').read()
        assert t.count(a) >= 1, (s['id'], 'not found', a)
        assert t.count(a) == 1, (s['id'], 'ambiguous', a)
        open(p, 'w', encoding='utf-8', newline='').write(t.replace(a, b))
    diff = subprocess.check_output(['git', '-C', tmp, 'diff'])
    subprocess.check_call(['rm', '-rf', tmp])
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write('import sys\nimport numpy as np\n' + s['demo'].lstrip('\n'))
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def sh(*a):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def confirm(s):
    d = os.path.join(ROOT, 'seeded', s['id'])
    out = []
    assert not subprocess.check_output(['git', '-C', REPO, 'status', '--porcelain']), 'repo not clean'
    assert sh('bash', '/opt/vp/build.sh').returncode == 0
    r = sh('bash', d + '/demo.sh')
    out.append('clean %d' % r.returncode)
    if r.returncode:
        out.append(r.stdout.decode()[-300:])
    subprocess.check_call(['git', '-C', REPO, 'apply', d + '/patch.diff'])
    try:
        b = sh('bash', '/opt/vp/build.sh')
        out.append('build %d' % b.returncode)
        r = sh('bash', d + '/demo.sh')
        out.append('patched %d %s' % (r.returncode, r.stdout.decode().strip().split('\n')[-1][:120]))
        sh('bash', '/opt/vp/test.sh', '/tmp/plant_out.json')
        got = json.load(open('/tmp/plant_out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        out.append('tests ' + compare(base, got))
    finally:
        subprocess.check_call(['git', '-C', REPO, 'checkout', '-q', '--', '.'])
    print(s['id'], s['property'], '|', ' | '.join(out), flush=True)


def names(o, acc):
    if isinstance(o, dict):
        for k in ('passed', 'stable', 'tests', 'pass'):
            if k in o and isinstance(o[k], list):
                return [x if isinstance(x, str) else x.get('id') or x.get('name') for x in o[k]]
    return None


def compare(base, got):
    b, g = names(base, []), names(got, [])
    if b is None or g is None:
        return 'keys %s / %s' % (list(base)[:6], list(got)[:6])
    lost = [x for x in b if x not in g]
    return 'ok' if not lost else 'LOST %s' % lost[:3]


if __name__ == '__main__':
    todo = [s for s in seeds.SEEDS if not sys.argv[2:] or s['id'] in sys.argv[2:]]
    for s in todo:
        if sys.argv[1] == 'write':
            write(s)
        else:
            confirm(s)
