"""Try planted bugs:  seedtest.py ID...   (each: apply in a scratch copy, run tests, demo, and the check of its property)

seedtest.py --new ID PROP FILE <<< python-code-editing-text   is done by hand; see seeded/.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    e.pop('PYTHONPATH', None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def one(sid, checks=None, tests=True):
    d = os.path.join(HERE, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    w = '/tmp/w/seed-%s' % sid
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    out = [sid, meta['property']]
    try:
        rc, o = sh('bash %s/demo.sh' % d, cwd=w)
        out.append('demo-clean=%d' % rc + ('' if rc == 0 else '!! ' + o[-300:]))
        rc, o = sh('git apply %s/patch.diff' % d, cwd=w)
        if rc:
            out.append('PATCH DOES NOT APPLY ' + o)
            return out
        rc, o = sh('bash %s/demo.sh' % d, cwd=w)
        out.append('demo-bug=%d%s' % (rc, '' if rc else '!!'))
        if tests:
            rc, o = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --no-cov -n0 2>/dev/null || '
                       '/opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov', cwd=w)
            out.append('tests:' + o.strip().split('\n')[-1])
        for c in checks or [meta['property']]:
            rc, o = sh('%s/bin/check %s' % (HERE, c), cwd=HERE, env={'VERIF_REPO': w, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            out.append('%s=%s' % (c, {0: 'MISSED', 1: 'caught'}.get(rc, 'ERROR %d %s' % (rc, o[-500:]))))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return out


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    ids = [a for a in args if not a.startswith('C')] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    checks = [a for a in args if a.startswith('C')]
    notests = '--notests' in sys.argv
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda s: one(s, checks or None, not notests), ids):
            print(' '.join(r), flush=True)
