"""newseed.py: create seeded/<id> from a small description file (python):
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source, exit status via assert)."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(ID, PROP, NEEDS, BREAKS, EDITS, DEMO):
    w = '/tmp/w/ns-%s' % ID
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    for f, old, new in EDITS:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (ID, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True, check=True).stdout
    shutil.rmtree(w)
    d = os.path.join(HERE, 'seeded', ID)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    open(d + '/demo.py', 'w').write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\n' + DEMO.strip() + '\n')
    json.dump({'property': PROP, 'needs': NEEDS, 'what_it_breaks': BREAKS}, open(d + '/meta.json', 'w'), indent=1)


HELP = '''
import io
import httpolice
from httpolice.framing1 import parse_streams
from httpolice.stream import Stream


def analyse(i, o):
    f = lambda b: None if b is None else Stream(io.BufferedReader(io.BytesIO(b)), name=u'x')
    return list(parse_streams(f(i), f(o), u'http'))


def ids(obj):
    return sorted(n.id for n in obj.notices)


def check(req=None, resps=()):
    ex = httpolice.Exchange(req, list(resps))
    httpolice.check_exchange(ex)
    return ex


def Req(method=u'GET', target=u'/', headers=(), body=b'', version=u'HTTP/1.1', scheme=u'http', **kw):
    return httpolice.Request(scheme, method, target, version, list(headers), body, **kw)


def Resp(status=200, headers=(), body=b'', version=u'HTTP/1.1', reason=u'OK', **kw):
    return httpolice.Response(version, status, reason, list(headers), body, **kw)
'''

if __name__ == '__main__':
    ns = {'make': make, 'HELP': HELP}
    exec(open(sys.argv[1]).read(), ns)
