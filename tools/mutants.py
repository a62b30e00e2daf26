"""Small random changes to the code, to find what the checks do not see (a tool for
development; no check uses it).

  mutants.py gen OUT.jsonl [SEED] [N]      list changes
  mutants.py tests IN.jsonl OUT.jsonl      keep those that the repository's tests do not notice
  mutants.py prime                         run every check once, remembering what TLC answers
  mutants.py checks IN.jsonl OUT.jsonl     run the checks on them
"""
import ast
import csv
import io
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ('__main__.py', 'citation.py', 'stdlib.py', '__metadata__.py', 'ordered_enum.py')
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.starts = [0]
        for line in src.encode().split(b'\n'):
            self.starts.append(self.starts[-1] + len(line) + 1)
        self.out = []

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.src.encode()[a:b].decode()

    def put(self, n, new, what):
        a, b = self.span(n)
        self.out.append((a, b, new, what, n.lineno))

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            self.put(n, '(%s %s %s)' % (self.text(n.left), CMP[type(n.ops[0])], self.text(n.comparators[0])), 'compare')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for k in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != k]
            op = ' and ' if isinstance(n.op, ast.And) else ' or '
            self.put(n, '(%s)' % op.join('(%s)' % self.text(v) for v in rest), 'drop operand')
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.put(n, '(%s)' % op.join('(%s)' % self.text(v) for v in n.values), 'and/or')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put(n, '(%s)' % self.text(n.operand), 'drop not')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.BitOr):
            self.put(n, '(%s)' % self.text(n.left), 'drop alternative')
            self.put(n, '(%s)' % self.text(n.right), 'drop alternative')
        if isinstance(n.op, (ast.Add, ast.Sub)):
            self.put(n, '(%s %s %s)' % (self.text(n.left), '-' if isinstance(n.op, ast.Add) else '+', self.text(n.right)), 'plus/minus')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.put(n, str(not n.value), 'bool')
        elif isinstance(n.value, int) and not isinstance(n.value, bool):
            self.put(n, str(n.value + 1), 'int')
            if n.value > 0:
                self.put(n, str(n.value - 1), 'int')
        elif isinstance(n.value, str) and 0 < len(n.value) < 25 and '\n' not in n.value:
            t = self.text(n)
            if t[-1] in '\'"':
                self.put(n, t[:-1] + 'x' + t[-1] if not t.endswith('\\' + t[-1]) else t, 'string')

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.put(n, 'pass', 'drop statement')
        self.generic_visit(n)

    def visit_Break(self, n):
        self.put(n, 'pass', 'drop break')

    def visit_Continue(self, n):
        self.put(n, 'pass', 'drop continue')

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.put(n, 'pass', 'drop assignment')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.put(n, 'pass', 'drop assignment')
        self.generic_visit(n)

    def visit_If(self, n):
        self.put(n.test, 'True', 'if True')
        self.put(n.test, 'False', 'if False')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, '(%s)' % self.text(n.body), 'one branch')
        self.put(n, '(%s)' % self.text(n.orelse), 'one branch')
        self.generic_visit(n)

    def elements(self, n):
        if len(n.elts) > 1:
            o, c = {ast.List: '[]', ast.Set: '{}', ast.Tuple: ('(', ')')}[type(n)]
            for k in range(len(n.elts)):
                rest = [self.text(v) for j, v in enumerate(n.elts) if j != k]
                self.put(n, o + ', '.join(rest) + (',' if len(rest) == 1 else '') + c, 'drop element')
        self.generic_visit(n)
    visit_List = visit_Set = elements

    def visit_Tuple(self, n):
        if isinstance(n.ctx, ast.Load) and self.text(n).startswith('('):
            self.elements(n)
        else:
            self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.put(n, 'return None', 'return None')
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ('lower', 'strip', 'rstrip', 'lstrip', 'upper') and not n.args:
            self.put(n, self.text(f.value), 'drop call')
        self.generic_visit(n)


def gen(base):
    out = []
    for top, _, names in os.walk(os.path.join(base, 'httpolice')):
        for name in sorted(names):
            path = os.path.join(top, name)
            rel = os.path.relpath(path, base)
            if name.endswith('.py') and name not in SKIP:
                src = open(path, encoding='utf-8').read()
                f = Finder(src)
                f.visit(ast.parse(src))
                for a, b, new, what, line in f.out:
                    data = src.encode()
                    new_src = data[:a] + new.encode() + data[b:]
                    if new_src == data:
                        continue
                    try:
                        compile(new_src, path, 'exec')
                    except SyntaxError:
                        continue
                    out.append({'file': rel, 'a': a, 'b': b, 'new': new, 'what': what, 'line': line, 'old': data[a:b].decode()[:200]})
            elif name.endswith('.csv'):
                data = open(path, 'rb').read().decode()
                rows = list(csv.reader(io.StringIO(data)))
                lines = data.split('\n')
                pos = 0
                for k, line in enumerate(lines):
                    start = pos
                    pos += len(line) + 1
                    if k == 0 or not line.strip():
                        continue
                    for word, other in (('True', 'False'), ('False', 'True')):
                        j = -1
                        while True:
                            j = line.find(word, j + 1)
                            if j < 0:
                                break
                            a = len(data[:start + j].encode())
                            out.append({'file': rel, 'a': a, 'b': a + len(word), 'new': other, 'what': 'csv ' + line.split(',')[0] + '/' + line.split(',')[min(1, len(line.split(',')) - 1)], 'line': k + 1, 'old': word})
    return out


def apply(m, d):
    p = os.path.join(d, m['file'])
    data = open(p, 'rb').read()
    with open(p, 'wb') as f:
        f.write(data[:m['a']] + m['new'].encode() + data[m['b']:])
    return data


def copies(n, tag):
    r = []
    for k in range(n):
        w = '/tmp/w/mut/%s%d' % (tag, k)
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('.git', 'doc'))
        r.append(w)
    return r


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', LC_ALL='C.UTF-8')
ENV.pop('PYTHONPATH', None)


def passes(m, w):
    old = apply(m, w)
    try:
        p = subprocess.run('/opt/venv/bin/python -W ignore -c "import httpolice" && /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --no-cov -n0 --timeout=60', shell=True, cwd=w, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
        return p.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        with open(os.path.join(w, m['file']), 'wb') as f:
            f.write(old)


#: which checks to try, in this order
WHICH = {
    'httpolice/framing1.py': ['C05', 'C01', 'C04', 'C06', 'C02', 'C03', 'C39', 'C40'], 'httpolice/stream.py': ['C05', 'C01', 'C06', 'C02', 'C39', 'C12'], 'httpolice/codings.py': ['C05', 'C30'],
    'httpolice/inputs/streams.py': ['C15', 'C14', 'C04', 'C35'], 'httpolice/inputs/har.py': ['C16', 'C35'], 'httpolice/inputs/__init__.py': ['C15', 'C35'], 'httpolice/helpers.py': ['C37'],
    'httpolice/cli.py': ['C13'], 'httpolice/blackboard.py': ['C11', 'C41', 'C12', 'C09', 'C31'], 'httpolice/notice.py': ['C41', 'C31', 'C32', 'C38', 'C40', 'C13', 'C11'], 'httpolice/exchange.py': ['C25', 'C28', 'C12', 'C31', 'C21', 'C41'],
    'httpolice/parse.py': ['C08', 'C39', 'C10', 'C09', 'C29'], 'httpolice/header.py': ['C07', 'C29', 'C10', 'C23', 'C24', 'C33', 'C34', 'C20', 'C22'], 'httpolice/message.py': ['C30', 'C25', 'C20', 'C21', 'C23', 'C34', 'C27', 'C33', 'C07', 'C40', 'C36', 'C41'],
    'httpolice/request.py': ['C20', 'C26', 'C27', 'C24', 'C25', 'C22', 'C34', 'C33'], 'httpolice/response.py': ['C21', 'C22', 'C23', 'C24', 'C25', 'C26', 'C27', 'C28', 'C34', 'C33', 'C30'],
    'httpolice/structure.py': ['C07', 'C29', 'C33', 'C10', 'C09', 'C20', 'C21', 'C24', 'C38'], 'httpolice/reports/html.py': ['C38', 'C32', 'C31', 'C36', 'C09'], 'httpolice/reports/text.py': ['C31', 'C32', 'C36'], 'httpolice/reports/common.py': ['C39', 'C38', 'C40', 'C36', 'C31', 'C32'],
    'httpolice/known/__init__.py': ['C29', 'C20', 'C21', 'C23', 'C25', 'C30', 'C32'], 'httpolice/util/text.py': ['C39', 'C32', 'C31', 'C29', 'C33', 'C30', 'C35'], 'httpolice/util/data.py': ['C07', 'C29', 'C20'], 'httpolice/util/uri.py': ['C27'],
    'httpolice/util/moves.py': ['C30']}


def which(f):
    if f in WHICH:
        return WHICH[f]
    if f.startswith('httpolice/syntax/'):
        return ['C10', 'C29', 'C39', 'C23', 'C24', 'C26', 'C33']
    if f.endswith('.csv'):
        return ['C20', 'C21', 'C23', 'C25', 'C29', 'C22', 'C24', 'C07', 'C30', 'C26', 'C10', 'C32']
    return ['C20', 'C21', 'C29', 'C31']


def order(m):
    """Checks to try, those of the notices nearby first."""
    sys.path.insert(0, os.path.join(HERE, 'harness'))
    import re
    import rules
    ids = {pid: rules.rng_ids(t) for pid, t in rules.IDS.items() if pid != 'C28'}
    text = open('/repo/' + m['file'], encoding='utf-8', errors='replace').read()
    near = [int(x) for x in re.findall(r'(?:complain\(|, )(1\d\d\d)\b', text[max(0, m['a'] - 200):m['b'] + 400])]
    first = [pid for pid in sorted(ids) if ids[pid] & set(near)]
    rest = [c for c in which(m['file']) if c not in first]
    return (first + rest)[:max(8, len(first) + 3)]


def checks(m, w, scale):
    old = apply(m, w)
    tried = []
    try:
        for c in order(m):
            try:
                p = subprocess.run([os.path.join(HERE, 'bin', 'check'), c], cwd=HERE, env=dict(ENV, VERIF_REPO=w, VERIF_SEED='1', VERIF_TLC_CACHE='/tmp/w/tlccache', VERIF_TIER='quick', VERIF_SCALE=scale, VERIF_EVIDENCE=w + '-ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 99
            tried.append([c, rc])
            if rc == 1:
                break
    finally:
        with open(os.path.join(w, m['file']), 'wb') as f:
            f.write(old)
    return dict(m, tried=tried, caught=tried[-1][0] if tried and tried[-1][1] == 1 else None)


def run(items, out, jobs, tag, func):
    ws = copies(jobs, tag)
    free = list(ws)
    import threading
    lock = threading.Lock()

    def go(m):
        with lock:
            w = free.pop()
        try:
            r = func(m, w)
        finally:
            with lock:
                free.append(w)
        if r:
            with lock, open(out, 'a') as f:
                f.write(json.dumps(r if isinstance(r, dict) else m) + '\n')
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(go, items))
    for w in ws:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    mode = sys.argv[1]
    if mode == 'prime':
        os.makedirs('/tmp/w/tlccache', exist_ok=True)
        for c in sys.argv[2:] or ['C%02d' % k for k in range(1, 38) if k not in (17, 18, 19, 36)]:
            p = subprocess.run([os.path.join(HERE, 'bin', 'check'), c], cwd=HERE, env=dict(ENV, VERIF_SEED='1', VERIF_TIER='quick', VERIF_SCALE=os.environ.get('VERIF_SCALE', '0.4'), VERIF_TLC_CACHE='/tmp/w/tlccache', VERIF_TLC_CACHE_WRITE='1', VERIF_EVIDENCE='/tmp/w/tlccache/ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print(c, p.returncode, p.stdout.decode()[-100:].strip(), flush=True)
    elif mode == 'gen':
        ms = gen('/repo')
        random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1).shuffle(ms)
        if len(sys.argv) > 4:
            ms = ms[:int(sys.argv[4])]
        with open(sys.argv[2], 'w') as f:
            for m in ms:
                f.write(json.dumps(m) + '\n')
        print(len(ms))
    else:
        ms = [json.loads(line) for line in open(sys.argv[2])]
        key = lambda m: (m['file'], m['a'], m['b'], m['new'])
        seen = set()
        for p in (sys.argv[3], sys.argv[3] + '.seen'):
            if os.path.exists(p):
                seen |= {key(json.loads(line)) for line in open(p)}
        ms = [m for m in ms if key(m) not in seen]
        jobs = int(os.environ.get('JOBS', '6'))
        if mode == 'tests':
            def t(m, w):
                r = passes(m, w)
                with open(sys.argv[3] + '.seen', 'a') as f:
                    f.write(json.dumps(m) + '\n')
                return r
            run(ms, sys.argv[3], jobs, 't', t)
        else:
            run(ms, sys.argv[3], int(os.environ.get('JOBS', '2')), 'c', lambda m, w: checks(m, w, os.environ.get('VERIF_SCALE', '0.4')))
