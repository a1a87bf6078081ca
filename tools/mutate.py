#!/opt/venv/bin/python
"""
mutate.py list              print the mutants of /repo/jsons
mutate.py tests WORK        keep those that pass the existing tests
mutate.py checks WORK FRAC  run a share of the cases of all checks on those

A tool to find gaps in the checks; no check needs it. All work is on copies in
WORK; results are lines of JSON in WORK/tests.jsonl and WORK/checks.jsonl.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
ENV = dict(os.environ, TZ='UTC', LC_ALL='C.UTF-8', PYTHONHASHSEED='0',
           PYTHONNOUSERSITE='1', PYTHONDONTWRITEBYTECODE='1',
           PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
ENV.pop('PYTHONPATH', None)
SWAP = {ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
        ast.In: 'not in', ast.NotIn: 'in', ast.Lt: '<=', ast.LtE: '<',
        ast.Gt: '>=', ast.GtE: '>'}


class Finder(ast.NodeVisitor):
    def __init__(self, source):
        self.source = source
        self.lines = source.encode().split(b'\n')
        self.found = []
        self.tree = ast.parse(source)
        self.docs = set()
        for node in ast.walk(self.tree):
            if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)):
                if ast.get_docstring(node) is not None:
                    self.docs.add(node.body[0])
        self.skip = set()
        for node in ast.walk(self.tree):  # annotations
            for sub in [getattr(node, 'annotation', None),
                        getattr(node, 'returns', None)]:
                if isinstance(sub, ast.AST):
                    self.skip.update(ast.walk(sub))

    def text(self, node):
        return ast.get_source_segment(self.source, node)

    def put(self, node, new, what):
        old = self.text(node)
        if old is None or old == new:
            return
        start = self.offset(node.lineno, node.col_offset)
        stop = self.offset(node.end_lineno, node.end_col_offset)
        data = self.source.encode()
        self.found.append((node.lineno, what, old, new,
                           data[:start] + new.encode() + data[stop:]))

    def offset(self, line, col):
        return sum(len(x) + 1 for x in self.lines[:line - 1]) + col

    def run(self):
        for node in ast.walk(self.tree):
            if node in self.skip:
                continue
            name = 'on_' + type(node).__name__
            if hasattr(self, name):
                getattr(self, name)(node)
            if isinstance(node, ast.stmt) and node not in self.docs:
                self.statement(node)
        return self.found

    def statement(self, node):
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise,
                             ast.Continue, ast.Break, ast.Delete)):
            self.put(node, 'pass', 'remove')
        if isinstance(node, ast.Return) and node.value is not None \
                and not isinstance(node.value, ast.Constant):
            self.put(node.value, 'None', 'return')

    def on_Compare(self, node):
        if len(node.ops) == 1:
            self.put(node, '%s %s %s' % (
                self.text(node.left), SWAP[type(node.ops[0])],
                self.text(node.comparators[0])), 'compare')

    def on_BoolOp(self, node):
        word = ' and ' if isinstance(node.op, ast.And) else ' or '
        other = ' or ' if word == ' and ' else ' and '
        parts = ['(%s)' % self.text(v) for v in node.values]
        self.put(node, '(%s)' % other.join(parts), 'andor')
        for k in range(len(parts)):
            self.put(node, '(%s)' % word.join(parts[:k] + parts[k + 1:]),
                     'drop-operand')

    def on_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            self.put(node, '(%s)' % self.text(node.operand), 'not')

    def on_If(self, node):
        self.put(node.test, 'True', 'if')
        self.put(node.test, 'False', 'if')

    def on_IfExp(self, node):
        self.put(node, '(%s)' % self.text(node.body), 'ifexp')
        self.put(node, '(%s)' % self.text(node.orelse), 'ifexp')

    def on_While(self, node):
        self.put(node.test, 'False', 'while')

    def on_Constant(self, node):
        v = node.value
        if v is True or v is False:
            self.put(node, repr(not v), 'constant')
        elif isinstance(v, (int, float)):
            self.put(node, repr(v + 1), 'constant')
            if v:
                self.put(node, repr(v - 1), 'constant')
        elif isinstance(v, str) and not self.is_doc(node):
            if ' ' not in v and '{' not in v:
                self.put(node, repr(v + 'X' if v else 'X'), 'constant')

    def is_doc(self, node):
        return any(d.value is node for d in self.docs)

    def on_Call(self, node):
        for kw in node.keywords:
            self.cut(node, kw, 'drop-keyword')
        for arg in node.args:
            if isinstance(arg, ast.Starred):
                self.cut(node, arg, 'drop-star')
        if len(node.args) == 1 and not node.keywords:
            self.put(node, '(%s)' % self.text(node.args[0]), 'unwrap')
        if len(node.args) == 2 and not any(
                isinstance(a, ast.Starred) for a in node.args):
            a, b = map(self.text, node.args)
            start = self.text(node.func)
            rest = ''.join(', ' + self.text(k) for k in node.keywords)
            self.put(node, '%s(%s, %s%s)' % (start, b, a, rest), 'swap-args')
        if isinstance(node.func, ast.Attribute) and not node.args \
                and not node.keywords:
            self.put(node, '(%s)' % self.text(node.func.value), 'unmethod')
        if len(node.args) > 1 and not isinstance(node.args[-1], ast.Starred):
            parts = [self.text(a) for a in node.args[:-1]] + \
                [self.text(k) for k in node.keywords]
            self.put(node, '%s(%s)' % (self.text(node.func),
                                       ', '.join(parts)), 'drop-arg')

    def cut(self, node, part, what):
        parts = [a for a in node.args if a is not part] + \
            [k for k in node.keywords if k is not part]
        self.put(node, '%s(%s)' % (self.text(node.func), ', '.join(
            self.text(p) for p in parts)), what)

    def on_Dict(self, node):
        for k in range(len(node.keys)):
            parts = ['%s: %s' % (self.text(a), self.text(b)) if a else
                     '**' + self.text(b)
                     for n, (a, b) in enumerate(zip(node.keys, node.values))
                     if n != k]
            self.put(node, '{%s}' % ', '.join(parts), 'drop-entry')

    def on_Tuple(self, node):
        if not isinstance(node.ctx, ast.Load) or len(node.elts) < 2:
            return
        for k in range(len(node.elts)):
            parts = [self.text(e) for n, e in enumerate(node.elts) if n != k]
            self.put(node, '(%s,)' % ', '.join(parts), 'drop-elem')

    def on_List(self, node):
        if isinstance(node.ctx, ast.Load):
            for k in range(len(node.elts)):
                parts = [self.text(e) for n, e in enumerate(node.elts)
                         if n != k]
                self.put(node, '[%s]' % ', '.join(parts), 'drop-elem')

    def comp(self, node):
        for gen in node.generators:
            for test in gen.ifs:
                self.put(test, 'True', 'comp-if')

    on_ListComp = on_SetComp = on_DictComp = on_GeneratorExp = comp

    def on_ExceptHandler(self, node):
        if node.type is None:
            return
        if isinstance(node.type, ast.Name):
            for name in ('RuntimeError', 'ValueError', 'BaseException'):
                self.put(node.type, name, 'except')

    def on_BinOp(self, node):
        if isinstance(node.op, ast.Add):
            self.put(node, '(%s)' % self.text(node.left), 'drop-term')
            self.put(node, '(%s)' % self.text(node.right), 'drop-term')
            if not isinstance(node.left, ast.Constant) or not isinstance(
                    node.left.value, str):
                self.put(node, '(%s - %s)' % (self.text(node.left),
                                              self.text(node.right)), 'minus')
        elif isinstance(node.op, ast.Sub):
            self.put(node, '(%s + %s)' % (self.text(node.left),
                                          self.text(node.right)), 'plus')

    def on_Subscript(self, node):
        if isinstance(node.slice, ast.Slice) and isinstance(node.ctx,
                                                            ast.Load):
            self.put(node, '(%s)' % self.text(node.value), 'unslice')

    def on_FunctionDef(self, node):
        for deco in node.decorator_list:
            if isinstance(deco, ast.Name) and deco.id == 'cached':
                self.put(deco, 'staticmethod', 'uncache')

    def on_For(self, node):
        self.put(node.iter, 'list(%s)[1:]' % self.text(node.iter), 'for')
        self.put(node.iter, 'list(%s)[:-1]' % self.text(node.iter), 'for')
        self.put(node.iter, 'list(%s)[::-1]' % self.text(node.iter), 'for')


def mutants():
    res = []
    base = os.path.join(REPO, 'jsons')
    for folder, _, names in sorted(os.walk(base)):
        for name in sorted(names):
            if not name.endswith('.py') or name == '__init__.py' \
                    and folder == base:
                continue
            path = os.path.join(folder, name)
            with open(path) as f:
                source = f.read()
            rel = os.path.relpath(path, REPO)
            seen = set()
            for line, what, old, new, data in Finder(source).run():
                try:
                    compile(data, path, 'exec')
                except (SyntaxError, ValueError):
                    continue
                if data in seen:
                    continue
                seen.add(data)
                res.append({'file': rel, 'line': line, 'what': what,
                            'old': old, 'new': new, 'data': data.decode()})
    for n, m in enumerate(res):
        m['id'] = '%s:%d:%s:%s' % (m['file'], m['line'], m['what'],
                                   '%s -> %s' % (m['old'], m['new']))
    return res


def load(path):
    try:
        with open(path) as f:
            return [json.loads(line) for line in f]
    except FileNotFoundError:
        return []


def pool(work, todo, job, out, n=8):
    lock = threading.Lock()
    done = {r['id'] for r in load(out)}
    todo = [m for m in todo if m['id'] not in done]
    print(len(todo), 'to do', flush=True)
    queue = iter(todo)

    def run(k):
        copy = os.path.join(work, 'w%d' % k)
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree(REPO, copy, ignore=shutil.ignore_patterns('.git'))
        while True:
            with lock:
                m = next(queue, None)
            if m is None:
                break
            path = os.path.join(copy, m['file'])
            with open(path, 'w') as f:
                f.write(m['data'])
            try:
                res = job(m, copy)
            finally:
                shutil.copy(os.path.join(REPO, m['file']), path)
            with lock, open(out, 'a') as f:
                f.write(json.dumps(dict(res, id=m['id'])) + '\n')
        shutil.rmtree(copy, ignore_errors=True)

    threads = [threading.Thread(target=run, args=(k,)) for k in range(n)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()


def run_tests(m, copy):
    try:
        got = subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
             'no:cacheprovider', '-p', 'pytest_timeout', '--timeout=20',
             '--ignore=tests/test_performance.py', 'tests'], cwd=copy,
            env=ENV, capture_output=True, text=True, timeout=90)
        return {'ok': got.returncode == 0}
    except subprocess.TimeoutExpired:
        return {'ok': False}


ORDER = []


def pids():
    return sorted('C%02d' % n for n in range(1, 60) if os.path.exists(
        os.path.join(ROOT, 'harness/props/c%02d.py' % n)))


def order(work):
    """Which checks reach which lines, quick checks first."""
    path = os.path.join(work, 'order.json')
    if not os.path.exists(path):
        res = []
        for pid in pids():
            code = SNIPPET.replace('# start', 'c = core.LineCoverage(); '
                                   'c.start()').replace(
                '# stop', "import json; os.write(out, json.dumps(c.stop())"
                ".encode())") % {'root': ROOT, 'pid': pid, 'frac': .1}
            start = time.monotonic()
            got = subprocess.run(['/opt/venv/bin/python', '-c', code],
                                 env=dict(ENV, VERIF_REPO=REPO),
                                 capture_output=True, text=True)
            res.append((pid, time.monotonic() - start,
                        json.loads(got.stdout)))
            print(pid, res[-1][1], flush=True)
        with open(path, 'w') as f:
            json.dump(res, f)
    with open(path) as f:
        ORDER.extend(sorted(json.load(f), key=lambda r: r[1]))


def run_checks(m, copy, frac):
    name = os.path.relpath(m['file'], 'jsons')
    reach = [pid for pid, _, lines in ORDER
             if m['line'] in lines.get(name, ())]
    for pid in reach:
        spec = {'root': ROOT, 'pid': pid, 'frac': frac}
        code = SNIPPET % spec
        try:
            got = subprocess.run(
                ['/opt/venv/bin/python', '-c', code], cwd=copy,
                env=dict(ENV, VERIF_REPO=copy), capture_output=True,
                text=True, timeout=240)
            fine, text = got.returncode == 0, got.stdout + got.stderr[-300:]
        except subprocess.TimeoutExpired:
            fine, text = False, 'timeout'
        if not fine:
            return {'by': pid, 'text': text[:300]}
    return {'by': None, 'reach': len(reach)}


SNIPPET = '''
import os, sys, warnings, importlib
sys.path.insert(0, %(root)r)
out = os.dup(1)
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)
from harness import core
core.import_jsons()
m = importlib.import_module('harness.props.' + %(pid)r.lower())
ctx = core.Ctx(%(pid)r, 1, 'quick')
warnings.simplefilter('ignore')
# start
n = max(30, int(m.QUICK_N * %(frac)r))
code = 0
import time
start = time.monotonic()
for i in range(n):
    if %(frac)r < .1 and time.monotonic() - start > 2.5:
        break
    v = core.run_case(m, ctx, i)
    if i %% 200 == 199:
        core.forget_generated_classes()
    if v:
        os.write(out, ('%%s %%s' %% (v['kind'], v['msg'])).encode()[:300])
        code = 1
        break
else:
    # Rates that are never reached are no violations; these of nothing are.
    none = [k for k in m.NEED if not ctx.counters[k]]
    if none and %(frac)r >= 1:
        os.write(out, ('never: %%s' %% none).encode())
        code = 1
# stop
os._exit(code)
'''


def main(argv):
    if argv[0] == 'list':
        for m in mutants():
            print(m['id'].replace('\n', ' '))
        return
    work = argv[1]
    os.makedirs(work, exist_ok=True)
    tests = os.path.join(work, 'tests.jsonl')
    if argv[0] == 'tests':
        pool(work, mutants(), run_tests, tests)
        got = load(tests)
        print(len(got), 'mutants,', sum(r['ok'] for r in got), 'pass')
    else:
        frac = float(argv[2])
        order(work)
        ok = {r['id'] for r in load(tests) if r['ok']}
        out = os.path.join(work, 'checks-%s.jsonl' % argv[2])
        if len(argv) > 3:  # only those that a former run did not find
            ok &= {r['id'] for r in load(os.path.join(
                work, 'checks-%s.jsonl' % argv[3])) if not r['by']}
        pool(work, [m for m in mutants() if m['id'] in ok],
             lambda m, copy: run_checks(m, copy, frac), out)
        got = load(out)
        print(len(got), 'run,', sum(not r['by'] for r in got), 'not found')


if __name__ == '__main__':
    main(sys.argv[1:])
