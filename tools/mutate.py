"""Development aid: mutants of /repo/kajiki that pass the tests, and which checks catch them.

  python3-vt tools/mutate.py gen OUT.jsonl            all mutants that compile and pass the tests
  python3-vt tools/mutate.py run IN.jsonl LOG [k/n]   run the checks on them
Works on copies under /tmp; no check uses this file.
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = ['ddict', 'doctype', 'html_utils', 'i18n', 'ir', 'lnotab', 'loader', 'markup_template', 'template', 'text', 'util', 'xml_template']
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
METH = {'strip': ['lstrip', 'rstrip'], 'lstrip': ['strip'], 'rstrip': ['strip'], 'startswith': ['endswith'], 'endswith': ['startswith'],
        'find': ['rfind'], 'split': ['rsplit'], 'append': ['__contains__'], 'extend': ['__contains__'], 'lower': ['upper'], 'search': ['match'], 'match': ['search'],
        'items': [], 'pop': ['get'], 'setdefault': ['get'], 'update': ['__contains__'], 'splitlines': ['split']}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, z = pos(n)
        return b[a:z].decode()

    out = []

    def rep(n, new, what):
        a, z = pos(n)
        out.append((a, z, new, what, n.lineno))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0])); doc.add(id(n.body[0].value))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, '(%s %s %s)' % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), 'cmp')
        if isinstance(n, ast.BoolOp):
            w = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + w.join('(' + text(v) + ')' for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                vs = n.values[:i] + n.values[i + 1:]
                rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(' + text(v) + ')' for v in vs) + ')', 'drop-operand')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for new in ('(not (%s))' % text(n.test), 'True', 'False'):
                if not (isinstance(n, ast.While) and new == 'True'):
                    rep(n.test, new, 'cond')
        if isinstance(n, ast.comprehension):
            for t in n.ifs:
                rep(t, 'True', 'filter')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(' + text(n.operand) + ')', 'not')
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                rep(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                rep(n, '%d' % (n.value + 1), 'const'); rep(n, '(%d)' % (n.value - 1), 'const')
            elif isinstance(n.value, str) and n.value:
                v = n.value
                if len(v) > 1:
                    rep(n, '(' + repr(v[1:]) + ')', 'str'); rep(n, '(' + repr(v[:-1]) + ')', 'str')
                    m = len(v) // 2
                    rep(n, '(' + repr(v[:m] + v[m + 1:]) + ')', 'str')
                else:
                    rep(n, "''", 'str')
            elif n.value is None:
                rep(n, "''", 'none')
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    args = [text(a) for a in n.args] + [('%s=%s' % (q.arg, text(q.value)) if q.arg else '**' + text(q.value)) for q in n.keywords if q is not k]
                    rep(n, '%s(%s)' % (text(n.func), ', '.join(args)), 'drop-kw')
            if n.args and isinstance(n.func, ast.Name) and n.func.id not in ('isinstance', 'super', 'hasattr', 'len'):
                rep(n, '(' + text(n.args[0]) + ')', 'unwrap')
            if isinstance(n.func, ast.Attribute) and n.func.attr in METH:
                for m in METH[n.func.attr]:
                    args = b[pos(n.func)[1]:pos(n)[1]].decode()
                    rep(n, text(n.func.value) + '.' + m + args, 'meth')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('strip', 'lstrip', 'rstrip', 'lower', 'replace', 'encode', 'format'):
                rep(n, text(n.func.value), 'drop-meth')
        if isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    rep(x, '(%s + 1)' % text(x), 'slice'); rep(x, '(%s - 1)' % text(x), 'slice')
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, (ast.Add, ast.Sub)):
                rep(n, text(n.left), 'drop-right'); rep(n, text(n.right), 'drop-left')
                if isinstance(n.op, ast.Add):
                    rep(n, '(%s) + (%s)' % (text(n.right), text(n.left)), 'swap')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                rep(n, 'if 0: ' + text(n), 'del')
            else:
                rep(n, 'pass', 'del')
        if isinstance(n, ast.Break):
            rep(n, 'continue', 'break')
        if isinstance(n, ast.Continue):
            rep(n, 'break', 'cont')
        if isinstance(n, ast.Return) and n.value is not None:
            rep(n, 'return None', 'ret')
        if isinstance(n, ast.For):
            rep(n.iter, 'list(%s)[1:]' % text(n.iter), 'iter'); rep(n.iter, 'list(%s)[:1]' % text(n.iter), 'iter'); rep(n.iter, 'list(%s)[::-1]' % text(n.iter), 'iter')
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if h.type is not None:
                    rep(h.type, 'ZeroDivisionError', 'except')
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(n.ctx if hasattr(n, 'ctx') else ast.Load(), ast.Load) and len(n.elts) > 1:
            for i in range(len(n.elts)):
                es = [text(e) for j, e in enumerate(n.elts) if j != i]
                br = {'List': '[]', 'Tuple': '()', 'Set': '{}'}[type(n).__name__]
                rep(n, br[0] + ', '.join(es) + (',' if len(es) == 1 and br == '()' else '') + br[1], 'drop-elt')
        if isinstance(n, ast.FunctionDef) and n.decorator_list and n.decorator_list[0] is not None:
            pass
    seen = set()
    for a, z, new, what, line in out:
        m = (b[:a] + new.encode() + b[z:]).decode()
        if m == src or m in seen:
            continue
        seen.add(m)
        try:
            compile(m, 'x', 'exec')
        except (SyntaxError, ValueError):
            continue
        yield dict(what=what, line=line, old=b[a:z].decode(), new=new, start=a, end=z), m


def copy():
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp/mut')
    shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('.git', '__pycache__'))
    return d + '/r'


def tests(repo):
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', 'kajiki/tests'], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 0


def apply(repo, m):
    p = repo + '/kajiki/%s.py' % m['file']
    b = open('/repo/kajiki/%s.py' % m['file'], 'rb').read()
    open(p, 'wb').write(b[:m['start']] + m['new'].encode() + b[m['end']:])


def restore(repo, m):
    shutil.copy('/repo/kajiki/%s.py' % m['file'], repo + '/kajiki/%s.py' % m['file'])


def gen(outp):
    ms = []
    for f in FILES:
        for m, _ in mutants(open('/repo/kajiki/%s.py' % f).read()):
            ms.append(dict(m, file=f))
    print(len(ms), 'mutants')
    import queue
    q = queue.Queue()
    for i in range(4):
        q.put(copy())

    def one(m):
        r = q.get()
        try:
            apply(r, m)
            return m, tests(r)
        finally:
            restore(r, m)
            q.put(r)
    n = 0
    with open(outp, 'w') as o, ThreadPoolExecutor(4) as ex:
        for m, ok in ex.map(one, ms):
            if ok:
                n += 1
                o.write(json.dumps(m) + '\n'); o.flush()
    print(n, 'survive the tests')
    while not q.empty():
        shutil.rmtree(os.path.dirname(q.get()))


ORDER = {
    'loader': ['C13', 'C12', 'C09', 'C21', 'C15'], 'lnotab': ['C15'], 'i18n': ['C17'], 'doctype': ['C18', 'C04', 'C05'], 'html_utils': ['C04', 'C05', 'C03'],
    'text': ['C16', 'C09', 'C08', 'C21', 'C15', 'C11', 'C10'], 'util': ['C19', 'C14', 'C01', 'C20', 'C02'], 'template': ['C19', 'C22', 'C11', 'C02', 'C12', 'C17', 'C21', 'C15'],
    'ir': ['C06', 'C16', 'C20', 'C10', 'C09', 'C17', 'C15', 'C22', 'C11'], 'xml_template': ['C23', 'C09', 'C21', 'C03', 'C02', 'C01', 'C17', 'C08', 'C18', 'C15', 'C05', 'C06', 'C22'],
}


def run(inp, logp, part='0/1'):
    k, n = map(int, part.split('/'))
    ms = [json.loads(l) for l in open(inp)]
    random.Random(1).shuffle(ms)
    done = set()
    if os.path.exists(logp):
        done = {json.dumps(json.loads(l)['m'], sort_keys=True) for l in open(logp)}
    allp = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
    r = copy()
    ev = tempfile.mkdtemp(prefix='ev', dir='/tmp/mut')
    jobs = str(max(1, 8 // n))
    for m in ms[k::n]:
        if json.dumps(m, sort_keys=True) in done:
            continue
        apply(r, m)
        order = ORDER.get(m['file'], [])
        order = order + [p for p in allp if p not in order]
        res, got = None, []
        for p in order:
            env = dict(os.environ, SYMKJ_REPO=r, SYMKJ_EVIDENCE=ev)
            try:
                x = subprocess.run([PY, 'check.py', p, '--jobs', jobs], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                rc = x.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            if rc == 1:
                res = p
                break
            if rc:
                got.append((p, rc))
        restore(r, m)
        with open(logp, 'a') as o:
            o.write(json.dumps(dict(m=m, caught=res, odd=got)) + '\n')
    shutil.rmtree(os.path.dirname(r)); shutil.rmtree(ev)


if __name__ == '__main__':
    {'gen': gen, 'run': run}[sys.argv[1]](*sys.argv[2:])
