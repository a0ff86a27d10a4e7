"""Mutation survey of the library (development only; nothing registered depends on it).

usage: mutate.py COVDIR OUT.jsonl [--workers K] [--files a.py,b.py] [--part I/N] [--tests]
COVDIR/<check>/*.json are the line sets written with MC_COVER=COVDIR/<check>.  Each mutant of a covered line is run against the
(at most) four most specific checks that execute the line; OUT gets one line per mutant: killed by which check, or survived."""
import ast, glob, json, os, shutil, subprocess, sys, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = {'scrap.py'}


def coverage(d):
    cov = {}
    for c in os.listdir(d):
        got = set()
        for f in glob.glob('%s/%s/*.json' % (d, c)):
            got |= {tuple(x) for x in json.load(open(f))}
        cov[c] = got
    return cov


def mutants(src):
    """(line, description, start offset, end offset, replacement)"""
    tree = ast.parse(src)
    starts = [0]
    for l in src.splitlines(True):
        starts.append(starts[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def put(n, new, what):
        s, e = span(n)
        out.append((n.lineno, what, s, e, new))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(n.value)
        if isinstance(n, (ast.Assert,)):
            for m in ast.walk(n):
                doc.add(m)
        if isinstance(n, ast.FunctionDef) and (n.name.startswith('print') or n.name.startswith('test')):
            for m in ast.walk(n):
                doc.add(m)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print':
            for m in ast.walk(n):
                doc.add(m)
    SW = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['<=', '>='], ast.NotEq: ['<', '>'], ast.In: ['not in'], ast.NotIn: ['in']}
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            if isinstance(n.comparators[0], ast.Constant) and isinstance(n.comparators[0].value, (str, type(None))):
                continue
            l, r = text(n.left), text(n.comparators[0])
            for o in SW.get(type(n.ops[0]), []):
                put(n, '(%s %s %s)' % (l, o, r), 'cmp ' + o)
        elif isinstance(n, ast.Compare):
            items = [n.left] + n.comparators
            for k, op in enumerate(n.ops):
                for o in SW.get(type(op), []):
                    t = text(items[0])
                    for q, op2 in enumerate(n.ops):
                        sym = o if q == k else b[span(items[q])[1]:span(items[q + 1])[0]].decode().strip('() \n')
                        t += ' %s %s' % (sym, text(items[q + 1]))
                    put(n, '(%s)' % t, 'chain ' + o)
        elif isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                rest = [text(v) for i, v in enumerate(n.values) if i != k]
                put(n, '(%s)' % ((' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % r for r in rest)), 'drop operand %d' % k)
        elif isinstance(n, ast.Constant) and type(n.value) is int and abs(n.value) < 10:
            put(n, str(n.value + 1), 'const+1')
            if n.value > 0:
                put(n, str(n.value - 1), 'const-1')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            l, r = text(n.left), text(n.right)
            put(n, '(%s %s %s)' % (l, '-' if isinstance(n.op, ast.Add) else '+', r), 'plus/minus')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            put(n, '(%s)' % text(n.operand), 'drop unary')
        elif isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, '(False)', 'if False')
            put(n.test, '(True)', 'if True')
        elif isinstance(n, ast.While):
            pass
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, 'pass', 'no ' + type(n).__name__)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('dict', 'list', 'set', 'tuple', 'sorted', 'abs', 'reversed', 'max', 'min') and len(n.args) == 1:
            put(n, '(%s)' % text(n.args[0]), 'drop ' + n.func.id)
            if n.func.id in ('max', 'min'):
                put(n.func, 'min' if n.func.id == 'max' else 'max', 'max/min')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('max', 'min'):
            put(n.func, 'min' if n.func.id == 'max' else 'max', 'max/min')
        elif isinstance(n, ast.AugAssign):
            s, e = span(n)
            t = b[s:e].decode()
            if '+=' in t:
                put(n, t.replace('+=', '-=', 1), 'aug')
                put(n, t.replace('+=', '=', 1), 'aug=')
            elif '-=' in t:
                put(n, t.replace('-=', '+=', 1), 'aug')
        elif isinstance(n, ast.Tuple) and len(n.elts) >= 3 and isinstance(n.ctx, ast.Load):
            for k in range(len(n.elts)):
                put(n, '(' + ', '.join(text(x) for i, x in enumerate(n.elts) if i != k) + ')', 'drop key %d' % k)
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                put(c, '(True)', 'comprehension if')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not (isinstance(n.value.func, ast.Name) and n.value.func.id == 'print'):
            put(n, 'pass', 'drop call')
    seen = set()
    for m in out:
        if m[2:] not in seen:
            seen.add(m[2:])
            new = b[:m[2]] + m[4].encode() + b[m[3]:]
            try:
                compile(new.decode(), 'x', 'exec')
            except Exception:
                continue
            yield m[0], m[1], b[m[2]:m[3]].decode(), m[4], new.decode()


def main():
    args = sys.argv[1:]
    covdir, out = args[:2]
    opt = dict(zip(args[2::2], args[3::2]))
    cov = coverage(covdir)
    times = {c: json.load(open(ROOT + '/evidence/%s.json' % c)).get('wall_s', 20) if os.path.exists(ROOT + '/evidence/%s.json' % c) else 20 for c in cov}
    files = opt['--files'].split(',') if '--files' in opt else [f for f in sorted(os.listdir('/repo')) if f.endswith('.py') and f not in SKIP]
    part, parts = map(int, opt.get('--part', '0/1').split('/'))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['what'], r['old'], r['new']))
    todo = []
    for f in files:
        src = open('/repo/' + f).read()
        for k, (line, what, old, new, text) in enumerate(mutants(src)):
            if k % parts != part or (f, line, what, old, new) in done:
                continue
            checks = sorted([c for c in cov if (f, line) in cov[c]], key=lambda c: len(cov[c]))
            if not checks:
                continue
            todo.append((f, line, what, old, new, text, checks))
    print(len(todo), 'mutants', flush=True)
    q = queue.Queue()
    for t in todo:
        q.put(t)
    lock = threading.Lock()

    def work(w):
        repo = '/tmp/mutwork/%s-%d' % (os.path.basename(out), w)
        shutil.rmtree(repo, ignore_errors=True)
        os.makedirs('/tmp/mutwork', exist_ok=True)
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        while True:
            try:
                f, line, what, old, new, text, checks = q.get_nowait()
            except queue.Empty:
                break
            open(repo + '/' + f, 'w').write(text)
            killed = None
            tried = []
            for c in checks[:4]:
                tried.append(c)
                env = dict(os.environ, VP_REPO=repo, MC_WORKERS=opt.get('--jobs', '4'), MC_JOB_LIMIT='120', MC_MEM_GB='3', PYTHONDONTWRITEBYTECODE='1', MC_EVIDENCE='/tmp/mutwork/ev%d' % w)
                try:
                    r = subprocess.run(['./check', c, 'quick'], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600, stdin=subprocess.DEVNULL)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                if rc:
                    killed = (c, rc)
                    break
            subprocess.run(['git', 'checkout', '-q', '--', f], cwd=repo)
            with lock:
                with open(out, 'a') as h:
                    h.write(json.dumps(dict(file=f, line=line, what=what, old=old[:200], new=new[:200], killed=killed, tried=tried)) + '\n')
        shutil.rmtree(repo, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(int(opt.get('--workers', '2')))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
