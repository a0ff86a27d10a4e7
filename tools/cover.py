"""usage: cover.py DIR   After running checks with MC_COVER=DIR: lists the functions of the library with lines no check executed."""
import ast, glob, json, os, sys
got = set()
for f in glob.glob(sys.argv[1] + '/*.json'):
    got |= {tuple(x) for x in json.load(open(f))}
REPO = os.environ.get('VP_REPO', '/repo')
for f in sorted(glob.glob(REPO + '/*.py')):
    b = os.path.basename(f)
    if b == 'scrap.py':
        continue
    tree = ast.parse(open(f).read())
    top = []

    def walk(node, prefix):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(n, ast.FunctionDef):
                    lines = set()
                    for m in ast.walk(n):
                        if isinstance(m, ast.stmt) and m is not n and not (isinstance(m, ast.Expr) and isinstance(m.value, ast.Constant)):
                            if not isinstance(m, (ast.FunctionDef, ast.ClassDef, ast.Try)):
                                lines.add(m.lineno)
                    miss = sorted(l for l in lines if (b, l) not in got)
                    if miss:
                        print('%-45s %3d of %3d missed  %s' % (b + ':' + prefix + n.name, len(miss), len(lines), 'ALL' if len(miss) == len(lines) else miss[:14]))
                walk(n, prefix + n.name + '.')
    walk(tree, '')
