"""Box adding and removing operators on shifted diagrams."""
import itertools
from mc import ref, refpoly as RP
import operators as O
from dualops import sh_horizontal_strip, sh_vertical_strip
from polynomials import X, Y
from vectors import Vector

ID = 'C20'
RULE = ('every strict partition within the bound and every diagonal; the model explores the graph of shifted diagrams (sets of cells) whose edges add or remove '
        'boxes; composite operators are the ordered products of single steps, on single partitions and on combinations, and are compared with one-variable '
        '(skew) generating functions')
ASSUMPTIONS = ['sizes, diagonals and coefficient alphabets within the stated bounds']

B = X(0)


def shape(cells):
    """strict partition of a set of cells, or None when it is not a shifted diagram"""
    rows = {}
    for i, j in cells:
        rows.setdefault(i, set()).add(j)
    mu = tuple(len(rows.get(i, ())) for i in range(1, max(rows, default=0) + 1))
    if any(mu[k] <= mu[k + 1] for k in range(len(mu) - 1)) or 0 in mu:
        return None
    if set(ref.boxes(mu, (), True)) != set(cells):
        return None
    return mu


CELLS = {}


def cells(mu):
    if mu not in CELLS:
        CELLS[mu] = frozenset(ref.boxes(mu, (), True))
    return CELLS[mu]


def diagonal(mu, d):
    """Last cell of mu on the diagonal, and the first cell outside."""
    i = 1
    while (i, i + d) in cells(mu):
        i += 1
    return (i - 1, i - 1 + d) if i > 1 else None, (i, i + d)


def badd(a, b, s=1):
    return RP.add(a, b, s)


def vadd(v, mu, c):
    v[mu] = RP.add(v.get(mu, {}), c)
    if not v[mu]:
        del v[mu]


beta = {((0, 1),): 1}


def bpow(e, sign=1):
    return {((0, e),) if e else (): sign ** e}


STEP = {}


def step(kind, mu, d):
    """{mu: coefficient} for the single operators"""
    k = (kind, mu, d)
    if k not in STEP:
        last, out = diagonal(mu, d)
        ans = {}
        if kind == 'add':
            if last and shape(cells(mu) - {last}) is not None:
                ans = {mu: beta}
            else:
                nu = shape(cells(mu) | {out})
                ans = {nu: RP.const(1)} if nu is not None else {}
        else:
            cur, c, e = cells(mu), last, 0
            while c in cur:
                nu = shape(cur - {c})
                if nu is None:
                    break
                cur = cur - {c}
                ans[nu] = bpow(e, -1)
                e += 1
                c = (c[0], c[1] - 1) if kind == 'row' else (c[0] - 1, c[1])
        STEP[k] = ans
    return STEP[k]


def apply(kind, v, d):
    ans = {}
    for mu, c in v.items():
        for nu, x in step(kind, mu, d).items():
            vadd(ans, nu, RP.mul(c, x))
    return ans


def product(kind, v, order, var):
    for d in order:
        w = apply(kind, v, d)
        v = dict(v)
        for nu, x in w.items():
            vadd(v, nu, RP.mul(x, var))
    return v


def read(v):
    if isinstance(v, int):
        return {} if v == 0 else {'?': v}
    return {tuple(k): RP.read(c) for k, c in v.items() if RP.read(c)}


def jobs(tier):
    q = tier == 'quick'
    ans = []
    for size in range(20 if q else 26):
        ans.append((size, 'single', (size,)))
    for size in range(10 if q else 12):
        ans.append((size * 8, 'composite', (size,)))
    for size in range(18 if q else 24):
        ans.append((size * 3, 'strips', (size,)))
    ans.append((20, 'combinations', (4 if q else 5,)))
    for size in range(10 if q else 12):
        ans.append((size * 6, 'families', (size,)))
    for part in range(8):
        ans.append((90, 'manyrows', (6 if q else 7, 4, part, 8)))
        ans.append((90, 'manyrows', (6 if q else 8, 3, part, 8)))
    ans.append((50, 'two', (5 if q else 6,)))
    return ans


SINGLE = {'add': O.operator_shifted_add, 'row': O.operator_shifted_row_remove, 'col': O.operator_shifted_column_remove}


def single(ctx, size):
    for mu in ref.strict_partitions_of(size):
        for kind, f in SINGLE.items():
            for d in range(size + 3):
                ctx.case = (kind, mu, d)
                want = step(kind, mu, d)
                for x in (d, -d) if d else (0,):
                    ctx.equal('%s %s %d' % (kind, mu, x), read(f(x)(mu)), want)
                    ctx.equal('%s vector %s %d' % (kind, mu, x), read(f(x)(Vector({mu: 1}))), want)
                    ctx.fam(kind, states=1, transitions=len(want), traces=2)
                ctx.outcome((kind, mu, d, sorted(want)))
    ctx.sample('operators on the strict partitions of %d' % size)


COMPOSITE = {
    'AL': ('add', O.operator_AL, lambda n: range(n + 1), ((1, 1),)),
    'AR': ('add', O.operator_AR, lambda n: range(n, -1, -1), ((1, 1),)),
    'R': ('row', O.operator_R, lambda n: range(n + 1), None),
    'C': ('col', O.operator_C, lambda n: range(n, 0, -1), None),
}


def default(name):
    return RP.read(Y()) if name[0] == 'A' else RP.read(X())


def composite(ctx, size):
    compositeof(ctx, ref.strict_partitions_of(size))


def staircases(top, rows, part, parts):
    """strict partitions with many rows"""
    return [mu for mu in sorted(ref.subparts(tuple(range(top, 0, -1)), True)) if len(mu) >= rows][part::parts]


def manyrows(ctx, top, rows, part, parts):
    compositeof(ctx, staircases(top, rows, part, parts))
    familiesof(ctx, staircases(top, rows, part, parts))


def compositeof(ctx, mus):
    for mu in mus:
        for name, (kind, f, order, _) in COMPOSITE.items():
            for n in range((mu[0] if mu else 0) + 3):
                ctx.case = (name, mu, n)
                want = product(kind, {mu: RP.const(1)}, order(n), default(name))
                ctx.equal('%s(%d) %s' % (name, n, mu), read(f(n)(mu)), want)
                want = product(kind, {mu: RP.const(1)}, order(n), {((3, 1),): 2})
                ctx.equal('%s(%d, 2*x3) %s' % (name, n, mu), read(f(n, 2 * X(3))(mu)), want)
                ctx.equal('%s(%d, var=2*x3) %s' % (name, n, mu), read(f(n, var=2 * X(3))(mu)), want)
                ctx.fam(name, states=len(want), transitions=n + 1, traces=3)
                ctx.outcome((name, mu, n, sorted(want)))


def combinations(ctx, size):
    index = ref.partitions_upto(size, strict=True)
    coeffs = [1, -2, B, 1 - B]
    for pair in itertools.combinations(index, 2):
        for cs in itertools.product(coeffs, repeat=2):
            v = Vector(dict(zip(pair, cs)))
            m = {mu: RP.read(c) for mu, c in zip(pair, cs)}
            before = read(v)
            for kind, f in SINGLE.items():
                for d in range(size + 2):
                    ctx.case = (kind, pair, cs, d)
                    op = f(d)
                    want = apply(kind, m, d)
                    ctx.equal(str(ctx.case), read(op(v)), want)
                    ctx.equal(str(ctx.case) + ' twice', read(op(op(v))), apply(kind, want, d))
                    ctx.fam('combinations', states=1, transitions=2, traces=2)
            for name, (kind, f, order, _) in COMPOSITE.items():
                n = size
                ctx.case = (name, pair, cs)
                ctx.equal(str(ctx.case), read(f(n)(v)), product(kind, m, order(n), default(name)))
                ctx.fam('combinations', states=1, transitions=n, traces=1)
            ctx.equal('argument %s %s' % (pair, cs), read(v), before, 'the argument was modified')
    for kind, f in SINGLE.items():
        ctx.equal('%s zero' % kind, read(f(1)(Vector())), {})
        ctx.equal('%s zero of a result' % kind, read(f(0)(f(9)(()))), {})
    for name, (kind, f, _, _) in COMPOSITE.items():
        ctx.equal('%s zero' % name, read(f(2)(Vector())), {})


def families(ctx, size):
    """AL AR gives GQ(mu//nu) in one variable (skew by nu with corners), R C gives gp(mu/nu)."""
    familiesof(ctx, ref.strict_partitions_of(size))


def familiesof(ctx, mus):
    for mu in mus:
        size = sum(mu)
        n = (mu[0] if mu else 0) + 2
        y, x = default('AL'), default('R')
        up = O.operator_AL(n)(O.operator_AR(n)(mu))
        down = O.operator_R(n)(O.operator_C(n)(mu))
        yk, = next(iter(y))
        xk, = next(iter(x))
        ctx.case = mu
        # removal
        for nu in ref.subparts(mu, True):
            gf = ref.generating_function(ref.boxes(mu, nu, True), 1, True, rpp=True, diag=lambda a: a < 0)
            k = sum(mu) - sum(nu)
            want = RP.clean({tuple(sorted(((xk[0], d),) * (d > 0) + ((0, k - d),) * (k > d))): v * (-1) ** (k - d) for (d,), v in gf.items()})
            ctx.equal('R C %s -> %s' % (mu, nu), RP.read(down[nu]), want)
            ctx.fam('gp', states=1, transitions=1, traces=1)
        # addition, up to n columns
        seen = set(up.keys())
        supers = [lam for s in range(size, size + 5) for lam in ref.strict_partitions_of(s) if ref.contains(lam, mu) and (lam[0] if lam else 0) <= n]
        corners = [i for i in range(len(mu)) if mu[i] - 1 > ref.get(mu, i + 1) or (mu[i] == 1 and i == len(mu) - 1)]
        for lam in supers:
            want = {}
            for r in range(len(corners) + 1):
                for s in itertools.combinations(corners, r):
                    inner = ref.trim(tuple(a - (i in s) for i, a in enumerate(mu)))
                    for (d,), v in ref.generating_function(ref.boxes(lam, inner, True), 1, True, True).items():
                        e = d - (sum(lam) - sum(mu))
                        k = tuple(sorted(((yk[0], d),) * (d > 0) + ((0, e),) * (e != 0)))
                        want = RP.add(want, {k: v})
            ctx.equal('AL AR %s -> %s' % (mu, lam), RP.read(up[lam]), want)
            ctx.fam('GQ', states=1, transitions=1, traces=1)
        for lam in seen:
            if not ref.contains(lam, mu):
                ctx.violate('A %s' % (mu,), 'a box disappeared', implementation=lam)


def two(ctx, size):
    """Two different operators after each other, all pairs of diagonals."""
    for mu in ref.partitions_upto(size, strict=True):
        for (k1, f1), (k2, f2) in itertools.product(SINGLE.items(), repeat=2):
            for a, b in itertools.product(range(size + 1), repeat=2):
                ctx.case = (mu, k1, a, k2, b)
                want = apply(k2, step(k1, mu, a), b)
                ctx.equal(str(ctx.case), read(f2(b)(f1(a)(mu))), want)
                ctx.fam('pairs', states=1, transitions=2, traces=1)


def strips(ctx, size):
    for mu in ref.strict_partitions_of(size):
        for a in range(size + 3):
            for b in range(a, a + 6):
                ctx.case = (mu, a, b)
                want = {'h': set(), 'v': set()}
                for start in range(1, len(mu) + 3):
                    h = {(start, start + d) for d in range(a, b + 1)}
                    v = {(start - (d - a), start + a) for d in range(a, b + 1)}
                    for k, s in (('h', h), ('v', v)):
                        if not s & cells(mu):
                            nu = shape(cells(mu) | s) if min(i for i, _ in s) >= 1 else None
                            if nu is not None:
                                want[k].add(nu)
                for k, f in (('h', sh_horizontal_strip), ('v', sh_vertical_strip)):
                    assert len(want[k]) <= 1
                    w = next(iter(want[k]), None)
                    ctx.equal('%s strip %d %d %s' % (k, a, b, mu), f(a, b)(mu), w)
                    ctx.fam('strips', states=1, transitions=len(want[k]), traces=1)
                ctx.equal('strip None', (sh_horizontal_strip(a, b)(None), sh_vertical_strip(a, b)(None)), (None, None))


def run(ctx, name, args):
    globals()[name](ctx, *args)
