"""Polynomial arithmetic in lock-step with a reference ring over all operation sequences in bounds."""
from mc import refpoly as R
from polynomials import Polynomial, X, Y, HashableDict

ID = 'C05'
RULE = ('breadth-first search over operation sequences: start values are integers, beta, variables of positive and negative index, '
        'the two unnamed variables and inverse variables; a transition applies + - * or the beta-sum to two reached values; in every '
        'reached state all unary operations and parameters of the alphabet are applied; distinct states are reference values')
ASSUMPTIONS = ['operation sequences up to the stated depth over the stated start values']

BIG, SMALL = Polynomial.MAX_INT, Polynomial.MIN_INT


def atoms(group):
    x = Polynomial.x
    a = [
        (Polynomial(), R.const(0)), (Polynomial.one(), R.const(1)), (Polynomial.one() * -2, R.const(-2)),
        (X(0), R.var(0)), (X(1), R.var(1)), (X(2), R.var(2)),
    ]
    extra = {
        'plain': [(X(3), R.var(3)), (Polynomial.zero(), R.const(0)), (3 * X(1), {((1, 1),): 3})],
        'neg': [(Y(-1), R.var(-1)), (Y(-2), R.var(-2)), (Polynomial.y(3), R.var(-3))],
        'big': [(X(), R.var(BIG)), (Y(), R.var(SMALL)), (-X(), {((BIG, 1),): -1})],
        'laurent': [(Polynomial.monomial(1, -1), R.var(1, -1)), (Polynomial.monomial(0, -2), R.var(0, -2)), (-Polynomial.monomial(2, -1), {((2, -1),): -1})],
        'large': [(X(10) * N, {((10, 1),): N}), (x(1) ** 11, {((1, 11),): 1}), (Polynomial.monomial(12, -10), {((12, -10),): 1})],
    }
    return a + extra[group]


GROUPS = ['plain', 'neg', 'big', 'laurent', 'large']
N = 10 ** 25 + 3
OPS = ['+', '-', '*', '^']


def apply(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    return a ^ b


def model(op, a, b):
    if op == '+':
        return R.add(a, b)
    if op == '-':
        return R.add(a, b, -1)
    if op == '*':
        return R.mul(a, b)
    return R.add(R.add(a, b), R.mul(R.var(0), R.mul(a, b)))


CHUNKS = 6


def jobs(tier):
    ans = []
    for g in GROUPS:
        ans.append((5, 'unary', (g, 2)))
        for k in range(CHUNKS):
            ans.append((20, 'level2', (g, k, 150 if tier == 'quick' else 400)))
            ans.append((25, 'level3', (g, k, ((4, 6) if g != 'large' else (4, 5)) if tier == 'quick' else (1, 9) if g != 'large' else (3, 6))))
        for k in range(4):
            ans.append((10, 'deep', (g, k)))
    return ans


class Store:
    """Reached values: reference value -> first implementation object."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.d = {}

    def visit(self, obj, ref, how):
        ctx = self.ctx
        ctx.case = how
        if not isinstance(obj, Polynomial):
            if isinstance(obj, int):
                if R.const(obj) != ref:
                    ctx.violate(how, 'wrong value', implementation=obj, model=ref)
                return False
            ctx.violate(how, 'result is not a polynomial', implementation=obj)
            return False
        got = R.read(obj)
        if got != ref:
            ctx.violate(how, 'wrong value', implementation=got, model=ref)
        k = R.freeze(ref)
        old = self.d.get(k)
        if old is None:
            self.d[k] = (obj, ref, how)
            ctx.fam('values', states=1)
            if len(self.d) <= 3000:
                ctx.outcome(sorted(ref.items()))
            return True
        if hash(old[0]) != hash(obj):
            ctx.violate(how, 'equal polynomials hash differently (other: %s)' % old[2], value=ref)
        if repr(old[0]) != repr(obj) or str(old[0]) != str(obj):
            ctx.violate(how, 'equal polynomials print differently (other: %s)' % old[2], one=repr(old[0]), two=repr(obj))
        if not (old[0] == obj) or (old[0] != obj) or not (obj == old[0]):
            ctx.violate(how, 'equal polynomials compare unequal (other: %s)' % old[2], value=ref)
        return False


def binary(ctx, st, A, B):
    """All operations on two stored values; operands must not change."""
    out = []
    (a, ra, ha), (b, rb, hb) = A, B
    for op in OPS:
        how = '(%s) %s (%s)' % (ha, op, hb)
        ctx.case = how
        rc = model(op, ra, rb)
        c = apply(op, a, b)
        ctx.fam('binary ' + op, transitions=1, traces=1)
        if st.visit(c, rc, how):
            out.append((c, rc, how))
    if R.read(a) != ra or R.read(b) != rb:
        ctx.violate('(%s) , (%s)' % (ha, hb), 'an operation changed its operand', one=R.read(a), two=R.read(b))
    same = ra == rb
    if (a == b) != same or (a != b) == same:
        ctx.violate('(%s) == (%s)' % (ha, hb), 'equality is wrong', implementation=(a == b), model=same)
    return out


def levels(ctx, group, depth):
    st = Store(ctx)
    level = []
    for obj, ref in atoms(group):
        st.visit(obj, ref, repr(obj))
        level.append((obj, ref, repr(obj)))
    base = list(level)
    out = [base]
    for d in range(depth):
        new = []
        for A in level:
            for B in base:
                new += binary(ctx, st, A, B)
                if d:
                    new += binary(ctx, st, B, A)
        out.append(new)
        level = new
    return st, out


VARS = [0, 1, 2, 10, -1, BIG]


def unary(ctx, st, A):
    a, ra, how = A

    def cmp(tag, got, want):
        ctx.case = '%s of %s' % (tag, how)
        ctx.fam('unary', transitions=1, traces=1)
        if want is None or got is None:
            if got is not want:
                ctx.violate(ctx.case, 'wrong value', implementation=got, model=want)
            return
        if R.read(got) != want:
            ctx.violate(ctx.case, 'wrong value', implementation=R.read(got), model=want)
        if isinstance(got, Polynomial):
            st.visit(got, want, ctx.case)

    cmp('negation', -a, {k: -v for k, v in ra.items()})
    for n in range(0, 4) if len(ra) > 3 else (0, 1, 2, 3, 4, 5, 6) if len(ra) > 1 else (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16, 31):
        cmp('power %d' % n, a ** n, R.power(ra, n))
    for n in (1, 2, 3, 4, 11):
        cmp('power -%d' % n, a ** -n, R.inverse_power(ra, n) if ra else None)
    for c in (-3, -1, 0, 1, 2, N):
        cmp('plus %d' % c, a + c, R.add(ra, R.const(c)))
        cmp('%d plus' % c, c + a, R.add(ra, R.const(c)))
        cmp('minus %d' % c, a - c, R.add(ra, R.const(-c)))
        cmp('%d minus' % c, c - a, R.add(R.const(c), ra, -1))
        cmp('times %d' % c, a * c, R.mul(ra, R.const(c)))
        cmp('%d times' % c, c * a, R.mul(ra, R.const(c)))
        if (a == c) != (ra == R.const(c)):
            ctx.violate('%s == %d' % (how, c), 'equality with an integer is wrong')
    for m in (2, 3, 5):
        cmp('mod %d' % m, a % m, R.clean({k: v % m for k, v in ra.items()}))
        cmp('floor %d' % m, a // m, R.clean({k: v // m for k, v in ra.items()}))
        cmp('exact %d' % m, (a * m) / m, ra)
    cmp('floor -2', a // -2, R.clean({k: v // -2 for k, v in ra.items()}))
    degs = [R.degree(k) for k in ra]
    want = max(degs) if degs else None
    got = a.total_degree()
    if got != want:
        ctx.violate('degree of %s' % how, 'wrong degree', implementation=got, model=want)
    for d in range(min(degs or [0]) - 1, max(degs or [0]) + 1):
        cmp('truncate %d' % d, a.truncate(d), {k: v for k, v in ra.items() if R.degree(k) <= d})
    for i in VARS:
        for p in range(-2, 4):
            want = {}
            for k, v in ra.items():
                d = dict(k)
                if d.get(i, 0) == p:
                    d.pop(i, None)
                    want[tuple(sorted(d.items()))] = v
            cmp('coefficient %s^%d' % (i, p), a.coefficient(i, p), want)
    for i in VARS:
        es = [dict(k).get(i, 0) for k in ra]
        if any(e < 0 for e in es):
            continue
        for e, re in SUBS:
            want = {}
            for k, v in ra.items():
                d = dict(k)
                n = d.pop(i, 0)
                want = R.add(want, R.mul({tuple(sorted(d.items())): v}, R.power(re, n)))
            cmp('substitute %s' % i, a.substitute(i, e), want)
        for c, rc in SUBS:
            if any(j == i for k in rc for j, _ in k):
                continue
            f = a * (Polynomial.x(i) + c)
            cmp('divide by x_%s + %s' % (i, c), f.divide_linear(i, c), ra)
    if all(e > 0 for k in ra for _, e in k):
        for assign in ({1: 2}, {1: 0, 2: -1}, {0: X(1), 1: X(0)}, {1: X(1) + X(2), 2: -X(0), -1: 3}, {}, {0: -1, 1: 1, 2: 1}):
            want = {}
            for k, v in ra.items():
                t = R.const(v)
                for i, e in k:
                    val = R.read(assign[i]) if i in assign else R.var(i)
                    t = R.mul(t, R.power(val, e))
                want = R.add(want, t)
            cmp('evaluation at %s' % assign, a(dict(assign)), want)
    flat = [('nnz', a.nnz(), len(ra)), ('length', len(a), len(ra)), ('zero test', a.is_zero(), not ra), ('truth', bool(a), bool(ra)),
            ('constant term', a.constant_term(), ra.get((), 0)), ('integer test', a.is_integer(), not ra or list(ra) == [()])]
    for k, v in ra.items():
        flat.append(('entry %s' % (k,), a[dict(k)], v))
        flat.append(('entry %s' % (k,), a[HashableDict(dict(reversed(k)))], v))
    flat.append(('absent entry', a[{1: 17}], 0))
    for tag, g, w in flat:
        ctx.fam('unary', transitions=1, traces=1)
        if g != w:
            ctx.violate('%s of %s' % (tag, how), 'wrong value', implementation=g, model=w)
    if R.read(a) != ra:
        ctx.violate(how, 'a unary operation changed its operand', implementation=R.read(a), model=ra)


SUBS = [(0, R.const(0)), (1, R.const(1)), (-2, R.const(-2)), (X(0), R.var(0)), (-X(0), {((0, 1),): -1}), (X(1) + 1, R.add(R.var(1), R.const(1))),
        (X(2) - X(0), R.add(R.var(2), R.var(0), -1))]


def run(ctx, name, args):
    if name == 'unary':
        st, lev = levels(ctx, args[0], 1)
        for A in lev[0] + lev[1]:
            unary(ctx, st, A)
    elif name == 'level2':
        g, k, cap = args
        st, lev = levels(ctx, g, 1)
        one = lev[0] + lev[1]
        for n, A in enumerate(lev[1]):
            if n % CHUNKS == k:
                for B in one[:cap]:
                    binary(ctx, st, A, B)
    elif name == 'level3':
        # unary operations on every value of depth two
        g, k, cap = args
        st, lev = levels(ctx, g, 1)
        two = []
        for A in lev[1]:
            for B in lev[0][cap[0]:cap[1]]:
                two += binary(ctx, st, A, B)
        for n, A in enumerate(two):
            if n % CHUNKS == k:
                unary(ctx, st, A)
    elif name == 'deep':
        # long chains: every word of length six over four update steps
        g, k = args
        at = atoms(g)
        st = Store(ctx)
        steps = [at[3], at[4], at[5 + k % 2], at[6 + k % 3]]
        level = [(steps[k][0], steps[k][1], 'x')]
        for depth in range(4):
            new = []
            for A in level:
                for B in steps:
                    new += binary(ctx, st, A, (B[0], B[1], repr(B[0])))
            level = new[:400]
        for A in level[-40 if g != 'large' else -8:]:
            unary(ctx, st, A)
    if Polynomial().coeffs or not Polynomial.zero() == 0 or not Polynomial.one() == 1:
        ctx.violate('constants', 'the constants zero and one changed')
    ctx.sample('%s %s: %d distinct values' % (name, args, len(st.d)))
