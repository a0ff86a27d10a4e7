"""Vectors and symmetric polynomials in lock-step with coordinate dictionaries."""
import itertools
from fractions import Fraction
from math import factorial
from mc import ref, refpoly as R
from polynomials import Polynomial, X
from permutations import Permutation
from symmetric import SymmetricMonomial as SM, SymmetricPolynomial as SP
from vectors import Vector

ID = 'C06'
RULE = ('vectors: breadth-first search over operation sequences (+ - * integer and polynomial scaling, negation, powers, floor division) '
        'from base vectors over three algebras of keys; symmetric polynomials: all pairs of monomials within the size bound, all triples of '
        'small ones, powers, mixed integers, and operation sequences over them, each compared after expansion into ordinary polynomials; '
        'linear dependence: all integer matrices in the bound against rational elimination')
ASSUMPTIONS = ['coefficients are integers or integer polynomials; operation sequences, sizes and matrices within the stated bounds']

B = X(0)


def coeff(c):
    return R.read(c)


def vread(v):
    return {k: coeff(c) for k, c in v.dictionary.items()}


# ---- key algebras: (keys, library multiplier or None, model product) ----
def concat(a, b):
    yield a + b, 1


def qshuffle(a, b):
    """keys are integers modulo 4 written as tuples; a * b = (a+b) + 2 (a+b+1)"""
    yield ((a[0] + b[0]) % 4,), 1
    yield ((a[0] + b[0] + 1) % 4,), -2
    yield ((a[0] + b[0]) % 4,), 1


P = [Permutation(1, 2, 3), Permutation(2, 1, 3), Permutation(2, 3, 1)]
ALG = {
    'words': ([('a',), ('b',), ('a', 'b')], concat, lambda a, b: [(a + b, 1)]),
    'table': ([(0,), (1,), (3,)], qshuffle, lambda a, b: list(qshuffle(a, b))),
    'group': (P, None, lambda a, b: [(a * b, 1)]),
}


def vadd(p, q, s=1):
    out = dict(p)
    for k, c in q.items():
        out[k] = R.add(out.get(k, {}), c, s)
    return {k: c for k, c in out.items() if c}


def vscale(p, c):
    return {k: d for k, d in ((k, R.mul(e, c)) for k, e in p.items()) if d}


def vmul(alg, p, q):
    out = {}
    for a, x in p.items():
        for b, y in q.items():
            for m, c in ALG[alg][2](a, b):
                out[m] = R.add(out.get(m, {}), R.mul(R.const(c), R.mul(x, y)))
    return {k: c for k, c in out.items() if c}


def freeze(p):
    return frozenset((k, R.freeze(c)) for k, c in p.items())


def vcheck(ctx, how, got, want):
    ctx.case = how
    if not isinstance(got, Vector):
        ctx.violate(how, 'result is not a vector', implementation=got)
        return
    g = vread(got)
    if any(not c for c in g.values()):
        ctx.violate(how, 'a zero coefficient survived', implementation=g, model=want)
    if g != want:
        ctx.violate(how, 'wrong coordinates', implementation=g, model=want)


def vectors(ctx, alg, part, chunks, cap):
    keys, mult, _ = ALG[alg]

    def base(k):
        return Vector.base(k, multiplier=mult)
    start = [(Vector({}, multiplier=mult), {}, 'zero')]
    for k in keys:
        start.append((base(k), {k: R.const(1)}, 'e%s' % (k,)))
    start.append((Vector({keys[0]: 2, keys[1]: 0, keys[2]: -1}, multiplier=mult), {keys[0]: R.const(2), keys[2]: R.const(-1)}, 'v'))
    start.append((Vector({keys[0]: B, keys[1]: 1 - B}, multiplier=mult), {keys[0]: R.var(0), keys[1]: R.add(R.const(1), R.var(0), -1)}, 'w'))
    store = {}

    def visit(obj, refv, how):
        vcheck(ctx, how, obj, refv)
        k = freeze(refv)
        if k in store:
            if not (store[k][0] == obj) or obj != store[k][0]:
                ctx.violate(how, 'equal vectors compare unequal (other: %s)' % store[k][2])
            return False
        store[k] = (obj, refv, how)
        ctx.fam('vector values', states=1)
        ctx.outcome(sorted(map(str, refv.items())))
        return True

    def binary(A, Bb):
        new = []
        (a, ra, ha), (b, rb, hb) = A, Bb
        for op, got, want in (('+', a + b, vadd(ra, rb)), ('-', a - b, vadd(ra, rb, -1)), ('*', a * b, vmul(alg, ra, rb))):
            how = '(%s) %s (%s)' % (ha, op, hb)
            ctx.fam('vector ' + op, transitions=1, traces=1)
            if visit(got, want, how):
                new.append((got, want, how))
        if (a == b) != (ra == rb):
            ctx.violate('(%s) == (%s)' % (ha, hb), 'equality is wrong')
        if vread(a) != ra or vread(b) != rb:
            ctx.violate('(%s), (%s)' % (ha, hb), 'an operation changed its operand')
        return new

    def unary(A):
        a, ra, ha = A
        for tag, got, want in [
            ('-', -a, vscale(ra, R.const(-1))), ('+0', a + 0, ra), ('0+', 0 + a, ra), ('-0', a - 0, ra),
            ('*0', a * 0, {}), ('*-2', a * -2, vscale(ra, R.const(-2))), ('3*', 3 * a, vscale(ra, R.const(3))),
            ('*(b-1)', a * (B - 1), vscale(ra, R.add(R.var(0), R.const(-1)))), ('b*', B * a, vscale(ra, R.var(0))),
            ('^1', a ** 1, ra), ('^2', a ** 2, vmul(alg, ra, ra)), ('^3', a ** 3, vmul(alg, ra, vmul(alg, ra, ra))),
            ('//2', a // 2, {k: c for k, c in ((k, R.clean({m: v // 2 for m, v in c.items()})) for k, c in ra.items()) if c}),
        ]:
            ctx.fam('vector unary', transitions=1, traces=1)
            vcheck(ctx, '%s of %s' % (tag, ha), got, want)
        for tag, got, want in [('length', len(a), len(ra)), ('zero', a.is_zero(), not ra), ('keys', set(a.keys()), set(ra)), ('iteration', sorted(map(str, a)), sorted(map(str, ra))),
                               ('singleton', a.is_singleton(), len(ra) == 1 and list(ra.values())[0] == R.const(1))]:
            if got != want:
                ctx.violate('%s of %s' % (tag, ha), 'wrong value', implementation=got, model=want)
        if all(list(c) == [()] for c in ra.values()):
            if a.is_positive() != (bool(ra) and all(c[()] > 0 for c in ra.values())) or a.is_nonnegative() != all(c[()] > 0 for c in ra.values()):
                ctx.violate('sign of %s' % ha, 'wrong sign test')
        for k in keys:
            if R.read(a[k]) != ra.get(k, {}):
                ctx.violate('entry %s of %s' % (k, ha), 'wrong value')
            ctx.fam('vector unary', transitions=1, traces=1)
            vcheck(ctx, '%s times key %s' % (ha, k), a * base(k), vmul(alg, ra, {k: R.const(1)}))
        if vread(a) != ra:
            ctx.violate(ha, 'a unary operation changed its operand')

    for obj, rv, how in start:
        visit(obj, rv, how)
    one = []
    for A in start:
        unary(A)
        for C in start:
            one += binary(A, C)
    two = []
    for n, A in enumerate(one):
        if n % chunks != part:
            continue
        unary(A)
        for C in (start + one)[:cap]:
            two += binary(A, C)
            binary(C, A)
    for A in two[:cap * 3]:
        unary(A)


# ---- symmetric polynomials ----
def mono(n, mu):
    out = {}
    for alpha in set(itertools.permutations(tuple(mu) + (0,) * (n - len(mu)))):
        out[tuple((i + 1, e) for i, e in enumerate(alpha) if e)] = 1
    return out


def sread(f, n):
    """expansion of a SymmetricPolynomial / SymmetricMonomial into the reference ring, from its coordinates alone"""
    if isinstance(f, SM):
        assert f.n == n
        return mono(n, f.mu)
    out = {}
    for m, c in f.items():
        if m.n != n:
            return None
        out = R.add(out, R.mul(mono(n, m.mu), R.read(c)))
    return out


def scheck(ctx, how, n, got, want, poly=False):
    ctx.case = how
    ctx.fam('symmetric operations', transitions=1, traces=1)
    if not isinstance(got, (SM, SP)):
        ctx.violate(how, 'result is not symmetric', implementation=got)
        return
    if isinstance(got, SP) and any(not R.read(c) for _, c in got.items()):
        ctx.violate(how, 'a zero coefficient survived', implementation=got)
    g = sread(got, n)
    if g != want:
        ctx.violate(how, 'wrong value', implementation=g, model=want)
    if poly and R.read(got.polynomial()) != want:
        ctx.violate(how + ' as polynomial', 'wrong value', implementation=R.read(got.polynomial()), model=want)


def parts(n, size):
    return [mu for mu in ref.partitions_upto(size) if len(mu) <= n]


def pairs(ctx, n, size, poly):
    ps = parts(n, size)
    for mu in ps:
        a = SM(n, mu)
        ra = mono(n, mu)
        ctx.fam('monomials', states=1)
        scheck(ctx, 'm%s in %d' % (mu, n), n, a, ra, True)
        if R.read(a.polynomial('y')) != {tuple(sorted((-i, e) for i, e in k)): c for k, c in ra.items()}:
            ctx.violate('m%s in %d y-variables' % (mu, n), 'wrong polynomial')
        for extra in ((0,), (0, 0)):
            if len(mu) + len(extra) <= n:
                if SM(n, mu + extra) != a or SM(n, extra + mu) != a or hash(SM(n, extra + mu[::-1])) != hash(a):
                    ctx.violate('m%s in %d' % (mu, n), 'order or zeros of the exponent matter')
        for nu in ps:
            if sum(mu) + sum(nu) > size:
                continue
            b, rb = SM(n, nu), mono(n, nu)
            how = 'm%s, m%s in %d' % (mu, nu, n)
            scheck(ctx, how + ' *', n, a * b, R.mul(ra, rb), poly)
            scheck(ctx, how + ' +', n, a + b, R.add(ra, rb))
            scheck(ctx, how + ' -', n, a - b, R.add(ra, rb, -1))
            if (a == b) != (mu == nu) or (mu != nu and (a < b) == (b < a)):
                ctx.violate(how, 'comparison is wrong')
            ctx.outcome(how)


def arrangements(n, mu):
    """all distinct orders of mu and n - len(mu) zeros"""
    left = {0: n - len(mu)}
    for a in mu:
        left[a] = left.get(a, 0) + 1

    def rec(k):
        if k == 0:
            yield ()
            return
        for a in sorted(left):
            if left[a]:
                left[a] -= 1
                for rest in rec(k - 1):
                    yield (a,) + rest
                left[a] += 1
    return list(rec(n))


def orbit(n, mu):
    """number of distinct arrangements of mu and n - len(mu) zeros"""
    mu = tuple(mu) + (0,) * (n - len(mu))
    a = factorial(n)
    for v in set(mu):
        a //= factorial(mu.count(v))
    return a


def boxes(ctx, n, top, strict, longest, part, chunks):
    """products of all pairs of monomials with parts at most top"""
    ps = [mu for k in range(n + 1) for mu in itertools.combinations_with_replacement(range(top, 0, -1), k)]
    if strict:
        ps = [mu for mu in ps if len(set(mu)) == len(mu)]
    products(ctx, n, ps, longest, part, chunks)


def many(ctx, n, rows, values, part, chunks):
    """products, squares and cubes of all monomials with few parts from a list of small and large exponents, in many variables"""
    ps = [mu for k in range(min(n, rows) + 1) for mu in itertools.combinations_with_replacement(sorted(values, reverse=True), k)]
    products(ctx, n, ps, 0, part, chunks)
    for k, mu in enumerate(ps):
        if k % chunks != part:
            continue
        a, model = SM(n, mu), {tuple(mu): 1}
        for e in range(1, 4 if len(mu) < 3 and n < 9 else 3):
            ctx.fam('monomial powers', states=1, transitions=1, traces=2)
            for got in (a ** e, a.symmetric_polynomial() ** e):
                got = {m.mu: c for m, c in (got.symmetric_polynomial() if isinstance(got, SM) else got).items()}
                if got != model:
                    ctx.violate('m%s ^ %d in %d' % (mu, e, n), 'wrong power', implementation=got, model=model)
            nxt = {}
            for nu, c in model.items():
                for g, d in product(n, mu, nu, arrangements(n, mu)).items():
                    nxt[g] = nxt.get(g, 0) + c * d
            model = nxt
        for other in ((), (1,), (values[-1],)):
            for c in (0, -3, 10 ** 25):
                f = SM(n, mu).symmetric_polynomial(c) + SM(n, other).symmetric_polynomial(10 ** 24)
                want = {tuple(mu): c}
                want[other] = want.get(other, 0) + 10 ** 24
                got = {m.mu: x for m, x in f.items()}
                ctx.equal('%d m%s + m%s in %d' % (c, mu, other, n), got, {k: x for k, x in want.items() if x})


def product(n, mu, nu, A):
    """coefficients of m_mu * m_nu: the arrangements of mu added to one of nu, times the number of arrangements of nu"""
    fixed = tuple(nu) + (0,) * (n - len(nu))
    count = {}
    for alpha in A:
        g = tuple(sorted((a + b for a, b in zip(alpha, fixed)), reverse=True))
        count[g] = count.get(g, 0) + 1
    want = {}
    for g, c in count.items():
        q, r = divmod(c * orbit(n, nu), orbit(n, g))
        assert r == 0
        want[tuple(x for x in g if x)] = q
    return want


def products(ctx, n, ps, longest, part, chunks):
    num = 0
    for mu in ps:
        A = None
        for nu in ps:
            if max(len(mu), len(nu)) < longest:
                continue
            num += 1
            if num % chunks != part:
                continue
            A = A or arrangements(n, mu)
            want = product(n, mu, nu, A)
            got = SM(n, mu) * SM(n, nu)
            ctx.fam('monomial products', states=1, transitions=len(A), traces=1)
            got = {m.mu: c for m, c in got.items()}
            if got != want:
                ctx.violate('m%s * m%s in %d' % (mu, nu, n), 'wrong product', implementation=got, model=want)


def unary(ctx, n, size):
    for mu in parts(n, size):
        a, ra = SM(n, mu), mono(n, mu)
        how = 'm%s in %d ' % (mu, n)
        for c in (-2, -1, 0, 1, 3):
            rc = R.const(c)
            scheck(ctx, how + '+ %d' % c, n, a + c, R.add(ra, rc))
            scheck(ctx, how + '%d +' % c, n, c + a, R.add(ra, rc))
            scheck(ctx, how + '- %d' % c, n, a - c, R.add(ra, rc, -1))
            scheck(ctx, how + '%d -' % c, n, c - a, R.add(rc, ra, -1))
            scheck(ctx, how + '* %d' % c, n, a * c, R.mul(ra, rc))
            scheck(ctx, how + '%d *' % c, n, c * a, R.mul(ra, rc))
            if (a == c) != (ra == rc) or (a.symmetric_polynomial() == c) != (ra == rc) or (a.symmetric_polynomial(2) == c) != (R.mul(ra, R.const(2)) == rc):
                ctx.violate(how + '== %d' % c, 'comparison with an integer is wrong')
        for c, rc in ((B, R.var(0)), (1 - B, R.add(R.const(1), R.var(0), -1))):
            scheck(ctx, how + '* %s' % c, n, a * c, R.mul(ra, rc))
            scheck(ctx, how + 'times from the left %s' % c, n, c * a, R.mul(ra, rc))
        for e in range(0, 5):
            if e * sum(mu) > size * 2:
                break
            scheck(ctx, how + '^ %d' % e, n, a ** e, R.power(ra, e))
            if e:
                scheck(ctx, how + 'poly ^ %d' % e, n, a.symmetric_polynomial() ** e, R.power(ra, e))


def degs(ra):
    # degree in the variables with positive index
    return {sum(e for i, e in k if i > 0) for k in ra}


def ring(ctx, n, part, chunks, depth):
    """operation sequences over symmetric polynomials"""
    def sp(mu, c=1):
        return SM(n, mu).symmetric_polynomial(c)
    start = [(SP(), {}, '0'), (sp(()), R.const(1), '1'), (sp((1,)), mono(n, (1,)), 'm1')]
    if n >= 2:
        start.append((sp((1, 1), -2), R.mul(R.const(-2), mono(n, (1, 1))), '-2m11'))
    start.append((sp((2,), B) + sp((1,), -1), R.add(R.mul(R.var(0), mono(n, (2,))), mono(n, (1,)), -1), 'bm2-m1'))
    start.append((sp((), 3) + sp((3,), 1), R.add(R.const(3), mono(n, (3,))), '3+m3'))
    store = {}

    def visit(obj, rv, how):
        scheck(ctx, how, n, obj, rv)
        k = R.freeze(rv)
        if k in store:
            o = store[k]
            if not (o[0] == obj) or not (obj == o[0]):
                ctx.violate(how, 'equal values compare unequal (other: %s)' % o[2])
            return False
        store[k] = (obj, rv, how)
        ctx.fam('symmetric values', states=1)
        ctx.outcome(sorted(rv.items()))
        return True

    def binary(A, C):
        new = []
        (a, ra, ha), (b, rb, hb) = A, C
        for op, got, want in (('+', a + b, R.add(ra, rb)), ('-', a - b, R.add(ra, rb, -1)), ('*', a * b, R.mul(ra, rb))):
            how = 'n=%d (%s) %s (%s)' % (n, ha, op, hb)
            if visit(got, want, how):
                new.append((got, want, how))
        if (a == b) != (ra == rb):
            ctx.violate('n=%d (%s) == (%s)' % (n, ha, hb), 'equality is wrong')
        if sread(a, n) != ra or sread(b, n) != rb:
            ctx.violate('n=%d (%s), (%s)' % (n, ha, hb), 'an operation changed its operand')
        return new

    def single(A):
        a, ra, ha = A
        ds = degs(ra)

        def deg(k):
            return sum(e for i, e in k if i > 0)
        if R.read(a.polynomial()) != ra:
            ctx.violate('n=%d polynomial of %s' % (n, ha), 'wrong value')
        for d in range(-1, max(ds or {0}) + 1):
            scheck(ctx, 'n=%d truncate %d of %s' % (n, d, ha), n, a.truncate(d), {k: v for k, v in ra.items() if deg(k) <= d})
        scheck(ctx, 'n=%d lowest of %s' % (n, ha), n, a.lowest_degree_terms(), {k: v for k, v in ra.items() if deg(k) == min(ds)})
        scheck(ctx, 'n=%d highest of %s' % (n, ha), n, a.highest_degree_terms(), {k: v for k, v in ra.items() if deg(k) == max(ds)})
        for c, rc in ((-1, R.const(-1)), (2, R.const(2)), (0, {}), (B, R.var(0))):
            scheck(ctx, 'n=%d %s * %s' % (n, ha, c), n, a * c, R.mul(ra, rc))
            scheck(ctx, 'n=%d %s * %s left' % (n, ha, c), n, c * a, R.mul(ra, rc))
        scheck(ctx, 'n=%d - %s' % (n, ha), n, -a, R.mul(ra, R.const(-1)))
        for mu in parts(n, 2):
            scheck(ctx, 'n=%d %s * m%s' % (n, ha, mu), n, a * SM(n, mu).symmetric_polynomial(), R.mul(ra, mono(n, mu)))
            scheck(ctx, 'n=%d m%s * %s' % (n, mu, ha), n, SM(n, mu) * a, R.mul(ra, mono(n, mu)))
            scheck(ctx, 'n=%d m%s - %s' % (n, mu, ha), n, SM(n, mu) - a, R.add(mono(n, mu), ra, -1))
            if (SM(n, mu) == a) != (mono(n, mu) == ra):
                ctx.violate('n=%d m%s == %s' % (n, mu, ha), 'equality is wrong')
        if max(ds or {0}) <= 6:
            scheck(ctx, 'n=%d square of %s' % (n, ha), n, a ** 2, R.mul(ra, ra))
            scheck(ctx, 'n=%d cube of %s' % (n, ha), n, a ** 3, R.mul(ra, R.mul(ra, ra)))
        if sread(a, n) != ra:
            ctx.violate('n=%d %s' % (n, ha), 'an operation changed its operand')
    for s in start:
        visit(*s)
    one = []
    for A in start:
        single(A)
        for C in start:
            one += binary(A, C)
    level = [A for k, A in enumerate(one) if k % chunks == part]
    for d in range(depth):
        new = []
        for A in level:
            single(A)
            for C in start[1:]:
                new += binary(A, C)
                binary(C, A)
        level = [A for A in new if max(degs(A[1]) or {0}) <= 6]


# ---- linear dependence ----
def rank(rows):
    rows = [[Fraction(x) for x in r] for r in rows]
    r = 0
    if not rows:
        return 0
    for c in range(len(rows[0])):
        p = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        for i in range(r + 1, len(rows)):
            f = rows[i][c] / rows[r][c]
            if f:
                rows[i] = [x - f * y for x, y in zip(rows[i], rows[r])]
        r += 1
    return r


def matrices(ctx, m, n, entries, part, chunks):
    some_matrices(ctx, m, n, ([list(flat[i * n:(i + 1) * n]) for i in range(m)] for flat in itertools.product(entries, repeat=m * n)), part, chunks)


def sparse(ctx, m, n, k, values, part, chunks):
    """larger matrices with at most k entries different from zero"""
    def every():
        for l in range(k + 1):
            for where in itertools.combinations(range(m * n), l):
                for what in itertools.product(values, repeat=l):
                    flat = [0] * (m * n)
                    for i, a in zip(where, what):
                        flat[i] = a
                    yield [flat[i * n:(i + 1) * n] for i in range(m)]
    some_matrices(ctx, m, n, every(), part, chunks)


def intervals(ctx, m, n, part, chunks):
    """every row is constant on an interval and zero elsewhere"""
    rows = [[0] * n] + [[0] * a + [b - a] * (b - a) + [0] * (n - b) for a in range(n) for b in range(a + 1, n + 1)]
    some_matrices(ctx, m, n, ([list(r) for r in c] for c in itertools.product(rows, repeat=m)), part, chunks)


def some_matrices(ctx, m, n, matrices, part, chunks):
    for num, rows in enumerate(matrices):
        if num % chunks != part:
            continue
        ctx.case = rows
        ctx.fam('matrices %dx%d' % (m, n), states=1, transitions=n - 1, traces=1)
        keep = [list(r) for r in rows]
        E = Vector.rref(rows)
        if rows != keep:
            ctx.violate('rref %s' % keep, 'the argument was changed')
        # echelon form with the same row space
        last = -1
        zero = False
        for r in E:
            piv = next((j for j in range(n) if r[j]), None)
            if piv is None:
                zero = True
            elif zero or piv <= last:
                ctx.violate('rref %s' % keep, 'not in echelon form', implementation=E)
            else:
                last = piv
        k = rank(keep)
        if len(E) != m or rank(E) != k or rank(E + keep) != k:
            ctx.violate('rref %s' % keep, 'row space changed', implementation=E)
        cols = [[rows[i][j] for i in range(m)] for j in range(n)]
        vs = [Vector({i: c[i] for i in range(m)}) for c in cols]
        want = rank([c for c in cols[:-1]]) == rank(cols) if n > 1 else not any(cols[0])
        got = vs[-1].is_expressable(*vs[:-1])
        if got != want:
            ctx.violate('is_expressable %s' % keep, 'wrong answer', implementation=got, model=want)


def jobs(tier):
    q = tier == 'quick'
    ans = []
    for a in ALG:
        for k in range(4):
            ans.append((10, 'vectors', (a, k, 4, 60 if q else 250)))
    for n in range(0, 6):
        ans.append((10 + n, 'pairs', (n, {0: 3, 1: 8, 2: 12, 3: 10, 4: 8, 5: 7}[n] + (0 if q else 2), 1)))
        ans.append((10 + n, 'unary', (n, 4 if q else 5)))
    for n, top, strict, longest, ch in [(1, 12, 0, 0, 1), (2, 12, 0, 0, 2), (3, 6 if q else 9, 0, 0, 2), (4, 4 if q else 6, 0, 0, 2 if q else 12),
                                        (5, 2 if q else 4, 0, 0, 2 if q else 24), (5, 5 if q else 7, 1, 0, 2 if q else 12), (6, 5 if q else 7, 1, 5, 8 if q else 40), (6, 1 if q else 2, 0, 0, 2 if q else 12)]:
        for k in range(ch):
            ans.append((16, 'boxes', (n, top, strict, longest, k, ch)))
    for n, rows, values in [(2, 2, (1, 2, 9, 10, 11, 100)), (3, 3, (1, 10, 11)), (4, 2, (1, 2, 10, 11)), (6, 2, (1, 2, 10)), (8, 2, (1, 2)), (10, 2, (1, 11)), (12, 2, (1, 2))] if q else \
            [(2, 2, (1, 2, 3, 9, 10, 11, 12, 99, 100, 1000)), (3, 3, (1, 2, 10, 11, 100)), (4, 3, (1, 2, 10, 11)), (5, 3, (1, 9, 10)), (6, 3, (1, 2)), (7, 3, (1, 10)), (8, 3, (1, 2)),
             (9, 2, (1, 2, 10)), (10, 2, (1, 2, 11)), (11, 2, (1, 2)), (12, 2, (1, 2, 12)), (15, 2, (1, 2))]:
        for k in range(2 if q else 6):
            ans.append((17, 'many', (n, rows, values, k, 2 if q else 6)))
    for n in range(1, 4):
        for k in range(4):
            ans.append((15, 'ring', (n, k, 4, 1 if q else 2)))
    for (m, n, e, ch) in [(1, 1, (-3, -2, 0, 1, 4), 1), (2, 1, (-2, 0, 3), 1), (1, 3, (-2, 0, 1, 3), 1), (2, 2, (-4, -2, -1, 0, 1, 3, 6), 1),
                          (2, 3, (-2, 0, 1, 3), 2), (3, 2, (-2, 0, 1, 3), 2), (3, 3, (-1, 0, 2), 3), (3, 4, (0, 2) if q else (-1, 0, 2), 2 if q else 8),
                          (4, 3, (0, -1), 2), (4, 4, (0, 1) if q else (-1, 0, 1), 8 if q else 64)]:
        for k in range(ch):
            ans.append((m * n, 'matrices', (m, n, e, k, ch)))
    for k in range(8):
        ans.append((30, 'sparse', (6, 6, 3, (1, -2) if q else (1, -2, 3), k, 8)))
        ans.append((30, 'sparse', (4, 9, 3, (1, -3) if q else (1, -3, 6), k, 8)))
        ans.append((30, 'sparse', (9, 4, 3, (2, -3) if q else (2, -3, 4), k, 8)))
        ans.append((30, 'intervals', ((4, 5) if q else (5, 5)) + (k, 8)))
    return ans


def run(ctx, name, args):
    globals()[name](ctx, *args)
    ctx.sample('%s %s: last case %s' % (name, args, ctx.case))
