"""The algebra of box operators."""
import itertools
from mc import refpoly as RP
import boxes
from boxes import BoxOperator as W, r, c
from polynomials import X, Y

ID = 'C21'
RULE = ('all words in the row and column operators within the bounds as states, all products, sums and differences of pairs as transitions, and all operation '
        'sequences up to a depth from generators; compared with dictionaries of words where a product of words is zero when two equal or opposite letters become adjacent')
ASSUMPTIONS = ['letters, lengths, operation sequences and coefficients within the stated bounds']


def read(x):
    if isinstance(x, int):
        return {} if x == 0 else {(0,): RP.const(x)}
    return {tuple(k): RP.read(v) for k, v in x.vector.items() if RP.read(v)}


def add(p, q, s=1):
    out = dict(p)
    for k, v in q.items():
        out[k] = RP.add(out.get(k, {}), v, s)
    return {k: v for k, v in out.items() if v}


def scale(p, x):
    out = {k: RP.mul(v, x) for k, v in p.items()}
    return {k: v for k, v in out.items() if v}


def dead(w):
    return any(abs(a) == abs(b) for a, b in zip(w, w[1:]))


def mul(p, q):
    out = {}
    for a, x in p.items():
        for b, y in q.items():
            w = a[1:] + b[1:]
            if not dead(w):
                k = (a[0] + b[0],) + w
                out[k] = RP.add(out.get(k, {}), RP.mul(x, y))
    return {k: v for k, v in out.items() if v}


def jobs(tier):
    q = tier == 'quick'
    ans = [(30, 'words', (2, 3 if q else 4)), (30, 'words', (4, 2)), (30, 'scalars', (3,)), (10, 'strings', (25 if q else 60,))]
    for first in range(8):
        ans.append((60, 'sequences', (4, first)))
    for n in range(3 if q else 4):
        ans.append((n * 50, 'commutator', (n,)))
    for part in range(8):
        ans.append((90, 'longwords', (8 if q else 10, 12, part, 8)))
    ans.append((20, 'filters', (2, 4 if q else 5)))
    return ans


def words(ctx, m, L):
    letters = range(-m, m + 1)
    ws = [(b,) + w for b in (0, 1, 2) for k in range(L + 1) for w in itertools.product(letters, repeat=k)] if L < 3 else \
         [(b,) + w for b in (0, 1) for k in range(L + 1) for w in itertools.product(letters, repeat=k) if b == 0 or k < 2]
    for w in ws:
        ctx.case = w
        want = {w: RP.const(1)}
        ctx.equal('word %s' % (w,), read(W(*w)), want)
        ctx.equal('word list %s' % (w,), read(W(list(w))), want)
        ctx.equal('word tuple %s' % (w,), read(W(w)), want)
    ops = {w: W(*w) for w in ws}
    for a, b in itertools.product(ws, repeat=2):
        ctx.case = (a, b)
        x, y = {a: RP.const(1)}, {b: RP.const(1)}
        ctx.equal('%s * %s' % (a, b), read(ops[a] * ops[b]), mul(x, y))
        ctx.fam('products', states=1, transitions=1, traces=1)
        if len(a) + len(b) < 6:
            ctx.equal('%s + %s' % (a, b), read(ops[a] + ops[b]), add(x, y))
            ctx.equal('%s - %s' % (a, b), read(ops[a] - ops[b]), add(x, y, -1))
            ctx.equal('%s == %s' % (a, b), (ops[a] == ops[b], ops[a] != ops[b]), (a == b, a != b))
            ctx.fam('sums', states=1, transitions=2, traces=3)
    ctx.equal('empty', (read(W()), W() == 0, W(0) == 0, W(0) == 1 * W(0)), ({}, True, False, True))


def scalars(ctx, m):
    base = [W(), W(0), W(0, 1), W(1, -2), W(0, 1, 2) - W(0, 2, 1), W(0, 1) + W(0) * X(1)]
    model = [{}, {(0,): RP.const(1)}, {(0, 1): RP.const(1)}, {(1, -2): RP.const(1)}, {(0, 1, 2): RP.const(1), (0, 2, 1): RP.const(-1)},
             {(0, 1): RP.const(1), (0,): RP.var(1)}]
    for x, p in zip(base, model):
        for s in (0, 1, -1, 3, X(1), 1 - X(0), X(1) * Y(-1) + 2):
            ctx.case = (str(x), str(s))
            v = RP.read(s)
            one = {(0,): v} if v else {}
            key = '%r and %r' % (x, s)
            ctx.equal(key + ' *', read(x * s), scale(p, v))
            ctx.equal(key + ' r*', read(s * x), scale(p, v))
            ctx.equal(key + ' +', read(x + s), add(p, one))
            if type(s) is int:
                ctx.equal(key + ' r+', read(s + x), add(p, one))
                ctx.equal(key + ' r-', read(s - x), add(one, p, -1))
            ctx.equal(key + ' -', read(x - s), add(p, one, -1))
            ctx.equal(key + ' neg', read(-x), scale(p, RP.const(-1)))
            ctx.equal(key + ' kept', read(x), p, 'an operand was modified')
            ctx.fam('scalars', states=1, transitions=7, traces=8)


def strings(ctx, m):
    seen = {}
    for i in range(m + 1):
        ctx.equal('r(%d)' % i, read(r(i)), {(0, i): RP.const(1)})
        ctx.equal('c(%d)' % i, read(c(i)), {(0, -i): RP.const(1)})
        for w in ((), (1,), (1, -3), (i,)):
            x = W(1, *w)
            p = {(1,) + w: RP.const(1)}
            for s, a in (('r%d' % i, i), ('R%d' % i, i), ('c%d' % i, -i), ('C%d' % i, -i)):
                y = {(0, a): RP.const(1)}
                ctx.equal('%s * %s' % (w, s), read(x * s), mul(p, y))
                ctx.equal('%s * %s' % (s, w), read(s * x), mul(y, p))
                ctx.fam('strings', states=1, transitions=2, traces=2)
    for b in (0, 1, 2, 3):
        for k in range(3):
            for w in itertools.product((-11, -2, -1, 0, 1, 2, 11), repeat=k):
                text = repr(W(b, *w))
                toks = text.split()
                e = 0
                if toks and toks[0][0] == 'β':
                    e = 1 if toks[0] == 'β' else int(toks[0][2:])
                    toks = toks[1:]
                if (e, w) == (0, ()):
                    continue
                got = tuple(int(t[1:]) * (1 if t[0] == 'r' else -1) for t in toks)
                ctx.equal('text %s' % (text,), (e,) + got, (b,) + w, 'the printed form does not show the word')
                ctx.fam('text', states=1, transitions=1, traces=1)


GENS = [((0, 1), 1), ((0, -1), 1), ((0, 0), 1), ((0, 2), 1), ((1,), 1)]


def sequences(ctx, depth, first):
    """Breadth-first search over operation sequences."""
    x1 = X(1)
    gens = [(W(*w), {w: RP.const(k)}) for w, k in GENS]
    gens.append((1 + W(0, 1) * x1, {(0,): RP.const(1), (0, 1): RP.var(1)}))
    moves = []
    for k, (g, p) in enumerate(gens):
        moves.append(lambda v, g=g: v * g)
        moves.append(lambda v, g=g: g * v)
        moves.append(lambda v, g=g: v + g)
        moves.append(lambda v, g=g: v - g)
    mm = []
    for k, (g, p) in enumerate(gens):
        mm.append(lambda v, p=p: mul(v, p))
        mm.append(lambda v, p=p: mul(p, v))
        mm.append(lambda v, p=p: add(v, p))
        mm.append(lambda v, p=p: add(v, p, -1))
    moves += [lambda v: -v, lambda v: v * (2 - X(0)), lambda v: v * v, lambda v: 1 - v]
    mm += [lambda v: scale(v, RP.const(-1)), lambda v: scale(v, RP.read(2 - X(0))), lambda v: mul(v, v), lambda v: add({(0,): RP.const(1)}, v, -1)]
    freeze = lambda p: frozenset((k, RP.freeze(v)) for k, v in p.items())
    start = list(zip(moves, mm))[first::8]
    level = {}
    g, p = gens[5]
    for f, h in start:
        a, b = f(g), h(p)
        ctx.equal('first move', read(a), b)
        level[freeze(b)] = (a, b)
    seen = set(level)
    for d in range(depth - 1):
        new = {}
        for a, b in level.values():
            for k, (f, h) in enumerate(zip(moves, mm)):
                ctx.case = (str(a), k)
                x, y = f(a), h(b)
                ctx.equal('move %d from %r' % (k, a), read(x), y)
                ctx.fam('sequences', transitions=1, traces=1)
                s = freeze(y)
                if s not in seen:
                    seen.add(s)
                    new[s] = (x, y)
                    ctx.fam('sequences', states=1)
            ctx.equal('operand', read(a), b, 'an operand was modified')
        level = new
        if len(seen) > 60000:
            break
    vals = list(level.values())[:60]
    for (a, p), (b, q) in itertools.product(vals, repeat=2):
        ctx.equal('%r == %r' % (a, b), a == b, p == q)
    ctx.sample('depth %d, %d states' % (depth, len(seen)))


def keep(w, n):
    """every letter occurs at most n - |i| + 1 times"""
    return all(sum(abs(a) == abs(x) for a in w[1:]) <= n - abs(x) + 1 for x in w[1:])


def filters(ctx, m, L):
    ws = [w for k in range(L + 1) for w in itertools.product(range(-m, m + 1), repeat=k)]
    for n in range(m + 2):
        total = W()
        p = {}
        for w in ws:
            x = W(0, *w)
            ctx.case = (n, w)
            k = (0,) + w
            ctx.equal('filter(%d) %s' % (n, w), read(x.filter(n)), {k: RP.const(1)} if keep(k, n) else {})
            ctx.fam('filter', states=1, transitions=1, traces=1)
            if len(w) < 4:
                total = total + x * (1 + len(w))
                p[k] = RP.const(1 + len(w))
        ctx.equal('filter(%d) sum' % n, read(total.filter(n)), {k: v for k, v in p.items() if keep(k, n)})
        ctx.equal('filter(%d) argument' % n, read(total), p)
        ctx.equal('filter(%d) multiplies' % n, read(total.filter(n) * r(1)), mul({k: v for k, v in p.items() if keep(k, n)}, {(0, 1): RP.const(1)}))


def commutator(ctx, n):
    lhs, rhs = {(0,): RP.const(1)}, {(0,): RP.const(1)}
    for i in range(n, -n - 1, -1):
        lhs = mul(lhs, {(0,): RP.const(1), (0, i): RP.var(1)})
        rhs = mul(rhs, {(0,): RP.const(1), (0, i): RP.var(-1)})
    want = add(mul(lhs, rhs), mul(rhs, lhs), -1)
    want = {k: v for k, v in want.items() if keep(k, n)}
    ctx.equal('commutator %d' % n, read(W.commutator(n)), want)
    ctx.fam('commutator', states=len(want), transitions=4 * n + 2, traces=1)


def show(w):
    beta = [] if w[0] == 0 else ['β' if w[0] == 1 else 'β^%d' % w[0]]
    return ' '.join(beta + ['r%d' % a if a >= 0 else 'c%d' % -a for a in w[1:]])


def longwords(ctx, m, top, part, parts):
    """long words: all products of two runs of consecutive letters, large letters and powers of beta"""
    ends = list(range(-m, m + 1)) + [top - 1, top]
    runs = [u for a in ends for b in range(a, min(a + 2 * m, top) + 1) for u in (tuple(range(a, b + 1)), tuple(range(b, a - 1, -1)))]
    runs = sorted(set(u for u in runs if all(abs(x) <= m or x >= top - 1 for x in u)))
    ops = {(b,) + u: W(b, *u) for u in runs for b in (0, 11)}
    for k, (u, v) in enumerate(itertools.product(runs, repeat=2)):
        if k % parts != part:
            continue
        a, b = (0,) + u, (11 if k % 3 == 0 else 0,) + v
        ctx.case = (a, b)
        want = mul({a: RP.const(1)}, {b: RP.const(1)})
        x = ops[a] * ops[b]
        ctx.equal('%s * %s' % (a, b), read(x), want)
        ctx.fam('products of runs', states=1, transitions=1, traces=1)
        if k % 5 == 0:
            for w in want:
                ctx.equal('printed %s' % (w,), repr(x), (lambda s: s if s else '1')(show(w)) if len(w) > 1 or w[0] else repr(W(0)))
                for n in (0, 1, m, top):
                    ctx.equal('filter(%d) %s' % (n, w), read(x.filter(n)), want if keep(w, n) else {})
                    ctx.fam('filter of long words', states=1, transitions=1, traces=1)


def run(ctx, name, args):
    globals()[name](ctx, *args)
