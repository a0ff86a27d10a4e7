"""(Signed) permutations against maps on integers and Cayley-graph distances."""
import itertools
from mc import perms as M, ref
from permutations import Permutation as P

ID = 'C12'
RULE = ('the full Cayley graphs of the unsigned and signed groups of the stated ranks are explored by breadth-first search; in every state all '
        'accessors, powers and generator moves, and for every pair of states the product, Demazure product, equality and order, are compared '
        'with maps on integers and graph distances; the enumerators are compared with the state sets')
ASSUMPTIONS = ['ranks within the stated bounds']


def jobs(tier):
    q = tier == 'quick'
    ans = []
    for N, signed in [(1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (6, 0), (1, 1), (2, 1), (3, 1), (4, 1), (7, 0)] + ([] if q else [(5, 1), (8, 0)]):
        ch = 1 if N < 4 else 4 if not (N >= 7 or (N == 5 and signed)) else 8 if N < 8 else 64
        for k in range(ch):
            ans.append((N * 3 + signed, 'single', (N, signed, k, ch)))
    # high ranks: all elements within a distance of the identity
    for N, signed, R in [(9, 0, 4), (10, 0, 3), (11, 0, 3), (12, 0, 2), (6, 1, 5), (8, 1, 3), (10, 1, 3), (11, 1, 2)]:
        R += not q
        ch = 4 if R > 2 else 1
        for k in range(ch):
            ans.append((N * 3 + signed, 'single', (N, signed, k, ch, R)))
        ch = 2
        for k in range(ch):
            ans.append((N * 3 + signed, 'pairs', (N, signed, k, ch, min(R, 2))))
    for N, signed in [(1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (1, 1), (2, 1), (3, 1), (4, 1)] + ([] if q else [(6, 0)]):
        ch = 1 if N < 5 and not signed else 8
        for k in range(ch):
            ans.append((N * 3 + signed, 'pairs', (N, signed, k, ch)))
    for N in range(0, 7):
        ans.append((N, 'enum', (N,)))
    for N in (7, 8) if q else (7, 8, 9):
        ans.append((60, 'bigenum', (N, 0)))
    ans.append((60, 'bigenum', (10 if q else 12, 1)))
    ans.append((60, 'bigenum', (5 if q else 6, 2)))
    ans.append((3, 'special', (13,)))
    for n in range(1, 11 if q else 13):
        ans.append((n * 2, 'longpowers', (n,)))
    for N, L, signed in [(2, 9, 0), (3, 9, 0), (4, 7, 0), (5, 6, 0), (6, 5, 0), (2, 9, 1), (3, 7, 1), (4, 6, 1)] + ([] if q else [(6, 6, 0), (4, 9, 0), (5, 7, 0), (3, 9, 1)]):
        ans.append((N * L, 'words', (N, L, signed)))
    return ans


def powers(w, e):
    base = w if e >= 0 else M.inv(w)
    out = M.ident(len(w))
    for _ in range(abs(e)):
        out = M.mul(out, base)
    return out


def cmp(ctx, how, got, want):
    ctx.case = how
    if isinstance(got, P):
        got = got.oneline
        want = M.trim(want)
    ctx.fam('accessors', transitions=1, traces=1)
    if got != want:
        ctx.violate(how, 'wrong value', implementation=got, model=want)


def build(ctx, w):
    """the library object of a map must not depend on how it was written"""
    p = P(*w)
    for alt in (P(w), P(list(w)), P(*M.pad(w, len(w) + 2)), P(*M.trim(w)), P(*p.oneline), P(*[p(i) for i in range(1, len(w) + 1)])):
        if not (alt == p) or alt != p or hash(alt) != hash(p) or alt.oneline != M.trim(w) or alt.rank != len(M.trim(w)):
            ctx.violate('P%s' % (w,), 'value depends on how the permutation is written', implementation=alt.oneline)
    return p


def invrank(N, signed, R=None):
    G = M.Group(N, signed, None if R is None else 2 * R + 2)
    return G, M.weak(G, M.ident(N))[0]


def single(ctx, N, signed, k, ch, R=None):
    G, irank = invrank(N, signed, R)
    frank = M.weak(G, M.minfpf(N), M.fpf_allowed)[0] if N % 2 == 0 and not signed and M.minfpf(N) in G.len else {}
    ctx.fam('cayley graph', states=len(G.len), transitions=G.edges)
    top = {1: P(-1)}
    for num, w in enumerate(sorted(w for w in G.len if R is None or G.len[w] <= R or w in frank and G.len[w] <= N // 2 + 2)):
        if num % ch != k:
            continue
        p = build(ctx, w)
        how = 'P%s' % (w,)
        ctx.outcome(how)
        t = M.trim(w)
        r = len(t)
        for i in range(-N - 2, N + 3):
            if p(i) != M.at(w, i):
                ctx.violate('%s(%d)' % (how, i), 'wrong value', implementation=p(i), model=M.at(w, i))
        flat = [
            ('length', p.length, G.len[w]), ('len', len(p), G.len[w]),
            ('right descents', set(p.right_descent_set), set(G.rdes(w))), ('left descents', set(p.left_descent_set), set(G.ldes(w))),
            ('inverse', p.inverse(), M.inv(w)), ('is_identity', p.is_identity(), w == M.ident(N)),
            ('is_unsigned', p.is_unsigned(), min(w) > 0), ('even', p.is_even_signed(), sum(a < 0 for a in w) % 2 == 0),
            ('involution', p.is_involution(), M.inv(w) == w),
            ('last descent', p.last_descent(), max([i for i in range(1, N) if w[i - 1] > w[i]], default=None)),
            ('neg', p.neg(), [(-a, -a) for a in range(1, N + 1) if w[a - 1] == -a]),
            ('fix', p.fix(), [(a, a) for a in range(1, r + 1) if w[a - 1] == a]),
            ('pair', sorted(p.pair()), sorted((a, M.at(w, a)) for a in range(-N, N + 1) if a and abs(a) < M.at(w, a))),
        ]
        flat.append(('cyc', p.cyc(), sorted(flat[-1][2] + flat[-2][2] + flat[-3][2])))
        for e in range(-5, 8):
            flat.append(('power %d' % e, p ** e, powers(w, e)))
        if not signed:
            flat.append(('fpf involution', p.is_fpf_involution(), M.inv(w) == w and all(a != i + 1 for i, a in enumerate(t))))
            flat.append(('star', p.star(), tuple(r + 1 - a for a in reversed(t))))
            seen, cyc = set(), []
            for i in range(1, r + 1):
                if i not in seen:
                    c = [i]
                    while w[c[-1] - 1] != i:
                        c.append(w[c[-1] - 1])
                    seen |= set(c)
                    cyc.append(c)
            flat.append(('cycles', p.cycles, cyc))
            text = ''.join('(' + ', '.join(map(str, c)) + ')' for c in cyc if len(c) > 1) or '1'
            flat.append(('repr', repr(p), text))
            flat.append(('cycle_repr', p.cycle_repr(), text))
        else:
            flat.append(('oneline_repr', p.oneline_repr(), ('' if r < 10 else ',').join(map(str, t))))
        if w in irank:
            flat.append(('involution length', p.involution_length, irank[w]))
            if M.inv(w) != w:
                ctx.violate(how, 'model error')
        elif M.inv(w) == w:
            ctx.violate(how, 'model error: involution not reached')
        if w in frank and r % 2 == 0 and r == N:
            flat.append(('fpf involution length', p.fpf_involution_length, frank[w]))
        for tag, got, want in flat:
            cmp(ctx, '%s of %s' % (tag, how), got, want)
        cmp(ctx, 'length again of %s' % how, p.length, G.len[w])
        # reduced word: an explicit shortest path
        rw = p.get_reduced_word()
        x = M.ident(N)
        for i in rw:
            x = M.right(x, i)
        if x != w or len(rw) != G.len[w] or p.reduced_word != rw:
            ctx.violate('reduced word of %s' % how, 'not a reduced word', implementation=rw)
        if w in irank:
            for iw in (p.get_involution_word(), p.involution_word):
                z = M.ident(N)
                for i in iw:
                    z = G.conj(z, i)
                if z != w or len(iw) != irank[w]:
                    ctx.violate('involution word of %s' % how, 'not a reduced involution word', implementation=iw)
        if w in frank and r == N:
            for iw in (p.get_fpf_involution_word(), p.fpf_involution_word):
                z = M.minfpf(N)
                for i in iw:
                    z = G.conj(z, i)
                if z != w or len(iw) != frank[w]:
                    ctx.violate('fpf involution word of %s' % how, 'not a reduced word', implementation=iw)
        for i in G.gens:
            s = P.s_i(i)
            cmp(ctx, '%s times s%d' % (how, i), p * s, M.right(w, i))
            cmp(ctx, 's%d times %s' % (i, how), s * p, M.left(w, i))
            cmp(ctx, '%s demazure s%d' % (how, i), p % s, G.act(w, i))
            cmp(ctx, 's%d demazure %s' % (i, how), s % p, G.demazure(M.gen(i, N), w))
            if w in irank:
                cmp(ctx, 's%d demazure %s demazure s%d' % (i, how, i), s % p % s, G.conj(w, i))
        if p.oneline != t:
            ctx.violate(how, 'an accessor changed the permutation')


def pairs(ctx, N, signed, k, ch, R=None):
    G = M.Group(N, signed, None if R is None else 2 * R)
    elems = sorted(w for w in G.len if R is None or G.len[w] <= R)
    objs = [P(*w) for w in elems]
    ctx.fam('elements', states=len(elems))
    for a, (u, p) in enumerate(zip(elems, objs)):
        if a % ch != k:
            continue
        for v, q in zip(elems, objs):
            how = 'P%s P%s' % (u, v)
            ctx.case = how
            ctx.fam('pairs', transitions=3, traces=3)
            got = (p * q).oneline
            want = M.trim(M.mul(u, v))
            if got != want:
                ctx.violate(how + ' product', 'wrong value', implementation=got, model=want)
            got = (p % q).oneline
            want = M.trim(G.demazure(u, v))
            if got != want:
                ctx.violate(how + ' Demazure product', 'wrong value', implementation=got, model=want)
            if (p == q) != (u == v) or (p != q) == (u == v) or (p < q) != (M.trim(u) < M.trim(v)):
                ctx.violate(how, 'comparison is wrong')
        if p.oneline != M.trim(u):
            ctx.violate('P%s' % (u,), 'an operation changed its operand')
        ctx.outcome(u)


def once(ctx, how, got, want):
    got = [g.oneline for g in got]
    want = set(M.trim(w) for w in want)
    ctx.fam('enumerators', states=len(want), transitions=len(got), traces=1)
    ctx.case = how
    if len(got) != len(set(got)):
        ctx.violate(how, 'an element is listed twice', implementation=sorted(got))
    if set(got) != want:
        ctx.violate(how, 'wrong set', missing=sorted(want - set(got))[:5], extra=sorted(set(got) - want)[:5])


def enum(ctx, N):
    G = M.Group(N)
    W = set(G.len)
    once(ctx, 'all(%d)' % N, P.all(N), W)
    invs = [w for w in W if M.inv(w) == w]
    once(ctx, 'involutions(%d)' % N, P.involutions(N), invs)
    fpf = [w for w in invs if all(a != i + 1 for i, a in enumerate(w))]
    once(ctx, 'fpf_involutions(%d)' % N, P.fpf_involutions(N), fpf if N % 2 == 0 else [])
    once(ctx, 'involutions(%d, fpf=True)' % N, P.involutions(N, fpf=True), fpf if N % 2 == 0 else [])
    if N <= 5:
        S = set(M.Group(N, True).len) if N else {()}
        once(ctx, 'all(%d, signed=True)' % N, P.all(N, True), S)
        once(ctx, 'involutions(%d, signed=True)' % N, P.involutions(N, True), [w for w in S if M.inv(w) == w])
    ctx.outcome(N)


def pairings(numbers, odd):
    """sets of disjoint pairs; a number may stay alone if odd"""
    if not numbers:
        yield ()
        return
    a, rest = numbers[0], numbers[1:]
    if odd:
        for x in pairings(rest, odd):
            yield ((a, a),) + x
    for b in rest:
        for x in pairings([c for c in rest if c != b], odd):
            yield ((a, b),) + x


def bigenum(ctx, N, kind):
    """enumerators at higher ranks: involutions from perfect or partial matchings"""
    def make(x):
        w = [0] * N
        for a, b in x:
            w[abs(a) - 1], w[abs(b) - 1] = (b, a) if a > 0 else (-abs(b), -abs(a))
        return tuple(w)
    numbers = list(range(1, N + 1))
    if kind == 2:
        invs = set()
        for x in pairings(numbers, True):
            for signs in itertools.product((1, -1), repeat=len(x)):
                invs.add(make([(s * a, s * b) for s, (a, b) in zip(signs, x)]))
        once(ctx, 'involutions(%d, signed=True)' % N, P.involutions(N, True), invs)
        return
    if kind == 0:
        invs = [make(x) for x in pairings(numbers, True)]
        once(ctx, 'involutions(%d)' % N, P.involutions(N), invs)
        if N <= 8:
            once(ctx, 'all(%d)' % N, P.all(N), set(itertools.permutations(numbers)))
    fpf = [make(x) for x in pairings(numbers, False)] if N % 2 == 0 else []
    once(ctx, 'fpf_involutions(%d)' % N, P.fpf_involutions(N), fpf)
    once(ctx, 'involutions(%d, fpf=True)' % N, P.involutions(N, fpf=True), fpf)
    ctx.outcome(N)


def longpowers(ctx, n):
    """large exponents, for one permutation of every cycle type and the signed ones with one sign changed in each set of cycles"""
    for mu in ref.partitions_of(n):
        w, starts = [0] * n, []
        k = 0
        for a in mu:
            starts.append(k)
            for t in range(a):
                w[k + t] = k + (t + 1) % a + 1
            k += a
        for signs in itertools.product((1, -1), repeat=len(mu)) if n <= 8 else ((1,) * len(mu), (-1,) + (1,) * (len(mu) - 1), (-1,) * len(mu)):
            v = list(w)
            for s, i in zip(signs, starts):
                v[i] *= s
            v = tuple(v)
            ctx.fam('cycle types', states=1)
            orbit, x = [M.ident(n)], v
            while x != orbit[0]:
                orbit.append(x)
                x = M.mul(x, v)
            p = P(*v)
            for e in (8, 9, 10, 11, 12, 13, 16, 20, 24, 27, 30, 32, 60, 61, 64, 100, 101, 120, 128, 211, -8, -12, -13, -60, -61, -64, -101, -127):
                cmp(ctx, 'power %d of P%s' % (e, v), p ** e, orbit[e % len(orbit)])


def special(ctx, N):
    cmp(ctx, 'identity', P.identity(), ())
    for n in range(0, N + 1):
        cmp(ctx, 'longest %d' % n, P.longest_element(n), tuple(range(n, 0, -1)))
        cmp(ctx, 'longest_unsigned %d' % n, P.longest_unsigned(n), tuple(range(n, 0, -1)))
        cmp(ctx, 'signed longest %d' % n, P.longest_element(n, signed=True), tuple(-i for i in range(1, n + 1)))
        cmp(ctx, 's_%d' % n, P.s_i(n), M.gen(n, max(n + 1, 1)))
        if n % 2 == 0:
            cmp(ctx, 'minfpf %d' % n, P.minfpf(n), M.minfpf(n))
        for j in range(1, n):
            w = list(range(1, n + 1))
            w[j - 1], w[n - 1] = n, j
            for a, b in ((j, n), (n, j)):
                cmp(ctx, 'transposition %d %d' % (a, b), P.transposition(a, b), tuple(w))
                cmp(ctx, 'reflection_t %d %d' % (a, b), P.reflection_t(a, b), tuple(w))
            w[j - 1], w[n - 1] = -n, -j
            cmp(ctx, 'reflection_s %d %d' % (j, n), P.reflection_s(j, n), tuple(w))
        if n:
            w = list(range(1, n + 1))
            w[n - 1] = -n
            cmp(ctx, 'reflection_s %d' % n, P.reflection_s(n), tuple(w))
            cmp(ctx, 'reflection_s %d %d' % (n, n), P.reflection_s(n, n), tuple(w))
    for pool in [range(1, n + 1) for n in range(1, 6)] + [(1, 2, 9, 10, 11), (8, 10, 13)]:
        n = max(pool)
        for k in range(0, len(pool) + 1):
            for c in itertools.permutations(pool, k):
                w = list(range(1, n + 1))
                for i in range(len(c)):
                    w[c[i] - 1] = c[(i + 1) % len(c)]
                cmp(ctx, 'cycle%s' % (c,), P.cycle(*c), tuple(w))
                ctx.fam('cycles', states=1)
    for bad in ((1, 1), (2,), (0, 1), (1, 3), (-1, 1), (3, -3, 1)):
        ctx.case = 'P%s' % (bad,)
        ctx.fam('accessors', transitions=1, traces=1)
        try:
            x = P(*bad)
        except (AssertionError, ValueError):
            continue
        ctx.violate('P%s' % (bad,), 'not a permutation but accepted', implementation=x.oneline)
    ctx.outcome('special')


def words(ctx, N, L, signed):
    """every word: product, and the two involution actions, strict and not"""
    G = M.Group(N, signed)
    even = (N + 1) // 2 * 2

    def nonstrict(z, i):
        v = M.left(M.right(z, i), i)
        return M.right(z, i) if v == z else v

    def check(how, got, want):
        ctx.case = how
        ctx.fam('words', transitions=1, traces=1)
        g = None if got is None else got.oneline
        w = None if want is None else M.trim(want)
        if g != w:
            ctx.violate(how, 'wrong value', implementation=g, model=w)

    def rec(word, w, z, zs):
        ctx.fam('words', states=1)
        check('from_word %s' % (word,), P.from_word(word), w)
        check('from_involution_word %s' % (word,), P.from_involution_word(word), zs)
        check('from_involution_word %s not strict' % (word,), P.from_involution_word(word, strict=False), z)
        if not signed:
            n = (1 + max(word) + 1) // 2 * 2 if word else 0
            y, ys = M.minfpf(n), M.minfpf(n)
            H = GROUPS.setdefault(n, None) or GROUPS.update({n: M.Group(n)}) or GROUPS[n]
            for i in word:
                if ys is not None:
                    v = M.left(M.right(ys, i), i)
                    ys = v if v != ys and H.len[v] > H.len[ys] else None
                y = M.left(M.right(y, i), i)
            check('from_fpf_involution_word %s' % (word,), P.from_fpf_involution_word(word), ys)
            check('from_fpf_involution_word %s not strict' % (word,), P.from_fpf_involution_word(word, strict=False), y)
        if len(word) == L:
            return
        for i in G.gens:
            nz = None
            if zs is not None and G.len[M.right(zs, i)] > G.len[zs]:
                nz = G.conj(zs, i)
            rec(word + (i,), M.right(w, i), nonstrict(z, i), nz)
    e = M.ident(N)
    rec((), e, e, e)
    ctx.outcome((N, L, signed))


GROUPS = {0: M.Group(0)}


def run(ctx, name, args):
    globals()[name](ctx, *args)
    ctx.sample('%s %s: last case %s' % (name, args, ctx.case))
