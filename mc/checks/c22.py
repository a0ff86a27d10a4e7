"""Codes, shapes, Grassmannian elements, Bruhat covers and transitions."""
from mc import perms as M, ref, sym
from permutations import Permutation as P
import utils

ID = 'C22'
RULE = ('every permutation, involution and fixed-point-free involution of the stated ranks: diagrams and codes by counting cells, shapes from the '
        'codes, covers as edges of the Bruhat order (reflections of the Cayley graph, rank-matrix order, rank from breadth-first search), '
        'transitions by multiplying atoms; every partition within the bound: the Grassmannian element and its polynomials')
ASSUMPTIONS = ['ranks and partition sizes within the stated bounds']


def jobs(tier):
    q = tier == 'quick'
    ans = []
    for N in (1, 2, 3, 4, 5, 6, 7):
        ch = 1 if N < 5 else 4 if N < 7 else 8
        for k in range(ch):
            ans.append((N, 'codes', (N, k, ch)))
            ans.append((N, 'covers', (N, 0, k, ch)))
    for N in (1, 2, 3, 4):
        ans.append((N * 2, 'covers', (N, 1, 0, 1)))
    for N in (2, 3, 4, 5, 6, 7):
        ans.append((N * 2, 'invcovers', (N,)))
    for N in (2, 4, 6, 8):
        ans.append((N * 2, 'fpfcovers', (N,)))
    # high ranks: everything within a distance of the start
    for N, R in ((8, 4), (9, 3), (10, 3), (11, 2), (12, 2)):
        R += not q
        ans.append((N * 2, 'codes', (N, 0, 1, R)))
        ans.append((N * 2, 'covers', (N, 0, 0, 1, R)))
        ans.append((N * 3, 'invcovers', (N, 2 if q or N > 9 else 3)))
    for N, R in ((5, 5), (6, 4), (8, 3), (10, 2), (11, 2)):
        ans.append((N * 3, 'covers', (N, 1, 0, 1, R + (not q))))
    ans.append((30, 'fpfcovers', (10, 2 if q else 3)))
    ans.append((5, 'grass', (9 if q else 11,)))
    ans.append((20, 'biggrass', ('rows', 5, 8 if q else 10)))
    ans.append((20, 'biggrass', ('all', 4, 6 if q else 7)))
    ans.append((20, 'biggrass', ('long', 3, 12 if q else 16)))
    ans.append((20, 'grasslists', (9 if q else 11, 11 if q else 12, 12 if q else 14)))
    for n in (1, 2, 3):
        for k in range(3):
            ans.append((5 * n, 'grasspoly', ({1: 5, 2: 4, 3: 4}[n] + (0 if q else 1), n, 2, k, 3)))
    return ans


def cmp(ctx, how, got, want):
    ctx.case = how
    ctx.fam('accessors', transitions=1, traces=1)
    if got != want:
        ctx.violate(how, 'wrong value', implementation=got, model=want)


def conj(mu):
    return ref.transpose(mu)


def sort(t):
    return tuple(sorted((a for a in t if a), reverse=True))


def codes(ctx, N, k, ch, R=None):
    G = M.Group(N, False, None if R is None else 2 * R + 2)
    irank = M.weak(G, M.ident(N))[0]
    frank = M.weak(G, M.minfpf(N), M.fpf_allowed)[0] if N % 2 == 0 and M.minfpf(N) in G.len else {}
    for num, w in enumerate(sorted(w for w in G.len if R is None or G.len[w] <= R or w in irank and irank[w] <= R or w in frank and frank[w] <= 1)):
        if num % ch != k:
            continue
        t = M.trim(w)
        p = P(*w)
        how = 'P%s' % (w,)
        r = len(t)
        ctx.fam('permutations', states=1)
        D = sorted((i, w[j - 1]) for i in range(1, N + 1) for j in range(i + 1, N + 1) if w[i - 1] > w[j - 1])
        cmp(ctx, 'diagram of ' + how, p.rothe_diagram(), D)
        rows = tuple(sum(1 for d in D if d[0] == i) for i in range(1, r + 1))
        cols = tuple(sum(1 for d in D if d[1] == i) for i in range(1, r + 1))
        cmp(ctx, 'code of ' + how, p.code(), rows)
        cmp(ctx, 'shape of ' + how, p.shape(), sort(cols))
        cmp(ctx, 'size of shape of ' + how, sum(p.shape()), G.len[w])
        if w in irank:
            I = [d for d in D if d[0] >= d[1]]
            cmp(ctx, 'involution diagram of ' + how, sorted(p.involution_rothe_diagram()), I)
            cmp(ctx, 'involution code of ' + how, p.involution_code(), tuple(sum(1 for d in I if d[0] == i) for i in range(1, r + 1)))
            cmp(ctx, 'involution shape of ' + how, p.involution_shape(), conj(sort(sum(1 for d in I if d[0] == i) for i in range(1, r + 1))))
            cmp(ctx, 'size of involution shape of ' + how, sum(p.involution_shape()), irank[w])
        if w in frank and r == N:
            I = [d for d in D if d[0] > d[1]]
            cmp(ctx, 'fpf diagram of ' + how, sorted(p.fpf_rothe_diagram()), I)
            cmp(ctx, 'fpf diagram (option) of ' + how, sorted(p.involution_rothe_diagram(True)), I)
            cmp(ctx, 'fpf code of ' + how, p.fpf_involution_code(), tuple(sum(1 for d in I if d[0] == i) for i in range(1, r + 1)))
            cmp(ctx, 'fpf shape of ' + how, p.fpf_involution_shape(), conj(sort(sum(1 for d in I if d[0] == i) for i in range(1, r + 1))))
            cmp(ctx, 'size of fpf shape of ' + how, sum(p.fpf_involution_shape()), frank[w])
        # inverse Grassmannian with the descent at the number of rows
        des = G.ldes(w)
        want = not des or (len(des) == 1 and M.inv(w)[0] != 1)
        cmp(ctx, 'is_grassmannian of ' + how, p.is_grassmannian(), want)
        ctx.outcome(w)


def bruhat(u, v):
    for i in range(1, len(u)):
        if any(a > b for a, b in zip(sorted(u[:i]), sorted(v[:i]))):
            return False
    return True


def listed(ctx, how, got, want):
    got = list(got)
    ctx.case = how
    ctx.fam('covers', transitions=len(want), traces=1)
    if len(got) != len(set(got)):
        ctx.violate(how, 'listed twice', implementation=got)
    if set(got) != set(want):
        ctx.violate(how, 'wrong set', implementation=sorted(got), model=sorted(want))


def covers(ctx, N, signed, k, ch, R=None):
    G = M.Group(N, bool(signed), None if R is None else R + 1)
    # reflections: the conjugates of the generators
    refl, new = set(), {M.gen(i, N) for i in G.gens}
    while new:
        refl |= new
        new = {M.left(M.right(t, i), i) for t in new for i in G.gens} - refl
    for num, w in enumerate(sorted(w for w in G.len if R is None or G.len[w] <= R)):
        if num % ch != k:
            continue
        p = P(*w)
        ctx.fam('bruhat order', states=1)
        want = [M.trim(v) for v in (M.mul(w, t) for t in refl) if G.len[v] == G.len[w] - 1]
        listed(ctx, 'bruhat covers of P%s' % (w,), [x.oneline for x in p.bruhat_covers()], want)
        ctx.outcome((w, len(want)))
        if signed:
            continue
        n = len(M.trim(w))
        for r in range(1, N + 1):
            for name, js in (('upper_transitions', range(r + 1, n + 1)), ('lower_transitions', range(1, r))):
                want = []
                for j in js:
                    v = list(M.pad(w, N))
                    v[r - 1], v[j - 1] = v[j - 1], v[r - 1]
                    if G.len[tuple(v)] == G.len[w] + 1:
                        want.append(j)
                got = list(getattr(p, name)(r))
                if want and not got:
                    ctx.fam('covers', traces=1)
                    ctx.violate('%s:yields-nothing' % name, '%s yields nothing although there are covers, first seen for P%s, r=%d' % (name, w, r), model=want)
                else:
                    listed(ctx, '%s(%d) of P%s' % (name, r, w), got, want)


def word_atoms(G, pre, z, memo):
    if z not in memo:
        memo[z] = {M.ident(G.N)} if not pre[z] else {M.right(a, i) for y, i in pre[z] for a in word_atoms(G, pre, y, memo)}
    return memo[z]


def invcovers(ctx, N, R=None):
    G = M.Group(N, False, None if R is None else 2 * R + 3)
    B = M.Group(N + 1, False, None if R is None else 2 * R + 5)
    rank, pre = M.weak(G, M.ident(N))
    brank, bpre = M.weak(B, M.ident(N + 1))
    memo = {}
    owner = {}
    for z in brank:
        for a in word_atoms(B, bpre, z, memo):
            owner[a] = z
    for y in sorted(y for y in rank if R is None or rank[y] <= R):
        p = P(*y)
        ctx.fam('involutions', states=1)
        want = [M.trim(z) for z in rank if rank[z] == rank[y] - 1 and bruhat(z, y)]
        listed(ctx, 'involution covers of P%s' % (y,), [x.oneline for x in p.involution_bruhat_covers()], want)
        n = len(M.trim(y))
        Y = M.pad(y, N + 1)
        ups = {}
        for i in range(1, N + 2):
            for j in range(i + 1, N + 2):
                t = list(range(1, N + 2))
                t[i - 1], t[j - 1] = j, i
                tau = p.tau(i, j)
                zs = set()
                for a in memo[Y]:
                    b = M.mul(a, tuple(t))
                    if B.len[b] == B.len[a] + 1 and b in owner:
                        zs.add(owner[b])
                how = 'tau %d %d of P%s' % (i, j, y)
                ctx.case = how
                ctx.fam('tau', transitions=1, traces=1)
                if zs:
                    if {M.trim(z) for z in zs} != {tau.oneline}:
                        ctx.violate(how, 'wrong involution', implementation=tau.oneline, model=sorted(zs))
                    ups[(i, j)] = 1
                elif M.pad(tau.oneline, N + 1) in brank and brank[M.pad(tau.oneline, N + 1)] == rank[y] + 1:
                    ctx.violate(how, 'moves up although no atom does', implementation=tau.oneline)
        for r in range(1, N + 1):
            listed(ctx, 'upper involution transitions(%d) of P%s' % (r, y), p.upper_involution_transitions(r), [j for j in range(r + 1, n + 1) if (r, j) in ups])
            listed(ctx, 'lower involution transitions(%d) of P%s' % (r, y), p.lower_involution_transitions(r), [i for i in range(1, r) if (i, r) in ups])
        ctx.outcome(y)


def unfpf(z):
    while len(z) >= 2 and z[-1] == len(z) - 1 and z[-2] == len(z):
        z = z[:-2]
    return z


def fpfcovers(ctx, N, R=None):
    G = M.Group(N, False, None if R is None else N // 2 + 2 * R + 2)
    rank = M.weak(G, M.minfpf(N), M.fpf_allowed)[0]
    # one more pair on the right
    H = None

    def ell(z):
        # number of moves down to the minimal element, by walking (breadth-first rank on demand)
        z = list(z)
        c = 0
        while True:
            for i in range(1, len(z)):
                if z[i - 1] > z[i] and z[i - 1] != i + 1:
                    y = M.left(M.right(tuple(z), i), i)
                    z = list(y)
                    c += 1
                    break
            else:
                return c
    for y in sorted(y for y in rank if R is None or rank[y] <= R):
        p = P(*y)
        ctx.fam('fpf involutions', states=1)
        if ell(y) != rank[y]:
            ctx.violate('P%s' % (y,), 'model error')
        want = {unfpf(z) for z in rank if rank[z] == rank[y] - 1 and bruhat(z, y)}
        listed(ctx, 'fpf covers of P%s' % (y,), [unfpf(x.oneline) for x in p.fpf_involution_bruhat_covers()], want)
        Y = y + (N + 2, N + 1)
        for r in range(1, N + 1):
            up, low = [], []
            for j in range(1, N + 3):
                if j == r:
                    continue
                t = list(range(1, N + 3))
                t[r - 1], t[j - 1] = j, r
                z = M.mul(M.mul(tuple(t), Y), tuple(t))
                if ell(z) == rank[y] + 1 and bruhat(Y, z):
                    (up if j > r else low).append(j)
            listed(ctx, 'upper fpf transitions(%d) of P%s' % (r, y), p.upper_fpf_involution_transitions(r), up)
            listed(ctx, 'lower fpf transitions(%d) of P%s' % (r, y), p.lower_fpf_involution_transitions(r), low)
        ctx.outcome(y)


def somegrass(ctx, mus):
    for mu in mus:
        ctx.fam('partitions', states=1)
        w = P.get_grassmannian(*mu)
        cmp(ctx, 'grassmannian %s shape' % (mu,), w.shape(), mu)
        cmp(ctx, 'grassmannian %s length' % (mu,), w.length, sum(mu))
        cmp(ctx, 'grassmannian %s descents' % (mu,), sorted(w.inverse().right_descent_set), [len(mu)] if mu else [])
        cmp(ctx, 'grassmannian %s test' % (mu,), w.is_grassmannian(), True)
        if all(mu[i] > mu[i + 1] for i in range(len(mu) - 1)):
            y = P.get_inv_grassmannian(*mu)
            cmp(ctx, 'inv grassmannian %s shape' % (mu,), y.involution_shape(), mu)
            cmp(ctx, 'inv grassmannian %s length' % (mu,), (y.is_involution(), y.involution_length), (True, sum(mu)))
            cmp(ctx, 'inv grassmannian %s test' % (mu,), y.is_inv_grassmannian(), True)
            z = P.get_fpf_grassmannian(*mu)
            cmp(ctx, 'fpf grassmannian %s shape' % (mu,), z.fpf_involution_shape(), mu)
            cmp(ctx, 'fpf grassmannian %s length' % (mu,), (z.is_fpf_involution(), z.fpf_involution_length), (True, sum(mu)))
        ctx.outcome(mu)


def grass(ctx, size):
    somegrass(ctx, ref.partitions_upto(size))
    for w in P.involutions(6):
        got = w.is_inv_grassmannian()
        want = w.oneline in {P.get_inv_grassmannian(*m).oneline for m in ref.subparts((6, 5, 4, 3, 2, 1), True) if not m or m[0] + len(m) <= 6}
        cmp(ctx, 'is_inv_grassmannian of %s' % w, got, want)


def biggrass(ctx, kind, rows, top):
    """partitions with many rows or long rows"""
    if kind == 'all':
        somegrass(ctx, [m for m in ref.subparts((top,) * rows)])
    elif kind == 'rows':
        somegrass(ctx, [m for m in ref.subparts(tuple(range(top, top - rows, -1)), True)])
    else:
        somegrass(ctx, [m for m in ref.subparts((top,) * rows, True)])


def grasslists(ctx, a, b, c):
    for n in range(1, a + 1):
        delta = tuple(range(n - 1, 0, -1))
        listed(ctx, 'grassmannians(%d)' % n, [w.oneline for w in P.grassmannians(n)], [P.get_grassmannian(*m).oneline for m in ref.subparts(delta)])
    for n in range(1, b + 1):
        delta = tuple(range(n - 1, 0, -2))
        listed(ctx, 'inv_grassmannians(%d)' % n, [w.oneline for w in P.inv_grassmannians(n)], [P.get_inv_grassmannian(*m).oneline for m in ref.subparts(delta, True)])
    for n in range(2, c + 1, 2):
        delta = tuple(range(n - 2, 0, -2))
        listed(ctx, 'fpf_grassmannians(%d)' % n, [w.oneline for w in P.fpf_grassmannians(n)], [P.get_fpf_grassmannian(*m).oneline for m in ref.subparts(delta, True)])


def grasspoly(ctx, size, n, extra, k, ch):
    """polynomials of Grassmannian elements are the polynomials of their shapes"""
    for num, mu in enumerate(ref.partitions_upto(size)):
        if num % ch != k:
            continue
        d = sum(mu) + extra
        ctx.fam('grassmannian polynomials', states=1)

        def same(how, f, g):
            ctx.case = how
            ctx.fam('grassmannian polynomials', transitions=1, traces=1)
            f, g = sym.plain(f, n), sym.plain(g, n)
            if f != g:
                ctx.violate(how, 'the two polynomials differ', permutation=f, shape=g)
        w = P.get_grassmannian(*mu)
        if w.rank <= 7:
            same('G of grassmannian %s, n=%d' % (mu, n), w.stable_grothendieck(n, d), utils.G(n, conj(mu)).truncate(d))
        if all(mu[i] > mu[i + 1] for i in range(len(mu) - 1)):
            y = P.get_inv_grassmannian(*mu)
            if y.rank <= 6:
                same('GP of inv grassmannian %s, n=%d' % (mu, n), y.involution_stable_grothendieck(n, d), utils.GP(n, mu).truncate(d))
            z = P.get_fpf_grassmannian(*mu)
            if z.rank <= 8:
                same('GP of fpf grassmannian %s, n=%d' % (mu, n), z.symplectic_stable_grothendieck(n, d), utils.GP(n, mu).truncate(d))
        ctx.outcome(mu)


def run(ctx, name, args):
    globals()[name](ctx, *args)
    ctx.sample('%s %s: last case %s' % (name, args, ctx.case))
