"""Crystal generators against crystal graphs explored from the definitions."""
import itertools
from collections import Counter
from mc import ref as R
from mc import crys as K
from mc import insert as I
from mc import insertrun as IR
from crystals import (WordCrystalGenerator, TableauCrystalGenerator, ShiftedCrystalGenerator, OrthogonalSetvaluedShiftedCrystalGenerator,
                      URTShiftedCrystalGenerator, MRTShiftedCrystalGenerator, MRT_Symplectic_ShiftedCrystalGenerator)

ID = 'C11'
RULE = ('for every parameter choice in bounds the crystal graph is built by exhaustive exploration: vertices from the definitions (paths in the Demazure graph cut into '
        'factors; all tableaux), edges by transporting the signature rule through the model of insertion, components by breadth-first search; vertices, edges, '
        'components and strings reported by the generators must be exactly these')
ASSUMPTIONS = ['permutations, shapes, ranks, lengths and excess within the stated bounds']


def jobs(tier):
    q = tier == 'quick'
    ans = []
    for n, k, L in ([(2, 3, 4), (3, 3, 3), (3, 3, 4), (3, 2, 5), (3, 4, 3), (4, 2, 4), (4, 3, 3)] if q else
                    [(2, 3, 6), (3, 3, 4), (3, 3, 5), (3, 4, 4), (3, 2, 6), (4, 3, 4), (4, 2, 5), (4, 4, 3)]):
        for w in itertools.permutations(range(1, n + 1)):
            for dec in (False, True):
                for l in range(L + 1):
                    ans.append((k ** l * n, 'words', (w, k, l, dec)))
    for w in itertools.permutations(range(1, 5)):
        inv = sum(1 for a, b in itertools.combinations(w, 2) if a > b)
        if inv >= 5:
            for dec in (False, True):
                ans.append((300, 'words', (w, 2 if q and inv == 6 else 3, inv, dec)))
    # high generators
    for m, n, k, L in [(8, 3, 3, 3), (8, 2, 3, 3), (9, 3, 2, 3)] if q else [(8, 3, 3, 4), (7, 3, 4, 3), (9, 3, 2, 4), (10, 2, 4, 4)]:
        for w in itertools.permutations(range(m + 1, m + n + 1)):
            if w[-1] != m + n:
                for dec in (False, True):
                    for l in range(L + 1):
                        ans.append((k ** l * n + (m + n) ** l / 5., 'words', (tuple(range(1, m + 1)) + w, k, l, dec)))
    for n, sv, top in [(5, False, 3), (6, False, 3), (8, False, 2), (10, False, 2), (12, False, 1), (5, True, 1), (6, True, 1), (8, True, 1)]:
        for mu in R.partitions_upto(top if q else top + (not sv)):
            ans.append((n ** sum(mu) * 2, 'tableaux', (mu, n, sv)))
    for mu in R.partitions_upto(4 if q else 5):
        for n in (1, 2, 3, 4):
            if len(mu) <= n and (n < 4 or sum(mu) <= (2 if q else 3)) and not (q and n == 3 and sum(mu) > 3):
                for sv in (True, False):
                    ans.append((n ** sum(mu) * 2, 'tableaux', (mu, n, sv)))
    for mu in R.partitions_upto(6 if q else 7, strict=True):
        for rank in (2, 3, 4):
            for excess in range(0, 3 if q else 4):
                if sum(mu) + excess > ((0, 0, 6, 5, 4) if q else (0, 0, 7, 6, 5))[rank] and (excess or rank == 4 or len(mu) < 3):
                    continue
                if q and mu and (mu[0] > 5 or mu[0] == 5 and sum(mu) + excess > 5):
                    continue
                for ms in (True, False):
                    for sp in (False, True):
                        ans.append((rank ** (sum(mu) + excess) * (3 if sp else 1), 'shifted', (mu, rank, excess, ms, sp)))
                for kind in ('urt', 'mrt', 'mrtsp'):
                    ans.append((rank ** (sum(mu) + excess), 'fixed', (mu, rank, excess, kind)))
    return ans


def factorizations(w, k, strictly_decreasing):
    """all ways to cut w into k factors, each weakly increasing (strictly decreasing)"""
    out = set()
    for cuts in itertools.combinations_with_replacement(range(len(w) + 1), k - 1):
        b = (0,) + cuts + (len(w),)
        parts = tuple(tuple(w[b[t]:b[t + 1]]) for t in range(k))
        if all((x > y if strictly_decreasing else x <= y) for p in parts for x, y in zip(p, p[1:])):
            out.add(parts)
    return out


def array(parts):
    return tuple(a for p in parts for a in p), tuple(t + 1 for t, p in enumerate(parts) for _ in p)


def insertion(kind, word, record, multiset):
    P, Q = {}, {}
    for k, a in enumerate(word):
        P, Q = IR.step(kind, P, Q, k + 1, a)
    P, Q = IR.variant(kind, P, Q, multiset)
    return K.frozen(P), K.frozen(IR.rename(Q, record))


def hecke_words(kind, z, L):
    """all Hecke words of length L of z, by exploring the Demazure graph"""
    out = []
    n = max([2] + list(z)) - 1
    memo = {}

    def can(y, left):
        """whether z can be reached from y in so many steps"""
        if (y, left) not in memo:
            memo[y, left] = y == z if left == 0 else any(v is not None and can(v, left - 1) for v in (IR.act(kind, y, a) for a in range(1, n + 1)))
        return memo[y, left]

    def rec(word, y):
        if not can(y, L - len(word)):
            return
        if len(word) == L:
            if y == z:
                out.append(word)
            return
        for a in range(1, n + 1):
            v = IR.act(kind, y, a)
            if v is not None:
                rec(word + (a,), v)
    rec((), ())
    return out


def tableau_op(Q, i, multiset):
    Q = dict(Q)
    if not multiset:
        r = K.setvalued_op(Q, i, True)
        return None if r is None else K.frozen(r)
    cols = K.column_reading(Q)
    w = K.word_op(tuple(a for c in cols for a in c), i, True)
    if w is None:
        return None
    # the multiset-valued tableau of the same shape with the changed reading word
    out, k = {}, 0
    for c, col in zip(sorted({j for _, j in Q}), cols):
        part = w[k:k + len(col)]
        k += len(col)
        h = len([x for x in Q if x[1] == c])
        mins = part[:h][::-1]
        assert all(a < b for a, b in zip(mins, mins[1:]))
        boxes = [[a] for a in mins]
        for a in part[h:]:
            boxes[max(t for t in range(h) if mins[t] <= a)].append(a)
        for t in range(h):
            out[t + 1, c] = tuple(sorted(boxes[t]))
    return K.frozen(out)


def graph(ctx, label, gen, names, vertices, edges, rank):
    """names: the implementation's elements in its order, as model vertices"""
    if len(gen) != len(vertices) or len(set(names)) != len(names) or set(names) != set(vertices):
        ctx.violate(label + ' vertices', 'the generator lists the wrong set of vertices', missing=set(vertices) - set(names),
                    extra=set(names) - set(vertices), listed=len(names), expected=len(vertices))
    ctx.equal(label + ' rank', gen.rank, rank)
    got = [(names[x], names[y], i) for x, y, i in gen.edges]
    if len(got) != len(set(got)) or set(got) != set(edges):
        ctx.violate(label + ' edges', 'the generator reports the wrong edges', missing=set(edges) - set(got), extra=set(got) - set(edges))
    comps = [frozenset(names[x] for x in c) for c in gen.components]
    want = [frozenset(c) for c in K.components(vertices, edges)]
    if len(comps) != len(set(comps)) or set(comps) != set(want):
        ctx.violate(label + ' components', 'the generator reports the wrong components', got=comps, want=want)
    f = {(x, i): y for x, y, i in edges}
    index = {v: k for k, v in enumerate(names)}
    for i in range(1, rank):
        tops = set(vertices) - {y for x, y, j in edges if i == j}
        strings = set()
        for v in tops:
            s = [v]
            while (s[-1], i) in f:
                s.append(f[s[-1], i])
            strings.add(tuple(s))
        got = [tuple(names[x] for x in s) for s in gen.istrings(i)]
        if len(got) != len(strings) or set(got) != strings:
            ctx.violate(label + ' strings %d' % i, 'the generator reports the wrong strings', got=got, want=strings)
        for v in vertices:
            y = gen.f_crystal_operator(index[v], i)
            if (None if y is None else names[y]) != f.get((v, i)):
                ctx.violate(label + ' f_%d %s' % (i, v), 'wrong value of the lowering operator')
    return len(vertices), len(edges)


def trim(z):
    z = tuple(z)
    while z and z[-1] == len(z):
        z = z[:-1]
    return z


def words(ctx, w, k, L, dec):
    label = 'words %s %d %d %s' % (w, k, L, dec)
    ctx.case = label
    W = hecke_words('hecke', trim(w), L)
    V, pair = [], {}
    for u in W:
        parts = factorizations(u, k, dec)
        got = [tuple(tuple(p) for p in t) for t in WordCrystalGenerator.get_increasing_factorizations(u, k, dec)]
        if len(got) != len(parts) or set(got) != parts:
            ctx.violate('factorizations %s %d %s' % (u, k, dec), 'wrong factorizations', got=got, want=parts)
        for p in parts:
            x = array(p)
            ctx.equal('array %s' % (p,), tuple(WordCrystalGenerator.factorization_tuple_to_array(p)), x)
            V.append(x)
            pair[x] = insertion('hecke', x[0], x[1], not dec)
    back = {v: x for x, v in pair.items()}
    assert len(back) == len(pair)
    edges = []
    for x in V:
        P, Q = pair[x]
        for i in range(1, k):
            R2 = tableau_op(Q, i, not dec)
            if R2 is not None:
                edges.append((x, back[P, R2], i))
    bad = K.check_normal(V, edges, {x: K.weight(x[1], k) for x in V}, k)
    if bad:
        raise AssertionError('model: ' + bad)
    g = WordCrystalGenerator(w, k, L, dec)
    a, b = graph(ctx, label, g, [tuple(g[i]) for i in range(len(g))], V, edges, k)
    ctx.fam('word crystals, permutations of %d, %d factors' % (len(w), k), states=a, transitions=b, traces=a * k)


def tableaux(ctx, mu, n, sv):
    label = 'tableaux %s %d %s' % (mu, n, sv)
    ctx.case = label
    V = [K.frozen(T) for T in R.fillings(R.boxes(mu), n, setvalued=sv)]
    edges = []
    for x in V:
        for i in range(1, n):
            y = tableau_op(x, i, False)
            if y is not None:
                edges.append((x, y, i))
    g = TableauCrystalGenerator(mu, n, setvalued=sv)
    names = [K.frozen({c: tuple(sorted(v)) for c, v in g[i].boxes.items()}) for i in range(len(g))]
    a, b = graph(ctx, label, g, names, V, edges, n)
    ctx.fam('tableau crystals, size %d' % sum(mu), states=a, transitions=b, traces=a * n)


def shifted_graph(label, kind, W, rank, multiset):
    """vertices: recording tableaux; edges through ordinary Hecke insertion of the same factorization"""
    V, pair, arr = {}, {}, {}
    P0 = None
    for u in W:
        for p in factorizations(u, rank, not multiset):
            x = array(p)
            P, Q = insertion(kind, x[0], x[1], multiset)
            assert P0 is None or P == P0, 'model: several insertion tableaux'
            P0 = P
            V[Q] = x
            pair[x] = insertion('hecke', x[0], x[1], multiset)
            arr[x] = Q
    back = {v: x for x, v in pair.items()}
    edges = []
    for Q, x in V.items():
        P, T = pair[x]
        for i in range(1, rank):
            T2 = tableau_op(T, i, multiset)
            if T2 is not None:
                edges.append((Q, arr[back[P, T2]], i))
    bad = K.check_normal(list(V), edges, {Q: K.weight([abs(a) for _, v in Q for a in v], rank) for Q in V}, rank)
    if bad:
        raise AssertionError('model: ' + bad)
    return list(V), edges


def grassmannian(kind, mu):
    """the element whose Hecke words insert to one shifted tableau of shape mu: from the superstandard reading word"""
    n = len(mu)
    d = 1 if kind == 'orthogonal' else 2
    P = {(i + 1, i + j + 1): 2 * i + j + d for i in range(n) for j in range(mu[i])}
    return IR.value(kind, I.reading(P))


def shifted(ctx, mu, rank, excess, ms, sp):
    label = 'shifted %s rank %d excess %d %s %s' % (mu, rank, excess, ms, sp)
    ctx.case = label
    kind = 'symplectic' if sp else 'orthogonal'
    for name, build in [('ShiftedCrystalGenerator', lambda: ShiftedCrystalGenerator(mu, rank, excess, ms, sp))] + \
            ([('OrthogonalSetvaluedShiftedCrystalGenerator', lambda: OrthogonalSetvaluedShiftedCrystalGenerator(mu, rank, excess))] if not ms and not sp else []):
        if rank == 2 and len(mu) > 2:
            continue
        # the involution of shape mu used by the generator (its shape is checked by C22)
        from permutations import Permutation
        z = tuple((Permutation.get_fpf_grassmannian if sp else Permutation.get_inv_grassmannian)(*mu).oneline)
        if sp:
            while z and z[-1] == len(z) - 1 and z[-2] == len(z):
                z = z[:-2]
        else:
            z = trim(z)
        W = hecke_words(kind, z, sum(mu) + excess)
        V, edges = shifted_graph(label, kind, W, rank, ms)
        if not V:
            continue
        g = build()
        names = [K.frozen(IR.norm(g[i])) for i in range(len(g))]
        a, b = graph(ctx, label + name, g, names, V, edges, rank)
        ctx.fam('shifted crystals, size %d, rank %d' % (sum(mu), rank), states=a, transitions=b, traces=a * rank)


def fixed(ctx, mu, rank, excess, kind):
    """generators with a prescribed insertion tableau: vertices are all set-valued shifted tableaux without primes on the diagonal"""
    label = '%s %s rank %d excess %d' % (kind, mu, rank, excess)
    ctx.case = label
    cells = R.boxes(mu, shifted=True)
    V = [K.frozen({c: tuple(sorted(v, key=I.key)) for c, v in T.items()})
         for T in R.fillings(cells, rank, marked=True, setvalued=True, diag=lambda a: a > 0) if sum(len(v) for v in T.values()) == sum(mu) + excess]
    ins = 'symplectic' if kind == 'mrtsp' else 'orthogonal'
    P = {}
    for i in range(len(mu)):
        for j in range(mu[i]):
            P[i + 1, i + j + 1] = len(P) + 1 if kind == 'urt' else 2 * i + j + 1 + (kind == 'mrtsp')
    z = IR.value(ins, I.reading(P))
    P = K.frozen(P)
    pair, arr, word = {}, {}, {}
    for u in hecke_words(ins, z, sum(mu) + excess):
        if insertion(ins, u, tuple(range(1, len(u) + 1)), False)[0] != P:
            continue
        for p in factorizations(u, rank, True):
            x = array(p)
            Q = insertion(ins, x[0], x[1], False)[1]
            arr[x] = Q
            word[Q] = x
            pair[x] = insertion('hecke', x[0], x[1], False)
    if set(word) != set(V):
        raise AssertionError('model: recording tableaux of the insertion class are not all set-valued shifted tableaux')
    back = {v: x for x, v in pair.items()}
    edges = []
    for Q in V:
        T, S = pair[word[Q]]
        for i in range(1, rank):
            S2 = tableau_op(S, i, False)
            if S2 is not None:
                edges.append((Q, arr[back[T, S2]], i))
    g = {'urt': URTShiftedCrystalGenerator, 'mrt': MRTShiftedCrystalGenerator, 'mrtsp': MRT_Symplectic_ShiftedCrystalGenerator}[kind](mu, rank, excess)
    names = [K.frozen(IR.norm(g[i])) for i in range(len(g))]
    a, b = graph(ctx, label, g, names, V, edges, rank)
    ctx.fam('%s crystals, size %d' % (kind, sum(mu)), states=a, transitions=b, traces=a * rank)


def run(ctx, name, args):
    globals()[name](ctx, *args)
