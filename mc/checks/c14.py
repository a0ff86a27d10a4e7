"""Hecke words and permutation Grothendieck polynomials against paths and factorization counts in Demazure graphs."""
import itertools
from mc import perms as M
from mc import sym
import utils
from permutations import Permutation as P

ID = 'C14'
RULE = ('words: breadth-first search of the Demazure graph by all words up to the length bound; for every element and every length / ascent / '
        'peak bound the set of paths ending there must equal the enumerated words, on first and repeated calls in two orders of the bounds; '
        'polynomials: a dynamic program over (element, factor sizes) counts factorizations, for every element, number of variables and degree bound')
ASSUMPTIONS = ['ranks, lengths, numbers of variables and degree bounds within the stated bounds']


def jobs(tier):
    t = 0 if tier == 'quick' else 1
    ans = []
    for kind, N, L in [('plain', 1, 3), ('plain', 2, 8), ('plain', 3, 12 + t), ('plain', 4, 9 + t), ('plain', 5, 7 + t),
                       ('symplectic', 2, 4), ('symplectic', 4, 10 + t), ('symplectic', 6, 6 + t), ('symplectic', 8, 4 + t),
                       ('involution', 1, 6), ('involution', 2, 10), ('involution', 3, 9 + t), ('involution', 4, 7 + t)]:
        for order in (0, 1):
            ans.append((N * 3, 'words', (kind, N, L, order)))
    for kind, N, n, d in [('plain', 4, 1, 8), ('plain', 4, 2, 9), ('plain', 4, 3, 9 + t), ('plain', 4, 4, 8 + t), ('plain', 3, 3, 7), ('plain', 3, 4, 10 + t),
                          ('plain', 2, 5, 8), ('plain', 6, 2, 6 + t), ('plain', 3, 5, 10), ('plain', 4, 4, 12), ('plain', 5, 2, 8 + t), ('plain', 5, 3, 7 + t),
                          ('symplectic', 4, 1, 6), ('symplectic', 4, 2, 7), ('symplectic', 4, 3, 9 + t), ('symplectic', 4, 4, 8 + t), ('symplectic', 6, 2, 7 + t), ('symplectic', 6, 3, 6 + t),
                          ('involution', 3, 2, 6), ('involution', 3, 3, 7), ('involution', 4, 1, 6), ('involution', 4, 2, 6), ('involution', 4, 3, 7 + t), ('involution', 2, 4, 6),
                          ('signed', 1, 3, 5), ('signed', 2, 1, 5), ('signed', 2, 2, 8), ('signed', 1, 4, 8), ('signed', 2, 1, 4), ('signed', 2, 3, 8 + t), ('signed', 3, 1, 6), ('signed', 3, 2, 6 + t), ('signed', 3, 3, 6 + t)]:
        ans.append((N * n, 'polys', (kind, N, n, d)))
    for kind, N, L in [('plain', 12, 2), ('plain', 8, 3), ('symplectic', 12, 2), ('symplectic', 10, 3), ('involution', 11, 2), ('involution', 7, 3)]:
        ans.append((50, 'words', (kind, N, L + t, 0, True)))
    for kind, N, n, d in [('plain', 12, 2, 3), ('plain', 8, 3, 4), ('symplectic', 12, 2, 3), ('symplectic', 10, 3, 4), ('involution', 11, 2, 2), ('involution', 8, 2, 3), ('signed', 11, 2, 2), ('signed', 7, 2, 3)]:
        ans.append((50, 'polys', (kind, N, n, d + t, True)))
    return ans


def system(kind, N, top=None):
    """complete graphs, or (lengths by counting inversions) only the part reached by words of at most the given length"""
    if top is None:
        G = M.Group(N, kind in ('involution', 'signed')) if N else M.Group(0)
    else:
        M.Wide.validate()
        G = M.Wide(N, kind in ('involution', 'signed'))
    if kind == 'plain':
        return G.gens, M.ident(N), lambda w, i: G.act(w, i), dict((G if top is None else M.Group(N, False, top)).len)
    if kind == 'symplectic':
        rank = M.weak(G, M.minfpf(N), M.fpf_allowed, top)[0]
        return G.gens, M.minfpf(N), lambda z, i: None if z[i - 1] == i + 1 else G.conj(z, i), rank
    rank = M.weak(G, M.ident(N), None, top)[0]
    return G.gens, M.ident(N), lambda z, i: G.conj(z, i), rank


def factors(word):
    """least number of strictly decreasing factors"""
    best = [0] + [99] * len(word)
    for j in range(1, len(word) + 1):
        for i in range(j):
            if all(word[k] > word[k + 1] for k in range(i, j - 1)):
                best[j] = min(best[j], best[i] + 1)
    return best[-1]


def vee(word):
    """no interior weak peak"""
    return not any(word[k - 1] <= word[k] >= word[k + 1] for k in range(1, len(word) - 1))


def vfactors(word):
    """least number of factors without interior weak peak"""
    best = [0] + [99] * len(word)
    for j in range(1, len(word) + 1):
        for i in range(j):
            if vee(word[i:j]):
                best[j] = min(best[j], best[i] + 1)
    return best[-1]


def check(ctx, how, got, want):
    ctx.case = how
    got = list(got)
    ctx.fam('word sets', transitions=len(want), traces=1)
    if len(got) != len(set(got)):
        ctx.violate(how, 'a word is listed twice', implementation=got[:20])
    if set(got) != want:
        ctx.violate(how, 'wrong set of words', missing=sorted(want - set(got))[:5], extra=sorted(set(got) - want)[:5])


def words(ctx, kind, N, L, order, wide=False):
    gens, start, step, rank = system(kind, N, L if wide else None)
    paths = {(): start}
    level = {(): start}
    edges = 0
    for _ in range(L):
        new = {}
        for w, z in level.items():
            for i in gens:
                edges += 1
                y = step(z, i)
                if y is not None:
                    new[w + (i,)] = y
        paths.update(new)
        level = new
    ctx.fam('paths ' + kind, states=len(paths), transitions=edges)
    stat = factors if kind != 'involution' else vfactors
    num = {w: stat(w) for w in paths}
    by = {}
    for w, z in paths.items():
        by.setdefault(M.trim(z) if kind != 'symplectic' else z, set()).add(w)
    bounds = [None, 1, 2, 3]
    lengths = [L, 0, 2, L - 1, 1, 3]
    combos = [(b, n) for b in bounds for n in lengths if n <= L]
    if order:
        combos = combos[::-1]

    def ok(w, b):
        if b is None:
            return True
        if kind == 'involution':
            return num[w] <= b
        return num[w] <= b
    for b, n in combos:
        want = {w for w in paths if len(w) <= n and ok(w, b)}
        how = '%s words of rank %d, length <= %d, bound %s' % (kind, N, n, b)
        if kind == 'plain':
            got = P.hecke_words(N, n, b)
        elif kind == 'symplectic':
            got = P.symplectic_hecke_words(N, n, b)
        else:
            got = P.involution_hecke_words(N, n, b)
        check(ctx, how, got, want)
        ctx.outcome((how, len(want)))
        if kind == 'symplectic':
            # without repetition of the element along the path: minimal words
            got = P.symplectic_hecke_words(N, n, b, hecke=False)
            check(ctx, how + ', reduced', got, {w for w in want if rank[paths[w]] == len(w)})
            lev = list(P.symplectic_hecke_levels(N, n, b))
        elif kind == 'plain':
            lev = list(P.hecke_levels(N, n, b))
        else:
            lev = list(P.involution_hecke_levels(N, n, b))
            red = list(P.involution_hecke_levels(N, n, b, hecke=False))
            check(ctx, how + ', reduced', [w for l in red for _, w in l], {w for w in want if rank[paths[w]] == len(w)})
        for k, l in enumerate(lev):
            for p, w in l:
                if len(w) != k or p.oneline != M.trim(paths[w]):
                    ctx.violate(how + ' levels', 'wrong element or level', word=w, implementation=p.oneline)
        for z in sorted(by):
            r = len(M.trim(z))
            if kind == 'symplectic' and (r != N):
                continue
            mine = {w for w in by[z] if len(w) <= n and ok(w, b) and (not w or max(w) < max(r, 1) or kind == 'symplectic')}
            p = P(*z)
            tag = 'words of %s P%s, length <= %d, bound %s' % (kind, z, n, b)
            if kind == 'plain':
                check(ctx, tag, p.get_hecke_words(n, b), mine)
            elif kind == 'symplectic':
                check(ctx, tag, p.get_symplectic_hecke_words(n, b), mine)
            else:
                check(ctx, tag, p.get_involution_hecke_words(n, b), mine)
    # without length bound, a bound on the number of factors leaves finitely many words
    if kind != 'involution' and N <= 3:
        top = L // max(N - 1, 1) if N > 1 else 3
        for b in range(0, min(3, top) + 1):
            got = (P.hecke_words if kind == 'plain' else P.symplectic_hecke_words)(N, None, b)
            check(ctx, '%s words of rank %d, bound %s only' % (kind, N, b), got, {w for w in paths if num[w] <= b})


def polys(ctx, kind, N, n, d, wide=False):
    gens, start, step, rank = system(kind, N, d if wide else None)
    # all factors (decreasing, or decreasing then increasing with multiplicity) as transitions of the element
    if kind == 'signed':
        facs = {}
        for a in range(min(d, len(gens)) + 1):
            for dec in itertools.combinations(sorted(gens, reverse=True), a):
                for b in range(min(d - a, len(gens)) + 1):
                    for inc in itertools.combinations(sorted(gens), b):
                        facs[dec + inc] = facs.get(dec + inc, 0) + 1
    else:
        facs = {f: 1 for a in range(min(d, len(gens)) + 1) for f in itertools.combinations(sorted(gens, reverse=True), a)}

    def run(z, f):
        for i in f:
            z = step(z, i)
            if z is None:
                return None
        return z
    trans = {}
    for z in rank:
        for f, m in facs.items():
            y = run(z, f)
            if y is not None:
                trans.setdefault(z, []).append((y, len(f), m))
    layer = {(start, ()): 1}
    count = 0
    for k in range(n):
        new = {}
        for (z, alpha), c in layer.items():
            for y, size, m in trans[z]:
                if sum(alpha) + size > d or (alpha and size > alpha[-1]):
                    continue
                key = (y, alpha + (size,))
                new[key] = new.get(key, 0) + c * m
                count += 1
        layer = new
    table = {}
    for (z, alpha), c in layer.items():
        table.setdefault(z, {})[tuple(a for a in alpha if a)] = c
    ctx.fam('factorizations ' + kind, states=len(layer), transitions=count)
    for z in sorted(rank):
        if kind == 'symplectic' and len(M.trim(z)) != N:
            continue
        p = P(*z)
        unsigned = min(z) > 0 if z else True
        if kind == 'involution' and not unsigned:
            continue
        full = n * len(gens) * (2 if kind == 'signed' else 1) <= d
        for bound in ([d, rank[z], d - 1] if rank[z] <= d else [d]) + [None] * full:
            if bound is not None and bound < 0:
                continue
            want = {}
            for alpha, c in table.get(z, {}).items():
                if bound is None or sum(alpha) <= bound:
                    want[alpha] = {sum(alpha) - rank[z]: c}
            how = '%s polynomial of P%s, %d variables, degree <= %s' % (kind, z, n, bound)
            ctx.case = how
            f = {'plain': p.stable_grothendieck, 'symplectic': p.symplectic_stable_grothendieck,
                 'involution': p.involution_stable_grothendieck, 'signed': p.signed_involution_stable_grothendieck}[kind](n, bound)
            ctx.fam('polynomials ' + kind, states=1, traces=1)
            got = sym.plain(f, n)
            if got != want:
                ctx.violate(how, 'wrong polynomial', implementation=got, model=want)
            front = {'plain': utils.G, 'symplectic': utils.GP, 'signed': utils.GS}.get(kind)
            if front is not None:
                got = sym.plain(front(n, p, (), bound) if z and bound is not None else front(n, p, degree_bound=bound), n)
                ctx.equal('through utils: ' + how, got, want)
            ctx.outcome((how, len(want)))


def run(ctx, name, args):
    globals()[name](ctx, *args)
    ctx.sample('%s %s: last case %s' % (name, args, ctx.case))
