"""Orthogonal and symplectic Hecke insertion."""
from mc import insertrun

ID = 'C09'
RULE = ('all Hecke words of (fixed-point-free) involutions over 1..n up to the length bound are explored as paths of the shifted insertion transition system '
        '(state: involution and pair of shifted tableaux, transition: insert one letter); the implementation must end in the same state for both options and '
        'return to the word and record through the inverse, for every compatible record in range; all pairs (increasing shifted tableau whose reading word is '
        'a Hecke word, standard shifted recording tableau) are replayed through the inverse and forward again; every bumping path is also walked one step at '
        'a time in both directions, and must visit the same states')
ASSUMPTIONS = ['alphabets, lengths and record values within the stated bounds']


def jobs(tier):
    q = tier == 'quick'
    ans = [(300, 'split', ('orthogonal', 3, 4 if q else 5)), (300, 'split', ('symplectic', 5, 4 if q else 5))]
    for n, L in [(2, 9), (3, 7 if q else 8), (4, 5 if q else 6), (6, 4 if q else 5), (8, 3 if q else 4)]:
        ans.append((n ** L, 'paths', ('orthogonal', n, L)))
    for n, L in [(3, 9), (5, 6 if q else 7), (7, 4 if q else 5), (9, 4)]:
        ans.append((n ** L // 2, 'paths', ('symplectic', n, L)))
    for n, L, recs in [(2, 7, (5, 5)), (3, 6 if q else 8, (4, 4) if q else (6, 5)), (4, 5 if q else 6, (4, 4) if q else (5, 5)), (5, 4 if q else 5, (3, 4) if q else (4, 5)),
                       (6, 4 if q else 5, (3, 3) if q else (4, 4))]:
        for a in range(1, n + 1):
            ans.append((n ** L, 'words', ('orthogonal', n, L, (a,), recs)))
    for n, L, recs in [(3, 9 if q else 11, (6, 4)), (5, 6 if q else 7, (4, 4) if q else (5, 5)), (6, 5 if q else 7, (4, 4) if q else (5, 5)), (7, 5 if q else 6, (4, 4)), (9, 4 if q else 5, (3, 3))]:
        for a in range(2, n + 1, 2):
            for b in range(1, n + 1):
                ans.append((n ** (L - 2), 'words', ('symplectic', n, L, (a, b), recs)))
            ans.append((1, 'words', ('symplectic', n, 1, (a,), recs)))
    for letters, L in [((8, 9, 10, 11), 5), ((1, 9, 10, 100), 4), ((2, 5, 11), 5)]:
        for a in letters:
            ans.append((len(letters) ** L, 'words', ('orthogonal', letters, L - q, (a,), (3, 3), 8)))
    for letters, L in [((9, 10, 11, 12, 13), 5), ((2, 9, 10, 11, 100), 5)]:
        for a in letters:
            if a % 2 == 0:
                ans.append((len(letters) ** L, 'words', ('symplectic', letters, L - q, (a,), (3, 3), 8)))
    for n, L, parts in [(7, 2, 4), (4, 3, 8)] if q else [(11, 2, 16), (5, 3, 16), (3, 4, 9)]:
        for part in range(parts):
            ans.append(((n * n) ** L / parts, 'runs', ('orthogonal', n, L, part, parts)))
    for n, L, parts in [(8, 2, 4), (5, 3, 8)] if q else [(11, 2, 16), (6, 3, 16), (4, 4, 12)]:
        for part in range(parts):
            ans.append(((n * n) ** L / parts / 3., 'runs', ('symplectic', n, L, part, parts)))
    for n, L in [(2, 6), (3, 5 if q else 7), (4, 4 if q else 6), (5, 4 if q else 5)]:
        for l in range(L + 1):
            ans.append((n ** l, 'pairs', ('orthogonal', n, l)))
    for n, L in [(3, 6 if q else 8), (5, 5 if q else 6), (7, 4 if q else 5)]:
        for l in range(L + 1):
            ans.append((n ** (l - 1), 'pairs', ('symplectic', n, l)))
    for kind in ('orthogonal', 'symplectic'):
        for shape, k, tail, parts in [((3, 2, 1), 2, 2, 4), ((4, 3, 2), 1, 2, 2), ((4, 3, 2, 1), 1, 2, 4), ((5, 4, 3, 2, 1), 1, 1, 6), ((5, 3, 1), 1, 2, 2), ((7, 2, 1), 1, 1, 2), ((4, 3), 2, 2, 4)]:
            for part in range(parts if q else 4 * parts):
                ans.append((10 ** 5, 'edits', (kind, shape, k + (not q), tail + (not q and len(shape) < 5), k == 1, part, parts if q else 4 * parts)))
    return ans


run = insertrun.run
