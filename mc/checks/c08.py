"""Hecke insertion."""
from mc import insertrun

ID = 'C08'
RULE = ('all words over 1..n up to the length bound are explored as paths of the insertion transition system (state: pair of tableaux, transition: insert one '
        'letter by the published rule); the implementation must end in the same state for both options, give it back through the inverse, and do so for '
        'every compatible record with values in the stated range; separately all pairs (increasing tableau, standard recording tableau) are generated '
        'from the graph of recording tableaux and replayed through the inverse and forward again; every bumping path is also walked one step at a time in '
        'both directions, and must visit the same states')
ASSUMPTIONS = ['alphabets, lengths and record values within the stated bounds']


def jobs(tier):
    q = tier == 'quick'
    ans = [(300, 'split', ('hecke', 3, 4 if q else 6))]
    for n, L in [(2, 9), (3, 7 if q else 8), (4, 5 if q else 7), (6, 4 if q else 5), (8, 3 if q else 4)]:
        ans.append((n ** L, 'paths', ('hecke', n, L)))
    for n, L, recs in [(2, 8, (6, 6)), (3, 7 if q else 8, (4, 5) if q else (6, 6)), (4, 6, (4, 4) if q else (5, 5)), (5, 5 if q else 6, (3, 4) if q else (4, 5)),
                       (6, 4 if q else 5, (3, 4) if q else (4, 4)), (8, 3 if q else 4, (3, 3))]:
        for a in range(1, n + 1):
            ans.append((n ** L, 'words', ('hecke', n, L, (a,), recs)))
    for letters, L in [((8, 9, 10, 11), 5), ((1, 9, 10, 100), 5), ((2, 5, 11), 6)]:
        for a in letters:
            ans.append((len(letters) ** L, 'words', ('hecke', letters, L - q, (a,), (3, 3), 8)))
    for n, L, parts in [(7, 2, 4), (4, 3, 8)] if q else [(11, 2, 16), (5, 3, 16), (3, 4, 9)]:
        for part in range(parts):
            ans.append(((n * n) ** L / parts, 'runs', ('hecke', n, L, part, parts)))
    for n, L in [(2, 6), (3, 5 if q else 7), (4, 5 if q else 6), (5, 4 if q else 5), (6, 4 if q else 5)]:
        for l in range(L + 1):
            ans.append((n ** l, 'pairs', ('hecke', n, l)))
    for shape, k, tail, parts in [((3, 2, 1), 2, 2, 4), ((3, 3, 3), 1, 2, 2), ((4, 3, 2, 1), 1, 2, 2), ((4, 4, 4), 1, 1, 2), ((2, 2, 2, 2, 2), 1, 2, 2), ((5, 5), 1, 2, 2), ((3, 2, 2, 1, 1, 1), 1, 1, 2)]:
        for part in range(parts if q else 4 * parts):
            ans.append((10 ** 5, 'edits', ('hecke', shape, k + (not q), tail + (not q), k == 1, part, parts if q else 4 * parts)))
    return ans


run = insertrun.run
