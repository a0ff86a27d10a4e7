"""Growth diagrams against insertion."""
import itertools
from collections import Counter
from mc import insertrun as IR
from mc import ref as R
from partitions import Partition as P
from tableaux import Tableau

ID = 'C19'
RULE = ('all nonnegative integer matrices in bounds (as sets or dictionaries, with explicit larger sizes) and all words in bounds; the model explores the insertion transition system '
        '(row insertion; shifted Hecke insertion) of every initial segment restricted to small letters; every entry of the growth diagram must be the shape reached there, '
        'and the tableaux read off the shifted diagram must be the pair reached by insertion')
ASSUMPTIONS = ['matrix sizes, entries, alphabets and lengths within the stated bounds']


def jobs(tier):
    q = tier == 'quick'
    ans = []
    for a, b, m in [(1, 1, 5), (1, 4, 2), (4, 1, 2), (2, 2, 4), (2, 3, 2), (3, 2, 2), (3, 3, 1), (2, 4, 1), (4, 2, 1)] + ([] if q else [(3, 3, 2), (3, 4, 1), (4, 3, 1), (2, 2, 6), (2, 5, 1)]):
        for f in range(m + 1):
            ans.append(((m + 1) ** (a * b - 1), 'rsk', (a, b, m, f)))
    for a, b, m, positions, some in [(11, 11, (1, 10), (1, 9, 10, 11), 2), (10, 3, (1, 2), (1, 2, 3, 10), 3), (3, 12, (1, 2), (1, 3, 11, 12), 3)] if q else \
            [(11, 11, (1, 10), (1, 9, 10, 11), 3), (10, 4, (1, 2), (1, 2, 3, 4, 9, 10), 4), (4, 12, (1, 2), (1, 3, 4, 10, 11, 12), 4)]:
        for f in range(a * b):
            if f // b + 1 in positions and f % b + 1 in positions:
                ans.append((500, 'rsk', (a, b, m, f, positions, some)))
    for letters, L in [((2, 9, 10, 11), 5), ((10, 20), 8), ((1, 12, 13), 6)] if q else [((2, 3, 9, 10, 11), 6), ((10, 20), 10), ((1, 12, 13), 8), ((1, 9, 10, 11, 12, 13), 5)]:
        for f in letters:
            ans.append((len(letters) ** (L - 1), 'letters', (letters, L, f)))
    for n, L in [(2, 10), (3, 7), (4, 6), (5, 5), (6, 4)] if q else [(2, 11), (3, 8), (4, 7), (5, 6), (6, 5)]:
        for f in range(1, n + 1):
            ans.append((n ** (L - 1), 'shifted', (n, L, f)))
    # a permutation followed by a few letters: reaches the cases of the local rules that need long words
    for n, L in [(3, 6), (4, 4), (5, 3), (6, 2), (7, 0)] if q else [(3, 7), (4, 6), (5, 4), (6, 3), (7, 1)]:
        for f in range(1, n + 1):
            ans.append((n ** (n + L - 1) / 40., 'tails', (n, L, f)))
    for base in BASES:
        for part in range(4 if q else 16):
            ans.append((300, 'edits', (base, 2 if q or len(base) > 12 else 3, part, 4 if q else 16)))
    return ans


# words whose insertion tableaux have many rows (reading words of shifted tableaux by rows, by columns, and backwards), long rows, or many repeated letters
BASES = [(7, 5, 6, 3, 4, 5, 1, 2, 3, 4), (4, 5, 6, 7, 3, 4, 5, 2, 3, 1), (4, 3, 5, 2, 4, 6, 1, 3, 5, 7), (1, 2, 3, 4, 3, 4, 5, 5, 6, 7), (4, 3, 2, 1, 5, 4, 3, 6, 5, 7), (4, 5, 6, 2, 3, 4, 1, 2, 3, 4, 5, 6),
         (9, 7, 8, 5, 6, 7, 3, 4, 5, 6, 1, 2, 3, 4, 5), (5, 4, 6, 3, 5, 7, 2, 4, 6, 8, 1, 3, 5, 7, 9), (1, 1, 2, 2, 1, 1, 3, 3, 2, 2, 1, 1), (3, 2, 1, 3, 2, 1, 3, 2, 1, 3, 2, 1)]


def edits(ctx, base, k, part, parts):
    """a long word with at most k letters changed, or one letter inserted or deleted"""
    letters = range(1, max(base) + 1)
    out = {base}
    level = {base}
    for _ in range(k):
        level = {w[:i] + (a,) + w[i + 1:] for w in level for i in range(len(w)) for a in letters}
        out |= level
    out |= {base[:i] + base[i + 1:] for i in range(len(base))} | {base[:i] + (a,) + base[i:] for i in range(len(base) + 1) for a in letters}
    replay(ctx, sorted(out)[part::parts], 'edits of long words')


def row_insert(T, a):
    for row in T:
        k = next((k for k, b in enumerate(row) if b > a), None)
        if k is None:
            row.append(a)
            return
        row[k], a = a, row[k]
    T.append([a])


def rsk(ctx, a, b, m, first, positions=None, some=0):
    cells = [(i, j) for i in range(1, a + 1) for j in range(1, b + 1)]
    memo = {}

    def shape(word):
        if word not in memo:
            T = []
            for x in word:
                row_insert(T, x)
            memo[word] = tuple(map(len, T))
        return memo[word]

    traces = states = 0
    if positions:
        matrices = (dict.fromkeys(cells, 0) | dict(zip((cells[first],) + rest, vals)) for k in range(some) for rest in itertools.combinations(cells[first + 1:], k)
                    if all(x in positions and y in positions for x, y in (cells[first],) + rest) for vals in itertools.product(m, repeat=k + 1))
    else:
        matrices = (dict(zip(cells, (first,) + vals)) for vals in itertools.product(range(m + 1), repeat=len(cells) - 1))
    for M in matrices:
        ctx.case = M
        want = [[() for _ in range(b + 1)] for _ in range(a + 1)]
        filled = [c for c in cells if M[c]]
        for i in range(a + 1):
            for j in range(b + 1):
                want[i][j] = shape(tuple(y for (x, y) in filled if x <= i and y <= j for _ in range(M[x, y])))
                states += 1
        key = 'growth %s' % (sorted(M.items()),)
        ctx.equal(key + ' full', P.growth_diagram(dict(M), b, a), want)
        sparse = {c: v for c, v in M.items() if v}
        rows, cols = max([i for i, _ in sparse] + [0]), max([j for _, j in sparse] + [0])
        cut = [r[:cols + 1] for r in want[:rows + 1]]
        ctx.equal(key + ' sparse', P.growth_diagram(dict(sparse)), cut)
        ctx.equal(key + ' padded', P.growth_diagram(dict(sparse), m=cols + 2, n=rows + 1),
                  [r + [r[-1]] * 2 for r in cut] + [cut[-1] + [cut[-1][-1]] * 2])
        ctx.equal(key + ' more columns', P.growth_diagram(dict(sparse), cols + 1), [r + [r[-1]] for r in cut])
        ctx.equal(key + ' more rows', P.growth_diagram(dict(sparse), n=rows + 2), cut + [cut[-1]] * 2)
        traces += 5
        if all(v == 1 for v in sparse.values()):
            ctx.equal(key + ' set', P.growth_diagram(set(sparse)), cut)
            traces += 1
    ctx.fam('large matrices with few entries' if positions else 'matrices %dx%d, entries up to %d' % (a, b, m), states=states, transitions=states, traces=traces)


def shape_of(cells):
    rows = Counter(i for i, _ in cells)
    return tuple(rows[i] for i in sorted(rows))


def shifted(ctx, n, L, first):
    words = [(first,) + w for l in range(L) for w in itertools.product(range(1, n + 1), repeat=l)]
    if first == 1:
        words.append(())
    replay(ctx, words, 'words over 1..%d, length <= %d' % (n, L))


def letters(ctx, alphabet, L, first):
    replay(ctx, [(first,) + w for l in range(L) for w in itertools.product(alphabet, repeat=l)], 'words over %s, length <= %d' % (alphabet, L))


def tails(ctx, n, k, first):
    words = [w + u for w in itertools.permutations(range(1, n + 1)) if w[0] == first for u in itertools.product(range(1, n + 1), repeat=k)]
    replay(ctx, words, 'permutations of 1..%d followed by %d letters' % (n, k))


def replay(ctx, words, family):
    memo = {}

    def state(word):
        if word not in memo:
            memo[word] = ({}, {}) if not word else IR.step('orthogonal', *state(word[:-1]), len(word), word[-1])
        return memo[word]

    traces = 0
    for w in words:
        ctx.case = w
        key = 'shifted growth %s' % (w,)
        top = max(w, default=0)
        g, e, c, _ = P.shifted_growth_diagram(w)
        want = [[shape_of(state(tuple(x for x in w[:j] if x <= i))[0]) for j in range(len(w) + 1)] for i in range(top + 1)]
        ctx.equal(key, g, want)
        for i in range(1, top + 1):
            for j in range(1, len(w) + 1):
                if w[j - 1] <= i:
                    u = tuple(x for x in w[:j] if x <= i)
                    Q = state(u)[1]
                    primed = any(-len(u) in v for v in Q.values())
                    ctx.equal(key + ' edge %d %d' % (i, j), bool(e[i][j]), primed)
                elif e[i][j] or c[i][j] is not None:
                    ctx.violate(key + ' edge %d %d' % (i, j), 'a step that inserts nothing is marked')
        p, q = Tableau.from_shifted_growth_diagram(g, e, c)
        Pm, Qm = state(w)
        ctx.equal(key + ' P', {x: v for x, v in IR.norm(p).items()}, {x: (v,) for x, v in Pm.items()})
        ctx.equal(key + ' Q', IR.norm(q), IR.rename(Qm, range(1, len(w) + 1)))
        cells = {(a, k + 1) for k, a in enumerate(w)}
        for form, d in (('list', list(w)), ('set', set(cells)), ('dict', {x: 1 for x in cells})):
            g2, e2, c2, _ = P.shifted_growth_diagram(d)
            if (g2, e2, c2) != (g, e, c):
                ctx.violate(key + ' ' + form, 'the same input in another form gives another diagram')
        pad = P.shifted_growth_diagram(w, m=len(w) + 1, n=top + 1)[0]
        ctx.equal(key + ' padded', pad, [r + [r[-1]] for r in want] + [want[-1] + [want[-1][-1]]])
        ctx.equal(key + ' more columns', P.shifted_growth_diagram(set(cells), m=len(w) + 2)[0], [r + [r[-1]] * 2 for r in want])
        ctx.equal(key + ' more rows', P.shifted_growth_diagram(w, n=top + 2)[0], want + [want[-1]] * 2)
        traces += 7
    ctx.fam(family, states=len(memo), transitions=len(memo) - 1, traces=traces)


def run(ctx, name, args):
    globals()[name](ctx, *args)
