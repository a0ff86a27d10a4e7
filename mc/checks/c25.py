"""Statistics of words and their quasisymmetric generating functions."""
import itertools
from words import Word
from vectors import Vector

ID = 'C25'
RULE = ('all words up to a length over an alphabet; descents, ascents and peaks against exhaustive search over all ways to cut the word into factors; characters '
        'against counting all cut points; quasisymmetric functions against the sum over all compositions, explored as paths of cut points')
ASSUMPTIONS = ['lengths and alphabets within the stated bounds']


def sd(w):
    return list(w) == sorted(set(w), reverse=True)


def si(w):
    return list(w) == sorted(set(w))


def wd(w):
    return list(w) == sorted(w, reverse=True)


def wi(w):
    return list(w) == sorted(w)


CHARACTERS = {
    'increasing_zeta': lambda w: int(si(w)),
    'decreasing_zeta': lambda w: int(sd(w)),
    'weakly_increasing_zeta': lambda w: int(wi(w)),
    'weakly_decreasing_zeta': lambda w: int(wd(w)),
    'unimodal_zeta': lambda w: sum(sd(w[:i]) and si(w[i:]) for i in range(len(w) + 1)),
    'right_weakly_unimodal_zeta': lambda w: sum(sd(w[:i]) and wi(w[i:]) for i in range(len(w) + 1)),
    'left_weakly_unimodal_zeta': lambda w: sum(wd(w[:i]) and si(w[i:]) for i in range(len(w) + 1)),
    'weakly_unimodal_zeta': lambda w: sum(wd(w[:i]) and wi(w[i:]) for i in range(len(w) + 1)),
}


def fewest(w, good):
    """least number of factors, each satisfying good, whose concatenation is w: breadth-first search over cut points"""
    dist = {0: 0}
    todo = [0]
    for a in todo:
        for b in range(a + 1, len(w) + 1):
            if b not in dist and good(w[a:b]):
                dist[b] = dist[a] + 1
                todo.append(b)
    return dist[len(w)]


def gf(w, f):
    """{composition: product of f over the factors}"""
    level = {(0, ()): 1}
    out = {}
    count = 0
    while level:
        new = {}
        for (a, alpha), c in level.items():
            count += 1
            if a == len(w):
                out[alpha] = out.get(alpha, 0) + c
                continue
            for b in range(a + 1, len(w) + 1):
                v = f(w[a:b])
                if v:
                    new[b, alpha + (b - a,)] = c * v
        level = new
    return out, count


def words(ctx, length, letters, first):
    for rest in itertools.product(letters, repeat=max(length - 1, 0)):
        w = (first,) + rest if length else ()
        ctx.case = w
        ctx.fam('words of length %d' % length, states=1, traces=1)
        ctx.equal('descent_set %s' % (w,), set(Word.descent_set(w)), {i for i in range(1, len(w)) if w[i - 1] > w[i]})
        ctx.equal('ascents %s' % (w,), Word.ascents(w), max(fewest(w, sd) - 1, 0))
        ctx.equal('peaks %s' % (w,), Word.peaks(w), fewest(w, CHARACTERS['unimodal_zeta']))
        ctx.outcome((Word.ascents(w), Word.peaks(w)))
        for name, f in CHARACTERS.items():
            z = getattr(Word, name)
            ctx.equal('%s %s' % (name, w), z(w), f(w))
            ctx.equal('%s of list %s' % (name, w), z(list(w)), f(w))
            q = Word.quasisymmetrize(w, z)
            want, n = gf(w, f)
            ctx.fam('factorizations', transitions=n)
            if not isinstance(q, Vector) or dict(q.dictionary) != want:
                ctx.violate('quasisymmetrize %s %s' % (w, name), 'wrong quasisymmetric function', implementation=q, model=want)
    ctx.sample(w)


def arbitrary(ctx, length, values):
    """characters given by arbitrary tables on the lengths of factors"""
    w = tuple(range(1, length + 1))
    for table in itertools.product(values, repeat=length):
        f = lambda u: table[len(u) - 1]
        want, n = gf(w, f)
        ctx.fam('tables', states=1, transitions=n, traces=1)
        q = Word.quasisymmetrize(w, f)
        if dict(q.dictionary) != {k: v for k, v in want.items() if v}:
            ctx.violate('quasisymmetrize length %d table %s' % (length, table), 'wrong quasisymmetric function', implementation=q, model=want)


def runs(n, L):
    """all concatenations of at most L monotone (or constant) runs of consecutive letters 1..n"""
    up = [tuple(range(a, b + 1)) for a in range(1, n + 1) for b in range(a, n + 1)]
    blocks = up + [u[::-1] for u in up if len(u) > 1] + [(a,) * k for a in range(1, n + 1) for k in (2, 3, 5)]
    words = {()}
    level = {()}
    for _ in range(L):
        level = {w + b for w in level for b in blocks}
        words |= level
    return sorted(words)


def paths(w, f):
    """number of ways to cut w into factors on which f does not vanish"""
    ways = [1] + [0] * len(w)
    for b in range(1, len(w) + 1):
        ways[b] = sum(ways[a] for a in range(b) if ways[a] and f(w[a:b]))
    return ways[len(w)]


def longwords(ctx, n, L, part, parts):
    """long words; quasisymmetric functions of those with few factorizations"""
    for w in runs(n, L)[part::parts]:
        ctx.case = w
        ctx.fam('words of at most %d runs of the letters 1..%d' % (L, n), states=1, traces=1)
        ctx.equal('descent_set %s' % (w,), set(Word.descent_set(w)), {i for i in range(1, len(w)) if w[i - 1] > w[i]})
        ctx.equal('ascents %s' % (w,), Word.ascents(w), max(fewest(w, sd) - 1, 0))
        ctx.equal('peaks %s' % (w,), Word.peaks(w), fewest(w, CHARACTERS['unimodal_zeta']))
        for name, f in CHARACTERS.items():
            z = getattr(Word, name)
            ctx.equal('%s %s' % (name, w), z(w), f(w))
            if part % 4 == 0 and 'unimodal' not in name and 8 < len(w) and paths(w, f) <= 40:
                want, k = gf(w, f)
                ctx.fam('factorizations', transitions=k)
                q = Word.quasisymmetrize(w, z)
                if dict(q.dictionary) != want:
                    ctx.violate('quasisymmetrize %s %s' % (w, name), 'wrong quasisymmetric function', implementation=q, model=want)


def jobs(tier):
    q = tier == 'quick'
    ans = []
    for k, top in ((1, 9), (2, 8 if q else 10), (3, 7 if q else 8), (4, 5 if q else 6), (5, 5 if q else 6), (6, 4 if q else 5)):
        for n in range(top + 1):
            for a in range(1, k + 1) if n else (1,):
                ans.append((k ** n * 2 ** n, 'words', (n, tuple(range(1, k + 1)), a)))
    for letters, top in (((9, 10, 11), 6 if q else 7), ((1, 10, 100, 101), 5 if q else 6), ((2, 4, 7, 12, 20), 4 if q else 5)):
        for n in range(1, top + 1):
            for a in letters:
                ans.append((len(letters) ** n * 2 ** n, 'words', (n, letters, a)))
    for n, L, parts in [(7, 2, 8), (4, 3, 16)] if q else [(11, 2, 16), (5, 3, 32), (3, 4, 32)]:
        for part in range(parts):
            ans.append((n ** (2 * L + 2) / parts, 'longwords', (n, L, part, parts)))
    for n in range(1, 5 if q else 6):
        ans.append((4 ** n, 'arbitrary', (n, (-1, 0, 1, 3))))
    return ans


def run(ctx, name, args):
    globals()[name](ctx, *args)
