"""Crystal operators on words and tableaux."""
import itertools
from mc import ref as R
from mc import crys as K
from words import Word
from tableaux import Tableau

ID = 'C10'
RULE = ('the crystal graph is explored as a transition system: states are all words over 1..n of the stated lengths (with every division into subwords), all set-valued and '
        'all multiset-valued semistandard tableaux in bounds, transitions the raising and lowering operators of the signature rule; the implementation is compared on every state and '
        'operator; on the explored graph it is checked that operators are mutually inverse, weights and string lengths agree, and each component is a highest weight crystal')
ASSUMPTIONS = ['letters, lengths, shapes and numbers of entries within the stated bounds']


def jobs(tier):
    q = tier == 'quick'
    ans = []
    for n, L in [(2, 11 if q else 14), (3, 7 if q else 9), (4, 6 if q else 7), (5, 5 if q else 6)]:
        for l in range(L + 1):
            ans.append((n ** l * 3, 'words', (n, l)))
    for n, L in [(2, 6 if q else 9), (3, 5 if q else 7)]:
        for l in range(L + 1):
            ans.append((n ** l * 2 ** l, 'divided', (n, l)))
    for mu in R.partitions_upto(6 if q else 8):
        for n in (2, 3, 4, 5):
            if len(mu) > n or sum(mu) > ((9, 9, 6, 6, 4, 3) if q else (9, 9, 8, 7, 5, 4))[n]:
                continue
            ans.append((n ** sum(mu), 'setvalued', (mu, n)))
    for n, top in ((2, 12), (3, 6), (4, 4)) if q else ((2, 20), (3, 9), (4, 5), (5, 3)):
        for mu in R.subparts((top,) * n):
            if sum(mu) > 6:
                ans.append((30 * n ** 3, 'setvalued', (mu, n)))
    for mu in R.partitions_upto(5 if q else 6):
        for n in (2, 3, 4):
            if len(mu) > n:
                continue
            for total in range(sum(mu), sum(mu) + (4 if q else 5)):
                if mu or total == 0:
                    if n ** total < (20000 if q else 300000):
                        ans.append((n ** total, 'multiset', (mu, n, total)))
    for n, lo, hi, extra in ((2, 6, 11, 2), (3, 6, 8, 2)) if q else ((2, 6, 14, 3), (3, 7, 10, 2), (4, 7, 8, 1)):
        for mu in R.partitions_upto(hi):
            if sum(mu) >= lo and len(mu) <= n:
                for total in range(sum(mu), sum(mu) + extra):
                    ans.append((n ** total, 'multiset', (mu, n, total)))
    for n, L, parts in [(8, 2, 4), (4, 3, 8)] if q else [(12, 2, 16), (5, 3, 16), (3, 4, 16)]:
        for part in range(parts):
            ans.append((n ** (2 * L + 1) / parts, 'longwords', (n, L, part, parts)))
    for letters in LETTERS:
        n = len(letters)
        for l in range({3: 6, 4: 5, 5: 4}[n] + (0 if q else 1)):
            ans.append((n ** l * n, 'letterwords', (letters, l)))
        for mu in R.partitions_upto(4 if q else 5):
            if mu and len(mu) <= n:
                ans.append((n ** sum(mu), 'lettertableaux', (letters, mu)))
    return ans


def runs(n, L):
    """all concatenations of at most L monotone (or constant) runs of consecutive letters 1..n"""
    up = [tuple(range(a, b + 1)) for a in range(1, n + 1) for b in range(a, n + 1)]
    blocks = up + [u[::-1] for u in up if len(u) > 1] + [(a,) * k for a in range(1, n + 1) for k in (2, 3, 5)]
    words = {()}
    level = {()}
    for _ in range(L):
        level = {w + b for w in level for b in blocks}
        words |= level
    return sorted(words)


def longwords(ctx, n, L, part, parts):
    traces = moves = states = 0
    for w in runs(n, L)[part::parts]:
        states += 1
        for i in range(1, n + 1):
            for up, op, back in ((True, Word.f_crystal_operator, Word.e_crystal_operator), (False, Word.e_crystal_operator, Word.f_crystal_operator)):
                ctx.case = (w, i, up)
                v = K.word_op(w, i, up)
                key = '%s_%d %s' % ('f' if up else 'e', i, w)
                ctx.equal(key, op(i, w), v)
                traces += 1
                if v is not None:
                    moves += 1
                    traces += 1
                    ctx.equal(key + ' and back', back(i, v), w)
    ctx.fam('words of at most %d runs of the letters 1..%d' % (L, n), states=states, transitions=moves, traces=traces)


LETTERS = [(9, 10, 11), (99, 100, 102), (2, 3, 7, 8), (1, 9, 10, 19, 20)]


def letterwords(ctx, letters, L):
    """words in large or widely spaced letters, whole and cut in two"""
    traces = moves = 0
    ops = sorted({a + d for a in letters for d in (-1, 0, 1)})
    for w in itertools.product(letters, repeat=L):
        for i in ops:
            for up, op in ((True, Word.f_crystal_operator), (False, Word.e_crystal_operator)):
                ctx.case = (w, i, up)
                v = K.word_op(w, i, up)
                moves += v is not None
                key = '%s_%d %s' % ('f' if up else 'e', i, w)
                ctx.equal(key, op(i, w), v)
                k = L // 2
                ctx.equal(key + ' cut', op(i, w[:k], w[k:]), None if v is None else (v[:k], v[k:]))
                traces += 2
    ctx.fam('words of length %d in the letters %s' % (L, letters), states=len(letters) ** L, transitions=moves, traces=traces)


def lettertableaux(ctx, letters, mu):
    n = len(letters)
    ops = sorted({a + d for a in letters for d in (-1, 0, 1) if a + d > 0})
    up = lambda T: {c: tuple(letters[a - 1] for a in v) for c, v in T.items()}
    traces = moves = states = 0
    for T in R.fillings(R.boxes(mu), n, setvalued=True):
        if sum(len(v) for v in T.values()) > sum(mu) + 2:
            continue
        T = up(T)
        t = Tableau(dict(T))
        states += 1
        for i in ops:
            for d in (True, False):
                ctx.case = ('set-valued', T, i, d)
                want = K.setvalued_op(T, i, d)
                moves += want is not None
                key = '%s_%d %s' % ('f' if d else 'e', i, K.frozen(T))
                ctx.equal('set-valued ' + key, boxes((t.f_crystal_operator if d else t.e_crystal_operator)(i, multisetvalued=False)), want)
                traces += 1
        x = K.column_reading(T)
        ctx.case = ('reading', T)
        ctx.equal('reading %s' % (K.frozen(T),), tuple(tuple(c) for c in t.crystal_reading_word()), x)
        traces += 1
    for total in (sum(mu), sum(mu) + 1, sum(mu) + 2):
        for T in K.multiset_tableaux(mu, n, total):
            T = up(T)
            t = Tableau(dict(T))
            states += 1
            c = K.column_reading(T)
            word = tuple(a for u in c for a in u)
            for i in ops:
                for d in (True, False):
                    ctx.case = ('multiset', T, i, d)
                    w = K.word_op(word, i, d)
                    got = (t.f_crystal_operator if d else t.e_crystal_operator)(i)
                    key = 'multiset %s_%d %s' % ('f' if d else 'e', i, K.frozen(T))
                    traces += 1
                    if w is None or got is None:
                        ctx.equal(key, boxes(got), w)
                        continue
                    moves += 1
                    out, k = [], 0
                    for u in c:
                        out.append(w[k:k + len(u)])
                        k += len(u)
                    ctx.equal(key, K.column_reading(boxes(got)), tuple(out))
    ctx.fam('tableaux of shapes of size %d in the letters %s' % (sum(mu), letters), states=states, transitions=moves, traces=traces)


def words(ctx, n, L):
    V = list(itertools.product(range(1, n + 1), repeat=L))
    edges = []
    traces = 0
    for w in V:
        for i in range(0, n + 1):
            ctx.case = (w, i)
            f, e = K.word_op(w, i, True), K.word_op(w, i, False)
            ctx.equal('f_%d %s' % (i, w), Word.f_crystal_operator(i, w), f)
            ctx.equal('e_%d %s' % (i, w), Word.e_crystal_operator(i, w), e)
            traces += 2
            if f is not None and K.word_op(f, i, False) != w or e is not None and K.word_op(e, i, True) != w:
                raise AssertionError('model operators are not inverse')
            if f is not None and 1 <= i < n:
                edges.append((w, f, i))
    bad = K.check_normal(V, edges, {w: K.weight(w, n) for w in V}, n)
    if bad:
        raise AssertionError('model: ' + bad)
    ctx.fam('words of length %d over 1..%d' % (L, n), states=len(V), transitions=len(edges), traces=traces)


def divided(ctx, n, L):
    """several subwords: the operator acts on the concatenation and keeps the division (also empty parts, and one part with unpack=False)"""
    cases = traces = 0
    for w in itertools.product(range(1, n + 1), repeat=L):
        for k in range(0, L + 1):
            for cuts in itertools.combinations_with_replacement(range(L + 1), k):
                if k > 3 and len(set(cuts)) < k:
                    continue
                b = (0,) + cuts + (L,)
                parts = tuple(w[b[t]:b[t + 1]] for t in range(len(b) - 1))
                cases += 1
                for i in range(1, n + 1):
                    for up, op in ((True, Word.f_crystal_operator), (False, Word.e_crystal_operator)):
                        ctx.case = (parts, i, up)
                        v = K.word_op(w, i, up)
                        want = None if v is None else tuple(v[b[t]:b[t + 1]] for t in range(len(b) - 1))
                        key = '%s_%d %s' % ('f' if up else 'e', i, parts)
                        ctx.equal(key + ' unpack=False', op(i, *parts, unpack=False), want)
                        traces += 1
                        # a single part is unpacked by default; asked both ways, in both orders
                        ctx.equal(key, op(i, *parts), want if len(parts) > 1 else v)
                        traces += 1
                        if len(parts) == 1 and i == 1:
                            ctx.equal(key + ' unpack=False again', op(i, *parts, unpack=False), want)
                        if len(parts) == 1 and i == n:
                            w2 = tuple(a + 50 for a in w)
                            for unpack in (True, False, True):
                                v2 = None if v is None else tuple(a + 50 for a in v)
                                ctx.equal('%s shifted unpack=%s' % (key, unpack), op(i + 50, w2, unpack=unpack), v2 if unpack or v is None else (v2,))
    ctx.fam('divided words of length %d over 1..%d' % (L, n), states=cases, transitions=2 * n * cases, traces=traces)


def boxes(t):
    return None if t is None else {c: tuple(sorted(v)) for c, v in t.boxes.items()}


def compare(ctx, kind, V, n, op, multisetvalued, total=None):
    edges = []
    traces = 0
    known = {K.frozen(T) for T in V}
    for T in V:
        t = Tableau(dict(T))
        x = K.frozen(T)
        for i in range(1, n + 1):
            ctx.case = (kind, T, i)
            for up in (True, False):
                want = op(T, i, up)
                key = '%s %s_%d %s' % (kind, 'f' if up else 'e', i, x)
                call = t.f_crystal_operator if up else t.e_crystal_operator
                ctx.equal(key, boxes(call(i, multisetvalued=multisetvalued)), want)
                traces += 1
                if multisetvalued:
                    ctx.equal(key + ' default', boxes(call(i)), want)
                    traces += 1
                if want is not None:
                    if op(want, i, not up) != T:
                        raise AssertionError('model operators are not inverse')
                    if i < n:
                        if K.frozen(want) not in known:
                            raise AssertionError('model operator leaves the set of tableaux: %r' % (x,))
                        if up:
                            edges.append((x, K.frozen(want), i))
        if boxes(t) != T:
            ctx.violate('%s changed %s' % (kind, x), 'an operator changed its operand')
    wt = {K.frozen(T): K.weight([a for v in T.values() for a in v], n) for T in V}
    bad = K.check_normal([K.frozen(T) for T in V], edges, wt, n)
    if bad:
        raise AssertionError('model: ' + bad)
    return len(edges), traces


def setvalued(ctx, mu, n):
    V = R.fillings(R.boxes(mu), n, setvalued=True)
    e, t = compare(ctx, 'set-valued', V, n, K.setvalued_op, False)
    ctx.fam('set-valued tableaux of shapes of size %d, letters 1..%d' % (sum(mu), n), states=len(V), transitions=e, traces=t)


def multiset(ctx, mu, n, total):
    V = K.multiset_tableaux(mu, n + 1, total)
    byword = {}
    for T in V:
        byword.setdefault(K.column_reading(T), []).append(T)
    if any(len(v) > 1 for v in byword.values()):
        raise AssertionError('model: reading words are not injective')

    def op(T, i, up):
        r = K.column_reading(T)
        w = K.word_op(tuple(a for c in r for a in c), i, up)
        if w is None:
            return None
        out, k = [], 0
        for c in r:
            out.append(w[k:k + len(c)])
            k += len(c)
        return byword[tuple(out)][0]

    traces = 0
    for T in V:
        ctx.case = ('reading', T)
        t = Tableau(dict(T))
        r = K.column_reading(T)
        ctx.equal('reading %s' % (K.frozen(T),), tuple(tuple(c) for c in t.crystal_reading_word()), r)
        ctx.equal('from reading %s' % (r,), boxes(Tableau.from_crystal_reading_word(r)), T)
        traces += 2
    W = [T for T in V if all(a <= n for v in T.values() for a in v)]
    e, t = compare(ctx, 'multiset', W, n, op, True)
    ctx.fam('multiset-valued tableaux of shapes of size %d with %d entries, letters 1..%d' % (sum(mu), total, n), states=len(V), transitions=e, traces=traces + t)


def run(ctx, name, args):
    globals()[name](ctx, *args)
