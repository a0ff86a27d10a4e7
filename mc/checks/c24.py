"""Tableaux as editable values, readings and standardization."""
import itertools
from collections import Counter
from mc import ref
import tableaux
from tableaux import Tableau, ReversePlanePartition, MarkedReversePlanePartition
from permutations import Permutation

ID = 'C24'
RULE = ('breadth-first search over all edit sequences (add, remove, replace, set, clear, pop) from the empty tableau in a small window, the library and a '
        'dictionary of sorted tuples in lock step, with every accessor compared in every state; and all fillings of all diagrams within the bounds for readings, '
        'predicates, standardization and descents')
ASSUMPTIONS = ['windows, letters, depths and diagram sizes within the stated bounds']

key = ref.key


def jobs(tier):
    q = tier == 'quick'
    ans = []
    for w, vals, depth in (("2x2", (-2, -1, 1, 2), 4 if q else 5), ("1x2", (-2, -1, 1, 2, 3), 5 if q else 7), ("2x3", (-1, 1, 2), 4 if q else 5), ('1x2', (-11, -10, -9, 2, 9, 10, 11, 100), 4 if q else 5),
                           ('far', (-10, -2, 1, 10), 3 if q else 4)):
        for part in range(8 if q else 24):
            ans.append((60, 'edits', (w, vals, depth, part, 8 if q else 24)))
    for cls in ('ReversePlanePartition', 'MarkedReversePlanePartition'):
        ans.append((20, 'subclass', (cls, 2 if q else 3)))
    for shifted in (0, 1):
        for mu in ref.partitions_upto(4 if q else 5, bool(shifted)):
            for nu in ref.subparts(mu, bool(shifted)):
                n = sum(mu) - sum(nu)
                ans.append((4 ** n, 'predicates', (mu, nu, shifted, 2, 1)))
                if n <= (3 if q else 4):
                    ans.append((9 ** n, 'predicates', (mu, nu, shifted, 2, 2 if n > 2 else 4)))
        for mu in ref.partitions_upto(5 if q else 7, bool(shifted)):
            for nu in ref.subparts(mu, bool(shifted)):
                n = sum(mu) - sum(nu)
                ans.append((3 ** n, 'standard', (mu, nu, shifted, 3 if n < 5 else 2, 0)))
                if n <= (3 if q else 4):
                    ans.append((7 ** n, 'standard', (mu, nu, shifted, 2, 1)))
    for n, mus in ((1, ((12,), (13, 1), (12, 11), (1,) * 12, (2,) + (1,) * 11)), (2, ((11,), (10, 1), (1,) * 11, (2,) * 6))):
        for mu in mus:
            for shifted in (0, 1):
                if not shifted or all(a > b for a, b in zip(mu, mu[1:])):
                    ans.append((500, 'standard', (mu, (), shifted, n, 0)))
                    ans.append((500, 'standard', (mu, (), shifted, n, 1)))
    for n in (9, 10, 11):
        for shifted in (0, 1):
            for mu in ((1,), (2,)) + (() if shifted else ((1, 1),)):
                ans.append((500, 'standard', (mu, (), shifted, n, 0)))
    for mu in ref.partitions_upto(5 if q else 7):
        ans.append((20, 'crystalword', (mu, 3 if sum(mu) < 5 else 2, 2 if sum(mu) < 5 else 1)))
    for mu in ref.partitions_upto(6 if q else 8):
        ans.append((5 ** sum(mu) / 50., 'rowword', (mu, 4 if sum(mu) < 6 else 3)))
    for n in range(6 if q else 8):
        ans.append((4 ** n, 'runs', (n, 3)))
    ans.append((20, 'superstandard', (7 if q else 9,)))
    ans.append((20, 'strings', (2 if q else 3,)))
    ans.append((20, 'permute', (4 if q else 5,)))
    return ans


# ------------------------------------------------------------------ editing

def norm(d):
    return {k: tuple(sorted(v)) for k, v in d.items()}


def freeze(d):
    return tuple(sorted(d.items()))


def same(ctx, what, t, d, cls=Tableau):
    if type(t) != cls or t.boxes != d:
        ctx.violate(what, 'wrong tableau', implementation=getattr(t, 'boxes', t), model=d, type=str(type(t)))
    return True


def unpacked(v):
    return v[0] if v is not None and len(v) == 1 else v


def accessors(ctx, t, d, rows, cols, vals, full=True):
    k = 'accessors of %s' % (sorted(d.items()),)
    eq = lambda name, got, want: got == want or ctx.violate(k + ' ' + name, 'wrong ' + name, implementation=got, model=want)
    items = sorted(d.items())
    flat = [v for _, b in items for v in b]
    eq('iteration', [((i, j), v) for i, j, v in t], items)
    eq('size', (t.size(), len(t), bool(t), t.abs_sum(), t.setvalued_excess()),
       (len(d), len(flat), bool(d), sum(map(abs, flat)), len(flat) - len(d)))
    eq('values', set(t.values()), set(flat))
    eq('counter', dict(t.counter()), dict(Counter(flat)))
    top = max(map(abs, flat), default=0)
    wt = tuple(sum(abs(v) == a for v in flat) for a in range(1, top + 1))
    if type(t) == Tableau:
        eq('weight', tuple(t.weight()), wt)
        eq('weight(n)', tuple(t.weight(top + 2)), wt + (0, 0))
    for i in range(1, rows + 2):
        rr = [j for (a, j) in d if a == i]
        eq('last box in row', t.last_box_in_row(i), max(rr) if rr else None)
        eq('max column', t.max_column(i), max(rr) if rr else 0)
        for j in range(1, cols + 2):
            b = d.get((i, j))
            eq('get', (t.get(i, j), t.get(i, j, unpack=False), t.get(i, j, 77), t.get(i, j, default=None, unpack=True)), (unpacked(b), b, unpacked(b) if b else 77, unpacked(b)))
            eq('contains', ((i, j) in t, t.contains_box(i, j)), (b is not None,) * 2)
    for j in range(1, cols + 2):
        cc = [i for (i, a) in d if a == j]
        eq('last box in column', t.last_box_in_column(j), max(cc) if cc else None)
        eq('max row', t.max_row(j), max(cc) if cc else 0)
    m = max([i for i, _ in d], default=0)
    eq('extent', (t.max_row(), t.max_column()), (m, max([j for _, j in d], default=0)))
    eq('shape', t.shape(), tuple(sum(i == r for i, _ in d) for r in range(1, m + 1)))
    for v in list(vals) + [9]:
        eq('find', sorted(t.find(v)), [c for c, b in items if v in b])
    eq('row word', t.row_reading_word(), tuple(v for c, b in sorted(items, key=lambda x: (-x[0][0], x[0][1])) for v in b))
    eq('column word', t.column_reading_word(), tuple(v for c, b in sorted(items, key=lambda x: (x[0][1], -x[0][0])) for v in b))
    primed = [-v for c, b in sorted(items, key=lambda x: (-x[0][1], x[0][0])) for v in reversed(b) if v < 0]
    plain = [v for c, b in sorted(items, key=lambda x: (-x[0][0], x[0][1])) for v in b if v > 0]
    eq('shifted word', t.shifted_reading_word(), tuple(primed + plain))
    same(ctx, k + ' transpose', t.transpose(), {(j, i): b for (i, j), b in d.items()})
    same(ctx, k + ' double', t.double(), {c: tuple(2 * v for v in b) for c, b in d.items()})
    same(ctx, k + ' halve', t.double().halve(), d)
    same(ctx, k + ' negate', t.negate(), norm({c: (b if c[0] == c[1] else tuple(-v for v in b)) for c, b in d.items()}))
    same(ctx, k + ' negate all', t.negate(skipdiagonal=False), norm({c: tuple(-v for v in b) for c, b in d.items()}))
    same(ctx, k + ' apply', t.apply(lambda v: 3 - v), norm({c: tuple(3 - v for v in b) for c, b in d.items()}))
    eq('serialize', t.serialize(), d)
    if full:
        for r in range(1, rows + 1):
            for lo in (None,) + tuple(range(cols + 2)):
                for hi in (None,) + tuple(range(cols + 2)):
                    same(ctx, k + ' row', t.get_row(r, before=hi, after=lo), {c: b for c, b in d.items() if c[0] == r and (lo is None or c[1] > lo) and (hi is None or c[1] < hi)})
        for r in range(1, cols + 1):
            for lo in (None,) + tuple(range(rows + 2)):
                for hi in (None,) + tuple(range(rows + 2)):
                    same(ctx, k + ' column', t.get_column(r, before=hi, after=lo), {c: b for c, b in d.items() if c[1] == r and (lo is None or c[0] > lo) and (hi is None or c[0] < hi)})
    text(ctx, k, t, d)
    if not any(-v in flat for v in flat if abs(v) == top):
        last = top if top in flat else -top
        eq('last', t.last(), last)
        where = [c for c, b in items if last in b]
        if len(where) == 1:
            b = d[where[0]]
            if len(set(b)) == len(b):
                u, record = t.pop()
                e = {c: x for c, x in d.items() if c != where[0]}
                if len(b) > 1:
                    e[where[0]] = tuple(v for v in b if v != last)
                same(ctx, k + ' pop', u, e, type(t))
                eq('pop record', record, where[0] + (unpacked(b),))
    if t.boxes != d:
        ctx.violate(k, 'an accessor changed the tableau', implementation=t.boxes, model=d)


def text(ctx, k, t, d):
    """the printed form shows every box"""
    show = lambda b: ','.join(str(abs(x)) + ("'" if x < 0 else '') for x in sorted(b, key=lambda x: (abs(x), x)))
    want = [[show(d[i, j]) if (i, j) in d else '.' for j in range(1, max([c for _, c in d], default=0) + 1)] for i in range(1, max([c for c, _ in d], default=0) + 1)]
    if tableaux.FRENCH:
        want.reverse()
    got = [line.split() for line in repr(t).split('\n') if line.strip()]
    if got != want:
        ctx.violate(k + ' text', 'printed form does not show the boxes', implementation=got, model=want)
    tex = t.tex().split('\n')
    body = [[x.strip() for x in line.split('&')] for line in tex[1:-1] if line != '\\\\' and line.strip()]
    want = [[','.join(map(str, d[c])) for c in sorted(d) if c[0] == i] for i in sorted({i for i, _ in d}, reverse=True)]
    if body != want:
        ctx.violate(k + ' tex', 'the LaTeX form does not show the boxes', implementation=body, model=want)


def moves(d, cells, vals):
    """enabled edits as (name, args, resulting model)"""
    for c in cells:
        for v in vals:
            yield 'add', c + (v,), dict(d, **{}) | {c: tuple(sorted(d.get(c, ()) + (v,)))}
            if c in d:
                yield 'replace', c + (v,), d | {c: (v,)}
                if v in d[c]:
                    b = list(d[c])
                    b.remove(v)
                    e = {x: y for x, y in d.items() if x != c}
                    if b:
                        e[c] = tuple(b)
                    yield 'remove', c + (v,), e
            yield 'set', c + (v,), d | {c: (v,) if c in d else (v,)}
        pair = (vals[-1], vals[0])
        yield 'set', c + (pair,), d | {c: tuple(sorted(pair))}
        if c in d:
            yield 'remove', c, {x: y for x, y in d.items() if x != c}
            yield 'clear', c, {x: y for x, y in d.items() if x != c}
        else:
            yield 'add', c + (pair,), d | {c: tuple(sorted(pair))}


def edits(ctx, window, vals, depth, part, parts, cls=Tableau):
    if window == 'far':
        rows, cols, cells = 10, 11, [(1, 1), (1, 10), (9, 2), (10, 10), (10, 11)]
    else:
        rows, cols = (int(x) for x in window.split('x'))
        cells = [(i, j) for i in range(1, rows + 1) for j in range(1, cols + 1)]
    start = cls()
    seen = {(): None}
    level = [({}, start)]
    for depth_now in range(depth):
        new = []
        for idx, (d, t) in enumerate(level):
            if depth_now == 1 and idx % parts != part:
                continue
            for name, args, e in moves(d, cells, vals):
                ctx.case = (sorted(d.items()), name, args)
                u = getattr(t, name)(*args)
                same(ctx, '%s%s of %s' % (name, args, sorted(d.items())), u, e, cls)
                ctx.fam('edits', transitions=1, traces=1)
                f = freeze(e)
                if f not in seen:
                    seen[f] = None
                    new.append((e, u))
                    ctx.fam('edits', states=1)
                    if depth_now or part == 0:
                        accessors(ctx, u, e, rows, cols, vals, full=depth_now < 2)
                    w = cls(e)
                    if not (w == u and hash(w) == hash(u)) or w == t and e != d:
                        ctx.violate('equality %s' % (f,), 'equality or hash wrong')
            same(ctx, 'operand %s' % (sorted(d.items()),), t, d, cls)
        level = new
    pool = sorted((x for x in level[::max(1, len(level) // 60)]), key=lambda x: freeze(x[0]))
    for (d, t), (e, u) in itertools.product(pool, repeat=2):
        order = lambda x: (sum(map(len, x.values())), tuple(key(v) for c in sorted(x) for v in x[c]))
        if (t == u) != (d == e) or (t < u) != (order(d) < order(e)):
            ctx.violate('order %s %s' % (d, e), 'equality or order wrong')
        ctx.fam('order', transitions=1, traces=1)


def subclass(ctx, name, depth):
    cls = getattr(tableaux, name)
    edits(ctx, '2x2', (1, 2) if cls is ReversePlanePartition else (-2, -1, 1, 2), depth, 0, 1, cls)
    n = 2
    letters = (1, 2) if cls is ReversePlanePartition else (-2, -1, 1, 2)
    for b in itertools.product((None,) + letters, repeat=6):
        d = {c: v for c, v in zip(itertools.product((1, 2), (1, 2, 3)), b) if v is not None}
        want = tuple(len({j for (i, j), v in d.items() if v == a}) + len({i for (i, j), v in d.items() if v == -a}) for a in (1, 2))
        got = cls(d).weight(n)
        if tuple(got) != want:
            ctx.violate('weight %s' % (sorted(d.items()),), 'wrong weight', implementation=got, model=want)
        ctx.fam('weights', states=1, transitions=1, traces=1)


# ------------------------------------------------------- predicates, readings

def semistandard(d, diag):
    for (i, j), b in d.items():
        if i == j and not diag and any(v < 0 for v in b):
            return False
        for c, same_ok in (((i, j + 1), lambda v: v > 0), ((i + 1, j), lambda v: v < 0)):
            if c in d:
                for x in b:
                    for y in d[c]:
                        if not (key(x) < key(y) or x == y and same_ok(x)):
                            return False
    return True


def predicates(ctx, mu, nu, shifted, n, size):
    cells = ref.boxes(mu, nu, bool(shifted))
    letters = ref.letters(n, True)
    sets = [c for k in range(1, size + 1) for c in itertools.combinations(sorted(letters), k)]
    for f in itertools.product(sets, repeat=len(cells)):
        d = dict(zip(cells, f))
        ctx.case = (sorted(d.items()),)
        t = Tableau(d)
        k = 'semistandard %s' % (sorted(d.items()),)
        ss, dd = semistandard(d, False), semistandard(d, True)
        flat = sorted(abs(v) for b in f for v in b)
        got = (t.is_semistandard(), t.is_semistandard(diagonal_primes=True), t.is_standard())
        want = (ss, dd, ss and flat == list(range(1, len(flat) + 1)))
        if got != want:
            ctx.violate(k, 'wrong answer', implementation=got, model=want)
        ctx.fam('predicates', states=1, transitions=3, traces=3)
        ctx.outcomes.add(str(want))


def standard(ctx, mu, nu, shifted, n, setvalued):
    """standardization is the unique standard filling that keeps the order of all comparable letters"""
    cells = ref.boxes(mu, nu, bool(shifted))
    counter = [0, 0]
    seen = set()
    for f in ref.fillings(cells, n, True, bool(setvalued), counter=counter):
        d = {c: tuple(sorted(b)) for c, b in f.items()}
        ctx.case = (sorted(d.items()),)
        entries = [(key(v), (i if v < 0 else j), v, (i, j)) for (i, j), b in d.items() for v in b]
        entries.sort()
        if len({e[:2] for e in entries}) < len(entries):
            continue
        want = {}
        for a, (_, _, v, c) in enumerate(entries):
            want[c] = want.get(c, ()) + ((a + 1) if v > 0 else -(a + 1),)
        want = norm(want)
        k = 'standardize %s' % (sorted(d.items()),)
        s = Tableau(d).standardize()
        same(ctx, k, s, want)
        if not (s.is_semistandard(diagonal_primes=True)):
            ctx.violate(k, 'standardization is not standard', implementation=s.boxes)
        wt = tuple(sum(v == a for b in d.values() for v in b) for a in ref.letters(n, True))
        if (wt, freeze(want)) in seen:
            ctx.violate(k, 'two tableaux with the same weight have the same standardization')
        seen.add((wt, freeze(want)))
        word = [abs(a) for a in s.shifted_reading_word()]
        pos = {a: i for i, a in enumerate(word)}
        if sorted(word) != list(range(1, len(word) + 1)):
            ctx.violate(k + ' word', 'reading word of a standard tableau is not a permutation', implementation=word)
        desc = {a for a in range(1, len(word)) if pos[a + 1] < pos[a]}
        got = set(s.descent_set())
        if got != desc:
            ctx.violate(k + ' descents', 'descents are not those of the reading word', implementation=got, model=desc)
        levels = set()
        total = 0
        for a in range(1, n):
            total += sum(abs(v) == a for b in d.values() for v in b)
            levels.add(total)
        if not got <= levels:
            ctx.violate(k + ' compatibility', 'a descent inside a block of equal letters', implementation=got, model=levels)
        ctx.fam('standardize', transitions=1, traces=1)
    ctx.fam('standardize', states=counter[0])


def crystalword(ctx, mu, n, extra):
    """columns of multiset-valued tableaux and back"""
    cells = ref.boxes(mu)
    words = {}

    def rec(k, cur):
        if k == len(cells):
            t = Tableau(cur)
            ctx.case = (sorted(cur.items()),)
            name = 'crystal word of %s' % (sorted(cur.items()),)
            w = t.crystal_reading_word()
            want = []
            for j in range(1, mu[0] + 1 if mu else 1):
                col = [cur[i, j] for i in range(1, len(mu) + 1) if (i, j) in cur]
                want.append(tuple(b[0] for b in reversed(col)) + tuple(v for b in col for v in b[1:]))
            if w != tuple(want):
                ctx.violate(name, 'wrong reading word', implementation=w, model=want)
            if w in words:
                ctx.violate(name, 'two tableaux of one shape have the same reading word', other=words[w])
            words[w] = dict(cur)
            same(ctx, name + ' back', Tableau.from_crystal_reading_word(w), cur)
            ctx.fam('crystal words', states=1, transitions=1, traces=1)
            return
        i, j = cells[k]
        lo = max(cur[i, j - 1][-1] if (i, j - 1) in cur else 1, cur[i - 1, j][-1] + 1 if (i - 1, j) in cur else 1)
        used = sum(len(b) - 1 for b in cur.values())
        for size in range(1, extra - used + 2):
            for b in itertools.combinations_with_replacement(range(lo, n + 1), size):
                cur[i, j] = b
                rec(k + 1, cur)
                del cur[i, j]

    rec(0, {})
    if Tableau.from_crystal_reading_word(None) is not None:
        ctx.violate('none', 'None is not kept')


def rowword(ctx, mu, n):
    counter = [0, 0]
    for f in ref.fillings(ref.boxes(mu), n, counter=counter):
        t = Tableau(f)
        same(ctx, 'row word of %s' % (sorted(f.items()),), Tableau.from_row_reading_word(t.row_reading_word()), f)
        ctx.fam('row words', transitions=1, traces=1)
    ctx.fam('row words', states=counter[0])


def runs(ctx, n, m):
    for w in itertools.product(range(1, m + 1), repeat=n):
        ctx.case = w
        t = Tableau.from_row_reading_word(w)
        d = {}
        rows = []
        for a in w:
            if rows and rows[-1][-1] <= a:
                rows[-1].append(a)
            else:
                rows.append([a])
        for i, row in enumerate(reversed(rows)):
            for j, a in enumerate(row):
                d[i + 1, j + 1] = (a,)
        same(ctx, 'runs of %s' % (w,), t, d)
        if t.row_reading_word() != w:
            ctx.violate('runs of %s' % (w,), 'reading word is not the given word')
        ctx.fam('runs', states=1, transitions=1, traces=1)


def superstandard(ctx, size):
    for mu in ref.partitions_upto(size, True):
        cells = ref.boxes(mu, (), True)
        order = sorted(cells, key=lambda c: (c[1], c[0]))
        good = {c: a + 1 for a, c in enumerate(order)}
        if Tableau(good).is_shifted_column_superstandard() is not True:
            ctx.violate('superstandard %s' % (mu,), 'the column superstandard tableau is rejected')
        if sum(mu) <= 6:
            for p in itertools.permutations(range(1, len(cells) + 1)):
                d = dict(zip(order, p))
                got = Tableau(d).is_shifted_column_superstandard()
                if got != (d == good):
                    ctx.violate('superstandard %s' % (sorted(d.items()),), 'wrong answer', implementation=got)
                ctx.fam('superstandard', states=1, transitions=1, traces=1)
        for c in cells:
            for v in ((-good[c],), (good[c], good[c] + 1), (good[c] + 1,)):
                got = Tableau(dict(good, **{}) | {c: v}).is_shifted_column_superstandard()
                if got:
                    ctx.violate('superstandard %s %s' % (mu, c), 'a wrong tableau is accepted', value=v)
                ctx.fam('superstandard', states=1, transitions=1, traces=1)


def strings(ctx, m):
    """reading the text form of a tableau"""
    sets = [None, (1,), (-1,), (12,), (-12, 3), (-2, 2), (1, 1)]
    for k in range(1, m + 1):
        for f in itertools.product(sets, repeat=2 * k):
            for sep in (';', '\n', ' ; '):
                rows = [f[:k], f[k:]]
                d = {(i + 1, j + 1): tuple(sorted(b)) for i, r in enumerate(rows) for j, b in enumerate(r) if b}
                s = sep.join(' '.join('.' if b is None else ','.join(str(abs(v)) + ("'" if v < 0 else '') for v in b) for b in r) for r in rows)
                same(ctx, 'string %r' % s, Tableau(s), d)
                ctx.fam('strings', states=1, transitions=1, traces=1)
    for bad in ({(0, 1): 1}, {(1, 0): 1}, {(1, 1): 'a'}, {(1, 1): (1, 'b')}):
        try:
            Tableau(bad)
        except AssertionError:
            continue
        except TypeError:
            continue
        ctx.violate('bad mapping %s' % (bad,), 'an invalid mapping is accepted')


def permute(ctx, n):
    ws = [Permutation(*p) for p in itertools.permutations(range(1, n + 1))] + [Permutation(*[a * b for a, b in zip(p, s)]) for p in itertools.permutations(range(1, 4)) for s in itertools.product((1, -1), repeat=3)]
    ts = [{(1, 1): (1,)}, {(1, 1): (1, 2), (1, 2): (2, 4)}, {(1, 1): (-1, 2), (2, 1): (3,), (1, 2): (-4,)}, {(2, 2): (1, 3, 5)}]
    for w in ws:
        one = w.oneline
        act = lambda v: v if abs(v) > len(one) else (1 if v > 0 else -1) * one[abs(v) - 1]
        for d in ts:
            same(ctx, '%s * %s' % (one, sorted(d.items())), w * Tableau(d), norm({c: tuple(act(v) for v in b) for c, b in d.items()}))
            ctx.fam('permute', states=1, transitions=1, traces=1)


def run(ctx, name, args):
    globals()[name](ctx, *args)
