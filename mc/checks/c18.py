"""Valued-set tableaux: enumeration, accessors and the weight-reversing transitions."""
import itertools
from collections import Counter
from mc import ref
from tableaux import Tableau
from vst import ValuedSetTableau as V, combine_str

ID = 'C18'
RULE = ('every shifted skew shape within the bound and every number of letters; the model grows fillings box by box and then every way of cutting runs of equal '
        'letters into groups; transitions are explored as a graph on all these states (each edge must reverse the weight, keep the primed diagonal boxes counted, touch '
        'only the two letters, commute with restricting and renaming letters, and lead back)')
ASSUMPTIONS = ['shapes and numbers of letters within the stated bounds']


def model(mu, nu, n, dp, counter):
    """All (filling, grouping) pairs; a grouped box carries 1 and continues to its right (unprimed) or upper row (primed) neighbour."""
    out = []
    for f in ref.fillings(ref.boxes(mu, nu, True), n, True, diag=None if dp else (lambda a: a > 0), counter=counter):
        f = {c: v[0] for c, v in f.items()}
        out += groupings(f, counter)
    return out


def groupings(f, counter=None):
    free = [c for c in sorted(f) if f.get((c[0], c[1] + 1) if f[c] > 0 else (c[0] - 1, c[1])) == f[c]]
    ans = []
    for bits in itertools.product((0, 1), repeat=len(free)):
        g = dict.fromkeys(f, 0)
        g.update(zip(free, bits))
        ans.append((f, g))
        if counter is not None:
            counter[0] += 1
            counter[1] += 1
    return ans


def read(v):
    return frozenset((c, v.tableau.get(*c), v.grouping.get(*c)) for c in v.tableau.boxes)


def freeze(f, g):
    return frozenset((c, f[c], g[c]) for c in f)


def make(f, g):
    return V(dict(f), dict(g))


def groups(f, g):
    """Maximal runs: list of (letter, cells)."""
    nxt = {}
    for c in f:
        if g[c]:
            nxt[c] = (c[0], c[1] + 1) if f[c] > 0 else (c[0] - 1, c[1])
    starts = set(f) - set(nxt.values())
    ans = []
    for s in sorted(starts):
        run = [s]
        while run[-1] in nxt:
            run.append(nxt[run[-1]])
        ans.append((f[s], run))
    return ans


def semistandard(f):
    k = ref.key
    for (i, j), a in f.items():
        b = f.get((i, j + 1))
        if b is not None and not (k(a) < k(b) or a == b > 0):
            return False
        b = f.get((i + 1, j))
        if b is not None and not (k(a) < k(b) or a == b < 0):
            return False
    return True


def interstandard(f, g):
    """Standard with respect to 1' < 2' < 1 < 2, except for two configurations at a diagonal hinge."""
    order = {-1: 0, -2: 2, 1: 3, 2: 5}
    for (i, j), a in f.items():
        b = f.get((i, j + 1))
        if b is not None and not (order[a] < order[b] or a == b > 0):
            d = f.get((i + 1, j + 1))
            if not (i == j and a == 1 and b == -2 and (d == 1 or (d == -2 and g[i + 1, j + 1]))):
                return False
        b = f.get((i + 1, j))
        if b is not None and not (order[a] < order[b] or a == b < 0):
            d = f.get((i, j - 1))
            if not (i + 1 == j and b == -2 and a == 1 and (i, j - 1) in f and (d == -2 or (d == 1 and g[i, j - 1]))):
                return False
    return True


def jobs(tier):
    q = tier == 'quick'
    ans = []
    for n, top in ((1, 10), (2, 9), (3, 7), (4, 5)) if q else ((1, 11), (2, 10), (3, 8), (4, 6), (5, 4)):
        for size in range(top + 1):
            shapes = [(mu, nu) for mu in ref.strict_partitions_of(size) for nu in ref.subparts(mu, True)]
            k = max(1, len(shapes) // (4 if size == top else 12)) if size >= top - 1 and n > 1 else 1
            for r in range(k):
                ans.append(((size * 10 + n * 15), 'transitions', (n, tuple(shapes[r::k]))))
    for n, top in ((5, 3), (6, 2), (7, 2), (8, 2), (9, 1), (10, 1), (11, 1), (12, 1)) if q else ((6, 3), (7, 3), (8, 2), (9, 2), (10, 2), (11, 2), (12, 1)):
        ans.append((100, 'transitions', (n, tuple((mu, nu) for size in range(top + 1) for mu in ref.strict_partitions_of(size) for nu in ref.subparts(mu, True)))))
    for n, mus in ((1, ((11,), (12,), (11, 1), (11, 10))), (2, ((10,), (10, 1), (9,)))):
        for mu in mus:
            for nu in ref.subparts(mu, True):
                if sum(mu) - sum(nu) <= (11 if n == 1 else 7):
                    ans.append((200, 'transitions', (n, ((mu, nu),))))
    for size in range(10 if q else 11):
        shapes = [(mu, nu) for mu in ref.strict_partitions_of(size) for nu in ref.subparts(mu, True)]
        k = max(1, len(shapes) // 8)
        for r in range(k):
            ans.append((size * 10, 'inter', tuple(shapes[r::k])))
    for size in range(6 if q else 7):
        ans.append((size * 10, 'free', tuple((mu, nu) for mu in ref.strict_partitions_of(size) for nu in ref.subparts(mu, True))))
    return ans


def accessors(ctx, f, g, v, n):
    key = 'vst %s %s' % (sorted(f.items()), sorted(g.items()))
    runs = groups(f, g)
    w = [0] * n
    for a, _ in runs:
        w[abs(a) - 1] += 1
    ctx.equal(key + ' weight', tuple(v.weight(n)), tuple(w))
    ctx.equal(key + ' semistandard', v.is_semistandard(), semistandard(f))
    single = [r[0] for _, r in runs if len(r) == 1]
    ctx.equal(key + ' singletons', set(v.singletons()), set(single))
    ctx.equal(key + ' diagonal primes', v.diagonal_primes(), sum(1 for c in f if c[0] == c[1] and f[c] < 0))
    ctx.equal(key + ' diagonal singletons', v.diagonal_singletons(), sorted(c[0] for c in single if c[0] == c[1]))
    ctx.equal(key + ' primed diagonal', v.primed_diagonal_cells(*range(1, n + 1)), sorted(c[0] for c in f if c[0] == c[1] and f[c] < 0))
    ctx.equal(key + ' primed groups', v.primed_groups(), sum(1 for a, _ in runs if a < 0))
    for k in range(1, n + 1):
        ctx.equal(key + ' singletons %d' % k, set(v.singletons(k)), {c for c in single if abs(f[c]) == k})
        ctx.equal(key + ' singletons %d' % -k, set(v.singletons(-k)), {c for c in single if abs(f[c]) == k})
        ctx.equal(key + ' diagonal singletons %d' % k, v.diagonal_singletons(k), sorted(c[0] for c in single if abs(f[c]) == k and c[0] == c[1]))
        ctx.equal(key + ' primed diagonal %d' % k, v.primed_diagonal_cells(k), sorted(c[0] for c in f if c[0] == c[1] and f[c] == -k))
        ctx.equal(key + ' primed groups %d' % k, v.primed_groups(k), sum(1 for a, _ in runs if a == -k))
        hs, he = v.get_horizontals(k)
        ctx.equal(key + ' horizontals %d' % k, Counter(zip(hs, he)), Counter((r[0], r[-1]) for a, r in runs if a == k))
        vs, ve = v.get_verticals(-k)
        ctx.equal(key + ' verticals %d' % k, Counter(zip(vs, ve)), Counter((r[-1], r[0]) for a, r in runs if a == -k))
    ends = {r[-1] for _, r in runs}
    starts = {r[0] for _, r in runs}
    where = {c: k for k, (_, r) in enumerate(runs) for c in r}
    for (i, j) in f:
        ctx.equal(key + ' end %s' % ((i, j),), bool(v.is_group_end(i, j)), (i, j) in ends)
        ctx.equal(key + ' start %s' % ((i, j),), bool(v.is_group_start(i, j)), (i, j) in starts)
        ctx.equal(key + ' singleton %s' % ((i, j),), bool(v.is_singleton(i, j)), (i, j) in single)
        for x, y in ((i, j + 1), (i + 1, j), (i + 1, j + 1)):
            if (x, y) in f:
                same = where[i, j] == where[x, y] and abs(i - x) + abs(j - y) == 1
                ctx.equal(key + ' same group', bool(v.in_same_group(i, j, x, y)), same)
                ctx.equal(key + ' same group', bool(v.in_same_group(x, y, i, j)), same)
    ctx.equal(key + ' outside', bool(v.is_group_end(90, 90) or v.is_group_start(90, 90)), False)
    ctx.equal(key + ' ungrouped', v.is_highest_weight(), not any(g.values()))
    un = {c: (abs(a) if c in single else a) for c, a in f.items()}
    ctx.equal(key + ' unprime', read(v.unprime()), freeze(un, g))
    un = {c: (abs(a) if c in single and c[0] == c[1] else a) for c, a in f.items()}
    ctx.equal(key + ' unprime diagonal', read(v.unprime_diagonal()), freeze(un, g))


def relabel(f, g, i):
    keep = {c: a for c, a in f.items() if abs(a) in (i, i + 1)}
    return {c: (abs(a) - i + 1) * (1 if a > 0 else -1) for c, a in keep.items()}, {c: g[c] for c in keep}


def transitions(ctx, n, shapes):
    for mu, nu in shapes:
        for dp in (True, False):
            c = [0, 0]
            ctx.case = (mu, nu, n, dp)
            want = model(mu, nu, n, dp, c)
            lib = [V.all(n, mu, nu, dp), V.all(n, mu, nu, diagonal_primes=dp)] + ([V.all(n, mu, nu)] if dp else [])
            states = {freeze(f, g) for f, g in want}
            assert len(states) == len(want)
            for l in lib:
                ctx.equal('all %s' % (ctx.case,), Counter(read(v) for v in l), Counter(states))
            ctx.fam('enumeration n=%d' % n, states=c[0], transitions=c[1], traces=len(lib))
            if not dp:
                continue
            gf = Counter()
            seen_repr = {}
            prime = {}
            for f, g in want:
                v = make(f, g)
                ctx.case = (mu, nu, n, f, g)
                s = freeze(f, g)
                if sum(mu) <= 6:
                    accessors(ctx, f, g, v, n)
                    r = repr(v)
                    if seen_repr.setdefault(r, s) != s:
                        ctx.violate('repr %s %s' % (s, seen_repr[r]), 'two different tableaux print alike')
                    u = make(f, g)
                    if not (u == v and hash(u) == hash(v) and not u != v) or v == v.tableau:
                        ctx.violate('equality %s' % (s,), 'equal tableaux differ')
                w = [0] * n
                for a, _ in groups(f, g):
                    w[abs(a) - 1] += 1
                gf[tuple(w)] += 1
                for i in range(1, n):
                    key = 'transition %d of %s %s' % (i, sorted(f.items()), sorted(g.items()))
                    t = v.transition(i)
                    r = read(t)
                    if r not in states:
                        ctx.violate(key, 'the image is not a semistandard tableau of the same shape', implementation=sorted(r))
                    b = list(w)
                    b[i - 1], b[i] = b[i], b[i - 1]
                    ctx.equal(key + ' weight', tuple(t.weight(n)), tuple(b))
                    ctx.equal(key + ' diagonal primes', t.diagonal_primes(), v.diagonal_primes())
                    ctx.equal(key + ' twice', read(t.transition(i)), s)
                    tf = {x: a for x, a, _ in r}
                    tg = {x: a for x, _, a in r}
                    for x, a in f.items():
                        if abs(a) not in (i, i + 1) and (tf[x], tg[x]) != (a, g[x]):
                            ctx.violate(key, 'another letter changed', implementation=sorted(r))
                    if n > 2:
                        f2, g2 = relabel(f, g, i)
                        k2 = freeze(f2, g2)
                        if k2 not in prime:
                            prime[k2] = read(make(f2, g2).transition(1))
                        ctx.equal(key + ' restricted', freeze(*relabel(tf, tg, i)), prime[k2], 'the transition depends on other letters')
                    ctx.fam('transitions n=%d' % n, states=1, transitions=1, traces=1)
            bar = ref.generating_function(ref.boxes(mu, nu, True), n, True, bar=True)
            ctx.equal('weights %s %s %d' % (mu, nu, n), dict(gf), bar)
            ctx.outcome((mu, nu, n, sorted(gf.items())))


def inter(ctx, *shapes):
    """The intermediate tableaux and the two half transitions, for the letters 1 and 2."""
    for mu, nu in shapes:
        cells = ref.boxes(mu, nu, True)
        semi = {freeze(f, g): (f, g) for f, g in model(mu, nu, 2, True, None)}
        ctx.case = (mu, nu)
        # grow fillings that are locally allowed, allowing the exceptional diagonal configurations, and filter
        want = {}
        order = {-1: 0, -2: 2, 1: 3, 2: 5}
        cur = {}
        cost = [0, 0]

        def rec(k):
            cost[0] += 1
            if k == len(cells):
                for f, g in groupings(dict(cur)):
                    if interstandard(f, g):
                        want[freeze(f, g)] = (f, g)
                return
            i, j = cells[k]
            for a in (-1, -2, 1, 2):
                b = cur.get((i, j - 1))
                if b is not None and not (order[b] < order[a] or a == b > 0) and not (i == j - 1 and b == 1 and a == -2):
                    continue
                b = cur.get((i - 1, j))
                if b is not None and not (order[b] < order[a] or a == b < 0) and not (i == j and a == -2 and b == 1):
                    continue
                cost[1] += 1
                cur[i, j] = a
                rec(k + 1)
                del cur[i, j]
        rec(0)
        got = V.all_interstandard(mu, nu)
        ctx.equal('interstandard %s %s' % (mu, nu), Counter(read(v) for v in got), Counter(list(want)))
        images = set()
        for s, (f, g) in semi.items():
            t = make(f, g).forward_transition(1)
            r = read(t)
            if r not in want:
                ctx.violate('forward %s' % sorted(s), 'not an intermediate tableau', implementation=sorted(r))
            if not t.is_interstandard():
                ctx.violate('forward %s' % sorted(s), 'is_interstandard rejects an intermediate tableau')
            images.add(r)
            ctx.equal('forward then backward %s' % sorted(s), read(t.backward_transition(1)), s)
            ctx.equal('forward weight %s' % sorted(s), tuple(t.weight(2)), tuple(make(f, g).weight(2)))
            m, _ = t.middle_transition(1)
            if read(m) not in want:
                ctx.violate('middle %s' % sorted(s), 'not an intermediate tableau', implementation=sorted(read(m)))
            ctx.equal('middle weight %s' % sorted(s), tuple(m.weight(2)), tuple(reversed(t.weight(2))))
            ctx.equal('middle twice %s' % sorted(s), read(m.middle_transition(1)[0]), r)
            ctx.equal('composition %s' % sorted(s), read(m.backward_transition(1)), read(make(f, g).transition(1)))
        for s, (f, g) in want.items():
            v = make(f, g)
            ctx.equal('is_interstandard %s' % sorted(s), v.is_interstandard(), True)
            b = v.backward_transition(1)
            if read(b) not in semi:
                ctx.violate('backward %s' % sorted(s), 'not semistandard', implementation=sorted(read(b)))
            ctx.equal('backward then forward %s' % sorted(s), read(b.forward_transition(1)), s)
        ctx.equal('forward onto %s %s' % (mu, nu), len(images), len(want))
        ctx.fam('intermediate', states=cost[0] + len(want) + len(semi), transitions=cost[1] + 4 * len(semi), traces=len(semi) + len(want))


def free(ctx, *shapes):
    """The predicates on arbitrary fillings and on invalid groupings."""
    for mu, nu in shapes:
        cells = ref.boxes(mu, nu, True)
        for vals in itertools.product((-2, -1, 1, 2), repeat=len(cells)):
            f = dict(zip(cells, vals))
            ctx.case = f
            for f, g in groupings(f):
                v = make(f, g)
                ctx.equal('is_semistandard %s' % sorted(f.items()), v.is_semistandard(), semistandard(f))
                ctx.equal('is_interstandard %s %s' % (sorted(f.items()), sorted(g.items())), v.is_interstandard(), interstandard(f, g))
                ctx.fam('predicates', states=1, transitions=1, traces=1)
            if len(cells) <= 4:
                ok = {tuple(sorted(g.items())) for _, g in groupings(f)}
                for bits in itertools.product((0, 1), repeat=len(cells)):
                    g = dict(zip(cells, bits))
                    try:
                        make(f, g)
                        good = True
                    except AssertionError:
                        good = False
                    ctx.equal('accepts %s %s' % (sorted(f.items()), bits), good, tuple(sorted(g.items())) in ok)


def run(ctx, name, args):
    globals()[name](ctx, *args)
    ctx.sample('%s %s' % (name, str(args)[:150]))
