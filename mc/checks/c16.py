"""Partition enumerators and diagram operations against sets of cells and Young-lattice moves."""
import itertools
import utils
from mc import ref as R
from partitions import Partition as P

ID = 'C16'
RULE = ('all partitions, strict partitions, pairs, boxes, rows, columns, diagonals and options in bounds; the model works with explicit sets of cells and '
        'with breadth-first exploration of the Young lattice (states: diagrams, transitions: one added box); enumerators are compared as lists without repetition')
ASSUMPTIONS = ['sizes within the stated bounds']


def jobs(tier):
    q = tier == 'quick'
    n = 10 if q else 12
    ans = []
    for k in range(n + 1):
        ans.append((2 ** k * 20, 'enumerate', (k,)))
        ans.append((2 ** k, 'corners', (k,)))
        ans.append((2 ** k * 4, 'pairs', (k,)))
        ans.append((2 ** k, 'ribbons', (k,)))
    for k in range(9 if q else 11):
        ans.append((2 ** k, 'skewkeys', (k,)))
    ans.append((10 ** 4, 'bigskewkeys', (6 if q else 7, 6 if q else 7)))
    ans.append((10 ** 4, 'bigskewkeys', (2, 12 if q else 16)))
    for k in range(11 if q else 14):
        ans.append((2 ** k, 'compositions', (k,)))
        ans.append((2 ** k * 2, 'shifted', (k,)))
    for n, k in ((6, 1), (4, 2), (3, 3)) if q else ((9, 1), (6, 2), (4, 3)):
        ans.append((500, 'printed', (n, k)))
    for k in range(4):
        ans.append((3000, 'longcorners', (3, (1, 2, 9, 10, 11, 12) if q else (1, 2, 3, 9, 10, 11, 12, 20), k, 4)))
        ans.append((3000, 'longcorners', (4, (1, 10, 11) if q else (1, 2, 10, 11), k, 4)))
        ans.append((3000, 'longshifted', (3, (1, 2, 3, 9, 10, 11, 12) if q else (1, 2, 3, 4, 9, 10, 11, 12, 13, 20), k, 4)))
        ans.append((3000, 'longpairs', (2, (1, 2, 8, 9, 10, 11) if q else (1, 2, 3, 9, 10, 11, 12), k, 4)))
    for k in range(8):
        ans.append((3000, 'manyrows', (5, 8 if q else 9, k, 8)))
        ans.append((3000, 'manyrows', (4, 9 if q else 11, k, 8)))
        ans.append((3000, 'manyrows', (9, 7 if q else 8, k, 8)))
    for n in (11, 12, 14, 16, 20) if q else (13, 14, 15, 16, 18, 20, 22, 24, 26, 30):
        ans.append((3000, 'longlists', (n, 5 if q else 9)))
    ans.append((10 ** 3, 'tuples', (4 if q else 5, 3)))
    ans.append((10 ** 3, 'cellsets', ((3, 4) if q else (4, 4))))
    return ans


def exact(ctx, key, got, want):
    got = list(got)
    if any(type(x) not in (tuple, list) for x in got):
        ctx.violate(key, 'elements of the wrong type', got=got[:5])
    got = [tuple(x) for x in got]
    if len(got) != len(set(got)):
        ctx.violate(key + ' repeated', 'an object is listed twice', got=got)
    if set(got) != set(want):
        ctx.violate(key, 'wrong list of objects', missing=set(want) - set(got), extra=set(got) - set(want))
    return len(got)


def young(n):
    """levels of the Young lattice by adding boxes"""
    levels = [{()}]
    edges = 0
    for _ in range(n):
        new = set()
        for mu in levels[-1]:
            for i in range(len(mu) + 1):
                if i == 0 or R.get(mu, i - 1) > R.get(mu, i):
                    nu = list(mu) + [0]
                    nu[i] += 1
                    new.add(R.trim(nu))
                    edges += 1
        levels.append(new)
    return levels, edges


def strict(mu):
    return all(a > b for a, b in zip(mu, mu[1:]))


def cells(mu, shifted=False):
    return set(R.boxes(mu, shifted=shifted))


def fromcells(c, shifted=False):
    """the partition with this diagram, or None"""
    rows = {}
    for i, j in c:
        rows[i] = rows.get(i, 0) + 1
    mu = tuple(rows.get(i, 0) for i in range(1, max(rows, default=0) + 1))
    if 0 in mu or any(a < b for a, b in zip(mu, mu[1:])) or (shifted and not strict(mu)) or cells(mu, shifted) != set(c):
        return None
    return mu


def enumerate_(ctx, n):
    levels, edges = young(n)
    traces = 0
    for s in (False, True):
        for even in (False, True):
            ok = [mu for mu in levels[n] if (not s or strict(mu)) and (not even or all(a % 2 == 0 for a in mu))]
            for mp in [None] + list(range(n + 2)):
                for mr in [None] + list(range(n + 2)):
                    ctx.case = (n, s, even, mp, mr)
                    want = [mu for mu in ok if (mp is None or all(a <= mp for a in mu)) and (mr is None or len(mu) <= mr)]
                    exact(ctx, 'generate %s' % (ctx.case,), P.generate(n, max_part=mp, max_row=mr, strict=s, even_parts=even), want)
                    exact(ctx, 'generate positional %s' % (ctx.case,), P.generate(n, mp, mr, s, even), want)
                    traces += 2
                    if n <= 8:
                        allow = [mu for l in levels for mu in l if (not s or strict(mu)) and (not even or all(a % 2 == 0 for a in mu))
                                 and (mp is None or all(a <= mp for a in mu)) and (mr is None or len(mu) <= mr)]
                        exact(ctx, 'all %s' % (ctx.case,), P.all(n, max_part=mp, max_row=mr, strict=s, even_parts=even), allow)
                        traces += 1
    ctx.fam('partitions of %d with all options' % n, states=sum(map(len, levels)), transitions=edges, traces=traces)


def corners(ctx, n):
    some_corners(ctx, young(n)[0][n], n, 'diagrams of size %d' % n)


def pool(rows, parts, isstrict=False):
    """partitions with at most so many rows and parts from a list of small and large numbers"""
    out = [mu for k in range(1, rows + 1) for mu in itertools.combinations_with_replacement(sorted(parts, reverse=True), k)]
    return [mu for mu in out if not isstrict or strict(mu)]


def longcorners(ctx, rows, parts, part, chunks):
    mus = pool(rows, parts)
    if rows <= 3:
        mus = sorted(set(mus) | {fromcells({(j, i) for i, j in cells(mu)}) for mu in mus})
    some_corners(ctx, mus[part::chunks], 1 + max(max(mu[0], len(mu)) for mu in mus), 'long diagrams')


def longshifted(ctx, rows, parts, part, chunks):
    some_shifted(ctx, pool(rows, parts, True)[part::chunks], max(parts) + 2, 'long shifted diagrams')


def manyrows(ctx, rows, top, part, chunks):
    """every strict partition with 4 to so many rows and parts up to top"""
    mus = [mu for mu in pool(rows, range(1, top + 1), True) if len(mu) >= min(rows, 6 if rows > 5 else 4)]
    some_shifted(ctx, mus[part::chunks], top + 1, 'shifted diagrams with many rows')


def longpairs(ctx, rows, parts, part, chunks):
    small = pool(rows, parts)
    mus = small[part::chunks]
    some_pairs(ctx, mus, [()] + small, 'pairs of long partitions', full=False)


def longlists(ctx, n, tall):
    """all partitions of a larger number, by one recursion over the largest part; every bound on parts and rows up to tall"""
    def rec(n, top):
        if n == 0:
            yield ()
        for a in range(min(n, top), 0, -1):
            for rest in rec(n - a, a):
                yield (a,) + rest
    every = list(rec(n, n))
    k = 0
    for s in (False, True):
        for even in (False, True):
            ok = [mu for mu in every if (not s or strict(mu)) and (not even or all(a % 2 == 0 for a in mu))]
            for mp in [None] + list(range(tall)) + [n - 1, n]:
                for mr in [None] + list(range(tall)):
                    want = [mu for mu in ok if (mp is None or all(a <= mp for a in mu)) and (mr is None or len(mu) <= mr)]
                    k += exact(ctx, 'generate %s' % ((n, s, even, mp, mr),), P.generate(n, max_part=mp, max_row=mr, strict=s, even_parts=even), want)
    ctx.fam('partitions of %d' % n, states=len(every), transitions=k, traces=4 * (tall + 3) * (tall + 1))


def some_corners(ctx, mus, n, fam):
    st = tr = 0
    for mu in mus:
        c = cells(mu)
        st += 1
        ctx.case = mu
        ctx.equal('transpose %s' % (mu,), P.transpose(mu), fromcells({(j, i) for i, j in c}))
        ctx.equal('shape %s' % (mu,), P.shape(mu), c)
        ctx.equal('from_shape %s' % (mu,), P.from_shape(c), mu)
        ctx.equal('is_partition %s' % (mu,), P.is_partition(mu), True)
        ctx.equal('is_strict %s' % (mu,), (P.is_strict(mu), P.is_strict_partition(mu)), (strict(mu), strict(mu)))
        ctx.equal('trim %s' % (mu,), (P.trim(mu), P.trim(mu + (0,)), P.trim(list(mu) + [0, 0])), (mu, mu, mu))
        rem = {}
        for i in range(0, len(mu) + 3):
            ctx.equal('get %s %d' % (mu, i), P.get(mu, i), mu[i - 1] if 1 <= i <= len(mu) else 0)
            for j in range(-1, n + 3):
                ctx.equal('isin %s %d %d' % (mu, i, j), bool(P.isin(mu, i, j)), (i, j) in c)
            # adding a box to a row
            if i >= 1:
                x = fromcells(c | {(i, R.get(mu, i - 1) + 1)})
                if x is not None:
                    ctx.equal('add %s %d' % (mu, i), P.add(mu, i), x)
                    ctx.equal('add_box_to_row %s %d' % (mu, i), P.add_box_to_row(mu, i), x)
                    tr += 1
            # removing a corner
            y = fromcells(c - {(i, mu[i - 1])}) if 1 <= i <= len(mu) else None
            if y is not None:
                rem[i] = y
            try:
                got = P.remove_inner_corner(mu, i)
            except Exception:
                got = None
            ctx.equal('remove_inner_corner %s %d' % (mu, i), got, y)
            tr += 1
        want = []
        for k in range(len(rem) + 1):
            for sub in itertools.combinations(rem, k):
                want.append(fromcells(c - {(i, mu[i - 1]) for i in sub}))
        exact(ctx, 'remove_inner_corners %s' % (mu,), P.remove_inner_corners(mu), want)
        for j in range(1, n + 3):
            h = len([1 for x in c if x[1] == j])
            x = fromcells(c | {(h + 1, j)})
            if x is not None:
                ctx.equal('add_box_to_column %s %d' % (mu, j), P.add_box_to_column(mu, j, False), x)
                tr += 1
        for strictly in (False, True):
            if strictly and not strict(mu):
                continue
            want = []
            for d in itertools.product((0, 1), repeat=len(mu)):
                x = tuple(a + b for a, b in zip(mu, d))
                if all(a > b if strictly else a >= b for a, b in zip(x, x[1:])):
                    want.append(x)
            exact(ctx, 'successors %s %s' % (mu, strictly), P.successors(mu, strictly), want)
            exact(ctx, 'successors keyword %s %s' % (mu, strictly), P.successors(mu, strict=strictly), want)
        for text, kw in ((P.printable(mu), {}), (P.printable(mu, ()), {}),):
            ctx.equal('printable %s' % (mu,), parse(text), {(i, j): '*' for i, j in c})
        if strict(mu):
            ctx.equal('printable shifted %s' % (mu,), parse(P.printable(mu, shifted=True)), {(i, j): '*' for i, j in cells(mu, True)})
        tr += 10
    ctx.fam(fam, states=st, transitions=tr, traces=tr)


def parse(text):
    if text == '':
        return {}
    lines = list(reversed(text.split('\n')))
    assert len({len(l) for l in lines}) == 1
    out = {}
    for i, l in enumerate(lines):
        for j in range(0, len(l), 2):
            if l[j] != ' ':
                out[i + 1, j // 2 + 1] = l[j]
    return out


def printed(ctx, n, k):
    """sequences of partitions printed side by side, joined by arrows"""
    for shifted_, f in ((False, P.printables), (True, P.shifted_printables)):
        pool = R.partitions_upto(n, shifted_)
        for seq in itertools.product(pool, repeat=k):
            ctx.fam('printed sequences', states=1, transitions=k, traces=1)
            name = '%s %s' % ('shifted_printables' if shifted_ else 'printables', seq)
            lines = f(*seq).split('\n')
            if len(lines) != max([1] + [len(mu) for mu in seq]) or len({len(x) for x in lines}) != 1:
                ctx.violate(name, 'lines do not line up', implementation=lines)
                continue
            # the bottom line shows every arrow; it fixes the columns of the diagrams above
            got, at = [], 0
            for part in lines[-1].split('   ->    '):
                got.append(parse('\n'.join(x[at:at + len(part)] for x in lines)) if part else {})
                at += len(part) + 9
            ctx.equal(name, got, [{x: '*' for x in cells(mu, shifted_)} for mu in seq])


def shifted(ctx, n):
    """strict partitions: shifted diagrams"""
    some_shifted(ctx, [mu for mu in young(n)[0][n] if strict(mu)], n, 'shifted diagrams of size %d' % n)


def some_shifted(ctx, mus, n, fam):
    st = tr = 0
    for mu in mus:
        st += 1
        ctx.case = mu
        c = cells(mu, True)
        ctx.equal('shifted_shape %s' % (mu,), P.shifted_shape(mu), c)
        rem = {}
        for i in range(0, len(mu) + 3):
            for j in range(-1, n + 4):
                ctx.equal('isin_shifted %s %d %d' % (mu, i, j), (bool(P.isin_shifted(mu, i, j)), bool(P.isin(mu, i, j, True))), ((i, j) in c,) * 2)
            y = fromcells(c - {(i, i + mu[i - 1] - 1)}, True) if 1 <= i <= len(mu) else None
            if y is not None:
                rem[i] = y
            if i >= 1:
                ctx.equal('remove_shifted_inner_corner %s %d' % (mu, i), P.remove_shifted_inner_corner(mu, i), y)
            tr += 1
        want = []
        for k in range(len(rem) + 1):
            for sub in itertools.combinations(rem, k):
                want.append(fromcells(c - {(i, i + mu[i - 1] - 1) for i in sub}, True))
        exact(ctx, 'remove_shifted_inner_corners %s' % (mu,), P.remove_shifted_inner_corners(mu), want)
        for d in range(0, n + 3):
            inner = [i for i in rem if mu[i - 1] - 1 == d]
            outer = [i for i in range(1, len(mu) + 2) if fromcells(c | {(i, i + R.get(mu, i - 1))}, True) is not None and R.get(mu, i - 1) == d]
            ctx.equal('find_shifted_inner_corner %s %d' % (mu, d), P.find_shifted_inner_corner(mu, d), inner[0] if inner else None)
            ctx.equal('find_shifted_outer_corner %s %d' % (mu, d), P.find_shifted_outer_corner(mu, d), outer[0] if outer else None)
            if outer:
                x = fromcells(c | {(outer[0], outer[0] + d)}, True)
                ctx.equal('shifted column %s %d' % (mu, d), P.add_box_to_column(mu, outer[0] + d, True), x)
            tr += 2
        if mu:
            top = min(rem)
            ctx.equal('decrement_one %s' % (mu,), P.decrement_one(mu), rem[top])
        best = max((nu for nu in R.subparts(mu, strict=True) if R.get(nu, 0) <= max(R.get(mu, 0) - 1, 0)), key=sum)
        ctx.equal('decrement_strict %s' % (mu,), P.decrement_strict(mu), best)
        m = R.get(mu, 0)
        for N in range(m, m + 4):
            stair = {(i, j) for i in range(1, N + 1) for j in range(i, N + 1)}
            left = stair - c
            ctx.equal('complement %d %s' % (N, mu), P.complement(N, mu), tuple(a for a in range(N, 0, -1) if a not in mu))
            assert len(left) == sum(P.complement(N, mu))
            tr += 1
        # rims: strict shapes around mu with no two boxes on a diagonal line
        for k in range(0, 4):
            want = []
            L = len(mu)
            for lam in strict_between(mu, m + k, L + 1):
                r = cells(lam, True) - c
                if not any((i + 1, j + 1) in r for i, j in r):
                    want.append(tuple(sorted(r)))
            got = list(P.rims(mu, k))
            exact(ctx, 'rims %s %d' % (mu, k), got, want)
            if k == 1:
                exact(ctx, 'rims %s' % (mu,), P.rims(mu), want)
            for r in want:
                path = sorted(r, key=lambda x: x[1] - x[0])
                t = path[-1:]
                while t and len(t) < 3 and len(t) < len(path):
                    p = path[-len(t) - 1]
                    if abs(p[0] - t[0][0]) + abs(p[1] - t[0][1]) != 1:
                        break
                    t = [p] + t
                ctx.equal('rim_terminal_part %s' % (r,), set(P.rim_terminal_part(r)), set(t))
                lam = fromcells(c | set(r), True)
                ctx.equal('merge_shifted %s %s' % (mu, r), (P.merge_shifted(mu, r), P.merge_shifted(P.shifted_shape(mu), r)), (lam, lam))
                tr += 2
        want = [tuple(R.trim(a - b for a, b in zip(mu, d))) for d in itertools.product((0, 1), repeat=len(mu))
                if strict(R.trim(a - b for a, b in zip(mu, d))) and R.trim(a - b for a, b in zip(mu, d)).count(0) == 0]
        exact(ctx, 'vertical strips %s' % (mu,), P.decompose_shifted_shape_by_vertical_strips(mu), set(want))
        want = []
        for nu in R.subparts(mu, strict=True):
            r = c - cells(nu, True)
            if not any((i + 1, j + 1) in c for i, j in r):
                want.append(nu)
        exact(ctx, 'rims below %s' % (mu,), P.decompose_shifted_shape_by_rims(mu), want)
        exact(ctx, 'shifted_ribbon_complements %s' % (mu,), P.shifted_ribbon_complements(mu), want)
        tr += 5
    ctx.fam(fam, states=st, transitions=tr, traces=tr)


def strict_between(mu, top, rows):
    """strict partitions containing mu, first part at most top, at most the given number of rows"""
    def rec(i, prev):
        if i == rows:
            yield ()
            return
        for a in range(R.get(mu, i), (top if i == 0 else prev - 1 if prev > 0 else 0) + 1):
            for rest in rec(i + 1, a):
                yield (a,) + rest
    return {R.trim(x) for x in rec(0, 0)}


def pairs(ctx, n):
    levels, _ = young(n)
    some_pairs(ctx, levels[n], [nu for l in levels for nu in l], 'pairs of partitions, larger one of size %d' % n, full=n <= 8)


def some_pairs(ctx, mus, small, fam, full):
    st = tr = 0
    for mu in mus:
        c = cells(mu)
        inside = [nu for nu in R.subparts(mu)]
        st += 1
        for s in (False, True):
            want = [nu for nu in inside if not s or strict(nu)]
            exact(ctx, 'subpartitions %s %s' % (mu, s), P.subpartitions(mu, strict=s), want)
            exact(ctx, 'subpartitions list %s %s' % (mu, s), P.subpartitions(list(mu), (), s), want)
            for nu in inside:
                if not full and (len(nu) > 3 or (len(inside) > 200 and nu not in small)):
                    continue
                exact(ctx, 'subpartitions %s above %s %s' % (mu, nu, s), P.subpartitions(mu, nu, s), [x for x in want if cells(nu) <= cells(x)])
                tr += 1
        for nu in small:
            ctx.case = (mu, nu)
            tr += 1
            ctx.equal('contains %s %s' % (mu, nu), P.contains(mu, nu), cells(nu) <= c)
            ctx.equal('contains %s %s' % (nu, mu), P.contains(nu, mu), c <= cells(nu))
            ctx.equal('union %s %s' % (mu, nu), P.union(mu, nu), fromcells(c | cells(nu)))
            ctx.equal('union %s %s' % (nu, mu), P.union(nu, mu), fromcells(c | cells(nu)))
        for nu in inside:
            sk = c - cells(nu)
            ctx.equal('skew %s %s' % (mu, nu), P.skew(mu, nu), sk)
            ctx.equal('printable %s %s' % (mu, nu), parse(P.printable(mu, nu)), {x: '*' if x in sk else '.' for x in c})
            roundtrip(ctx, sk, False)
            if strict(mu) and strict(nu):
                sh = cells(mu, True) - cells(nu, True)
                ctx.equal('skew shifted %s %s' % (mu, nu), P.skew(mu, nu, shifted=True), sh)
                ctx.equal('shifted_shape %s %s' % (mu, nu), P.shifted_shape(mu, nu), sh)
                ctx.equal('printable shifted %s %s' % (mu, nu), parse(P.printable(mu, nu, True)), {x: '*' if x in sh else '.' for x in cells(mu, True)})
                roundtrip(ctx, sh, True)
                # a shifted diagram is also an unshifted set of cells when it lies right of its staircase
            tr += 3
    ctx.fam(fam, states=st * len(small), transitions=tr, traces=tr)


def roundtrip(ctx, sk, shifted):
    """from_skew: some pair of partitions with this skew diagram, moved to the left as far as possible"""
    key = 'from_skew %s %s' % (sorted(sk), shifted)
    outer, inner = P.from_skew(set(sk), shifted=shifted)
    ok = len(inner) < len(outer) or not outer
    ok = ok and all(a >= b >= 0 for a, b in zip(outer, outer[1:] + (0,))) and all(a >= b >= 0 for a, b in zip(inner, inner[1:] + (0,)))
    ok = ok and all(R.get(inner, i) <= R.get(outer, i) for i in range(len(inner)))
    back = cells(outer, shifted) - cells(inner, shifted)
    if sk:
        d = min(j for _, j in sk) - min([j for _, j in back] + [10 ** 6])
        ok = ok and d >= 0 and {(i, j + d) for i, j in back} == set(sk)
    else:
        ok = ok and not back
    if not ok:
        ctx.violate(key, 'the pair does not describe the diagram', got=(outer, inner))


def ribbons(ctx, n):
    cs = compositions_of(n)
    levels, _ = young(n)
    for alpha in cs:
        ctx.case = alpha
        for name, ribbon in (('', P.shifted_ribbon), ('utils.', utils.shifted_ribbon)):
            if name and not alpha:
                continue
            nu, lam = ribbon(alpha)
            sh = cells(nu, True) - cells(lam, True)
            rows = tuple(len([1 for x in sh if x[0] == i]) for i in range(1, len(alpha) + 1))
            connected = all(max(j for a, j in sh if a == i + 1) == min(j for a, j in sh if a == i) for i in range(1, len(alpha)))
            corner = not alpha or (len(alpha), len(alpha)) in sh
            if rows != tuple(alpha) or not connected or not corner or not strict(nu) or not strict(lam):
                ctx.violate(name + 'shifted_ribbon %s' % (alpha,), 'not the ribbon with these row lengths', got=(nu, lam))
    want = []
    for k in range(n * (n + 1) // 2 + 1):
        for x in R.strict_partitions_of(k):
            if R.get(x, 0) != n:
                continue
            c = cells(x, True)
            for y in R.subparts(x, strict=True):
                r = c - cells(y, True)
                if not any((i + 1, j + 1) in c for i, j in r):
                    want.append((x, y))
    if n <= 8:
        got = [(tuple(a), tuple(b)) for a, b in P.shifted_ribbons(n)]
        exact(ctx, 'shifted_ribbons %d' % n, got, want)
    ctx.fam('shifted ribbons, n = %d' % n, states=len(cs) + len(want), transitions=len(want), traces=len(cs) + 1)


def compositions_of(n):
    level = [()]
    out = {(): 0}
    done = []
    todo = [((), 0)]
    while todo:
        a, s = todo.pop()
        if s == n:
            done.append(a)
        for k in range(1, n - s + 1):
            todo.append((a + (k,), s + k))
    return done


def compositions(ctx, n):
    want = compositions_of(n)
    exact(ctx, 'compositions %d' % n, P.compositions(n), want)
    exact(ctx, 'peak_compositions %d' % n, P.peak_compositions(n), [a for a in want if all(x != 1 for x in a[:-1])])
    ctx.fam('compositions of %d' % n, states=len(want), transitions=len(want), traces=2)


def skewkeys(ctx, n):
    """equal keys only for diagrams that are translates (shifted: with the same diagonal boxes), and translates along the diagonal get equal keys"""
    levels, _ = young(n)
    keys(ctx, [mu for l in levels for mu in l], 'skew keys up to size %d' % n)


def bigskewkeys(ctx, rows, top):
    keys(ctx, [()] + pool(rows, range(1, top + 1), True), 'skew keys of strict partitions')


def keys(ctx, small, fam):
    st = 0
    seen = {False: {}, True: {}}
    for mu in small:
        for nu in R.subparts(mu):
            for sh in (False, True):
                if sh and not (strict(mu) and strict(nu)):
                    continue
                st += 1
                d = frozenset(cells(mu, sh) - cells(nu, sh))
                key = P.skew_key(mu, nu, sh)
                if len(key) != len(d):
                    ctx.violate('skew_key %s %s %s' % (mu, nu, sh), 'key has the wrong number of cells', found=key)
                norm = (sh and any(i == j for i, j in d), normal(d, sh))
                other = seen[sh].setdefault(key, norm)
                if other != norm:
                    ctx.violate('skew_key %s %s %s' % (mu, nu, sh), 'one key for two different diagrams', found=key, other=other)
                if not sh and d:
                    ctx.equal('skew_key normal %s %s' % (mu, nu), key, tuple(sorted(norm[1])))
    for sh in (False, True):
        byn = {}
        for key, norm in seen[sh].items():
            if sh and not norm[0]:
                continue
            if byn.setdefault(norm, key) != key:
                ctx.violate('skew_key translates %s' % (norm,), 'translated diagrams get different keys', keys=(key, byn[norm]))
    ctx.fam(fam, states=st, transitions=st, traces=st)


def normal(d, sh):
    if not d:
        return d
    if sh and any(i == j for i, j in d):
        k = min(min(i for i, _ in d), min(j for _, j in d)) - 1
        return frozenset((i - k, j - k) for i, j in d)
    a, b = min(i for i, _ in d) - 1, min(j for _, j in d) - 1
    return frozenset((i - a, j - b) for i, j in d)


def tuples(ctx, L, m):
    """arbitrary tuples: predicates and sorting"""
    k = 0
    for l in range(L + 1):
        for t in itertools.product(range(0, m + 1), repeat=l):
            k += 1
            ctx.case = t
            ctx.equal('is_partition %s' % (t,), bool(P.is_partition(t)), all(a >= b for a, b in zip(t, t[1:])))
            ctx.equal('is_strict %s' % (t,), (bool(P.is_strict(t)), bool(P.is_strict_partition(t))), (strict(t), strict(t)))
            s = tuple(sorted(t, reverse=True))
            ctx.equal('sort %s' % (t,), (P.sort(t), P.sort(t, True), P.sort(list(t), trim=True), P.sort(iter(t))), (s, R.trim(s), R.trim(s), s))
            ctx.equal('trim %s' % (t,), P.trim(t), R.trim(t))
            for neg in range(1, m + 1):
                if t:
                    u = t[:-1] + (-neg,)
                    ctx.equal('is_partition %s' % (u,), bool(P.is_partition(u)), False)
    ctx.fam('tuples', states=k, transitions=k, traces=5 * k)


def cellsets(ctx, a, b):
    """from_shape counts the cells of each row"""
    grid = [(i, j) for i in range(1, a + 1) for j in range(1, b + 1)]
    k = 0
    for bits in itertools.product((0, 1), repeat=len(grid)):
        s = {c for c, x in zip(grid, bits) if x}
        rows = max([i for i, _ in s] + [0])
        ctx.equal('from_shape %s' % (sorted(s),), P.from_shape(s), tuple(len([1 for i, _ in s if i == r]) for r in range(1, rows + 1)))
        k += 1
    ctx.fam('sets of cells', states=k, transitions=k, traces=k)


def run(ctx, name, args):
    {'enumerate': enumerate_}.get(name, globals().get(name))(ctx, *args)
