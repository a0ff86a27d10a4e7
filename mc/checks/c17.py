"""KOG and KLG tableaux, their counts, and the Pieri rules they describe."""
import itertools
from collections import Counter
from mc import ref, sym
import utils
from partitions import Partition as P
from tableaux import Tableau as T

ID = 'C17'
RULE = ('every strict partition and every content bound in the grid; the model grows each rim from south-west to north-east one label at a time '
        '(states: last cell, smallest and largest label, set of labels used) and collects every completed filling; the Pieri and dual Pieri identities are '
        'checked coefficient by coefficient against generating functions obtained by exploring partial fillings')
ASSUMPTIONS = ['the definitions of KOG and KLG tableaux in this file are the intended ones (Buch and Ravikumar)', 'sizes within the stated bounds']


def rims(mu, first):
    """Strict nu containing mu, nu/mu (shifted) without two cells (i, j), (i + 1, j + 1), first row longer by at most `first`."""
    ans = set()

    def rec(rows, i):
        base = ref.get(mu, i)
        for a in range(base, (ref.get(mu, 0) + first if i == 0 else max(rows[-1] - 1, 0)) + 1):
            if a == 0:
                ans.add(ref.trim(rows))
                continue
            if i and a > ref.get(mu, i - 1):     # a cell (i-1, j-1) and a cell (i, j), both outside mu
                break
            rec(rows + [a], i + 1)
    rec([], 0)
    return sorted(ans)


def grow(cells, kind, p, counter=None):
    """All KOG / KLG fillings of the rim with labels 1..p all used (KLG: up to sign)."""
    cells = sorted(cells, key=lambda c: (c[1] - c[0], -c[0]))
    out = []
    labels = [a for k in range(1, p + 1) for a in ((k,) if kind == 'KOG' else (-k, k))]
    key = ref.key

    def rec(k, cur, lo, hi, used):
        if counter is not None:
            counter[0] += 1
        if k == len(cells):
            if len(used) == p:
                out.append(dict(zip(cells, cur)))
            return
        if p - len(used) > len(cells) - k:
            return
        c = cells[k]
        prev = cells[k - 1] if k else None
        for a in labels:
            if kind == 'KLG' and a < 0 and c[0] == c[1]:
                continue
            if prev == (c[0], c[1] - 1) and not key(cur[-1]) < key(a):
                continue
            if prev == (c[0] + 1, c[1]) and not key(a) < key(cur[-1]):
                continue
            if k:
                below, above = key(a) <= lo, key(a) >= hi
                if kind == 'KOG' and not (below or above):
                    continue
                if kind == 'KLG' and not (above if a > 0 else below):
                    continue
            if counter is not None:
                counter[1] += 1
            rec(k + 1, cur + (a,), min(lo, key(a)), max(hi, key(a)), used | {abs(a)})
    rec(0, (), 10 ** 9, -1, frozenset())
    return out


def freeze(d):
    return frozenset(d.items())


def jobs(tier):
    q = tier == 'quick'
    ans = []
    top, pmax = (9, 7) if q else (12, 8)
    for mu in ref.partitions_upto(top, strict=True):
        for kind in ('KOG', 'KLG'):
            ans.append((sum(mu) + 10 * len(mu), 'tableaux', (kind, mu, pmax if len(mu) < 3 or not q else pmax - 1)))
    for mu in ref.partitions_upto(11 if q else 14, strict=True):
        ans.append((20, 'counts', (mu, 8 if q else 10)))
    for mu in ref.partitions_upto(6 if q else 9, strict=True):
        for fam in ('GP', 'GQ'):
            ans.append((50 + sum(mu) * 20, 'pieri', (fam, mu, 4 if q else 5)))
    for mu in ref.partitions_upto(5 if q else 8, strict=True):
        for fam in ('gp', 'gq'):
            ans.append((50 + sum(mu) * 20, 'dual', (fam, mu, 4 if q else 5)))
    for nu in ref.partitions_upto(10 if q else 13, strict=True):
        ans.append((30 + sum(nu), 'copieri', (nu, 6 if q else 8)))
    # long rows
    for mu in ((9,), (10,), (11,), (10, 1), (10, 9), (11, 2), (12, 10, 1)):
        for kind in ('KOG', 'KLG'):
            ans.append((400, 'tableaux', (kind, mu, 3 if q else 4)))
        ans.append((400, 'counts', (mu, 6 if q else 8)))
    # many rows, many disconnected pieces
    for mu in ((6, 4, 2), (7, 5, 3, 1), (8, 6, 4, 2), (9, 6, 3), (9, 7, 5, 3, 1), (6, 5, 4, 3, 2, 1), (7, 6, 5), (8, 7, 3, 2)):
        ans.append((400, 'counts', (mu, 3 if q else 5)))
    for mu in ((6, 4, 2), (7, 5, 3, 1), (9, 6, 3), (6, 5, 4, 3, 2, 1), (8, 7, 3, 2)):
        for kind in ('KOG', 'KLG'):
            ans.append((400, 'tableaux', (kind, mu, 3 if q else 4)))
    for mu in ((), (1,), (2, 1)):
        ans.append((400, 'counts', (mu, 12 if q else 14)))
    for mu in ((9,), (10,), (11,)) + (() if q else ((10, 1), (12,))):
        for fam in ('GP', 'GQ'):
            ans.append((400, 'pieri', (fam, mu, 2 if q else 3)))
        for fam in ('gp', 'gq'):
            ans.append((400, 'dual', (fam, mu, 2 if q else 3)))
    for fam in ('GP', 'GQ'):
        for mu in ((), (1,)):
            ans.append((400, 'pieri', (fam, mu, 10 if q else 13)))
    for fam in ('gp', 'gq'):
        for mu in ((), (1,)):
            ans.append((400, 'dual', (fam, mu, 10 if q else 13)))
    for nu in ((9,), (10,), (11,), (10, 1), (11, 2)):
        ans.append((400, 'copieri', (nu, 1)))
    # group the many small jobs
    groups = {}
    for s, name, a in ans:
        groups.setdefault(name, []).append((s, a))
    out = []
    for name, items in groups.items():
        items.sort(key=lambda x: -x[0])
        k = 24 if len(items) > 24 else len(items)
        for r in range(k):
            part = items[r::k]
            out.append((sum(s for s, _ in part), name, tuple(a for _, a in part)))
    return out


def tableaux(ctx, kind, mu, pmax):
    enum, byshape = (T.KOG, T.KOG_by_shape) if kind == 'KOG' else (T.KLG, T.KLG_by_shape)
    counts, countby = (T.KOG_counts, T.KOG_counts_by_shape) if kind == 'KOG' else (T.KLG_counts, T.KLG_counts_by_shape)
    shapes = rims(mu, pmax + 1)
    got = {P.trim(tuple(sorted_rows(r, mu))) for r in P.rims(mu, pmax + 1)}
    ctx.equal('rims %s %s' % (mu, pmax + 1), got, set(shapes))
    for p in range(pmax + 1):
        want = {}
        ctx.case = (kind, mu, p)
        for nu in shapes:
            cells = set(ref.boxes(nu, mu, True))
            c = [0, 0]
            tabs = grow(cells, kind, p, c)
            ctx.fam('%s states' % kind, states=c[0], transitions=c[1])
            if tabs:
                want[nu] = {freeze(t) for t in tabs}
                assert len(want[nu]) == len(tabs)
            ctx.equal('%s_counts %s %s %d' % (kind, nu, mu, p), counts(nu, mu, p), len(tabs))
        key = '%s p=%d mu=%s' % (kind, p, mu)
        lib = list(enum(p, mu))
        read = [freeze({c: v[0] for c, v in t.boxes.items()}) for t in lib]
        ctx.equal(key, Counter(read), Counter(x for s in want.values() for x in s))
        by = byshape(p, mu)
        ctx.equal(key + ' by shape', {tuple(nu): Counter(freeze({c: v[0] for c, v in t.boxes.items()}) for t in v) for nu, v in by.items() if v},
                  {nu: Counter(s) for nu, s in want.items()})
        ctx.equal(key + ' counts by shape', {tuple(nu): v for nu, v in countby(p, mu).items()}, {nu: len(s) for nu, s in want.items()})
        ctx.fam(kind, traces=len(lib) + len(shapes) + 1)
        ctx.outcome((kind, mu, p, len(lib)))


def sorted_rows(rim, mu):
    rows = list(mu) + [0]
    for i, j in rim:
        rows[i - 1] += 1
    return rows


def pathcount(cells, kind, p):
    """Number of fillings, merging partial fillings with the same state."""
    cells = sorted(cells, key=lambda c: (c[1] - c[0], -c[0]))
    labels = [a for k in range(1, p + 1) for a in ((k,) if kind == 'KOG' else (-k, k))]
    key = ref.key
    states = {(None, 10 ** 9, -1, 0): 1}
    seen = trans = 0
    for k, c in enumerate(cells):
        prev = cells[k - 1] if k else None
        nxt = {}
        for (last, lo, hi, used), m in states.items():
            for a in labels:
                x = key(a)
                if kind == 'KLG' and a < 0 and c[0] == c[1]:
                    continue
                if prev == (c[0], c[1] - 1) and not last < x:
                    continue
                if prev == (c[0] + 1, c[1]) and not x < last:
                    continue
                if k:
                    below, above = x <= lo, x >= hi
                    if not ((above or below) if kind == 'KOG' else (above if a > 0 else below)):
                        continue
                st = (x, min(lo, x), max(hi, x), used | 1 << abs(a))
                nxt[st] = nxt.get(st, 0) + m
                trans += 1
        states = nxt
        seen += len(states)
    full = (1 << (p + 1)) - 2
    return sum(m for st, m in states.items() if st[3] == full), seen, trans


def counts(ctx, mu, size):
    for nu in rims(mu, size):
        cells = ref.boxes(nu, mu, True)
        for p in range(min(len(cells) + 1, 7) + 1):
            for kind, f in (('KOG', T.KOG_counts), ('KLG', T.KLG_counts)):
                want, s, t = pathcount(cells, kind, p)
                ctx.equal('%s_counts %s %s %d' % (kind, nu, mu, p), f(nu, mu, p), want)
                ctx.fam(kind + ' counts', states=s, transitions=t, traces=1)


GF = {}


def model(fam, n, mu):
    """Polynomial with beta = 1 (for gp, gq: beta = -1, all coefficients nonnegative), as {exponents: int}."""
    k = (fam, n, mu)
    if k not in GF:
        cells = ref.boxes(mu, (), True)
        c = [0, 0]
        if fam in ('GP', 'GQ'):
            GF[k] = ref.generating_function(cells, n, True, True, diag=(lambda a: a > 0) if fam == 'GP' else None, counter=c)
        else:
            GF[k] = ref.generating_function(cells, n, True, False, rpp=True, diag=(lambda a: a < 0) if fam == 'gp' else None, counter=c)
        GF[k]['cost'] = c
    return {e: v for e, v in GF[k].items() if e != 'cost'}


def dominant(f, g):
    """Dominant coefficients of the product of two symmetric polynomials."""
    ans = {}
    for a, x in f.items():
        for b, y in g.items():
            e = tuple(i + j for i, j in zip(a, b))
            if all(e[i] >= e[i + 1] for i in range(len(e) - 1)):
                ans[e] = ans.get(e, 0) + x * y
    return {k: v for k, v in ans.items() if v}


def combine(terms, fam, n):
    ans = {}
    for nu, c in terms.items():
        for e, v in model(fam, n, nu).items():
            if all(e[i] >= e[i + 1] for i in range(len(e) - 1)):
                ans[e] = ans.get(e, 0) + c * v
    return {k: v for k, v in ans.items() if v}


def readvec(v):
    return {} if isinstance(v, int) else {tuple(k): sym.coeff(c) for k, c in v.items() if sym.coeff(c)}


def pieri(ctx, fam, mu, pmax):
    """GP_mu GP_p (GQ_mu GQ_p) = sum of beta^excess counts GP_nu (GQ_nu)."""
    kind, table, fn, ex = ('KOG', T.KOG_counts_by_shape, utils.GP, utils.GP_expansion) if fam == 'GP' else ('KLG', T.KLG_counts_by_shape, utils.GQ, utils.GQ_expansion)
    n = max(len(mu) + 1, 2)
    if sum(mu) >= 6 and n > 3:
        pmax = 2
    for p in range(pmax + 1):
        if n >= 4 and p > 3:
            continue
        ctx.case = (fam, mu, p)
        terms = {tuple(nu): c for nu, c in table(p, mu).items()}
        row = (p,) if p else ()
        want = combine(terms, fam, n)
        ctx.equal('%s Pieri mu=%s p=%d' % (fam, mu, p), dominant(model(fam, n, mu), model(fam, n, row)), want, 'the Pieri rule fails for the model polynomials')
        full = {nu: {sum(nu) - sum(mu) - p: c} for nu, c in terms.items()}
        got = readvec(ex(fn(n, mu) * fn(n, row)))
        ctx.equal('%s product mu=%s p=%d' % (fam, mu, p), got, full, 'expanding the product differs from the tableau counts')
        ctx.fam(fam + ' Pieri', states=len(want), transitions=len(terms), traces=2)


def dual(ctx, fam, mu, pmax):
    """gp_mu gq_p (gq_mu gq_p) expands with KLG (KOG) counts of the complementary rims."""
    f, fn, ex = (T.KLG_counts, utils.gp, utils.gp_expansion) if fam == 'gp' else (T.KOG_counts, utils.gq, utils.gq_expansion)
    n = max(len(mu) + 1, 2)
    q = ref.get(mu, 0)
    for p in range(1, pmax + 1):
        if n >= 4 and p > 2:
            continue
        ctx.case = (fam, mu, p)
        nu = (q + p,) + mu
        rho = [ref.trim((q + p,) + mu[1:]), ref.trim((q + p - 1,) + mu[1:])]
        terms = {}
        for lam in ref.subparts(nu, strict=True):
            if not ref.contains(lam, mu) or sum(lam) > sum(mu) + p:
                continue
            sk = set(ref.boxes(nu, lam, True))
            if any((i + 1, j + 1) in sk for i, j in sk):
                continue
            c = f(nu, lam, q)
            if lam in rho and lam and (fam == 'gp' or mu):
                c += 1
            if c:
                terms[lam] = c
        # products of nonnegative (beta = -1) polynomials: coefficients carry (-1)^(|mu|+p-|lam|)
        flip = {lam: c * (-1) ** (sum(mu) + p - sum(lam)) for lam, c in terms.items()}
        ctx.equal('%s dual Pieri mu=%s p=%d' % (fam, mu, p), dominant(model(fam, n, mu), model('gq', n, (p,))), combine(flip, fam, n),
                  'the dual Pieri rule fails for the model polynomials')
        got = readvec(ex(fn(n, mu) * utils.gq(n, (p,))))
        ctx.equal('%s dual product mu=%s p=%d' % (fam, mu, p), got, {lam: {sum(mu) + p - sum(lam): c} for lam, c in terms.items()})
        ctx.fam(fam + ' dual Pieri', states=len(terms), transitions=len(terms), traces=2)


def copieri(ctx, nu, small):
    """One-letter set-valued tableaux of shape nu/mu for mu obtained from lam by removing corners."""
    for lam in ref.subparts(nu, strict=True):
        corners = [i for i in range(len(lam)) if lam[i] - 1 > ref.get(lam, i + 1) or (lam[i] == 1 and i == len(lam) - 1)]
        inner = [ref.trim(tuple(a - (1 if i in s else 0) for i, a in enumerate(lam))) for k in range(len(corners) + 1) for s in itertools.combinations(corners, k)]
        for dp in (False, True):
            ctx.case = (nu, lam, dp)
            want = {}
            c = [0, 0]
            for mu in inner:
                for t in ref.fillings(ref.boxes(nu, mu, True), 1, True, True, diag=None if dp else (lambda a: a > 0), counter=c):
                    r = sum(len(v) for v in t.values())
                    want.setdefault(r, []).append((frozenset(t.items())))
            got = T.shifted_setvalued_copieri(nu, lam, dp)
            ctx.equal('copieri %s %s %s' % (nu, lam, dp), {r: Counter(frozenset((x, tuple(v)) for x, v in t.boxes.items()) for t in ts) for r, ts in got.items() if ts},
                      {r: Counter(ts) for r, ts in want.items()})
            ctx.equal('copieri keyword %s %s %s' % (nu, lam, dp), {r: len(x) for r, x in T.shifted_setvalued_copieri(nu=nu, lam=lam, diagonal_primes=dp).items()},
                      {r: len(x) for r, x in want.items()})
            ctx.fam('copieri', states=c[0], transitions=c[1], traces=2)
            if sum(nu) <= small:
                n = 1 + max(len(nu), 1)
                fam = 'gp' if dp else 'gq'
                fn, ex = (utils.gp, utils.gp_expansion) if dp else (utils.gq, utils.gq_expansion)
                for r in range(1, sum(nu) + 1):
                    if sum(lam) + r < sum(nu):
                        continue
                    if sum(lam) + r > small + 2:
                        continue
                    e = readvec(ex(fn(n, lam) * utils.gq(n, (r,))))
                    k = sum(lam) + r - sum(nu)
                    ctx.equal('copieri coefficient %s %s %s %s' % (nu, lam, dp, r), e.get(nu, {}), {k: len(want[r])} if want.get(r) else {})
                    ctx.fam('copieri coefficient', states=1, traces=1)


def run(ctx, name, args):
    for a in args:
        globals()[name](ctx, *a)
    ctx.sample('%s %s' % (name, args[0]))
