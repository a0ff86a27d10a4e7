"""Schur-like and stable Grothendieck families against their tableau definitions."""
import itertools
from mc import ref, sym
import utils
from symmetric import SymmetricPolynomial as SP

ID = 'C01'
RULE = ('every skew shape mu/nu (also pairs with nu not inside mu) with |mu| within the bound, every number of variables '
        'within the bound, every degree bound; the model explores the graph of partial fillings box by box')
ASSUMPTIONS = ['the tableau definitions in mc/ref.py are the intended ones', 'shapes and numbers of variables up to the stated bounds']

# name: (shifted, marked, setvalued, diagonal primes allowed, positional callables, keyword callables)
FAMILIES = {
    's': (False, False, False, True),
    'S': (False, True, False, True),
    'P': (True, True, False, False),
    'Q': (True, True, False, True),
    'G': (False, False, True, True),
    'GS': (False, True, True, True),
    'GP': (True, True, True, False),
    'GQ': (True, True, True, True),
}
CALLS = {
    's': [utils.s, SP.schur], 'S': [utils.S, SP.schur_s], 'P': [utils.P, SP.schur_p], 'Q': [utils.Q, SP.schur_q],
    'G': [utils.G, SP.stable_grothendieck, utils.grothendieck], 'GS': [utils.GS, SP.stable_grothendieck_s, utils.grothendieck_S],
    'GP': [utils.GP, SP.stable_grothendieck_p, utils.grothendieck_P], 'GQ': [utils.GQ, SP.stable_grothendieck_q, utils.grothendieck_Q],
}
# the library's own slower definitions by enumeration, where it still has them
SLOW = {k: getattr(SP, v) for k, v in {
    's': '_slow_schur', 'S': '_slow_schur_s', 'P': '_slow_schur_p', 'Q': '_slow_schur_q', 'G': '_slow_stable_grothendieck',
    'GS': '_slow_stable_grothendieck_s', 'GP': '_slow_stable_grothendieck_p', 'GQ': '_slow_stable_grothendieck_q'}.items() if hasattr(SP, v)}
DOUBLEBAR = {'G': utils.G_doublebar, 'GS': utils.GS_doublebar, 'GP': utils.GP_doublebar, 'GQ': utils.GQ_doublebar}
NEGBETA = {'G': utils.mn_G, 'GP': utils.mn_GP, 'GQ': utils.mn_GQ}


class Model:
    def __init__(self):
        self.memo = {}
        self.counter = [0, 0]

    def f(self, fam, n, mu, nu):
        k = (fam, n, mu, nu)
        if k not in self.memo:
            shifted, marked, setvalued, dp = FAMILIES[fam]
            if not ref.contains(mu, nu):
                self.memo[k] = {}
            else:
                cells = ref.boxes(mu, nu, shifted)
                diag = None if dp else (lambda a: a > 0)
                gf = ref.generating_function(cells, n, marked, setvalued, diag=diag, counter=self.counter)
                size = len(cells)
                self.memo[k] = sym.from_gf(gf, (lambda d, v: {d - size: v}) if setvalued else (lambda d, v: {0: v}))
        return self.memo[k]

    def doublebar(self, fam, n, mu, nu):
        if not ref.contains(mu, nu):
            return {}
        shifted = FAMILIES[fam][0]
        corners = [i for i in range(len(nu)) if
                   (nu[i] - 1 > ref.get(nu, i + 1) or (nu[i] == 1 and i == len(nu) - 1) if shifted else nu[i] > ref.get(nu, i + 1))]
        terms = []
        for k in range(len(corners) + 1):
            for sub in itertools.combinations(corners, k):
                x = ref.trim(tuple(a - (1 if i in sub else 0) for i, a in enumerate(nu)))
                terms.append(sym.scale(self.f(fam, n, mu, x), k))
        return sym.add(*terms)


def jobs(tier):
    q = tier == 'quick'
    ans = []
    # (max |mu|, n) grids: skew shapes
    for fam in FAMILIES:
        shifted = FAMILIES[fam][0]
        for n, size in SKEW[tier][fam].items():
            ans.append((n * 100 + size, 'skew', (fam, n, size)))
        for n, size in STRAIGHT[tier][fam].items():
            ans.append((n * 1000 + size, 'straight', (fam, n, size)))
        for mu, n in NAMED[shifted][tier]:
            if fam == 'GS' and sum(mu) * n > 24:
                continue
            ans.append((n * 10 + sum(mu) * 5, 'named', (fam, n, mu)))
        for n, size in THIN[fam].items():
            shapes = ref.partitions_upto(THIN_MU[tier][shifted], strict=shifted)
            for k in range(0, len(shapes), 12):
                ans.append((250, 'thin', (fam, n, (tuple(shapes[k:k + 12]), size + (not q)))))
    return ans


# thin skew shapes: few boxes left of a large mu, so that many corners are far apart; family -> {n: largest number of boxes}
THIN = {'s': {2: 5, 3: 4}, 'S': {1: 5, 2: 4}, 'P': {1: 6, 2: 4, 3: 3}, 'Q': {1: 6, 2: 4, 3: 3},
        'G': {1: 5, 2: 4}, 'GS': {1: 4, 2: 2}, 'GP': {1: 5, 2: 3}, 'GQ': {1: 5, 2: 3}}
THIN_MU = {'quick': (10, 15), 'thorough': (13, 19)}


SKEW = {
    'quick': {
        's': {0: 5, 1: 8, 2: 10, 3: 9, 4: 8}, 'S': {0: 4, 1: 8, 2: 8, 3: 7},
        'P': {0: 5, 1: 10, 2: 12, 3: 11, 4: 10}, 'Q': {0: 5, 1: 10, 2: 12, 3: 11, 4: 10},
        'G': {0: 5, 1: 8, 2: 9, 3: 8, 4: 5}, 'GS': {0: 4, 1: 7, 2: 7, 3: 5, 4: 3},
        'GP': {0: 5, 1: 10, 2: 11, 3: 9, 4: 6}, 'GQ': {0: 5, 1: 10, 2: 10, 3: 9, 4: 6},
    },
}
STRAIGHT = {
    'quick': {
        's': {3: 10, 4: 9, 5: 8}, 'S': {2: 9, 3: 8}, 'P': {3: 13, 4: 12}, 'Q': {3: 13, 4: 12},
        'G': {3: 9, 4: 9}, 'GS': {2: 8, 3: 6}, 'GP': {3: 12, 4: 11}, 'GQ': {3: 12, 4: 11},
    },
}
# many variables, small shapes
MANY = {'s': {5: 7, 6: 6, 8: 5, 10: 5, 12: 4, 15: 3}, 'S': {4: 5, 5: 5, 6: 4, 8: 3, 11: 3, 14: 2}, 'P': {5: 7, 6: 6, 8: 5, 11: 4, 14: 3}, 'Q': {5: 7, 6: 6, 8: 5, 11: 4, 14: 3},
        'G': {5: 5, 6: 4, 8: 4, 10: 3, 12: 2}, 'GS': {4: 3, 5: 2, 6: 2, 8: 1}, 'GP': {5: 5, 6: 4, 7: 3, 8: 2, 10: 1}, 'GQ': {5: 5, 6: 4, 7: 3, 8: 2, 10: 1}}
for _f, _d in MANY.items():
    SKEW['quick'][_f].update({n: s for n, s in _d.items() if n not in SKEW['quick'][_f]})
SKEW['thorough'] = {f: {n: s + (2 if n < 5 else 1) for n, s in d.items()} for f, d in SKEW['quick'].items()}
STRAIGHT['thorough'] = {f: {n: s + 2 for n, s in d.items()} for f, d in STRAIGHT['quick'].items()}
# long thin and deep shapes that a size bound alone does not reach
NAMED = {
    False: {
        'quick': [((k,), 2) for k in range(9, 15)] + [((k,), 3) for k in (9, 10, 11)] + [((1,) * k, k) for k in (4, 5, 6)]
        + [((1,) * k, k + 1) for k in (4, 5)] + [((2,) * k, k) for k in (3, 4)] + [((k, k), 2) for k in (5, 6, 7)]
        + [((3, 2, 1), 4), ((4, 3, 2, 1), 4), ((2, 2, 1, 1), 5), ((3, 1, 1, 1), 5), ((3, 3, 3), 4), ((6, 1, 1, 1), 4)],
    },
    True: {
        'quick': [((k,), 2) for k in range(11, 16)] + [((k,), 3) for k in (9, 10, 11)] + [((5, 4, 3), 3), ((6, 4, 2), 3), ((7, 4, 1), 3)]
        + [((4, 3, 2, 1), 4), ((5, 3, 2, 1), 4), ((5, 4, 2, 1), 4), ((6, 3, 2, 1), 4), ((5, 4, 3, 1), 4), ((5, 4, 3, 2), 4), ((5, 4, 3, 2, 1), 5)],
    },
}
for _k in NAMED:
    NAMED[_k]['thorough'] = NAMED[_k]['quick'] + ([((4, 3, 2, 1), 5), ((5, 4, 1), 5), ((3, 3, 3, 3), 4), ((5, 5, 5), 4)] if not _k else
                                                  [((6, 5, 3, 2), 4), ((6, 4, 3, 2, 1), 5), ((4, 3, 2, 1), 5), ((5, 4, 1), 5), ((6, 5, 4, 3), 4)])


def call(ctx, fam, n, mu, nu, model):
    ctx.case = (fam, n, mu, nu)
    want = model.f(fam, n, mu, nu)
    for g in CALLS[fam]:
        got = sym.plain(g(n, mu, nu) if nu or g is CALLS[fam][0] else g(n, mu), n)
        ctx.equal('%s(%s,%s,%s)' % (fam, n, mu, nu), got, want)
    if fam in SLOW and n * sum(mu) <= (8 if fam == 'GS' else 10):
        got = sym.plain(SLOW[fam](n, mu, nu) if nu else SLOW[fam](n, mu), n)
        ctx.equal('enumerated %s(%s,%s,%s)' % (fam, n, mu, nu), got, want)
        ctx.fam(fam + ' by enumeration', traces=1)
    ctx.fam(fam, traces=1)
    ctx.outcome((fam, sorted(want.items(), key=repr)))
    return want


def bounds(ctx, fam, n, mu, nu, model, want):
    if FAMILIES[fam][2]:
        size = sum(mu)
        lo = sum(mu) - sum(nu) if ref.contains(mu, nu) else 0
        top = max([sum(k) for k in want] + [lo])
        for d in range(max(0, lo - 1), top + 2):
            ctx.case = (fam, n, mu, nu, d)
            w = sym.truncate(want, d)
            got = sym.plain(CALLS[fam][0](n, mu, nu, d), n)
            ctx.equal('%s(%s,%s,%s,%s)' % (fam, n, mu, nu, d), got, w)
            got = sym.plain(CALLS[fam][1](n, mu, nu, degree_bound=d), n)
            ctx.equal('%s(%s,%s,%s,degree_bound=%s)' % (fam, n, mu, nu, d), got, w)
            ctx.fam(fam + ' degree bound', traces=2)
            if d in (lo, lo + 1):
                got = sym.plain(DOUBLEBAR[fam](n, mu, nu, d), n)
                ctx.equal('%s_doublebar(%s,%s,%s,%s)' % (fam, n, mu, nu, d), got, sym.truncate(model.doublebar(fam, n, mu, nu), d))
                ctx.fam(fam + ' doublebar', traces=1)
        got = sym.plain(DOUBLEBAR[fam](n, mu, nu), n)
        ctx.equal('%s_doublebar(%s,%s,%s)' % (fam, n, mu, nu), got, model.doublebar(fam, n, mu, nu))
        ctx.fam(fam + ' doublebar', traces=1)
        if fam in NEGBETA:
            got = sym.plain(NEGBETA[fam](n, mu, nu), n)
            neg = {k: {e: v * (-1) ** e for e, v in c.items()} for k, c in want.items()}
            ctx.equal('mn_%s(%s,%s,%s)' % (fam, n, mu, nu), got, neg)
            ctx.fam(fam + ' sign variant', traces=1)


def run(ctx, name, args):
    fam, n, size = args
    shifted = FAMILIES[fam][0]
    model = Model()
    shapes = [size] if name == 'named' else [] if name == 'thin' else ref.partitions_upto(size, strict=shifted)
    thin = 0
    if name == 'thin':
        shapes, thin = size
    for mu in shapes:
        if name == 'thin':
            for nu in ref.removals(mu, thin, shifted):
                w = call(ctx, fam, n, mu, nu, model)
                ctx.fam(fam + ' thin', traces=1)
                if sum(mu) - sum(nu) < thin:
                    bounds(ctx, fam, n, mu, nu, model, w)
            if len(model.memo) > 20000:
                model.memo = {}
        elif name == 'skew':
            inner = ref.subparts(mu, strict=shifted)
            outside = [x for x in ref.partitions_upto(min(3, size), strict=shifted) if not ref.contains(mu, x)][:3]
            # the unbounded polynomial is asked for before or after the bounded ones in turn
            for k, nu in enumerate(inner + outside):
                if k % 2:
                    w = model.f(fam, n, mu, nu)
                    bounds(ctx, fam, n, mu, nu, model, w)
                    call(ctx, fam, n, mu, nu, model)
                else:
                    w = call(ctx, fam, n, mu, nu, model)
                    bounds(ctx, fam, n, mu, nu, model, w)
        else:
            w = call(ctx, fam, n, mu, (), model)
        ctx.fam(fam, states=model.counter[0], transitions=model.counter[1])
        model.counter = [0, 0]
    ctx.sample('%s mu/nu=%s/%s n=%d -> %s' % (fam, mu, (), n, sorted(w.items())[:4]))
