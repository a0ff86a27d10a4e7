"""Basis expansions invert: expanding a combination returns exactly its coefficients."""
import itertools
from mc import ref, sym
import utils
from polynomials import X
from symmetric import SymmetricPolynomial as SP
from vectors import Vector

ID = 'C04'
RULE = ('for every basis: all combinations of at most three basis elements with |mu| within the bound and coefficients from a '
        'fixed alphabet of integers and polynomials in beta; all products, all skew elements and all elements of the other '
        'families within the bound; a state is the polynomial being expanded, a transition subtracts one basis element '
        '(the model replays the returned expansion term by term against the polynomial)')
ASSUMPTIONS = ['basis polynomials are those checked by C01 and C02', 'sizes, numbers of variables and coefficient alphabets within the stated bounds']

B = X(0)
# name: strict, function, expansion
BASES = {
    's': (0, utils.s, utils.schur_expansion), 'G': (0, utils.G, utils.G_expansion),
    'g': (0, utils.g, utils.g_expansion), 'j': (0, utils.j, utils.j_expansion),
    'P': (1, utils.P, utils.P_expansion), 'Q': (1, utils.Q, utils.Q_expansion),
    'GP': (1, utils.GP, utils.GP_expansion), 'GQ': (1, utils.GQ, utils.GQ_expansion),
    'gp': (1, utils.gp, utils.gp_expansion), 'gq': (1, utils.gq, utils.gq_expansion),
    'jp': (1, utils.jp, utils.jp_expansion), 'jq': (1, utils.jq, utils.jq_expansion),
    'mp_g': (0, utils.mp_g, utils.mp_g_expansion), 'mp_gp': (1, utils.mp_gp, utils.mp_gp_expansion),
    'mp_gq': (1, utils.mp_gq, utils.mp_gq_expansion), 'mn_G': (0, utils.mn_G, utils.mn_G_expansion),
    'mn_GP': (1, utils.mn_GP, utils.mn_GP_expansion), 'mn_GQ': (1, utils.mn_GQ, utils.mn_GQ_expansion),
}
NONHOMOG = {'G', 'GP', 'GQ', 'mn_G', 'mn_GP', 'mn_GQ'}
BIG = 10 ** 30 + 7
COEFFS = [1, -1, 2, B, -3 * B, 1 + B, 2 - B ** 2]
SMALL = [1, -2, B, B ** 2 - B]


def size1(basis, n, tier):
    t = 0 if tier == 'quick' else 1
    if basis in NONHOMOG:
        return {1: 6, 2: 6, 3: 5 if not BASES[basis][0] else 6}[n] + t
    if basis[0] == 'j':
        return {1: 6, 2: 6, 3: 5}[n] + t
    return {1: 8, 2: 8, 3: 7}[n] + t


def jobs(tier):
    ans = []
    for b in BASES:
        for n in (1, 2, 3):
            for part in ('single', 'pairs', 'triples', 'products', 'skew'):
                ans.append((n * 10 + (5 if part in ('products', 'pairs') else 0), part, (b, n, size1(b, n, tier))))
        for n in range(1, 9):
            ans.append((n * 10, 'wide', (b, n, tier)))
        for n in (2, 3):
            ans.append((n * 10, 'cross', (b, n, size1(b, n, tier) - (2 if n == 3 and tier == 'quick' and b in ('g', 'mp_g', 's') else 1))))
    for n in (1, 2, 3):
        ans.append((n * 10, 'omega', (n, 7 if tier == 'quick' else 8)))
        ans.append((n * 10, 'free', (n, 6 if tier == 'quick' else 7)))
        ans.append((n * 10, 'freeproducts', (n, 5 if tier == 'quick' else 6)))
    for n, size in ((4, 6), (5, 5), (7, 4), (10, 3)):
        ans.append((n * 10, 'omega', (n, size)))
    for n, size in ((4, 5), (5, 4), (7, 3)):
        ans.append((n * 10, 'free', (n, size)))
    return ans


def wide(basis, n, tier):
    """indices a size bound for few variables does not reach: many variables, long rows, staircases"""
    strict = BASES[basis][0]
    heavy = basis in NONHOMOG
    slow = basis[0] == 'j'
    t = tier != 'quick'
    if n >= 4:
        size = ({4: 5, 5: 3, 6: 2, 7: 2, 8: 1} if heavy else {4: 4, 5: 3, 6: 3, 7: 2, 8: 2} if slow else {4: 6, 5: 5, 6: 4, 7: 3, 8: 3})[n] + t
        return [mu for mu in ref.partitions_upto(size, strict=bool(strict)) if len(mu) <= n]
    ans = []
    top = {1: 14, 2: 11 if slow or heavy else 12, 3: 8 if slow or heavy else 9}[n] + t
    for k in range(top - 3, top + 1):
        ans += [(k,)] + ([(k - 1, 1), (k - 2, 2)] if n > 1 else []) + ([(k - 3, 2, 1)] if n > 2 else [])
    return [mu for mu in ans if not strict or all(a > b for a, b in zip(mu, mu[1:]))]


def readvec(v):
    if isinstance(v, int):
        return {} if v == 0 else {'?': v}
    return {tuple(k): sym.coeff(c) for k, c in v.items() if sym.coeff(c)}


def mulc(p, c):
    """plain symmetric polynomial times plain coefficient"""
    out = {}
    for mu, d in p.items():
        e = {}
        for a, x in d.items():
            for b, y in c.items():
                e[a + b] = e.get(a + b, 0) + x * y
        out[mu] = e
    return sym.clean(out)


def replay(ctx, tag, basis, n, f, exp, fam):
    """The transitions of the expansion: subtract each returned term; the end state must be zero."""
    cur = sym.plain(f, n)
    fn = BASES[basis][1]
    for mu, c in sorted(exp.items()):
        if len(mu) > n or (BASES[basis][0] and any(mu[i] <= mu[i + 1] for i in range(len(mu) - 1))):
            ctx.violate(tag, 'expansion uses an index outside the basis', expansion=exp)
        cur = sym.add(cur, mulc(sym.plain(fn(n, mu), n), {e: -v for e, v in c.items()}))
        ctx.fam(fam, states=1, transitions=1)
    if cur:
        ctx.violate(tag, 'the expansion does not sum to the polynomial', expansion=exp, remainder=cur)
    ctx.fam(fam, states=1, traces=1)
    ctx.outcome(sorted(exp.items(), key=repr))


def exact(ctx, tag, basis, n, combo, fam):
    fn, ex = BASES[basis][1:]
    f = SP()
    want = {}
    for mu, c in combo:
        f += fn(n, mu) * c
        want[mu] = sym.coeff(c)
    ctx.case = tag
    got = readvec(ex(f))
    ctx.equal(tag, got, want, 'expansion of a combination does not return its coefficients')
    ctx.fam(fam, states=1 + len(combo), transitions=len(combo), traces=1)
    ctx.outcome(sorted(want.items(), key=repr))


def run(ctx, name, args):
    if name == 'omega':
        n, size = args
        for mu in ref.partitions_upto(size):
            if len(mu) > n:
                continue
            for c in COEFFS:
                ctx.case = ('omega', n, mu, c)
                got = readvec(SP.omega_schur_expansion(utils.s(n, mu) * c + utils.s(n, (1,))))
                want = {ref.transpose(mu): sym.coeff(c)}
                d = dict(want.get((1,), {}))
                d[0] = d.get(0, 0) + 1
                want[(1,)] = {e: v for e, v in d.items() if v}
                want = {k: v for k, v in want.items() if v}
                ctx.equal(str(ctx.case), got, want)
                ctx.fam('omega', states=1, transitions=1, traces=1)
        return
    if name == 'freeproducts':
        n, size = args
        index = [mu for mu in ref.partitions_upto(size, strict=True) if len(mu) <= n]
        for a, b in itertools.combinations_with_replacement(index, 2):
            for kind in ('product', 'sum'):
                if kind == 'product' and sum(a) + sum(b) > size:
                    continue
                ctx.case = ('gp_free', kind, n, a, b)
                f = utils.gp(n, a) * utils.gp(n, b) if kind == 'product' else utils.gp(n, a) * 3 - utils.gp(n, b) * B
                total = SP()
                for nu, x in utils.gp_free_expansion(f).items():
                    g = utils.gp(n, ())
                    for part in nu:
                        g = g * utils.gp(n, (part,))
                    total += g * x
                    ctx.fam('free', states=1, transitions=1)
                ctx.equal(str(ctx.case), sym.plain(total, n), sym.plain(f, n), 'free expansion does not sum to the polynomial')
                ctx.fam('free', traces=1)
        return
    if name == 'wide':
        basis, n, tier = args
        index = wide(basis, n, tier)
        fam = '%s wide' % basis
        for mu in index:
            for c in (1, BIG, 1 - B):
                exact(ctx, '%s n=%d %s*%s' % (basis, n, c, mu), basis, n, [(mu, c)], fam)
        if n < 4:
            for a, b in itertools.combinations(index, 2):
                exact(ctx, '%s n=%d -%s + B*%s' % (basis, n, a, b), basis, n, [(a, -1), (b, B)], fam)
        for step in (1, 2, 3):
            combo = [(mu, (-1) ** k * (k + 1) * B ** (k % 3)) for k, mu in enumerate(index)][::step]
            exact(ctx, '%s n=%d sum of %d elements, every %d' % (basis, n, len(combo), step), basis, n, combo, fam)
        return
    if name == 'free':
        n, size = args
        for mu in ref.partitions_upto(size, strict=True):
            if len(mu) > n:
                continue
            for c in (1, 2, -1, B):
                ctx.case = ('gp_free', n, mu, c)
                f = utils.gp(n, mu) * c
                got = utils.gp_free_expansion(f)
                total = SP()
                for nu, x in got.items():
                    g = 1
                    for part in nu:
                        g *= utils.gp(n, (part,))
                    total += (g * x) if g != 1 else SP({m: x for m in [next(iter(utils.gp(n, ())))]})
                    ctx.fam('free', states=1, transitions=1)
                ctx.equal(str(ctx.case), sym.plain(total, n), sym.plain(f, n), 'free expansion does not sum to the polynomial')
                ctx.fam('free', traces=1)
        return
    basis, n, size = args
    strict, fn, ex = BASES[basis]
    index = [mu for mu in ref.partitions_upto(size, strict=strict) if len(mu) <= n]
    fam = '%s %s' % (basis, name)
    if name == 'single':
        if readvec(ex(SP())) != {}:
            ctx.violate('%s zero' % basis, 'expansion of zero is not empty')
        for mu in index:
            for c in COEFFS + [B ** -1, 3 * B ** -2 + 1]:
                exact(ctx, '%s n=%d %s*%s' % (basis, n, c, mu), basis, n, [(mu, c)], fam)
    elif name == 'pairs':
        small = [mu for mu in index if sum(mu) <= size - 1][:12]
        for a, b in itertools.combinations(small, 2):
            for c, d in itertools.product(SMALL, repeat=2):
                exact(ctx, '%s n=%d %s*%s + %s*%s' % (basis, n, c, a, d, b), basis, n, [(a, c), (b, d)], fam)
    elif name == 'triples':
        small = [mu for mu in index if sum(mu) <= 3]
        for t in itertools.combinations(small, 3):
            for cs in itertools.product([1, -2, 1 - B], repeat=3):
                exact(ctx, '%s n=%d %s %s' % (basis, n, t, cs), basis, n, list(zip(t, cs)), fam)
    elif name == 'products':
        for a, b in itertools.combinations_with_replacement(index, 2):
            if sum(a) + sum(b) <= size:
                f = fn(n, a) * fn(n, b)
                ctx.case = tag = '%s n=%d %s*%s' % (basis, n, a, b)
                replay(ctx, tag, basis, n, f, readvec(ex(f)), fam)
    elif name == 'skew':
        for mu in ref.partitions_upto(size - 1, strict=strict):
            for nu in ref.subparts(mu, strict=strict):
                f = fn(n, mu, nu)
                ctx.case = tag = '%s n=%d %s/%s' % (basis, n, mu, nu)
                replay(ctx, tag, basis, n, f, readvec(ex(f)), fam)
    elif name == 'cross':
        # express every family in this basis where the span contains it
        for o in (SPAN[basis] if strict else BASES):
            for mu in [m for m in ref.partitions_upto(size, strict=BASES[o][0]) if len(m) <= n]:
                f = BASES[o][1](n, mu)
                ctx.case = tag = '%s in %s n=%d %s' % (o, basis, n, mu)
                replay(ctx, tag, basis, n, f, readvec(ex(f)), fam)
    ctx.sample('%s n=%d |mu|<=%d: %d indices' % (basis, n, size, len(index)))


# spans established for the shifted families: dual-type q-like inside p-like, etc.
SPAN = {
    'P': ['P', 'Q'], 'Q': ['Q'], 'GP': ['GP', 'GQ'], 'GQ': ['GQ'], 'gp': ['gp', 'gq', 'jp', 'jq'], 'gq': ['gq', 'jq'],
    'jp': ['gp', 'gq', 'jp', 'jq'], 'jq': ['gq', 'jq'], 'mp_gp': ['mp_gp', 'mp_gq'], 'mp_gq': ['mp_gq'],
    'mn_GP': ['mn_GP', 'mn_GQ'], 'mn_GQ': ['mn_GQ'],
}
