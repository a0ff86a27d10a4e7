"""Dual families (reverse plane partitions, bar tableaux) against their definitions."""
from mc import ref, sym
import utils
from polynomials import X
from symmetric import SymmetricPolynomial as SP

ID = 'C02'
RULE = ('every skew shape mu/nu (also pairs with nu not inside mu) with |mu| within the bound and every number of variables '
        'within the bound, for all dual families and their sign variants; the model explores the graph of partial '
        '(marked) reverse plane partitions, resp. bar tableaux, box by box')
ASSUMPTIONS = ['the definitions in mc/ref.py are the intended ones', 'shapes and numbers of variables up to the stated bounds']

FAMILIES = {
    'g': [utils.g, SP.dual_stable_grothendieck], 'gp': [utils.gp, SP.dual_stable_grothendieck_p],
    'gq': [utils.gq, SP.dual_stable_grothendieck_q], 'gs': [utils.gs, SP.dual_stable_grothendieck_s],
    'j': [utils.j, SP.slow_transposed_dual_stable_grothendieck], 'jp': [utils.jp, SP.slow_transposed_dual_stable_grothendieck_p],
    'jq': [utils.jq, SP.slow_transposed_dual_stable_grothendieck_q], 'js': [utils.js, SP.slow_transposed_dual_stable_grothendieck_s],
}
SIGNED = {'g': utils.mp_g, 'gp': utils.mp_gp, 'gq': utils.mp_gq}
SHIFTED = {'gp', 'gq', 'jp', 'jq'}
BAR = {'j', 'jp', 'jq', 'js'}


def model(fam, n, mu, nu, counter):
    """{partition: {beta exponent: int}} with beta^{|mu/nu| - degree}, sign (-1)^... for the g families."""
    if not ref.contains(mu, nu):
        return {}
    shifted = fam in SHIFTED
    cells = ref.boxes(mu, nu, shifted)
    size = len(cells)
    marked = fam not in ('g', 'j')
    diag = {'gp': lambda a: a < 0, 'jp': lambda a: a > 0}.get(fam)
    bar = fam in BAR
    if fam in ('gs', 'js'):
        cells = [(i, j + 10) for i, j in cells]     # nothing is on the main diagonal
    gf = ref.generating_function(cells, n, marked, False, rpp=not bar, diag=diag, bar=bar, counter=counter)
    if bar:
        return sym.from_gf(gf, lambda d, v: {size - d: v})
    return sym.from_gf(gf, lambda d, v: {size - d: v * (-1) ** (size - d)})


SKEW = {
    'quick': {
        'g': {0: 4, 1: 8, 2: 9, 3: 9, 4: 7}, 'gs': {0: 3, 1: 7, 2: 7, 3: 6}, 'j': {0: 3, 1: 7, 2: 7, 3: 6}, 'js': {0: 3, 1: 5, 2: 5, 3: 4},
        'gp': {0: 4, 1: 9, 2: 10, 3: 9, 4: 7}, 'gq': {0: 4, 1: 9, 2: 10, 3: 9, 4: 7}, 'jp': {0: 3, 1: 8, 2: 7, 3: 6}, 'jq': {0: 3, 1: 8, 2: 7, 3: 6},
    },
}
STRAIGHT = {
    'quick': {
        'g': {3: 10, 4: 9}, 'gs': {2: 8, 3: 7}, 'j': {3: 7, 4: 6}, 'js': {2: 6, 3: 5},
        'gp': {3: 11, 4: 10}, 'gq': {3: 11, 4: 10}, 'jp': {2: 9, 3: 8, 4: 6}, 'jq': {2: 9, 3: 7, 4: 5},
    },
}
for _t in (SKEW, STRAIGHT):
    _b = _t['quick']
    _t['thorough'] = {f: {n: s + (2 if f in BAR else 3) for n, s in d.items()} for f, d in _b.items()}
    _t['quick'] = {f: {n: s + (0 if f in ('js', 'gs') else 1) for n, s in d.items()} for f, d in _b.items()}
# many variables, small shapes
MANY = {'g': {5: 7, 6: 6, 8: 5, 10: 4, 12: 4}, 'gs': {4: 4, 5: 4, 6: 3, 8: 2, 11: 2}, 'j': {5: 5, 6: 4, 8: 3, 11: 3}, 'js': {4: 3, 5: 3, 6: 2, 8: 2, 11: 1},
        'gp': {5: 6, 6: 5, 8: 4, 11: 3}, 'gq': {5: 6, 6: 5, 8: 4, 11: 3}, 'jp': {4: 5, 5: 4, 6: 4, 8: 3, 11: 2}, 'jq': {4: 5, 5: 4, 6: 4, 8: 3, 11: 2}}
for _f, _d in MANY.items():
    for _n, _s in _d.items():
        SKEW['quick'][_f].setdefault(_n, _s)
        SKEW['thorough'][_f].setdefault(_n, _s + 1)
NAMED = {
    'g': [((k,), 3) for k in (11, 12)] + [((1,) * k, 4) for k in (5, 6, 7)] + [((2, 2, 2, 1), 4), ((3, 2, 1, 1), 4), ((4, 3, 2, 1), 4)],
    'gp': [((k,), 2) for k in (11, 12)] + [((4, 3, 2, 1), 4), ((5, 4, 2, 1), 3), ((5, 4, 3, 2, 1), 2), ((6, 4, 3, 1), 2)],
    'jp': [((4, 3, 2, 1), 4), ((5, 4, 3), 3)],
    'jq': [((4, 3, 2, 1), 4)],
}
NAMED['gq'] = NAMED['gp']
NAMED['j'] = [((10,), 2), ((11,), 2), ((1,) * 7, 3), ((1,) * 10, 2), ((2,) * 4, 2)]
NAMED['js'] = [((7,), 2), ((10,), 1), ((1,) * 6, 2), ((1,) * 10, 1), ((2, 2, 2), 2)]
NAMED['gs'] = [((8,), 2), ((10,), 1), ((1,) * 6, 2), ((1,) * 8, 1), ((2, 2, 2), 2)]
NAMED['jp'] += [((10,), 2), ((11,), 2), ((10, 1), 2)]
NAMED['jq'] += [((10,), 2), ((11,), 2), ((10, 1), 2)]
# thin skew shapes: few boxes left of a large mu; family -> {n: largest number of boxes}
THIN = {'g': {1: 6, 2: 5, 3: 4}, 'gs': {1: 3, 2: 2}, 'j': {1: 5, 2: 4}, 'js': {1: 4, 2: 3},
        'gp': {1: 6, 2: 4}, 'gq': {1: 6, 2: 4}, 'jp': {1: 5, 2: 3}, 'jq': {1: 5, 2: 3}}
THIN_MU = {'quick': (10, 15), 'thorough': (13, 19)}
SLOW = {k: getattr(SP, v) for k, v in {'g': '_slow_dual_stable_grothendieck', 'gp': '_slow_dual_stable_grothendieck_p',
                                       'gq': '_slow_dual_stable_grothendieck_q'}.items() if hasattr(SP, v)}


def jobs(tier):
    ans = []
    for fam in FAMILIES:
        for n, size in SKEW[tier][fam].items():
            ans.append((n * 100 + size, 'skew', (fam, n, size)))
        for n, size in STRAIGHT[tier][fam].items():
            ans.append((n * 100 + size, 'straight', (fam, n, size)))
        for mu, n in NAMED.get(fam, []):
            ans.append((n * 10 + sum(mu) * 5, 'named', (fam, n, mu)))
        for n, size in THIN[fam].items():
            shapes = ref.partitions_upto(THIN_MU[tier][fam in SHIFTED], strict=fam in SHIFTED)
            if fam == 'gs':
                shapes = [x for x in shapes if len(x) <= 4 and sum(x) <= THIN_MU[tier][0] - 1]     # slow for long columns
            for k in range(0, len(shapes), 15):
                ans.append((250, 'thin', (fam, n, (tuple(shapes[k:k + 15]), size + (tier == 'thorough')))))
    return ans


def run(ctx, name, args):
    fam, n, size = args
    strict = fam in SHIFTED
    thin = 0
    if name == 'thin':
        size, thin = size
    shapes = size if thin else [size] if name == 'named' else ref.partitions_upto(size, strict=strict)
    for mu in shapes:
        if thin:
            inner, outside = ref.removals(mu, thin, strict), []
        elif name == 'skew':
            inner = ref.subparts(mu, strict=strict)
            outside = [x for x in ref.partitions_upto(min(3, size), strict=strict)
                       if not ref.contains(mu, x) and (fam not in ('gs', 'js'))][:3]
        else:
            inner, outside = [()], []
        for nu in inner + outside:
            ctx.case = (fam, n, mu, nu)
            c = [0, 0]
            want = model(fam, n, mu, nu, c)
            for g in FAMILIES[fam]:
                got = sym.plain(g(n, mu, nu) if nu else g(n, mu), n)
                ctx.equal('%s(%s,%s,%s)' % (fam, n, mu, nu), got, want)
            ctx.fam(fam + ' thin' * bool(thin), states=c[0], transitions=c[1], traces=1)
            if fam in SLOW and n * sum(mu) <= 10:
                got = sym.plain(SLOW[fam](n, mu, nu) if nu else SLOW[fam](n, mu), n)
                ctx.equal('enumerated %s(%s,%s,%s)' % (fam, n, mu, nu), got, want)
                ctx.fam(fam + ' by enumeration', traces=1)
            ctx.outcome((fam, sorted(want.items(), key=repr)))
            flip = {k: {e: v * (-1) ** e for e, v in x.items()} for k, x in want.items()}
            if fam in SIGNED:
                got = sym.plain(SIGNED[fam](n, mu, nu), n)
                ctx.equal('mp_%s(%s,%s,%s)' % (fam, n, mu, nu), got, flip)
                ctx.fam(fam + ' sign variant', traces=1)
            if fam in BAR and sum(mu) <= 5:
                for g in FAMILIES[fam]:
                    got = sym.plain(g(n, mu, nu, X(0)), n)
                    ctx.equal('%s(%s,%s,%s,beta)' % (fam, n, mu, nu), got, flip)
                    got = sym.plain(g(n, mu, nu, beta=-X(0)), n)
                    ctx.equal('%s(%s,%s,%s,-beta)' % (fam, n, mu, nu), got, want)
                ctx.fam(fam + ' explicit beta', traces=2)
    ctx.sample('%s n=%d mu=%s -> %s' % (fam, n, mu, sorted(want.items())[:4]))
