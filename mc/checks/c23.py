"""Branching, stability, Cauchy, omega and change-of-family identities between the function families."""
import itertools
from mc import ref, sym
from mc.checks import c01, c02
from symmetric import SymmetricPolynomial as SP
import utils

ID = 'C23'
RULE = ('states are partitions (strict for the shifted families), a transition adds one variable x_k and moves from kappa to mu with the weight of the one-variable '
        'function of mu//kappa, found by exploring its tableaux; every path of length n from nu gives the coefficients of every function in n variables, '
        'for every (nu, mu, n) in the grid; the Cauchy, omega and GQ/GP, gq/gp identities are checked coefficient by coefficient for every index in the grid')
ASSUMPTIONS = ['the one-variable tableau definitions in mc/ref.py are the intended ones', 'shapes and numbers of variables up to the stated bounds']

FAMS = ('s', 'S', 'P', 'Q', 'G', 'GS', 'GP', 'GQ', 'g', 'gp', 'gq', 'gs', 'j', 'jp', 'jq', 'js')
STRICT = {'P', 'Q', 'GP', 'GQ', 'gp', 'gq', 'jp', 'jq'}
BARRED = {'G', 'GS', 'GP', 'GQ'}
FN = {f: (c01.CALLS.get(f) or c02.FAMILIES[f])[0] for f in FAMS}


class Chain:
    """One-variable transfer graph of a family."""

    def __init__(self, fam, size):
        """size: largest number of boxes, or a partition that contains all states."""
        self.fam = fam
        self.parts = ref.partitions_upto(size, fam in STRICT) if isinstance(size, int) else ref.subparts(size, strict=fam in STRICT)
        self.one = c01.Model()
        self.counter = self.one.counter
        self.edges = {}

    def step(self, kappa):
        """{degree >= 1: {mu: coefficient}} for one variable; degree 0 only fixes kappa."""
        if kappa not in self.edges:
            out = {}
            for mu in self.parts:
                if not ref.contains(mu, kappa):
                    continue
                if self.fam in BARRED:
                    f = self.one.doublebar(self.fam, 1, mu, kappa)
                elif self.fam in c01.FAMILIES:
                    f = self.one.f(self.fam, 1, mu, kappa)
                else:
                    f = c02.model(self.fam, 1, mu, kappa, self.counter)
                for m, c in f.items():
                    (v,) = c.values()
                    if m:
                        out.setdefault(m[0], {})[mu] = v
                    elif mu != kappa or v != 1:
                        raise AssertionError('degree 0 transition')
            self.edges[kappa] = out
        return self.edges[kappa]

    def coefficients(self, nu, n):
        """{mu: {alpha: int}}: all coefficients of the functions indexed by mu//nu in n variables."""
        out = {}

        def rec(alpha, vec):
            for mu, v in vec.items():
                out.setdefault(mu, {})[alpha] = v
            if len(alpha) == n:
                return
            nxt = {}
            for kappa, v in vec.items():
                for m, row in self.step(kappa).items():
                    if alpha and m > alpha[-1]:
                        continue
                    t = nxt.setdefault(m, {})
                    for mu, w in row.items():
                        t[mu] = t.get(mu, 0) + v * w
                        self.counter[1] += 1
            for m in sorted(nxt):
                rec(alpha + (m,), {mu: v for mu, v in nxt[m].items() if v})
        rec((), {nu: 1})
        self.counter[0] += sum(len(d) for d in out.values())
        return out


def dress(fam, mu, nu, coeffs):
    """Put the power of beta back in."""
    size = sum(mu) - sum(nu)
    if fam in ('s', 'S', 'P', 'Q'):
        return {a: {0: v} for a, v in coeffs.items()}
    if fam in BARRED:
        return {a: {sum(a) - size: v} for a, v in coeffs.items()}
    return {a: {size - sum(a): v} for a, v in coeffs.items()}


# family -> {n: largest |mu|} for nu empty, and the same for every nu inside mu
STRAIGHT = {
    's': {2: 16, 3: 16, 4: 16, 5: 15, 6: 14, 7: 13}, 'S': {2: 13, 3: 13, 4: 12, 5: 11, 6: 10},
    'P': {2: 20, 3: 20, 4: 19, 5: 18, 6: 16}, 'Q': {2: 20, 3: 20, 4: 19, 5: 18, 6: 16},
    'G': {2: 15, 3: 14, 4: 12, 5: 11, 6: 9, 7: 8}, 'GS': {2: 11, 3: 9, 4: 7, 5: 6},
    'GP': {2: 17, 3: 15, 4: 13, 5: 10, 6: 8}, 'GQ': {2: 17, 3: 14, 4: 12, 5: 9, 6: 7},
    'g': {2: 13, 3: 13, 4: 11, 5: 11, 6: 10}, 'gs': {2: 6, 3: 6, 4: 6, 5: 5},
    'gp': {2: 17, 3: 16, 4: 14, 5: 13, 6: 11}, 'gq': {2: 17, 3: 16, 4: 14, 5: 13, 6: 11},
    'j': {2: 13, 3: 11, 4: 8, 5: 6}, 'jp': {2: 13, 3: 10, 4: 7, 5: 5}, 'jq': {2: 13, 3: 9, 4: 6, 5: 4}, 'js': {2: 8, 3: 6, 4: 4, 5: 3},
}
SKEW = {
    's': {1: 10, 2: 10, 3: 10, 4: 9, 5: 8}, 'S': {1: 8, 2: 8, 3: 7, 4: 6},
    'P': {1: 13, 2: 13, 3: 12, 4: 11, 5: 10}, 'Q': {1: 13, 2: 13, 3: 12, 4: 11, 5: 10},
    'G': {1: 9, 2: 9, 3: 8, 4: 7, 5: 6}, 'GS': {1: 7, 2: 6, 3: 5, 4: 4},
    'GP': {1: 12, 2: 11, 3: 10, 4: 8, 5: 6}, 'GQ': {1: 12, 2: 11, 3: 9, 4: 7, 5: 5},
    'g': {1: 9, 2: 9, 3: 8, 4: 8, 5: 7}, 'gs': {1: 5, 2: 4, 3: 4, 4: 4},
    'gp': {1: 11, 2: 11, 3: 11, 4: 10, 5: 9}, 'gq': {1: 11, 2: 11, 3: 11, 4: 10, 5: 9},
    'j': {1: 8, 2: 8, 3: 7, 4: 5}, 'jp': {1: 10, 2: 9, 3: 7, 4: 5}, 'jq': {1: 10, 2: 9, 3: 6, 4: 4}, 'js': {1: 6, 2: 5, 3: 4},
}
# every partition inside the given one: family -> [(largest number of variables, partition)]
BOX = {
    's': [(5, (5, 5, 5, 5)), (5, (6, 5, 4, 3, 2, 1)), (4, (9, 9, 9)), (4, (9, 2, 2, 2, 2, 1, 1))],
    'S': [(3, (4, 4, 4, 4)), (3, (5, 4, 3, 2, 1)), (2, (8, 8, 8))],
    'P': [(5, (9, 7, 5, 3, 1)), (5, (10, 9, 8, 7)), (3, (24, 3, 1)), (3, (15, 14))],
    'G': [(4, (5, 5, 5, 5)), (6, (5, 4, 3, 2, 1)), (3, (8, 8, 8)), (3, (9, 2, 2, 2, 2, 1, 1))],
    'GS': [(4, (4, 3, 2, 1)), (2, (5, 4, 3, 2, 1)), (2, (6, 6, 6))],
    'GP': [(4, (9, 7, 5, 3, 1)), (5, (7, 5, 3, 1)), (4, (6, 5, 4, 3)), (2, (18, 3, 1)), (2, (11, 10))],
    'g': [(4, (5, 5, 5, 5)), (4, (5, 4, 3, 2, 1)), (3, (8, 8, 8)), (3, (9, 2, 2, 2, 2, 1, 1))],
    'gp': [(2, (9, 7, 5, 3, 1)), (4, (7, 5, 3, 1)), (4, (6, 5, 4, 3)), (2, (18, 3, 1)), (2, (11, 10))],
    'gs': [(2, (3, 3, 2)), (2, (7, 1, 1))],
    'j': [(2, (4, 4, 4)), (3, (4, 3, 2, 1)), (2, (9, 1, 1, 1, 1))],
    'jp': [(2, (7, 5, 3, 1)), (3, (5, 4, 2)), (2, (13, 2))],
    'js': [(2, (4, 3)), (2, (3, 2, 1)), (2, (6, 1, 1))],
}
BOX['Q'], BOX['GQ'], BOX['gq'] = BOX['P'], BOX['GP'], BOX['gp']
BOX['GQ'] = [(3, (9, 7, 5, 3, 1))] + BOX['GP'][1:]
BOX['jq'] = [(2, (7, 5, 2)), (3, (5, 3, 1)), (2, (13, 2))]


def jobs(tier):
    more = 0 if tier == 'quick' else 2
    ans = []
    for fam in FAMS:
        add = more // 2 if fam in ('gs', 'js', 'jp', 'jq') else more
        for n, size in STRAIGHT[fam].items():
            ans.append((100 * n, 'straight', (fam, n, size + add)))
        for n, size in SKEW[fam].items():
            ans.append((100 * n, 'skew', (fam, n, size + add)))
        for n, size in BOX[fam]:
            for k in range(1, n + 1 + (more > 0)):
                ans.append((100 * k, 'straight', (fam, k, size)))
    big = 3 + more // 2
    for pair in ('Gg', 'GPgq', 'GQgp'):
        for nx, ny, d in ((1, 1, 5), (1, 2, 4), (2, 1, 4), (1, 3, 4), (3, 1, 3), (2, 2, 3 + more // 2)):
            ans.append((300, 'cauchy', (pair, nx, ny, d, big + (pair != 'Gg'))))
    for fam, top in (('g', 6), ('gp', 6), ('gq', 5), ('gs', 4)):
        ans.append((400, 'omega', (fam, top + (more > 0))))
    for n in (1, 2, 3):
        for which in ('GQ to GP', 'gq to gp'):
            ans.append((300, 'change', (which, n, (9, 8, 7)[n - 1] + more // 2)))
    for fam in ('P', 'Q', 'GP', 'GQ'):
        for n, size in ((2, 14), (3, 11), (4, 9)):
            ans.append((200, 'cancel', (fam, n, size + more)))
    return ans


def run(ctx, name, args):
    globals()['run_' + name](ctx, *args)


def run_straight(ctx, fam, n, size):
    c = Chain(fam, size)
    want = c.coefficients((), n)
    for mu in c.parts:
        ctx.case = (fam, n, mu)
        w = dress(fam, mu, (), want.get(mu, {}))
        ctx.equal('%s(%s,%s)' % (fam, n, mu), sym.plain(FN[fam](n, mu), n), w)
        ctx.fam('%s straight' % fam, traces=1)
        ctx.outcome((fam, sorted(w.items(), key=repr)))
    ctx.fam('%s straight' % fam, states=c.counter[0], transitions=c.counter[1])
    ctx.sample('%s n=%d up to %s: %d partitions' % (fam, n, size, len(c.parts)))


def run_skew(ctx, fam, n, size):
    c = Chain(fam, size)
    table = {nu: c.coefficients(nu, n) for nu in c.parts}
    for mu in c.parts:
        for nu in ref.subparts(mu, strict=fam in STRICT):
            ctx.case = (fam, n, mu, nu)
            w = dress(fam, mu, nu, table[nu].get(mu, {}))
            if fam in BARRED:
                ctx.equal('%s_doublebar(%s,%s,%s)' % (fam, n, mu, nu), sym.plain(c01.DOUBLEBAR[fam](n, mu, nu), n), w)
                w = {}
                for x in ref.subparts(nu, strict=fam in STRICT):     # undo the double bar
                    k = sum(nu) - sum(x)
                    w = sym.add(w, sym.scale(dress(fam, mu, x, table[x].get(mu, {})), k, (-1) ** k))
            ctx.equal('%s(%s,%s,%s)' % (fam, n, mu, nu), sym.plain(FN[fam](n, mu, nu), n), w)
            ctx.fam('%s skew' % fam, traces=1)
            ctx.outcome((fam, sorted(w.items(), key=repr)))
    ctx.fam('%s skew' % fam, states=c.counter[0], transitions=c.counter[1])
    ctx.sample('%s n=%d every nu inside mu, |mu| up to %d' % (fam, n, size))


def spread(f, n, top=None):
    """SymmetricPolynomial -> {exponent tuple: int} at beta = 1, exponents of total degree at most top."""
    out = {}
    for mu, c in sym.plain(f, n).items():
        v = sum(c.values())
        if v and (top is None or sum(mu) <= top):
            for a in set(itertools.permutations(mu + (0,) * (n - len(mu)))):
                out[a] = v
    return out


def run_cauchy(ctx, pair, nx, ny, d, big):
    """Sum over lambda of F_{lambda//mu}(x) f_{lambda/nu}(y) = kernel * sum over kappa of F_{nu//kappa}(x) f_{mu/kappa}(y), degree at most d in x."""
    big_f = {'Gg': utils.G_doublebar, 'GPgq': utils.GP_doublebar, 'GQgp': utils.GQ_doublebar}[pair]
    small_f = {'Gg': utils.g, 'GPgq': utils.gq, 'GQgp': utils.gp}[pair]
    strict = pair != 'Gg'
    memo = {}

    def up(mu, nu):
        k = ('F', mu, nu)
        if k not in memo:
            memo[k] = spread(big_f(nx, mu, nu), nx, d)
        return memo[k]

    def down(mu, nu):
        k = ('f', mu, nu)
        if k not in memo:
            memo[k] = spread(small_f(ny, mu, nu), ny)
        return memo[k]

    def accumulate(out, a, b):
        for x, v in a.items():
            for y, w in b.items():
                out[x, y] = out.get((x, y), 0) + v * w
        ctx.transitions += len(a) * len(b)

    # one factor of the kernel at beta = 1: {(x degree, y degree): coefficient}
    one = {}
    for e in range(d + 1):
        if strict:      # (1 + x + xy) / ((1 - xy) (1 + x))
            for k in range(d + 1 - e):
                for (p, q), v in (((0, 0), 1), ((1, 0), 1), ((1, 1), 1)):
                    if e + k + p <= d:
                        t = (e + k + p, e + q)
                        one[t] = one.get(t, 0) + v * (-1) ** k
        else:           # 1 / (1 - xy)
            one[e, e] = 1
    one = {k: v for k, v in one.items() if v}
    kernel = {((0,) * nx, (0,) * ny): 1}
    for i in range(nx):
        for j in range(ny):
            nxt = {}
            for (x, y), v in kernel.items():
                for (p, q), w in one.items():
                    if sum(x) + p <= d:
                        t = (x[:i] + (x[i] + p,) + x[i + 1:], y[:j] + (y[j] + q,) + y[j + 1:])
                        nxt[t] = nxt.get(t, 0) + v * w
            kernel = {k: v for k, v in nxt.items() if v}
    parts = ref.partitions_upto(big, strict=strict)
    above = ref.partitions_upto(big + d, strict=strict)
    for mu in parts:
        for nu in parts:
            ctx.case = (pair, nx, ny, mu, nu)
            lhs, base, rhs = {}, {}, {}
            for la in above:
                if sum(la) <= sum(mu) + d and ref.contains(la, mu) and ref.contains(la, nu):
                    ctx.states += 1
                    accumulate(lhs, up(la, mu), down(la, nu))
            for ka in ref.subparts(nu, strict=strict):
                if ref.contains(mu, ka):
                    accumulate(base, up(nu, ka), down(mu, ka))
            for (x, y), v in base.items():
                for (p, q), w in kernel.items():
                    if sum(x) + sum(p) <= d:
                        t = (tuple(a + b for a, b in zip(x, p)), tuple(a + b for a, b in zip(y, q)))
                        rhs[t] = rhs.get(t, 0) + v * w
            lhs = {k: v for k, v in lhs.items() if v}
            rhs = {k: v for k, v in rhs.items() if v}
            ctx.equal('Cauchy %s nx=%d ny=%d mu=%s nu=%s' % (pair, nx, ny, mu, nu), lhs, rhs)
            ctx.fam('Cauchy ' + pair, traces=1)
            ctx.outcome((pair, mu, nu, len(lhs)))
    ctx.sample('%s nx=%d ny=%d degree<=%d |mu|,|nu|<=%d' % (pair, nx, ny, d, big))


def vec(v):
    return {tuple(k): sym.coeff(c) for k, c in v.items() if c != 0}


def run_omega(ctx, fam, top):
    """omega exchanges the g families (at -beta) with the j families; the unshifted shapes are transposed."""
    other = {'g': 'j', 'gp': 'jp', 'gq': 'jq', 'gs': 'js'}[fam]
    for mu in ref.partitions_upto(top, strict=fam in STRICT):
        n = max(1, ref.get(mu, 0) + len(mu) - 1) if fam == 'gs' else max(1, ref.get(mu, 0), len(mu))
        for nu in ref.subparts(mu, strict=fam in STRICT):
            ctx.case = (fam, n, mu, nu)
            a = SP.omega_schur_expansion(FN[other](n, mu, nu))
            t = (mu, nu) if fam in STRICT else (ref.transpose(mu), ref.transpose(nu))
            b = SP.schur_expansion(FN[fam](n, *t))
            flip = {k: {e: v * (-1) ** e for e, v in c.items()} for k, c in vec(b).items()}
            ctx.equal('omega %s(%s,%s,%s)' % (other, n, mu, nu), vec(a), flip)
            ctx.fam('omega ' + fam, states=1, traces=1)
            ctx.outcome((fam, sorted(vec(b).items(), key=repr)))
    ctx.sample('omega %s = %s for |mu| <= %d' % (other, fam, top))


def columns_sign(big, small):
    return (-1) ** len({j for (i, j) in set(ref.boxes(big, shifted=True)) - set(ref.boxes(small, shifted=True))})


def overlap(big, small):
    cells = set(ref.boxes(big, small, True))
    return sum((i + 1, j) in cells for (i, j) in cells)


def strips(mu, sign):
    """Strict partitions with as many parts as mu, each part changed by 0 or sign."""
    for a in itertools.product((0, sign), repeat=len(mu)):
        la = tuple(x + y for x, y in zip(mu, a))
        if all(x > 0 for x in la) and all(x > y for x, y in zip(la, la[1:])):
            yield la


def run_change(ctx, which, n, top):
    parts = ref.partitions_upto(top, strict=True)
    memo = {}

    def get(f, mu, nu):
        k = (f, mu, nu)
        if k not in memo:
            memo[k] = sym.plain(getattr(utils, f)(n, mu, nu), n)
        return memo[k]

    for mu in parts:
        for kappa in ref.subparts(mu, strict=True):
            ctx.case = (which, n, mu, kappa)
            terms = []
            inner = [x for x in ref.subparts(kappa, strict=True) if len(x) == len(kappa)]
            if which == 'GQ to GP':
                left = sym.scale(get('GQ_doublebar', mu, kappa), 0, 2 ** (sum(kappa) + len(kappa)))
                for nu in inner:
                    for la in strips(mu, 1):
                        b = sum(la) - sum(mu) + sum(kappa) - sum(nu)
                        k = 2 ** (len(mu) + overlap(kappa, nu) + sum(nu) - sum(la) + sum(mu)) * columns_sign(la, mu) * (-1) ** b
                        terms.append(sym.scale(get('GP_doublebar', la, nu), b, k))
            else:
                left = sym.scale(get('gq', mu, kappa), 0, 2 ** sum(mu))
                for la in strips(mu, -1):
                    for nu in ref.subparts(la, strict=True):
                        if len(nu) == len(kappa) and ref.contains(nu, kappa):
                            b = sum(mu) - sum(la) + sum(nu) - sum(kappa)
                            k = 2 ** (len(la) - len(nu) + overlap(nu, kappa) + sum(kappa) + sum(la) - sum(nu)) * columns_sign(mu, la) * (-1) ** b
                            terms.append(sym.scale(get('gp', la, nu), b, k))
            ctx.equal('%s n=%d %s/%s' % (which, n, mu, kappa), sym.clean(left), sym.add(*terms))
            ctx.fam(which, states=len(terms), transitions=len(terms), traces=1)
            ctx.outcome((which, sorted(left.items(), key=repr)))
    ctx.sample('%s n=%d |mu| <= %d' % (which, n, top))


def run_cancel(ctx, fam, n, size):
    """f(t, -t/(1 + beta t), x_3, ...) does not depend on t (beta = 1, or beta = 0 for P and Q)."""
    b = fam in BARRED
    for mu in ref.partitions_upto(size, strict=True):
        ctx.case = (fam, n, mu)
        rest = {}
        for a, v in spread(FN[fam](n, mu), n).items():
            rest.setdefault(a[2:], []).append((a[0], a[1], v))
        for tail, terms in rest.items():
            top = max(q for _, q, _ in terms)
            total = {}
            for p, q, v in terms:
                # t^p (-t)^q (1 + t)^(top - q)
                for k in range(top - q + 1 if b else 1):
                    e = p + q + k
                    total[e] = total.get(e, 0) + v * (-1) ** q * binomial(top - q, k)
            const = sum(v for p, q, v in terms if p == q == 0)
            want = {k: const * binomial(top, k) for k in range(top + 1 if b else 1)}
            ctx.equal('cancellation %s(%s,%s) tail %s' % (fam, n, mu, tail), {k: v for k, v in total.items() if v}, {k: v for k, v in want.items() if v})
            ctx.fam('cancellation ' + fam, states=len(terms), transitions=len(total))
        ctx.fam('cancellation ' + fam, traces=1)
        ctx.outcome((fam, mu, len(rest)))
    ctx.sample('%s n=%d |mu| <= %d' % (fam, n, size))


def binomial(n, k):
    ans = 1
    for i in range(k):
        ans = ans * (n - i) // (i + 1)
    return ans
