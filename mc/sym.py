"""Helpers to read the library's symmetric polynomials as plain data."""


def coeff(c):
    """int or Polynomial in beta -> {beta exponent: int}."""
    if isinstance(c, int):
        return {0: c} if c else {}
    ans = {}
    for ind in c:
        v = c[ind]
        keys = [k for k in ind if ind[k] != 0]
        if any(k != 0 for k in keys):
            raise ValueError('coefficient %r involves a variable other than beta' % (c,))
        if v:
            e = ind.get(0, 0)
            ans[e] = ans.get(e, 0) + v
    return ans


def plain(f, n):
    """SymmetricPolynomial -> {partition: {beta exponent: int}}."""
    if isinstance(f, int):
        return {(): {0: f}} if f else {}
    ans = {}
    for m, c in f.items():
        if m.order() != n:
            raise ValueError('monomial %r has wrong number of variables' % (m,))
        c = coeff(c)
        if c:
            ans[tuple(m.index())] = c
    return ans


def from_gf(gf, betaexp):
    """{exponent tuple: int} (must be symmetric) -> {partition: {beta exponent: int}}"""
    ans = {}
    for alpha, v in gf.items():
        mu = tuple(sorted((a for a in alpha if a), reverse=True))
        padded = mu + (0,) * (len(alpha) - len(mu))
        if gf.get(padded, 0) != v:
            raise AssertionError('model generating function is not symmetric')
        if padded == alpha:
            ans[mu] = betaexp(sum(mu), v)
    return ans


def truncate(p, bound):
    return {mu: c for mu, c in p.items() if sum(mu) <= bound}


def add(*terms):
    ans = {}
    for t in terms:
        for mu, c in t.items():
            d = ans.setdefault(mu, {})
            for e, v in c.items():
                d[e] = d.get(e, 0) + v
    return clean(ans)


def clean(p):
    out = {}
    for mu, c in p.items():
        c = {e: v for e, v in c.items() if v}
        if c:
            out[mu] = c
    return out


def scale(p, bexp, k=1):
    return {mu: {e + bexp: v * k for e, v in c.items()} for mu, c in p.items()}
