"""Reference ring: Laurent polynomials over Z as {((var, exp), ...) sorted: int}."""


def clean(p):
    return {k: v for k, v in p.items() if v}


def const(c):
    return {(): c} if c else {}


def var(i, e=1):
    return {((i, e),): 1} if e else {(): 1}


def add(p, q, s=1):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + s * v
    return clean(r)


def monmul(a, b):
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    return tuple(sorted((i, e) for i, e in d.items() if e))


def mul(p, q):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            k = monmul(a, b)
            r[k] = r.get(k, 0) + x * y
    return clean(r)


def power(p, n):
    r = const(1)
    for _ in range(n):
        r = mul(r, p)
    return r


def inverse_power(p, n):
    """p ** -n for a monomial with coefficient 1 or -1, otherwise None."""
    if len(p) != 1:
        return None
    (k, v), = p.items()
    if abs(v) != 1:
        return None
    return {tuple((i, -e * n) for i, e in k): v ** n}


def degree(k):
    return sum(e for _, e in k)


def read(p):
    """Library polynomial (or int) -> reference value."""
    if isinstance(p, int) and not isinstance(p, bool):
        return const(p)
    return {tuple(sorted((i, e) for i, e in ind.items() if e)): p[ind] for ind in p if p[ind] != 0}


def freeze(p):
    return frozenset(p.items())
