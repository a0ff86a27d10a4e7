"""Reference models: plain definitions, independent of the library's algorithms."""
import itertools
from collections import defaultdict


def partitions_of(n, maxpart=None):
    if maxpart is None or maxpart > n:
        maxpart = n
    if n == 0:
        yield ()
        return
    for k in range(maxpart, 0, -1):
        for rest in partitions_of(n - k, k):
            yield (k,) + rest


def strict_partitions_of(n, maxpart=None):
    for p in partitions_of(n, maxpart):
        if all(p[i] > p[i + 1] for i in range(len(p) - 1)):
            yield p


def partitions_upto(n, strict=False):
    f = strict_partitions_of if strict else partitions_of
    return [p for k in range(n + 1) for p in f(k)]


def get(mu, i):
    return mu[i] if i < len(mu) else 0


def contains(mu, nu):
    return all(get(nu, i) <= get(mu, i) for i in range(max(len(mu), len(nu))))


def subparts(mu, strict=False):
    """All partitions (weakly/strictly decreasing) contained in mu."""
    def rec(i, prev):
        if i == len(mu):
            yield ()
            return
        top = min(mu[i], prev if not strict or prev == 0 else prev - 1)
        for a in range(top, -1, -1):
            for rest in rec(i + 1, a):
                yield (a,) + rest
    big = 10 ** 9
    ans = set()
    for t in rec(0, big):
        while t and t[-1] == 0:
            t = t[:-1]
        ans.add(t)
    return sorted(ans)


def removals(mu, k, strict=False):
    """All partitions obtained from mu by removing 1 to k boxes."""
    level, ans = {tuple(mu)}, set()
    for _ in range(k):
        new = set()
        for x in level:
            for i in range(len(x)):
                nxt = x[i + 1] if i + 1 < len(x) else 0
                if x[i] - 1 > nxt or (x[i] - 1 == nxt and (not strict or x[i] == 1)):
                    new.add(trim(x[:i] + (x[i] - 1,) + x[i + 1:]))
        level = new
        ans |= new
    return sorted(ans)


def trim(t):
    t = tuple(t)
    while t and t[-1] == 0:
        t = t[:-1]
    return t


def transpose(mu):
    return tuple(sum(1 for a in mu if a > i) for i in range(mu[0] if mu else 0))


def boxes(mu, nu=(), shifted=False):
    """Cells (row, column), both from 1, of the (shifted) skew diagram."""
    ans = []
    for i in range(len(mu)):
        off = i if shifted else 0
        for j in range(get(nu, i), mu[i]):
            ans.append((i + 1, j + 1 + off))
    return ans


def letters(n, marked):
    """The alphabet in increasing order: 1 < 2 < ... or 1' < 1 < 2' < 2 < ..."""
    if marked:
        return [s * i for i in range(1, n + 1) for s in (-1, 1)]
    return list(range(1, n + 1))


def key(a):
    return 2 * a if a > 0 else -2 * a - 1


# ---------------------------------------------------------------------------
# Fillings box by box.  A state of the exploration is a partially filled
# diagram; a transition puts one more letter into the current box or moves on.
# `kind` describes the rules:
#   marked     alphabet 1'<1<2'<2...; primed letters at most once per row,
#              unprimed letters at most once per column
#   setvalued  boxes hold nonempty sets
#   rpp        weakly increasing along rows and columns (no strictness)
# ---------------------------------------------------------------------------

def ok_right(a, b, rpp=False):
    """May b stand immediately right of a (max of left box, min of right box)."""
    if rpp:
        return key(a) <= key(b)
    return key(a) < key(b) or (a == b and a > 0)


def ok_below(a, b, marked, rpp=False):
    if rpp:
        return key(a) <= key(b)
    return key(a) < key(b) or (a == b and a < 0)


def fillings(cells, n, marked=False, setvalued=False, rpp=False, diag=None, counter=None):
    """All fillings, as dicts cell -> sorted tuple of letters.  diag(letter) filters main diagonal letters."""
    cells = sorted(cells)
    alphabet = letters(n, marked)
    ans = []
    cur = {}
    c = [0, 0]

    def rec(k):
        c[0] += 1
        if k == len(cells):
            ans.append(dict(cur))
            return
        i, j = cells[k]
        left = cur.get((i, j - 1))
        up = cur.get((i - 1, j))

        def grow(pos, chosen):
            for t in range(pos, len(alphabet)):
                a = alphabet[t]
                if diag is not None and i == j and not diag(a):
                    continue
                if not chosen:
                    if left is not None and not ok_right(left[-1], a, rpp):
                        continue
                    if up is not None and not ok_below(up[-1], a, marked, rpp):
                        continue
                c[1] += 1
                new = chosen + (a,)
                cur[(i, j)] = new
                rec(k + 1)
                if setvalued:
                    grow(t + 1, new)
                cur.pop((i, j), None)

        grow(0, ())

    rec(0)
    if counter is not None:
        counter[0] += c[0]
        counter[1] += c[1]
    return ans


SHIFT = 6


def unpack(e, n):
    return tuple((e >> (SHIFT * i)) & ((1 << SHIFT) - 1) for i in range(n))


def generating_function(cells, n, marked=False, setvalued=False, rpp=False, diag=None, bar=False, counter=None):
    """Sum over fillings of x^weight, by exploring the graph whose states are
    frontiers of partial fillings (fillings that agree on the frontier are merged,
    carrying the multiset of weights).  Returns {exponent tuple: coefficient}.

    weight:  ordinary: number of occurrences;  rpp: number of columns containing i
    plus number of rows containing i';  bar: each unprimed letter equal to its left
    neighbour and each primed letter equal to the one above weighs (1 + x_i)
    """
    cells = sorted(cells)
    cellset = set(cells)
    alphabet = letters(n, marked)
    cols = sorted({j for _, j in cells})
    cidx = {j: k for k, j in enumerate(cols)}
    states = {(None,) * (len(cols) + 1): {0: 1}}
    cs = ct = 0
    for (i, j) in cells:
        haslow = (i + 1, j) in cellset
        hasright = (i, j + 1) in cellset
        hasleft = (i, j - 1) in cellset
        hasup = (i - 1, j) in cellset
        nxt = {}
        ci = cidx[j]
        for st, pol in states.items():
            cs += 1
            left = st[-1] if hasleft else None
            up = st[ci] if hasup else None

            def emit(last, pol):
                new = list(st)
                new[ci] = last if haslow else None
                new[-1] = last if hasright else None
                new = tuple(new)
                d = nxt.get(new)
                if d is None:
                    nxt[new] = dict(pol)
                else:
                    for e, v in pol.items():
                        d[e] = d.get(e, 0) + v

            def grow(pos, first, pol):
                nonlocal ct
                for t in range(pos, len(alphabet)):
                    a = alphabet[t]
                    if diag is not None and i == j and not diag(a):
                        continue
                    if first:
                        if left is not None and not ok_right(left, a, rpp):
                            continue
                        if up is not None and not ok_below(up, a, marked, rpp):
                            continue
                    ct += 1
                    x = 1 << (SHIFT * (abs(a) - 1))
                    if rpp:
                        same = (up == a) if a > 0 else (left == a)
                        new = pol if same else {e + x: v for e, v in pol.items()}
                    elif bar:
                        same = (left == a) if a > 0 else (up == a)
                        new = {e + x: v for e, v in pol.items()}
                        if same:
                            for e, v in pol.items():
                                new[e] = new.get(e, 0) + v
                    else:
                        new = {e + x: v for e, v in pol.items()}
                    emit(a, new)
                    if setvalued:
                        grow(t + 1, False, new)

            grow(0, True, pol)
        states = nxt
    if counter is not None:
        counter[0] += cs + len(states)
        counter[1] += ct
    ans = defaultdict(int)
    for pol in states.values():
        for e, v in pol.items():
            ans[e] += v
    return {unpack(e, n): v for e, v in ans.items() if v}
