"""One-letter insertion steps, written from the published definitions, on dictionaries cell -> letter.

Hecke insertion (Buch-Kresch-Shimozono-Tamvakis-Yong), shifted Hecke insertion
(Patrias-Pylyavskyy) and symplectic Hecke insertion (Marberg).
"""
import itertools


def rowlist(P, i, start=1):
    out = []
    j = start
    while (i, j) in P:
        out.append(P[i, j])
        j += 1
    return out


def collist(P, j):
    out = []
    i = 1
    while (i, j) in P:
        out.append(P[i, j])
        i += 1
    return out


def hecke_step(P, a):
    """Insert a into the first row; returns (new tableau, corner cell where the step is recorded)."""
    P = dict(P)
    i = 1
    while True:
        row = rowlist(P, i)
        if not row or row[-1] <= a:
            j = len(row) + 1
            if (not row or row[-1] < a) and (i == 1 or P[i - 1, j] < a if (i - 1, j) in P else i == 1):
                P[i, j] = a
                return P, (i, j)
            j = len(row)
            return P, (len(collist(P, j)), j)
        x = next(k for k, v in enumerate(row) if v > a)
        b = row[x]
        if (x == 0 or row[x - 1] < a) and (i == 1 or P[i - 1, x + 1] < a):
            P[i, x + 1] = a
        a = b
        i += 1


def shifted_step(P, a, symplectic):
    """Insert a into the first row of a shifted tableau; returns (tableau, recording cell, prime?)."""
    P = dict(P)
    k = 1
    column = False
    while True:
        if not column:
            row = rowlist(P, k, k)
            if not row or row[-1] <= a:
                j = k + len(row)
                above = P.get((k - 1, j)) if k > 1 else None
                if (not row or row[-1] < a) and (above is None or above < a) and (k == 1 or above is not None):
                    P[k, j] = a
                    return P, (k, j), False
                if not row:
                    # the letter falls off the diagonal: recorded at the right end of the row above, primed
                    return P, (k - 1, k - 2 + len(rowlist(P, k - 1, k - 1))), True
                j -= 1
                return P, (len(collist(P, j)), j), False
            x = next(t for t, v in enumerate(row) if v > a)
            b = row[x]
            col = k + x
            fits = (k == 1 or P[k - 1, col] < a)
            if x > 0:
                if row[x - 1] < a and fits:
                    P[k, col] = a
                elif x == 1 and (k + 1, k + 1) not in P:
                    column, k, a = True, col, b
                    continue
                k, a = k + 1, b
            else:
                if not symplectic or (a - b) % 2 == 0:
                    if fits:
                        P[k, col] = a
                    a = b
                else:
                    a = b + 1
                column, k = True, k + 1
        else:
            col = collist(P, k)
            if not col or col[-1] <= a:
                i = len(col) + 1
                left = P.get((i, k - 1))
                if (not col or col[-1] < a) and (left is None or left < a) and (i == k or left is not None):
                    P[i, k] = a
                    return P, (i, k), True
                i -= 1
                if i < 1:
                    # nothing in the column: recorded in the last box of the first row
                    i = 1
                return P, (i, i - 1 + len(rowlist(P, i, i))), True
            x = next(t for t, v in enumerate(col) if v > a)
            b = col[x]
            left = P.get((x + 1, k - 1))
            if (x == 0 or col[x - 1] < a) and (left is None or left < a):
                P[x + 1, k] = a
            k, a = k + 1, b


def reading(P):
    """Row reading word: last row first, each row left to right."""
    return tuple(P[c] for c in sorted(P, key=lambda c: (-c[0], c[1])))


def increasing(P, shifted=False):
    for (i, j), v in P.items():
        if (i, j + 1) in P and not v < P[i, j + 1]:
            return False
        if (i + 1, j) in P and not v < P[i + 1, j]:
            return False
    return True


def is_shape(cells, shifted=False):
    for (i, j) in cells:
        lo = i if shifted else 1
        if j < lo or (j > lo and (i, j - 1) not in cells) or (i > 1 and (i - 1, j) not in cells):
            return False
    return True


def key(a):
    return 2 * a if a > 0 else -2 * a - 1


def semistandard(Q, multiset):
    """Q: cell -> sorted list of nonzero integers, negative meaning primed.  In an ordinary tableau
    (nothing primed) rows increase weakly and columns strictly."""
    for (i, j), v in Q.items():
        v = sorted(v, key=key)
        if not multiset and len(set(v)) != len(v):
            return False
        for c, ok_equal in (((i, j + 1), lambda a: a > 0), ((i + 1, j), lambda a: a < 0)):
            if c in Q:
                b = min(Q[c], key=key)
                if key(b) < key(v[-1]) or (b == v[-1] and not ok_equal(b)):
                    return False
    return True


def records(n, m, strict):
    """All weakly increasing sequences of length n with values in 1..m; strict(k) forces a rise after step k."""
    def rec(k, prev):
        if k == n:
            yield ()
            return
        lo = prev if k == 0 or not strict(k - 1) else prev + 1
        for a in range(lo, m + 1):
            for rest in rec(k + 1, a):
                yield (a,) + rest
    return rec(0, 1)


def increasing_tableaux(shape, n, shifted):
    """All increasing fillings of a (shifted) shape with letters 1..n."""
    cells = [(i + 1, j + 1 + (i if shifted else 0)) for i in range(len(shape)) for j in range(shape[i])]
    out = []
    P = {}

    def rec(k):
        if k == len(cells):
            out.append(dict(P))
            return
        i, j = cells[k]
        lo = max(P.get((i, j - 1), 0), P.get((i - 1, j), 0)) + 1
        for a in range(lo, n + 1):
            P[i, j] = a
            rec(k + 1)
        P.pop((i, j), None)
    rec(0)
    return out


def corners(cells):
    return [(i, j) for (i, j) in cells if (i + 1, j) not in cells and (i, j + 1) not in cells]


def outer(cells, shifted):
    """cells that can be added to the (shifted) shape"""
    rows = {}
    for i, j in cells:
        rows[i] = max(rows.get(i, 0), j)
    out = []
    for i in range(1, len(rows) + 2):
        j = rows.get(i, (i - 1 if shifted else 0)) + 1
        if i == 1 or (i - 1, j) in cells:
            out.append((i, j))
    return out


def standard_recordings(L, shifted):
    """The graph of recording tableaux: step k goes into a new corner or joins an existing corner box;
    in the shifted case off-diagonal entries may be primed.  Returns the list of tableaux with L steps."""
    level = {(): None}
    level = [{}]
    for k in range(1, L + 1):
        new = []
        for Q in level:
            cells = set(Q)
            for c in corners(cells) + outer(cells, shifted):
                for s in ((1, -1) if shifted and c[0] != c[1] else (1,)):
                    R = dict(Q)
                    R[c] = R.get(c, ()) + (s * k,)
                    new.append(R)
        level = new
    return level
