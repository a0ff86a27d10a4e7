"""Crystal operators by the signature rule, and crystal graphs as explicit-state transition systems."""
from collections import Counter
from mc import ref as R
from mc import insert as I


def match(signs):
    """signs: list of (position, +1 for i, -1 for i+1) read left to right; every i+1 cancels with a later i.
    Returns the positions of the uncancelled i and of the uncancelled i+1."""
    stack, plus = [], []
    for p, s in signs:
        if s < 0:
            stack.append(p)
        elif stack:
            stack.pop()
        else:
            plus.append(p)
    return plus, stack


def word_op(w, i, up):
    """up: lowering operator f_i (i becomes i+1), else raising operator e_i"""
    plus, minus = match([(p, 1 if a == i else -1) for p, a in enumerate(w) if a in (i, i + 1)])
    if up:
        if not plus:
            return None
        p = plus[-1]
        return w[:p] + (i + 1,) + w[p + 1:]
    if not minus:
        return None
    p = minus[0]
    return w[:p] + (i,) + w[p + 1:]


def setvalued_op(T, i, up):
    """Monical-Pechenik-Scrimshaw operators on set-valued tableaux (cell -> tuple): a column containing i but not i+1
    is +, one containing i+1 but not i is -"""
    cols = {}
    for (r, c), v in T.items():
        d = cols.setdefault(c, {})
        for a in v:
            if a in (i, i + 1):
                d[a] = (r, c)
    signs = []
    for c in sorted(cols):
        if len(cols[c]) == 1:
            signs.append((c, 1 if i in cols[c] else -1))
    plus, minus = match(signs)
    T = {c: set(v) for c, v in T.items()}
    if up:
        if not plus:
            return None
        r, c = cols[plus[-1]][i]
        if i in T.get((r, c + 1), ()):
            T[r, c + 1].discard(i)
        else:
            T[r, c].discard(i)
        T[r, c].add(i + 1)
    else:
        if not minus:
            return None
        r, c = cols[minus[0]][i + 1]
        if i + 1 in T.get((r, c - 1), ()):
            T[r, c - 1].discard(i + 1)
        else:
            T[r, c].discard(i + 1)
        T[r, c].add(i)
    return {c: tuple(sorted(v)) for c, v in T.items()}


def column_reading(T):
    """Columns left to right; in a column first the minima from the bottom row up, then the other letters from the top row down."""
    out = []
    for c in sorted({j for _, j in T}):
        boxes = [sorted(T[x]) for x in sorted(T) if x[1] == c]
        out.append(tuple(b[0] for b in reversed(boxes)) + tuple(a for b in boxes for a in b[1:]))
    return tuple(out)


def multiset_tableaux(shape, n, total):
    """All semistandard multiset-valued tableaux (rows weak, columns strict) with the given number of entries."""
    cells = sorted(R.boxes(shape))
    out = []
    T = {}

    def rec(k, left):
        if k == len(cells):
            if left == 0:
                out.append(dict(T))
            return
        i, j = cells[k]
        lo = max([1] + ([T[i, j - 1][-1]] if (i, j - 1) in T else []) + ([T[i - 1, j][-1] + 1] if (i - 1, j) in T else []))

        def grow(v, lo):
            need = len(cells) - k - 1
            for a in range(lo, n + 1):
                new = v + (a,)
                if left - len(new) < need:
                    return
                T[i, j] = new
                rec(k + 1, left - len(new))
                grow(new, a)
                T.pop((i, j), None)
        grow((), lo)

    rec(0, total)
    return out


def frozen(T):
    return tuple(sorted(T.items()))


def weight(entries, n):
    w = [0] * n
    for a in entries:
        w[a - 1] += 1
    return tuple(w)


_schur = {}


def schur_character(mu, n):
    if (mu, n) not in _schur:
        _schur[mu, n] = R.generating_function(R.boxes(mu), n)
    return _schur[mu, n]


def components(vertices, edges):
    """connected parts by breadth-first search; edges: (x, y, label)"""
    adj = {v: [] for v in vertices}
    for x, y, _ in edges:
        adj[x].append(y)
        adj[y].append(x)
    seen, out = set(), []
    for v in vertices:
        if v in seen:
            continue
        comp, todo = {v}, [v]
        while todo:
            for y in adj[todo.pop()]:
                if y not in comp:
                    comp.add(y)
                    todo.append(y)
        seen |= comp
        out.append(comp)
    return out


def check_normal(vertices, edges, wt, n):
    """The graph is a disjoint union of highest weight crystals of type A: weights shift by simple roots, string lengths
    match weights, every component has one source and the Schur character of its weight."""
    f = {(x, i): y for x, y, i in edges}
    e = {(y, i): x for x, y, i in edges}
    assert len(f) == len(e) == len(edges)
    for x in vertices:
        for i in range(1, n):
            up = dn = 0
            y = x
            while (y, i) in f:
                y = f[y, i]
                up += 1
            y = x
            while (y, i) in e:
                y = e[y, i]
                dn += 1
            w = wt[x]
            if up - dn != w[i - 1] - w[i]:
                return 'string lengths of %r disagree with its weight' % (x,)
    for comp in components(vertices, edges):
        top = [x for x in comp if all((x, i) not in e for i in range(1, n))]
        if len(top) != 1:
            return 'a component has %d sources' % len(top)
        lam = wt[top[0]]
        if list(lam) != sorted(lam, reverse=True):
            return 'highest weight %r is not a partition' % (lam,)
        if Counter(wt[x] for x in comp) != Counter(schur_character(R.trim(lam), n)):
            return 'component of weight %r has the wrong character' % (lam,)
    return None
