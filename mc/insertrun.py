"""Shared driver of C08 and C09."""
import itertools
from mc import insert as I
from mc import ref as R
from insertion import InsertionAlgorithm as A, HState, FState
from tableaux import Tableau

FORWARD = {'hecke': A.hecke, 'orthogonal': A.orthogonal_hecke, 'symplectic': A.symplectic_hecke}
BACKWARD = {'hecke': A.inverse_hecke, 'orthogonal': A.inverse_orthogonal_hecke, 'symplectic': A.inverse_symplectic_hecke}


def norm(t):
    return {c: tuple(sorted(v, key=I.key)) for c, v in t.boxes.items()}


def single(t, ctx, key):
    out = {}
    for c, v in t.boxes.items():
        if len(v) != 1:
            ctx.violate(key, 'insertion tableau has a box with several entries', got=t.boxes)
        out[c] = v[0]
    return out


def step(kind, P, Q, k, a):
    """one transition of the model: insert letter a as step k"""
    if kind == 'hecke':
        P, c = I.hecke_step(P, a)
        s = 1
    else:
        P, c, prime = I.shifted_step(P, a, kind == 'symplectic')
        s = -1 if prime else 1
    Q = dict(Q)
    Q[c] = Q.get(c, ()) + (s * k,)
    return P, Q


def act(kind, z, a):
    """Demazure action of one more letter on a (trimmed) permutation or involution; None if not allowed"""
    N = max(len(z), a + 1)
    if kind == 'symplectic':
        N += N % 2
        z = tuple(z) + tuple(i + 1 if i % 2 else i - 1 for i in range(len(z) + 1, N + 1))
        if z[a - 1] == a + 1:
            return None
    else:
        z = tuple(z) + tuple(range(len(z) + 1, N + 1))
    if z[a - 1] < z[a]:
        y = list(z)
        y[a - 1], y[a] = y[a], y[a - 1]
        if kind != 'hecke':
            x = tuple(a + 1 if b == a else a if b == a + 1 else b for b in y)
            if x != z:
                y = x
        z = tuple(y)
    while z and kind != 'symplectic' and z[-1] == len(z):
        z = z[:-1]
    while z and kind == 'symplectic' and z[-1] == len(z) - 1 and z[-2] == len(z):
        z = z[:-2]
    return z


def value(kind, word):
    z = ()
    for a in word:
        z = act(kind, z, a)
        if z is None:
            return None
    return z


def variant(kind, P, Q, multiset):
    """the pair returned for the set-valued option"""
    if multiset:
        return P, Q
    if kind == 'hecke':
        return {(j, i): v for (i, j), v in P.items()}, {(j, i): v for (i, j), v in Q.items()}
    return P, {c: tuple(v) if c[0] == c[1] else tuple(-x for x in v) for c, v in Q.items()}


def rename(Q, record):
    return {c: tuple(sorted(((record[abs(x) - 1] if x > 0 else -record[abs(x) - 1]) for x in v), key=I.key)) for c, v in Q.items()}


def coarsest(word, multiset):
    """the record with as few different numbers as possible"""
    r = []
    for k, a in enumerate(word):
        if not k:
            r.append(1)
        elif word[k - 1] <= a if multiset else word[k - 1] > a:
            r.append(r[-1])
        else:
            r.append(r[-1] + 1)
    return tuple(r)


def runs(n):
    """all intervals of letters in increasing and in decreasing order"""
    up = [tuple(range(a, b + 1)) for a in range(1, n + 1) for b in range(a, n + 1)]
    return up + [u[::-1] for u in up if len(u) > 1]


def runwords(ctx, kind, n, L, part, parts):
    """all words that are concatenations of at most L monotone runs of consecutive letters"""
    blocks = runs(n)
    for k, b in enumerate(blocks):
        if k % parts == part:
            explore(ctx, kind, n, L, (b,), (0, 0), blocks=blocks)


def neighbours(base, letters, k, tail):
    """words that differ from base in at most k letters, in one missing or additional letter, or by at most so many additional letters at the end"""
    level = {base}
    out = {base}
    for _ in range(k):
        level = {w[:i] + (a,) + w[i + 1:] for w in level for i in range(len(w)) for a in letters}
        out |= level
    out |= {base[:i] + base[i + 1:] for i in range(len(base))} | {base[:i] + (a,) + base[i:] for i in range(len(base) + 1) for a in letters}
    for l in range(tail + 1):
        out |= {base + u for u in itertools.product(letters, repeat=l)}
    return sorted(out)


def minimal(kind, shape):
    """the smallest increasing tableau of this (shifted) shape"""
    if kind == 'hecke':
        return {(i + 1, j + 1): i + j + 1 for i, a in enumerate(shape) for j in range(a)}
    d = 2 if kind == 'symplectic' else 1
    return {(i + 1, i + j + 1): 2 * i + j + d for i, a in enumerate(shape) for j in range(a)}


def bases(kind, shape):
    """words whose insertion tableau is large: row and column reading words of the smallest tableau, and their reversals if allowed"""
    P = minimal(kind, shape)
    rows = tuple(P[c] for c in sorted(P, key=lambda c: (-c[0], c[1])))
    cols = tuple(P[c] for c in sorted(P, key=lambda c: (c[1], -c[0])))
    return [w for w in dict.fromkeys((rows, cols, rows[::-1], cols[::-1])) if value(kind, w) is not None]


def edits(ctx, kind, shape, k, tail, steps, part, parts):
    """neighbours of the words of large tableaux"""
    for base in bases(kind, shape):
        words = [w for w in neighbours(base, range(1, max(base) + 2), k, tail)[part::parts] if value(kind, w) is not None]
        explore(ctx, kind, max(base) + 1, len(base) + max(tail, 1), (), (0, 0), words=words)
        if steps:
            walk(ctx, kind, words, '%s insertion paths, neighbours of words of large tableaux' % kind)


def explore(ctx, kind, n, L, prefix, recs, high=0, blocks=None, words=None):
    """all words over 1..n (or over the listed letters) of length <= L that extend prefix, as paths of the insertion transition system;
    with blocks, all words made of at most L of the given blocks"""
    blocks = blocks or [(a,) for a in (range(1, n + 1) if isinstance(n, int) else n)]
    name = '%s words over %s, length <= %d' % (kind, '1..%d' % n if isinstance(n, int) else n, L)
    if any(len(b) > 1 for b in blocks):
        name = '%s words of at most %d runs of letters 1..%d' % (kind, L, n)
    else:
        prefix = tuple((a,) for a in prefix)
    fwd, bwd = FORWARD[kind], BACKWARD[kind]
    shifted = kind != 'hecke'
    seen = {}
    nodes = edges = traces = 0

    def visit(word, P, Q, z):
        nonlocal traces
        ctx.case = (kind, word)
        key = '%s %s' % (kind, word)
        if not I.is_shape(set(P), shifted) or not I.increasing(P) or set(P) != set(Q):
            raise AssertionError('the model left the space of increasing tableaux')
        if kind == 'symplectic' and any(x < 0 for c, v in Q.items() if c[0] == c[1] for x in v):
            raise AssertionError('the model primed the diagonal')
        p, q = fwd(word)
        traces += 1
        ctx.equal(key + ' P', single(p, ctx, key), P)
        ctx.equal(key + ' Q', norm(q), rename(Q, range(1, len(word) + 1)))
        if value(kind, I.reading(single(p, ctx, key))) != z:
            ctx.violate(key + ' reading', 'the reading word of the insertion tableau is not equivalent to the input', word=word, P=P)
        f = (tuple(sorted(P.items())), tuple(sorted(Q.items())))
        if f in seen:
            ctx.violate(key + ' injective', 'two words with the same pair of tableaux', words=(word, seen[f]))
        seen[f] = word
        for multiset in (True, False):
            Pv, Qv = variant(kind, P, Q, multiset)
            if not multiset:
                p, q = fwd(word, None, False)
                traces += 1
                ctx.equal(key + ' P setvalued', single(p, ctx, key), Pv)
                ctx.equal(key + ' Q setvalued', norm(q), rename(Qv, range(1, len(word) + 1)))
            ctx.equal(key + ' inverse %s' % multiset, tuple(bwd(p, q, multiset)), (word, tuple(range(1, len(word) + 1))))
            traces += 1
            # descents: steps k, k+1 can be given the same number exactly when the word allows it
            for k in range(1, len(word)):
                r = [i if i <= k else i - 1 for i in range(1, len(word) + 1)]
                allowed = word[k - 1] <= word[k] if multiset else word[k - 1] > word[k]
                Qr = rename(Qv, r)
                merges = I.semistandard(Qr, multiset) and standard(Qr) == {c: tuple(sorted(v, key=I.key)) for c, v in Qv.items()}
                if merges != allowed:
                    raise AssertionError('model: descents of the word and the recording tableau differ: %r' % (word,))
            if len(word) <= recs[0] or len(word) > 3 and not recs[0]:
                strict = (lambda k: word[k] > word[k + 1]) if multiset else (lambda k: word[k] <= word[k + 1])
                for record in I.records(len(word), recs[1], strict) if recs[0] else [coarsest(word, multiset)]:
                    record = tuple(r + high for r in record)
                    ctx.case = (kind, word, record, multiset)
                    p, q = fwd(word, record, multiset)
                    traces += 2
                    k2 = key + ' record %s %s' % (record, multiset)
                    ctx.equal(k2 + ' P', single(p, ctx, key), Pv)
                    ctx.equal(k2 + ' Q', norm(q), rename(Qv, record))
                    if not I.semistandard(norm(q), multiset):
                        ctx.violate(k2 + ' semistandard', 'recording tableau is not semistandard', Q=q.boxes)
                    ctx.equal(k2 + ' inverse', tuple(bwd(p, q, multiset)), (word, record))

    def rec(k, word, P, Q, z):
        nonlocal nodes, edges
        nodes += 1
        if k >= len(prefix) and word not in depth:
            visit(word, P, Q, z)
        depth[word] = k
        if k == L:
            return
        for block in blocks:
            if k < len(prefix) and prefix[k] != block:
                continue
            P2, Q2, y, w = P, Q, z, word
            for a in block:
                y = act(kind, y, a)
                if y is None:
                    break
                edges += 1
                P2, Q2 = step(kind, P2, Q2, len(w) + 1, a)
                w += (a,)
            else:
                if w not in depth or depth[w] > k + 1:
                    rec(k + 1, w, P2, Q2, y)

    depth = {}
    if words is None:
        rec(0, (), {}, {}, ())
    else:
        name = '%s neighbours of words of large tableaux' % kind
        states = {(): ({}, {}, ())}
        for w in words:
            for k in range(1, len(w) + 1):
                if w[:k] not in states:
                    P, Q, z = states[w[:k - 1]]
                    states[w[:k]] = step(kind, P, Q, k, w[k - 1]) + (act(kind, z, w[k - 1]),)
                    edges += 1
            visit(w, *states[w])
        nodes = len(states)
    ctx.fam(name, states=nodes, transitions=edges, traces=traces)
    ctx.sample('%s: %d words extending %s' % (kind, nodes, prefix))


def standard(Q):
    """standardization: equal primed letters are numbered from top to bottom, equal unprimed ones from left to right"""
    entries = sorted((I.key(x), c[0] if x < 0 else c[1], c, x) for c, v in Q.items() for x in v)
    out = {}
    for k, (_, _, c, x) in enumerate(entries):
        out[c] = out.get(c, ()) + ((k + 1) if x > 0 else -(k + 1),)
    return {c: tuple(sorted(v, key=I.key)) for c, v in out.items()}


def onto(ctx, kind, n, L):
    """every pair (increasing tableau, standard recording tableau of its shape) arises: replayed through the inverse and back"""
    fwd, bwd = FORWARD[kind], BACKWARD[kind]
    shifted = kind != 'hecke'
    byshape = {}
    pairs = 0
    words = set()
    recordings = I.standard_recordings(L, shifted)
    for Q in recordings:
        if kind == 'symplectic' and any(x < 0 for c, v in Q.items() if c[0] == c[1] for x in v):
            continue
        rows = {}
        for i, j in Q:
            rows[i] = rows.get(i, 0) + 1
        shape = tuple(rows[i] for i in sorted(rows))
        if shape not in byshape:
            byshape[shape] = [P for P in I.increasing_tableaux(shape, n, shifted) if value(kind, I.reading(P)) is not None]
        for P in byshape[shape]:
            pairs += 1
            ctx.case = (kind, P, Q)
            p = Tableau(dict(P))
            q = Tableau(dict(Q))
            w, record = bwd(p, q)
            key = '%s pair %s %s' % (kind, sorted(P.items()), sorted(Q.items()))
            if len(w) != L or not all(1 <= a <= n for a in w) or value(kind, w) is None or tuple(record) != tuple(range(1, L + 1)):
                ctx.violate(key, 'inverse insertion leaves the set of words', word=w, record=record)
            if value(kind, w) != value(kind, I.reading(P)):
                ctx.violate(key, 'inverse insertion changes the element', word=w)
            pp, qq = fwd(w)
            ctx.equal(key + ' P', single(pp, ctx, key), P)
            ctx.equal(key + ' Q', norm(qq), {c: tuple(sorted(v, key=I.key)) for c, v in Q.items()})
            words.add(w)
    total = 0
    for w in itertools.product(range(1, n + 1), repeat=L):
        if value(kind, w) is not None:
            total += 1
    if not len(words) == pairs == total:
        ctx.violate('%s count %d %d' % (kind, n, L), 'numbers of words and of pairs differ', words=len(words), pairs=pairs, all=total)
    ctx.fam('%s pairs of tableaux, letters 1..%d, %d steps' % (kind, n, L), states=pairs, transitions=2 * pairs, traces=2 * pairs)


def split(ctx, kind, n, L):
    """inserting a word in two parts is inserting it at once"""
    cls = HState if kind == 'hecke' else FState
    d = 2 if kind == 'orthogonal' else 1
    cases = 0
    for l in range(L + 1):
        for w in itertools.product(range(1, n + 1), repeat=l):
            if value(kind, w) is None:
                continue
            u = tuple(d * a for a in w)
            P, Q = {}, {}
            for k, a in enumerate(u):
                P, Q = step(kind if d == 1 else 'orthogonal', P, Q, k + 1, a)
            for cut in range(l + 1):
                ctx.case = (kind, w, cut)
                p, q = cls.insertion_tableaux(*u[:cut])
                if kind == 'hecke' or cut > 0:
                    p, q = cls.insertion_tableaux(*u[cut:], p=p, q=q)
                else:
                    p, q = cls.insertion_tableaux(*u)
                cases += 1
                key = '%s split %s %d' % (kind, w, cut)
                ctx.equal(key + ' P', single(p, ctx, key), P)
                ctx.equal(key + ' Q', norm(q), {c: tuple(sorted(v, key=I.key)) for c, v in Q.items()})
    ctx.fam('%s insertion in two parts' % kind, states=cases, transitions=cases, traces=2 * cases)


def paths(ctx, kind, n, L):
    """single bumping steps: every insertion path of the state graph is walked forward and, with the record of the last letter, backward"""
    walk(ctx, kind, [w for l in range(1, L + 1) for w in itertools.product(range(1, n + 1), repeat=l) if value(kind, w) is not None],
         '%s insertion paths, letters 1..%d, length <= %d' % (kind, n, L))


def walk(ctx, kind, words, family):
    cls = HState if kind == 'hecke' else FState
    d = 2 if kind == 'orthogonal' else 1
    steps = traces = states = 0
    for w in words:
        if not w:
            continue
        ctx.case = (kind, w)
        key = '%s path %s' % (kind, w)
        u = tuple(d * a for a in w)
        P, Q = {}, {}
        for k, a in enumerate(u[:-1]):
            P, Q = step(kind if d == 1 else 'orthogonal', P, Q, k + 1, a)
        P2, Q2 = step(kind if d == 1 else 'orthogonal', P, Q, len(w), u[-1])
        start = cls(Tableau(dict(P)))
        if not start.is_terminal() or start.is_initial() or start.next() != (start, None):
            ctx.violate(key, 'a tableau without an outer box is not terminal')
        s = start.add(u[-1])
        trail = [s]
        if not s.is_initial() or s.is_terminal() or s.previous() != (s, None):
            ctx.violate(key, 'adding a letter does not give an initial state')
        t, v = s.pop()
        if v != u[-1] or norm(t) != {c: (x,) for c, x in P.items()}:
            ctx.violate(key, 'pop does not undo add', got=(t.boxes, v))
        while not trail[-1].is_terminal():
            trail.append(trail[-1].next()[0])
            if len(trail) > 4 * len(w) + 8:
                ctx.violate(key, 'the insertion path does not end')
                break
        final, cells = start.insert(u[-1])
        if final != trail[-1] or len(cells) != len(trail) - 1 or [x for x, _ in s.path()] != trail[1:] or [c for _, c in s.path()] != cells:
            ctx.violate(key, 'insert and path disagree with the single steps')
        if len(set(trail)) != len(trail) or any((x == y) != (i == j) for i, x in enumerate(trail) for j, y in enumerate(trail)):
            ctx.violate(key, 'two states of one path are equal')
        ctx.equal(key + ' end', single(trail[-1].tableau, ctx, key), P2)
        if sorted((i, j) for i, j, _ in trail[-1]) != sorted(P2) or any(c not in trail[-1] for c in P2):
            ctx.violate(key, 'the final state does not iterate over its boxes')
        q = Tableau(dict(Q2))
        rest, record = q.pop()
        if norm(rest) != {c: tuple(sorted(v, key=I.key)) for c, v in Q.items()}:
            ctx.violate(key, 'pop of the recording tableau')
        back = [trail[-1].previous(record)[0]]
        while not back[-1].is_initial() and len(back) <= len(trail):
            back.append(back[-1].previous()[0])
        ctx.equal(key + ' back', [(norm(x.tableau), x.outer) for x in reversed(back)], [(norm(x.tableau), x.outer) for x in trail[:-1]])
        steps += 2 * len(trail) - 2
        states += len(trail)
        traces += 1
    ctx.fam(family, states=states, transitions=steps, traces=traces)


def run(ctx, name, args):
    {'words': explore, 'runs': runwords, 'pairs': onto, 'split': split, 'paths': paths, 'edits': edits}[name](ctx, *args)
