"""Little bumps as transition systems on marked words."""
from mc import insertrun, perms as M
from permutations import Permutation as P
from insertion import InsertionAlgorithm as I

ID = 'C15'
RULE = ('all reduced words (plain, involution, fixed-point-free) of the stated ranks and lengths and all deletable positions; the bump is run in the '
        'model as a transition system on (word, marked position), one increment per transition, until the word is reduced; the implementation must '
        'return the final state; injectivity, descents, recording tableau and undoing by the complementary bump are monitored on all of them')
ASSUMPTIONS = ['ranks and word lengths within the stated bounds']


def jobs(tier):
    q = tier == 'quick'
    ans = []
    for kind, N, L in [('plain', 3, 9), ('plain', 4, 9), ('plain', 5, 7 if q else 9), ('plain', 6, 4 if q else 5),
                       ('inv', 3, 9), ('inv', 4, 9), ('inv', 5, 9), ('inv', 6, 6 if q else 7),
                       ('fpf', 4, 9), ('fpf', 6, 9), ('fpf', 8, 4 if q else 6)]:
        for k in range(4):
            ans.append((N * L, 'bumps', (kind, N, L, k, 4)))
    # words over large letters
    for kind, N, L, low in [('plain', 4, 4, 8), ('inv', 4, 4, 8), ('fpf', 5, 4, 8), ('plain', 3, 5, 12), ('inv', 3, 5, 11), ('fpf', 4, 4, 10)]:
        for k in range(4):
            ans.append((N * L * 3, 'bumps', (kind, N, L + (not q), k, 4, low)))
    for kind, n, L, chunks, longest in [('plain', 6, 2, 4, 12), ('plain', 4, 3, 4, 12), ('inv', 7, 2, 4, 14), ('inv', 4, 3, 4, 12), ('fpf', 7, 2, 4, 7), ('fpf', 5, 3, 4, 7)] if q else \
                                      [('plain', 10, 2, 8, 20), ('plain', 6, 3, 8, 18), ('inv', 10, 2, 8, 20), ('inv', 6, 3, 8, 18), ('fpf', 9, 2, 8, 8), ('fpf', 5, 4, 8, 8)]:
        for k in range(chunks):
            ans.append((100, 'longbumps', (kind, n, L, k, chunks, longest)))
    for kind, shapes in [('plain', ((3, 2, 1), (4, 3, 2, 1), (3, 3, 3), (2, 2, 2, 2), (4, 4))), ('inv', ((3, 2, 1), (4, 3, 2), (5, 3, 1), (4, 3))), ('fpf', ((3, 2, 1), (4, 2), (4, 3)))]:
        for shape in shapes:
            for part in range(2):
                ans.append((200, 'tableauwords', (kind, shape, 1 if q else 2, part, 2)))
    return ans


class Model:
    """strict action; values are trimmed tuples over a growing alphabet"""

    def __init__(self, kind):
        self.kind = kind
        self.memo = {}

    def value(self, word):
        """the element of a reduced word, None if the word is not reduced"""
        if word in self.memo:
            return self.memo[word]
        if not word:
            out = ()
        else:
            z = self.value(word[:-1])
            i = word[-1]
            out = None
            if z is not None and i >= 1:
                N = (max(len(z), i + 1) + 1) // 2 * 2
                z = M.minfpf(N)[:len(z)] and z + M.minfpf(N)[len(z):] if self.kind == 'fpf' and z else (M.minfpf(N) if self.kind == 'fpf' else M.pad(z, N))
                if z[i - 1] < z[i]:
                    if self.kind == 'plain':
                        out = M.right(z, i)
                    else:
                        v = M.left(M.right(z, i), i)
                        if v == z:
                            out = M.right(z, i) if self.kind == 'inv' else None
                        else:
                            out = v
            if out is not None:
                out = self.trim(out)
        if len(self.memo) < 400000:
            self.memo[word] = out
        return out

    def trim(self, z):
        if self.kind != 'fpf':
            return M.trim(z)
        while len(z) >= 2 and z[-1] == len(z) - 1 and z[-2] == len(z):
            z = z[:-2]
        return z

    def positions(self, word, y):
        return [j for j in range(len(word)) if self.value(word[:j] + word[j + 1:]) == y]


def bumps(ctx, kind, N, L, k, chunks, low=0):
    md = Model(kind)
    bump, insert, push, lib = tools(kind)
    level = [()]
    images = {}
    for depth in range(L + 1):
        nxt = []
        for num, word in enumerate(level):
            for i in range(low + 1, low + N):
                if md.value(word + (i,)) is not None:
                    nxt.append(word + (i,))
            ctx.fam('words ' + kind, states=1)
            if num % chunks == k:
                one(ctx, kind, N, md, bump, insert, push, lib, word, images)
        level = nxt
        md.memo = {w: v for w, v in md.memo.items() if len(w) >= depth}


def tools(kind):
    bump = {'plain': P.little_bump, 'inv': P.involution_little_bump, 'fpf': P.fpf_involution_little_bump}[kind]
    insert = {'plain': I.hecke, 'inv': I.orthogonal_hecke, 'fpf': I.symplectic_hecke}[kind]
    push = {'plain': P.little_push, 'inv': P.involution_little_push, 'fpf': P.fpf_involution_little_push}[kind]

    def lib(y, n=0):
        if kind == 'fpf':
            n = max(n, len(y))
            n += n % 2
            y = y + M.minfpf(n)[len(y):]
        return P(*y)

    return bump, insert, push, lib


def longbumps(ctx, kind, n, L, k, chunks, longest):
    """long reduced words: concatenations of at most L runs of consecutive letters"""
    md = Model(kind)
    up = [tuple(range(a, b + 1)) for a in range(1, n + 1) for b in range(a, n + 1)]
    blocks = up + [u[::-1] for u in up if len(u) > 1]
    words = level = {()}
    for _ in range(L):
        level = {w + b for w in level for b in blocks if len(w) + len(b) <= longest}
        words = words | level
    images = {}
    for word in sorted(words)[k::chunks]:
        if len(word) > 3 and md.value(word) is not None:
            ctx.fam('words of runs ' + kind, states=1)
            one(ctx, kind, n + 1, md, *tools(kind), word, images, kind == 'plain')
        md.memo = {}


def tableauwords(ctx, kind, shape, k, part, parts):
    """reduced words close to the reading words of large tableaux"""
    md = Model(kind)
    name = {'plain': 'hecke', 'inv': 'orthogonal', 'fpf': 'symplectic'}[kind]
    images = {}
    words = {w for base in insertrun.bases(name, shape) for w in insertrun.neighbours(base, range(1, max(base) + 2), k, k)}
    for word in sorted(words)[part::parts]:
        if md.value(word) is not None:
            ctx.fam('words of large tableaux ' + kind, states=1)
            one(ctx, kind, max(word) + 1, md, *tools(kind), word, images, False)
        md.memo = {}


def one(ctx, kind, N, md, bump, insert, push, lib, word, images, transpositions=True):
    w = md.value(word)
    ys = {}
    for i in range(len(word)):
        y = md.value(word[:i] + word[i + 1:])
        if y is not None:
            ys.setdefault(y, []).append(i)
    how0 = '%s bump of %s' % (kind, word)
    results = {}
    recording = insert(word)[1] if ys else None
    for y in sorted(ys):
        how = '%s at %s' % (how0, y)
        ctx.case = how
        if len(ys[y]) != 1:
            ctx.violate(how, 'model error: two deletable positions')
        # the model's run
        cur, i = word, ys[y][0]
        steps = 0
        while True:
            new = cur[:i] + (cur[i] + 1,) + cur[i + 1:]
            steps += 1
            if md.value(new) is not None:
                cur = new
                got = push(word, i) if steps == 1 else None
                if got is not None and got != (new, None):
                    ctx.violate(how + ' push', 'wrong first step', implementation=got, model=(new, None))
                break
            c = [j for j in md.positions(new, y) if j != i]
            if len(c) > 1 or (not c and kind != 'fpf'):
                ctx.violate(how, 'model error: no unique marked position')
            j = c[0] if c else i
            if steps == 1:
                got = push(word, i)
                if got != (new, j):
                    ctx.violate(how + ' push', 'wrong first step', implementation=got, model=(new, j))
            cur, i = new, j
        results[y] = cur
        ctx.fam('bumps ' + kind, transitions=steps, traces=1)
        got = bump(word, lib(y, N))
        if got != cur:
            ctx.violate(how, 'wrong word', implementation=got, model=cur)
        # monitored consequences
        if [a > b for a, b in zip(got, got[1:])] != [a > b for a, b in zip(word, word[1:])]:
            ctx.violate(how, 'descents changed', implementation=got)
        if any(not 0 <= a - b <= (2 if kind == 'fpf' else 1) for a, b in zip(got, word)):
            ctx.violate(how, 'a letter moved too far', implementation=got)
        if insert(got)[1] != recording:
            ctx.violate(how, 'recording tableau changed', implementation=got)
        key = (y, got)
        if images.setdefault(key, word) != word:
            ctx.violate(how, 'two words bump to the same word', one=images[key], two=word)
        m = max(max(got) + 1, len(y), len(w))
        m += m % 2 if kind == 'fpf' else 0
        yy = lib(y, m).oneline
        star = tuple(m + 1 - a for a in reversed(M.pad(yy, m)))
        back = bump(tuple(m - a for a in got), P(*star))
        if tuple(m - a for a in back) != word:
            ctx.violate(how, 'not undone by the opposite bump', implementation=tuple(m - a for a in back))
        ctx.outcome((word, got))
    # elements that cannot be reached by deleting a letter leave the word unchanged
    for other in ((2, 1), (1, 3, 2), (3, 2, 1)) if kind != 'fpf' else ((2, 1), (3, 4, 1, 2), (4, 3, 2, 1)):
        o = md.trim(other)
        if o not in ys and kind == 'fpf':
            got = bump(word, lib(o, max(N, 4)))
            if got != word:
                ctx.violate(how0 + ' at %s' % (o,), 'the word changed although no letter can be deleted', implementation=got)
        elif o not in ys and kind == 'plain' and len(M.trim(other)) and len(word) > 1:
            if all(P.from_word(word[:i] + word[i + 1:]).oneline != o for i in range(len(word))):
                got = bump(word, P(*other))
                if got != word:
                    ctx.violate(how0 + ' at %s' % (o,), 'the word changed although no letter can be deleted', implementation=got)
    # the form with a transposition
    n = max(len(w), 2)
    for a in range(1, n + 1) if transpositions else ():
        for b in range(a + 1, n + 1):
            t = list(range(1, n + 1))
            t[a - 1], t[b - 1] = b, a
            t = tuple(t)
            allowed = set()
            if kind == 'plain':
                y = M.trim(M.mul(M.pad(w, n), t))
                allowed = {results[y]} if y in results else {word}
            else:
                for y in results:
                    if connected(md, kind, w, y, t):
                        allowed.add(results[y])
                if not allowed:
                    allowed = {word}
            ctx.fam('bumps ' + kind, transitions=1, traces=1)
            how = '%s bump of %s at (%d %d)' % (kind, word, a, b)
            ctx.case = how
            got = bump(word, a, b)
            if got not in allowed:
                ctx.violate(how, 'wrong word', implementation=got, model=sorted(allowed))


ATOMS = {}


def atoms(md, kind, z):
    """all products of reduced words of z (as plain permutations)"""
    key = (kind, z)
    if key not in ATOMS:
        out = set()
        if not z:
            out.add(())
        n = len(z)
        for i in range(1, n):
            if z[i - 1] > z[i]:
                v = M.left(M.right(z, i), i)
                if v == z:
                    if kind == 'fpf':
                        continue
                    v = M.right(z, i)
                v = md.trim(v)
                for a in atoms(md, kind, v):
                    out.add(M.trim(M.right(M.pad(a, n), i)))
        ATOMS[key] = out
    return ATOMS[key]


def connected(md, kind, w, y, t):
    ay = atoms(md, kind, y)
    return any(M.trim(M.mul(M.pad(a, len(t)), t)) in ay for a in atoms(md, kind, w))


def run(ctx, name, args):
    globals()[name](ctx, *args)
    ctx.sample('%s %s: last case %s' % (name, args, ctx.case))
