"""Reduced words, involution words and atoms against shortest paths in weak order graphs."""
from mc import perms as M
from permutations import Permutation as P

ID = 'C13'
RULE = ('the weak order graph (one vertex per group element, respectively per involution, one edge per length-increasing move) is explored '
        'completely for each stated rank; the words of a vertex are all its shortest paths and must equal, word by word and without repetition, '
        'what the enumerators yield on a first call, on a repeated call and after enumerating all other vertices; atoms are the group elements '
        'whose shortest paths are those words')
ASSUMPTIONS = ['ranks and lengths within the stated bounds']


def jobs(tier):
    q = tier == 'quick'
    ans = []
    for N, signed, cap in [(3, 0, 99), (4, 0, 99), (5, 0, 99), (6, 0, 13 if q else 14), (7, 0, 8 if q else 9), (8, 0, 5 if q else 7), (2, 1, 99), (3, 1, 99), (4, 1, 11 if q else 12), (5, 1, 7 if q else 8)]:
        for order in (0, 1):
            ans.append((N, 'reduced', (N, signed, cap, order)))
    for N, signed, cap in [(3, 0, 99), (4, 0, 99), (5, 0, 99), (6, 0, 99), (7, 0, 12), (8, 0, 9 if q else 10), (2, 1, 99), (3, 1, 99), (4, 1, 99), (5, 1, 8 if q else 9)]:
        for order in (0, 1):
            ans.append((N, 'involution', (N, signed, cap, order)))
    for N, cap in [(0, 99), (2, 99), (4, 99), (6, 99), (8, 99)] + ([] if q else [(10, 8)]):
        for order in (0, 1):
            ans.append((N, 'fpf', (N, cap, order)))
    for N in (1, 2, 3, 4, 5):
        ans.append((N, 'atoms_d', (N,)))
    for N, cap in [(6, 7), (7, 5), (8, 4), (10, 3), (11, 2)] if q else [(6, 99), (7, 8), (8, 6), (10, 4), (11, 3)]:
        ans.append((N * 5, 'atoms_d', (N, cap)))
    # high ranks: everything within a distance of the start
    for order in (0, 1):
        for N, signed, cap in [(9, 0, 5), (10, 0, 4), (11, 0, 4), (12, 0, 3), (7, 1, 5), (10, 1, 4), (11, 1, 3)]:
            ans.append((N * 2, 'reduced', (N, signed, cap + (not q), order)))
        for N, signed, cap in [(9, 0, 5), (10, 0, 4), (11, 0, 3), (12, 0, 3), (7, 1, 4), (10, 1, 3), (11, 1, 2)]:
            ans.append((N * 3, 'involution', (N, signed, cap if q else min(cap + 1, 5), order)))
        ans.append((30, 'fpf', (10, 2 if q else 4, order)))
    return ans


def group(N, signed, radius=None):
    return M.Group(N, bool(signed), radius) if N else M.Group(0)


def words_equal(ctx, how, got, want):
    ctx.case = how
    ctx.fam('word sets', transitions=len(want), traces=1)
    got = list(got)
    if len(got) != len(set(got)):
        ctx.violate(how, 'a word is listed twice', implementation=sorted(got)[:20])
    if set(got) != want:
        ctx.violate(how, 'wrong set of words', missing=sorted(want - set(got))[:5], extra=sorted(set(got) - want)[:5])


def elems_equal(ctx, how, got, want, multi=False):
    ctx.case = how
    ctx.fam('atom sets', transitions=len(want), traces=1)
    got = [g.oneline for g in got]
    want = set(M.trim(w) for w in want)
    if not multi and len(got) != len(set(got)):
        ctx.violate(how, 'an element is listed twice', implementation=sorted(got)[:20])
    if set(got) != want:
        ctx.violate(how, 'wrong set of elements', missing=sorted(want - set(got))[:5], extra=sorted(set(got) - want)[:5])


def queue(elems, rank, cap, order):
    ws = [w for w in sorted(elems, key=lambda w: (rank[w], w)) if rank[w] <= cap]
    return ws if order == 0 else ws[::-1]


def one_of(ctx, what, got, want):
    if tuple(got) not in want:
        ctx.violate(what, 'not one of the words', implementation=got)


def reduced(ctx, N, signed, cap, order):
    G = group(N, signed, cap + 1 if N > 8 or N > 5 and signed else None)
    pre = {w: [(M.right(w, i), i) for i in G.rdes(w)] for w in G.len if G.len[w] <= cap}
    memo = {}
    ws = queue(G.len, G.len, cap, order)
    ctx.fam('weak order', states=len(ws), transitions=sum(len(pre[w]) for w in ws))
    for rounds in (0, 1):
        for w in ws:
            want = M.all_words(pre, w, memo)
            p = P(*w)
            one_of(ctx, 'reduced word of P%s' % (w,), p.get_reduced_word() if rounds == 0 else p.reduced_word, want)
            words_equal(ctx, 'reduced words of P%s (call %d)' % (w, rounds), p.get_reduced_words() if rounds == 0 else p.reduced_words, want)
            ctx.outcome((w, len(want)))
    ctx.sample('%s: %d reduced words' % (ws[-1], len(memo[ws[-1]])))


def involution(ctx, N, signed, cap, order):
    G = group(N, signed, 2 * cap + 2 if N > 8 or N > 5 and signed else None)
    rank, pre = M.weak(G, M.ident(N))
    memo = {}
    ws = queue(rank, rank, cap, order)
    ctx.fam('involution weak order', states=len(ws), transitions=sum(len(pre[w]) for w in ws))
    for rounds in (0, 1):
        for w in ws:
            want = M.all_words(pre, w, memo)
            p = P(*w)
            tag = 'of P%s (call %d)' % (w, rounds)
            if rounds == order:
                atoms = set()
                for word in want:
                    x = M.ident(N)
                    for i in word:
                        x = M.right(x, i)
                    atoms.add(x)
                elems_equal(ctx, 'atoms ' + tag, p.get_atoms(), atoms)
                a = p.get_min_atom()
                if a.oneline not in set(M.trim(x) for x in atoms):
                    ctx.violate('min atom ' + tag, 'not an atom', implementation=a.oneline)
            one_of(ctx, 'involution word ' + tag, p.get_involution_word() if rounds == 0 else p.involution_word, want)
            words_equal(ctx, 'involution words ' + tag, p.get_involution_words() if rounds == 0 else p.involution_words, want)
            ctx.outcome((w, len(want)))
    ctx.sample('%s: %d involution words' % (ws[-1], len(memo[ws[-1]])))


def fpf(ctx, N, cap, order):
    G = group(N, 0, N // 2 + 2 * cap + 2 if N > 8 else None)
    rank, pre = M.weak(G, M.minfpf(N), M.fpf_allowed)
    memo = {}
    ws = queue(rank, rank, cap, order)
    ctx.fam('fpf weak order', states=len(ws), transitions=sum(len(pre[w]) for w in ws))
    for rounds in (0, 1):
        for w in ws:
            want = M.all_words(pre, w, memo)
            p = P(*w)
            tag = 'of P%s (call %d)' % (w, rounds)
            if rounds == order:
                atoms = set()
                for word in want:
                    x = M.ident(N)
                    for i in word:
                        x = M.right(x, i)
                    atoms.add(x)
                elems_equal(ctx, 'fpf atoms ' + tag, p.get_fpf_atoms(), atoms)
            one_of(ctx, 'fpf involution word ' + tag, p.get_fpf_involution_word() if rounds == 0 else p.fpf_involution_word, want)
            words_equal(ctx, 'fpf involution words ' + tag, p.get_fpf_involution_words() if rounds == 0 else p.fpf_involution_words, want)
            ctx.outcome((w, len(want)))
    ctx.sample('%s: %d fpf involution words' % (ws[-1], len(memo[ws[-1]])))


def atoms_d(ctx, N, cap=99):
    """the even-signed group: generators s_1..s_{N-1} and s_0 s_1 s_0"""
    def step(w, i):
        if i:
            return M.right(w, i)
        return M.right(M.right(M.right(w, 0), 1), 0)
    gens = list(range(1, N)) + ([0] if N > 1 else [])
    dist = {M.ident(N): 0}
    level = [M.ident(N)]
    while level and dist[level[0]] < 2 * cap + 2:
        new = []
        for w in level:
            for i in gens:
                v = step(w, i)
                if v not in dist:
                    dist[v] = dist[w] + 1
                    new.append(v)
        level = new

    def lstep(w, i):
        return M.inv(step(M.inv(w), i))
    ctx.fam('even-signed group', states=len(dist), transitions=len(dist) * len(gens))
    # involution weak order with atoms carried along
    e = M.ident(N)
    atoms = {e: {e}}
    level = [e]
    moves = 0
    while level and moves < cap:
        moves += 1
        new = {}
        for z in level:
            for i in gens:
                r = step(z, i)
                if dist[r] < dist[z]:
                    continue
                v = lstep(r, i)
                v = r if v == z else v
                new.setdefault(v, set()).update(step(a, i) for a in atoms[z])
        atoms.update(new)
        level = list(new)
    for z in sorted(atoms):
        p = P(*z)
        for call in (0, 1):
            elems_equal(ctx, 'atoms_d of P%s (call %d)' % (z, call), p.get_atoms_d(), atoms[z], multi=True)
        ctx.outcome(z)


def run(ctx, name, args):
    globals()[name](ctx, *args)
    ctx.sample('%s %s: last case %s' % (name, args, ctx.case))
