"""Reference (signed) permutations: one-line tuples of a fixed length N, moved along Cayley-graph edges.

Everything here is defined by breadth-first search from the identity, not by inversion formulas.
"""
import itertools


def ident(N):
    return tuple(range(1, N + 1))


def at(w, i):
    if i == 0:
        return 0
    if i > 0:
        return w[i - 1] if i <= len(w) else i
    return -w[-i - 1] if -i <= len(w) else i


def mul(u, v):
    """(u v)(i) = u(v(i))"""
    N = max(len(u), len(v))
    return tuple(at(u, at(v, i)) for i in range(1, N + 1))


def inv(w):
    out = [0] * len(w)
    for i, a in enumerate(w):
        out[abs(a) - 1] = (i + 1) if a > 0 else -(i + 1)
    return tuple(out)


def gen(i, N):
    w = list(range(1, N + 1))
    if i == 0:
        w[0] = -1
    else:
        w[i - 1], w[i] = i + 1, i
    return tuple(w)


def right(w, i):
    """w s_i"""
    w = list(w)
    if i == 0:
        w[0] = -w[0]
    else:
        w[i - 1], w[i] = w[i], w[i - 1]
    return tuple(w)


def left(w, i):
    """s_i w"""
    if i == 0:
        return tuple(-a if abs(a) == 1 else a for a in w)
    out = []
    for a in w:
        b = abs(a)
        if b == i:
            b = i + 1
        elif b == i + 1:
            b = i
        out.append(b if a > 0 else -b)
    return tuple(out)


def trim(w):
    w = tuple(w)
    while w and w[-1] == len(w):
        w = w[:-1]
    return w


def pad(w, N):
    return tuple(w) + tuple(range(len(w) + 1, N + 1))


class Far(dict):
    """distances; an element that was not reached is further away than every element that was"""

    def __missing__(self, w):
        return 10 ** 9


class Group:
    """The Cayley graph of S_N (or its signed version): all elements (or only those within a radius) with their distance from the identity."""

    def __init__(self, N, signed=False, radius=None):
        self.N, self.signed, self.radius = N, signed, radius
        self.gens = list(range(0 if signed else 1, N))
        self.len = {ident(N): 0} if radius is None else Far({ident(N): 0})
        self.edges = 0
        level = [ident(N)]
        self.levels = [level]
        while level and (radius is None or len(self.levels) <= radius):
            new = []
            for w in level:
                for i in self.gens:
                    v = right(w, i)
                    self.edges += 1
                    if v not in self.len:
                        self.len[v] = self.len[w] + 1
                        new.append(v)
            level = new
            if level:
                self.levels.append(level)

    def rdes(self, w):
        return [i for i in self.gens if self.len[right(w, i)] < self.len[w]]

    def ldes(self, w):
        return [i for i in self.gens if self.len[left(w, i)] < self.len[w]]

    def word(self, w):
        out = []
        while True:
            d = self.rdes(w)
            if not d:
                return tuple(reversed(out))
            out.append(d[-1])
            w = right(w, d[-1])

    def act(self, w, i):
        """w o s_i (Demazure)"""
        v = right(w, i)
        return v if self.len[v] > self.len[w] else w

    def demazure(self, u, v):
        for i in self.word(v):
            u = self.act(u, i)
        return u

    def conj(self, z, i):
        """s_i o z o s_i for an involution z"""
        if self.len[right(z, i)] < self.len[z]:
            return z
        v = left(right(z, i), i)
        return right(z, i) if v == z else v


class Lengths(dict):
    """Coxeter lengths by counting inversions (compared with distances in complete Cayley graphs by Wide.validate)."""

    def __missing__(self, w):
        n = len(w)
        self[w] = sum((w[i] > w[j]) + (-w[i] > w[j]) for i in range(n) for j in range(i + 1, n)) + sum(a < 0 for a in w)
        return self[w]

    def __contains__(self, w):
        return True


class Wide(Group):
    """A group too large to be explored completely: lengths are counted instead of searched."""

    def __init__(self, N, signed=False, gens=None):
        self.N, self.signed = N, signed
        self.gens = list(range(0 if signed else 1, N)) if gens is None else sorted(gens)
        self.len = Lengths()
        self.edges = 0

    @staticmethod
    def validate():
        for N, signed in ((6, False), (4, True)):
            G = Group(N, signed)
            L = Lengths()
            if any(L[w] != d for w, d in G.len.items()):
                raise AssertionError('model: inversion counts are not distances')


def weak(group, start, allowed=None, top=None):
    """Involution weak order from start (up to a rank): states with rank, and predecessor edges (rank-increasing moves)."""
    rank = {start: 0}
    pre = {start: []}
    level = [start]
    while level and (top is None or rank[level[0]] < top):
        new = []
        for z in level:
            for i in group.gens:
                if allowed is not None and not allowed(z, i):
                    continue
                v = group.conj(z, i)
                if v == z or v not in group.len:
                    continue
                if v not in rank:
                    rank[v] = rank[z] + 1
                    pre[v] = []
                    new.append(v)
                assert rank[v] == rank[z] + 1
                pre[v].append((z, i))
        level = new
    return rank, pre


def minfpf(N):
    return tuple(i + 1 if i % 2 else i - 1 for i in range(1, N + 1))


def fpf_allowed(z, i):
    return z[i - 1] != i + 1


def all_words(pre, z, memo):
    """all minimal words reaching z along the predecessor edges"""
    if z not in memo:
        if not pre[z]:
            memo[z] = {()}
        else:
            out = set()
            for y, i in pre[z]:
                for w in all_words(pre, y, memo):
                    out.add(w + (i,))
            memo[z] = out
    return memo[z]
