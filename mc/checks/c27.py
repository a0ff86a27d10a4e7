"""Printed and drawn output, parsed back and compared with the object it shows."""
import contextlib
import io
import itertools
import os
import re
import shutil
import tempfile
from mc import ref
import crystals
import tableaux
from crystals import (WordCrystalGenerator, TableauCrystalGenerator, ShiftedCrystalGenerator, URTShiftedCrystalGenerator,
                      MRTShiftedCrystalGenerator, MRT_Symplectic_ShiftedCrystalGenerator)
from partitions import Partition
from permutations import Permutation
from polynomials import Polynomial
from symmetric import SymmetricMonomial as SM, SymmetricPolynomial as SP
from vectors import Vector
from vst import ValuedSetTableau
from words import Word

ID = 'C27'
RULE = ('all polynomials, vectors and symmetric polynomials with up to three terms over an alphabet of monomials and coefficients; all words up to a length for wiring '
        'diagrams, whose wires are followed strand by strand; all permutations of a rank; all partitions; all valued-set tableaux; all crystals of small shapes: every text is '
        'parsed by an independent reader and compared with the object')
ASSUMPTIONS = ['sizes within the stated bounds', 'the external program dot is replaced by a recorder; files are written to a scratch directory']


# ------------------------------------------------------------------ polynomials

TERM = re.compile(r'(\d*)((?:β|x_\d+|y_\d+|x|y)(?:\^-?\d+)?(?: (?:β|x_\d+|y_\d+|x|y)(?:\^-?\d+)?)*)?$')


def signed_terms(text):
    """split 'a - b + c' into signed pieces, respecting parentheses and brackets"""
    sign, out, depth, cur = 1, [], 0, ''
    if text.startswith('-'):
        sign, text = -1, text[1:]
    k = 0
    while k < len(text):
        if depth == 0 and text[k:k + 3] in (' + ', ' - '):
            out.append((sign, cur))
            sign, cur = (1 if text[k + 1] == '+' else -1), ''
            k += 3
            continue
        depth += text[k] in '(['
        depth -= text[k] in ')]'
        cur += text[k]
        k += 1
    return out + [(sign, cur)]


def variable(name):
    if name == 'β':
        return 0
    if name == 'x':
        return Polynomial.MAX_INT
    if name == 'y':
        return Polynomial.MIN_INT
    return int(name[2:]) * (1 if name[0] == 'x' else -1)


def parse_polynomial(text):
    if text == '0':
        return {}
    out = {}
    for sign, t in signed_terms(text):
        m = TERM.match(t)
        if not m or t == '':
            return None
        exps = {}
        for f in (m.group(2) or '').split():
            v, _, e = f.partition('^')
            if variable(v) in exps:
                return None
            exps[variable(v)] = int(e or 1)
        k = tuple(sorted(exps.items()))
        if k in out:
            return None
        out[k] = sign * int(m.group(1) or 1)
    return out


def build(terms):
    f = Polynomial()
    for k, c in terms:
        m = Polynomial.one() if hasattr(Polynomial, 'one') else Polynomial.monomial(1, 0)
        for i, e in k:
            m = m * Polynomial.monomial(i, e)
        f = f + m * c
    return f


EXPS = [(), ((0, 1),), ((0, 2),), ((1, 1),), ((2, 1),), ((12, 1),), ((1, 3),), ((1, 10),), ((1, -1),), ((-1, 1),), ((-12, 2),), ((0, 1), (1, 1)), ((1, 1), (2, 2)),
        ((-1, 1), (0, 3), (11, 1)), ((1, 1), (2, -2)), ((Polynomial.MAX_INT, 1),), ((Polynomial.MIN_INT, 2), (1, 1))]


def polynomials(ctx, first, size, coeffs):
    pool = EXPS
    for rest in itertools.combinations(range(first + 1, len(pool)), size - 1):
        for cs in itertools.product(coeffs, repeat=size):
            want = {tuple(sorted(pool[i])): c for i, c in zip((first,) + rest, cs)}
            f = build(want.items())
            ctx.fam('polynomials with %d terms' % size, states=1, transitions=size, traces=1)
            got = parse_polynomial(repr(f))
            if got != want:
                ctx.violate('repr of %s' % (sorted(want.items()),), 'the text does not show the polynomial', implementation=repr(f), model=want)
            if str(f) != repr(f):
                ctx.violate('str of %s' % (sorted(want.items()),), 'str and repr differ')


# ------------------------------------------------------------------ vectors

COEFFS = [1, -1, 2, -13] + [{((0, 1),): 1}, {((0, 1),): -1}, {((0, 2),): 3}, {((1, 1),): -2}, {(): 1, ((0, 1),): 1}, {(): -1, ((0, 1),): -1}, {(): 1, ((1, 1),): -2, ((0, 1),): 1}, {(): 5}, {(): -1}]


def coefficient(c):
    return c if type(c) == int else build(c.items())


def value(c):
    return {(): c} if type(c) == int else c


def parse_vector(text, keys):
    """keys: printed form -> key; returns {key: coefficient}"""
    if text == '0':
        return {}
    out = {}
    for sign, t in signed_terms(text):
        hit = [k for k in keys if t == k or (k and t.endswith('*' + k))]
        if len(hit) != 1:
            if '' not in keys:
                return None
            hit = ['']
        c = t[:len(t) - len(hit[0])] if hit[0] else t
        c = c[:-1] if c.endswith('*') else c
        p = {(): 1} if c == '' else parse_polynomial(c[1:-1] if c.startswith('(') else c)
        if p is None or keys[hit[0]] in out:
            return None
        out[keys[hit[0]]] = {k: sign * v for k, v in p.items()}
    return out


def vectors(ctx, size, kind, part, parts):
    if kind == 'words':
        keys = [('a', 1), ('b',), (1, 2, 3)]
        make = lambda d: Vector(d)
        show = {repr(k): k for k in keys}
    elif kind == 'printer':
        keys = [('a',), ('b', 'c'), ()]
        make = lambda d: Vector(d, printer=lambda k: ''.join(k))
        show = {''.join(k): k for k in keys}
    else:
        n = 3
        keys = [SM(n, mu) for mu in ((), (1,), (2, 1), (1, 1, 1), (10, 2))]
        make = lambda d: SP(d)
        show = {('m[%s;%d]' % (','.join(map(str, k.mu)), n) if k.mu else '1'): k for k in keys}
        for k, v in show.items():
            ctx.equal('repr of a monomial %s' % (v.mu,), repr(v), k)
    for num, ks in enumerate(itertools.combinations(keys, size)):
        if num % parts != part:
            continue
        for cs in itertools.product(COEFFS, repeat=size):
            d = {k: coefficient(c) for k, c in zip(ks, cs)}
            want = {k: value(c) for k, c in zip(ks, cs)}
            v = make(d)
            ctx.fam('vectors (%s)' % kind, states=1, transitions=size, traces=1)
            text = repr(v)
            got = parse_vector(text, show)
            if got != want:
                ctx.violate('repr of a vector (%s) %s' % (kind, [(show_key(k), c) for k, c in zip(ks, cs)]), 'the text does not show the vector', implementation=text, model=want)
            w = make(dict(reversed(list(d.items()))))
            if w != v or hash(w) != hash(v) or repr(w) != text:
                ctx.violate('equality of a vector (%s) %s' % (kind, [(show_key(k), c) for k, c in zip(ks, cs)]), 'equal vectors differ in hash or text')
            if kind == 'symmetric':
                got = {m: c for m, c in v.serialize()}
                if len(v.serialize()) != len(d) or got != {(k.mu, 3): c for k, c in d.items()} or list(v.serialize()) != sorted(v.serialize(), key=lambda x: x[0]):
                    ctx.violate('serialize %s' % text, 'wrong serialization', implementation=v.serialize())


def show_key(k):
    return k.mu if isinstance(k, SM) else k


# ------------------------------------------------------------------ wiring diagrams

def parse_wiring(text, n, length, fpf=False):
    """returns (levels, labels, arcs): levels[t] for the t-th letter (1-based, bottom to top) is the set of crossings"""
    lines = text.split('\n')
    assert lines[0] == '' and lines[-1] == '', 'blank lines'
    assert lines[-2].split() == [str(i) for i in range(1, n + 1)], 'numbers'
    assert lines[-3] == ''
    body = lines[1:-3]
    assert len(body) == 1 + 4 * length + (3 if fpf else 0), 'number of lines'
    assert body[0] == '█   ' * n, 'top bullets'
    levels = {}
    for t in range(length):
        four = body[1 + 4 * t:5 + 4 * t]
        level = length - t
        wide = [x[:4 * n].ljust(4 * n) for x in four]
        labels = four[1][4 * n:]
        cross = [i for i in range(1, n) if wide[1][4 * i - 2] == '╳']
        vert = [i for i in range(1, n + 1) if wide[1][4 * i - 4] == '│']
        for i in cross:
            assert [w[4 * i - 4:4 * i + 4] for w in wide[:3]] == [' ╲ ╱    ', '  ╳     ', ' ╱ ╲    '], 'crossing'
        for r in (0, 2):
            assert [i for i in range(1, n + 1) if wide[r][4 * i - 4] == '│'] == vert, 'broken wire'
        arcs = [i for i in range(1, n) if wide[3][4 * i - 4:4 * i + 1] == '╰───╯']
        dots = [i for i in range(1, n + 1) if wide[3][4 * i - 4] == '█']
        levels[level] = (cross, vert, arcs, dots, labels)
    tail = body[1 + 4 * length:]
    return levels, tail


def wiring(ctx, n, length, none):
    """reading the crossings from bottom to top gives back the word; every wire is followed from bottom to top"""
    for w in itertools.product(range(1, n), repeat=length) if not none else itertools.product((None,) + tuple(range(1, n)), repeat=length):
        m = max([a for a in w if a is not None], default=0) + 1
        for labels in (None, ['', 'p', 'q', 'r', 's', 't', 'u', 'v'][:length + 1]):
            key = 'wiring_diagram %s labels %s' % (w, labels)
            ctx.case = key
            ctx.fam('wiring diagrams', states=1, transitions=length, traces=1)
            text = Word.wiring_diagram(w, labels) if labels else Word.wiring_diagram(w)
            try:
                levels, tail = parse_wiring(text, m, length)
            except AssertionError as e:
                ctx.violate(key, 'cannot be read: %s' % e, implementation=text)
                continue
            for t, a in enumerate(w, 1):
                cross, vert, arcs, dots, label = levels[t]
                want = ([a] if a else [], [i for i in range(1, m + 1) if a is None or i not in (a, a + 1)], [], list(range(1, m + 1)), str(t) + (': ' + labels[t] if labels else ''))
                if (cross, vert, arcs, dots, label) != want:
                    ctx.violate(key, 'letter %d is drawn wrongly' % t, implementation=(cross, vert, arcs, dots, label), model=want)


def demazure(start, word):
    """involution words by letters, as dictionaries; None if not reduced"""
    z = dict(start)
    for a in word:
        f = lambda x: a + 1 if x == a else a if x == a + 1 else x
        if z.get(a, a) > z.get(a + 1, a + 1):
            return None
        if z.get(a, a) == a and z.get(a + 1, a + 1) == a + 1:
            z[a], z[a + 1] = a + 1, a
        else:
            z = {f(k): f(v) for k, v in z.items()}
    return z


def follow(levels, m, length, top, bottom):
    """from a position at the top down to an arc or the bottom and up again"""
    pos, t = top, length
    while t >= 1:
        cross, vert, arcs, dots, _ = levels[t]
        if pos - 1 in cross:
            pos -= 1
        elif pos in cross:
            pos += 1
        elif pos not in vert:
            return None
        turn = [i for i in arcs if pos in (i, i + 1)]
        if turn:
            pos = 2 * turn[0] + 1 - pos
            break
        if pos not in dots and t > 1:
            return None
        t -= 1
    else:
        t = 0
        pos = bottom(pos)
        if pos is None:
            return None
    # and up again, through the level where the wire turned
    for s in range(max(t, 1), length + 1):
        if t and s == t:
            cross, vert = levels[s][0], levels[s][1]
            if pos in vert:
                continue
        cross, vert, arcs, dots, _ = levels[s]
        if pos - 1 in cross:
            pos -= 1
        elif pos in cross:
            pos += 1
        elif pos not in vert:
            return None
    return pos


def travel(word, p):
    """the position at the top of the wire that starts at the bottom in position p"""
    for a in word:
        p = a + 1 if p == a else a if p == a + 1 else p
    return p


def involution_wiring(ctx, n, length, fpf):
    for w in itertools.product(range(1, n), repeat=length):
        top = max(w, default=0) + 1
        m = top + (top % 2 if fpf else 0)
        z = demazure({i: i + (1 if i % 2 else -1) for i in range(1, m + 1)} if fpf else {i: i for i in range(1, m + 1)}, w)
        if z is None:
            continue
        f = Word.fpf_involution_wiring_diagram if fpf else Word.involution_wiring_diagram
        labels = [''] + ['L%d' % i for i in range(1, length + 1)]
        for lab in (None, labels):
            key = '%s %s labels %s' % (f.__name__, w, lab)
            ctx.case = key
            ctx.fam('fpf involution wirings' if fpf else 'involution wirings', states=1, transitions=length + m, traces=1)
            text = f(w, lab) if lab else f(w)
            try:
                levels, tail = parse_wiring(text, m, length, fpf)
            except AssertionError as e:
                ctx.violate(key, 'cannot be read: %s' % e, implementation=text)
                continue
            if fpf:
                last = tail[2][:4 * m].ljust(4 * m)
                pairs = all(last[4 * i:4 * i + 8] in ('╰───╯   ', '█   █   ') for i in range(0, m, 2))
                if not pairs or any(x != '│   ' * m for x in tail[:2]):
                    ctx.violate(key, 'the bottom pairs are drawn wrongly', implementation=text)
                    continue
                bottom = lambda p: p + 1 if p % 2 else p - 1
                cyc = [sorted(travel(w, p) for p in (i, i + 1)) for i in range(1, m, 2)]
                arcs = [any(c[0] < d[0] < c[1] for d in cyc) for c in cyc]
                if [last[8 * i] == '╰' for i in range(m // 2)] != arcs:
                    ctx.violate(key, 'an arc is drawn for a cycle without, or is missing for a cycle with, another cycle starting between its ends', implementation=last, model=arcs)
            else:
                bottom = lambda p: p
            for t, a in enumerate(w, 1):
                if levels[t][0] not in ([a], []) or levels[t][4] != str(t) + (': ' + lab[t] if lab else ''):
                    ctx.violate(key, 'letter %d is drawn wrongly' % t, implementation=text)
                if (levels[t][2] != [] or levels[t][0] == []) and (levels[t][2] != [a] or levels[t][0]):
                    ctx.violate(key, 'letter %d is neither a crossing nor an arc' % t, implementation=text)
            got = {i: follow(levels, m, length, i, bottom) for i in range(1, m + 1)}
            if got != z:
                ctx.violate(key, 'the wires do not connect the cycles of the involution', implementation=got, model=z, text=text)


# ------------------------------------------------------------------ permutations

def said(f, *args, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = f(*args, **kw)
    assert r is None
    return out.getvalue()


def stars(text, french, sep):
    lines = text.split('\n')
    assert lines[-1] == ''
    lines = lines[:-1]
    if french:
        lines = lines[::-1]
    out = set()
    for i, l in enumerate(lines, 1):
        for j, x in enumerate(l, 1):
            if x == '*':
                out.add((i, j))
            elif x != sep:
                return None
    return out


def cycles(one):
    seen, out = set(), []
    for i in range(1, len(one) + 1):
        c, j = [], i
        while j not in seen:
            seen.add(j)
            c.append(j)
            j = one[j - 1]
        if len(c) > 1:
            out.append(c)
    return out


def rothe(ctx, n):
    rotheof(ctx, n, itertools.permutations(range(1, n + 1)))


def far(n, few):
    """identity, longest element and long cycles of rank n, and their products with one or two transpositions of the chosen numbers"""
    e = tuple(range(1, n + 1))
    out = {e, e[::-1], e[1:] + e[:1], e[-1:] + e[:-1]}
    for _ in range(2):
        for w in list(out):
            for a, b in itertools.combinations(few, 2):
                v = list(w)
                v[a - 1], v[b - 1] = v[b - 1], v[a - 1]
                out.add(tuple(v))
    return sorted(out)


def farrothe(ctx, n, few):
    rotheof(ctx, n, far(n, few))


def farsigned(ctx, n, few):
    signedof(ctx, n, [tuple(-a if i in neg else a for i, a in enumerate(w)) for w in far(n, few) for k in range(3) for neg in itertools.combinations((0, few[1] - 1, n - 1), k)])


def rotheof(ctx, n, perms):
    for one in perms:
        w = Permutation(*one)
        at = lambda i: one[i - 1]
        D = {(i, at(j)) for i in range(1, n + 1) for j in range(i + 1, n + 1) if at(i) > at(j)}
        ctx.fam('permutations of rank %d' % n, states=1, transitions=len(D), traces=1)
        inv = all(at(at(i)) == i for i in range(1, n + 1))
        cells = [(Permutation.rothe_diagram, Permutation.print_rothe_diagram, D)]
        if inv:
            cells += [(Permutation.involution_rothe_diagram, Permutation.print_involution_rothe_diagram, {(i, j) for i, j in D if i >= j}),
                      (Permutation.fpf_rothe_diagram, Permutation.print_fpf_rothe_diagram, {(i, j) for i, j in D if i > j})]
        for get, show, want in cells:
            got = get(w)
            if len(got) != len(want) or set(got) != want:
                ctx.violate('%s %s' % (get.__name__, one), 'wrong diagram', implementation=got, model=sorted(want))
            for french in (False, True):
                for sep in (' ', '.'):
                    text = said(show, w, french=french, sep=sep)
                    if stars(text, french, sep) != want:
                        ctx.violate('%s %s french=%s sep=%r' % (show.__name__, one, french, sep), 'wrong picture', implementation=text, model=sorted(want))
        ctx.equal('code by Rothe diagram %s' % (one,), tuple(w.code()), tuple(sum(1 for i, j in D if i == r) for r in range(1, w.rank + 1)))
        big = len([x for x in range(len(one), 0, -1) if at(x) != x]) and max(x for x in range(1, n + 1) if at(x) != x)
        ctx.equal('repr %s' % (one,), repr(w), ''.join('(%s)' % ', '.join(map(str, c)) for c in cycles(one)) or repr(Permutation()))
        ctx.equal('oneline_repr %s' % (one,), w.oneline_repr(), (',' if big > 9 else '').join(map(str, one[:big] if big else w.oneline)))


def signed(ctx, n):
    signedof(ctx, n, (tuple(a * b for a, b in zip(p, s)) for p in itertools.permutations(range(1, n + 1)) for s in itertools.product((1, -1), repeat=n)))


def signedof(ctx, n, elements):
    for one in elements:
        if one[-1] == n:
            continue
        w = Permutation(*one)
        ctx.fam('signed permutations', states=1, transitions=1, traces=1)
        body = '\\hs '.join(str(a) if a > 0 else '\\bar%d' % -a for a in one)
        ctx.equal('tex %s' % (one,), w.tex(), '$%s$' % body)
        if any(a < 0 for a in one):
            ctx.equal('repr %s' % (one,), repr(w), (',' if n > 9 else '').join(map(str, one)))


def diagrams(ctx, a, b):
    """every set of cells in a window"""
    win = [(i, j) for i in range(1, a + 1) for j in range(1, b + 1)]
    for k in range(len(win) + 1):
        for sub in itertools.combinations(win, k):
            ctx.fam('sets of cells', states=1, transitions=k, traces=1)
            for french in (False, True):
                text = Permutation.print_diagram(sub, french=french, sep='-')
                got = stars(text + '\n', french, '-') if sub else set()
                if got != set(sub) or (not sub and text != ''):
                    ctx.violate('print_diagram %s %s' % (sub, french), 'wrong picture', implementation=text)


# ------------------------------------------------------------------ partitions and matrices

def partitions(ctx, n):
    for mu in ref.partitions_upto(n):
        for nu in (None,) + tuple(ref.subparts(mu)):
            ctx.fam('printed partitions', states=1, transitions=sum(mu), traces=1)
            ctx.equal('print_diagram %s %s' % (mu, nu), said(Partition.print_diagram, mu, nu), '\n' + Partition.printable(mu, nu) + '\n')
    for mu in ref.partitions_upto(n, True):
        for nu in (None,) + tuple(ref.subparts(mu, True)):
            ctx.equal('print_shifted %s %s' % (mu, nu), said(Partition.print_shifted, mu, nu), '\n' + Partition.printable(mu, nu, shifted=True) + '\n')


def growth(ctx, a, b):
    """every 0/1 filling of a rectangle: the printed diagram lists the rows from top to bottom"""
    win = [(i, j) for i in range(1, a + 1) for j in range(1, b + 1)]
    for bits in itertools.product((0, 1), repeat=len(win)):
        s = {c for c, x in zip(win, bits) if x}
        g = Partition.growth_diagram(s)
        ctx.fam('printed growth diagrams', states=1, transitions=len(win), traces=1)
        for arg in (g, s):
            text = said(Partition.print_growth_diagram, arg)
            rows = [[tuple(int(x) for x in re.findall(r'\d+', c)) for c in re.findall(r'\([^)]*\)', l)] for l in text.strip('\n').split('\n')]
            if rows[::-1] != g:
                ctx.violate('print_growth_diagram %s' % sorted(s), 'wrong text', implementation=text, model=g)


def matrices(ctx, m, n, entries):
    for flat in itertools.product(entries, repeat=m * n):
        M = [list(flat[i * n:i * n + n]) for i in range(m)]
        ctx.fam('printed matrices', states=1, transitions=m * n, traces=1)
        lines = said(Vector.print_matrix, M).split('\n')
        rows = [[int(x) for x in l.strip()[1:-1].split(',')] for l in lines[1:-2]]
        if rows != M or len({len(x) for x in lines[1:-2]}) > 1:
            ctx.violate('print_matrix %s' % M, 'wrong text', implementation=lines)


# ------------------------------------------------------------------ valued-set tableaux

def vst(ctx, mu, nu, n):
    for f in ref.fillings(ref.boxes(mu, nu, True), n, marked=True):
        f = {c: v[0] for c, v in f.items()}
        free = [c for c in sorted(f) if f.get((c[0], c[1] + 1) if f[c] > 0 else (c[0] - 1, c[1])) == f[c]]
        for bits in itertools.product((0, 1), repeat=len(free)):
            g = dict.fromkeys(f, 0)
            g.update(zip(free, bits))
            v = ValuedSetTableau(dict(f), g)
            key = 'repr of the valued-set tableau %s' % sorted((c, f[c], g[c]) for c in f)
            ctx.case = key
            ctx.fam('drawn valued-set tableaux', states=1, transitions=len(f), traces=1)
            text = repr(v)
            rows = text.strip('\n').split('\n')[::-1] if f else []
            bad = None
            top = max((i for i, _ in f), default=0)
            right = max((j for _, j in f), default=0)
            if f and (len(rows) != 2 * top + 1 or any(len(r) != 3 * right + 1 for r in rows)):
                bad = 'size of the drawing'
            for i in range(1, top + 1):
                for j in range(1, right + 1):
                    if bad:
                        break
                    body = rows[2 * i - 1][3 * j - 2:3 * j].strip()
                    want = '.' if (i, j) not in f else str(abs(f[i, j])) + ("'" if f[i, j] < 0 else '')
                    if body != want:
                        bad = 'box %d,%d' % (i, j)
            for i in range(1, top + 1):
                for j in range(0, right + 1):
                    if bad:
                        break
                    wall = rows[2 * i - 1][3 * j]
                    open_ = (i, j) in f and f[i, j] > 0 and g[i, j]
                    want = '│' if ((i, j) in f or (i, j + 1) in f) and not open_ else ' '
                    if wall != want:
                        bad = 'wall right of %d,%d' % (i, j)
            for i in range(0, top + 1):
                for j in range(1, right + 1):
                    if bad:
                        break
                    wall = rows[2 * i][3 * j - 2:3 * j]
                    open_ = (i + 1, j) in f and f[i + 1, j] < 0 and g[i + 1, j]
                    want = '──' if ((i, j) in f or (i + 1, j) in f) and not open_ else '  '
                    if wall != want:
                        bad = 'wall above %d,%d' % (i, j)
            if bad:
                ctx.violate(key, 'drawn wrongly: ' + bad, implementation=text)


# ------------------------------------------------------------------ crystal graphs

CRYSTALS = {
    'words': WordCrystalGenerator, 'tableaux': TableauCrystalGenerator, 'shifted': ShiftedCrystalGenerator,
    'urt': URTShiftedCrystalGenerator, 'mrt': MRTShiftedCrystalGenerator, 'mrtsp': MRT_Symplectic_ShiftedCrystalGenerator,
}
EDGE = re.compile(r'^    "([^"]*)" -> "([^"]*)" \[label="(-?\d+)"\];$', re.M)


class Recorder:
    def __init__(self):
        self.calls = []

    def run(self, args, *rest, **kw):
        self.calls.append(list(args))


def dot(ctx, kind, args):
    scratch = tempfile.mkdtemp(prefix='mc-dot-')
    recorder = Recorder()
    crystals.subprocess = recorder
    try:
        for p in ('dot', 'png'):
            for a in ('sets/', 'multisets/'):
                for b in ('symplectic', 'orthogonal', 'urt', 'mrt', 'mrt_sp'):
                    os.makedirs(os.path.join(scratch, p, a + b))
        g = CRYSTALS[kind](*args)
        g.DIRECTORY = scratch + '/'
        g.generate()
        size = len(g)
        labels = [g.node_label(x) for x in range(size)]
        key = '%s%s' % (kind, args)
        if len(set(labels)) != size:
            ctx.violate('node labels ' + key, 'two nodes have the same label')
        for x, label in enumerate(labels):
            if kind == 'words':
                word, record = g[x]
                shown = [[int(a) for a in re.findall(r'\d+', part)] for part in re.findall(r'\(([^()]*)\)', label)]
                model = [[a for a, r in zip(word, record) if r == y] for y in range(1, args[1] + 1)]
            else:
                cells = (g.arrays[x] if kind == 'shifted' else g[x]).boxes
                shown = [[entry.strip('"') for entry in line.split()] for line in label.split('\n') if line.strip()]
                model = [[','.join(str(abs(a)) + ("'" if a < 0 else '') for a in sorted(cells[i, j], key=lambda a: (abs(a), a))) if (i, j) in cells else '.'
                          for j in range(1, max(b for _, b in cells) + 1)] for i in range(1, max(a for a, _ in cells) + 1)] if cells else []
                if tableaux.FRENCH:
                    model.reverse()
            if shown != model:
                ctx.violate('node label %d %s' % (x, key), 'the label does not show the element', implementation=label, model=model)
        want = {(x, y, i) for x in range(size) for i in range(g.rank) for y in [g.f_crystal_operator(x, i)] if y is not None}
        # components by union-find
        root = list(range(size))

        def find(x):
            while root[x] != x:
                x = root[x]
            return x
        for x, y, _ in want:
            root[find(x)] = find(y)
        comps = {}
        for x in range(size):
            comps.setdefault(find(x), set()).add(x)
        comps = sorted(map(sorted, comps.values()))
        if sorted(map(sorted, g.components)) != comps:
            ctx.violate('components ' + key, 'wrong components', implementation=g.components, model=comps)
        ctx.fam('crystal graphs', states=size, transitions=len(want), traces=1 + len(comps))
        named = {}
        for c in recorder.calls:
            if c[0] != 'dot' or c[1] != '-Tpng' or c[3] != '-o' or len(c) != 5:
                ctx.violate('drawing ' + key, 'unexpected command', implementation=c)
            if c[2] in named or c[4] in named.values():
                ctx.violate('drawing ' + key, 'a file name is used twice', implementation=c)
            named[c[2]] = c[4]
        files = [os.path.join(d, x) for d, _, fs in os.walk(scratch) for x in fs]
        if sorted(files) != sorted(named) or len(files) != len(comps) + 1:
            ctx.violate('files ' + key, 'wrong set of graph files', implementation=sorted(files), commands=sorted(named))
        found = []
        for path in files:
            text = open(path).read()
            edges = EDGE.findall(text)
            if text.count('->') - sum(l.count('->') for e in edges for l in e) != len(edges) or not text.startswith('digraph G {') or not text.rstrip().endswith('}'):
                ctx.violate('files ' + key, 'malformed graph file', implementation=text)
            found.append(sorted((labels.index(a), labels.index(b), int(i)) for a, b, i in edges))
        expect = [sorted(want)] + [sorted(e for e in want if e[0] in c) for c in map(set, comps)]
        if sorted(found) != sorted(expect):
            ctx.violate('files ' + key, 'the files do not hold the edges of the whole graph and of each component', implementation=sorted(found), model=sorted(expect))
        ctx.sample('%s: %d nodes, %d edges, %d components' % (key, size, len(want), len(comps)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def drawn(cls, call):
    """the graph files written during call(), as a sorted list of sorted lines, and the commands given"""
    scratch = tempfile.mkdtemp(prefix='mc-dot-')
    recorder = Recorder()
    crystals.subprocess = recorder
    old = cls.DIRECTORY
    try:
        for p in ('dot', 'png'):
            for a in ('sets/', 'multisets/'):
                for b in ('symplectic', 'orthogonal', 'urt', 'mrt', 'mrt_sp'):
                    os.makedirs(os.path.join(scratch, p, a + b))
        cls.DIRECTORY = scratch + '/'
        call()
        files = [os.path.join(d, x) for d, _, fs in os.walk(scratch) for x in fs]
        return sorted(sorted(open(f).read().split('\n')) for f in files), len(recorder.calls), {c[2] for c in recorder.calls} == set(files)
    finally:
        cls.DIRECTORY = old
        shutil.rmtree(scratch, ignore_errors=True)


def dot_all(ctx, kind, n, args):
    """the generators of whole families draw exactly the members with edges"""
    cls = CRYSTALS[kind]
    if kind == 'words':
        members = [(one,) + args for m in (n,) for one in itertools.permutations(range(1, m + 1)) if one[-1] != n]
    else:
        members = [(mu,) + args for mu in (ref.strict_partitions_of(n) if kind == 'shifted' else ref.partitions_of(n)) if kind == 'shifted' or len(mu) <= args[0]]
    want, count = [], 0
    for m in members:
        g = cls(*m)
        if g.edges:
            files, calls, _ = drawn(cls, g.generate)
            want += files
            count += calls
    got, calls, complete = drawn(cls, lambda: cls.all(n, *args))
    key = '%s.all%s' % (cls.__name__, (n,) + args)
    if got != sorted(want) or calls != count or not complete:
        ctx.violate(key, 'the files are not those of the crystals with edges', implementation=(len(got), calls), model=(len(want), count))
    ctx.fam('families of crystal graphs', states=len(members), transitions=len(want), traces=len(members))


def jobs(tier):
    q = tier == 'quick'
    ans = []
    for k in (1, 2, 3):
        for first in range(len(EXPS)):
            ans.append((10 ** k, 'polynomials', (first, k, (1, -1, 2, -10) if k < 3 else (1, -1) if q else (1, -1, 2, -3))))
    for k in (0, 1, 2, 3):
        for kind in ('words', 'printer', 'symmetric'):
            parts = 5 if k == 3 and kind == 'symmetric' else 1
            for part in range(parts):
                ans.append((10 ** k, 'vectors', (k, kind, part, parts)))
    for n, L in ((2, 5), (3, 5), (4, 4), (5, 3), (11, 2)) if q else ((2, 7), (3, 7), (4, 6), (5, 4), (12, 2)):
        for k in range(L + 1):
            ans.append((n ** k, 'wiring', (n, k, 0)))
            if n < 5 and k < 5:
                ans.append((n ** k, 'wiring', (n, k, 1)))
    for n, L in ((2, 1), (3, 3), (4, 5), (5, 6), (6, 6), (11, 2)) if q else ((3, 3), (4, 5), (5, 7), (6, 7), (7, 6), (12, 3)):
        for k in range(L + 1):
            for fpf in (False, True):
                ans.append((n ** k, 'involution_wiring', (n, k, fpf)))
    for n in range(1, 7 if q else 8):
        ans.append((n ** 4, 'rothe', (n,)))
    for n in range(1, 5 if q else 6):
        ans.append((50, 'signed', (n,)))
    for n, few in ((8, (1, 4, 8)), (10, (1, 9, 10)), (11, (2, 10, 11)), (12, (1, 2, 6, 12))) if q else ((8, (1, 2, 4, 7, 8)), (10, (1, 5, 9, 10)), (11, (1, 2, 9, 10, 11)), (12, (1, 2, 6, 11, 12))):
        ans.append((90, 'farrothe', (n, few)))
        ans.append((90, 'farsigned', (n, few)))
    ans.append((100, 'diagrams', (3, 3) if q else (3, 4)))
    ans.append((100, 'partitions', (6 if q else 9,)))
    for a, b in ((1, 1), (2, 2), (2, 3), (3, 3)) if q else ((2, 3), (3, 3), (3, 4)):
        ans.append((2 ** (a * b), 'growth', (a, b)))
    for m, n in ((1, 1), (1, 3), (2, 2), (3, 1)):
        ans.append((20, 'matrices', (m, n, (-10, -1, 0, 7, 123))))
    for n, top in ((1, 6), (2, 6), (3, 5), (4, 3)) if q else ((1, 8), (2, 8), (3, 6), (4, 5)):
        for mu in ref.partitions_upto(top, True):
            for nu in ref.subparts(mu, True):
                ans.append((n ** (sum(mu) - sum(nu)), 'vst', (mu, nu, n)))
    for mu in ref.partitions_upto(4 if q else 5):
        for n in (2, 3):
            for sv in (False, True):
                if len(mu) <= n and not (sv and n * sum(mu) > 9):
                    ans.append((200, 'dot', ('tableaux', (mu, n, False, sv))))
    for n in (2, 3) if q else (2, 3, 4):
        for one in itertools.permutations(range(1, n + 1)):
            if one[-1] != n:
                for k in (2, 3):
                    for L in range(1, 5):
                        for dec in (False, True):
                            ans.append((100, 'dot', ('words', (one, k, L, dec))))
    for mu in ref.partitions_upto(3 if q else 4, True):
        for rank in (2, 3):
            for excess in (0, 1):
                if mu:
                    for kind in ('urt', 'mrt', 'mrtsp'):
                        ans.append((300, 'dot', (kind, (mu, rank, excess))))
                    for ms in (False, True):
                        for sp in (False, True):
                            ans.append((300, 'dot', ('shifted', (mu, rank, excess, ms, sp))))
    for n in (2, 3) if q else (2, 3, 4):
        for k in (2, 3):
            for L in (1, 2, 3, 4):
                for dec in (False, True):
                    ans.append((n ** 3, 'dot_all', ('words', n, (k, L, dec))))
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for m in (1, 2, 3):
            if n * m < 10:
                ans.append((300, 'dot_all', ('tableaux', n, (m,))))
        for rank, excess in ((2, 0), (2, 1), (3, 0)) if n < 4 else ((2, 0), (2, 1)):
            for ms in (False, True):
                for sp in (False, True):
                    ans.append((500, 'dot_all', ('shifted', n, (rank, excess, ms, sp))))
    return ans


def run(ctx, name, args):
    globals()[name](ctx, *args)
