"""Unpriming the diagonal of shifted marked set-valued tableaux."""
import hashlib
from mc import ref
from insertion import InsertionAlgorithm
from tableaux import Tableau

ID = 'C26'
RULE = ('all semistandard shifted marked set-valued tableaux (primes allowed on the diagonal) of every strict shape within the bounds, found by depth-first search over '
        'partial fillings; the library\'s unpriming is applied to each and the result checked against the definition of its codomain; collisions are searched among all '
        'images of one shape')
ASSUMPTIONS = ['alphabets and shapes within the stated bounds']


def semistandard(d, cells):
    """d: cell -> sorted tuple of letters on exactly the given cells; each a set of letters"""
    if set(d) != set(cells) or any(not v or len(set(v)) < len(v) for v in d.values()):
        return False
    for (i, j), v in d.items():
        hi = max(v, key=ref.key)
        for other, ok in (((i, j + 1), ref.ok_right), ((i + 1, j), lambda a, b: ref.ok_below(a, b, True))):
            if other in d and not ok(hi, min(d[other], key=ref.key)):
                return False
    return True


def normal(v):
    """a diagonal box is normal if its letters are unprimed, except possibly its largest letter, which is then larger than the others in absolute value"""
    primed = [-x for x in v if x < 0]
    rest = [x for x in v if x > 0]
    return not primed or len(v) == 1 or (len(primed) == 1 and primed[0] > max(rest, default=0))


def weight(d):
    return tuple(sorted(abs(x) for v in d.values() for x in v))


def shape(d):
    rows = {}
    for i, j in d:
        rows[i] = rows.get(i, 0) + 1
    return tuple(rows[i] for i in sorted(rows))


def jobs(tier):
    q = tier == 'quick'
    size = {0: 4, 1: 9 if q else 11, 2: 7 if q else 9, 3: 6 if q else 7, 4: 4 if q else 5, 5: 2 if q else 3}
    ans = []
    for n, top in size.items():
        for mu in ref.partitions_upto(top, True):
            ans.append((n ** sum(mu), 'shape', (n, mu)))
    # the same tableaux written in other letters
    for n, top, alphabets in ((1, 6, ((10,), (100,))), (2, 6, ((9, 10), (2, 11), (10, 11), (99, 100))), (3, 3 if q else 4, ((1, 2, 10), (8, 9, 10), (9, 10, 11), (2, 19, 100))),
                              (4, 3, ((1, 9, 10, 11), (2, 10, 20, 100))), (5, 2, ((8, 9, 10, 11, 12),))):
        for letters in alphabets:
            for mu in ref.partitions_upto(top, True):
                if len(mu) < 2 or sum(mu) < 4 or n < 3:
                    ans.append((n ** sum(mu), 'shape', (n, mu, letters)))
    return ans


def shape_class(ctx, n, mu, letters=None):
    cells = ref.boxes(mu, (), True)
    count = [0, 0]
    fills = ref.fillings(cells, n, marked=True, setvalued=True, counter=count)
    if letters:
        fills = [{c: tuple(letters[abs(x) - 1] * (1 if x > 0 else -1) for x in v) for c, v in d.items()} for d in fills]
    ctx.fam('tableaux n=%d%s' % (n, ' other letters' if letters else ''), states=count[0], transitions=count[1], traces=len(fills))
    seen = {}
    failing = []
    for d in fills:
        d = {c: tuple(sorted(v)) for c, v in d.items()}
        t = Tableau(d)
        key = 'unprime_diagonal of %s' % sorted(d.items())
        u = InsertionAlgorithm.unprime_diagonal(t)
        if t.boxes != d:
            ctx.violate(key, 'the argument was changed', implementation=t.boxes)
        if type(u) != Tableau:
            ctx.violate(key, 'not a tableau', implementation=u)
            continue
        e = {c: tuple(sorted(v)) for c, v in u.boxes.items()}
        nu = shape(e)
        out = dict(implementation=sorted(e.items()))
        if weight(e) != weight(d):
            ctx.violate(key, 'the weight changed', **out)
        if any(not normal(v) for (i, j), v in e.items() if i == j):
            ctx.violate(key, 'a diagonal box of the result is not normal', **out)
        if all(normal(v) for (i, j), v in d.items() if i == j) and e != d:
            ctx.violate(key, 'a tableau with normal diagonal was changed', **out)
        if InsertionAlgorithm.unprime_diagonal(u) != u:
            ctx.violate(key, 'unpriming twice differs from unpriming once', **out)
        why = []
        if len(nu) != len(mu) or any(b - a not in (0, 1) for a, b in zip(mu, nu)) or any(a <= b for a, b in zip(nu, nu[1:])):
            why.append('the shape did not grow by a vertical strip in the same rows')
        elif not semistandard(e, ref.boxes(nu, (), True)):
            why.append('the result is not semistandard')
        f = frozenset(e.items())
        if f in seen:
            why.append('the same result as for another tableau of the shape')
        seen[f] = d
        for w in why:
            failing.append((sorted(d.items()), w, sorted(e.items())))
        ctx.outcome(nu)
    ctx.sample('n=%d mu=%s: %d tableaux' % (n, mu, len(fills)))
    if failing:
        # one report per shape, naming the exact set of failing tableaux and their images
        failing.sort()
        h = hashlib.md5(repr(failing).encode()).hexdigest()[:12]
        ctx.violate('unprime_diagonal n=%d mu=%s: %d failures, digest %s' % (n, mu, len(failing), h), failing[0][1], first=failing[0], last=failing[-1])


def run(ctx, name, args):
    shape_class(ctx, *args)
