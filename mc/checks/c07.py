"""Results do not depend on the history of earlier calls."""
import itertools
import os
import pickle
import sys
from mc import calls
from mc.calls import frozen, outcome, materialize
from tableaux import Tableau
from partitions import Partition
from permutations import Permutation
from polynomials import Polynomial
from symmetric import SymmetricPolynomial, SymmetricMonomial, BETA
from vst import ValuedSetTableau
from vectors import Vector

ID = 'C07'
RULE = ('all call histories of length two (length three in the core families, and whole-alphabet histories in both directions) over alphabets of public calls, each history started in a fresh process; '
        'every result is compared with the result of the same call in a fresh process, and every result handed out earlier is compared with its snapshot; all schedules up to a depth of pairs of '
        'interleaved or abandoned generators; all sequences of method calls on one object')
ASSUMPTIONS = ['alphabets of calls, history lengths and schedule lengths within the stated bounds', 'callers do not mutate values they are given']

OLD = ('functions', 'expansions', 'tableaux', 'partitions', 'permutations', 'insertions', 'vsts', 'crystals')
CORE = ('tableaux', 'partitions', 'permutations', 'functions')


def jobs(tier):
    q = tier == 'quick'
    ans = []
    for name, f in calls.FAMILIES.items():
        n = len(f(False))
        m = len(f(True))
        step = max(10, n // 7) if q else 8
        for a in range(0, n, step):
            ans.append((5 + n / 50., 'pairs', (name, False, a, a + step, (8 if name in OLD else 50) if q else 1)))
        if not q:
            for a in range(0, m, 10):
                ans.append((20, 'pairs', (name, True, a, a + 10, 4)))
        for order in range(4):
            ans.append((5, 'long', (name, name not in ('functions', 'tableaux'), order)))
            if not q and name in ('functions', 'tableaux'):
                ans.append((20, 'long', (name, True, order)))
    for a in range(len(core_calls())):
        ans.append((8, 'triples', (a,)))
    g = len(generators())
    for a in range(g):
        ans.append((20, 'schedules', (a, 4 if q else 6)))
    for a in range(len(objects())):
        ans.append((10, 'methods', (a, 2 if q else 3)))
    return ans


def isolated(f):
    """run f in a fork of this process and return its (picklable) result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(f())
            view = memoryview(data)
            while view:
                view = view[os.write(w, view):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    parts = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        parts.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if status:
        raise RuntimeError('a history died with status %s' % status)
    return pickle.loads(b''.join(parts))


def fresh_results(ctx, entries):
    """result of every call in a process where nothing was called before, and agreement of the spellings of one call"""
    ans = []
    groups = {}
    for group, label, thunk in entries:
        ctx.case = ('fresh', label)
        r = isolated(lambda: outcome(thunk))
        ans.append(r)
        g = groups.setdefault(group, (label, r))
        if g[1] != r:
            ctx.violate('spelling %s' % label, 'the same call written in two ways has two results', first=g[0], result=r, other=g[1])
        ctx.outcome(r)
    return ans


def pairs(ctx, family, full, lo, hi, chunk):
    entries = calls.FAMILIES[family](full)
    firsts = {}
    for k, (group, _, _) in enumerate(entries):
        firsts.setdefault(group, k)
    fresh = fresh_results(ctx, entries) if lo == 0 else [None] * len(entries)
    if chunk > 1:
        second = sorted(firsts.values())
    else:
        second = range(len(entries))
    for k in set(second) | set(range(lo, min(hi, len(entries)))):
        if fresh[k] is None:
            fresh[k] = isolated(lambda: outcome(entries[k][2]))
    for a in range(lo, min(hi, len(entries))):
        if chunk > 1 and a not in second:
            continue
        label, thunk = entries[a][1:]

        def history():
            result = materialize(thunk)
            snap = frozen(result)
            bad = []
            for start in range(0, len(second), chunk):
                def steps():
                    for b in second[start:start + chunk]:
                        r = outcome(entries[b][2])
                        if r != fresh[b]:
                            return b, 'result', r
                        if frozen(result) != snap:
                            return b, 'value', None
                    if outcome(thunk) != fresh[a]:
                        return b, 'repeat', None
                one = isolated(steps)
                if one:
                    bad.append(one)
            return bad

        ctx.case = (label,)
        for b, what, r in isolated(history):
            other = entries[b][1]
            if what == 'result':
                ctx.violate('%s after %s' % (other, label), 'the result of a call depends on earlier calls (the history starts with the call named and has at most %d calls)' % (chunk + 1) + '', implementation=r, fresh=fresh[b])
            if what == 'value':
                ctx.violate('%s changes the value of %s' % (other, label), 'a value handed out earlier was changed by a later call')
            ctx.violate('%s again after %s' % (label, other), 'repeating a call gives another result')
        ctx.fam(family, states=len(second), transitions=2 * len(second), traces=len(second))


def long(ctx, family, full, order):
    """all calls of an alphabet in one process, keeping and finally re-examining every value"""
    entries = calls.FAMILIES[family](full)
    fresh = fresh_results(ctx, entries)
    idx = list(range(len(entries)))
    if order == 1:
        idx.reverse()
    elif order == 2:
        idx = idx[::2] + idx[1::2][::-1]
    elif order == 3:
        idx = idx[len(idx) // 2:] + idx[:len(idx) // 2]
    kept = []
    for step, a in enumerate(idx):
        label, thunk = entries[a][1:]
        ctx.case = ('long', order, step, label)
        r = materialize(thunk)
        f = ('g',) + tuple(sorted((frozen(x) for x in r), key=repr)) if isinstance(r, list) and fresh[a][0] == 'g' else outcome(lambda: r)
        if f != fresh[a] and fresh[a][0] != 'exception':
            ctx.violate('%s after %d other calls (order %d)' % (label, step, order), 'the result of a call depends on earlier calls', implementation=f, fresh=fresh[a])
        kept.append((a, r, frozen(r)))
        if outcome(thunk) != fresh[a]:
            ctx.violate('%s twice after %d other calls (order %d)' % (label, step, order), 'repeating a call gives another result')
        ctx.fam('long histories', states=1, transitions=2, traces=1)
    for a, r, f in kept:
        if frozen(r) != f:
            ctx.violate('value of %s (order %d)' % (entries[a][1], order), 'a value handed out earlier was changed by a later call')


def core_calls():
    """a small alphabet mixing all modules: one entry per group of calls that could share a memo table"""
    ans = []
    want = {
        'functions': ('schur(2, (3, 1), ())', 'schur_s(2, (3, 1), ())', 'schur_q(2, (3, 1), ())', 'schur_p(2, (3, 1), ())', 'stable_grothendieck_p(2, (3, 1), (), None)', 'stable_grothendieck_p(2, (3, 1), (), 3)',
                      'stable_grothendieck_q(2, (3, 1), (), None)', 'stable_grothendieck_s(2, (3, 1), (), None)', 'stable_grothendieck(2, (3, 1), (), None)', 'stable_grothendieck(2, (3, 1), (), 3)',
                      'dual_stable_grothendieck(2, (3, 1), ())', 'dual_stable_grothendieck_p(2, (3, 1), ())', 'dual_stable_grothendieck_q(2, (3, 1), ())',
                      "slow_transposed_dual_stable_grothendieck_p (2, (3, 1), (), '')", "slow_transposed_dual_stable_grothendieck_p (2, (3, 1), (), '+')", "slow_transposed_dual_stable_grothendieck_q (2, (3, 1), (), '')"),
        'tableaux': ('count_semistandard(2, (3, 1), (), False)', 'count_semistandard(2, (3, 1), (), True)', 'semistandard_shifted_marked(2, (3, 1), (), True, False)', 'semistandard_shifted_marked(2, (3, 1), (), False, False)',
                     'semistandard_shifted_marked(2, (3, 1), (), False, True)', 'semistandard_marked_rpp(2, (3, 1), (), True)', 'semistandard_marked_rpp(2, (3, 1), (), False)', 'KOG(2,(2, 1))', 'KLG(2,(2, 1))'),
        'permutations': ('hecke_words (3, 2, None)', 'hecke_words (3, 2, 1)', 'hecke_words (3, 1, None)', 'involution_hecke_words (3, 2, None)', 'involution_hecke_words (3, 2, 1)', 'get_hecke_words ((3, 2, 1), 3, None)',
                         'get_atoms (3, 2, 1)', 'get_reduced_words (3, 2, 1)', 'involution_hecke_levels (3, 2, None, False)', 'symplectic_hecke_words (4, 2, None, True)'),
        'partitions': ('all(4, None, None, False, False)', 'all(4, 2, None, False, False)', 'all(4, None, 2, False, False)', 'all(4, None, None, True, False)', 'rims((3, 1), 1)', 'rims((3, 1), 2)'),
    }
    for family, labels in want.items():
        entries = {}
        for group, label, thunk in calls.FAMILIES[family](False):
            entries.setdefault(label, (group, label, thunk))
        ans += [entries[l] for l in labels]
    return ans


def triples(ctx, a):
    entries = core_calls()
    fresh = fresh_results(ctx, entries)

    def history():
        bad = []
        first = materialize(entries[a][2])
        snap = frozen(first)
        for b in range(len(entries)):
            def second():
                bad = []
                r = materialize(entries[b][2])
                s = frozen(r)
                for c in range(len(entries)):
                    if outcome(entries[c][2]) != fresh[c]:
                        bad.append((b, c, 'result'))
                    if frozen(first) != snap or frozen(r) != s:
                        bad.append((b, c, 'earlier value'))
                return bad
            bad += isolated(second)
        return bad

    for b, c, what in isolated(history):
        ctx.violate('%s after %s and %s' % (entries[c][1], entries[a][1], entries[b][1]), 'the %s depends on earlier calls' % what)
    ctx.fam('triples', states=len(entries), transitions=len(entries) ** 2, traces=len(entries) ** 2)


# ------------------------------------------------------------------ generators

def generators():
    """public generators, as (label, function returning a new generator); the items of one generator are distinct"""
    P, W = Partition, Permutation
    w0, y = Permutation(3, 2, 1), Permutation(2, 1, 4, 3)
    sets = lambda g: (frozenset(l) for l in itertools.islice(g, 4))
    return [
        ('hecke_words(3,3)', lambda: W.hecke_words(3, 3)),
        ('hecke_words(3,2)', lambda: W.hecke_words(3, 2)),
        ('hecke_words(3,3,2)', lambda: W.hecke_words(3, 3, 2)),
        ('hecke_levels(3)', lambda: sets(W.hecke_levels(3))),
        ('involution_hecke_words(2,3)', lambda: W.involution_hecke_words(2, 3)),
        ('involution_hecke_levels(2)', lambda: sets(W.involution_hecke_levels(2))),
        ('involution_hecke_levels(2,hecke=False)', lambda: sets(W.involution_hecke_levels(2, hecke=False))),
        ('symplectic_hecke_words(4,2)', lambda: W.symplectic_hecke_words(4, 2)),
        ('symplectic_hecke_levels(4)', lambda: sets(W.symplectic_hecke_levels(4))),
        ('w0.get_hecke_words(4)', lambda: w0.get_hecke_words(4)),
        ('w0.get_involution_hecke_words(3)', lambda: w0.get_involution_hecke_words(3)),
        ('y.get_symplectic_hecke_words(2)', lambda: y.get_symplectic_hecke_words(2)),
        ('w0.reduced_words', lambda: iter(w0.get_reduced_words())),
        ('w0.involution_words', lambda: iter(w0.get_involution_words())),
        ('y.fpf_involution_words', lambda: iter(y.get_fpf_involution_words())),
        ('w0.bruhat_covers', lambda: iter(w0.bruhat_covers())),
        ('w0.atoms', lambda: iter(w0.get_atoms())),
        ('all(3)', lambda: W.all(3)),
        ('involutions(3,signed)', lambda: W.involutions(3, True)),
        ('fpf_involutions(4)', lambda: W.fpf_involutions(4)),
        ('Partition.all(4)', lambda: P.all(4)),
        ('Partition.all(4,strict)', lambda: P.all(4, strict=True)),
        ('Partition.generate(4)', lambda: P.generate(4)),
        ('Partition.generate(4,2)', lambda: P.generate(4, 2)),
        ('Partition.generate(4,max_row=2)', lambda: P.generate(4, max_row=2)),
        ('Partition.generate(4,even_parts)', lambda: P.generate(4, even_parts=True)),
        ('subpartitions(3,2)', lambda: P.subpartitions((3, 2))),
        ('successors(2,1)', lambda: P.successors((2, 1))),
        ('rims', lambda: iter(P.rims((3, 1)))),
        ('shifted_ribbons(3)', lambda: P.shifted_ribbons(3)),
        ('KOG', lambda: iter(Tableau.KOG(2, (2, 1)))),
        ('KLG', lambda: iter(Tableau.KLG(2, (2, 1)))),
        ('copieri', lambda: iter(Tableau.shifted_setvalued_copieri((3, 1), (1,), True))),
        ('vst', lambda: iter(ValuedSetTableau.all(2, (2, 1)))),
    ]


def counted(items):
    return tuple(sorted((repr(x) for x in items)))


def schedules(ctx, a, depth):
    """every schedule of two generators: each step advances one of them; afterwards both are finished, or both are
    abandoned and both computations are repeated"""
    gens = generators()
    fresh = [isolated(lambda f=f: [frozen(x) for x in f()]) for _, f in gens]
    full = [counted(x) for x in fresh]
    last = object()

    def schedule(b, steps, finish):
        g = [gens[a][1](), gens[b][1]()]
        got = [[], []]
        alive = [True, True]
        for s in steps:
            x = next(g[s], last)
            if x is last:
                alive[s] = False
            else:
                got[s].append(frozen(x))
        if finish:
            for s in (0, 1):
                if alive[s]:
                    got[s] += [frozen(x) for x in g[s]]
            return counted(got[0]) == full[a] and counted(got[1]) == full[b], got
        ok = set(map(repr, got[0])) <= set(full[a]) and set(map(repr, got[1])) <= set(full[b])
        for s in (1, 0):
            if hasattr(g[s], 'close'):
                g[s].close()
        again = [[frozen(x) for x in gens[b][1]()], [frozen(x) for x in gens[a][1]()]]
        return ok and counted(again[0]) == full[b] and counted(again[1]) == full[a], again

    def explore(b):
        """a tree of forks: a node is the state after a schedule prefix"""
        count = 0
        for n in range(depth + 1):
            for steps in itertools.product((0, 1), repeat=n):
                for finish in (True, False):
                    ok, got = schedule_isolated(b, steps, finish)
                    count += 1
                    if not ok:
                        return count, (steps, finish, got)
        return count, None

    def schedule_isolated(b, steps, finish):
        return isolated(lambda: schedule(b, steps, finish))

    for b in range(a, len(gens)):
        if gens[a][0].split('(')[0][:6] != gens[b][0].split('(')[0][:6] and kind(gens[a][0]) != kind(gens[b][0]):
            continue
        ctx.case = (gens[a][0], gens[b][0])
        count, bad = explore(b)
        ctx.fam('schedules', states=count, transitions=count * depth, traces=count)
        if bad:
            ctx.violate('%s | %s schedule %s %s' % (gens[a][0], gens[b][0], bad[0], 'finished' if bad[1] else 'abandoned'),
                        'interleaving or abandoning generators changes their values', got=bad[2], fresh=(fresh[a], fresh[b]))


def kind(label):
    for k in ('symplectic', 'fpf', 'involution', 'hecke', 'Partition', 'K', 'w0', 'all', 'atoms', 'vst', 'copieri'):
        if k in label:
            return k
    return 'Partition'


# ------------------------------------------------------------------ one object

def attr(name):
    return name, lambda x: getattr(x, name)


def meth(name, *args):
    return '%s%s' % (name, args), lambda x: getattr(x, name)(*args)


def objects():
    w = [attr(n) for n in ('right_descent_set', 'left_descent_set', 'oneline', 'rank', 'length', 'involution_length', 'cycles')] + \
        [meth(n) for n in ('last_descent', 'inverse', 'code', 'shape', 'get_reduced_words', 'get_reduced_word', 'bruhat_covers', 'rothe_diagram', 'is_identity', '__len__', '__hash__', 'cycle_repr')] + \
        [('w*w', lambda x: x * x), ('w%w', lambda x: x % x), ('w(2)', lambda x: x(2)), ('w**2', lambda x: x ** 2), ('w==', lambda x: x == Permutation(2, 1))]
    inv = [meth(n) for n in ('get_atoms', 'get_involution_words', 'get_min_atom', 'involution_code', 'involution_shape', 'involution_bruhat_covers')]
    fpf = [meth(n) for n in ('get_fpf_atoms', 'get_fpf_involution_words', 'fpf_involution_code', 'fpf_involution_shape')]
    t = [meth(n) for n in ('shape', 'size', 'weight', 'row_reading_word', 'column_reading_word', 'shifted_reading_word', 'transpose', 'standardize', 'is_semistandard', 'is_standard', 'crystal_reading_word',
                           'double', 'negate', 'serialize', 'values', 'counter', '__hash__', '__repr__', 'tex', '__len__', 'pop', 'max_row')] + \
        [meth('add', 1, 1, 1), meth('set', 1, 2, 9), meth('remove', 1, 1), meth('clear', 1, 1), meth('get', 1, 1), meth('replace', 1, 1, 4), meth('find', 2), meth('get_row', 1), meth('get_column', 1, 1)]
    p = [('p+p', lambda x: x + x), ('p*p', lambda x: x * x), ('-p', lambda x: -x), ('p-1', lambda x: x - 1), ('2*p', lambda x: 2 * x), ('p**2', lambda x: x ** 2), ('p==0', lambda x: x == 0),
         meth('is_zero'), meth('total_degree'), meth('is_integer'), meth('substitute', 1, Polynomial.x(2)), meth('substitute', 0, 5), meth('coefficient', 1, 1), meth('__repr__'), meth('__hash__'),
         meth('constant_term'), meth('nnz')]
    f = [('f+f', lambda x: x + x), ('f*f', lambda x: x * x), ('-f', lambda x: -x), ('2*f', lambda x: 2 * x), ('beta*f', lambda x: BETA * x), ('f==f', lambda x: x == x), meth('__repr__'), meth('truncate', 2), meth('polynomial'),
         meth('lowest_degree_terms'), meth('highest_degree_terms'), meth('is_zero'), meth('__len__'), meth('items'), ('schur', lambda x: SymmetricPolynomial.schur_expansion(x)),
         ('negate_beta', lambda x: SymmetricPolynomial.negate_beta(x)), ('f-f', lambda x: x - x)]
    v = [meth(n) for n in ('is_highest_weight', 'diagonal_primes', 'unprime', 'unprime_diagonal', 'singletons', 'diagonal_singletons', 'primed_diagonal_cells', 'primed_groups', 'is_interstandard', 'is_semistandard', '__repr__')] + \
        [meth('weight', 2), meth('transition', 1), meth('forward_transition', 1), meth('transition', 2)]
    u = [('v+v', lambda x: x + x), ('v-v', lambda x: x - x), ('-v', lambda x: -x), ('3v', lambda x: 3 * x), ('v==0', lambda x: x == 0), meth('__repr__'), meth('items'), meth('keys'), meth('is_zero'), meth('__len__'), ('get', lambda x: x[(5, 5)]), ('bool', lambda x: bool(x))]
    x1, x2 = Polynomial.x(1), Polynomial.x(2)
    S = SymmetricPolynomial
    return [('w321', lambda: Permutation(3, 2, 1), w + inv), ('w231', lambda: Permutation(2, 3, 1), w), ('w2143', lambda: Permutation(2, 1, 4, 3), w[:12] + inv + fpf), ('w1', lambda: Permutation(), w[:6] + w[8:]),
            ('t', lambda: Tableau({(1, 1): 1, (1, 2): 2, (2, 1): 2}), t), ('t set', lambda: Tableau({(1, 1): (1, 2), (1, 2): 3}), t), ('t shifted', lambda: Tableau({(1, 1): 1, (1, 2): -2, (2, 2): 2}), t), ('t0', lambda: Tableau(), t[:10]),
            ('p', lambda: x1 * x2 + 2 * x1 + Polynomial.x(0), p), ('p const', lambda: Polynomial.one() * 3, p), ('p laurent', lambda: x1 ** -1 + x2, p), ('beta', lambda: BETA * 1, p),
            ('beta itself', lambda: BETA, p),
            ('GP', lambda: S.stable_grothendieck_p(2, (2, 1)), f), ('gq', lambda: S.dual_stable_grothendieck_q(2, (2,)), f), ('s', lambda: S.schur(2, (2, 1)), f), ('zero', lambda: S(), f[:9]),
            ('monomial', lambda: SymmetricMonomial(2, (2, 1)), [attr('mu'), attr('n'), meth('degree'), meth('index'), meth('order'), meth('polynomial'), meth('__hash__'), meth('__repr__'), ('m*m', lambda x: x * x)]),
            ('vst', lambda: sorted(ValuedSetTableau.all(2, (2, 1)), key=repr)[0], v), ('vst2', lambda: sorted(ValuedSetTableau.all(2, (3, 1), (1,)), key=repr)[-1], v),
            ('vector', lambda: Vector({(2, 1): 1, (1,): BETA}), u), ('Vector zero', lambda: Vector(), u)]


def methods(ctx, a, depth):
    """all sequences of operations on one object: results as on a new object, and the object unchanged"""
    name, make, ops = objects()[a]
    ops = [(l, f) for l, f in ops if isolated(lambda: outcome(lambda: f(make())))[0] != 'exception']
    fresh = [isolated(lambda f=f: outcome(lambda: f(make()))) for _, f in ops]
    start = isolated(lambda: frozen(make()))

    def history(first):
        for rest in itertools.product(range(len(ops)), repeat=depth):
            x = make()
            if frozen(x) != start:
                return rest, 'the object is no longer built the same way', -1, frozen(x)
            values = []
            for k in (first,) + rest:
                r = materialize(lambda: ops[k][1](x))
                f = outcome(lambda: r) if not (isinstance(r, list) and fresh[k][0] == 'g') else ('g',) + tuple(sorted((frozen(z) for z in r), key=repr))
                if f != fresh[k]:
                    return rest, 'another result than on a new object', k, f
                values.append((r, frozen(r)))
            if frozen(x) != start:
                return rest, 'the object was changed', -1, frozen(x)
            if any(frozen(r) != f for r, f in values):
                return rest, 'an earlier result was changed', -1, None

    for first in range(len(ops)):
        ctx.case = (name, ops[first][0])
        bad = isolated(lambda: history(first))
        n = len(ops) ** depth
        ctx.fam('methods', states=n, transitions=n * (depth + 1), traces=n)
        if bad:
            ctx.violate('%s: %s %s' % (name, ops[first][0], [ops[k][0] for k in bad[0]]), bad[1], operation=ops[bad[2]][0] if bad[2] >= 0 else None, implementation=bad[3], fresh=fresh[bad[2]] if bad[2] >= 0 else start)


def run(ctx, name, args):
    globals()[name](ctx, *args)
