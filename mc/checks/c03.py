"""Tableau enumerators: exactly the objects of each definition, once each, and matching counts."""
from collections import Counter
from mc import ref
from tableaux import Tableau

ID = 'C03'
RULE = ('every kind of tableau, every skew shape mu/nu (also nu not inside mu) with |mu| within the bound and every alphabet '
        'size within the bound, plus all shapes with few boxes left of a large mu; the model explores all partial fillings by depth-first search and collects the complete ones')
ASSUMPTIONS = ['the definitions in mc/ref.py are the intended ones', 'shapes and alphabets up to the stated bounds']

T = Tableau
# kind: shifted, marked, setvalued, rpp, diagonal filter, enumerators, counters
KINDS = {
    'semistandard': (0, 0, 0, 0, None,
                     [lambda n, m, v: T.semistandard(n, m, v), lambda n, m, v: T.semistandard(n, m, v, False)],
                     [lambda n, m, v: T.count_semistandard(n, m, v)]),
    'setvalued': (0, 0, 1, 0, None,
                  [lambda n, m, v: T.semistandard_setvalued(n, m, v), lambda n, m, v: T.semistandard(n, m, v, setvalued=True)],
                  [lambda n, m, v: T.count_semistandard_setvalued(n, m, v), lambda n, m, v: T.count_semistandard(n, m, v, True)]),
    'marked': (0, 1, 0, 0, None,
               [lambda n, m, v: T.semistandard_marked(n, m, v)],
               [lambda n, m, v: T.count_semistandard_marked(n, m, v)]),
    'marked setvalued': (0, 1, 1, 0, None,
                         [lambda n, m, v: T.semistandard_marked_setvalued(n, m, v), lambda n, m, v: T.semistandard_marked(n, m, v, True)],
                         [lambda n, m, v: T.count_semistandard_marked_setvalued(n, m, v), lambda n, m, v: T.count_semistandard_marked(n, m, v, True)]),
    'shifted': (1, 1, 0, 0, None,
                [lambda n, m, v: T.semistandard_shifted(n, m, v), lambda n, m, v: T.semistandard_shifted_marked(n, m, v)],
                [lambda n, m, v: T.count_semistandard_shifted_marked(n, m, v)]),
    'shifted no diagonal primes': (1, 1, 0, 0, 'pos',
                                   [lambda n, m, v: T.semistandard_shifted(n, m, v, diagonal_primes=False),
                                    lambda n, m, v: T.semistandard_shifted_marked(n, m, v, False)],
                                   [lambda n, m, v: T.count_semistandard_shifted_marked(n, m, v, False)]),
    'shifted setvalued': (1, 1, 1, 0, None,
                          [lambda n, m, v: T.semistandard_shifted_setvalued(n, m, v), lambda n, m, v: T.semistandard_shifted_marked_setvalued(n, m, v),
                           lambda n, m, v: T.semistandard_shifted(n, m, v, True, True)],
                          [lambda n, m, v: T.count_semistandard_shifted_marked_setvalued(n, m, v)]),
    'shifted setvalued no diagonal primes': (1, 1, 1, 0, 'pos',
                                             [lambda n, m, v: T.semistandard_shifted_setvalued(n, m, v, diagonal_primes=False),
                                              lambda n, m, v: T.semistandard_shifted_marked_setvalued(n, m, v, False)],
                                             [lambda n, m, v: T.count_semistandard_shifted_marked_setvalued(n, m, v, False)]),
    'rpp': (0, 0, 0, 1, None,
            [lambda n, m, v: T.semistandard_rpp(n, m, v)], [lambda n, m, v: T.count_semistandard_rpp(n, m, v)]),
    'marked rpp': (1, 1, 0, 1, None,
                   [lambda n, m, v: T.semistandard_marked_rpp(n, m, v), lambda n, m, v: T.semistandard_shifted_rpp(n, m, v)],
                   [lambda n, m, v: T.count_semistandard_marked_rpp(n, m, v)]),
    'marked rpp primed diagonal': (1, 1, 0, 1, 'neg',
                                   [lambda n, m, v: T.semistandard_marked_rpp(n, m, v, False),
                                    lambda n, m, v: T.semistandard_shifted_rpp(n, m, v, diagonal_nonprimes=False)],
                                   [lambda n, m, v: T.count_semistandard_marked_rpp(n, m, v, False)]),
}
DIAG = {None: None, 'pos': lambda a: a > 0, 'neg': lambda a: a < 0}

SIZES = {
    'quick': {
        'semistandard': {0: 4, 1: 6, 2: 8, 3: 7, 4: 6}, 'setvalued': {0: 3, 1: 6, 2: 7, 3: 6}, 'marked': {0: 3, 1: 6, 2: 5, 3: 4},
        'marked setvalued': {0: 3, 1: 5, 2: 4, 3: 2}, 'shifted': {0: 4, 1: 7, 2: 7, 3: 6, 4: 4}, 'shifted no diagonal primes': {0: 4, 1: 7, 2: 8, 3: 6, 4: 4},
        'shifted setvalued': {0: 3, 1: 7, 2: 6, 3: 4}, 'shifted setvalued no diagonal primes': {0: 3, 1: 7, 2: 6, 3: 4},
        'rpp': {0: 4, 1: 6, 2: 7, 3: 6, 4: 5}, 'marked rpp': {0: 4, 1: 7, 2: 6, 3: 5}, 'marked rpp primed diagonal': {0: 4, 1: 7, 2: 7, 3: 5},
        'standard': {0: 7}, 'standard shifted': {0: 7}, 'standard shifted diagonal primes': {0: 7},
    }
}
SIZES['thorough'] = {k: {n: s + 3 for n, s in d.items()} for k, d in SIZES['quick'].items()}
SIZES['quick'] = {k: {n: s + 2 for n, s in d.items()} for k, d in SIZES['quick'].items()}

# many letters, small shapes
MANY = {'semistandard': {5: 6, 6: 5, 8: 4, 11: 3}, 'setvalued': {4: 5, 5: 4, 6: 3, 8: 2, 11: 1}, 'marked': {4: 4, 5: 3, 6: 3, 8: 2, 11: 2}, 'marked setvalued': {4: 2, 5: 1},
        'shifted': {5: 5, 6: 4, 8: 3, 11: 2}, 'shifted no diagonal primes': {5: 5, 6: 4, 8: 3, 11: 2}, 'shifted setvalued': {4: 3, 5: 2}, 'shifted setvalued no diagonal primes': {4: 3, 5: 2},
        'rpp': {5: 5, 6: 4, 8: 3, 11: 3}, 'marked rpp': {4: 4, 5: 4, 6: 3, 8: 2, 11: 2}, 'marked rpp primed diagonal': {4: 5, 5: 4, 6: 3, 8: 2, 11: 2}}
for _k, _d in MANY.items():
    for _n, _s in _d.items():
        SIZES['quick'][_k].setdefault(_n, _s)
        SIZES['thorough'][_k].setdefault(_n, _s + 1)

# thin skew shapes: few boxes left of a large mu, so that many corners are far apart; kind -> {n: largest number of boxes}
THIN = {'semistandard': {2: 5, 3: 4, 4: 3}, 'setvalued': {1: 5, 2: 4, 3: 3}, 'marked': {1: 5, 2: 4}, 'marked setvalued': {1: 5, 2: 2},
        'shifted': {1: 5, 2: 4}, 'shifted no diagonal primes': {1: 5, 2: 4}, 'shifted setvalued': {1: 5, 2: 2},
        'shifted setvalued no diagonal primes': {1: 5, 2: 2}, 'rpp': {2: 5, 3: 4, 4: 3}, 'marked rpp': {1: 5, 2: 4},
        'marked rpp primed diagonal': {1: 5, 2: 4}, 'standard': {0: 5}, 'standard shifted': {0: 5}, 'standard shifted diagonal primes': {0: 5}}
THIN_MU = {'quick': (10, 16), 'thorough': (13, 20)}


def freeze(cells):
    return frozenset((c, tuple(sorted(v))) for c, v in cells.items())


def jobs(tier):
    ans = []
    for kind, d in SIZES[tier].items():
        for n, size in d.items():
            strict = kind.startswith('standard shifted') or (kind in KINDS and KINDS[kind][0])
            for sz in range(size + 1):
                big = sz >= size - 1
                shapes = list((ref.strict_partitions_of if strict else ref.partitions_of)(sz))
                if big and n >= 2:
                    for k in range(0, len(shapes), 4):
                        ans.append((sz * 10 + n, kind, (n, tuple(shapes[k:k + 4]), size)))
                else:
                    ans.append((sz * 10 + n, kind, (n, tuple(shapes), size)))
    for kind, d in THIN.items():
        strict = kind.startswith('standard shifted') or (kind in KINDS and KINDS[kind][0])
        shapes = list(ref.partitions_upto(THIN_MU[tier][bool(strict)], strict=bool(strict)))
        for n, size in d.items():
            for k in range(0, len(shapes), 20):
                ans.append((75, 'thin ' + kind, (n, tuple(shapes[k:k + 20]), size + (tier == 'thorough'))))
    return ans


def weight(kind, f, n):
    w = [0] * n
    for (i, j), v in f.items():
        for a in v:
            if KINDS[kind][3]:
                if a > 0 and f.get((i - 1, j)) == v:
                    continue
                if a < 0 and f.get((i, j - 1)) == v:
                    continue
            w[abs(a) - 1] += 1
    return tuple(w)


def standard(cells, marked, diagprimes, counter):
    """Linear orders in which the cells can be added, with signs: a state is a set of filled cells."""
    cellset = set(cells)
    ans = []

    def rec(filled, cur):
        counter[0] += 1
        if len(filled) == len(cellset):
            ans.append(dict(cur))
            return
        k = len(filled) + 1
        for (i, j) in cellset:
            if (i, j) in filled:
                continue
            if ((i - 1, j) in cellset and (i - 1, j) not in filled) or ((i, j - 1) in cellset and (i, j - 1) not in filled):
                continue
            for a in ((k, -k) if marked and (diagprimes or i != j) else (k,)):
                counter[1] += 1
                cur[(i, j)] = (a,)
                rec(filled | {(i, j)}, cur)
                del cur[(i, j)]
    rec(frozenset(), {})
    return ans


def run(ctx, kind, args):
    n, shapes, size = args
    thin = kind.startswith('thin ')
    kind = kind[5:] if thin else kind
    std = kind.startswith('standard')
    strict = kind.startswith('standard shifted') or (not std and bool(KINDS[kind][0]))
    for mu in shapes:
        inner = ref.subparts(mu, strict=strict) if not thin else ref.removals(mu, size, strict)
        if not thin and sum(mu) > size - 1 and n >= 2:
            inner = inner[:1] + inner[-6:-1]
        outside = [x for x in ref.partitions_upto(3, strict=strict) if not ref.contains(mu, x)][:0 if thin else 2]
        for nu in inner + outside:
            c = [0, 0]
            ctx.case = (kind, n, mu, nu)
            ok = ref.contains(mu, nu)
            cells = ref.boxes(mu, nu, strict)
            tag = '%s(%s,%s,%s)' % (kind, n, mu, nu)
            if std:
                want = standard(cells, strict, kind.endswith('primes'), c) if ok else []
                if kind == 'standard':
                    lists = [T.standard(mu, nu)]
                else:
                    dp = kind.endswith('primes')
                    lists = [T.standard_shifted_marked(mu, nu, dp), T.standard_shifted_marked(mu, nu, diagonal_primes=dp)]
                    if not dp:
                        lists.append(T.standard_shifted_marked(mu, nu))
            else:
                shifted, marked, sv, rpp, diag, enums, counts = KINDS[kind]
                want = ref.fillings(cells, n, marked, sv, rpp, DIAG[diag], c) if ok else []
                lists = [f(n, mu, nu) for f in enums]
                if nu == ():
                    lists.append(enums[0](n, mu, ()))
                cw = Counter(weight(kind, f, n) for f in want)
                table = {ref.trim(w): v for w, v in cw.items() if all(w[i] >= w[i + 1] for i in range(len(w) - 1))}
                for f in counts:
                    got = {tuple(k): v for k, v in f(n, mu, nu).items() if v}
                    ctx.equal('count ' + tag, got, table)
                    ctx.fam(kind + ' counts', traces=1)
            wantset = {freeze(f): f for f in want}
            assert len(wantset) == len(want)
            for got in lists:
                if len(got) != len(want):
                    ctx.violate(tag, 'wrong number of tableaux', implementation=len(got), model=len(want))
                for t in got:
                    f = wantset.get(freeze(t.boxes))
                    if f is None:
                        ctx.violate(tag, 'produced an object outside the definition', tableau=t.boxes)
                    elif not std and t.weight(n) != weight(kind, f, n):
                        ctx.violate(tag, 'wrong weight', tableau=t.boxes, implementation=t.weight(n), model=weight(kind, f, n))
                if len({freeze(t.boxes) for t in got}) != len(want):
                    ctx.violate(tag, 'some tableau is repeated or missing')
                ctx.fam(kind, traces=1)
            ctx.fam(kind, states=c[0], transitions=c[1])
            ctx.outcome((kind, mu, nu, len(want)))
    ctx.sample('%s n=%d shapes=%s' % (kind, n, shapes[:3]))
