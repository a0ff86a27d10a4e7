"""Alphabets of public calls used by the history checks (C07)."""
import itertools
from collections import defaultdict
import utils
import operators
import dualops
import boxes
from words import Word
from tableaux import Tableau
from partitions import Partition
from permutations import Permutation
from polynomials import Polynomial
from symmetric import BETA
from symmetric import SymmetricPolynomial, SymmetricMonomial
from insertion import InsertionAlgorithm
from vst import ValuedSetTableau
import crystals as crystal_module
from vectors import Vector


class Odd(Exception):
    pass


def frozen(x):
    """a value that can be compared across processes; order kept for sequences, dropped for sets"""
    if x is None or isinstance(x, (bool, int, str, float)):
        return repr(x)
    if isinstance(x, (tuple, list)):
        return ('l',) + tuple(frozen(a) for a in x)
    if isinstance(x, (set, frozenset)):
        return ('s',) + tuple(sorted((frozen(a) for a in x), key=repr))
    if isinstance(x, Permutation):
        return ('w',) + tuple(x.oneline)
    if isinstance(x, Tableau):
        return ('t', type(x).__name__, frozen({(i, j): v for i, j, v in x}), frozen(getattr(x, 'grouping', None)))
    if isinstance(x, SymmetricMonomial):
        return ('m', x.n, tuple(x.mu))
    if isinstance(x, Polynomial):
        return ('p',) + tuple(sorted((tuple(sorted(m.items())), frozen(c)) for m, c in ((m, x[m]) for m in x) if c != 0))
    if type(x).__name__ == 'BoxOperator':
        return ('b', frozen(x.vector))
    if hasattr(x, 'exponents'):
        return ('mono',) + tuple(sorted(x.exponents.items()))
    if isinstance(x, Vector) or hasattr(x, 'dictionary') and isinstance(x.dictionary, dict):
        return ('v', type(x).__name__) + tuple(sorted(((frozen(k), frozen(v)) for k, v in x.dictionary.items() if v != 0), key=repr))
    if isinstance(x, dict):
        return ('d',) + tuple(sorted(((frozen(k), frozen(v)) for k, v in x.items()), key=repr))
    if isinstance(x, ValuedSetTableau):
        return ('vst', frozen(x.tableau), frozen(x.grouping))
    if hasattr(x, 'elements') and hasattr(x, 'letters'):
        return ('word', tuple(x.letters) if hasattr(x, 'letters') else None)
    if hasattr(x, '__next__'):
        return ('g',) + tuple(sorted((frozen(a) for a in x), key=repr))
    if hasattr(x, '__iter__'):
        return ('i', type(x).__name__) + tuple(frozen(a) for a in x)
    raise Odd(type(x))


def outcome(thunk):
    try:
        return frozen(thunk())
    except Odd:
        raise
    except Exception as e:
        return ('exception', type(e).__name__)


def materialize(thunk):
    """the result object itself; generators are turned into lists"""
    try:
        r = thunk()
        return list(r) if hasattr(r, '__next__') else r
    except Exception as e:
        return None


# every alphabet is a list of (group, label, thunk); entries of one group are different ways to write the same call

def spell(name, f, names, args, defaults):
    """the same call positionally, by keyword, with and without the default arguments"""
    ans = []
    full = list(args)
    short = list(args)
    while short and len(short) > len(names) - len(defaults) and short[-1] == defaults[len(short) - 1 - (len(names) - len(defaults))]:
        short.pop()
    key = '%s%s' % (name, tuple(args))
    ans.append((key, key, lambda: f(*full)))
    if len(short) < len(full):
        ans.append((key, '%s%s' % (name, tuple(short)), lambda: f(*short)))
    for cut in range(1, len(names)):
        kw = dict(zip(names[cut:], full[cut:]))
        if cut == 1 or cut == len(names) - len(defaults):
            ans.append((key, '%s%s %s' % (name, tuple(full[:cut]), kw), lambda kw=kw, cut=cut: f(*full[:cut], **kw)))
    return ans


def functions(full=False):
    S = SymmetricPolynomial
    ans = []
    shapes = [((3, 1), ()), ((2, 1), ()), ((3, 1), (1,)), ((2,), (1,))] + ([((3, 2), ()), ((3, 2, 1), (2,)), ((3, 1), (2,)), ((4, 2), (1,))] if full else [])
    for n in (2,) if not full else (1, 2, 3):
        for mu, nu in shapes:
            for name in ('schur', 'schur_s', 'schur_q', 'schur_p', 'dual_stable_grothendieck', 'dual_stable_grothendieck_p', 'dual_stable_grothendieck_q',
                         'mp_dual_stable_grothendieck', 'mp_dual_stable_grothendieck_p', 'mp_dual_stable_grothendieck_q',
                         'mn_stable_grothendieck', 'mn_stable_grothendieck_p', 'mn_stable_grothendieck_q', 'dual_stable_grothendieck_s'):
                if nu and name == 'dual_stable_grothendieck_s' and not full:
                    continue
                ans += spell(name, getattr(S, name), ('num_variables', 'mu', 'nu'), (n, mu, nu), ((),))[:4 if full else 2]
            for name in ('slow_transposed_dual_stable_grothendieck', 'slow_transposed_dual_stable_grothendieck_p', 'slow_transposed_dual_stable_grothendieck_q'):
                f = getattr(S, name)
                ans += [('%s %s' % (name, (n, mu, nu, k)), '%s %s' % (name, (n, mu, nu, k)), lambda f=f, mu=mu, nu=nu, b=b, n=n: f(n, mu, nu, *b))
                        for k, b in (('', ()), ('+', (BETA,)))]
                ans.append(('%s %s' % (name, (n, mu, nu, '')), '%s %s' % (name, (n, mu, nu, '-')), lambda f=f, mu=mu, nu=nu, n=n: f(n, mu, nu, beta=-BETA)))
            for name in ('stable_grothendieck', 'stable_grothendieck_s', 'stable_grothendieck_q', 'stable_grothendieck_p'):
                for bound in (None, 3) if not full else (None, 0, 3, 4):
                    ans += spell(name, getattr(S, name), ('num_variables', 'mu', 'nu', 'degree_bound'), (n, mu, nu, bound), ((), None))[:4 if full else 2]
                    ans += spell(name + '_doublebar', getattr(S, name + '_doublebar'), ('num_variables', 'mu', 'nu', 'degree_bound'), (n, mu, nu, bound), ((), None))[:4 if full else 1]
    return ans


def expansions(full=False):
    S = SymmetricPolynomial
    n = 2
    ans = []
    native = [('schur_expansion', 'schur'), ('schur_expansion', 'schur_q'), ('schur_expansion', 'dual_stable_grothendieck_q'), ('omega_schur_expansion', 'schur'), ('omega_schur_expansion', 'schur_p'),
              ('dual_grothendieck_expansion', 'dual_stable_grothendieck'), ('dual_grothendieck_expansion', 'dual_stable_grothendieck_p'), ('dual_grothendieck_expansion', 'schur'),
              ('mp_dual_grothendieck_expansion', 'mp_dual_stable_grothendieck'), ('mp_dual_grothendieck_expansion', 'mp_dual_stable_grothendieck_q'), ('j_expansion', 'slow_transposed_dual_stable_grothendieck'),
              ('gp_expansion', 'dual_stable_grothendieck_p'), ('gp_expansion', 'dual_stable_grothendieck_q'), ('gq_expansion', 'dual_stable_grothendieck_q'), ('mp_gp_expansion', 'mp_dual_stable_grothendieck_p'),
              ('mp_gq_expansion', 'mp_dual_stable_grothendieck_q'), ('jp_expansion', 'slow_transposed_dual_stable_grothendieck_p'), ('jq_expansion', 'slow_transposed_dual_stable_grothendieck_q'),
              ('P_expansion', 'schur_p'), ('P_expansion', 'schur_q'), ('Q_expansion', 'schur_q'), ('grothendieck_expansion', 'stable_grothendieck'), ('GP_expansion', 'stable_grothendieck_p'),
              ('GP_expansion', 'stable_grothendieck_q'), ('GQ_expansion', 'stable_grothendieck_q'), ('mn_grothendieck_expansion', 'mn_stable_grothendieck'), ('mn_GP_expansion', 'mn_stable_grothendieck_p'),
              ('mn_GQ_expansion', 'mn_stable_grothendieck_q')]
    for e, b in native:
        for mu in ((2,), (1,)) + (((3,), (2, 1)) if full else ((2, 1),)):
            def f(e=e, b=b, mu=mu):
                return getattr(S, e)(getattr(S, b)(n, mu) + 2 * getattr(S, b)(n, (1,)))
            ans.append(('%s(%s%s)' % (e, b, mu),) * 2 + (f,))
    for f in ('dual_stable_grothendieck_p', 'dual_stable_grothendieck_q', 'schur_q', 'schur'):
        for mu in ((1,), (2,), (2, 1)):
            ans.append(('poly %s%s' % (f, mu),) * 2 + (lambda f=f, mu=mu: getattr(S, f)(n, mu).polynomial(),))
            ans.append(('square %s%s' % (f, mu),) * 2 + (lambda f=f, mu=mu: getattr(S, f)(n, mu) * getattr(S, f)(n, mu),))
            ans.append(('truncate %s%s' % (f, mu),) * 2 + (lambda f=f, mu=mu: getattr(S, f)(n, mu).truncate(2),))
            ans.append(('extremes %s%s' % (f, mu),) * 2 + (lambda f=f, mu=mu: (getattr(S, f)(n, mu).lowest_degree_terms(), getattr(S, f)(n, mu).highest_degree_terms()),))
            ans.append(('scaled %s%s' % (f, mu),) * 2 + (lambda f=f, mu=mu: BETA * getattr(S, f)(n, mu) - getattr(S, f)(n, mu),))
    for mu in ((1,), (2,), (2, 1), (1, 1)):
        for nu in ((1,), (2,), (1, 1)):
            ans.append(('m%s*m%s' % (mu, nu),) * 2 + (lambda mu=mu, nu=nu: SymmetricMonomial(3, mu) * SymmetricMonomial(3, nu),))
    return ans


def tableaux(full=False):
    ans = []
    T = Tableau
    shapes = [((3, 1), ()), ((2, 1), (1,)), ((3, 1), (1,))] + ([((3, 2), ()), ((3, 2), (1,)), ((2, 1), ())] if full else [])
    for n in (2,) if not full else (1, 2):
        for mu, nu in shapes:
            for name, flag in (('count_semistandard', 'setvalued'), ('count_semistandard_marked', 'setvalued'), ('semistandard', 'setvalued'), ('semistandard_marked', 'setvalued')):
                for v in (False, True):
                    ans += spell(name, getattr(T, name), ('max_entry', 'mu', 'nu', flag), (n, mu, nu, v), ((), False))[:4 if full else 3]
            for name, flag in (('count_semistandard_marked_rpp', 'diagonal_nonprimes'), ('semistandard_marked_rpp', 'diagonal_nonprimes'), ('semistandard_shifted_rpp', 'diagonal_nonprimes'),
                               ('count_semistandard_shifted_marked_setvalued', 'diagonal_primes'), ('semistandard_shifted_marked_setvalued', 'diagonal_primes'), ('semistandard_shifted_setvalued', 'diagonal_primes')):
                for v in (False, True):
                    ans += spell(name, getattr(T, name), ('max_entry', 'mu', 'nu', flag), (n, mu, nu, v), ((), True))[:4 if full else 2]
            for name in ('count_semistandard_shifted_marked', 'semistandard_shifted_marked', 'semistandard_shifted'):
                for v in (False, True):
                    for w in (False, True):
                        ans += spell(name, getattr(T, name), ('max_entry', 'mu', 'nu', 'diagonal_primes', 'setvalued'), (n, mu, nu, v, w), ((), True, False))[:4 if full else 2]
            for name in ('count_semistandard_setvalued', 'count_semistandard_marked_setvalued', 'count_semistandard_rpp', 'semistandard_rpp', 'semistandard_setvalued', 'semistandard_marked_setvalued'):
                ans += spell(name, getattr(T, name), ('max_entry', 'mu', 'nu'), (n, mu, nu), ((),))[:2]
    for mu, nu in shapes:
        ans += spell('standard', T.standard, ('mu', 'nu'), (mu, nu), ((),))
        for v in (False, True):
            ans += spell('standard_shifted_marked', T.standard_shifted_marked, ('mu', 'nu', 'diagonal_primes'), (mu, nu, v), ((), False))
    for k, mu in ((1, (2,)), (2, (2, 1)), (3, (2, 1)), (2, (3, 1)), (2, ()), (0, (2,))):
        for name in ('KOG', 'KLG'):
            ans.append(('%s(%s,%s)' % (name, k, mu),) * 2 + (lambda name=name, k=k, mu=mu: getattr(T, name)(k, mu),))
            ans.append(('%s_by_shape(%s,%s)' % (name, k, mu),) * 2 + (lambda name=name, k=k, mu=mu: getattr(T, name + '_by_shape')(k, mu),))
            ans.append(('%s_counts_by_shape(%s,%s)' % (name, k, mu),) * 2 + (lambda name=name, k=k, mu=mu: getattr(T, name + '_counts_by_shape')(k, mu),))
    for nu, mu, p in (((3, 1), (2,), 2), ((2, 1), (2,), 1), ((4, 1), (2,), 2), ((3, 1), (2, 1), 1)):
        for name in ('KOG_counts', 'KLG_counts'):
            ans.append(('%s%s' % (name, (nu, mu, p)),) * 2 + (lambda name=name, nu=nu, mu=mu, p=p: getattr(T, name)(nu, mu, p),))
    for dp in (False, True):
        for nu, lam in (((2,), (1,)), ((2, 1), (2,)), ((3, 1), (1,))):
            ans.append(('copieri%s' % ((nu, lam, dp),),) * 2 + (lambda nu=nu, lam=lam, dp=dp: T.shifted_setvalued_copieri(nu, lam, dp),))
    return ans


def partitions(full=False):
    ans = []
    P = Partition
    for n in (3, 4) if not full else (0, 2, 3, 4, 5):
        for mp in (None, 2):
            for mr in (None, 2):
                for st in (False, True):
                    for ev in (False, True):
                        a = ('n', 'max_part', 'max_row', 'strict', 'even_parts')
                        ans += spell('all', P.all, a, (n, mp, mr, st, ev), (None, None, False, False))[:2]
                        if full:
                            ans += spell('generate', P.generate, a, (n, mp, mr, st, ev), (None, None, False, False))[:2]
    for mu in ((3, 1), (3, 2, 1), (2,)):
        for st in (False, True):
            for nu in ((), (1,)):
                ans += spell('subpartitions', P.subpartitions, ('mu', 'nu', 'strict'), (mu, nu, st), ((), False))[:2]
            ans += spell('successors', P.successors, ('mu', 'strict'), (mu, st), (False,))[:2]
        for b in (1, 2, 3):
            ans += spell('rims', P.rims, ('mu', 'first_row_bound'), (mu, b), (1,))
        for name in ('decompose_shifted_shape_by_rims', 'decompose_shifted_shape_by_vertical_strips', 'transpose', 'shifted_ribbon_complements', 'remove_inner_corners', 'remove_shifted_inner_corners'):
            ans.append(('%s%s' % (name, mu),) * 2 + (lambda name=name, mu=mu: getattr(P, name)(mu),))
    for n in range(4):
        for name in ('compositions', 'peak_compositions', 'shifted_ribbons'):
            ans.append(('%s(%s)' % (name, n),) * 2 + (lambda name=name, n=n: getattr(P, name)(n),))
    return ans


def levels(f, *args, **kw):
    return [len(l) for l in itertools.islice(f(*args, **kw), 5)], [set(l) for l in itertools.islice(f(*args, **kw), 5)]


def permutations(full=False):
    P = Permutation
    ans = []

    def call(label, thunk, group=None):
        ans.append((group or label, label, thunk))
    for n in (2, 3):
        for lb in (0, 1, 2, 3):
            for b in (None, 1, 2) if not full else (None, 0, 1, 2, 3):
                call('hecke_words %s' % ((n, lb, b),), lambda n=n, lb=lb, b=b: P.hecke_words(n, lb, b))
                call('hecke_words kw %s' % ((n, lb, b),), lambda n=n, lb=lb, b=b: P.hecke_words(n=n, length_bound=lb, ascent_bound=b), 'hecke_words %s' % ((n, lb, b),))
                call('involution_hecke_words %s' % ((n, lb, b),), lambda n=n, lb=lb, b=b: P.involution_hecke_words(n, lb, b))
                for h in (True, False):
                    call('involution_hecke_levels %s' % ((n, lb, b, h),), lambda n=n, lb=lb, b=b, h=h: levels(P.involution_hecke_levels, n, lb, b, h))
                    if n == 2:
                        call('symplectic_hecke_words %s' % ((2 * n, lb, b, h),), lambda n=n, lb=lb, b=b, h=h: P.symplectic_hecke_words(2 * n, lb, b, h))
    for w in ((2, 1), (3, 2, 1), (2, 3, 1), (2, 1, 4, 3)) + (((3, 4, 1, 2), (1, 3, 2), (-1, 2), (-2, -1)) if full else ((-2, -1),)):
        if min(w) > 0:
            for lb in (1, 2, 3):
                for b in (None, 1, 2):
                    call('get_hecke_words %s' % ((w, lb, b),), lambda w=w, lb=lb, b=b: P(*w).get_hecke_words(lb, b))
                    call('get_involution_hecke_words %s' % ((w, lb, b),), lambda w=w, lb=lb, b=b: P(*w).get_involution_hecke_words(lb, b))
                    if len(w) == 4:
                        call('get_symplectic_hecke_words %s' % ((w, lb, b),), lambda w=w, lb=lb, b=b: P(*w).get_symplectic_hecke_words(lb, b))
            for name in ('get_reduced_words', 'get_involution_words', 'get_fpf_involution_words', 'get_atoms', 'get_fpf_atoms', 'get_min_atom', 'code', 'shape', 'bruhat_covers',
                         'get_reduced_word', 'get_involution_word', 'get_fpf_involution_word', 'involution_bruhat_covers', 'rothe_diagram'):
                if name == 'get_fpf_atoms' and len(w) < 4 or 'involution' in name and w == (2, 3, 1) or name in ('get_atoms', 'get_min_atom') and w == (2, 3, 1) or 'fpf' in name and len(w) < 4 and len(w) != 2:
                    continue
                call('%s %s' % (name, w), lambda name=name, w=w: getattr(P(*w), name)())
            for n in (2, 3):
                call('stable_grothendieck %s' % ((w, n),), lambda w=w, n=n: P(*w).stable_grothendieck(n, 4))
                if w != (2, 3, 1):
                    call('involution_stable_grothendieck %s' % ((w, n),), lambda w=w, n=n: P(*w).involution_stable_grothendieck(n, 3))
                if len(w) == 4:
                    call('symplectic_stable_grothendieck %s' % ((w, n),), lambda w=w, n=n: P(*w).symplectic_stable_grothendieck(n, 3))
        else:
            for name in ('get_atoms', 'get_involution_words') + (('get_atoms_d',) if P(*w).is_even_signed() else ()):
                call('%s %s' % (name, w), lambda name=name, w=w: getattr(P(*w), name)())
    for n in (2, 3):
        for s in (False, True):
            call('all %s' % ((n, s),), lambda n=n, s=s: P.all(n, s))
            call('involutions %s' % ((n, s),), lambda n=n, s=s: P.involutions(n, signed=s))
    for n in (2, 4):
        call('fpf %s' % n, lambda n=n: P.fpf_involutions(n), 'fpf %s' % n)
        call('fpf alt %s' % n, lambda n=n: P.involutions(n, fpf=True), 'fpf %s' % n)
    call('little_bump', lambda: P.little_bump((1, 2, 1), 1, 2))
    call('involution_little_bump', lambda: P.involution_little_bump((1, 2), P(2, 1)))
    return ans


def insertions(full=False):
    I = InsertionAlgorithm
    ans = []
    words = [(1,), (2, 1), (1, 2), (1, 1), (2, 1, 2), (1, 2, 1), (2, 2)]
    for w in words:
        for m in (True, False):
            for name in ('hecke', 'orthogonal_hecke', 'symplectic_hecke'):
                v = w if name != 'symplectic_hecke' else (2,) + w if w[0] != 1 else (2,) + w
                f = getattr(I, name)
                ans += [('%s%s%s' % (name, v, m), '%s%s%s' % (name, v, m), lambda f=f, v=v, m=m: f(v, multisetvalued=m))]
                ans += [('%s%s%s' % (name, v, m), '%s%s%s explicit' % (name, v, m), lambda f=f, v=v, m=m: f(v, tuple(range(1, len(v) + 1)), m))]
                if m:
                    ans += [('%s%s%s' % (name, v, m), '%s%s%s short' % (name, v, m), lambda f=f, v=v: f(v))]
                inv = getattr(I, 'inverse_' + name)
                ans += [('back %s%s%s' % (name, v, m),) * 2 + (lambda f=f, inv=inv, v=v, m=m: inv(*f(v, multisetvalued=m), multisetvalued=m),)]
    for rec in ((1, 1), (1, 2), (2, 2)):
        ans.append(('hecke 13 rec%s' % (rec,),) * 2 + (lambda rec=rec: I.hecke((2, 1) if rec == (1, 2) else (1, 3), rec, True),))
        ans.append(('ortho 12 rec%s' % (rec,),) * 2 + (lambda rec=rec: I.orthogonal_hecke((1, 2), rec, True),))
    return ans


def vsts(full=False):
    ans = []
    V = ValuedSetTableau
    for mu, nu in (((2,), ()), ((2, 1), ()), ((3, 1), (1,)), ((3,), (1,))):
        for dp in (True, False):
            for n in (1, 2):
                ans += spell('all', V.all, ('max_entry', 'mu', 'nu', 'diagonal_primes'), (n, mu, nu, dp), ((), True))[:3]
                ans.append(('transitions %s' % ((n, mu, nu, dp),),) * 2 + (lambda n=n, mu=mu, nu=nu, dp=dp: [t.transition(i) for t in sorted(V.all(n, mu, nu, dp), key=lambda t: repr(frozen(t))) for i in (1,)],))
        ans += spell('all_interstandard', V.all_interstandard, ('mu', 'nu'), (mu, nu), ((),))[:3]
        ans.append(('parts %s' % ((mu, nu),),) * 2 + (lambda mu=mu, nu=nu: [(t.forward_transition(1), t.forward_transition(1).middle_transition(1)) for t in sorted(V.all(2, mu, nu), key=lambda t: repr(frozen(t)))],))
    return ans


def graph(g):
    n = len(g)
    return [[g.f_crystal_operator(a, i) for i in range(1, g.rank)] for a in range(n)], sorted(g.edges), sorted(map(sorted, g.components))


def crystals(full=False):
    ans = []
    C = crystal_module
    for mu, n, m, s in (((1,), 2, False, True), ((2,), 2, False, True), ((2, 1), 2, False, True), ((2,), 3, False, False), ((2, 1), 3, False, False)):
        ans.append(('tableau crystal %s' % ((mu, n, m, s),),) * 2 + (lambda mu=mu, n=n, m=m, s=s: graph(C.TableauCrystalGenerator(mu, n, m, s)),))
    for w, k, l, d in (((2, 1), 2, 1, False), ((2, 1), 2, 2, False), ((3, 2, 1), 2, 3, False), ((3, 2, 1), 2, 3, True), ((2, 3, 1), 2, 3, False), ((2, 1), 2, 1, True)):
        ans.append(('word crystal %s' % ((w, k, l, d),),) * 2 + (lambda w=w, k=k, l=l, d=d: graph(C.WordCrystalGenerator(w, k, l, d)),))
        ans.append(('factorizations %s' % ((w, k, l, d),),) * 2 + (lambda w=w, k=k, l=l, d=d: C.WordCrystalGenerator(w, k, l, d).factorizations,))
    return ans


def words(full=False):
    """functions of words, with every option"""
    ans = []
    ws = [(), (1,), (1, 1), (1, 2), (2, 1), (1, 2, 1), (2, 1, 2), (1, 1, 2), (2, 2, 1)] + ([(1, 3, 2), (2, 1, 3), (1, 2, 1, 2)] if full else [])
    for w in ws:
        for i in (1, 2):
            for name in ('f_crystal_operator', 'e_crystal_operator'):
                f = getattr(Word, name)
                key = '%s %s %s' % (name, i, w)
                ans.append((key, key, lambda f=f, i=i, w=w: f(i, w)))
                ans.append((key, key + ' unpack', lambda f=f, i=i, w=w: f(i, w, unpack=True)))
                ans.append((key + ' kept',) * 2 + (lambda f=f, i=i, w=w: f(i, w, unpack=False),))
                if len(w) > 1:
                    ans.append((key + ' cut',) * 2 + (lambda f=f, i=i, w=w: f(i, w[:1], w[1:]),))
                    ans.append((key + ' letters',) * 2 + (lambda f=f, i=i, w=w: f(i, *[(a,) for a in w]),))
        for name in ('descent_set', 'ascents', 'peaks', 'increasing_zeta', 'decreasing_zeta', 'weakly_increasing_zeta', 'weakly_decreasing_zeta', 'unimodal_zeta',
                     'right_weakly_unimodal_zeta', 'left_weakly_unimodal_zeta', 'weakly_unimodal_zeta'):
            f = getattr(Word, name)
            ans.append(('%s %s' % (name, w),) * 2 + (lambda f=f, w=w: f(w),))
            if name.endswith('zeta') and (len(w) > 1 or full):
                ans.append(('quasisymmetrize %s %s' % (name, w),) * 2 + (lambda f=f, w=w: Word.quasisymmetrize(w, f),))
        if w:
            for name in ('wiring_diagram',) + (('involution_wiring_diagram',) if w in ((1,), (1, 2), (2, 1)) else ()):
                f = getattr(Word, name)
                ans.append(('%s %s' % (name, w),) * 2 + (lambda f=f, w=w: f(w),))
                ans.append(('%s %s labels' % (name, w),) * 2 + (lambda f=f, w=w: f(w, labels=list(range(5, 5 + max(w) + 1))),))
    return ans


def values(full=False):
    """operations on tableaux and permutations, with every option"""
    ans = []
    tabs = [{(1, 1): 1, (1, 2): 2, (2, 1): 2}, {(1, 1): (1, 2), (1, 2): 2}, {(1, 1): (1, 1), (1, 2): (1, 2)}, {(1, 1): 1, (1, 2): -2, (2, 2): 2}, {(1, 1): (-1, 1), (1, 2): 2}, {(1, 2): 1, (2, 1): 1}, {(1, 1): 2, (1, 2): 1}]

    def call(label, thunk):
        ans.append((label, label, thunk))
    for k, d in enumerate(tabs if full else tabs[:5]):
        t = lambda d=d: Tableau(dict(d))
        if min(min(v) if isinstance(v, tuple) else v for v in d.values()) > 0:
            for i in (1, 2):
                for op in ('e_crystal_operator', 'f_crystal_operator'):
                    for m in (True, False):
                        if m or k != 2:
                            call('t%d.%s(%s, %s)' % (k, op, i, m), lambda t=t, op=op, i=i, m=m: getattr(t(), op)(i, multisetvalued=m))
        for b in (True, False):
            call('t%d.is_semistandard(%s)' % (k, b), lambda t=t, b=b: t().is_semistandard(b))
            call('t%d.negate(%s)' % (k, b), lambda t=t, b=b: t().negate(b))
            call('t%d.get(1, 1, unpack=%s)' % (k, b), lambda t=t, b=b: t().get(1, 1, unpack=b))
        call('t%d.get default' % k, lambda t=t: (t().get(5, 5), t().get(5, 5, 3), t().get(5, 5, default=0)))
        for n in (None, 2, 3):
            call('t%d.weight(%s)' % (k, n), lambda t=t, n=n: t().weight(n))
        for r in (None, 1, 2):
            call('t%d.max_row(%s)' % (k, r), lambda t=t, r=r: (t().max_row(r), t().max_column(r)))
        for a in (1, 2):
            call('t%d.rows %d' % (k, a), lambda t=t, a=a: (t().get_row(a), t().get_column(a), t().get_row(a, before=2), t().get_column(a, after=1), t().last_box_in_row(a), t().last_box_in_column(a), t().find(a)))
            call('t%d.add %d' % (k, a), lambda t=t, a=a: t().add(1, 1, a))
            call('t%d.remove %d' % (k, a), lambda t=t, a=a: t().remove(1, a))
        for name in ('transpose', 'standardize', 'double', 'shape', 'row_reading_word', 'column_reading_word', 'crystal_reading_word', 'descent_set', 'serialize', 'tex', '__repr__', 'counter', '__hash__'):
            call('t%d.%s' % (k, name), lambda t=t, name=name: getattr(t(), name)())
    ws = [(), (2, 1), (3, 2, 1), (2, 3, 1), (2, 1, 4, 3), (-1,), (-2, -1)] + ([(3, 1, 2), (1, 3, 2), (3, 4, 1, 2), (1, -2)] if full else [])
    P = Permutation
    for u in ws:
        call('w%s' % (u,), lambda u=u: (P(*u).inverse(), P(*u).cycles, P(*u).cycle_repr(), repr(P(*u)), P(*u).right_descent_set, P(*u).left_descent_set, len(P(*u)), P(*u).tex() if u else None))
        for e in (-2, -1, 0, 1, 2, 3):
            call('w%s ** %d' % (u, e), lambda u=u, e=e: P(*u) ** e)
        for v in ws[:6]:
            call('w%s * w%s' % (u, v), lambda u=u, v=v: P(*u) * P(*v))
            call('w%s %% w%s' % (u, v), lambda u=u, v=v: P(*u) % P(*v))
            call('w%s ? w%s' % (u, v), lambda u=u, v=v: (P(*u) == P(*v), P(*u) < P(*v)))
    for i in (0, 1, 2):
        call('s_%d' % i, lambda i=i: P.s_i(i))
        for j in (3, 4):
            call('reflections %d %d' % (i, j), lambda i=i, j=j: (P.reflection_s(i, j), P.reflection_t(i, j), P.transposition(i, j)) if i else P.longest_element(j))
    for n in (2, 3):
        for sgn in (False, True):
            call('longest %d %s' % (n, sgn), lambda n=n, sgn=sgn: P.longest_element(n, signed=sgn))
        for mu in ((), (1,), (2,), (2, 1)):
            call('grassmannian %s' % (mu,), lambda mu=mu: (P.get_grassmannian(*mu), P.get_inv_grassmannian(*mu), P.get_fpf_grassmannian(*mu)))
        call('grassmannians %d' % n, lambda n=n: (list(P.grassmannians(n)), list(P.inv_grassmannians(n))))
    for w in ((1,), (1, 2), (2, 1), (1, 2, 1), (2,)):
        call('from words %s' % (w,), lambda w=w: (P.from_word(w), P.from_involution_word(w, strict=False), P.from_fpf_involution_word(w, strict=False)))
        call('from involution word %s' % (w,), lambda w=w: P.from_involution_word(w))
        for j, k in ((1, 2), (1, 3), (2, 3)):
            call('bump %s %d %d' % (w, j, k), lambda w=w, j=j, k=k: P.little_bump(w, j, k))
            if w != (1, 2, 1):
                call('involution bump %s %d %d' % (w, j, k), lambda w=w, j=j, k=k: P.involution_little_bump(w, j, k))
    return ans


def boxoperators(full=False):
    """operators on partitions and in the algebra of box operators; the operator objects are shared by all calls of one entry"""
    O = operators
    ans = []

    def call(label, thunk):
        ans.append((label, label, thunk))
    mus = [(), (2,), (2, 1)] + ([(1,), (3, 1), (3, 2), (3, 2, 1)] if full else [])
    args = mus + [Vector({(2,): 1, (2, 1): BETA}), Vector({(1,): 2, (2,): -1})]
    for f in (O.operator_shifted_add, O.operator_shifted_row_remove, O.operator_shifted_column_remove):
        for d in (0, 1, 2, -1):
            op = f(d)
            for mu in args:
                call('%s(%d) %s' % (f.__name__, d, mu), lambda op=op, mu=mu: op(mu))
    for f in (O.operator_AL, O.operator_AR, O.operator_R, O.operator_C):
        for n in (1, 2):
            op, other = f(n), f(n, var=Polynomial.x(5))
            for mu in args if full else args[1:4]:
                call('%s(%d) %s' % (f.__name__, n, mu), lambda op=op, mu=mu: op(mu))
                call('%s(%d, x5) %s' % (f.__name__, n, mu), lambda op=other, mu=mu: op(mu))
    for f in (dualops.sh_horizontal_strip, dualops.sh_vertical_strip):
        for a, b in ((0, 0), (0, 1), (1, 1), (1, 2)):
            op = f(a, b)
            for mu in mus:
                call('%s(%d, %d) %s' % (f.__name__, a, b, mu), lambda op=op, mu=mu: op(mu))
    B = boxes.BoxOperator
    ops = [B(0), B(0, 1), B(0, -1), B(0, 2), B(0, 1, 2) - B(0, 2, 1), B(), B(1, 1)]
    for i, a in enumerate(ops):
        for j, b in enumerate(ops):
            call('b%d b%d' % (i, j), lambda a=a, b=b: [a * b, a + b, a - b] + [a == b])
        call('b%d' % i, lambda a=a: (repr(a), -a, 2 * a))
    for n in (0, 1, 2):
        call('commutator %d' % n, lambda n=n: B.commutator(n))
    return ans


def diagrams(full=False):
    """growth diagrams and editing of partitions"""
    ans = []
    P = Partition

    def call(label, thunk):
        ans.append((label, label, thunk))
    for d in ((1,), (2, 1), (1, 2), (1, 1), (2, 1, 2), (1, 2, 1), {(1, 1): 1, (2, 2): 1}, {(1, 2): 1, (2, 1): 1}, {}):
        for m, n in ((None, None), (3, 3), (4, 3)):
            if isinstance(d, dict):
                call('growth %s %s %s' % (d, m, n), lambda d=d, m=m, n=n: P.growth_diagram(d, m, n))
            call('shifted growth %s %s %s' % (d, m, n), lambda d=d, m=m, n=n: P.shifted_growth_diagram(d, m, n))
        if isinstance(d, dict):
            call('growth %s' % (d,), lambda d=d: P.growth_diagram(d))
        call('shifted growth %s' % (d,), lambda d=d: P.shifted_growth_diagram(d))
        call('tableaux of growth %s' % (d,), lambda d=d: Tableau.from_shifted_growth_diagram(*P.shifted_growth_diagram(d)[:3]))
    for mu in ((), (1,), (2,), (2, 1), (3, 1), (3, 2, 1)):
        for k in (1, 2, 3):
            call('edit %s %d' % (mu, k), lambda mu=mu, k=k: P.add(mu, k))
            call('remove %s %d' % (mu, k), lambda mu=mu, k=k: P.remove_inner_corner(mu, k))
            call('shifted remove %s %d' % (mu, k), lambda mu=mu, k=k: P.remove_shifted_inner_corner(mu, k))
            call('corners %s %d' % (mu, k), lambda mu=mu, k=k: (P.find_shifted_inner_corner(mu, k), P.find_shifted_outer_corner(mu, k), P.get(mu, k)))
            call('complement %s %d' % (mu, k), lambda mu=mu, k=k: P.complement(k, mu))
        for nu in ((), (1,), (2,)):
            for sh in (False, True):
                call('skew %s %s %s' % (mu, nu, sh), lambda mu=mu, nu=nu, sh=sh: P.skew(mu, nu, shifted=sh))
                call('skew key %s %s %s' % (mu, nu, sh), lambda mu=mu, nu=nu, sh=sh: P.skew_key(mu, nu, shifted=sh))
                call('printable %s %s %s' % (mu, nu, sh), lambda mu=mu, nu=nu, sh=sh: P.printable(mu, nu, shifted=sh))
            call('shapes %s %s' % (mu, nu), lambda mu=mu, nu=nu: (P.shape(mu), P.shifted_shape(mu, nu), P.contains(mu, nu), P.union(mu, nu)))
        call('decrement %s' % (mu,), lambda mu=mu: (P.decrement_one(mu), P.decrement_strict(mu)))
        call('tests %s' % (mu,), lambda mu=mu: (P.is_partition(mu), P.is_strict(mu), P.is_strict_partition(mu), P.trim(mu + (0,)), P.sort(mu[::-1]), P.sort(mu + (0,), trim=True)))
    for alpha in ((1,), (2,), (3, 2), (2, 2), (3, 1), (4, 2, 1)):
        call('shifted ribbon %s' % (alpha,), lambda alpha=alpha: P.shifted_ribbon(alpha))
    return ans


FAMILIES = dict(functions=functions, expansions=expansions, tableaux=tableaux, partitions=partitions, permutations=permutations, insertions=insertions, vsts=vsts, crystals=crystals,
                words=words, values=values, boxoperators=boxoperators, diagrams=diagrams)
