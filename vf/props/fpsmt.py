"""Symbolic floating point (hwtypes.smt_fp_vector) and the types of floating point."""
import itertools

import z3

from ..registry import Case, prop
from .fp import MODES, ftype

NOTE = 'formulas are translated to z3 by pysmt; FPVector on concrete operands is the reference (F01-F04 decide FPVector itself)'

UNARY = ('fp_abs', 'fp_neg', 'fp_sqrt', 'fp_round_to_integral')
BINARY = ('fp_add', 'fp_sub', 'fp_mul', 'fp_div', 'fp_rem', 'fp_min', 'fp_max')
TESTS = ('fp_is_normal', 'fp_is_subnormal', 'fp_is_zero', 'fp_is_infinite', 'fp_is_NaN', 'fp_is_negative', 'fp_is_positive')
ORDER = ('fp_leq', 'fp_lt', 'fp_geq', 'fp_gt', 'fp_eq')
OPS = {'fp_add': lambda a, b: a + b, 'fp_sub': lambda a, b: a - b, 'fp_mul': lambda a, b: a * b, 'fp_div': lambda a, b: a / b,
       'fp_rem': lambda a, b: a % b, 'fp_leq': lambda a, b: a <= b, 'fp_lt': lambda a, b: a < b, 'fp_geq': lambda a, b: a >= b,
       'fp_gt': lambda a, b: a > b, 'fp_eq': lambda a, b: a == b}
OPS1 = {'fp_abs': lambda a: abs(a), 'fp_neg': lambda a: -a}


def stype(eb, mb, mode, ieee):
    from hwtypes import SMTFPVector, RoundingMode
    return SMTFPVector[eb, mb, RoundingMode[mode], ieee]


def var(env, T, name):
    from ..env import _uniq
    u = f'{name}!{next(_uniq)}'
    o = T(name=u)
    env._keep.append(o)
    env._bind(z3.BitVec(u, T.size), name, T.size)
    return o


def term(env, o):
    from ..env import z3_of_pysmt
    if hasattr(o, 'reinterpret_as_bv'):
        o = o.reinterpret_as_bv()
    t = z3_of_pysmt(o.value)
    return z3.substitute(t, *env._subst) if env._subst else t


class Facts:
    """what FPVector answers, as equations on the formulas of SMTFPVector"""
    def __init__(self, env, S, C):
        self.env, self.S, self.C = env, S, C
        self.w = S.size
        self.names = [z3.BitVec(f'arg{i}w{self.w}', self.w) for i in range(3)]
        self.args = [self._free(n) for n in self.names]
        self.out = []
        self.value = {}

    def _free(self, n):
        import pysmt.shortcuts as sc
        from pysmt.typing import BVType
        return self.S(sc.Symbol(str(n), BVType(self.w)))

    def fp(self, v):
        if v not in self.value:
            from hwtypes import BitVector
            self.value[v] = self.C.reinterpret_from_bv(BitVector[self.w](v))
        return self.value[v]

    def add(self, f, n, values, skip=lambda *a: False):
        """f on n arguments taken from values"""
        t = term(self.env, f(*self.args[:n]))
        for vs in itertools.product(values, repeat=n):
            xs = [self.fp(v) for v in vs]
            if skip(*xs):
                continue
            r = f(*xs)
            if hasattr(r, 'reinterpret_as_bv'):
                r = r.reinterpret_as_bv()
            g = z3.substitute(t, *[(a, z3.BitVecVal(v, self.w)) for a, v in zip(self.names, vs)])
            self.out.append((g if bool(r) else z3.Not(g)) if z3.is_bool(g) else g == z3.BitVecVal(int(r), g.size()))


def patterns(F, C):
    """the bit patterns values of the type have"""
    out = []
    for v in range(1 << C.size):
        from hwtypes import BitVector
        if int(C.reinterpret_from_bv(BitVector[C.size](v)).reinterpret_as_bv()) == v:
            out.append(v)
    return out


def facts(env, S, C, ops, values=None):
    F = Facts(env, S, C)
    vals = values or patterns(F, C)
    few = vals[::max(1, len(vals) // 7)]
    call = lambda nm: (lambda x, *a: getattr(x, nm)(*a))
    for nm in ops:
        if nm in UNARY + TESTS:
            F.add(call(nm), 1, vals)
            if nm in OPS1:
                F.add(OPS1[nm], 1, vals)
        elif nm in BINARY + ORDER:
            F.add(call(nm), 2, vals)
            if nm in OPS:
                F.add(OPS[nm], 2, few)
        elif nm == '!=':
            F.add(lambda a, b: a != b, 2, vals)
        elif nm == 'fp_fma':
            F.add(call(nm), 3, few)
        elif nm == 'mixed':
            F.add(lambda a, b, c: (a + b) * c, 3, few)
            F.add(lambda a, b, c: a.fp_fma(b, -c), 3, few)
            F.add(lambda a, b, c: (a - b) < abs(c), 3, few)
        else:
            k, n = nm
            odd = lambda x: bool(x.fp_is_NaN()) or bool(x.fp_is_infinite())
            F.add(lambda x: getattr(x, k)(n), 1, vals, odd)
    return F.out


ALL = UNARY + BINARY + TESTS + ORDER + ('!=', 'fp_fma', 'mixed', ('to_ubv', 3), ('to_sbv', 3), ('to_ubv', 7), ('to_sbv', 7))


def sound(env, eb, mb, mode, ieee):
    """floating-point arithmetic itself is one of the interpretations of every formula"""
    b = (eb, mb, mode, ieee)
    env.consistent('FPVector satisfies the formulas', facts(env, stype(*b), ftype(*b), ALL))


PAIR = ('fp_add', 'fp_mul', 'fp_div', 'fp_sqrt', 'fp_round_to_integral', 'fp_is_normal', 'fp_is_subnormal', 'fp_abs', 'fp_lt', 'fp_neg',
        ('to_sbv', 4), ('to_ubv', 4))


def sound2(env, b1, b2):
    """formats do not share functions"""
    env.consistent('both formats at once', facts(env, stype(*b1), ftype(*b1), PAIR) + facts(env, stype(*b2), ftype(*b2), PAIR))


def derived(env, b1, b2, how):
    """classes derived by users mean what their format says, whatever they are called"""
    from hwtypes import SMTFPVector, RoundingMode
    A, B = stype(*b1), stype(*b2)
    if how == 'bound':
        S1, S2 = type('Mine', (A,), {}), type('Mine', (B,), {})
    else:
        G = type('Mine', (SMTFPVector,), {})
        S1, S2 = G[A.binding], G[B.binding]
        env.check('derived from the type of the format', issubclass(S1, A) and issubclass(S2, B) and issubclass(S1, G))
    env.consistent('both classes at once', facts(env, S1, ftype(*b1), PAIR) + facts(env, S2, ftype(*b2), PAIR))
    x = var(env, S1, 'x')
    for nm in ('fp_abs', 'fp_sqrt'):
        r = getattr(x, nm)()
        env.check('result type', type(r) is S1, type(r))


def forms(env, eb, mb, mode, ieee):
    """operators are the methods; results have the documented types; equal operands, equal results"""
    from hwtypes import SMTBit, SMTBitVector
    T = stype(eb, mb, mode, ieee)
    w = 1 + eb + mb
    x, y, z = var(env, T, 'x'), var(env, T, 'y'), var(env, T, 'z')
    from ..sym import mkbool

    def same(label, a, b, typ, hyp=None):
        env.check(label + ': type', type(a) is typ, type(a))
        g = term(env, a) == term(env, b)
        env.check(label, mkbool(z3.simplify(z3.Implies(hyp, g) if hyp is not None else g)) if env.symbolic else
                  valid(z3.Implies(hyp, g) if hyp is not None else g))

    before = term(env, x)
    tx, ty, tz = term(env, x), term(env, y), term(env, z)
    for nm, f in OPS.items():
        typ = T if nm in BINARY else SMTBit
        same(nm, f(x, y), getattr(x, nm)(y), typ)
        same(nm + ' of equal operands', getattr(x, nm)(z), getattr(y, nm)(z), typ, tx == ty)
        same(nm + ' of equal operands', getattr(z, nm)(x), getattr(z, nm)(y), typ, tx == ty)
    same('!=', x != y, ~x.fp_eq(y), SMTBit)
    for nm in UNARY + TESTS:
        typ = SMTBit if nm in TESTS else T
        same(nm + ' of equal operands', getattr(x, nm)(), getattr(y, nm)(), typ, tx == ty)
    same('neg', -x, x.fp_neg(), T)
    same('abs', abs(x), x.fp_abs(), T)
    same('fma of equal operands', x.fp_fma(z, y), y.fp_fma(z, x), T, tx == ty)
    for nm in ('to_ubv', 'to_sbv'):
        for n in (1, w, 9):
            same(nm + ' of equal operands', getattr(x, nm)(n), getattr(y, nm)(n), SMTBitVector[n], tx == ty)
    # bits of a value
    b = x.reinterpret_as_bv()
    same('bits', b, x, SMTBitVector[w])
    same('from bits', T.reinterpret_from_bv(b), x, T)
    same('of a value', T(x), x, T)
    same('of a term', T(b.value), x, T)
    same('operations on bits', T.reinterpret_from_bv(b) + z, x + z, T)
    v = env.int('v', 0, (1 << w) - 1)
    k = T(v)
    same('constant in an operation', k + z, x + z, T, tx == (term(env, k)))
    env.eq('bits of a constant', k.reinterpret_as_bv(), v)
    env.check('operand unchanged', term(env, x).eq(before))


def valid(t):
    s = z3.Solver()
    s.set('timeout', 60000)
    s.add(z3.Not(t))
    return s.check() == z3.unsat


def refusals(env, eb, mb, mode, ieee):
    """operands of another format, size or kind are refused"""
    from hwtypes import BitVector, SMTBitVector, SMTBit, FPVector
    T = stype(eb, mb, mode, ieee)
    w = 1 + eb + mb
    others = [stype(eb + 1, mb, mode, ieee), stype(eb, mb, mode, not ieee), stype(eb, mb, MODES[MODES.index(mode) - 1], ieee)]
    if mb > 1:
        others.append(stype(eb + 1, mb - 1, mode, ieee))
    x = var(env, T, 'x')
    bad = [var(env, U, f'y{i}') for i, U in enumerate(others)] + [SMTBitVector[w](3), 1, 1.0, None, SMTBit(1)]
    for y in bad:
        for nm in BINARY + ORDER:
            env.raises(f'{nm} of {type(y).__name__}', TypeError, lambda: getattr(x, nm)(y))
        env.raises('fma', TypeError, lambda: x.fp_fma(y, x))
        env.raises('fma', TypeError, lambda: x.fp_fma(x, y))
        for nm, f in OPS.items():
            env.raises(f'{nm} of {type(y).__name__}', TypeError, lambda: f(x, y))
    env.raises('too few bits', TypeError, lambda: T.reinterpret_from_bv(SMTBitVector[w - 1](0)))
    env.raises('too many bits', TypeError, lambda: T.reinterpret_from_bv(SMTBitVector[w + 1](0)))
    for v in (0, 1, (1 << w) - 1):
        for n in (w - 1, w + 1, 2):
            env.raises('concrete bits of another size', TypeError, lambda: T.reinterpret_from_bv(BitVector[n](v)))
            env.raises('bits of another size', TypeError, lambda: FPVector[T.binding].reinterpret_from_bv(BitVector[n](v)))
        env.raises('plain value as bits', TypeError, lambda: T.reinterpret_from_bv(v))
    for v in (None, 1.0, x.value if hasattr(x, 'value') else '1', SMTBit(1)):
        env.raises('no bits', TypeError, lambda: T.reinterpret_from_bv(v))
    env.raises('term of another size', TypeError, lambda: T(SMTBitVector[w + 1]().value))
    env.raises('term of another kind', TypeError, lambda: T(SMTBit().value))
    for v in (None, 'x', 1.0, [1], SMTBit(1)):
        env.raises('not a value', TypeError, lambda: T(v))
    env.raises('value of another format', TypeError, lambda: T(bad[0]))


@prop('F05', bounds='every value and pair of values of formats (2,2) (quick), also (3,2) and (2,3) (thorough), 7 values per operand of '
      'fused and nested operations; all modes, both kinds of types; pairs of formats of equal size; bits of formats up to (5,10)',
      world='fp', outside='wider formats; operations nested deeper than two', assumptions=[NOTE])
def f05(tier):
    q = tier == 'quick'
    for ieee in (True, False):
        for mode in MODES:
            for eb, mb in ((2, 2),) if q else ((2, 2), (3, 2), (2, 3)):
                yield Case(f'sound[{eb},{mb},{mode},{ieee}]', sound, dict(eb=eb, mb=mb, mode=mode, ieee=ieee), core=(eb, mb) == (2, 2))
            for eb, mb in ((2, 2), (3, 2), (5, 10)):
                yield Case(f'forms[{eb},{mb},{mode},{ieee}]', forms, dict(eb=eb, mb=mb, mode=mode, ieee=ieee))
        yield Case(f'refusals[{ieee}]', refusals, dict(eb=3, mb=2, mode='RTP', ieee=ieee))
    pairs = [((2, 2, a, True), (2, 2, b, True)) for a, b in itertools.combinations(MODES, 2)]
    pairs += [((2, 2, m, True), (2, 2, m, False)) for m in MODES] + [((2, 3, 'RNE', True), (3, 2, 'RNE', True))]
    for b1, b2 in pairs:
        yield Case(f'two formats[{b1},{b2}]', sound2, dict(b1=b1, b2=b2))
    for how in ('bound', 'generic'):
        for b1, b2 in (((2, 2, 'RNE', True), (2, 2, 'RTZ', True)), ((2, 2, 'RNE', True), (3, 2, 'RNE', True)),
                       ((2, 2, 'RTP', True), (2, 2, 'RTP', False))):
            yield Case(f'derived[{how},{b1},{b2}]', derived, dict(b1=b1, b2=b2, how=how))


# ---- F06 --------------------------------------------------------------------------
def families():
    from hwtypes import FPVector, SMTFPVector
    return {'c': FPVector, 'smt': SMTFPVector}


def binding(env, tag, hi):
    from hwtypes import RoundingMode
    eb, mb = env.concrete(env.int('eb' + tag, 1, hi)), env.concrete(env.int('mb' + tag, 1, hi))
    if not isinstance(eb, int):
        eb = eb.concretize()
    if not isinstance(mb, int):
        mb = mb.concretize()
    return eb, mb, RoundingMode[env.pick('mode' + tag, MODES)], env.pick('ieee' + tag, [True, False])


def one_type(env, fam, hi):
    """there is one type per binding and it knows its binding"""
    G = families()[fam]
    a = binding(env, '1', hi)
    b = binding(env, '2', hi)
    A, B = G[a], G[b]
    env.check('one type per binding', (A is B) == (a == b), (a, b))
    for T, t in ((A, a), (B, b)):
        env.check('binding', T.binding == t and T.is_bound)
        env.check('sizes', (T.exponent_size, T.mantissa_size, T.size) == (t[0], t[1], 1 + t[0] + t[1]))
        env.check('mode', T.mode is t[2] and T.ieee_compliance is t[3])
        env.check('unbound type', T.unbound_t is G)
        env.check('a class of its generic type', issubclass(T, G))
    env.check('unrelated', a == b or not (issubclass(A, B) or issubclass(B, A)))
    env.check('asked again', G[a] is A and G[b] is B)
    env.raises('already bound', TypeError, lambda: A[b])


def generic(env, fam):
    """generic types have no sizes"""
    G = families()[fam]
    H = type('H', (G,), {})
    for X in (G, H):
        env.check('not bound', not X.is_bound and X.binding is None and X.unbound_t is X)
        for nm in ('size', 'exponent_size', 'mantissa_size', 'mode', 'ieee_compliance'):
            env.raises(nm, AttributeError, lambda: getattr(X, nm))


def bad_bindings(env, fam, make_first):
    """parameters of the wrong kind are refused, whatever types exist"""
    from hwtypes import RoundingMode
    G = families()[fam]
    eb = env.pick('eb', [1, 2, 3])
    mb = env.pick('mb', [1, 2, 3])
    mode = RoundingMode[env.pick('mode', MODES)]
    ieee = env.pick('ieee', [True, False])
    keep = G[eb, mb, mode, ieee] if make_first else None
    for bad in ((eb, mb, mode, int(ieee)), (eb, mb, mode, float(ieee)), (float(eb), mb, mode, ieee), (eb, float(mb), mode, ieee),
                (eb, mb, mode.name, ieee), (eb, mb, mode.value, ieee), (eb, mb, mode), (eb, mb), (eb, mb, mode, ieee, 1),
                (eb, mb, ieee, mode), (None, mb, mode, ieee)):
        env.raises(f'{len(bad)} {[type(b).__name__ for b in bad]}', IndexError, lambda: G[bad])
    if eb == 1:
        env.raises('bool as a size', IndexError, lambda: G[True, mb, mode, ieee])
    if mb == 1:
        env.raises('bool as a size', IndexError, lambda: G[eb, True, mode, ieee])
    for bad in ((0, mb, mode, ieee), (eb, 0, mode, ieee), (-eb, mb, mode, ieee), (eb, -mb, mode, ieee)):
        env.raises('no bits', ValueError, lambda: G[bad])
    del keep


def derive(env, fam):
    """derived classes keep the binding; classes of two bindings are refused"""
    G = families()[fam]
    a, b = binding(env, '1', 2), binding(env, '2', 2)
    A, B = G[a], G[b]
    D = type('D', (A,), {})
    env.check('derived binding', D.binding == a and D.is_bound and D.size == A.size and D.mode is A.mode)
    env.check('derived', issubclass(D, A) and D is not A)
    env.raises('no generic type', AttributeError, lambda: D.unbound_t)
    env.raises('already bound', TypeError, lambda: D[a])
    E = type('E', (D,), {})
    env.check('derived twice', E.binding == a and issubclass(E, D))
    X = type('X', (G,), {})
    env.check('derived generic type', X[a].binding == a and X[a].unbound_t is X and issubclass(X[a], A) and issubclass(X[a], X))
    env.check('one type per binding', X[a] is X[a] and X[a] is not A and (X[a] is X[b]) == (a == b))
    if a != b:
        env.raises('two bindings', TypeError, lambda: type('Z', (A, B), {}))
        env.raises('two bindings', TypeError, lambda: type('Z', (D, B), {}))
    else:
        Z = type('Z', (D, X[b]), {})
        env.check('one binding twice', Z.binding == a)
    env.raises('reserved name', TypeError, lambda: type('Z', (A,), {'_info_': (None, a)}))
    env.raises('reserved name', TypeError, lambda: type('Z', (G,), {'_info_': (None, None)}))
    if fam == 'c':
        env.raises('reserved name', TypeError, lambda: type('Z', (A,), {'_ctx_': 3}))
        import gmpy2
        env.raises('reserved name', TypeError, lambda: type('Z', (A,), {'_ctx_': gmpy2.context(precision=77)}))
        x = D('0.5')
        env.check('results', type(x + x) is D and type(A(x)) is A and type(D(A(1))) is D)
        env.check('operands of one format', type(x + A(1)) is D and type(A(1) + x) is A and bool(x + A(1) == A(1) + x))


@prop('F06', bounds='pairs of bindings with sizes 1..3 (quick) / 1..4, all modes, both kinds; derivations from pairs of bindings with sizes 1..2',
      outside='wider formats', world='fp', assumptions=[])
def f06(tier):
    for fam in ('c', 'smt'):
        yield Case(f'one type[{fam}]', one_type, dict(fam=fam, hi=2 if tier == 'quick' else 3))
        yield Case(f'generic[{fam}]', generic, dict(fam=fam))
        for first in (True, False):
            yield Case(f'bad bindings[{fam},{first}]', bad_bindings, dict(fam=fam, make_first=first))
        yield Case(f'derive[{fam}]', derive, dict(fam=fam))
