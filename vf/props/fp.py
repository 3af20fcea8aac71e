"""Floating point.  In symbolic runs gmpy2 is vf.fpmodel; replays use the real one."""
from fractions import Fraction

import z3

from ..registry import Case, prop

MODES = ('RNE', 'RNA', 'RTP', 'RTN', 'RTZ')
Z = {'RNE': z3.RNE(), 'RNA': z3.RNA(), 'RTP': z3.RTP(), 'RTN': z3.RTN(), 'RTZ': z3.RTZ()}
NOTE = 'gmpy2/MPFR is modelled by z3 floating-point terms; every path is replayed on the real library'
AMB = 'the ambient gmpy2 context is the default one or a hostile one (3 digits, other rounding)'


def ftype(eb, mb, mode, ieee):
    from hwtypes import FPVector, RoundingMode
    return FPVector[eb, mb, RoundingMode[mode], ieee]


def ambient(env, mode, kind):
    """calls are made under this context"""
    import gmpy2
    if kind == 'default':
        c = gmpy2.context()
    else:
        c = gmpy2.context(precision=3, round=gmpy2.RoundDown if mode == 'RTP' else gmpy2.RoundUp)
    gmpy2.set_context(c)


def ambient_kept(env, mode, kind):
    import gmpy2
    c = gmpy2.get_context()
    want = (53, gmpy2.RoundToNearest) if kind == 'default' else (3, gmpy2.RoundDown if mode == 'RTP' else gmpy2.RoundUp)
    env.check("the caller's context is kept", (c.precision, c.round) == want and not c.subnormalize, c)


class scratch:
    """the harness' own arithmetic, away from the ambient context"""
    def __init__(self, prec):
        import gmpy2
        self.g, self.c = gmpy2, gmpy2.context(precision=prec)

    def __enter__(self):
        self.old = self.g.get_context()
        self.g.set_context(self.c)

    def __exit__(self, *a):
        self.g.set_context(self.old)


def stir(env, s):
    """leave numbers of the given sign in the library's pool of freed objects"""
    if not env.symbolic:
        import gmpy2
        with scratch(4):
            junk = [gmpy2.mpfr(s) * gmpy2.mpfr(1.5) for _ in range(120)]
            del junk


def twice(env, fn, T):
    """the same operands give the same result, whatever ran before"""
    stir(env, 1)
    x = fn()
    stir(env, -1)
    y = fn()
    env.check('same operands, same result', zb(structural(zterm(env, x), zterm(env, y))), (x, y))
    return x


def bits_term(v, w):
    from ..sym import SymInt
    return v.n.low(w) if type(v) is SymInt else z3.BitVecVal(v, w)


def fp_of(bits, eb, mb):
    """z3 value of a bit pattern"""
    return z3.simplify(z3.fpBVToFP(bits, z3.FPSort(eb, mb + 1)))


def native(bits, eb, mb):
    """mpfr of a concrete bit pattern, decoded by hand"""
    import gmpy2
    s, e, m = bits >> (eb + mb), (bits >> mb) & ((1 << eb) - 1), bits & ((1 << mb) - 1)
    bias = (1 << (eb - 1)) - 1
    with scratch(mb + 1):
        if e == (1 << eb) - 1:
            # the sign of this NaN is whatever the recycled object held
            return gmpy2.mpfr(float('nan')) if m else gmpy2.mpfr('-inf' if s else 'inf')
        if e == 0 and m == 0:
            return gmpy2.mpfr('-0' if s else '0')
        q = Fraction(m) * Fraction(2) ** (1 - bias - mb) if e == 0 else Fraction(m + (1 << mb)) * Fraction(2) ** (e - bias - mb)
        return gmpy2.mpfr(gmpy2.mpq(-q if s else q))


def pattern(env, name, eb, mb, ieee):
    """an arbitrary bit pattern the type can hold"""
    v = env.int(name, 0, (1 << (1 + eb + mb)) - 1)
    if not ieee:
        m = v & ((1 << mb) - 1)
        e = (v >> mb) & ((1 << eb) - 1)
        env.assume(env.either(m == 0, env.both(e != 0, e != (1 << eb) - 1)))
    return v


def raw(env, v, eb, mb):
    """an mpfr holding a bit pattern, and its z3 value"""
    ref = fp_of(bits_term(v, 1 + eb + mb), eb, mb)
    if env.symbolic:
        from .. import fpmodel
        return fpmodel.wrap(ref), ref
    return native(v, eb, mb), ref


def arg(env, T, name, eb, mb, ieee):
    """an arbitrary value of the type, with its z3 value"""
    v = pattern(env, name, eb, mb, ieee)
    m, ref = raw(env, v, eb, mb)
    return T(m), ref


def zterm(env, x):
    v = x._value
    from .. import fpmodel
    if isinstance(v, fpmodel.mpfr):
        return v.t
    return fpmodel.from_real(v).t


def zb(t):
    from ..sym import mkbool
    return mkbool(z3.simplify(t))


def structural(a, b):
    s = z3.FPSort(max(a.sort().ebits(), b.sort().ebits()), max(a.sort().sbits(), b.sort().sbits()))
    if a.sort() != s:
        a = z3.fpFPToFP(z3.RNE(), a, s)
    if b.sort() != s:
        b = z3.fpFPToFP(z3.RNE(), b, s)
    return z3.Or(z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b)), z3.And(z3.fpEQ(a, b), z3.fpIsNegative(a) == z3.fpIsNegative(b)))


def agree(env, x, ref, ieee):
    t = zterm(env, x)
    if ieee:
        return zb(structural(t, ref))
    return zb(z3.If(z3.fpIsNaN(ref), z3.fpIsInf(t), structural(t, ref)))


def nearest_flush(mode, f, eb, mb):
    """f rounded to the values of a type without subnormals"""
    s = z3.FPSort(eb, mb + 1)
    z, u, d, r = f(Z['RTZ']), f(Z['RTP']), f(Z['RTN']), f(Z[mode])
    bias = (1 << (eb - 1)) - 1
    mn = z3.fpFP(z3.BitVecVal(0, 1), z3.BitVecVal(1, eb), z3.BitVecVal(0, mb))
    half = z3.fpFP(z3.BitVecVal(0, 1), z3.BitVecVal(0, eb), z3.BitVecVal(1 << (mb - 1), mb))
    zero = z3.fpPlusZero(s)
    pos, neg = z3.fpGT(u, zero), z3.fpLT(d, zero)       # sign of the exact value
    if mode == 'RTP':
        up = pos
    elif mode == 'RTN':
        up = neg
    elif mode == 'RTZ':
        up = z3.BoolVal(False)
    elif mode == 'RNE':
        up = z3.Or(z3.fpGT(u, half), z3.fpLT(d, z3.fpNeg(half)))
    else:
        up = z3.Or(z3.fpGEQ(z, half), z3.fpLEQ(z, z3.fpNeg(half)))
    tiny = z3.And(z3.Or(pos, neg), z3.fpLT(z3.fpAbs(z), mn))
    return z3.If(tiny, z3.If(up, z3.If(neg, z3.fpNeg(mn), mn), z3.If(neg, z3.fpMinusZero(s), zero)), r)


def rounded(mode, f, eb, mb, ieee):
    return z3.simplify(f(Z[mode]) if ieee else nearest_flush(mode, f, eb, mb))


def away(f, eb, mb, ieee):
    """what rounding away from zero gives (listed finding for RNA)"""
    s = z3.FPSort(eb, mb + 1)
    zero = z3.fpPlusZero(s)
    g = lambda m: f(Z[m]) if ieee else nearest_flush(m, f, eb, mb)
    u, d = g('RTP'), g('RTN')
    return z3.simplify(z3.If(z3.fpGT(u, zero), u, z3.If(z3.fpLT(d, zero), d, g('RNE'))))


def result(env, label, x, T, mode, f, eb, mb, ieee, whole=False):
    """x is f rounded with the type's mode (whole: no result lies between 0 and the smallest value)"""
    env.check(label + ': type', type(x) is T, type(x))
    ok = agree(env, x, rounded(mode, f, eb, mb, ieee or whole), ieee)
    if mode == 'RNA':
        env.known_deviation('rounding to nearest, ties away', ok, agree(env, x, away(f, eb, mb, ieee or whole), ieee))
    else:
        env.check(label, ok, (x, ))


def exact(env, label, x, T, ref, ieee=True):
    env.check(label + ': type', type(x) is T, type(x))
    env.check(label, agree(env, x, ref, ieee), (x,))


WIDE = ((5, 10), (8, 23), (11, 52))


# ---- F01 --------------------------------------------------------------------------
def z_rint(m, a):
    from .. import fpmodel
    return fpmodel.z_rint(m, a)


UN = {
    'sqrt': (lambda x: x.fp_sqrt(), lambda m, a: z3.fpSqrt(m, a)),
    'rint': (lambda x: x.fp_round_to_integral(), lambda m, a: z_rint(m, a)),
}
BIN = {
    'add': ((lambda x, y: x.fp_add(y), lambda x, y: x + y), lambda m, a, b: z3.fpAdd(m, a, b)),
    'sub': ((lambda x, y: x.fp_sub(y), lambda x, y: x - y), lambda m, a, b: z3.fpSub(m, a, b)),
    'mul': ((lambda x, y: x.fp_mul(y), lambda x, y: x * y), lambda m, a, b: z3.fpMul(m, a, b)),
    'div': ((lambda x, y: x.fp_div(y), lambda x, y: x / y), lambda m, a, b: z3.fpDiv(m, a, b)),
    'rem': ((lambda x, y: x.fp_rem(y), lambda x, y: x % y), lambda m, a, b: z3.fpRem(a, b)),
}


def arith1(env, op, eb, mb, mode, ieee, amb):
    T = ftype(eb, mb, mode, ieee)
    ambient(env, mode, amb)
    x, a = arg(env, T, 'x', eb, mb, ieee)
    fn, zf = UN[op]
    result(env, op, twice(env, lambda: fn(x), T), T, mode, lambda m: zf(m, a), eb, mb, ieee, op == 'rint')
    exact(env, 'operand unchanged', x, T, a, ieee)
    ambient_kept(env, mode, amb)


def arith2(env, op, eb, mb, mode, ieee, amb):
    T = ftype(eb, mb, mode, ieee)
    ambient(env, mode, amb)
    x, a = arg(env, T, 'x', eb, mb, ieee)
    y, b = arg(env, T, 'y', eb, mb, ieee)
    fns, zf = BIN[op]
    fn = env.pick('form', fns)
    result(env, op, twice(env, lambda: fn(x, y), T), T, mode, lambda m: zf(m, a, b), eb, mb, ieee)
    exact(env, 'operand unchanged', x, T, a, ieee)
    exact(env, 'operand unchanged', y, T, b, ieee)
    ambient_kept(env, mode, amb)


def arith3(env, eb, mb, mode, ieee, amb):
    T = ftype(eb, mb, mode, ieee)
    ambient(env, mode, amb)
    x, a = arg(env, T, 'x', eb, mb, ieee)
    y, b = arg(env, T, 'y', eb, mb, ieee)
    z, c = arg(env, T, 'z', eb, mb, ieee)
    from .. import fpmodel
    result(env, 'fma', twice(env, lambda: x.fp_fma(y, z), T), T, mode, lambda m: fpmodel.z_fma(m, a, b, c), eb, mb, ieee)
    ambient_kept(env, mode, amb)


@prop('F01', bounds='every pair of values of a 6 bit format (quick), 8 bit (thorough), both kinds of types, all five modes; under one ambient '
      'context also formats (5,2), (4,3), (8,7), (5,10), (8,23) and, thorough, (11,52), as far as the solver finishes', world='fp',
      outside='wider formats; addition in format (5,2), remainders in (8,7)', assumptions=[NOTE, AMB])
def f01(tier):
    small = (3, 2) if tier == 'quick' else (4, 3)
    for ieee in (True, False):
        for mode in MODES:
            for amb in ('default', 'hostile'):
                p = dict(eb=small[0], mb=small[1], mode=mode, ieee=ieee, amb=amb)
                tag = f'{mode},{"ieee" if ieee else "flush"},{amb}'
                for op in UN:
                    yield Case(f'{op}[{tag}]', arith1, dict(p, op=op))
                for op in BIN:
                    yield Case(f'{op}[{tag}]', arith2, dict(p, op=op))
                yield Case(f'fma[{tag}]', arith3, p)
            for eb, mb in ((5, 2), (4, 3), (8, 7), *WIDE):
                p = dict(eb=eb, mb=mb, mode=mode, ieee=ieee, amb='hostile')
                tag = f'{eb},{mb},{mode},{"ieee" if ieee else "flush"}'
                if (eb, mb) == (11, 52) and tier == 'quick':
                    continue
                for op in list(UN) + list(BIN) + ['fma']:
                    if mb + 1 < eb and op in ('add', 'sub', 'fma') or (eb, mb) == small or \
                            (eb, mb) == (8, 7) and (op == 'rem' or op == 'fma' and not ieee):
                        continue            # the solver cannot add in such a sort, or does not finish
                    if not ieee and (mb > 10 and op != 'rint' or op == 'rem' or op in ('mul', 'div', 'fma') and tier == 'quick'):
                        continue            # the solver does not finish
                    if not ieee and mode == 'RNA' and op not in UN:
                        continue
                    if op == 'rem' and (mb > 10 or tier == 'quick') or op == 'div' and mb > 23:
                        continue
                    if op == 'fma':
                        yield Case(f'{op}[{tag}]', arith3, p, core=False)
                    else:
                        yield Case(f'{op}[{tag}]', arith1 if op in UN else arith2, dict(p, op=op), core=False)


# ---- F02 --------------------------------------------------------------------------
def vec(env, kind, w, v):
    return env.fams['c'].of(kind)[w](v)


def from_bits(env, eb, mb, mode, ieee, amb, kind):
    """every bit pattern denotes the value the format gives it"""
    T = ftype(eb, mb, mode, ieee)
    w = 1 + eb + mb
    ambient(env, mode, amb)
    v = env.int('bits', 0, (1 << w) - 1)
    bv = vec(env, kind, w, v)
    ref = fp_of(bits_term(v, w), eb, mb)
    x = T.reinterpret_from_bv(bv)
    if not ieee:
        s = ref.sort()
        ref = z3.If(z3.fpIsSubnormal(ref), z3.If(z3.fpIsNegative(ref), z3.fpMinusZero(s), z3.fpPlusZero(s)), ref)
    exact(env, 'value of the pattern', x, T, ref, ieee)
    env.eq('vector unchanged', bv, v)
    back = x.reinterpret_as_bv()
    B = env.fams['c'].BV
    env.check('back: type', type(back) is B[w], type(back))
    m, e = v & ((1 << mb) - 1), (v >> mb) & ((1 << eb) - 1)
    nan = env.both(m != 0, e == (1 << eb) - 1)
    sub = env.both(m != 0, e == 0)
    r = env.val(back)
    rm, re = r & ((1 << mb) - 1), (r >> mb) & ((1 << eb) - 1)
    if ieee:
        env.check('back: same bits, or some NaN', env.ite(nan, env.both(rm != 0, re == (1 << eb) - 1), r == v), (v, r))
    else:
        inf = env.both(rm == 0, re == (1 << eb) - 1)
        z = env.both(rm == 0, re == 0, (r >> (w - 1)) == (v >> (w - 1)))
        env.check('back: same bits, NaN as infinity, subnormal as zero',
                  env.ite(nan, inf, env.ite(sub, z, r == v)), (v, r))
    ambient_kept(env, mode, amb)


def to_bits(env, eb, mb, mode, ieee, amb):
    """the pattern of a value is the one the format gives it"""
    T = ftype(eb, mb, mode, ieee)
    w = 1 + eb + mb
    ambient(env, mode, amb)
    v = pattern(env, 'x', eb, mb, ieee)
    stir(env, 1)
    m, ref = raw(env, v, eb, mb)
    x = T(m)
    b = x.reinterpret_as_bv()
    stir(env, -1)
    env.eq('the same value has the same bits', T(raw(env, v, eb, mb)[0]).reinterpret_as_bv(), env.val(b))
    env.check('type', type(b) is env.fams['c'].BV[w], type(b))
    r = env.val(b)
    nan = zb(z3.fpIsNaN(ref))
    rm, re = r & ((1 << mb) - 1), (r >> mb) & ((1 << eb) - 1)
    env.check('bits', env.ite(nan, env.both(rm != 0, re == (1 << eb) - 1), r == v), (v, r))
    exact(env, 'value unchanged', x, T, ref, ieee)
    y = T.reinterpret_from_bv(b)
    exact(env, 'round trip', y, T, ref, ieee)
    F = env.fams['c'].BV
    env.raises('too few bits', TypeError, lambda: T.reinterpret_from_bv(F[w - 1](0)))
    env.raises('too many bits', TypeError, lambda: T.reinterpret_from_bv(F[w + 1](0)))
    ambient_kept(env, mode, amb)


@prop('F02', bounds='every bit pattern of formats (exponent, mantissa) up to (5,10), (2,54) and (3,60) (quick) / (8,23), (11,52), (11,60) and (2,130) (thorough), all modes',
      world='fp', outside='wider formats', assumptions=[NOTE, AMB])
def f02(tier):
    for ieee in (True, False):
        for mode in MODES:
            for amb in ('default', 'hostile'):
                for eb, mb in ((3, 2), (4, 3), (2, 2)):
                    p = dict(eb=eb, mb=mb, mode=mode, ieee=ieee, amb=amb)
                    tag = f'{eb},{mb},{mode},{"ieee" if ieee else "flush"},{amb}'
                    yield Case(f'from bits[{tag}]', from_bits, dict(p, kind='bv'))
                    yield Case(f'to bits[{tag}]', to_bits, p)
            for eb, mb in ((5, 10),) if tier == 'quick' else ((5, 10), (8, 7), (8, 23), (11, 52)):
                p = dict(eb=eb, mb=mb, mode=mode, ieee=ieee, amb='default')
                tag = f'{eb},{mb},{mode},{"ieee" if ieee else "flush"}'
                yield Case(f'from bits[{tag}]', from_bits, dict(p, kind='bv'), core=False)
                yield Case(f'to bits[{tag}]', to_bits, p, core=False)
        for eb, mb in ((2, 54), (3, 60)) if tier == 'quick' else ((3, 60), (2, 53), (2, 54), (4, 64), (11, 60), (2, 130)):
            for mode in (MODES[:1] if tier == 'quick' else MODES):
                p = dict(eb=eb, mb=mb, mode=mode, ieee=ieee, amb='default')
                tag = f'{eb},{mb},{mode},{"ieee" if ieee else "flush"}'
                yield Case(f'from bits[{tag}]', from_bits, dict(p, kind='bv'), core=False)
                if (eb, mb) != (3, 60) or tier != 'quick':
                    yield Case(f'to bits[{tag}]', to_bits, p, core=False)
        for kind in ('u', 's'):
            yield Case(f'from bits[{kind},{"ieee" if ieee else "flush"}]', from_bits,
                       dict(eb=4, mb=3, mode='RNE', ieee=ieee, amb='default', kind=kind))


# ---- F03 --------------------------------------------------------------------------
def same_bit(env, label, b, t):
    env.check(label + ': type', type(b) is env.fams['c'].Bit, type(b))
    env.eq(label, b, zb(t))


def classify(env, eb, mb, mode, ieee, amb):
    """classification, sign and absolute value"""
    T = ftype(eb, mb, mode, ieee)
    ambient(env, mode, amb)
    x, a = arg(env, T, 'x', eb, mb, ieee)
    zero = z3.fpPlusZero(a.sort())
    for name, t in (('fp_is_normal', z3.fpIsNormal(a)), ('fp_is_subnormal', z3.fpIsSubnormal(a)), ('fp_is_zero', z3.fpIsZero(a)),
                    ('fp_is_infinite', z3.fpIsInf(a)), ('fp_is_NaN', z3.fpIsNaN(a)), ('fp_is_negative', z3.fpLT(a, zero)),
                    ('fp_is_positive', z3.fpGT(a, zero))):
        same_bit(env, name, getattr(x, name)(), t)
    for n, f, r in (('fp_abs', x.fp_abs, z3.fpAbs(a)), ('abs', lambda: abs(x), z3.fpAbs(a)),
                    ('fp_neg', x.fp_neg, z3.fpNeg(a)), ('neg', lambda: -x, z3.fpNeg(a)), ('twice negated', lambda: -(-x), a)):
        exact(env, n, f(), T, r, ieee)
    exact(env, 'operand unchanged', x, T, a, ieee)
    ambient_kept(env, mode, amb)


def compare(env, eb, mb, mode, ieee, amb, coerce=False):
    """comparisons are those of the format; NaN is unordered"""
    T = ftype(eb, mb, mode, ieee)
    ambient(env, mode, amb)
    x, a = arg(env, T, 'x', eb, mb, ieee)
    y, b = arg(env, T, 'y', eb, mb, ieee)
    for name, sym, t in (('fp_leq', '<=', z3.fpLEQ(a, b)), ('fp_lt', '<', z3.fpLT(a, b)), ('fp_geq', '>=', z3.fpGEQ(a, b)),
                         ('fp_gt', '>', z3.fpGT(a, b)), ('fp_eq', '==', z3.fpEQ(a, b))):
        same_bit(env, name, getattr(x, name)(y), t)
        op = {'<=': lambda p, q: p <= q, '<': lambda p, q: p < q, '>=': lambda p, q: p >= q, '>': lambda p, q: p > q,
              '==': lambda p, q: p == q}[sym]
        same_bit(env, sym, op(x, y), t)
    same_bit(env, '!=', x != y, z3.Not(z3.fpEQ(a, b)))
    ambient_kept(env, mode, amb)


def minmax(env, eb, mb, mode, ieee, amb):
    T = ftype(eb, mb, mode, ieee)
    ambient(env, mode, amb)
    x, a = arg(env, T, 'x', eb, mb, ieee)
    y, b = arg(env, T, 'y', eb, mb, ieee)
    for name, lt in (('fp_min', z3.fpLT), ('fp_max', z3.fpGT)):
        r = getattr(x, name)(y)
        env.check(name + ': type', type(r) is T, type(r))
        t = zterm(env, r)
        want = z3.If(z3.fpIsNaN(a), b, z3.If(z3.fpIsNaN(b), a, z3.If(lt(a, b), a, b)))
        zeros = z3.And(z3.fpIsZero(a), z3.fpIsZero(b))
        env.check(name, zb(z3.If(zeros, z3.fpIsZero(t), structural(t, want))), (r,))
    ambient_kept(env, mode, amb)


@prop('F03', bounds='every value (pair of values) of 6 bit formats (quick), up to 8 bits in pairs and 16 bits alone (thorough)', world='fp',
      outside='wider formats; which zero min and max of two zeros return; sign of NaN', assumptions=[NOTE, AMB])
def f03(tier):
    for ieee in (True, False):
        for mode in MODES:
            for amb in ('default', 'hostile'):
                for eb, mb in ((3, 2), (4, 3)) if tier == 'quick' else ((3, 2), (4, 3), (5, 10)):
                    p = dict(eb=eb, mb=mb, mode=mode, ieee=ieee, amb=amb)
                    tag = f'{eb},{mb},{mode},{"ieee" if ieee else "flush"},{amb}'
                    yield Case(f'classify[{tag}]', classify, p, core=mb < 10)
                    if mb < 10:
                        yield Case(f'compare[{tag}]', compare, p)
                        yield Case(f'min, max[{tag}]', minmax, p)
        for eb, mb in WIDE:
            for mode in ('RNE', 'RTN') if tier == 'quick' else MODES:
                p = dict(eb=eb, mb=mb, mode=mode, ieee=ieee, amb='hostile')
                tag = f'{eb},{mb},{mode},{"ieee" if ieee else "flush"}'
                for nm, f in (('wide classify', classify), ('wide compare', compare), ('wide min, max', minmax)):
                    yield Case(f'{nm}[{tag}]', f, p, core=False)


# ---- F04 --------------------------------------------------------------------------
def a_float(env, name):
    """an arbitrary binary64 value"""
    v = env.int(name, 0, (1 << 64) - 1)
    ref = z3.simplify(z3.fpBVToFP(bits_term(v, 64), z3.FPSort(11, 53)))
    if env.symbolic:
        from .. import fpmodel
        return fpmodel.SymFloat(ref), ref
    import struct
    return struct.unpack('<d', struct.pack('<Q', v))[0], ref


def an_int(env, name, lo, hi):
    """an arbitrary int, with an exact z3 value"""
    from ..sym import SymInt
    v = env.int(name, lo, hi)
    w = max(abs(lo), abs(hi)).bit_length() + 2
    t = v.n.low(w) if type(v) is SymInt else z3.BitVecVal(v, w)
    return v, z3.simplify(z3.fpSignedToFP(Z['RNE'], t, z3.FPSort(6 if w <= 30 else 9, w)))


class HasFloat:
    def __init__(self, v):
        self.v = v

    def __float__(self):
        return self.v


class HasInt:
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


if True:
    # called by the code under test through its hooks: values may be symbolic
    from .. import runtime as _rt
    HasInt.__int__ = _rt.sx_dunder(HasInt.__int__)
    HasFloat.__float__ = _rt.sx_dunder(HasFloat.__float__)


def conv(env, label, x, T, mode, ref, eb, mb, ieee):
    s = z3.FPSort(eb, mb + 1)
    result(env, label, x, T, mode, lambda m: z3.fpFPToFP(m, ref, s) if ref.sort() != s else ref, eb, mb, ieee)


def construct(env, eb, mb, mode, ieee, amb, src):
    """a value is made by rounding once with the type's mode"""
    T = ftype(eb, mb, mode, ieee)
    ambient(env, mode, amb)
    if src == 'float':
        v, ref = a_float(env, 'v')
        conv(env, 'from float', T(v), T, mode, ref, eb, mb, ieee)
        conv(env, 'from an object with __float__', T(HasFloat(v)), T, mode, ref, eb, mb, ieee)
    elif src in ('int', 'bigint'):
        lim = 600 if src == 'int' else 1 << 62
        v, ref = an_int(env, 'v', -lim, lim)
        conv(env, 'from int', T(v), T, mode, ref, eb, mb, ieee)
        conv(env, 'from an object with __int__', T(HasInt(v)), T, mode, ref, eb, mb, ieee)
    elif src == 'bool':
        v = env.bool('v')
        one = z3.fpFP(z3.BitVecVal(0, 1), z3.BitVecVal((1 << (eb - 1)) - 1, eb), z3.BitVecVal(0, mb))
        from ..sym import zbool
        ref = z3.simplify(z3.If(zbool(v), one, z3.fpPlusZero(one.sort())))
        conv(env, 'from bool', T(v), T, mode, ref, eb, mb, ieee)
    elif src in ('bv', 'u', 's'):
        w = 7
        v = env.int('v', 0, (1 << w) - 1)
        t = bits_term(v, w)
        S = z3.FPSort(6, w + 1)
        ref = z3.simplify(z3.fpSignedToFP(Z['RNE'], t, S) if src == 's' else z3.fpUnsignedToFP(Z['RNE'], t, S))
        conv(env, 'from a vector', T(vec(env, src, w, v)), T, mode, ref, eb, mb, ieee)
    elif src == 'mpfr':
        v = pattern(env, 'v', eb + 1, mb + 4, True)
        m, ref = raw(env, v, eb + 1, mb + 4)
        conv(env, 'from mpfr', T(m), T, mode, ref, eb, mb, ieee)
    else:
        e2, m2, mode2, ieee2 = src
        U = ftype(e2, m2, mode2, ieee2)
        y, ref = arg(env, U, 'y', e2, m2, ieee2)
        conv(env, 'from another format', T(y), T, mode, ref, eb, mb, ieee)
        exact(env, 'source unchanged', y, U, ref, ieee2)
        if U.binding != T.binding:
            x = T(1)
            for nm in ('fp_add', 'fp_sub', 'fp_mul', 'fp_div', 'fp_rem', 'fp_min', 'fp_max', 'fp_leq', 'fp_lt', 'fp_geq', 'fp_gt', 'fp_eq'):
                env.raises(nm + ' with another format', TypeError, lambda: getattr(x, nm)(y))
            env.raises('fma with another format', TypeError, lambda: x.fp_fma(y, x))
            env.raises('fma with another format', TypeError, lambda: x.fp_fma(x, y))
    ambient_kept(env, mode, amb)


TEXTS = ('0', '-0', '0.5', '-1.75', '1/3', '-2/7', '5', '1e1', '1e-3', '0.3', '1/1000', '-99999', 'inf', '-inf', 'nan', '7/2', '0.1', '99999999999999999999999/100000000000000000000000')


def text(env, eb, mb, mode, ieee, amb):
    """numerals and rationals"""
    T = ftype(eb, mb, mode, ieee)
    ambient(env, mode, amb)
    s = env.pick('text', TEXTS)
    S = z3.FPSort(eb, mb + 1)
    special = {'-0': z3.fpMinusZero(S), '0': z3.fpPlusZero(S), 'inf': z3.fpPlusInfinity(S), '-inf': z3.fpMinusInfinity(S), 'nan': z3.fpNaN(S)}
    f = (lambda m: special[s]) if s in special else lambda m: z3.fpToFP(m, z3.RealVal(str(Fraction(s))), S)
    result(env, 'from text', T(s), T, mode, f, eb, mb, ieee)
    import gmpy2
    if s not in special:
        result(env, 'from mpq', T(gmpy2.mpq(Fraction(s).numerator, Fraction(s).denominator)), T, mode, f, eb, mb, ieee)
        result(env, 'from Fraction', T(Fraction(s)), T, mode, f, eb, mb, ieee)
    bad = env.pick('bad', ['x', '1//2', '1.5/2', '--1'])
    env.raises('not a number', ValueError, lambda: T(bad))
    env.raises('not a number at all', TypeError, lambda: T(object()))
    env.raises('not a number at all', TypeError, lambda: T(None))
    env.raises('not a number at all', TypeError, lambda: T([1]))
    ambient_kept(env, mode, amb)


def coerced(env, eb, mb, mode, ieee, amb, src):
    """operands of other kinds are converted first"""
    T = ftype(eb, mb, mode, ieee)
    ambient(env, mode, amb)
    x, a = arg(env, T, 'x', eb, mb, ieee)
    v, ref = a_float(env, 'v') if src == 'float' else an_int(env, 'v', -20, 20)
    y = T(v)
    b = zterm(env, y)
    for nm in ('fp_add', 'fp_mul', 'fp_min'):
        exact(env, nm, getattr(x, nm)(v), T, zterm(env, getattr(x, nm)(y)))
    for nm, fn in (('-', lambda p: x - p), ('/', lambda p: x / p)):
        exact(env, nm, fn(v), T, zterm(env, fn(y)))
    for nm in ('fp_lt', 'fp_geq', 'fp_eq'):
        env.eq(nm, getattr(x, nm)(v), env.val(getattr(x, nm)(y)))
    exact(env, 'fma', x.fp_fma(v, v), T, zterm(env, x.fp_fma(y, y)))
    ambient_kept(env, mode, amb)


def to_integer(env, eb, mb, mode, ieee, amb, w):
    """conversion to integers rounds with the type's mode and keeps the low bits"""
    from .. import fpmodel
    T = ftype(eb, mb, mode, ieee)
    ambient(env, mode, amb)
    x, a = arg(env, T, 'x', eb, mb, ieee)
    nan, inf = zb(z3.fpIsNaN(a)), zb(z3.fpIsInf(a))
    if env.split(nan):
        env.raises('NaN', ValueError, lambda: x.to_ubv(w))
        env.raises('NaN', ValueError, lambda: x.to_sbv(w))
    elif env.split(inf):
        env.raises('infinity', OverflowError, lambda: x.to_ubv(w))
        env.raises('infinity', OverflowError, lambda: x.to_sbv(w))
    else:
        W = max((1 << (eb - 1)) + 2, w)
        wide = a
        if mb >= 1 << (eb - 1):         # the rounded value may lie beyond the format
            wide = z3.fpFPToFP(Z['RNE'], a, z3.FPSort(eb + 2, mb + 1))
        n = lambda m: z3.Extract(w - 1, 0, z3.fpToSBV(Z['RTZ'], fpmodel.z_rint(Z[m], wide), z3.BitVecSort(W)))
        F = env.fams['c']
        for nm, r, B in (('to_ubv', x.to_ubv(w), F.BV), ('to_sbv', x.to_sbv(w), F.S)):
            env.check(nm + ': type', type(r) is B[w], type(r))
            got = bits_term(env.val(r), w)
            ok = zb(got == n(mode))
            if mode == 'RNA':
                zero = z3.fpPlusZero(a.sort())
                aw = z3.If(z3.fpGT(a, zero), n('RTP'), n('RTN'))
                env.known_deviation('rounding to nearest, ties away', ok, zb(got == aw))
            else:
                env.check(nm, ok, (r,))
    ambient_kept(env, mode, amb)


def to_float(env, eb, mb, mode, ieee, amb):
    """float() is exact and converting back gives the value"""
    T = ftype(eb, mb, mode, ieee)
    ambient(env, mode, amb)
    x, a = arg(env, T, 'x', eb, mb, ieee)
    D = z3.FPSort(11, 53)
    if env.symbolic:
        from .. import fpmodel, runtime
        f = T.__float__.__sx_raw__(x) if hasattr(T.__float__, '__sx_raw__') else T.__float__(x)
        t = f.t if type(f) is fpmodel.SymFloat else z3.FPVal(f, D)
    else:
        f = float(x)
        env.check('type', type(f) is float)
        t = z3.FPVal(f, D)
    want = z3.fpFPToFP(Z['RNE'], a, D)
    env.check('value', zb(structural(t, want) if ieee else z3.Implies(z3.Not(z3.fpIsNaN(a)), structural(t, want))), (f,))
    exact(env, 'and back', T(f), T, a, ieee)
    ambient_kept(env, mode, amb)


@prop('F04', bounds='formats of 6 bits: every float, ints -600..600, (formats (7,2), (8,23): ints of up to 62 bits), vectors of 7 bits, values of formats of 6 and 11 bits, a list of numerals; '
      'conversions to vectors of 3 and 9 bits, of format (7,2) (thorough: (8,23)) to 70 bits', world='fp', outside='other numerals; ints and vectors beyond', assumptions=[NOTE, AMB])
def f04(tier):
    fm = [(3, 2)] if tier == 'quick' else [(3, 2), (4, 3), (2, 4)]
    for ieee in (True, False):
        for mode in MODES:
            for amb in ('default', 'hostile'):
                for eb, mb in fm:
                    p = dict(eb=eb, mb=mb, mode=mode, ieee=ieee, amb=amb)
                    tag = f'{eb},{mb},{mode},{"ieee" if ieee else "flush"},{amb}'
                    for src in ('float', 'int', 'bool', 'bv', 'u', 's', 'mpfr'):
                        yield Case(f'from {src}[{tag}]', construct, dict(p, src=src))
                    other = MODES[(MODES.index(mode) + 1) % 5]
                    for src in ((3, 2, other, ieee), (2, 3, mode, True), (4, 5, other, not ieee), (3, 2, mode, not ieee), (3, 2, mode, ieee)):
                        if (eb, mb) == (3, 2):
                            yield Case(f'from {src}[{tag}]', construct, dict(p, src=src))
                    yield Case(f'text[{tag}]', text, p)
                    for src in ('float', 'int'):
                        yield Case(f'coerced {src}[{tag}]', coerced, dict(p, src=src), core=False)
                    for w in (3, 9):
                        yield Case(f'to integer[{tag},{w}]', to_integer, dict(p, w=w))
                    yield Case(f'to float[{tag}]', to_float, p)
            for eb, mb in ((7, 2), (8, 23)):
                p = dict(eb=eb, mb=mb, mode=mode, ieee=ieee, amb='hostile')
                yield Case(f'from bigint[{eb},{mb},{mode},{"ieee" if ieee else "flush"}]', construct, dict(p, src='bigint'), core=False)
                for w in (40, 70):
                    if tier != 'quick' or eb == 7 and w == 70:
                        yield Case(f'to integer[{eb},{mb},{mode},{"ieee" if ieee else "flush"},{w}]', to_integer, dict(p, w=w), core=False)
            for eb, mb in WIDE:
                p = dict(eb=eb, mb=mb, mode=mode, ieee=ieee, amb='hostile')
                tag = f'{eb},{mb},{mode},{"ieee" if ieee else "flush"}'
                for src in ('float', 'int', 'bv', 's', (8, 30, mode, True), (11, 52, mode, True)):
                    if (eb, mb) != src[:2]:
                        yield Case(f'from {src}[{tag}]', construct, dict(p, src=src), core=False)
                yield Case(f'text[{tag}]', text, p, core=False)
                if eb < 11:
                    yield Case(f'to integer[{tag},8]', to_integer, dict(p, w=8), core=False)
                yield Case(f'to float[{tag}]', to_float, p, core=False)
