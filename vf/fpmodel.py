"""A stand-in for gmpy2 in which mpfr values are z3 floating-point terms.

Only the numeric library is replaced; hwtypes itself runs unmodified.  Constants
go through the real gmpy2 (under a real copy of the current context), so only
values depending on symbolic inputs are modelled: every operation is one z3
floating-point operation with a single rounding into the format of the current
context.  Any function or situation not modelled raises Unsupported.  Every
explored path is replayed on the real gmpy2, and selftest compares the model
with the real library operation by operation.
"""
import types
from fractions import Fraction

import gmpy2 as G
import z3

from . import sym
from .sym import Node, Sym, SymBool, SymInt, SymStr, Unsupported, const, from_bv, mkbool, mkint, n_add, n_bl, n_ite, n_mul, \
    n_neg, n_shl, n_sub, zbool

RNE, RTP, RTN, RTZ, RNA = z3.RNE(), z3.RTP(), z3.RTN(), z3.RTZ(), z3.RNA()
AWAY = 'away'
MPQ = type(G.mpq(0))
ROUND = {G.RoundToNearest: RNE, G.RoundUp: RTP, G.RoundDown: RTN, G.RoundToZero: RTZ, G.RoundAwayZero: AWAY}


def local(real):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return G.local_context(real)


# ---- contexts -------------------------------------------------------------------
class Ctx:
    """a context; attributes are those of a real one"""

    def __init__(self, real):
        object.__setattr__(self, 'real', real)
        object.__setattr__(self, 'saved', [])

    def __getattr__(self, n):
        if n in ('add', 'sub', 'mul', 'div', 'sqrt', 'fma', 'remainder', 'rint', 'minnum', 'maxnum', 'minus', 'plus', 'abs'):
            def method(*a):
                with local_context(self):
                    return OPS[n](*a)
            return method
        v = getattr(self.real, n)
        if callable(v):
            if n == 'copy':
                return lambda: Ctx(self.real.copy())
            if n == 'clear_flags':
                return v
            raise Unsupported(f'context method {n}')
        return v

    def __setattr__(self, n, v):
        setattr(self.real, n, v)

    def __repr__(self):
        return repr(self.real)

    def __enter__(self):
        self.saved.append(STATE[0])
        STATE[0] = Ctx(self.real.copy())
        return STATE[0]

    def __exit__(self, *a):
        STATE[0] = self.saved.pop()
        return None


def context(*a, **k):
    a = [x.real if isinstance(x, Ctx) else x for x in a]
    k = {n: (v.concretize() if type(v) is SymInt else bool(v) if type(v) is SymBool else v) for n, v in k.items()}
    return Ctx(G.context(*a, **k))


class LocalContext:
    def __init__(self, ctx=None, **k):
        ctx = STATE[0] if ctx is None else ctx
        if not isinstance(ctx, Ctx):
            raise ValueError('local_context() requires a context')
        self.ctx = Ctx(G.context(ctx.real, **k))

    def __enter__(self):
        self.old = STATE[0]
        STATE[0] = self.ctx
        return self.ctx

    def __exit__(self, *a):
        STATE[0] = self.old
        return None


def local_context(ctx=None, **k):
    return LocalContext(ctx, **k)


def get_context():
    return STATE[0]


def set_context(c):
    STATE[0] = c if isinstance(c, Ctx) else Ctx(c)


STATE = [Ctx(G.context())]


class Fmt:
    """what rounding in a context means"""

    def __init__(self, ctx, prec=None):
        r = ctx.real
        self.p = prec or r.precision
        self.emin, self.emax, self.sub = r.emin, r.emax, r.subnormalize
        self.rm = ROUND[r.round]
        if r.trap_underflow or r.trap_overflow or r.trap_inexact or r.trap_invalid or r.trap_erange or r.trap_divzero \
                or r.allow_complex:
            raise Unsupported('context with traps')
        k = self.emax.bit_length()
        self.kind = 'odd'
        if self.p < 3:
            raise Unsupported('precision below 3')
        if self.emax >= 1 << 24 and self.emin <= -(1 << 24):
            self.kind = 'wide'
        elif k >= 2 and self.emax == 1 << (k - 1):
            if self.sub and self.emin == 4 - self.emax - self.p:
                self.kind, self.sort = 'ieee', z3.FPSort(k, self.p)
            elif not self.sub and self.emin == 3 - self.emax:
                self.kind, self.sort = 'flush', z3.FPSort(k, self.p)


# ---- terms ------------------------------------------------------------------------
def es(t):
    return t.sort().ebits(), t.sort().sbits()


def simp(t):
    return z3.simplify(t)


def is_const(t):
    return isinstance(t, z3.FPNumRef)


def embed(t, sort):
    """exact: the target has at least the range and precision of the source"""
    if t.sort() == sort:
        return t
    e, p = es(t)
    assert e <= sort.ebits() and p <= sort.sbits(), (t.sort(), sort)
    return simp(z3.fpFPToFP(RNE, t, sort))


def common(ts, e=0, p=0):
    s = z3.FPSort(max([e] + [es(t)[0] for t in ts]), max([p] + [es(t)[1] for t in ts]))
    return [embed(t, s) for t in ts], s


def by_mode(rm, f):
    """f(rounding mode) with gmpy2's modes"""
    if rm is not AWAY:
        return f(rm)
    u, d = f(RTP), f(RTN)
    zero = z3.fpPlusZero(u.sort())
    return z3.If(z3.fpGT(u, zero), u, z3.If(z3.fpLT(d, zero), d, f(RNE)))


def structural(a, b):
    return z3.And(z3.Not(z3.fpIsNaN(a)), z3.Not(z3.fpIsNaN(b)), z3.fpEQ(a, b), z3.fpIsNegative(a) == z3.fpIsNegative(b))


def pow2(k, sort):
    """2**k in the sort"""
    return simp(z3.fpToFP(RNE, z3.RealVal(Fraction(2) ** k if k >= 0 else Fraction(1, 2 ** -k)), sort))


def flush(f, fmt):
    """round f into a format without subnormals: between 0 and the smallest value the mode decides"""
    z, u, d = f(RTZ), f(RTP), f(RTN)
    r = by_mode(fmt.rm, f)
    s = fmt.sort
    mn, half = pow2(fmt.emin - 1, s), pow2(fmt.emin - 2, s)
    az = z3.fpAbs(z)
    neg = z3.fpIsNegative(z)
    tiny = z3.And(z3.fpLT(az, mn), z3.Not(z3.And(z3.fpIsZero(u), z3.fpIsZero(d))))
    inexact = z3.Not(z3.fpEQ(u, d))
    up = {id(RTP): z3.Not(neg), id(RTN): neg, id(RTZ): z3.BoolVal(False), id(AWAY): z3.BoolVal(True)}.get(
        id(fmt.rm), z3.Or(z3.fpGT(az, half), z3.And(z3.fpEQ(az, half), inexact)))
    out = z3.If(neg, z3.If(up, z3.fpNeg(mn), z3.fpMinusZero(s)), z3.If(up, mn, z3.fpPlusZero(s)))
    return z3.If(tiny, out, r)


def to_odd(f, m=None):
    """result of f with an extra sticky bit in the last place; exact results as in mode m (sign of zero)"""
    z, u, d = f(RTZ), f(RTP), f(RTN)
    bits = z3.fpToIEEEBV(z)
    sticky = z3.fpBVToFP(bits | 1, z.sort())
    return z3.If(z3.Or(z3.fpIsNaN(z), z3.fpIsInf(z), z3.fpEQ(u, d)), z if m is None else f(m), sticky)


def gen_round(x, fmt):
    """x (exact, or with a sticky bit at least two places below the target) into any format"""
    e, p = es(x)
    lo = min(fmt.emin, 0)
    E = max(e, 4)
    if fmt.kind != 'wide':
        while (1 << (E - 1)) < max(abs(fmt.emin), fmt.emax) + fmt.p + 4:
            E += 1
    if E > 20:
        raise Unsupported('exponent range')
    s = z3.FPSort(E, max(p, fmt.p))
    x = embed(x, s)
    t = z3.FPSort(E, fmt.p)
    r = by_mode(fmt.rm, lambda m: z3.fpFPToFP(m, x, t) if s != t else x)
    if fmt.kind == 'wide':
        return simp(r)
    if s == t and fmt.sub:
        s = z3.FPSort(E, fmt.p + 2)
        x = embed(x, s)
    bound = pow2(fmt.emax, z3.FPSort(E, fmt.p)) if fmt.emax < (1 << (E - 1)) else None
    if bound is not None:
        big = z3.fpSub(RTZ, bound, pow2(fmt.emax - fmt.p, t))
        neg = z3.fpIsNegative(r)
        away = {id(RTP): z3.Not(neg), id(RTN): neg, id(RTZ): z3.BoolVal(False)}.get(id(fmt.rm), z3.BoolVal(True))
        over = z3.If(away, z3.If(neg, z3.fpMinusInfinity(t), z3.fpPlusInfinity(t)), z3.If(neg, z3.fpNeg(big), big))
        r = z3.If(z3.And(z3.Not(z3.fpIsInf(r)), z3.fpGEQ(z3.fpAbs(r), bound)), over, r)
    mn = pow2(fmt.emin - 1, s)
    if fmt.sub:
        # multiples of 2**(emin-1)
        q = z3.fpDiv(RTZ, x, mn)
        q = by_mode(fmt.rm, lambda m: z_rint(m, q))
        sm = z3.fpFPToFP(RTZ, z3.fpMul(RTZ, q, mn), t)
        return simp(z3.If(z3.fpLT(z3.fpAbs(x), pow2(fmt.emin + fmt.p - 2, s)), sm, r))
    half = pow2(fmt.emin - 2, s)
    neg = z3.fpIsNegative(x)
    up = {id(RTP): z3.Not(neg), id(RTN): neg, id(RTZ): z3.BoolVal(False), id(AWAY): z3.BoolVal(True)}.get(
        id(fmt.rm), z3.fpGT(z3.fpAbs(x), half))
    mt = embed(mn, t) if es(mn)[1] <= fmt.p else simp(z3.fpFPToFP(RTZ, mn, t))
    out = z3.If(neg, z3.If(up, z3.fpNeg(mt), z3.fpMinusZero(t)), z3.If(up, mt, z3.fpPlusZero(t)))
    return simp(z3.If(z3.And(z3.Not(z3.fpIsZero(x)), z3.fpLT(z3.fpAbs(x), mn)), out, r))


def apply(op, args, fmt):
    """op(mode, *args in one sort), rounded once into the format"""
    ts = [a.t for a in args]
    if fmt.kind in ('ieee', 'flush'):
        E, P = fmt.sort.ebits(), fmt.sort.sbits()
        if all(es(t)[0] <= E and es(t)[1] <= P for t in ts):
            xs = [embed(t, fmt.sort) for t in ts]
            f = lambda m: op(m, *xs)
            if fmt.kind == 'flush' and op in WHOLE:
                r = by_mode(fmt.rm, f)
                return simp(flush(lambda m: r, fmt))
            return simp(by_mode(fmt.rm, f) if fmt.kind == 'ieee' else flush(f, fmt))
    e, p = max(es(t)[0] for t in ts), max(es(t)[1] for t in ts)
    if fmt.kind == 'wide' and p <= fmt.p:
        s = z3.FPSort(min(max(e + 3, 6), 15), fmt.p)
        xs = [embed(t, s) for t in ts]
        return simp(by_mode(fmt.rm, lambda m: op(m, *xs)))
    s = z3.FPSort(e + 3, max(p, fmt.p) + 3)
    xs = [embed(t, s) for t in ts]
    zm = RNE if fmt.rm is AWAY else fmt.rm
    return gen_round(to_odd(lambda m: op(m, *xs), zm), fmt)


# ---- values -------------------------------------------------------------------------


class mpfr:
    """t: z3 term in a sort whose significand has exactly the value's precision"""

    def __new__(cls, x=0, precision=0, base=0, context=None):
        if context is not None:
            with local_context(context):
                return convert(x, precision, base)
        return convert(x, precision, base)

    # attributes
    @property
    def precision(self):
        return self.prec

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return wrap(simp(z3.fpPlusZero(self.t.sort())))

    @property
    def rc(self):
        raise Unsupported('ternary value of a symbolic mpfr')

    def is_nan(self):
        return is_nan(self)

    def is_zero(self):
        return is_zero(self)

    def is_infinite(self):
        return is_infinite(self)

    def is_finite(self):
        return is_finite(self)

    def is_signed(self):
        return is_signed(self)

    def is_regular(self):
        return is_regular(self)

    def is_integer(self):
        return is_integer(self)

    def as_mantissa_exp(self):
        t = self.t
        if is_const(t):
            return to_real(self).as_mantissa_exp()
        if bool(is_nan(self)):
            raise ValueError('Cannot convert NaN')
        if bool(is_infinite(self)):
            raise OverflowError('Cannot convert Infinity')
        if bool(is_zero(self)):
            return 0, 1
        e, p = es(t)
        bias = (1 << (e - 1)) - 1
        bits = simp(z3.fpToIEEEBV(t))
        frac = from_bv(simp(z3.Extract(p - 2, 0, bits)))
        ex = from_bv(simp(z3.Extract(e + p - 2, p - 1, bits)))
        neg = simp(z3.fpIsNegative(t))
        if bool(mkbool(simp(z3.fpIsSubnormal(t)))):
            sh = n_sub(const(p), n_bl(frac))
            m = n_shl(frac, sh)
            x = n_sub(const(1 - bias - (p - 1)), sh)
        else:
            m = n_add(frac, const(1 << (p - 1)))
            x = n_sub(ex, const(bias + p - 1))
        return mkint(n_ite(neg, n_neg(m), m)), mkint(x)

    def as_integer_ratio(self):
        raise Unsupported('as_integer_ratio')

    def conjugate(self):
        return self

    def __hash__(self):
        if is_const(self.t):
            return hash(to_real(self))
        raise Unsupported('hash of a symbolic mpfr')

    def __str__(self):
        if is_const(self.t):
            return str(to_real(self))
        if sym.ENGINE is not None and sym.ENGINE.running:
            raise Unsupported('text of a symbolic mpfr')
        return f'mpfr<{str(self.t)[:60]}>'

    def __repr__(self):
        if is_const(self.t):
            return repr(to_real(self))
        return self.__str__()

    def __format__(self, spec):
        return format(str(self), spec) if not spec else format(to_real(self), spec)

    def __bool__(self):
        return bool(mkbool(simp(z3.Not(z3.fpIsZero(self.t)))))

    def __sx_int__(self):
        return to_int(self)

    def __int__(self):
        r = to_int(self)
        return r.concretize() if type(r) is SymInt else r

    def __float__(self):
        if is_const(self.t):
            return float(to_real(self))
        raise Unsupported('native float of a symbolic mpfr')

    def __getattr__(self, n):
        if n.startswith('__') or not hasattr(G.mpfr(0), n):
            raise AttributeError(n)
        if is_const(self.t):
            return getattr(to_real(self), n)
        raise Unsupported(f'mpfr.{n}')


class SymFloat(Sym, ):
    """an arbitrary Python float (binary64)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return float

    def __float__(self):
        raise Unsupported('native value of a symbolic float')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'float.{n}')

    def __bool__(self):
        return bool(mkbool(simp(z3.Not(z3.fpIsZero(self.t)))))

    def __eq__(self, o):
        raise Unsupported('comparison of a symbolic float')
    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__

    def __hash__(self):
        raise Unsupported('hash of a symbolic float')


def wrap(t, prec=None):
    m = object.__new__(mpfr)
    m.t = simp(t)
    m.prec = prec or es(t)[1]
    m.nansign = None
    return m


def from_real(v):
    """stand-in of a real mpfr"""
    prec = v.precision
    p = max(prec, 3)                # z3 has no smaller formats
    s = z3.FPSort(2, p)
    if G.is_nan(v):
        return wrap(z3.fpNaN(s), prec)
    if G.is_infinite(v):
        return wrap(z3.fpMinusInfinity(s) if v < 0 else z3.fpPlusInfinity(s), prec)
    if G.is_zero(v):
        return wrap(z3.fpMinusZero(s) if G.is_signed(v) else z3.fpPlusZero(s), prec)
    m, x = v.as_mantissa_exp()
    m, x = int(m), int(x)
    top = abs(m).bit_length() - 1 + x
    E = 2
    while not (1 - ((1 << (E - 1)) - 1) <= top <= (1 << (E - 1)) - 1):
        E += 1
    if E > 16:
        raise Unsupported('constant of extreme magnitude')
    s = z3.FPSort(E, p)
    m <<= p - abs(m).bit_length()
    bias = (1 << (E - 1)) - 1
    return wrap(z3.fpFP(z3.BitVecVal(int(m < 0), 1), z3.BitVecVal(top + bias, E), z3.BitVecVal(abs(m) & ((1 << (p - 1)) - 1), p - 1)),
                prec)


def to_real(f):
    t = f.t
    n = f.prec
    with local(G.context(precision=n)):
        if t.isNaN():
            return G.mpfr('nan', n)
        if t.isInf():
            return G.mpfr('-inf' if t.isNegative() else 'inf', n)
        if t.isZero():
            return G.mpfr('-0' if t.isNegative() else '0', n)
        e, p = es(t)
        b = simp(z3.fpToIEEEBV(t)).as_long()
        frac = b & ((1 << (p - 1)) - 1)
        ex = (b >> (p - 1)) & ((1 << e) - 1)
        bias = (1 << (e - 1)) - 1
        q = Fraction(frac, 1) * Fraction(2) ** (2 - bias - p) if ex == 0 else Fraction(frac + (1 << (p - 1))) * Fraction(2) ** (ex - bias - p + 1)
        return G.mpfr(G.mpq(-q if b >> (e + p - 1) else q), n)


def native_arg(x):
    """the real counterpart, or None when the argument is symbolic"""
    if isinstance(x, mpfr):
        return to_real(x) if is_const(x.t) else None
    if isinstance(x, Sym):
        if type(x) is SymStr and all(type(p) is str for p in x.parts):
            return ''.join(x.parts)
        return None
    if isinstance(x, Ctx):
        return x.real
    return x


def lift(r):
    if isinstance(r, type(G.mpfr(0))):
        return from_real(r)
    if isinstance(r, tuple):
        return tuple(lift(i) for i in r)
    return r


def real_call(f, *a, **k):
    """the real library on constants"""
    with local(STATE[0].real):
        return lift(f(*a, **k))


def try_real(f, args, kw={}):
    na = [native_arg(x) for x in args]
    nk = {n: native_arg(x) for n, x in kw.items()}
    if any(n is None and x is not None for n, x in zip(na, args)) or any(nk[n] is None and kw[n] is not None for n in kw):
        return NotImplemented
    return real_call(f, *na, **nk)


# ---- conversion to mpfr ----------------------------------------------------------------
def exact_int(x):
    """exact term of a (symbolic) int"""
    n = sym.node_of(x)
    if n is None:
        raise Unsupported(f'number {type(x)}')
    if n.op == 'const':
        v = n.args
        with local(G.context(precision=max(3, abs(v).bit_length()))):
            return from_real(G.mpfr(v)).t
    t, w, s = n.exact()
    E = 3
    while (1 << (E - 1)) - 1 < w + 1:
        E += 1
    srt = z3.FPSort(E, max(w, 3))
    return simp(z3.fpSignedToFP(RNE, t, srt) if s else z3.fpUnsignedToFP(RNE, t, srt))


def implied(c):
    e = sym.need_engine()
    c = simp(c)
    if z3.is_true(c):
        return True
    r, _ = e._solve(e.pc + [z3.Not(c)])
    return r == 'unsat'


def exact_str(s, base):
    """exact term of a numeral with symbolic digits"""
    if base not in (0, 2, 10):
        raise Unsupported('numeral base')
    parts = s.parts
    toks = []
    for p in parts:
        toks.extend(p if type(p) is str else [p])
    neg = False
    i = 0
    if toks and type(toks[0]) is str and toks[0] in '+-':
        neg, i = toks[0] == '-', 1
    mant, digits, fdigits, dot = const(0), [], 0, False
    while i < len(toks):
        c = toks[i]
        if type(c) is str:
            if c == '.' and not dot:
                dot = True
                i += 1
                continue
            if c in 'ep':
                break
            if not c.isdigit():
                raise Unsupported('numeral form')
            d = const(int(c))
        else:
            if c.lo is None or c.lo < 0 or c.hi is None or c.hi > 9:
                raise Unsupported('numeral form')
            d = c
        if base == 2 and (d.hi > 1):
            raise Unsupported('binary digit out of range')
        digits.append(d)
        fdigits += dot
        i += 1
    if base != 2:
        if i < len(toks) or fdigits or any(d.op != 'const' for d in digits):
            raise Unsupported('decimal numeral with symbolic digits')
    ex = const(0)
    if i < len(toks):
        rest = toks[i + 1:]
        if len(rest) == 1 and type(rest[0]) is not str:
            ex = rest[0]
        elif rest and all(type(c) is str for c in rest):
            ex = const(int(''.join(rest)))
        elif rest and rest[0] == '-' and len(rest) == 2 and type(rest[1]) is not str:
            ex = n_neg(rest[1])
        else:
            raise Unsupported('exponent form')
    sgn = z3.BitVecVal(int(neg), 1)
    if base != 2:
        raise Unsupported('decimal numeral')
    k = len(digits)
    intd = digits[:k - fdigits]
    fr = digits[k - fdigits:]
    if ex.lo is None or ex.hi is None:
        raise Unsupported('unbounded exponent')

    def bitsterm(ds):
        ts = [d.low(1) for d in ds]
        return simp(z3.Concat(*ts) if len(ts) > 1 else ts[0])
    if len(intd) == 1 and intd[0].op == 'const' and fr:
        p = len(fr) + 1
        et, ew, esg = ex.exact()
        if intd[0].args == 1:
            E = 2
            while True:
                bias = (1 << (E - 1)) - 1
                if 1 - bias <= ex.lo and ex.hi <= bias:
                    break
                w = max(ew, E) + 2
                x = sym.resize(et, ew, esg, w)
                if (1 << E) >= max(abs(ex.lo), abs(ex.hi)) and implied(z3.And(x >= 1 - bias, x <= bias)):
                    break
                E += 1
                if E > 16:
                    raise Unsupported('exponent range')
            e = n_add(ex, const(bias))
            return simp(z3.fpFP(sgn, simp(e.low(E)), bitsterm(fr)))
        c = ex.args if ex.op == 'const' else None
        if c is None and ex.hi - ex.lo < 70000:
            # the same on every path?
            v = sym.need_engine()._feasible(z3.BoolVal(True))
            if v is not None:
                ev = v.eval(et, model_completion=True)
                cv = ev.as_signed_long() if esg else ev.as_long()
                if implied(et == ev):
                    c = cv
        if intd[0].args == 0 and c is not None:
            E = (1 - c + 1).bit_length() if 1 - c >= 1 else 0
            if E >= 2 and (1 << (E - 1)) - 1 == 1 - c:
                return simp(z3.fpFP(sgn, z3.BitVecVal(0, E), bitsterm(fr)))
            ex = const(c)
    m = const(0)
    for d in digits:
        m = n_add(n_shl(m, const(1)), d)
    mt = exact_int(mkint(m)) if m.op != 'const' else exact_int(m.args)
    e = n_sub(ex, const(fdigits))
    E = 3
    while (1 << (E - 1)) - 2 < max(abs(e.lo), abs(e.hi)) + k + 1:
        E += 1
    if E > 14:
        raise Unsupported('exponent range')
    s = z3.FPSort(E, es(mt)[1])
    bias = (1 << (E - 1)) - 1
    two = z3.fpFP(z3.BitVecVal(0, 1), n_add(e, const(bias)).low(E), z3.BitVecVal(0, es(mt)[1] - 1))
    r = simp(z3.fpMul(RNE, embed(mt, s), two))
    return simp(z3.fpNeg(r)) if neg else r


def convert(x, precision=0, base=0):
    if type(precision) is SymInt:
        precision = precision.concretize()
    if type(base) is SymInt:
        base = base.concretize()
    if type(x) is SymBool:
        x = x.as_int()
    na = native_arg(x)
    if na is not None or x is None:
        a = (na, precision) + ((base,) if base else ())
        if not isinstance(na, str) and base:
            a = (na, precision, base)
        return real_call(G.mpfr, *a)
    if isinstance(x, mpfr):
        t = x.t
        if precision == 1:
            return x
    elif type(x) is SymInt:
        t = exact_int(x)
    elif type(x) is SymFloat:
        t = x.t
    elif type(x) is SymStr:
        t = exact_str(x, base or 10)
    else:
        raise Unsupported(f'mpfr of {type(x).__name__}')
    if precision in (0, 1):
        precision = STATE[0].real.precision
        if precision == 1:
            raise Unsupported('exact conversion')
    return wrap(round_to(t, Fmt(STATE[0], precision)))


def round_to(t, fmt):
    e, p = es(t)
    if fmt.kind in ('ieee', 'flush'):
        s = fmt.sort
        if fmt.kind == 'ieee' and t.sort() == s:
            return t
        if fmt.kind == 'ieee' and e <= s.ebits() and p <= s.sbits():
            return embed(t, s)
        f = lambda m: z3.fpFPToFP(m, t, s) if t.sort() != s else t
        return simp(by_mode(fmt.rm, f) if fmt.kind == 'ieee' else flush(f, fmt))
    if fmt.kind == 'wide':
        if p <= fmt.p:
            return embed(t, z3.FPSort(e, fmt.p)) if p < fmt.p else t
    return gen_round(t, fmt)


# ---- operations ---------------------------------------------------------------------------
def number(x):
    """exact term of an operand, or None"""
    if isinstance(x, mpfr):
        return x
    if type(x) is SymFloat:
        return wrap(x.t)
    if type(x) in (SymInt, SymBool) or isinstance(x, (int, bool, type(G.mpz(0)))):
        return wrap(exact_int(int(x) if not isinstance(x, Sym) else x))
    if isinstance(x, float):
        with local(G.context(precision=53)):
            return from_real(G.mpfr(x))
    if isinstance(x, MPQ):
        if x.denominator & (x.denominator - 1):
            raise Unsupported('fraction with symbolic values')
        with local(G.context(precision=max(3, x.numerator.bit_length()))):
            return from_real(G.mpfr(x))
    return None


def lifted(name, real, op):
    def fn(*args):
        r = try_real(real, args)
        if r is not NotImplemented:
            return r
        xs = [number(a) for a in args]
        if any(x is None for x in xs):
            raise TypeError(f'{name}() requires real arguments')
        return wrap(apply(op, xs, Fmt(STATE[0])))
    fn.__name__ = name
    return fn


def z_min(m, a, b):
    return _minmax(a, b, z3.fpLT, True)


def z_max(m, a, b):
    return _minmax(a, b, z3.fpGT, False)


def _minmax(a, b, lt, lo):
    s = a.sort()
    neg = z3.Or(z3.fpIsNegative(a), z3.fpIsNegative(b)) if lo else z3.And(z3.fpIsNegative(a), z3.fpIsNegative(b))
    zz = z3.If(neg, z3.fpMinusZero(s), z3.fpPlusZero(s))
    return z3.If(z3.fpIsNaN(a), b, z3.If(z3.fpIsNaN(b), a, z3.If(z3.And(z3.fpIsZero(a), z3.fpIsZero(b)), zz,
                                                                 z3.If(lt(a, b), a, b))))


def z_fma(m, a, b, c):
    """a * b + c rounded once (z3's own fma folds some constants wrongly)"""
    e, p = es(a)
    w = z3.FPSort(e + 2, 2 * p)
    x, y, z = [z3.fpFPToFP(RNE, t, w) for t in (a, b, c)]
    q = z3.fpMul(RNE, x, y)
    return z3.fpFPToFP(m, to_odd(lambda r: z3.fpAdd(r, q, z), m), a.sort())


def ident(m, a):
    return a


OPS = {}
WHOLE = set()       # results are integers, rounded first
for _n, _r, _op in (
        ('add', G.add, lambda m, a, b: z3.fpAdd(m, a, b)),
        ('sub', G.sub, lambda m, a, b: z3.fpSub(m, a, b)),
        ('mul', G.mul, lambda m, a, b: z3.fpMul(m, a, b)),
        ('div', G.div, lambda m, a, b: z3.fpDiv(m, a, b)),
        ('fma', G.fma, lambda m, a, b, c: z_fma(m, a, b, c)),
        ('fms', G.fms, lambda m, a, b, c: z_fma(m, a, b, z3.fpNeg(c))),
        ('sqrt', G.sqrt, lambda m, a: z3.fpSqrt(m, a)),
        ('remainder', G.remainder, lambda m, a, b: z3.fpRem(a, b)),
        ('rint', G.rint, lambda m, a: z_rint(m, a)),
        ('rint_trunc', G.rint_trunc, lambda m, a: z_rint(RTZ, a)),
        ('rint_floor', G.rint_floor, lambda m, a: z_rint(RTN, a)),
        ('rint_ceil', G.rint_ceil, lambda m, a: z_rint(RTP, a)),
        ('rint_round', G.rint_round, lambda m, a: z_rint(RNA, a)),
        ('round_away', G.round_away, lambda m, a: z_rint(RNA, a)),
        ('minnum', G.minnum, z_min), ('maxnum', G.maxnum, z_max)):
    OPS[_n] = lifted(_n, _r, _op)
    if _n.startswith('rint') or _n == 'round_away':
        WHOLE.add(_op)
def copy_sign(a, b):
    return wrap(apply(ident, [wrap(z3.If(zbool(is_signed(b)), z3.fpNeg(z3.fpAbs(a.t)), z3.fpAbs(a.t)))], Fmt(STATE[0])))


def set_sign(a, s):
    return wrap(apply(ident, [wrap(z3.If(zbool(s), z3.fpNeg(z3.fpAbs(a.t)), z3.fpAbs(a.t)))], Fmt(STATE[0])))


OPS['minus'] = lifted('minus', lambda a: -a, lambda m, a: z3.fpNeg(a))
OPS['plus'] = lifted('plus', lambda a: +a, ident)
OPS['abs'] = lifted('abs', lambda a: abs(a), lambda m, a: z3.fpAbs(a))


def _bin(name, op, real):
    def f(self, o):
        if not _num(o):
            return NotImplemented
        return OPS[op](self, o)

    def r(self, o):
        if not _num(o):
            return NotImplemented
        return OPS[op](o, self)
    setattr(mpfr, f'__{name}__', f)
    setattr(mpfr, f'__r{name}__', r)


def _num(o):
    return isinstance(o, (mpfr, int, float, type(G.mpz(0)), MPQ)) or type(o) in (SymInt, SymBool, SymFloat)


for _n, _o in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'div')):
    _bin(_n, _o, None)
mpfr.__neg__ = lambda self: OPS['minus'](self)
mpfr.__pos__ = lambda self: OPS['plus'](self)
mpfr.__abs__ = lambda self: OPS['abs'](self)


def _other(name):
    def f(self, *o):
        r = try_real(lambda a, *b: getattr(a, name)(*b), (self,) + o)
        if r is NotImplemented:
            raise Unsupported(f'mpfr.{name} on symbolic values')
        return r
    setattr(mpfr, name, f)


for _n in ('__mod__', '__rmod__', '__floordiv__', '__rfloordiv__', '__divmod__', '__pow__', '__rpow__', '__round__', '__floor__',
           '__ceil__', '__trunc__'):
    _other(_n)


def _cmpop(name, zf):
    def f(self, o):
        x = number(o)
        if x is None:
            return NotImplemented
        (a, b), _ = common([self.t, x.t])
        r = simp(zf(a, b))
        return mkbool(r)
    setattr(mpfr, f'__{name}__', f)


for _n, _f in (('lt', z3.fpLT), ('le', z3.fpLEQ), ('gt', z3.fpGT), ('ge', z3.fpGEQ), ('eq', z3.fpEQ),
               ('ne', lambda a, b: z3.Not(z3.fpEQ(a, b)))):
    _cmpop(_n, _f)


def predicate(f):
    def p(x):
        v = number(x)
        if v is None:
            raise TypeError('argument type not supported')
        return mkbool(simp(f(v.t)))
    return p


is_nan = predicate(z3.fpIsNaN)
is_zero = predicate(z3.fpIsZero)
is_infinite = predicate(z3.fpIsInf)
is_finite = predicate(lambda t: z3.And(z3.Not(z3.fpIsNaN(t)), z3.Not(z3.fpIsInf(t))))
is_regular = predicate(lambda t: z3.And(z3.Not(z3.fpIsNaN(t)), z3.Not(z3.fpIsInf(t)), z3.Not(z3.fpIsZero(t))))
is_integer = predicate(lambda t: z3.And(z3.Not(z3.fpIsNaN(t)), z3.Not(z3.fpIsInf(t)), z3.fpEQ(z_rint(RTZ, t), t)))


def is_signed(x):
    t = x.t
    if is_const(t) and not t.isNaN():
        return bool(t.isNegative())
    if x.nansign is None:
        # whatever was in memory: unspecified, but fixed for one object
        e = sym.need_engine()
        e.fresh += 1
        x.nansign = z3.Bool(f'nan_sign!{e.fresh}')
    s = x.nansign
    return mkbool(simp(z3.If(z3.fpIsNaN(t), s, z3.fpIsNegative(t))))


def sign(x):
    t = x.t
    if bool(is_nan(x)):
        return 0
    z = simp(z3.fpIsZero(t))
    n = simp(z3.fpIsNegative(t))
    return mkint(n_ite(z, const(0), n_ite(n, const(-1), const(1))))


def cmp(a, b):
    (x, y), _ = common([number(a).t, number(b).t])
    return mkint(n_ite(simp(z3.fpLT(x, y)), const(-1), n_ite(simp(z3.fpGT(x, y)), const(1), const(0))))


def z_rint(m, t):
    """rounding to an integral value; the solver fails on sorts with fewer digits than exponent bits"""
    e, p = es(t)
    if p >= e:
        return z3.fpRoundToIntegral(m, t)
    return z3.fpFPToFP(RNE, z3.fpRoundToIntegral(m, z3.fpFPToFP(RNE, t, z3.FPSort(e, e))), z3.FPSort(e, p))


def to_int(x, rm=None):
    """int() of an mpfr: rounds with the current mode"""
    if bool(is_nan(x)):
        raise ValueError("'mpz' does not support NaN")
    if bool(is_infinite(x)):
        raise OverflowError("'mpz' does not support Infinity")
    if is_const(x.t):
        with local(STATE[0].real):
            v = to_real(x)
            return int(G.rint_trunc(v) if rm is RTZ else G.rint_floor(v) if rm is RTN else G.rint_ceil(v) if rm is RTP else v)
    e, p = es(x.t)
    w = (1 << (e - 1)) + 2
    if w > 300:
        raise Unsupported(f'integers of {w} bits')
    rm = ROUND[STATE[0].real.round] if rm is None else rm
    t = x.t
    if p > 1 << (e - 1):        # the rounded value may lie beyond the sort
        t = embed(t, z3.FPSort(e + 2, p))
    r = by_mode(rm, lambda m: z_rint(m, t))
    n = from_bv(simp(z3.fpToSBV(RTZ, r, z3.BitVecSort(w))), True)
    return mkint(n)


def integral(name, rm):
    def fn(x):
        r = try_real(getattr(G, name), (x,))
        return int(r) if r is not NotImplemented else to_int(number(x), rm)
    fn.__name__ = name
    OPS[name] = fn


for _n, _m in (('trunc', RTZ), ('floor', RTN), ('ceil', RTP)):
    integral(_n, _m)


def to_float(x):
    if type(x) is SymFloat:
        return x
    if isinstance(x, mpfr):
        if is_const(x.t):
            with local(STATE[0].real):
                return float(to_real(x))
        e, p = es(x.t)
        D = z3.FPSort(11, 53)
        if e <= 11 and p <= 53:
            return SymFloat(embed(x.t, D))
        rm = ROUND[STATE[0].real.round]
        return SymFloat(simp(by_mode(rm, lambda m: z3.fpFPToFP(m, x.t, D))))
    hook = getattr(type(x), '__float__', None)
    if hook is not None and not isinstance(x, (int, float, str, Sym)):
        raw = getattr(hook, '__sx_raw__', hook)
        r = raw(x)
        if isinstance(r, float):
            return r
        raise TypeError(f'{type(x).__name__}.__float__ returned non-float')
    return float(x)


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.REAL)


class mpz(metaclass=_Meta):
    REAL = type(G.mpz(0))

    def __new__(cls, x=0, *a):
        if isinstance(x, mpfr):
            return to_int(x)
        if type(x) in (SymInt, SymBool):
            return x
        return G.mpz(x, *a)


class mpq(metaclass=_Meta):
    REAL = type(G.mpq(0))

    def __new__(cls, x=0, *a):
        if isinstance(x, Sym) or any(isinstance(i, Sym) for i in a):
            if type(x) is SymStr or type(x) is SymInt:
                x = x.concretize()
            else:
                raise Unsupported('symbolic rational')
        if isinstance(x, mpfr):
            x = native_arg(x)
            if x is None:
                raise Unsupported('symbolic rational')
        return G.mpq(x, *a)


def sx_float(*a):
    if len(a) == 1:
        x = a[0]
        if type(x) in (SymInt, SymBool):
            fmt = Fmt(Ctx(G.context(precision=53, emax=1024, emin=4 - 1024 - 53, subnormalize=True)))
            return SymFloat(round_to(exact_int(x), fmt))
        return to_float(x)
    return float(*a)


def module():
    """install hooks and return the module object"""
    from . import runtime
    runtime.special(float, sx_float)
    m = types.ModuleType('gmpy2')
    m.__dict__.update(
        mpfr=mpfr, mpz=mpz, mpq=mpq, context=context, local_context=local_context, get_context=get_context,
        set_context=set_context, is_nan=is_nan, is_zero=is_zero, is_infinite=is_infinite, is_finite=is_finite,
        is_signed=is_signed, is_regular=is_regular, is_integer=is_integer, sign=sign, cmp=cmp, copy_sign=copy_sign,
        set_sign=set_sign,
        Default=G.Default, __version__=G.__version__,
        **{k: getattr(G, k) for k in dir(G) if k.startswith('Round') or k.endswith('Error')},
        **{k: v for k, v in OPS.items() if k not in ('minus', 'plus', 'abs')})
    m.nan = lambda: from_real(G.nan())
    m.inf = lambda n=1: from_real(G.inf(n))
    m.zero = lambda n=1: from_real(G.zero(n))
    m.version = G.version

    def missing(name):
        if name.startswith('__') or not hasattr(G, name):
            raise AttributeError(name)

        def fn(*a, **k):
            r = try_real(getattr(G, name), a, k)
            if r is NotImplemented:
                raise Unsupported(f'gmpy2.{name} on symbolic values')
            return r
        return fn
    m.__getattr__ = missing
    return m
