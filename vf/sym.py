"""Symbolic Python values.

SymInt stands for a mathematical (unbounded) Python int.  It is a lazily
lowered expression DAG: every node knows an interval [lo, hi] (None = no bound
known) and can be lowered exactly modulo 2**n for any n as a z3 bit-vector.  A
width chosen from the interval makes the lowering lossless, so no Python int
ever silently wraps.
SymBool wraps a z3 Bool; SymStr is a sequence of literal text and decimal
renderings of SymInts; SymZ is an unbounded int in z3's Int theory.
"""
import z3

MAXW = 4096          # widest exact bit-vector the lowering will build
SHL_INTERVAL = 1024  # largest shift amount for which intervals are tracked

ENGINE = None        # the active Engine (set by engine.py)


class Unsupported(BaseException):
    """The encoding cannot represent this: inconclusive, never a verdict."""


def need_engine():
    if ENGINE is None:
        raise Unsupported('symbolic value used outside an exploration')
    return ENGINE


def bits_for(lo, hi):
    """(width, signed) of the smallest two's complement format for [lo,hi]"""
    if lo is None or hi is None:
        raise Unsupported('value without a known bound needed exactly')
    if lo >= 0:
        return max(hi.bit_length(), 1), False
    return max(hi.bit_length() if hi >= 0 else (~hi).bit_length(), (~lo).bit_length()) + 1, True


class Node:
    __slots__ = ('op', 'args', 'lo', 'hi', '_low')

    def __init__(self, op, args, lo, hi):
        self.op = op
        self.args = args
        self.lo = lo
        self.hi = hi
        self._low = {}

    def width(self):
        w, s = bits_for(self.lo, self.hi)
        if w > MAXW:
            raise Unsupported(f'exact value needs {w} bits')
        return w, s

    def low(self, n):
        r = self._low.get(n)
        if r is None:
            if n > MAXW:
                raise Unsupported(f'{n} bit lowering')
            r = self._low[n] = self._lower(n)
        return r

    def exact(self):
        w, s = self.width()
        return self.low(w), w, s

    def at(self, n):
        """value mod 2**n, going through the exact width when it is smaller"""
        if self.lo is not None and self.hi is not None and self.op not in ('const', 'var', 'term'):
            w, s = bits_for(self.lo, self.hi)
            if w < n:
                t = self.low(w)
                return z3.SignExt(n - w, t) if s else z3.ZeroExt(n - w, t)
        return self.low(n)

    def _lower(self, n):
        op, a = self.op, self.args
        if op == 'const':
            return z3.BitVecVal(a, n)
        if op == 'var':
            t, w, s = a
            return resize(t, w, s, n)
        if op == 'add':
            return a[0].at(n) + a[1].at(n)
        if op == 'sub':
            return a[0].at(n) - a[1].at(n)
        if op == 'mul':
            return a[0].at(n) * a[1].at(n)
        if op == 'neg':
            return -a[0].at(n)
        if op == 'inv':
            return ~a[0].at(n)
        if op == 'and':
            return a[0].at(n) & a[1].at(n)
        if op == 'or':
            return a[0].at(n) | a[1].at(n)
        if op == 'xor':
            return a[0].at(n) ^ a[1].at(n)
        if op == 'ite':
            return z3.If(a[0], a[1].at(n), a[2].at(n))
        if op == 'trunc':
            x, k = a
            if n <= k:
                return x.at(n)
            return z3.ZeroExt(n - k, x.at(k))
        if op == 'shl':
            x, s = a
            if s.op == 'const':
                k = s.args
                if k >= n:
                    return z3.BitVecVal(0, n)
                return x.at(n) << z3.BitVecVal(k, n)
            st, sw, _ = s.exact()
            if sw <= n:
                return x.at(n) << z3.ZeroExt(n - sw, st)
            return z3.If(z3.UGE(st, z3.BitVecVal(n, sw)), z3.BitVecVal(0, n),
                         x.at(n) << z3.Extract(n - 1, 0, st))
        if op == 'shr':
            x, s = a
            if s.op == 'const':
                k = s.args
                if x.lo is not None and x.hi is not None:
                    w, sg = bits_for(x.lo, x.hi)
                    if n + k > w:
                        t = x.low(w)
                        if k >= w:
                            if not sg:
                                return z3.BitVecVal(0, n)
                            return z3.SignExt(n - 1, z3.Extract(w - 1, w - 1, t)) if n > 1 else z3.Extract(w - 1, w - 1, t)
                        return resize(z3.Extract(w - 1, k, t), w - k, sg, n)
                return z3.Extract(n + k - 1, k, x.at(n + k))
            xt, xw, sg = x.exact()
            st, sw, _ = s.exact()
            w = max(xw, sw)
            xt, st = resize(xt, xw, sg, w), resize(st, sw, False, w)
            t = (xt >> st) if sg else z3.LShR(xt, st)
            return resize(t, w, sg, n)
        if op in ('fdiv', 'mod'):
            x, y = a
            if x.lo is not None and x.lo >= 0 and y.lo is not None and y.lo >= 0:
                w = max(x.width()[0], y.width()[0])
                xt, yt = x.at(w), y.at(w)
                t = z3.UDiv(xt, yt) if op == 'fdiv' else z3.URem(xt, yt)
                return resize(t, w, False, n)
            w = max(bits_for(min(x.lo, -1), x.hi)[0], bits_for(min(y.lo, -1), y.hi)[0]) + 1
            xt, yt = x.at(w), y.at(w)
            if op == 'mod':
                return resize(xt % yt, w, True, n)
            q = xt / yt
            adj = z3.And(z3.SRem(xt, yt) != 0, (xt < 0) != (yt < 0))
            return resize(z3.If(adj, q - 1, q), w, True, n)
        if op == 'bl':
            x, = a
            t, w, sg = x.exact()
            if sg:
                t = z3.If(t < 0, -t, t)
            m = max(n, w.bit_length() + 1)
            r = z3.BitVecVal(0, m)
            for i in range(w):
                r = z3.If(z3.Extract(i, i, t) == 1, z3.BitVecVal(i + 1, m), r)
            return r if m == n else z3.Extract(n - 1, 0, r)
        raise AssertionError(op)


def resize(t, w, signed, n):
    if n == w:
        return t
    if n < w:
        return z3.Extract(n - 1, 0, t)
    return z3.SignExt(n - w, t) if signed else z3.ZeroExt(n - w, t)


def const(v):
    return Node('const', v, v, v)


def from_bv(term, signed=False):
    """node for an existing z3 bit-vector term"""
    w = term.size()
    if signed:
        return Node('var', (term, w, True), -(1 << (w - 1)), (1 << (w - 1)) - 1)
    return Node('var', (term, w, False), 0, (1 << w) - 1)


def _addb(x, y):
    return None if x is None or y is None else x + y


def n_add(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.args + b.args)
    if a.op == 'const' and a.args == 0:
        return b
    if b.op == 'const' and b.args == 0:
        return a
    return Node('add', (a, b), _addb(a.lo, b.lo), _addb(a.hi, b.hi))


def n_neg(a):
    if a.op == 'const':
        return const(-a.args)
    return Node('neg', (a,), None if a.hi is None else -a.hi, None if a.lo is None else -a.lo)


def n_sub(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.args - b.args)
    if b.op == 'const' and b.args == 0:
        return a
    lo = None if a.lo is None or b.hi is None else a.lo - b.hi
    hi = None if a.hi is None or b.lo is None else a.hi - b.lo
    return Node('sub', (a, b), lo, hi)


def n_mul(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.args * b.args)
    for x, y in ((a, b), (b, a)):
        if x.op == 'const':
            if x.args == 0:
                return const(0)
            if x.args == 1:
                return y
    if None in (a.lo, a.hi, b.lo, b.hi):
        lo = 0 if (a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0) else None
        return Node('mul', (a, b), lo, None)
    ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
    return Node('mul', (a, b), min(ps), max(ps))


def n_inv(a):
    if a.op == 'const':
        return const(~a.args)
    return Node('inv', (a,), None if a.hi is None else ~a.hi, None if a.lo is None else ~a.lo)


def _fullmask(v):
    return v > 0 and (v & (v + 1)) == 0


def n_and(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.args & b.args)
    for x, y in ((a, b), (b, a)):
        if x.op == 'const':
            if x.args == 0:
                return const(0)
            if x.args == -1:
                return y
            if _fullmask(x.args):
                return n_trunc(y, x.args.bit_length())
    lo = hi = None
    an, bn = a.lo is not None and a.lo >= 0, b.lo is not None and b.lo >= 0
    if an or bn:
        lo = 0
        his = [x.hi for x, nn in ((a, an), (b, bn)) if nn and x.hi is not None]
        hi = min(his) if his else None
    elif None not in (a.lo, b.lo, a.hi, b.hi):
        w = max(bits_for(min(a.lo, -1), a.hi)[0], bits_for(min(b.lo, -1), b.hi)[0])
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return Node('and', (a, b), lo, hi)


def _orlike(op, a, b):
    if None in (a.lo, a.hi, b.lo, b.hi):
        lo = 0 if (a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0) else None
        return Node(op, (a, b), lo, None)
    if a.lo >= 0 and b.lo >= 0:
        return Node(op, (a, b), 0, (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1)
    w = max(bits_for(min(a.lo, -1), a.hi)[0], bits_for(min(b.lo, -1), b.hi)[0])
    return Node(op, (a, b), -(1 << (w - 1)), (1 << (w - 1)) - 1)


def n_or(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.args | b.args)
    for x, y in ((a, b), (b, a)):
        if x.op == 'const' and x.args == 0:
            return y
    return _orlike('or', a, b)


def n_xor(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.args ^ b.args)
    for x, y in ((a, b), (b, a)):
        if x.op == 'const' and x.args == 0:
            return y
    return _orlike('xor', a, b)


def n_trunc(a, k):
    """a mod 2**k"""
    if a.op == 'const':
        return const(a.args & ((1 << k) - 1))
    if k == 0:
        return const(0)
    if a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < (1 << k):
        return a
    if a.op == 'trunc':
        x, j = a.args
        return n_trunc(x, min(j, k))
    return Node('trunc', (a, k), 0, (1 << k) - 1)


def n_shl(a, s):
    if a.op == 'const' and s.op == 'const':
        return const(a.args << s.args)
    if s.op == 'const' and s.args == 0:
        return a
    lo = hi = None
    if s.hi is not None and s.hi <= SHL_INTERVAL and a.lo is not None and a.hi is not None:
        lo = a.lo << (s.hi if a.lo < 0 else s.lo)
        hi = a.hi << (s.hi if a.hi >= 0 else s.lo)
    elif a.lo is not None and a.lo >= 0:
        lo = 0
    return Node('shl', (a, s), lo, hi)


def n_shr(a, s):
    if a.op == 'const' and s.op == 'const':
        return const(a.args >> s.args)
    if s.op == 'const' and s.args == 0:
        return a
    lo = hi = None
    cap = 1 << 14
    slo = min(s.lo, cap)
    shi = cap if s.hi is None else min(s.hi, cap)
    if a.lo is not None:
        lo = a.lo >> (slo if a.lo < 0 else shi)
    if a.hi is not None:
        hi = a.hi >> (shi if a.hi < 0 else slo)
    if s.op == 'const' and s.args == 0:
        return a
    return Node('shr', (a, s), lo, hi)


def n_fdiv(a, b):
    if b.op == 'const':
        if a.op == 'const':
            return const(a.args // b.args)
        if b.args == 1:
            return a
        if b.args > 0 and b.args & (b.args - 1) == 0:
            return n_shr(a, const(b.args.bit_length() - 1))
    if None in (a.lo, a.hi, b.lo, b.hi):
        raise Unsupported('division of an unbounded value')
    if a.lo >= 0 and b.lo >= 0:
        return Node('fdiv', (a, b), a.lo // max(b.hi, 1), a.hi // max(b.lo, 1))
    m = max(abs(a.lo), abs(a.hi)) + 1
    return Node('fdiv', (a, b), -m, m)


def n_mod(a, b):
    if b.op == 'const':
        if a.op == 'const':
            return const(a.args % b.args)
        if b.args > 0 and b.args & (b.args - 1) == 0:
            return n_trunc(a, b.args.bit_length() - 1)
    if None in (a.lo, a.hi, b.lo, b.hi):
        raise Unsupported('modulo of an unbounded value')
    if b.lo >= 0:
        hi = max(b.hi - 1, 0)
        if a.lo >= 0:
            hi = min(hi, a.hi)
        return Node('mod', (a, b), 0, hi)
    return Node('mod', (a, b), min(b.lo + 1, 0), max(b.hi - 1, 0))


def n_ite(c, a, b):
    if a is b:
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
    hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    return Node('ite', (c, a, b), lo, hi)


def n_bl(a):
    if a.op == 'const':
        return const(a.args.bit_length())
    if a.op == 'shl':
        x, s = a.args
        return n_ite(c_eq(x, const(0)), const(0), n_add(n_bl(x), s))
    if a.lo is None or a.hi is None:
        if a.op == 'ite':
            c, x, y = a.args
            return n_ite(c, n_bl(x), n_bl(y))
        raise Unsupported('bit_length of an unbounded value')
    m = max(abs(a.lo), abs(a.hi)).bit_length()
    lo = 0
    if a.lo > 0:
        lo = a.lo.bit_length()
    elif a.hi < 0:
        lo = (-a.hi).bit_length()
    return Node('bl', (a,), lo, m)


# ---- comparisons (z3 Bool) -------------------------------------------------
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def _b(v):
    return TRUE if v else FALSE


def _joint(a, b):
    wa, sa = a.width()
    wb, sb = b.width()
    if sa or sb:
        w = max(bits_for(min(a.lo, -1), a.hi)[0], bits_for(min(b.lo, -1), b.hi)[0])
        return w, True
    return max(wa, wb), False


def c_eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return _b(a.args == b.args)
    if None not in (a.hi, b.lo) and a.hi < b.lo or None not in (a.lo, b.hi) and b.hi < a.lo:
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and (x.lo is None or x.hi is None):
            c, p, q = x.args
            return z3.If(c, c_eq(p, y), c_eq(q, y))
        if x.op == 'shl' and x.hi is None and y.op == 'const':
            v, s = x.args
            return _shl_eq_const(v, s, y.args)
    w, _ = _joint(a, b)
    return a.at(w) == b.at(w)


def _shl_eq_const(v, s, k):
    if k == 0:
        return c_eq(v, const(0))
    tz = (k & -k).bit_length() - 1
    # v << s == k  <=>  s <= tz and v == k >> s
    return z3.Or([z3.And(c_eq(s, const(j)), c_eq(v, const(k >> j))) for j in range(tz + 1)])


def c_lt(a, b):
    if a is b:
        return FALSE
    if a.op == 'const' and b.op == 'const':
        return _b(a.args < b.args)
    if None not in (a.hi, b.lo) and a.hi < b.lo:
        return TRUE
    if None not in (a.lo, b.hi) and a.lo >= b.hi:
        return FALSE
    for x, y, flip in ((a, b, 0), (b, a, 1)):
        if x.op == 'ite' and (x.lo is None or x.hi is None):
            c, p, q = x.args
            if flip:
                return z3.If(c, c_lt(y, p), c_lt(y, q))
            return z3.If(c, c_lt(p, y), c_lt(q, y))
    # x.bit_length() vs constant
    if a.op == 'bl' and b.op == 'const':           # bl(x) < k  <=> |x| < 2**(k-1)
        x, = a.args
        k = b.args
        if k <= 0:
            return FALSE
        m = 1 << (k - 1)
        if x.lo >= 0:
            return c_lt(x, const(m))
        return z3.And(c_lt(x, const(m)), c_lt(const(-m), x))
    if b.op == 'bl' and a.op == 'const':           # k < bl(x) <=> not bl(x) < k+1
        return z3.Not(c_lt(b, const(a.args + 1)))
    for x, y, flip in ((a, b, 0), (b, a, 1)):
        if x.op == 'shl' and (x.hi is None or x.lo is None) and y.op == 'const':
            v, s = x.args
            k = y.args
            if v.lo is not None and v.lo >= 0:
                # v << s <= k  <=>  v <= k >> s
                kk = k - 1 if not flip else k
                if kk < 0:
                    le = FALSE
                else:
                    n = kk.bit_length()
                    alts = [z3.And(c_eq(s, const(j)), c_le(v, const(kk >> j))) for j in range(n)]
                    le = z3.Or(alts + [c_eq(v, const(0))])
                return le if not flip else z3.Not(le)
    w, s = _joint(a, b)
    x, y = a.at(w), b.at(w)
    return (x < y) if s else z3.ULT(x, y)


def c_le(a, b):
    return z3.Not(c_lt(b, a))


# ---- proxies ---------------------------------------------------------------
class Sym:
    __slots__ = ()


def is_sym(x):
    return isinstance(x, Sym)   # type() based: Sym subclasses only


def mkbool(t):
    """SymBool or Python bool for a z3 Bool term"""
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def zbool(x):
    """z3 Bool of a SymBool or Python truth value"""
    t = type(x)
    if t is SymBool:
        return x.t
    if t is bool:
        return _b(x)
    if t is SymInt:
        return z3.Not(c_eq(x.n, const(0)))
    raise Unsupported(f'not a boolean: {t}')


class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return need_engine().fork(self.t)

    def as_int(self):
        return SymInt(n_ite(self.t, const(1), const(0)))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return repr(bool(self)) if ENGINE is not None and ENGINE.running else f'SymBool({self.t})'

    def __format__(self, spec):
        return format(bool(self), spec)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.as_int(), name)

    def __invert__(self):
        return ~self.as_int()

    def __neg__(self):
        return -self.as_int()

    def __pos__(self):
        return self.as_int()

    def __abs__(self):
        return self.as_int()


def _mk_boolop(name, zf):
    iname = name

    def f(self, other):
        t = type(other)
        if t is SymBool or t is bool:
            return mkbool(z3.simplify(zf(self.t, zbool(other))))
        return getattr(self.as_int(), iname)(other)

    def r(self, other):
        t = type(other)
        if t is SymBool or t is bool:
            return mkbool(z3.simplify(zf(zbool(other), self.t)))
        return getattr(self.as_int(), '__r' + iname[2:])(other)
    return f, r


for _nm, _zf in (('__and__', lambda a, b: z3.And(a, b)), ('__or__', lambda a, b: z3.Or(a, b)),
                 ('__xor__', lambda a, b: z3.Xor(a, b))):
    _f, _r = _mk_boolop(_nm, _zf)
    setattr(SymBool, _nm, _f)
    setattr(SymBool, '__r' + _nm[2:], _r)


def _bool_cmp(name):
    def f(self, other):
        t = type(other)
        if (t is SymBool or t is bool) and name in ('__eq__', '__ne__'):
            c = self.t == zbool(other)
            return mkbool(z3.simplify(c if name == '__eq__' else z3.Not(c)))
        return getattr(self.as_int(), name)(other)
    return f


for _nm in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'):
    setattr(SymBool, _nm, _bool_cmp(_nm))


def _bool_arith(name):
    def f(self, *other):
        return getattr(self.as_int(), name)(*other)
    return f


for _nm in ('add', 'sub', 'mul', 'floordiv', 'mod', 'lshift', 'rshift', 'pow', 'truediv', 'divmod'):
    for _p in ('__', '__r'):
        setattr(SymBool, f'{_p}{_nm}__', _bool_arith(f'{_p}{_nm}__'))


def node_of(x):
    """Node of an int-like symbolic or concrete value, else None"""
    t = type(x)
    if t is SymInt:
        return x.n
    if t is int:
        return const(x)
    if t is bool:
        return const(int(x))
    if t is SymBool:
        return n_ite(x.t, const(1), const(0))
    if isinstance(x, int) and not isinstance(x, Sym):   # int subclasses (mpz is not one)
        return const(int(x))
    return None


def mkint(n):
    return n.args if n.op == 'const' else SymInt(n)


class SymInt(Sym):
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    @property
    def __class__(self):
        return int

    def concretize(self):
        return need_engine().concretize(self.n)

    def __bool__(self):
        return need_engine().fork(z3.Not(c_eq(self.n, const(0))))

    def __index__(self):
        return self.concretize()

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.concretize())

    def __hash__(self):
        return hash(self.concretize())

    def __str__(self):
        return str(self.concretize())

    def __repr__(self):
        if ENGINE is not None and ENGINE.running:
            return repr(self.concretize())
        return f'SymInt[{self.n.lo},{self.n.hi}]'

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in ('real', 'numerator'):
            return self
        if name == 'imag':
            return 0
        if name == 'denominator':
            return 1
        return getattr(self.concretize(), name)

    def bit_length(self):
        return mkint(n_bl(self.n))

    def bit_count(self):
        t, w, sg = self.n.exact()
        if sg:
            t = z3.If(t < 0, -t, t)
        acc = const(0)
        for i in range(w):
            acc = n_add(acc, Node('var', (z3.Extract(i, i, t), 1, False), 0, 1))
        return mkint(acc)

    def conjugate(self):
        return self

    def __neg__(self):
        return mkint(n_neg(self.n))

    def __pos__(self):
        return self

    def __invert__(self):
        return mkint(n_inv(self.n))

    def __abs__(self):
        neg = c_lt(self.n, const(0))
        return mkint(n_ite(neg, n_neg(self.n), self.n))

    def __round__(self, nd=None):
        return self

    __floor__ = __ceil__ = __round__

    def __pow__(self, e, m=None):
        return _pow(self, e, m)

    def __rpow__(self, b, m=None):
        return _pow(b, self, m)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return self.concretize() / (o.concretize() if type(o) is SymInt else o)

    def __rtruediv__(self, o):
        return o / self.concretize()


def _pow(b, e, m):
    if m is not None:
        return _pow(b, e, None) % m
    bn, en = node_of(b), node_of(e)
    if bn is None or en is None:
        return NotImplemented
    if bn.op == 'const' and bn.args == 2:
        if en.lo is not None and en.lo >= 0:
            return mkint(n_shl(const(1), en))
        return 1 << e
    e = e.concretize() if type(e) is SymInt else int(e)
    if e < 0 or e > 64:
        raise Unsupported('pow')
    r = const(1)
    for _ in range(e):
        r = n_mul(r, bn)
    return mkint(r)


def _binop(fn):
    def f(self, other):
        o = node_of(other)
        if o is None:
            return NotImplemented
        return mkint(fn(self.n, o))

    def r(self, other):
        o = node_of(other)
        if o is None:
            return NotImplemented
        return mkint(fn(o, self.n))
    return f, r


def _nonneg(s):
    if s.lo is None or s.lo < 0:
        if need_engine().fork(c_lt(s, const(0))):
            raise ValueError('negative shift count')
        s = Node(s.op, s.args, max(s.lo or 0, 0), s.hi) if s.op != 'const' else s
        # the copy carries the learned bound; values outside are excluded by the path condition
    return s


SHL_LIMIT = 1 << 36   # shifting a non-zero int left by more than this exhausts memory


def _shl(a, s):
    s = _nonneg(s)
    if (s.hi is None or s.hi > SHL_LIMIT) and not (a.op == 'const' and a.args == 0):
        if need_engine().fork(z3.And(c_lt(const(SHL_LIMIT), s), z3.Not(c_eq(a, const(0))))):
            raise MemoryError
    return n_shl(a, s)


def _shr(a, s):
    return n_shr(a, _nonneg(s))


def _nonzero(b):
    if b.op == 'const':
        if b.args == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return
    if b.lo is not None and b.lo > 0 or b.hi is not None and b.hi < 0:
        return
    if need_engine().fork(c_eq(b, const(0))):
        raise ZeroDivisionError('integer division or modulo by zero')


def _fdiv(a, b):
    _nonzero(b)
    return n_fdiv(a, b)


def _mod(a, b):
    _nonzero(b)
    return n_mod(a, b)


for _nm, _fn in (('add', n_add), ('sub', n_sub), ('mul', n_mul), ('and', n_and), ('or', n_or),
                 ('xor', n_xor), ('lshift', _shl), ('rshift', _shr), ('floordiv', _fdiv), ('mod', _mod)):
    _f, _r = _binop(_fn)
    setattr(SymInt, f'__{_nm}__', _f)
    setattr(SymInt, f'__r{_nm}__', _r)


def _cmp(fn):
    def f(self, other):
        o = node_of(other)
        if o is None:
            return NotImplemented
        return mkbool(z3.simplify(fn(self.n, o)))
    return f


SymInt.__eq__ = _cmp(c_eq)
SymInt.__ne__ = _cmp(lambda a, b: z3.Not(c_eq(a, b)))
SymInt.__lt__ = _cmp(c_lt)
SymInt.__le__ = _cmp(c_le)
SymInt.__gt__ = _cmp(lambda a, b: c_lt(b, a))
SymInt.__ge__ = _cmp(lambda a, b: c_le(b, a))


# ---- unbounded ints in the Int theory --------------------------------------
class SymZ(Sym):
    """an int in z3's Int theory (used for SMTInt)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    def __bool__(self):
        return need_engine().fork(self.t != 0)

    def __index__(self):
        raise Unsupported('concretisation of an unbounded int')

    __int__ = __index__
    __hash__ = __index__

    def __neg__(self):
        return SymZ(-self.t)

    def __abs__(self):
        return SymZ(z3.If(self.t < 0, -self.t, self.t))

    def __str__(self):
        raise Unsupported('text of an unbounded int')

    def __repr__(self):
        return f'SymZ({self.t})'


def zint(x):
    t = type(x)
    if t is SymZ:
        return x.t
    if t is int or t is bool:
        return z3.IntVal(int(x))
    if t is SymInt:
        tt, w, s = x.n.exact()
        return z3.BV2Int(tt, is_signed=s)
    if t is SymBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    return None


def _zop(fn):
    def f(self, other):
        o = zint(other)
        return NotImplemented if o is None else fn(self.t, o)

    def r(self, other):
        o = zint(other)
        return NotImplemented if o is None else fn(o, self.t)
    return f, r


def _zfdiv(a, b):
    if need_engine().fork(b == 0):
        raise ZeroDivisionError
    return SymZ(z3.If(b > 0, a / b, (-a) / (-b)))


def _zmod(a, b):
    if need_engine().fork(b == 0):
        raise ZeroDivisionError
    return SymZ(z3.If(b > 0, a % b, -((-a) % (-b))))


for _nm, _fn in (('add', lambda a, b: SymZ(a + b)), ('sub', lambda a, b: SymZ(a - b)),
                 ('mul', lambda a, b: SymZ(a * b)), ('floordiv', _zfdiv), ('mod', _zmod)):
    _f, _r = _zop(_fn)
    setattr(SymZ, f'__{_nm}__', _f)
    setattr(SymZ, f'__r{_nm}__', _r)
for _nm, _fn in (('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b), ('lt', lambda a, b: a < b),
                 ('le', lambda a, b: a <= b), ('gt', lambda a, b: a > b), ('ge', lambda a, b: a >= b)):
    setattr(SymZ, f'__{_nm}__', _zop(lambda a, b, _fn=_fn: mkbool(z3.simplify(_fn(a, b))))[0])


# ---- strings ----------------------------------------------------------------
class SymStr(Sym):
    """concatenation of str literals and decimal renderings of SymInt nodes"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p == '' if isinstance(p, str) else False:
                continue
            else:
                out.append(p)
        self.parts = out

    @property
    def __class__(self):
        return str

    def concretize(self):
        return ''.join(p if type(p) is str else str(need_engine().concretize(p)) for p in self.parts)

    def __str__(self):
        return self.concretize()

    def __repr__(self):
        if ENGINE is not None and ENGINE.running:
            return repr(self.concretize())
        return f'SymStr({self.parts})'

    def __hash__(self):
        return hash(self.concretize())

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def __len__(self):
        if all(type(p) is str or _digit(p) for p in self.parts):
            return sum(len(p) if type(p) is str else 1 for p in self.parts)
        return len(self.concretize())

    def chars(self):
        """list of one-char str / one-digit Node, or None"""
        out = []
        for p in self.parts:
            if type(p) is str:
                out.extend(p)
            elif _digit(p):
                out.append(p)
            else:
                return None
        return out

    def __iter__(self):
        c = self.chars()
        if c is None:
            return iter(self.concretize())
        return iter([x if type(x) is str else SymStr([x]) for x in c])

    def __getitem__(self, i):
        c = self.chars()
        if c is None:
            return self.concretize()[i]
        if isinstance(i, slice):
            return SymStr(c[i])
        x = c[i]
        return x if type(x) is str else SymStr([x])

    def __add__(self, o):
        if type(o) is SymStr:
            return SymStr(self.parts + o.parts)
        if isinstance(o, str):
            return SymStr(self.parts + [o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymStr([o] + self.parts)
        return NotImplemented

    def __bool__(self):
        return bool(self.parts) and len(self) > 0

    def __contains__(self, x):
        return x in self.concretize()

    def __eq__(self, o):
        op = o.parts if type(o) is SymStr else [o] if isinstance(o, str) else None
        if op is None:
            return NotImplemented
        if o == '' if type(o) is str else False:
            op = []
        a, b = self.chars(), (o.chars() if type(o) is SymStr else list(o))
        if a is not None and b is not None:
            if len(a) != len(b):
                return False
            cs = []
            for x, y in zip(a, b):
                if type(x) is str and type(y) is str:
                    if x != y:
                        return False
                elif type(x) is not str and type(y) is not str:
                    cs.append(c_eq(x, y))
                else:
                    ch, nd = (x, y) if type(x) is str else (y, x)
                    if not ch.isdigit():
                        return False
                    cs.append(c_eq(nd, const(int(ch))))
            return mkbool(z3.simplify(z3.And(cs))) if cs else True
        if len(self.parts) == len(op) and sum(type(p) is not str for p in op) == 1 \
                and all((type(p) is str) == (type(q) is str) for p, q in zip(self.parts, op)):
            cs = []
            for p, q in zip(self.parts, op):
                if type(p) is str:
                    if p != q:
                        return self.concretize() == (o.concretize() if type(o) is SymStr else o)
                else:
                    cs.append(c_eq(p, q))
            return mkbool(z3.simplify(z3.And(cs)))
        return self.concretize() == (o.concretize() if type(o) is SymStr else o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(z3.simplify(z3.Not(zbool(r))))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.concretize(), name)


def _digit(n):
    return n.lo is not None and n.hi is not None and n.lo >= 0 and n.hi <= 9


class SymHash(Sym):
    """hash() of a value with symbolic parts; equal keys have equal hashes"""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    @property
    def __class__(self):
        return int

    def __index__(self):
        return hash(plain(self.key))

    __int__ = __index__
    __hash__ = __index__

    def __eq__(self, o):
        if type(o) is not SymHash:
            return hash(plain(self.key)) == o
        return key_eq(self.key, o.key)

    def __ne__(self, o):
        r = self == o
        return mkbool(z3.simplify(z3.Not(zbool(r))))

    def _mix(self, o, op):
        k = o.key if type(o) is SymHash else o
        return SymHash(('#' + op, self.key, k))

    def __add__(self, o):
        return self._mix(o, '+')

    def __radd__(self, o):
        return SymHash(('#+', o, self.key))

    def __xor__(self, o):
        return self._mix(o, '^')

    __rxor__ = __xor__

    def __mul__(self, o):
        return self._mix(o, '*')

    __rmul__ = __mul__

    def __and__(self, o):
        return self._mix(o, '&')

    def __repr__(self):
        return f'SymHash({self.key!r})'


def key_eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        cs = []
        for x, y in zip(a, b):
            r = key_eq(x, y)
            if r is False:
                return False
            cs.append(zbool(r))
        return mkbool(z3.simplify(z3.And(cs))) if cs else True
    if isinstance(a, type) or isinstance(b, type):
        return a is b
    if type(a) is SymHash and type(b) is SymHash:
        return key_eq(a.key, b.key)
    r = (a == b)
    t = type(r)
    if t is bool or t is SymBool:
        return r
    b_ = type(r).__dict__.get('__bool__', None) or getattr(type(r), '__bool__', None)
    raw = getattr(b_, '__sx_raw__', None)
    return raw(r) if raw else bool(r)


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if type(x) in (tuple, list, frozenset):
        return any(has_sym(i) for i in x)
    return False


def plain(x):
    if type(x) in (SymInt, SymStr):
        return x.concretize()
    if type(x) is SymBool:
        return bool(x)
    if type(x) is SymHash:
        return hash(plain(x.key))
    if type(x) is tuple:
        return tuple(plain(i) for i in x)
    return x
