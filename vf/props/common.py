"""Reference semantics and harnesses shared by the three backends.

References are plain Python over unbounded ints: a, b are the unsigned readings
of the operands (0 <= a, b < 2**w); the result is the unsigned reading.
"""
import operator

from ..registry import Case

W_SMALL = (1, 2, 3, 4)
QUICK_W = tuple(range(1, 67)) + (96, 127, 128, 129, 257)
ALL_W = tuple(range(1, 131)) + (192, 255, 256, 257, 511, 512, 513)
EDGE_W = tuple(range(1, 10)) + (15, 16, 17, 31, 32, 33, 63, 64, 65)      # around the sizes of machine words


def widths(tier, quick=QUICK_W, full=ALL_W):
    return quick if tier == 'quick' else full


def m(v, w):
    return v & ((1 << w) - 1)


# name -> (operator or None, reference(env, a, b, w))
ARITH = {
    'bvadd': (operator.add, lambda e, a, b, w: m(a + b, w)),
    'bvsub': (operator.sub, lambda e, a, b, w: m(a - b, w)),
    'bvmul': (operator.mul, lambda e, a, b, w: m(a * b, w)),
}
LOGIC = {
    'bvand': (operator.and_, lambda e, a, b, w: a & b),
    'bvor': (operator.or_, lambda e, a, b, w: a | b),
    'bvxor': (operator.xor, lambda e, a, b, w: a ^ b),
    'bvnand': (None, lambda e, a, b, w: m(~(a & b), w)),
    'bvnor': (None, lambda e, a, b, w: m(~(a | b), w)),
    'bvxnor': (None, lambda e, a, b, w: m(~(a ^ b), w)),
}


def safe(e, b):
    """divisor made non-zero where the quotient is not used"""
    return e.ite(b == 0, 1, b)


def udiv(e, a, b, w):
    return e.ite(b == 0, (1 << w) - 1, a // safe(e, b))


def urem(e, a, b, w):
    return e.ite(b == 0, a, a % safe(e, b))


def sdiv_floor(e, a, b, w):
    if e.split(b == 0):
        return (1 << w) - 1
    return m(e.signed_split(a, w) // e.signed_split(b, w), w)


def srem_floor(e, a, b, w):
    if e.split(b == 0):
        return a
    return m(e.signed_split(a, w) % e.signed_split(b, w), w)


def absv(e, x):
    return e.ite(x < 0, -x, x)


def sdiv_trunc(e, a, b, w):
    """SMT-LIB bvsdiv: rounds towards zero; by zero: 1 for negative a, else all ones"""
    sa, sb = e.signed(a, w), e.signed(b, w)
    q = absv(e, sa) // absv(e, safe(e, sb))
    q = e.ite(e.iff(sa < 0, sb < 0), q, -q)
    return e.ite(b == 0, e.ite(sa < 0, 1, (1 << w) - 1), m(q, w))


def srem_trunc(e, a, b, w):
    """SMT-LIB bvsrem: sign follows the dividend; by zero: a"""
    sa, sb = e.signed(a, w), e.signed(b, w)
    r = absv(e, sa) % absv(e, safe(e, sb))
    return e.ite(b == 0, a, m(e.ite(sa < 0, -r, r), w))


UDIV = {
    'bvudiv': (operator.floordiv, udiv),
    'bvurem': (operator.mod, urem),
}
SDIV = {
    'bvsdiv': (operator.floordiv, sdiv_floor),
    'bvsrem': (operator.mod, srem_floor),
}


def clip(e, b, w):
    """shift amount; anything >= w behaves like w"""
    return e.ite(b >= w, w, b)


SHIFT = {
    'bvshl': (operator.lshift, lambda e, a, b, w: m(a << clip(e, b, w), w)),
    'bvlshr': (operator.rshift, lambda e, a, b, w: a >> clip(e, b, w)),
}
ASHR = {
    'bvashr': (operator.rshift, lambda e, a, b, w: m(e.signed(a, w) >> clip(e, b, w), w)),
}


def rol(e, a, b, w):
    k = b % w
    return m((a << k) | (a >> (w - k)), w)


def ror(e, a, b, w):
    k = b % w
    return m((a >> k) | (a << (w - k)), w)


BVCOMP = {'bvcomp': (None, lambda e, a, b, w: e.ite(a == b, 1, 0))}
ROT = {'bvrol': (None, rol), 'bvror': (None, ror)}

CMP_EQ = {
    'bveq': (operator.eq, lambda e, a, b, w: a == b),
    'bvne': (operator.ne, lambda e, a, b, w: a != b),
}
CMP_U = {
    'bvult': (operator.lt, lambda e, a, b, w: a < b),
    'bvule': (operator.le, lambda e, a, b, w: a <= b),
    'bvugt': (operator.gt, lambda e, a, b, w: a > b),
    'bvuge': (operator.ge, lambda e, a, b, w: a >= b),
}
CMP_S = {
    'bvslt': (operator.lt, lambda e, a, b, w: e.signed(a, w) < e.signed(b, w)),
    'bvsle': (operator.le, lambda e, a, b, w: e.signed(a, w) <= e.signed(b, w)),
    'bvsgt': (operator.gt, lambda e, a, b, w: e.signed(a, w) > e.signed(b, w)),
    'bvsge': (operator.ge, lambda e, a, b, w: e.signed(a, w) >= e.signed(b, w)),
}
# signed division of the term libraries rounds towards zero (SMT-LIB)
SDIVT = {
    'bvsdiv': (operator.floordiv, sdiv_trunc),
    'bvsrem': (operator.mod, srem_trunc),
}
TABLES = dict(SDIVT=SDIVT, ARITH=ARITH, LOGIC=LOGIC, UDIV=UDIV, SDIV=SDIV, SHIFT=SHIFT, ASHR=ASHR, ROT=ROT,
              CMP_EQ=CMP_EQ, CMP_U=CMP_U, CMP_S=CMP_S, BVCOMP=BVCOMP)
# tables whose operator form belongs to unsigned types / to signed types only
UNSIGNED_OPS = ('UDIV', 'SHIFT', 'CMP_U')
SIGNED_OPS = ('SDIV', 'ASHR', 'CMP_S')



def sel(env, fam, name, lo, hi):
    """a symbolic int; split into its values where the term library needs a native one"""
    i = env.int(name, lo, hi)
    return i if fam == 'c' else env.concrete(i)


def operand(env, fam, T, name, form, w):
    """(object handed to the operation, its unsigned value mod 2**w)"""
    F = env.fams[fam]
    if form == 'same':
        o = env.bv(T, name)
        return o, env.val(o)
    if form == 'int':
        v = env.int(name, -(1 << (w + 2)), 1 << (w + 2))
        return v, m(v, w)
    if form == 'bool':
        v = env.bool(name)
        return v, env.ite(v, 1, 0)
    if form == 'bit':
        o = env.bit(F.Bit, name)
        return o, env.ite(env.val(o), 1, 0)
    if form in ('conc', 'concbit'):
        # a concrete vector, or bit, among symbolic ones
        C = env.fams['c']
        if form == 'concbit':
            o = env.bit(C.Bit, name)
            return o, env.ite(env.val(o), 1, 0)
        o = env.bv(next(C.of(k) for k in ('bv', 'u', 's') if F.of(k)[w] is T)[w], name)
        return o, env.val(o)
    if form == 'list':
        bs = [env.bool(f'{name}{i}') for i in range(w)]
        return bs, sum((env.ite(b, 1 << i, 0) for i, b in enumerate(bs)), 0)
    if form in ('const', 'plain const'):
        # one native constant after the other: the branches taken for particular literals
        v = env.pick(name, literals(w))
        return T(v) if form == 'const' else v, v
    if form == 'amount':
        # rotation / shift amounts up to 3w only
        v = env.int(name, 0, min(3 * w, (1 << w) - 1))
        return T(v), v
    raise AssertionError(form)


def literals(w):
    """constants at which an implementation may take a shortcut"""
    top = 1 << w
    if w <= 3:
        return list(range(top))
    half = (1 << w // 2) - 1
    vs = [0, 1, 2, 3, 5, w - 1, w, w + 1, half, half + 1, top // 2 - 1, top // 2, top // 2 + 1, top - 2, top - 1]
    return sorted({v for v in vs if v < top})


def related(env, T, a, av, form, w):
    """operands built from the other one"""
    if form == 'alias':
        return a, av
    if form == 'negated':
        return -a, m(-av, w)
    if form == 'inverted':
        return ~a, m(~av, w)
    c = env.bv(T, 'b')
    cv = env.val(c)
    if form == 'sum':
        return a + c, m(av + cv, w)
    if form == 'choice':
        s = env.bit(T.get_family().Bit, 's')
        return s.ite(a, c), env.ite(env.val(s), av, cv)
    raise AssertionError(form)


RELATED = ('alias', 'negated', 'inverted', 'sum', 'choice')


def binops(env, fam, kind, w, tables, form='same', only=None):
    """method form and operator form of every operation in the tables"""
    F = env.fams[fam]
    T = F.of(kind)[w]
    if form in ('const left', 'consts'):
        a, av = operand(env, fam, T, 'a', 'const', w)
        b, bv = operand(env, fam, T, 'b', 'same' if form == 'const left' else 'const', w)
    elif form in RELATED:
        a = env.bv(T, 'a')
        av = env.val(a)
        b, bv = related(env, T, a, av, form, w)
    else:
        a = env.bv(T, 'a')
        b, bv = operand(env, fam, T, 'b', form, w)
        av = env.val(a)
    if 'UDIV' in tables:
        env.split(bv == 0)
    for tn in tables:
        for name, (op, ref) in TABLES[tn].items():
            if only and name not in only:
                continue
            forms = [(name, lambda: getattr(a, name)(b))]
            if op is not None and op_applies(tn, name, kind):
                forms.append((f'operator {op.__name__}', lambda: op(a, b)))
            for label, f in forms:
                r = f()
                if tn.startswith('CMP'):
                    env.is_a(label, r, F.Bit)
                elif name == 'bvcomp':
                    env.is_a(label, r, T.unsized_t[1])
                else:
                    env.is_a(label, r, T)
                env.eq(label, r, ref(env, av, bv, w))
    env.unchanged('left', a, av)
    if form not in ('int', 'bool', 'bit', 'concbit', 'list', 'plain const'):
        env.unchanged('right', b, bv)


def op_applies(tn, name, kind):
    """operators of signed types are the signed operations, of all others the unsigned ones"""
    if tn in UNSIGNED_OPS:
        return kind != 's' or name == 'bvshl'
    if tn in SIGNED_OPS + ('SDIVT',):
        return kind == 's'
    return True


def reflected(env, fam, kind, w, tables, form='int'):
    """operator form with the plain value on the left"""
    F = env.fams[fam]
    T = F.of(kind)[w]
    b = env.bv(T, 'a')
    a, av = operand(env, fam, T, 'b', form, w)
    bv = env.val(b)
    if 'UDIV' in tables:
        env.split(bv == 0)
    for tn in tables:
        if form in ('bit', 'concbit') and tn in ('LOGIC', 'CMP_EQ'):
            continue        # a Bit on the left takes these itself
        for name, (op, ref) in TABLES[tn].items():
            if op is None or not op_applies(tn, name, kind):
                continue
            r = op(a, b)
            label = f'reflected {op.__name__}'
            env.is_a(label, r, F.Bit if tn.startswith('CMP') else T)
            env.eq(label, r, ref(env, av, bv, w))
    env.unchanged('right', b, bv)


def unops(env, fam, kind, w):
    F = env.fams[fam]
    T = F.of(kind)[w]
    a = env.bv(T, 'a')
    av = env.val(a)
    env.same('bvneg', a.bvneg(), T, m(-av, w))
    env.same('operator neg', -a, T, m(-av, w))
    env.same('bvnot', a.bvnot(), T, m(~av, w))
    env.same('operator invert', ~a, T, m(~av, w))
    env.unchanged('operand', a, av)


# ---- structure -----------------------------------------------------------------
def index(env, fam, kind, w):
    """reading one bit: Python index rules, bit i is (value >> i) & 1"""
    F = env.fams[fam]
    a = env.bv(F.of(kind)[w], 'a')
    av = env.val(a)
    i = sel(env, fam, 'i', -w - 2, w + 1)
    if env.split(env.both(i >= -w, i < w)):
        r = a[i]
        env.is_a('index', r, F.Bit)
        k = env.ite(i < 0, i + w, i)
        env.eq('index', r, ((av >> k) & 1) != 0)
    else:
        env.raises('index out of range', IndexError, lambda: a[i])
    env.unchanged('operand', a, av)


def setindex(env, fam, kind, w, vform):
    """assigning one bit changes that bit and no other"""
    F = env.fams[fam]
    T = F.of(kind)[w]
    a = env.bv(T, 'a')
    av = env.val(a)
    i = sel(env, fam, 'i', -w - 2, w + 1)
    if vform == 'bit':
        x = env.bit(F.Bit, 'x')
        xv = env.val(x)
    elif vform == 'bool':
        x = xv = env.bool('x') if fam == 'c' else env.concrete(env.bool('x'))
    else:
        x = env.int('x', -1, 2) if fam == 'c' else env.concrete(env.int('x', -1, 2))
        if env.split(env.either(x < 0, x > 1)):
            def bad():
                a[i] = x
            env.raises('assigning neither 0 nor 1', ValueError, bad)
            env.eq('failed assignment: operand', a, av)
            return
        xv = x != 0

    def assign():
        a[i] = x
    if env.split(env.both(i >= -w, i < w)):
        assign()
        env.is_a('assign', a, T)
        k = env.ite(i < 0, i + w, i)
        env.eq('assign', a, (av & ~(1 << k)) | (env.ite(xv, 1, 0) << k))
    else:
        env.raises('assign out of range', IndexError, assign)
        env.eq('failed assignment: operand', a, av)


def slices(env, fam, kind, w, ends, step=None):
    """a[i:j] is the bits i..j-1 in order, with Python's slice rules"""
    F = env.fams[fam]
    T = F.of(kind)[w]
    a = env.bv(T, 'a')
    av = env.val(a)
    st, en = ends
    i = env.concrete(env.int('i', -w - 2, w + 2)) if st else None
    j = env.concrete(env.int('j', -w - 2, w + 2)) if en else None
    pos = range(w)[slice(i, j, step)]
    if fam != 'c':
        env.assume(len(pos) > 0)
    r = a[i:j:step]
    env.is_a('slice', r, T.unsized_t[len(pos)])
    env.eq('slice', r, sum(((((av >> p) & 1) << n) for n, p in enumerate(pos)), 0))
    env.unchanged('operand', a, av)


def cuts(w):
    return [None] + sorted({x for p in (0, 1, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, w - 1, w, w + 1) if p <= w + 1 for x in (p, -p)})


def far_slices(env, fam, kind, w, step=None):
    """slices of wide vectors, cut around the sizes of machine words"""
    F = env.fams[fam]
    T = F.of(kind)[w]
    a = env.bv(T, 'a')
    av = env.val(a)
    i, j = env.pick('i', cuts(w)), env.pick('j', cuts(w))
    pos = range(w)[slice(i, j, step)]
    if fam != 'c' and not pos:
        return
    r = a[i:j:step]
    env.is_a('slice', r, T.unsized_t[len(pos)])
    if step is None:
        env.eq('slice', r, m(av >> pos[0], len(pos)) if pos else 0)
    else:
        env.eq('slice', r, sum(((((av >> p) & 1) << n) for n, p in enumerate(pos)), 0))
    env.unchanged('operand', a, av)


def concat(env, fam, kind, w, w2):
    F = env.fams[fam]
    K = F.of(kind)
    a, b = env.bv(K[w], 'a'), env.bv(K[w2], 'b')
    av, bv = env.val(a), env.val(b)
    r = a.concat(b)
    env.same('concat', r, K[w + w2], av | (bv << w))
    env.eq('low part', r[:w], av)
    env.eq('high part', r[w:], bv)
    env.unchanged('left', a, av)
    env.unchanged('right', b, bv)


FAR = (31, 32, 33, 63, 64, 65, 127, 128, 129)     # amounts beyond machine words


def extend(env, fam, kind, w, nmax):
    F = env.fams[fam]
    K = F.of(kind)
    a = env.bv(K[w], 'a')
    av = env.val(a)
    n = env.pick('n', FAR) if nmax is None else env.concrete(env.int('n', -1, nmax))
    if n < 0:
        env.raises('negative zext', ValueError, lambda: a.zext(n))
        env.raises('negative sext', ValueError, lambda: a.sext(n))
        env.raises('negative ext', ValueError, lambda: a.ext(n))
        return
    s = m(env.signed(av, w), w + n)
    env.same('zext', a.zext(n), K[w + n], av)
    env.same('sext', a.sext(n), K[w + n], s)
    env.same('ext', a.ext(n), K[w + n], s if kind == 's' else av)
    env.unchanged('operand', a, av)


def repeat(env, fam, kind, w, nmax):
    F = env.fams[fam]
    K = F.of(kind)
    a = env.bv(K[w], 'a')
    av = env.val(a)
    n = env.pick('n', FAR) if nmax is None else env.concrete(env.int('n', 1, nmax))
    r = a.repeat(n)
    env.same('repeat', r, K[w * n], sum((av << (w * i) for i in range(n)), 0))
    env.unchanged('operand', a, av)


def adc(env, fam, kind, w, cform):
    F = env.fams[fam]
    T = F.of(kind)[w]
    a, b = env.bv(T, 'a'), env.bv(T, 'b')
    av, bv = env.val(a), env.val(b)
    if cform == 'bit':
        c = env.bit(F.Bit, 'c')
        cv = env.ite(env.val(c), 1, 0)
    elif cform == 'bv1':
        c = env.bv(F.of(kind)[1], 'c')
        cv = env.val(c)
    else:
        c = env.int('c', 0, 1)
        cv = c
    r = a.adc(b, c)
    env.check('adc returns a pair', type(r) is tuple and len(r) == 2)
    total = av + bv + cv
    env.same('sum', r[0], T, m(total, w))
    env.is_a('carry', r[1], F.Bit)
    env.eq('carry', r[1], (total >> w) != 0)
    env.unchanged('left', a, av)
    env.unchanged('right', b, bv)


# ---- sharing ---------------------------------------------------------------------
def producers(F, T, a, b, c):
    """name -> thunk returning a vector built from a, b"""
    K = T.unsized_t
    p = {
        'copy': lambda: T(a), 'make_constant': lambda: T.make_constant(a), 'unsized copy': lambda: K(a),
        'zext(0)': lambda: a.zext(0), 'sext(0)': lambda: a.sext(0), 'ext(0)': lambda: a.ext(0),
        'repeat(1)': lambda: a.repeat(1), 'full slice': lambda: a[:], 'concat nothing': lambda: a.concat(K[0](0)),
        'neg': lambda: -a, 'invert': lambda: ~a, 'ite': lambda: c.ite(a, b), 'same ite': lambda: c.ite(a, a),
        'tuple ite': lambda: c.ite((a, b), (b, a))[0], 'nested ite': lambda: c.ite((b, (a, (b,))), (a, (b, (a,))))[1][0],
        'deep ite': lambda: c.ite((((a,),),), (((b,),),))[0][0][0], 'vector ite': lambda: a.ite(a, b), 'adc': lambda: a.adc(b, c)[0],
        'rotate by int': lambda: a.bvrol(0), 'constant': lambda: T.make_constant(3, T.size), 'of the term': lambda: T(a.value),
        'other kind': lambda: F.BV[T.size](a), 'unsigned': lambda: F.U[T.size](a),
    }
    for tn, tab in TABLES.items():
        if tn.startswith('CMP') or tn == 'BVCOMP':
            continue
        for name, (op, ref) in tab.items():
            p[name] = lambda name=name: getattr(a, name)(b)
            p[name + ' by 0'] = lambda name=name: getattr(a, name)(0)
            if op is not None:
                p['operator ' + op.__name__] = lambda op=op: op(a, b)
                p['operator ' + op.__name__ + ' by 0'] = lambda op=op: op(a, 0)
    return p


def producer_names(fam):
    """names of the producers, grouped: structure, arithmetic, division, rotation"""
    names = ['copy', 'make_constant', 'zext(0)', 'sext(0)', 'ext(0)', 'repeat(1)', 'full slice', 'neg', 'invert', 'ite', 'same ite',
             'vector ite', 'adc', 'other kind', 'unsigned']
    if fam == 'c':
        names += ['concat nothing']
    if fam != 'z3':
        names += ['tuple ite', 'nested ite', 'deep ite']
    if fam != 'c':
        names += ['rotate by int', 'constant', 'of the term']
    ops, divs, rots = [], [], []
    for tn, tab in TABLES.items():
        if tn.startswith('CMP') or tn == ('SDIVT' if fam == 'c' else 'SDIV') or tn == 'BVCOMP' or fam == 'smt' and tn == 'ROT':
            continue
        tgt = divs if tn in ('UDIV', 'SDIV', 'SDIVT') else rots if tn == 'ROT' else ops
        for n, (op, ref) in tab.items():
            tgt += [n, n + ' by 0'] + (['operator ' + op.__name__, 'operator ' + op.__name__ + ' by 0'] if op else [])
    return names, list(dict.fromkeys(ops)), list(dict.fromkeys(divs)), rots


def independent(env, fam, kind, w, names):
    """changing a result in place never changes what it was computed from, nor the other way round"""
    F = env.fams[fam]
    T = F.of(kind)[w]
    a, b, c = env.bv(T, 'a'), env.bv(T, 'b'), env.bit(F.Bit, 'c')
    av, bv, cv = env.val(a), env.val(b), env.val(c)
    if fam == 'c' and any(n.startswith('bvro') for n in names):
        env.split(bv == 0)
    i, x = sel(env, fam, 'i', 0, w - 1), env.bool('x')
    x = x if fam == 'c' else env.bit(F.Bit, 'x')
    copies = {}
    for n, o, v in (('a', a, av), ('b', b, bv)):
        if fam == 'c':
            copies[n] = lambda v=v: T(v)
        else:
            copies[n] = lambda t=o.value: T(t)
    for n in names:
        r = producers(F, T, a, b, c)[n]()
        rv = env.val(r)
        r[i] = x
        env.eq(f'{n}: left operand after changing the result', a, av)
        env.eq(f'{n}: right operand after changing the result', b, bv)
        env.eq(f'{n}: condition', c, cv)
        r2 = producers(F, T, a, b, c)[n]()
        env.eq(f'{n}: computed again', r2, rv)
        a[i] = x
        b[i] = x
        env.eq(f'{n}: result after changing the operands', r2, rv)
        a, b = copies['a'](), copies['b']()


# ---- single bits -----------------------------------------------------------------
BITOPS = {
    'and': (operator.and_, lambda e, a, b: e.both(a, b)),
    'or': (operator.or_, lambda e, a, b: e.either(a, b)),
    'xor': (operator.xor, lambda e, a, b: e.no(e.iff(a, b))),
    'eq': (operator.eq, lambda e, a, b: e.iff(a, b)),
    'ne': (operator.ne, lambda e, a, b: e.no(e.iff(a, b))),
}


def bitops(env, fam, form):
    F = env.fams[fam]
    a = env.bit(F.Bit, 'a')
    av = env.val(a)
    if form == 'bit':
        b = env.bit(F.Bit, 'b')
        bv = env.val(b)
    elif form == 'bool':
        b = bv = env.bool('b')
    else:
        b = env.int('b', 0, 1)
        bv = b != 0
    for n, (op, ref) in BITOPS.items():
        env.same(n, op(a, b), F.Bit, ref(env, av, bv))
        if form != 'bit' and (fam != 'z3' or n in ('eq', 'ne')):
            env.same('reflected ' + n, op(b, a), F.Bit, ref(env, bv, av))
    env.same('invert', ~a, F.Bit, env.no(av))
    env.unchanged('left', a, av)
    if form == 'bit':
        env.unchanged('right', b, bv)


def bit_make(env, fam):
    """Bit from ints: 0 and 1 only"""
    F = env.fams[fam]
    v = env.int('v', -3, 4)
    if env.split(env.either(v == 0, v == 1)):
        env.same('Bit of int', F.Bit(v), F.Bit, v != 0)
    else:
        env.raises('Bit of other int', ValueError, lambda: F.Bit(v))
    x = env.bool('x')
    env.same('Bit of bool', F.Bit(x), F.Bit, x)
    y = env.bit(F.Bit, 'y')
    env.same('Bit of Bit', F.Bit(y), F.Bit, env.val(y))


# ---- choice -------------------------------------------------------------------
def bv_ite_cond(env, fam, kind, w):
    """a vector used as a condition is true iff it is non-zero"""
    F = env.fams[fam]
    T = F.of(kind)[w]
    c, x, y = env.bv(T, 'c'), env.bv(T, 'x'), env.bv(T, 'y')
    cv, xv, yv = env.val(c), env.val(x), env.val(y)
    env.same('ite', c.ite(x, y), T, env.ite(cv != 0, xv, yv))
    env.unchanged('x', x, xv)
    env.unchanged('y', y, yv)


def shape(env, F, sh, name):
    """object of a nested shape, with its value"""
    if isinstance(sh, tuple):
        os_ = [shape(env, F, s, f'{name}_{i}') for i, s in enumerate(sh)]
        return tuple(o for o, _ in os_), tuple(v for _, v in os_)
    if sh == 0:
        o = env.bit(F.Bit, name)
    else:
        kind, w = sh if isinstance(sh, list) else ('bv', sh)
        o = env.bv(F.of(kind)[w], name)
    return o, env.val(o)


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, list) and not (len(x) == 2 and isinstance(x[0], str)) else x


def ite_shape(env, fam, sh):
    F = env.fams[fam]
    sh = tup(sh)
    c = env.bit(F.Bit, 'c')
    cv = env.val(c)
    x, xv = shape(env, F, sh, 'x')
    y, yv = shape(env, F, sh, 'y')
    r = c.ite(x, y)

    def cmp(r, x, y, xv, yv, path):
        if isinstance(x, tuple):
            env.check(f'ite{path}: tuple of the same length', type(r) is tuple and len(r) == len(x))
            for i, z in enumerate(zip(r, x, y, xv, yv)):
                cmp(*z, f'{path}.{i}')
        else:
            env.same(f'ite{path}', r, type(x), env.ite(cv, xv, yv))
            env.unchanged(f'ite{path} x', x, xv)
    cmp(r, x, y, xv, yv, '')


def ite_bad(env, fam, sx, sy):
    """branches of different shapes are rejected"""
    F = env.fams[fam]
    c = env.bit(F.Bit, 'c')
    x, _ = shape(env, F, tup(sx), 'x')
    y, _ = shape(env, F, tup(sy), 'y')
    env.raises('ite on different shapes', TypeError, lambda: c.ite(x, y))


def poly(env, fam, w, swap):
    """a choice between a signed and an unsigned vector behaves like the chosen one"""
    F = env.fams[fam]
    S, U = F.S[w], F.U[w]
    A, B = (U, S) if swap else (S, U)
    c = env.bit(F.Bit, 'c')
    x, y, z = env.bv(A, 'x'), env.bv(B, 'y'), env.bv(F.BV[w], 'z')
    cv, xv, yv, zv = env.val(c), env.val(x), env.val(y), env.val(z)
    r = c.ite(x, y)
    v = env.ite(cv, xv, yv)
    signed = env.no(cv) if swap else cv
    env.eq('value', r, v)
    env.check('size', r.size == w)
    one = env.int('k', 0, (1 << w) - 1) if fam == 'c' else env.concrete(env.int('k', 0, min(3, (1 << w) - 1)))
    kv = one
    for nm, opf, tu, ts in (('lt', operator.lt, 'bvult', 'bvslt'), ('le', operator.le, 'bvule', 'bvsle'),
                            ('gt', operator.gt, 'bvugt', 'bvsgt'), ('ge', operator.ge, 'bvuge', 'bvsge')):
        want = env.ite(signed, CMP_S[ts][1](env, v, kv, w), CMP_U[tu][1](env, v, kv, w))
        got = opf(r, one)
        env.is_a(nm, got, F.Bit)
        env.eq(nm, got, want)
    sh = r >> one
    env.eq('rshift', sh, env.ite(signed, ASHR['bvashr'][1](env, v, kv, w), SHIFT['bvlshr'][1](env, v, kv, w)))
    e = r.ext(2)
    env.check('ext size', e.size == w + 2)
    env.eq('ext', e, env.ite(signed, m(env.signed(v, w), w + 2), v))
    env.eq('add', r + one, m(v + kv, w))
    env.eq('and', r & one, v & kv)
    env.eq('eq', r == one, v == kv)
    env.eq('invert', ~r, m(~v, w))
    env.unchanged('x', x, xv)
    env.unchanged('y', y, yv)


def poly_ops(env, fam, w, swap, group):
    """every operator of a choice between a signed and an unsigned vector, in both operand orders, is the chosen one's"""
    F = env.fams[fam]
    S, U = F.S[w], F.U[w]
    A, B = (U, S) if swap else (S, U)
    c = env.bit(F.Bit, 'c')
    x, y = env.bv(A, 'x'), env.bv(B, 'y')
    cv, xv, yv = env.val(c), env.val(x), env.val(y)
    r = c.ite(x, y)
    v = env.ite(cv, xv, yv)
    signed = env.no(cv) if swap else cv
    k = env.int('k', -(1 << (w + 1)), 1 << (w + 1)) if fam == 'c' and w <= 8 else \
        env.concrete(env.int('k', -2, min(3, (1 << w) - 1)))
    kv = m(k, w)
    if group == 'div':
        signed = env.split(signed)
        env.split(v == 0), env.split(kv == 0)
        st = 'SDIV' if fam == 'c' else 'SDIVT'
        for nm, (op, ref) in TABLES[st if signed else 'UDIV'].items():
            env.eq(op.__name__, op(r, k), ref(env, v, kv, w))
            env.eq('reflected ' + op.__name__, op(k, r), ref(env, kv, v, w))
        for tn in ('UDIV', st):
            for nm, (op, ref) in TABLES[tn].items():
                env.eq(nm, getattr(r, nm)(k), ref(env, v, kv, w))
        return
    pairs = ((ASHR['bvashr'][1], SHIFT['bvlshr'][1], operator.rshift),
             (CMP_S['bvslt'][1], CMP_U['bvult'][1], operator.lt), (CMP_S['bvsle'][1], CMP_U['bvule'][1], operator.le),
             (CMP_S['bvsgt'][1], CMP_U['bvugt'][1], operator.gt), (CMP_S['bvsge'][1], CMP_U['bvuge'][1], operator.ge))
    if group == 'choose':
        z = r - k
        zv = m(v - kv, w)
        for fs, fu, op in pairs:
            n = op.__name__
            env.eq(n, op(r, k), env.ite(signed, fs(env, v, kv, w), fu(env, v, kv, w)))
            env.eq('reflected ' + n, op(k, r), env.ite(signed, fs(env, kv, v, w), fu(env, kv, v, w)))
            env.eq(n + ' of a result', op(z, k), env.ite(signed, fs(env, zv, kv, w), fu(env, zv, kv, w)))
        env.eq('ext of a result', z.ext(3), env.ite(signed, m(env.signed(zv, w), w + 3), zv))
        wide = r.ext(1)
        wv = env.ite(signed, m(env.signed(v, w), w + 1), v)
        env.eq('sum of extensions', wide + wide, m(wv + wv, w + 1))
    else:
        for tn in ('ARITH', 'LOGIC', 'SHIFT', 'ASHR', 'CMP_EQ', 'CMP_U', 'CMP_S', 'BVCOMP'):
            for nm, (op, ref) in TABLES[tn].items():
                if fam == 'z3' and nm == 'bvcomp':
                    continue
                env.eq(nm, getattr(r, nm)(k), ref(env, v, kv, w))
                if op is not None and tn in ('ARITH', 'LOGIC', 'CMP_EQ') or nm == 'bvshl':
                    env.eq(op.__name__, op(r, k), ref(env, v, kv, w))
                    env.eq('reflected ' + op.__name__, op(k, r), ref(env, kv, v, w))
        env.eq('neg', -r, m(-v, w))
        env.eq('zext', r.zext(2), v)
        env.eq('sext', r.sext(2), m(env.signed(v, w), w + 2))
        env.eq('top bit', r[-1], (v >> (w - 1)) != 0)
        env.eq('low bits', r[:1], v & 1)
        env.eq('concat', r.concat(r), v | (v << w))
        if fam == 'c':
            env.eq('as_uint', r.as_uint(), v)
            env.eq('as_sint', r.as_sint(), env.signed(v, w))
    env.unchanged('x', x, xv)
    env.unchanged('y', y, yv)


def poly_nested(env, fam, w):
    """choices between choices"""
    F = env.fams[fam]
    S, U = F.S[w], F.U[w]
    c, d = env.bit(F.Bit, 'c'), env.bit(F.Bit, 'd')
    x, y, z = env.bv(S, 'x'), env.bv(U, 'y'), env.bv(S, 'z')
    cv, dv, xv, yv, zv = (env.val(o) for o in (c, d, x, y, z))
    r = d.ite(z, c.ite(x, y))
    v = env.ite(dv, zv, env.ite(cv, xv, yv))
    signed = env.either(dv, cv)
    env.eq('nested value', r, v)
    one = env.signed(1, w)
    env.eq('nested lt', r < 1, env.ite(signed, env.signed(v, w) < one, v < 1))
    env.eq('nested ext', r.ext(1), env.ite(signed, m(env.signed(v, w), w + 1), v))
    env.eq('nested rshift', r >> 1, env.ite(signed, m(env.signed(v, w) >> 1, w), v >> 1))
    r2 = d.ite(c.ite(x, y), c.ite(y, x))
    v2 = env.ite(env.iff(cv, dv), xv, yv)
    s2 = env.iff(cv, dv)
    env.eq('both nested value', r2, v2)
    env.eq('both nested lt', r2 < 1, env.ite(s2, env.signed(v2, w) < one, v2 < 1))


BAD_SHAPES = [(4, 5), (0, 4), ([3, 0], [3]), ([3, 0], [3, 1]), ([3, 0], 3), ([[2], 0], [2, 0]), (['s', 3], ['u', 4]),
              ([[1, 2], [3]], [[1, 2], [4]])]


def bad_index(env, fam, kind, w):
    F = env.fams[fam]
    a = env.bv(F.of(kind)[w], 'a')
    av = env.val(a)
    for bad in ('0', None, 1.5):
        env.raises('index of wrong type', TypeError, lambda: a[bad])

    def setslice():
        a[0:2] = 1
    env.raises('assigning a slice', NotImplementedError, setslice)
    env.unchanged('operand', a, av)


def bad_structure(env, fam, kind, w):
    F = env.fams[fam]
    K = F.of(kind)
    a = env.bv(K[w], 'a')
    for bad in (1, True, [1, 0], None):
        env.raises('concat with a plain value', TypeError, lambda: a.concat(bad))
    n = env.concrete(env.int('n', -3, 0))
    env.raises('repeat less than once', Exception if fam != 'c' else ValueError,
               lambda: a.repeat(n))


def all_ops(w, kind, tables=None):
    for tn, tab in TABLES.items():
        if tn == 'SDIVT':
            continue
        if tables and tn not in tables:
            continue
        for name, (op, ref) in tab.items():
            yield tn, name, op, ref


def mixed(env, fam, kind, kind2, w, tables=('ARITH', 'LOGIC', 'SHIFT', 'ASHR', 'CMP_EQ', 'CMP_U', 'CMP_S', 'BVCOMP')):
    """same size, different signedness: the left operand decides meaning and type"""
    F = env.fams[fam]
    T = F.of(kind)[w]
    a, b = env.bv(T, 'a'), env.bv(F.of(kind2)[w], 'b')
    av, bv = env.val(a), env.val(b)
    if 'UDIV' in tables:
        env.split(bv == 0)
    for tn in tables:
        for name, (op, ref) in TABLES[tn].items():
            r = getattr(a, name)(b)
            env.is_a(name, r, F.Bit if tn.startswith('CMP') else (T.unsized_t[1] if name == 'bvcomp' else T))
            env.eq(name, r, ref(env, av, bv, w))
            if tn in ('ARITH', 'LOGIC', 'CMP_EQ') and op is not None:
                r = op(a, b)
                env.is_a(op.__name__, r, F.Bit if tn == 'CMP_EQ' else T)
                env.eq(op.__name__, r, ref(env, av, bv, w))
    env.unchanged('left', a, av)
    env.unchanged('right', b, bv)


def operand_forms(fam, tables, tier, ws=(1, 2, 4, 8, 33), full=(1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65), reflect=True):
    """operands of other kinds of vector, bits and native values, on either side"""
    n = '+'.join(tables)
    for w in widths(tier, ws, full):
        for k in ('bv', 'u', 's'):
            for f in ('bool', 'bit'):
                yield Case(f'{n}[{k},{w},{f}]', binops, dict(fam=fam, kind=k, w=w, tables=list(tables), form=f), core=False)
            for f in ('int', 'bool') if reflect else ():
                yield Case(f'{n} reflected[{k},{w},{f}]', reflected, dict(fam=fam, kind=k, w=w, tables=list(tables), form=f), core=False)
            for k2 in ('bv', 'u', 's'):
                if k2 != k:
                    yield Case(f'{n}[{k},{w},{k2}]', mixed, dict(fam=fam, kind=k, kind2=k2, w=w, tables=list(tables)), core=False)


def mismatch(env, fam, kind, w, kind2, w2):
    """operands of different sizes are rejected by every operation"""
    from hwtypes import InconsistentSizeError
    F = env.fams[fam]
    a, b = env.bv(F.of(kind)[w], 'a'), env.bv(F.of(kind2)[w2], 'b')
    av, bv = env.val(a), env.val(b)
    for tn, name, op, ref in all_ops(w, kind):
        if fam != 'c' and tn == 'ROT':
            continue
        env.raises(name, InconsistentSizeError, lambda: getattr(a, name)(b))
        if op is not None:
            env.raises('operator ' + op.__name__, InconsistentSizeError, lambda: op(a, b))
    env.raises('adc', InconsistentSizeError, lambda: a.adc(b, 0))
    env.raises('adc carry', InconsistentSizeError, lambda: a.adc(a, env.bv(F.BV[2], 'c')))
    env.unchanged('left', a, av)
    env.unchanged('right', b, bv)


def foreign_sizes(env, fam, kind, w, w2):
    """concrete vectors of another size are no operands of symbolic ones, nor branches beside them"""
    from hwtypes import InconsistentSizeError
    F, C = env.fams[fam], env.fams['c']
    exc = InconsistentSizeError if fam == 'smt' else TypeError
    a, b = env.bv(F.of(kind)[w], 'a'), env.bv(C.of(kind)[w2], 'b')
    av, bv = env.val(a), env.val(b)
    for tn, name, op, ref in all_ops(w, kind):
        if fam != 'z3' and tn == 'ROT':
            continue
        env.raises(name, exc, lambda: getattr(a, name)(b))
        if op is not None:
            env.raises('operator ' + op.__name__, exc, lambda: op(a, b))
            env.raises('reflected ' + op.__name__, exc if fam == 'smt' else TypeError, lambda: op(b, a))
    env.raises('adc', exc, lambda: a.adc(b, 0))
    env.raises('concat', TypeError, lambda: a.concat(b))
    env.raises('choice', TypeError, lambda: a.bveq(0).ite(a, b))
    env.raises('choice', TypeError, lambda: a.bveq(0).ite(b, a))
    env.unchanged('left', a, av)
    env.unchanged('right', b, bv)


def foreign_choice(env, kind, w):
    """symbolic choices take no concrete values, and are as good after a refusal as before"""
    F, C = env.fams['smt'], env.fams['c']
    T = F.of(kind)[w]
    a, b, c = env.bv(T, 'a'), env.bv(T, 'b'), env.bit(F.Bit, 'c')
    av, bv, cv = env.val(a), env.val(b), env.val(c)
    x, y = env.bv(C.of(kind)[w], 'x'), env.bv(C.of(kind)[w], 'y')
    p = env.bit(C.Bit, 'p')
    for label, f in (('concrete branches', lambda: c.ite(x, y)), ('one concrete branch', lambda: c.ite(a, x)),
                     ('one concrete branch first', lambda: c.ite(x, a)), ('concrete bits', lambda: c.ite(p, p)),
                     ('concrete bit', lambda: c.ite(c, p)), ('nested', lambda: c.ite((a, x), (b, y))),
                     ('vector condition', lambda: a.ite(x, y))):
        env.raises(label, TypeError, f)
        env.same('sum after a refusal', a + b, T, m(av + bv, w))
        env.same('difference after a refusal', a - b, T, m(av - bv, w))
        env.same('choice after a refusal', c.ite(a, b), T, env.ite(cv, av, bv))
    env.same('concrete condition', p.ite(a, b), T, env.ite(env.val(p), av, bv))


def uncoercible(env, fam, kind, w):
    """operands that are no numbers are rejected with TypeError"""
    F = env.fams[fam]
    a = env.bv(F.of(kind)[w], 'a')
    av = env.val(a)
    for bad in (None, object(), {}, '0' * w, '101', ''):
        env.raises('construction', TypeError, lambda: F.of(kind)[w](bad))
        for tn, name, op, ref in all_ops(w, kind):
            if fam != 'c' and tn == 'ROT':
                continue
            env.raises(name, TypeError, lambda: getattr(a, name)(bad))
            if op is None:
                continue
            if op is operator.eq:
                env.check('== with a foreign object', (a == bad) is False and (bad == a) is False)
            elif op is operator.ne:
                env.check('!= with a foreign object', (a != bad) is True and (bad != a) is True)
            else:
                env.raises('operator ' + op.__name__, TypeError, lambda: op(a, bad))
                if not (isinstance(bad, str) and op is operator.mod):  # formats a text
                    env.raises('reflected ' + op.__name__, TypeError, lambda: op(bad, a))
    env.unchanged('operand', a, av)


def bit_errors(env, fam):
    F = env.fams[fam]
    a = env.bit(F.Bit, 'a')
    av = env.val(a)
    for op in (operator.and_, operator.or_, operator.xor):
        env.raises('number other than 0 and 1', ValueError, lambda: op(a, 2))
        env.raises('number other than 0 and 1', ValueError, lambda: op(a, -1))
    env.raises('ite against a plain value', TypeError, lambda: a.ite(1, 0))
    env.raises('ite, one plain value', TypeError, lambda: a.ite(a, True))
    env.raises('ite, bit and vector', TypeError, lambda: a.ite(a, env.bv(F.BV[1], 'v')))
    env.unchanged('bit', a, av)


def rotate_int(env, fam, kind, w):
    """rotation by a plain integer"""
    F = env.fams[fam]
    T = F.of(kind)[w]
    a = env.bv(T, 'a')
    av = env.val(a)
    n = env.concrete(env.int('n', 0, 3 * w))
    env.same('bvrol', a.bvrol(n), T, rol(env, av, n, w))
    env.same('bvror', a.bvror(n), T, ror(env, av, n, w))
    env.unchanged('operand', a, av)
