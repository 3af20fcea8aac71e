"""Concrete bit vectors (hwtypes.bit_vector)."""
from ..registry import Case, prop
from .common import *

KINDS = ('bv', 'u', 's')
NOTE = 'integers stand for arbitrary Python ints of the stated range; warnings.warn is a no-op during symbolic runs'


def table_cases(tables, tier, quick=QUICK_W, full=ALL_W, forms=('same',), core=16, kinds=KINDS, **kw):
    for w in widths(tier, quick, full):
        for k in kinds:
            for f in forms:
                yield Case(f'{"+".join(tables)}[{k},{w},{f}]', binops,
                           dict(fam='c', kind=k, w=w, tables=list(tables), form=f, **kw), core=w <= core)


# division and multiplication also around the sizes where floats stop being exact
WIDE_W = QUICK_W
WIDE_FULL = tuple(sorted({*ALL_W, *WIDE_W}))
B_ALL = B_DIV = 'every width 1-66 and 96,127-129,257 (quick); every width 1-130 and 192,255-257,511-513 (thorough); all operand values'


def shortcut(tables, tier, quick=(1, 2, 8, 16, 32, 33, 64, 65), full=EDGE_W + (128, 129)):
    """an operand used on both sides or in each other's computation, and literals"""
    for w in widths(tier, quick, full):
        for k in KINDS:
            for f in ('const', 'const left') + RELATED:
                if f == 'negated' and w > 8 and 'ARITH' in tables:
                    continue            # a * -a against a second form of itself
                yield Case(f'{"+".join(tables)}[{k},{w},{f}]', binops,
                           dict(fam='c', kind=k, w=w, tables=list(tables), form=f), core=False)


B_CUT = '; operands of other kinds, bits, native values on either side at 5 (quick) / 13 widths up to 33 / 65; operands built from each other (the same, negated, inverted, sum, choice) and up to 15 literals'


@prop('C01', bounds=B_ALL + B_CUT, assumptions=[NOTE])
def c01(tier):
    yield from table_cases(['ARITH'], tier, forms=('same', 'int'))
    yield from shortcut(['ARITH'], tier)
    yield from operand_forms('c', ['ARITH'], tier)
    for w in widths(tier):
        for k in KINDS:
            yield Case(f'unary[{k},{w}]', unops, dict(fam='c', kind=k, w=w), core=w <= 16)


@prop('C02', bounds=B_ALL + B_CUT, assumptions=[NOTE])
def c02(tier):
    yield from table_cases(['LOGIC'], tier, forms=('same', 'int'))
    yield from shortcut(['LOGIC'], tier)
    yield from operand_forms('c', ['LOGIC'], tier)


@prop('C03', bounds=B_DIV + B_CUT, assumptions=[NOTE])
def c03(tier):
    yield from table_cases(['UDIV'], tier, quick=WIDE_W, full=WIDE_FULL, core=8)
    yield from shortcut(['UDIV'], tier, (1, 2, 6), (1, 2, 3, 4, 5, 6, 7, 8))
    yield from operand_forms('c', ['UDIV'], tier)


@prop('C04', bounds=B_DIV + B_CUT, assumptions=[NOTE])
def c04(tier):
    yield from table_cases(['SDIV'], tier, quick=WIDE_W, full=WIDE_FULL, core=8)
    yield from shortcut(['SDIV'], tier, (1, 2, 6), (1, 2, 3, 4, 5, 6, 7, 8))
    yield from operand_forms('c', ['SDIV'], tier)


QROT = (1, 2, 3, 4, 5, 6, 7, 8, 16, 32)


@prop('C05', bounds='shifts: as C01; rotations by any amount at widths 1-8,16,32, by amounts up to 3w at 12,31,33,64' + B_CUT,
      assumptions=[NOTE])
def c05(tier):
    yield from table_cases(['SHIFT'], tier, core=16)
    yield from table_cases(['ASHR'], tier, quick=QUICK_W[:-1], full=ALL_W[:-1], core=16)
    yield from shortcut(['SHIFT', 'ASHR'], tier)
    yield from operand_forms('c', ['SHIFT', 'ASHR'], tier)
    yield from operand_forms('c', ['ROT'], tier, (1, 2, 4, 8), (1, 2, 3, 4, 5, 6, 7, 8), reflect=False)
    yield from table_cases(['ROT'], tier, quick=QROT, full=QROT + (10, 11, 13, 64, 128), core=8)
    yield from table_cases(['ROT'], tier, quick=(12, 31, 33), full=(12, 20, 31, 33, 48, 63, 64, 65, 96), core=0,
                           forms=('amount',))


@prop('C06', bounds=B_ALL + B_CUT, assumptions=[NOTE])
def c06(tier):
    yield from table_cases(['CMP_EQ', 'CMP_U', 'CMP_S', 'BVCOMP'], tier, forms=('same', 'int'))
    yield from shortcut(['CMP_EQ', 'CMP_U', 'CMP_S', 'BVCOMP'], tier)
    yield from operand_forms('c', ['CMP_EQ', 'CMP_U', 'CMP_S', 'BVCOMP'], tier)


# ---- C07 construction and conversion ---------------------------------------------
class Intish:
    """object that only offers __int__"""
    def __init__(self, v):
        self.v = v

    def __sx_int__(self):
        return self.v

    def __int__(self):
        return self.v


def make(env, kind, w, form, w2=None):
    F = env.fams['c']
    K = F.of(kind)
    T = K[w]
    lim = 1 << (2 * w + 3)
    if form == 'int':
        v = env.int('v', -lim, lim)
        x = T(v)
    elif form == 'bool':
        v = env.bool('v')
        x, v = T(v), env.ite(v, 1, 0)
    elif form == 'intish':
        v = env.int('v', -lim, lim)
        x = T(Intish(v))
    elif form == 'bit':
        b = env.bit(F.Bit, 'v')
        x, v = T(b), env.ite(env.val(b), 1, 0)
    elif form in ('list', 'tuple', 'intlist', 'bitlist'):
        n = w if w2 is None else w2
        bs = [env.bool(f'v{i}') for i in range(n)]
        v = sum((env.ite(b, 1 << i, 0) for i, b in enumerate(bs)), 0)
        if form == 'intlist':
            x = T([env.ite(b, 1, 0) for b in bs])
        elif form == 'bitlist':
            x = T([F.Bit(b) for b in bs])
        else:
            x = T(tuple(bs) if form == 'tuple' else list(bs))
    elif form in ('bv', 'u', 's'):
        o = env.bv(F.of(form)[w2], 'v')
        v = env.val(o)
        x = T(o)
        env.unchanged('source', o, v)
    elif form == 'const':
        v = env.int('v', -lim, lim)
        x = T.make_constant(v)
        env.same('make_constant with size', T.make_constant(v, w2), K[w2], m(v, w2))
        env.same('make_constant on the unsized type', K.make_constant(v, w2), K[w2], m(v, w2))
    elif form == 'default':
        v, x = 0, T()
    env.same('construct', x, T, m(v, w))
    read_back(env, F, K, T, x, m(v, w), w)


def read_back(env, F, K, T, x, v, w):
    kind_s = issubclass(K, F.S)
    env.eq('as_uint', x.as_uint(), v)
    env.eq('value', x.value, v)
    env.eq('unsigned range', env.both(x.as_uint() >= 0, x.as_uint() < (1 << w)), True)
    if w:
        s = env.signed(v, w)
        env.eq('as_sint', x.as_sint(), s)
        env.eq('as_int', x.as_int(), s)
        env.eq('int()', env.toint(x), s if kind_s else v)
    env.eq('bool()', env.tobool(x), v != 0)
    env.check('sizes', x.size == w and len(x) == w and x.num_bits == w and T.size == w)
    bits = x.bits()
    env.check('number of bits', type(bits) is list and len(bits) == w)
    bl = x.as_bool_list()
    env.check('number of bools', type(bl) is list and len(bl) == w)
    for i in range(w):
        b = ((v >> i) & 1)
        env.eq(f'bits', bits[i], b)
        env.eq(f'as_bool_list', bl[i], b != 0)
    if w:
        env.same('from bits', T(bits), T, v)
        env.same('from bools', T(bl), T, v)
    bs = x.binary_string()
    env.check('binary_string', len(bs) == w)
    if w:
        env.eq('int(binary_string, 2)', intof(env, bs, 2), v)
        env.eq('int(as_binary_string, 2)', intof(env, x.as_binary_string(), 2), v)
        env.same('from as_uint', T(x.as_uint()), T, v)
        env.same('from as_sint', T(x.as_sint()), T, v)
        env.same('from int()', T(env.toint(x)), T, v)


def intof(env, s, base):
    if env.symbolic:
        from ..runtime import sx_int
        return sx_int(s, base)
    return int(s, base)


def texts(env, kind, w):
    """str() and repr() show the integer reading / the stored value"""
    F = env.fams['c']
    T = F.of(kind)[w]
    x = env.bv(T, 'a')
    v = env.concrete(env.val(x))
    n = v - (1 << w) if kind == 's' and v >> (w - 1) else v
    env.check('str', env.tostr(x) == str(n))
    env.check('repr', env.torepr(x) == f'{T.__name__}({v})')
    env.check('binary_string', x.binary_string() == format(v, f'0{w}b'))
    env.check('as_binary_string', x.as_binary_string() == '0b' + format(v, f'0{w}b'))


def unsized(env, kind, form, w):
    """constructing from the unsized type picks the smallest width that fits the magnitude"""
    F = env.fams['c']
    K = F.of(kind)
    if form == 'int':
        v = env.int('v', -(1 << w), 1 << w)
        x = K(v)
        a = v if env.split(v >= 0) else -v
        # least size with a < 2**size, at least 1
        n = x.size
        env.check('width fits', env.both(a < (1 << n), env.either(n == 1, a >= (1 << (n - 1)))))
        env.same('value', x, K[n], m(v, n))
    elif form == 'bit':
        b = env.bit(F.Bit, 'v')
        env.same('value', K(b), K[1], env.ite(env.val(b), 1, 0))
    elif form == 'bool':
        b = env.bool('v')
        env.same('value', K(b), K[1], env.ite(b, 1, 0))
    elif form == 'list':
        bs = [env.bool(f'v{i}') for i in range(w)]
        env.same('value', K(bs), K[max(w, 1)], sum((env.ite(b, 1 << i, 0) for i, b in enumerate(bs)), 0))
    elif form == 'bv':
        o = env.bv(F.BV[w], 'v')
        env.same('value', K(o), K[w], env.val(o))
    else:
        for bad in (None, object(), {}):
            env.raises('unsized from nonsense', TypeError, lambda: K(bad))
        env.raises('unsized without value', TypeError, lambda: K())


def bad_construct(env, kind, w):
    F = env.fams['c']
    T = F.of(kind)[w]
    for bad in (None, object(), {}, set()):
        env.raises('construct from nonsense', TypeError, lambda: T(bad))
    env.raises('negative size', ValueError, lambda: F.of(kind)[env.concrete(env.int('n', -3, -1))])
    env.raises('sized twice', TypeError, lambda: T[w + 1])
    env.raises('size not an int', TypeError, lambda: F.of(kind)['8'])


@prop('C07', bounds='widths 0-9,15-17,31-33,63-65 (quick), 0-33 and 48,63-65,100,127-129,256,257 (thorough); integers in '
      '[-2**(2w+3), 2**(2w+3)]; bit lists as long as the vector, up to 65 (quick) / 129, and by one too short or one or two too long up to width 9; source vectors up to three times as wide (seven times up to width 9); text forms at '
      'widths 1-6 (quick) / 1-9 for every value',
      outside='very long integers beyond the stated range; sequences of non-bits', assumptions=[NOTE])
def c07(tier):
    q = tier == 'quick'
    ws = EDGE_W if q else tuple(range(1, 34)) + (48, 63, 64, 65, 100, 127, 128, 129, 256, 257)
    for k in KINDS:
        for w in ws:
            for f in ('int', 'intish', 'bool', 'bit', 'default'):
                yield Case(f'make[{k},{w},{f}]', make, dict(kind=k, w=w, form=f), core=w <= 16)
            if w <= 129:
                for f in ('list', 'tuple', 'intlist', 'bitlist'):
                    yield Case(f'make[{k},{w},{f}]', make, dict(kind=k, w=w, form=f), core=w <= 9)
                for d in (-1, 1, 2) if w <= 9 else ():
                    if w + d > 0 and (d < 0 or w <= 4):
                        yield Case(f'make[{k},{w},list of {w + d}]', make, dict(kind=k, w=w, form='list', w2=w + d),
                                   core=w <= 9)
            for k2 in KINDS:
                for w2 in sorted({1, max(1, w - 1), w, w + 1, 2 * w, 2 * w + 1, 3 * w + 2} | ({7 * w} if w <= 9 else set())):
                    if q and w > 9 and k2 != k:
                        continue
                    yield Case(f'make[{k},{w},{k2}{w2}]', make, dict(kind=k, w=w, form=k2, w2=w2), core=w <= 9)
            yield Case(f'make[{k},{w},const]', make, dict(kind=k, w=w, form='const', w2=w + 3), core=w <= 16)
        for w in range(1, 7 if q else 10):
            yield Case(f'texts[{k},{w}]', texts, dict(kind=k, w=w), core=w <= 4)
        if k != 's':    # a signed reading of no bits is not defined
            yield Case(f'make[{k},0]', make, dict(kind=k, w=0, form='int'), core=True)
        for f in ('int', 'bit', 'bool', 'bad'):
            yield Case(f'unsized[{k},{f}]', unsized, dict(kind=k, form=f, w=9 if q else 20), core=True)
        for f in ('list', 'bv'):
            for w in (1, 2, 5, 9):
                yield Case(f'unsized[{k},{f},{w}]', unsized, dict(kind=k, form=f, w=w), core=True)
        yield Case(f'bad[{k}]', bad_construct, dict(kind=k, w=4))


# ---- C08 / C09 / C10 ----------------------------------------------------------------
@prop('C08', bounds='index and bit assignment: widths 1-9,15-17,31-33,63-65 (quick) / 1-33,48,63-65,127-129, every index in [-w-2, w+1]; slices: every pair of bounds in '
      '[-w-2, w+2] or absent, widths 1-4 (quick) / 1-8, steps None, 1, 2, 3, -1, -2; at widths 9,33,65 (quick) / 9,16,17,33,64,65,129 '
      'bounds absent or around the ends, 8, 16, 32 and 64, steps None, 3, -1', assumptions=[NOTE])
def c08(tier):
    q = tier == 'quick'
    for k in KINDS:
        for w in widths(tier, EDGE_W, tuple(range(1, 34)) + (48, 63, 64, 65, 127, 128, 129)):
            yield Case(f'index[{k},{w}]', index, dict(fam='c', kind=k, w=w), core=w <= 8)
            for vf in ('bit', 'bool', 'int'):
                yield Case(f'setindex[{k},{w},{vf}]', setindex, dict(fam='c', kind=k, w=w, vform=vf), core=w <= 8)
        for w in range(1, 5 if q else 9):
            for st in (0, 1):
                for en in (0, 1):
                    for step in (None, 1, 2, 3, -1, -2):
                        if q and w > 2 and step not in (None, 2, -1):
                            continue
                        yield Case(f'slice[{k},{w},{st}{en},{step}]', slices,
                                   dict(fam='c', kind=k, w=w, ends=[st, en], step=step), core=w <= 3)
        for w in (9, 33, 65) if q else (9, 16, 17, 33, 64, 65, 129):
            for step in (None, 3, -1):
                yield Case(f'far slices[{k},{w},{step}]', far_slices, dict(fam='c', kind=k, w=w, step=step), core=w <= 33)
        yield Case(f'badindex[{k}]', bad_index, dict(fam='c', kind=k, w=4))


@prop('C09', bounds='all width pairs from 1-9,15-17,31-33,63-65 (quick) / 1-33,63-65,127-129; extension by -1..5 (quick) / -1..16; '
      'repetition 1..4 (quick) / 1..8 times; both also by 31-33, 63-65, 127-129; all values', assumptions=[NOTE])
def c09(tier):
    q = tier == 'quick'
    ws = EDGE_W if q else tuple(range(1, 34)) + (63, 64, 65, 127, 128, 129)
    for k in KINDS:
        for w in ws:
            for w2 in ws:
                yield Case(f'concat[{k},{w},{w2}]', concat, dict(fam='c', kind=k, w=w, w2=w2), core=w + w2 <= 10)
            yield Case(f'extend[{k},{w}]', extend, dict(fam='c', kind=k, w=w, nmax=5 if q else 16), core=w <= 8)
            if w in (1, 3, 8, 33):
                yield Case(f'extend far[{k},{w}]', extend, dict(fam='c', kind=k, w=w, nmax=None), core=False)
            if w <= 2:
                yield Case(f'repeat often[{k},{w}]', repeat, dict(fam='c', kind=k, w=w, nmax=None), core=False)
            yield Case(f'repeat[{k},{w}]', repeat, dict(fam='c', kind=k, w=w, nmax=4 if q else 8), core=w <= 5)
        yield Case(f'structure errors[{k}]', bad_structure, dict(fam='c', kind=k, w=3))


def overflow_h(env, kind, w):
    """signed overflow of a sum is detected from the sign bits"""
    from hwtypes import overflow
    F = env.fams['c']
    T = F.of(kind)[w]
    a, b = env.bv(T, 'a'), env.bv(T, 'b')
    av, bv = env.val(a), env.val(b)
    r = overflow(a, b, a + b)
    s = env.signed(av, w) + env.signed(bv, w)
    env.same('overflow', r, F.Bit, env.either(s < -(1 << (w - 1)), s >= (1 << (w - 1))))
    env.unchanged('left', a, av)
    env.unchanged('right', b, bv)


@prop('C10', bounds=B_ALL + '; carry as Bit, one-bit vector or int', assumptions=[NOTE])
def c10(tier):
    for k in KINDS:
        for w in widths(tier):
            for cf in ('bit', 'bv1', 'int'):
                yield Case(f'adc[{k},{w},{cf}]', adc, dict(fam='c', kind=k, w=w, cform=cf), core=w <= 16)
            yield Case(f'overflow[{k},{w}]', overflow_h, dict(kind=k, w=w), core=w <= 16)


# ---- C11 operands ----------------------------------------------------------------------
@prop('C11', bounds='widths 1-9,15-17,31-33,63-65 (quick) / 1-33,63-65; plain ints in [-2**(w+2), 2**(w+2)], bools, Bits and bit '
      'lists on either side; every pair of different widths from 1-4; every operation', assumptions=[NOTE])
def c11(tier):
    q = tier == 'quick'
    ws = EDGE_W if q else tuple(range(1, 34)) + (63, 64, 65)
    G1 = ['ARITH', 'LOGIC', 'SHIFT', 'ASHR', 'CMP_EQ', 'CMP_U', 'CMP_S']
    for k in KINDS:
        for w in ws:
            for f in ('int', 'bool', 'bit') + (('list',) if w <= 8 else ()):
                yield Case(f'operand[{k},{w},{f}]', binops, dict(fam='c', kind=k, w=w, tables=G1, form=f), core=w <= 8)
                yield Case(f'operand div[{k},{w},{f}]', binops, dict(fam='c', kind=k, w=w, tables=['UDIV', 'SDIV'], form=f),
                           core=w <= 4)
                if f != 'list':
                    yield Case(f'reflected[{k},{w},{f}]', reflected,
                               dict(fam='c', kind=k, w=w, tables=G1, form=f), core=w <= 8)
                    yield Case(f'reflected div[{k},{w},{f}]', reflected,
                               dict(fam='c', kind=k, w=w, tables=['UDIV', 'SDIV'], form=f), core=w <= 4)
            for k2 in KINDS:
                if k2 != k:
                    yield Case(f'mixed[{k},{k2},{w}]', mixed, dict(fam='c', kind=k, kind2=k2, w=w), core=w <= 8)
        for w in (1, 2, 3, 4):
            for w2 in (1, 2, 3, 4):
                if w != w2:
                    for k2 in KINDS:
                        yield Case(f'mismatch[{k}{w},{k2}{w2}]', mismatch,
                                   dict(fam='c', kind=k, w=w, kind2=k2, w2=w2))
        yield Case(f'uncoercible[{k}]', uncoercible, dict(fam='c', kind=k, w=4))


# ---- C12 / C13 choice ---------------------------------------------------------------------
SHAPES = [0, 1, 4, ['s', 4], ['u', 7], [3, 0], [0, 0], [[['u', 2], 0], 5], [2, [3, [0, 1]], ['s', 3]], [8, 8, 8], [[5]]]


class Tagged:
    """object following the bit-vector protocol"""
    @classmethod
    def _bitvector_t_(cls):
        return cls.T

    @classmethod
    def _from_bitvector_(cls, bv):
        o = cls()
        o.bv = bv
        return o

    def _to_bitvector_(self):
        return self.bv


def ite_protocol(env, fam, w, nested):
    """objects offering the bit-vector protocol are chosen through their vectors"""
    F = env.fams[fam]
    P = protocol_type(F.BV[w])
    c = env.bit(F.Bit, 'c')
    x, y = env.bv(F.BV[w], 'x'), env.bv(F.BV[w], 'y')
    p, q = P._from_bitvector_(x), P._from_bitvector_(y)
    want = env.ite(env.val(c), env.val(x), env.val(y))
    if nested:
        r = c.ite((p, x), (q, y))
        env.check('pair', type(r) is tuple and len(r) == 2)
        env.eq('second', r[1], want)
        r = r[0]
    else:
        r = c.ite(p, q)
    env.is_a('object', r, P)
    env.same('its vector', r._to_bitvector_(), F.BV[w], want)
    env.raises('object against vector', TypeError, lambda: c.ite(p, y))
    Q = protocol_type(F.BV[w])
    env.raises('objects of different types', TypeError, lambda: c.ite(p, Q._from_bitvector_(y)))


def protocol_type(T):
    from hwtypes.bit_vector_util import BitVectorProtocolMeta

    class Meta(BitVectorProtocolMeta):
        def _bitvector_t_(cls):
            return T

    class P(metaclass=Meta):
        @classmethod
        def _from_bitvector_(cls, bv):
            o = cls()
            o.bv = bv
            return o

        def _to_bitvector_(self):
            return self.bv
    return P


def chained(env, fam, w, depth):
    """a chain of choices picks the first branch whose condition holds"""
    F = env.fams[fam]
    cs = [env.bit(F.Bit, f'c{i}') for i in range(depth)]
    xs = [env.bv(F.BV[w], f'x{i}') for i in range(depth + 1)]
    r, v = xs[depth], env.val(xs[depth])
    for i in reversed(range(depth)):
        r = cs[i].ite(xs[i], r)
        v = env.ite(env.val(cs[i]), env.val(xs[i]), v)
    env.same('chain', r, F.BV[w], v)


@prop('C12', bounds='11 nested shapes up to depth 4 with every condition and value; vector conditions at widths 1-8,16,33; '
      'chains of 4 (quick) / 7', assumptions=[NOTE])
def c12(tier):
    q = tier == 'quick'
    for i, s in enumerate(SHAPES):
        yield Case(f'shape[{i}]', ite_shape, dict(fam='c', sh=s))
    for w in (1, 2, 3, 4, 8, 16, 33) if q else tuple(range(1, 17)) + (31, 32, 33, 64, 128):
        for k in KINDS:
            yield Case(f'vector condition[{k},{w}]', bv_ite_cond, dict(fam='c', kind=k, w=w))
        yield Case(f'protocol[{w}]', ite_protocol, dict(fam='c', w=w, nested=False))
        yield Case(f'protocol nested[{w}]', ite_protocol, dict(fam='c', w=w, nested=True))
        yield Case(f'chain[{w}]', chained, dict(fam='c', w=w, depth=4 if q else 7), core=w <= 8)
    for i, (sx, sy) in enumerate(BAD_SHAPES):
        yield Case(f'bad[{i}]', ite_bad, dict(fam='c', sx=sx, sy=sy))


@prop('C13', bounds='widths 1-6,8,16,32 (quick) / 1-20,32,33,64; both orders; nested choices; all values', assumptions=[NOTE])
def c13(tier):
    q = tier == 'quick'
    for w in (1, 2, 3, 4, 5, 6, 8, 16, 32) if q else tuple(range(1, 21)) + (32, 33, 64):
        for sw in (False, True):
            yield Case(f'poly[{w},{sw}]', poly, dict(fam='c', w=w, swap=sw), core=w <= 8)
            for g in ('choose', 'same') + (('div',) if w <= 8 else ()):
                yield Case(f'poly {g}[{w},{sw}]', poly_ops, dict(fam='c', w=w, swap=sw, group=g),
                           core=w <= (4 if g == 'div' else 8))
        yield Case(f'nested[{w}]', poly_nested, dict(fam='c', w=w), core=w <= 8)


# ---- C14 bits ------------------------------------------------------------------------------
@prop('C14', bounds='every bit value; operands as Bit, bool, int 0/1; ints -3..4 for construction', assumptions=[NOTE])
def c14(tier):
    for f in ('bit', 'bool', 'int'):
        yield Case(f'bit ops[{f}]', bitops, dict(fam='c', form=f))
    yield Case('bit construction', bit_make, dict(fam='c'))
    yield Case('bit conversion', bit_convert, dict())
    yield Case('bit errors', bit_errors, dict(fam='c'))


def bit_convert(env):
    F = env.fams['c']
    a, b = env.bit(F.Bit, 'a'), env.bit(F.Bit, 'b')
    av, bv = env.val(a), env.val(b)
    env.eq('bool()', env.tobool(a), av)
    env.eq('int()', env.toint(a), env.ite(av, 1, 0))
    if env.split(env.iff(av, bv)):
        env.check('equal bits, equal hash', env.tohash(a) == env.tohash(b))
    c = env.concrete(av)
    env.check('repr', env.torepr(a) == f'Bit({c})')


# ---- C15 values are independent ------------------------------------------------------------
def equal_hash(env, kind, w):
    """equality is value equality; equal vectors of one type hash alike"""
    F = env.fams['c']
    T = F.of(kind)[w]
    x, y = env.bv(T, 'x'), env.bv(T, 'y')
    xv, yv = env.val(x), env.val(y)
    same = env.split(xv == yv)
    env.eq('==', env.tobool(x == y), same)
    env.eq('!=', env.tobool(x != y), not same)
    if same:
        env.check('equal hash', env.tohash(x) == env.tohash(y))
    z = T(x)
    env.check('hash of a copy', env.tohash(z) == env.tohash(x))
    i = env.concrete(env.int('i', 0, w - 1))
    b = env.bool('b')
    z[i] = b
    t = T((xv & ~(1 << i)) | (env.ite(b, 1, 0) << i))
    env.eq('after assignment, equal to a fresh one', z == t, True)
    env.check('after assignment, hash of a fresh one', env.tohash(z) == env.tohash(t))


@prop('C15', bounds='widths 1-4,8 (quick) / 1-10,16,32; every operation of the type; any changed bit; equality and hash at '
      'widths 1-5,8 (quick) / 1-16', outside='hashes of vectors of different types', assumptions=[NOTE])
def c15(tier):
    q = tier == 'quick'
    names, ops, divs, rots = producer_names('c')
    for k in KINDS:
        for w in (1, 2, 3, 4, 8) if q else tuple(range(1, 11)) + (16, 32):
            yield Case(f'independent[{k},{w},basic]', independent,
                       dict(fam='c', kind=k, w=w, names=names), core=w <= 4)
            yield Case(f'independent[{k},{w},ops]', independent, dict(fam='c', kind=k, w=w, names=ops), core=w <= 4)
            if w <= 8:
                yield Case(f'independent[{k},{w},rot]', independent, dict(fam='c', kind=k, w=w, names=rots), core=w <= 4)
            if w <= 6:
                for n in divs:
                    yield Case(f'independent[{k},{w},{n}]', independent, dict(fam='c', kind=k, w=w, names=[n]), core=w <= 4)
        for w in (1, 2, 3, 4, 5, 8) if q else range(1, 17):
            yield Case(f'equal hash[{k},{w}]', equal_hash, dict(kind=k, w=w), core=w <= 4)


# ---- C16 histories ------------------------------------------------------------------------
def h_ops(env, F, T, w):
    K = T.unsized_t
    signed = issubclass(K, F.S)

    def setbit(R, V, d, s, t):
        i, x = env.int(f'i{t}', 0, w - 1), env.bool(f'x{t}')
        R[d][i] = x
        V[d] = (V[d] & ~(1 << i)) | (env.ite(x, 1, 0) << i)

    def copybit(R, V, d, s, t):
        i = env.int(f'i{t}', 0, w - 1)
        R[d][i] = R[s][i]
        V[d] = (V[d] & ~(1 << i)) | (((V[s] >> i) & 1) << i)

    def un(f, ref):
        def g(R, V, d, s, t):
            R[d] = f(R[s])
            V[d] = ref(V[s])
        return g

    def bi(f, ref):
        def g(R, V, d, s, t):
            R[d] = f(R[d], R[s])
            V[d] = ref(env, V[d], V[s], w)
        return g

    def hashing(R, V, d, s, t):
        env.check('hash agrees with a fresh vector', env.tohash(R[d]) == env.tohash(T(V[d])))

    def look(R, V, d, s, t):
        env.eq('compare', R[d] == R[s], V[d] == V[s])
        env.eq('bits', T(R[d].bits()), V[d])
    return {
        'set bit': setbit, 'copy bit': copybit, 'copy': un(lambda a: T(a), lambda v: v),
        'alias': un(lambda a: a, None), 'invert': un(lambda a: ~a, lambda v: m(~v, w)),
        'neg': un(lambda a: -a, lambda v: m(-v, w)),
        'rotate': un(lambda a: a[1:].concat(a[:1]), lambda v: (v >> 1) | ((v & 1) << (w - 1))),
        'shrink and extend': un(lambda a: a[:w - 1].ext(1),
                                lambda v: m(env.signed(m(v, w - 1), w - 1) if signed else m(v, w - 1), w)),
        'add': bi(operator.add, ARITH['bvadd'][1]), 'sub': bi(operator.sub, ARITH['bvsub'][1]),
        'mul': bi(operator.mul, ARITH['bvmul'][1]), 'and': bi(operator.and_, LOGIC['bvand'][1]),
        'xor': bi(operator.xor, LOGIC['bvxor'][1]), 'shl': bi(operator.lshift, SHIFT['bvshl'][1]),
        'shr': bi(operator.rshift, ASHR['bvashr'][1] if signed else SHIFT['bvlshr'][1]),
        'choose': bi(lambda a, b: (a == b).ite(a, a + b), lambda e, a, b, w: e.ite(a == b, a, m(a + b, w))),
        'hash': hashing, 'look': look,
    }


H_NAMES = ['set bit', 'copy bit', 'copy', 'alias', 'invert', 'neg', 'rotate', 'shrink and extend', 'add', 'sub', 'mul',
           'and', 'xor', 'shl', 'shr', 'choose', 'hash', 'look']


def history(env, kind, w, first, steps, later):
    """after any sequence of operations every variable holds what the same sequence on integers gives; two
    variables naming one vector see each other's in-place changes, copies never do"""
    F = env.fams['c']
    T = F.of(kind)[w]
    R = [env.bv(T, 'r0'), env.bv(T, 'r1')]
    ref = [env.val(R[0]), env.val(R[1])]
    cell = [0, 1]               # variable -> storage
    store = dict(enumerate(ref))
    fresh = 2
    ops = h_ops(env, F, T, w)
    for t in range(steps):
        name = first if t == 0 else env.pick(f'op{t}', later)
        d = env.pick(f'd{t}', [0, 1])
        s = env.pick(f's{t}', [0, 1])
        V = [store[cell[0]], store[cell[1]]]
        if name == 'alias':
            R[d] = R[s]
            cell[d] = cell[s]
        else:
            ops[name](R, V, d, s, t)
            if name in ('set bit', 'copy bit'):
                store[cell[d]] = V[d]
            elif name not in ('hash', 'look'):
                cell[d] = fresh
                store[fresh] = V[d]
                fresh += 1
    for i in (0, 1):
        env.same(f'variable {i} at the end', R[i], T, store[cell[i]])


def readings(env, label, x, v, w, signed):
    env.eq(label + 'as_uint', x.as_uint(), v)
    env.eq(label + 'value', x.value, v)
    s = env.signed(v, w)
    env.eq(label + 'as_sint', x.as_sint(), s)
    env.eq(label + 'int()', env.toint(x), s if signed else v)
    env.eq(label + 'bool()', env.tobool(x), v != 0)
    bits, bl = x.bits(), x.as_bool_list()
    env.check(label + 'number of bits', len(bits) == w and len(bl) == w)
    for i in range(w) if w <= 16 else (0, 1, 7, 8, 9, w // 2, w - 2, w - 1):
        b = (v >> i) & 1
        env.eq(label + 'bits', bits[i], b)
        env.eq(label + 'as_bool_list', bl[i], b != 0)
        env.eq(label + 'item', x[i], b)
    env.eq(label + 'binary_string', intof(env, x.binary_string(), 2), v)
    env.eq(label + 'first bits', x[:1], v & 1)
    env.eq(label + 'inverse', ~x, m(~v, w))
    env.eq(label + 'extended', x.zext(1), v)
    return bits, bl


def reread(env, kind, w, steps):
    """every reading follows in-place changes; what was read before does not change and changing it changes nothing"""
    F = env.fams['c']
    T = F.of(kind)[w]
    x = env.bv(T, 'x')
    v = env.val(x)
    for t in range(steps):
        bits, bl = readings(env, f'{t}: ', x, v, w, kind == 's')
        i, b = env.int(f'i{t}', 0, w - 1), env.bool(f'b{t}')
        k = env.concrete(env.int(f'k{t}', 0, min(w - 1, 1)))
        was, wasb = env.val(bits[k]), bl[k]
        x[i] = b
        v = (v & ~(1 << i)) | (env.ite(b, 1, 0) << i)
        env.eq('bit read before', bits[k], was)
        env.eq('bool read before', bl[k], wasb)
        bits[k], bl[k] = ~bits[k], not wasb if not env.symbolic else env.no(wasb)
        env.same('after changing what was read', x, T, v)
    readings(env, 'end: ', x, v, w, kind == 's')


@prop('C16', bounds='every reading before and after each of 1 (quick) / 2 in-place changes at widths 1-4,8,9,12,16,33,64 (quick) / '
      '1-20,31-33,63-65,128; every sequence of 2 (quick) / 3 of 18 operations on two variables, every choice of operands, '
      'widths 2,3 (quick) / 2,4, every value and bit index', assumptions=[NOTE])
def c16(tier):
    q = tier == 'quick'
    for k in KINDS:
        for w in (1, 2, 3, 4, 8, 9, 12, 16, 33, 64) if q else tuple(range(1, 21)) + (31, 32, 33, 63, 64, 65, 128):
            yield Case(f'reread[{k},{w}]', reread, dict(kind=k, w=w, steps=1 if q or w > 32 else 2), core=w <= 16)
        for w in ((3,) if q else (2, 4)):
            for f in H_NAMES:
                if q:
                    yield Case(f'history[{k},{w},{f}]', history, dict(kind=k, w=w, first=f, steps=2, later=H_NAMES))
                else:
                    light = [n for n in H_NAMES if n not in ('mul', 'sub', 'neg')]
                    yield Case(f'history[{k},{w},{f}]', history, dict(kind=k, w=w, first=f, steps=3 if w == 4 else 2, later=light if w == 4 else H_NAMES),
                               core=False)
