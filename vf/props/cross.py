"""The same program over any backend computes the same function."""
import operator

from ..registry import Case, prop
from .common import *

FAMS = ('c', 'smt', 'z3')
KINDS = ('bv', 'u', 's')


def prog_ops(w):
    h = max(1, w // 2)
    return {
        '+': operator.add, '-': operator.sub, '*': operator.mul, '&': operator.and_, '|': operator.or_, '^': operator.xor,
        '<<': operator.lshift, '>>': operator.rshift, '~': lambda a, b: ~a, 'neg': lambda a, b: -b,
        'bvlshr': lambda a, b: a.bvlshr(b), 'bvashr': lambda a, b: a.bvashr(b), 'nand': lambda a, b: a.bvnand(b),
        'nor': lambda a, b: a.bvnor(b), 'xnor': lambda a, b: a.bvxnor(b), 'udiv': lambda a, b: a.bvudiv(b),
        'urem': lambda a, b: a.bvurem(b), 'max': lambda a, b: (a < b).ite(b, a), 'umin': lambda a, b: a.bvule(b).ite(a, b),
        'eq?': lambda a, b: (a == b).ite(a, a ^ b), 'sgt?': lambda a, b: a.bvsgt(b).ite(b, a + b),
        'halves': lambda a, b: a[:h].concat(b[h:]) if w > 1 else a, 'ext': lambda a, b: (a[:h].ext(w - h) + b) if w > 1 else b,
        'sext': lambda a, b: a[h - 1:].sext(h - 1) ^ b if w > 1 else b, 'carry': lambda a, b: a.adc(b, a[0])[0],
        'carry out': lambda a, b: a.adc(b, b[w - 1])[1].ite(a, b), 'truth': lambda a, b: a.ite(b, a),
        'repeat': lambda a, b: a[0:1].repeat(w) & b, 'comp': lambda a, b: a.bvcomp(b).zext(w - 1) | b,
        'const': lambda a, b: a + 5, 'const cmp': lambda a, b: (a >= 3).ite(a, b),
        'bits': lambda a, b: (a[0] & ~b[w - 1] | (a[0] ^ b[0])).ite(a, b),
    }


NAMES = list(prog_ops(4))


def program(env, kind, w, top, left, right):
    """top(left(x, y), right(y, x)), each node any operation"""
    xs, ys = env.bv_all(kind, w, 'x'), env.bv_all(kind, w, 'y')
    ops = prog_ops(w)
    f, g, h = ops[top], ops[env.pick('left', left)], ops[env.pick('right', right)] if right else None
    out = {}
    for fam in FAMS:
        x, y = xs[fam], ys[fam]
        l = g(x, y)
        r = h(y, x) if h else y
        o = f(l, r)
        T = env.fams[fam].of(kind)[w]
        env.check(f'{fam}: result type', type(o) is T)
        out[fam] = env.val(o)
    env.eq('pysmt agrees with concrete', out['smt'], out['c'])
    env.eq('z3 agrees with concrete', out['z3'], out['c'])


def compare_all(env, kind, w):
    """every single operation, method form, on the same operands"""
    xs, ys = env.bv_all(kind, w, 'x'), env.bv_all(kind, w, 'y')
    env.split(env.val(ys['c']) == 0)
    for tn, name, op, ref in all_ops(w, kind):
        if tn in ('ROT', 'SDIV'):
            continue
        v = {f: env.val(getattr(xs[f], name)(ys[f])) for f in FAMS}
        env.eq(name + ': pysmt agrees with concrete', v['smt'], v['c'])
        env.eq(name + ': z3 agrees with concrete', v['z3'], v['c'])


def mixed_all(env, kind, kind2, w):
    """operands of one size and different signedness: the backends agree on value and type"""
    xs, ys = env.bv_all(kind, w, 'x'), env.bv_all(kind2, w, 'y')
    env.split(env.val(ys['c']) == 0)

    def same(label, f):
        out = {}
        for fam in FAMS:
            F = env.fams[fam]
            o = f(xs[fam], ys[fam])
            names = [n for n, T in (('Bit', F.Bit), ('bv', F.BV), ('u', F.U), ('s', F.S))
                     if type(o) is T or getattr(type(o), 'unsized_t', None) is T]
            out[fam] = (names, getattr(o, 'size', None)), env.val(o)
        env.check(label + ': same kind of result', out['smt'][0] == out['c'][0] == out['z3'][0], [o[0] for o in out.values()])
        env.eq(label + ': pysmt agrees with concrete', out['smt'][1], out['c'][1])
        env.eq(label + ': z3 agrees with concrete', out['z3'][1], out['c'][1])
    for tn, name, op, ref in all_ops(w, kind):
        if tn in ('ROT', 'SDIV', 'UDIV'):
            continue
        same(name, lambda x, y: getattr(x, name)(y))
        if tn in ('ARITH', 'LOGIC', 'CMP_EQ') and op is not None:
            same('operator ' + op.__name__, op)
    for nm, i in (('sum', 0), ('carry', 1)):
        same(nm, lambda x, y: x.adc(y, x[0])[i])
    same('concat', lambda x, y: x.concat(x))


def rotation_all(env, kind, w):
    xs = env.bv_all(kind, w, 'x')
    n = env.concrete(env.int('n', 0, min(3 * w, (1 << w) - 1)))
    for name in ('bvrol', 'bvror'):
        v = {f: env.val(getattr(xs[f], name)(n)) for f in FAMS}
        env.eq(name + ': pysmt agrees with concrete', v['smt'], v['c'])
        env.eq(name + ': z3 agrees with concrete', v['z3'], v['c'])


def signed_division_all(env, kind, w):
    """listed finding: concrete vectors round down, the solver backends towards zero"""
    xs, ys = env.bv_all(kind, w, 'x'), env.bv_all(kind, w, 'y')
    a, b = env.val(xs['c']), env.val(ys['c'])
    q = {f: env.val(xs[f].bvsdiv(ys[f])) for f in FAMS}
    r = {f: env.val(xs[f].bvsrem(ys[f])) for f in FAMS}
    sa, sb = env.signed(a, w), env.signed(b, w)
    fq = env.ite(b == 0, (1 << w) - 1, m(sa // safe(env, sb), w))
    fr = env.ite(b == 0, a, m(sa % safe(env, sb), w))
    tq, tr = sdiv_trunc(env, a, b, w), srem_trunc(env, a, b, w)
    env.known_deviation('signed quotient', env.both(q['c'] == q['smt'], q['c'] == q['z3']),
                        env.both(q['c'] == fq, q['smt'] == tq, q['z3'] == tq))
    env.known_deviation('signed remainder', env.both(r['c'] == r['smt'], r['c'] == r['z3']),
                        env.both(r['c'] == fr, r['smt'] == tr, r['z3'] == tr))
    same = env.either(sa == 0, env.both(b != 0, env.iff(sa < 0, sb < 0)))
    env.check('agreement where no rounding differs', env.implies(same, env.both(
        q['c'] == q['smt'], q['c'] == q['z3'], r['c'] == r['smt'], r['c'] == r['z3'])))


@prop('X01', bounds='every operation on two operands at widths 1-5,8,16 (quick) / 1-12,16,32,33; programs top(left(x,y), y) '
      'over 32 operations each (quick), top(left(x,y), right(y,x)) (thorough), width 4, three signedness kinds, all values; '
      'rotation amounts up to 3w', outside='vector rotation amounts for pysmt (it takes plain integers only)')
def x01(tier):
    q = tier == 'quick'
    for k in KINDS:
        for w in (1, 2, 3, 4, 5, 8) if q else tuple(range(1, 10)) + (16,):
            yield Case(f'single[{k},{w}]', compare_all, dict(kind=k, w=w), core=w <= 4)
            for k2 in KINDS:
                if k2 != k and w <= 8:
                    yield Case(f'mixed[{k},{k2},{w}]', mixed_all, dict(kind=k, kind2=k2, w=w), core=w <= 4)
            yield Case(f'rotation[{k},{w}]', rotation_all, dict(kind=k, w=w), core=w <= 4)
        for w in (1, 2, 3, 4) if q else range(1, 7):
            yield Case(f'signed division[{k},{w}]', signed_division_all, dict(kind=k, w=w), core=w <= 4)
        for t in NAMES:
            yield Case(f'program[{k},4,{t}]', program, dict(kind=k, w=4, top=t, left=NAMES, right=None), core=True)
            if not q:
                for l in NAMES:
                    if {l, t} & {'udiv', 'urem', '*'} and l != '+':
                        continue
                    yield Case(f'program[{k},4,{t},{l}]', program,
                               dict(kind=k, w=4, top=t, left=[l], right=[n for n in NAMES if n not in ('udiv', 'urem')]),
                               core=False)


# ---- B01: the abstract interface -------------------------------------------------------
DERIVED = {'LOGIC': ('bvnand', 'bvnor', 'bvxnor'), 'CMP_EQ': ('bvne',), 'CMP_U': ('bvule', 'bvugt', 'bvuge'), 'CMP_S': ('bvsle', 'bvsgt', 'bvsge')}


def derived(env, fam, kind, w, via):
    """what the abstract class derives from the primitive operations is the named function"""
    import hwtypes as h
    A = h.AbstractBitVector
    F = env.fams[fam]
    T = F.of(kind)[w]
    if via == 'subclass':
        # a backend that only has the primitives
        T = type(T)('Mini', (T,), {n: getattr(A, n) for ns in DERIVED.values() for n in ns})
    a, b = env.bv(T, 'a'), env.bv(T, 'b')
    av, bv = env.val(a), env.val(b)
    for tn, names in DERIVED.items():
        for n in names:
            ref = TABLES[tn][n][1](env, av, bv, w)
            r = getattr(A, n)(a, b) if via == 'abstract' else getattr(a, n)(b)
            if tn == 'LOGIC':
                env.check(n + ': type', isinstance(r, T), type(r))
            else:
                env.is_a(n, r, F.Bit)
            env.eq(n, r, ref)
    env.check('size', a.size == w and len(a) == w)
    env.unchanged('left', a, av)
    env.unchanged('right', b, bv)


def derived_bit(env, fam):
    import hwtypes as h
    F = env.fams[fam]
    a, b = env.bit(F.Bit, 'a'), env.bit(F.Bit, 'b')
    av, bv = env.val(a), env.val(b)
    r = h.AbstractBit.__ne__(a, b)
    env.is_a('different', r, F.Bit)
    env.eq('different', r, env.ite(av, env.ite(bv, False, True), env.ite(bv, True, False)))


@prop('B01', bounds='bitwise and comparison operations derived by the abstract class, called on vectors of every backend and through a subclass '
      'that takes them from there; widths 1-9,15-17,31-33,63-65 (quick) / 1-66,127-129; all values', assumptions=[])
def b01(tier):
    for fam in ('c', 'smt', 'z3'):
        for w in widths(tier, EDGE_W, tuple(range(1, 67)) + (127, 128, 129)):
            for k in ('bv', 'u', 's'):
                for via in ('abstract', 'subclass'):
                    yield Case(f'derived[{fam},{k},{w},{via}]', derived, dict(fam=fam, kind=k, w=w, via=via), core=w <= 8)
        yield Case(f'bits[{fam}]', derived_bit, dict(fam=fam))


# ---- X02: symbolic values are never decided ---------------------------------------------
def asked(env, label, v, other):
    """every way Python asks for a yes or no"""
    env.raises(label + ': bool', TypeError, lambda: bool(v))
    env.raises(label + ': not', TypeError, lambda: not v)
    env.raises(label + ': and', TypeError, lambda: v and 1)
    env.raises(label + ': or', TypeError, lambda: v or 1)
    env.raises(label + ': if', TypeError, lambda: 1 if v else 2)
    env.raises(label + ': any', TypeError, lambda: any([v]))
    env.raises(label + ': all', TypeError, lambda: all((v,)))
    env.raises(label + ': filter', TypeError, lambda: list(filter(None, [v])))
    if other is not None:
        env.raises(label + ': membership', TypeError, lambda: v in [other])
        env.raises(label + ': position', TypeError, lambda: (other,).index(v))
        env.raises(label + ': count', TypeError, lambda: [other].count(v))
        env.raises(label + ': tuples', TypeError, lambda: (v,) == (other,))
        env.raises(label + ': chained', TypeError, lambda: v == other == v)


def not_decided(env, fam, kind, w):
    F = env.fams[fam]
    T = F.of(kind)[w]
    a, b = env.bv(T, 'a'), env.bv(T, 'b')
    av, bv = env.val(a), env.val(b)
    c = T(env.pick('c', [0, 1, (1 << w) - 1]))
    for label, v, o in (('variable', a, b), ('term', a + b, a), ('constant', c, T(1)), ('same value', a ^ a, b ^ b), ('mixed', c, a),
                        ('bit', a[0], b[w - 1]), ('constant bit', F.Bit(1), F.Bit(0)), ('choice', a[0].ite(a, b), b)):
        asked(env, label, v, o)
    for label, r in (('==', a == b), ('!=', a != b), ('<', a < b), ('<=', a <= b), ('>', a > b), ('>=', a >= b), ('decided', c == c),
                     ('negated', ~(a == b)), ('signed', a.bvslt(b)), ('carry', a.adc(b, a[0])[1]), ('mixed ==', a == 1)):
        asked(env, label, r, None)
    env.raises('sorted', TypeError, lambda: sorted([a, b]))
    env.raises('max', TypeError, lambda: max(a, b))
    env.raises('a concrete bit', TypeError, lambda: env.fams['c'].Bit(a[0]))
    env.raises('concrete bits', TypeError, lambda: env.fams['c'].BV[2]([a[0], b[0]]))
    env.raises('a concrete vector', TypeError, lambda: env.fams['c'].BV[w](a))
    env.unchanged('left', a, av)
    env.unchanged('right', b, bv)


def not_decided_numbers(env):
    import hwtypes as h
    a, b = env.smtint('a'), env.smtint('b')
    for label, v, o in (('variable', a, b), ('term', a + b, a), ('constant', h.SMTInt(0), h.SMTInt(1))):
        asked(env, label, v, o)
    for label, r in (('==', a == b), ('<', a < b), ('>=', a >= b), ('!=', a != b)):
        asked(env, label, r, None)
    FP = h.SMTFPVector[3, 2, h.RoundingMode.RNE, True]
    x, y = FP(), FP()
    for label, v, o in (('float', x, y), ('float term', x + y, x)):
        asked(env, label, v, o)
    for label, r in (('float ==', x == y), ('float <', x < y), ('zero', x.fp_is_zero())):
        asked(env, label, r, None)


def not_decided_records(env, fam, kind, n, pool):
    """records holding symbolic values compare rightly, or not at all"""
    import hwtypes as h
    from . import adt
    d = adt.shape_of(env, fam, kind, n, pool, distinct=(kind == 'su'))
    x, s = adt.value(env, 'x', d)
    y, t = adt.value(env, 'y', d)
    want = adt.spec_eq(env, s, t)
    for label, op, w in (('equal', operator.eq, want), ('different', operator.ne, env.no(want))):
        try:
            r = op(x, y)
        except TypeError:
            env.note(label + ': refused')
            continue
        if isinstance(r, h.AbstractBit):
            env.eq(label + ': as a term', r, w)
        else:
            env.check(label + ': as a bool', r is True or r is False, r)
            env.check(label + ': only when it is so for every value', env.iff(r, w))
    try:
        r = x in [y]
    except TypeError:
        env.note('membership refused')
    else:
        env.check('member only when it is so for every value', env.iff(r, want))
    adt.agrees(env, 'left', x, s)
    adt.agrees(env, 'right', y, t)


@prop('X02', bounds='every width 1-8,16,32 (quick) / 1-33,64; variables, constants and terms; bits, vectors, integers, floats; records of 1..2 members (quick) / 1..3')
def x02(tier):
    q = tier == 'quick'
    for fam in ('smt', 'z3'):
        for k in KINDS:
            for w in (*range(1, 9), 16, 32) if q else (*range(1, 34), 64):
                yield Case(f'truth[{fam},{k},{w}]', not_decided, dict(fam=fam, kind=k, w=w), core=w <= 8)
        for kind in ('tup', 'ap', 'pr', 'su', 'tu'):
            for n in (1, 2) if q else (1, 2, 3):
                yield Case(f'records[{fam},{kind},{n}]', not_decided_records,
                           dict(fam=fam, kind=kind, n=n, pool=['bit', 's2', 'u3', 'e', 'tup'] if n < 3 else ['bit', 'u3', 'e']), core=n < 3)
    yield Case('truth[numbers]', not_decided_numbers, {})
