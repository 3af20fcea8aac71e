"""pysmt backed vectors (hwtypes.smt_bit_vector, smt_int, smt_utils)."""
import copy
import operator
import warnings

from ..registry import Case, prop
from .common import *
from .concrete import SHAPES, chained, ite_protocol

KINDS = ('bv', 'u', 's')
NOTE = 'pysmt terms are read by translation to z3 with pysmt\'s own converter; its term constructors and simplifier run ' \
       'for real, its constant constructors accept symbolic integers (a fresh symbol bound to the value)'

S_W = EDGE_W + (127, 128, 129)
F_W = tuple(range(1, 67)) + (96, 127, 128, 129, 257)
B_SMT = 'widths 1-9,15-17,31-33,63-65,127-129 (quick) / 1-66,96,127-129,257; all values of symbolic variables and constants'


def cases(fam, tables, tier, forms=('same',), core=8, quick=S_W, full=F_W, **kw):
    for w in widths(tier, quick, full):
        for k in KINDS:
            for f in forms:
                yield Case(f'{"+".join(tables)}[{k},{w},{f}]', binops,
                           dict(fam=fam, kind=k, w=w, tables=list(tables), form=f, **kw), core=w <= core)


def shortcut_cases(fam, tables, tier, ws=(1, 2, 4, 8, 16, 33), full=tuple(range(1, 10)) + (16, 31, 32, 33, 64, 65)):
    """literal operands and operands built from each other, where an implementation may take another way"""
    for w in widths(tier, ws, full):
        for k in KINDS:
            for f in ('const', 'plain const', 'const left', 'consts') + RELATED:
                if (f in ('consts', 'plain const') and w > 8) and tier == 'quick':
                    continue
                yield Case(f'{"+".join(tables)}[{k},{w},{f}]', binops,
                           dict(fam=fam, kind=k, w=w, tables=list(tables), form=f), core=False)


B_CUT = '; operands of other kinds, bits, native values on either side at 5 (quick) / 13 widths up to 33 / 65; one operand each of up to 15 literals (0, 1, 2, 3, 5, around the width, around the middle and the end of the range), ' \
        'both operands literals, and operands built from each other (the same, negated, inverted, sum, choice)'


@prop('S01', bounds=B_SMT + '; division at widths 1-8 (quick) / 1-16' + B_CUT, assumptions=[NOTE])
def s01(tier):
    yield from cases('smt', ['ARITH', 'LOGIC'], tier, forms=('same', 'int'))
    yield from shortcut_cases('smt', ['ARITH', 'LOGIC'], tier)
    yield from operand_forms('smt', ['ARITH', 'LOGIC'], tier)
    yield from shortcut_cases('smt', ['UDIV', 'SDIVT'], tier, (1, 2, 4, 8), (1, 2, 3, 4, 5, 8, 16))
    yield from cases('smt', ['UDIV', 'SDIVT'], tier, quick=(1, 2, 3, 4, 5, 8), full=tuple(range(1, 13)) + (16, 32))
    for w in widths(tier, S_W, F_W):
        for k in KINDS:
            yield Case(f'unary[{k},{w}]', unops, dict(fam='smt', kind=k, w=w), core=w <= 8)


@prop('S02', bounds=B_SMT + '; rotations by integers in [0, 3w]' + B_CUT, assumptions=[NOTE])
def s02(tier):
    yield from cases('smt', ['SHIFT', 'ASHR', 'CMP_EQ', 'CMP_U', 'CMP_S', 'BVCOMP'], tier, forms=('same', 'int'))
    yield from shortcut_cases('smt', ['SHIFT', 'ASHR', 'CMP_EQ', 'CMP_U', 'CMP_S', 'BVCOMP'], tier)
    yield from operand_forms('smt', ['SHIFT', 'ASHR', 'CMP_EQ', 'CMP_U', 'CMP_S', 'BVCOMP'], tier)
    for w in widths(tier, (1, 2, 3, 4, 5, 7, 8, 16), tuple(range(1, 34)) + (64,)):
        for k in KINDS:
            yield Case(f'rotate[{k},{w}]', rotate_int, dict(fam='smt', kind=k, w=w), core=w <= 8)


@prop('S03', bounds='widths 1-9,15-17,31-33,63-65 (quick) / 1-33,63-65; every index in [-w-2, w+1]; non-empty unit-stride slices at '
      'widths 1-4 / 1-8, and at 9,33,65 cut around the ends, 8, 16, 32 and 64; extension by -1..4 / -1..9; repetition 1..4 / 1..6; both also by 31-33, 63-65, 127-129; all values',
      outside='empty slices and strides other than one (the term libraries have neither)', assumptions=[NOTE])
def s03(tier):
    yield from structure('smt', tier)


def structure(fam, tier):
    q = tier == 'quick'
    for k in KINDS:
        for w in widths(tier, EDGE_W, tuple(range(1, 34)) + (63, 64, 65)):
            yield Case(f'index[{k},{w}]', index, dict(fam=fam, kind=k, w=w), core=w <= 8)
            for vf in ('bit', 'bool', 'int'):
                if not q or w <= 8 or vf == 'bit':
                    yield Case(f'setindex[{k},{w},{vf}]', setindex, dict(fam=fam, kind=k, w=w, vform=vf), core=w <= 8)
            yield Case(f'extend[{k},{w}]', extend, dict(fam=fam, kind=k, w=w, nmax=4 if q else 9), core=w <= 8)
            if w in (1, 3, 8, 33):
                yield Case(f'extend far[{k},{w}]', extend, dict(fam=fam, kind=k, w=w, nmax=None), core=False)
            if w <= 2:
                yield Case(f'repeat often[{k},{w}]', repeat, dict(fam=fam, kind=k, w=w, nmax=None), core=False)
            yield Case(f'repeat[{k},{w}]', repeat, dict(fam=fam, kind=k, w=w, nmax=4 if q else 6), core=w <= 5)
            for w2 in (1, 2, 3, 5, 8) if q else tuple(range(1, 10)) + (16, 33):
                yield Case(f'concat[{k},{w},{w2}]', concat, dict(fam=fam, kind=k, w=w, w2=w2), core=w + w2 <= 10)
        for w in range(1, 5 if q else 9):
            for st in (0, 1):
                for en in (0, 1):
                    for step in (None, 1):
                        yield Case(f'slice[{k},{w},{st}{en},{step}]', slices,
                                   dict(fam=fam, kind=k, w=w, ends=[st, en], step=step), core=w <= 3)
        for w in (9, 33, 65) if q else (9, 16, 17, 33, 64, 65, 129):
            yield Case(f'far slices[{k},{w}]', far_slices, dict(fam=fam, kind=k, w=w), core=w <= 9)
        yield Case(f'badindex[{k}]', bad_index, dict(fam=fam, kind=k, w=4))
        yield Case(f'structure errors[{k}]', bad_structure, dict(fam=fam, kind=k, w=3))


def constants(env, fam, kind, w, form, w2=None):
    """constants denote the integer modulo 2**w; bits, bit lists and other vectors keep their bits"""
    F = env.fams[fam]
    K = F.of(kind)
    T = K[w]
    lim = 1 << (2 * w + 3)
    if form == 'int':
        v = env.int('v', -lim, lim)
        env.same('constant', T(v), T, m(v, w))
        env.same('make_constant', T.make_constant(v), T, m(v, w))
        env.same('make_constant with size', T.make_constant(v, w2), K[w2], m(v, w2))
        for f in (lambda: T(v), lambda: T.make_constant(v), lambda: T.make_constant(v, w)):
            changed = f()
            changed[0] = ~changed[0]
            env.same('constant after an equal one was changed in place', f(), T, m(v, w))
    elif form == 'intish':
        v = env.int('v', -lim, lim)
        env.same('constant of an __int__ object', T(Intish(v)), T, m(v, w))
    elif form == 'bool':
        v = env.bool('v')
        env.same('constant of a bool', T(v), T, env.ite(v, 1, 0))
    elif form == 'bit':
        b = env.bit(F.Bit, 'v')
        env.same('vector of a bit', T(b), T, env.ite(env.val(b), 1, 0))
    elif form == 'term':
        a = env.bv(T, 'v')
        env.same('vector of a term', T(a.value), T, env.val(a))
        env.raises('term of another width', TypeError, lambda: K[w + 1](a.value))
        env.raises('bit of a vector term', TypeError if fam == 'smt' else Exception, lambda: F.Bit(a.value))
        b = env.bit(F.Bit, 'b')
        env.same('bit of a term', F.Bit(b.value), F.Bit, env.val(b))
        if fam == 'smt':
            env.raises('vector of a bit term', TypeError, lambda: T(b.value))
        else:
            env.same('vector of a bit term', T(b.value), T, env.ite(env.val(b), 1, 0))
    elif form in ('list', 'bitlist', 'intlist', 'mixedlist'):
        if form == 'intlist':
            v = env.int('v', 0, (1 << w) - 1) if w < 4 else env.pick('v', literals(w))
            v = env.concrete(v)
            bs = tuple((v >> i) & 1 for i in range(w))
            x = T(bs)
        elif form == 'mixedlist':
            c = [env.bit(F.Bit, f'v{i}') for i in range(3)]
            bs = [c[0] if i % 5 == 0 else (i // 5) % 2 if i % 5 == 1 else c[1] if i % 5 == 2 else bool(i % 2) if i % 5 == 3 else ~c[2]
                  for i in range(w)]
            vs = [env.val(b) if i % 5 in (0, 2, 4) else bool(b) for i, b in enumerate(bs)]
            x, v = T(bs), sum((env.ite(b, 1 << i, 0) for i, b in enumerate(vs)), 0)
        elif form == 'list':
            bs = [env.bool(f'v{i}') for i in range(w)]
            x, v = T(bs), sum((env.ite(b, 1 << i, 0) for i, b in enumerate(bs)), 0)
        else:
            bs = [env.bit(F.Bit, f'v{i}') for i in range(w)]
            x, v = T(bs), sum((env.ite(env.val(b), 1 << i, 0) for i, b in enumerate(bs)), 0)
        env.same('vector of a list', x, T, v)
        env.raises('list of the wrong length', ValueError, lambda: K[w + 1](bs))
    elif form in ('bv', 'u', 's'):
        o = env.bv(F.of(form)[w2], 'v')
        v = env.val(o)
        x = T(o)
        # widening follows the source type's zext
        env.same('vector of a vector', x, T, m(v, w))
        env.unchanged('source', o, v)
    elif form == 'bad':
        env.raises('bit from nonsense', TypeError, lambda: F.Bit(object()))
        for bad in (None, object(), {}):
            env.raises('construct from nonsense', TypeError, lambda: T(bad))


class Intish:
    def __init__(self, v):
        self.v = v

    def __sx_int__(self):
        return self.v

    def __int__(self):
        return self.v


def constant_cases(fam, tier):
    q = tier == 'quick'
    for k in KINDS:
        for w in widths(tier, EDGE_W, tuple(range(1, 34)) + (63, 64, 65, 127, 128, 129)):
            for f in ('int', 'intish', 'bool', 'bit', 'term'):
                yield Case(f'constant[{k},{w},{f}]', constants, dict(fam=fam, kind=k, w=w, form=f, w2=w + 3), core=w <= 8)
            if w <= 65:
                for f in ('list', 'bitlist', 'intlist', 'mixedlist'):
                    yield Case(f'constant[{k},{w},{f}]', constants, dict(fam=fam, kind=k, w=w, form=f), core=w <= 5)
            for k2 in KINDS:
                for w2 in sorted({1, max(1, w - 1), w, w + 1, 2 * w, 2 * w + 1, 3 * w + 2, 7 * w}):
                    if not q or w <= 5:
                        yield Case(f'constant[{k},{w},{k2}{w2}]', constants, dict(fam=fam, kind=k, w=w, form=k2, w2=w2),
                                   core=w <= 5)
        yield Case(f'constant[{k},bad]', constants, dict(fam=fam, kind=k, w=4, form='bad'))


def never_bool(env, fam):
    """a symbolic truth value never silently turns into a native one"""
    F = env.fams[fam]
    b = env.bit(F.Bit, 'b')
    env.raises('bool() of a symbolic bit', TypeError, lambda: bool(b))
    x, y = env.bv(F.BV[4], 'x'), env.bv(F.BV[4], 'y')
    env.raises('if on a comparison', TypeError, lambda: 1 if x == y else 0)
    env.raises('vector from a list with a symbolic condition', TypeError, lambda: F.Bit(x == y) and 1)


@prop('S04', bounds='widths 1-9,15-17,31-33,63-65 (quick) / 1-33,63-65,127-129; integers in [-2**(2w+3), 2**(2w+3)]; bit lists up to 65; '
      'source vectors up to seven times as wide', assumptions=[NOTE])
def s04(tier):
    yield from constant_cases('smt', tier)
    yield Case('bit constants', bit_make, dict(fam='smt'))
    yield Case('no native truth value', never_bool, dict(fam='smt'))


@prop('S05', bounds='bits: all operands; 11 nested shapes; vector conditions, carries and signed/unsigned choices at widths '
      '1-5,8,16 (quick) / 1-12,16,32,33,64', assumptions=[NOTE])
def s05(tier):
    for f in ('bit', 'bool', 'int'):
        yield Case(f'bit ops[{f}]', bitops, dict(fam='smt', form=f))
    yield Case('bit errors', bit_errors, dict(fam='smt'))
    for i, s in enumerate(SHAPES):
        yield Case(f'shape[{i}]', ite_shape, dict(fam='smt', sh=s))
    for i, (sx, sy) in enumerate(BAD_SHAPES):
        yield Case(f'bad[{i}]', ite_bad, dict(fam='smt', sx=sx, sy=sy))
    q = tier == 'quick'
    for w in (1, 2, 3, 4, 5, 8, 16) if q else tuple(range(1, 13)) + (16, 32, 33, 64):
        for k in KINDS:
            yield Case(f'vector condition[{k},{w}]', bv_ite_cond, dict(fam='smt', kind=k, w=w), core=w <= 8)
            for cf in ('bit', 'bv1', 'int'):
                yield Case(f'adc[{k},{w},{cf}]', adc, dict(fam='smt', kind=k, w=w, cform=cf), core=w <= 8)
        for n in (False, True):
            yield Case(f'protocol[{w},{n}]', ite_protocol, dict(fam='smt', w=w, nested=n), core=w <= 8)
        yield Case(f'chain[{w}]', chained, dict(fam='smt', w=w, depth=4 if q else 7), core=w <= 4)
        for sw in (False, True):
            yield Case(f'poly[{w},{sw}]', poly, dict(fam='smt', w=w, swap=sw), core=w <= 4)
            for g in ('choose', 'same') + (('div',) if w <= 4 else ()):
                yield Case(f'poly {g}[{w},{sw}]', poly_ops, dict(fam='smt', w=w, swap=sw, group=g), core=w <= 3)
        yield Case(f'nested[{w}]', poly_nested, dict(fam='smt', w=w), core=w <= 4)


@prop('S10', bounds='widths 1-4,8,16 (quick) / 1-16,31-33,64; plain ints in [-2**(w+2), 2**(w+2)], bools, Bits and concrete vectors on either '
      'side; every pair of different widths from 1-4; every operation', assumptions=[NOTE])
def s10(tier):
    q = tier == 'quick'
    G1 = ['ARITH', 'LOGIC', 'SHIFT', 'ASHR', 'CMP_EQ', 'CMP_U', 'CMP_S']
    for k in KINDS:
        for w in (1, 2, 3, 4, 8, 16) if q else tuple(range(1, 17)) + (31, 32, 33, 64):
            for f in ('int', 'bool', 'bit', 'conc', 'concbit'):
                yield Case(f'operand[{k},{w},{f}]', binops, dict(fam='smt', kind=k, w=w, tables=G1, form=f), core=w <= 4)
                # a vector is no truth value here: bits take no vectors
                g = [t for t in G1 if not f.endswith('bit') or t not in ('LOGIC', 'CMP_EQ')]
                yield Case(f'reflected[{k},{w},{f}]', reflected, dict(fam='smt', kind=k, w=w, tables=g, form=f), core=w <= 4)
                if w <= 8:
                    yield Case(f'operand div[{k},{w},{f}]', binops,
                               dict(fam='smt', kind=k, w=w, tables=['UDIV', 'SDIVT'], form=f), core=w <= 4)
                    yield Case(f'reflected div[{k},{w},{f}]', reflected,
                               dict(fam='smt', kind=k, w=w, tables=['UDIV', 'SDIVT'], form=f), core=w <= 4)
            for k2 in KINDS:
                if k2 != k:
                    yield Case(f'mixed[{k},{k2},{w}]', mixed, dict(fam='smt', kind=k, kind2=k2, w=w), core=w <= 4)
        for w in (1, 2, 3, 4):
            for w2 in (1, 2, 3, 4):
                if w != w2:
                    for k2 in KINDS:
                        yield Case(f'mismatch[{k}{w},{k2}{w2}]', mismatch, dict(fam='smt', kind=k, w=w, kind2=k2, w2=w2))
                    yield Case(f'concrete mismatch[{k},{w},{w2}]', foreign_sizes, dict(fam='smt', kind=k, w=w, w2=w2))
        for w in (1, 3, 8):
            yield Case(f'concrete choice[{k},{w}]', foreign_choice, dict(kind=k, w=w))
        yield Case(f'uncoercible[{k}]', uncoercible, dict(fam='smt', kind=k, w=4))


# ---- S06 names -----------------------------------------------------------------------------
def names(env, steps, typ):
    """a variable created without a name never has the name of a live one; taking a live name is refused"""
    import hwtypes
    from ..env import _uniq
    F = env.fams['smt']
    FP = hwtypes.SMTFPVector[2, 1, hwtypes.RoundingMode.RNE, True]
    mks = {'bit': F.Bit, 'bv': F.BV[4], 'int': hwtypes.SMTInt, 'fp': FP}
    sort = {'bit': 'bit', 'bv': 'v', 'int': 'int', 'fp': 'v'}
    P = f'p{next(_uniq)}q'
    live, used = {}, {}
    auto = []
    for t in range(steps):
        k = typ if typ in mks else env.pick(f't{t}', typ.split(','))
        mk = mks[k]
        op = env.pick(f'op{t}', ['auto', 'explicit', 'drop'] if k == 'fp' else ['auto', 'prefix', 'explicit', 'drop'] +
                      (['reserved'] if typ in mks else []))
        if op == 'auto':
            x = mk()
            env.check('automatic name is not in use', nm(x) not in live and nm(x) not in auto)
            auto.append(nm(x))
            live[nm(x)] = x
        elif op == 'prefix':
            env.assume(all(q == sort[k] for n, q in used.items() if n not in live))
            x = mk(prefix=P)
            env.check('prefixed name is not in use', nm(x) not in live)
            env.check('prefixed name starts with the prefix', nm(x).startswith(P + '_'))
            env.check('prefixed name is not handed out twice', nm(x) not in auto)
            auto.append(nm(x))
            used.setdefault(nm(x), sort[k])
            live[nm(x)] = x
        elif op in ('explicit', 'reserved'):
            # a live variable may have been given the next automatic name explicitly
            n = f'{P}_{env.pick(f"n{t}", [0, 1, 2])}' if op == 'explicit' else f'V_{upcoming()}'
            if n in live:
                env.raises('name in use', ValueError, lambda: mk(name=n))
            else:
                env.assume(used.setdefault(n, sort[k]) == sort[k])
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    x = mk(name=n)
                env.check('explicit name is taken as given', nm(x) == n)
                live[n] = x
                if op == 'reserved':
                    _kept.append(x)         # see 'outside'
        else:
            k = [n for n in live if n.startswith(P) or n in auto]
            if k:
                n = env.pick(f'k{t}', k)
                x = None
                del live[n]
        x = None
    vs = list(live.values())
    for n, v in live.items():
        if hasattr(v, 'value'):
            env.check('shown under its name', n in repr(v))
    for i in range(len(vs)):
        for j in range(i):
            env.check('live variables are different symbols', sv(vs[i]) is not sv(vs[j]))


_kept = []


def upcoming():
    """the number the next automatic name would have"""
    from hwtypes import smt_bit_vector as m
    c = getattr(m, '_var_counters', {})
    k = next(copy.copy(c['V'])) if 'V' in c else 0
    while f'V_{k}' in getattr(m, '_name_table', {}):
        k += 1
    return k


def sv(x):
    return x.value if hasattr(x, 'value') else x.reinterpret_as_bv().value


def nm(x):
    return sv(x).symbol_name()


@prop('S06', bounds='every history of 4 (quick) / 5 creations (automatic, prefixed, explicitly named, named like the next automatic one) and deletions over bits, '
      'vectors, integers and floating point; of 3 / 4 over mixtures of them', outside='variables that were explicitly given a name of the automatic form V_<n> and are gone; reuse of a dead name with another type',
      assumptions=['objects are collected as soon as the last reference goes (CPython)'])
def s06(tier):
    for t in ('bit', 'bv', 'int', 'fp'):
        yield Case(f'names[{t}]', names, dict(steps=4 if tier == 'quick' else 5, typ=t))
    for t in ('bv,fp', 'int,fp') if tier == 'quick' else ('bv,fp', 'int,fp', 'bit,fp', 'int,bv'):
        yield Case(f'names[{t}]', names, dict(steps=3 if tier == 'quick' else 4, typ=t))
    yield Case('bad names', bad_names, dict())


def bad_names(env):
    import hwtypes
    F = env.fams['smt']
    from ..env import _uniq
    n = f'bad{next(_uniq)}'
    FP = hwtypes.SMTFPVector[2, 1, hwtypes.RoundingMode.RNE, True]
    for mk in (F.Bit, F.BV[4], hwtypes.SMTInt, FP):
        env.raises('name not a string', TypeError, lambda: mk(name=3))
        env.raises('name and value', TypeError, lambda: mk(1, name=n))
        if mk is FP:
            continue
        env.raises('prefix and value', TypeError, lambda: mk(1, prefix=n))
        env.raises('name and prefix', ValueError, lambda: mk(name=n, prefix=n))


# ---- S07 substitution -----------------------------------------------------------------------
def templates(F, w):
    T = F.BV[w]
    return [
        lambda x, y: x + y, lambda x, y: x - y * x, lambda x, y: (x & ~y) | (y << x), lambda x, y: (x < y).ite(x, y),
        lambda x, y: x[1:].concat(y[:1]) if w > 1 else x ^ y, lambda x, y: (x == y).ite(x >> y, ~x), lambda x, y: x,
        lambda x, y: T(3), lambda x, y: x.bvudiv(y) ^ x,
    ]


def substitution(env, w, ti, tj, tk):
    """replacing variables replaces them everywhere at once, and nothing else"""
    F = env.fams['smt']
    T = F.BV[w]
    x, y, z, u = (env.bv(T, n) for n in 'xyzu')
    L = templates(F, w)
    f, g, h = L[ti], L[tj], L[tk]
    e = f(x, y)
    before = env.val(e)
    r = e.substitute((x, g(y, z)), (y, h(x, u)))
    env.same('both', r, T, env.val(f(g(y, z), h(x, u))))
    env.same('one', e.substitute((x, g(y, z))), T, env.val(f(g(y, z), y)))
    env.same('swap', e.substitute((x, y), (y, x)), T, env.val(f(y, x)))
    env.same('variable that does not occur', e.substitute((u, z)), T, before)
    env.same('nothing', e.substitute(), T, before)
    b = x.bvult(f(x, y))
    rb = b.substitute((x, g(y, z)), (y, h(x, u)))
    X, Y = g(y, z), h(x, u)
    env.same('bits', rb, F.Bit, env.val(X.bvult(f(X, Y))))
    env.unchanged('formula', e, before)


def substitution_kinds(env, kind, w, ti):
    """what is substituted into stays of its type, so that later operations mean what they meant"""
    F = env.fams['smt']
    T = F.of(kind)[w]
    x, y, z = (env.bv(T, n) for n in 'xyz')
    u = env.bv(F.BV[w], 'u')
    L = templates(F, w)
    f = lambda x, y: T(L[ti](x, y))
    e = f(x, y)
    r = e.substitute((x, z))
    env.same('value', r, T, env.val(f(z, y)))
    for nm, op in (('shift', operator.rshift), ('order', operator.lt), ('remainder', operator.mod), ('difference', operator.sub)):
        want = op(f(z, y), y)
        env.same(f'{nm} of the result', op(r, y), type(want), env.val(want))
    env.same('of an operation', (e >> x).substitute((x, z)), T, env.val(f(z, y) >> z))
    env.same('replacement of another kind', e.substitute((x, u)), T, env.val(f(T(u), y)))
    env.same('variable of another kind', T(u).substitute((u, x)), T, env.val(x))


def refused_substitution(env, w, ti, bad):
    """what cannot be substituted is refused, and substitutions after it are as good as before"""
    import hwtypes
    F, C = env.fams['smt'], env.fams['c']
    T = F.BV[w]
    x, y, z = (env.bv(T, n) for n in 'xyz')
    b, c, d = (env.bit(F.Bit, n) for n in 'bcd')
    L = templates(F, w)
    f = L[ti]
    e = f(x, y) + (x ^ f(y, z))
    g = (b & c) | (x < f(x, y))
    to = {'wide': lambda: env.bv(F.BV[w + 1], 'o'), 'bit': lambda: b, 'int': lambda: 1, 'bool': lambda: True, 'none': lambda: None,
          'concrete': lambda: C.BV[w](1), 'concrete bit': lambda: C.Bit(1), 'integer': lambda: env.smtint('n'), 'narrow': lambda: F.BV[w + 2](1),
          'term': lambda: x.value}[bad]()
    pairs = {'vector': (x, to), 'last': ((y, z), (x, to)), 'first': ((x, to), (y, z)), 'bit': (c, T(1) if bad == 'bit' else to), 'reversed': (to, x)}
    for nm, p in pairs.items():
        ps = p if isinstance(p[0], tuple) else (p,)
        env.raises(f'{nm} in a vector', TypeError, lambda: e.substitute(*ps))
        env.same('vector after a refusal', e.substitute((x, z)), T, env.val(f(z, y) + (z ^ f(y, z))))
        env.same('part of it after a refusal', (x ^ f(y, z)).substitute((y, x)), T, env.val(x ^ f(x, z)))
        env.raises(f'{nm} in a bit', TypeError, lambda: g.substitute(*ps))
        env.same('bit after a refusal', g.substitute((x, z)), F.Bit, env.val((b & c) | (z < f(z, y))))
        env.same('part of it after a refusal', (b & c).substitute((c, d)), F.Bit, env.val(b & d))
        env.same('sum after a refusal', x + y, T, m(env.val(x) + env.val(y), w))


BAD_SUBST = ('wide', 'bit', 'int', 'bool', 'none', 'concrete', 'concrete bit', 'integer', 'narrow', 'term')


@prop('S07', bounds='9x9x9 (quick: 9x3x3) combinations of formula and replacement templates at widths 3 (quick) / 1,3,8; three '
      'kinds of vectors; 10 refused replacements in 5 places', outside='substituting into the condition of a choice between kinds',
      assumptions=[NOTE])
def s07(tier):
    for w in (3,) if tier == 'quick' else (1, 3, 8):
        for i in range(9):
            for j in range(9):
                for k in range(9):
                    if tier == 'quick' and (j not in (0, 3, 5) or k not in (1, 6, 7)):
                        continue
                    if w == 8 and 8 in (i, j, k):
                        continue
                    yield Case(f'substitute[{w},{i},{j},{k}]', substitution, dict(w=w, ti=i, tj=j, tk=k), core=w == 3)
    for i in range(9):
        for bad in BAD_SUBST:
            if i < 3 or tier != 'quick':
                yield Case(f'refused[{i},{bad}]', refused_substitution, dict(w=3, ti=i, bad=bad))
        for k in KINDS:
            for w in (3,) if tier == 'quick' else (1, 2, 3, 5):
                if i < 7:
                    yield Case(f'kinds[{k},{w},{i}]', substitution_kinds, dict(kind=k, w=w, ti=i), core=w == 3)


# ---- S08 integers --------------------------------------------------------------------------------
def int_ops(env, form):
    import hwtypes
    I, B = hwtypes.SMTInt, env.fams['smt'].Bit
    a = env.smtint('a')
    av = env.val(a)
    if form == 'int':
        b = env.smtint('b')
        bv = env.val(b)
    else:
        b = env.int('b', -(1 << 20), 1 << 20)
        bv = b
    for n, f in (('+', operator.add), ('-', operator.sub), ('*', operator.mul)):
        env.same(n, f(a, b), I, f(av, bv))
        env.same('reflected ' + n, f(b, a), I, f(bv, av))
    for n, f in (('==', operator.eq), ('!=', operator.ne), ('<', operator.lt), ('<=', operator.le), ('>', operator.gt),
                 ('>=', operator.ge)):
        env.same(n, f(a, b), B, f(av, bv))
        env.same('reflected ' + n, f(b, a), B, f(bv, av))
    env.same('neg', -a, I, -av)
    env.unchanged('left', a, av)


def int_div(env, form, bound):
    import hwtypes
    I = hwtypes.SMTInt
    if form == 'int':
        a, b = env.smtint('a'), env.smtint('b')
        av, bv = env.val(a), env.val(b)
    else:
        a = env.smtint('a')
        av = env.val(a)
        b = bv = env.concrete(env.int('b', -bound, bound))
    if not env.split(bv == 0):
        q = a // b
        env.is_a('//', q, I)
        qv = env.val(q)
        # the quotient is the one integer q with 0 <= a - q*b < b (or b < a - q*b <= 0)
        r = av - qv * bv
        if env.split(bv > 0):
            env.check('//', env.both(r >= 0, r < bv))
        else:
            env.check('//', env.both(r <= 0, r > bv))
    if form == 'int':
        return
    if not env.split(av == 0):
        q = b // a
        env.is_a('reflected //', q, I)
        env.eq('reflected //', q, b // av)


def int_of_vector(env, kind, w):
    """integer readings of vectors"""
    import hwtypes
    I, F = hwtypes.SMTInt, env.fams['smt']
    T = F.of(kind)
    if w <= 16:
        x = env.bv(T[w], 'x')
    else:                       # the solver is slow with readings of many open bits: both ends are open, the middle is alike
        x = env.bv(T[6], 'low').concat(T[w - 12](env.pick('middle', [0, -1, 0b0110110010]))).concat(env.bv(T[6], 'high'))
    xv = env.val(x)
    env.same('as_uint', x.as_uint(), I, z(env, xv, w))
    env.same('as_sint', x.as_sint(), I, z(env, env.signed(xv, w), w + 1))
    env.same('integer of a vector', I(x), I, z(env, xv, w))
    env.same('integer of its term', I(x.value), I, z(env, xv, w))
    env.unchanged('operand', x, xv)


def z(env, v, w):
    if not env.symbolic:
        return v
    from .. import sym
    return sym.SymZ(sym.zint(v))


def int_make(env):
    import hwtypes
    I = hwtypes.SMTInt
    v = env.int('v', -(1 << 70), 1 << 70)
    env.same('integer of an int', I(v), I, v)
    b = env.bool('b')
    env.same('integer of a bool', I(b), I, env.ite(b, 1, 0))
    a = env.smtint('a')
    env.same('integer of an integer', I(a), I, env.val(a))
    env.same('integer of a term', I(a.value), I, env.val(a))
    env.raises('integer of nonsense', TypeError, lambda: I(None))
    env.raises('integer of a bit term', TypeError, lambda: I(env.bit(env.fams['smt'].Bit, 'c').value))


@prop('S08', bounds='unbounded symbolic integers against each other and against ints in [-2**20, 2**20]; division by every '
      'non-zero divisor in [-8, 8] (quick) / [-40, 40]; vectors of widths 1-5,8,16 (quick) / 1-16, and of 17,32,33,64,65 (quick) / 17-33,48,63-65,128 bits of which 12 are open',
      outside='division by zero (left open by SMT-LIB); division by a symbolic divisor', assumptions=[NOTE])
def s08(tier):
    q = tier == 'quick'
    for f in ('int', 'const'):
        yield Case(f'int ops[{f}]', int_ops, dict(form=f), core=True)
    yield Case('int div[const]', int_div, dict(form='const', bound=8 if q else 40))
    yield Case('int div[int]', int_div, dict(form='int', bound=0), core=False)
    yield Case('int construction', int_make, dict())
    for k in KINDS:
        for w in (1, 2, 3, 4, 5, 8, 16, 17, 32, 33, 64, 65) if q else tuple(range(1, 34)) + (48, 63, 64, 65, 128):
            yield Case(f'readings[{k},{w}]', int_of_vector, dict(kind=k, w=w), core=w <= 5)


# ---- S09 formula constructors ---------------------------------------------------------------------
def formulas(env, shape, n):
    from hwtypes import smt_utils as fc
    F = env.fams['smt']
    bs = [env.bit(F.Bit, f'b{i}') for i in range(n)]
    vs = [env.val(b) for b in bs]
    f, v = build(env, fc, eval_shape(shape), bs, vs)
    r = f.to_hwtypes()
    env.same('formula', r, F.Bit, v)
    env.same('formula, asked twice', f.to_hwtypes(), F.Bit, v)
    shape = eval_shape(shape)
    env.check('text', f.serialize() == text(shape, bs, '', '|   '), f.serialize())
    env.check('text with another indentation', f.serialize('> ', '--') == text(shape, bs, '> ', '--'))
    for b, x in zip(bs, vs):
        env.unchanged('bit', b, x)


def eval_shape(s):
    return tuple(eval_shape(x) for x in s) if isinstance(s, (list, tuple)) else s


def text(s, bs, prefix, indent):
    """every operand in its place, one level deeper"""
    if isinstance(s, int):
        return prefix + bs[s].value.serialize()
    head = prefix + dict(imp='Implies').get(s[0], s[0].capitalize()) + '(\n'
    return head + ',\n'.join(text(a, bs, prefix + indent, indent) for a in s[1:]) + '\n' + prefix + ')'


def build(env, fc, s, bs, vs):
    if isinstance(s, int):
        return bs[s], vs[s]
    op, args = s[0], [build(env, fc, a, bs, vs) for a in s[1:]]
    os_, ws = [a for a, _ in args], [b for _, b in args]
    if op == 'and':
        return fc.And(os_), env.both(*ws) if ws else True
    if op == 'or':
        return fc.Or(os_), env.either(*ws) if ws else False
    return fc.Implies(*os_), env.implies(*ws)


FORMULAS = [['and'], ['or'], ['and', 0], ['or', 0], ['and', 0, 1], ['or', 0, 1], ['imp', 0, 1], ['and', 0, 1, 2, 3],
            ['or', 0, 1, 2, 3], ['imp', ['and', 0, 1], ['or', 2, 3]], ['imp', ['or', 0, 1], ['and', 2, 3]],
            ['and', ['or', 0, 1], ['imp', 2, 3], 1], ['or', ['and'], 0], ['and', ['or'], 0], ['imp', ['imp', 0, 1], 2],
            ['imp', 0, ['imp', 1, 2]], ['and', ['and', 0, ['or', 1, ['and', 2, ['imp', 3, 0]]]]], ['or', ['or', 0], ['or', 1, 2]],
            ['imp', ['and'], ['or']], ['and', 0, 0], ['and', *range(9)], ['or', *range(9)],
            ['or', *(['and', i, ['imp', 8 - i, i - 1]] for i in range(1, 8))], ['and', ['imp', 0, 0], ['or', 1, 1]],
            ['and', ['and']], ['or', ['or']], ['and', ['and'], ['and']], ['or', ['and', ['or']]], ['imp', ['or'], 0], ['imp', 0, ['and']],
            ['and', ['or'], ['and']], ['and', ['and', ['and', 0], 1], ['or', ['or', 2]]], ['imp', ['imp', ['imp', 0, 1], 2], 3],
            ['or', ['imp', 0, ['or']], ['and', 1, ['and']]]]


def formula_errors(env):
    from hwtypes import smt_utils as fc
    a = env.bit(env.fams['smt'].Bit, 'a')
    for bad in (True, 1, None, 'x'):
        env.raises('And of a plain value', ValueError, lambda: fc.And([a, bad]))
        env.raises('Or of a plain value', ValueError, lambda: fc.Or([bad]))
        env.raises('Implies of a plain value', ValueError, lambda: fc.Implies(a, bad))
        env.raises('Implies of a plain value', ValueError, lambda: fc.Implies(bad, a))
    l = [a]
    f = fc.And(l)
    l.append(~a)
    env.same('changing the list afterwards', f.to_hwtypes(), env.fams['smt'].Bit, env.val(a))


@prop('S09', bounds='34 formula shapes up to depth 5 and 9 operands over 4 or 9 bits', assumptions=[NOTE])
def s09(tier):
    for i, s in enumerate(FORMULAS):
        yield Case(f'formula[{i}]', formulas, dict(shape=s, n=9 if i in (20, 21, 22) else 4))
    yield Case('formula errors', formula_errors, dict())


# ---- S11 sharing ---------------------------------------------------------------------------------
def sharing(fam, tier):
    q = tier == 'quick'
    names, ops, divs, rots = producer_names(fam)
    for k in KINDS:
        for w in (1, 2, 3, 4, 8) if q else tuple(range(1, 11)) + (16, 32):
            for n in names:
                yield Case(f'independent[{k},{w},{n}]', independent, dict(fam=fam, kind=k, w=w, names=[n]), core=w <= 4)
            yield Case(f'independent[{k},{w},ops]', independent, dict(fam=fam, kind=k, w=w, names=ops), core=w <= 4)
            for n in (rots if w <= 8 else []) + (divs if w <= 4 else []):
                yield Case(f'independent[{k},{w},{n}]', independent, dict(fam=fam, kind=k, w=w, names=[n]), core=w <= 4)
    for w in (1, 2, 4) if q else range(1, 9):
        yield Case(f'repeated constants[{w}]', repeated, dict(fam=fam, w=w))


def repeated(env, fam, w):
    """a constant, list or choice built again after the first one was changed in place"""
    F = env.fams[fam]
    i = env.pick('i', range(w))
    v = env.pick('v', literals(w))
    c, x = env.bit(F.Bit, 'c'), env.bit(F.Bit, 'x')
    bits = [bool((v >> j) & 1) for j in range(w)]
    for kind in KINDS:
        T = F.of(kind)[w]
        for n, f in (('int', lambda: T(v)), ('make_constant', lambda: T.make_constant(v)),
                     ('sized make_constant', lambda: T.make_constant(v, w)), ('make_constant without size', lambda: T.unsized_t.make_constant(v, w)),
                     ('bools', lambda: T(bits)), ('bits', lambda: T([F.Bit(b) for b in bits])),
                     ('choice', lambda: c.ite(T(v), T(v))), ('sum', lambda: T(v) + 0), ('converted', lambda: T(F.BV[w](v)))):
            first = f()
            first[i] = x
            env.same(n, f(), T, v)
            second = f()
            env.check(n + ': another object', second is not f() and second is not first)


@prop('S11', bounds='widths 1-4,8 (quick) / 1-10,16,32; every operation of the type, constants and literals; any changed bit',
      assumptions=[NOTE])
def s11(tier):
    yield from sharing('smt', tier)
