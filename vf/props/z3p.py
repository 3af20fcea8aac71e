"""z3 backed vectors (hwtypes.z3_bit_vector)."""
import operator

from ..registry import Case, prop
from .common import *
from .concrete import chained
from .smt import F_W, KINDS, S_W, B_CUT, cases, constant_cases, never_bool, sharing, shortcut_cases, structure

NOTE = 'z3 terms built by the code are decided directly; constant constructors accept symbolic integers'
B_Z3 = 'widths 1-9,15-17,31-33,63-65,127-129 (quick) / 1-66,96,127-129,257; all values'


def signed_division(env, fam, kind, w):
    """signed quotient rounds towards zero, the remainder matches it: a == q*b + r"""
    F = env.fams[fam]
    T = F.of(kind)[w]
    a, b = env.bv(T, 'a'), env.bv(T, 'b')
    av, bv = env.val(a), env.val(b)
    env.same('bvsdiv', a.bvsdiv(b), T, sdiv_trunc(env, av, bv, w))
    env.same('bvsrem', a.bvsrem(b), T, srem_trunc(env, av, bv, w))
    if kind == 's':
        env.same('operator //', a // b, T, sdiv_trunc(env, av, bv, w))
        env.same('operator %', a % b, T, srem_trunc(env, av, bv, w))
    env.unchanged('left', a, av)
    env.unchanged('right', b, bv)


@prop('Z01', bounds=B_Z3 + '; division and rotation at widths 1-5,8 (quick) / 1-9,16' + B_CUT, assumptions=[NOTE])
def z01(tier):
    yield from cases('z3', ['ARITH', 'LOGIC', 'SHIFT', 'ASHR', 'CMP_EQ', 'CMP_U', 'CMP_S', 'BVCOMP'], tier,
                     forms=('same', 'int'))
    yield from shortcut_cases('z3', ['ARITH', 'LOGIC', 'SHIFT', 'ASHR', 'CMP_EQ', 'CMP_U', 'CMP_S', 'BVCOMP'], tier)
    yield from shortcut_cases('z3', ['UDIV'], tier, (1, 2, 4, 8), (1, 2, 3, 4, 5, 8, 16))
    yield from shortcut_cases('z3', ['ROT'], tier, (1, 2, 4), (1, 2, 3, 4, 5, 8))
    yield from operand_forms('z3', ['ARITH', 'LOGIC', 'SHIFT', 'ASHR', 'CMP_EQ', 'CMP_U', 'CMP_S', 'BVCOMP'], tier, reflect=False)
    yield from cases('z3', ['UDIV'], tier, quick=(1, 2, 3, 4, 5, 8), full=tuple(range(1, 10)) + (16,))
    yield from cases('z3', ['ROT'], tier, quick=(1, 2, 3, 4, 5, 8), full=tuple(range(1, 10)) + (16,), core=4)
    for w in widths(tier, S_W, F_W):
        for k in KINDS:
            yield Case(f'unary[{k},{w}]', unops, dict(fam='z3', kind=k, w=w), core=w <= 8)
    for w in (1, 2, 3, 4, 5) if tier == 'quick' else range(1, 8):
        for k in KINDS:
            yield Case(f'signed division[{k},{w}]', signed_division, dict(fam='z3', kind=k, w=w), core=w <= 4)


@prop('Z02', bounds='widths 1-9,15-17,31-33,63-65 (quick) / 1-33,63-65; every index in [-w-2, w+1]; non-empty unit-stride slices at '
      'widths 1-4 / 1-8, and at 9,33,65 cut around the ends, 8, 16, 32 and 64; extension by -1..4 / -1..9; repetition 1..4 / 1..6; both also by 31-33, 63-65, 127-129; all values',
      outside='empty slices and strides other than one (the term libraries have neither)', assumptions=[NOTE])
def z02(tier):
    yield from structure('z3', tier)


@prop('Z03', bounds='widths 1-9,15-17,31-33,63-65 (quick) / 1-33,63-65,127-129; integers in [-2**(2w+3), 2**(2w+3)]; bit lists up to 65; '
      'source vectors up to seven times as wide', assumptions=[NOTE])
def z03(tier):
    yield from constant_cases('z3', tier)
    yield Case('bit constants', bit_make, dict(fam='z3'))


def z3_ite(env, kind, w, form):
    """the chosen branch, as a vector; plain values are taken as vectors of the other branch's type"""
    F = env.fams['z3']
    T = F.of(kind)[w]
    c = env.bit(F.Bit, 'c')
    cv = env.val(c)
    x = env.bv(T, 'x')
    xv = env.val(x)
    if form == 'same':
        y = env.bv(T, 'y')
        env.same('ite', c.ite(x, y), T, env.ite(cv, xv, env.val(y)))
        env.unchanged('y', y, env.val(y))
    elif form == 'int':
        v = env.int('v', 0, (1 << w) - 1)
        env.same('ite with int', c.ite(x, v), T, env.ite(cv, xv, v))
        env.same('ite with int first', c.ite(v, x), T, env.ite(cv, v, xv))
    else:
        K2 = {'bv': F.U, 'u': F.S, 's': F.BV}[kind]
        env.raises('branches of different types', TypeError, lambda: c.ite(x, env.bv(K2[w], 'y')))
        env.raises('branches of different sizes', TypeError, lambda: c.ite(x, env.bv(F.of(kind)[w + 1], 'z')))
    env.unchanged('x', x, xv)


def z3_mismatch(env, kind, w, w2):
    F = env.fams['z3']
    a, b = env.bv(F.of(kind)[w], 'a'), env.bv(F.of(kind)[w2], 'b')
    for tn, name, op, ref in all_ops(w, kind):
        env.raises(name, TypeError, lambda: getattr(a, name)(b))
        if op is not None:
            env.raises('operator ' + op.__name__, TypeError, lambda: op(a, b))
    env.raises('adc', TypeError, lambda: a.adc(b, 0))
    for bad in (None, object(), {}):
        for tn, name, op, ref in all_ops(w, kind):
            env.raises(name, TypeError, lambda: getattr(a, name)(bad))
    env.raises('concat with a plain value', TypeError, lambda: a.concat(1))


def z3_foreign(env, kind, w):
    """what is no number, bit or list of bits is neither a value nor an operand"""
    F = env.fams['z3']
    T = F.of(kind)[w]
    a = env.bv(T, 'a')
    av = env.val(a)
    for bad in (None, object(), {}, '0' * w, '101', ''):
        env.raises('construction', TypeError, lambda: T(bad))
        for nm in ('bvadd', 'bvsub', 'bvmul', 'bvudiv', 'bvurem', 'bvand', 'bvor', 'bvxor', 'bvshl', 'bvlshr', 'bvashr', 'bvult', 'bvsle',
                   'bveq', 'bvne'):
            env.raises(nm, TypeError, lambda: getattr(a, nm)(bad))
        env.raises('choice', TypeError, lambda: a.bveq(0).ite(a, bad))
    env.unchanged('operand', a, av)


@prop('Z04', bounds='bits: all operands; vector conditions, carries, choices at widths 1-5,8,16 (quick) / 1-12,16,32,33,64; '
      'size mismatches for all widths 1-4', outside='choices between plain values or bits (they become vectors)',
      assumptions=[NOTE])
def z04(tier):
    q = tier == 'quick'
    for f in ('bit', 'bool', 'int'):
        yield Case(f'bit ops[{f}]', bitops, dict(fam='z3', form=f))
    for k in KINDS:
        for w in (1, 3, 8):
            yield Case(f'foreign[{k},{w}]', z3_foreign, dict(kind=k, w=w))
        for w in (1, 2, 3, 4, 5, 8, 16) if q else tuple(range(1, 13)) + (16, 32, 33, 64):
            yield Case(f'vector condition[{k},{w}]', bv_ite_cond, dict(fam='z3', kind=k, w=w), core=w <= 8)
            for cf in ('bit', 'bv1', 'int'):
                yield Case(f'adc[{k},{w},{cf}]', adc, dict(fam='z3', kind=k, w=w, cform=cf), core=w <= 8)
            yield Case(f'concrete operand[{k},{w}]', binops,
                       dict(fam='z3', kind=k, w=w, tables=['ARITH', 'LOGIC', 'SHIFT', 'ASHR', 'CMP_EQ', 'CMP_U', 'CMP_S'], form='conc'), core=w <= 4)
            for f in ('same', 'int', 'bad'):
                yield Case(f'ite[{k},{w},{f}]', z3_ite, dict(kind=k, w=w, form=f), core=w <= 8)
            yield Case(f'chain[{k},{w}]', chained, dict(fam='z3', w=w, depth=4 if q else 7), core=w <= 4)
            for k2 in KINDS:
                if k2 != k and w <= 16:
                    yield Case(f'mixed[{k},{k2},{w}]', mixed, dict(fam='z3', kind=k, kind2=k2, w=w), core=w <= 4)
        for w in (1, 2, 3, 4):
            for w2 in (1, 2, 3, 4):
                if w != w2:
                    yield Case(f'mismatch[{k},{w},{w2}]', z3_mismatch, dict(kind=k, w=w, w2=w2))
                    yield Case(f'concrete mismatch[{k},{w},{w2}]', foreign_sizes, dict(fam='z3', kind=k, w=w, w2=w2))


@prop('Z05', bounds='widths 1-4,8 (quick) / 1-10,16,32; every operation of the type, constants and literals; any changed bit',
      assumptions=[NOTE])
def z05(tier):
    yield from sharing('z3', tier)


# ---- Z06 names -------------------------------------------------------------------------------------
def z3_names(env, steps, kinds):
    """a variable created without a name is none of the earlier ones; taking a live name is refused"""
    import warnings
    from ..env import _uniq
    F = env.fams['z3']
    mks = {'bit': F.Bit, 'bv': F.BV[4], 'u': F.U[4], 's': F.S[3]}
    P = f'p{next(_uniq)}q'
    live, kept, auto = {}, [], set()
    name = lambda x: x.value.decl().name()
    for t in range(steps):
        mk = mks[env.pick(f't{t}', kinds) if len(kinds) > 1 else kinds[0]]
        op = env.pick(f'op{t}', ['auto', 'explicit', 'reserved', 'drop'])
        if op == 'auto':
            x = mk()
            n = name(x)
            env.check('automatic name is not in use', n not in live and n not in auto)
            env.check('automatic variable is not in an earlier term', all(n not in k for _, k in kept))
            auto.add(n)
            live[n] = x
        elif op in ('explicit', 'reserved'):
            # a name of the automatic form may be given explicitly as well
            n = f'{P}_{env.pick(f"n{t}", [0, 1])}' if op == 'explicit' else f'V_{upcoming(env)}'
            if n in live:
                env.raises('name in use', ValueError, lambda: mk(name=n))
            else:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    x = mk(name=n)
                env.check('explicit name is taken as given', name(x) == n)
                env.check('a variable of the type', type(x) is mk)
                live[n] = x
        elif live:
            n = env.pick(f'k{t}', list(live))
            x = live.pop(n)
            # a term of the variable outlives it
            kept.append((~x, {n} - ({n} if n.startswith('V_') and n not in auto else set())))
        x = None
    for n, v in live.items():
        env.check('shown under its name', n in repr(v))


def upcoming(env):
    """the number the next automatic name would have"""
    from hwtypes import z3_bit_vector as m
    import copy
    c = getattr(m, '_var_counter', None)
    return next(copy.copy(c)) if c is not None else 0


def z3_bad_names(env):
    from ..env import _uniq
    F = env.fams['z3']
    n = f'bad{next(_uniq)}'
    for mk in (F.Bit, F.BV[4], F.S[2]):
        env.raises('name not a string', TypeError, lambda: mk(name=3))
        env.raises('name and value', TypeError, lambda: mk(1, name=n))
        a = mk(name=n)
        for other in (F.Bit, F.BV[4]):
            env.raises('name in use', ValueError, lambda: other(name=n))
        env.check('still the same variable', a.value.decl().name() == n)
        del a
        b = mk(name=n)
        env.check('a name is free again when its variable is gone', b.value.decl().name() == n)
        del b


@prop('Z06', bounds='every history of 4 (quick) / 5 creations (automatic, explicitly named, named like the next automatic one) and '
      'deletions of bits and vectors; of 3 / 4 over mixtures of them', outside='terms of a variable that was explicitly given a name of '
      'the automatic form V_<n> and is gone (the library warns about such names)',
      assumptions=['objects are collected as soon as the last reference goes (CPython)'])
def z06(tier):
    q = tier == 'quick'
    for t in ('bit', 'bv', 's'):
        yield Case(f'names[{t}]', z3_names, dict(steps=4 if q else 5, kinds=[t]))
    yield Case('names[mixed]', z3_names, dict(steps=3 if q else 4, kinds=['bit', 'bv', 's']))
    yield Case('bad names', z3_bad_names, dict())
