"""Algebraic data types, rebinding, modifiers, visitors, sized types.

Field types and shapes are chosen by solver variables (env.pick), field values
are symbolic.  A description (D) records the shape of a type and a record (S)
the values put into an instance, both built by the harness on the side; the
library's accessors are compared against them.
"""
from ..registry import Case, prop

NOTE_T = 'types, shapes and names are chosen by solver variables and split into separate paths; field values stay symbolic'


class D:
    def __init__(self, kind, T, names=None, subs=None, mods=()):
        self.kind, self.T, self.names, self.subs, self.mods = kind, T, names, subs, tuple(mods)


class S:
    def __init__(self, d, v, T=None):
        self.d, self.v, self.T = d, v, T       # v: leaf value | enum index | list of S | (index, S)


LEAF = ('bit', 'b3', 'u3', 's2')
POOL = LEAF + ('b1', 'e', 'f')
DEEP = ('tup', 'ap', 'pr', 'su', 'tu', 'nest')
_memo = {}


def classes():
    import hwtypes as h
    from hwtypes.adt import AnonymousProduct
    return h, AnonymousProduct


def enum(name, members):
    from hwtypes.adt import Enum
    k = ('enum', name)
    if k not in _memo:
        _memo[k] = D('enum', type(Enum)(name, (Enum,), dict(members)), names=[m for m, _ in members])
    return _memo[k]


def mk(env, fam, name):
    """description of a member type from the pool"""
    k = (fam, name)
    if k not in _memo:
        _memo[k] = _mk(env, fam, name)
    return _memo[k]


def _mk(env, fam, name):
    F = env.fams[fam]
    leafs = {'bit': F.Bit, 'b1': F.BV[1], 'b3': F.BV[3], 'u3': F.U[3], 's3': F.S[3], 's2': F.S[2], 'b7': F.BV[7], 'int': int}
    if name in leafs:
        return D('leaf', leafs[name])
    if name == 'e':
        return enum('En', [('a', 0), ('b', 1), ('c', 5)])
    if name == 'f':
        return enum('Fn', [('x', 1), ('y', 0)])
    g = lambda n: mk(env, fam, n)
    if name == 'tup':
        return build('tup', None, [g('bit'), g('u3')])
    if name == 'bx':
        return build('tup', None, [g('b3')])
    if name == 'ap':
        return build('ap', ['p', 'q'], [g('s2'), g('e')])
    if name == 'pr':
        return build('pr', ['k', 'l'], [g('b3'), g('bit')])
    if name == 'su':
        return build('su', None, [g('bit'), g('b3')])
    if name == 'tu':
        return build('tu', ['r', 's'], [g('b3'), g('b3')])
    if name == 'nest':
        return build('pr', ['m', 'n'], [g('su'), g('tup')])
    if name == 'ets':
        return build('tup', None, [g('e'), g('f')])
    if name == 'esu':
        return build('su', None, [g('e'), g('f')])
    if name == 'etu':
        return build('tu', ['r', 's'], [g('f'), g('f')])
    raise AssertionError(name)


def build(kind, names, subs, cname='Rec', how='class'):
    from hwtypes.adt import Tuple, Product, Sum, TaggedUnion, AnonymousProduct
    ts = [d.T for d in subs]
    if kind == 'tup':
        T = Tuple[ts] if how == 'list' else Tuple[tuple(ts)]
    elif kind == 'ap':
        T = AnonymousProduct[dict(zip(names, ts))]
    elif kind == 'su':
        T = Sum[tuple(ts)]
    else:
        base = Product if kind == 'pr' else TaggedUnion
        if how == 'fields':
            T = base.from_fields(cname, dict(zip(names, ts)))
        else:
            T = type(base)(cname, (base,), dict(zip(names, ts)))
    return D(kind, T, names, subs)


def value(env, name, d, sub=False):
    """an arbitrary value of a described type, with its record"""
    if d.kind == 'leaf':
        T = d.T
        import hwtypes as h
        if T is int:
            v = env.int(name, -300, 300)
            return v, S(d, v, int)
        if issubclass(T, h.AbstractBit):
            v = env.bit(T, name)
        else:
            v = env.bv(T, name)
        return v, S(d, env.val(v), T)
    if d.kind == 'enum':
        i = env.pick(name, range(len(d.names)))
        return getattr(d.T, d.names[i]), S(d, i)
    if d.kind in ('tup', 'ap', 'pr'):
        vs = [value(env, f'{name}.{i}', s) for i, s in enumerate(d.subs)]
        return d.T(*[v for v, _ in vs]), S(d, [s for _, s in vs])
    i = env.pick(name + '?', range(len(d.subs)))
    v, s = value(env, f'{name}.{i}', d.subs[i])
    if d.kind == 'su':
        return d.T(v), S(d, (i, s))
    return d.T(**{d.names[i]: v}), S(d, (i, s))


def also(env, label, x, y, s):
    """x is the object y already compared, or agrees itself"""
    if x is not y:
        agrees(env, label, x, s)


def shown(env, label, x):
    """the deprecated property still gives the stored value"""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        env.check(label + ': stored value by its old name', x.value is x._value_)


def agrees(env, label, x, s):
    """every way of looking at x shows the recorded values"""
    d = s.d
    if d.kind == 'leaf':
        env.check(label + ': leaf type', (type(x) is d.T) if d.T is not int else not isinstance(x, env.fams['c'].Bit),
                  type(x))
        env.eq(label + ': leaf value', x, s.v)
        return
    if d.kind == 'enum':
        env.check(label + ': enum member', x is getattr(d.T, d.names[s.v]), x)
        shown(env, label, x)
        env.check(label + ': name', x.name == d.names[s.v] and d.names[s.v] in repr(x))
        return
    env.check(label + ': type', type(x) is d.T, f'{type(x)} is not {d.T}')
    shown(env, label, x)
    if d.kind in ('tup', 'ap', 'pr'):
        n = len(d.subs)
        for i, t in enumerate(s.v):
            it = x[i]
            agrees(env, f'{label}: item', it, t)
            also(env, f'{label}: item from the end', x[i - n], it, t)
            also(env, f'{label}: stored item', x._value_[i], it, t)
            if d.kind != 'tup':
                also(env, f'{label}: attribute', getattr(x, d.names[i]), it, t)
        env.raises(label + ': item beyond the last', IndexError, lambda: x[n])
        env.check(label + ': item count', len(x._value_) == n)
        keys = list(range(n)) if d.kind == 'tup' else list(d.names)
        vd = x.value_dict
        env.check(label + ': value_dict keys', list(vd.keys()) == keys, list(vd.keys()))
        for i, (k, t) in enumerate(zip(keys, s.v)):
            also(env, f'{label}: value_dict', vd[k], x[i], t)
        return
    act, t = s.v
    agrees(env, label + ': stored value', x._value_, t)
    vd = x.value_dict
    keys = [q.T for q in d.subs] if d.kind == 'su' else d.names
    env.check(label + ': value_dict keys', set(vd.keys()) == set(keys) and len(vd) == len(keys), list(vd))
    for i, k in enumerate(keys):
        m = x[k] if d.kind == 'su' else getattr(x, k)
        env.check(label + ': match of the active member only', m.match is (i == act), (k, m.match))
        if i == act:
            also(env, label + ': matched value', m.value, x._value_, t)
            also(env, label + ': value_dict', vd[k], x._value_, t)
        else:
            env.raises(label + ': value of a member that does not match', TypeError, lambda: m.value)
            env.check(label + ': value_dict of other members', vd[k] is None)


def spec_eq(env, s, t):
    if s.d.kind == 'leaf':
        a, b = s.v, t.v
        if type(a) in (bool,) or type(b) in (bool,) or type(a).__name__ == 'SymBool' or type(b).__name__ == 'SymBool':
            return env.iff(a, b)
        return a == b
    if s.d.kind == 'enum':
        return s.v == t.v
    if s.d.kind in ('tup', 'ap', 'pr'):
        return env.both(*[spec_eq(env, a, b) for a, b in zip(s.v, t.v)])
    return s.v[0] == t.v[0] and spec_eq(env, s.v[1], t.v[1])


def foreign(env, fam, d):
    """a value that is no instance of the type"""
    F = env.fams[fam]
    cand = [F.BV[5](3), F.Bit(True), 'text', None]
    return next(c for c in cand if not isinstance(c, d.T))


WIDE_NAMES = ('h', 'b', 'zz', 'a', 'm1', 'aa', 'c', 'k9', 'B', 'y', 'x0', 'bb')
WIDE_SUBS = ('bit', 'b3', 'u3', 's2', 'b3', 'e', 'bit', 'tup', 's2', 'u3', 'pr', 'b7')
WIDE_SUM = ('s2', 'bit', 'u3', 'e', 'b7', 's3', 'tup', 'b1', 'pr')


def many(env, fam, kind, n=9, cname='Rec', how='class', inner='tup'):
    """a type with many members, not in any order"""
    subs = [mk(env, fam, inner if p == 'tup' else p) for p in (WIDE_SUM if kind == 'su' else WIDE_SUBS)[:n]]
    return build(kind, WIDE_NAMES[:len(subs)] if kind in ('ap', 'pr', 'tu') else None, subs, cname, how)


def inherited(d):
    """the type of a user class below a type; it has the same members"""
    return D(d.kind, type(d.T)('Sub', (d.T,), {'extra': lambda self: 5}), d.names, d.subs)


def shape_of(env, fam, kind, n, pool, cname='Rec', how='class', distinct=False):
    if n > 4:
        return many(env, fam, kind, n, cname, how)
    subs, used = [], set()
    for i in range(n):
        p = env.pick(f'member{i}', pool)
        if distinct:
            env.assume(p not in used)
            used.add(p)
        subs.append(mk(env, fam, p))
    names = ['aa', 'b', 'z0', 'd'][:n] if kind in ('ap', 'pr') else ['t1', 'a', 'u', 'w'][:n] if kind == 'tu' else None
    return build(kind, names, subs, cname, how)


# ---- A01 ----------------------------------------------------------------------
def record_type(env, fam, kind, n, pool):
    """the type shows its fields, equal definitions give one type, wrong arguments are refused"""
    h, AP = classes()
    d = shape_of(env, fam, kind, n, pool)
    T, ts = d.T, tuple(q.T for q in d.subs)
    env.check('fields', T.fields == ts)
    env.check('bound', T.is_bound and not h.Product.is_bound and not h.Tuple.is_bound)
    keys = list(range(n)) if kind == 'tup' else d.names
    env.check('field_dict', list(T.field_dict.items()) == list(zip(keys, ts)), dict(T.field_dict))
    for i, t in enumerate(ts):
        env.check('type indexing', T[i] is t)
        if kind != 'tup':
            env.check('type attribute', getattr(T, d.names[i]) is t)
        if kind == 'pr':
            env.check('type indexing by name', T[d.names[i]] is t)
    env.raises('index beyond the fields', IndexError, lambda: T[n])
    again = build(kind, d.names, d.subs, how={'tup': 'list', 'pr': 'fields'}.get(kind, 'class'))
    env.check('equal definitions give one type', again.T is T)
    if n > 1:
        rev = build(kind, None if d.names is None else d.names[::-1], d.subs[::-1])
        env.check('order of fields matters', (rev.T is T) == (kind == 'tup' and ts == ts[::-1]))
    env.check('a tuple type', issubclass(T, h.Tuple) and issubclass(T, h.Tuple[ts]))
    if kind in ('ap', 'pr'):
        env.check('an anonymous product type', issubclass(T, AP) and issubclass(T, AP[dict(zip(d.names, ts))]))
        other = AP[dict(zip([k + '_' for k in d.names], ts))]
        env.check('other names give other types', other is not T and not issubclass(T, other))
    if kind == 'pr':
        env.check('a product type', issubclass(T, h.Product))
        oth = build('pr', d.names, d.subs, cname='Other')
        env.check('other class names give other types', oth.T is not T)
        env.raises('a bound product takes no fields', TypeError, lambda: T.from_fields('X', {'a': d.subs[0].T}))
    vals = [value(env, f'v{i}', q) for i, q in enumerate(d.subs)]
    vs = [v for v, _ in vals]
    bad = (ValueError,) if kind == 'tup' else (TypeError,)
    env.raises('too few values', bad, lambda: T(*vs[:-1]))
    env.raises('too many values', bad, lambda: T(*vs, vs[0]))
    i = env.pick('badpos', range(n))
    wrong = vs[:i] + [foreign(env, fam, d.subs[i])] + vs[i + 1:]
    env.raises('value of another type', TypeError, lambda: T(*wrong))
    if kind != 'tup':
        env.raises('unknown field', TypeError, lambda: T(*vs[:-1], nosuch=vs[-1]))
        env.raises('field given twice', TypeError, lambda: T(*vs, **{d.names[0]: vs[0]}))
        env.raises('wrong type by keyword', TypeError, lambda: T(**dict(zip(d.names, wrong))))


def record_value(env, fam, kind, n, pool):
    """values read back from every accessor; assigning one item changes that item only"""
    h, AP = classes()
    d = shape_of(env, fam, kind, n, pool)
    vals = [value(env, f'v{i}', q) for i, q in enumerate(d.subs)]
    vs, ss = [v for v, _ in vals], [s for _, s in vals]
    how = env.pick('how', ['pos', 'kw', 'mix', 'sub'] if kind != 'tup' else ['pos', 'infer', 'sub'])
    T = d.T
    if how == 'pos':
        x = T(*vs)
    elif how == 'kw':
        x = T(**dict(zip(d.names[::-1], vs[::-1])))
    elif how == 'mix':
        k = n // 2
        x = T(*vs[:k], **dict(zip(d.names[k:], vs[k:])))
    elif how == 'infer':
        x = h.Tuple(*vs)
    else:
        d = inherited(d)
        U = d.T
        x = U(*vs)
        env.check('instance of the parent', isinstance(x, T) and x.extra() == 5 and U.fields == T.fields)
        T = U
    rec = S(d, list(ss))
    agrees(env, 'value', x, rec)
    env.check('instance', isinstance(x, h.Tuple) and isinstance(x, h.Tuple[tuple(q.T for q in d.subs)]))
    i = env.pick('item', range(n))
    nv, ns = value(env, 'new', d.subs[i])
    way = env.pick('way', ['index', 'end'] if kind == 'tup' else ['index', 'attr'])
    y = T(*vs)
    if way == 'index':
        x[i] = nv
    elif way == 'end':
        x[i - n] = nv
    else:
        setattr(x, d.names[i], nv)
    rec.v[i] = ns
    agrees(env, 'after assignment', x, rec)
    agrees(env, 'another instance after assignment', y, S(d, ss))
    w = foreign(env, fam, d.subs[i])
    env.raises('assignment of another type', TypeError, lambda: x.__setitem__(i, w))
    if kind != 'tup':
        env.raises('attribute of another type', TypeError, lambda: setattr(x, d.names[i], w))
    agrees(env, 'after refused assignment', x, rec)


def record_slices(env, fam, kind, n, pool):
    """a slice reads as the tuple of its items; one value assigned to a slice is refused with nothing changed"""
    d = shape_of(env, fam, kind, n, pool)
    vals = [value(env, f'v{i}', q) for i, q in enumerate(d.subs)]
    vs, ss = [v for v, _ in vals], [s for _, s in vals]
    x = d.T(*vs)
    ends = [None] + list(range(-n - 1, n + 2))
    at = slice(env.pick('start', ends), env.pick('stop', ends), env.pick('step', [None, -1, 2]))
    got, want = x[at], vs[at]
    env.check('slice', len(got) == len(want) and all(a is b for a, b in zip(got, want)))
    env.check('slice of the type', tuple(d.T[at]) == tuple(q.T for q in d.subs[at]))
    i = env.pick('item', range(n))
    w, _ = value(env, 'new', d.subs[i])
    env.raises('one value for a slice', (TypeError, ValueError), lambda: x.__setitem__(at, w))
    agrees(env, 'after refused assignment', x, S(d, ss))
    env.check('as many items as fields', len(x[:]) == n)


def record_copies(env, fam, kind, n, pool):
    """a copy is an equal value of the same type, of which assignments change nothing of the original"""
    import copy
    d = shape_of(env, fam, kind, n, pool)
    vals = [value(env, f'v{i}', q) for i, q in enumerate(d.subs)]
    vs, ss = [v for v, _ in vals], [s for _, s in vals]
    x = d.T(*vs)
    i = env.pick('item', range(n))
    w, ws = value(env, 'new', d.subs[i])
    y = copy.copy(x)
    env.check('copy is another one of the type', y is not x and type(y) is d.T)
    agrees(env, 'copy', y, S(d, ss))
    y[i] = w
    agrees(env, 'assigned copy', y, S(d, ss[:i] + [ws] + ss[i + 1:]))
    agrees(env, 'original of the copy', x, S(d, ss))
    y = copy.copy(x)
    x[i] = w
    agrees(env, 'copy of an assigned original', y, S(d, ss))


def subtyped(env, kind):
    """a field accepts values of subtypes and keeps them as they are"""
    h, AP = classes()
    F = env.fams['c']
    n = env.pick('w', range(1, 6))
    sup = env.pick('sup', [F.BV, h.AbstractBitVector])
    sub = env.pick('sub', [F.BV, F.U, F.S])
    d = build(kind, ['p', 'q'], [D('leaf', sup[n]), D('leaf', F.Bit)])
    a, b = env.bv(sub[n], 'a'), env.bit(F.Bit, 'b')
    v = env.val(a)
    x = d.T(a, b)
    env.same('subtype value', x[0], sub[n], v)
    c = env.bv(sub[n], 'c')
    x[0] = c
    env.same('subtype value assigned', x[0], sub[n], env.val(c))
    env.eq('neighbour', x[1], b)
    env.raises('other width', TypeError, lambda: d.T(env.fams['c'].BV[n + 1](0), b))
    env.raises('sibling type', TypeError,
               lambda: build(kind, ['p', 'q'], [D('leaf', F.U[n]), D('leaf', F.Bit)]).T(F.S[n](0), b))


def unbound(env):
    h, AP = classes()
    F = env.fams['c']
    x = env.bv(F.BV[3], 'x')
    env.raises('unbound product', TypeError, lambda: h.Product(x))
    env.raises('unbound sum', TypeError, lambda: h.Sum(x))
    env.raises('binding a bound sum', KeyError, lambda: h.Sum[F.BV[3], F.Bit][F.BV[4]])
    env.raises('binding a product with []', TypeError, lambda: h.Product[F.Bit])
    env.raises('binding a tagged union with []', TypeError, lambda: h.TaggedUnion[F.Bit])
    env.raises('anonymous product without names', TypeError, lambda: AP[F.Bit, F.Bit])
    from hwtypes.adt_meta import RESERVED_NAMES, RESERVED_SUNDERS, ReservedNameError
    name = env.pick('name', sorted(RESERVED_NAMES | RESERVED_SUNDERS))
    kind = env.pick('kind', [h.Product, h.TaggedUnion, h.Enum])
    way = env.pick('way', ['class', 'fields'])
    val = 1 if kind is h.Enum else F.Bit
    if way == 'class':
        env.raises('reserved name', ReservedNameError, lambda: type(kind)('X', (kind,), {name: val}))
        env.raises('reserved name in an anonymous product', ReservedNameError, lambda: AP[{'a': F.BV[2], name: F.Bit}])
    else:
        env.raises('reserved name', ReservedNameError, lambda: kind.from_fields('X', {name: val}))


BODY_PLAIN = ('_m_', '__m__', '_mm_', '__mm__')
BODY_FIELDS = ('m_', '_m', '__m', 'm__', '_', '__', '____', '__m_', '_m__', 'M', 'value', 'name', 'rebind', 'self', 'cls', 'T', 'kwargs',
               'super', 'idx', 'Product', 'TaggedUnion', 'AnonymousProduct', '_t', '_cls', 'args', 'Match', 'match', 'safe')


def body(env, kind):
    """the members of a class body are those which look like fields; the rest stays as written"""
    h, AP = classes()
    F = env.fams['c']
    K = dict(pr=h.Product, tu=h.TaggedUnion, en=h.Enum)[kind]
    name = env.pick('name', BODY_PLAIN + BODY_FIELDS)
    what = env.pick('what', ['type', 'other', 'function'])
    field = name in BODY_FIELDS and what == 'type'
    first = env.pick('first', [0, 1])
    cname = 'Body' + name + what  # plain values in double underscores are no part of what makes a type another one
    val = (3 if kind == 'en' else F.BV[3]) if what == 'type' else \
        ('text' if kind == 'en' else 7) if what == 'other' else sizes
    rest = dict(a=1, b=2) if kind == 'en' else dict(a=F.Bit, b=F.U[3])
    ns = {**{name: val}, **rest} if first else {**rest, **{name: val}}
    S = type(K)(cname, (K,), dict(rest)) if what == 'function' else None
    T = type(K)(cname, (K,), dict(ns))
    names = [k for k in ns if k != name or field]
    env.check('fields', set(T.field_dict) == set(names) and len(T.fields) == len(names), list(T.field_dict))
    if kind == 'pr':
        env.check('order', list(T.field_dict) == names, list(T.field_dict))
    if kind == 'en':
        env.check('members', all(isinstance(T.field_dict[k], T) and T.field_dict[k]._value_ == ns[k] for k in names))
        env.check('enumerate', {x._name_ for x in T.enumerate()} == set(names))
        x = T.a
    else:
        env.check('types', all(T.field_dict[k] is ns[k] for k in names), list(T.field_dict.items()))
        sym = {k: env.bit(F.Bit, 'v' + k) if ns[k] is F.Bit else env.bv(ns[k], 'v' + k) for k in names}
        x = T(*(sym[k] for k in names)) if kind == 'pr' else T(**{names[-1]: sym[names[-1]]})
        for k in names if kind == 'pr' else names[-1:]:
            env.eq('value of ' + k, getattr(x, k) if kind == 'pr' else getattr(x, k).value, env.val(sym[k]))
        if kind == 'pr':
            y = T(**{k: sym[k] for k in reversed(names)})
            z = AP[{k: ns[k] for k in names}](**sym)
            for i, k in enumerate(names):
                env.eq('value given by keyword', y[i], env.val(sym[k]))
                env.eq('value of the anonymous product', z[i], env.val(sym[k]))
                env.eq('attribute of the anonymous product', getattr(z, k), env.val(sym[k]))
    if not field:
        env.check('attribute', T.__dict__[name] is val, name)
        env.check('attribute of an instance', x.__class__.__dict__[name] is val)
    if S is None:
        S = type(K)(cname, (K,), dict(rest))
    if field or what == 'function' or name[:2] != '__':
        env.check('another body, another type', S is not T)
    if what != 'function':
        U = type(K)(cname, (K,), dict(ns))
        env.check('same body, same type', U is T)
        if not field and what == 'other' and name[:2] != '__':
            V = type(K)(cname, (K,), {**ns, name: 'else' if kind == 'en' else 8})
            env.check('other attribute, other type', V is not T and V.__dict__[name] != val)


def sizes(tier, q, f):
    return q if tier == 'quick' else f


FAMS = ('c', 'smt', 'z3')
OUT_T = 'user classes with their own constructors; field types other than the listed bits, vectors, enums and nested types'


@prop('A01', bounds='1..2 and 9 fields (quick) / 1..3, 5, 9, 12 over 7 leaf and 6 nested field types, three vector families; values symbolic; 32 names in class bodies, slices and copies of 1..2 (3) fields',
      outside=OUT_T, assumptions=[NOTE_T])
def a01(tier):
    for kind in ('tup', 'ap', 'pr'):
        for n in sizes(tier, (1, 2), (1, 2, 3)):
            yield Case(f'type[{kind},{n}]', record_type, dict(fam='c', kind=kind, n=n, pool=list(
                POOL if n < 3 else ('bit', 'b3', 'u3', 'e'))), core=n < 3)
            for fam in FAMS:
                pool = POOL + DEEP if fam == 'c' and n == 1 else LEAF + ('e', 'su', 'nest') if n < 3 and fam == 'c' else \
                    LEAF if n < 3 else ('bit', 'b3', 'e')
                if tier == 'thorough' and n == 2:
                    pool = POOL + DEEP if fam == 'c' else LEAF + ('e', 'tu', 'tup')
                yield Case(f'value[{kind},{n},{fam}]', record_value, dict(fam=fam, kind=kind, n=n, pool=list(pool)),
                           core=n < 3)
        yield Case(f'subtypes[{kind}]', subtyped, dict(kind=kind))
        for fam, n, pool in (('c', 2, ('bit', 'b3')), ('c', 1, ('bit', 'b1', 'e')), *sizes(tier, (), (('smt', 2, ('bit', 'b3')), ('z3', 2, ('bit', 'b3')), ('c', 3, ('bit', 'b3'))))):
            yield Case(f'copies[{kind},{n},{fam}]', record_copies, dict(fam=fam, kind=kind, n=n, pool=list(pool)), core=n < 3)
            yield Case(f'slices[{kind},{n},{fam}]', record_slices, dict(fam=fam, kind=kind, n=n, pool=list(pool)), core=n < 3)
        for n in sizes(tier, (9,), (5, 9, 12)):
            yield Case(f'type[{kind},{n}]', record_type, dict(fam='c', kind=kind, n=n, pool=[]), core=False)
            for fam in FAMS:
                yield Case(f'value[{kind},{n},{fam}]', record_value, dict(fam=fam, kind=kind, n=n, pool=[]), core=False)
    yield Case('unbound and reserved', unbound, {})
    for kind in ('pr', 'tu', 'en'):
        yield Case(f'class body[{kind}]', body, dict(kind=kind))


# ---- A02 ----------------------------------------------------------------------
def below(env, d):
    """the type itself or one below it"""
    if env.pick('below', [0, 1]):
        q = inherited(d)
        env.check('inherits the members', q.T.fields == d.T.fields and dict(q.T.field_dict) == dict(d.T.field_dict))
        d = q
    return d, d.T


def sum_value(env, fam, n, pool):
    h, AP = classes()
    d = shape_of(env, fam, 'su', n, pool, distinct=True)
    T = d.T
    ts = [q.T for q in d.subs]
    env.check('fields', set(T.fields) == set(ts) and len(T.fields) == n)
    env.check('field_dict', dict(T.field_dict) == {t: t for t in ts})
    env.check('order of members does not matter', h.Sum[tuple(ts[::-1])] is T)
    for t in ts:
        env.check('membership', t in T and T[t] is t)
    out = env.fams[fam].BV[9]
    env.check('no member', out not in T)
    env.raises('type index of no member', KeyError, lambda: T[out])
    d, T = below(env, d)
    i = env.pick('active', range(n))
    v, s = value(env, 'v', d.subs[i])
    x = T(v)
    agrees(env, 'sum', x, S(d, (i, s)))
    env.raises('value of no member', TypeError, lambda: T(out(1)))
    env.raises('match of no member', TypeError, lambda: x[out])
    env.raises('assignment to no member', TypeError, lambda: x.__setitem__(out, out(1)))
    j = env.pick('next', range(n))
    w, t = value(env, 'w', d.subs[j])
    for k in range(n):
        if k != j:
            env.raises('assignment of a value under another member', TypeError, lambda: x.__setitem__(ts[k], w))
    agrees(env, 'sum after refused assignments', x, S(d, (i, s)))
    x[ts[j]] = w
    agrees(env, 'sum after assignment', x, S(d, (j, t)))


def tagged_value(env, fam, n, pool):
    h, AP = classes()
    d = shape_of(env, fam, 'tu', n, pool)
    T = d.T
    ts = [q.T for q in d.subs]
    env.check('field_dict', dict(T.field_dict) == dict(zip(d.names, ts)))
    env.check('equal definitions give one type', build('tu', d.names[::-1], d.subs[::-1], how='fields').T is T)
    env.check('a sum type', issubclass(T, h.Sum[tuple(ts)]) and issubclass(T, h.TaggedUnion))
    for k, t in zip(d.names, ts):
        env.check('type attribute', getattr(T, k) is t)
    d, T = below(env, d)
    i = env.pick('active', range(n))
    v, s = value(env, 'v', d.subs[i])
    x = T(**{d.names[i]: v})
    agrees(env, 'tagged union', x, S(d, (i, s)))
    env.raises('no value', ValueError, lambda: T())
    if n > 1:
        env.raises('two values', ValueError, lambda: T(**{d.names[0]: v, d.names[1]: v}))
    env.raises('unknown tag', ValueError, lambda: T(nosuch=v))
    env.raises('wrong type', TypeError, lambda: T(**{d.names[i]: foreign(env, fam, d.subs[i])}))
    env.raises('item assignment', TypeError, lambda: x.__setitem__(ts[i], v))
    j = env.pick('next', range(n))
    w, t = value(env, 'w', d.subs[j])
    env.raises('attribute of another type', TypeError, lambda: setattr(x, d.names[j], foreign(env, fam, d.subs[j])))
    agrees(env, 'tagged union after refused assignment', x, S(d, (i, s)))
    setattr(x, d.names[j], w)
    agrees(env, 'tagged union after assignment', x, S(d, (j, t)))


@prop('A02', bounds='1..2 members (quick) / 1..3 over the leaf and nested types; every active member, then every assignment',
      outside='sums whose members are related by subclassing', assumptions=[NOTE_T])
def a02(tier):
    indep = ('bit', 'u3', 's3', 's2', 'b1', 'b7', 'e', 'tup', 'pr', 'tu')
    for fam in FAMS:
        for n in sizes(tier, (1, 2), (1, 2, 3)):
            p = indep if fam == 'c' and n < 3 else ('bit', 'u3', 'b7', 'e') if n == 3 else ('bit', 'u3', 's3', 'b7', 'tup')
            yield Case(f'sum[{n},{fam}]', sum_value, dict(fam=fam, n=n, pool=list(p)), core=n < 3)
            p = POOL + DEEP if n == 1 else LEAF + ('e', 'su') if n == 2 and fam == 'c' else ('bit', 'b3')
            yield Case(f'tagged[{n},{fam}]', tagged_value, dict(fam=fam, n=n, pool=list(p)), core=n < 3)
        for n in sizes(tier, (9,), (5, 9)):
            yield Case(f'sum[{n},{fam}]', sum_value, dict(fam=fam, n=n, pool=[]), core=False)
            yield Case(f'tagged[{n},{fam}]', tagged_value, dict(fam=fam, n=n, pool=[]), core=False)


# ---- A03 ----------------------------------------------------------------------
def round_trip(env, fam, kind, n, pool):
    h, AP = classes()
    d = shape_of(env, fam, kind, n, pool, distinct=(kind == 'su'))
    T = d.T
    if n < 3:
        d, T = below(env, d)
    x, s = value(env, 'v', d)
    agrees(env, 'original', x, s)
    vd = x.value_dict
    y = T.from_values(vd)
    agrees(env, 'round trip', y, s)
    env.check('a new object', y is not x)
    def overwrite():
        vd[next(iter(vd))] = None
    env.raises('value_dict is read only', TypeError, overwrite)
    rd = dict(reversed(list(vd.items())))
    agrees(env, 'order of the keys does not matter', T.from_values(rd), s)
    keys = list(vd)
    k = env.pick('key', keys)
    i = keys.index(k)
    less = {q: v for q, v in vd.items() if q != k}
    env.raises('missing key', ValueError, lambda: T.from_values(less))
    env.raises('extra key', ValueError, lambda: T.from_values({**vd, 'nosuch': vd[k]}))
    env.raises('other key', ValueError, lambda: T.from_values({**less, 'nosuch': vd[k]}))
    q = next(q for q, nm in zip(d.subs, d.names or range(n)) if nm == k) if kind != 'su' else \
        next(q for q in d.subs if q.T is k)
    bad = foreign(env, fam, q)
    env.raises('value of another type', TypeError, lambda: T.from_values({**vd, k: bad}))
    if kind in ('su', 'tu'):
        env.raises('no value at all', ValueError, lambda: T.from_values({q: None for q in keys}))
        act = s.v[0]
        other = [j for j in range(n) if j != act]
        if other:
            j = other[0]
            kj = d.subs[j].T if kind == 'su' else d.names[j]
            w, _ = value(env, 'w', d.subs[j])
            env.raises('two values', ValueError, lambda: T.from_values({**vd, kj: w}))
    else:
        env.raises('no value for a field', TypeError, lambda: T.from_values({**vd, k: None}))


def related_sum(env, w):
    """members related by subclassing (listed finding)"""
    h, AP = classes()
    F = env.fams['c']
    sub = env.pick('sub', [F.U, F.S])
    T = h.Sum[F.BV[w], sub[w]]
    which = env.pick('active', [F.BV, sub])
    v = env.bv(which[w], 'v')
    x = T(v)
    try:
        y = T.from_values(x.value_dict)
        ok = env.both(type(y._value_) is which[w], env.val(y._value_) == env.val(v))
        dev = False
    except ValueError:
        ok, dev = False, which is sub
    env.known_deviation('round trip of a sum with related members', ok, dev)


@prop('A03', bounds='1..2 fields (quick) / 1..3, all five kinds of type, leaf and nested fields', outside=OUT_T,
      assumptions=[NOTE_T])
def a03(tier):
    for kind in ('tup', 'ap', 'pr', 'su', 'tu'):
        for fam in FAMS:
            for n in sizes(tier, (1, 2), (1, 2, 3)):
                if kind == 'su':
                    p = ('bit', 'u3', 's3', 's2', 'e', 'tup') if n < 3 and fam == 'c' else ('bit', 'u3', 'b7')
                else:
                    p = POOL + DEEP if n == 1 else LEAF + ('e', 'nest') if n == 2 and fam == 'c' else ('bit', 'b3')
                yield Case(f'round trip[{kind},{n},{fam}]', round_trip, dict(fam=fam, kind=kind, n=n, pool=list(p)),
                           core=n < 3)
            for n in sizes(tier, (9,), (5, 9)):
                yield Case(f'round trip[{kind},{n},{fam}]', round_trip, dict(fam=fam, kind=kind, n=n, pool=[]), core=False)
    yield Case('related members', related_sum, dict(w=3))


# ---- A04 ----------------------------------------------------------------------
def count(d):
    if d.kind == 'leaf':
        return 1
    if d.kind == 'enum':
        return len(d.names)
    cs = [count(q) for q in d.subs]
    if d.kind in ('su', 'tu'):
        return sum(cs)
    r = 1
    for c in cs:
        r *= c
    return r


def is_this(x, s):
    """x is the recorded value (enum leaves only)"""
    d = s.d
    if d.kind == 'enum':
        return x is getattr(d.T, d.names[s.v])
    if type(x) is not d.T:
        return False
    if d.kind in ('tup', 'ap', 'pr'):
        return all(is_this(x._value_[i], t) for i, t in enumerate(s.v))
    i, t = s.v
    if d.kind == 'tu':
        return getattr(x, d.names[i]).match and is_this(getattr(x, d.names[i]).value, t)
    return is_this(x._value_, t)


def enumeration(env, kind, n, pool, sizes):
    subs = []
    used = set()
    for i in range(n):
        p = env.pick(f'member{i}', pool)
        if kind == 'su':
            env.assume(p not in used)
        used.add(p)
        if p == 'en':
            k = env.pick(f'size{i}', sizes)
            subs.append(enum(f'E{i}_{k}', [(f'm{j}', env_val) for j, env_val in enumerate(range(3, 3 + k))]))
        else:
            subs.append(mk(env, 'c', p))
    d = build(kind, ['aa', 'b', 'z0'][:n] if kind in ('ap', 'pr', 'tu') else None, subs)
    d, _ = below(env, d)
    all_ = list(d.T.enumerate())
    v, s = value(env, 'v', d)
    env.check('every value is enumerated exactly once', sum(is_this(x, s) for x in all_) == 1)
    env.check('nothing else is enumerated', len(all_) == count(d), (len(all_), count(d)))
    env.check('enumerated values are of the type', all(type(x) is d.T for x in all_))
    again = list(d.T.enumerate())
    env.check('repeatable', len(again) == len(all_) and all(a == b for a, b in zip(all_, again)))


def skeleton(env, x, d):
    """which value of the type it is, vectors and bits being zero"""
    if d.kind == 'leaf':
        env.check('leaf type', type(x) is d.T, (type(x), d.T))
        env.eq('leaf', x, 0 if hasattr(d.T, 'size') else False)
        return 0
    if d.kind == 'enum':
        return next((n for n in d.names if x is getattr(d.T, n)), None)
    env.check('type', type(x) is d.T)
    if d.kind in ('tup', 'ap', 'pr'):
        return tuple(skeleton(env, x[i], q) for i, q in enumerate(d.subs))
    if d.kind == 'tu':
        on = [i for i, n in enumerate(d.names) if getattr(x, n).match]
        v = getattr(x, d.names[on[0]]).value
    else:
        on = [i for i, q in enumerate(d.subs) if x[q.T].match]
        v = x[d.subs[on[0]].T].value
    env.check('one member', len(on) == 1, on)
    return on[0], skeleton(env, v, d.subs[on[0]])


def leaf_enumeration(env, fam, kind, n, pool):
    """vectors and bits, which have no enumeration, stand for their zero"""
    d = shape_of(env, fam, kind, n, pool, distinct=(kind == 'su'))
    xs = [skeleton(env, x, d) for x in d.T.enumerate()]
    env.check('every value once', len(set(xs)) == len(xs) and None not in xs, xs)
    env.check('all of them', len(xs) == count(d), (len(xs), count(d)))


def wide_enumeration(env, kind, n):
    """a type with many members, some of them records or enums of many members"""
    two = enum('Tn', [('z', 1), ('a', 0)])
    twelve = enum('Wn', [(nm, (7 * i + 3) % 12 - 2) for i, nm in enumerate(WIDE_NAMES)])
    one = enum('On', [('only', -4)])
    etu = build('tu', ['r', 's'], [two, one])
    etp = build('tup', None, [two, one])
    cycle = [two, one, etu, etp] if kind not in ('su', 'tu') else [twelve, two, etu, one, etp]
    if kind == 'su':
        n = min(n, len(cycle))
    subs = [cycle[i % len(cycle)] for i in range(n)]
    d = build(kind, WIDE_NAMES[:n] if kind in ('ap', 'pr', 'tu') else None, subs)
    d, _ = below(env, d)
    all_ = list(d.T.enumerate())
    v, s = value(env, 'v', d)
    env.check('every value is enumerated exactly once', sum(is_this(x, s) for x in all_) == 1)
    env.check('nothing else is enumerated', len(all_) == count(d), (len(all_), count(d)))
    env.check('enumerated values are of the type', all(type(x) is d.T for x in all_))
    again = list(d.T.enumerate())
    env.check('repeatable', len(again) == len(all_) and all(a == b for a, b in zip(all_, again)))


def enum_order(env, many=False):
    """an enum enumerates its members, in order"""
    h, AP = classes()
    k = env.pick('n', [9, 12]) if many else env.pick('n', range(1, 5))
    at = env.pick('at', range(k)) if many else None
    vs = [env.pick('v', [7, 300, None]) if i == at else (5 * i + 2) % 11 for i in range(k)] if many else \
        [env.pick(f'v{i}', [-1, 0, 1, 2, None]) for i in range(k)]
    vs = [h.new_instruction() if v is None else v for v in vs]      # an own value, equal to no other
    T = type(h.Enum)('Eo', (h.Enum,), {f'm{i}': v for i, v in enumerate(vs)})
    ms = list(T.enumerate())
    env.check('members', len(ms) == k and all(m is getattr(T, f'm{i}') for i, m in enumerate(ms)))
    env.check('names', [m.name for m in ms] == [f'm{i}' for i in range(k)])
    env.check('values', [m._value_ for m in ms] == vs)
    env.check('field_dict', list(T.field_dict) == [f'm{i}' for i in range(k)] and
              all(T.field_dict[f'm{i}'] is ms[i] for i in range(k)))
    for i in range(k):
        for j in range(k):
            env.check('equality', (ms[i] == ms[j]) is (vs[i] == vs[j]) and (ms[i] != ms[j]) is (vs[i] != vs[j]))
        env.check('construction by member', T(ms[i]) is ms[i])
        env.raises('no access to other members', AttributeError, lambda: getattr(ms[i], f'm{k - 1}'))
    env.raises('construction by value', TypeError, lambda: T(vs[0]))
    U = type(h.Enum)('Eu', (h.Enum,), {f'm{i}': v for i, v in enumerate(vs)})
    env.check('members of different enums differ', U is not T and not U.m0 == T.m0 and U.m0 != T.m0)


@prop('A04', bounds='types over enums of 1..3 members and nested enum types, 1..2 fields (quick) / 1..3; six (eight) fields and nine (twelve) '
      'tags over enums of 1..12 members; enums of 1..4 members with values -1..2 or automatic ones, and of nine or twelve members; vectors and bits of the three families among the fields of 1..2 (3) fields', assumptions=[NOTE_T])
def a04(tier):
    for kind in ('tup', 'ap', 'pr', 'su', 'tu'):
        for n in sizes(tier, (1, 2), (1, 2, 3)):
            pool = ['en', 'e', 'f', 'ets', 'esu', 'etu'] if n < 3 else ['en', 'f', 'esu']
            yield Case(f'enumerate[{kind},{n}]', enumeration, dict(kind=kind, n=n, pool=pool, sizes=[1, 2, 3]), core=n < 3)
    for fam in FAMS:
        for kind in ('tup', 'ap', 'pr', 'su', 'tu'):
            for n in sizes(tier, (1, 2), (1, 2, 3)):
                if fam == 'c' or n < 3:
                    yield Case(f'leaves[{fam},{kind},{n}]', leaf_enumeration,
                               dict(fam=fam, kind=kind, n=n, pool=['bit', 'b3', 's2', 'e', 'tup', 'pr', 'tu', 'su', 'ap'][:9 if n < 3 else 7]), core=n < 3)
    for kind in ('tup', 'ap', 'pr', 'su', 'tu'):
        for n in sizes(tier, (6,), (6, 8)) if kind not in ('su', 'tu') else sizes(tier, (9,), (5, 12)):
            yield Case(f'enumerate[{kind},{n}]', wide_enumeration, dict(kind=kind, n=n), core=False)
    yield Case('enum', enum_order, {})
    yield Case('enum with many members', enum_order, dict(many=True), core=False)


# ---- A05 ----------------------------------------------------------------------
def equality(env, kind, n, pool, mutate):
    """equal exactly when all parts are equal; equal values have equal hashes; also after assignments"""
    h, AP = classes()
    d = shape_of(env, 'c', kind, n, pool, distinct=(kind == 'su'))
    x, s = value(env, 'x', d)
    y, t = value(env, 'y', below(env, d)[0] if not mutate and n < 3 else d)
    if mutate:
        env.tohash(x), env.tohash(y)      # nothing seen now is remembered
        i = env.pick('item', range(n))
        w, u = value(env, 'w', d.subs[i])
        if kind in ('tup', 'ap', 'pr'):
            x[i] = w
            s.v[i] = u
        elif kind == 'su':
            x[d.subs[i].T] = w
            s.v = (i, u)
        else:
            setattr(x, d.names[i], w)
            s.v = (i, u)
    want = spec_eq(env, s, t)
    e1, e2, n1 = env.tobool(x == y), env.tobool(y == x), env.tobool(x != y)
    env.check('equal exactly when all parts are', env.iff(e1, want))
    env.check('symmetric', env.iff(e2, want))
    env.check('inequality is the negation', env.iff(n1, env.no(want)))
    env.check('reflexive', env.tobool(x == x))
    env.check('equal values have equal hashes', env.implies(want, env.tohash(x) == env.tohash(y)))
    env.check('hash is repeatable', env.tohash(x) == env.tohash(x))
    other = env.fams['c'].BV[3](0)
    env.check('differs from other types', env.tobool(x != 'text') is True and env.tobool(x == 'text') is False)
    if kind in ('ap', 'pr'):
        tt = h.Tuple[d.T.fields](*[v for v in y._value_])
        env.check('compares with the tuple of its fields', env.iff(env.tobool(x == tt), want))
        env.check('compares with the tuple of its fields, reflected', env.iff(env.tobool(tt == x), want))
        env.check('hash of the tuple of its fields', env.implies(want, env.tohash(x) == env.tohash(tt)))
        oth = build(kind, [q + '_' for q in d.names], d.subs, cname='Zec').T(*[v for v in y._value_])
        env.check('other names compare unequal', env.no(env.tobool(x == oth)))


@prop('A05', bounds='1..2 fields (quick) / 1..3 of leaf and nested types; all pairs of values, fresh and after an assignment',
      outside='pysmt and z3 fields (their comparisons are terms)', assumptions=[NOTE_T])
def a05(tier):
    for kind in ('tup', 'ap', 'pr', 'su', 'tu'):
        for n in sizes(tier, (1, 2), (1, 2, 3)):
            for mut in (0, 1):
                if kind == 'su':
                    p = ('bit', 'u3', 's3', 'e', 'tup') if n < 3 else ('bit', 'u3', 'b7')
                else:
                    p = POOL + DEEP if n == 1 else ('bit', 'b3', 's2', 'e') if n == 2 else ('bit', 'u3')
                yield Case(f'equality[{kind},{n},{"assigned" if mut else "fresh"}]', equality,
                           dict(kind=kind, n=n, pool=list(p), mutate=mut), core=n < 3)
        for n in (5,) if kind == 'su' else sizes(tier, (9,), (5, 9)):
            for mut in ((0,) if kind == 'su' else (0, 1)):
                yield Case(f'equality[{kind},{n},{"assigned" if mut else "fresh"}]', equality,
                           dict(kind=kind, n=n, pool=[], mutate=mut), core=False)


# ---- R01 ----------------------------------------------------------------------
def tree(env, fam, name, depth, pool, kinds, nmax, tag=''):
    """an arbitrary shape"""
    if nmax > 4:
        return many(env, fam, kinds[0], nmax, cname='Tr' + name, inner='nest')
    k = env.pick(name, list(pool) + (list(kinds) if depth else []))
    if k in pool:
        return mk(env, fam, k)
    n = env.pick(name + '#', range(1, nmax + 1))
    subs = [tree(env, fam, f'{name}.{i}', depth - 1, pool, kinds, nmax) for i in range(n)]
    if k == 'su':
        env.assume(len({q.T for q in subs}) == n)
    return build(k, ['fa', 'g', 'h'][:n] if k in ('ap', 'pr', 'tu') else None, subs, cname='Tr' + name.replace('.', ''))


def related(d):
    """some sum below has members of which one is a subtype of another"""
    if d.kind == 'su':
        for i, a in enumerate(d.subs):
            for j, b in enumerate(d.subs):
                if i != j and issubclass(a.T, b.T):
                    return True
    return any(related(q) for q in d.subs or ())


def mapped(d, f):
    """the shape with leaf types replaced, built from scratch"""
    if d.kind == 'leaf':
        return D('leaf', f(d.T))
    if d.kind == 'enum':
        return d
    subs = [mapped(q, f) for q in d.subs]
    if d.kind == 'su' and len({q.T for q in subs}) < len(subs):
        seen, out = set(), []
        for q in subs:
            if q.T not in seen:
                seen.add(q.T)
                out.append(q)
        subs = out
    names = d.names
    r = build(d.kind, names, subs, cname=d.T.__name__)
    return r


def same_shape(env, label, T, d):
    """the type has the described shape throughout"""
    env.check(label, T is d.T, f'{T} vs {d.T}')
    if d.kind in ('leaf', 'enum'):
        return
    keys = {'tup': list(range(len(d.subs))), 'su': [q.T for q in d.subs]}.get(d.kind, d.names)
    env.check(label + ': keys', (set if d.kind in ('su', 'tu') else list)(T.field_dict) ==
              (set if d.kind in ('su', 'tu') else list)(keys))
    for k, q in zip(keys, d.subs):
        same_shape(env, label + ': member', T.field_dict[k], q)


def rebinding(env, src, dst, depth, nmax, kinds, pool):
    """all bits and vectors of a type move to the other family, nothing else changes, and values carry over"""
    from hwtypes.adt_util import rebind_type, rebind_bitvector, rebind_keep_modifiers
    import hwtypes as h
    A, B = env.fams[src], env.fams[dst]
    d = tree(env, src, 'T', depth, pool, kinds, nmax)

    def to_family(T):
        if issubclass(T, h.AbstractBitVector):
            return B.BV[T.size] if T.is_sized else B.BV
        return B.Bit if issubclass(T, h.AbstractBit) else T
    want = mapped(d, to_family)
    fam_t = B.Bit.get_family()
    T2 = rebind_type(d.T, fam_t)
    same_shape(env, 'rebind_type', T2, want)
    env.check('original unchanged', d.T is rebuild(d).T)
    env.check('rebinding again changes nothing', rebind_type(T2, fam_t) is T2)
    onlyv = mapped(d, lambda T: B.BV[T.size] if issubclass(T, h.AbstractBitVector) else T)
    for keep in (False, True):
        same_shape(env, 'rebind_bitvector', rebind_bitvector(d.T, h.AbstractBitVector, B.BV, keep), onlyv)
    onlyb = mapped(d, lambda T: B.Bit if issubclass(T, h.AbstractBit) else T)
    same_shape(env, 'rebind_keep_modifiers', rebind_keep_modifiers(d.T, h.AbstractBit, B.Bit), onlyb)
    # replacements that contain, or are subtypes of, what they replace
    for t in (A.Bit, A.BV[3]):
        box = build('tup', None, [D('leaf', t)])
        boxed = mapped(d, lambda T: box.T if issubclass(T, t) else T)
        same_shape(env, 'rebind_keep_modifiers into a type holding the old one', rebind_keep_modifiers(d.T, t, box.T), boxed)
        if hasattr(d.T, 'rebind'):
            exact = mapped(d, lambda T: box.T if T is t else T)
            same_shape(env, 'rebind into a type holding the old one', d.T.rebind(t, box.T), exact)
    for K in (A.U, A.S):
        kind = mapped(d, lambda T: K[T.size] if issubclass(T, A.BV) else T)
        for keep in (False, True):
            same_shape(env, 'rebind_bitvector to a subtype', rebind_bitvector(d.T, A.BV, K, keep), kind)
    if hasattr(d.T, 'rebind'):
        same_shape(env, 'rebind with subtypes', d.T.rebind(h.AbstractBit, B.Bit, True), onlyb)
        one = mapped(d, lambda T: B.BV[3] if T is A.BV[3] else T)
        same_shape(env, 'rebind of one type', d.T.rebind(A.BV[3], B.BV[3]), one)
        sub = mapped(d, lambda T: B.Bit if issubclass(T, A.BV[3]) else T)
        same_shape(env, 'rebind of one type and its subtypes', d.T.rebind(A.BV[3], B.Bit, True), sub)
        flat = D(d.kind, d.T, d.names, d.subs)
        if d.kind not in ('enum',):
            fl = build(d.kind, d.names, uniq(d.kind, [D('leaf', B.BV[3]) if q.T is A.BV[3] else q for q in d.subs]),
                       cname=d.T.__name__)
            env.check('rebind of the top level only', d.T.rebind(A.BV[3], B.BV[3], rebind_recursive=False) is fl.T)
    if not related(want):
        x, s = value(env, 'v', want)
        env.check('values of the rebound type', isinstance(x, T2))
        agrees(env, 'value of the rebound type', x, s)


def uniq(kind, subs):
    if kind != 'su':
        return subs
    seen, out = set(), []
    for q in subs:
        if q.T not in seen:
            seen.add(q.T)
            out.append(q)
    return out


def rebuild(d):
    if d.kind in ('leaf', 'enum'):
        return d
    return build(d.kind, d.names, [rebuild(q) for q in d.subs], cname=d.T.__name__)


def carried(env, src, dst, kind):
    """operations over a rebound record give what they give over the original"""
    import hwtypes as h
    from hwtypes.adt_util import rebind_type
    A, B = env.fams[src], env.fams[dst]
    w = env.pick('w', [1, 3, 8])
    d = build(kind, ['fa', 'g', 'h'], [D('leaf', A.BV[w]), D('leaf', A.BV[w]), D('leaf', A.Bit)], cname='Carr')
    T2 = rebind_type(d.T, B.Bit.get_family())
    a, b = env.bv_all('bv', w, 'a'), env.bv_all('bv', w, 'b')
    x = d.T(a[src], b[src], a[src] == b[src])
    y = T2(a[dst], b[dst], a[dst] == b[dst])
    for op in (lambda r: r[0] + r[1], lambda r: r[0] * r[1] - r[0], lambda r: r[2].ite(r[0], r[1]), lambda r: ~r[2],
               lambda r: (r[0] < r[1]).ite(r[1], r[0])):
        env.eq('same result', op(x), env.val(op(y)))
    env.raises('values of the old family', TypeError, lambda: T2(a[src], b[src], a[src] == b[src]))


@prop('R01', bounds='every shape of depth 1 with up to 2 members (quick) / depth 2 with up to 2, depth 1 with up to 3, over four leaf types '
      'and an enum, between every ordered pair of families',
      outside='modifiers inside a type under rebind_type and rebind_bitvector without keep_modifiers (dropped by design); user '
      'subclasses of bound types (they have no unbound type)', assumptions=[NOTE_T])
def r01(tier):
    pairs = [(a, b) for a in FAMS for b in FAMS]
    for a, b in pairs:
        for k in ('tup', 'ap', 'pr', 'su', 'tu'):
            yield Case(f'rebind[{a}->{b},{k}]', rebinding,
                       dict(src=a, dst=b, depth=1, nmax=2, kinds=[k], pool=['bit', 'b3', 'u3', 'e', 'bx']), core=a != b)
            if a != b:
                yield Case(f'rebind many[{a}->{b},{k}]', rebinding, dict(src=a, dst=b, depth=1, nmax=9, kinds=[k], pool=[]), core=False)
            if tier == 'thorough':
                yield Case(f'rebind wide[{a}->{b},{k}]', rebinding,
                           dict(src=a, dst=b, depth=1, nmax=3, kinds=[k], pool=['bit', 'b3', 's2', 'e']), core=False)
        if tier == 'thorough' or a == 'c' and b == 'smt':
            yield Case(f'rebind nested[{a}->{b}]', rebinding,
                       dict(src=a, dst=b, depth=2, nmax=1 if tier == 'quick' else 2, kinds=['tup', 'ap', 'pr', 'su', 'tu'],
                            pool=['bit', 'b3']), core=False)
            if a == 'c' and b == 'smt':
                for k in ('tup', 'pr', 'su'):
                    yield Case(f'rebind siblings[{a}->{b},{k}]', rebinding,
                               dict(src=a, dst=b, depth=1, nmax=2, kinds=[k], pool=['bit', 'b3', 'tup', 'pr', 'su', 'nest']),
                               core=False)
        if a != b:
            for k in ('tup', 'ap', 'pr'):
                yield Case(f'carried[{a}->{b},{k}]', carried, dict(src=a, dst=b, kind=k))


# ---- M01 ----------------------------------------------------------------------
_mods = []


def mods3():
    from hwtypes.modifiers import make_modifier
    while len(_mods) < 3:
        _mods.append(make_modifier(f'M{len(_mods)}'))
    return _mods


def modifier_stack(env, fam, pool, k):
    """applying, recognising and removing modifiers"""
    from hwtypes import modifiers as mm
    M = mods3()
    d = mk(env, fam, env.pick('T', pool))
    T = d.T
    ms = []
    for i in range(k):
        m = env.pick(f'mod{i}', range(3))
        env.assume(m not in ms)
        ms.append(m)
    chain = [T]
    for m in ms:
        chain.append(M[m](chain[-1]))
    X = chain[-1]
    env.check('unmodified types', not mm.is_modified(T))
    env.raises('modifier of an unmodified type', TypeError, lambda: mm.get_modifier(T))
    env.raises('removal from an unmodified type', TypeError, lambda: mm.get_unmodified(T))
    for i, m in enumerate(ms):
        Y = chain[i + 1]
        env.check('modified once only', M[m](chain[i]) is Y)
        env.check('recognised', mm.is_modified(Y) and not mm.is_modifier(Y) and mm.is_modifier(M[m]) and not mm.is_modified(M[m]))
        env.check('outermost modifier', mm.get_modifier(Y) is M[m])
        env.check('inner type', mm.get_unmodified(Y) is chain[i])
        env.check('subtype of the plain type', issubclass(Y, T) and issubclass(Y, chain[i]))
        env.check('plain type is no subtype', not issubclass(T, Y) and not issubclass(chain[i], M[m]))
        env.check('of the modifier', issubclass(Y, M[m]))
    env.check('unwrap', mm.unwrap_modifier(X) == (T, [M[m] for m in ms]))
    env.check('wrap', mm.wrap_modifier(T, [M[m] for m in ms]) is X)
    env.check('all modifiers', list(mm.get_all_modifiers(X)) == [M[m] for m in ms])
    env.check('strip', mm.strip_modifiers(X) is T)
    if ms:
        env.raises('duplicates', TypeError, lambda: mm.wrap_modifier(T, [M[m] for m in ms + ms[:1]]))
        for i in {0, 1, 2} - set(ms):
            env.check('another modifier gives another type', M[i](chain[-2]) is not X)
            env.check('no subtype of another modifier', not issubclass(X, M[i]))
    env.check('cached modifiers', mm.make_modifier('vfCached', cache=True) is mm.make_modifier('vfCached', cache=True))
    env.check('fresh modifiers', mm.make_modifier('M0') is not M[0])
    # unrelated types
    F = env.fams[fam]
    if T is F.BV[3] and ms:
        env.check('follows the subtypes', issubclass(M[ms[0]](F.U[3]), M[ms[0]](F.U)) and
                  issubclass(M[ms[0]](F.U[3]), M[ms[0]](T)))


def modifier_values(env, fam, k):
    """values of modified types behave as values of the plain type"""
    import hwtypes as h
    M = mods3()
    F = env.fams[fam]
    w = env.pick('w', [1, 3, 8])
    kind = env.pick('kind', ['bv', 'u', 's'])
    T = F.of(kind)[w]
    X = T
    ms = [env.pick(f'mod{i}', [0, 1]) for i in range(k)]
    env.assume(len(set(ms)) == len(ms))
    for m in ms:
        X = M[m](X)
    a, b = env.bv(T, 'a'), env.bv(T, 'b')
    xa = X(a)
    env.check('instance', type(xa) is X and isinstance(xa, T) and isinstance(xa, M[ms[-1]]) and not isinstance(a, X)
              and not isinstance(a, M[ms[-1]]) and not isinstance(xa, M[2]))
    env.eq('value', xa, env.val(a))
    xb = X(b)
    for name, op in (('+', lambda p, q: p + q), ('*', lambda p, q: p * q), ('&', lambda p, q: p & q), ('<<', lambda p, q: p << q),
                     ('>>', lambda p, q: p >> q), ('-', lambda p, q: p - q), ('//', lambda p, q: p // q)):
        r = op(xa, xb)
        env.eq(name, r, env.val(op(a, b)))
        env.check(name + ': stays modified', type(r) is X, type(r))
    for name, op in (('==', lambda p, q: p == q), ('<', lambda p, q: p < q), ('>=', lambda p, q: p >= q)):
        env.eq(name, op(xa, xb), env.val(op(a, b)))
    env.eq('~', ~xa, env.val(~a))
    env.eq('-', -xa, env.val(-a))
    env.eq('mixed with the plain type', xa + b, env.val(a + b))
    env.eq('index', xa[0], env.val(a[0]))
    bit = env.bit(F.Bit, 'c')
    MB = M[ms[0]](F.Bit)
    mb = MB(bit)
    env.check('bit', type(mb) is MB and isinstance(mb, F.Bit) and not isinstance(bit, MB))
    env.eq('bit value', mb, env.val(bit))
    env.eq('bit negation', ~mb, env.val(~bit))
    env.eq('bit select', mb.ite(a, b), env.val(bit.ite(a, b)))


def modifier_records(env, fam, kind):
    """modified record types hold values as the plain ones do"""
    M = mods3()
    subs = [mk(env, fam, env.pick(f'm{i}', ['bit', 'u3', 'e', 'tup'])) for i in range(2)]
    if kind == 'su':
        env.assume(subs[0].T is not subs[1].T)
    d = build(kind, ['fa', 'g'] if kind in ('ap', 'pr', 'tu') else None, subs, cname='Mr')
    X = M[0](d.T)
    md = D(kind, X, d.names, d.subs)
    x, s = value(env, 'v', md)
    agrees(env, 'value of a modified record', x, s)
    env.check('instance', isinstance(x, d.T) and isinstance(x, M[0]) and not isinstance(x, M[1]))
    agrees(env, 'round trip', X.from_values(x.value_dict), s)
    y, _ = value(env, 'u', d)
    env.check('plain values are not modified', not isinstance(y, X) and not isinstance(y, M[0]))


def wide_mods(env, fam, kind):
    """a record of many members, one of them (at any place) and the whole modified"""
    M = mods3()
    subs = [mk(env, fam, p) for p in (WIDE_SUM[:7] if kind == 'su' else WIDE_SUBS[:9])]
    i = env.pick('at', range(len(subs)))
    m = env.pick('mod', [0, 1])
    subs[i] = D(subs[i].kind, M[m](subs[i].T), subs[i].names, subs[i].subs, mods=(m,))
    d = build(kind, WIDE_NAMES[:len(subs)] if kind in ('ap', 'pr', 'tu') else None, subs, cname='Mw')
    k = env.pick('outer', [None, 1 - m])
    return d if k is None else D(d.kind, M[k](d.T), d.names, d.subs, mods=(k,))


def mod_tree(env, fam, name, depth, pool, kinds, nmax, outer=()):
    """a shape with modifiers in places; no modifier twice on the way down"""
    M = mods3()
    k = env.pick(name, list(pool) + (list(kinds) if depth else []))
    m = env.pick(name + '!', [None, 0, 1])
    env.assume(m is None or m not in outer)
    inner = outer + (() if m is None else (m,))
    if k in pool:
        d = mk(env, fam, k)
    else:
        n = env.pick(name + '#', range(1, nmax + 1))
        subs = [mod_tree(env, fam, f'{name}.{i}', depth - 1, pool, kinds, nmax, inner) for i in range(n)]
        if k == 'su':
            env.assume(len({q.T for q in subs}) == n)
        d = build(k, ['fa', 'g', 'h'][:n] if k in ('ap', 'pr', 'tu') else None, subs, cname='Mt' + name.replace('.', ''))
    if m is None:
        return d
    return D(d.kind, M[m](d.T), d.names, d.subs, mods=(m,))


def plain_t(d):
    """the type without its own modifiers, from the description"""
    if d.kind in ('leaf', 'enum'):
        return d.T.__bases__[0] if d.mods else d.T
    return build(d.kind, d.names, d.subs, cname=name_of(d)).T


def name_of(d):
    n = d.T.__name__
    return n[2:] if d.mods else n


def stripped(d):
    if d.kind in ('leaf', 'enum'):
        return D(d.kind, plain_t(d), d.names)
    return build(d.kind, d.names, uniq(d.kind, [stripped(q) for q in d.subs]), cname=name_of(d))


def pushed(d, mods=()):
    M = mods3()
    mods = d.mods + mods
    if d.kind in ('leaf', 'enum'):
        T = plain_t(d)
        for m in mods:
            T = M[m](T)
        return D(d.kind, T, d.names)
    return build(d.kind, d.names, uniq(d.kind, [pushed(q, mods) for q in d.subs]), cname=name_of(d))


def mod_rebound(d, f):
    """leaves replaced, modifiers kept where they are"""
    M = mods3()
    if d.kind == 'enum':
        return D(d.kind, d.T, d.names)
    if d.kind == 'leaf':
        T = f(plain_t(d))
        r = D('leaf', T)
    else:
        r = build(d.kind, d.names, uniq(d.kind, [mod_rebound(q, f) for q in d.subs]), cname=name_of(d))
    T = r.T
    for m in d.mods:
        T = M[m](T)
    return D(d.kind, T, r.names, r.subs)


def modifier_shapes(env, fam, depth, nmax, kinds, pool, dst='smt'):
    from hwtypes import modifiers as mm
    from hwtypes.adt_util import rebind_bitvector, rebind_keep_modifiers, rebind_type
    import hwtypes as h
    d = wide_mods(env, fam, kinds[0]) if pool is None else mod_tree(env, fam, 'T', depth, pool, kinds, nmax)
    same_shape(env, 'strip_modifiers', mm.strip_modifiers(d.T), stripped(d))
    same_shape(env, 'push_modifiers', mm.push_modifiers(d.T), pushed(d))
    env.check('nothing left to strip', mm.strip_modifiers(mm.strip_modifiers(d.T)) is mm.strip_modifiers(d.T))
    env.check('pushing twice changes nothing', mm.push_modifiers(mm.push_modifiers(d.T)) is mm.push_modifiers(d.T))
    B = env.fams[dst]
    vec = lambda T: B.BV[T.size] if issubclass(T, h.AbstractBitVector) else T
    bit = lambda T: B.Bit if issubclass(T, h.AbstractBit) else T
    env.check('rebinding vectors keeps modifiers',
              rebind_bitvector(d.T, h.AbstractBitVector, B.BV, True) is mod_rebound(d, vec).T)
    env.check('rebinding bits keeps modifiers',
              rebind_keep_modifiers(d.T, h.AbstractBit, B.Bit) is mod_rebound(d, bit).T)
    if d.kind == 'leaf':
        both = lambda T: vec(bit(T))
        env.check('rebinding a modified leaf to a family', rebind_type(d.T, B.Bit.get_family()) is mod_rebound(d, both).T)


def modifier_twice(env, fam, kind):
    """one modifier cannot mark a type twice, however the marks come together"""
    from hwtypes import modifiers as mm
    M = mods3()
    m, k = env.pick('mod', [0, 1]), env.pick('other', [None, 2])
    leaf = mk(env, fam, env.pick('leaf', ['bit', 'u3', 'e']))
    T = M[m](leaf.T)
    T = T if k is None else M[k](T)
    d = build(kind, ['fa', 'g'] if kind in ('ap', 'pr', 'tu') else None, [D('leaf', T), mk(env, fam, 'b7')], cname='Md')
    deep = build('tup', None, [d, mk(env, fam, 'b3')])
    env.raises('pushed onto a member with the mark', TypeError, lambda: mm.push_modifiers(M[m](d.T)))
    env.raises('pushed onto a nested member with the mark', TypeError, lambda: mm.push_modifiers(M[m](deep.T)))
    env.raises('pushed from two levels', TypeError, lambda: mm.push_modifiers(M[1](
        build('tup', None, [D('tup', M[1](deep.T))]).T)))
    env.raises('wrapped', TypeError, lambda: mm.wrap_modifier(leaf.T, [M[m], M[2], M[m]]))
    env.check('stripped all the same', mm.strip_modifiers(M[m](d.T)) is
              build(kind, d.names, [leaf, mk(env, fam, 'b7')], cname='Md').T)


def new_types(env, fam):
    """new() gives a type of its own, below the given one and otherwise like it"""
    from hwtypes.modifiers import new
    F = env.fams[fam]
    base = env.pick('base', [F.BV, F.U, F.S])
    w = env.pick('w', [None, 1, 3, 8])
    named, modul = env.pick('name', [None, 'Given', 'Word']), env.pick('module', [None, 'somewhere'])
    kw = {k: v for k, v in (('name', named), ('module', modul)) if v is not None}
    args = () if w is None else (w,)
    N, N2 = new(base, *args, **kw), new(base, *args, **kw)
    env.check('a type of its own', N is not N2 and N is not base and not issubclass(N, N2) and not issubclass(N2, N))
    env.check('below the given type', issubclass(N, base) and not issubclass(base, N))
    if w is None:
        env.check('unsized', not N.is_sized and N.unsized_t is N)
        X, U = N[4], N
        w = 4
    else:
        X, U = N, N.unsized_t
        env.check('another unsized type', U is not base and issubclass(U, base) and U[w] is N)
    env.check('sized', X.size == w and X is U[w] and issubclass(X, base[w]))
    if named:
        env.check('name', U.__name__ == named and X.__name__ == f'{named}[{w}]')
    if modul:
        env.check('module', U.__module__ == modul and X.__module__ == modul)
    S_ = new(base[3], **kw)
    env.check('below a sized type', issubclass(S_, base[3]) and S_ is not base[3] and S_.size == 3)
    if named:
        env.check('name of the sized', S_.__name__ == named)
    a = env.bv(base[w], 'a')
    env.same('value', X(a), X, env.val(a))
    env.same('results keep the type', X(a) ^ X(a), X, 0)


@prop('M01', bounds='stacks of up to 2 (quick) / 3 of three modifiers over leaf and nested types; shapes of depth 1 with up to 2 members, '
      'each place with no modifier or one of two; records of nine members with one member modified', outside='values of modified enums',
      assumptions=[NOTE_T])
def m01(tier):
    for fam in FAMS:
        for k in sizes(tier, (0, 1, 2), (0, 1, 2, 3)):
            yield Case(f'stack[{fam},{k}]', modifier_stack, dict(fam=fam, pool=list(POOL + DEEP), k=k), core=fam == 'c')
        for k in sizes(tier, (1,), (1, 2)):
            yield Case(f'values[{fam},{k}]', modifier_values, dict(fam=fam, k=k))
        for kind in ('tup', 'ap', 'pr', 'su', 'tu'):
            yield Case(f'records[{fam},{kind}]', modifier_records, dict(fam=fam, kind=kind))
        yield Case(f'new[{fam}]', new_types, dict(fam=fam))
    for k in ('tup', 'ap', 'pr', 'su', 'tu'):
        yield Case(f'shapes[{k}]', modifier_shapes, dict(fam='c', depth=1, nmax=2, kinds=[k], pool=['bit', 'b3', 'e']))
        yield Case(f'shapes wide[{k}]', modifier_shapes, dict(fam='c', depth=1, nmax=9, kinds=[k], pool=None), core=False)
        yield Case(f'shapes over nested[{k}]', modifier_shapes, dict(fam='c', depth=1, nmax=2, kinds=[k],
                                                                    pool=['bit', 'tup'] if tier == 'quick' else
                                                                    ['bit', 'tup', 'pr', 'su', 'ap', 'tu']), core=False)
        yield Case(f'twice[{k}]', modifier_twice, dict(fam='c', kind=k))
    yield Case('shapes[deep]', modifier_shapes, dict(fam='c', depth=2, nmax=1 if tier == 'quick' else 2, kinds=['tup', 'pr'] if
               tier != 'quick' else ['tup', 'ap', 'pr', 'su', 'tu'], pool=['bit']), core=False)


# ---- V01 ----------------------------------------------------------------------
def has_sum(d):
    return d.kind == 'su' or any(has_sum(q) for q in d.subs or ())


def visit(env, fam, depth, nmax, kinds, pool):
    """visitors reach every part once, under the method of its kind"""
    from hwtypes.adt_util import ADTVisitor, ADTInstVisitor
    d = tree(env, fam, 'T', depth, pool, kinds, nmax)
    env.assume(not related(d))
    if d.kind not in ('leaf', 'enum') and nmax < 4:
        d, _ = below(env, d)
    x, s = value(env, 'v', d)

    def recorder(base):
        log = []

        def rec(kind):
            def visit_(self, n):
                log.append((kind, n))
                self.generic_visit(n)
            return visit_
        ns = {f'visit_{k}': rec(k) for k in ('Product', 'Tuple', 'Sum', 'TaggedUnion')}
        ns['visit_Enum'] = lambda self, n: log.append(('Enum', n))
        ns['visit_leaf'] = lambda self, n: log.append(('leaf', n))
        return type('Rec', (base,), ns)(), log
    kindname = {'tup': 'Tuple', 'ap': 'Tuple', 'pr': 'Product', 'su': 'Sum', 'tu': 'TaggedUnion', 'enum': 'Enum', 'leaf': 'leaf'}

    def types(q):
        out = [(kindname[q.kind], q.T)]
        for c in q.subs or ():
            out += types(c)
        return out
    v, log = recorder(ADTVisitor)
    v.visit(d.T)
    want = types(d)
    env.check('types visited', sorted(map(repr, log)) == sorted(map(repr, want)) and len(log) == len(want), log)
    if not has_sum(d):
        env.check('types visited in order', all(a == c and b is e for (a, b), (c, e) in zip(log, want)), log)

    def insts(t):
        out = [(kindname[t.d.kind], t)]
        if t.d.kind in ('tup', 'ap', 'pr'):
            for c in t.v:
                out += insts(c)
        elif t.d.kind in ('su', 'tu'):
            out += insts(t.v[1])
        return out
    v, log = recorder(ADTInstVisitor)
    v.visit(x)
    want = insts(s)
    env.check('parts visited', [k for k, _ in log] == [k for k, _ in want], log)
    for (_, a), (_, t) in zip(log, want):
        agrees(env, 'visited part', a, t)

    seen = []
    class Count(ADTVisitor):
        def visit_leaf(self, n):
            seen.append(n)
    Count().visit(d.T)
    env.check('default visits descend to the leaves', sorted(map(repr, seen)) ==
              sorted(repr(T) for k, T in types(d) if k == 'leaf'))
    class Nothing(ADTVisitor): pass
    class NothingI(ADTInstVisitor): pass
    env.check('visitors without methods of their own', Nothing().visit(d.T) is None and NothingI().visit(x) is None)


@prop('V01', bounds='shapes of depth 1 with up to 2 members (quick) / depth 2 with up to 2, depth 1 with up to 3; symbolic values',
      outside='sums whose members are related by subclassing', assumptions=[NOTE_T])
def v01(tier):
    for fam in FAMS:
        for k in ('tup', 'ap', 'pr', 'su', 'tu'):
            yield Case(f'visit[{fam},{k}]', visit, dict(fam=fam, depth=1, nmax=2, kinds=[k], pool=['bit', 'b3', 's2', 'e', 'nest', 'tu']
                       if fam == 'c' else ['bit', 'u3', 'e']), core=fam == 'c')
            yield Case(f'visit many[{fam},{k}]', visit, dict(fam=fam, depth=1, nmax=9, kinds=[k], pool=[]), core=False)
            if tier == 'thorough':
                yield Case(f'visit wide[{fam},{k}]', visit, dict(fam=fam, depth=1, nmax=3, kinds=[k], pool=['bit', 'b3', 'e', 'pr']),
                           core=False)
    yield Case('visit[deep]', visit, dict(fam='c', depth=2, nmax=1 if tier == 'quick' else 2, kinds=['tup', 'ap', 'pr', 'su', 'tu'],
               pool=['bit'] if tier == 'quick' else ['bit', 'e']), core=False)


# ---- T01 ----------------------------------------------------------------------
def sized(env, fam, n, m):
    """one type per base and width; subtyping follows the bases; widths are fixed"""
    import hwtypes as h
    F = env.fams[fam]
    bases = [F.BV, F.U, F.S]
    A, B = env.pick('A', bases), env.pick('B', bases)
    w, v = env.pick('w', range(n)), env.pick('v', range(m))
    X, Y = A[w], B[v]
    env.check('one type per base and width', (X is Y) == (A is B and w == v) and A[w] is X)
    env.check('subtypes', issubclass(X, Y) == (issubclass(A, B) and w == v))
    env.check('subtypes of the unsized', issubclass(X, B) == issubclass(A, B) and not issubclass(B, X))
    env.check('abstract', issubclass(X, h.AbstractBitVector) and issubclass(X, h.AbstractBitVector[w])
              and (w == v or not issubclass(X, h.AbstractBitVector[v])))
    env.check('size', X.size == w and X.is_sized and len(X) == w and not A.is_sized and A.size is None)
    env.check('unsized', X.unsized_t is A and A.unsized_t is A)
    env.check('name', X.__name__ == f'{A.__name__}[{w}]' and repr(X) == f'{A.__name__}[{w}]')
    env.raises('len of the unsized', AttributeError, lambda: len(A))
    env.raises('sizing twice', TypeError, lambda: X[v])
    env.raises('negative size', ValueError, lambda: A[-1 - v])
    from fractions import Fraction
    for bad in ('3', w + 0.0, w + 0.5, Fraction(w), complex(w), None, (w,)):  # also those equal to a width in use
        env.raises('size of another type', TypeError, lambda: A[bad])
    U = type(A)('User', (X,), {})
    env.check('user subclass', U.size == w and U.is_sized and issubclass(U, X) and issubclass(U, A))
    env.raises('unsized_t of a user subclass', AttributeError, lambda: U.unsized_t)
    if w != v and A is not B:
        env.raises('two sizes', TypeError, lambda: type(A)('Two', (X, Y), {}))
    V = type(A)('UserBase', (A,), {})
    env.check('sized user base', V[w] is V[w] and V[w].size == w and issubclass(V[w], X) and V[w].unsized_t is V
              and V[w] is not X)
    env.check('family', X.get_family() is F.Bit.get_family() and U.get_family() is X.get_family())
    if w:
        a = env.bv(X, 'a')
        x = V[w](a)
        env.same('value of a user type', x, V[w], env.val(a))
        env.check('size of an instance', x.size == w and len(x) == w and type(x).size == w)
        env.check('instances', isinstance(x, X) and isinstance(x, B) == issubclass(A, B) and isinstance(x, Y) == issubclass(X, Y))
        r = x + x
        env.check('results keep the type', type(r) is V[w] and r.size == w)
        env.eq('results keep the value', r, env.val(a + a))
        if fam == 'c' or w == v:
            env.same('conversion to another type', Y(a), Y, env.val(a)) if w == v else None


def hierarchy(env, fam, n, twice):
    """user types deriving from vector types and from each other: their sized types are related in the same way"""
    F = env.fams[fam]
    P = {F.BV: type('BV', (), {})}
    P[F.U], P[F.S] = type('U', (P[F.BV],), {}), type('S', (P[F.BV],), {})
    pool = [F.BV, F.U, F.S]
    for i in range(n):
        bs = [env.pick(f'base {i}', pool)]
        if twice and env.pick(f'two bases {i}', [False, True]):
            bs.append(env.pick(f'other base {i}', pool))
        try:        # the same hierarchy of plain classes
            plain = type(f'P{i}', tuple(P[b] for b in bs), {})
        except TypeError:
            env.assume(False)
        C = type(F.BV)(f'C{i}', tuple(bs), {})
        P[C] = plain
        pool.append(C)
    w = 3
    for C in pool:
        X = C[w]
        env.check('one type', C[w] is X and X.unsized_t is C and X.size == w)
        for D in pool:
            for v in (w, 4):
                env.check('subtypes', issubclass(X, D[v]) == (issubclass(P[C], P[D]) and w == v))
            env.check('subtypes of the unsized', issubclass(X, D) == issubclass(P[C], P[D]))
        if fam == 'c':
            a = env.bv(X, f'a{pool.index(C)}')
            env.same('results keep the type', a + a, X, env.val(a) * 2 & 7)
            env.same('slices keep the kind', a[:2], C[2], env.val(a) & 3)
            env.same('longer ones keep the kind', a.zext(2), C[5], env.val(a))


@prop('T01', bounds='widths 0..6 (quick) / 0..12 for both types, every pair of bases in the three families; hierarchies of '
      'two (quick) / three user types with one or two bases each',
      outside='user types that override operations', assumptions=[NOTE_T])
def t01(tier):
    n = 7 if tier == 'quick' else 13
    for fam in FAMS:
        yield Case(f'sized[{fam}]', sized, dict(fam=fam, n=n, m=n))
        yield Case(f'hierarchy[{fam}]', hierarchy, dict(fam=fam, n=2 if tier == 'quick' else 3, twice=True))
        if tier == 'quick':
            yield Case(f'hierarchy of three[{fam}]', hierarchy, dict(fam=fam, n=3, twice=False), core=False)
