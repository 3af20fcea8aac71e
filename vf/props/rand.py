"""Random values: the source of randomness is an arbitrary function."""
from .. import draws
from ..registry import Case, prop
from .common import *
from .fp import MODES, ambient, ambient_kept, ftype

NOTE = 'random.randint, getrandbits, randrange, choice, their secrets and gmpy2 counterparts return any value of their range; ' \
       'how often a value comes is not modelled'


def kind_type(env, kind, w):
    return env.fams['c'].of(kind)[w]


def make(env, kind, w):
    F = env.fams['c']
    return F.Bit.random() if kind == 'bit' else F.of(kind).random(w)


def rand_valid(env, kind, w):
    d = draws.arbitrary(env)
    with d.installed():
        r = make(env, kind, w)
        again = make(env, kind, w)
    if kind == 'bit':
        T = env.fams['c'].Bit
        env.is_a('random bit', r, T)
        env.eq('a random bit is zero or one', env.either(env.iff(env.val(r), True), env.iff(env.val(r), False)), True)
        return
    T = kind_type(env, kind, w)
    for o in (r, again):
        env.is_a('random value', o, T)
        v = env.val(o)
        env.check('the value is in range', env.both(v >= 0, v < (1 << w)), v)
        env.eq('the value is that of its bits', T(v), v)
        env.check('the value equals itself rebuilt', env.tobool(o == T(v)))


def rand_reach(env, kind, w):
    target = env.int('target', 0, 1 if kind == 'bit' else (1 << w) - 1)

    def run():
        v = env_val(env, make(env, kind, w))
        return v
    draws.reachable(env, 'every value can be drawn', target, run)


def env_val(env, o):
    v = env.val(o)
    return env.ite(v, 1, 0) if type(v) is bool or type(v).__name__ == 'SymBool' else v


def rand_pair(env, kind, w):
    """two draws in a row do not determine each other"""
    n = 1 if kind == 'bit' else w
    target = env.int('target', 0, (1 << (2 * n)) - 1)

    def run():
        return env_val(env, make(env, kind, w)) + (env_val(env, make(env, kind, w)) << n)
    draws.reachable(env, 'every pair of values can be drawn', target, run, limit=1 << 10)


def bits_of(env, v):
    r = v.reinterpret_as_bv()
    return int(r)


def fp_valid(env, eb, mb, mode, ieee, amb, inf):
    T = ftype(eb, mb, mode, ieee)
    ambient(env, mode, amb)
    d = draws.arbitrary(env, concrete=True)
    with d.installed():
        r = T.random(inf) if inf is not None else T.random()
    env.is_a('random number', r, T)
    env.check('a random number is a number', not bool(r.fp_is_NaN()))
    if inf is False:
        env.check('without infinities the number is finite', not bool(r.fp_is_infinite()))
    env.check('not zero', not bool(r.fp_is_zero()))
    ambient_kept(env, mode, amb)


def fp_reach(env, eb, mb, mode, ieee, amb, inf):
    """every normal number can be drawn, and the infinities where rounding goes to them"""
    T = ftype(eb, mb, mode, ieee)
    ambient(env, mode, amb)
    top = inf and mode in ('RNE', 'RNA')
    e = env.int('exponent', 1, (1 << eb) - (1 if top else 2))
    m = env.int('mantissa', 0, (1 << mb) - 1)
    s = env.int('sign', 0, 1)
    env.assume(env.either(e != (1 << eb) - 1, m == 0))
    draws.reachable(env, 'every normal number can be drawn', s * (1 << (eb + mb)) + e * (1 << mb) + m,
                    lambda: bits_of(env, T.random(inf)), concrete=True)


@prop('G01', bounds='vectors of widths 1-9,16,31-33,64,65,128 (quick), also every width up to 64 (thorough); formats (3,2), (2,3) and (3,3) (thorough)',
      world='fp', outside='how often each value is drawn; zero and denormal floating-point numbers, which random never draws; '
                          'randomness drawn in another way than by the listed functions', assumptions=[NOTE])
def g01(tier):
    yield Case('valid[bit]', rand_valid, dict(kind='bit', w=1))
    yield Case('reach[bit]', rand_reach, dict(kind='bit', w=1))
    yield Case('pairs[bit]', rand_pair, dict(kind='bit', w=1))
    ws = (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 31, 32, 33, 64, 65, 128)
    for w in ws if tier == 'quick' else sorted({*ws, *range(1, 65)}):
        for k in ('bv', 'u', 's'):
            yield Case(f'valid[{k},{w}]', rand_valid, dict(kind=k, w=w), core=w <= 8)
            yield Case(f'reach[{k},{w}]', rand_reach, dict(kind=k, w=w), core=w <= 8)
            if w <= 4:
                yield Case(f'pairs[{k},{w}]', rand_pair, dict(kind=k, w=w))
    for eb, mb in ((3, 2), (2, 3)) if tier == 'quick' else ((3, 2), (2, 3), (3, 3)):
        for ieee in (True, False):
            for mode in MODES:
                for inf in (False, True):
                    p = dict(eb=eb, mb=mb, mode=mode, ieee=ieee, amb='hostile' if inf else 'default', inf=inf)
                    tag = f'{eb},{mb},{mode},{"ieee" if ieee else "flush"},{"with" if inf else "without"} infinities'
                    yield Case(f'number[{tag}]', fp_valid, p)
                    yield Case(f'reach number[{tag}]', fp_reach, p, core=mode in ('RNE', 'RTZ'))


# ---- U01 frozen mappings and typed properties -----------------------------------------
def pairs(env, name, keys, nmax, vmax):
    """a symbolic history of insertions: distinct keys in any order, any values"""
    n = env.pick(name + ' entries', range(nmax + 1))
    out, left = [], list(keys)
    for i in range(n):
        k = env.pick(f'{name} key {i}', left)
        left.remove(k)
        out.append((k, env.concrete(env.int(f'{name} value {i}', 0, vmax))))
    return out


def build(cls, form, ps):
    from collections import OrderedDict
    if form == 'pairs':
        return cls(ps)
    if form == 'mapping':
        return cls(OrderedDict(ps))
    if form == 'copy':
        return cls(cls(ps))
    return cls(**dict(ps))


def frozen(env, left, right, form, nmax, vmax):
    from collections import OrderedDict
    from hwtypes.util import FrozenDict, OrderedFrozenDict
    C = dict(plain=FrozenDict, ordered=OrderedFrozenDict, dict=dict)
    keys = ['x', 'y', 'z'] if form == 'keywords' else ['x', 'y', 0]
    p, q = pairs(env, 'left', keys, nmax, vmax), pairs(env, 'right', keys, nmax, vmax)
    a, b = build(C[left], form, p), build(C[right], form, q)
    env.check('holds its entries', dict(a) == dict(p) and len(a) == len(p) and all(a[k] == v for k, v in p))
    env.check('membership', all((k in a) == (k in dict(p)) for k in keys) and a.get('nothing', 7) == 7)
    env.raises('no such key', KeyError, lambda: a['nothing'])
    if left == 'ordered':
        env.check('order is kept', list(a) == [k for k, _ in p] and list(a.items()) == p)
    want = (p == q) if left == right == 'ordered' else dict(p) == dict(q)
    env.check('equal when the entries are', (a == b) == want and (b == a) == want)
    env.check('unequal otherwise', (a != b) == (not want) and (b != a) == (not want))
    if right != 'dict' and want:
        env.check('equal mappings have equal hashes', hash(a) == hash(b))
    h = hash(a)
    for what, f in (('assignment', lambda: a.__setitem__('x', 5)), ('deletion', lambda: a.__delitem__('x')),
                    ('clear', lambda: a.clear()), ('update', lambda: a.update(x=5)), ('pop', lambda: a.pop('x'))):
        env.raises('no ' + what, (AttributeError, TypeError), f)
    env.check('still the same', dict(a) == dict(p) and hash(a) == h)
    src = OrderedDict(p)
    c = C[left](src)
    src['w'] = 9
    env.check('apart from its source', dict(c) == dict(p) and hash(c) == h)


def typed_property(env, nmax):
    """a declared property accepts only its type, under any history of assignments"""
    from hwtypes.util import TypedProperty
    import hwtypes as h
    T, sub = h.BitVector[4], h.UIntVector[4]
    log = []

    class A:
        def __init__(self):
            self.store = T(0)

        @TypedProperty(T)
        def f(self):
            """text"""
            return self.store

        @f.setter
        def f(self, v):
            log.append(v)
            self.store = v

        @TypedProperty(T)
        def ro(self):
            return self.store

        @TypedProperty(T)
        def d(self):
            return self.store

        @d.deleter
        def d(self):
            self.store = T(0)

    env.check('the class shows the type', A.f is T and A.ro is T and A.d is T)
    env.check('documentation', vars(A)['f'].__doc__ == 'text')
    a, other = A(), A()
    cur, sets = 0, 0
    for i in range(nmax):
        what = env.pick(f'step {i}', ['set', 'set subtype', 'wrong', 'int', 'read only', 'delete', 'undeletable'])
        x = env.bv(sub if what == 'set subtype' else h.BitVector[5] if what == 'wrong' else T, f'x{i}')
        v = env.val(x)
        if what in ('set', 'set subtype'):
            a.f = x
            cur, sets = v, sets + 1
            env.check('exactly the assigned object', a.f is x)
        elif what == 'wrong':
            env.raises('wrong type', TypeError, lambda: setattr(a, 'f', x))
        elif what == 'int':
            env.raises('not of the type', TypeError, lambda: setattr(a, 'f', 3))
        elif what == 'read only':
            env.raises('read only', AttributeError, lambda: setattr(a, 'ro', x))
        elif what == 'delete':
            del a.d
            cur = 0
        else:
            env.raises('undeletable', AttributeError, lambda: delattr(a, 'f'))
        env.eq('value', a.f, cur)
        env.eq('value by the other name', a.ro, cur)
        env.check('setter calls', len(log) == sets)
    env.eq('other objects keep theirs', other.f, 0)


def accessors(env, n, explicit):
    """accessors added in any order: the last one of each kind is used, the others keep theirs"""
    from hwtypes.util import TypedProperty
    import hwtypes as h
    T = h.BitVector[4]
    log = []

    def get(i):
        def g(self):
            log.append(('get', i))
            return T(i)
        g.__doc__ = f'text {i}'
        return g

    def put(i):
        return lambda self, v: log.append(('set', i, v))

    def drop(i):
        return lambda self: log.append(('delete', i))
    cur = {'getter': None, 'setter': None, 'deleter': None}
    if explicit:
        has = env.pick('given', range(8))
        fs = [f(9) if has >> j & 1 else None for j, f in enumerate((get, put, drop))]
        cur = {k: 9 if f else None for k, f in zip(cur, fs)}
        p = TypedProperty(T)(*fs)
    else:
        p = TypedProperty(T)(get(8))
        cur['getter'] = 8
    for i in range(n):
        k = env.pick(f'step {i}', ['getter', 'setter', 'deleter'])
        q = getattr(p, k)({'getter': get, 'setter': put, 'deleter': drop}[k](i))
        env.check('another property', q is not p and type(q) is TypedProperty)
        p = q
        cur[k] = i
    A = type('A', (), {'f': p})
    env.check('the class shows the type', A.f is T)
    a, x = A(), env.bv(T, 'x')
    if cur['getter'] is None:
        env.raises('unreadable', AttributeError, lambda: a.f)
    else:
        env.same('read', a.f, T, cur['getter'])
    if cur['setter'] is None:
        env.raises('read only', AttributeError, lambda: setattr(a, 'f', x))
    else:
        a.f = x
        env.raises('wrong type', TypeError, lambda: setattr(a, 'f', 1))
    if cur['deleter'] is None:
        env.raises('undeletable', AttributeError, lambda: delattr(a, 'f'))
    else:
        del a.f
    want = [(w, cur[k]) for w, k in (('get', 'getter'), ('set', 'setter'), ('delete', 'deleter')) if cur[k] is not None]
    env.check('calls', [t[:2] for t in log] == want)
    env.check('the assigned object', all(t[2] is x for t in log if t[0] == 'set'))


@prop('U01', bounds='up to two entries over three keys with two values each, in any order and form; every order of up to three '
      'getter, setter and deleter declarations; histories of three assignments',
      world='fp', outside='unhashable keys; more entries', assumptions=[])
def u01(tier):
    n, v = (2, 1) if tier == 'quick' else (3, 1)
    for left in ('plain', 'ordered'):
        for right in ('plain', 'ordered', 'dict'):
            for form in ('pairs', 'mapping', 'copy', 'keywords'):
                yield Case(f'frozen[{left},{right},{form}]', frozen, dict(left=left, right=right, form=form, nmax=n, vmax=v))
    for n in range(4 if tier == 'quick' else 6):
        for e in (False, True):
            yield Case(f'accessors[{n},{e}]', accessors, dict(n=n, explicit=e))
    yield Case('typed property', typed_property, dict(nmax=3))
