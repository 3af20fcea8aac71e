"""Hooks the transformed source calls: Python builtins on symbolic values."""
import functools
import string
import types
import warnings

import z3

from . import sym
from .sym import (Sym, SymBool, SymInt, SymZ, SymStr, SymHash, Unsupported, Node, const, from_bv, has_sym,
                  mkbool, mkint, n_ite, n_add, n_shl, n_trunc, n_shr, c_eq, c_lt, c_le, node_of, zbool, key_eq)

ENTERED = set()


def sx_enter(q):
    ENTERED.add(q)


# ---- conversions ------------------------------------------------------------
def raw_of(x, name):
    m = getattr(type(x), name, None)
    return getattr(m, '__sx_raw__', None)


def sx_bool(*a):
    if not a:
        return False
    x, = a
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt:
        return mkbool(z3.simplify(z3.Not(c_eq(x.n, const(0)))))
    if t is SymZ:
        return mkbool(z3.simplify(x.t != 0))
    if isinstance(x, Sym):
        return bool(x)
    raw = raw_of(x, '__bool__')
    if raw is not None:
        r = raw(x)
        if type(r) is SymBool:
            return r
        if type(r) is not bool:
            raise TypeError(f'__bool__ should return bool, returned {sx_type(r).__name__}')
        return r
    return bool(x)


def sx_int(*a, **k):
    if not a:
        return int(**k)
    x = a[0]
    t = type(x)
    if len(a) == 1 and not k:
        if t is SymInt or t is SymZ:
            return x
        if t is SymBool:
            return x.as_int()
        if t is SymStr:
            return int_of_str(x, 10)
        if isinstance(x, Sym):
            return int(x)
        for nm in ('__int__', '__index__'):
            raw = raw_of(x, nm)
            if raw is not None:
                r = raw(x)
                tr = type(r)
                if tr in (SymInt, SymZ):
                    return r
                if tr is SymBool:
                    return r.as_int()
                if not isinstance(r, int):
                    raise TypeError(f'{nm} returned non-int (type {tr.__name__})')
                return int(r)
        hook = getattr(type(x), '__sx_int__', None)
        if hook is not None:
            return hook(x)
        return int(x)
    base = a[1] if len(a) > 1 else k.get('base', 10)
    if t is SymStr:
        if isinstance(base, Sym):
            base = sym.plain(base)
        return int_of_str(x, base)
    return int(*[sym.plain(i) for i in a], **{i: sym.plain(v) for i, v in k.items()})


def int_of_str(s, base):
    cs = s.chars()
    if cs is None:
        if base == 10 and len(s.parts) == 1 and type(s.parts[0]) is not str:
            return mkint(s.parts[0])
        return int(s.concretize(), base)
    txt = ''.join(c if type(c) is str else '0' for c in cs)
    neg = False
    i = 0
    if txt[:1] in ('-', '+') and type(cs[0]) is str:
        neg = txt[0] == '-'
        i = 1
    if base in (2, 0) and txt[i:i + 2].lower() == '0b' and all(type(c) is str for c in cs[i:i + 2]):
        i += 2
        base = 2
    elif base == 0:
        return int(s.concretize(), base)
    acc = const(0)
    if i == len(cs):
        raise ValueError('invalid literal for int()')
    for c in cs[i:]:
        if type(c) is str:
            if c == '_' or c.isspace():
                return int(s.concretize(), base)
            d = const(int(c, base))
        else:
            if c.hi >= base:
                return int(s.concretize(), base)
            d = c
        acc = n_add(n_shl(acc, const(1)), d) if base == 2 else n_add(sym.n_mul(acc, const(base)), d)
    r = mkint(acc)
    return -r if neg else r


def _strnode(x):
    return SymStr([x])


def sx_str(*a, **k):
    if len(a) != 1 or k:
        return str(*a, **k)
    x, = a
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return SymStr([x.n])
    if t is SymBool:
        return 'True' if bool(x) else 'False'
    if isinstance(x, Sym):
        return str(x)
    raw = raw_of(x, '__str__')
    if raw is not None:
        return raw(x)
    if type(x).__str__ is object.__str__:
        return sx_repr(x)
    return str(x)


def sx_repr(x):
    t = type(x)
    if t is SymInt:
        return SymStr([x.n])
    if isinstance(x, Sym):
        return repr(x)
    raw = raw_of(x, '__repr__')
    if raw is not None:
        return raw(x)
    if t in (tuple, list) and has_deep(x):
        op, cl = ('(', ')') if t is tuple else ('[', ']')
        parts = [op]
        for i, v in enumerate(x):
            if i:
                parts.append(', ')
            parts.append(sx_repr(v))
        if t is tuple and len(x) == 1:
            parts.append(',')
        parts.append(cl)
        return join_parts(parts)
    return repr(x)


def has_deep(x):
    if isinstance(x, Sym):
        return True
    if type(x) in (tuple, list):
        return any(has_deep(i) for i in x)
    return raw_of(x, '__repr__') is not None or raw_of(x, '__hash__') is not None


def join_parts(parts):
    out = []
    anysym = False
    for p in parts:
        if type(p) is SymStr:
            out.extend(p.parts)
            anysym = True
        elif isinstance(p, Node):
            out.append(p)
            anysym = True
        else:
            out.append(p)
    if not anysym:
        return ''.join(out)
    s = SymStr(out)
    if all(type(p) is str for p in s.parts):
        return ''.join(s.parts)
    return s


def sx_hash(x):
    t = type(x)
    if isinstance(x, SymHash):
        return x
    if isinstance(x, Sym):
        return SymHash(x)
    raw = raw_of(x, '__hash__')
    if raw is not None:
        return raw(x)
    if t in (tuple, frozenset) and has_deep(x):
        items = tuple(sx_hash(i) for i in x)
        if any(isinstance(i, Sym) for i in items):
            return SymHash((t.__name__,) + items)
        return hash(x)
    return hash(x)


def sx_type(*a, **k):
    if len(a) == 1 and not k:
        x, = a
        t = type(x)
        if t is SymBool:
            return bool
        if t in (SymInt, SymZ, SymHash):
            return int
        if t is SymStr:
            return str
        return t
    return type(*a, **k)


def digits(v, base):
    """SymStr of |v| in base 2 without padding (splits on the bit length)"""
    n = v.n
    neg = False
    if n.lo is None or n.lo < 0:
        if bool(v < 0):
            v, neg = -v, True
            n = v.n if type(v) is SymInt else const(v)
    bl = mkint(sym.n_bl(n))
    k = max(bl.concretize() if type(bl) is SymInt else bl, 1)
    return neg, bits_msb(n, k)


def bits_msb(n, k):
    return [n_trunc(n_shr(n, const(i)), 1) for i in reversed(range(k))]


def sx_bin(x):
    if type(x) is SymBool:
        x = x.as_int()
    if type(x) is not SymInt:
        raw = raw_of(x, '__index__')
        if raw is None:
            return bin(x)
        x = raw(x)
        if type(x) is not SymInt:
            return bin(x)
    neg, ds = digits(x, 2)
    return join_parts([('-' if neg else '') + '0b'] + ds)


def sx_format(x, spec=''):
    if type(spec) is SymStr:
        spec = spec.concretize()
    if spec == '':
        return sx_str(x)
    if type(x) is SymBool:
        x = x.as_int()
    if type(x) is SymInt and spec.endswith('b'):
        body = spec[:-1]
        prefix = ''
        if body.startswith('#'):
            prefix, body = '0b', body[1:]
        if body == '' or (body.isdigit() and body.startswith('0')):
            w = (int(body) if body else 0) - len(prefix)
            n = x.n
            if n.lo is not None and n.lo >= 0:
                if w > 0 and bool(x < (1 << w)):
                    return join_parts([prefix] + bits_msb(n, w))
            neg, ds = digits(x, 2)
            if not neg:
                return join_parts([prefix] + ['0'] * (w - len(ds)) + ds)
    if type(x) is SymInt and spec == 'd':
        return SymStr([x.n])
    if isinstance(x, Sym):
        x = sym.plain(x)
    return format(x, spec)


def sx_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = sx_repr(v)
        elif conv == 115:
            v = sx_str(v)
        elif conv == 97:
            v = ascii(v)
        if type(v) is SymStr and spec == '':
            out.append(v)
        else:
            out.append(sx_format(v, spec))
    return join_parts(out)


def str_format(fmt, a, k):
    if not any(has_deep(x) for x in a) and not any(has_deep(x) for x in k.values()):
        return fmt.format(*a, **k)
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            v, _ = string.Formatter().get_field(field, a, k)
        if conv == 'r':
            v = sx_repr(v)
        elif conv == 's':
            v = sx_str(v)
        if spec and '{' in spec:
            spec = spec.format(*a, **k)
        out.append(v if type(v) is SymStr and not spec else sx_format(v, spec or ''))
    return join_parts(out)


def str_join(sep, it):
    items = list(it)
    if not any(type(i) is SymStr for i in items):
        return sep.join(items)
    out = []
    for i, x in enumerate(items):
        if i and sep:
            out.append(sep)
        if not isinstance(x, str) and type(x) is not SymStr:
            raise TypeError('sequence item: expected str instance')
        out.append(x)
    return join_parts(out)


# ---- operators ---------------------------------------------------------------
def sx_not(x):
    b = sx_bool(x) if (isinstance(x, Sym) or raw_of(x, '__bool__') is not None) else x
    if type(b) is SymBool:
        return mkbool(z3.simplify(z3.Not(b.t)))
    return not b


def sx_in(x, c):
    if isinstance(x, (SymInt, SymBool)):
        if type(c) in (set, frozenset, tuple, list):
            alts = []
            for e in c:
                if node_of(e) is None:
                    if isinstance(e, Sym) or type(e).__module__.startswith('hwtypes'):
                        return x in c
                    continue
                alts.append(zbool(x == e))
            return mkbool(z3.simplify(z3.Or(alts))) if alts else False
        if type(c) is range and c.step == 1:
            return mkbool(z3.simplify(z3.And(c_le(const(c.start), node_of(x)), c_lt(node_of(x), const(c.stop)))))
    m = getattr(type(c), '__contains__', None)
    raw = getattr(m, '__sx_raw__', None)
    if raw is not None:
        return sx_bool(raw(c, x))
    return x in c


def sx_is(x, c):
    if type(x) is SymBool:
        return x if c else mkbool(z3.simplify(z3.Not(x.t)))
    return x is c


def sx_novalue(x):
    if not isinstance(x, Sym):
        bool(x)


_INTS = (int, bool, SymInt, SymBool)
_PURE_FUNCS = (int, bool, len, abs, min, max, pow)


def simple(v):
    """reading and combining such values has no effect and runs no code of the repository"""
    t = type(v)
    if t in _INTS or t in (str, SymStr):
        return True
    if t in (list, tuple):
        return all(simple(x) for x in v)
    return any(v is f for f in _PURE_FUNCS)


def merged(c, a, b):
    """the value that is a where c and b elsewhere; None when there is no single term for it"""
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if ta in (bool, SymBool) and tb in (bool, SymBool):
        return mkbool(z3.simplify(z3.If(c, zbool(a), zbool(b))))
    if ta in (int, SymInt) and tb in (int, SymInt):
        return mkint(n_ite(c, node_of(a), node_of(b)))
    if ta is str and tb is str:
        if a == b:
            return a
        if len(a) == len(b) == 1 and a in '0123456789' and b in '0123456789':
            return SymStr([n_ite(c, const(int(a)), const(int(b)))])
    return None


def _condition(c):
    """the symbolic truth value of a test, or None when it is not symbolic"""
    if type(c) is SymBool:
        return c
    if type(c) is SymInt or raw_of(c, '__bool__') is not None:
        b = sx_bool(c)
        return b if type(b) is SymBool else None
    return None


def _both(c, reads, f, g):
    """the results of both branches, when evaluating them changes nothing"""
    try:
        if not all(simple(v) for v in reads()):
            return None
        return f(), g()
    except (Exception, Unsupported):
        return None


def sx_ifexp(c, reads, f, g):
    b = _condition(c)
    if b is not None:
        r = _both(b, reads, f, g)
        if r is not None:
            m = merged(b.t, *r)
            if m is not None:
                return m
        c = b
    return f() if c else g()


def sx_merge(c, reads, f, g):
    """values of the assigned names after an if statement, None when it has to be executed"""
    b = _condition(c)
    if b is None:
        return None
    r = _both(b, reads, f, g)
    if r is None:
        return None
    out = tuple(merged(b.t, x, y) for x, y in zip(*r))
    return None if any(o is None for o in out) else out


def sx_filter(items):
    for c, reads, f in items:
        b = _condition(c)
        if b is not None:
            r = _both(b, reads, f, lambda: 0)
            if r is not None and type(r[0]) in _INTS:
                m = merged(b.t, r[0] if type(r[0]) in (int, SymInt) else sx_int(r[0]), 0)
                yield m
                continue
            c = b
        if c:
            yield f()


def sx_any(it):
    return _any(it, True)


def sx_all(it):
    return _any(it, False)


def _any(it, stop):
    """any (stop is True) or all, without splitting on symbolic elements"""
    acc = None
    it = iter(it)
    while True:
        try:
            x = next(it)
        except StopIteration:
            break
        except Exception:
            if acc is not None and bool(mkbool(z3.simplify(acc))):
                return stop
            raise
        b = _condition(x)
        if b is None:
            if bool(x) == stop:
                return stop
        else:
            t = b.t if stop else z3.Not(b.t)
            acc = t if acc is None else z3.Or(acc, t)
    if acc is None:
        return not stop
    return mkbool(z3.simplify(acc if stop else z3.Not(acc)))


def sx_len(x):
    raw = raw_of(x, '__len__')
    if raw is not None:
        return raw(x)
    return len(x)


def native(name, r):
    """turn a raw dunder result into what the interpreter insists on"""
    t = type(r)
    if name == '__bool__':
        return bool(r) if t is SymBool else r
    if name in ('__int__', '__index__', '__len__'):
        if t is SymInt:
            return r.concretize()
        if t is SymBool:
            return int(bool(r))
        return r
    if name == '__hash__':
        return hash(sym.plain(r.key)) if t is SymHash else (r.concretize() if t is SymInt else r)
    if t is SymStr:
        return r.concretize()
    if t is SymBool:
        return bool(r)
    return r


def sx_dunder(fn):
    if not isinstance(fn, types.FunctionType):
        return fn
    name = fn.__name__

    @functools.wraps(fn)
    def wrapper(*a, **k):
        return native(name, fn(*a, **k))
    wrapper.__sx_raw__ = fn
    return wrapper


def sx_warn(*a, **k):
    return None


def sx_map(f, *its):
    if id(f) in SPECIAL:
        f = SPECIAL[id(f)]
    return map(f, *its)


def sx_reduce(f, *a):
    if id(f) in SPECIAL:
        f = SPECIAL[id(f)]
    return functools.reduce(f, *a)


def sx_range(*a):
    return range(*a)


def sx_getattr(o, n, *d):
    return getattr(o, n, *d)


SPECIAL = {}
_KEEP = []


def special(f, h):
    _KEEP.append(f)
    SPECIAL[id(f)] = h


for _f, _h in ((int, sx_int), (bool, sx_bool), (str, sx_str), (repr, sx_repr), (hash, sx_hash), (type, sx_type),
               (bin, sx_bin), (format, sx_format), (warnings.warn, sx_warn), (map, sx_map), (len, sx_len), (any, sx_any), (all, sx_all),
               (functools.reduce, sx_reduce)):
    special(_f, _h)

_int_descr = {n: getattr(int, n) for n in dir(int)}
_BM = type(''.join)
_MD = type(str.join)
_WD = type(int.__add__)


def sx_call(f, *a, **k):
    h = SPECIAL.get(id(f))
    if h is not None:
        return h(*a, **k)
    t = type(f)
    if t is _BM:
        s = f.__self__
        if type(s) is str:
            n = f.__name__
            if n == 'join':
                return str_join(s, *a)
            if n == 'format':
                return str_format(s, a, k)
    elif (t is _MD or t is _WD) and a and isinstance(a[0], Sym):
        return getattr(a[0], f.__name__)(*a[1:], **k)
    elif t is types.MethodType and f.__func__ is object.__init_subclass__:
        return f(*a, **k)
    return f(*a, **k)


HOOKS = {'__sx_call__': sx_call, '__sx_not__': sx_not, '__sx_in__': sx_in, '__sx_is__': sx_is,
         '__sx_fstr__': sx_fstr, '__sx_dunder__': sx_dunder, '__sx_enter__': sx_enter,
         '__sx_novalue__': sx_novalue, '__sx_ifexp__': sx_ifexp, '__sx_merge__': sx_merge, '__sx_filter__': sx_filter}
