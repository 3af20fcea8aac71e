"""What a harness sees.  The same harness runs symbolically (SymEnv) and on the
untouched code with concrete inputs (PlainEnv, used to replay counterexamples).
"""
import itertools
import time
import types

import z3

from . import sym
from .sym import SymBool, SymInt, SymZ, Unsupported, Node, const, from_bv, mkbool, mkint, n_ite, n_trunc, zbool, zint


class Skip(BaseException):
    """input outside the assumptions (plain mode)"""


class Family:
    def __init__(self, name, Bit, BV, U, S):
        self.name, self.Bit, self.BV, self.U, self.S = name, Bit, BV, U, S

    def of(self, kind):
        return {'bv': self.BV, 'u': self.U, 's': self.S}[kind]


def families():
    import hwtypes as h
    from hwtypes import bit_vector, smt_bit_vector, z3_bit_vector
    out = {}
    for n, m in (('c', bit_vector), ('smt', smt_bit_vector), ('z3', z3_bit_vector)):
        f = m._Family_
        out[n] = Family(n, f.Bit, f.BitVector, f.Unsigned, f.Signed)
    return out


_uniq = itertools.count()
_z3conv = None


def z3_of_pysmt(f):
    global _z3conv
    if _z3conv is None:
        import pysmt.shortcuts as smt
        from pysmt.solvers.z3 import Z3Converter
        _z3conv = Z3Converter(smt.get_env(), z3.main_ctx())
    return _z3conv.convert(f)


class BaseEnv:
    symbolic = False

    def __init__(self):
        self._subst = []
        self.fams = families()
        self._keep = []

    # -- inputs ------------------------------------------------------------------
    def bv(self, T, name):
        """arbitrary value of a sized bit-vector type of any family"""
        w = T.size
        F = self._famof(T)
        if F == 'c':
            return T(self.int(name, 0, (1 << w) - 1))
        u = f'{name}!{next(_uniq)}'
        o = T(name=u)
        self._keep.append(o)
        self._bind(z3.BitVec(u, w), name, w)
        return o

    def bit(self, T, name):
        if self._famof(T) == 'c':
            return T(self.bool(name))
        u = f'{name}!{next(_uniq)}'
        o = T(name=u)
        self._keep.append(o)
        self._bind(z3.Bool(u), name, None)
        return o

    def bv_all(self, kind, w, name):
        """one arbitrary value as a vector of each family"""
        v = self.int(name, 0, (1 << w) - 1)
        t = v.n.low(w) if type(v) is SymInt else z3.BitVecVal(v, w)
        out = {'c': self.fams['c'].of(kind)[w](v)}
        for f in ('smt', 'z3'):
            u = f'{name}!{next(_uniq)}'
            o = self.fams[f].of(kind)[w](name=u)
            self._keep.append(o)
            self._subst.append((z3.BitVec(u, w), t))
            out[f] = o
        return out

    def smtint(self, name):
        """arbitrary value of the unbounded integer type"""
        import hwtypes
        u = f'{name}!{next(_uniq)}'
        o = hwtypes.SMTInt(name=u)
        self._keep.append(o)
        self._bind(z3.Int(u), name, 'int')
        return o

    def _famof(self, T):
        for n, f in self.fams.items():
            if T.get_family().BitVector is f.BV:
                return n
        raise AssertionError(T)

    # -- observation ---------------------------------------------------------------
    def term(self, obj):
        """z3 term behind a pysmt/z3 backed object, over the harness inputs"""
        t = obj.value if hasattr(obj, 'value') else obj._value
        if not isinstance(t, z3.AstRef):
            t = z3_of_pysmt(t)
        return z3.simplify(z3.substitute(t, *self._subst)) if self._subst else z3.simplify(t)

    def val(self, obj):
        t = type(obj)
        if t in (int, bool, SymInt, SymBool, SymZ):
            return obj
        if t is tuple:
            return tuple(self.val(o) for o in obj)
        import hwtypes as h
        if isinstance(obj, h.Bit):
            return self.tobool(obj)
        if isinstance(obj, h.BitVector):
            return obj.as_uint()
        if isinstance(obj, (h.AbstractBit, h.AbstractBitVector, h.SMTInt)) or hasattr(obj, '_value'):
            return self.lift(self.term(obj))
        raise AssertionError(f'val of {t}')

    def sval(self, obj, w):
        v = self.val(obj)
        return self.signed(v, w)

    # -- reference semantics --------------------------------------------------------
    @staticmethod
    def mask(v, w):
        return v & ((1 << w) - 1)

    def signed(self, v, w):
        """two's complement reading of 0 <= v < 2**w"""
        if w == 0:
            return 0
        if type(v) is SymInt:
            neg = ((v >> (w - 1)) & 1) != 0
            return v - self.ite(neg, 1 << w, 0)
        return v - (1 << w) if v >= (1 << (w - 1)) else v

    def signed_split(self, v, w):
        """as signed(), exploring the two signs separately"""
        return v - (1 << w) if self.split(((v >> (w - 1)) & 1) != 0) else v

    @staticmethod
    def ite(c, a, b):
        """c ? a : b over ints/bools without splitting"""
        if type(c) is SymInt:
            c = (c != 0)
        if type(c) is not SymBool:
            return a if c else b
        if type(a) in (bool, SymBool) and type(b) in (bool, SymBool):
            return mkbool(z3.simplify(z3.If(c.t, zbool(a), zbool(b))))
        if type(a) is SymZ or type(b) is SymZ:
            return SymZ(z3.If(c.t, zint(a), zint(b)))
        return mkint(n_ite(c.t, sym.node_of(a), sym.node_of(b)))

    @staticmethod
    def both(*cs):
        if any(type(c) is SymBool for c in cs):
            return mkbool(z3.simplify(z3.And([zbool(c) for c in cs])))
        return all(bool(c) for c in cs)

    @staticmethod
    def either(*cs):
        if any(type(c) is SymBool for c in cs):
            return mkbool(z3.simplify(z3.Or([zbool(c) for c in cs])))
        return any(bool(c) for c in cs)

    @staticmethod
    def no(c):
        if type(c) is SymBool:
            return mkbool(z3.simplify(z3.Not(c.t)))
        return not c

    def implies(self, a, b):
        return self.either(self.no(a), b)

    @staticmethod
    def iff(a, b):
        """equality of two truth values"""
        if type(a) is SymBool or type(b) is SymBool:
            return mkbool(z3.simplify(zbool(a) == zbool(b)))
        return bool(a) == bool(b)

    @staticmethod
    def bit_of(v, i):
        return ((v >> i) & 1)

    # -- checks -----------------------------------------------------------------------
    def eq(self, label, actual, expected):
        a, e = self.val(actual), self.val(expected)
        ab, eb = type(a) in (bool, SymBool), type(e) in (bool, SymBool)
        if ab and eb:
            self.check(label, self.iff(a, e), (a, e))
        else:
            self.check(label, a == e, (a, e))

    def is_a(self, label, obj, T):
        self.check(label + ': result type', type(obj) is T, f'{type(obj)!r} is not {T!r}')

    def same(self, label, obj, T, expected):
        """obj has exactly type T and denotes the value expected"""
        self.is_a(label, obj, T)
        self.eq(label, obj, expected)

    def raises(self, label, exc, fn, *a, **k):
        try:
            r = fn(*a, **k)
        except exc as e:
            self.check(label, True)
            return e
        except Exception as e:
            self.check(f'{label}: raised {type(e).__name__}', False, repr(e))
            return e
        self.check(f'{label}: nothing raised', False)

    def consistent(self, label, facts):
        """some interpretation of the uninterpreted functions satisfies all the (ground) facts"""
        s = z3.SolverFor('QF_UFBV')
        s.set('timeout', 120000)
        s.add(*facts)
        t0 = time.time()
        r = s.check()
        if self.symbolic:
            self.e.stats['queries'] += 1
            self.e.stats['solver_s'] += time.time() - t0
        if r == z3.unknown:
            raise Unsupported('solver gave no answer')
        self.check(label, r == z3.sat)

    def unchanged(self, label, obj, before):
        self.eq(label + ': operand unchanged', obj, before)


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, engine, ground=False):
        super().__init__()
        self.e = engine
        self.ground = ground

    def int(self, name, lo, hi):
        e = self.e
        if name in e.inputs:
            raise AssertionError('duplicate input ' + name)
        if lo == hi:
            return lo
        w, s = sym.bits_for(lo, hi)
        t = z3.BitVec(name, w)
        e.inputs[name] = ('s' if s else 'u', t)
        n = Node('var', (t, w, s), lo, hi)
        full = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        cs = []
        if lo != full[0]:
            cs.append(t >= lo if s else z3.UGE(t, lo))
        if hi != full[1]:
            cs.append(t <= hi if s else z3.ULE(t, hi))
        if cs:
            e.assume(mkbool(z3.And(cs)))
        if self.ground:
            return e.concretize(n)
        return SymInt(n)

    def bool(self, name):
        t = z3.Bool(name)
        self.e.inputs[name] = ('bool', t)
        if self.ground:
            return self.e.fork(t)
        return SymBool(t)

    def zint(self, name):
        t = z3.Int(name)
        self.e.inputs[name] = ('u', t)
        return SymZ(t)

    def pick(self, name, seq):
        seq = list(seq)
        i = self.int(name, 0, len(seq) - 1)
        return seq[i if type(i) is int else i.concretize()]

    def concrete(self, x):
        return sym.plain(x)

    def assume(self, c):
        self.e.assume(c)

    def split(self, c):
        return c if type(c) is bool else self.e.split(c)

    def check(self, label, cond, detail=''):
        self.e.check(label, cond, detail)

    def note(self, label):
        self.e.reached.add(label)

    def known_deviation(self, label, holds, deviates):
        self.e.known_deviation(label, holds, deviates)

    def lift(self, t):
        if z3.is_bool(t):
            return mkbool(t)
        if z3.is_bv(t):
            return mkint(from_bv(t)) if not z3.is_bv_value(t) else t.as_long()
        if z3.is_int(t):
            return t.as_long() if z3.is_int_value(t) else SymZ(t)
        raise AssertionError(t.sort())

    def tobool(self, obj):
        from .runtime import sx_bool
        return sx_bool(obj)

    def toint(self, obj):
        from .runtime import sx_int
        return sx_int(obj)

    def tostr(self, obj):
        from .runtime import sx_str
        return sx_str(obj)

    def torepr(self, obj):
        from .runtime import sx_repr
        return sx_repr(obj)

    def tohash(self, obj):
        from .runtime import sx_hash
        return sx_hash(obj)

    def iff_val(self, t):
        return t

    def _bind(self, const_, name, w):
        e = self.e
        if w is None:
            v = z3.Bool(name)
            e.inputs[name] = ('bool', v)
            if self.ground:
                v = z3.BoolVal(e.fork(v))
        elif w == 'int':
            v = z3.Int(name)
            e.inputs[name] = ('u', v)
        else:
            v = z3.BitVec(name, w)
            e.inputs[name] = ('u', v)
            if self.ground:
                v = z3.BitVecVal(e.concretize(from_bv(v)), w)
        self._subst.append((const_, v))


class PlainEnv(BaseEnv):
    def __init__(self, inputs):
        super().__init__()
        self.in_ = inputs
        self.failures = []
        self.known = set()
        self.reached = set()

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = self.in_.get(name, lo)
        if not lo <= v <= hi:
            raise Skip()
        return v

    def bool(self, name):
        return bool(self.in_.get(name, False))

    def zint(self, name):
        return self.in_.get(name, 0)

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.int(name, 0, len(seq) - 1)]

    def concrete(self, x):
        return x

    def assume(self, c):
        if not c:
            raise Skip()

    def split(self, c):
        return bool(c)

    def check(self, label, cond, detail=''):
        self.reached.add(label)
        if not cond:
            self.failures.append((label, repr(detail)[:300]))

    def note(self, label):
        self.reached.add(label)

    def known_deviation(self, label, holds, deviates):
        self.reached.add(label)
        if not holds:
            if deviates:
                self.known.add(label)
            else:
                self.failures.append((label, 'fails in a way the listed finding does not describe'))

    def lift(self, t):
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if z3.is_bv_value(t) or z3.is_int_value(t):
            return t.as_long()
        raise AssertionError(f'not a value: {t}')

    def tobool(self, obj):
        return bool(obj)

    def toint(self, obj):
        return int(obj)

    def tostr(self, obj):
        return str(obj)

    def torepr(self, obj):
        return repr(obj)

    def tohash(self, obj):
        return hash(obj)

    def _bind(self, const_, name, w):
        v = self.in_.get(name, 0)
        if w is None:
            v = z3.BoolVal(bool(v))
        elif w == 'int':
            v = z3.IntVal(v)
        else:
            v = z3.BitVecVal(v, w)
        self._subst.append((const_, v))
