"""Imports hwtypes from the repository, either untouched or for symbolic runs."""
import sys
import warnings

from . import transform

_loaded = None
CURRENT = [None]      # the Env of the running harness (symbolic world)


def load(symbolic, fp=False):
    global _loaded
    if _loaded is not None:
        assert _loaded == (symbolic, fp)
        return
    sys.setrecursionlimit(20000)
    warnings.simplefilter('ignore')
    transform.install(symbolic)
    if symbolic and fp:
        from . import fpmodel
        sys.modules['gmpy2'] = fpmodel.module()
    import hwtypes
    if symbolic:
        patch_backends()
    assert hwtypes.__file__.startswith(transform.REPO), hwtypes.__file__
    import hwtypes.smt_utils, hwtypes.adt_util, hwtypes.bit_vector_util  # noqa
    _loaded = (symbolic, fp)


def patch_backends():
    """Constant constructors of the two term libraries accept symbolic ints."""
    import z3
    import z3.z3 as zz
    from . import env, sym
    from .sym import SymInt, SymBool, mkbool, c_lt, const
    real_val, real_bool = z3.BitVecVal, z3.BoolVal

    def BitVecVal(val, bv, ctx=None):
        if type(val) is SymBool:
            val = val.as_int()
        if type(val) is SymInt:
            w = bv.size() if isinstance(bv, z3.SortRef) else bv
            return z3.simplify(val.n.low(w))
        return real_val(val, bv, ctx)

    def BoolVal(val, ctx=None):
        if type(val) is SymBool:
            return val.t
        if type(val) is SymInt:
            return z3.Not(sym.c_eq(val.n, const(0)))
        return real_bool(val, ctx)
    for m in (z3, zz):
        m.BitVecVal = BitVecVal
        m.BoolVal = BoolVal

    from hwtypes.bit_vector_abc import AbstractBitVectorMeta as M
    real_get = M.__getitem__

    def __getitem__(cls, idx):
        # sizes of types are values, not terms: split over them
        return real_get(cls, idx.concretize() if type(idx) is SymInt else idx)
    M.__getitem__ = __getitem__

    import pysmt.formula
    import pysmt.shortcuts as smt
    from pysmt.exceptions import PysmtValueError
    FM = pysmt.formula.FormulaManager
    real_bv, real_Bool, real_Int = FM.BV, FM.Bool, FM.Int

    def fresh(T, term):
        n = f'const!{next(env._uniq)}'
        s = smt.Symbol(n, T)
        CURRENT[0]._subst.append((env.z3_of_pysmt(s), term))
        return s

    def BV(self, value, width=None):
        if type(value) is SymBool:
            value = value.as_int()
        if type(value) is SymInt:
            # documented contract of pysmt's BV(): -2**(w-1) <= value < 2**w
            if bool(value < 0):
                if bool(value < -(1 << (width - 1))):
                    raise PysmtValueError('Cannot express value in bits')
            elif bool(value >= (1 << width)):
                raise PysmtValueError('Cannot express value in bits')
            return fresh(pysmt.typing.BVType(width), z3.simplify(value.n.low(width)))
        return real_bv(self, value, width)

    def Bool(self, value):
        if type(value) is SymBool:
            return fresh(pysmt.typing.BOOL, value.t)
        return real_Bool(self, value)

    def Int(self, value):
        if type(value) in (SymInt, SymBool, sym.SymZ):
            return fresh(pysmt.typing.INT, sym.zint(value))
        return real_Int(self, value)
    FM.BV, FM.Bool, FM.Int = BV, Bool, Int
