From 68d5c26a9dd4ff6efffeb9701ec246ab36e1bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 01/51] fix: shifting a wide vector left by a huge amount ran
 out of memory

---
 hwtypes/bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index a733582..d080341 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -283,7 +283,7 @@ class BitVector(AbstractBitVector):
 
     @bv_cast
     def bvshl(self, other):
-        return type(self)(self.as_uint() << other.as_uint())
+        return type(self)(self.as_uint() << min(other.as_uint(), self.size))
 
     @bv_cast
     def bvlshr(self, other):
-- 
2.43.0


From 29a1eeab8e5295670aa8428f6e6eb048752acd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 02/51] fix: reflected right shift swapped its operands

---
 hwtypes/bit_vector.py     | 2 +-
 hwtypes/smt_bit_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index d080341..49f46e1 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -414,7 +414,7 @@ class BitVector(AbstractBitVector):
     __rlshift__ = dispatch_roper(__lshift__)
 
     __rshift__ = dispatch_oper(bvlshr)
-    __rrshift__ = dispatch_oper(__rshift__)
+    __rrshift__ = dispatch_roper(__rshift__)
 
     def __neg__(self): return self.bvneg()
 
diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index dc4acfb..8c42d3c 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -532,7 +532,7 @@ class SMTBitVector(AbstractBitVector):
     __rlshift__ = dispatch_roper(__lshift__)
 
     __rshift__ = dispatch_oper(bvlshr)
-    __rrshift__ = dispatch_oper(__rshift__)
+    __rrshift__ = dispatch_roper(__rshift__)
 
     def __neg__(self): return self.bvneg()
 
-- 
2.43.0


From 77a13a6675cca771dfa47f949d4826a133106c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 03/51] fix: reflected operators raised NameError for operands
 that cannot be coerced

---
 hwtypes/bit_vector.py     | 2 +-
 hwtypes/smt_bit_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 49f46e1..08a9646 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -165,7 +165,7 @@ def dispatch_roper(method: Method):
     def roper(self, other):
         try:
             other = _coerce(type(self), other)
-        except inconsistentsizeerror as e:
+        except InconsistentSizeError as e:
             raise e from None
         except TypeError:
             return NotImplemented
diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 8c42d3c..228495a 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -211,7 +211,7 @@ def dispatch_roper(method: Method):
     def roper(self, other):
         try:
             other = _coerce(type(self), other)
-        except inconsistentsizeerror as e:
+        except InconsistentSizeError as e:
             raise e from None
         except TypeError:
             return NotImplemented
-- 
2.43.0


From 4c3f406772443bfa5e902a8d672dabbe18fbd5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 04/51] fix: SMTBit had no reflected xor

---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 228495a..5b0c5cc 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -148,7 +148,7 @@ class SMTBit(AbstractBit):
         return type(self)(smt.Xor(self.value, other.value))
 
     @bit_cast
-    def __xor__(self, other : 'SMTBit') -> 'SMTBit':
+    def __rxor__(self, other : 'SMTBit') -> 'SMTBit':
         return type(self)(smt.Xor(other.value, self.value))
 
     def ite(self, t_branch, f_branch):
-- 
2.43.0


From f2f52e31c8768d60415139b7ff4cf87776b5d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 05/51] fix: repeat of pysmt and z3 vectors built a value of
 the wrong size

---
 hwtypes/smt_bit_vector.py | 2 +-
 hwtypes/z3_bit_vector.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 5b0c5cc..0e5f605 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -560,7 +560,7 @@ class SMTBitVector(AbstractBitVector):
 
     @int_cast
     def repeat(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRepeat(self.value, other))
+        return type(self).unsized_t[self.size * other](smt.get_env().formula_manager.BVRepeat(self.value, other))
 
     @int_cast
     def sext(self, ext):
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 582d6a8..64b663d 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -494,7 +494,7 @@ class z3BitVector(AbstractBitVector):
 
     @int_cast
     def repeat(self, n):
-        return type(self)(z3.RepeatBitVec(n, self.value))
+        return type(self).unsized_t[self.size * n](z3.RepeatBitVec(n, self.value))
 
     @int_cast
     def sext(self, ext):
-- 
2.43.0


From 97eb610073e81fd0af6a9450497539f96c9a510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 06/51] fix: sign extension by zero bits raised ValueError

---
 hwtypes/bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 08a9646..58f212e 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -482,7 +482,7 @@ class BitVector(AbstractBitVector):
             raise ValueError()
 
         T = type(self).unsized_t
-        return self.concat(T[1](self[-1]).repeat(ext))
+        return self.concat(T[ext](-int(self[-1])))
 
     def ext(self, ext):
         return self.zext(ext)
-- 
2.43.0


From f4d0548aec3fba5bf2de8acafd2577cf7aabba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 07/51] fix: assigning a tuple item left a list behind,
 breaking equality and hash

---
 hwtypes/adt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 918c530..12ca702 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -49,7 +49,7 @@ class Tuple(metaclass=TupleMeta):
         if isinstance(value, type(self)[idx]):
             v = list(self._value_)
             v[idx] = value
-            self._value_ = v
+            self._value_ = tuple(v)
         else:
             raise TypeError(f'Value {value} is not of type {type(self)[idx]}')
 
-- 
2.43.0


From e19b2e55c4d6c014621a3992747c4b312b41bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 08/51] fix: rebind_type raised NameError for modified types

---
 hwtypes/adt_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 223750a..ee444bd 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -3,7 +3,7 @@ from .adt_meta import BoundMeta
 from .bit_vector_abc import AbstractBitVectorMeta, AbstractBitVector, AbstractBit
 
 from .util import _issubclass
-from hwtypes.modifiers import unwrap_modifier, wrap_modifier, is_modified
+from hwtypes.modifiers import unwrap_modifier, wrap_modifier, is_modified, get_modifier, get_unmodified
 from .adt import Product, Sum, Tuple, Enum, TaggedUnion
 from inspect import isclass
 
@@ -126,7 +126,7 @@ def rebind_type(T, family):
     if not isclass(T):
         return T
     elif is_modified(T):
-        return get_modifier(T)(rebind_type(get_unmodified(T), family, dont_rebind, do_rebind, is_magma))
+        return get_modifier(T)(rebind_type(get_unmodified(T), family))
     elif issubclass(T, AbstractBitVector):
         return rebind_bitvector(T, AbstractBitVector, family.BitVector)
     elif issubclass(T, AbstractBit):
-- 
2.43.0


From 54370d5bb11626fb7ca887347a13d1cfda223a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 09/51] fix: to_sbv of uninterpreted floating point raised
 KeyError

---
 hwtypes/smt_fp_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 4b7acd2..8437c33 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -180,7 +180,7 @@ class SMTFPVector(AbstractFPVector):
 
     def to_sbv(self, size : int) -> SMTBitVector:
         cls = type(self)
-        ufs = _uf_table[cls]['to_usbv']
+        ufs = _uf_table[cls]['to_sbv']
         if size not in ufs:
             name = '.'.join((cls.__name__, f'to_sbv[{size}]'))
             ufs[size] = shortcuts.Symbol(
-- 
2.43.0


From c0694d9b4839078bed9c454e3fcf8ffa9d934872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 10/51] fix: remainder by zero returned the mutable operand
 itself

---
 hwtypes/bit_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 58f212e..20cdb2f 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -382,7 +382,7 @@ class BitVector(AbstractBitVector):
     def bvurem(self, other):
         other = other.as_uint()
         if other == 0:
-            return self
+            return type(self)(self)
         return type(self)(self.as_uint() % other)
 
     @bv_cast
@@ -396,7 +396,7 @@ class BitVector(AbstractBitVector):
     def bvsrem(self, other):
         other = other.as_sint()
         if other == 0:
-            return self
+            return type(self)(self)
         return type(self)(self.as_sint() % other)
 
     def __invert__(self): return self.bvnot()
-- 
2.43.0


From 29b1e2440dfe7a2853a75b9429079576779ccef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 11/51] fix: ext of a signed z3 vector did not sign extend

---
 hwtypes/z3_bit_vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 64b663d..9b2af8f 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -558,6 +558,9 @@ class z3SIntVector(z3NumVector):
     def __le__(self, other):
         return self.bvsle(other)
 
+    def ext(self, other):
+        return self.sext(other)
+
 _Family_ = ht.TypeFamily(z3Bit, z3BitVector, z3UIntVector, z3SIntVector)
 
 
-- 
2.43.0


From 137c4edeae5f571ebb2f797cfcce3ca1c63febc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 12/51] fix: pysmt vectors did not reduce values given by
 __int__ to their size

---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 0e5f605..f29e292 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -285,7 +285,7 @@ class SMTBitVector(AbstractBitVector):
 
         elif hasattr(value, '__int__'):
             value = int(value)
-            self._value = smt.BV(value, self.size)
+            self._value = smt.BV(value % (1 << self.size), self.size)
         else:
             raise TypeError("Can't coerce {} to SMTBitVector".format(type(value)))
 
-- 
2.43.0


From 97ff442f580bed3154cd85442e52479964f8d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 13/51] fix: signed reading of a one bit pysmt vector failed

---
 hwtypes/smt_bit_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index f29e292..deed8ba 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -599,7 +599,8 @@ class SMTBitVector(AbstractBitVector):
     def as_sint(self):
         #Avoids circular import
         from . import SMTInt
-        return SMTInt(self[:-1]) - SMTInt(self & (1<<(self.size-1)))
+        msb = 1 << (self.size - 1)
+        return SMTInt(self & ~type(self)(msb)) - SMTInt(self & msb)
 #
 #    @classmethod
 #    def random(cls, width):
-- 
2.43.0


From b41ada1d911a6f42d43e97ec52acec8809fee26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 14/51] fix: floor division of SMTInt did not round down for
 negative divisors

---
 hwtypes/smt_int.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_int.py b/hwtypes/smt_int.py
index 9b7b17a..6a30f05 100644
--- a/hwtypes/smt_int.py
+++ b/hwtypes/smt_int.py
@@ -23,6 +23,10 @@ def int_cast(fn):
             return fn(self, other)
     return wrapped
 
+def _floordiv(a, b):
+    # smt.Div only rounds down for positive divisors
+    return smt.Ite(b > 0, smt.Div(a, b), smt.Div(-1 * a, -1 * b))
+
 class SMTInt:
     def __init__(self, value=SMYBOLIC, *, name=AUTOMATIC, prefix=AUTOMATIC):
         if (name is not AUTOMATIC or prefix is not AUTOMATIC) and value is not SMYBOLIC:
@@ -106,11 +110,11 @@ class SMTInt:
 
     @int_cast
     def __floordiv__(self, other: 'SMTInt') -> 'SMTInt':
-        return SMTInt(smt.Div(self.value, other.value))
+        return SMTInt(_floordiv(self.value, other.value))
 
     @int_cast
     def __rfloordiv__(self, other: 'SMTInt') -> 'SMTInt':
-        return SMTInt(smt.Div(other.value, self.value))
+        return SMTInt(_floordiv(other.value, self.value))
 
     @int_cast
     def __ge__(self, other: 'SMTInt') -> SMTBit:
-- 
2.43.0


From d55157a9ca52695d2e47bd44e7378ed9aeb5cd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 15/51] fix: polymorphic dispatch ignored NotImplemented from
 its second alternative

---
 hwtypes/bit_vector_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector_util.py b/hwtypes/bit_vector_util.py
index 2545270..84a5339 100644
--- a/hwtypes/bit_vector_util.py
+++ b/hwtypes/bit_vector_util.py
@@ -170,7 +170,7 @@ def build_VCall(select, m0, m1):
         def VCall(*args, **kwargs):
             v0 = m0(*args, **kwargs)
             v1 = m1(*args, **kwargs)
-            if v0 is NotImplemented or v0 is NotImplemented:
+            if v0 is NotImplemented or v1 is NotImplemented:
                 return NotImplemented
             return select.ite(v0, v1)
         return Method(VCall)
-- 
2.43.0


From 01d3e84b0f4e236bc889ebc13895ba5ccd4da14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 16/51] fix: absolute value of negative zero kept its sign

---
 hwtypes/fp_vector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index ff294a3..9ccabc9 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -139,8 +139,7 @@ class FPVector(AbstractFPVector):
 
     @set_context
     def fp_abs(self) -> 'FPVector':
-        v = self._value
-        return type(self)(v if v >= 0 else -v)
+        return type(self)(abs(self._value))
 
     @set_context
     def fp_neg(self) -> 'FPVector':
-- 
2.43.0


From 04c65942facb73beec90225c0339e3e1308839c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 17/51] fix: slices of pysmt and z3 vectors did not clamp a
 start below the first bit

---
 hwtypes/smt_bit_vector.py | 2 +-
 hwtypes/z3_bit_vector.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index deed8ba..556cb89 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -319,7 +319,7 @@ class SMTBitVector(AbstractBitVector):
             if start is None:
                 start = 0
             elif start < 0:
-                start = size + start
+                start = max(size + start, 0)
 
             if stop is None:
                 stop = size
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 9b2af8f..024682a 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -270,7 +270,7 @@ class z3BitVector(AbstractBitVector):
             if start is None:
                 start = 0
             elif start < 0:
-                start = size + start
+                start = max(size + start, 0)
 
             if stop is None:
                 stop = size
-- 
2.43.0


From 0db02469e7415819ea3f59c8cb35415615292224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 18/51] fix: make_constant of pysmt and z3 vectors could not be
 called on the type

---
 hwtypes/smt_bit_vector.py | 7 ++++---
 hwtypes/z3_bit_vector.py  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 556cb89..c6fd459 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -292,10 +292,11 @@ class SMTBitVector(AbstractBitVector):
         self._value = smt.simplify(self._value)
         assert self._value.get_type() is T
 
-    def make_constant(self, value, size:tp.Optional[int]=None):
+    @classmethod
+    def make_constant(cls, value, size:tp.Optional[int]=None):
         if size is None:
-            size = self.size
-        return type(self).unsized_t[size](value)
+            size = cls.size
+        return cls.unsized_t[size](value)
 
     @property
     def value(self):
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 024682a..7075d81 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -243,10 +243,11 @@ class z3BitVector(AbstractBitVector):
         self._value = z3.simplify(self._value)
         assert self._value.sort() == T
 
-    def make_constant(self, value, size:tp.Optional[int]=None):
+    @classmethod
+    def make_constant(cls, value, size:tp.Optional[int]=None):
         if size is None:
-            size = self.size
-        return type(self).unsized_t[size](value)
+            size = cls.size
+        return cls.unsized_t[size](value)
 
     @property
     def value(self):
-- 
2.43.0


From 4bf028f7273983d4a28126f9d61429f4adc81271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 19/51] fix: rotating a pysmt vector by its width or more
 failed

---
 hwtypes/smt_bit_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index c6fd459..ef19f30 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -416,11 +416,11 @@ class SMTBitVector(AbstractBitVector):
 
     @int_cast
     def bvrol(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRol(self.value, other))
+        return type(self)(smt.get_env().formula_manager.BVRol(self.value, other % self.size))
 
     @int_cast
     def bvror(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRor(self.value, other))
+        return type(self)(smt.get_env().formula_manager.BVRor(self.value, other % self.size))
 
     @bv_cast
     def bvcomp(self, other):
-- 
2.43.0


From 9bdd2e91eb8f24adaf1713cfd4a195eaa94cfaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:14 +0000
Subject: [PATCH 20/51] fix: visitors without their own visit_leaf raised
 AttributeError on leaves

---
 hwtypes/adt_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index ee444bd..5233b67 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -32,7 +32,7 @@ class _ADTVisitor(metaclass=ABCMeta):
     @abstractmethod
     def generic_visit(self, adt_t): pass
 
-    def visit_Leaf(self, adt_t):  pass
+    def visit_leaf(self, adt_t):  pass
 
     def visit_Enum(self, adt_t): pass
 
-- 
2.43.0


From e6b8a6afb92d07714337f3931b6046bbdcdbd93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:14 +0000
Subject: [PATCH 21/51] fix: rebind_keep_modifiers lost modifiers of nested
 types next to a rebound field

---
 hwtypes/adt_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 5233b67..aa117df 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -110,7 +110,7 @@ def rebind_keep_modifiers(adt, A, B):
         new_adt = adt
         for field in adt.fields:
             new_field = rebind_keep_modifiers(field, A, B)
-            new_adt = new_adt.rebind(field, new_field)
+            new_adt = new_adt.rebind(field, new_field, rebind_recursive=False)
         return new_adt
     else:
         return adt
-- 
2.43.0


From 0d2950f6db48cf104c89fcec7a4d5b43cb4837c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:14 +0000
Subject: [PATCH 22/51] fix: rebinding and stripping or pushing modifiers
 failed on anonymous products

---
 hwtypes/adt_meta.py  | 9 +++++++++
 hwtypes/modifiers.py | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index e0911c8..7d399b4 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -119,6 +119,12 @@ class _GetitemSyntax(type): #(metaclass=ABCMeta):
                 new_fields.append(T.rebind(A, B, rebind_sub_types))
             else:
                 new_fields.append(T)
+        return cls._from_new_fields(new_fields)
+
+    def _from_new_fields(cls, new_fields):
+        '''
+        The type like cls with new_fields in place of cls.fields
+        '''
         return cls.unbound_t[new_fields]
 
 
@@ -433,6 +439,9 @@ def __init__(self, {type_sig}):
     def _fields_from_idx(cls, idx):
         return tuple(idx.values())
 
+    def _from_new_fields(cls, new_fields):
+        return cls.unbound_t[dict(zip(cls.field_dict, new_fields))]
+
     def _namespace_from_idx(cls, idx):
         ns = super()._namespace_from_idx(idx)
 
diff --git a/hwtypes/modifiers.py b/hwtypes/modifiers.py
index f26e514..3701ccc 100644
--- a/hwtypes/modifiers.py
+++ b/hwtypes/modifiers.py
@@ -144,7 +144,7 @@ def strip_modifiers(adt_t):
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [strip_modifiers(sub_adt_t) for sub_adt_t in adt_t.fields]
-        return adt_t.unbound_t[new_fields]
+        return adt_t._from_new_fields(new_fields)
     else:
         return adt_t
 
@@ -158,7 +158,7 @@ def push_modifiers(adt_t, mods=[]):
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [push_modifiers(sub_adt_t, mods) for sub_adt_t in adt_t.fields]
-        return adt_t.unbound_t[new_fields]
+        return adt_t._from_new_fields(new_fields)
     else:
         return wrap_modifier(adt_t, mods)
 
-- 
2.43.0


From a1a7abb4c0853f0c5ea11c01c5df3e7303241ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:42 +0000
Subject: [PATCH 23/51] fix: sums holding different members compared equal

---
 hwtypes/adt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 12ca702..4f68bfd 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -136,7 +136,8 @@ class Sum(metaclass=SumMeta):
 
     def __eq__(self, other):
         if isinstance(other, type(self)):
-            return self._value_ == other._value_
+            return (type(self._value_) is type(other._value_)
+                    and self._value_ == other._value_)
         else:
             return NotImplemented
 
-- 
2.43.0


From 03772d2425d64dbebd1aa8e5c26eaabbd6280e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:13 +0000
Subject: [PATCH 24/51] fix: invalid operations of types without NaN gave
 infinities of random sign

---
 hwtypes/fp_vector.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index 9ccabc9..d5539cd 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -73,11 +73,8 @@ class FPVector(AbstractFPVector):
                 raise TypeError(f"Can't construct FPVector from {type(value)}")
 
         if gmpy2.is_nan(value) and not type(self).ieee_compliance:
-            if gmpy2.is_signed(value):
-                self._value = gmpy2.mpfr('-inf')
-            else:
-                self._value = gmpy2.mpfr('inf')
-
+            # the sign of a NaN is whatever was in memory
+            self._value = gmpy2.mpfr('inf')
         else:
             self._value = value
 
-- 
2.43.0


From 741e5fcffba221a2728e23344c431764bf464969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:13 +0000
Subject: [PATCH 25/51] fix: bit pattern of NaN had a random sign bit

---
 hwtypes/fp_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index d5539cd..933cc9c 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -273,7 +273,8 @@ class FPVector(AbstractFPVector):
         elif self.fp_is_NaN():
             exp_bits = BitVector[cls.exponent_size](-1)
             mantissa_bits = BitVector[cls.mantissa_size](1)
-            return mantissa_bits.concat(exp_bits).concat(sign_bit)
+            # the sign of a NaN is whatever was in memory
+            return mantissa_bits.concat(exp_bits).concat(BitVector[1](0))
 
 
         bias = (1 << (cls.exponent_size - 1)) - 1
-- 
2.43.0


From 2ea24191ec55347d22f5e6f3f2f8e0f150cd3223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 26/51] fix: subclassing bound FPVector types failed with
 AttributeError

gmpy2 contexts have no trap_expbound since gmpy2 2.1.
---
 hwtypes/fp_vector.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index 933cc9c..25c0302 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -120,7 +120,6 @@ class FPVector(AbstractFPVector):
                         or c_ctx.trap_inexact != ctx.trap_inexact
                         or c_ctx.trap_erange != ctx.trap_erange
                         or c_ctx.trap_divzero != ctx.trap_divzero
-                        or c_ctx.trap_expbound != ctx.trap_expbound
                         or c_ctx.allow_complex != ctx.allow_complex):
                     # this basically should never happen unless some one does
                     # class Foo(FPVector):
-- 
2.43.0


From efe7216f08d212526671431a68690a73d1bac5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 27/51] fix: parameters of the wrong type were accepted once
 the FP type existed

1 == True, so the cache lookup found the type and skipped the check.
---
 hwtypes/fp_vector_abc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hwtypes/fp_vector_abc.py b/hwtypes/fp_vector_abc.py
index 6b6a6e8..cfc7843 100644
--- a/hwtypes/fp_vector_abc.py
+++ b/hwtypes/fp_vector_abc.py
@@ -43,18 +43,20 @@ class AbstractFPVectorMeta(ABCMeta):
 
     def __getitem__(cls, idx : tp.Tuple[int, int, RoundingMode, bool]):
         mcs = type(cls)
-        try:
-            return mcs._class_cache[cls, idx]
-        except KeyError:
-            pass
 
         if cls.is_bound:
             raise TypeError(f'{cls} is already bound')
 
+        # before the lookup, as 1 == True
         if len(idx) != 4 or tuple(map(type,idx)) != (int, int, RoundingMode, bool):
             raise IndexError(f'Constructing a floating point type requires:\n'
                     'exponent bits : int, mantisa bits : int, RoundingMode, ieee_compliance : bool')
 
+        try:
+            return mcs._class_cache[cls, idx]
+        except KeyError:
+            pass
+
         eb, mb, mode, ieee_compliance = idx
 
         if eb <= 0 or mb <= 0:
-- 
2.43.0


From 3811f7788115ff07a3acc04da246e007d3ab4352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 28/51] fix: unbound SMTFPVector could not be subclassed

---
 hwtypes/smt_fp_vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 8437c33..c301d2f 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -72,6 +72,8 @@ class SMTFPVector(AbstractFPVector):
         self._value = value
 
     def __init_subclass__(cls):
+        if not cls.is_bound:
+            return
         _uf_table[cls] = ufs = dict()
         T = BVType(cls.size)
         for method_name, *args in _SIGS:
-- 
2.43.0


From e9d11b73218f7ffda3d907dbc8aedb0caad6cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 29/51] fix: SMTFPVector subclasses of the same name shared
 their functions

Operations of different formats became the same uninterpreted function,
or defining the second class failed when the sizes differ.
---
 hwtypes/smt_fp_vector.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index c301d2f..625fed9 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -39,6 +39,12 @@ _name_table = weakref.WeakValueDictionary()
 _uf_table = weakref.WeakKeyDictionary()
 
 
+def _uf_prefix(cls):
+    # the functions are those of the format, names of subclasses aren't unique
+    eb, mb, mode, ieee_compliance = cls.binding
+    return f'SMTFPVector[{eb},{mb},{mode},{ieee_compliance}]'
+
+
 class SMTFPVector(AbstractFPVector):
     def __init__(self, value=SMYBOLIC, *, name=AUTOMATIC):
         if name is not AUTOMATIC and value is not SMYBOLIC:
@@ -80,7 +86,7 @@ class SMTFPVector(AbstractFPVector):
             args = [T if x is None else x for x in args]
             rtype = args[-1]
             params = args[:-1]
-            name = '.'.join((cls.__name__, method_name))
+            name = '.'.join((_uf_prefix(cls), method_name))
             ufs[method_name] = shortcuts.Symbol(name, FunctionType(rtype, params))
 
         ufs['to_sbv'] = dict()
@@ -172,7 +178,7 @@ class SMTFPVector(AbstractFPVector):
         cls = type(self)
         ufs = _uf_table[cls]['to_ubv']
         if size not in ufs:
-            name = '.'.join((cls.__name__, f'to_ubv[{size}]'))
+            name = '.'.join((_uf_prefix(cls), f'to_ubv[{size}]'))
             ufs[size] = shortcuts.Symbol(
                 name,
                 FunctionType(BVType(size), (BVType(self.size),))
@@ -184,7 +190,7 @@ class SMTFPVector(AbstractFPVector):
         cls = type(self)
         ufs = _uf_table[cls]['to_sbv']
         if size not in ufs:
-            name = '.'.join((cls.__name__, f'to_sbv[{size}]'))
+            name = '.'.join((_uf_prefix(cls), f'to_sbv[{size}]'))
             ufs[size] = shortcuts.Symbol(
                 name,
                 FunctionType(BVType(size), (BVType(self.size),))
-- 
2.43.0


From 27d2521462f674473ced2958175a376bedb69f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 30/51] fix: an SMTFPVector and an SMTBitVector of the same
 name were one variable

Use the table of names the other SMT types share.
---
 hwtypes/smt_fp_vector.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 625fed9..2f11bb1 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -5,6 +5,7 @@ import pysmt.shortcuts as shortcuts
 from pysmt.typing import  BVType, BOOL, FunctionType
 
 from .smt_bit_vector import SMTBit, SMTBitVector, SMTSIntVector, SMYBOLIC, AUTOMATIC
+from .smt_bit_vector import _gen_name, _name_table
 from .fp_vector_abc import AbstractFPVector, RoundingMode
 
 # using None to represent cls
@@ -35,7 +36,6 @@ _SIGS = [
     ('fp_is_positive', None, BOOL,),
 ]
 
-_name_table = weakref.WeakValueDictionary()
 _uf_table = weakref.WeakKeyDictionary()
 
 
@@ -55,14 +55,14 @@ class SMTFPVector(AbstractFPVector):
             elif name in _name_table:
                 raise ValueError(f'Name {name} already in use')
             _name_table[name] = self
+        elif value is SMYBOLIC:
+            name = _gen_name()
+            _name_table[name] = self
 
         T = BVType(self.size)
 
         if value is SMYBOLIC:
-            if name is AUTOMATIC:
-                value = shortcuts.FreshSymbol(T)
-            else:
-                value = shortcuts.Symbol(name, T)
+            value = shortcuts.Symbol(name, T)
         elif isinstance(value, pysmt.fnode.FNode):
             t = value.get_type()
             if t is not T:
-- 
2.43.0


From 91bcde6bd368635ae086cdc62ec583091e37829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:29 +0000
Subject: [PATCH 31/51] fix: SMTFPVector operations accepted operands of
 another format

The bits were taken as if they had the format of the first operand.
FPVector raises TypeError.
---
 hwtypes/smt_fp_vector.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 2f11bb1..123f257 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -92,6 +92,11 @@ class SMTFPVector(AbstractFPVector):
         ufs['to_sbv'] = dict()
         ufs['to_ubv'] = dict()
 
+    def _operand(self, other):
+        if not isinstance(other, SMTFPVector) or type(other).binding != type(self).binding:
+            raise TypeError('Inconsistent FP type')
+        return other._value
+
     @classmethod
     def _fp_method(cls, method_name, *args):
         uf = _uf_table[cls][method_name]
@@ -109,49 +114,49 @@ class SMTFPVector(AbstractFPVector):
         return self._fp_method('fp_neg', self._value)
 
     def fp_add(self, other: 'SMTFPVector') -> 'SMTFPVector':
-        return self._fp_method('fp_add', self._value, other._value)
+        return self._fp_method('fp_add', self._value, self._operand(other))
 
     def fp_sub(self, other: 'SMTFPVector') -> 'SMTFPVector':
-        return self._fp_method('fp_sub', self._value, other._value)
+        return self._fp_method('fp_sub', self._value, self._operand(other))
 
     def fp_mul(self, other: 'SMTFPVector') -> 'SMTFPVector':
-        return self._fp_method('fp_mul', self._value, other._value)
+        return self._fp_method('fp_mul', self._value, self._operand(other))
 
     def fp_div(self, other: 'SMTFPVector') -> 'SMTFPVector':
-        return self._fp_method('fp_div', self._value, other._value)
+        return self._fp_method('fp_div', self._value, self._operand(other))
 
     def fp_fma(self, coef: 'SMTFPVector', offset: 'SMTFPVector') -> 'SMTFPVector':
-        return self._fp_method('fp_fma', self._value, coef._value, offset._value)
+        return self._fp_method('fp_fma', self._value, self._operand(coef), self._operand(offset))
 
     def fp_sqrt(self) -> 'SMTFPVector':
         return self._fp_method('fp_sqrt', self._value)
 
     def fp_rem(self, other: 'SMTFPVector') -> 'SMTFPVector':
-        return self._fp_method('fp_rem', self._value, other._value)
+        return self._fp_method('fp_rem', self._value, self._operand(other))
 
     def fp_round_to_integral(self) -> 'SMTFPVector':
         return self._fp_method('fp_round_to_integral', self._value)
 
     def fp_min(self, other: 'SMTFPVector') -> 'SMTFPVector':
-        return self._fp_method('fp_min', self._value, other._value)
+        return self._fp_method('fp_min', self._value, self._operand(other))
 
     def fp_max(self, other: 'SMTFPVector') -> 'SMTFPVector':
-        return self._fp_method('fp_max', self._value, other._value)
+        return self._fp_method('fp_max', self._value, self._operand(other))
 
     def fp_leq(self, other: 'SMTFPVector') ->  SMTBit:
-        return self._bit_method('fp_leq', self._value, other._value)
+        return self._bit_method('fp_leq', self._value, self._operand(other))
 
     def fp_lt(self, other: 'SMTFPVector') ->  SMTBit:
-        return self._bit_method('fp_lt', self._value, other._value)
+        return self._bit_method('fp_lt', self._value, self._operand(other))
 
     def fp_geq(self, other: 'SMTFPVector') ->  SMTBit:
-        return self._bit_method('fp_geq', self._value, other._value)
+        return self._bit_method('fp_geq', self._value, self._operand(other))
 
     def fp_gt(self, other: 'SMTFPVector') ->  SMTBit:
-        return self._bit_method('fp_gt', self._value, other._value)
+        return self._bit_method('fp_gt', self._value, self._operand(other))
 
     def fp_eq(self, other: 'SMTFPVector') ->  SMTBit:
-        return self._bit_method('fp_eq', self._value, other._value)
+        return self._bit_method('fp_eq', self._value, self._operand(other))
 
     def fp_is_normal(self) -> SMTBit:
         return self._bit_method('fp_is_normal', self._value)
-- 
2.43.0


From 5535c23a7af9f80a8f695479d892e99d6b5c69bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:11 +0000
Subject: [PATCH 32/51] fix: fp_min and fp_max of SMTFPVector always raised

Their functions were declared with one parameter.
---
 hwtypes/smt_fp_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 123f257..c029012 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -20,8 +20,8 @@ _SIGS = [
     ('fp_sqrt', None, None,),
     ('fp_rem', None, None,None),
     ('fp_round_to_integral', None, None,),
-    ('fp_min', None, None,),
-    ('fp_max', None, None,),
+    ('fp_min', None, None, None,),
+    ('fp_max', None, None, None,),
     ('fp_leq', None, None, BOOL,),
     ('fp_lt', None, None, BOOL,),
     ('fp_geq', None, None, BOOL,),
-- 
2.43.0


From 0abecf20d6d37540ce4126f88d9c302856ee79bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 33/51] fix: remainder of signed z3 vectors did not match their
 quotient

% of z3 takes the sign of the divisor while / rounds towards zero.
---
 hwtypes/z3_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 7075d81..3c44219 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -467,7 +467,7 @@ class z3BitVector(AbstractBitVector):
 
     @bv_cast
     def bvsrem(self, other):
-        return type(self)(self.value % other.value)
+        return type(self)(z3.SRem(self.value, other.value))
 
     __invert__ = bvnot
     __and__ = bvand
-- 
2.43.0


From 3eb35c581f8719b26ad898c76169b356562faf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:15 +0000
Subject: [PATCH 34/51] fix: rebind all fields of a type at once

rebind_bitvector and rebind_keep_modifiers replaced the fields of a type
one after another, so that a new field equal to a field still to be
replaced was replaced again.
---
 hwtypes/adt_meta.py | 20 ++++++++++++++++++++
 hwtypes/adt_util.py | 17 +++--------------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 7d399b4..3201faf 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -127,6 +127,12 @@ class _GetitemSyntax(type): #(metaclass=ABCMeta):
         '''
         return cls.unbound_t[new_fields]
 
+    def _map_fields(cls, fn):
+        '''
+        The type like cls with fn(T) in place of each field type T
+        '''
+        return cls._from_new_fields([fn(T) for T in cls.fields])
+
 
 
 class _AttrSyntax(type): #, metaclass=ABCMeta):
@@ -227,6 +233,17 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
         else:
             return cls
 
+    def _map_fields(cls, fn):
+        '''
+        The type like cls with fn(T) in place of each field type T
+        '''
+        new_fields = OrderedDict((field, fn(T)) for field, T in cls.field_dict.items())
+
+        if new_fields != cls.field_dict:
+            return cls.unbound_t.from_fields(cls.__name__, new_fields, cache=cls.is_cached)
+        else:
+            return cls
+
 
 class BoundMeta(_GetitemSyntax): #, metaclass=ABCMeta):
     # for legacy reasons
@@ -641,3 +658,6 @@ class EnumMeta(_AttrSyntax, BoundMeta):
         # Enums aren't bound to types
         # could potentialy rebind values but that seems annoying
         return cls
+
+    def _map_fields(cls, fn):
+        return cls
diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index aa117df..61ec6c1 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -87,15 +87,8 @@ def rebind_bitvector(
         else:
             return bv_type_1
     elif isinstance(adt, BoundMeta):
-        _to_new = []
-        for field in adt.fields:
-            new_field = rebind_bitvector(field, bv_type_0, bv_type_1,keep_modifiers)
-            _to_new.append((field,new_field))
-        new_adt = adt
-
-        for field,new_field in _to_new:
-            new_adt = new_adt.rebind(field, new_field, rebind_recursive=False)
-        return new_adt
+        return adt._map_fields(
+            lambda field: rebind_bitvector(field, bv_type_0, bv_type_1, keep_modifiers))
     else:
         return adt
 
@@ -107,11 +100,7 @@ def rebind_keep_modifiers(adt, A, B):
     if _issubclass(adt,A):
         return B
     elif isinstance(adt, BoundMeta):
-        new_adt = adt
-        for field in adt.fields:
-            new_field = rebind_keep_modifiers(field, A, B)
-            new_adt = new_adt.rebind(field, new_field, rebind_recursive=False)
-        return new_adt
+        return adt._map_fields(lambda field: rebind_keep_modifiers(field, A, B))
     else:
         return adt
 
-- 
2.43.0


From 3ae745d5050013d8b567da661e69586ee7a96bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:26 +0000
Subject: [PATCH 35/51] fix: draw the mantissa of random floating-point numbers

A fresh unseeded gmpy2 random state yields the same number every time, so
only sign and exponent varied; and 1 + mpfr_random() could round up to 2,
giving infinity where allow_inf=False excludes it.
---
 hwtypes/fp_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index 25c0302..8aac9b2 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -381,11 +381,11 @@ class FPVector(AbstractFPVector):
         bias = (1 << (cls.exponent_size - 1)) - 1
         if allow_inf:
             sign = random.choice([-1, 1])
-            mantissa = gmpy2.mpfr_random(gmpy2.random_state()) + 1
+            mantissa = 1 + gmpy2.mpq(random.getrandbits(cls.mantissa_size), 1 << cls.mantissa_size)
             exp = random.randint(1-bias, bias+1)
             return cls(mantissa*sign*(gmpy2.mpfr(2)**gmpy2.mpfr(exp)))
         else:
             sign = random.choice([-1, 1])
-            mantissa = gmpy2.mpfr_random(gmpy2.random_state()) + 1
+            mantissa = 1 + gmpy2.mpq(random.getrandbits(cls.mantissa_size), 1 << cls.mantissa_size)
             exp = random.randint(1-bias, bias)
             return cls(mantissa*sign*(gmpy2.mpfr(2)**gmpy2.mpfr(exp)))
-- 
2.43.0


From 6f459a6cd0a1fb8e98b1197cf2b555211908973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:38 +0000
Subject: [PATCH 36/51] fix: equal frozen dicts have equal hashes

An OrderedFrozenDict compares equal to a FrozenDict (and to another ordered
one) with the same entries but hashed the ordered tuple of items.
---
 hwtypes/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/util.py b/hwtypes/util.py
index cf52ebc..4fb641c 100644
--- a/hwtypes/util.py
+++ b/hwtypes/util.py
@@ -37,7 +37,7 @@ class OrderedFrozenDict(FrozenDict):
 
     def __init__(self, *args, **kwargs):
         self._d = OrderedDict(*args, **kwargs)
-        self._hash = hash(tuple(self.items()))
+        self._hash = hash(frozenset(self.items()))
 
 
 class TypedProperty:
-- 
2.43.0


From e91bebbd8410f69de404bf20f49ad81f4a8c284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:50 +0000
Subject: [PATCH 37/51] fix: let fields of products and tagged unions be called
 self, cls, super or like their type

---
 hwtypes/adt.py      |  2 +-
 hwtypes/adt_meta.py | 21 ++++++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 4f68bfd..5e798ae 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -208,7 +208,7 @@ class Sum(metaclass=SumMeta):
 
 
 class TaggedUnion(Sum, metaclass=TaggedUnionMeta):
-    def __init__(self, **kwargs):
+    def __init__(self, /, **kwargs):
         if len(kwargs) == 0:
             raise ValueError('Must specify a value')
         elif len(kwargs) != 1:
diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 3201faf..b788728 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -252,7 +252,8 @@ class BoundMeta(_GetitemSyntax): #, metaclass=ABCMeta):
     # (UnboundType, (types...)) : BoundType
     _class_cache = weakref.WeakValueDictionary()
 
-    def __call__(cls, *args, **kwargs):
+    def __call__(cls, /, *args, **kwargs):
+        # kwargs may name a field 'cls'
         if not cls.is_bound:
             obj = cls.__new__(cls, *args, **kwargs)
             if not type(obj).is_bound:
@@ -410,8 +411,14 @@ class AnonymousProductMeta(TupleMeta):
         t = super()._from_idx(idx)
         t._field_table_ = idx
 
-        name =  t.unbound_t.__name__
-        gs = {name : t}
+        # the names used below must not be hidden by fields
+        def _fresh(name):
+            while name in idx:
+                name = '_' + name
+            return name
+
+        cls_, self_, t_, super_ = map(_fresh, ('cls', 'self', '_t', 'super'))
+        gs = {t_: t, super_: super}
 
         ls = {}
 
@@ -420,16 +427,16 @@ class AnonymousProductMeta(TupleMeta):
 
         # build __new__
         __new__ = f'''
-def __new__(cls, {type_sig}):
-    return super({name}, cls).__new__(cls, {arg_list})
+def __new__({cls_}, {type_sig}):
+    return {super_}({t_}, {cls_}).__new__({cls_}, {arg_list})
 '''
         exec(__new__, gs, ls)
         t.__new__ = ls['__new__']
 
         # build __init__
         __init__ = f'''
-def __init__(self, {type_sig}):
-    return super({name}, self).__init__({arg_list})
+def __init__({self_}, {type_sig}):
+    return {super_}({t_}, {self_}).__init__({arg_list})
 '''
         exec(__init__, gs, ls)
         t.__init__ = ls['__init__']
-- 
2.43.0


From ff13a7e922fc293d0543491e0833d077ee65a409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:53 +0000
Subject: [PATCH 38/51] fix: refuse the truth of symbolic vectors, integers,
 floats and z3 bits instead of always answering True

---
 hwtypes/smt_bit_vector.py | 3 +++
 hwtypes/smt_fp_vector.py  | 3 +++
 hwtypes/smt_int.py        | 3 +++
 hwtypes/z3_bit_vector.py  | 7 +++++++
 4 files changed, 16 insertions(+)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index ef19f30..5056971 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -589,6 +589,9 @@ class SMTBitVector(AbstractBitVector):
 #    def bits(self):
 #        return [(self >> i) & 1 for i in range(self.size)]
 #
+    def __bool__(self):
+        raise TypeError('SMTBitVector cannot be converted to bool')
+
 #    def __int__(self):
 #        return self.as_uint()
 #
diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index c029012..2916357 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -210,6 +210,9 @@ class SMTFPVector(AbstractFPVector):
     def reinterpret_from_bv(cls, value: SMTBitVector) -> 'SMTFPVector':
         return cls(value._value)
 
+    def __bool__(self):
+        raise TypeError('SMTFPVector cannot be converted to bool')
+
     def __neg__(self): return self.fp_neg()
     def __abs__(self): return self.fp_abs()
     def __add__(self, other): return self.fp_add(other)
diff --git a/hwtypes/smt_int.py b/hwtypes/smt_int.py
index 6a30f05..63eef08 100644
--- a/hwtypes/smt_int.py
+++ b/hwtypes/smt_int.py
@@ -83,6 +83,9 @@ class SMTInt:
     def value(self):
         return self._value
 
+    def __bool__(self):
+        raise TypeError('SMTInt cannot be converted to bool')
+
     def __neg__(self):
         return SMTInt(0) - self
 
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 3c44219..d81d2ec 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -153,6 +153,10 @@ class z3Bit(AbstractBit):
 
         return T(z3.If(self.value, t_branch.value, f_branch.value))
 
+    def __bool__(self):
+        raise TypeError('z3Bit cannot be converted to bool')
+
+
 def _coerce(T : tp.Type['z3BitVector'], val : tp.Any) -> 'z3BitVector':
     if not isinstance(val, z3BitVector):
         return T(val)
@@ -516,6 +520,9 @@ class z3BitVector(AbstractBitVector):
 #    def bits(self):
 #        return [(self >> i) & 1 for i in range(self.size)]
 #
+    def __bool__(self):
+        raise TypeError('z3BitVector cannot be converted to bool')
+
 #    def __int__(self):
 #        return self.as_uint()
 #
-- 
2.43.0


From 344b0f3c9d04f24f4c1811a212b51d59ecef0f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 39/51] fix: assigning one value to a slice of a tuple spread
 its bits over the items

---
 hwtypes/adt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 5e798ae..e957693 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -46,12 +46,14 @@ class Tuple(metaclass=TupleMeta):
         return self._value_[idx]
 
     def __setitem__(self, idx, value):
-        if isinstance(value, type(self)[idx]):
+        T = type(self)[idx]
+        # a slice of the fields is no type
+        if isinstance(T, type) and isinstance(value, T):
             v = list(self._value_)
             v[idx] = value
             self._value_ = tuple(v)
         else:
-            raise TypeError(f'Value {value} is not of type {type(self)[idx]}')
+            raise TypeError(f'Value {value} is not of type {T}')
 
     def __repr__(self):
         return f'{type(self).__name__}({", ".join(map(repr, self._value_))})'
-- 
2.43.0


From 78ce5c57748b5d0165ef179dee3aba0e41781f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 40/51] fix: a class with double-underscore methods was taken
 for an earlier one without them

---
 hwtypes/adt_meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index b788728..6734094 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -165,7 +165,8 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
             if cache:
                 ns_idx = set()
                 for k,v in ns.items():
-                    if not _is_dunder(k):
+                    # methods make another type, __module__ etc do not
+                    if not _is_dunder(k) or _is_descriptor(v):
                         ns_idx.add((k,v))
 
                 if mcs.ORDERED:
-- 
2.43.0


From 193f212e1109735a02753f15d40cec558d4c5f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 41/51] fix: anonymous products accepted reserved field names

---
 hwtypes/adt_meta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 6734094..eafaa98 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -401,6 +401,9 @@ class AnonymousProductMeta(TupleMeta):
     def _get_idx(cls, idx):
         if not isinstance(idx, tp.Mapping):
             raise TypeError()
+        for field in idx:
+            if field in RESERVED_ATTRS:
+                raise ReservedNameError(f'Field name {field} is reserved by the type machinery')
         return OrderedFrozenDict(idx)
 
     def _from_idx(cls, idx):
-- 
2.43.0


From 5b7152579291c7e94e6aa560c4921ebc95bcb0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 42/51] fix: reading a tagged union with a member called Match
 raised TypeError

---
 hwtypes/adt_meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index eafaa98..636779b 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -580,8 +580,8 @@ class TaggedUnionMeta(_AttrSyntax, SumMeta):
         def _make_prop(field_type, tag):
             @TypedProperty(field_type)
             def prop(self):
-                cls = type(self)
-                return cls.Match(self._tag_ == tag, self._value_)
+                # type(self).Match may be a field
+                return sum_base.Match(self._tag_ == tag, self._value_)
 
             @prop.setter
             def prop(self, value):
-- 
2.43.0


From 06ca1a5b2f4b2ea563727a5d1c6a54e6af4405e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:52 +0000
Subject: [PATCH 43/51] fix: fractions were rounded to a float before they were
 rounded to the type

---
 hwtypes/fp_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index 8aac9b2..7f4bbf5 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -1,3 +1,4 @@
+from fractions import Fraction
 import functools
 import gmpy2
 import random
@@ -49,7 +50,7 @@ class FPVector(AbstractFPVector):
             value = gmpy2.mpfr(value, self._ctx_.precision)
         elif isinstance(value, FPVector):
             value = gmpy2.mpfr(value._value, self._ctx_.precision)
-        elif isinstance(value, (int, float, type(gmpy2.mpz(0)), type(gmpy2.mpq(0)))):
+        elif isinstance(value, (int, float, type(gmpy2.mpz(0)), type(gmpy2.mpq(0)), Fraction)):
             value = gmpy2.mpfr(value)
         elif isinstance(value, str):
             try:
-- 
2.43.0


From 21d0339da744c38a8a3202dac2e1b2d564427c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:19 +0000
Subject: [PATCH 44/51] fix: widths equal to a width in use were accepted
 whatever their type

---
 hwtypes/bit_vector_abc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector_abc.py b/hwtypes/bit_vector_abc.py
index 44d22a9..fed152d 100644
--- a/hwtypes/bit_vector_abc.py
+++ b/hwtypes/bit_vector_abc.py
@@ -74,13 +74,15 @@ class AbstractBitVectorMeta(type): #:(ABCMeta):
 
     def __getitem__(cls, idx : int) -> 'AbstractBitVectorMeta':
         mcs = type(cls)
+        # before the lookup, as 8 == 8.0
+        if not isinstance(idx, int):
+            raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
+
         try:
             return mcs._class_cache[cls, idx]
         except KeyError:
             pass
 
-        if not isinstance(idx, int):
-            raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
         if idx < 0:
             raise ValueError('Size of BitVectors must be positive')
 
-- 
2.43.0


From 1d4ad7f0b61377adf2a9fc9e6b0cd23625440812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:11 +0000
Subject: [PATCH 45/51] fix: strings were taken for sequences of true bits

---
 hwtypes/bit_vector.py     | 2 +-
 hwtypes/smt_bit_vector.py | 3 ++-
 hwtypes/z3_bit_vector.py  | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 20cdb2f..f1c8886 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -191,7 +191,7 @@ class BitVector(AbstractBitVector):
                 pass
                 #This warning would be trigger constantly
                 #warnings.warn('Truncating value {} to {}'.format(value, type(self)))
-        elif isinstance(value, tp.Sequence):
+        elif isinstance(value, tp.Sequence) and not isinstance(value, StringTypes):
             if len(value) > self.size:
                 warnings.warn('Truncating value {} to {}'.format(value, type(self)), stacklevel=3)
             value = seq2int(value)
diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 5056971..524164b 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -4,6 +4,7 @@ import functools as ft
 from .bit_vector_abc import AbstractBitVector, AbstractBit, TypeFamily, InconsistentSizeError
 from .bit_vector_util import build_ite
 from .util import Method
+from .compatibility import StringTypes
 
 from abc import abstractmethod
 
@@ -274,7 +275,7 @@ class SMTBitVector(AbstractBitVector):
         elif isinstance(value, SMTBit):
             self._value = smt.Ite(value.value, smt.BVOne(self.size), smt.BVZero(self.size))
 
-        elif isinstance(value, tp.Sequence):
+        elif isinstance(value, tp.Sequence) and not isinstance(value, StringTypes):
             if len(value) != self.size:
                 raise ValueError('Iterable is not the correct size')
             cls = type(self)
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index d81d2ec..80a376e 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -3,6 +3,7 @@ import typing as tp
 import itertools as it
 import functools as ft
 from .bit_vector_abc import AbstractBitVector, AbstractBit, TypeFamily
+from .compatibility import StringTypes
 
 from abc import abstractmethod
 
@@ -229,7 +230,7 @@ class z3BitVector(AbstractBitVector):
         elif isinstance(value, z3Bit):
             self._value = z3.If(value.value, z3.BitVecVal(1, T), z3.BitVecVal(0, T))
 
-        elif isinstance(value, tp.Sequence):
+        elif isinstance(value, tp.Sequence) and not isinstance(value, StringTypes):
             if len(value) != self.size:
                 raise ValueError('Iterable is not the correct size')
             cls = type(self)
-- 
2.43.0


From 399930c1a2659b7281f1ae045d611dd53369ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:56 +0000
Subject: [PATCH 46/51] fix: concrete vectors of another size or in symbolic
 choices are refused

---
 hwtypes/smt_bit_vector.py |  9 ++++++---
 hwtypes/z3_bit_vector.py  | 10 +++++-----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 524164b..5d70c80 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -154,6 +154,9 @@ class SMTBit(AbstractBit):
 
     def ite(self, t_branch, f_branch):
         def _ite(select, t_branch, f_branch):
+            for branch in (t_branch, f_branch):
+                if branch.get_family() is not _Family_:
+                    raise TypeError(f'{type(branch)} is not a symbolic value')
             return smt.Ite(select.value, t_branch.value, f_branch.value)
 
 
@@ -171,10 +174,10 @@ class SMTBit(AbstractBit):
 
 
 def _coerce(T : tp.Type['SMTBitVector'], val : tp.Any) -> 'SMTBitVector':
-    if not isinstance(val, SMTBitVector):
-        return T(val)
-    elif val.size != T.size:
+    if isinstance(val, AbstractBitVector) and val.size != T.size:
         raise InconsistentSizeError('Inconsistent size')
+    elif not isinstance(val, SMTBitVector):
+        return T(val)
     else:
         return val
 
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 80a376e..2934c62 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -135,10 +135,10 @@ class z3Bit(AbstractBit):
                 raise TypeError('Both branches must have the same type')
             T = tb_t
         elif isinstance(t_branch, BV_t):
-            f_branch = tb_t(f_branch)
+            f_branch = _coerce(tb_t, f_branch)
             T = tb_t
         elif isinstance(f_branch, BV_t):
-            t_branch = fb_t(t_branch)
+            t_branch = _coerce(fb_t, t_branch)
             T = fb_t
         else:
             t_branch = BV_t(t_branch)
@@ -159,10 +159,10 @@ class z3Bit(AbstractBit):
 
 
 def _coerce(T : tp.Type['z3BitVector'], val : tp.Any) -> 'z3BitVector':
-    if not isinstance(val, z3BitVector):
-        return T(val)
-    elif val.size != T.size:
+    if isinstance(val, AbstractBitVector) and val.size != T.size:
         raise TypeError('Inconsistent size')
+    elif not isinstance(val, z3BitVector):
+        return T(val)
     else:
         return val
 
-- 
2.43.0


From 26ba2bade55d843f4ccef5f7741cbc0d059b9dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:02 +0000
Subject: [PATCH 47/51] fix: symbolic floating point reinterprets only bits of
 its own size

---
 hwtypes/smt_fp_vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 2916357..5cac98a 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -6,6 +6,7 @@ from pysmt.typing import  BVType, BOOL, FunctionType
 
 from .smt_bit_vector import SMTBit, SMTBitVector, SMTSIntVector, SMYBOLIC, AUTOMATIC
 from .smt_bit_vector import _gen_name, _name_table
+from .bit_vector_abc import AbstractBitVector
 from .fp_vector_abc import AbstractFPVector, RoundingMode
 
 # using None to represent cls
@@ -208,6 +209,8 @@ class SMTFPVector(AbstractFPVector):
 
     @classmethod
     def reinterpret_from_bv(cls, value: SMTBitVector) -> 'SMTFPVector':
+        if not isinstance(value, AbstractBitVector) or value.size != cls.size:
+            raise TypeError(f'Cannot reinterpret {value!r} as {cls}')
         return cls(value._value)
 
     def __bool__(self):
-- 
2.43.0


From 707a06f5de99bc177f8174b40f0578566910f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:06 +0000
Subject: [PATCH 48/51] fix: products can be copied

---
 hwtypes/adt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index e957693..180e970 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -108,6 +108,10 @@ class AnonymousProduct(Tuple, metaclass=AnonymousProductMeta):
     def _from_kwargs(cls, kwargs):
         return cls(**kwargs)
 
+    # __new__ takes the fields, copy has to hand them to it
+    def __getnewargs__(self):
+        return self._value_
+
 
 class Product(AnonymousProduct, metaclass=ProductMeta):
     pass
-- 
2.43.0


From 00663e08ed039add3040337c67e3d3d9c63589d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:40 +0000
Subject: [PATCH 49/51] fix: a refused substitution spoiled later ones

---
 hwtypes/smt_bit_vector.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 5d70c80..81257c6 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -163,6 +163,7 @@ class SMTBit(AbstractBit):
         return build_ite(_ite, self, t_branch, f_branch)
 
     def substitute(self, *subs : tp.List[tp.Tuple['SMTBit', 'SMTBit']]):
+        _check_substitution(subs)
         return SMTBit(
             self.value.substitute(
                 {from_.value:to.value for from_, to in subs}
@@ -173,6 +174,16 @@ class SMTBit(AbstractBit):
         raise TypeError('SMTBit cannot be converted to bool')
 
 
+def _check_substitution(subs):
+    # pysmt must not fail half way, it would keep what it has substituted so far
+    for pair in subs:
+        from_, to = (getattr(x, 'value', None) for x in pair)
+        if not (isinstance(from_, pysmt.fnode.FNode)
+                and isinstance(to, pysmt.fnode.FNode)
+                and from_.get_type() is to.get_type()):
+            raise TypeError(f'Cannot substitute {pair}')
+
+
 def _coerce(T : tp.Type['SMTBitVector'], val : tp.Any) -> 'SMTBitVector':
     if isinstance(val, AbstractBitVector) and val.size != T.size:
         raise InconsistentSizeError('Inconsistent size')
@@ -583,6 +594,7 @@ class SMTBitVector(AbstractBitVector):
         return type(self).unsized_t[self.size + ext](smt.BVZExt(self.value, ext))
 
     def substitute(self, *subs : tp.List[tp.Tuple["SBV", "SBV"]]):
+        _check_substitution(subs)
         return SMTBitVector[self.size](
             self.value.substitute(
                 {from_.value:to.value for from_, to in subs}
-- 
2.43.0


From 3ff3ccfadd7e2dae746f858c34545c7982ad00bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:40 +0000
Subject: [PATCH 50/51] fix: substitution keeps the kind of the vector

---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 81257c6..21ec123 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -595,7 +595,7 @@ class SMTBitVector(AbstractBitVector):
 
     def substitute(self, *subs : tp.List[tp.Tuple["SBV", "SBV"]]):
         _check_substitution(subs)
-        return SMTBitVector[self.size](
+        return type(self)(
             self.value.substitute(
                 {from_.value:to.value for from_, to in subs}
             )
-- 
2.43.0


From 974156f17f8096e483f2a03bf4865c0ad0e0cfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:06 +0000
Subject: [PATCH 51/51] fix: enumerating sums with bits as members

---
 hwtypes/adt_meta.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 636779b..6f9552e 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -6,6 +6,7 @@ import weakref
 from types import MappingProxyType
 from collections.abc import Mapping, MutableMapping
 from collections import OrderedDict
+from .bit_vector_abc import AbstractBit, AbstractBitVector
 from .util import TypedProperty
 from .util import OrderedFrozenDict, FrozenDict
 from .util import _issubclass
@@ -30,6 +31,13 @@ def _is_descriptor(obj):
     return hasattr(obj, '__get__') or hasattr(obj, '__set__') or hasattr(obj, '__delete__')
 
 
+def _representative(field):
+    if _issubclass(field, (AbstractBit, AbstractBitVector)):
+        # bits have no default value, that of symbolic values is a free variable
+        return field(0)
+    return field()
+
+
 def is_adt_type(t):
     return isinstance(t, BoundMeta)
 
@@ -552,7 +560,7 @@ class SumMeta(BoundMeta):
             if isinstance(field, BoundMeta):
                 yield from map(cls, field.enumerate())
             else:
-                yield cls(field())
+                yield cls(_representative(field))
 
     @property
     def field_dict(cls):
@@ -614,7 +622,7 @@ class TaggedUnionMeta(_AttrSyntax, SumMeta):
             if isinstance(field, BoundMeta):
                 yield from map(lambda v: cls(**{tag: v}), field.enumerate())
             else:
-                yield cls(**{tag: field()})
+                yield cls(**{tag: _representative(field)})
 
 
 class EnumMeta(_AttrSyntax, BoundMeta):
-- 
2.43.0

