"""The gmpy2 model against gmpy2: every modelled operation, on values put into the model's symbolic terms afterwards."""
import random
import sys

import gmpy2 as G
import z3

from . import fpmodel as M

UN = ('sqrt', 'rint', 'rint_trunc', 'rint_floor', 'rint_ceil', 'rint_round', 'round_away', 'minus', 'plus', 'abs')
BIN = ('add', 'sub', 'mul', 'div', 'remainder', 'minnum', 'maxnum')
TRI = ('fma', 'fms')
REAL = dict(minus=lambda a: -a, plus=lambda a: +a, abs=lambda a: abs(a))


def contexts(eb, mb):
    for ieee in (True, False):
        for r in (G.RoundToNearest, G.RoundAwayZero, G.RoundUp, G.RoundDown, G.RoundToZero):
            p, emax = mb + 1, 1 << (eb - 1)
            yield G.context(precision=p, emax=emax, emin=4 - emax - p if ieee else 3 - emax, round=r, subnormalize=ieee)


def value(rnd, eb, mb, ieee):
    while True:
        k = rnd.randrange(1 << (1 + eb + mb))
        if rnd.random() < .2:
            k = rnd.choice([0, 1, (1 << mb) - 1, 1 << mb, ((1 << eb) - 1) << mb, (((1 << eb) - 1) << mb) + 1,
                            (((1 << eb) - 1) << mb) - 1, 1 << (eb + mb)])
        e, m = (k >> mb) & ((1 << eb) - 1), k & ((1 << mb) - 1)
        if ieee or e != 0 or m == 0:
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(k, 1 + eb + mb), z3.FPSort(eb, mb + 1)))


def same(a, b):
    """two mpfr as values, including the sign of zero"""
    if G.is_nan(a) or G.is_nan(b):
        return G.is_nan(a) and G.is_nan(b)
    return a == b and G.is_signed(a) == G.is_signed(b)


def main(n=12):
    rnd = random.Random(7)
    bad = total = 0
    for eb, mb in ((3, 2), (4, 3), (5, 10)):
        S = z3.FPSort(eb, mb + 1)
        xs = [z3.FP(f'x{i}', S) for i in range(3)]
        for real in contexts(eb, mb):
            for op in UN + BIN + TRI:
                k = 1 if op in UN else 2 if op in BIN else 3
                with M.local_context(M.Ctx(real)):
                    t = M.OPS[op](*[M.wrap(x) for x in xs[:k]]).t
                    for _ in range(n):
                        vs = [value(rnd, eb, mb, real.subnormalize) for _ in range(k)]
                        got = z3.simplify(z3.substitute(t, *zip(xs, vs)))
                        if not M.is_const(got):
                            s = z3.Solver()
                            y = z3.FP('y', got.sort())
                            s.add(y == got)
                            assert s.check() == z3.sat
                            got = s.model()[y]
                        rs = [M.to_real(M.wrap(v)) for v in vs]
                        with M.local(real):
                            want = (REAL.get(op) or getattr(G, op))(*rs)
                        total += 1
                        z = op in ('minnum', 'maxnum') and all(G.is_zero(v) for v in rs)
                        if not (same(M.to_real(M.wrap(got)), want) or z):
                            print('gmpy2 model mismatch', op, (eb, mb), real.round, real.subnormalize, rs, got, want)
                            bad += 1
    print(f'gmpy2 model: {total} comparisons, {bad} mismatches')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 12))
