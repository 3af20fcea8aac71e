"""Selftest of the source transformation: merged branches compute what Python computes."""
import ast
import random

import z3

from . import engine, env, runtime, sym, transform

SRC = '''
def f(x, y, l):
    r = 0
    for i, v in enumerate(l):
        if v:
            r |= 1 << i
    s = sum(1 << i for i, v in enumerate(l) if v)
    q = ''.join('1' if b else '0' for b in reversed(l))
    if x < y:
        m = x
    else:
        m = y
    z = x // y if y else -1
    if y > 3: x, k = y, 2
    if x > 2:
        z += 1
        r2 = 5
    elif x == 0:
        r2 = 6
    else:
        r2 = 7
    g = lambda t: 1 if t else 0
    class A:
        if y: w = 1
        else: w = 2
    return (r == s, int(q or '0', 2) == r, m, z, r2, g(x), A.w, any(v for v in l), all(x > i for i in range(2)),
            sum(v for v in (x, y) if v > 2))
'''


def value(a, sub):
    if isinstance(a, sym.SymInt):
        t, _, s = a.n.exact()
        v = z3.simplify(z3.substitute(t, *sub))
        return v.as_signed_long() if s else v.as_long()
    if isinstance(a, sym.SymBool):
        return z3.is_true(z3.simplify(z3.substitute(a.t, *sub)))
    return a


def main():
    plain, ns = {}, dict(runtime.HOOKS)
    exec(SRC, plain)
    exec(compile(ast.fix_missing_locations(transform.T('m').visit(ast.parse(SRC))), 'x', 'exec'), ns)
    out = []

    def body(e):
        ev = env.SymEnv.__new__(env.SymEnv)
        ev._subst, ev.e, ev.ground = [], e, False
        a = ev.int('x', 0, 7), ev.int('y', 0, 7), [ev.bool(f'b{i}') for i in range(5)]
        r = ns['f'](*a)
        out.append((list(e.pc), r))
    engine.Engine().explore(body)
    rnd = random.Random(1)
    bad = 0
    for _ in range(200):
        x, y, l = rnd.randrange(8), rnd.randrange(8), [rnd.random() < .5 for _ in range(5)]
        want = plain['f'](x, y, l)
        sub = [(z3.BitVec('x', 3), z3.BitVecVal(x, 3)), (z3.BitVec('y', 3), z3.BitVecVal(y, 3))]
        sub += [(z3.Bool(f'b{i}'), z3.BoolVal(b)) for i, b in enumerate(l)]
        on = [r for pc, r in out if z3.is_true(z3.simplify(z3.substitute(z3.And(pc + [z3.BoolVal(True)]), *sub)))]
        bad += len(on) != 1 or any(value(a, sub) != b or type(value(a, sub)) is not type(b) for a, b in zip(on[0], want))
    print(f'branch merging: {len(out)} paths, {bad} mismatches')
    return 1 if bad or len(out) > 12 else 0
