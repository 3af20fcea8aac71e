"""Stand-ins for the sources of randomness: every draw becomes an arbitrary value of its documented range."""
import contextlib
import itertools
import os
import random
import secrets
import sys

import z3

from . import sym, world
from .sym import SymInt, Unsupported, mkbool, zbool

RANDOM_FUNCS = ('randint', 'getrandbits', 'randrange', 'choice')
SECRETS_FUNCS = ('randbits', 'randbelow', 'choice')
GMPY = ('mpfr_random', 'mpz_urandomb', 'mpz_random', 'random_state', 'mpfr_grandom', 'mpfr_nrandom', 'mpc_random')
OTHERS = ('random', 'uniform', 'randbytes', 'sample', 'choices', 'shuffle')


class State:
    """gmpy2.random_state: without a seed it starts from the same point every time"""

    def __init__(self, *seed):
        self.fixed = not seed


class Draws:
    """what the code under test draws from; `take(lo, hi)` yields the next arbitrary integer"""

    def __init__(self, take):
        self.take = take
        self.count = 0

    def between(self, lo, hi):
        lo, hi = sym.plain(lo), sym.plain(hi)
        if hi < lo:
            raise ValueError('empty range')
        self.count += 1
        return self.take(lo, hi)

    def randint(self, a, b):
        return self.between(a, b)

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        start, stop, step = sym.plain(start), sym.plain(stop), sym.plain(step)
        n = (stop - start + step - (1 if step > 0 else -1)) // step
        return start + step * self.between(0, n - 1)

    def getrandbits(self, k):
        k = sym.plain(k)
        if k < 0:
            raise ValueError('number of bits must be non-negative')
        return self.between(0, (1 << k) - 1)

    randbits = getrandbits

    def randbelow(self, n):
        return self.between(0, n - 1)

    def choice(self, seq):
        return seq[sym.plain(self.between(0, len(seq) - 1))]

    def mpfr_random(self, state):
        import gmpy2
        p = gmpy2.get_context().precision
        fixed = getattr(state, 'fixed', False)
        k = (1 << p) // 3 if fixed else sym.plain(self.between(0, (1 << p) - 1))
        with gmpy2.local_context(gmpy2.context(precision=p + 2)):
            return gmpy2.mpfr(gmpy2.mpq(k, 1 << p))

    def mpz_urandomb(self, state, bits):
        return sys.modules['gmpy2'].mpz(0 if getattr(state, 'fixed', False) else sym.plain(self.getrandbits(bits)))

    def mpz_random(self, state, n):
        return sys.modules['gmpy2'].mpz(0 if getattr(state, 'fixed', False) else sym.plain(self.randbelow(n)))

    random_state = State

    def unmodelled(self, *a, **k):
        raise Unsupported('source of randomness that is not modelled')

    @contextlib.contextmanager
    def installed(self):
        """replaces the functions wherever hwtypes may have a name for them"""
        old, real = [], {}
        for mod, names in ((random, RANDOM_FUNCS + OTHERS), (secrets, SECRETS_FUNCS), (os, ('urandom',)),
                           (sys.modules.get('gmpy2'), GMPY)):
            for n in names if mod else ():
                v = getattr(mod, n)
                real[v] = getattr(self, n, self.unmodelled)
                old.append((mod, n, v))
        for name, mod in list(sys.modules.items()):
            if name.split('.')[0] == 'hwtypes':
                for n, v in list(vars(mod).items()):
                    if callable(v) and any(v is r for r in real):
                        old.append((mod, n, v))
        for m, n, v in old:
            setattr(m, n, real[v])
        methods = [(n, random.Random.__dict__.get(n)) for n in RANDOM_FUNCS]
        for n, _ in methods:
            setattr(random.Random, n, (lambda f: lambda rng, *a, **k: f(*a, **k))(getattr(self, n)))
        try:
            yield self
        finally:
            for m, n, v in old:
                setattr(m, n, v)
            for n, v in methods:
                if v is None:
                    delattr(random.Random, n)
                else:
                    setattr(random.Random, n, v)


def arbitrary(env, name='draw', concrete=False):
    """draws that are inputs of the harness"""
    c = itertools.count()

    def take(lo, hi):
        v = env.int(f'{name}{next(c)}', lo, hi)
        return env.concrete(v) if concrete else v
    return Draws(take)


def reachable(env, label, target, make, limit=4096, concrete=False):
    """check: some outcome of the draws makes make() equal to the integer target"""
    if env.symbolic:
        return _reach_sym(env, label, target, make, concrete)
    t = target
    # the untouched code: all outcomes when they are few, otherwise the likely ones
    todo, tried, many, draws = [()], 0, False, 0
    while todo:
        prefix = todo.pop()
        pos = [0]

        def take(lo, hi):
            nonlocal many
            i = pos[0]
            pos[0] += 1
            if i < len(prefix):
                return prefix[i]
            if hi - lo < limit:
                cands = range(lo, hi + 1)
            else:
                many = True
                cands = sorted({x for b in (lo, hi, t, t - (1 << t.bit_length()), (lo + hi) // 2) for x in (b - 1, b, b + 1)
                                if lo <= x <= hi})
            cands = list(cands)
            cur = list(prefix) + got
            for x in cands[1:]:
                todo.append(tuple(cur) + (x,))
            got.append(cands[0])
            return cands[0]
        got = []
        d = Draws(take)
        with d.installed():
            r = make()
        draws = max(draws, d.count)
        if r == t:
            return env.check(label, True)
        tried += 1
        if tried > 4 * limit:
            raise Unsupported('too many outcomes to try')
    if draws == 0 and len({make() for _ in range(64)}) > 1:
        raise Unsupported('source of randomness that is not modelled')
    if many and draws > 1:
        raise Unsupported('too many outcomes to try')
    env.check(label, False, f'no outcome of the random source gives {t}')


def _reach_sym(env, label, target, make, concrete):
    from . import engine
    from .env import SymEnv
    outer = env.e
    inner = engine.Engine(qtimeout=outer.qtimeout, budget=60.0, seed=outer.seed)
    inner.deadline = outer.deadline
    prev = world.CURRENT[0]
    ways, names, drawn = [], {}, [0]
    w = 1 + max(sym.bits_for(target.n.lo, target.n.hi)[0] if type(target) is SymInt else target.bit_length(), 1)

    def body(e):
        ev = SymEnv(e)
        world.CURRENT[0] = ev
        d = arbitrary(ev, 'some', concrete)
        with d.installed():
            r = make()
        drawn[0] = max(drawn[0], d.count)
        names.update({n: t for n, (_, t) in e.inputs.items()})
        rn = sym.node_of(r)
        ways.append((list(e.pc), rn))
    try:
        inner.explore(body)
    finally:
        world.CURRENT[0] = prev
        for k in ('queries', 'decisions', 'splits', 'solver_s'):
            outer.stats[k] += inner.stats[k]
    if not drawn[0]:
        seen = {sym.plain(make()) for _ in range(64)}
        if len(seen) > 1:
            raise Unsupported('source of randomness that is not modelled')
    tn = sym.node_of(target)
    alts = [z3.And(pc + [sym.c_eq(rn, tn)]) for pc, rn in ways]
    body_ = z3.simplify(z3.Or(alts)) if alts else sym.FALSE
    vs = [t for t in names.values()]
    cond = z3.Exists(vs, body_) if vs else body_
    env.check(label, mkbool(cond))
