"""Quick check of the machinery itself: proxies against Python ints, the gmpy2 model against gmpy2 (run once as setup)."""
import random
import sys


def main():
    from . import world
    world.load(True)
    import z3
    from . import engine, env, sym
    rnd = random.Random(1)
    ops = ['+', '-', '*', '//', '%', '&', '|', '^', '<<', '>>', '==', '<', '<=']
    bad = 0

    def body(e):
        nonlocal bad
        ev = env.SymEnv(e)
        a, b = ev.int('a', -20, 20), ev.int('b', -20, 20)
        s = ev.int('s', 0, 6)
        for o in ops:
            if o in ('//', '%'):
                if ev.split(b == 0):
                    continue
            y = s if o in ('<<', '>>') else b
            r = eval(f'a {o} y')
            for _ in range(3):
                m = e.model or e._solve(e.pc)[1]
                i = e.assign(m)
                want = eval(f'{i["a"]} {o} ({i["s"] if o in ("<<", ">>") else i["b"]})')
                g = m.eval(sym.zint(r) if not isinstance(r, sym.SymBool) else r.t, model_completion=True)
                got = z3.is_true(g) if isinstance(want, bool) else z3.simplify(g).as_long()
                if got != want:
                    print('selftest mismatch', o, i, got, want)
                    bad += 1
                x, z = rnd.randint(-20, 20), rnd.randint(-20, 20)
                r2, m2 = e._solve(e.pc + [ev_eq(a, x), ev_eq(b, z)])
                if r2 == 'sat':
                    e.model = m2
    e = engine.Engine()
    e.explore(body)
    print(f'selftest: {e.stats["paths"]} paths, {bad} mismatches')
    from . import mergeself
    bad += mergeself.main()
    import subprocess
    rc = subprocess.call([sys.executable, '-m', 'vf.fpself', '40'])
    return 1 if bad or rc else 0


def ev_eq(a, x):
    from . import sym
    return sym.zbool(a == x)


if __name__ == '__main__':
    sys.exit(main())
