"""Runs a harness on the untouched code with concrete inputs.

python -m vf.replay FILE.json        one counterexample, exits 1 if it fails
python -m vf.replay JOBS OUT         a batch (used by the runner)
"""
import json
import sys
import traceback


def run_one(job):
    from . import env, registry, sym
    fn = registry.resolve(job['ref'])
    e = env.PlainEnv(job['inputs'])
    try:
        fn(e, **job['params'])
    except env.Skip:
        return dict(status='skip')
    except sym.Unsupported as ex:
        return dict(status='error', why=str(ex))
    except (Exception, MemoryError) as ex:
        tb = traceback.format_exc().strip().splitlines()
        e.failures.append((f'unexpected {type(ex).__name__}', f'{ex!r} | {tb[-3].strip() if len(tb) > 2 else ""}'[:400]))
    if e.failures:
        return dict(status='fail', failures=e.failures[:5])
    return dict(status='known' if e.known else 'ok', known=sorted(e.known))


def main(argv):
    import resource
    from . import world
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    world.load(False)
    if len(argv) == 1:
        job = json.load(open(argv[0]))
        r = run_one(job)
        print(json.dumps(dict(case=job.get('case'), inputs=job['inputs'], result=r), indent=1))
        return 1 if r['status'] == 'fail' else 0
    jobs = json.load(open(argv[0]))
    out = [run_one(j) for j in jobs]
    json.dump(out, open(argv[1], 'w'))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
