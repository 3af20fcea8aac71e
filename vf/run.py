"""python -m vf.run PID [--tier quick|thorough] [--only REGEX] [-v]

Decides one property on the repository's current source.
exit 0  every case decided, property held (or only listed findings)
exit 1  VIOLATION (replayed on the untouched code)
exit 2  no verdict
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
from . import registry, transform   # noqa: E402

PROBE = 6
NPROC = int(os.environ.get('VF_JOBS', '8'))


# ---- worker -------------------------------------------------------------------
def w_init(worlds):
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import world
    world.load(True, fp=(worlds == 'fp'))


def show(x):
    try:
        return repr(x)[:300]
    except BaseException:           # symbolic parts
        return f'<{type(x).__name__}>'


def w_case(task):
    from . import engine, env, runtime, sym, world
    ref, params, ground, qtimeout, budget, seed = task
    # 'probe': all inputs take some values; 'probe splits': inputs stay symbolic, values the code makes concrete take some
    probe = PROBE if ground in ('probe', 'probe splits') else 0
    if ground == 'probe splits':
        ground = False
    fn = registry.resolve(ref)
    t0 = time.time()
    runtime.ENTERED.clear()
    e = engine.Engine(qtimeout=qtimeout, budget=budget, seed=seed, probe=probe)

    def body(e):
        ev = env.SymEnv(e, ground)
        world.CURRENT[0] = ev
        try:
            fn(ev, **params)
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            where = f'{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}' if tb else ''
            e.fail_path(f'unexpected {type(ex).__name__}', f'{type(ex).__name__}: {str(ex)[:200]} at {where}')
        finally:
            world.CURRENT[0] = None
    status, why = 'done', ''
    try:
        e.explore(body)
    except sym.Unsupported as ex:
        status, why = 'unsupported', str(ex)
    except engine.Budget:
        status, why = 'budget', 'time budget exhausted'
    except RecursionError as ex:
        status, why = 'unsupported', 'recursion'
    except Exception as ex:
        status, why = 'error', traceback.format_exc()[-1500:]
    if status == 'done' and probe:
        status, why = 'probed', 'only some values tried'
    if status == 'done' and e.unknown:
        status, why = 'unknown', 'solver timeout on: ' + ', '.join(sorted(set(e.unknown))[:4])
    if status == 'done' and (not e.reached or e.stats['paths'] + len(e.failures) == 0):
        status, why = 'error', 'vacuous: no check reached'
    seen, fails = {}, []
    for f in e.failures:
        k = f.label
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 3 and len(fails) < 30:
            fails.append(dict(label=f.label, inputs=f.inputs, detail=show(f.detail)))
    known = {}
    for label, inputs in e.known_hits:
        known.setdefault(label, inputs)
    return dict(status=status, why=why, stats=e.stats, failures=fails, known=known,
                models=e.models[:400], entered=sorted(runtime.ENTERED), wall=time.time() - t0,
                labels=sorted(e.reached), ground=ground)


# ---- known findings --------------------------------------------------------------
def known_findings():
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                out.append(json.loads(line[len('finding:'):]))
    return out


def run_tasks(tasks, world, seed, deadline):
    """tasks: list of (case, ground, qtimeout, budget)"""
    ctx = mp.get_context('fork')
    res = [None] * len(tasks)
    if not tasks:
        return res
    pool = ctx.Pool(min(NPROC, len(tasks)), w_init, (world,))
    try:
        hs = [pool.apply_async(w_case, ((c.ref, c.params, g, q, b, seed),)) for c, g, q, b in tasks]
        for i, h in enumerate(hs):
            try:
                res[i] = h.get(max(1.0, deadline - time.time()))
            except mp.TimeoutError:
                res[i] = dict(status='budget', why='property time limit', stats={}, failures=[], known={}, models=[],
                              entered=[], wall=0.0, labels=[], ground=tasks[i][1])
    finally:
        pool.terminate()
    return res


def replay_batch(jobs):
    """run jobs on the untouched code, in parallel plain processes"""
    if not jobs:
        return []
    d = tempfile.mkdtemp(prefix='vfreplay')
    try:
        n = min(NPROC, max(1, len(jobs) // 40 + 1))
        chunks = [list(range(i, len(jobs), n)) for i in range(n)]
        ps = []
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        for k, ch in enumerate(chunks):
            a, b = os.path.join(d, f'j{k}'), os.path.join(d, f'o{k}')
            json.dump([jobs[i] for i in ch], open(a, 'w'))
            ps.append((ch, b, subprocess.Popen([sys.executable, '-m', 'vf.replay', a, b], cwd=ROOT, env=env,
                                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
        out = [dict(status='error')] * len(jobs)
        for ch, b, p in ps:
            try:
                so, se = p.communicate(timeout=600)
            except subprocess.TimeoutExpired:
                p.kill()
                continue
            if os.path.exists(b):
                for i, r in zip(ch, json.load(open(b))):
                    out[i] = r
            else:
                sys.stderr.write(se.decode()[-2000:] + '\n')
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def family(name):
    return re.sub(r'\d+', '#', name)


def harness(name):
    return name.split('[')[0]


def job(c, inputs):
    return dict(ref=c.ref, params=c.params, inputs=inputs, case=c.name)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    registry.load_all()
    P = registry.PROPS[a.pid]
    limit = t0 + (300 if a.tier == 'quick' else 640)
    qt, bd = (10000, 60.0) if a.tier == 'quick' else (60000, 400.0)
    cases = list(P.gen(a.tier))
    if a.only:
        cases = [c for c in cases if re.search(a.only, c.name)]
    assert len({c.name for c in cases}) == len(cases), 'duplicate case names'
    # big cases first would help the schedule; keep the given order but core first
    order = sorted(range(len(cases)), key=lambda i: not cases[i].core)
    cases = [cases[i] for i in order]
    results = run_tasks([(c, False, qt, c.budget or bd) for c in cases], P.world, seed, limit)

    # anything without a verdict, or whose counterexample does not reproduce, is
    # redone with inputs split completely by the solver (small bounds only)
    viol, known, redo, notes, sym_failed = [], {}, [], [], {}

    def confirm(idx, rs, second):
        jobs, meta = [], []
        for i, r in zip(idx, rs):
            for f in r['failures']:
                jobs.append(job(cases[i], f['inputs']))
                meta.append((i, f))
            for label, inp in r['known'].items():
                jobs.append(job(cases[i], inp))
                meta.append((i, dict(label=label, known=True)))
        outs = replay_batch(jobs)
        bad = set()
        for (i, f), j, o in zip(meta, jobs, outs):
            if f.get('known'):
                if o['status'] in ('known', 'fail') and (o['status'] == 'fail' or f['label'] in o['known']):
                    if o['status'] == 'fail':
                        viol.append((i, f['label'], j, o))
                    else:
                        known.setdefault(f['label'], (i, j))
                else:
                    bad.add(i)
                    notes.append(f'{cases[i].name}: known deviation {f["label"]} did not reproduce: {o}')
            elif o['status'] == 'fail':
                viol.append((i, f['label'], j, o))
            else:
                bad.add(i)
                notes.append(f'{cases[i].name}: counterexample to "{f["label"]}" did not reproduce '
                             f'({o["status"]}): {f["inputs"]} {f.get("detail")}')
        return bad
    bad = confirm(range(len(cases)), results, False)
    decided = {}
    for i, r in enumerate(results):
        if r['status'] == 'done' and i not in bad:
            decided[i] = 'symbolic'
        else:
            redo.append(i)
            notes.append(f'{cases[i].name}: {r["status"]} {r["why"]}')
    hit = {v[0] for v in viol}
    redo_core = [i for i in redo if cases[i].core and i not in hit]
    # first once more with more time (the machine may have been busy), then case by case
    for what, ground, pick in (('longer', False, lambda i: results[i]['status'] in ('unknown', 'budget') or
                                'no answer' in results[i]['why']), ('inputs split', True, lambda i: True)):
        redo_core = [i for i in redo_core if i not in decided and i not in hit]
        idx = [i for i in redo_core if pick(i)]
        if not idx:
            continue
        rs = run_tasks([(cases[i], ground, qt if ground else 4 * qt, bd if ground else 2 * bd) for i in idx], P.world, seed,
                       min(time.time() + 120, limit + 60))
        bad2 = confirm(idx, rs, True)
        hit = {v[0] for v in viol}
        for i, r in zip(idx, rs):
            if r['status'] == 'done' and i not in bad2:
                decided[i] = 'case-split' if ground else 'symbolic'
                results[i] = r
            else:
                notes.append(f'{cases[i].name}: still undecided ({what}): {r["status"]} {r["why"]}')

    # what is still open is tried on some values of its inputs: this refutes or says nothing
    hit = {v[0] for v in viol}
    fam, probe = {}, []
    for i in range(len(cases)):
        if i not in decided and i not in hit:
            fam.setdefault(family(cases[i].name), []).append(i)
    for idx in fam.values():
        probe += sorted({idx[0], idx[len(idx) // 2], idx[-1]})
    if probe:
        rest = [i for idx in fam.values() for i in reversed(idx) if i not in probe]
        todo = [(i, g) for g in ('probe', 'probe splits') for i in probe] + [(i, 'probe splits') for i in rest]
        rs = run_tasks([(cases[i], g, 5000, 20.0) for i, g in todo], P.world, seed, time.time() + 90)
        if a.v:
            for (i, g), r in zip(todo, rs):
                print(f'  {g}: {cases[i].name}: {r["status"]} {len(r["failures"])} failures')
        confirm([i for i, _ in todo], rs, True)

    # one concrete run of the untouched code per explored path
    cap = 3000 if a.tier == 'quick' else 12000
    jobs, meta = [], []
    per = max(1, cap // max(1, len(cases)))
    for i, r in enumerate(results):
        ms = r['models']
        step = max(1, len(ms) // per)
        for m in ms[::step][:per + 1]:
            jobs.append(job(cases[i], m))
            meta.append(i)
    outs = replay_batch(jobs)
    validated = 0
    for i, j, o in zip(meta, jobs, outs):
        if o['status'] in ('ok', 'known'):
            validated += 1
        elif o['status'] == 'fail':
            # the encoding accepted an input on which the real code fails the property
            viol.append((i, 'replay of a path model', j, o))
        else:
            notes.append(f'{cases[i].name}: path model not replayable: {o}')

    # ---- report ------------------------------------------------------------------
    rc = 0
    listed = [k for k in known_findings() if k['property'] == a.pid]
    open_known = []
    for label, (i, j) in sorted(known.items()):
        if any(k['label'] == label for k in listed):
            what = next(k['what'] for k in listed if k['label'] == label)
            print(f'KNOWN-FINDING: property={a.pid} {what}')
            open_known.append(label)
        else:
            viol.append((i, label, j, dict(status='fail', failures=[[label, 'deviation not listed in KNOWN_FINDINGS']])))
    rd = os.path.join(ROOT, 'replays')
    shown = set()
    nviol = 0
    for i, label, j, o in viol:
        key = (cases[i].name.split('[')[0], label)
        if key in shown:
            continue
        shown.add(key)
        nviol += 1
        if nviol > 12:
            continue
        os.makedirs(rd, exist_ok=True)
        h = hashlib.sha1(json.dumps(j, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rd, f'{a.pid}-{h}.json')
        json.dump(dict(j, property=a.pid, label=label, observed=o), open(path, 'w'), indent=1)
        print(f'VIOLATION property={a.pid} replay={path}')
        print(f'  case {cases[i].name}: {label}; inputs {j["inputs"]}; observed {o.get("failures")}')
        rc = 1
    hit = {v[0] for v in viol}
    undecided = [i for i in range(len(cases)) if i not in decided and i not in hit]
    # a harness decided for part of its parameters has a verdict, for those; what is left out is reported
    smaller = {harness(cases[i].name) for i in decided if cases[i].core}
    und_core = [i for i in undecided if cases[i].core and harness(cases[i].name) not in smaller]
    if rc == 0 and undecided:
        print(f'NOTE property={a.pid}: {len(undecided)} cases undecided, the bounds covered are smaller (see evidence)')
        for i in undecided[:8]:
            print(f'  undecided: {cases[i].name}: {results[i]["why"][:120]}')
    if rc == 0 and und_core:
        print(f'NO VERDICT property={a.pid}: {len(und_core)} core cases undecided')
        for n in notes[:20]:
            print('  ' + n[:600])
        rc = 2
    st = {}
    for r in results:
        for k, v in r['stats'].items():
            st[k] = st.get(k, 0) + v
    entered = sorted({q for r in results for q in r['entered']})
    wall = time.time() - t0
    samples = []
    for i in list(decided)[:40]:
        r = results[i]
        if r['models']:
            samples.append(dict(case=cases[i].name, inputs=r['models'][0], labels=r['labels'][:4]))
    ev = dict(
        property=a.pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking',
        coverage=dict(
            states=max(1, st.get('paths', 0)), transitions=max(1, st.get('decisions', 0) + st.get('splits', 0)),
            traces_validated_against_impl=validated, samples=samples[:12] or [dict(case='none')],
            technique='symbolic execution of the current source, z3 decides every path',
            cases=len(cases), cases_decided=len(decided),
            cases_decided_symbolically=sum(v == 'symbolic' for v in decided.values()),
            cases_decided_by_case_split=sum(v == 'case-split' for v in decided.values()),
            cases_inconclusive=[cases[i].name + ': ' + results[i]['why'][:120] for i in undecided][:50],
            obligations=st.get('obligations', 0), discharged=st.get('discharged', 0),
            discharged_by_term_rewriting=st.get('trivial', 0),
            solver_queries=st.get('queries', 0), solver_seconds=round(st.get('solver_s', 0.0), 3),
            functions_encoded=entered, bounds=P.bounds, outside=P.outside,
            known_findings=open_known),
        assumptions=P.assumptions, wall_s=round(wall, 3), violations=nviol)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(ROOT, 'evidence', f'{a.pid}.json'), 'w'), indent=1)
    print(f'{a.pid} {a.tier}: {len(decided)}/{len(cases)} cases decided, {st.get("paths", 0)} paths, '
          f'{st.get("obligations", 0)} obligations, {st.get("queries", 0)} queries, '
          f'{st.get("solver_s", 0.0):.1f}s solver, {validated} paths replayed, {wall:.1f}s')
    if a.v:
        for n in notes:
            print('  note: ' + n[:800])
        slow = sorted(range(len(cases)), key=lambda i: -results[i]['wall'])[:8]
        for i in slow:
            print(f'  {results[i]["wall"]:.1f}s {cases[i].name} {results[i]["stats"].get("paths")} paths')
    return rc


if __name__ == '__main__':
    sys.exit(main())
