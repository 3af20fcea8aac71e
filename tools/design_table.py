"""Rewrites the generated part of DESIGN.md (per property: oracle, bounds, what is outside, cost of the last quick run)."""
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
A, B = '<!-- generated: properties -->', '<!-- end generated -->'
C, D = '<!-- seeded table -->', '<!-- end seeded table -->'
ORACLE = {
    'C': 'mathematical integers and Python lists (the harness computes the expected value on the same symbolic integers)',
    'S': 'z3 bit-vector / integer terms built by the harness, compared with the term hwtypes built (read through pysmt\'s z3 converter)',
    'Z': 'z3 bit-vector terms built by the harness, compared with the term hwtypes built',
    'X': 'the three backends against each other (X01), the refusal itself (X02)',
    'A': 'the values the harness put in, Python tuples and dicts',
    'R': 'a rebinding function over the shape description, independent of the code',
    'M': 'a modifier-placement function over the shape description',
    'V': 'the list of parts of the shape description',
    'T': 'the (base, width) pairs themselves',
    'B': 'the definition of each derived operation over recorded calls of the abstract ones',
    'G': 'the ranges and the existence of a draw for every value',
    'U': 'Python dictionaries and a reference history',
    'F': 'z3 floating-point theory (exact rational semantics, one rounding)',
}


def main():
    from vf import registry
    registry.load_all()
    titles = {}
    for line in open(os.path.join(ROOT, 'properties.jsonl')):
        x = json.loads(line)
        titles[x['id']] = x['title']
    out = [A, '']
    for pid in titles:
        P = registry.PROPS[pid]
        out.append(f'**{pid} {titles[pid]}.**  Oracle: {ORACLE[pid[0]]}.  Bounds: {P.bounds}.'
                   + (f'  Outside: {P.outside}.' if P.outside else ''))
        n = {t: list(P.gen(t)) for t in ('quick', 'thorough')}
        cost = ''
        f = os.path.join(ROOT, 'evidence', pid + '.json')
        if os.path.exists(f) and '-t' in sys.argv:
            e = json.load(open(f))
            cost = f'; last {e["tier"]} run {e["wall_s"]:.0f} s'
        out.append(f'Cases: {len(n["quick"])} quick ({sum(c.core for c in n["quick"])} of them core), {len(n["thorough"])} thorough{cost}.')
        out.append('')
    out.append(B)
    p = os.path.join(ROOT, 'DESIGN.md')
    s = open(p).read()
    i, j = s.index(A), s.index(B) + len(B)
    s = s[:i] + '\n'.join(out) + s[j:]
    rows = [C, '', '| planted change | property | needs |', '|---|---|---|']
    for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d))
        rows.append(f'| {os.path.basename(os.path.dirname(d))} | {m["property"]} | {m["needs"]} |')
    rows.append(D)
    i, j = s.index(C), s.index(D) + len(D)
    open(p, 'w').write(s[:i] + '\n'.join(rows) + s[j:])


if __name__ == '__main__':
    main()
