''' C09: boundaries, filling, polygonalisation and separation against explicitly cut surfaces. '''

from mc.spaces import *
from mc import surgery
from mc import moves

BATCH = 1
TECHNIQUE = 'bounded explicit-state exploration: every system of bounded strands on every listed triangulation, each cut out explicitly in a model (regions, genus, boundary walks, minimal position overlays) and compared with the real predicates'
# (surface, triangulations, length, largest arc system, stride)
PLAN = {
    'quick': [((1, 1), 1, 7, 3, 1), ((0, 3), 3, 2, 3, 1), ((0, 4), 6, 4, 3, 7), ((1, 2), 5, 4, 3, 15), ((0, 5), 3, 3, 3, 43), ((2, 1), 4, 3, 3, 37), ((1, 3), 2, 3, 2, 19)],
    'thorough': [((1, 1), 1, 9, 3, 1), ((0, 3), 3, 2, 3, 1), ((0, 4), 6, 5, 4, 3), ((1, 2), 10, 5, 4, 17), ((0, 5), 12, 4, 3, 11), ((2, 1), 9, 4, 3, 11), ((1, 3), 12, 3, 3, 23), ((0, 6), 8, 3, 3, 41), ((2, 2), 4, 3, 2, 7)],
    }
# (surface, triangulations, length of the curves, length of the others)
UNION_PLAN = {
    'quick': [((1, 1), 1, 6, 6), ((0, 4), 4, 5, 4), ((1, 2), 3, 4, 4), ((0, 5), 2, 4, 3), ((2, 1), 2, 3, 3)],
    'thorough': [((1, 1), 1, 8, 8), ((0, 4), 6, 6, 6), ((1, 2), 8, 6, 4), ((0, 5), 8, 5, 4), ((2, 1), 9, 4, 4), ((1, 3), 8, 4, 3), ((0, 6), 4, 4, 3)],
    }
PARTS = [[(0, 3), (1, 1)], [(1, 1), (1, 1)], [(0, 3), (0, 4)], [(0, 3), (0, 3)], [(1, 1), (0, 4)]]

def bounds(tier):
    return f'boundary and predicates: every system of disjoint strands within (surface, triangulations, length, size, stride over the systems of at least two) {PLAN[tier]} and unions {PARTS}; boundary_union and fills_with: every curve and pair of disjoint curves against every strand and pairs of disjoint strands within {UNION_PLAN[tier]}'

def flat(R): return [list(x) for x in R.triples]

def spaces(plan, union_row):
    out = []
    for (g, n), count, *row in plan:
        ts = triangulations(g, n, 60)
        for i, t in enumerate(ts[::max(1, len(ts) // count)][:count]): out.append((labelled(t, 1 + i % 3), row))
    for parts in PARTS: out.append((disjoint_union(*[triangulations(*p)[-1] for p in parts]), union_row))
    return out

def cases(tier):
    out = []
    for R, (length, size, stride) in spaces(PLAN[tier], (3, 3, 29)):
        split = 6 if R.zeta > 3 else 1
        for part in range(split): out.append({'kind': 'system', 'tri': flat(R), 'length': length, 'size': size, 'stride': stride, 'part': part, 'parts': split})
    for R, (first, second) in spaces(UNION_PLAN[tier], (4, 3)):
        A = multicurves(R, first)
        split = max(1, len(A) // 2)
        for part in range(split): out.append({'kind': 'union', 'tri': flat(R), 'first': first, 'second': second, 'deep': tier == 'thorough', 'part': part, 'parts': split})
    return out

def multicurves(R, length):
    C = [s for s in strands_up_to(R, length, arcs=False) if kind_of(R, s) == 'curve']
    P = [s for s in strands_up_to(R, length, arcs=False) if kind_of(R, s) == 'peripheral'][:2]
    out = [{c: 1 + (i % 3 == 2)} for i, c in enumerate(C)]
    pairs = [(a, b) for i, a in enumerate(C + P) for b in C[:i] if a != b and intersection(R, a, b) == 0]
    return out + [{a: 1, b: 1 + i % 2} for i, (a, b) in enumerate(pairs[::2])][:len(C)] + [{p: 1} for p in P[:1]]

def run_case(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    if case['kind'] == 'system':
        S = strands_up_to(R, case['length'])
        index, stride = 0, case['stride']
        for size in range(0, case['size'] + 1):
            for system in systems(R, S, size):
                index += 1
                if size > 1 and (index % stride): continue
                if (index // stride) % case['parts'] != case['part']: continue
                comps = {S[i]: 1 + (index + k) % 2 if size < 3 else 1 for k, i in enumerate(system)}
                one(ctx, R, T, comps)
        # Systems of every size that extend each other up to a triangulation.
        E = [s for s in S if s[0] == 'e']
        for k in range(len(E) + 1):
            if k % case['parts'] == case['part']:
                one(ctx, R, T, {e: 1 for e in E[:k]})
                one(ctx, R, T, {e: 2 for e in E[k:]})
                one(ctx, R, T, {e: 1 for j, e in enumerate(E) if j != k})
        return
    union(ctx, R, T, case)

def one(ctx, R, T, comps):
    L = T(vector(R, comps))
    name = lambda: f'{to_list(comps)} on {R.triples}'
    pants = all(surgery.is_pants(R, c) for c in R.components())
    essential = [s for s in comps if kind_of(R, s) == 'curve']
    arcs = [s for s in comps if s[0] != 'c']
    want = surgery.boundary(R, comps)
    ctx.equal(list(L.boundary()), vector(R, want), lambda: f'boundary of {name()}')
    if want: ctx.equal({tuple(c): m for c, m in L.boundary().components().items()}, {tuple(strand_vector(R, c)): m for c, m in want.items()}, lambda: f'components of the boundary of {name()}')
    if arcs or not pants:
        ctx.equal(L.is_filling(), bool(comps) and surgery.meets_everything(R, arcs) and surgery.is_filling(R, comps), lambda: f'is_filling of {name()}')
    ctx.equal(L.is_polygonalisation(), surgery.is_polygonalisation(R, comps), lambda: f'is_polygonalisation of {name()}')
    if arcs and len(arcs) == len(comps):
        ctx.equal(L.is_triangulation(), surgery.is_triangulation(R, comps), lambda: f'is_triangulation of {name()}')
    if comps and len(essential) == len(comps):
        ctx.equal(L.is_separating(), len(surgery.regions(R, essential)) > len(R.components()), lambda: f'is_separating of {name()}')
    ctx.state(); ctx.step(); ctx.trace()
    ctx.outcome('fills' if L.is_filling() else 'does not fill')

def union(ctx, R, T, case):
    pants = all(surgery.is_pants(R, c) for c in R.components())
    A = multicurves(R, case['first'])[case['part']::case['parts']]
    P = strands_up_to(R, case['second'])
    B = [{}] + [{s: 1 + i % 2} for i, s in enumerate(P)]
    pairs = [(s, t) for i, s in enumerate(P) for t in P[:i] if intersection(R, s, t) == 0]
    B += [{s: 1, t: 1 + i % 2} for i, (s, t) in enumerate(pairs[::max(1, len(pairs) // 12)])]
    triples = [tuple(P[i] for i in t) for t in systems(R, P[:9], 3)]
    B += [{s: 1 for s in t} for t in triples[::max(1, len(triples) // 6)]]
    for a in A:
        X = T(vector(R, a))
        k = A.index(a)
        for b in B if case['deep'] else B[k % 3:24:3] + B[24 + k % 7::7]:
            if any(kind_of(R, s) == 'peripheral' and intersection(R, s, t) for s in a for t in b): continue  # No longer a union of a multicurve and a lamination in general position.
            if any(kind_of(R, s) == 'peripheral' and intersection(R, s, t) for s in b for t in a): continue
            Y = T(vector(R, b))
            name = lambda: f'{to_list(a)} and {to_list(b)} on {R.triples}'
            want = surgery.boundary_union(R, a, b)
            got = X.boundary_union(Y)
            common = [c for c in a if c in b]
            if common:  # How often a shared component counts is not documented, but it must bound its neighbourhood.
                have = components(R, list(got))
                ctx.check(all(have.get(c, 0) >= 2 for c in common), lambda: f'boundary of the union of {name()} misses a shared component: {list(got)}')
                ctx.equal({c: m for c, m in have.items() if c not in common}, {c: m for c, m in want.items() if c not in common}, lambda: f'boundary of the union of {name()}')
            else:
                ctx.equal(list(got), vector(R, want), lambda: f'boundary of the union of {name()}')
            if not pants: ctx.equal(X.fills_with(Y), surgery.union_fills(R, a, b), lambda: f'whether {name()} fill')
            ctx.state(); ctx.step(); ctx.trace()
            ctx.outcome('union')
