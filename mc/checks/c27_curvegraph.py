''' C27: tight paths, distances and geodesics between all bounded pairs of (multi)curves that do not fill, against overlays in the model. '''

from mc.spaces import *
from mc import surgery, moves

BATCH = 1
CASE_CPU_SECONDS = 200
# (surface, triangulations, length of the curves)
TIGHT = {
    'quick': [((1, 1), [0], 8), ((0, 4), [0, 2], 6), ((1, 2), [0, 2, 4], 5), ((0, 5), [0], 5), ((0, 5), [6], 6), ((2, 1), [0, 3], 4), ((1, 3), [10], 4), ((0, 6), [11], 5)],
    'thorough': [((1, 1), [0], 14), ((0, 4), [0, 1, 2, 3, 4, 5], 8), ((1, 2), [0, 1, 2, 3, 4], 7), ((0, 5), [0, 2, 4, 6], 7), ((2, 1), [0, 1, 2, 3, 4, 5], 5), ((1, 3), [3, 5, 10], 5), ((0, 6), [2, 8, 11], 6), ((2, 2), [0, 2], 4)],
    }
# (surface, triangulations, length of the curves, stride of the pairs)
DISTANCE = {
    'quick': [((1, 2), [0, 2], 5, 3), ((0, 5), [0, 6], 6, 3), ((2, 1), [0], 4, 2), ((1, 3), [10], 4, 4), ((1, 1), [0], 4, 1), ((0, 4), [0], 4, 1)],
    'thorough': [((1, 2), [0, 1, 2, 3, 4], 6, 1), ((0, 5), [0, 2, 4, 6], 6, 1), ((2, 1), [0, 1, 2, 3, 4, 5], 4, 1), ((1, 3), [3, 5, 10], 4, 1), ((0, 6), [2, 11], 6, 1), ((2, 2), [0, 2], 3, 1), ((1, 1), [0], 6, 1), ((0, 4), [0, 1], 6, 1)],
    }

ASSUMPTIONS = ['paths of length three and more between filling pairs are out of reach (balls of hundreds of flips)', 'the middle multicurves of tight paths are compared up to multiplicity and peripheral components, which do not matter in the curve complex']

def bounds(tier):
    return f'tight paths of lengths 0-2 between all pairs of (multi)curves within {TIGHT[tier]} (surface, triangulations, length); geodesics, distances and quasiconvex sets for all (strided) pairs within {DISTANCE[tier]} (surface, triangulations, length, stride) whose quasiconvex set contains no filling pair'

def flat(R): return [list(x) for x in R.triples]

def cases(tier):
    out = []
    for (g, n), which, length, stride in DISTANCE[tier]:
        for i in which:
            R = labelled(triangulations(g, n, 60)[i], i % 3)
            parts = 1 if 2 * g + n < 4 else 60
            out += [{'kind': 'distance', 'tri': flat(R), 'length': length, 'stride': stride * parts, 'start': stride * p, 'deep': tier == 'thorough'} for p in range(parts)]
    for (g, n), which, length in TIGHT[tier]:
        for i in which:
            R = labelled(triangulations(g, n, 60)[i], i % 3)
            out += [{'kind': 'tight', 'tri': flat(R), 'length': length, 'stride': 6, 'start': p} for p in range(6)]
    return out

def essential(R, length): return [s for s in strands_up_to(R, length, arcs=False) if kind_of(R, s) == 'curve']

def run_tight(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    G = curver.kernel.CurveGraph(T)
    E = essential(R, case['length'])
    D = [(i, j) for i in range(len(E)) for j in range(i) if intersection(R, E[i], E[j]) == 0]
    M = [{c: 1} for c in E] + [{c: 2} for c in E[:2]] + [{E[i]: 1, E[j]: 1 + k % 2} for k, (i, j) in enumerate(D)][:12]
    show = lambda a, b: f'from {to_list(a)} to {to_list(b)} on {R.triples}'
    pairs = [(a, b) for a in M for b in M]
    for a, b in pairs[case['start']::case['stride']]:
        A, B = T(vector(R, a)), T(vector(R, b))
        crossing = sum(intersection(R, s, t) for s in a for t in b)
        want = {(tuple(A),)} if a == b else set()
        ctx.equal({tuple(tuple(m) for m in p) for p in G.tight_paths(A, B, 0)}, want, lambda: f'tight paths of length 0 {show(a, b)}')
        want = {(tuple(A), tuple(B))} if not crossing and not set(a) & set(b) else set()
        ctx.equal({tuple(tuple(m) for m in p) for p in G.tight_paths(A, B, 1)}, want, lambda: f'tight paths of length 1 {show(a, b)}')
        paths = G.tight_paths(A, B, 2)
        middle = frozenset(c for c in surgery.boundary_union(R, a, b) if kind_of(R, c) == 'curve')
        want = [middle] if middle and not middle & set(a) and not middle & set(b) else []
        got = []
        for p in paths:
            ctx.check(len(p) == 3 and p[0] == A and p[2] == B, lambda: f'tight paths of length 2 {show(a, b)}: {p}')
            ctx.check(p[1].triangulation == T and isinstance(p[1], curver.kernel.MultiCurve), lambda: f'tight paths of length 2 {show(a, b)}: {p}')
            got.append(frozenset(c for c in components(R, tuple(p[1])) if kind_of(R, c) == 'curve'))
        ctx.equal(got, want, lambda: f'middles of the tight paths of length 2 {show(a, b)}')
        ctx.state(); ctx.step(3); ctx.trace()
        ctx.outcome(f'{len(want)} tight paths of length 2')

def run_distance(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    G = curver.kernel.CurveGraph(T)
    E = essential(R, case['length'])
    L = [w for w in moves.closed_words(R, (1,), 1)]
    pairs = [(i, j) for i in range(len(E)) for j in range(i + 1)]
    one = lambda m: next(iter(components(R, tuple(m))))
    memo = {}
    def fills(x, y):
        k = (x, y) if x < y else (y, x)
        if k not in memo: memo[k] = x != y and surgery.union_fills(R, {x: 1}, {y: 1})
        return memo[k]
    for k, (i, j) in list(enumerate(pairs))[case['start']::case['stride']]:
        a, b = (E[i], E[j]) if k % 2 else (E[j], E[i])
        if a != b and fills(a, b): continue
        A, B = T(strand_vector(R, a)), T(strand_vector(R, b))
        show = lambda: f'from {a} to {b} on {R.triples}'
        U = G.quasiconvex(A, B)
        ctx.check(A in U and B in U and all(isinstance(u, curver.kernel.Curve) and u.triangulation == T for u in U), lambda: f'quasiconvex set {show()}: {U}')
        words = [components(R, tuple(u)) for u in U]
        ctx.check(all(len(w) == 1 and list(w.values()) == [1] and kind_of(R, next(iter(w))) == 'curve' for w in words), lambda: f'quasiconvex set {show()}: not only essential curves {U}')
        words = [next(iter(w)) for w in words]
        if any(fills(x, y) for x in words for y in words):
            ctx.outcome('filling pair in the quasiconvex set')
            continue
        want = 0 if a == b else 1 if intersection(R, a, b) == 0 else 2
        path = G.geodesic(A, B)
        ctx.check(len(path) == want + 1 and path[0] == A and path[-1] == B, lambda: f'geodesic {show()}: {path}')
        for c in path: ctx.check(isinstance(c, curver.kernel.Curve) and c.triangulation == T and kind_of(R, one(c)) == 'curve', lambda: f'geodesic {show()}: {c} is not an essential curve')
        for c, d in zip(path, path[1:]): ctx.check(c != d and intersection(R, one(c), one(d)) == 0, lambda: f'geodesic {show()}: {c} and {d} are not disjoint and distinct')
        turn = (k // case['stride'] + case['start']) % 3 if want == 2 else 3
        if turn == 0:
            tight = G.tight_geodesic(A, B)
            middle = {c for c in surgery.boundary_union(R, {a: 1}, {b: 1}) if kind_of(R, c) == 'curve'}
            ctx.check(len(tight) == 3 and {c for c in components(R, tuple(tight[1])) if kind_of(R, c) == 'curve'} == middle, lambda: f'tight geodesic {show()}: {tight}')
            if case['deep']: ctx.check(tight[1] in G.all_tight_geodesic_multicurves(A, B), lambda: f'multicurves in tight geodesics {show()}')
        if turn in (1, 3):
            ctx.equal(G.distance(B, A), want, lambda: f'distance back {show()}')
        if turn in (2, 3):
            f, _ = moves.encode(R, L[k % len(L)])
            fA, fB = f(A), f(B)
            images = [one(u) for u in G.quasiconvex(fA, fB)]
            if not any(fills(x, y) for x in images for y in images):
                ctx.equal(G.distance(fA, fB), want, lambda: f'distance between the images {show()} under {L[k % len(L)]}')
        ctx.state(); ctx.step(); ctx.trace()
        ctx.outcome(f'distance {want}')

def run_case(case, ctx):
    (run_tight if case['kind'] == 'tight' else run_distance)(case, ctx)
