''' C31: adding punctures to every set of triangles, and the images of all bounded multicurves. '''

from itertools import combinations

from mc.spaces import *

BATCH = 1
TECHNIQUE = 'bounded explicit-state exploration: for every triangulation and every bounded set of triangles the real 1-3 Pachner encoding is applied to all bounded multicurves, and its target and the images are compared with the subdivided triangulation and the strands pushed off the new punctures in a model'
# (surface, triangulations, length of the curves, sets of triangles)
PLAN = {
    'quick': [((0, 3), 9, 6, 2), ((1, 1), 3, 10, 2), ((0, 4), 6, 6, 2), ((1, 2), 12, 5, 2), ((2, 1), 6, 4, 1), ((0, 5), 6, 4, 1)],
    'thorough': [((0, 3), 9, 8, 2), ((1, 1), 3, 14, 2), ((0, 4), 6, 8, 4), ((1, 2), 40, 6, 4), ((2, 1), 9, 5, 3), ((0, 5), 20, 5, 3), ((1, 3), 20, 4, 2), ((0, 6), 12, 4, 2)],
    }
PARTS = [[(0, 3), (1, 1)], [(1, 1), (1, 1)], [(1, 1), (0, 4)]]

def bounds(tier):
    return f'every set of at most the given number of triangles, and all of them, on (surface, triangulations, length of the curves, size of the sets) {PLAN[tier]} and the unions {PARTS}: all curves and peripheral curves, and pairs of disjoint ones with multiplicities'

def cases(tier):
    out = []
    for (g, n), count, length, size in PLAN[tier]:
        ts = triangulations(g, n, 60)
        for i, t in enumerate(ts[::max(1, len(ts) // count)][:count]): out.append({'tri': [list(x) for x in labelled(t, 1 + i % 3).triples], 'length': length, 'size': size})
    for parts in PARTS: out.append({'tri': [list(x) for x in disjoint_union(*[triangulations(*p)[-1] for p in parts]).relabel(relabelling(sum(3 * (2 * g + n - 2) for g, n in parts), 1)).triples], 'length': 4, 'size': 2})
    return out

def model(R, Q, chosen, ctx):
    ''' Check that Q is R with each of the chosen triangles subdivided, and return for each new label (other than ~x for x already listed) the triangle side that its corner is opposite to. '''
    old = {x for t in R.triples for x in t}
    corner = {}
    for t in R.triples:
        if t not in chosen:
            for x in t: ctx.check((Q.nxt[x], Q.prv[x]) == (R.nxt[x], R.prv[x]), lambda: f'the triangle {t} was not chosen but became {(x, Q.nxt[x], Q.prv[x])}')
            continue
        for x in t:
            y, z = Q.nxt[x], Q.prv[x]
            ctx.check(y not in old and z not in old, lambda: f'the side {x} of the subdivided triangle {t} is in {(x, y, z)}')
            # The next side of the old triangle shares the edge that ends where the two meet.
            ctx.check(Q.prv[R.nxt[x]] == ~y, lambda: f'the pieces of {t} at {x} and {R.nxt[x]} are not glued')
            corner[y] = corner[~y] = R.prv[x]
    ctx.equal(len(corner), 6 * len(chosen), 'number of new labels')
    return corner

def push(R, Q, chosen, corner, v):
    ''' The weights of a multicurve that is pushed towards the corners of each of the chosen triangles. '''
    n = list(v) + [None] * (Q.zeta - R.zeta)
    w = lambda x: v[x if x >= 0 else ~x]
    for y, a in corner.items():
        if y >= 0:
            twice = w(R.nxt[a]) + w(R.prv[a]) - w(a)
            assert twice % 2 == 0 and twice >= 0
            n[y] = twice // 2
    return n

def run_case(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    K = curver.kernel
    S = strands_up_to(R, case['length'], arcs=False)
    P = [(s, t) for i, s in enumerate(S) for t in S[:i] if intersection(R, s, t) == 0]
    P = P[::max(1, len(P) // 25)]
    sets = [c for size in range(case['size'] + 1) for c in combinations(R.triples, size)]
    if tuple(R.triples) not in sets: sets.append(tuple(R.triples))
    sets = sets[:4] + sets[4:-1][::max(1, len(sets) // 12)] + sets[-1:] if len(sets) > 20 else sets
    of = {x.label: triangle for triangle in T for x in triangle}
    for number, chosen in enumerate(sets):
        triangles = [of[t[0]] for t in chosen]
        given = [list, tuple, set][number % 3](triangles)
        f = T.encode_pachner_1_3() if len(chosen) == len(R.triples) and number % 2 == 0 else T.encode_pachner_1_3(given)
        name = lambda: f'subdividing {chosen} of {R.triples}'
        ctx.check(f.source_triangulation == T, lambda: f'source of {name()}')
        U = f.target_triangulation
        Q = tri_of(U)
        ctx.equal(Q.zeta, R.zeta + 3 * len(chosen), lambda: f'number of edges after {name()}')
        corner = model(R, Q, set(chosen), ctx)
        g = f.inverse()
        ctx.check(g.source_triangulation == U and g.target_triangulation == T, lambda: f'inverse of {name()}')
        want = sorted((h, p + sum(t[0] in c for t in chosen)) for c, (h, p, _) in R.surface().items())
        ctx.equal(sorted((s.g, s.p) for s in U.surface().values()), want, lambda: f'surface after {name()}')
        image = {}
        def one(comps):
            v = vector(R, comps)
            x = f(T(v))
            ctx.equal(list(x), push(R, Q, chosen, corner, v), lambda: f'image of {comps} under {name()}')
            ctx.check(x.triangulation == U, lambda: f'triangulation of the image of {comps} under {name()}')
            c = components(Q, list(x))
            ctx.equal(sorted(c.values()), sorted(comps.values()), lambda: f'components of the image of {comps} under {name()}')
            single = sum(comps.values()) == 1
            ctx.check(isinstance(x, K.MultiCurve) and isinstance(x, K.Curve) == single, lambda: f'the image of {comps} under {name()} is a {type(x).__name__}')
            ctx.equal({tuple(k): m for k, m in x.components().items()}, {tuple(strand_vector(Q, s)): m for s, m in c.items()}, lambda: f'components of the image of {comps} under {name()}')
            y = g(x)
            ctx.equal((list(y), type(y)), (v, type(T(v))), lambda: f'{comps} after {name()} and back')
            ctx.state()
            return c
        for s in S:
            c = one({s: 1})
            [image[s]] = c
            ctx.equal(kind_of(Q, image[s]), 'peripheral' if kind_of(R, s) == 'peripheral' else 'curve', lambda: f'kind of the image of {s} under {name()}')
        ctx.equal(len(set(image.values())), len(S), lambda: f'curves with the same image under {name()}')
        for j, (s, t) in enumerate(P):
            m, k = 1 + j % 3, 1 + (j // 3) % 2
            ctx.equal(one({s: m, t: k}), {image[s]: m, image[t]: k}, lambda: f'image of {m} x {s} and {k} x {t} under {name()}')
        # The new punctures are missed by everything.
        new = [v for v in Q.vertices() if all(x in corner for x in v)]
        ctx.equal(len(new), len(chosen), lambda: f'new punctures after {name()}')
        ctx.equal(list(f(T.empty_lamination())), [0] * Q.zeta, lambda: f'image of the empty lamination under {name()}')
        # With other encodings.
        e = next((e for e in range(R.zeta) if R.flippable(e)), None)
        if e is not None:
            h = T.encode_flip(e).inverse()
            both = f * h
            for s in S[:8]:
                x = T.encode_flip(e)(T(strand_vector(R, s)))
                ctx.equal(list(both(x)), strand_vector(Q, image[s]), lambda: f'image of {s} under a flip back and {name()}')
        ctx.rejects(lambda: f(U.empty_lamination()), lambda: f'applying {name()} to a lamination on the result', (ValueError,)) if len(chosen) else None
        ctx.trace(len(S) + len(P)); ctx.step()
        ctx.outcome(f'{len(chosen)} punctures added')
