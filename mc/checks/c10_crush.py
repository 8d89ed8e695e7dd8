''' C10: crushing along every bounded multicurve, against the surface cut explicitly along it. '''

from collections import Counter

from mc.spaces import *
from mc import surgery
from mc.ref import intersection_multi, twist_multi

BATCH = 1
TECHNIQUE = 'bounded explicit-state exploration: every bounded multicurve on every listed triangulation is crushed by the real code, and the target, the images of all bounded disjoint strands and the lifts of all bounded curves of the target are compared with the surface cut along it in a model'
# (surface, triangulations, length of the multicurve, length of the others, components)
PLAN = {
    'quick': [((1, 1), 1, 7, 7, 1), ((0, 4), 6, 6, 5, 1), ((1, 2), 8, 5, 5, 2), ((0, 5), 6, 4, 4, 2), ((2, 1), 9, 4, 4, 3), ((1, 3), 4, 4, 3, 2), ((0, 6), 2, 4, 3, 3)],
    'thorough': [((1, 1), 1, 14, 9, 1), ((0, 4), 6, 8, 6, 1), ((1, 2), 16, 6, 5, 2), ((0, 5), 12, 5, 5, 2), ((2, 1), 9, 6, 5, 4), ((1, 3), 20, 4, 4, 3), ((0, 6), 12, 4, 4, 3), ((2, 2), 6, 4, 4, 3), ((0, 7), 3, 3, 3, 4)],
    }
PARTS = [[(0, 3), (1, 1)], [(1, 1), (1, 1)], [(1, 1), (0, 4)]]

def bounds(tier):
    return f'every multicurve of at most the given components (strided beyond one) within (surface, triangulations, length of the multicurve, of the others, components) {PLAN[tier]}, and on the unions {PARTS}; all disjoint strands, some of the strands crossing it (strided) and all curves of the target up to length 4'

def flat(R): return [list(x) for x in R.triples]

def cases(tier):
    out = []
    for R, row in spaces(tier):
        M = multicurves(R, row[0], row[2])
        split = max(1, len(M) // 3)
        for part in range(split): out.append({'tri': flat(R), 'row': list(row), 'part': part, 'parts': split, 'deep': tier == 'thorough'})
    return out

def spaces(tier):
    for (g, n), count, *row in PLAN[tier]:
        ts = triangulations(g, n, 60)
        for i, t in enumerate(ts[::max(1, len(ts) // count)][:count]): yield labelled(t, 1 + i % 3), row
    for parts in PARTS: yield disjoint_union(*[triangulations(*p)[-1] for p in parts]), (4, 3, 2)

def multicurves(R, length, size):
    S = strands_up_to(R, length, arcs=False)
    C = [s for s in S if kind_of(R, s) == 'curve']
    P = [s for s in S if kind_of(R, s) == 'peripheral']
    out = [{c: 1 + (i % 4 == 3)} for i, c in enumerate(C)]
    for k in range(2, size + 1):
        sets = list(systems(R, C, k))
        out += [{C[i]: 1 + (u + j) % 2 for u, i in enumerate(s)} for j, s in enumerate(sets[::max(1, len(sets) // 6)])]
    out += [{P[0]: 2}, {C[0]: 1, P[0]: 1}] if P and C else []
    return out

def run_case(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    first, second, size = case['row']
    S = strands_up_to(R, second)
    for M in multicurves(R, first, size)[case['part']::case['parts']]: one(ctx, R, T, M, S, case['deep'])

def one(ctx, R, T, M, S, deep):
    name = lambda: f'crushing {to_list(M)} on {R.triples}'
    L = T(vector(R, M))
    crush = L.crush()
    lift = crush.inverse()
    essential = [c for c in M if kind_of(R, c) == 'curve']
    ctx.check(crush.source_triangulation == T and lift.target_triangulation == T, lambda: f'source of {name()}')
    U = crush.target_triangulation
    Q = tri_of(U)
    got = sorted((g, n) for g, n, _ in Q.surface().values())
    ctx.equal(got, sorted(p[:2] for p in surgery.pieces(R, essential)), lambda: f'target of {name()}')
    read = lambda lamination: components(Q, list(lamination))
    # The punctures of the target.
    back = Counter()
    for v in Q.vertices():
        curve = U(strand_vector(Q, canon(('c', tuple(~x for x in v)))))
        c = components(R, list(lift(curve)))
        ctx.check(len(c) == 1 and set(c.values()) == {1}, lambda: f'lift of the peripheral {curve!r} under {name()}: {c}')
        back.update(c)
    want = Counter(canon(('c', tuple(~x for x in v))) for v in R.vertices())
    for c in essential: want[c] += 2
    ctx.equal(back, want, lambda: f'lifts of the punctures under {name()}')
    # Components crush to nothing.
    for c in essential: ctx.equal(list(crush(T(vector(R, {c: 2})))), [0] * R.zeta, lambda: f'image of {c} under {name()}')
    # Disjoint strands.
    D = [s for s in S if s not in essential and all(intersection(R, s, c) == 0 for c in essential)]
    image = {}
    for s in D:
        x = crush(T(strand_vector(R, s)))
        ctx.check(x.triangulation == U, 'image on the wrong triangulation')
        c = read(x)
        ctx.check(Diagram.valid(Q, list(x)) and len(c) == 1 and set(c.values()) == {1}, lambda: f'image of {s} under {name()} is {list(x)}: {c}')
        [image[s]] = c
        ctx.equal(kind_of(Q, image[s]), kind_of(R, s), lambda: f'kind of the image of {s} under {name()}')
        if s[0] == 'c': ctx.equal(list(lift(x)), strand_vector(R, s), lambda: f'lift of the image of {s} under {name()}')
        ctx.step()
    ctx.equal(len(set(image.values())), len(D), lambda: f'different strands with the same image under {name()}')
    for i, s in enumerate(D):
        for t in D[:i + 1]: ctx.equal(intersection(Q, image[s], image[t]), intersection(R, s, t), lambda: f'intersection of the images of {s} and {t} under {name()}')
    # Sums.
    pairs = [(s, t) for i, s in enumerate(D) for t in D[:i] if intersection(R, s, t) == 0]
    for j, (s, t) in enumerate(pairs[::max(1, len(pairs) // (30 if deep else 10))]):
        comps = {s: 1 + j % 2, t: 1 + j % 3}
        ctx.equal(read(crush(T(vector(R, {**comps, **{c: 1 for c in essential[:j % 2]}})))), {image[s]: comps[s], image[t]: comps[t]}, lambda: f'image of {comps} under {name()}')
        if s[0] == t[0] == 'c': ctx.equal(components(R, list(lift(U(vector(Q, {image[s]: 2, image[t]: 3}))))), {s: 2, t: 3}, lambda: f'lift of the images of 2{s} and 3{t} under {name()}')
    # Curves of the target.
    new = [s for s in strands_up_to(Q, 5 if deep else 4, arcs=False)]
    up = {}
    for s in new:
        c = components(R, list(lift(U(strand_vector(Q, s)))))
        ctx.check(len(c) == 1 and set(c.values()) == {1}, lambda: f'lift of {s} under {name()}: {c}')
        [up[s]] = c
        if kind_of(Q, s) == 'curve':
            ctx.equal(kind_of(R, up[s]), 'curve', lambda: f'lift of {s} under {name()}')
            ctx.equal(read(crush(T(strand_vector(R, up[s])))), {s: 1}, lambda: f'image of the lift {up[s]} of {s} under {name()}')
        ctx.check(all(intersection(R, up[s], c) == 0 for c in essential), lambda: f'the lift of {s} under {name()} crosses the crushed curve')
        ctx.step()
    for i, s in enumerate(new):
        for t in new[:i]: ctx.equal(intersection(R, up[s], up[t]), intersection(Q, s, t), lambda: f'intersection of the lifts of {s} and {t} under {name()}')
    # Strands crossing the multicurve are cut into arcs ending at the new punctures.
    if essential:
        X = [s for s in S if s not in essential and any(intersection(R, s, c) for c in essential)]
        X = X[::max(1, len(X) // (80 if deep else 16))]
        tests = [(up[t], t) for t in new] + [(t, image[t]) for t in D]
        tests = tests[::max(1, len(tests) // (120 if deep else 40))]
        ends = [(components(R, list(lift(U(strand_vector(Q, p))))), p) for p in (canon(('c', tuple(~x for x in v))) for v in Q.vertices())]
        for j, s in enumerate(X):
            m = 1 + (j % 5 == 4)
            x = crush(T([m * w for w in strand_vector(R, s)]))
            ctx.check(x.triangulation == U and Diagram.valid(Q, list(x)), lambda: f'image of {s} under {name()} is {list(x)}')
            c = read(x)
            what = lambda: f'image of {m} x {s}, that is {c}, under {name()}'
            ctx.check(all(kind_of(Q, t) == 'arc' for t in c), lambda: f'{what()} has closed components')
            crossings = {d: intersection(R, s, d) for d in essential}
            ctx.equal(sum(c.values()), m * (sum(crossings.values()) + (s[0] != 'c')), lambda: f'number of pieces of the {what()}')
            for d, p in ends:
                [d] = d
                ctx.equal(intersection_multi(Q, c, {p: 1}), m * (crossings[d] if d in crossings else intersection(R, s, d)), lambda: f'ends at the puncture {p} that lifts to {d} of the {what()}')
            for d, t in tests: ctx.equal(intersection_multi(Q, c, {t: 1}), m * intersection(R, s, d), lambda: f'intersection with {t}, that comes from {d}, of the {what()}')
            for k in ((1, -1, 2, -5) if deep else (1 + j % 3, -1 - j % 2)):
                for d in essential:
                    ctx.equal(list(crush(T(vector(R, twist_multi(R, {d: 1}, k, {s: m}))))), list(x), lambda: f'after twisting {k} times about {d}, {what()}')
            # With something disjoint from it.
            others = [t for t in D if intersection(R, s, t) == 0]
            for t in others[::max(1, len(others) // (9 if deep else 3))]:
                ctx.equal(read(crush(T(vector(R, {s: m, t: 1 + j % 2})))), {**c, image[t]: c.get(image[t], 0) + 1 + j % 2}, lambda: f'with {t} added, {what()}')
            ctx.step(); ctx.trace()
            ctx.outcome(f'cut into {min(sum(c.values()), 8)} arcs')
    # Crushes, lifts and mappings composed with each other.
    if essential:
        K = curver.kernel
        flip = next((e for e in range(R.zeta) if Q.flippable(e)), None)
        m = U.encode_flip(flip) if flip is not None else U.id_encoding()
        flip2 = next((e for e in range(R.zeta) if R.flippable(e)), None)
        n = T.encode_flip(flip2).inverse() if flip2 is not None else T.id_encoding()
        for other, what in [(m * crush, 'a flip after'), (crush * n, 'a flip before'), (lift * crush, 'lift after'), (crush * lift, 'lift before'), (crush * T.id_encoding(), 'identity before'), (lift * m.inverse(), 'the inverse of a flip after the lift')]:
            ctx.check(not isinstance(other, K.Mapping), lambda: f'{what} {name()} is a {type(other).__name__}')
            ctx.check(type(other.promote()) is type(other) and type(other.inverse()) is type(other), lambda: f'{what} {name()} promotes or inverts to another class')
        ctx.check(not crush == 3 and not crush == None and crush != 'x' and not crush == m, lambda: f'{name()} equals something that is not a crush')
        same = m.inverse() * (m * crush)
        ctx.check(same == crush and hash(same) == hash(crush) and not same != crush, lambda: f'undoing a flip after {name()} gives something different')
        ctx.check(not (lift * crush == T.id_encoding()) and not (T.id_encoding() == lift * crush), lambda: f'{name()} equals the identity')
        ctx.check(crush.inverse() == lift, lambda: f'two lifts of {name()} differ')
        # Twisting before crushing changes the crush exactly when the curve is not crushed (or peripheral).
        for s in {s: 1 for s in [x for x in D if x in image and kind_of(Q, image[x]) == 'curve'][:3] + essential}:
            t = crush * T(strand_vector(R, s)).encode_twist()
            same = s in essential
            ctx.check((t == crush) == same and (crush != t) != same, lambda: f'{name()} after a twist about {s} is {"not " if same else ""}equal to {name()}')
        for s in D[:6]:
            if s[0] == 'c': ctx.equal(list((lift * m.inverse() * m * crush)(T(strand_vector(R, s)))), strand_vector(R, s), lambda: f'image of {s} under the lift after {name()}')
    ctx.state(); ctx.trace(len(D) + len(new))
    ctx.outcome(f'{len(essential)} components into {len(got)} pieces')
