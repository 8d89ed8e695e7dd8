''' C15: isometries against brute force extension of label maps, on every pair of triangulations in bounds. '''

from itertools import combinations, product

from mc.spaces import *
from mc.isom import isometries, from_partial

def bounds(tier):
    return f'every pair of triangulations modulo relabelling (two labellings) of {SURFACES[tier]}; unions {UNIONS}; every partial label map with one entry, and with two entries on the small surfaces'

SURFACES = {'quick': [(0, 3), (1, 1), (0, 4), (1, 2), (2, 1)], 'thorough': [(0, 3), (1, 1), (0, 4), (1, 2), (2, 1), (0, 5), (1, 3)]}
UNIONS = [[(0, 3), (0, 3)], [(0, 3), (1, 1)], [(1, 1), (1, 1)], [(1, 1), (0, 4)], [(1, 2), (0, 3)], [(0, 3), (0, 3), (0, 3)], [(1, 1), (0, 3), (1, 1)]]

def flat(R): return [list(x) for x in R.triples]

def cases(tier):
    out = []
    for g, n in SURFACES[tier]:
        ts = triangulations(g, n)
        if len(ts) > 20 and tier == 'quick': ts = ts[:20]
        for i, t in enumerate(ts):
            out.append({'kind': 'connected', 'surface': [g, n], 'index': i, 'count': len(ts), 'two': len(t) <= 4})
    big = [(0, 5), (1, 3), (0, 6)] + ([(2, 2), (3, 1)] if tier == 'thorough' else [])
    for g, n in big:
        ts = triangulations(g, n, 60)
        for i in range(0, len(ts), 10): out.append({'kind': 'self', 'surface': [g, n], 'limit': 60, 'from': i, 'to': min(i + 10, len(ts))})
    for parts in UNIONS:
        n = 4 if tier == 'thorough' else 2
        options = [triangulations(*p)[:n] if len(parts) == 2 else triangulations(*p)[:2] for p in parts]
        A = list(product(*options))
        for i in range(len(A)): out.append({'kind': 'unions', 'parts': [list(p) for p in parts], 'n': n, 'index': i})
    return out

def check_map(R, S, T, U, iso, m, ctx):
    ''' The curver isometry iso is the label map m. '''
    ctx.check(iso.source_triangulation == T and iso.target_triangulation == U, 'isometry between the wrong triangulations')
    h = iso.encode()
    ctx.check(h.source_triangulation == T and h.target_triangulation == U, 'encoding of an isometry between the wrong triangulations')
    for x in range(R.zeta):
        ctx.equal(list(h(T.edge_arc(x))), list(U.edge_arc(m[x])), lambda: f'image of edge {x} under the isometry {m}')
        ctx.check(h(T.edge_homology(x)) == U.edge_homology(m[x]), lambda: f'image of the homology of edge {x} under the isometry {m}')

def frozen(m): return tuple(m[x] for x in sorted(m))

def compare(R, S, ctx, T=None):
    T, U = T or build(R), build(S)
    want = isometries(R, S)
    got = list(T.isometries_to(U))
    maps = [frozen(iso.label_map) for iso in got]
    ctx.equal(sorted(maps), sorted(map(frozen, want)), lambda: f'isometries from {R.triples} to {S.triples}')
    ctx.equal(len(maps), len(want), 'number of isometries')
    ctx.equal(T.is_isometric_to(U), bool(want), lambda: f'is_isometric_to of {R.triples} and {S.triples}')
    ctx.equal(bool(want), canonical_any(R) == canonical_any(S), 'model: brute force against canonical forms')
    by = {frozen(m): m for m in want}
    for iso, f in list(zip(got, maps))[:6]:
        check_map(R, S, T, U, iso, by[f], ctx)
    ctx.state(); ctx.trace()
    ctx.outcome(f'{len(want)} isometries')
    return T, U

def partial(R, S, T, U, data, ctx):
    m = from_partial(R, S, data)
    given = dict(data)
    if m is None:
        ctx.rejects(lambda: T.find_isometry(U, data), lambda: f'find_isometry from {R.triples} to {S.triples} of {data}')
    else:
        iso = T.find_isometry(U, data)
        ctx.equal(frozen(iso.label_map), frozen(m), lambda: f'find_isometry from {R.triples} to {S.triples} of {data}')
        ctx.outcome('extended')
    ctx.check(data == given, 'the given dictionary is modified')
    ctx.step()

def encoded_partial(R, T, S, U, ms, ctx):
    ''' A dictionary with missing edges represents an isometry back to T; S is a triangulation reached from R by the flip of an edge (or R itself). '''
    flip, S, U = S if isinstance(S, tuple) else (None, S, U)
    for m in ms:
        h = U.find_isometry(T, m).encode()
        reps = [c[0] for c in S.components()]
        for data in [{x: m[x] for x in reps}, {~x: m[~x] for x in reps}, {x: m[x] for x in S.labels() if x >= 0 and x != S.zeta - 1}, {x: m[x] for x in S.labels()}]:
            given = dict(data)
            if flip is None:
                g = T.encode([data])
                ctx.check(g == h, lambda: f'encode([{given}]) on {R.triples}')
            else:
                g = T.encode([data, flip])
                ctx.check(g == h * T.encode_flip(flip), lambda: f'encode([{given}, {flip}]) on {R.triples}')
            ctx.check(g.source_triangulation == T and g.target_triangulation == T, 'an incomplete dictionary must map back to the triangulation')
            ctx.check(data == given, 'the given dictionary is modified')
            ctx.step()
    ctx.outcome('encoded')

def equality(R, S, T, U, ms, ctx):
    ''' Equality of isometries, and of their encodings, is equality of triangulations and label maps. '''
    isos = [U.find_isometry(T, m) for m in ms]
    V = build(S.relabel(relabelling(S.zeta, 3)))  # Different source.
    W = build(R.relabel(relabelling(R.zeta, 3)))  # Different target.
    for m, iso in zip(ms, isos):
        h = iso.encode()
        for m2, iso2 in zip(ms, isos):
            same = m == m2
            ctx.check((iso == iso2) == same and (iso != iso2) != same, lambda: f'equality of the isometries {m} and {m2}')
            ctx.check((h == iso2.encode()) == same and (h != iso2.encode()) != same, lambda: f'equality of the encoded isometries {m} and {m2}')
            if same: ctx.check(hash(h) == hash(iso2.encode()), 'hash of an isometry')
        if V != U:
            for other in V.isometries_to(T):
                ctx.check(not iso == other and iso != other, 'isometries from different triangulations are equal')
                ctx.check(not h == other.encode() and h != other.encode(), 'encodings of isometries from different triangulations are equal')
        if W != T:
            for other in U.isometries_to(W):
                ctx.check(not iso == other and iso != other, 'isometries to different triangulations are equal')
                ctx.check(not h == other.encode() and h != other.encode(), 'encodings of isometries to different triangulations are equal')
        ctx.check(not iso == 1 and not iso == None and not h == 1, 'an isometry is equal to something else')
    ctx.outcome('equality')

def run_case(case, ctx):
    kind = case['kind']
    if kind == 'connected':
        g, n = case['surface']
        ts = triangulations(g, n)[:case['count']]
        R = labelled(ts[case['index']], 0)
        T = build(R)
        for j, t in enumerate(ts):
            for k in (0, 1, 3):
                S = labelled(t, k)
                _, U = compare(R, S, ctx, T)
                if j == case['index'] or j < 3:
                    if j == case['index']: ctx.check(U.is_isometric_to(T), 'is_isometric_to is not symmetric')
                    for x in R.labels():
                        for y in S.labels(): partial(R, S, T, U, {x: y}, ctx)
        k = 1
        S = labelled(ts[case['index']], k)
        U = build(S)
        partial(R, S, T, U, {}, ctx)
        partial(R, R, T, T, {}, ctx)
        pairs = list(combinations(R.labels(), 2))
        if not case['two']: pairs = [(x, ~x) for x in range(R.zeta)] + pairs[:2]
        for x, y in pairs:
            for a in S.labels():
                for b in (S.labels() if R.zeta <= 3 else {~a, S.nxt[a], S.prv[a], a, 0}): partial(R, S, T, U, {x: a, y: b}, ctx)
        whole = {x: relabelling(R.zeta, k)[x] for x in R.labels()}
        partial(R, S, T, U, whole, ctx)
        # A dictionary with one or both orientations of each edge is a relabelling.
        for signs in product((0, 1, 2), repeat=R.zeta) if R.zeta <= 3 else [(0,) * R.zeta, (1,) * R.zeta, (2,) * R.zeta] + [tuple((i + j) % 3 for i in range(R.zeta)) for j in range(3)] + [tuple(int(i == j) for i in range(R.zeta)) for j in range(R.zeta)] + [tuple(int(i != j) for i in range(R.zeta)) for j in range(R.zeta)]:
            data = {x: whole[x] for i, sign in enumerate(signs) for x in {0: [i], 1: [~i], 2: [~i, i]}[sign]}
            g = T.encode([data])
            ctx.check(g.target_triangulation == U and g == T.find_isometry(U, whole).encode(), lambda: f'encode([{data}]) on {R.triples}')
            ctx.step()
        for x in R.labels():
            bad = dict(whole); bad[x] = ~bad[x]
            partial(R, S, T, U, bad, ctx)
            partial(R, S, T, U, {y: z for y, z in whole.items() if y != x}, ctx)
        ms = isometries(R, R)
        encoded_partial(R, T, R, T, ms, ctx)
        equality(R, S, T, U, isometries(S, R), ctx)
        for e in R.labels():
            if e < 0 or not R.flippable(e): continue
            F = R.flip(e)
            ms2 = isometries(F, R)
            if ms2: encoded_partial(R, T, (e, F, build(F)), None, ms2, ctx)
        # The group of self isometries.
        want = {frozen(m): m for m in isometries(R, R)}
        got = {frozen(i.label_map) for i in T.self_isometries()}
        ctx.equal(got, set(want), 'self isometries')
        ms = list(want.values())
        hs = {f: T.find_isometry(T, want[f]).encode() for f in want}
        for a in ms:
            inverse = {v: u for u, v in a.items()}
            ctx.check(frozen(inverse) in got, 'inverse of a self isometry')
            ctx.check(hs[frozen(a)].inverse() == hs[frozen(inverse)], 'inverse of an encoded isometry')
            for b in ms[:6]:
                c = {x: a[b[x]] for x in R.labels()}
                ctx.check(frozen(c) in got, 'product of self isometries')
                ctx.check(hs[frozen(a)] * hs[frozen(b)] == hs[frozen(c)], 'product of encoded isometries')
        return
    if kind == 'self':
        for t in triangulations(*case['surface'], case['limit'])[case['from']:case['to']]:
            R = labelled(t, 0)
            T, _ = compare(R, R, ctx)
            compare(R, labelled(t, 1), ctx, T)
            S = labelled(t, 3)
            U = build(S)
            for x in (0, ~(R.zeta - 1)):
                for y in S.labels(): partial(R, S, T, U, {x: y}, ctx)
        return
    parts, n = case['parts'], case['n']
    options = [triangulations(*p)[:n] if len(parts) == 2 else triangulations(*p)[:2] for p in parts]
    A = list(product(*options))
    R = disjoint_union(*A[case['index']])
    T = build(R)
    others = [disjoint_union(*ts) for ts in A] + [disjoint_union(*ts[::-1]) for ts in A[:2]]
    others += [disjoint_union(*[triangulations(1, 2)[0]] * (R.zeta // 6))] if R.zeta % 6 == 0 else []
    for S in others:
        for k in (0, 1): compare(R, S.relabel(relabelling(S.zeta, k)), ctx, T)
    for S in [R, others[-1], R.relabel(relabelling(R.zeta, 1))]:
        if S.zeta != R.zeta: continue
        U = build(S)
        partial(R, S, T, U, {}, ctx)
        for x in R.labels():
            for y in S.labels(): partial(R, S, T, U, {x: y}, ctx)
        reps = [c[0] for c in R.components()]
        for chosen in combinations(reps, 2):
            for y in product(S.labels(), repeat=2): partial(R, S, T, U, dict(zip(chosen, y)), ctx)
        ms = isometries(R, S)
        if S is R: encoded_partial(R, T, R, T, ms[:8], ctx)
        else: equality(R, S, T, U, isometries(S, R)[:8], ctx)
        for m in ms[:8]: partial(R, S, T, U, {c: m[c] for c in reps}, ctx); partial(R, S, T, U, m, ctx)
