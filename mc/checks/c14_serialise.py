''' C14: every serialisation round trip of every object in bounds. '''

import pickle
from fractions import Fraction
from itertools import permutations, product

from mc.spaces import *
from mc import moves

def bounds(tier):
    return 'signatures: every labelling of every triangulation with at most %d edges and four labellings of the larger ones, flips and relabellings of triangulations with up to 66 edges; pickles of all laminations, homology classes, mappings (all words of at most %d moves), mapping class groups' % ((6, 2) if tier == 'thorough' else (3, 2))

TRIS = {'quick': [(0, 4), (1, 2), (0, 5), (2, 1), (1, 3)], 'thorough': [(0, 4), (1, 2), (0, 5), (2, 1), (1, 3), (0, 6), (2, 2), (3, 1)]}
WORDS = {'quick': [((0, 3), 2, 1), ((1, 1), 2, 2), ((0, 4), 1, 2), ((1, 2), 1, 2), ((0, 5), 1, 1), ((2, 1), 1, 1)],
    'thorough': [((0, 3), 3, 1), ((1, 1), 3, 1), ((0, 4), 2, 2), ((1, 2), 2, 2), ((0, 5), 1, 3), ((2, 1), 1, 3), ((1, 3), 1, 2)]}

CRUSH = {'quick': [((1, 1), 4, 3), ((0, 4), 4, 1), ((1, 2), 4, 1), ((2, 1), 3, 1)], 'thorough': [((1, 1), 6, 4), ((0, 4), 6, 3), ((1, 2), 6, 3), ((2, 1), 4, 2), ((0, 5), 4, 1), ((1, 3), 3, 1)]}

def cases(tier):
    out = []
    full = [(0, 3), (1, 1)] + ([(0, 4), (1, 2)] if tier == 'thorough' else [])
    for g, n in full:
        for t in triangulations(g, n):
            zeta = len(t) * 3 // 2
            if zeta <= 3: out.append({'kind': 'sig-all', 'tri': [list(x) for x in t], 'first': None})
            else: out += [{'kind': 'sig-all', 'tri': [list(x) for x in t], 'first': f} for f in range(-zeta, zeta)]
    out.append({'kind': 'sig-distinct', 'tier': tier})
    out += [{'kind': 'sig-large', 'surface': s, 'labellings': 12 if tier == 'quick' else 60} for s in ([0, 6], [2, 2], [3, 1], [1, 6], [0, 9], [4, 1], [3, 4], [0, 14], [5, 3], [8, 2], [0, 24])]
    for g, n in TRIS[tier]:
        ts = triangulations(g, n, 200)
        for i in range(0, len(ts), 20):
            out.append({'kind': 'sig', 'surface': [g, n], 'from': i, 'to': min(i + 20, len(ts))})
    for (g, n) in [(0, 3), (1, 1), (0, 4), (1, 2)] + ([(0, 5), (2, 1)] if tier == 'thorough' else []):
        for t in triangulations(g, n):
            out.append({'kind': 'laminations', 'tri': [list(x) for x in labelled(t, 1).triples], 'total': 4 if len(t) < 4 or tier == 'thorough' else 3})
    for (g, n), depth, ks in WORDS[tier]:
        ts = triangulations(g, n)
        for t in (ts if len(ts) < 12 or tier == 'thorough' else ts[::5]):
            for k in range(ks):
                R = labelled(t, k + 1 if ks == 2 else k)
                if depth == 1: out.append({'kind': 'words', 'tri': [list(x) for x in R.triples], 'depth': 1, 'first': [], 'powers': [1, -1, 2] if R.zeta < 6 or tier == 'thorough' else [-1, 2]})
                else:
                    for l in moves.letters(R): out.append({'kind': 'words', 'tri': [list(x) for x in R.triples], 'depth': depth - 1, 'first': [l], 'powers': [1, 2] if tier == 'quick' else [1, -1, 2]})
    for name in [[0, 3], [1, 1], [0, 5], [1, 2], [2, 1], [2, 2], ['SB_3'], ['S_1_2p']] + ([[3, 1], [1, 5], [0, 7]] if tier == 'thorough' else []):
        out.append({'kind': 'group', 'name': name})
    for (g, n), length, ks in CRUSH[tier]:
        for t in triangulations(g, n):
            for k in range(ks): out.append({'kind': 'crush', 'tri': [list(x) for x in labelled(t, k + 1).triples], 'length': length})
    R = disjoint_union(triangulations(1, 1)[0], triangulations(0, 3)[1])
    out.append({'kind': 'crush', 'tri': [list(x) for x in R.triples], 'length': 4})
    out.append({'kind': 'words', 'tri': [list(x) for x in R.triples], 'depth': 1, 'first': [], 'powers': [1, -1, 2] if R.zeta < 6 or tier == 'thorough' else [-1, 2]})
    out.append({'kind': 'laminations', 'tri': [list(x) for x in R.triples], 'total': 2})
    return out

PROTOCOLS = range(0, pickle.HIGHEST_PROTOCOL + 1)

def again(x, protocol=None):
    return pickle.loads(pickle.dumps(x, protocol if protocol is not None else pickle.DEFAULT_PROTOCOL))

def check_sig(R, ctx):
    T = build(R)
    K = curver.kernel
    s = T.sig()
    T2 = K.Triangulation.from_sig(s)
    ctx.check(tri_of(T2) == R and T2 == T and hash(T2) == hash(T), lambda: f'{R.triples} is not recovered from its signature {s}')
    ctx.equal(str(T), s, 'str of a triangulation')
    ctx.equal(T2.sig(), s, 'signature of the recovered triangulation')
    ctx.check(curver.triangulation_from_sig(s) == T if hasattr(curver, 'triangulation_from_sig') else True, 'triangulation_from_sig')
    ctx.state(); ctx.trace()
    return s

def all_labellings(t, first):
    ''' Every relabelling of t, restricted to those sending 0 to first. '''
    R = Tri(t)
    for p in permutations(range(R.zeta)):
        for signs in product((0, 1), repeat=R.zeta):
            m = {}
            for i in range(R.zeta):
                j = ~p[i] if signs[i] else p[i]
                m[i], m[~i] = j, ~j
            if first is not None and m[0] != first: continue
            yield R.relabel(m)

def same_mapping(R, h, h2, ctx, name):
    ''' h2 is an equal mapping with the same class and action. '''
    ctx.check(type(h) is type(h2), lambda: f'{name}: class {type(h2).__name__} instead of {type(h).__name__}')
    ctx.check(tri_of(h2.source_triangulation) == tri_of(h.source_triangulation) and tri_of(h2.target_triangulation) == tri_of(h.target_triangulation), lambda: f'{name}: triangulations changed')
    ctx.check(h == h2 and h2 == h and hash(h) == hash(h2), lambda: f'{name}: not equal')
    T = h.source_triangulation
    U = h2.source_triangulation
    ctx.equal([type(x) for x in h], [type(x) for x in h2], lambda: f'{name}: moves')
    ctx.check(list(h) == list(h2), lambda: f'{name}: moves differ')
    for v in probes(R):
        ctx.equal(list(h(T.lamination(v, promote=False))), list(h2(U.lamination(v, promote=False))), lambda: f'{name}: image of {v}')
    for x in range(R.zeta):
        ctx.equal(list(h(T.edge_homology(x)).canonical()), list(h2(U.edge_homology(x)).canonical()), lambda: f'{name}: image of the homology class of {x}')
    i, i2 = h.inverse(), h2.inverse()
    ctx.check(i == i2, lambda: f'{name}: inverses differ')

_probes = {}
def probes(R):
    if R not in _probes:
        _probes[R] = [strand_vector(R, ('e', i)) for i in range(R.zeta)] + [strand_vector(R, s) for s in strands_up_to(R, 3, arcs=False)][:4]
    return _probes[R]

def run_case(case, ctx):
    K = curver.kernel
    kind = case['kind']
    if kind == 'sig-all':
        seen = {}
        for R in all_labellings(case['tri'], case['first']):
            s = check_sig(R, ctx)
            ctx.check(seen.setdefault(s, R.key()) == R.key(), lambda: f'{s} is the signature of {R.triples} and {seen[s]}')
        ctx.outcome('signatures', len(seen))
        return
    if kind == 'sig-distinct':
        # Signatures of all triangulations in all spaces together (and all signatures of small index).
        seen = {}
        for g, n in [(0, 3), (1, 1)] + TRIS[case['tier']]:
            for t in triangulations(g, n, 200):
                for k in range(4):
                    R = labelled(t, k)
                    s = build(R).sig()
                    ctx.check(seen.setdefault(s, R.key()) == R.key(), lambda: f'{s} is the signature of {R.triples} and {seen[s]}')
                    ctx.state()
        b64 = K.utilities.b64encode
        for zeta in (3, 6):
            for index in range(720 if zeta == 3 else 1500):
                T = K.Triangulation.from_sig(f'{b64(zeta)}_{b64(index)}')
                check_sig(tri_of(T), ctx)
        return
    if kind == 'sig-large':
        seen = {}
        R = seed_triangulation(*case['surface'])
        for k in range(case['labellings']):
            flippable = [x for x in R.labels() if R.flippable(x)]
            R = R.flip(flippable[(5 * k) % len(flippable)])
            S = R.relabel(relabelling(R.zeta, k))
            s = check_sig(S, ctx)
            ctx.check(seen.setdefault(s, S.key()) == S.key(), lambda: f'{s} is the signature of {S.triples} and {seen[s]}')
            T = build(S)
            ctx.check(again(T) == T, lambda: f'pickle of {S.triples}')
        return
    if kind == 'sig':
        for t in triangulations(*case['surface'], 200)[case['from']:case['to']]:
            for k in range(4):
                R = labelled(t, k)
                check_sig(R, ctx)
                T = build(R)
                for p in PROTOCOLS:
                    T2 = again(T, p)
                    ctx.check(type(T2) is type(T) and tri_of(T2) == R and T2 == T and hash(T2) == hash(T), lambda: f'pickle of {R.triples}')
                ctx.check(K.triangulation.create_triangulation(type(T), *T.package()) == T, 'package of a triangulation')
                for x in (T.positive_edges[0], ~T.positive_edges[-1]): ctx.check(again(x) == x and type(again(x)) is type(x) and again(x).index == x.index, 'pickle of an edge')
                for tr in T: ctx.check(again(tr) == tr and tri_of(again(T)) == R and list(again(tr)) == list(tr), 'pickle of a triangle')
        return
    if kind == 'group':
        M = curver.load(*case['name'])
        M2 = again(M)
        ctx.check(type(M2) is type(M) and M2 == M and M2.triangulation == M.triangulation, f'pickle of the group {case["name"]}')
        ctx.equal(sorted(M2.mapping_classes), sorted(M.mapping_classes), 'names of the pickled group')
        R = tri_of(M.triangulation)
        for attr in ('curves', 'arcs'):
            ctx.equal({k: list(v) for k, v in getattr(M2, attr).items()}, {k: list(v) for k, v in getattr(M, attr).items()}, f'{attr} of the pickled group')
        for n in sorted(M.mapping_classes):
            same_mapping(R, M[n], M2[n], ctx, f'generator {n} of the pickled group')
            ctx.state(); ctx.trace()
        names = sorted(M.mapping_classes)
        w = '.'.join(names[:3]) + '^3'
        ctx.check(M2(w) == M(w), f'{w} in the pickled group')
        ctx.equal(str(M2), str(M), 'str of the pickled group')
        return
    R = Tri(case['tri'])
    T = build(R)
    if kind == 'laminations':
        n = 0
        for v in vectors(R, -2, case['total'], case['total']):
            n += 1
            for L in (T(list(v)), T.lamination(list(v), promote=False), K.IntegralLamination(T, list(v))):
                if n % 2 and type(L) is not K.Lamination: L.components()  # With and without cached data.
                L2 = again(L, n % 6)
                ctx.check(type(L2) is type(L) and L2 == L and hash(L2) == hash(L) and list(L2) == list(v) and L2.triangulation == T, lambda: f'pickle of {L!r}')
                ctx.equal([type(x) for x in L2], [type(x) for x in L], 'types of weights')
                ctx.state(); ctx.trace()
                if type(L) is not K.Lamination and any(v) and n % 5 == 0: ctx.equal(L2.components(), L.components(), lambda: f'components of the pickle of {v}')
            F = K.Lamination(T, [Fraction(x, 3) for x in v])
            F2 = again(F)
            ctx.check(type(F2) is type(F) and F2 == F and list(F2) == list(F), lambda: f'pickle of {F!r}')
            h = K.HomologyClass(T, [x * (-1)**i for i, x in enumerate(v)])
            h2 = again(h, n % 6)
            ctx.check(type(h2) is type(h) and h2 == h and list(h2) == list(h) and hash(h2) == hash(h) and h2.triangulation == T, lambda: f'pickle of the homology class {list(h)}')
        both = again([T, T.edge_arc(0), T.edge_homology(0), T.id_encoding()])
        ctx.check(both[1].triangulation == both[0] and both[3].source_triangulation == both[0] and both[3](both[1]) == both[1], 'pickle of several objects')
        return
    if kind == 'crush':
        S = strands_up_to(R, case['length'], arcs=False, peripheral=False)
        D = disjointness(R, S)
        sets = [(i,) for i in range(len(S))] + sorted(D)
        for c in sets:
            m = T(vector(R, {S[i]: 1 + i % 2 for i in c}))
            f = m.crush()
            lift = f.inverse()
            tests = [m.skeleton()] + [f.source_triangulation(strand_vector(R, S[i])) for i in range(len(S)) if all(tuple(sorted((i, j))) in D for j in c)][:3]
            images = [f(x) for x in tests]
            for name, h in (('crush', f), ('lift', lift), ('lift of crush', lift * f)):
                for h2 in (again(h), h.source_triangulation.encode(h.package())):
                    ctx.check(type(h) is type(h2), lambda: f'{name} of {c}: class {type(h2).__name__}')
                    ctx.check(h2.source_triangulation == h.source_triangulation and h2.target_triangulation == h.target_triangulation, lambda: f'{name}: triangulations')
                    ctx.equal([type(x) for x in h2], [type(x) for x in h], lambda: f'moves of the {name} of {c}')
                    for x in images if name == 'lift' else tests:
                        ctx.equal(list(h2(x)), list(h(x)), lambda: f'{name} about {c} applied to {list(x)}')
                    if name == 'crush': ctx.check(h == h2, lambda: f'{name} of {c} is not equal to its pickle')
                    ctx.state(); ctx.trace()
        return
    # Words.
    if case['first'] == []:
        same_mapping(R, T.id_encoding(), again(T.id_encoding()), ctx, 'pickle of the identity')
        first_target = R
    else:
        first_target = moves.target(R, case['first'][0])
    for depth in range(0, case['depth'] + 1):
        for w in moves.words(first_target, depth, case['powers']):
            w = case['first'] + w
            if not w: continue
            h, S = moves.encode(R, w)
            same_mapping(R, h, again(h), ctx, f'pickle of {w}')
            if len(w) == 1: same_mapping(R, h, h.source_triangulation.encode(h.package()), ctx, f'package of {w}')
            else:
                h2 = h.source_triangulation.encode(h.package())
                ctx.check(type(h) is type(h2) and list(h) == list(h2) and h == h2, lambda: f'package of {w}')
            if len(w) == 1:
                for move in h:
                    e = move.encode()
                    same_mapping(tri_of(e.source_triangulation), e, move.source_triangulation.encode([move.package()]), ctx, f'package of the move of {w}')
                if w[0][0] != 'half' or w[0][2] == 1: same_mapping(S, h.inverse(), again(h.inverse()), ctx, f'pickle of the inverse of {w}')
                if w[0][0] != 'half' and h.source_triangulation == h.target_triangulation:
                    for k in (-2, 0, 3): same_mapping(R, h**k, again(h**k), ctx, f'pickle of {w}**{k}')
            ctx.state(); ctx.trace(); ctx.step(len(w))
            ctx.outcome(w[-1][0])
