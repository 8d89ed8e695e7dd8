''' C21: simplify, flip_mapping, combine_isometries and pl_action against the model action, for every short word of moves. '''

from mc.spaces import *
from mc import moves, oriented as O

BATCH = 1
# (surface, triangulations, labellings, length, stride)
WORDS = {
    'quick': [((0, 3), 9, 1, 2, 1), ((1, 1), 2, 2, 2, 1), ((0, 4), 3, 1, 2, 9), ((1, 2), 3, 1, 2, 13), ((0, 5), 2, 1, 1, 1), ((2, 1), 2, 1, 1, 1), ((1, 3), 1, 1, 1, 1)],
    'thorough': [((0, 3), 9, 2, 3, 1), ((1, 1), 2, 2, 3, 1), ((0, 4), 9, 1, 2, 1), ((1, 2), 9, 1, 2, 1), ((0, 5), 9, 1, 2, 7), ((2, 1), 9, 1, 2, 11), ((1, 3), 6, 1, 1, 1)],
    }
UNIONS = [[(1, 1), (0, 3)], [(1, 1), (1, 1)], [(0, 4), (1, 1)]]
POWERS = (1, -1, 3, -4)
SIMPLE = ('relabel', 'multi', 'isometry', 'none')

def bounds(tier):
    return f'words of moves (flips, multiflips, relabellings, twists and half twists of powers {POWERS}) {WORDS[tier]} (surface, triangulations, labellings, length, stride), unions {UNIONS}; all multicurves with bounded weights for the piecewise linear action; the piecewise linear action of twists and half twists to the powers 2, -3, 10^9 (thorough: -2, -5 too) on curves twisted by up to four times within (surface, triangulations, length) {SPIN[tier]}'

def flat(R): return [list(x) for x in R.triples]

def cases(tier):
    out = []
    for (g, n), count, ks, length, stride in WORDS[tier]:
        for t in triangulations(g, n, 40)[:count]:
            for k in range(ks):
                R = labelled(t, k)
                for i, l in enumerate(moves.letters(R, POWERS) + [['multi', []]]): out.append({'tri': flat(R), 'first': l, 'length': length, 'stride': stride, 'offset': i % stride})
    for (g, n), count, length in SPIN[tier]:
        ts = triangulations(g, n, 60)
        for i, t in enumerate(ts[::max(1, len(ts) // count)][:count]):
            out += [{'kind': 'spin', 'tri': flat(labelled(t, 1 + i % 3)), 'length': length, 'part': j, 'parts': 3, 'count': 7 if tier == 'quick' else 24, 'powers': [2, -3, 10**9] if tier == 'quick' else [2, -2, 3, -5, 10**9]} for j in range(3)]
    for parts in UNIONS:
        R = disjoint_union(*[triangulations(*p)[0] for p in parts])
        for i, l in enumerate(moves.letters(R, POWERS)): out.append({'tri': flat(R), 'first': l, 'length': 2 if tier == 'thorough' or l[0] in SIMPLE else 1, 'stride': 5 if tier == 'thorough' else 23, 'offset': i % 5})
    return out

# (surface, triangulations, length of the curves)
SPIN = {
    'quick': [((1, 1), 1, 5), ((0, 3), 4, 4), ((0, 4), 6, 5), ((1, 2), 9, 4), ((0, 5), 4, 3), ((2, 1), 3, 3), ((1, 3), 6, 3)],
    'thorough': [((1, 1), 1, 7), ((0, 3), 4, 6), ((0, 4), 9, 6), ((1, 2), 9, 6), ((0, 5), 20, 4), ((2, 1), 9, 4), ((1, 3), 40, 4), ((0, 6), 20, 3)],
    }

def run_spin(case, ctx):
    ''' The piecewise linear action of high powers, on curves that have been twisted to all sides of the region where these are not linear. '''
    R = Tri(case['tri'])
    T = build(R)
    S = strands_up_to(R, case['length'], arcs=False)
    E = [s for s in S if kind_of(R, s) == 'curve']
    P = [s for s in S if kind_of(R, s) == 'peripheral']
    for l in [l for l in moves.letters(R, (1,)) if l[0] in ('twist', 'half')][case['part']::case['parts']]:
        c = moves.edge_curve(R, l[1])
        act = (lambda k, x: {O.half_strand(R, l[1], k, s): m for s, m in x.items()}) if l[0] == 'half' else (lambda k, x: ref.twist_multi(R, {c: 1}, k, x))
        X = [{d: m} for d in E for m in (1, 2) if l[0] == 'half' or intersection(R, c, d)][:case['count']]
        X += [{d: 1, p: 2} for d in E[:3] for p in P[:2]]
        X = [act(k, x) for x in X for k in range(-4, 5)]
        V = [tuple(ref.vector(R, x)) for x in X]
        for p in case['powers']:
            if abs(p) < 10: U = [tuple(ref.vector(R, act(p, x))) for x in X]
            else:  # By now the weights grow linearly (every other power for half twists).
                assert p > 0 and p % 2 == 0
                U = [tuple(u + (p - 12) // 2 * (v - u) for u, v in zip(ref.vector(R, act(12, x)), ref.vector(R, act(14, x)))) for x in X]
            h, _ = moves.encode(R, [[*l[:2], p]])
            cells = set()
            for v, u in zip(V, U):
                F = h.pl_action(T(v))
                ctx.check(v in F, lambda: f'the cell of the action of {l} to the power {p} at {v} on {R.triples} does not contain it')
                if F in cells: continue
                cells.add(F)
                for x, y in zip(V, U):
                    if (F.condition.dot(x) >= 0).all():
                        ctx.equal(list(F(x)), list(y), lambda: f'the action of {l} to the power {p} on {R.triples} on the cell of {v} evaluated at {x}')
                        ctx.step()
            ctx.outcome('cells', len(cells))
            ctx.state(); ctx.trace()

def words(R, case):
    yield [case['first']]
    S = moves.target(R, case['first'])
    for n in range(2, case['length'] + 1):
        for i, w in enumerate(moves.words(S, n - 1, POWERS)):
            if i % case['stride'] == case['offset'] or n == 2 and case['first'][0] in SIMPLE and w[0][0] in SIMPLE: yield [case['first']] + w

_pool = {}
def probes(R):
    if R.triples not in _pool:
        S = strands_up_to(R, 4 if R.zeta <= 6 else 3, peripheral=False)
        curves = [s for s in S if s[0] == 'c']
        _pool[R.triples] = [s for s in S if s[0] != 'c'][:R.zeta + 2], curves[:4]
    return _pool[R.triples]

_multi = {}
def multicurves(R):
    ''' Multicurves: {curve: multiplicity}, with peripheral curves too. '''
    if R.triples not in _multi:
        curves = strands_up_to(R, 4 if R.zeta <= 6 else 3, arcs=False)[:10]
        D = disjointness(R, curves)
        out = [{c: 1} for c in curves]
        for i, j in sorted(D)[:8]: out += [{curves[i]: 1, curves[j]: 2}, {curves[i]: 3, curves[j]: 1}]
        _multi[R.triples] = curves, out
    return _multi[R.triples]

def run_case(case, ctx):
    if case.get('kind') == 'spin': return run_spin(case, ctx)
    K = curver.kernel
    R = Tri(case['tri'])
    T = build(R)
    arcs, curves = probes(R)
    P = arcs + curves
    cs, multis = multicurves(R)
    cells = set()
    for w in words(R, case):
        h, S = moves.encode(R, w)
        S2, oriented = O.images(R, w)
        _, images = O.strand_images(R, w, P)
        assert S == S2
        U = h.target_triangulation
        def same(x, name):
            ctx.check(isinstance(x, K.Mapping), lambda: f'{name} of {w} is a {type(x).__name__}')
            ctx.check(tri_of(x.source_triangulation) == R and tri_of(x.target_triangulation) == S, lambda: f'triangulations of {name} of {w}')
            for s, t in zip(P, images):
                ctx.equal(list(x(T.lamination(strand_vector(R, s), promote=False))), strand_vector(S, t), lambda: f'image of {s} under {name} of {w}')
            for i in range(R.zeta):
                got = list(x(T.edge_homology(i)).algebraic)
                ctx.check(O.homologous(S, got, O.chain(S, oriented[i])), lambda: f'image of the homology class of {i} under {name} of {w}: {got}')
            ctx.check(x == h and h == x and hash(x) == hash(h), lambda: f'{name} of {w} is not equal to it')
        same(h, 'identity')
        s = h.simplify()
        same(s, 'simplify')
        f = h.flip_mapping()
        same(f, 'flip_mapping')
        ctx.check(all(isinstance(m, (K.EdgeFlip, K.Isometry)) for m in f), lambda: f'moves of flip_mapping of {w}: {[type(m).__name__ for m in f]}')
        c = h.combine_isometries()
        same(c, 'combine_isometries')
        ctx.check(sum(isinstance(m, K.Isometry) for m in c) <= 1, lambda: f'combine_isometries of {w} has isometries {[type(m).__name__ for m in c]}')
        ctx.step(3)
        # Piecewise linear action.
        _, moved = O.strand_images(R, w, cs)
        image = dict(zip(cs, moved))
        table = [(strand_vector_multi(R, m), strand_vector_multi(S, {image[c]: k for c, k in m.items()})) for m in multis]
        before, cells = list(cells), set()
        for m, (v, u) in zip(multis, table):
            F = h.pl_action(T(v))
            ctx.check(v in F, lambda: f'the cell of the action of {w} at {m} does not contain it')
            ctx.equal(list(F(v)), list(u), lambda: f'the action of {w} at {m}')
            for G in list(cells)[:3] + before[:3]:  # Equal actions must have the same matrices.
                rows = lambda X: [list(row) for row in X]
                if (rows(F.action), rows(F.condition)) != (rows(G.action), rows(G.condition)):
                    ctx.check(not F == G and F != G, lambda: f'the action of {w} at {m} is equal to a different one')
            if F in cells: continue
            again = h.pl_action(T(v))
            ctx.check(F == again and not F != again and hash(F) == hash(again), lambda: f'the action of {w} at {m} is not equal to itself')
            cells.add(F)
            inside = 0
            for x, y in table:
                if (F.condition.dot(x) >= 0).all():
                    inside += 1
                    ctx.equal(list(F(x)), list(y), lambda: f'the action of {w} on the cell of {m} evaluated at {x}')
                else: ctx.rejects(lambda: F(x), f'the action of {w} on the cell of {m} evaluated outside of it', (ValueError,))
            ctx.outcome('cells'); ctx.outcome('points in cells', inside)
        ctx.state(); ctx.trace()

def strand_vector_multi(R, m): return list(ref.vector(R, m))
