''' C13: relative homology classes and the action of mappings on them, against chains of edges modulo triangles. '''

from itertools import product

from mc.spaces import *
from mc import moves, oriented as O

BATCH = 1
BOX = {
    'quick': [((0, 3), 3, 9, 2), ((1, 1), 3, 9, 2), ((0, 4), 1, 6, 1), ((1, 2), 1, 5, 1)],
    'thorough': [((0, 3), 4, 9, 4), ((1, 1), 4, 9, 4), ((0, 4), 1, 6, 4), ((1, 2), 1, 5, 4)],
    }
ACTION = {
    'quick': [((0, 3), 2, 2), ((1, 1), 2, 2), ((0, 4), 1, 1), ((1, 2), 1, 1), ((0, 5), 1, 1), ((2, 1), 1, 1), ((1, 3), 1, 1)],
    'thorough': [((0, 3), 3, 3), ((1, 1), 3, 3), ((0, 4), 2, 2), ((1, 2), 2, 2), ((0, 5), 2, 1), ((2, 1), 2, 1), ((1, 3), 1, 1), ((2, 2), 1, 1), ((3, 1), 1, 1)],
    }
UNIONS = [[(1, 1), (1, 1)], [(0, 3), (1, 1)], [(0, 3), (0, 3)], [(1, 1), (1, 2)]]

def bounds(tier):
    return f'equality of all pairs of integral edge vectors with entries up to the bound in {BOX[tier]} (surface, bound); all words of moves {ACTION[tier]} (surface, labellings, length) acting on all edges; products, inverses and the Torelli test of all pairs of closed words; unions {UNIONS}'

def flat(R): return [list(x) for x in R.triples]

def cases(tier):
    out = []
    for (g, n), b, count, ks in BOX[tier]:
        for t in triangulations(g, n)[:count]:
            for k in range(ks): out.append({'kind': 'box', 'tri': flat(labelled(t, k)), 'bound': b})
    for g, n in [(0, 5), (2, 1), (1, 3)] + ([(0, 6), (2, 2), (3, 1)] if tier == 'thorough' else []):
        ts = triangulations(g, n, 60)
        for t in (ts if tier == 'thorough' else ts[::3]): out.append({'kind': 'big', 'tri': flat(labelled(t, 1))})
    for parts in UNIONS:
        R = disjoint_union(*[triangulations(*p)[0] for p in parts])
        out += [{'kind': 'big', 'tri': flat(R)}, {'kind': 'action', 'tri': flat(R), 'depth': 1}, {'kind': 'torelli', 'tri': flat(R)}]
    for (g, n), ks, depth in ACTION[tier]:
        ts = triangulations(g, n, 60)
        if tier == 'quick' and len(ts) > 9: ts = ts[::4]
        for t in ts:
            for k in range(ks): out.append({'kind': 'action', 'tri': flat(labelled(t, k)), 'depth': depth})
    for g, n in [(0, 3), (1, 1), (0, 4), (1, 2), (2, 1), (0, 5), (1, 3)] + ([(2, 2), (0, 6)] if tier == 'thorough' else []):
        ts = triangulations(g, n, 20)
        for t in (ts if tier == 'thorough' else ts[:1] + ts[4:5]): out.append({'kind': 'torelli', 'tri': flat(labelled(t, 1))})
    return out

def lin(images, v):
    out = [0] * len(images[0])
    for x, im in zip(v, images):
        if x:
            for i, y in enumerate(im): out[i] += x * y
    return tuple(out)

def rank(R): return sum(2 * g + p - 1 for g, p, _ in R.surface().values())

def check_space(R, T, vs, ctx):
    ''' Equality of the classes of the vectors vs. '''
    H = curver.kernel.HomologyClass
    groups, forms = {}, {}
    for v in vs:
        h = H(T, v)
        key = O.canonical_class(R, v)
        c = h.canonical()
        ctx.check(O.homologous(R, v, list(c)), lambda: f'canonical form {list(c)} of {v} is not homologous to it')
        form = tuple(c)
        ctx.equal(h.is_canonical(), form == tuple(v), lambda: f'is_canonical of {v}')
        ctx.check(groups.setdefault(key, form) == form, lambda: f'homologous vectors have the canonical forms {form} and {groups[key]}')
        ctx.check(forms.setdefault(form, key) == key, lambda: f'{v} has the canonical form of a class that is not homologous to it')
        ctx.state()
    ctx.outcome('classes', len(groups))
    return groups

def check_basis(R, T, ctx):
    basis = T.homology_basis()
    ctx.equal(len(basis), rank(R), lambda: f'size of the homology basis of {R.triples}')
    tree = set(T.dual_tree())
    for b in basis: ctx.check(b.is_canonical(), 'basis element is not canonical')
    # Every edge is an integral combination of the basis.
    for x in range(R.zeta):
        c = list(T.edge_homology(x).canonical())
        combo = [0] * R.zeta
        rest = list(c)
        supports = []
        for b in basis:
            s = [i for i, y in enumerate(b) if y]
            supports.append((s, list(b)))
        for s, b in supports:
            k = rest[s[0]] // b[s[0]]
            rest = [p - k * q for p, q in zip(rest, b)]
        ctx.check(not any(rest), lambda: f'edge {x} is not spanned by the basis')
    return basis

def run_case(case, ctx):
    H = curver.kernel.HomologyClass
    R = Tri(case['tri'])
    T = build(R)
    kind = case['kind']
    if kind == 'box':
        b = case['bound']
        vs = list(product(range(-b, b + 1), repeat=R.zeta))
        check_space(R, T, vs, ctx)
        check_basis(R, T, ctx)
        few = vs[::max(1, len(vs) // 40)]
        keys = [O.canonical_class(R, v) for v in few]
        for v, a in zip(few, keys):
            for w, c in zip(few, keys):
                h, k = H(T, v), H(T, w)
                ctx.equal(h == k, a == c, lambda: f'equality of the classes {v} and {w}')
                ctx.equal(h != k, a != c, lambda: f'inequality of the classes {v} and {w}')
                if a == c: ctx.check(hash(h) == hash(k), 'hashes of equal classes')
                ctx.equal(list(h + k), [x + y for x, y in zip(v, w)], 'sum')
                ctx.equal(list(h - k), [x - y for x, y in zip(v, w)], 'difference')
                ctx.step()
            ctx.equal(list(-h), [-x for x in v], 'negation')
            ctx.equal(list(sum([h, h, h])), [3 * x for x in v], 'sum of three')
            for x in R.labels(): ctx.equal(h(x), v[x] if x >= 0 else -v[~x], lambda: f'weight of {x} in {v}')
        ctx.trace(len(vs))
        # Boundaries of triangles vanish.
        for t in R.triples:
            v = [0] * R.zeta
            for x in t: v[max(x, ~x)] += 1 if x >= 0 else -1
            ctx.check(H(T, v) == H(T, [0] * R.zeta), lambda: f'boundary of the triangle {t} is not zero')
        U = build(R.relabel(relabelling(R.zeta, 2)))
        if U != T:
            ctx.rejects(lambda: H(T, few[0]) + H(U, few[0]), 'sum of classes on different triangulations')
            ctx.check(not H(T, few[0]) == H(U, few[0]), 'classes on different triangulations are equal')
        return
    if kind == 'big':
        unit = [[int(i == j) for j in range(R.zeta)] for i in range(R.zeta)]
        vs = [tuple(x) for x in unit] + [tuple(a + s * b for a, b in zip(unit[i], unit[j])) for i in range(R.zeta) for j in range(i) for s in (1, -1)]
        vs += [tuple(a + s * b + r * c for a, b, c in zip(unit[i], unit[j], unit[k])) for i in range(0, R.zeta, 2) for j in range(i) for k in range(j) for s in (1, -1) for r in (1, -1)]
        check_space(R, T, vs, ctx)
        check_basis(R, T, ctx)
        for x in R.labels(): ctx.check(T.edge_homology(x) == -T.edge_homology(~x), 'reversed edge')
        ctx.trace(len(vs))
        return
    if kind == 'action':
        for depth in range(1, case['depth'] + 1):
            for w in moves.words(R, depth, (1, -2) if depth == 1 else (1,)):
                h, S = moves.encode(R, w)
                images = [O.chain(S, s) for s in O.images(R, w)[1]]
                check_action(R, S, h, w, images, ctx)
        return
    # Torelli and functoriality.
    W = moves.closed_words(R, (1, -1, 2) if R.zeta <= 6 else (1,), 1 if R.zeta <= 6 else 0)
    single = [moves.encode(R, w)[0] for w in W]
    ims = [O.images(R, w)[1] for w in W]
    unit = [tuple(int(i == j) for j in range(R.zeta)) for i in range(R.zeta)]
    acts = [[O.chain(R, s) for s in im] for im in ims]
    trivial = lambda act: all(O.homologous(R, a, u) for a, u in zip(act, unit))
    n = rank(R)
    I = [[int(i == j) for j in range(n)] for i in range(n)]
    ctx.equal(T.id_encoding().homology_matrix().tolist(), I, 'homology matrix of the identity')
    for h, act, w in zip(single, acts, W):
        ctx.equal(h.is_in_torelli(), trivial(act), lambda: f'is_in_torelli of {w}')
        ctx.equal((h.homology_matrix().dot(h.inverse().homology_matrix())).tolist(), I, lambda: f'homology matrices of {w} and its inverse')
        ctx.outcome('torelli' if trivial(act) else 'not torelli')
        ctx.state(); ctx.trace()
    stride = max(1, len(W) ** 2 // (1200 if R.zeta <= 6 else 400))
    pairs = [(i, j) for i in range(len(W)) for j in range(len(W))][::stride]
    for i, j in pairs:
        f, g = single[i], single[j]
        h = f * g  # g first.
        act = [lin(acts[i], v) for v in acts[j]]
        ctx.check((h.homology_matrix() == f.homology_matrix().dot(g.homology_matrix())).all(), lambda: f'homology matrix of the product of {W[j]} then {W[i]}')
        ctx.equal(h.is_in_torelli(), trivial(act), lambda: f'is_in_torelli of {W[j]} then {W[i]}')
        c = f * g * f.inverse() * g.inverse()
        ctx.check(c.is_in_torelli() == (f.homology_matrix().dot(g.homology_matrix()) == g.homology_matrix().dot(f.homology_matrix())).all(), lambda: f'is_in_torelli of the commutator of {W[i]} and {W[j]}')
        if c.is_in_torelli(): ctx.outcome('torelli commutator')
        ctx.step()

def check_action(R, S, h, w, images, ctx):
    T, U = h.source_triangulation, h.target_triangulation
    H = curver.kernel.HomologyClass
    for i, im in enumerate(images):
        got = h(T.edge_homology(i))
        ctx.check(got.triangulation == U, lambda: f'{w}: image class on the wrong triangulation')
        ctx.check(O.homologous(S, list(got), im), lambda: f'{w}: image of the class of edge {i} is {list(got)}, expected the class of {im}')
        ctx.check(h(T.edge_homology(~i)) == -got, lambda: f'{w}: image of the reverse of edge {i}')
        ctx.check(got == H(U, im), lambda: f'{w}: image of the class of edge {i} is not equal to {im}')
    zeta = R.zeta
    for v in ([(-1)**i * (i + 1) for i in range(zeta)], [i % 3 - 1 for i in range(zeta)], [10**30 * (i % 2) + i for i in range(zeta)], [0] * zeta):
        ctx.check(O.homologous(S, list(h(H(T, v))), lin(images, v)), lambda: f'{w}: image of the class {v}')
    for t in R.triples:
        v = [0] * zeta
        for x in t: v[max(x, ~x)] += 1 if x >= 0 else -1
        ctx.check(h(H(T, v)) == H(U, [0] * zeta), lambda: f'{w}: image of the boundary of a triangle')
    M = h.homology_matrix()
    A, B = T.homology_basis(), U.homology_basis()
    ctx.equal(M.shape, (len(B), len(A)), lambda: f'{w}: shape of the homology matrix')
    for j, a in enumerate(A):
        combo = [0] * zeta
        for i, b in enumerate(B): combo = [x + M[i][j] * y for x, y in zip(combo, b)]
        ctx.check(O.homologous(S, combo, lin(images, list(a))), lambda: f'{w}: column {j} of the homology matrix')
    ctx.state(); ctx.trace(); ctx.step()
    ctx.outcome(w[-1][0])
