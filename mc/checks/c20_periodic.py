''' C20: order, quotient orbifold, reducibility and conjugacy of periodic classes, against an independent model on every closed word in bounds. '''

from itertools import product

from mc.spaces import *
from mc import moves, oriented as O, periodic
from mc.isom import isometries

BATCH = 1
# (surface, triangulations, factors, flips in a closed word, powers, stride of products)
CLASSES = {
    'quick': [((0, 3), 9, 2, 2, 1), ((1, 1), 2, 2, 2, 1), ((0, 4), 6, 2, 1, 5), ((1, 2), 6, 2, 1, 7), ((0, 5), 3, 2, 1, 31), ((2, 1), 9, 1, 1, 1), ((1, 3), 6, 1, 1, 1), ((0, 6), 2, 1, 1, 1)],
    'thorough': [((0, 3), 9, 3, 2, 1), ((1, 1), 2, 3, 2, 1), ((0, 4), 9, 2, 2, 1), ((1, 2), 9, 2, 2, 3), ((0, 5), 9, 2, 1, 5), ((2, 1), 9, 1, 2, 1), ((1, 3), 9, 2, 1, 9), ((0, 6), 6, 2, 1, 41), ((2, 2), 3, 1, 1, 1)],
    }
UNIONS = {
    'quick': [[(1, 1), (1, 1)], [(0, 3), (1, 1)], [(0, 3), (0, 3)], [(0, 4), (0, 4)], [(1, 1), (1, 1), (1, 1)], [(0, 3), (0, 3), (1, 1)]],
    'thorough': [[(1, 1), (1, 1)], [(0, 3), (1, 1)], [(0, 3), (0, 3)], [(0, 4), (0, 4)], [(1, 1), (1, 1), (1, 1)], [(0, 3), (0, 3), (1, 1)], [(1, 2), (1, 2)]],
    }

ACROSS = {'quick': [((1, 1), 2), ((0, 4), 4), ((1, 2), 3), ((0, 5), 2)], 'thorough': [((0, 3), 9), ((1, 1), 2), ((0, 4), 6), ((1, 2), 5), ((0, 5), 6), ((2, 1), 3)]}
PERMUTED = [([(1, 1), (0, 3)], [(0, 3), (1, 1)]), ([(1, 1), (1, 1)], [(1, 1), (1, 1)]), ([(0, 3), (0, 3), (1, 1)], [(0, 3), (1, 1), (0, 3)]), ([(0, 4), (0, 3)], [(0, 3), (0, 4)]),
    ([(0, 4), (1, 1)], [(0, 3), (1, 2)]), ([(0, 5)], [(1, 3)]), ([(1, 2)], [(0, 4)])]

# Subgroups: (components, triangulations (the most symmetric ones), flips in a closed word, most elements, stride of pairs)
GROUPS = {
    'quick': [([(0, 3)], 3, 1, 12, 1), ([(1, 1)], 2, 1, 12, 3), ([(0, 4)], 4, 1, 24, 3), ([(1, 2)], 4, 1, 24, 5), ([(0, 5)], 2, 1, 20, 3), ([(0, 6)], 2, 0, 30, 9), ([(1, 3)], 2, 0, 30, 1), ([(2, 1)], 2, 0, 30, 1), ([(1, 1), (1, 1)], 1, 0, 30, 5), ([(0, 3), (0, 3)], 1, 0, 30, 11), ([(0, 3), (1, 1)], 1, 0, 30, 3)],
    'thorough': [([(0, 3)], 9, 2, 12, 1), ([(1, 1)], 2, 2, 12, 1), ([(0, 4)], 6, 1, 24, 1), ([(1, 2)], 9, 1, 24, 1), ([(0, 5)], 6, 1, 20, 1), ([(0, 6)], 6, 1, 30, 7), ([(1, 3)], 6, 1, 30, 1), ([(2, 1)], 9, 1, 30, 1), ([(1, 1), (1, 1)], 1, 0, 80, 1), ([(0, 3), (0, 3)], 1, 0, 80, 1), ([(0, 3), (1, 1)], 1, 0, 40, 1), ([(0, 4), (0, 4)], 1, 0, 30, 3), ([(1, 1), (1, 1), (1, 1)], 1, 0, 60, 41)],
    }
# Conjugates: (surface, triangulations, letters of the conjugating word, stride of conjugating words)
CONJUGATES = {
    'quick': [((0, 3), 2, 2, 3), ((1, 1), 2, 2, 1), ((0, 4), 3, 2, 7), ((1, 2), 3, 2, 11), ((0, 5), 2, 1, 2), ((2, 1), 2, 1, 1), ((0, 6), 1, 1, 3)],
    'thorough': [((0, 3), 9, 3, 1), ((1, 1), 2, 3, 1), ((0, 4), 6, 2, 1), ((1, 2), 9, 2, 1), ((0, 5), 6, 2, 5), ((2, 1), 6, 2, 7), ((1, 3), 6, 2, 7), ((0, 6), 3, 2, 7)],
    }

def bounds(tier):
    return f'subgroups generated by all pairs of periodic classes {GROUPS[tier]} (components, most symmetric triangulations, flips, elements, stride of pairs); conjugates of all periodic classes {CONJUGATES[tier]} (surface, triangulations, letters, stride); ' + f'all closed words {CLASSES[tier]} (surface, triangulations, factors, flips, stride of products); unions {UNIONS[tier]}; all pairs of the periodic classes found on each, and on pairs of triangulations {ACROSS[tier]} and {PERMUTED}'

def flat(R): return [list(x) for x in R.triples]

def words(case, R):
    W = [list(w) for w in moves.closed_words(R, (1, -1), case['flips'])][::case.get('thin', 1)]
    out = list(W)
    level = W
    for _ in range(case['factors'] - 1):
        level = [a + b for i, a in enumerate(level) for b in W[i % case['stride']::case['stride']]]
        out += level
    return out

def cases(tier):
    out = []
    def add(t, factors, flips, stride, thin=1):
        out.append({'kind': 'words', 'tri': flat(t), 'factors': factors, 'flips': flips, 'stride': stride, 'thin': thin})
    for (g, n), count, factors, flips, stride in CLASSES[tier]:
        for t in triangulations(g, n, 40)[:count]: add(labelled(t, 1), factors, flips, stride)
    for parts in UNIONS[tier]:
        big = len(parts) > 2 or sum(2 * g + n - 2 for g, n in parts) > 2
        for t in product(*[triangulations(*p)[:1] for p in parts]): add(disjoint_union(*t), 1 if big and tier == 'quick' else 2, 0, 7 if big else 3, 7 if len(parts) > 2 and tier == 'quick' else 1)
    for (g, n), count in ACROSS[tier]:
        ts = triangulations(g, n, 40)[:count]
        for i in range(len(ts)):
            out.append({'kind': 'across', 'a': flat(labelled(ts[i], 0)), 'b': flat(labelled(ts[(i + 1) % len(ts)], 1)), 'factors': 2, 'flips': 1, 'stride': 3 if n + g < 4 else 31})
    for parts, count, flips, size, stride in GROUPS[tier]:
        if len(parts) == 1: ts = sorted(triangulations(*parts[0], 60), key=lambda t: -len(list(isometries(Tri(t), Tri(t)))))[:count]
        else: ts = [disjoint_union(*[triangulations(*p)[0] for p in parts]).triples]
        for t in ts:
            out.append({'kind': 'groups', 'tri': flat(labelled(t, 1)), 'flips': flips, 'size': size, 'stride': stride})
    for (g, n), count, depth, stride in CONJUGATES[tier]:
        for t in triangulations(g, n, 40)[:count]:
            out.append({'kind': 'conjugates', 'tri': flat(labelled(t, 1)), 'factors': 1, 'flips': 1, 'stride': 1, 'depth': depth, 'skip': stride})
    for A, B in PERMUTED: out.append({'kind': 'across', 'a': flat(disjoint_union(*[triangulations(*p)[0] for p in A])), 'b': flat(labelled(disjoint_union(*[triangulations(*p)[-1] for p in B]).triples, 1)), 'factors': 1, 'flips': 0, 'stride': 3})
    return out

def describe(signature):
    return sorted((o.euler_characteristic, o.preimages, tuple(sorted((bool(c.punctured), c.order, tuple(c.holonomy), c.preimages) for c in o.cone_points))) for o in signature)

def collect(R, case):
    classes, infinite = {}, {}
    for w in words(case, R):
        key = O.images(R, w)[1]
        if key in classes or key in infinite: continue
        n = periodic.order(R, w)
        if n: classes[key] = (w, n)
        else: infinite[key] = w
    return classes, infinite

def across(case, ctx):
    ''' Conjugacy of classes given on different triangulations. '''
    R, S = Tri(case['a']), Tri(case['b'])
    found = []
    for U in (R, S):
        sigs = {}
        for w, n in collect(U, case)[0].values():
            key = (n, tuple(periodic.Orbits(U, w, n).signature))
            sigs.setdefault(key, (w, moves.encode(U, w)[0]))
        found.append(sigs)
    same = sorted(x[:2] for x in R.surface().values()) == sorted(x[:2] for x in S.surface().values())
    for k, (w, h) in found[0].items():
        for l, (w2, h2) in found[1].items():
            want = same and k == l
            ctx.equal(h.is_conjugate_to(h2), want, lambda: f'{w} on {R.triples} is conjugate to {w2} on {S.triples}')
            if h.order() == h2.order(): ctx.equal(h.subgroup().is_conjugate_to(h2.subgroup()), want, lambda: f'the subgroup generated by {w} on {R.triples} is conjugate to that generated by {w2} on {S.triples}')
            ctx.step()
            ctx.outcome('conjugate' if want else 'not conjugate')
    ctx.state(len(found[0]) + len(found[1])); ctx.trace()

def classes_of(signature, names):
    ''' A quotient orbifold signature with each holonomy replaced by its conjugacy class, and that of the model, in the same form. '''
    find = {h: c for _, _, points in names for _, _, c, _ in points for h in c}
    return sorted((o.euler_characteristic, o.preimages, tuple(sorted((bool(c.punctured), c.order, find.get(tuple(c.holonomy), tuple(c.holonomy)), c.preimages) for c in o.cone_points))) for o in signature)

def groups(case, ctx):
    ''' Finite subgroups with two generators. '''
    R = Tri(case['tri'])
    identity = tuple(('e', i) for i in range(R.zeta))
    periodic_words = {}
    for w in moves.closed_words(R, (1, -1), case['flips']):
        w = list(w)
        key = O.images(R, w)[1]
        if key not in periodic_words and periodic.order(R, w): periodic_words[key] = w
    W = list(periodic_words.items())
    pairs = [(x, y) for i, x in enumerate(W) for y in W[:i]]
    seen = set()
    found = []
    conjugators = [list(w) for w in moves.closed_words(R, (1, -1), 0) if w[0][0] in ('twist', 'half')][:2]
    for (key1, w1), (key2, w2) in pairs[::case['stride']]:
        G = periodic.generate(R, {'a': w1, 'b': w2}, case['size'])
        if G is None: continue
        ident = frozenset(x[1] for x in G.values())
        if ident in seen: continue
        seen.add(ident)
        ctx.state()
        gens = {'a': moves.encode(R, w1)[0], 'b': moves.encode(R, w2)[0]}
        H = curver.kernel.FiniteSubgroup.from_generators(gens)
        text = f'the subgroup generated by a = {w1} and b = {w2}'
        ctx.equal(sorted(H), sorted(G), lambda: f'names of the elements of {text}')
        for name in G: ctx.check(H[name] == moves.encode(R, G[name][0])[0], lambda: f'element {name} of {text}')
        M = periodic.GroupOrbits(R, G)
        P = H.invariant_polygonalisation()
        ctx.check(P.is_polygonalisation() and all(H[name](P) == P for name in G), lambda: f'invariant polygonalisation of {text}')
        signature = H.quotient_orbifold_signature()
        ctx.equal(classes_of(signature, M.signature), M.signature, lambda: f'quotient orbifold of {text}, holonomies up to conjugacy')
        for c in conjugators:
            f = moves.encode(R, c)[0]
            K = curver.kernel.FiniteSubgroup.from_generators({name: ~f * g * f for name, g in gens.items()})
            ctx.equal(len(K), len(H), lambda: f'size of {text} conjugated by {c}')
            ctx.check(H.is_conjugate_to(K) and K.is_conjugate_to(H), lambda: f'{text} is not reported conjugate to its conjugate by {c}: {K.quotient_orbifold_signature()} and {signature}')
            ctx.trace()
        for other, other_signature, K in found[-8:]:
            if (len(other) != len(G)) or other_signature != M.signature:
                ctx.check(not H.is_conjugate_to(K), lambda: f'{text} is reported conjugate to another one with a different quotient')
                ctx.outcome('not conjugate')
        found.append((G, M.signature, H))
        abelian = periodic.act(R, w1 + w2, identity) == periodic.act(R, w2 + w1, identity)
        ctx.outcome(('abelian' if abelian else 'non abelian') + f' subgroup of order {len(G)}')
        ctx.step()
    ctx.trace()

def conjugates(case, ctx):
    ''' Conjugates of periodic classes by words of twists have the same invariants. '''
    R = Tri(case['tri'])
    classes, _ = collect(R, case)
    representatives = {}
    for w, n in classes.values():
        M = periodic.Orbits(R, w, n)
        representatives.setdefault((n, tuple(M.signature)), (w, M))
    letters = [l for l in moves.letters(R, (1, -2)) if l[0] in ('twist', 'half')]
    words, level = [], [[]]
    for _ in range(case['depth']):
        level = [w + [l] for w in level for l in letters]
        words += level
    for (n, _), (w, M) in representatives.items():
        if n == 1: continue
        h, _ = moves.encode(R, w)
        for c in words[::case['skip']]:
            f = moves.encode(R, c)[0]
            k = ~f * h * f
            ctx.equal(k.order(), n, lambda: f'order of {w} conjugated by {c}')
            K = k.subgroup()
            P = K.invariant_polygonalisation()
            ctx.check(P.is_polygonalisation() and k(P) == P, lambda: f'invariant polygonalisation of {w} conjugated by {c}')
            ctx.equal(describe(K.quotient_orbifold_signature()), M.signature, lambda: f'quotient orbifold of {w} conjugated by {c}')
            ctx.check(h.is_conjugate_to(k), lambda: f'{w} is not reported conjugate to its conjugate by {c}')
            ctx.step()
        ctx.trace()
        ctx.outcome(f'order {n}')
    ctx.state(len(representatives) * len(words[::case['skip']]))

def run_case(case, ctx):
    if case['kind'] == 'across': return across(case, ctx)
    if case['kind'] == 'groups': return groups(case, ctx)
    if case['kind'] == 'conjugates': return conjugates(case, ctx)
    R = Tri(case['tri'])
    T = build(R)
    classes, infinite = collect(R, case)
    ctx.state(len(classes) + len(infinite))
    for w in list(infinite.values())[:case.get('infinite', 25)]:
        h, _ = moves.encode(R, w)
        ctx.equal(h.order(), 0, lambda: f'order of the class {w} of infinite order')
        ctx.equal(h.is_periodic(), False, lambda: f'is_periodic of {w}')
        ctx.rejects(h.subgroup, f'subgroup generated by {w} of infinite order', (ValueError,))
        ctx.trace()
        ctx.outcome('infinite order')
    found = {}
    for w, n in classes.values():
        h, _ = moves.encode(R, w)
        ctx.equal(h.order(), n, lambda: f'order of {w}')
        ctx.check(h.is_periodic(), lambda: f'{w} of order {n} is not periodic')
        ctx.equal(h.is_identity(), n == 1, lambda: f'is_identity of {w}')
        M = periodic.Orbits(R, w, n)
        key = (n, tuple(M.signature))
        found.setdefault(key, []).append((w, h))
        if len(found[key]) > case.get('each', 3): continue
        H = h.subgroup()
        ctx.equal(len(H), n, lambda: f'order of the subgroup generated by {w}')
        ctx.equal(describe(H.quotient_orbifold_signature()), M.signature, lambda: f'quotient orbifold (Euler characteristic, preimages, cone points (punctured, order, holonomy, preimages)) of {w}')
        P = H.invariant_polygonalisation()
        ctx.check(P.is_polygonalisation() and h(P) == P, lambda: f'invariant polygonalisation of {w}')
        ctx.equal(h.is_reducible(), M.reducible, lambda: f'is_reducible of {w}')
        ctx.equal(h.is_pseudo_anosov(), False, lambda: f'is_pseudo_anosov of {w}')
        ctx.equal(str(h.nielsen_thurston_type()), 'Periodic', lambda: f'type of {w}')
        ctx.trace()
        ctx.outcome(f'order {n}')
    keys = sorted(found)
    # Conjugacy: within a signature and between signatures.
    for i, k in enumerate(keys):
        w, h = found[k][0]
        for w2, h2 in found[k][1:3]:
            ctx.check(h.is_conjugate_to(h2), lambda: f'{w} and {w2} are not reported conjugate')
            ctx.outcome('conjugate')
        for l in keys[:i]:
            w2, h2 = found[l][0]
            ctx.check(not h.is_conjugate_to(h2) and not h2.is_conjugate_to(h), lambda: f'{w} and {w2} are reported conjugate')
            ctx.outcome('not conjugate')
        for w2 in list(infinite.values())[:2]:
            ctx.check(not h.is_conjugate_to(moves.encode(R, w2)[0]), lambda: f'{w} and {w2} of infinite order are reported conjugate')
        ctx.step()
