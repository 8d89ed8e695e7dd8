''' C02: composition, inverses, powers, conjugation and slices of all short words of moves, against the model action. '''

from fractions import Fraction

from mc.spaces import *
from mc import moves, oriented as O

BATCH = 1
PLAN = {
    'quick': [((0, 3), 2, 2), ((1, 1), 2, 2), ((0, 4), 1, 1), ((1, 2), 1, 1)],
    'thorough': [((0, 3), 2, 3), ((1, 1), 2, 3), ((0, 4), 1, 2), ((1, 2), 1, 2), ((0, 5), 1, 1), ((2, 1), 1, 1), ((1, 3), 1, 1)],
    }
CLASSES = {
    'quick': [((0, 3), 2), ((1, 1), 2), ((0, 4), 1), ((1, 2), 1)],
    'thorough': [((0, 3), 3), ((1, 1), 3), ((0, 4), 1), ((1, 2), 1), ((0, 5), 1), ((2, 1), 1)],
    }

def bounds(tier):
    return f'all pairs (and on the smallest surfaces triples) of moves from every triangulation of {PLAN[tier]}; all pairs of mapping classes made from a twist, half twist, isometry or few flips {CLASSES[tier]}; powers -3..4; all slices'

def flat(R): return [list(x) for x in R.triples]

def cases(tier):
    out = []
    for (g, n), ks, depth in PLAN[tier]:
        ts = triangulations(g, n, 40)
        if tier == 'quick' and len(ts) > 4: ts = ts[::2]
        for t in ts:
            for k in range(ks):
                R = labelled(t, k)
                for l in moves.letters(R, (1, -2)): out.append({'kind': 'compose', 'tri': flat(R), 'first': l, 'depth': depth - 1 if R.zeta == 3 else 1 if depth > 1 else 0})
    R = disjoint_union(triangulations(1, 1)[0], triangulations(0, 3)[1])
    for l in moves.letters(R, (1, -2)): out.append({'kind': 'compose', 'tri': flat(R), 'first': l, 'depth': 0})
    for (g, n), flips in CLASSES[tier]:
        for t in triangulations(g, n, 20):
            R = labelled(t, 1)
            W = moves.closed_words(R, (1, -1), flips)
            for i in range(0, len(W), 4): out.append({'kind': 'classes', 'tri': flat(R), 'flips': flips, 'from': i, 'to': i + 4})
    W = moves.closed_words(R := disjoint_union(triangulations(1, 1)[0], triangulations(1, 1)[0]), (1, -1), 0)
    for i in range(0, len(W), 4): out.append({'kind': 'classes', 'tri': flat(R), 'flips': 0, 'from': i, 'to': i + 4})
    return out

_pool = {}
def probes(R):
    if R.triples not in _pool:
        S = strands_up_to(R, 3 if R.zeta <= 6 else 2)
        arcs = [s for s in S if s[0] != 'c']
        curves = [s for s in S if s[0] == 'c']
        _pool[R.triples] = arcs[:R.zeta + 2] + curves[:4]
    return _pool[R.triples]

def check_action(R, T, h, word, S, ctx, name):
    ''' h acts as the model word does. Return the model images of the probes. '''
    P = probes(R)
    S2, images = O.strand_images(R, word, P)
    ctx.check(tri_of(h.source_triangulation) == R and tri_of(h.target_triangulation) == S2 == S, lambda: f'{name}: triangulations')
    for s, i in zip(P, images):
        L = T.lamination(strand_vector(R, s), promote=False)
        ctx.equal(list(h(L)), strand_vector(S, i), lambda: f'{name}: image of {s}')
    ctx.step(len(P))
    return images

def weights(x): return list(x)

def run_case(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    K = curver.kernel
    if case['kind'] == 'compose':
        f, S = moves.encode(R, [case['first']])
        check_action(R, T, f, [case['first']], S, ctx, f'{case["first"]}')
        fi = f.inverse()
        ctx.check(~f == fi, 'invert operator')
        U = build(S)
        second = [[l] for l in moves.letters(S, (1, -2)) if R.zeta <= 6 or l[0] != 'multi']
        if case['depth']: second = [w + [l] for w in second for l in moves.letters(moves.target(S, w[0]), (2,))[::(1 if R.zeta == 3 else 5)]]
        for w in second:
            g, Q = moves.encode(S, w)
            h = g * f
            word = [case['first']] + w
            images = check_action(R, T, h, word, Q, ctx, f'product of {word}')
            ctx.check(type(h) is (K.MappingClass if Q == R else K.Mapping), lambda: f'class of the product of {word} is {type(h).__name__}')
            hi = h.inverse()
            ctx.check(tri_of(hi.source_triangulation) == Q and tri_of(hi.target_triangulation) == R, lambda: f'ends of the inverse of {word}')
            V = h.target_triangulation
            P = probes(R)
            for s, i in list(zip(P, images))[::2]:
                v, u = strand_vector(R, s), strand_vector(Q, i)
                ctx.equal(weights(hi(V.lamination(u, promote=False))), v, lambda: f'inverse of {word} on the image of {s}')
            s, i = P[-1], images[-1]
            v, u = strand_vector(R, s), strand_vector(Q, i)
            ctx.equal(weights(fi(g.inverse()(V(u)))), v, lambda: f'inverses of {word} one after the other')
            X = T.lamination([Fraction(x, 3) for x in v], promote=False)
            ctx.equal(weights(h(X)), [Fraction(x, 3) for x in u], lambda: f'{word} on fractions')
            ctx.equal(weights(h(T.lamination([x * 5**40 for x in v], promote=False))), [x * 5**40 for x in u], lambda: f'{word} on multiples')
            # Slices.
            n = len(h)
            x = T.lamination(v, promote=False)
            for a in range(n + 1):
                A = h[:a]
                C = h[a:]
                ctx.equal(weights((A * C)(x)), u, lambda: f'product of the slices of {word} at {a}')
                for b in range(a, n + 1):
                    B = h[a:b]
                    p = A * B * h[b:]
                    ctx.check(p.source_triangulation == T and p.target_triangulation == V, lambda: f'ends of the product of the slices of {word} at {a}, {b}')
                    ctx.equal(weights(p(x)), u, lambda: f'product of the slices of {word} at {a}, {b}')
                    if 0 < a <= b < n: ctx.equal(weights((h[:a - n] * h[a - n:b - n] * h[b - n:])(x)), u, lambda: f'product of the negative slices of {word} at {a}, {b}')
            if n > 1:
                m = None
                y = x
                for j in reversed(range(n)): y = h[j].encode()(y)
                ctx.equal(weights(y), u, lambda: f'items of {word}')
            # Mismatches.
            if Q != R:
                ctx.rejects(lambda: f * h if S != R or Q != R else None, lambda: f'composing {word} with {case["first"]}')
                ctx.rejects(lambda: h(V(u)), lambda: f'applying {word} to a lamination on another triangulation', (ValueError,))
                ctx.rejects(lambda: h(V.edge_homology(0)), lambda: f'applying {word} to a homology class on another triangulation', (ValueError,))
            ctx.rejects(lambda: h(3), 'applying a mapping to a number')
            ctx.state(); ctx.trace()
            ctx.outcome(w[-1][0])
        return
    W = moves.closed_words(R, (1, -1), case['flips'])
    classes = [moves.encode(R, w)[0] for w in W]
    second = range(len(W)) if len(W) <= 40 else sorted(set(range(0, len(W), len(W) // 30)))
    for i in range(case['from'], min(case['to'], len(W))):
        w, f = W[i], classes[i]
        images = check_action(R, T, f, w, R, ctx, f'{w}')
        ctx.check(type(f) is K.MappingClass, lambda: f'class of {w} is {type(f).__name__}')
        P = probes(R)
        # Powers.
        cur, back = list(P), list(P)
        _, inverse = None, None
        expected = {0: list(P)}
        for k in range(1, 5):
            _, expected[k] = O.strand_images(R, w, expected[k - 1])
        for k in range(0, 5):
            p = f**k
            ctx.check(type(p) is K.MappingClass, lambda: f'class of {w}**{k} is {type(p).__name__}')
            for s, e in zip(P, expected[k]):
                v, u = strand_vector(R, s), strand_vector(R, e)
                ctx.equal(weights(p(T.lamination(v, promote=False))), u, lambda: f'{w}**{k} on {s}')
            for s, e in list(zip(P, expected[k]))[::3]:
                v, u = strand_vector(R, s), strand_vector(R, e)
                ctx.equal(weights(f(T.lamination(v, promote=False), power=k)), u, lambda: f'{w} on {s} with power {k}')
                ctx.equal(weights(f(T.lamination(v, promote=False), k)), u, lambda: f'{w} on {s} with power {k} (by position)')
                ctx.equal(weights((f**-k)(T.lamination(u, promote=False))), v, lambda: f'{w}**{-k} on {e}')
                ctx.equal(weights(f(T.lamination(u, promote=False), power=-k)), v, lambda: f'{w} on {e} with power {-k}')
                ctx.step(5)
        ctx.check((f**2) * (f**-3) == f**-1 == f.inverse() and (f**0).is_identity(), lambda: f'powers of {w}')
        for j in second:
            g = classes[j]
            fg = f * g  # g first.
            check_action(R, T, fg, W[j] + w, R, ctx, f'product of {W[j]} then {w}')
            c = f.conjugate_by(g)
            _, gi = O.strand_images(R, W[j], P)
            _, fi = O.strand_images(R, w, P)
            # c = g^-1 f g, that is g(c(x)) = f(g(x)).
            _, want = O.strand_images(R, W[j] + w, P)
            for s, e in list(zip(P, want))[::4]:
                x = T.lamination(strand_vector(R, s), promote=False)
                ctx.equal(weights(g(c(x))), strand_vector(R, e), lambda: f'conjugate of {w} by {W[j]} on {s}')
            ctx.check(c == g.inverse() * f * g, lambda: f'conjugate of {w} by {W[j]}')
            ctx.state(); ctx.trace()
        ctx.outcome('/'.join(sorted({l[0] for l in w})))
