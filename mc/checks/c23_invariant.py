''' C23: projectively invariant laminations of every short word: errors exactly for the classes of linear growth, and the eigenvalue is the growth rate. '''

from fractions import Fraction

from mc.spaces import *
from mc import moves, oriented as O, periodic

BATCH = 1
# (surface, triangulations, factors, flips in a closed word, stride of products)
CLASSES = {
    'quick': [((0, 3), 3, 2, 1, 1), ((1, 1), 2, 2, 1, 1), ((0, 4), 3, 2, 1, 7), ((1, 2), 3, 2, 0, 7), ((0, 5), 1, 2, 0, 11), ((1, 3), 1, 1, 0, 1), ((2, 1), 2, 1, 0, 1)],
    'thorough': [((0, 3), 9, 2, 2, 1), ((1, 1), 2, 3, 1, 1), ((0, 4), 9, 2, 1, 2), ((1, 2), 9, 2, 1, 5), ((0, 5), 6, 2, 0, 2), ((2, 1), 9, 2, 0, 5), ((1, 3), 6, 2, 0, 5)],
    }
# Independent classes on two components (components, stride).
BOTH = {
    'quick': [([(1, 1), (1, 1)], 13), ([(1, 1), (0, 4)], 499)],
    'thorough': [([(1, 1), (1, 1)], 2), ([(1, 1), (0, 4)], 61), ([(0, 4), (0, 4)], 997)],
    }
UNIONS = [[(1, 1), (1, 1)], [(1, 1), (0, 3)]]
SOME = 12  # Classes that are also tried with every choice of one starting curve.

def bounds(tier):
    return f'every closed word {CLASSES[tier]} (surface, triangulations, factors, flips, stride); unions {UNIONS}; products of two twists or half twists on each of two components (components, stride) {BOTH[tier]}; all and single starting curves, as tuples and lists, in both orders'

def flat(R): return [list(x) for x in R.triples]

def cases(tier):
    out = []
    for (g, n), count, factors, flips, stride in CLASSES[tier]:
        for t in triangulations(g, n, 40)[:count]:
            for part in range(4): out.append({'tri': flat(labelled(t, 1)), 'factors': factors, 'flips': flips, 'stride': stride, 'part': part})
    for parts in UNIONS:
        R = disjoint_union(*[triangulations(*p)[0] for p in parts])
        for part in range(4): out.append({'tri': flat(R), 'factors': 2, 'flips': 0, 'stride': 7, 'part': part})
    for parts, stride in BOTH[tier]:
        R = disjoint_union(*[triangulations(*p)[0] for p in parts])
        for part in range(4): out.append({'tri': flat(R), 'both': stride, 'part': part})
    return out

def growth(h, T, N):
    ''' Sums of the weights of the images of the edges of the triangulation, which fill, under the powers 0, N - 1 and N. '''
    L = [T.edge_arc(i) for i in range(T.zeta)]
    out = []
    for k in range(N):
        L = [h(x) for x in L]
        if k >= N - 2: out.append(sum(max(w, 0) for x in L for w in x))
    return out

def run_case(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    if 'both' in case:
        L = [l for l in moves.letters(R, (1, -1)) if l[0] in ('twist', 'half')]
        A, B = [[[a, b] for a in L for b in L if a[1] in c and b[1] in c and a[1] != b[1]] for c in R.components()]
        words = [a + b for a in A for b in B][::case['both']]
    else:
        W = [list(w) for w in moves.closed_words(R, (1, -1), case['flips'])]
        words, level = list(W), W
        for _ in range(case['factors'] - 1):
            level = [a + b for i, a in enumerate(level) for b in W[i % case['stride']::case['stride']]]
            words += level
    seen = set()
    count = 0
    for w in words[case['part']::4]:
        images = O.images(R, w)[1]
        if images in seen: continue
        seen.add(images)
        h, _ = moves.encode(R, w)
        n = periodic.order(R, w)
        rate = None
        if not n:
            N = 60
            a, b = growth(h, T, N)
            # The total weight grows at most linearly or exponentially (with base at least 1.1, so by a factor of over 90000).
            if b > N * 500 * R.zeta ** 2: rate = Fraction(b, a)
        wanted = rate is not None
        ctx.state()
        ctx.outcome('periodic' if n else 'exponential growth' if wanted else 'linear growth')
        curves = T.edge_curves()
        choices = [('default', None)]
        if count < SOME:
            choices += [('all', tuple(curves)), ('reversed list', list(curves)[::-1])] + [(f'single {i}', [c]) for i, c in enumerate(sorted(set(curves), key=list))]
        count += 1
        for name, choice in choices:
            f = (lambda: h.projective_invariant_lamination()) if choice is None else (lambda: h.projective_invariant_lamination(choice))
            if not wanted:
                ctx.rejects(f, lambda: f'invariant lamination of {w} ({"of order " + str(n) if n else "a root of a multitwist"}) from {name} curves', (ValueError,))
                continue
            try:
                d, L = f()
            except ValueError as error:
                ctx.outcome('none found')
                # Curves may miss the pseudo-Anosov pieces, but not all of them and not if there is only one piece.
                single = connected_small(R) and not any(c.is_peripheral() for c in choice or ()) or name in ('default', 'all', 'reversed list')
                ctx.check(not single, lambda: f'no invariant lamination of {w} which has growth rate {float(rate)} from {name} curves: {error}')
                continue
            ctx.check(d > 0, lambda: f'stretch factor {d} of {w}')
            ctx.check(bool(L) and any(x != 0 for x in L), lambda: f'empty invariant lamination of {w}')
            image = h(L)
            ctx.check(all(x == d * y for x, y in zip(image, L)), lambda: f'{w} does not scale its invariant lamination {list(map(str, L))} by {d}: {list(map(str, image))}')
            valid(R, list(L), ctx, w)
            if connected_small(R): ctx.check(abs(float(d) - float(rate)) < 1e-6 * float(rate), lambda: f'stretch factor {d} of {w} has growth rate {float(rate)} from {name} curves')
            elif abs(float(d) - float(rate)) > 1e-6 * float(rate):
                # Then this cannot be pseudo-Anosov.
                fixed = reducing(R, w)
                ctx.check(fixed, lambda: f'stretch factor {d} of {w} has growth rate {float(rate)} from {name} curves, and there are no short invariant multicurves')
                ctx.outcome('reducible')
            ctx.outcome('found'); ctx.step()
    ctx.trace()

def connected_small(R):
    ''' Whether the classes of exponential growth are all pseudo-Anosov. '''
    return len(R.components()) == 1 and R.zeta <= 6 and len(R.vertices()) in ((1,) if R.zeta == 3 else (4,))

def reducing(R, w):
    ''' Whether a multicurve of short curves is invariant. '''
    S = strands_up_to(R, 6, arcs=False, peripheral=False)
    if len(R.components()) > 1: return True
    for s in S:
        orbit, cur = [s], s
        for _ in range(6):
            [cur] = O.strand_images(R, w, [cur])[1]
            if cur == s: break
            orbit.append(cur)
        else: continue
        if not any(ref.intersection(R, a, b) for a in orbit for b in orbit): return True
    return False

def valid(R, L, ctx, w):
    ''' The weights satisfy the triangle inequalities. '''
    for t in R.triples:
        a, b, c = [L[max(x, ~x)] for x in t]
        ctx.check(a >= 0 and b >= 0 and c >= 0 and a + b >= c and b + c >= a and c + a >= b, lambda: f'the invariant lamination of {w} breaks the triangle inequalities in {t}')
