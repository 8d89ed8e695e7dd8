''' C22: recognising multitwists, against exhaustive search for the multicurve in the model. '''

from math import isqrt

from mc.spaces import *
from mc import moves, oriented as O

BATCH = 1
# (surface, triangulations, factors, flips in a closed word, stride of products)
CLASSES = {
    'quick': [((0, 3), 3, 2, 1, 1), ((1, 1), 2, 2, 1, 1), ((0, 4), 2, 2, 1, 11), ((1, 2), 2, 2, 0, 7), ((0, 5), 1, 2, 0, 41), ((2, 1), 1, 2, 0, 61), ((1, 3), 1, 1, 0, 1)],
    'thorough': [((0, 3), 9, 2, 2, 1), ((1, 1), 2, 3, 1, 1), ((0, 4), 9, 2, 1, 1), ((1, 2), 9, 2, 1, 1), ((0, 5), 9, 2, 1, 3), ((2, 1), 9, 2, 0, 2), ((1, 3), 6, 2, 0, 3), ((0, 6), 2, 2, 0, 7)],
    }
TWISTS = {  # (surface, triangulations, length of curves, curves)
    'quick': [((1, 1), 2, 12, 12), ((0, 4), 3, 10, 12), ((1, 2), 3, 8, 10), ((0, 5), 1, 8, 12), ((2, 1), 1, 6, 8), ((1, 3), 1, 6, 8)],
    'thorough': [((1, 1), 2, 24, 30), ((0, 4), 9, 16, 30), ((1, 2), 9, 12, 24), ((0, 5), 6, 10, 24), ((2, 1), 9, 8, 24), ((1, 3), 6, 8, 16), ((0, 6), 3, 8, 16)],
    }
UNIONS = [[(1, 1), (1, 1)], [(0, 4), (1, 1)], [(1, 1), (0, 3)]]
MAX_CROSSINGS = 64
PARTS = 4

def bounds(tier):
    return f'every closed word {CLASSES[tier]} (surface, triangulations, factors, flips, stride) with at most {MAX_CROSSINGS} crossings of the image of the triangulation with itself; the twists of every multicurve of at most three components made from the first curves {TWISTS[tier]} (surface, triangulations, length, curves) with multiplicities up to 1000, written in several ways; unions {UNIONS}'

def flat(R): return [list(x) for x in R.triples]

def cases(tier):
    out = []
    for (g, n), count, factors, flips, stride in CLASSES[tier]:
        for t in triangulations(g, n, 40)[:count]:
            for part in range(4): out.append({'kind': 'words', 'tri': flat(labelled(t, 1)), 'factors': factors, 'flips': flips, 'stride': stride, 'part': part})
    for parts in UNIONS:
        R = disjoint_union(*[triangulations(*p)[0] for p in parts])
        for part in range(4): out.append({'kind': 'words', 'tri': flat(R), 'factors': 2, 'flips': 0, 'stride': 29 if R.zeta > 8 else 5, 'part': part})
        for part in range(PARTS): out.append({'kind': 'twists', 'tri': flat(R), 'length': 6, 'curves': 8, 'part': part, 'systems': 8 if tier == 'quick' else 80})
    for (g, n), count, length, curves in TWISTS[tier]:
        for t in triangulations(g, n, 40)[:count]:
            for part in range(PARTS): out.append({'kind': 'twists', 'tri': flat(labelled(t, 1)), 'length': length, 'curves': curves, 'part': part, 'systems': 8 if tier == 'quick' else 80})
    return out

_curves = {}
def curves_up_to(R, length):
    if (R.triples, length) not in _curves: _curves[R.triples, length] = strands_up_to(R, length, arcs=False, peripheral=False)
    return _curves[R.triples, length]

def crossings(images): return sum(len(s[1]) for s in images if s[0] == 'a')

def recognise(R, w, images):
    ''' The multicurve {curve: multiplicity} whose right twist is w, {} if there is none and None if that would need too long a search.

    The right twist T about a multicurve M = sum m c has i(T^(k+1)(L), L) - i(T^k(L), L) = sum m i(c, L)^2 for the edges L of the triangulation and k > 2
    (as the twisting between two edges is at most one) so only finitely many multicurves are possible. '''
    lengths, cur = [crossings(images)], images
    for _ in range(4):
        if lengths[-1] > 20 * MAX_CROSSINGS: return None
        for_state = R
        for l in w:
            cur = tuple(O.apply(for_state, l, s) for s in cur)
            for_state = moves.target(for_state, l)
        lengths.append(crossings(cur))
    total = lengths[4] - lengths[3]
    if total != lengths[3] - lengths[2] or total <= 0: return {}
    if total > MAX_CROSSINGS: return None
    options = []
    for c in curves_up_to(R, isqrt(total)):
        if O.strand_images(R, w, [c])[1] == [c]: options.append(c)
    found = []
    def rec(i, left, M):
        if left == 0:
            if twisted(R, M) == images: found.append(dict(M))
            return
        for j in range(i, len(options)):
            c = options[j]
            l = len(c[1]) ** 2
            if l > left or any(ref.intersection(R, c, d) for d in M): continue
            for m in range(1, left // l + 1):
                M[c] = m
                rec(j + 1, left - m * l, M)
            del M[c]
    rec(0, total, {})
    assert len(found) <= 1, found
    return found[0] if found else {}

def twisted(R, M):
    ''' The model images of the oriented edges under the right twist. '''
    out = [('e', i) for i in range(R.zeta)]
    for c, m in M.items(): out = [O.twist(R, c, m, s) for s in out]
    return tuple(out)

def expect(R, h, M, name, ctx):
    if M:
        ctx.equal(h.is_multitwist(), True, lambda: f'is_multitwist of {name} == the twist about {M}')
        got = h.extract_twisting_multicurve()
        ctx.equal(list(got), list(ref.vector(R, M)), lambda: f'twisting multicurve of {name} == the twist about {M}')
        ctx.check(isinstance(got, curver.kernel.MultiCurve), lambda: f'the twisting multicurve of {name} is a {type(got).__name__}')
        ctx.outcome('multitwists')
    else:
        ctx.equal(h.is_multitwist(), False, lambda: f'is_multitwist of {name}, which is not a twist')
        ctx.rejects(h.extract_twisting_multicurve, lambda: f'extract_twisting_multicurve of {name}, which is not a twist', (ValueError,))
        ctx.outcome('others')
    ctx.step()

def run_case(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    if case['kind'] == 'words':
        W = [list(w) for w in moves.closed_words(R, (1, -1), case['flips'])]
        out, level = list(W), W
        for _ in range(case['factors'] - 1):
            level = [a + b for i, a in enumerate(level) for b in W[i % case['stride']::case['stride']]]
            out += level
        seen = set()
        for w in out[case['part']::4]:
            images = O.images(R, w)[1]
            if images in seen: continue
            seen.add(images)
            M = recognise(R, w, images)
            if M is None:
                ctx.outcome('too long to decide')
                continue
            h, _ = moves.encode(R, w)
            expect(R, h, M, str(w), ctx)
            ctx.state()
        ctx.trace()
        return
    S = curves_up_to(R, case['length'])[:case['curves']]
    part, of = case['part'], PARTS
    D = disjointness(R, S)
    systems_ = [[c] for c in S[:6]] + [[S[i], S[j]] for i, j in sorted(D)] + [[c] for c in S[6:]] + [[S[i], S[j], S[k]] for i, j in sorted(D) for k in range(j + 1, len(S)) if (i, k) in D and (j, k) in D]
    mults = [(1, 1, 1), (2, 3, 1), (1000, 1, 7), (1, 50, 2)]
    closed = moves.closed_words(R, (1, -1), 0)
    for i, system in list(enumerate(systems_[:case['systems']]))[part::of]:
        for ms in mults:
            if len(system) == 1 and ms in mults[3:]: continue
            M = dict(zip(system, ms))
            h = T(ref.vector(R, M)).encode_twist()
            ctx.check(h.is_multitwist(), lambda: f'is_multitwist of the twist about {M}')
            expect(R, h, M, f'the twist {M}', ctx)
            expect(R, h.inverse(), {}, f'the inverse of the twist {M}', ctx)
            ctx.state()
        # The same class written in other ways.
        M = dict(zip(system, mults[1]))
        h = T(ref.vector(R, M)).encode_twist()
        expect(R, h.flip_mapping(), M, f'the flips of the twist {M}', ctx)
        expect(R, h.simplify(), M, f'the simplification of the twist {M}', ctx)
        f = T(ref.vector(R, {system[0]: 1})).encode_twist()
        expect(R, f.inverse() * h * f, M, f'the twist {M} conjugated by a twist that fixes it', ctx)
        w = closed[i % len(closed)]
        g, _ = moves.encode(R, w)
        image = {O.strand_images(R, w, [c])[1][0]: m for c, m in M.items()}
        expect(R, g * h * g.inverse(), image, f'the conjugate of the twist {M} by {w}', ctx)
        if len(system) > 1:
            mixed = T(ref.vector(R, {system[0]: 2})).encode_twist() * T(ref.vector(R, {system[1]: 3})).encode_twist(power=-1)
            expect(R, mixed, {}, f'2 twists about {system[0]} and -3 about {system[1]}', ctx)
            expect(R, mixed * h, {system[0]: 4, **dict(zip(system[2:], mults[1][2:]))}, f'{M} with 2 twists about {system[0]} and -3 about {system[1]}', ctx)
    ctx.trace()
