''' C03: equality and identity of mappings against images of oriented edges in the model, for all pairs of short words. '''

from mc.spaces import *
from mc import moves, oriented as O

BATCH = 1
# (surface, triangulations used, length of the products, flips in a closed word, stride of the second factor)
CLASSES = {
    'quick': [((0, 3), 9, 2, 2, 1), ((1, 1), 9, 3, 2, 2), ((0, 4), 6, 2, 1, 3), ((1, 2), 5, 2, 1, 3), ((0, 5), 1, 2, 0, 3), ((2, 1), 2, 2, 0, 3), ((1, 3), 1, 2, 0, 4)],
    'thorough': [((0, 3), 9, 3, 3, 1), ((1, 1), 9, 3, 3, 1), ((0, 4), 6, 2, 2, 1), ((1, 2), 5, 2, 2, 1), ((0, 5), 12, 2, 1, 2), ((2, 1), 9, 2, 1, 2), ((1, 3), 6, 2, 1, 3), ((0, 6), 3, 2, 0, 3)],
    }
PATHS = {
    'quick': [((0, 3), 4), ((1, 1), 4), ((0, 4), 3), ((1, 2), 3), ((0, 5), 2)],
    'thorough': [((0, 3), 6), ((1, 1), 6), ((0, 4), 4), ((1, 2), 4), ((0, 5), 3), ((2, 1), 3)],
    }
UNIONS = [[(1, 1), (1, 1)], [(0, 3), (1, 1)], [(0, 3), (0, 3)], [(1, 1), (1, 2)]]

def bounds(tier):
    return f'all pairs of products of closed words (twists, half twists, isometries, flips then isometries) {CLASSES[tier]} (surface, triangulations, factors, flips, stride); all pairs of flip paths {PATHS[tier]} (surface, length) with equal ends; unions {UNIONS}'

def flat(R): return [list(x) for x in R.triples]

def cases(tier):
    out = []
    for (g, n), count, length, flips, stride in CLASSES[tier]:
        for t in triangulations(g, n, 40)[:count]:
            out.append({'kind': 'classes', 'tri': flat(labelled(t, 1)), 'length': length, 'flips': flips, 'stride': stride})
    for parts in UNIONS:
        out.append({'kind': 'classes', 'tri': flat(disjoint_union(*[triangulations(*p)[0] for p in parts])), 'length': 2, 'flips': 0, 'stride': 2})
    for (g, n), depth in PATHS[tier]:
        ts = triangulations(g, n, 40)
        for t in (ts[::3] if tier == 'quick' else ts): out.append({'kind': 'paths', 'tri': flat(labelled(t, 0)), 'depth': depth})
    for g, n in [(0, 3), (1, 1), (0, 4), (1, 2)]: out.append({'kind': 'others', 'tri': flat(labelled(triangulations(g, n)[0], 1))})
    return out

def compare(items, ctx, same_ends=True):
    ''' items: list of (mapping, key, name), all with the same ends. '''
    n = len(items)
    for i in range(n):
        f, a, x = items[i]
        for j in range(i, n):
            g, b, y = items[j]
            want = a == b
            ctx.equal(f == g, want, lambda: f'equality of {x} and {y}')
            if want or (i + j) % 7 == 0:
                ctx.equal(g == f, want, lambda: f'equality of {y} and {x}')
                ctx.equal(f != g, not want, lambda: f'inequality of {x} and {y}')
            if want: ctx.check(hash(f) == hash(g), lambda: f'hashes of the equal {x} and {y}')
        ctx.step(n - i)
    ctx.outcome('classes', len({a for _, a, _ in items}))
    ctx.outcome('mappings', n)

def run_case(case, ctx):
    K = curver.kernel
    R = Tri(case['tri'])
    T = build(R)
    identity = tuple(('e', i) for i in range(R.zeta))
    if case['kind'] == 'classes':
        W = moves.closed_words(R, (1, -1) if R.zeta <= 6 else (1,), case['flips'])
        single = [moves.encode(R, w)[0] for w in W]
        ims = [O.images(R, w)[1] for w in W]
        items = [(T.id_encoding(), identity, 'identity')]
        for h, im, w in zip(single, ims, W):
            items += [(h, im, w)]
            items.append((h.inverse(), O.images(R, w)[1] if False else inverse_images(R, w), ['inverse'] + w))
        base = items[1:]
        words = [(h, w, n) for h, w, n in zip(single, W, range(len(W)))]
        level = [(h, w) for h, w in zip(single, W)]
        for _ in range(case['length'] - 1):
            new = []
            for a, (h, w) in enumerate(level):
                for b in range(a % case['stride'], len(W), case['stride']):
                    new.append((single[b] * h, w + W[b]))
            cap = 160 if R.zeta <= 6 else 70
            step = max(1, len(new) // cap)
            level = new[::step]
            for h, w in level:
                items.append((h, O.images(R, w)[1], w))
        ctx.state(len(items)); ctx.trace(len(items))
        compare(items, ctx)
        for h, im, w in items:
            if R.zeta > 6 and len(w) > 1 and im != identity: continue
            ctx.equal(h.is_identity(), im == identity, lambda: f'is_identity of {w}')
        # Words that are equal to others only through relations: f g f^-1.
        for (f, a, x) in base[::max(1, len(base) // 8)]:
            for (g, b, y) in base[1::max(1, len(base) // 5)]:
                h = f.inverse() * (f * g) * g.inverse()
                ctx.check(h == items[0][0] and h.is_identity() and hash(h) == hash(items[0][0]), lambda: f'cancelling product of {x} and {y} is not the identity')
                c = f * g * f.inverse() * g.inverse()
                ctx.equal(c.is_identity(), c == items[0][0], lambda: f'commutator of {x} and {y}')
                ctx.equal(f * g == g * f, c == items[0][0], lambda: f'commutation of {x} and {y}')
        return
    if case['kind'] == 'paths':
        groups = {}
        def rec(S, h, word, left):
            S2, im = O.images(R, word)
            groups.setdefault(S.key(), []).append((h, im, word))
            if not left: return
            for x in range(S.zeta):
                if S.flippable(x): 
                    step = h.target_triangulation.encode_flip(x)
                    rec(S.flip(x), step * h, word + [['flip', x]], left - 1)
        rec(R, T.id_encoding(), [], case['depth'])
        for key in groups:
            ctx.state(len(groups[key])); ctx.trace(len(groups[key]))
            compare(groups[key], ctx)
        reps = [g[0] for g in groups.values()][:30]
        for i, (f, _, x) in enumerate(reps):
            for g, _, y in reps[:i]:
                ctx.check(not f == g and f != g, lambda: f'mappings {x} and {y} to different triangulations are equal')
        for S in groups.values():
            if len(S) > 1:
                f, a, x = S[0]
                g, b, y = S[-1]
                ctx.equal((g.inverse() * f).is_identity(), a == b, lambda: f'{x} followed by the inverse of {y} is the identity')
        return
    # Things that are not equal to a mapping.
    h = T.id_encoding()
    others = [3, 0, None, 'a', (), [], {}, 1.5, T, T.empty_lamination(), T.edge_homology(0), h.sequence, object()]
    mine = [h] + [T.encode([moves.item(R, l)]) for l in moves.letters(R, (1,))]
    for f in mine:
        for o in others: ctx.check(not f == o and f != o and not o == f, lambda: f'{f} is equal to {o!r}')
        back = f.inverse()
        if f.source_triangulation != f.target_triangulation:
            ctx.check(f != back and not f == back and f != h and h != f, lambda: f'{f} is equal to its inverse or the identity')
        ctx.state(); ctx.trace()
    # Encodings which are not mappings.
    S = [s for s in strands_up_to(R, 4, arcs=False, peripheral=False)]
    for s in S[:2]:
        c = T(strand_vector(R, s)).crush()
        for e in (c, c.inverse(), c.inverse() * c):
            for f in mine: ctx.check(not f == e and f != e and not e == f and e != f, lambda: f'{f} is equal to {e}')
            ctx.check(e == e, 'an encoding differs from itself') if type(e) is K.Encoding and e is c else None
        ctx.outcome('crushes')

def inverse_images(R, w):
    ''' The model images under the inverse of a closed word. '''
    inv = []
    S, seq = R, []
    for l in w:
        seq.append((S, l))
        S = moves.target(S, l)
    cur = [('e', i) for i in range(R.zeta)]
    for S, l in reversed(seq):
        U = moves.target(S, l)
        if l[0] == 'flip': cur = [O.flip(U, ~l[1], s) for s in cur]
        elif l[0] in ('twist', 'half'): cur = [O.apply(S, [l[0], l[1], -l[2]], s) for s in cur]
        elif l[0] == 'none': pass
        else:
            m = {v: k for k, v in O.label_map(S, l).items()}
            cur = [O.relabel(m, s) for s in cur]
    return tuple(cur)
