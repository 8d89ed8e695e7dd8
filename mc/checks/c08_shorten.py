''' C08: shortening of every bounded lamination, and of the images of short ones under every bounded word of (huge) twists, with every kind of drop. '''

from mc.spaces import *
from mc import moves
from mc.ref import twist_multi

BATCH = 1
CASE_CPU_SECONDS = 150
DROPS = (0.1, 0.0, 1.0, 0.5)
# (surface, triangulations, total weight, most components)
SMALL = {
    'quick': [((0, 3), 9, 9, 3), ((1, 1), 1, 10, 3), ((0, 4), 6, 4, 3), ((1, 2), 5, 4, 3), ((0, 4), 1, 5, 3), ((1, 2), 1, 5, 3), ((0, 5), 2, 3, 3), ((2, 1), 2, 3, 3)],
    'thorough': [((0, 3), 9, 14, 4), ((1, 1), 1, 16, 4), ((0, 4), 6, 8, 4), ((1, 2), 5, 8, 4), ((0, 5), 12, 5, 4), ((2, 1), 9, 5, 4), ((1, 3), 12, 4, 4)],
    }
# (surface, triangulations, length of words of twists, stride)
LARGE = {
    'quick': [((1, 1), 1, 3, 13), ((0, 4), 6, 2, 13), ((1, 2), 5, 2, 17), ((0, 5), 4, 2, 61), ((2, 1), 4, 2, 71), ((1, 3), 2, 2, 101)],
    'thorough': [((1, 1), 1, 4, 3), ((0, 4), 6, 3, 35), ((1, 2), 5, 3, 61), ((0, 5), 12, 3, 211), ((2, 1), 9, 3, 211), ((1, 3), 12, 2, 5), ((0, 6), 6, 2, 7), ((2, 2), 4, 2, 9)],
    }
# (surface, triangulations, total weight, stride)
TRACE = {
    'quick': [((0, 3), 9, 8, 1), ((1, 1), 1, 12, 1), ((0, 4), 9, 8, 5), ((1, 2), 9, 8, 5), ((2, 1), 9, 6, 101)],
    'thorough': [((0, 3), 9, 12, 1), ((1, 1), 1, 18, 1), ((0, 4), 9, 9, 1), ((1, 2), 9, 9, 1), ((2, 1), 9, 7, 41), ((0, 5), 12, 7, 41)],
    }
# (surface, triangulations, length of the strands, total weight, cases) for following the images of strands under twists.
SPIRAL = {
    'quick': [((0, 4), 9, 6, 30, 1), ((1, 1), 1, 7, 30, 1), ((1, 2), 5, 5, 24, 1), ((2, 1), 2, 4, 20, 1)],
    'thorough': [((0, 4), 9, 7, 60, 4), ((1, 1), 1, 10, 60, 4), ((1, 2), 24, 6, 40, 4), ((2, 1), 9, 5, 30, 4), ((0, 5), 12, 6, 30, 4), ((1, 3), 6, 5, 30, 4)],
    }
UNIONS = {'quick': [[(1, 1), (0, 3)], [(1, 1), (1, 1)]], 'thorough': [[(1, 1), (0, 3)], [(1, 1), (1, 1)], [(0, 4), (1, 1)], [(1, 1), (1, 1), (0, 3)]]}
POWERS = (1, -2, 40, -1000, 10**12, -10**40)

ASSUMPTIONS = ['number of moves polynomial in the number of bits: read as at most 5 zeta^2 (bits of the weight + 4), nine times what is needed on the unchanged tree', 'drop 0 only on laminations of small weight, for which it is meant']

def bounds(tier):
    return f'every lamination of bounded total weight on the triangulations of {SMALL[tier]} (surface, triangulations, weight, components) and {UNIONS[tier]} with drops {DROPS}; images of short laminations under all (strided) words of twists and half twists with powers {POWERS} on {LARGE[tier]} (surface, triangulations, length, stride); tracing curves from every position of every edge of every lamination within {TRACE[tier]} (surface, triangulations, total weight, stride)'

def flat(R): return [list(x) for x in R.triples]

def cases(tier):
    out = []
    for (g, n), count, length, stride in LARGE[tier]:
        ts = triangulations(g, n, 60)
        for i, t in enumerate(ts[::max(1, len(ts) // count)][:count]):
            R = labelled(t, 1 + i % 3)
            parts = 4 if tier == 'quick' else 12
            out += [{'kind': 'large', 'tri': flat(R), 'length': length, 'stride': stride * parts, 'start': stride * p + i} for p in range(parts)]
    for (g, n), count, total, size in SMALL[tier]:
        ts = triangulations(g, n, 60)
        for i, t in enumerate(ts[::max(1, len(ts) // count)][:count]):
            R = labelled(t, 1 + i % 3)
            parts = 4 if n + 2 * g > 3 else 1
            out += [{'kind': 'small', 'tri': flat(R), 'total': total, 'size': size, 'stride': parts, 'start': p} for p in range(parts)]
    for (g, n), count, total, stride in TRACE[tier]:
        ts = triangulations(g, n, 60)
        for i, t in enumerate(ts[::max(1, len(ts) // count)][:count]):
            out += [{'kind': 'trace', 'tri': flat(labelled(t, 1 + i % 3)), 'total': total, 'stride': stride, 'start': i % stride}]
    for (g, n), count, length, size, parts in SPIRAL[tier]:
        ts = triangulations(g, n, 60)
        for i, t in enumerate(ts[::max(1, len(ts) // count)][:count]):
            out += [{'kind': 'spiral', 'tri': flat(labelled(t, 1 + i % 3)), 'length': length, 'size': size, 'stride': parts, 'start': p} for p in range(parts)]
    for parts in UNIONS[tier]:
        U = disjoint_union(*[triangulations(*p)[0] for p in parts])
        out.append({'kind': 'small', 'tri': flat(U), 'total': 3, 'size': 3, 'stride': 1, 'start': 0})
        out += [{'kind': 'large', 'tri': flat(U), 'length': 2, 'stride': 12, 'start': p} for p in (0, 4, 8)]
    return out

def follow(D, e, start, limit):
    ''' The word followed from position start of e (counted from its tail) until first crossing e again in the same direction, or None if this takes too long, ends at a vertex or cannot be closed up along e. '''
    n = D.n[e]
    letter, p, word, between = e, start, [e], []
    for _ in range(limit):
        letter, p = D.step(~letter, D.n[letter] - 1 - p)
        if letter == 'end': return None
        if letter == e: return None if any(min(p, start) < q < max(p, start) for q in between) else word
        if letter == ~e: between.append(n - 1 - p)
        word.append(letter)
    return None

def run_trace(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    if case['kind'] == 'spiral': V = spirals(R, case['length'], case['size'])
    else: V = vectors(R, -1, case['total'], total=case['total'])
    for j, v in enumerate(V):
        if j % case['stride'] != case['start']: continue
        D = Diagram(R, v)
        lam = T.lamination(list(v), promote=False)
        far = sum(abs(x) for x in v) + 1 if case['kind'] == 'spiral' else 5 * case['total']
        for e in R.labels():
            for p in range(D.n[e]):
                full = follow(D, e, p, far)
                for limit in [2, far] + ([len(full), len(full) - 1] if full else []):
                    word = follow(D, e, p, limit)
                    text = lambda: f'following {v} on {R.triples} from position {p} of {e} for {limit} steps'
                    if word is None: ctx.rejects(lambda: lam.trace_curve(e, p, limit), text(), (ValueError,))
                    else:
                        got = lam.trace_curve(curver.kernel.Edge(e) if p % 2 else e, p, limit)
                        ctx.equal(list(got), strand_vector(R, ('c', tuple(word))), text)
                        ctx.check(type(got) is curver.kernel.Curve and got.triangulation == T, text)
                    ctx.step()
        ctx.state(); ctx.trace()

def spirals(R, length, size):
    ''' The images of short strands under powers of twists about short curves: their strands run many times through the same edges, in both directions. '''
    S = strands_up_to(R, length)
    C = [s for s in S if kind_of(R, s) == 'curve']
    out = {}
    for s in S:
        for c in C:
            if intersection(R, s, c):
                for k in (1, -1, 2, -3): out[tuple(vector(R, twist_multi(R, {c: 1}, k, {s: 1 + (k == 2)})))] = None
    out = sorted((v for v in out if sum(abs(x) for x in v) <= size), key=lambda v: (sum(v), v))
    return [list(v) for v in out]

def is_short(R, C):
    loops = {moves.edge_curve(R, e) for e in R.labels() if R.vertex_of(e) == R.vertex_of(~e)}
    return all(s[0] == 'e' or s in loops or kind_of(R, s) == 'peripheral' for s in C)

def types(R, C):
    return sorted((kind_of(R, s), m) for s, m in C.items())

def expected_class(R, C):
    kinds = {'arc' if kind_of(R, s) == 'arc' else 'curve' for s in C}
    one = sum(C.values()) == 1
    if kinds == {'arc'}: return 'Arc' if one else 'MultiArc'
    if kinds == {'curve'}: return 'Curve' if one else 'MultiCurve'
    return 'IntegralLamination'

def examine(ctx, T, lam, kinds, cls, drop, text):
    s, h = lam.shorten(drop) if drop != 0.1 else lam.shorten()
    ctx.check(h.source_triangulation == T and h.target_triangulation == s.triangulation, lambda: f'{text}: the mapping does not join the triangulations')
    ctx.check(list(h(lam)) == list(s), lambda: f'{text}: the mapping sends the lamination to {list(h(lam))} and not to {list(s)}')
    ctx.check(s.is_short(), lambda: f'{text}: {list(s)} is not reported short')
    S = tri_of(s.triangulation)
    C = components(S, tuple(s))
    ctx.check(is_short(S, C), lambda: f'{text}: {list(s)} on {S.triples} is not short')
    ctx.equal(types(S, C), kinds, lambda: f'{text}: components of {list(s)} on {S.triples}')
    ctx.check(type(s).__name__ == cls, lambda: f'{text}: class {type(s).__name__} instead of {cls}')
    if drop == 0: ctx.check(all(isinstance(move, (curver.kernel.EdgeFlip, curver.kernel.MultiEdgeFlip)) or move.package() is None for move in h), lambda: f'{text}: not only flips: {h.package()}')
    bits = sum(abs(x) for x in lam).bit_length()
    z = len(list(lam))
    ctx.check(len(h) <= 5 * z * z * (bits + 4), lambda: f'{text}: {len(h)} moves for a lamination of {bits} bits')
    ctx.step(len(h)); ctx.trace()
    return S, C, h

def run_small(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    for j, v in enumerate(vectors(R, -2, case['total'], total=case['total'])):
        if j % case['stride'] != case['start']: continue
        C = components(R, v)
        if len(C) > case['size']: continue
        kinds, cls = types(R, C), expected_class(R, C)
        for i, drop in enumerate(DROPS):
            if i > 1 and (j // case['stride']) % 5: continue
            text = f'shortening {v} on {R.triples} with drop {drop}'
            lam = T(v)
            ctx.equal(lam.is_short(), is_short(R, C), lambda: f'{v} on {R.triples} is short')
            examine(ctx, T, lam, kinds, cls, drop, text)
        ctx.state()
        ctx.outcome(f'{len(C)} components')

def starts(R):
    ''' Short laminations: edges, edge curves, and sums of disjoint ones with peripherals. '''
    out = [{('e', i): 1 + i % 2} for i in range(min(R.zeta, 4))]
    loops = sorted({c for c in (moves.edge_curve(R, e) for e in R.labels() if R.vertex_of(e) == R.vertex_of(~e)) if kind_of(R, c) == 'curve'} |
        {c for c in (moves.edge_curve(R, e) for e in range(R.zeta) if R.vertex_of(e) != R.vertex_of(~e)) if kind_of(R, c) == 'curve'})
    out += [{c: 1 + i % 3} for i, c in enumerate(loops[:4])]
    out += [{a: 2, b: 1} for i, a in enumerate(loops) for b in loops[:i] if intersection(R, a, b) == 0][:2]
    out += [{a: 1, ('e', i): 2} for a in loops for i in range(R.zeta) if intersection(R, a, ('e', i)) == 0][:2]
    p = canon(('c', tuple(~x for x in R.vertices()[-1])))
    out += [{c: 1, p: 3} for c in loops[:1]]
    out.append({('e', i): 1 for i in range(R.zeta)})
    return out

def run_large(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    L = [l[:2] for l in moves.letters(R, (1,)) if l[0] in ('twist', 'half')]
    W = [[]]
    words = []
    for d in range(case['length']):
        W = [w + [l + [p]] for w in W for l in L for p in POWERS if not w or w[-1][:2] != l]
        words += W
    words = words[case['start']::case['stride']]
    X = starts(R)
    for i, w in enumerate(words):
        f, _ = moves.encode(R, w)
        for x in (X[i % len(X)], X[(5 * i + 3) % len(X)]):
            big = f(T.lamination(vector(R, x), promote=False))
            lam = T(list(big))
            for drop in DROPS[:1] if i % 3 else (DROPS[0], DROPS[2], 0.01):
                S, C, h = examine(ctx, T, lam, types(R, x), expected_class(R, x), drop, f'shortening the image of {x} under {w} on {R.triples} with drop {drop}')
                # Which strands: those that h sends the images of the components to.
                want = {tuple(h(f(T.lamination(vector(R, {s: 1}), promote=False)))): m for s, m in x.items()}
                ctx.equal({tuple(vector(S, {s: 1})): m for s, m in C.items()}, want, lambda: f'components of the shortening of the image of {x} under {w} on {R.triples} with drop {drop}')
            ctx.state()
            ctx.outcome(f'{(sum(abs(y) for y in lam).bit_length() + 49) // 50 * 50} bits')

def run_case(case, ctx):
    {'small': run_small, 'large': run_large, 'trace': run_trace, 'spiral': run_trace}[case['kind']](case, ctx)
