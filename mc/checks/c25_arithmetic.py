''' C25: every way of adding and scaling bounded laminations, against vector arithmetic and explicit strand tracing. '''

from collections import Counter
from fractions import Fraction
from itertools import product, combinations_with_replacement, islice

from mc.spaces import *
from mc.checks.c07_components import compare

SURFACES = {
    'quick': [((0, 3), 3, 2, 1), ((1, 1), 3, 4, 2), ((0, 4), 2, 4, 1), ((1, 2), 2, 3, 1)],
    'thorough': [((0, 3), 3, 3, 3), ((1, 1), 5, 6, 3), ((0, 4), 4, 6, 3), ((1, 2), 4, 6, 3), ((2, 1), 2, 4, 1), ((0, 5), 2, 4, 1)],
    }
UNIONS = [[(1, 1), (1, 1)], [(0, 3), (1, 1)]]

def bounds(tier):
    return f'(surface, arc length, curve length, labellings) in {SURFACES[tier]} on all triangulations and unions {UNIONS}: all pairs, all systems of at most 3 disjoint strands with multiplicities 0..3 in every container, all factors 0..4, all edges; all vectors of half integers from -1 to 5/2 on S_{0,3} and S_{1,1} (strided on two larger surfaces)'

def cases(tier):
    out = []
    for (g, n), al, cl, ks in SURFACES[tier]:
        for t in triangulations(g, n):
            for k in range(ks):
                base = {'tri': [list(x) for x in labelled(t, k + 1).triples], 'al': al, 'cl': cl, 'tier': tier}
                for kind in ('pairs', 'systems', 'basic'): out.append({'kind': kind, **base})
    for parts in UNIONS:
        R = disjoint_union(*[triangulations(*p)[0] for p in parts])
        base = {'tri': [list(x) for x in R.relabel(relabelling(R.zeta, 1)).triples], 'al': 1, 'cl': 2, 'tier': tier}
        for kind in ('pairs', 'systems', 'basic'): out.append({'kind': kind, **base})
    for S in [(0, 3), (1, 1), (0, 4), (1, 2)]:
        for i, t in enumerate(triangulations(*S)[:6 if tier == 'quick' else 30]): out.append({'kind': 'halves', 'tri': [list(x) for x in labelled(t, 1 + i % 3).triples], 'tier': tier})
    return out

def halves(case, R, T, ctx):
    ''' Every vector of half integers within bounds: integral exactly when each strand of its double has even multiplicity. '''
    if R.zeta == 3: vectors = product(range(-2, 6 if case['tier'] == 'quick' else 9), repeat=3)
    else: vectors = islice(product((0, 1, 2, -1), repeat=6), 0, None, 17 if case['tier'] == 'quick' else 3)
    for d in vectors:
        d = list(d)
        half = [Fraction(x, 2) for x in d]
        C = components(R, d) if ref.Diagram.valid(R, d) else None
        L = T(half)
        ctx.equal(list(L), half, 'weights')
        if C is not None and all(m % 2 == 0 for m in C.values()):
            check_vector(R, T, L, [x // 2 for x in d], ctx, lambda: f'{half}')
            continue
        ctx.check(type(L) is curver.kernel.Lamination, lambda: f'{half} is not integral but is a {type(L).__name__}')
        ctx.check(type(L * Fraction(1, 3)) is curver.kernel.Lamination, lambda: f'a third of {half} is a {type(L * Fraction(1, 3)).__name__}')
        if C is not None:
            check_vector(R, T, L * 2, d, ctx, lambda: f'{half} * 2')
            check_vector(R, T, L + L, d, ctx, lambda: f'{half} + {half}')
        ctx.step()

def edge_curve_word(R, e):
    ''' The boundary of a neighbourhood of the edge e: for an edge joining a vertex to itself, the side that we see anticlockwise from e to ~e. '''
    def around(x, stop):  # The outgoing labels strictly after x up to (excluding) stop, anticlockwise.
        out, y = [], ~R.prv[x]
        while y != stop:
            out.append(y)
            y = ~R.prv[y]
        return out
    if R.vertex_of(e) == R.vertex_of(~e): cut = around(e, ~e)
    else: cut = around(e, e) + around(~e, ~e)
    # Walking anticlockwise about a vertex we cross its outgoing labels from right to left: that is, through ~y.
    return canon(('c', reduce_cyclic_([~y for y in cut])))

reduce_cyclic_ = ref.reduce_cyclic

def pool_of(R, case):
    P = pool(R, case['al'], case['cl'])
    e = [s for s in P if s[0] == 'e']
    a = [s for s in P if s[0] == 'a']
    c = [s for s in P if s[0] == 'c']
    if case['tier'] == 'quick' and case['kind'] == 'systems': return e[:3] + a[:2] + c[:4]
    if case['tier'] == 'quick': return e[:3] + a[:4] + c[:6]
    return e[:6] + a[:8] + c[:10]

def add(v, w): return [x + y for x, y in zip(v, w)]

def combine(R, comps):
    ''' The components of a weighted sum of disjoint strands. '''
    return {s: m for s, m in comps.items() if m}

def check_vector(R, T, L, v, ctx, message):
    ''' L is the correctly classified lamination with (integral) weights v. '''
    ctx.equal(list(L), list(v), message)
    C = components(R, v)
    K = curver.kernel
    kinds = {kind_of(R, s) for s in C}
    total = sum(C.values())
    if not C: ok = isinstance(L, K.IntegralLamination)
    elif kinds == {'arc'}: ok = isinstance(L, K.MultiArc) and isinstance(L, K.Arc) == (total == 1)
    elif 'arc' not in kinds: ok = isinstance(L, K.MultiCurve) and isinstance(L, K.Curve) == (total == 1)
    else: ok = isinstance(L, K.IntegralLamination) and not isinstance(L, (K.MultiArc, K.MultiCurve))
    ctx.check(ok, lambda: f'{message() if callable(message) else message}: class {type(L).__name__} for {v} with {total} components of kinds {sorted(kinds)}')
    got = {tuple(c): m for c, m in L.components().items()}
    ctx.equal(got, {tuple(strand_vector(R, s)): m for s, m in C.items()}, lambda: f'components of the sum {list(v)}')
    ctx.check(L.triangulation == T, 'sum on another triangulation')
    ctx.state(); ctx.trace()

def run_case(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    K = curver.kernel
    if case['kind'] == 'halves': return halves(case, R, T, ctx)
    S = pool_of(R, case)
    V = [strand_vector(R, s) for s in S]
    L = [T(v) for v in V]
    if case['kind'] == 'pairs':
        for i in range(len(S)):
            for j in range(len(S)):
                v = add(V[i], V[j])
                if not ref.Diagram.valid(R, v): continue
                check_vector(R, T, L[i] + L[j], v, ctx, lambda: f'{V[i]} + {V[j]}')
                if i <= j:
                    check_vector(R, T, T.sum([L[i], L[j]]), v, ctx, lambda: f'sum of the list [{V[i]}, {V[j]}]')
                    w = add([2 * x for x in V[i]], [3 * x for x in V[j]])
                    if i != j and ref.Diagram.valid(R, w): check_vector(R, T, T.sum({L[i]: 2, L[j]: 3}), w, ctx, lambda: f'sum of 2, 3 times {V[i]}, {V[j]}')
                ctx.step()
        return
    if case['kind'] == 'systems':
        D = disjointness(R, S)
        for size in (1, 2, 3):
            for c in systems(R, S, size):
                mults = {1: [(0,), (1,), (2,), (3,)], 2: [(1, 1), (2, 1), (0, 1), (1, 0), (0, 0), (3, 2)], 3: [(1, 1, 1), (1, 0, 2), (0, 1, 0)]}[size]
                if case['tier'] == 'quick' and size == 3: mults = [mults[sum(c) % 3]]
                for ms in mults:
                    v = [sum(m * V[i][k] for m, i in zip(ms, c)) for k in range(R.zeta)]
                    name = lambda: f'{dict(zip(c, ms))} of {V}'
                    check_vector(R, T, T.disjoint_sum({L[i]: m for i, m in zip(c, ms)}), v, ctx, lambda: 'disjoint_sum of dictionary ' + name())
                    flat = [L[i] for i, m in zip(c, ms) for _ in range(m)]
                    form = (sum(c) + sum(ms)) % 3
                    again = [list(flat), tuple(flat), iter(flat)][form]
                    check_vector(R, T, T.disjoint_sum(again), v, ctx, lambda: f'disjoint_sum of iterable (form {form}) ' + name())
                    again = [iter(flat), list(flat), tuple(flat)][form]
                    check_vector(R, T, T.sum(again), v, ctx, lambda: f'sum of iterable (form {form}) ' + name())
                    check_vector(R, T, T.sum({L[i]: m for i, m in zip(c, ms)}), v, ctx, lambda: 'sum of dictionary ' + name())
                    # Sums of sums, including mixed laminations and the empty lamination.
                    if size > 1 and all(ms):
                        part = T.disjoint_sum({L[i]: m for i, m in zip(c[:2], ms[:2])})
                        rest = T.disjoint_sum({L[i]: m for i, m in zip(c[2:], ms[2:])})
                        check_vector(R, T, T.disjoint_sum([part, rest, T.empty_lamination()]), v, ctx, lambda: 'disjoint_sum of parts ' + name())
                        check_vector(R, T, T.disjoint_sum({part: 2, rest: 2}), [2 * x for x in v], ctx, lambda: 'disjoint_sum of doubled parts ' + name())
                        check_vector(R, T, T.disjoint_sum([part, part]), [2 * sum(m * V[i][k] for m, i in zip(ms[:2], c[:2])) for k in range(R.zeta)], ctx, lambda: 'disjoint_sum of a part with itself ' + name())
                        for k in (0, 1, 2, 4):
                            check_vector(R, T, part * k, [k * sum(m * V[i][x] for m, i in zip(ms[:2], c[:2])) for x in range(R.zeta)], ctx, lambda: f'part * {k} ' + name())
                    ctx.step()
        return
    # Scaling, edges, errors.
    zero = [0] * R.zeta
    for i in range(len(S)):
        for k in (0, 1, 2, 3, 10**12):
            check_vector(R, T, L[i] * k, [k * x for x in V[i]], ctx, lambda: f'{V[i]} * {k}') if k < 100 else ctx.equal(list(L[i] * k), [k * x for x in V[i]], 'big multiple')
            ctx.equal(k * L[i], L[i] * k, lambda: f'{k} * {V[i]}')
            ctx.check(type(k * L[i]) is type(L[i] * k), 'left and right multiples have different classes')
        check_vector(R, T, (L[i] * 2) * 3, [6 * x for x in V[i]], ctx, 'iterated multiple')
        check_vector(R, T, L[i] * 0 + L[i], V[i], ctx, 'adding an empty multiple')
        check_vector(R, T, T.empty_lamination() + L[i], V[i], ctx, 'adding the empty lamination')
        ctx.rejects(lambda: L[i] * -1, f'{V[i]} * -1')
        ctx.rejects(lambda: T.sum({L[i]: -1}), f'sum of -1 times {V[i]}', (ValueError,))
        ctx.rejects(lambda: T.disjoint_sum({L[i]: -1}), f'disjoint_sum of -1 times {V[i]}', (ValueError,))
        ctx.rejects(lambda: L[i] + 1, f'{V[i]} + 1', (TypeError,))
        # Real laminations.
        for f in (Fraction(1, 2), Fraction(3, 7), Fraction(5, 1)):
            raw = K.Lamination(T, [x * Fraction(1, 3) for x in V[i]])
            ctx.equal(list(raw * f), [x * f / 3 for x in V[i]], lambda: f'{V[i]}/3 * {f}')
            ctx.equal(list(raw + raw), [x * Fraction(2, 3) for x in V[i]], lambda: f'{V[i]}/3 + {V[i]}/3')
            ctx.equal(list(T.sum({raw: 2})), [x * Fraction(2, 3) for x in V[i]], lambda: f'2 * {V[i]}/3')
            ctx.equal(list(T.disjoint_sum([raw, raw])), [x * Fraction(2, 3) for x in V[i]], lambda: f'disjoint_sum of {V[i]}/3 twice')
        back = K.Lamination(T, [x * Fraction(1, 2) for x in V[i]])
        check_vector(R, T, back + back, V[i], ctx, 'two halves')
        check_vector(R, T, back * 2, V[i], ctx, 'twice a half')
        check_vector(R, T, T.sum([back, back]), V[i], ctx, 'sum of two halves')
        check_vector(R, T, T.disjoint_sum([back, back]), V[i], ctx, 'disjoint sum of two halves')
        # Equality and hashing.
        for same in (T(tuple(V[i])), T({k: x for k, x in enumerate(V[i]) if x}), T(iter(V[i])) if False else T(list(V[i])), T([Fraction(x) for x in V[i]])):
            ctx.check(same == L[i] and not same != L[i] and hash(same) == hash(L[i]), lambda: f'equal laminations {V[i]} differ')
        for j in range(len(S)): ctx.equal(L[i] == L[j], V[i] == V[j], lambda: f'equality of {V[i]} and {V[j]}')
        ctx.check(L[i] != V[i] and L[i] != None and not L[i] == 'x', 'lamination equals a non lamination')  # noqa: E711
        for x in R.labels():
            ctx.equal(L[i](x), V[i][max(x, ~x)], lambda: f'weight of {V[i]} on {x}')
            ctx.equal(L[i](K.Edge(x)), V[i][max(x, ~x)], lambda: f'weight of {V[i]} on the edge {x}')
        ctx.equal(L[i].weight(), sum(max(x, 0) for x in V[i]), lambda: f'weight of {V[i]}')
        Dg = ref.Diagram(R, V[i])
        for x in R.labels():  # dual_weight(x) counts the strands about the corner opposite x; terminal ones negatively.
            want = Dg.wt[R.prv[x]] if not Dg.term[R.prv[x]] else -Dg.term[R.prv[x]]
            ctx.equal(L[i].dual_weight(x), want, lambda: f'dual weight of {V[i]} on {x}')
            ctx.equal(L[i].left_weight(x), Dg.wt[x] if not Dg.term[x] else -Dg.term[x], lambda: f'left weight of {V[i]} on {x}')
            y = R.nxt[x]
            ctx.equal(L[i].right_weight(x), Dg.wt[y] if not Dg.term[y] else -Dg.term[y], lambda: f'right weight of {V[i]} on {x}')
    for bad in ([1] * (R.zeta + 1), [1] * (R.zeta - 1), []): ctx.rejects(lambda: T(bad), f'{len(bad)} weights')
    check_vector(R, T, T.empty_lamination(), zero, ctx, 'empty_lamination')
    check_vector(R, T, T.as_lamination(), [-1] * R.zeta, ctx, 'as_lamination')
    for x in R.labels():
        want = strand_vector(R, edge_curve_word(R, x))
        for arg in (x, K.Edge(x)):
            check_vector(R, T, T.edge_curve(arg), want, ctx, lambda: f'edge_curve({x})')
            check_vector(R, T, T.edge_arc(arg), strand_vector(R, ('e', max(x, ~x))), ctx, lambda: f'edge_arc({x})')
    ctx.equal(sorted(map(list, T.edge_curves())), sorted(strand_vector(R, edge_curve_word(R, x)) for x in R.labels()), 'edge_curves')
    ctx.equal([list(a) for a in T.edge_arcs()], [strand_vector(R, ('e', i)) for i in range(R.zeta)], 'edge_arcs')
    for cyc in T.vertices:
        labels = [e.label for e in cyc]
        v = [labels.count(i) + labels.count(~i) for i in range(R.zeta)]
        check_vector(R, T, T.curve_from_cut_sequence(cyc), v, ctx, lambda: f'curve about the vertex {cyc}')
        check_vector(R, T, T.lamination_from_cut_sequence(cyc), v, ctx, lambda: f'lamination about the vertex {cyc}')
    # Another triangulation.
    x = next((x for x in range(R.zeta) if R.flippable(x)), None)
    if x is not None:
        R2 = R.flip(x)
        if R2 != R:
            T2 = build(R2)
            for i in range(min(3, len(S))):
                other = T2.edge_arc(0)
                ctx.rejects(lambda: L[i] + other, 'sum across triangulations', (ValueError,))
                ctx.rejects(lambda: T.sum([L[i], other]), 'sum across triangulations', (ValueError,))
                ctx.rejects(lambda: T.disjoint_sum([L[i], other]), 'disjoint sum across triangulations', (ValueError,))
                ctx.rejects(lambda: T2.disjoint_sum({L[i]: 1}), 'disjoint sum on another triangulation', (ValueError,))
                ctx.check(T2(list(L[i])) != L[i] if ref.Diagram.valid(R2, V[i]) else True, 'laminations on different triangulations are equal')
