''' C24: every ordered pair (and rotation) of queries on one object gives the answers of fresh objects, and nothing given to an operation changes. '''

import copy
import itertools
from fractions import Fraction

import numpy as np

from mc.spaces import *
from mc import moves

BATCH = 1
TECHNIQUE = 'bounded exhaustive exploration of histories: all ordered pairs of queries (and, on more objects, rotations of the whole list) on the same real object are executed and each answer is compared with that of a freshly built equal object; containers given as arguments are compared before and after'
def bounds(tier):
    return f'every ordered pair of queries on every {"20th" if tier == "quick" else ""} object and every rotation of the list of queries on all objects: laminations of ten kinds on S_1,1, S_0,4, S_1,2 and two disconnected surfaces, triangulations, mappings and mapping classes of every kind; every operation taking containers; mappings of every kind applied to all of these laminations and to homology classes; ten operations on (every third) pair of laminations in both orders'

def flat(R): return [list(x) for x in R.triples]

def surfaces():
    return [labelled(triangulations(1, 1)[0], 1), labelled(triangulations(0, 4)[2], 2), labelled(triangulations(1, 2)[3], 1), labelled(triangulations(0, 3)[1], 1),
        disjoint_union(triangulations(0, 3)[0], triangulations(1, 1)[0]), disjoint_union(triangulations(1, 1)[0], triangulations(1, 1)[0])]

def lamination_list(R):
    ''' Vectors of the laminations to query. '''
    S = strands_up_to(R, 4 if R.zeta <= 6 else 3)
    out = [[0] * R.zeta]
    arcs = [s for s in S if s[0] == 'a']
    edges = [s for s in S if s[0] == 'e']
    curves = [s for s in S if kind_of(R, s) == 'curve']
    per = [s for s in S if kind_of(R, s) == 'peripheral']
    pick = [x for x in (arcs[:2] + edges[:1] + curves[:2] + per[:1] + arcs[-1:] + curves[-1:])]
    out += [strand_vector(R, s) for s in pick]
    pairs = [(s, t) for i, s in enumerate(S) for t in S[:i] if intersection(R, s, t) == 0]
    for s, t in pairs[::max(1, len(pairs) // 6)]: out.append(vector(R, {s: 1, t: 2}))
    if curves:
        V = strand_vector(R, curves[-1])
        out.append([3 * x for x in V])
        out.append([Fraction(x, 3) for x in V])
    out.append([-1] * R.zeta)
    seen, res = set(), []
    for v in out:
        if tuple(v) not in seen: seen.add(tuple(v)); res.append(v)
    return res

def dump(v): return [str(x) for x in v]
def load(v): return [Fraction(x) if '/' in x else int(x) for x in v]

WORDS = 9

def cases(tier):
    out = []
    for k, R in enumerate(surfaces()):
        for i, v in enumerate(lamination_list(R)):
            out.append({'kind': 'lamination', 'tri': flat(R), 'v': dump(v), 'mode': 'rotate', 'step': 11 if tier == 'quick' else 1})
            if tier != 'quick' or (i + k) % 20 == 0: out.append({'kind': 'lamination', 'tri': flat(R), 'v': dump(v), 'mode': 'pairs', 'step': 1})
        out.append({'kind': 'triangulation', 'tri': flat(R), 'mode': 'pairs', 'step': 1})
        for i in range(WORDS):
            out.append({'kind': 'mapping', 'tri': flat(R), 'word': i, 'mode': 'rotate', 'step': 7 if tier == 'quick' else 1})
            if tier != 'quick' or i == k: out.append({'kind': 'mapping', 'tri': flat(R), 'word': i, 'mode': 'pairs', 'step': 1})
        out.append({'kind': 'containers', 'tri': flat(R)})
        out += [{'kind': 'apply', 'tri': flat(R), 'part': j, 'parts': 3} for j in range(3)]
        out.append({'kind': 'binary', 'tri': flat(R), 'step': 3 if tier == 'quick' else 1})
    return out

# --- Answers -----------------------------------------------------------------------------------

def show(x, depth=0):
    ''' A canonical description of an answer. '''
    k = __import__('mc.sut', fromlist=['curver']).curver.kernel
    if isinstance(x, k.Lamination): return (type(x).__name__, str(x.triangulation), tuple(str(w) for w in x))
    if isinstance(x, k.HomologyClass): return ('HC', tuple(x), str(x.triangulation))
    if isinstance(x, k.Encoding): return (type(x).__name__, str(x.source_triangulation), str(x.target_triangulation), repr(x.package()))
    if isinstance(x, k.Triangulation): return ('T', x.sig(), str(list(x)))
    if isinstance(x, np.ndarray): return ('array', x.shape, tuple(str(y) for y in x.flatten()))
    if isinstance(x, dict): return ('dict', tuple(sorted(((show(a), show(b)) for a, b in x.items()), key=repr)))
    if isinstance(x, (set, frozenset)): return ('set', tuple(sorted((show(a) for a in x), key=repr)))
    if isinstance(x, (list, tuple)): return (type(x).__name__, tuple(show(a) for a in x))
    if isinstance(x, k.FiniteSubgroup): return ('finite', show(dict(x)) if hasattr(x, 'keys') else show(x.quotient_orbifold_signature()))
    if isinstance(x, (bool, int, str, Fraction, type(None))) or x is NotImplemented: return repr(x)
    if hasattr(x, '__next__'): return ('iter', tuple(show(a) for a in itertools.islice(x, 12)))
    return (type(x).__name__, str(x))

def ask(q, obj):
    try:
        return show(q(obj))
    except Exception as error:
        return ('error', type(error).__name__, str(error)[:80])

def lamination_queries(R, T, v):
    ''' name -> query, for the lamination with the given weights. '''
    integral = all(x == int(x) for x in v)
    Q = {
        'repr': repr, 'str': str, 'weight': lambda L: L.weight(), 'hash': lambda L: hash(L), 'list': list, 'call': lambda L: [L(e) for e in L.triangulation.edges],
        'dual': lambda L: [(L.dual_weight(e), L.left_weight(e), L.right_weight(e)) for e in L.triangulation.edges],
        'dual double': lambda L: [(L.dual_weight(e, double=True), L.left_weight(e, double=True), L.right_weight(e, True)) for e in L.triangulation.edges],
        'integral': lambda L: L.is_integral(), 'promote': lambda L: L.promote(), 'empty': lambda L: L.is_empty(), 'is_peripheral': lambda L: L.is_peripheral(), 'is_non_peripheral': lambda L: L.is_non_peripheral(),
        'peripheral': lambda L: L.peripheral(), 'peripheral weak': lambda L: L.peripheral(promote=False), 'non_peripheral': lambda L: L.non_peripheral(), 'non_peripheral weak': lambda L: L.non_peripheral(promote=False),
        'double': lambda L: 2 * L, 'zero': lambda L: 0 * L, 'sum': lambda L: L + L, 'eq': lambda L: (L == L, L == T(list(v)), L != T(list(v))), 'bool': bool,
        }
    if integral:
        Q.update({
            'peripheral_components': lambda L: L.peripheral_components(), 'parallel_components': lambda L: L.parallel_components(), 'components': lambda L: L.components(), 'num': lambda L: L.num_components(),
            'skeleton': lambda L: L.skeleton(), 'peek': lambda L: L.peek_component(), 'multiarc': lambda L: L.multiarc(), 'multicurve': lambda L: L.multicurve(), 'boundary': lambda L: L.boundary(),
            'is_filling': lambda L: L.is_filling(), 'is_polygonalisation': lambda L: L.is_polygonalisation(), 'is_short': lambda L: L.is_short(), 'shorten': lambda L: L.shorten(), 'shorten flips': lambda L: L.shorten(drop=0),
            'self intersection': lambda L: L.intersection(L), 'edges': lambda L: [L.intersection(a) for a in T.edge_arcs()], 'no common': lambda L: (L.no_common_component(L), L.no_common_component(T.as_lamination())),
            'sublaminations': lambda L: L.sublaminations(), 'type': lambda L: L.topological_type(), 'closed type': lambda L: L.topological_type(closed=True),
            'component queries': lambda L: sorted(repr(c.shorten()[0]) for c in L.components()), 'component components': lambda L: [c.components() for c in L.components()],
            'distinct': lambda L: L.has_distinct_endpoints(), 'halftwist': lambda L: L.encode_halftwist(), 'is_triangulation': lambda L: L.is_triangulation(), 'vertices': lambda L: L.vertices(),
            'twist': lambda L: L.encode_twist(), 'twist -2': lambda L: L.encode_twist(power=-2), 'crush': lambda L: L.crush(), 'separating': lambda L: L.is_separating(), 'vertex_cycle': lambda L: L.vertex_cycle(),
            'union': lambda L: L.boundary_union(T.edge_arc(0)), 'fills': lambda L: L.fills_with(T.edge_arc(0)), 'slope': lambda L: L.slope(T.as_lamination()), 'parallel': lambda L: L.parallel(),
            })
    return Q

def triangulation_queries(R, T):
    C = [s for s in strands_up_to(R, 3, arcs=False)][0]
    vec = strand_vector(R, C)
    flippable = [i for i in range(R.zeta) if R.flippable(i)]
    return {
        'repr': repr, 'str': str, 'package': lambda T: T.package(), 'sig': lambda T: T.sig(), 'surface': lambda T: T.surface(), 'max_order': lambda T: T.max_order(), 'components': lambda T: T.components(),
        'connected': lambda T: T.is_connected(), 'dual_tree': lambda T: T.dual_tree(), 'dual_tree avoid': lambda T: T.dual_tree(avoid={0}), 'homology_matrix': lambda T: T.homology_matrix(), 'homology_basis': lambda T: T.homology_basis(),
        'flippable': lambda T: [T.is_flippable(e) for e in T.edges], 'square': lambda T: [T.square(i) for i in flippable], 'encodings': lambda T: sorted((show(e) for e in T.all_encodings(1)), key=repr),
        'isometries': lambda T: T.self_isometries(), 'isometries to': lambda T: T.isometries_to(T), 'isometric': lambda T: T.is_isometric_to(T), 'find': lambda T: T.find_isometry(T, {c[0]: c[0] for c in R.components()}),
        'lamination': lambda T: T(list(vec)), 'weak': lambda T: T.lamination(list(vec), promote=False), 'cut': lambda T: T.lamination_from_cut_sequence(list(C[1])), 'curve cut': lambda T: T.curve_from_cut_sequence(list(C[1])),
        'empty': lambda T: T.empty_lamination(), 'as': lambda T: T.as_lamination(), 'sum': lambda T: T.sum([T.as_lamination(), T(list(vec))]), 'disjoint': lambda T: T.disjoint_sum({T(list(vec)): 2}),
        'edge_curves': lambda T: T.edge_curves(), 'edge_arcs': lambda T: T.edge_arcs(), 'edge_homologies': lambda T: T.edge_homologies(), 'id': lambda T: T.id_encoding(), 'id isometry': lambda T: T.id_isometry(),
        'flip': lambda T: [T.encode_flip(i) for i in flippable], 'multiflip': lambda T: T.encode_multiflip({flippable[0]}), 'relabel': lambda T: T.encode_relabel_edges({i: ~i for i in range(R.zeta)}),
        'pachner': lambda T: str(T.encode_pachner_1_3().target_triangulation), 'encode': lambda T: T.encode([flippable[0]]), 'twist': lambda T: T.edge_curves()[0].encode_twist(), 'hash': lambda T: hash(T) == hash(build(R)), 'eq': lambda T: (T == build(R), build(R) == T, T != build(R)), 'list': lambda T: list(T),
        'vertices': lambda T: T.vertices, 'numbers': lambda T: (T.zeta, T.num_vertices, T.num_edges, T.num_triangles, T.euler_characteristic),
        }

def word(R, i):
    ''' The i-th word of moves to query. '''
    L = moves.letters(R, (1,))
    kinds = {}
    for l in L: kinds.setdefault(l[0], []).append(l)
    ks = sorted(kinds)
    if i < len(ks): return [kinds[ks[i]][0]]
    W = list(moves.closed_words(R, (1, 2, -1), 1))
    return W[((i - len(ks)) * 7 + 3) % len(W)]

def mapping_queries(R, T, h):
    k = __import__('mc.sut', fromlist=['curver']).curver.kernel
    C = [s for s in strands_up_to(R, 3, arcs=False)][0]
    vec = strand_vector(R, C)
    Q = {
        'repr': repr, 'str': str, 'package': lambda h: h.package(), 'len': len, 'list': lambda h: [str(m) for m in h], 'inverse': lambda h: h.inverse(), 'promote': lambda h: h.promote(), 'slice': lambda h: (h[:1], h[1:], h[0:0]),
        'eq': lambda h: (h == h, h == T.id_encoding()), 'hash': lambda h: hash(h), 'curve': lambda h: h(T(list(vec))), 'as': lambda h: h(T.as_lamination()), 'homology': lambda h: [h(c) for c in T.edge_homologies()],
        'self_image': lambda h: h.self_image(), 'intersection_matrix': lambda h: h.intersection_matrix(), 'homology_matrix': lambda h: h.homology_matrix(), 'vertex_map': lambda h: h.vertex_map(),
        'simplify': lambda h: h.simplify(), 'flip_mapping': lambda h: h.flip_mapping(), 'pl': lambda h: h.pl_action(T(list(vec))), 'combine': lambda h: h.combine_isometries(), 'product': lambda h: h * T.id_encoding(), 'undo': lambda h: h.inverse() * h,
        }
    if isinstance(h, k.MappingClass):
        Q.update({'torelli': lambda h: h.is_in_torelli(), 'order': lambda h: h.order(), 'permutation': lambda h: str(h.vertex_permutation()), 'identity': lambda h: h.is_identity(), 'periodic': lambda h: h.is_periodic(),
            'square': lambda h: h**2, 'zero': lambda h: h**0, 'minus': lambda h: h**-1, 'power': lambda h: h(T(list(vec)), power=3), 'conjugate': lambda h: h.conjugate_by(h), 'extract': lambda h: h.extract_twisting_multicurve(), 'multitwist': lambda h: h.is_multitwist(),
            })
        if h.is_periodic():
            Q.update({'subgroup': lambda h: h.subgroup().quotient_orbifold_signature(), 'polygonalisation': lambda h: h.subgroup().invariant_polygonalisation(), 'type': lambda h: h.nielsen_thurston_type(), 'is_conjugate_to': lambda h: (h.is_conjugate_to(h), h.is_conjugate_to(h**2)), 'invariant': lambda h: h.projective_invariant_lamination()})
    return Q

def run_case(case, ctx):
    R = Tri(case['tri'])
    if case['kind'] == 'containers': return containers(ctx, R)
    if case['kind'] == 'apply': return apply(ctx, R, case)
    if case['kind'] == 'binary': return binary(ctx, R, case)
    T0 = build(R)
    if case['kind'] == 'lamination':
        v = load(case['v'])
        fresh = lambda: build(R)(list(v))
        Q = lamination_queries(R, T0, v)
        state = lambda L: (type(L).__name__, tuple(L), hash(L), L.triangulation.sig())
    elif case['kind'] == 'triangulation':
        fresh = lambda: build(R)
        Q = triangulation_queries(R, T0)
        state = lambda T: (T.sig(), str(list(T)), hash(T))
    else:
        w = word(R, case['word'])
        fresh = lambda: moves.encode(R, w)[0]
        Q = mapping_queries(R, T0, fresh())
        state = lambda h: (repr(h.package()), h.source_triangulation.sig(), h.target_triangulation.sig(), str(list(h)), hash(h))
    names = list(Q)
    name = lambda: f'{case.get("v") or case.get("word")} on {R.triples}'
    want = {}
    for n in names:
        x = fresh()
        before = state(x)
        want[n] = ask(Q[n], x)
        ctx.equal(ask(Q[n], x), want[n], lambda: f'asking {n} of {name()} twice')
        ctx.equal(state(x), before, lambda: f'asking {n} changed {name()}')
    ctx.outcome(case['kind'] + ' ' + case['mode'])
    if case['mode'] == 'pairs':
        for a in names:
            for b in names:
                x = fresh()
                ask(Q[a], x)
                ctx.equal(ask(Q[b], x), want[b], lambda: f'asking {b} after {a} of {name()}')
                ctx.state(); ctx.step(2); ctx.trace()
        return
    for i in range(0, len(names), case['step']):
        for order in (names[i:] + names[:i], (names[i:] + names[:i])[::-1]):
            x = fresh()
            before = state(x)
            done = []
            for n in order:
                ctx.equal(ask(Q[n], x), want[n], lambda: f'asking {n} after {done} of {name()}')
                done.append(n)
                ctx.step()
            ctx.equal(state(x), before, lambda: f'asking everything changed {name()}')
            ctx.state(); ctx.trace()

def describe(x):
    if isinstance(x, curver.kernel.HomologyClass): return ('HC', list(x.algebraic))
    return (type(x).__name__, [str(w) for w in x], [str(w) for w in x.geometric], x.triangulation.sig(), ask(lambda L: L.components(), x))

def apply(ctx, R, case):
    ''' Applying mappings of every kind changes neither them nor what they are applied to. '''
    T = build(R)
    maps = [(l, moves.encode(R, [l])[0]) for l in moves.letters(R, (1, -1, 3))]
    pairs = [(x, y) for x in range(R.zeta) for y in range(R.zeta) if x < y and moves.disjoint_support(R, (x, y)) and R.flippable(x) and R.flippable(y)]
    maps += [(['multi', list(p)], moves.encode(R, [['multi', list(p)]])[0]) for p in pairs]
    maps += [(['simple', w], moves.encode(R, [w, ['relabel', 1]])[0]) for w in moves.letters(R, (2,))[::5]]
    curves = [s for s in strands_up_to(R, 4 if R.zeta <= 6 else 3, arcs=False) if kind_of(R, s) == 'curve'][:3]
    for c in curves:
        f = T(strand_vector(R, c)).crush()
        maps += [(['crush', c], f)]
    maps += [(['inverse', l], f.inverse()) for l, f in maps]
    for l, f in maps[case['part']::case['parts']]:
        package = repr(f.package())
        if f.source_triangulation == T: V = lamination_list(R)
        else:
            Q = tri_of(f.source_triangulation)
            V = lamination_list(Q)
        for v in V:
            for raw in (False, True):
                x = f.source_triangulation.lamination(list(v), promote=False) if raw else f.source_triangulation(list(v))
                before = describe(x)
                first = ask(f, x)
                ctx.equal(describe(x), before, lambda: f'applying {l} on {R.triples} changed the lamination')
                ctx.equal(ask(f, x), first, lambda: f'applying {l} on {R.triples} to {v} twice')
                ctx.step(2)
        for e in range(R.zeta):
            x = f.source_triangulation.edge_homology(e)
            before = describe(x)
            first = ask(f, x)
            ctx.equal(describe(x), before, lambda: f'applying {l} on {R.triples} changed the homology class')
            ctx.equal(ask(f, x), first, lambda: f'applying {l} on {R.triples} to homology class {e} twice')
        ctx.equal(repr(f.package()), package, lambda: f'applying {l} on {R.triples} changed it')
        ctx.state(); ctx.trace()
        ctx.outcome('applied ' + l[0])

def binary(ctx, R, case):
    ''' Operations on two laminations change neither of them. '''
    T = build(R)
    V = [v for v in lamination_list(R) if all(x == int(x) for x in v)]
    ops = {'intersection': lambda a, b: a.intersection(b), 'sum': lambda a, b: a + b, 'eq': lambda a, b: (a == b, a != b), 'common': lambda a, b: a.no_common_component(b), 'union': lambda a, b: a.boundary_union(b),
        'fills': lambda a, b: a.fills_with(b), 'slope': lambda a, b: a.slope(b), 'twisting': lambda a, b: a.relative_twisting(b, b), 'disjoint': lambda a, b: T.disjoint_sum([a, b, a]), 'sum twice': lambda a, b: T.sum({a: 1, b: 2})}
    j = 0
    for v in V:
        for w in V:
            j += 1
            if j % case['step']: continue
            want = {n: ask(lambda L: f(L, T(list(w))), T(list(v))) for n, f in ops.items()}
            a, b = T(list(v)), T(list(w))
            before = describe(a), describe(b)
            for n, f in list(ops.items()) + list(ops.items())[::-1]:
                ctx.equal(ask(lambda L: f(L, b), a), want[n], lambda: f'{n} of {v} and {w} on {R.triples} after other operations')
                ctx.equal((describe(a), describe(b)), before, lambda: f'{n} of {v} and {w} on {R.triples} changed them')
                ctx.step()
            ctx.state(); ctx.trace()
    ctx.outcome('binary')

def containers(ctx, R):
    from mc.sut import curver
    T = build(R)
    k = curver.kernel
    S = strands_up_to(R, 3)
    curve = [s for s in S if s[0] == 'c'][0]
    vec = strand_vector(R, curve)
    a, b = T.edge_arc(0), T(list(vec))
    flippable = [i for i in range(R.zeta) if R.flippable(i)]
    flip = R.square(flippable[0])
    gens = {'f': T.edge_curves()[0].encode_twist(), 'g': T.id_encoding()}
    iso = {c[0]: c[0] for c in R.components()}
    full = {x: x for x in R.labels()}
    perm = {i: ~i for i in range(R.zeta)}
    group = lambda: curver.kernel.MappingClassGroup(dict(gens))
    multi = T.disjoint_sum([T.edge_arc(i) for i in range(R.zeta)])
    from mc import isom
    periodic = [T.encode([dict(m)]) for m in isom.isometries(R, R)]
    calls = {
        'create_triangulation': (lambda t: curver.create_triangulation(t), [[tuple(t) for t in R.triples]]),
        'create_triangulation lists': (lambda t: curver.create_triangulation(t), [[list(t) for t in R.triples]]),
        'lamination': (lambda v: T(v), [list(vec)]), 'weak': (lambda v: T.lamination(v, promote=False), [list(vec)]), 'as_lamination': (lambda v: T(v), [[-1] * R.zeta]),
        'cut': (lambda v: T.lamination_from_cut_sequence(v), [list(curve[1])]), 'curve cut': (lambda v: T.curve_from_cut_sequence(v), [list(curve[1])]), 'intersections': (lambda v: T.cut_sequence_intersections(v), [list(curve[1])]),
        'sum': (lambda v: T.sum(v), [[a, b, a]]), 'sum dict': (lambda v: T.sum(v), [{a: 2, b: 0}]), 'sum set': (lambda v: T.sum(v), [{a, b}]),
        'disjoint_sum': (lambda v: T.disjoint_sum(v), [[a, a]]), 'disjoint_sum dict': (lambda v: T.disjoint_sum(v), [{b: 3, a: 0}]), 'disjoint_sum empty': (lambda v: T.disjoint_sum(v), [{T.empty_lamination(): 2, a: 1}]),
        'dual_tree': (lambda v: T.dual_tree(avoid=v), [{0}]), 'dual_tree empty': (lambda v: T.dual_tree(avoid=v), [set()]),
        'find_isometry': (lambda v: T.find_isometry(T, v), [dict(iso)]), 'find_isometry full': (lambda v: T.find_isometry(T, v), [dict(full)]),
        'relabel': (lambda v: T.encode_relabel_edges(v), [dict(perm)]), 'relabel partial': (lambda v: T.encode_relabel_edges(v), [{i: i for i in range(R.zeta)}]),
        'encode': (lambda v: T.encode(v), [[flippable[0]]]), 'encode isometry': (lambda v: T.encode(v), [[dict(full)]]), 'encode partial': (lambda v: T.encode(v), [[dict(iso)]]), 'encode multiflip': (lambda v: T.encode(v), [[{flippable[0]}]]),
        'encode mixed': (lambda v: T.encode(v), [[T.encode_flip(flippable[0]), dict(iso)]]), 'encode_multiflip': (lambda v: T.encode_multiflip(v), [{flippable[0]}]), 'encode_multiflip list': (lambda v: T.encode_multiflip(v), [[flippable[0]]]),
        'pachner': (lambda v: T.encode_pachner_1_3(v), [[T.triangles[0]]]), 'homology': (lambda v: k.HomologyClass(T, v), [[1] + [0] * (R.zeta - 1)]), 'intersection': (lambda v: a.intersection(*v), [[b, a]]),
        'group': (lambda v: k.MappingClassGroup(v), [dict(gens)]), 'group list': (lambda v: k.MappingClassGroup(v), [list(gens.values())]), 'word': (lambda v: group().mapping_class(v), ['f.g']),
        'cayley': (lambda v: list(group().cayley(v, 2)), [['f', 'g']]), 'random_word': (lambda v: group().random_word(3, letters=v), [['f', 'g']]),
        'from_generators': (lambda v: k.FiniteSubgroup.from_generators(v), [{'a': periodic[-1]}]), 'finite': (lambda v: k.FiniteSubgroup(v, [0]), [{0: T.id_encoding()}]), 'finite generators': (lambda v: k.FiniteSubgroup({0: T.id_encoding()}, v), [[0]]),
        'encoding': (lambda v: k.Encoding(v), [list(T.encode([dict(full), flippable[0]]).sequence)]), 'mapping': (lambda v: k.Mapping(v), [[T.id_isometry(), T.id_isometry()]]),
        'invariant': (lambda v: gens['f'].projective_invariant_lamination(curves=v), [[b] if isinstance(b, k.Curve) else []]), 'slp': (lambda v: k.StraightLineProgram(v), [[1, 2]]), 'union find': (lambda v: k.UnionFind(v), [[1, 2]]), 'permutation': (lambda v: k.Permutation(v), [[1, 0]]),
        'permutation dict': (lambda v: k.Permutation.from_dict(v, ordering=[1, 2]), [{1: 2, 2: 1}]), 'product': (lambda v: k.utilities.product(v), [[3, 4]]), 'cyclic_slice': (lambda v: k.utilities.cyclic_slice(v, 1, 2), [[1, 3, 2]]), 'maximin': (lambda v: k.utilities.maximin([0], v), [[3, 4]]),
        'sublaminations of': (lambda v: [x.sublaminations() for x in v], [[a, b]]), 'apply': (lambda v: [gens['f'](x) for x in v], [[a, b, multi]]), 'triangles': (lambda v: T.lamination(v), [tuple(vec)]),
        }
    for name, (f, args) in calls.items():
        arg = args[0]
        ref = copy.copy(arg) if not isinstance(arg, list) else [copy.copy(x) if isinstance(x, (list, dict, set)) else x for x in arg]
        described = show_arg(arg)
        try:
            result = f(arg)
            first = show(result)
        except ValueError:
            result = first = None
        ctx.equal(show_arg(arg), described, lambda: f'{name} changed its argument')
        ctx.check(type(arg) is type(ref) and len(arg) == len(ref), lambda: f'{name} changed its argument')
        if name != 'random_word':
            try: again = show(f(arg))
            except ValueError: again = None
            ctx.equal(again, first, lambda: f'{name} gave different answers')
        ctx.state(); ctx.trace(); ctx.step()
        ctx.outcome('containers')

def show_arg(x):
    if isinstance(x, dict): return ('dict', [(show(a) if not isinstance(a, int) else a, show(b) if not isinstance(b, int) else b) for a, b in x.items()])
    if isinstance(x, list): return ('list', [show_arg(y) for y in x])
    if isinstance(x, set): return show(x)
    return show(x)
