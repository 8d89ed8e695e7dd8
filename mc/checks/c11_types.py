''' C11: topological types of all bounded laminations on all triangulations, against isomorphism of the cut surfaces in the model. '''

import warnings

import networkx

from mc.spaces import *
from itertools import combinations

from mc import surgery
from mc.ref import intersection, vector

BATCH = 1
warnings.filterwarnings("ignore", message="The hashes produced")
# (surface, triangulations per case, total weight, components, stride)
OPEN = {
    'quick': [((0, 3), 9, 6, 4, 1), ((1, 1), 2, 8, 4, 1), ((0, 4), 6, 3, 6, 1), ((1, 2), 5, 3, 6, 1), ((0, 4), 6, 6, 6, 19), ((1, 2), 5, 6, 6, 19), ((0, 5), 8, 5, 9, 111), ((2, 1), 9, 5, 9, 131), ((1, 3), 10, 5, 9, 307)],
    'thorough': [((0, 3), 9, 9, 4, 1), ((1, 1), 2, 12, 4, 1), ((0, 4), 6, 5, 6, 1), ((1, 2), 5, 5, 6, 1), ((0, 4), 6, 9, 6, 11), ((1, 2), 5, 9, 6, 11), ((0, 5), 20, 6, 9, 17), ((2, 1), 9, 6, 9, 17), ((1, 3), 30, 6, 9, 47), ((0, 6), 20, 5, 12, 97), ((2, 2), 20, 5, 12, 97)],
    }
CLOSED = {
    'quick': [((1, 1), 1, 14, 3, 1), ((2, 1), 9, 8, 4, 7)],
    'thorough': [((1, 1), 1, 20, 3, 1), ((2, 1), 9, 10, 5, 3), ((3, 1), 6, 6, 5, 5)],
    }
# Closed types of systems of boundaries of sets of edges: (components, triangulations, curves, highest multiplicity, stride)
SYSTEMS = {
    'quick': [([(2, 1)], 9, 3, 2, 67), ([(1, 1), (1, 1)], 1, 4, 2, 1), ([(1, 1), (2, 1)], 1, 3, 2, 73), ([(3, 1)], 2, 2, 1, 31)],
    'thorough': [([(2, 1)], 9, 4, 2, 1), ([(1, 1), (1, 1)], 1, 4, 3, 1), ([(1, 1), (2, 1)], 1, 4, 2, 7), ([(3, 1)], 6, 3, 2, 97)],
    }
UNIONS = {'quick': [[(1, 1), (1, 1)], [(0, 3), (0, 3)], [(0, 3), (1, 1)]], 'thorough': [[(1, 1), (1, 1)], [(0, 3), (0, 3)], [(0, 3), (1, 1)], [(0, 3), (0, 4)], [(1, 1), (0, 3), (1, 1)]]}

def bounds(tier):
    return f'all laminations with weights of bounded total on {OPEN[tier]} (surface, triangulations, total, components, stride) and {UNIONS[tier]}; all pairs of these; closed types {CLOSED[tier]} and of systems of boundary curves of sets of at most two edges {SYSTEMS[tier]} (components, triangulations, curves, multiplicity, stride)'

def flat(R): return [list(x) for x in R.triples]

def cases(tier):
    out = []
    for kind, plan in (('open', OPEN), ('closed', CLOSED)):
        for (g, n), count, total, size, stride in plan[tier]:
            ts = triangulations(g, n, 60)
            tris = [flat(labelled(t, i % 3)) for i, t in enumerate(ts[::max(1, len(ts) // count)][:count])]
            parts = 8 if n + 2 * g > 3 else 2
            for p in range(parts): out.append({'kind': kind, 'tris': tris, 'total': total, 'size': size, 'stride': stride * parts, 'start': stride * p})
    for parts in UNIONS[tier]:
        ts = [disjoint_union(*[triangulations(*p)[0] for p in parts]), disjoint_union(*[labelled(triangulations(*p)[-1], 1) for p in reversed(parts)])]
        for p in range(4): out.append({'kind': 'open', 'tris': [flat(t) for t in ts], 'total': 5, 'size': 6, 'stride': 28 if tier == 'quick' else 8, 'start': 2 * p})
        if all(n == 1 for _, n in parts): out.append({'kind': 'closed', 'tris': [flat(t) for t in ts], 'total': 8, 'size': 6, 'stride': 3, 'start': 0})
    for parts, count, size, most, stride in SYSTEMS[tier]:
        if len(parts) > 1: ts = [disjoint_union(*[triangulations(*p)[0] for p in parts]).triples]
        else: ts = triangulations(*parts[0], 40)[:count]
        split = 4 if len(ts) > 1 else 2
        for p in range(split): out.append({'kind': 'systems', 'tris': [flat(labelled(t, i % 3)) for i, t in enumerate(ts)], 'size': size, 'most': most, 'stride': stride * split, 'start': stride * p})
    return out

def boundary_systems(R, size, most):
    ''' All weight vectors of systems of disjoint boundary curves of sets of at most two edges, with multiplicities. '''
    curves = list(dict.fromkeys(c for k in (1, 2) for E in combinations(range(R.zeta), k) for c in surgery.boundary_of_arcs(R, [('e', e) for e in E]) if c[0] == 'c'))
    out = []
    def rec(start, system):
        for i in range(start, len(curves)):
            if any(intersection(R, curves[i], c) for c, _ in system): continue
            for m in range(1, most + 1):
                new = system + [(curves[i], m)]
                out.append(vector(R, dict(new)))
                if len(new) < size: rec(i + 1, new)
    rec(0, [])
    return out

# --- The model -----------------------------------------------------------------------------------------

class Cut:
    ''' The surface cut along a lamination, as a coloured directed graph. '''
    def __init__(self, graph):
        self.G = graph
        self.hash = networkx.weisfeiler_lehman_graph_hash(graph, node_attr='colour', iterations=4)
    def same(self, other):
        return self.hash == other.hash and networkx.is_isomorphic(self.G, other.G, node_match=lambda a, b: a['colour'] == b['colour'])

def cut(R, comps, closed):
    G = networkx.DiGraph()
    rs = [[r.genus, len(r.punctures), [list(owners) if spikes else owners[:1] for _, owners, spikes in r.cycles]] for r in surgery.regions(R, comps)]
    mult = dict(comps)
    if closed:
        for r in rs: r[1] = 0
        while True:
            # Remove discs (with the trivial curve around them) and merge annuli between different curves.
            disc = next((r for r in rs if not r[0] and len(r[2]) == 1), None)
            tube = next((r for r in rs if not r[0] and len(r[2]) == 2 and r[2][0] != r[2][1]), None)
            if disc is not None:
                c = disc[2][0]
                rs.remove(disc)
                other = next(r for r in rs if c in r[2])
                other[2].remove(c)
                del mult[c[0]]
            elif tube is not None:
                a, b = tube[2]
                rs.remove(tube)
                other = next(r for r in rs if b in r[2])
                other[2][other[2].index(b)] = a
                mult[a[0]] += mult.pop(b[0])
            else: break
    for i, (genus, punctures, cycles) in enumerate(rs):
        G.add_node(('region', i), colour=f'region {genus} {punctures}')
        for j, owners in enumerate(cycles):
            G.add_node(('cycle', i, j), colour='cycle')
            G.add_edge(('region', i), ('cycle', i, j))
            for k, s in enumerate(owners):
                G.add_node(('side', i, j, k), colour='side')
                G.add_edge(('cycle', i, j), ('side', i, j, k))
                if s[0] != 'c': G.add_edge(('side', i, j, k), ('side', i, j, (k + 1) % len(owners)))
                G.add_node(s, colour=f'{s[0] == "c"} {mult[s]}')
                G.add_edge(s, ('side', i, j, k))
    for s in mult: assert G.out_degree(s) == 2, (R.triples, comps, rs)
    return Cut(G)

def run_case(case, ctx):
    closed = case['kind'] != 'open'
    classes, buckets = [], {}  # [(cut, type, example)]
    for tri in case['tris']:
        R = Tri(tri)
        T = build(R)
        V = boundary_systems(R, case['size'], case['most']) if case['kind'] == 'systems' else list(vectors(R, -2 if not closed else 0, case['total'], total=case['total']))
        if case['kind'] == 'closed': V = [v for v in V if not any(Diagram(R, v).term.values())]
        for v in V[case['start']::case['stride']]:
            C = components(R, v)
            if case['kind'] != 'systems' and len(C) > case['size']: continue
            if closed and any(kind_of(R, s) == 'arc' for s in C): continue
            X = cut(R, C, closed)
            lam = T(v)
            t = lam.topological_type(closed=True) if closed else lam.topological_type()
            found = None
            for i in buckets.setdefault(X.hash, []):
                if classes[i][0].same(X): found = i
            for i, (Y, u, example) in enumerate(classes):
                ctx.check((t == u) == (i == found), lambda: f'{"closed " if closed else ""}topological types of {v} on {R.triples} and {example[1]} on {example[0]}: ' + (f'equal ({t}) although the laminations are not equivalent' if t == u else f'{t} and {u} differ although the laminations are equivalent'))
            ctx.step(len(classes))
            if found is None:
                buckets[X.hash].append(len(classes))
                classes.append((X, t, (R.triples, v)))
                ctx.outcome('class')
            ctx.state(); ctx.trace()
    # What the closed version refuses.
    if case['start'] == 0 and not closed:
        for tri in case['tris']:
            R = Tri(tri)
            T = build(R)
            arc = T.edge_arc(0)
            if any(n > 1 for _, n, _ in R.surface().values()):
                ctx.rejects(lambda: T.empty_lamination().topological_type(closed=True), lambda: f'closed type on {R.triples} with several punctures', (ValueError,))
            ctx.rejects(lambda: arc.topological_type(closed=True), lambda: f'closed type of an arc on {R.triples}', (ValueError,))
