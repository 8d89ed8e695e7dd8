''' Cutting surfaces along strands: complementary regions of disjoint systems, and boundaries of neighbourhoods of crossing ones. '''

from functools import cmp_to_key

from mc.ref import Diagram, canon, reduce_cyclic, strand_vector, vector, is_peripheral_word, inv, arc_ends, oriented_arc_data, kind_of, _rank, chords

class Region:
    ''' A component of the complement of a system, with the vertices truncated.

    cycles: list of (word, sides, spikes, owners) one for each boundary cycle that is not just a puncture, where word is the (cyclically reduced) curve parallel
    to it, owners lists the strands (or cut edges) met in order and spikes counts the ideal vertices.
    punctures: the indices of the vertices in its interior. '''
    def __init__(self, chi, cycles, punctures, triangles):
        self.chi, self.cycles, self.punctures, self.triangles = chi, cycles, punctures, triangles
        self.boundaries = len(cycles)
        self.genus2 = 2 - chi - len(cycles) - len(punctures)
        assert self.genus2 % 2 == 0 and self.genus2 >= 0
        self.genus = self.genus2 // 2

def regions(R, system):
    ''' The complementary regions of a set of disjoint strands (one copy of each). '''
    D = Diagram(R, vector(R, {s: 1 for s in system}))
    cut = {s[1] for s in system if s[0] == 'e'}
    owner = {}
    for kind, pts in D.strands():
        name = canon((kind, tuple(x for x, _ in pts)))
        for x, p in pts: owner[(x, p)] = owner[(~x, D.n[x] - 1 - p)] = name
    pieces, where = [], {}
    todo = [(x, p) for x in R.labels() for p in range(D.n[x] + 1)]
    for start in todo:
        if ('seg',) + start in where: continue
        items, (x, p) = [], start
        while True:
            where[('seg', x, p)] = (len(pieces), len(items))
            items.append(('seg', x, p))
            # Now at the anticlockwise end of this segment.
            if p < D.n[x]:
                items.append(('strand', owner[(x, p)]))
                kind, q = _chord(R, D, x, p)
                if kind == 'corner':
                    c = q
                    items.append(('corner', c))
                    # Arrived along the strand at x, p (x == nxt[c]): the next strand is p - 1.
                    if p - 1 >= D.wt[x]:
                        items.append(('strand', owner[(x, p - 1)]))
                        x, p = x, p
                    else:
                        x, p = c, 0
                else:
                    x, p = kind, q + 1
            else:
                c = R.nxt[x]
                items.append(('corner', c))
                if D.term[c]:
                    y = R.nxt[c]
                    hi = D.wt[y] + D.term[c] - 1
                    items.append(('strand', owner[(y, hi)]))
                    x, p = y, hi + 1
                else:
                    x, p = c, 0
            if (x, p) == start: break
        pieces.append(items)
    # Glue.
    parent = list(range(len(pieces)))
    def find(i):
        while parent[i] != i: i = parent[i]
        return i
    glued = {}
    for (_, x, p), (i, _) in where.items():
        if max(x, ~x) in cut: continue
        if x >= 0:
            j, _ = where[('seg', ~x, D.n[x] - p)]
            a, b = find(i), find(j)
            glued.setdefault(i, 0)
            glued[i] += 1
            if a != b: parent[a] = b
    groups = {}
    for i in range(len(pieces)): groups.setdefault(find(i), []).append(i)
    cycles_of = {}
    seen = set()
    for i, items in enumerate(pieces):
        for k, item in enumerate(items):
            if (i, k) in seen or (item[0] == 'seg' and max(item[1], ~item[1]) not in cut): continue
            word, met = [], []
            a, b = i, k
            while True:
                seen.add((a, b))
                it = pieces[a][b]
                if it[0] == 'seg': met.append(('strand', ('e', max(it[1], ~it[1]))))
                else: met.append(it)
                # Move on.
                b = (b + 1) % len(pieces[a])
                while pieces[a][b][0] == 'seg' and max(pieces[a][b][1], ~pieces[a][b][1]) not in cut:
                    _, x, p = pieces[a][b]
                    word.append(x)
                    a, b = where[('seg', ~x, D.n[x] - p)]
                    b = (b + 1) % len(pieces[a])
                if (a, b) == (i, k): break
            cycles_of.setdefault(find(i), []).append((tuple(word), met))
    out = []
    for root, members in groups.items():
        chi = len(members) - sum(glued.get(i, 0) for i in members)
        cycles, punctures = [], []
        for word, met in cycles_of[root]:
            if all(it[0] == 'corner' for it in met):
                punctures.append(R.vertex_of(met[0][1]))
                continue
            # Merge consecutive corner items (one spike) and drop repeated strand items (a strand is met once per triangle).
            j = next(j for j, it in enumerate(met) if it[0] == 'strand')
            met = met[j:] + met[:j]
            spikes = sum(1 for j in range(len(met)) if met[j][0] == 'corner' and met[j-1][0] == 'strand')
            owners, fresh = [], True
            for it in met:
                if it[0] == 'corner': fresh = True
                elif fresh:
                    owners.append(it[1]); fresh = False
            if spikes and met[0][0] == 'strand' and met[-1][0] == 'strand': owners.pop(0)  # The walk started in the middle of a side, which is met again at the end.
            cycles.append((reduce_cyclic(word), owners, spikes))
        tris = {R.tri_of[it[1]] for i in members for it in pieces[i] if it[0] == 'seg'}
        out.append(Region(chi, cycles, punctures, tris))
    return out

def _chord(R, D, x, p):
    ''' The other end of the chord that starts at point p of side x inside its triangle: (label, position) or ('corner', corner). '''
    if p < D.wt[x]: return R.prv[x], D.n[R.prv[x]] - 1 - p
    y = R.nxt[x]
    if p >= D.n[x] - D.wt[y]: return y, D.n[x] - 1 - p
    return 'corner', R.prv[x]

# --- Predicates ------------------------------------------------------------------------------------

def is_pants(R, comp):
    return sum(1 for v in R.vertices() if v[0] in comp) == 3 and len(comp) == 6

def boundary_of_arcs(R, arcs):
    ''' {curve: multiplicity}: the non-trivial boundary curves of a regular neighbourhood of a system of arcs. '''
    out = {}
    for region in regions(R, arcs):
        for word, owners, spikes in region.cycles:
            if word:
                c = canon(('c', word))
                out[c] = out.get(c, 0) + 1
    return out

def boundary(R, comps):
    out = boundary_of_arcs(R, [s for s in comps if s[0] != 'c'])
    for s, m in comps.items():
        if s[0] == 'c': out[s] = out.get(s, 0) + 2 * m
    return out

def meets_everything(R, comps):
    ''' Whether every component of the surface other than pairs of pants contains one of the strands. '''
    for comp in R.components():
        if is_pants(R, comp): continue
        if not any((s[1] if s[0] == 'e' else s[1][0]) in comp for s in comps): return False
    return True

def is_filling(R, comps):
    ''' Whether every essential curve meets the system: each complementary region contains no essential curves. '''
    if any(kind_of(R, s) == 'curve' for s in comps): return False
    for region in regions(R, comps):
        # The essential curves of the surface inside region: none iff it is a disc, a once-punctured disc, or contains none since it is a pair of pants (component).
        if region.genus: return False
        pieces = len(region.cycles) + len(region.punctures)
        if not region.cycles:
            if pieces > 3: return False
            continue
        if any(not word == () and not is_peripheral_word(R, word) for word, _, _ in region.cycles): return False
        if pieces > 3: return False
    return True

def is_polygonalisation(R, comps):
    ''' Whether the system consists of arcs and cuts the surface into polygons (with their vertices at the punctures). '''
    return all(s[0] != 'c' for s in comps) and all(not region.genus and not region.punctures and len(region.cycles) == 1 for region in regions(R, comps))

def is_triangulation(R, comps):
    return is_polygonalisation(R, comps) and all(region.cycles[0][2] == 3 for region in regions(R, comps)) and all(m == 1 for m in comps.values())

def pieces(R, curves):
    ''' The surface cut along a multicurve of essential curves: list of (genus, punctures including the cut ends, number of cut ends). '''
    return sorted((r.genus, len(r.punctures) + len(r.cycles), len(r.cycles)) for r in regions(R, curves))

# --- Crossing systems --------------------------------------------------------------------------------

class Overlay:
    ''' The union of a multicurve A and a system B of strands in minimal position, as a ribbon graph. '''
    def __init__(self, R, A, B):
        self.R, self.A, self.B = R, list(A), list(B)
        self.crossings = []  # dicts
        for ai, a in enumerate(self.A):
            for bi, b in enumerate(self.B): self._cross(ai, bi)
        self._order()
    # A ray is (t, step, direction) where t is the triangle of the line in which it departs, step(k) is the k-th item (a letter, or None once it has ended in a vertex)
    # and direction is +1 if it ran forwards along the line before departing, -1 if it ran backwards and 0 if it crosses it at once.
    def _cross(self, ai, bi):
        R = self.R
        P, (bk, w) = self.A[ai][1], self.B[bi]
        n, m, closed = len(P), 0 if bk == 'e' else len(w), bk == 'c'
        p_at = lambda i: P[i % n]
        def add(i, j, k, p_left_first, flipped, Q):
            ''' P[i..i+k] == Q[j..j+k] (k = -1: the chords cross inside one triangle), where P goes from the left of Q to its right if p_left_first. '''
            q_at = lambda u: (Q[u % m] if closed else Q[u] if 0 <= u < m else None)
            p_fwd, p_bwd = (lambda u: p_at(i + k + 1 + u)), (lambda u: ~p_at(i - 1 - u))
            q_fwd = lambda u: q_at(j + k + 1 + u)
            q_bwd = lambda u: (None if q_at(j - 1 - u) is None else ~q_at(j - 1 - u))
            # Rays of Q on the two sides of P.
            f, b = (1, -1) if k >= 0 else (0, 0)
            if p_left_first: left, right = (i + k + 1, q_fwd, f), (i, q_bwd, b)
            else: left, right = (i, q_bwd, b), (i + k + 1, q_fwd, f)
            # Rays of P on the two sides of Q.
            if p_left_first: ql, qr = (j, p_bwd, b), (j + k + 1, p_fwd, f)
            else: ql, qr = (j + k + 1, p_fwd, f), (j, p_bwd, b)
            at = j
            if flipped:
                ql, qr = (m - qr[0], qr[1], -qr[2]), (m - ql[0], ql[1], -ql[2])
                at = m - j
            # Does B go from the left of A to its right?
            q_left_first = not p_left_first
            b_left_first = q_left_first if not flipped else p_left_first
            self.crossings.append({'a': ai, 'b': bi, 'ta': i, 'tb': at, 'rays_a': (left, right), 'rays_b': (ql, qr), 'b_left_first': b_left_first})
        if bk == 'e':
            # Crossing an edge: the arc crosses P between the triangles i and i + 1.
            x = w
            for i, l in enumerate(P):
                if l in (x, ~x):
                    # Facing along l the head of l is on the left.
                    side = lambda u: None
                    fwd, bwd = (lambda u, i=i: p_at(i + 1 + u)), (lambda u, i=i: ~p_at(i - u))
                    start_corner, _, end_corner = oriented_arc_data(R, self.B[bi])  # Oriented along the label x, based in the triangle of x.
                    # b runs along x: if l == x, then b goes from the tail (right of P) to the head (left of P).
                    left_first = l != x
                    # Base in the triangle of x: for l == x that is triangle i, otherwise triangle i + 1.
                    self.crossings.append({'a': ai, 'b': bi, 'ta': i if l == x else i + 1, 'tb': 0, 'edge_letter': i, 'rays_a': ((i + 0.5, side, 0), (i + 0.5, side, 0)), 'rays_b': None, 'b_left_first': left_first})
            return
        limit = 2 * (n + m) + 4
        for flipped in (False, True):
            Q = inv(w) if flipped else w
            where = {}
            for j, x in enumerate(Q): where.setdefault(x, []).append(j)
            for i in range(n):
                for j in where.get(P[i], ()):
                    pp = P[i-1]
                    qq = Q[j-1] if (j > 0 or closed) else None
                    if pp == qq: continue
                    rs_p, rs_q = _rank(R, P[i], ~pp), _rank(R, Q[j], None if qq is None else ~qq)
                    k = 0
                    while k <= limit:
                        pn = P[(i + k + 1) % n]
                        qn = Q[(j + k + 1) % m] if (closed or j + k + 1 < m) else None
                        if pn != qn: break
                        k += 1
                    if k > limit: continue
                    last = P[(i + k) % n]
                    re_p, re_q = _rank(R, ~last, pn), _rank(R, ~last, qn)
                    if rs_p == rs_q or re_p == re_q: continue
                    if (rs_p < rs_q) == (re_p < re_q): add(i, j, k, rs_p < rs_q, flipped, Q)
        if not closed:
            # Ends of b at a corner around which P turns.
            for flipped in (False, True):
                Q = inv(w) if flipped else w
                # Q starts at the corner prv[Q[0]].
                c = R.prv[Q[0]]
                for i in range(n):
                    s, l = ~P[i-1], P[i]
                    if {s, l} == {c, R.prv[c]}:
                        # Exit l == c: the corner is on the right of P, so Q goes from the right of P to its left, so P goes from the left of Q... see below.
                        q_left_first = l != c
                        add(i, 0, -1, not q_left_first, flipped, Q)
    def _compare_rays(self, r, s, left):
        ''' The order along the line of two rays on its left (or right). '''
        R = self.R
        if r[0] != s[0]: return -1 if r[0] < s[0] else 1
        for u in range(400):
            x, y = r[1](u), s[1](u)
            if x == y and (x is not None or u or r[2] == s[2]):
                if x is None: return 0
                entry = ~x
                continue
            # Both in the triangle entered through entry.
            if u == 0: return (r[2] if x is None else 0) - (s[2] if y is None else 0)  # The corner we just left comes first, and the one ahead last.
            rank = lambda z: 1 if z is None else 2 if z == R.nxt[entry] else 0
            d = rank(x) - rank(y)
            return (d if left else -d)
        raise AssertionError('indistinguishable rays')
    def _compare(self, r, s):
        ''' The order along the line of two pairs of rays (left, right). '''
        return self._compare_rays(r[0], s[0], True) or self._compare_rays(r[1], s[1], False)
    def _line(self, entries, period):
        ''' Order crossings along a line: entries is a list of (id, rays). Return a list of (id, shift) in order, for a closed line starting anywhere with each id once. '''
        if len(entries) <= 1: return [(e[0], 0) for e in entries]
        if period is None:
            return [(e[0], 0) for e in sorted(entries, key=cmp_to_key(lambda e, f: self._compare(e[1], f[1])))]
        spread = max(abs(e[1][0][0] - e[1][1][0]) for e in entries)
        reach = int(spread) // period + 2
        lifts = []
        for e in entries:
            for h in range(-reach, reach + 1):
                lifts.append((e[0], h, tuple((t + h * period, step, f) for t, step, f in e[1])))
        lifts.sort(key=cmp_to_key(lambda e, f: self._compare(e[2], f[2])))
        first = entries[0][0]
        lo = next(i for i, l in enumerate(lifts) if l[:2] == (first, 0))
        hi = next(i for i, l in enumerate(lifts) if l[:2] == (first, 1))
        out = [(l[0], l[1]) for l in lifts[lo:hi]]
        assert sorted(o[0] for o in out) == sorted(e[0] for e in entries), 'bad order'
        return out
    def _order(self):
        self.lines = {}
        for ai, a in enumerate(self.A):
            self.lines['A', ai] = self._line([(k, c['rays_a']) for k, c in enumerate(self.crossings) if c['a'] == ai], len(a[1]))
        for bi, b in enumerate(self.B):
            mine = [(k, c['rays_b']) for k, c in enumerate(self.crossings) if c['b'] == bi]
            if b[0] == 'e':
                # Along an edge the curves A are ordered by their positions.
                self.lines['B', bi] = self._edge_order(b[1], [k for k, _ in mine])
            else:
                self.lines['B', bi] = self._line(mine, len(b[1]) if b[0] == 'c' else None)
    def _edge_order(self, x, ids):
        D = Diagram(self.R, vector(self.R, {a: 1 for a in self.A}))
        pos = {}
        for kind, pts in D.strands():
            word = tuple(l for l, _ in pts)
            for ai, a in enumerate(self.A):
                if canon(('c', word)) == a: break
            n = len(word)
            for rev in (False, True):
                u = word if not rev else inv(word)
                for s in range(n):
                    if u[s:] + u[:s] == a[1]:
                        for t in range(n):  # Letter t of a is letter s + t of u.
                            q = (s + t) % n
                            l, p = pts[q] if not rev else pts[n - 1 - q]
                            if rev: l, p = ~l, D.n[l] - 1 - p
                            pos[ai, t] = p if l == x else D.n[l] - 1 - p if l == ~x else None
                        break
                else: continue
                break
        return [(k, 0) for k in sorted(ids, key=lambda k: pos[self.crossings[k]['a'], self.crossings[k]['edge_letter']])]
    def boundary(self):
        ''' The non-trivial curves bounding a regular neighbourhood of the union as {curve: multiplicity}, ignoring the closed curves (of A and of B) that cross nothing. '''
        R = self.R
        half = {}  # half edge -> (other half edge, word)
        rotation = {}  # half edge -> predecessor (clockwise next) and sweep word
        def connect(h1, h2, word): half[h1], half[h2] = (h2, tuple(word)), (h1, inv(word))
        def stretch(s, t0, t1, closed):
            ''' The word of the strand from triangle t0 to triangle t1. '''
            w = () if s[0] == 'e' else s[1]
            at = (lambda u: w[u % len(w)]) if closed else (lambda u: w[u])
            if t0 <= t1: return [at(u) for u in range(t0, t1)]
            return [~at(u) for u in reversed(range(t1, t0))]
        for ai, a in enumerate(self.A):
            line = self.lines['A', ai]
            n = len(a[1])
            for u, (k, h) in enumerate(line):
                k2, h2 = line[(u + 1) % len(line)]
                if u + 1 == len(line): h2 += 1
                connect((k, 'a+'), (k2, 'a-'), stretch(a, self.crossings[k]['ta'] + h * n, self.crossings[k2]['ta'] + h2 * n, True))
        ends = {}  # vertex -> list of (angle, order, base angle, half edge)
        place = {}
        for v, cyc in enumerate(R.vertices()):
            for t, x in enumerate(cyc): place[x] = (v, t)
        for bi, b in enumerate(self.B):
            line = self.lines['B', bi]
            if b[0] == 'c':
                m = len(b[1])
                for u, (k, h) in enumerate(line):
                    k2, h2 = line[(u + 1) % len(line)]
                    if u + 1 == len(line): h2 += 1
                    connect((k, 'b+'), (k2, 'b-'), stretch(b, self.crossings[k]['tb'] + h * m, self.crossings[k2]['tb'] + h2 * m, True))
                continue
            m = 0 if b[0] == 'e' else len(b[1])
            stops = [(('start', bi), 'b+', 0)] + [(k, 'b', self.crossings[k]['tb']) for k, _ in line] + [(('end', bi), 'b-', m)]
            for (k, _, t0), (k2, _, t1) in zip(stops, stops[1:]):
                connect((k, 'b+'), (k2, 'b-'), stretch(b, t0, t1, False))
        # Ends of arcs around vertices.
        DB = Diagram(R, vector(R, {b: 1 for b in self.B}))
        arcs = {b: bi for bi, b in enumerate(self.B) if b[0] != 'c'}
        for b, bi in arcs.items():
            if b[0] == 'e':
                v, t = place[b[1]]
                ends.setdefault(v, []).append((t, 0, t + 0.5, (('start', bi), 'b+')))
                v, t = place[~b[1]]
                ends.setdefault(v, []).append((t, 0, t - 0.5, (('end', bi), 'b-')))
        for kind, pts in DB.strands():
            if kind != 'a': continue
            word = tuple(l for l, _ in pts)
            b = canon(('a', word))
            bi = arcs[b]
            same = word == b[1]
            for (letter, p), is_start in ((pts[0], True), ((~pts[-1][0], DB.n[pts[-1][0]] - 1 - pts[-1][1]), False)):
                # In the triangle of letter, from the corner prv[letter] to position p of letter.
                v, t = place[R.prv[letter]]
                tag = (('start', bi), 'b+') if is_start == same else (('end', bi), 'b-')
                ends.setdefault(v, []).append((t + 0.5, p, t + 0.5, tag))
        for v, items in ends.items():
            items.sort(key=lambda e: e[:2])
            cyc = R.vertices()[v]
            deg = len(cyc)
            for u, (angle, _, base, tag) in enumerate(items):
                angle2, _, base2, tag2 = items[u - 1]
                if u == 0: angle2, base2 = angle2 - deg, base2 - deg
                word, t = [], base
                while t > base2:
                    word.append(cyc[int(t - 0.5) % deg])
                    t -= 1
                while t < base2:
                    word.append(~cyc[int(t + 0.5) % deg])
                    t += 1
                rotation[tag] = (tag2, tuple(word))
        for k, c in enumerate(self.crossings):
            # If B goes from the left of A to its right: anticlockwise a+, b-, a-, b+ ; otherwise a+, b+, a-, b-.
            cyc = ['a+', 'b-', 'a-', 'b+'] if c['b_left_first'] else ['a+', 'b+', 'a-', 'b-']
            for u in range(4): rotation[k, cyc[u]] = ((k, cyc[u-1]), ())
        out, seen = {}, set()
        for h in list(half):
            if h in seen: continue
            word, cur = [], h
            while cur not in seen:
                seen.add(cur)
                other, w = half[cur]
                word.extend(w)
                cur, w = rotation[other]
                word.extend(w)
            word = reduce_cyclic(word)
            if word:
                c = canon(('c', word))
                out[c] = out.get(c, 0) + 1
        return out

def boundary_union(R, A, B):
    ''' {curve: multiplicity} bounding a neighbourhood of the union of the multicurve A (a dict) and the system B (a dict). '''
    O = Overlay(R, A, B)
    out = O.boundary()
    for ai, (a, m) in enumerate(A.items()):
        if not O.lines['A', ai]: out[a] = out.get(a, 0) + 2 * m
    for bi, (b, m) in enumerate(B.items()):
        if b[0] == 'c' and not O.lines['B', bi]: out[b] = out.get(b, 0) + 2 * m
    return out

def union_fills(R, A, B):
    ''' Whether every essential curve meets A or B. '''
    U = boundary_union(R, A, B)
    if any(kind_of(R, c) == 'curve' for c in U): return False
    return meets_everything(R, [s for s in {**A, **B} if kind_of(R, s) != 'peripheral'])
