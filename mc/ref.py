''' Reference model of triangulated punctured surfaces, independent of curver.

Everything here is computed on explicit combinatorial objects (words of edge
crossings, strand diagrams, complementary regions) and never touches the code
under test.  It is the oracle ("model") side of every check.

Conventions (those documented by curver): a triangulation is a set of triples of
oriented labels listed anticlockwise; the reverse of label x is ~x = -1-x.

* corner(x) is the corner of the triangle containing x at the tail of x.
* crossing letter x means: leave the triangle containing x through x, and enter the one containing ~x.
'''

from fractions import Fraction
from itertools import permutations, product
from functools import lru_cache

class Tri:
    ''' A triangulation as a set of label triples. '''
    __slots__ = ['triples', 'zeta', 'nxt', 'prv', 'tri_of', '_verts', '_comps', '_vof']
    def __init__(self, triples):
        self.triples = tuple(tuple(t) for t in triples)
        self.zeta = len(self.triples) * 3 // 2
        self.nxt, self.prv, self.tri_of = {}, {}, {}
        for i, t in enumerate(self.triples):
            for j in range(3):
                self.nxt[t[j]] = t[(j+1) % 3]
                self.prv[t[j]] = t[(j+2) % 3]
                self.tri_of[t[j]] = i
        self._verts = self._comps = self._vof = None
    def key(self):
        return tuple(sorted(min(t[i:] + t[:i] for i in range(3)) for t in self.triples))
    def __eq__(self, other):
        return self.key() == other.key()
    def __hash__(self):
        return hash(self.key())
    def labels(self):
        return range(-self.zeta, self.zeta)
    def vertices(self):
        ''' Cyclic tuples of outgoing labels, anticlockwise, starting at the minimal one. '''
        if self._verts is None:
            seen, out = set(), []
            for x in self.labels():
                if x in seen: continue
                cyc, y = [], x
                while y not in seen:
                    seen.add(y)
                    cyc.append(y)
                    y = ~self.prv[y]
                out.append(tuple(cyc))
            self._verts = out
            self._vof = {x: i for i, cyc in enumerate(out) for x in cyc}
        return self._verts
    def vertex_of(self, x):
        self.vertices()
        return self._vof[x]
    def components(self):
        ''' List of sorted tuples of labels. '''
        if self._comps is None:
            seen, out = set(), []
            for x in self.labels():
                if x in seen: continue
                comp, stack = set(), [x]
                while stack:
                    y = stack.pop()
                    if y in comp: continue
                    comp.add(y)
                    stack.extend([~y, self.nxt[y], self.prv[y]])
                seen |= comp
                out.append(tuple(sorted(comp)))
            self._comps = out
        return self._comps
    def surface(self):
        ''' {component: (genus, punctures, chi)}. '''
        out = {}
        for comp in self.components():
            v = sum(1 for cyc in self.vertices() if cyc[0] in comp)
            e = len(comp) // 2
            f = 2 * e // 3
            chi = v - e + f  # closed
            out[comp] = ((2 - chi) // 2, v, f - e)
        return out
    def flippable(self, x):
        return self.tri_of[x] != self.tri_of[~x]
    def square(self, x):
        return (self.nxt[x], self.prv[x], self.nxt[~x], self.prv[~x])
    def flip(self, x):
        ''' Flip x.  The new diagonal leaves the triangle on the (d, a) side through the positive label, so flipping ~x undoes flipping x. '''
        a, b, c, d = self.square(x)
        i = max(x, ~x)
        rest = [t for j, t in enumerate(self.triples) if j not in (self.tri_of[x], self.tri_of[~x])]
        return Tri(rest + [(i, d, a), (~i, b, c)])
    def relabel(self, m):
        return Tri([tuple(m[x] for x in t) for t in self.triples])

# --- Paths -------------------------------------------------------------------------------------
# ('c', word): a closed curve, cyclically reduced word;  ('a', word): an arc, reduced nonempty word
# ('e', index): an arc parallel to edge index.

def inv(word):
    return tuple(~x for x in reversed(word))

def canon(s):
    kind, w = s
    if kind == 'e': return s
    if kind == 'a':
        return ('a', min(w, inv(w)))
    best = None
    for u in (w, inv(w)):
        m = min(u)
        for i in range(len(u)):
            if u[i] == m:
                r = u[i:] + u[:i]
                if best is None or r < best: best = r
    return ('c', best)

def reduce_cyclic(word):
    out = []
    for x in word:
        if out and out[-1] == ~x: out.pop()
        else: out.append(x)
    while len(out) >= 2 and out[0] == ~out[-1]:
        out = out[1:-1]
    return tuple(out)

def reduce_arc(T, start, word, end):
    ''' start / end are corner labels; the word crosses from the triangle of start to the triangle of end. Return strand or None if trivial. '''
    out = []
    for x in word:
        if out and out[-1] == ~x: out.pop()
        else: out.append(x)
    word = out
    while word:
        x = word[0]
        if start == T.prv[x]: break  # The opposite corner.
        # start is at tail(x) (== x) or head(x) (== nxt[x]).
        s = ~x
        start = T.nxt[s] if start == x else s  # tail(x) = head(~x) ; head(x) = tail(~x).
        word = word[1:]
    while word:
        s = ~word[-1]
        if end == T.prv[s]: break
        x = word[-1]
        end = T.nxt[x] if end == s else x
        word = word[:-1]
    if word: return canon(('a', tuple(word)))
    if start == end: return None
    # Two corners of one triangle: the edge from corner start to corner end.
    x = start if T.nxt[start] == end else end
    return ('e', max(x, ~x))

def is_peripheral_word(T, word):
    n = len(word)
    return all(word[(i+1) % n] == T.nxt[~word[i]] for i in range(n)) or all(word[(i+1) % n] == T.prv[~word[i]] for i in range(n))

def strand_vector(T, s):
    v = [0] * T.zeta
    kind, w = s
    if kind == 'e':
        v[w] = -1
    else:
        for x in w: v[max(x, ~x)] += 1
    return v

def vector(T, comps):
    v = [0] * T.zeta
    for s, m in comps.items():
        for i, x in enumerate(strand_vector(T, s)): v[i] += m * x
    return v

class Diagram:
    ''' The strand diagram of an integral vector. '''
    def __init__(self, T, vec):
        self.T = T
        self.vec = list(vec)
        self.n = {}
        for x in T.labels():
            self.n[x] = max(self.vec[max(x, ~x)], 0)
        self.wt = {}
        self.term = {}  # number of strands terminating at the corner x (tail of x).
        for x in T.labels():
            l, y, z = self.n[x], self.n[T.nxt[x]], self.n[T.prv[x]]
            d = l + z - y
            self.wt[x] = max(0, min(l, z, d // 2)) if d > 0 else 0
            self.term[x] = max(0, y - l - z)
    @staticmethod
    def valid(T, vec):
        n = lambda x: max(vec[max(x, ~x)], 0)
        for t in T.triples:
            a, b, c = map(n, t)
            if a <= b + c and b <= a + c and c <= a + b and (a + b + c) % 2: return False
        return True
    def step(self, s, p):
        ''' Entering through side s (label in the new triangle) at position p from the tail of s. Return (exit letter, position) or ('end', corner). '''
        T = self.T
        n = self.n[s]
        if p < self.wt[s]:
            return T.prv[s], self.n[T.prv[s]] - 1 - p
        if p >= n - self.wt[T.nxt[s]]:
            return T.nxt[s], n - 1 - p
        return 'end', T.prv[s]
    def follow(self, letter, p):
        ''' Cross letter at position p (from its tail), yield (letter, p) from this onwards until we return or end. '''
        out = [(letter, p)]
        start = (letter, p)
        while True:
            s, q = ~letter, self.n[letter] - 1 - p
            nl, np_ = self.step(s, q)
            if nl == 'end': return out, True
            letter, p = nl, np_
            if (letter, p) == start: return out, False
            out.append((letter, p))
    def strands(self):
        ''' List of (kind, [(letter, position), ...]) for each non edge strand. '''
        res, seen = [], set()
        T = self.T
        for i in range(T.zeta):
            for p in range(self.n[i]):
                if (i, p) in seen: continue
                fwd, ended = self.follow(i, p)
                if ended:
                    bwd, _ = self.follow(~i, self.n[i] - 1 - p)
                    pts = [(~x, self.n[x] - 1 - q) for x, q in reversed(bwd)] [:-1] + fwd
                    kind = 'a'
                else:
                    pts, kind = fwd, 'c'
                for x, q in pts:
                    seen.add((x, q) if x >= 0 else (~x, self.n[x] - 1 - q))
                res.append((kind, pts))
        return res
    def components(self):
        ''' {canonical strand: multiplicity}. '''
        comps = {}
        for i in range(self.T.zeta):
            if self.vec[i] < 0: comps[('e', i)] = -self.vec[i]
        for kind, pts in self.strands():
            s = canon((kind, tuple(x for x, _ in pts)))
            comps[s] = comps.get(s, 0) + 1
        return comps

def components(T, vec):
    return Diagram(T, vec).components()

def kind_of(T, s):
    ''' 'arc', 'curve' or 'peripheral'. '''
    if s[0] in 'ae': return 'arc'
    return 'peripheral' if is_peripheral_word(T, s[1]) else 'curve'

def arc_ends(T, s):
    ''' Vertex indices of the ends of an arc. '''
    if s[0] == 'e': return T.vertex_of(s[1]), T.vertex_of(~s[1])
    w = s[1]
    return T.vertex_of(T.prv[w[0]]), T.vertex_of(T.prv[~w[-1]])

def oriented_arc_data(T, s):
    ''' (start corner, word, end corner). '''
    if s[0] == 'e': return s[1], (), T.nxt[s[1]]
    w = s[1]
    return T.prv[w[0]], w, T.prv[~w[-1]]

# --- Flips and relabellings of strands ----------------------------------------------------------

def flip_strand(T, x, s):
    ''' Rewrite the strand s of T as a strand of T.flip(x). '''
    a, b, c, d = T.square(x)
    i = max(x, ~x)
    down = i  # The letter leaving the triangle on the (d, a) side.
    side = {'V1': 0, 'V3': 0, 'd': 1, 'V0': 1, 'a': 1, 'b': -1, 'V2': -1, 'c': -1}
    item = {}  # label -> item name
    for lab, name in ((a, 'a'), (b, 'b'), (c, 'c'), (d, 'd')): item[lab] = name
    # corners: corner label -> vertex name
    cv = {x: 'V2', a: 'V0', b: 'V1', ~x: 'V0', c: 'V2', d: 'V3'}
    kind, w = s
    if kind == 'e':
        if w != i: return s
        return canon(('a', (down,)))  # V0 -> V2.
    letters = [y for y in w if y not in (x, ~x)]
    out = []
    def cross(i1, i2):
        s1, s2 = side[i1], side[i2]
        if s1 == 1 and s2 == -1: out.append(down)
        elif s1 == -1 and s2 == 1: out.append(~down)
    if kind == 'c':
        m = len(letters)
        for j in range(m):
            y, z = letters[j-1], letters[j]
            if z in item: cross(item[~y], item[z])
            out.append(z)
        return canon(('c', tuple(out)))
    start, end = T.prv[w[0]], T.prv[~w[-1]]
    if not letters:
        return ('e', i)
    if letters[0] in item: cross(cv[start], item[letters[0]])
    out.append(letters[0])
    for y, z in zip(letters, letters[1:]):
        if z in item: cross(item[~y], item[z])
        out.append(z)
    if ~letters[-1] in item: cross(item[~letters[-1]], cv[end])
    return canon(('a', tuple(out)))

def relabel_strand(m, s):
    kind, w = s
    if kind == 'e':
        x = m[w]
        return ('e', max(x, ~x))
    return canon((kind, tuple(m[x] for x in w)))

# --- Intersection numbers -------------------------------------------------------------------------

def chords(T, s):
    ''' Passages through triangles: list of (sides used, ...) as (entry label or None, exit label or None) in one triangle; for a terminal piece one is None. '''
    kind, w = s
    if kind == 'e': return []
    out = []
    n = len(w)
    if kind == 'c':
        for j in range(n): out.append((~w[j-1], w[j]))
    else:
        out.append((None, w[0]))
        for j in range(1, n): out.append((~w[j-1], w[j]))
        out.append((~w[-1], None))
    return out

def _rank(T, side, other):
    ''' The rank of item other (a label, or None for the opposite corner) in the triangle of side. '''
    if other is None: return 1
    return 0 if other == T.nxt[side] else 2

def intersection(T, s, t):
    ''' Geometric intersection number of two strands. '''
    if s[0] == 'e' and t[0] == 'e': return 0
    if s[0] == 'e': s, t = t, s
    if t[0] == 'e':
        return sum(1 for x in s[1] if x in (t[1], ~t[1]))
    P = s[1]
    count = 0
    np_, nt = len(P), len(t[1])
    limit = np_ + nt + 2
    pc, qc = s[0] == 'c', t[0] == 'c'
    for Q in (t[1], inv(t[1])):
        where = {}
        for j, x in enumerate(Q): where.setdefault(x, []).append(j)
        for i in range(np_):
            for j in where.get(P[i], ()):
                # Is this the start of a maximal overlap?
                pp = P[i-1] if (i > 0 or pc) else None
                qq = Q[j-1] if (j > 0 or qc) else None
                if pp is not None and pp == qq: continue
                # Previous sides (entry into triangle of P[i]).
                rs_p = _rank(T, P[i], None if pp is None else ~pp)
                rs_q = _rank(T, Q[j], None if qq is None else ~qq)
                k = 0
                while True:
                    # Compare next letters after offset k.
                    a = i + k + 1
                    b = j + k + 1
                    pn = P[a % np_] if (pc or a < np_) else None
                    qn = Q[b % nt] if (qc or b < nt) else None
                    if pn is not None and pn == qn and k <= limit:
                        k += 1
                        continue
                    break
                if k > limit: continue  # Infinite overlap.
                last = P[(i + k) % np_]
                re_p, re_q = _rank(T, ~last, pn), _rank(T, ~last, qn)
                if rs_p == rs_q or re_p == re_q: continue  # Common ideal endpoint.
                if (rs_p < rs_q) == (re_p < re_q): count += 1
    # Chords in the same triangle that share no side.
    byt = {}
    for c in chords(T, t):
        sides = {x for x in c if x is not None}
        byt.setdefault(T.tri_of[next(iter(sides))], []).append((sides, None in c))
    for c in chords(T, s):
        sides = {x for x in c if x is not None}
        for sides2, term2 in byt.get(T.tri_of[next(iter(sides))], ()):
            if not (sides & sides2) and (term2 or None in c): count += 1
    return count

def intersection_multi(T, A, B):
    return sum(m * n * intersection(T, s, t) for s, m in A.items() for t, n in B.items())

def simple(T, s):
    return intersection(T, s, s) == 0

# --- Dehn twists -------------------------------------------------------------------------------------

def substitution(T, c, k):
    ''' The letter substitution for the right Dehn twist about the curve c to the power k, as {letter: tuple}, together with the terminal corrections.

    Base points sit at the centre of each triangle. Return (sub, corner) where
     * sub[l] is the path (word) from the centre of the triangle of l to the centre of that of ~l replacing the letter l,
     * corner[x] is the loop (word) to insert at the centre when running from the centre of the triangle of x out to the corner x. '''
    D = Diagram(T, strand_vector(T, c))
    [(kind, pts)] = D.strands()
    assert kind == 'c'
    n = len(pts)
    pos = {}
    for j, (x, p) in enumerate(pts):
        pos[(x, p)] = tuple(pts[(j + m) % n][0] for m in range(n))
        pos[(~x, D.n[x] - 1 - p)] = tuple(~pts[(j - m) % n][0] for m in range(n))
    power = abs(k)
    sub, corner = {}, {}
    def loop_fwd(x, p, right):
        ''' The loop that starts by crossing x at position p; this is the strand of c on the edge. '''
        G = pos[(x, p)]
        return G if right else inv(G)
    for x in T.labels():
        lo, hi = D.wt[x], D.n[x] - D.wt[T.nxt[x]]
        # In the triangle of x the central region meets x between wt[x] and n - wt[nxt x] (there are no terminal strands).
        # so it is the single segment index lo == hi.
        assert lo == hi
        lo2 = D.n[x] - D.wt[~x]  # central segment on the far side, measured from the tail of x.
        word = []
        # Slide along x from segment index lo to segment index lo2 crossing strands in between.
        if lo < lo2:  # Moving from tail to head: strands p = lo .. lo2-1
            for p in range(lo, lo2):
                word.extend(loop_fwd(x, p, k > 0) * power)
        elif lo > lo2:  # head to tail.
            for p in range(lo - 1, lo2 - 1, -1):
                word.extend(loop_fwd(x, p, k < 0) * power)
        word.append(x)
        sub[x] = tuple(word)
    for x in T.labels():
        # From the centre out to corner x we cross strands around the corner: on edge x, positions wt-1 .. 0, moving head to tail (of x).
        word = []
        for p in range(D.wt[x] - 1, -1, -1):
            word.extend(loop_fwd(x, p, k < 0) * power)
        corner[x] = tuple(word)
    return sub, corner

def apply_substitution(T, subcorner, s):
    sub, corner = subcorner
    if s[0] == 'c':
        return canon(('c', reduce_cyclic([y for x in s[1] for y in sub[x]])))
    start, w, end = oriented_arc_data(T, s)
    word = list(inv(corner[start])) + [y for x in w for y in sub[x]] + list(corner[end])
    return reduce_arc(T, start, word, end)

def twist_multi(T, multicurve, power, comps):
    ''' Apply the right Dehn multitwist (multicurve: {curve: multiplicity}) ** power to {strand: mult}. '''
    out = dict(comps)
    for c, m in multicurve.items():
        if is_peripheral_word(T, c[1]) or power == 0: continue
        sc = substitution(T, c, power * m)
        out = {apply_substitution(T, sc, s): k for s, k in out.items()}
    return out
