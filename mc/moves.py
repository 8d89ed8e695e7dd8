''' The alphabet of moves available at a triangulation (the transitions of the mapping transition system). '''

from mc.sut import curver
from mc.spaces import *

def disjoint_support(R, A):
    tris = [R.tri_of[y] for x in A for y in (x, ~x)]
    return len(set(tris)) == len(tris)

def letters(R, powers=(1, -1, 2), big=True):
    ''' Descriptions of the moves that can be made from R, as items that Triangulation.encode understands (JSON friendly). '''
    out = []
    flippable = [x for x in range(R.zeta) if R.flippable(x)]
    for x in flippable: out += [['flip', x], ['flip', ~x]]
    pairs = [(x, y) for x in flippable for y in flippable if x < y and disjoint_support(R, (x, y))]
    if pairs:
        out += [['multi', [pairs[0][0], ~pairs[0][1]]], ['multi', list(pairs[-1])]]
    for k in (1, 2): out.append(['relabel', k])
    out.append(['none', 0])
    for e in R.labels():
        loop = R.vertex_of(e) == R.vertex_of(~e)
        if loop:
            c = edge_curve(R, e)
            if kind_of(R, c) == 'curve' and sum(1 for f in R.labels() if f < e and R.vertex_of(f) == R.vertex_of(~f) and edge_curve(R, f) == c) < 1:
                out += [['twist', e, p] for p in powers]
        elif e >= 0:
            out += [['half', e, p] for p in powers]
    return out

def edge_curve(R, e):
    ''' The curve to the left of the edge loop e (or the boundary of a neighbourhood of e if it joins distinct vertices). '''
    def around(x, stop):
        out, y = [], ~R.prv[x]
        while y != stop:
            out.append(y)
            y = ~R.prv[y]
        return out
    cut = around(e, ~e) if R.vertex_of(e) == R.vertex_of(~e) else around(e, e) + around(~e, ~e)
    return canon(('c', ref.reduce_cyclic([~y for y in cut])))

def item(R, letter):
    ''' The argument for Triangulation.encode. '''
    kind = letter[0]
    if kind == 'flip': return letter[1]
    if kind == 'multi': return set(letter[1])
    if kind == 'relabel': return relabelling(R.zeta, letter[1])
    if kind == 'isometry': return {int(k): v for k, v in letter[1].items()}
    if kind == 'none': return None
    return (letter[1], letter[2])

def target(R, letter):
    ''' The reference triangulation after the move. '''
    kind = letter[0]
    if kind == 'flip': return R.flip(letter[1])
    if kind == 'multi':
        for x in letter[1]: R = R.flip(x)
        return R
    if kind == 'relabel': return R.relabel(relabelling(R.zeta, letter[1]))
    if kind == 'isometry': return R.relabel({int(k): v for k, v in letter[1].items()})
    return R

def words(R, depth, powers=(1, -1, 2), filt=None):
    ''' All words (lists of letters, first applied first) of exactly the given depth from R. '''
    if depth == 0:
        yield []
        return
    for l in letters(R, powers):
        if filt and not filt(l): continue
        for w in words(target(R, l), depth - 1, powers, filt): yield [l] + w

def encode(R, word):
    ''' The curver encoding of a word. '''
    items, S = [], R
    for l in word:
        items.append(item(S, l))
        S = target(S, l)
    return build(R).encode(items[::-1]), S

# --- The model action ------------------------------------------------------------------------------

def half_twist_arc(R, e):
    return ('e', max(e, ~e))

def apply(R, letter, comps):
    ''' The image of {strand: multiplicity} (not for half twists of odd power). '''
    kind = letter[0]
    if kind == 'flip': return {ref.flip_strand(R, letter[1], s): m for s, m in comps.items()}
    if kind == 'multi':
        for x in letter[1]:
            comps = {ref.flip_strand(R, x, s): m for s, m in comps.items()}
            R = R.flip(x)
        return comps
    if kind in ('relabel', 'isometry'):
        m = relabelling(R.zeta, letter[1]) if kind == 'relabel' else {int(k): v for k, v in letter[1].items()}
        return {ref.relabel_strand(m, s): k for s, k in comps.items()}
    if kind == 'none': return comps
    if kind == 'twist': return ref.twist_multi(R, {edge_curve(R, letter[1]): 1}, letter[2], comps)
    raise ValueError(letter)

# --- Mapping classes ---------------------------------------------------------------------------------

def isometry_letter(m):
    return ['isometry', {str(k): v for k, v in m.items()}]

def closed_words(R, powers=(1, -1), flips=1):
    ''' Words from R back to R: twists, half twists, self isometries and flips followed by isometries. '''
    from mc.isom import isometries
    out = [[l] for l in letters(R, powers) if l[0] in ('twist', 'half', 'none')]
    out += [[isometry_letter(m)] for m in isometries(R, R)]
    def rec(S, word, left):
        if not left: return
        for x in range(S.zeta):
            if not S.flippable(x): continue
            S2 = S.flip(x)
            w = word + [['flip', x]]
            for m in isometries(S2, R): out.append(w + [isometry_letter(m)])
            rec(S2, w, left - 1)
    rec(R, [], flips)
    return out
