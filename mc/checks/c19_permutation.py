''' C19: permutations against the symmetric group, helper functions against their definitions. '''

from fractions import Fraction
from itertools import permutations, product, combinations
from math import lcm, factorial
import numpy as np

from mc.sut import curver

LEVEL_NOTE = 'The whole symmetric groups (all elements and all pairs of elements) up to the stated degree, and all helper arguments within the stated bounds, are enumerated and compared with independent definitions.'

def top(tier): return 7 if tier == 'thorough' else 6
def bounds(tier):
    return f'Sym(N) for N <= {top(tier)} (single), all pairs for N <= 5, all index values for N <= 7; helper functions: all lists of length <= 5 over small ranges, b64 of all n < 70000 and around powers of 64'

def cases(tier):
    out = []
    for N in range(0, top(tier) + 1):
        for first in range(max(N, 1)): out.append({'kind': 'perm', 'N': N, 'first': first})
    for N in range(0, 6):
        for first in range(max(N, 1)): out.append({'kind': 'pairs', 'N': N, 'first': first})
    out += [{'kind': 'index', 'N': N} for N in range(0, 8)]
    out += [{'kind': k} for k in ('b64', 'slice', 'maximin', 'maximum', 'product', 'half', 'alphanum')]
    return sorted(out, key=lambda c: -c.get('N', 0))

def cyc(p):
    seen, out = set(), []
    for i in range(len(p)):
        if i in seen: continue
        n, j = 0, i
        while j not in seen:
            seen.add(j); n += 1; j = p[j]
        out.append(n)
    return sorted(out)

def run_case(case, ctx):
    K = curver.kernel
    P = K.Permutation
    U = K.utilities
    kind = case['kind']
    if kind == 'perm':
        N = case['N']
        ident = list(range(N))
        for t in permutations(range(N)):
            if N and t[0] != case['first']: continue
            p = P(list(t))
            ctx.state(); ctx.trace()
            inverse = [t.index(i) for i in range(N)]
            ctx.equal(list(p), list(t), 'entries')
            ctx.equal([p(i) for i in range(N)] + [p[i] for i in range(N)], list(t) * 2, 'calls')
            ctx.equal(len(p), N, 'length')
            ctx.equal(list(p.inverse()), inverse, lambda: f'inverse of {t}')
            ctx.equal(list(~p), inverse, lambda: f'inverse of {t}')
            cl = cyc(t)
            ctx.equal(p.cycle_lengths(), cl, lambda: f'cycle lengths of {t}')
            order = lcm(*cl) if cl else 1
            ctx.equal(p.order(), order, lambda: f'order of {t}')
            even = sum(x - 1 for x in cl) % 2 == 0
            ctx.equal(bool(p.is_even()), even, lambda: f'parity of {t}')
            M = p.matrix()
            for i in range(N):
                ctx.equal([int(M[j][i]) for j in range(N)], [1 if j == t[i] else 0 for j in range(N)], lambda: f'matrix of {t}')
            powers = [ident]
            for _ in range(13): powers.append([t[x] for x in powers[-1]])
            for k in range(0, 14): ctx.equal(list(p**k), powers[k], lambda: f'{t} ** {k}')
            for k in range(1, 5): ctx.equal(list(p**(-k)), list(P(powers[k]).inverse()), lambda: f'{t} ** {-k}')
            ctx.equal(list(p**(10**20 * order + 1)), list(t), lambda: f'large power of {t}')
            ctx.check(P.from_dict({i: t[i] for i in range(N)}) == p, lambda: f'from_dict of {t}')
            if N:
                names = 'zyxwvutsrq'[:N]
                d = {names[i]: names[t[i]] for i in ident}
                ctx.equal(list(P.from_dict(d, ordering=list(names))), list(t), lambda: f'from_dict of {d}')
                rev = list(names)[::-1]
                ctx.equal(list(P.from_dict(d, ordering=rev)), [N - 1 - t[N - 1 - i] for i in ident], lambda: f'from_dict of {d} in order {rev}')
            ctx.check(P(list(t)) == p and hash(P(list(t))) == hash(p) and not (P(list(t)) != p), 'equality')
            ctx.check(p != list(t), 'equal to a list')
            ctx.equal(p == P(ident), list(t) == ident, 'comparison with the identity')
            ctx.equal(list(p), list(t), lambda: f'{t} was modified')
        if case['first'] == 0:
            for bad in ([0, 0], [1], [0, 2], [0, 1, 1], [-1, 0]):
                ctx.rejects(lambda: P(bad), f'Permutation({bad})', (AssertionError, ValueError, TypeError))
        return
    if kind == 'pairs':
        N = case['N']
        perms = [P(list(t)) for t in permutations(range(N))]
        cls = [tuple(cyc(list(p))) for p in perms]
        for i, p in enumerate(perms):
            if N and p[0] != case['first']: continue
            for j, q in enumerate(perms):
                ctx.state(); ctx.trace()
                r = p * q
                ctx.equal(list(r), [p[q[k]] for k in range(N)], lambda: f'{p} * {q}')
                ctx.equal(p == q, i == j, lambda: f'{p} == {q}')
                ctx.equal(p != q, i != j, lambda: f'{p} != {q}')
                ctx.equal(bool(p.is_conjugate_to(q)), cls[i] == cls[j], lambda: f'{p} conjugate to {q}')
        other = P(list(range(N + 1)))
        p = P(list(range(N)))
        ctx.equal(p.is_conjugate_to(other), False, 'conjugate permutations of different degrees')
        ctx.rejects(lambda: p * other, 'product of permutations of different degrees', (ValueError, TypeError))
        return
    if kind == 'index':
        N = case['N']
        for i, t in enumerate(permutations(range(N))):
            p = P.from_index(N, i)
            ctx.equal(list(p), list(t), lambda: f'from_index({N}, {i})')
            ctx.equal(p.index(), i, lambda: f'index of {t}')
            ctx.state(); ctx.trace()
        for N in (12, 24, 40):  # Signatures need large degrees.
            f = factorial(N)
            for i in (0, 1, f - 1, f // 3, f // 7 * 5 + 11, f // 2):
                p = P.from_index(N, i)
                ctx.equal(p.index(), i, lambda: f'index round trip {N} {i}')
                rank, left = 0, list(range(N))
                for x in p:
                    rank = rank * len(left) + left.index(x)
                    left.remove(x)
                ctx.equal(rank, i, lambda: f'from_index({N}, {i})')
        return
    if kind == 'b64':
        alphabet = U.ALPHABET
        ctx.equal(len(set(alphabet)), 64, 'alphabet')
        values = list(range(70000)) + [64**k + d for k in range(3, 30) for d in (-65, -64, -63, -2, -1, 0, 1, 2, 63, 64, 65)]
        seen = set()
        for n in values:
            s = U.b64encode(n)
            ctx.equal(U.b64decode(s), n, lambda: f'base 64 round trip of {n}')
            ctx.check(all(c in alphabet for c in s) and isinstance(s, str), lambda: f'characters of the encoding of {n}')
            ctx.equal(len(s), (n.bit_length() + 5) // 6, lambda: f'length of the encoding of {n}')
            if n < 70000:
                ctx.check(s not in seen, lambda: f'encoding of {n} repeated'); seen.add(s)
            ctx.state(); ctx.trace()
        return
    if kind == 'slice':
        for n in range(1, 6):
            L0 = ['a', 'b', 'c', 'd', 'e'][:n]
            for L in (list(L0), tuple(L0)):
                for x in L0:
                    i = L0.index(x)
                    rot = L[i:] + L[:i]
                    ctx.equal(U.cyclic_slice(L, x), rot, lambda: f'cyclic_slice({L}, {x})')
                    ctx.equal(U.cyclic_slice(L, x, 'missing'), rot, lambda: f'cyclic_slice({L}, {x}, missing)')
                    for y in L0:
                        ctx.equal(U.cyclic_slice(L, x, y), rot[:rot.index(y)], lambda: f'cyclic_slice({L}, {x}, {y})')
                        ctx.state(); ctx.trace()
                    ctx.equal(list(L), L0, 'cyclic_slice changed its argument')
                ctx.rejects(lambda: U.cyclic_slice(L, 'missing'), 'cyclic_slice from a missing item', (ValueError,))
        return
    if kind == 'maximin':
        rows = [r for n in range(1, 4) for r in product(range(-1, 3), repeat=n)]
        for a in rows:
            ctx.equal(U.maximin(list(a)), min(a), lambda: f'maximin({a})')
            for b in rows:
                ctx.equal(U.maximin(list(a), iter(b)), max(min(a), min(b)), lambda: f'maximin({a}, {b})')
                ctx.state(); ctx.trace()
        small = [r for n in range(1, 3) for r in product(range(3), repeat=n)]
        for rs in product(small, repeat=3):
            ctx.equal(U.maximin(*[(x for x in r) for r in rs]), max(map(min, rs)), lambda: f'maximin{rs}')
            ctx.state(); ctx.trace()
        ctx.rejects(lambda: U.maximin(), 'maximin()', (ValueError,))
        ctx.rejects(lambda: U.maximin([]), 'maximin([])', (ValueError,))
        ctx.rejects(lambda: U.maximin([1], []), 'maximin([1], [])', (ValueError,))
        return
    if kind == 'maximum':
        for n in range(1, 6):
            for r in product(range(4), repeat=n):
                for key in (lambda x: x, lambda x: -x, lambda x: x % 2, lambda x: x // 2):
                    best = max(map(key, r))
                    first = next(x for x in r if key(x) == best)
                    ctx.equal(U.maximum(iter(r), key=key), first, lambda: f'maximum({r})')
                    for ub in (best, best + 1):
                        used = []
                        got = U.maximum((used.append(x) or x for x in r), key=key, upper_bound=ub)
                        ctx.equal(got, first, lambda: f'maximum({r}, upper_bound={ub})')
                        if ub == best: ctx.equal(len(used), r.index(first) + 1, lambda: f'items of {r} consumed by maximum with bound {ub}')
                    ctx.equal(U.maxes(iter(r), key=key), [x for x in r if key(x) == best], lambda: f'maxes({r})')
                    ctx.state(); ctx.trace()
                ctx.equal(U.maximum(list(r)), max(r), lambda: f'maximum({r})')
                ctx.equal(U.maxes(list(r)), [x for x in r if x == max(r)], lambda: f'maxes({r})')
        ctx.rejects(lambda: U.maxes([]), 'maxes([])', (ValueError,))
        ctx.rejects(lambda: U.maximum([]), 'maximum([])', (ValueError,))
        return
    if kind == 'product':
        class W:  # A free monoid.
            def __init__(self, s): self.s = s
            def __mul__(self, other): return W(self.s + other.s)
        start = W('S')
        ctx.check(U.product([], start=start) is start, 'empty product')
        ctx.equal(U.product([]), 1, 'empty product')
        for n in range(1, 6):
            L = [W(c) for c in 'abcde'[:n]]
            ctx.equal(U.product(L, start=start).s, 'abcde'[:n][::-1], 'left product')
            ctx.equal(U.product(iter(L), left=True).s, 'abcde'[:n][::-1], 'left product')
            ctx.equal(U.product(L, start=start, left=False).s, 'abcde'[:n], 'right product')
            ctx.state(); ctx.trace()
        for r in product(range(-2, 4), repeat=3):
            ctx.equal(U.product(r), r[0] * r[1] * r[2], 'product of numbers')
            ctx.state(); ctx.trace()
        return
    if kind == 'half':
        h = U.half
        for n in list(range(-40, 41)) + [2**200, 2**200 + 1, -3**50, 6 * 10**40]:
            if n % 2 == 0:
                for r in (h(n), h * n, n * h): ctx.check(r == n // 2 and isinstance(r, int), lambda: f'half of {n}: {r!r}')
            else:
                for f in (lambda: h(n), lambda: h * n, lambda: n * h): ctx.rejects(f, f'half of {n}', (ValueError,))
            for q in (3, 7):
                x = Fraction(n, q)
                if x.denominator > 1:
                    ctx.check(h(x) == x / 2 and isinstance(h(x), Fraction), lambda: f'half of {x}')
            ctx.check(h(Fraction(n)) == Fraction(n, 2), lambda: f'half of the fraction {n}')
            if abs(n) < 1000:
                ctx.check(h(n + 0.5) == (n + 0.5) / 2, lambda: f'half of {n + 0.5}')
                a = np.array([n, 2], dtype=object)
                if n % 2 == 0: ctx.equal(list(a * h), [n // 2, 1], 'array times half')
            ctx.state(); ctx.trace()
        return
    if kind == 'alphanum':
        names = ['a', 'a_0', 'a_1', 'a_2', 'a_10', 'a_11', 'b_2', 'b_10', 'a_1_2', 'a_1_10', 'x12y3', 'x12y20', 'x2y3']
        def ref(s):
            out, cur, digit = [], '', False
            for c in s:
                if c.isdigit() != digit:
                    out.append(cur); cur, digit = '', c.isdigit()
                cur += c
            out.append(cur)
            if digit: out.append('')
            return [int(x) if i % 2 else x for i, x in enumerate(out)]
        for s in names + [''.join(t) for n in range(0, 4) for t in product('a1_0', repeat=n)]:
            ctx.equal(U.alphanum_key(s), ref(s), lambda: f'alphanum_key({s!r})')
            ctx.state(); ctx.trace()
        for s, t in combinations(names, 2):
            ctx.equal(U.alphanum_key(s) < U.alphanum_key(t), ref(s) < ref(t), lambda: f'order of {s} and {t}')
