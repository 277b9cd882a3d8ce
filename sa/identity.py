"""Identity test of two terms: interprets symbols by fixed pseudo-random numbers.

Two expressions over the inputs that differ here are different functions; used
only to confirm that a mismatch of normal forms is a real one (the normal form
is not complete for quotients and roots).  No code of the library is involved."""
import math
import terms as T
from terms import *


class Unknown(Exception):
    pass


def num(p):
    c = p.const()
    if c is None:
        raise Unknown('index')
    return int(c)


class Env(object):
    def __init__(self, seed=1, dims=None, psd=('P', 'M', 'N')):
        self.seed = seed
        self.dims = dims or {'n': 5, 'm': 6}
        self.psd = psd
        self.mem = {}
        self.mats = {}

    def rnd(self, key):
        x = 0x9E3779B97F4A7C15 ^ self.seed
        for ch in repr(key):
            x = ((x ^ ord(ch)) * 0x100000001B3) & 0xFFFFFFFFFFFFFFFF
        x ^= x >> 31
        x = (x * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        x ^= x >> 29
        return (x % 1000003) / 1000003.0

    # ------------------------------------------------------------- scalars
    def atom(self, a):
        if a in self.mem:
            return self.mem[a]
        k = a.key
        t = k[0]
        if t == 'dim':
            v = self.dims[k[1]] if k[1] in self.dims else 4
        elif t in ('opt', 's'):
            v = (1 + int(8 * self.rnd(k))) if t == 'opt' and k[2] == 'i' else (0.1 + self.rnd(k)) * ((100, 1, 1e-3, 1e-8)[int(4 * self.rnd((k, 0)))] if t == 'opt' and self.scales else 1)
        elif t == 'norm':
            v = math.sqrt(sum(x * x for x in self.form(k[1])))
        elif t == 'dot':
            f, g = self.form(k[1]), self.form(k[2])
            if len(f) != len(g):
                raise Unknown('shape')
            v = sum(x * y for x, y in zip(f, g))
        elif t == 'sqrt':
            x = self.poly(k[1])
            if x < 0:
                raise Unknown('sqrt')
            v = math.sqrt(x)
        elif t == 'abs':
            v = abs(self.poly(k[1]))
        elif t == 'inv':
            x = self.poly(k[1])
            if x == 0:
                raise Unknown('division')
            v = 1.0 / x
        elif t in ('max', 'min'):
            v = (max if t == 'max' else min)(self.poly(p) for p in k[1:])
        elif t == 'mul':
            v = self.poly(k[1]) * self.poly(k[2])
        elif t == 'el' and len(k) == 4:
            f = self.solved(k[2].key) if k[2].key[0] == 'solve' and not k[1] else self.word(k[1], k[2])
            i = k[3].const() if isinstance(k[3], Poly) else None
            if i is None:
                raise Unknown('index')
            v = f[int(i)]
        elif t == 'eps':
            v = 2.0 ** -52
        elif t == 'special' and k[1] == 'inf':
            v = float('inf')
        else:
            raise Unknown(t)
        self.mem[a] = v
        return v

    def poly(self, p):
        s = 0.0
        for m, c in p.t:
            v = float(c)
            for a, e in m:
                x = self.atom(T._atom_list[a])
                if e < 0 and x == 0:
                    raise Unknown('division')
                v *= float(x) ** e
            s += v
        return s

    # ------------------------------------------------------------- vectors
    def matrix(self, name):
        if name not in self.mats:
            pr = T.OPPROPS.get(name, ())
            m = n = self.dims['n']
            if name == 'M' or name == 'A' and self.rect:
                m = self.dims['m']
            if name == 'M':
                n = m
            a = [[self.rnd((name, i, j)) - 0.3 for j in range(n)] for i in range(m)]
            if 'sym' in pr or 'herm' in pr:
                a = [[a[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
                for i in range(n) if self.definite else ():
                    a[i][i] += 4.0
            self.mats[name] = a
        return self.mats[name]

    rect = False
    scales = False      # tolerances of different magnitudes
    definite = True

    # small systems with entries given one by one
    def entries(self, f, two):
        out = {}
        for (w, b), c in f.t:
            if b.key[0] != 'e':
                raise Unknown('base ' + b.key[0])
            i, j = num(b.key[1]), None
            keep = True
            for l in reversed(w):
                ix = [num(x) if isinstance(x, Poly) else x for x in l[2:]]
                if l[:2] == ('scat', 'col') and two and j is None:
                    j = ix[0]
                elif l[:2] == ('sel', 'sl'):
                    keep = keep and ix[0] <= i < ix[1]
                    i -= ix[0]
                elif l[:2] == ('scat', 'sl'):
                    i += ix[0]
                elif l[:2] == ('sel', 'blk') and j is not None:
                    keep = keep and ix[0] <= i < ix[1] and ix[2] <= j < ix[3]
                    i, j = i - ix[0], j - ix[2]
                else:
                    raise Unknown('letter ' + str(l[:2]))
            if two and j is None:
                raise Unknown('column')
            if keep:
                k = (i, j) if two else i
                out[k] = out.get(k, 0.0) + self.poly(c)
        return out

    def solved(self, key):
        a, b = self.entries(key[1], True), self.entries(key[2], False)
        n = 1 + max([i for i, j in a] + [j for i, j in a] + list(b))
        rows = [[a.get((i, j), 0.0) for j in range(n)] + [b.get(i, 0.0)] for i in range(n)]
        for i in range(n):
            p = max(range(i, n), key=lambda r: abs(rows[r][i]))
            if abs(rows[p][i]) < 1e-9:
                raise Unknown('singular')
            rows[i], rows[p] = rows[p], rows[i]
            for r in range(n):
                if r != i:
                    m = rows[r][i] / rows[i][i]
                    rows[r] = [x - m * y for x, y in zip(rows[r], rows[i])]
        return [rows[i][n] / rows[i][i] for i in range(n)]

    def word(self, w, b):
        k = b.key
        if k[0] != 'v':
            raise Unknown('base ' + k[0])
        # length of the base vector
        n = self.dims['m'] if self.rect and k[1] == 'b' else self.dims['n']
        v = [self.rnd((k, i)) - 0.4 for i in range(n)]
        for l in reversed(w):
            if l[0] != 'op':
                raise Unknown('letter ' + str(l[0]))
            a = self.matrix(l[1])
            if l[2]:
                a = [list(r) for r in zip(*a)]
            if len(a[0]) != len(v):
                raise Unknown('shape')
            v = [sum(x * y for x, y in zip(r, v)) for r in a]
        return v

    def form(self, f):
        out = None
        for (w, b), c in f.t:
            v = self.word(w, b)
            s = self.poly(c)
            v = [s * x for x in v]
            out = v if out is None else [x + y for x, y in zip(out, v)]
        if out is None:
            raise Unknown('zero form')
        return out


def vote(pairs):
    """True: certainly different; False: the same wherever evaluated; None: unknown."""
    same = votes = 0
    for x, y in pairs:
        if len(x) != len(y):
            continue
        s = max([max(abs(a), abs(b)) for a, b in zip(x, y)] + [0.0])
        if s != s or s > 1e12:
            continue
        if all(abs(a - b) <= 1e-7 * (s + 1e-9) for a, b in zip(x, y)):
            same += 1
        else:
            votes += 1
        if votes and same:
            return None         # near cancellation somewhere: no verdict
        if max(votes, same) >= 2:
            return votes > 0
    return None


def evaluations(f, rect, seeds=64):
    for seed in range(1, seeds):
        e = Env(seed)
        e.rect = rect
        try:
            yield f(e)
        except (Unknown, OverflowError, ZeroDivisionError, ValueError, IndexError):
            continue


def differ(p, q, rect=False):
    return vote(evaluations(lambda e: ([e.poly(p)], [e.poly(q)]), rect))


def differ_forms(f, g, rect=False):
    def both(e):
        x = e.form(f) if f.t else None
        y = e.form(g) if g.t else None
        if x is None and y is None:
            raise Unknown('zero')
        return x or [0.0] * len(y), y or [0.0] * len(x)
    return vote(evaluations(both, rect))


# ---------------------------------------------------------------- operators
class Words(Env):
    """Evaluates forms over given operators: complex vectors as {index: value}."""

    def __init__(self, seed, dims, ops, lens):
        Env.__init__(self, seed)
        self.size, self.ops, self.lens = dims, ops, dict(T.RANDOM)
        self.lens.update(lens)

    def atom(self, a):
        if a in self.mem:
            return self.mem[a]
        k = a.key
        if k[0] == 'dim':
            v = self.size[k[1]]
        elif k[0] == 'I':
            v = 1j
        elif k[0] == 's':
            v = 0.3 + self.rnd(k)
            if str(k[1]).endswith('*'):
                v += 1j * (0.2 + self.rnd((k, 'im')))
        elif k[0] == 'cj':
            v = complex(self.atom(k[1])).conjugate()
        elif k[0] == 'inv':
            v = 1.0 / self.poly(k[1])
        elif k[0] == 'dot':
            x, y = self.form(k[1]), self.form(k[2])
            v = sum(x[i] * y[i] for i in x if i in y)
        elif k[0] == 'norm':
            v = math.sqrt(sum(abs(x) ** 2 for x in self.form(k[1]).values()))
        elif k[0] == 'abs':
            v = abs(self.poly(k[1]))
        elif k[0] in ('re', 'im'):
            v = complex(self.poly(k[1]))
            v = v.real if k[0] == 're' else v.imag
        elif k[0] == 'sqrt':
            v = self.poly(k[1])
            if isinstance(v, complex) or v < 0:
                raise Unknown('sqrt')
            v = math.sqrt(v)
        elif k[0] in ('max', 'min'):
            v = (max if k[0] == 'max' else min)(self.poly(p) for p in k[1:])
        elif k[0] == 'eps':
            v = 2.0 ** -52
        elif k[0] == 'pow':
            v = self.poly(k[1]) ** (self.poly(k[2]) if isinstance(k[2], Poly) else float(k[2]))
        else:
            raise Unknown(k[0])
        self.mem[a] = v
        return v

    def poly(self, p):
        s = 0.0
        for m, c in p.t:
            v = float(c)
            for a, e in m:
                v *= self.atom(T._atom_list[a]) ** e
            s += v
        return s

    def count(self, p):
        if not isinstance(p, Poly):
            return int(p)
        v = self.poly(p)
        if isinstance(v, complex) or v != int(v):
            raise Unknown('index')
        return int(v)

    def base(self, b):
        k = b.key
        if k[0] == 'cj':
            return dict((i, complex(x).conjugate()) for i, x in self.base(k[1]).items())
        if k[0] == 'e':
            return {self.count(k[1]): 1.0}
        if k[0] != 'v' or k[1] not in self.lens:
            raise Unknown('base ' + k[0])
        im = 0 if str(k[1]) in T.REALS else 1j
        return dict((i, self.rnd((k, i)) - 0.4 + im * (self.rnd((k, i, 'im')) - 0.6))
                    for i in range(self.count(self.lens[k[1]])))

    def matrix(self, name):
        if name not in self.mats:
            pr = T.OPPROPS.get(name, ())
            m, n = [self.count(x) for x in self.ops[name]['dims']]
            im = 0 if 'real' in pr else 1j
            a = [[self.rnd((name, i, j)) - 0.3 + im * (self.rnd((name, i, j, 'im')) - 0.6) for j in range(n)]
                 for i in range(m)]
            if 'herm' in pr:
                a = [[a[i][j] if i < j else complex(a[j][i]).conjugate() if j < i else complex(a[i][i]).real
                      for j in range(n)] for i in range(n)]
            elif 'sym' in pr:
                a = [[a[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
            if 'pd' in pr or 'psd' in pr:
                a = [[sum(a[i][k] * complex(a[j][k]).conjugate() if im else a[i][k] * a[j][k] for k in range(n))
                      for j in range(n)] for i in range(n)]
            self.mats[name] = a
        return self.mats[name]

    def word(self, w, b):
        v = self.base(b)
        for l in reversed(w):
            if l[0] == 'op' and l[1] in self.ops:
                a = self.matrix(l[1])
                if l[3]:
                    a = [[complex(x).conjugate() for x in r] for r in a]
                if l[2]:
                    a = [list(r) for r in zip(*a)]
                if any(i < 0 or i >= len(a[0]) for i in v):
                    raise Unknown('shape')
                v = dict((i, sum(r[j] * x for j, x in v.items())) for i, r in enumerate(a))
            elif l[0] == 'diag':
                d = self.base(l[1])
                v = dict((i, d[i] * x) for i, x in v.items() if i in d)
            elif l[:2] == ('sel', 'sl'):
                lo, hi = self.count(l[2]), self.count(l[3])
                v = dict((i - lo, x) for i, x in v.items() if lo <= i < hi)
            elif l[:2] == ('scat', 'sl'):
                lo = self.count(l[2])
                if any(i >= self.count(l[3]) - lo for i in v):
                    raise Unknown('slice')
                v = dict((i + lo, x) for i, x in v.items())
            else:
                raise Unknown('letter ' + str(l[:2]))
        return v

    def form(self, f):
        out = {}
        for (w, b), c in f.t:
            s = self.poly(c)
            for i, x in self.word(w, b).items():
                out[i] = out.get(i, 0.0) + s * x
        return out


def differ_words(f, g, dims, ops, lens, facts):
    """The sizes are fixed small numbers that satisfy what the path has assumed."""
    def runs():
        for seed in range(1, 24):
            size = dict((d, 2 + (seed + 3 * i) % 5) for i, d in enumerate(sorted(dims)))
            e = Words(seed, size, ops, lens)
            try:
                if not all(holds(e, p, s) for p, s in facts):
                    continue
                x, y = e.form(f), e.form(g)
            except (Unknown, OverflowError, ZeroDivisionError, ValueError, IndexError, KeyError):
                continue
            ix = sorted(set(x) | set(y))
            if ix:
                yield [x.get(i, 0.0) for i in ix], [y.get(i, 0.0) for i in ix]
    return vote(runs())


def feasible(dims, ops, lens, facts):
    """Whether some symbols satisfy all that a path assumes (False: none found)."""
    for seed in range(1, 24):
        size = dict((d, 2 + (seed + 3 * i) % 5) for i, d in enumerate(sorted(dims)))
        e = Words(seed, size, ops, lens)
        try:
            if all(('0' if abs(v) < 1e-12 else '+' if v > 0 else '-') in s for v, s in ((e.poly(p), s) for p, s in facts)):
                return True
        except (Unknown, OverflowError, ZeroDivisionError, ValueError, IndexError, KeyError, TypeError):
            continue
    return False


def holds(e, p, s):
    try:
        v = e.poly(p)
    except Unknown:
        return True
    if isinstance(v, complex):
        return True
    return ('0' if v == 0 else '+' if v > 0 else '-') in s


def witness(facts, rect):
    """Symbols that satisfy every comparison between inputs a path assumes."""
    facts = [(p, s) for p, s in facts if not any(a.key[0] == 'phi' for a in T.deps(p))]
    for seed in range(1, 80):
        e = Env(seed)
        e.rect = rect
        e.scales = True
        e.definite = bool(seed % 2)
        try:
            if all(('0' if x == 0 else '+' if x > 0 else '-') in s for x, s in ((e.poly(p), s) for p, s in facts)):
                return True
        except (Unknown, OverflowError, ZeroDivisionError, ValueError, IndexError, KeyError, TypeError):
            continue
    return False
