"""Term algebra of the abstract domain.

Scalars are Laurent polynomials (Poly) over interned atoms; vectors are linear
combinations (Form) of words of operator letters applied to base vectors.
Everything is interned, so equality is identity and joins are cheap.
No simplification beyond canonical forms, no solver.
"""
from fractions import Fraction

_atoms = {}
_atom_list = []


class Atom(object):
    __slots__ = ('key', 'id')

    def __repr__(self):
        return show_atom(self)


def atom(*key):
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.key = key
        a.id = len(_atom_list)
        _atoms[key] = a
        _atom_list.append(a)
    return a


_fresh = [0]


def fresh(kind, hint=''):
    _fresh[0] += 1
    return atom(kind, _fresh[0], hint)


# ------------------------------------------------------------------ Poly
_polys = {}


class Poly(object):
    __slots__ = ('t', 'id', '_atoms', '_nc', '_neg', '_mo')
    # t: frozenset of (monomial, coef); monomial: tuple of (atom id, exp)

    def __repr__(self):
        return show_poly(self)

    @property
    def terms(self):
        return dict(self.t)

    def is_const(self):
        return len(self.t) == 0 or (len(self.t) == 1 and next(iter(self.t))[0] == ())

    def const(self):
        if len(self.t) == 0:
            return Fraction(0)
        if len(self.t) == 1:
            m, c = next(iter(self.t))
            if m == ():
                return c
        return None

    def atoms(self):
        if self._atoms is None:
            s = set()
            for m, c in self.t:
                for a, e in m:
                    s.add(_atom_list[a])
            self._atoms = frozenset(s)
        return self._atoms


def mkpoly(d):
    t = frozenset((m, c) for m, c in d.items() if c != 0)
    p = _polys.get(t)
    if p is None:
        p = Poly()
        p.t = t
        p.id = len(_polys)
        p._atoms = None
        p._nc = p._neg = p._mo = None
        _polys[t] = p
    return p


ZERO = mkpoly({})
ONE = mkpoly({(): Fraction(1)})


def pconst(v):
    if isinstance(v, Poly):
        return v
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return patom(atom('special', repr(v)))
        return mkpoly({(): Fraction(v)})
    if isinstance(v, complex):
        if v.imag == 0:
            return pconst(v.real)
        return padd(pconst(v.real), pmul(pconst(v.imag), patom(atom('I'))))
    return mkpoly({(): Fraction(v)})


def patom(a):
    return mkpoly({((a.id, 1),): Fraction(1)})


def psym(name):
    return patom(atom('s', name))


def padd(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    d = dict(a.t)
    for m, c in b.t:
        d[m] = d.get(m, 0) + c
    return mkpoly(d)


def pscale(a, c):
    if c == 1:
        return a
    return mkpoly(dict((m, k * c) for m, k in a.t))


def pneg(a):
    if a._neg is None:
        a._neg = b = pscale(a, -1)
        b._neg = a
    return a._neg


def monos(a):
    if a._mo is None:
        a._mo = frozenset(m for m, c in a.t)
    return a._mo


def nonconst(a):
    """(a without its constant term, the negation of that, the constant term)"""
    if a._nc is None:
        c = 0
        d = {}
        for m, k in a.t:
            if m == ():
                c = k
            else:
                d[m] = k
        q = mkpoly(d) if c else a
        a._nc = (q, pneg(q), c)
    return a._nc


def psub(a, b):
    return padd(a, pneg(b))


def _mulmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        e2 = d.get(a, 0) + e
        if e2 == 0:
            d.pop(a, None)
        else:
            d[a] = e2
    return tuple(sorted(d.items()))


TOOBIG = 400


def pmul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if len(a.t) * len(b.t) > TOOBIG:
        return patom(atom('mul', *sorted((a, b), key=lambda p: p.id)))
    d = {}
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    if EXPAND[0]:
        return unroot(mkpoly(d))
    return mkpoly(d)


def unroot(p):
    """sqrt(q)^2 is q"""
    out = None
    for m, c in p.t:
        for a, e in m:
            if (e >= 2 or e <= -2) and _atom_list[a].key[0] == 'sqrt':
                k, r = divmod(abs(e), 2)
                rest = tuple((x, y) for x, y in m if x != a)
                if r:
                    rest = tuple(sorted(rest + ((a, 1 if e > 0 else -1),)))
                q = pdiv(ONE, ppow(_atom_list[a].key[1], k)) if e < 0 else ppow(_atom_list[a].key[1], k)
                if out is None:
                    out = p
                out = padd(psub(out, mkpoly({m: c})), pmul(mkpoly({rest: c}), q))
                break
    return p if out is None else out


def pdiv(a, b):
    if b is ZERO:
        return patom(atom('div0', a))
    if a is ZERO:
        return ZERO
    if a is b:
        return ONE
    if len(b.t) == 1:
        m, c = next(iter(b.t))
        inv = mkpoly({tuple((x, -e) for x, e in m): 1 / c})
        return pmul(a, inv)
    if MOVE[0]:
        q = exact(a, b)
        if q is not None:
            return q
    return pmul(a, patom(atom('inv', b)))


def exact(a, b):
    """a / b when b divides a (division by the leading term), else None."""
    ids = sorted(set(x for p in (a, b) for m, c in p.t for x, e in m))

    def lead(p):
        return max(p.t, key=lambda x: [dict(x[0]).get(i, 0) for i in ids])
    mb, cb = lead(b)
    inv = tuple((x, -e) for x, e in mb)
    q = ZERO
    for _ in range(12):
        if a is ZERO:
            return q
        ma, ca = lead(a)
        t = mkpoly({_mulmono(ma, inv): ca / cb})
        q = padd(q, t)
        a = psub(a, pmul(t, b))
    return None


def ppow(a, k):
    """k: integer"""
    if k == 0:
        return ONE
    if k < 0:
        return pdiv(ONE, ppow(a, -k))
    r = ONE
    while k:
        r = pmul(r, a)
        k -= 1
        if len(r.t) > 60:
            return pmul(r, patom(atom('ipow', a, k))) if k else r
    return r


def pmap(p, fn):
    """Rebuild p with every atom a replaced by the Poly fn(a)."""
    out = ZERO
    changed = False
    reps = {}
    for a in p.atoms():
        r = fn(a)
        if r is not None:
            reps[a.id] = r
            changed = True
    if not changed:
        return p
    for m, c in p.t:
        q = pconst(c)
        for a, e in m:
            r = reps.get(a)
            if r is None:
                f = mkpoly({((a, e),): Fraction(1)})
            elif e > 0:
                f = ppow(r, e)
            else:
                f = pdiv(ONE, ppow(r, -e))
            q = pmul(q, f)
        out = padd(out, q)
    return out


def lead_negative(items):
    """Deterministic sign choice for a nonempty collection of (key, coef)."""
    k, c = min(items, key=lambda kc: repr_key(kc[0]))
    return c


def repr_key(k):
    return repr(k)


# ------------------------------------------------------------------ letters
# An operator letter is a tuple ('op', name, t, c); flags are normalised with
# the declared structure of the symbol.
OPPROPS = {}


def op_letter(name, t=False, c=False):
    pr = OPPROPS.get(name, ())
    if 'real' in pr:
        c = False
    if 'sym' in pr:
        t = False
    if 'herm' in pr:
        # A^H = A ;  A^T = conj(A)
        if t and c:
            t = c = False
        elif t:
            t, c = False, True
    if 'ident' in pr:
        return None
    return ('op', name, bool(t), bool(c))


def letter_T(l):
    k = l[0]
    if k == 'op':
        return op_letter(l[1], not l[2], l[3])
    if k == 'diag' or k == 'tp':
        return l
    if k == 'sel':
        return ('scat',) + l[1:]
    if k == 'scat':
        return ('sel',) + l[1:]
    return ('tr', l)


def letter_conj(l):
    k = l[0]
    if k == 'op':
        return op_letter(l[1], l[2], not l[3])
    if k == 'diag':
        return ('diag', conj_base(l[1]))
    return l


def conj_base(b):
    k = b.key
    if k[0] == 'cj':
        return k[1]
    if k[0] in ('s', 'v') and str(k[1]) in REALS or k[0] in ('ones', 'e'):
        return b
    if k[0] == 'fn' and k[1] == 'abs':
        return b
    if k[0] == 'fn' and isinstance(k[2], Form) and k[1] in ('sign', 'exp') and fconj(k[2]) == k[2]:
        return b
    return atom('cj', b)


REALS = set()
PREALS = set()   # atom ids known real


def conj_atom(a):
    k = a.key
    if k[0] == 'cj':
        return k[1]
    if k[0] in ('norm', 'abs', 're', 'im', 'special', 'len', 'dim'):
        return a
    if k[0] == 's' and not str(k[1]).endswith('*'):
        return a
    if k[0] == 'I':
        return None   # handled by caller
    if k[0] == 'el' and not k[1]:
        b = conj_base(k[2])
        if b is k[2]:
            return a
        return atom('el', (), b, k[3])
    return atom('cj', a)


def pconj(p):
    def f(a):
        if a.key[0] == 'I':
            return pneg(patom(a))
        b = conj_atom(a)
        if b is a:
            return None
        return patom(b)
    return pmap(p, f)


# ------------------------------------------------------------------ Form
_forms = {}


class Form(object):
    __slots__ = ('t', 'id', '_bases')

    def __repr__(self):
        return show_form(self)

    def bases(self):
        if self._bases is None:
            self._bases = frozenset(k[1] for k, c in self.t)
        return self._bases


def mkform(d):
    t = frozenset((k, c) for k, c in d.items() if c is not ZERO)
    f = _forms.get(t)
    if f is None:
        f = Form()
        f.t = t
        f.id = len(_forms)
        f._bases = None
        _forms[t] = f
    return f


FZERO = mkform({})


def fbase(b, word=()):
    return mkform({(word, b): ONE})


def fvec(name):
    return fbase(atom('v', name))


def fadd(a, b):
    d = dict(a.t)
    for k, c in b.t:
        o = d.get(k)
        d[k] = c if o is None else padd(o, c)
    return mkform(d)


def fscale(a, p):
    if p is ONE:
        return a
    return mkform(dict((k, pmul(c, p)) for k, c in a.t))


def fneg(a):
    return fscale(a, pconst(-1))


def fsub(a, b):
    return fadd(a, fneg(b))


# slice relations are decided with the nonnegativity of dimension symbols
def nonneg_dim(p):
    """Sufficient test: every coefficient is nonnegative on dim monomials."""
    for m, c in p.t:
        if c < 0:
            return False
        for a, e in m:
            if _atom_list[a].key[0] not in ('dim', 'len') or e < 0:
                return False
    return True


def simplify_word(word):
    """Cancel selection/scatter pairs.  Returns word or None (zero)."""
    w = list(word)
    i = 0
    while i + 1 < len(w):
        a, b = w[i], w[i + 1]
        if a == ('tp',) and b == ('tp',):
            del w[i:i + 2]
            i = max(0, i - 1)
            continue
        if a[0] == 'sel' and b[0] == 'scat':
            if a[1:] == b[1:]:
                del w[i:i + 2]
                i = max(0, i - 1)
                continue
            if a[1] == 'sl' and b[1] == 'sl':
                a1, b1, a2, b2 = a[2], a[3], b[2], b[3]
                if nonneg_dim(psub(a2, b1)) or nonneg_dim(psub(a1, b2)):
                    return None
                if a1 is b1 and a2 is b2:
                    del w[i:i + 2]
                    i = max(0, i - 1)
                    continue
            if a[1] in ('col', 'row') and b[1] == a[1]:
                d = psub(a[2], b[2]).const()
                if d is not None and d != 0:
                    return None
        if a[0] == 'sel' and b[0] == 'sel' and a[1] == 'sl' and b[1] == 'sl':
            # x[b][a]: one slice
            w[i:i + 2] = [('sel', 'sl', padd(b[2], a[2]), padd(b[2], a[3]))]
            i = max(0, i - 1)
            continue
        if a[0] == 'scat' and b[0] == 'scat' and a[1] == 'sl' and b[1] == 'sl' and len(a) == 4:
            w[i:i + 2] = [('scat', 'sl', padd(a[2], b[2]), padd(a[2], b[3]))]
            i = max(0, i - 1)
            continue
        i += 1
    return tuple(w)


def fapply(letter, f):
    if letter is None:
        return f
    d = {}
    for (w, b), c in f.t:
        w2 = simplify_word((letter,) + w)
        if w2 is None:
            continue
        k = (w2, b)
        o = d.get(k)
        d[k] = c if o is None else padd(o, c)
    return mkform(d)


def fconj(f):
    d = {}
    for (w, b), c in f.t:
        k = (tuple(letter_conj(l) for l in w), conj_base(b))
        o = d.get(k)
        c = pconj(c)
        d[k] = c if o is None else padd(o, c)
    return mkform(d)


def fmap(f, basefn=None, polyfn=None, letterfn=None):
    """basefn(base)->Form or None; polyfn(Poly)->Poly."""
    out = FZERO
    for (w, b), c in f.t:
        r = basefn(b) if basefn else None
        g = fbase(b) if r is None else r
        for l in reversed(w):
            g = fapply(letterfn(l) if letterfn else l, g)
        out = fadd(out, fscale(g, polyfn(c) if polyfn else c))
    return out


def canon_sign(f):
    """(sign, form) with a deterministic choice of sign."""
    if f is FZERO:
        return 1, f
    n = fneg(f)
    if f.id <= n.id:
        return 1, f
    return -1, n


def dot(f, g, conj_first=False):
    if f is FZERO or g is FZERO:
        return ZERO
    if conj_first:
        f = fconj(f)
    if EXPAND[0] and len(f.t) * len(g.t) <= EXPAND[0]:
        return expanded_dot(f, g)
    s1, f = canon_sign(f)
    s2, g = canon_sign(g)
    if f.id > g.id:
        f, g = g, f
    return pscale(patom(atom('dot', f, g)), s1 * s2)


MOVE = [False]    # operators moved to the second factor of an inner product: (W u)'(Z v) = u'(W^T Z v)


def moved(u, v):
    """Canonical (u, v) for one-term forms u, v."""
    (w1, b1), = [k for k, c in u.t]
    (w2, b2), = [k for k, c in v.t]
    if not all(l[0] == 'op' for l in w1 + w2):
        return u, v
    best = None
    for x, wx, y, wy in ((b1, w1, b2, w2), (b2, w2, b1, w1)):
        g = fbase(y)
        for l in reversed(wy):
            g = fapply(l, g)
        for l in wx:
            g = fapply(letter_T(l), g)
        if len(g.t) != 1:
            return u, v
        f = fbase(x)
        if best is None or (f.id, g.id) < (best[0].id, best[1].id):
            best = (f, g)
    return best


def gram(f, g):
    """w if f'g = w'w for real f = u, g = W^T W u, w = W u."""
    (w1, b1), = [k for k, c in f.t]
    (w2, b2), = [k for k, c in g.t]
    if b1 is not b2 or w1 or len(w2) % 2:
        return None
    if MOVE[0] != 'real' and (fconj(f) is not f or fconj(g) is not g):
        return None
    h = len(w2) // 2
    if not all(l[0] == 'op' for l in w2) or tuple(letter_T(l) for l in reversed(w2[h:])) != w2[:h]:
        return None
    for l in reversed(w2[h:]):
        f = fapply(l, f)
    return f


def positive(f, g):
    """f'g is u'A u of a real u with A declared positive semidefinite (1) or definite and u random, hence nonzero (2);
    negative values for -u'A u; 0: neither."""
    if MOVE[0] != 'real' and fconj(f) is not f:
        return 0
    for name, pr in OPPROPS.items():
        if 'pd' in pr or 'psd' in pr:
            l = op_letter(name)
            for x, y in ((f, g), (g, f)):
                h = fapply(l, x)
                k = 1 if h is y else -1 if fneg(h) is y else 0
                if k:
                    bs = list(x.bases())
                    some = len(x.t) == 1 and not next(iter(x.t))[0][0] and str(bs[0].key[1]).startswith('rnd')
                    return k * (2 if 'pd' in pr and some else 1)
    return 0


def positive_poly(p):
    """A real multiple of such a product (hence real)."""
    if not MOVE[0] or len(p.t) != 1:
        return 0
    m, c = next(iter(p.t))
    if len(m) != 1 or m[0][1] != 1:
        return 0
    k = _atom_list[m[0][0]].key
    return abs(positive(k[1], k[2])) if k[0] == 'dot' else 0


RANDOM = {}       # length of each random vector

EXPAND = [0]      # bilinear expansion of inner products with up to so many terms


def expanded_dot(f, g):
    out = ZERO
    for (w1, b1), c1 in f.t:
        for (w2, b2), c2 in g.t:
            u, v = mkform({(w1, b1): ONE}), mkform({(w2, b2): ONE})
            if MOVE[0]:
                u, v = moved(u, v)
                h = gram(u, v)
                if h is not None:
                    p = pmul(norm(h), norm(h))
                    out = padd(out, pmul(pmul(c1, c2), p))
                    continue
            if u is v and fconj(u) is u:
                p = pmul(norm(u), norm(u))
            else:
                if u.id > v.id:
                    u, v = v, u
                p = patom(atom('dot', u, v))
            out = padd(out, pmul(pmul(c1, c2), p))
    return out


def norm(f):
    if f is FZERO:
        return ZERO
    if EXPAND[0] and len(f.t) == 1:
        (k, c), = f.t
        if c is not ONE and pconj(c) is c:
            return pmul(pabs(c), norm(mkform({k: ONE})))
    s, f = canon_sign(f)
    return patom(atom('norm', f))


def sqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        import math
        n, d = c.numerator, c.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return pconst(Fraction(rn, rd))
    if len(p.t) == 1:
        m, c = next(iter(p.t))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            k = _atom_list[m[0][0]].key
            if k[0] == 'dot' and k[1] is k[2]:
                return patom(atom('norm', k[1]))
        if EXPAND[0] and c == 1 and m and all(e % 2 == 0 and _atom_list[a].key[0] in ('norm', 'sqrt', 'abs') for a, e in m):
            return mkpoly({tuple((a, e // 2) for a, e in m): c})
    return patom(atom('sqrt', p))


def pabs(p):
    c = p.const()
    if c is not None:
        return pconst(abs(c))
    if len(p.t) == 1:
        m, c = next(iter(p.t))
        if all(_atom_list[a].key[0] in ('norm', 'abs', 'sqrt', 'dim', 'len') for a, e in m):
            return pconst(abs(c)) if m == () else mkpoly({m: abs(c)})
    if p.id > pneg(p).id:
        p = pneg(p)
    return patom(atom('abs', p))


def pmax(ps):
    return _extreme('max', ps, max)


def pmin(ps):
    return _extreme('min', ps, min)


def _extreme(kind, ps, fn):
    out, c = [], None
    for p in ps:
        k = p.const()
        if k is not None:
            c = k if c is None else fn(c, k)
            continue
        sub = [p]
        if len(p.t) == 1:
            m, co = next(iter(p.t))
            if co == 1 and len(m) == 1 and m[0][1] == 1 and _atom_list[m[0][0]].key[0] == kind:
                sub = list(_atom_list[m[0][0]].key[1:])
        for q in sub:
            if q not in out:
                out.append(q)
    if c is not None:
        out.append(pconst(c))
    if len(out) == 1:
        return out[0]
    return patom(atom(kind, *sorted(out, key=lambda p: p.id)))


def single_atom(p):
    """The atom a if p is exactly 1*a, else None."""
    if len(p.t) == 1:
        m, c = next(iter(p.t))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _atom_list[m[0][0]]
    return None


def single_base(f):
    """The base b if f is exactly 1*b, else None."""
    if len(f.t) == 1:
        (w, b), c = next(iter(f.t))
        if c is ONE and w == ():
            return b
    return None


def ebase(i):
    return atom('e', i)


def elem(f, i):
    """The i-th component of a vector, as a Poly."""
    out = ZERO
    for (w, b), c in f.t:
        out = padd(out, pmul(c, _elem(w, b, i)))
    return out


def _elem(w, b, i):
    if not w:
        if b.key[0] == 'e':
            d = psub(b.key[1], i).const()
            if d is not None:
                return ONE if d == 0 else ZERO
            return patom(atom('delta', *sorted((b.key[1], i), key=lambda p: p.id)))
        if b.key[0] == 'ones':
            return ONE
        if b.key[0] == 'had':
            return pmul(elem(b.key[1], i), elem(b.key[2], i))
        return patom(atom('el', (), b, i))
    l = w[0]
    if l[0] == 'sel' and l[1] == 'sl':
        return _elem(w[1:], b, padd(i, l[2]))
    if l[0] == 'scat' and l[1] == 'sl':
        j = psub(i, l[2])
        cj, ci, c1 = psub(i, l[2]).const(), psub(i, l[3]).const(), None
        if (cj is not None and cj < 0) or (ci is not None and ci >= 0):
            return ZERO
        if cj is not None and cj >= 0 and (ci is not None or nonneg_dim(psub(psub(l[3], i), ONE))):
            return _elem(w[1:], b, j)
    if l[0] == 'diag':
        return pmul(elem(fbase(l[1]), i), _elem(w[1:], b, i))
    return patom(atom('el', w, b, i))


def elem2(f, i, j):
    """Component (i,j) of a two-dimensional array."""
    return elem(fapply(('sel', 'col', j), f), i)


def setelem(f, i, p):
    """f with its i-th component replaced by p."""
    return fadd(f, fscale(fbase(ebase(i)), psub(p, elem(f, i))))


def had(f, g):
    """Componentwise product."""
    out = FZERO
    for (w1, b1), c1 in f.t:
        for (w2, b2), c2 in g.t:
            out = fadd(out, fscale(_had(w1, b1, w2, b2), pmul(c1, c2)))
    return out


def _had(w1, b1, w2, b2):
    if not w1 and b1.key[0] == 'ones':
        return fbase(b2, w2)
    if not w2 and b2.key[0] == 'ones':
        return fbase(b1, w1)
    if not w1 and b1.key[0] == 'e':
        return fscale(fbase(b1), _elem(w2, b2, b1.key[1]))
    if not w2 and b2.key[0] == 'e':
        return fscale(fbase(b2), _elem(w1, b1, b2.key[1]))
    if not w1 and (w2 or b1.id <= b2.id):
        return fapply(('diag', b1), fbase(b2, w2))
    if not w2:
        return fapply(('diag', b2), fbase(b1, w1))
    x, y = sorted((fbase(b1, w1), fbase(b2, w2)), key=lambda f: f.id)
    return fbase(atom('had', x, y))


def fmul1(kind, f):
    """Opaque componentwise function of a vector (abs, sqrt, ...)."""
    if f is FZERO and kind in ('abs', 'sqrt', 're', 'im'):
        return FZERO
    if kind == 'abs':
        s, f = canon_sign(f)
    return fbase(atom('fn', kind, f))


# ------------------------------------------------------------------ subst
def _re_poly(kind):
    return lambda *a: patom(atom(kind, *a))


REBUILD = {
    'dot': lambda f, g: dot(f, g),
    'norm': lambda f: norm(f),
    'abs': lambda p: pabs(p),
    'sqrt': lambda p: sqrt(p),
    'max': lambda *ps: pmax(ps),
    'min': lambda *ps: pmin(ps),
    'inv': lambda p: pdiv(ONE, p),
    'mul': lambda p, q: pmul(p, q),
    'div0': lambda p: patom(atom('div0', p)),
    'el': lambda w, b, i: elem(fapplyword(w, b), i),
    'delta': lambda i, j: elem(fbase(ebase(i)), j),
}


def fapplyword(w, g):
    if isinstance(g, Atom):
        g = fbase(g)
    for l in reversed(w):
        g = fapply(l, g)
    return g


class Subst(object):
    """Simultaneous substitution of atoms (by Poly) and bases (by Form)."""

    def __init__(self, pm, fm):
        self.pm, self.fm = pm, fm
        self.mp, self.mf, self.ma = {}, {}, {}

    def part(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Form):
            return self.form(x)
        if isinstance(x, Atom):
            b = self.base(x)
            return x if b is None else b
        if isinstance(x, tuple):
            return tuple(self.part(y) for y in x)
        return x

    def atom(self, a):
        """Poly replacing scalar atom a, or None if unchanged."""
        r = self.pm.get(a)
        if r is not None:
            return r
        if a in self.ma:
            return self.ma[a]
        k = a.key
        out = None
        if k[0] == 'cj' and isinstance(k[1], Atom):
            r = self.atom(k[1])
            if r is not None:
                out = pconj(r)
        elif k[0] not in ('phi', 's', 'opt', 'dim', 'special', 'I'):
            parts = tuple(self.part(x) for x in k[1:])
            if any(x is not y and x != y for x, y in zip(parts, k[1:])):
                fn = REBUILD.get(k[0])
                out = fn(*parts) if fn else patom(atom(k[0], *parts))
        self.ma[a] = out
        return out

    def poly(self, p):
        r = self.mp.get(p)
        if r is None:
            r = self.mp[p] = pmap(p, self.atom)
        return r

    def base(self, b):
        """Form replacing base b, or None if unchanged."""
        r = self.fm.get(b)
        if r is not None:
            return r
        k = b.key
        if k[0] in ('phi', 'v'):
            return None
        if k[0] == 'cj':
            r = self.base(k[1])
            return None if r is None else fconj(r)
        parts = tuple(self.part(x) for x in k[1:])
        if all(x is y or x == y for x, y in zip(parts, k[1:])):
            return None
        if k[0] == 'had':
            return had(*parts)
        if k[0] == 'fn':
            return fmul1(*parts)
        return fbase(atom(k[0], *parts))

    def letter(self, l):
        if l[0] == 'op':
            return l
        if l[0] == 'diag':
            r = self.base(l[1])
            if r is None:
                return l
            b = single_base(r)
            return ('diag', b) if b is not None else ('hadf', r)
        return tuple(self.part(x) for x in l)

    def form(self, f):
        r = self.mf.get(f)
        if r is None:
            r = self.mf[f] = fmap(f, self.base, self.poly, self.letter)
        return r


def walk_atoms(x, seen):
    """Adds every atom and base occurring in x (recursively) to seen."""
    if isinstance(x, Poly):
        for a in x.atoms():
            walk_atoms(a, seen)
    elif isinstance(x, Form):
        for (w, b), c in x.t:
            walk_atoms(w, seen)
            walk_atoms(b, seen)
            walk_atoms(c, seen)
    elif isinstance(x, Atom):
        if x not in seen:
            seen.add(x)
            for y in x.key[1:]:
                walk_atoms(y, seen)
    elif isinstance(x, tuple):
        for y in x:
            walk_atoms(y, seen)


_dep = {}


def deps(x):
    """Frozenset of all atoms and bases occurring in x."""
    r = _dep.get(x)
    if r is None:
        s = set()
        walk_atoms(x, s)
        r = _dep[x] = frozenset(s)
    return r


# ------------------------------------------------------------------ show
def show_atom(a):
    k = a.key
    if k[0] in ('s', 'v', 'dim'):
        return str(k[1])
    if k[0] == 'phi':
        return (k[2] or 'phi') + '#%d' % k[1]
    if k[0] == 'opt':
        return str(k[1])
    return k[0] + '(' + ', '.join(str(x) for x in k[1:]) + ')'


def show_poly(p):
    if p is ZERO:
        return '0'
    out = []
    for m, c in sorted(p.t, key=lambda mc: mc[0]):
        s = '*'.join(show_atom(_atom_list[a]) + ('' if e == 1 else '^%d' % e) for a, e in m)
        if not s:
            s = _num(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = _num(c) + '*' + s
        out.append(s)
    return ' + '.join(out)


def _num(c):
    if c.denominator == 1:
        return str(c.numerator)
    return '%g' % float(c)


def show_letter(l):
    if l[0] == 'op':
        return l[1] + ('^H' if l[2] and l[3] else '^T' if l[2] else '^c' if l[3] else '')
    return l[0] + '[' + ','.join(str(x) for x in l[1:]) + ']'


def show_form(f):
    if f is FZERO:
        return '0'
    out = []
    for (w, b), c in sorted(f.t, key=lambda kc: repr(kc[0])):
        s = ' '.join(show_letter(l) for l in w)
        s = (s + ' ' if s else '') + show_atom(b)
        if c is not ONE:
            s = '(%s)*%s' % (c, s)
        out.append(s)
    return ' + '.join(out)
