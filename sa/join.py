"""Joins of states: equal skeletons are merged by anti-unification of leaves."""
from terms import *
import terms as T
from values import *
import signs as S

LETTERS = []            # operator letters tried in vector templates
INRANGE = {}            # phi base -> frozenset of operator names whose range contains it
STATS = {'joins': 0, 'phis': 0, 'maxparts': 0, 'relaxed': 0}
CAP = 40
HARDCAP = 120


def inrange(f):
    """Names of operators whose range surely contains f."""
    out = None
    if f is FZERO:
        return None       # every operator
    for (w, b), c in f.t:
        s = set()
        if w and w[0][0] == 'op':
            s.add(w[0][1:])
        elif not w:
            s |= INRANGE.get(b, frozenset())
        out = s if out is None else out & s
    return frozenset(out)


class Merge(object):
    def __init__(self, s1, L1, s2, L2, own, w1=None):
        self.w1 = w1
        self.blame = False
        self.s1, self.s2 = s1, s2
        self.L1, self.L2 = L1, L2
        self.own = own
        self.spm, self.sfm = {}, {}
        self.changed = False
        self.kp = {}       # (poly, poly) -> joined poly
        self.kf = {}       # (form, form) -> joined form
        self.fresh = []    # (phi poly, a, b)

    def pure(self, a):
        if isinstance(a, Poly):
            x = single_atom(a)
        else:
            x = single_base(a)
        return x if x is not None and x in self.own else None

    def touches_own(self, a):
        return not self.own.isdisjoint(T.deps(a)) if self.own else False

    def run(self):
        n = len(self.L1)
        out = [None] * n
        for i in range(n):
            a, b = self.L1[i], self.L2[i]
            x = self.pure(a)
            if x is not None:
                m = self.spm if isinstance(a, Poly) else self.sfm
                if x not in m:
                    m[x] = b
                if m[x] is b:
                    out[i] = a
        # phis that no longer occur as a leaf keep their meaning only if unchanged
        self.sub = Subst(self.spm, self.sfm)
        missing = self.own - set(self.spm) - set(self.sfm)
        pend = []
        for i in range(n):
            if out[i] is not None:
                continue
            a, b = self.L1[i], self.L2[i]
            if self.own and self.touches_own(a):
                if not missing.isdisjoint(T.deps(a)):
                    pass
                t = self.sub.poly(a) if isinstance(a, Poly) else self.sub.form(a)
                if t is b and (missing.isdisjoint(T.deps(a))):
                    out[i] = a
                    continue
                if a is b and self.identity(a):
                    out[i] = a
                    continue
            elif a is b:
                out[i] = a
                continue
            pend.append(i)
        for i in range(n):
            if out[i] is not None and out[i] is self.L1[i]:
                key = (self.L1[i], self.L2[i])
                if isinstance(out[i], Form):
                    self.kf.setdefault(key, out[i])
                else:
                    self.kp.setdefault(key, out[i])
        if pend:
            self.changed = True
            self.forms(pend, out)
            self.polys(pend, out)
        self.out = out
        self.facts()
        return self

    def identity(self, a):
        for x in T.deps(a):
            if x in self.own:
                if self.spm.get(x) is not patom(x) and self.sfm.get(x) is not fbase(x):
                    return False
        return True

    # ------------------------------------------------------------- vectors
    def express(self, a, b, nontrivial=False, against=None):
        r = self.kf.get((a, b))
        if r is not None and against is None:
            return r
        if a is b and not self.touches_own(a):
            return a
        items = self.kf.items() if against is None else against
        for (u, v), w in items:
            if u is v and not nontrivial and u is w:
                continue
            for W in [None] + LETTERS:
                if W is None and nontrivial:
                    continue
                wu, wv = (u, v) if W is None else (applyw(W, u), applyw(W, v))
                for c in (1, -1):
                    k1 = fsub(a, wu) if c == 1 else fadd(a, wu)
                    k2 = fsub(b, wv) if c == 1 else fadd(b, wv)
                    if k1 is k2 and not self.touches_own(k1):
                        if w is None:
                            return True
                        ww = w if W is None else applyw(W, w)
                        return fadd(k1, ww if c == 1 else fneg(ww))
        return None

    def forms(self, pend, out):
        groups = []
        seen = {}
        for i in pend:
            a, b = self.L1[i], self.L2[i]
            if isinstance(a, Form):
                if (a, b) not in seen:
                    seen[a, b] = []
                    groups.append((a, b))
                seen[a, b].append(i)
        todo = list(groups)
        while todo:
            progress = False
            for g in list(todo):
                r = self.express(g[0], g[1])
                if r is not None:
                    self.kf[g] = r
                    todo.remove(g)
                    progress = True
            if not todo:
                break
            if progress:
                continue
            # choose a base: one not derivable from another pending pair
            base = None
            for g in todo:
                others = [((u, v), None) for (u, v) in todo if (u, v) != g]
                if not others or self.express(g[0], g[1], True, others) is None:
                    base = g
                    break
            if base is None:
                base = todo[0]
            self.kf[base] = self.new_form(base)
            todo.remove(base)
        for g in groups:
            for i in seen[g]:
                out[i] = self.kf[g]

    def new_form(self, g):
        STATS['phis'] += 1
        x = fresh('phi')
        self.own.add(x)
        a, b = inrange(g[0]), inrange(g[1])
        INRANGE[x] = (b if a is None else a if b is None else a & b) or frozenset()
        self.fresh.append((fbase(x), g[0], g[1]))
        return fbase(x)

    # ------------------------------------------------------------- scalars
    def lgg(self, a, b, depth=4):
        r = self.kp.get((a, b))
        if r is not None:
            return r
        if a is b and not self.touches_own(a):
            return a
        if depth == 0:
            return None
        if len(a.t) == 1 and len(b.t) == 1:
            (m1, c1), = a.t
            (m2, c2), = b.t
            if c1 == c2 and len(m1) == len(m2):
                rest2 = list(m2)
                acc = pconst(c1)
                for at1, e1 in m1:
                    done = False
                    for k, (at2, e2) in enumerate(rest2):
                        if e1 != e2:
                            continue
                        r = self.lgg_atom(T._atom_list[at1], T._atom_list[at2], depth)
                        if r is not None:
                            acc = pmul(acc, ppow(r, e1))
                            del rest2[k]
                            done = True
                            break
                    if not done:
                        return None
                return acc
        return None

    def lgg_atom(self, x, y, depth):
        if x is y and not self.touches_own(patom(x)):
            return patom(x)
        r = self.kp.get((patom(x), patom(y)))
        if r is not None:
            return r
        k1, k2 = x.key, y.key
        if k1[0] != k2[0] or len(k1) != len(k2) or k1[0] not in REBUILD:
            return None
        if k1[0] == 'norm':
            for f2 in (k2[1], fneg(k2[1])):
                r = self.express(k1[1], f2)
                if r is not None:
                    return norm(r)
            return None
        if k1[0] == 'dot':
            for f2, g2 in ((k2[1], k2[2]), (k2[2], k2[1])):
                for s in (1, -1):
                    p, q = (f2, g2) if s == 1 else (fneg(f2), fneg(g2))
                    r = self.express(k1[1], p)
                    t = self.express(k1[2], q)
                    if r is not None and t is not None:
                        return dot(r, t)
            return None
        parts = []
        for p, q in zip(k1[1:], k2[1:]):
            if isinstance(p, Poly) and isinstance(q, Poly):
                r = self.lgg(p, q, depth - 1)
            elif isinstance(p, Form) and isinstance(q, Form):
                r = self.express(p, q)
            elif p == q:
                r = p
            else:
                r = None
            if r is None:
                return None
            parts.append(r)
        return REBUILD[k1[0]](*parts)

    def linear(self, a, b):
        for (u, v), w in self.kp.items():
            if u is v:
                continue
            for c in (1, -1, 2, -2, Fraction(1, 2)):
                k1 = psub(a, pscale(u, c))
                k2 = psub(b, pscale(v, c))
                if k1 is k2 and not self.touches_own(k1):
                    return padd(k1, pscale(w, c))
        return None

    def polys(self, pend, out):
        todo = []
        for i in pend:
            if not isinstance(self.L1[i], Poly):
                continue
            todo.append(i)
        for i in list(todo):
            a, b = self.L1[i], self.L2[i]
            r = self.lgg(a, b)
            if r is not None:
                out[i] = self.kp[a, b] = r
                todo.remove(i)
        # integers first, so that counters serve as bases
        todo.sort(key=lambda i: (not (S.is_intpoly(self.L1[i]) and S.is_intpoly(self.L2[i])), i))
        for i in todo:
            a, b = self.L1[i], self.L2[i]
            r = self.lgg(a, b)
            if r is None:
                r = self.linear(a, b)
            if r is None:
                r = self.new_poly(a, b)
            out[i] = self.kp[a, b] = r

    def new_poly(self, a, b):
        STATS['phis'] += 1
        x = fresh('phi')
        self.own.add(x)
        if S.is_intpoly(a) and S.is_intpoly(b):
            S.INTPHI.add(x)
            if self.w1 is not None and self.w1.keeplit == 0 and a.const() is not None and b.const() is not None:
                self.blame = True
        self.fresh.append((patom(x), a, b))
        return patom(x)

    # --------------------------------------------------------------- facts
    def facts(self):
        s1, s2 = self.s1, self.s2
        pm, fm = dict(self.spm), dict(self.sfm)
        for w, a, b in self.fresh:
            if isinstance(w, Poly):
                pm[single_atom(w)] = b
            else:
                fm[single_base(w)] = b
        rho2 = Subst(pm, fm)
        known = set(pm) | set(fm)
        new = {}

        def consider(D, sA):
            if not (self.own & T.deps(D)) <= known:
                return
            t = rho2.poly(D)
            sB = S.sign(s2, t)
            u = sA | sB
            if u != S.full(D) and D not in new and D.const() is None:
                q, f = S.canon(D)
                new[q] = S.sflip(u) if f else u

        for q, s in list(s1.signs.items()):
            consider(q, s)
        base = dict(new)
        for w, a, b in self.fresh:
            if not isinstance(w, Poly):
                continue
            u = S.sign(s1, a) | S.sign(s2, b)
            q, f = S.canon(w)
            if u != S.full(w):
                new[q] = S.sflip(u) if f else u
            mo = T.monos(a)
            for d1, s in s1.signs.items():
                if mo.isdisjoint(T.monos(d1)):
                    continue
                for c in (1, -1):
                    k = psub(d1, pscale(a, c))
                    if len(k.t) < len(d1.t) or k.const() is not None:
                        consider(padd(k, pscale(w, c)), s)
        # facts of the second state that the first can confirm
        if self.fresh or not self.own:
            inv = {}
            for w, a, b in self.fresh:
                if isinstance(w, Poly):
                    inv.setdefault(b, (w, a))
            for d2, s in s2.signs.items():
                if self.own & T.deps(d2):
                    continue
                if d2 not in new:
                    u = s | S.sign(s1, d2)
                    if u != S.full(d2):
                        new[d2] = u
                md = T.monos(d2)
                for b, (w, a) in inv.items():
                    if md.isdisjoint(T.monos(b)):
                        continue
                    for c in (1, -1):
                        k = psub(d2, pscale(b, c))
                        if len(k.t) < len(d2.t) or k.const() is not None:
                            D = padd(k, pscale(w, c))
                            q, f = S.canon(D)
                            if q in new or self.touches_own(k):
                                continue
                            u = s | S.sign(s1, padd(k, pscale(a, c)))
                            if u != S.full(D):
                                new[q] = S.sflip(u) if f else u
        if new != s1.signs:
            # a fact was lost, widened or rephrased
            for q, s in s1.signs.items():
                if new.get(q) != s:
                    self.changed = True
                    break
        # operator ranges of kept phis
        for x in list(self.own):
            if x in self.sfm and x in INRANGE:
                r = inrange(self.sfm[x])
                if r is not None and not INRANGE[x] <= r:
                    INRANGE[x] = INRANGE[x] & r
                    self.changed = True
            if x in self.spm and x in S.INTPHI and not S.is_intpoly(self.spm[x]):
                S.INTPHI.discard(x)
                self.changed = True
        self.signs = new
        self.bf = dict((k, v) for k, v in s1.bf.items() if s2.bf.get(k) == v)
        if self.bf != s1.bf:
            self.changed = True
        self.imp = s1.imp | s2.imp
        if self.blame:
            self.imp |= frozenset(['integer constants were joined'])
        if self.imp != s1.imp:
            self.changed = True


def applyw(W, f):
    """A letter, or (letter, c): the operator plus c times the identity."""
    if type(W) is tuple and len(W) == 2 and isinstance(W[1], Poly):
        return fadd(fapply(W[0], f), fscale(f, W[1]))
    return fapply(W, f)


def merge_into(s1, w1, s2, w2, own):
    """Merged state (new object) and whether it differs from s1."""
    STATS['joins'] += 1
    m = Merge(s1, w1.leaves, s2, w2.leaves, own, w1).run()
    if not m.changed and all(x is y for x, y in zip(m.out, w1.leaves)):
        return s1, False
    s = s1.fork()
    Rebuilder(s, w1, m.out).run()
    s.signs, s.bf, s.imp = m.signs, m.bf, m.imp
    prune_facts(s)
    return s, True


def prune_facts(s):
    """Drop facts about atoms that no longer occur anywhere."""
    if len(s.signs) < 25:
        return
    w = Walker(s).run()
    live = set()
    for l in w.leaves:
        live |= T.deps(l)
    for q in list(s.signs):
        for a in q.atoms():
            if a.key[0] == 'phi' and a not in live:
                del s.signs[q]
                break


def join(states, cap=None):
    if len(states) <= 1:
        return states
    parts = partition(states, 2)
    if len(parts) > (cap or CAP):
        STATS['relaxed'] += 1
        parts = partition(states, 1)
        if len(parts) > HARDCAP:
            parts = partition(states, 0)
            STATS['hard'] = STATS.get('hard', 0) + 1
    STATS['maxparts'] = max(STATS['maxparts'], len(parts))
    out = []
    for group in parts:
        s1, w1 = group[0]
        own = set()
        for s2, w2 in group[1:]:
            s, ch = merge_into(s1, w1, s2, w2, own)
            if ch:
                s1 = s
                w1 = Walker(s1, w1.keeplit).run()
        out.append(s1)
    return out


def partition(states, keeplit):
    """keeplit: 2 separates states by all literals, 1 by integer literals, 0 by none."""
    d = {}
    order = []
    for s in states:
        w = Walker(s, keeplit).run()
        if w.key not in d:
            d[w.key] = []
            order.append(w.key)
        d[w.key].append((s, w))
    return [d[k] for k in order]
