"""Sign domain: facts about the signs of polynomials, per state."""
from terms import *
import terms as T

ALL = frozenset('-0+')
NEG, POS, ZER = frozenset('-'), frozenset('+'), frozenset('0')
NN = frozenset('0+')
NP = frozenset('-0')
NAN = [False]          # NaN mode (C14)
INTPHI = set()
NONNEG_ATOMS = ('norm', 'abs', 'sqrt')
POSATOMS = set()       # atoms known positive


def is_intatom(a):
    k = a.key
    if k[0] in ('dim', 'len', 'idiv', 'mod', 'int'):
        return True
    if k[0] == 'opt':
        return k[2] == 'i'
    if k[0] in ('max', 'min'):
        return all(is_intpoly(p) for p in k[1:])
    return a in INTPHI


_ip = {}


def is_intpoly(p):
    for m, c in p.t:
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not is_intatom(T._atom_list[a]):
                return False
    return True


def full(p):
    if NAN[0] and not is_intpoly(p):
        return frozenset('-0+n')
    return ALL


MUL = {}
for a in '-0+':
    for b in '-0+':
        MUL[a, b] = '0' if '0' in (a, b) else ('+' if a == b else '-')


def smul(s, t):
    out = set(MUL[a, b] for a in s for b in t if a != 'n' and b != 'n')
    if 'n' in s or 'n' in t:
        out.add('n')
    return frozenset(out)


def sflip(s):
    return frozenset({'-': '+', '+': '-'}.get(x, x) for x in s)


def spow(s, e):
    if e % 2 == 0:
        s = frozenset('+' if x in '+-' else x for x in s)
    if e < 0:
        # 1/0 is not decided here
        if '0' in s:
            s = (s - ZER) | POS | (NEG if e % 2 else frozenset())
            if NAN[0]:
                s = s | frozenset('n')
    return s


ADD = {('-', '-'): '-', ('-', '0'): '-', ('0', '0'): '0', ('0', '+'): '+', ('+', '+'): '+'}


def sadd(s, t):
    out = set()
    for a in s:
        for b in t:
            if a == 'n' or b == 'n':
                out.add('n')
            elif (a, b) in ADD or (b, a) in ADD:
                out.add(ADD.get((a, b)) or ADD.get((b, a)))
            else:
                out |= set('-0+')
    return frozenset(out)


def canon(p):
    q = pneg(p)
    return (p, False) if p.id <= q.id else (q, True)


def atom_sign(st, a, depth):
    p = patom(a)
    c, f = canon(p)
    s = st.signs.get(c)
    if s is not None and f:
        s = sflip(s)
    k = a.key
    base = full(p)
    if k[0] in NONNEG_ATOMS:
        base = base - NEG
        if k[0] == 'abs' and depth > 0:
            inner = sign(st, k[1], depth - 1)
            base = frozenset('+' if x in '+-' else x for x in inner)
        elif k[0] == 'sqrt' and depth > 0:
            inner = sign(st, k[1], depth - 1)
            base = base & (frozenset(x for x in inner if x != '-') | frozenset('n')) or base
    elif k[0] == 'dot' and k[1] is k[2] and not getattr(k[1], 'cplx', False):
        base = base - NEG
    elif k[0] == 'dot' and T.MOVE[0] and T.positive(k[1], k[2]):
        base = {2: POS, 1: base - NEG, -1: base - POS, -2: NEG}[T.positive(k[1], k[2])]
    elif k[0] in ('dim', 'len'):
        base = POS
    elif a in POSATOMS:
        base = POS
    elif k[0] == 'special' and k[1] == 'inf':
        base = POS
    elif k[0] == 'max' and depth > 0:
        ss = [sign(st, q, depth - 1) for q in k[1:]]
        lo = set('n') if any('n' in x for x in ss) else set()
        for v in '-0+':
            pass
        # max >= each; is one of them
        vals = set()
        order = {'-': 0, '0': 1, '+': 2}
        need = max([min(order[x] for x in s2 if x != 'n') for s2 in ss if s2 != frozenset('n')] or [3])
        for s2 in ss:
            for x in s2:
                if x != 'n' and order[x] >= need:
                    vals.add(x)
        base = frozenset(vals | lo)
    elif k[0] == 'min' and depth > 0:
        ss = [sign(st, q, depth - 1) for q in k[1:]]
        lo = set('n') if any('n' in x for x in ss) else set()
        order = {'-': 0, '0': 1, '+': 2}
        need = min([max(order[x] for x in s2 if x != 'n') for s2 in ss if s2 != frozenset('n')] or [-1])
        vals = set(x for s2 in ss for x in s2 if x != 'n' and order[x] <= need)
        base = frozenset(vals | lo)
    elif k[0] == 'inv' and depth > 0:
        base = spow(sign(st, k[1], depth - 1), -1)
    elif k[0] == 'mod':
        base = NN
    elif k[0] == 'pow' and depth > 0 and len(k) > 2 and isinstance(k[1], T.Poly) and sign(st, k[1], depth - 1) == POS:
        base = POS
    elif k[0] == 'eps':
        base = POS
    if s is not None:
        r = s & base
        return r or s
    return base


def sign(st, p, depth=4):
    c = p.const()
    if c is not None:
        return POS if c > 0 else NEG if c < 0 else ZER
    q, f = canon(p)
    s = st.signs.get(q)
    if s is None:
        s = _sign(st, q, depth)
    return sflip(s) if f else s


def _mono(st, m, c, depth):
    s = POS if c > 0 else NEG
    for a, e in m:
        s = smul(s, spow(atom_sign(st, T._atom_list[a], depth), e))
        if e % 2 == 0:
            pass
    return s


def _sign(st, p, depth):
    s = None
    for m, c in p.t:
        t = _mono(st, m, c, depth)
        s = t if s is None else sadd(s, t)
    if s is None:
        return ZER
    if NAN[0] and is_intpoly(p):
        s = s - frozenset('n')
    if len(p.t) > 1 and ('-' in s) and ('+' in s):
        # constant shifts of known facts, integer strengthening
        r = _shift(st, p)
        if r is not None:
            s2 = s & r
            if s2:
                s = s2
    return s


def _shift(st, p):
    best = None
    integer = is_intpoly(p)
    pb, pn, pc = T.nonconst(p)
    for q, s in st.signs.items():
        qb, qn, qc = T.nonconst(q)
        for sgn in (1, -1):
            if (qb if sgn == 1 else qn) is not pb:
                continue
            d = pc - qc if sgn == 1 else pc + qc
            t = s if sgn == 1 else sflip(s)
            # p = t-signed quantity + d
            out = set()
            if '-' in t:
                if d <= 0:
                    out.add('-')
                elif integer and d <= 1:
                    out |= set('-0') if d == 1 else set('-')
                else:
                    out |= set('-0+')
            if '0' in t:
                out.add('+' if d > 0 else '-' if d < 0 else '0')
            if '+' in t:
                if d >= 0:
                    out.add('+')
                elif integer and d >= -1:
                    out |= set('0+') if d == -1 else set('+')
                else:
                    out |= set('-0+')
            if 'n' in t:
                out.add('n')
            best = frozenset(out) if best is None else (best & out)
    return best


def assume(st, p, rel):
    """Refine st with sign(p) in rel; False if impossible."""
    s = sign(st, p) & rel
    if not s:
        return False
    if p.const() is not None:
        return True
    q, f = canon(p)
    st.signs[q] = sflip(s) if f else s
    # a monomial times positive factors
    if len(p.t) == 1:
        (m, c), = p.t
        if len(m) > 1 and s <= frozenset('+0'):
            pass
        if s == ZER and len(m) > 1:
            # a product vanishes: the only factor that can is zero
            cand = [a for a, e in m if '0' in atom_sign(st, T._atom_list[a], 3)]
            if len(cand) == 1 and dict(m)[cand[0]] > 0:
                st.signs[canon(patom(T._atom_list[cand[0]]))[0]] = ZER
        if '0' not in s and 'n' not in s:
            for a, e in m:
                at = T._atom_list[a]
                if e > 0:
                    s2 = atom_sign(st, at, 3)
                    if '0' in s2 and s2 - ZER:
                        r, f2 = canon(patom(at))
                        s2 = s2 - ZER
                        st.signs[r] = sflip(s2) if f2 else s2
    return True
