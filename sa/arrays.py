"""Model of NumPy arrays: forms, dimensions, dtypes, views and writes."""
import dtypes as D
import signs as S
import terms as T
from terms import *
from values import *


def is_arr(st, v):
    return type(v) is Ref and type(st.cell(v.a)) in (ArrC, ViewC)


def root(st, v):
    """-> (address, ArrC, letters outermost first)"""
    c = st.cell(v.a)
    if type(c) is ArrC:
        return v.a, c, ()
    return c.base, st.cell(c.base), c.letters


def form(st, v):
    a, c, ls = root(st, v)
    f = c.form
    for l in reversed(ls):
        f = get_letter(l, f)
    return f


def get_letter(l, f):
    if l[0] == 'cj':
        return fconj(f)
    return fapply(l, f)


def put_letters(f, ls, new):
    """f with the part selected by the letters (outermost first) replaced."""
    if not ls:
        return new
    inner = ls[-1]
    rest = ls[:-1]
    cur = get_letter(inner, f)
    upd = put_letters(cur, rest, new)
    if inner[0] == 'cj':
        return fconj(upd)
    if inner[0] == 'tp':
        return fapply(inner, upd)
    if inner[0] == 'ei':
        # component: upd is a one-dimensional pseudo form
        return upd
    back = letter_T(inner)
    return fadd(fsub(f, fapply(back, cur)), fapply(back, upd))


def dims(st, v):
    return st.cell(v.a).dims


def dt(st, v):
    return root(st, v)[1].dt


def new(st, f, dims, dt, prov=''):
    return st.alloc(ArrC(f, tuple(dims), dt, prov, False))


def view(st, v, letter, dims):
    c = st.cell(v.a)
    if type(c) is ArrC:
        return st.alloc(ViewC(v.a, (letter,), tuple(dims)))
    return st.alloc(ViewC(c.base, (letter,) + c.letters, tuple(dims)))


def alias(st, v, dims):
    c = st.cell(v.a)
    if type(c) is ArrC:
        return st.alloc(ViewC(v.a, (), tuple(dims)))
    return st.alloc(ViewC(c.base, c.letters, tuple(dims)))


def tidy(f, n):
    """Removes b - sum of scat_i sel_i b when the slices tile [0, n)."""
    groups = {}
    whole = []
    for (w, b), c in f.t:
        if not w:
            whole.append((b, c))
        elif len(w) >= 2 and w[0][0] == 'scat' and w[1][0] == 'sel' and w[0][1] == 'sl' and w[1][1:] == w[0][1:]:
            groups.setdefault((w[2:], b), []).append((w[0][2], w[0][3], c))
    for (w, b), gs in groups.items():
        for b2, c in [(x, k) for (ww, x), k in f.t if ww == w and x is b]:
            want = pneg(c)
            ivs = [(lo, hi) for lo, hi, k in gs if k is want]
            at, ok, used = ZERO, False, []
            for _ in range(len(ivs) + 1):
                if at is n:
                    ok = True
                    break
                nxt = [hi for lo, hi in ivs if lo is at and hi is not at]
                if not nxt:
                    break
                used.append((at, nxt[0]))
                at = nxt[0]
            if ok and used:
                f = fsub(f, fbase_w(w, b, c))
                for lo, hi in used:
                    g = fbase_w((('scat', 'sl', lo, hi), ('sel', 'sl', lo, hi)) + w, b, c)
                    f = fadd(f, g)
    # components written one by one
    k = n.const()
    if k is not None and k <= 40:
        for (w, b), c in list(f.t):
            if w and b.key[0] != 'e':
                continue
            if b.key[0] in ('junk',):
                g = fbase_w(w, b, c)
                rest = fsub(f, g)
                if all(elem(f, pconst(i)) is elem_nojunk(f, i, b) for i in range(int(k))):
                    h = FZERO
                    for i in range(int(k)):
                        h = fadd(h, fscale(fbase(ebase(pconst(i))), elem(f, pconst(i))))
                    f = h
                    break
    return f


def elem_nojunk(f, i, b):
    p = elem(f, pconst(i))
    for a in p.atoms():
        if a.key[0] == 'el' and a.key[2] is b:
            return None
    return p


def fbase_w(w, b, c):
    return fscale(mkform({(w, b): ONE}), c)


def write(I, st, v, newform, valdt, node, how='write'):
    """Writes newform into the array (view) v."""
    a, c, ls = root(st, v)
    if a not in I.mutlog:
        I.mutlog[a] = I.loc(st, node)
    if c.prov:
        I.event('write', 'the %s array is written' % c.prov, st, node, c.prov)
    if c.stored:
        I.event('storedwrite', 'an array kept in a history is written', st, node)
    if a in BASE and not I.loading:
        I.event('globalwrite', 'an array shared by all calls is written', st, node)
    if valdt is not None:
        bad = D.fits(valdt, c.dt)
        if bad is not True:
            I.event('narrow', 'a value of dtype %s is stored into an array of dtype %s' % (sdt(valdt), sdt(c.dt)),
                    st, node, (valdt, c.dt, how, c.dims))
    f = put_letters(c.form, ls, newform)
    if ls and len(c.dims) == 1:
        f = tidy(f, c.dims[0])
    c2 = st.cell(a)
    st.put(a, c2.replace(form=f))


def sdt(d):
    return '/'.join(sorted(d))


# ------------------------------------------------------------------ dimensions
def same(st, a, b):
    """True / False / None (unknown)"""
    if a is b:
        return True
    s = S.sign(st, psub(a, b))
    if s == S.ZER:
        return True
    if '0' not in s:
        return False
    return None


def broadcast(I, st, d1, d2, node):
    """-> dims or None after raising"""
    if len(d1) < len(d2):
        d1 = (ONE,) * (len(d2) - len(d1)) + tuple(d1)
    elif len(d2) < len(d1):
        d2 = (ONE,) * (len(d1) - len(d2)) + tuple(d2)
    out = []
    for x, y in zip(d1, d2):
        if x is y:
            out.append(x)
        elif y is ONE:
            out.append(x)
        elif x is ONE:
            out.append(y)
        elif same(st, x, y) is False:
            I.throw(st, 'ValueError', 'operands could not be broadcast together: %s and %s' % (x, y), node)
            return None
        else:
            if same(st, x, y) is None:
                S.assume(st, psub(x, y), S.ZER)
            out.append(x)
    return tuple(out)


def norm_index(I, st, p, n):
    """Index or slice bound p of an axis of length n (negative counts from the end)."""
    s = S.sign(st, p)
    if s <= S.NN:
        return p
    if s == S.NEG:
        return padd(n, p)
    return p


def slice_bounds(I, st, sl, n):
    """-> (lo, hi, length) or None if not understood"""
    if sl.s != NONE and not (type(sl.s) is Num and sl.s.p is ONE):
        return None
    lo = ZERO
    if sl.a != NONE:
        if type(sl.a) is not Num:
            return None
        lo = norm_index(I, st, sl.a.p, n)
    hi = n
    if sl.b != NONE:
        if type(sl.b) is not Num:
            return None
        hi = norm_index(I, st, sl.b.p, n)
    # clamping
    for _ in range(1):
        if S.sign(st, lo) == S.NEG:
            lo = ZERO
        if S.sign(st, psub(lo, n)) == S.POS:
            lo = n
        if S.sign(st, psub(hi, n)) == S.POS:
            hi = n
        if S.sign(st, hi) == S.NEG:
            hi = ZERO
        if S.sign(st, psub(hi, lo)) == S.NEG:
            hi = lo
    return lo, hi, psub(hi, lo)


# ------------------------------------------------------------------ element-wise operations
def scalar_form(I, st, v):
    return None


def elementwise(I, st, op, a, b, node):
    """a op b with at least one array -> list of (state, value)"""
    fa = fb = None
    da = db = ()
    arrs, scs = [], []
    for k, v in ((0, a), (1, b)):
        if is_arr(st, v):
            arrs.append(dt(st, v))
            if k == 0:
                fa, da = form(st, v), dims(st, v)
            else:
                fb, db = form(st, v), dims(st, v)
        elif type(v) is Num:
            scs.append(v.dt)
        elif v == TRUE or v == FALSE or type(v) in (BCmp, BSym):
            v = Num(pconst(1 if v == TRUE else 0), LB, False) if type(v) is Const else Num(patom(fresh('s', 'b')), LB, False)
            scs.append(LB)
            if k == 0:
                a = v
            else:
                b = v
        elif type(v) is Ref and type(st.cell(v.a)) is ListC or type(v) is TupV:
            r = I.M.to_array(I, st, v)
            if r is None:
                st.blame('arithmetic on a list')
                return [(st, I.top(st, 'arithmetic on a list'))]
            return elementwise(I, st, op, r if k == 0 else a, r if k == 1 else b, node)
        else:
            return None
    rdt = D.promote(arrs, scs)
    if fa is not None and fb is not None:
        d = broadcast(I, st, da, db, node)
        if d is None:
            return []
        # a one-element array against a vector acts like a scalar
        if len(da) == 1 and da[0] is ONE and not (len(db) == 1 and db[0] is ONE):
            sa = elem(fa, ZERO)
            return [(st, new(st, ew(I, st, op, Num(sa, rdt, False), fb, rdt, node, da, db, scs, arrs), d, ewdt(op, rdt)))]
        if len(db) == 1 and db[0] is ONE and not (len(da) == 1 and da[0] is ONE):
            sb = elem(fb, ZERO)
            return [(st, new(st, ew(I, st, op, fa, Num(sb, rdt, False), rdt, node, da, db, scs, arrs), d, ewdt(op, rdt)))]
    else:
        d = da if fa is not None else db
    f = ew(I, st, op, fa if fa is not None else a, fb if fb is not None else b, rdt, node, da, db, scs, arrs)
    return [(st, new(st, f, d, ewdt(op, rdt)))]


def ewdt(op, rdt):
    if op in ('/t',) and D.is_int(rdt):
        return frozenset(['f8'])
    if op in ('<', '>', '<=', '>=', '==', '!='):
        return frozenset(['b1'])
    return rdt


def ones():
    return fbase(atom('ones'))


def tof(x):
    if isinstance(x, Form):
        return x
    return fscale(ones(), x.p)


def ew(I, st, op, x, y, rdt, node, da, db, scs, arrs):
    """Form of x op y; x, y are Forms or Nums."""
    fx, fy = isinstance(x, Form), isinstance(y, Form)
    if op == '+':
        return fadd(tof(x), tof(y))
    if op == '-':
        return fsub(tof(x), tof(y))
    if op == '*':
        if fx and fy:
            return had(x, y)
        return fscale(x, y.p) if fx else fscale(y, x.p)
    if op in ('/', '/t'):
        ii = D.is_int(rdt)
        if op == '/' and ii is not False:
            I.event('intdiv', 'division of values of dtype %s rounds down' % sdt(rdt), st, node, ii)
            if ii:
                return fbase(atom('fn', 'fdiv', tof(x), tof(y)))
        if fx and not fy:
            return fscale(x, pdiv(ONE, y.p))
        if fy:
            c = single_scaled_ones(y)
            if c is not None:
                return fscale(tof(x), pdiv(ONE, c))
            inv = fbase(atom('fn', 'recip', y))
            return had(tof(x), inv) if fx else fscale(inv, x.p)
    if op == '**' and not fy and y.p.const() is not None:
        c = y.p.const()
        if c == 1:
            return x
        if c == 2 and fx:
            return had(x, x)
        if c.numerator == 1 and c.denominator == 2:
            return fmul1('sqrt', x)
    return fbase(atom('fn', op, x if fx else x.p, y if fy else y.p))


def single_scaled_ones(f):
    if len(f.t) == 1:
        (w, b), c = next(iter(f.t))
        if not w and b.key[0] == 'ones':
            return c
    return None


# ------------------------------------------------------------------ products
def matname(f):
    """Operator letter of a two-dimensional form made of one matrix."""
    if len(f.t) != 1:
        return None
    (w, b), c = next(iter(f.t))
    t = False
    for l in w:
        if l == ('tp',):
            t = not t
        else:
            return None
    k = b.key
    conj = False
    if k[0] == 'cj':
        conj = True
        b = k[1]
    return c, b, t, conj


def matvec(f, g):
    """Product of a two-dimensional form with a vector form."""
    out = FZERO
    for (w, b), c in f.t:
        if b.key[0] == 'outer' and not w:
            out = fadd(out, fscale(b.key[1], pmul(c, dot(b.key[2], g))))
            continue
        m = matname(mkform({(w, b): ONE}))
        if m is None:
            out = fadd(out, fscale(fbase(atom('mv', w, b, g)), c))
            continue
        _, b2, t, cj = m
        out = fadd(out, fscale(fapply(op_letter('mat:%s' % show_atom(b2), t, cj), g), c))
    return out


def npdot(I, st, a, b, node):
    da, db = dims(st, a), dims(st, b)
    fa, fb = form(st, a), form(st, b)
    rdt = D.promote([dt(st, a), dt(st, b)])
    if len(da) == 1 and len(db) == 1:
        if same(st, da[0], db[0]) is False:
            return I.throw(st, 'ValueError', 'shapes not aligned: %s and %s' % (da[0], db[0]), node)
        k = da[0].const()
        if k is not None and k <= 40 and (econst(fa, k) and econst(fb, k)):
            p = ZERO
            for i in range(int(k)):
                p = padd(p, pmul(elem(fa, pconst(i)), elem(fb, pconst(i))))
            return [(st, Num(p, D.weaken(rdt), False))]
        return [(st, Num(dot(fa, fb), D.weaken(rdt), False))]
    if len(da) == 2 and len(db) == 1:
        if same(st, da[1], db[0]) is False:
            return I.throw(st, 'ValueError', 'shapes not aligned: %s and %s' % (da[1], db[0]), node)
        return [(st, new(st, matvec(fa, fb), (da[0],), rdt))]
    if len(da) == 1 and len(db) == 2:
        if same(st, da[0], db[0]) is False:
            return I.throw(st, 'ValueError', 'shapes not aligned: %s and %s' % (da[0], db[0]), node)
        return [(st, new(st, matvec(fapply(('tp',), fb), fa), (db[1],), rdt))]
    return [(st, new(st, fbase(atom('mm', fa, fb)), (da[0], db[-1]), rdt))]


def econst(f, k):
    """Every component is an explicit scalar (no vector symbol)."""
    return all(not w and b.key[0] == 'e' for (w, b), c in f.t)
