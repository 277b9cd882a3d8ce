"""Scenario snippets over the public interface, interpreted abstractly.

A snippet is Python text whose globals are the library's own classes, abstract
operators and dimensions; it is never executed, only followed by the
interpreter.  The hooks below turn what it meets into obligations."""
import join as J
import signs as S
import terms as T
import arrays as A
import dtypes as D
import identity
import models as M
import values as V
from interp import Interp
from terms import *
from values import *
from check import Ob, decide, PROVED, VIOLATED, UNDECIDED
from scen import reachable

PRELUDE = '''
def attempt(where, op, x, tag='product-accepted'):
    try:
        return op * x
    except Exception:
        failed('C07', tag, where)
        raise

def product(prop, where, op, f, n, m, dt):
    for xdt in XDTS:
        x = vec('x', n, xdt)
        y = attempt(where, op, x)
        value(prop, 'acts-as-defined', where, y, f(x))
        length('C07', 'output-length', where, y, m)
        dtype_is('C08', 'product-dtype', where, y, dt, x)
        fresh('C02', 'result-is-fresh', where, y, x, op)
        intact('C02', 'input-untouched', where, x)
        break_if_one()

def rejects(where, op, n):
    bad = vec('bad', n + 1, 'f8')
    try:
        op * bad
    except Exception:
        noted('C07', 'wrong-length-rejected', where)
    else:
        failed('C07', 'wrong-length-rejected', where)

def probe(where, op, f, ft, fh, m, n, dt, view=True):
    is_operator(where, op)
    equal('C07', 'shape', where, op.shape, (m, n))
    equal('C07', 'shape', where, (op.nargout, op.nargin), (m, n))
    same_dtype('C08', 'operator-dtype', where, op.dtype, dt)
    product('C04', where, op, f, n, m, dt)
    k = op.nMatvec
    y = op(vec('xc', n, 'f8'))
    equal('C13', 'operator-count', where, op.nMatvec, k + 1)
    z = op * vec('xc', n, 'f8')
    equal('C13', 'operator-count', where, op.nMatvec, k + 2)
    op.reset_counters()
    equal('C13', 'reset-counters', where, op.nMatvec, 0)
    value('C04', 'call-is-product', where, y, f(vec('xc', n, 'f8')))
    rejects(where, op, n)
    if ft is not None:
        t = op.T
        is_operator(where + ' .T', t, 'C05')
        equal('C07', 'shape', where + ' .T', t.shape, (n, m))
        same_dtype('C08', 'transpose-dtype', where + ' .T', t.dtype, dt)
        product('C05', where + ' .T', t, ft, m, n, dt)
        rejects(where + ' .T', t, m)
        u = op.T.T
        is_operator(where + ' .T.T', u, 'C06')
        product('C06', where + ' .T.T', u, f, n, m, dt)
        if view:
            identical('C06', 'T.T-is-self', where, op.T.T, op)
    if fh is not None:
        h = op.H
        is_operator(where + ' .H', h, 'C05')
        equal('C07', 'shape', where + ' .H', h.shape, (n, m))
        same_dtype('C08', 'adjoint-dtype', where + ' .H', h.dtype, dt)
        product('C05', where + ' .H', h, fh, m, n, dt)
        rejects(where + ' .H', h, m)
        u = op.H.H
        is_operator(where + ' .H.H', u, 'C06')
        product('C06', where + ' .H.H', u, f, n, m, dt)
    declared(where, op, f, ft, fh, m, n)
    g = op.conjugate()
    is_operator(where + ' .conjugate()', g, 'C04')
    equal('C07', 'shape', where + ' .conjugate()', g.shape, (m, n))
    for xdt in XDTS:
        x = vec('x', n, xdt)
        y = attempt(where + ' .conjugate()', g, x)
        value('C04', 'conjugate-acts', where, y, f(x.conjugate()).conjugate())
        if op.T is not None and g.T is not None:
            xx = vec('w', m, xdt)
            value('C06', 'conjugate-views', where + ' .conjugate().T', attempt(where, g.T, xx),
                  (op.T * xx.conjugate()).conjugate())
        if op.H is not None and g.H is not None:
            xx = vec('w', m, xdt)
            value('C06', 'conjugate-views', where + ' .conjugate().H', attempt(where, g.H, xx),
                  (op.H * xx.conjugate()).conjugate())
        break_if_one()

def declared(where, op, f, ft, fh, m, n):
    for xdt in XDTS:
        if op.symmetric:
            x = vec('x', n, xdt)
            value('C05', 'declared-symmetric', where, op * x, op.T * x)
            if ft is not None:
                value('C05', 'declared-symmetric', where, op * x, ft(x))
        if op.hermitian:
            x = vec('x', n, xdt)
            value('C05', 'declared-hermitian', where, op * x, op.H * x)
            if fh is not None:
                value('C05', 'declared-hermitian', where, op * x, fh(x))
        break_if_one()

def user(L, n, m, dt, sym=False, herm=False):
    if sym or herm:
        return LinearOperator(n, m, symmetric=sym, hermitian=herm, matvec=lambda v: L * v,
                              matvec_transp=lambda v: L.T * v, matvec_adj=lambda v: L.H * v, dtype=dt)
    return LinearOperator(n, m, matvec=lambda v: L * v, matvec_transp=lambda v: L.T * v,
                          matvec_adj=lambda v: L.H * v, dtype=dt)

def must_raise(prop, rule, where, fn):
    try:
        fn()
    except Exception:
        noted(prop, rule, where)
    else:
        failed(prop, rule, where)
'''


class Api(object):
    """One scenario: operators, vectors, dtypes and the snippet."""

    def __init__(self, name, src, xdts=('f8',), ops=(), dims='nmp', arrays=(), nums=(), extra=None, imports=(),
                 prelude=True, real=None, assume=(), expand=0, nan=False, apart=16,
                 integer=False, move=False, expect=()):
        """ops: (name, rows, cols, dtype, properties); arrays: (name, length, dtype);
        nums: (name, kind, sign)"""
        self.name = name
        self.integer = integer
        self.expect, self.met = expect, set()
        self.I = I = Interp()
        I.fork_sizes = True
        I.apart = apart
        T.EXPAND[0] = expand
        T.MOVE[0] = move
        S.NAN[0] = nan
        self.st = st = St()
        self.obs = []
        self.count = 0
        T.OPPROPS.clear()
        T.REALS.clear()
        self.dims = {}
        self.lens = {}      # of the vectors made last under each name
        names = {}
        for d in dims:
            p = patom(atom('dim', d))
            S.assume(st, p, S.POS)
            names[d] = Num(p, LI, False)
            self.dims[d] = p
        I.assume_real = False
        for nm, r, c, dt, props in ops:
            real_op = D.is_real(frozenset([dt])) is not False
            I.ops[nm] = {'dims': (self.size(r), self.size(c)), 'dt': frozenset([dt]),
                         'symmetric': TRUE if 'sym' in props else FALSE,
                         'hermitian': TRUE if 'herm' in props or ('sym' in props and real_op) else FALSE}
            T.OPPROPS[nm] = tuple(props) + (('real',) if real_op else ())
            names[nm] = OpV(nm, False, False)
        for nm, n, dt in arrays:
            if isinstance(n, tuple):
                real = D.is_real(frozenset([dt])) is not False
                if real:
                    T.REALS.add(nm)
                names[nm] = st.alloc(ArrC(fvec(nm), tuple(self.size(x) for x in n), frozenset([dt]), 'input', False))
            else:
                names[nm] = self.vector(st, nm, self.size(n), dt)
        for nm, kind, sg in nums:
            if kind in ('f', 'i'):
                v = Num(patom(atom('s', nm)), LF if kind == 'f' else LI, False)
            elif kind == 'c':
                v = Num(patom(atom('s', nm + '*')), LC, False)
            else:
                v = Num(patom(atom('s', nm if D.is_real(frozenset([kind])) else nm + '*')), frozenset([kind]), False)
            if sg is not None:
                S.assume(st, v.p, sg)
            names[nm] = v
        for h in ('value', 'length', 'dtype_is', 'same_dtype', 'fresh', 'intact', 'noted', 'failed', 'equal', 'identical',
                  'is_operator', 'vec', 'break_if_one', 'classic', 'distinct', 'untouched', 'holds', 'stamp', 'same_list', 'show', 'reached'):
            I.hooks[h] = getattr(self, 'h_' + h)
            names[h] = Ext('hook:' + h)
        for mod, syms in imports:
            for s in syms:
                names[s] = I.get(mod, s)
        names['XDTS'] = TupV(tuple(Const(x) for x in xdts))
        if extra:
            for k, v in extra.items():
                names[k] = v(self, st) if callable(v) else v
        J.LETTERS[:] = []
        self.src = ('import numpy as np\n' + (PRELUDE if prelude else '') + src)
        self.names = names

    def size(self, r):
        if isinstance(r, int):
            return pconst(r)
        if isinstance(r, str):
            return self.dims[r]
        return r

    def vector(self, st, nm, n, dt, prov='input'):
        d = frozenset([dt])
        if D.is_real(d) is not False:
            T.REALS.add(nm)
        self.lens[nm] = n
        return st.alloc(ArrC(fvec(nm), (n,), d, prov, False))

    def run(self):
        self.final, self.escaped = self.I.run_snippet(self.src, self.names, self.st)
        obs = self.obs
        for e in self.I.events:
            if e.loc.rel.startswith('<'):
                continue
            if e.kind == 'write' and e.data in ('input',):
                self.ob('C02', 'input-untouched', '%s:%s' % (e.loc.rel, e.loc.func), decide(False, e.imp),
                        '%s at `%s`' % (e.msg, e.loc.text), '%s:%d' % (e.loc.rel, e.loc.line))
            if self.integer and (e.kind == 'intdiv' or e.kind in ('narrow', 'cast') and D.is_int(e.data[1]) is not False):
                self.ob('C23', 'nothing-rounds-down', '%s:%s' % (e.loc.rel, e.loc.func), decide(False, e.imp),
                        '%s at `%s`' % (e.msg, e.loc.text), '%s:%d' % (e.loc.rel, e.loc.line))
            if e.kind in ('deny', 'globalwrite'):
                self.ob('C20', 'no-global-effect', '%s:%s' % (e.loc.rel, e.loc.func), decide(False, e.imp),
                        '%s at `%s`' % (e.msg, e.loc.text), '%s:%d' % (e.loc.rel, e.loc.line))
            if e.kind == 'print':
                self.ob('C19', 'silent', '%s:%s' % (e.loc.rel, e.loc.func), decide(False, e.imp),
                        'writes to standard output at `%s`' % e.loc.text, '%s:%d' % (e.loc.rel, e.loc.line))
        if self.integer:
            # the same obligations, for integer data
            self.obs += [('C23', o) for p, o in self.obs if p in ('C21', 'C08')]
            self.ob('C23', 'nothing-rounds-down', 'scenario ' + self.name, PROVED)
        self.ob('C20', 'no-global-effect', 'scenario ' + self.name, PROVED)
        self.ob('C19', 'silent', 'scenario ' + self.name, PROVED)
        for e in self.escaped:
            self.escape(e)
        for k in self.expect:
            # paths only ever add outcomes: one that none of them shows is impossible
            self.ob(k[0], k[1], k[2], PROVED if k in self.met else VIOLATED, 'no path of the scenario shows this outcome')
        if not self.final and not self.escaped:
            self.ob('*', 'scenario-completes', 'scenario ' + self.name, UNDECIDED, 'no path completes')
        else:
            self.ob('*', 'scenario-completes', 'scenario ' + self.name, PROVED)
        return obs

    def escape(self, e):
        st, ex = e[0], e[1]
        ev = exc_event(ex)
        if ev and 'not an operator' in ev[1]:
            return      # reported where it was noticed
        for p in ('*',) + (('C10',) if ev and ev[2] else ()):
            self.ob(p, 'completes', ev[0] if ev else 'scenario ' + self.name,
                    decide(False, st.imp), 'scenario %s ends with %s' % (self.name, ev[1] if ev else ex), '')

    # ------------------------------------------------------------------ helpers
    def ob(self, prop, rule, where, status, msg='', at=''):
        self.obs.append((prop, Ob(rule, where, status, msg, at, self.name)))

    def conclude(self, prop, rule, where, ok, st, msg, sure=True):
        blame = tuple(st.imp)
        if ok is None or not sure:
            blame += ('the abstraction cannot decide it',)
        self.ob(prop, rule, where, decide(bool(ok), blame), '' if ok else msg)

    def text(self, v):
        return v.v if type(v) is Const else repr(v)

    # ------------------------------------------------------------------ hooks
    def h_vec(self, I, st, args, kw, node):
        nm = self.text(args[0])
        return [(st, self.vector(st, nm, args[1].p, self.text(args[2])))]

    def h_break_if_one(self, I, st, args, kw, node):
        return [(st, NONE)]

    def h_classic(self, I, st, args, kw, node):
        return M.arith(I, st, '/', args[0], args[1], node)

    def h_show(self, I, st, args, kw, node):
        for a in args:
            if A.is_arr(st, a):
                print('SHOW', A.form(st, a), A.dims(st, a), A.dt(st, a))
            elif type(a) is Ref:
                print('SHOW', repr(st.cell(a.a))[:300])
            else:
                print('SHOW', a)
        return [(st, NONE)]

    def h_value(self, I, st, args, kw, node):
        prop, rule, where = [self.text(a) for a in args[:3]]
        a, b = args[3:5]
        if type(a) is Top or type(b) is Top:
            st.blame('unknown value')
            self.conclude(prop, rule, where, False, st, 'unknown value')
            return [(st, NONE)]
        if type(a) is Num and type(b) is Num:
            d = psub(a.p, b.p)
            ok = d == ZERO or S.sign(st, d) == S.ZER
            if not ok and identity.differ(a.p, b.p) is False:
                ok, rule = True, rule + ' (identity test)'
            self.conclude(prop, rule, where, ok, st, 'the value is %s, not %s' % (show_poly(a.p), show_poly(b.p)),
                          identity.differ(a.p, b.p) is True)
            return [(st, NONE)]
        if not A.is_arr(st, a):
            self.conclude(prop, rule, where, False, st, 'the result is %s, not an array' % M.tyname(I, st, a))
            return [(st, NONE)]
        f, g = A.form(st, a), A.form(st, b)
        ok = self.same_form(st, f, g, A.dims(st, a))
        sure = True
        if not ok:
            sure = identity.differ_forms(f, g)
            if sure is None:
                sure = identity.differ_words(f, g, self.dims, I.ops, self.lens, list(st.signs.items()))
                if sure is None:
                    sure = not_same(f, g)
            elif sure is False and all(k[0] == () and k[1].key[0] == 'v' for k, c in f.t | g.t):
                ok, rule = True, rule + ' (identity test)'
            elif sure is False:
                st.blame('the normal forms differ but evaluate to the same')
        self.conclude(prop, rule, where, ok, st, 'the result is %s, not %s' % (show_form(f)[:300], show_form(g)[:300]), sure)
        return [(st, NONE)]

    def same_form(self, st, f, g, dims):
        if f == g:
            return True
        d = fsub(f, g)
        if d == FZERO:
            return True
        d = mkform(dict((w, p) for w, p in d.t if S.sign(st, p) != S.ZER and S.sign(st, pconj(p)) != S.ZER))
        if d == FZERO:
            return True
        if len(dims) == 1:
            d = A.tidy(d, dims[0])
            if d == FZERO:
                return True
        return False

    def h_length(self, I, st, args, kw, node):
        prop, rule, where = [self.text(a) for a in args[:3]]
        a, n = args[3:5]
        if not A.is_arr(st, a):
            if type(a) is Top:
                st.blame('unknown value')
            self.conclude(prop, rule, where, False, st, 'the result is not an array')
            return [(st, NONE)]
        d = A.dims(st, a)
        ok = len(d) == 1 and A.same(st, d[0], n.p)
        if len(d) != 1:
            ok = False
        self.conclude(prop, rule, where, ok, st, 'the result has shape (%s), not (%s,)' % (', '.join(map(show_poly, d)), show_poly(n.p)))
        return [(st, NONE)]

    def dtset(self, st, v):
        if A.is_arr(st, v):
            return A.dt(st, v)
        if type(v) is Num:
            return v.dt
        if type(v) is Const and isinstance(v.v, str):
            return frozenset([v.v])
        if type(v) is OpV:
            return self.I.ops[v.name]['dt']
        return M.as_dt(self.I, st, v)

    def h_dtype_is(self, I, st, args, kw, node):
        """the dtype of args[3] is the promotion of the others"""
        prop, rule, where = [self.text(a) for a in args[:3]]
        ds = [self.dtset(st, v) for v in args[3:]]
        if any(d is None for d in ds):
            st.blame('unknown dtype')
            self.conclude(prop, rule, where, False, st, 'unknown dtype')
            return [(st, NONE)]
        strong = [d for d in ds[1:] if not all(e[0] == '~' for e in d)]
        weak = [d for d in ds[1:] if d not in strong]
        want = D.promote(strong, weak)
        ok = ds[0] == want
        self.conclude(prop, rule, where, ok, st, 'the dtype is %s, not %s' % (A.sdt(ds[0]), A.sdt(want)))
        return [(st, NONE)]

    h_same_dtype = h_dtype_is

    def h_fresh(self, I, st, args, kw, node):
        prop, rule, where = [self.text(a) for a in args[:3]]
        y = args[3]
        if not A.is_arr(st, y):
            if type(y) is Top:
                st.blame('unknown value')
            self.conclude(prop, rule, where, False, st, 'the result is not an array')
            return [(st, NONE)]
        a = A.root(st, y)[0]
        for v in args[4:]:
            if a in roots(st, v):
                self.conclude(prop, rule, where, False, st, 'the result shares memory with %s' % (
                    'its input' if A.is_arr(st, v) else 'data held by the operator or its caller'))
                return [(st, NONE)]
        c = st.cell(a)
        if c.prov:
            self.conclude(prop, rule, where, False, st, 'the result is %s' % c.prov)
        else:
            self.conclude(prop, rule, where, True, st, '')
        return [(st, NONE)]

    def h_distinct(self, I, st, args, kw, node):
        """args[3] is not one of (or an object inside) the others"""
        prop, rule, where = [self.text(a) for a in args[:3]]
        y = args[3]
        ok = True
        if type(y) is Top:
            st.blame('unknown value')
            ok = False
        elif type(y) is Ref:
            r = A.root(st, y)[0] if A.is_arr(st, y) else y.a
            ok = not any(r in roots(st, v) for v in args[4:])
        self.conclude(prop, rule, where, ok, st, 'it is the object of its caller')
        return [(st, NONE)]

    def h_intact(self, I, st, args, kw, node):
        prop, rule, where = [self.text(a) for a in args[:3]]
        ok = True
        for x in args[3:]:
            f = A.form(st, x)
            b = single_base(f) if f != FZERO else None
            ok = ok and b is not None and b.key[0] == 'v' and f == fvec(b.key[1])
        self.conclude(prop, rule, where, ok, st, 'the input now holds %s' % show_form(A.form(st, args[3]))[:200])
        return [(st, NONE)]

    def h_noted(self, I, st, args, kw, node):
        prop, rule, where = [self.text(a) for a in args[:3]]
        self.ob(prop, rule, where, PROVED)
        return [(st, NONE)]

    def h_failed(self, I, st, args, kw, node):
        prop, rule, where = [self.text(a) for a in args[:3]]
        ex = st.curexc
        msg = {'wrong-length-rejected': 'a vector of the wrong length is accepted'}.get(rule, 'does not hold')
        if ex is not None:
            msg += ' (%s)' % (exc_text(ex),)
        self.conclude(prop, rule, where, False, st, msg)
        return [(st, NONE)]

    def eq(self, st, a, b):
        if a == b:
            return True
        if type(a) is Num and type(b) is Num:
            return A.same(st, a.p, b.p)
        if type(a) is TupV and type(b) is TupV:
            if len(a.items) != len(b.items):
                return False
            r = True
            for x, y in zip(a.items, b.items):
                e = self.eq(st, x, y)
                if e is False:
                    return False
                if e is None:
                    r = None
            return r
        if type(a) in (Top, BSym, BCmp, StrV) or type(b) in (Top, BSym, BCmp, StrV):
            return None
        if type(a) is Ref and type(b) is Ref:
            ca, cb = st.cell(a.a), st.cell(b.a)
            if type(ca) is ListC and type(cb) is ListC:
                return self.eq(st, TupV(tuple(ca.items)), TupV(tuple(cb.items)))
        return False

    def h_equal(self, I, st, args, kw, node):
        prop, rule, where = [self.text(a) for a in args[:3]]
        a, b = args[3:5]
        ok = self.eq(st, a, b)
        self.conclude(prop, rule, where, ok, st, 'it is %s, not %s' % (shown(st, a), shown(st, b)))
        return [(st, NONE)]

    def h_identical(self, I, st, args, kw, node):
        prop, rule, where = [self.text(a) for a in args[:3]]
        a, b = args[3:5]
        if type(a) is Top or type(b) is Top:
            st.blame('unknown value')
        ok = a == b
        self.conclude(prop, rule, where, ok, st, 'it is %s, not the object itself' % shown(st, a))
        return [(st, NONE)]

    def h_same_list(self, I, st, args, kw, node):
        """list of (lists of) objects, compared by identity"""
        return self.h_equal(I, st, args, kw, node)

    def h_holds(self, I, st, args, kw, node):
        prop, rule, where = [self.text(a) for a in args[:3]]
        out = []
        for s, b in I.truth(st, args[3]):
            if not b and prop == 'C24' and not identity.feasible(self.dims, I.ops, self.lens, list(s.signs.items())):
                s.blame('no data found that takes this path')
            self.conclude(prop, rule, where, b, s, 'the condition does not hold',
                          type(args[3]) in (Const, Num, Ref, TupV))
            out.append((s, NONE))
        return out

    def h_is_operator(self, I, st, args, kw, node):
        where = self.text(args[0])
        v = args[1]
        ok = type(v) is Ref and type(st.cell(v.a)) is InstC
        if type(v) is Top:
            st.blame('unknown value')
        self.conclude(self.text(args[2]) if len(args) > 2 else 'C07', 'is-an-operator', where, ok, st, 'it is %s' % M.tyname(I, st, v))
        if not ok:
            return I.throw(st, 'TypeError', 'not an operator', node)
        return [(st, NONE)]

    def h_untouched(self, I, st, args, kw, node):
        """untouched(prop, rule, where, obj, token): obj is as when stamped"""
        prop, rule, where = [self.text(a) for a in args[:3]]
        tok = st.g.get('stamp:' + self.text(args[4]))
        loose = 'contents' in rule
        now = snapshot(st, args[3], not loose)
        tok = tok and tok[loose]
        self.conclude(prop, rule, where, tok == now, st, 'an object of the caller or a stored record has changed')
        return [(st, NONE)]

    def h_reached(self, I, st, args, kw, node):
        self.met.add(tuple(self.text(a) for a in args[:3]))
        return [(st, NONE)]

    def h_stamp(self, I, st, args, kw, node):
        st.g['stamp:' + self.text(args[1])] = (snapshot(st, args[0]), snapshot(st, args[0], False))
        return [(st, NONE)]


def snapshot(st, v, ids=True):
    """Contents of the lists and arrays reached from v through lists."""
    if type(v) is Ref:
        c = st.cell(v.a)
        if type(c) is ListC:
            return (v.a if ids else 0, tuple(snapshot(st, x, ids) for x in c.items))
        if type(c) is ArrC:
            return (v.a if ids else 0, c.form)
        if type(c) is ViewC:
            return (v.a if ids else 0, A.form(st, v), A.dims(st, v))
        return (v.a,)
    if type(v) is TupV:
        return tuple(snapshot(st, x, ids) for x in v.items)
    return repr(v)


def roots(st, v):
    out = set()
    for a in reachable(st, v):
        c = st.cell(a)
        if type(c) is ArrC:
            out.add(a)
        elif type(c) is ViewC:
            out.add(c.base)
        elif type(c) in (ListC, DictC):
            out.add(a)
    return out


def shown(st, v):
    if type(v) is Num:
        return show_poly(v.p)
    if type(v) is TupV:
        return '(%s)' % ', '.join(shown(st, x) for x in v.items)
    if type(v) is Const:
        return repr(v.v)
    if type(v) is Ref:
        c = st.cell(v.a)
        if type(c) is InstC:
            return 'an instance of %s' % str(c.cls).split(':')[-1]
        if type(c) is ListC:
            return '[%s]' % ', '.join(shown(st, x) for x in c.items)
    return type(v).__name__


def exc_event(ex):
    """-> (construct, text, internal) of an escaped exception"""
    kind, msg, loc = ex.info if getattr(ex, 'info', None) else ('raise', '', None)
    if loc is None:
        return None
    rel, line, func, text = loc
    return ('%s:%s: %s' % (rel, func, ex.name), '%s: %s at `%s` (line %d)' % (ex.name, msg, text, line), kind == 'internal')


def exc_text(ex):
    e = exc_event(ex)
    return e[1][:200] if e else str(ex)[:160]


def not_same(f, g):
    """The normal form is complete for words over free operator letters."""
    def free(h):
        for (w, b), p in [((x[0][0], x[0][1]), x[1]) for x in h.t]:
            if b.key[0] not in ('v', 'cj'):
                return False
            if any(l[0] not in ('op', 'diag') for l in w):
                return False
            if any(a.key[0] not in ('s', 'I', 'dim', 'cj', 'norm', 'dot', 'abs') for a in p.atoms()):
                return False
        return True
    return free(f) and free(g)
