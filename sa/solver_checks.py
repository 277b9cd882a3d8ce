"""Checks decided on the abstract execution of constructor + solve()."""
import ast
import load
import terms as T
import signs as S
import join as J
import values as V
import scen
from terms import *
from values import *
from scen import Run, BYKEY, SPECS, SQUARE, LLS
import check
import identity
import arrays as A
import dtypes as D
from check import Ob, decide, PROVED, VIOLATED, UNDECIDED, solver_info

CGFAM = ('CG', 'CGS', 'BiCGSTAB', 'TFQMR')
LIMITCODE = {'Minres': 6, 'Symmlq': 5, 'LSQR': 7, 'LSMR': 7, 'CRAIG': 7, 'CRAIGMR': 7}
STORE = ('store_resids', 'store_iterates', 'wantvar')


def bools(spec, val, show=None):
    d = {}
    for k, kind in list(spec.solve.items()) + list(spec.ctor.items()):
        if kind == 'b' and k in STORE:
            d[k] = TRUE if val else FALSE
        if k == 'show':
            d[k] = TRUE if show else FALSE
    return d


def config(key, tag):
    """Keyword arguments of Run for a named configuration."""
    spec = BYKEY[key]
    c = {}
    parts = tag.split('+')
    if 'guess' in parts:
        c['guess'] = True
    if 'precon' in parts:
        c['precons'] = tuple(p.split(':')[1] for p in spec.precons)
    for p in parts:
        if p in ('onlyM', 'onlyN'):
            c['precons'] = (p[-1],)
    if 'default' in parts:
        c['opts'] = ()
    elif key in CGFAM:
        c['fixed'] = {}
    else:
        c['fixed'] = bools(spec, 'stored' in parts, 'show' in parts)
    if 'complex' in parts:
        c['real'] = False
    if 'check' in parts:
        c.setdefault('fixed', {}).update((k, TRUE) for k, kind in spec.solve.items() if kind == 'c0')
    if 'undamped' in parts:
        c.setdefault('fixed', {})['damp'] = Num(ZERO, LF, True)
    return c


def tags(key, full=True):
    more = ['check+precon'] if full and key in ('CG', 'Minres', 'Symmlq') else []
    if key in CGFAM:
        return ['plain', 'guess', 'precon', 'guess+precon', 'default'] + more
    return ['plain', 'stored', 'precon', 'stored+precon', 'default'] + more if full else ['plain', 'stored+precon']


def label(key, tag):
    return '%s[%s]' % (key, tag)


def run(key, tag, hooks=None, mark=None, **kw):
    c = config(key, tag)
    c.update(kw)
    r = Run(BYKEY[key], **c)
    r.tag = label(key, tag)
    r.key = key
    if hooks:
        hooks(r)
    return r


# ------------------------------------------------------------------ helpers
def solve_construct(r):
    """(file, qualified name) of the solver's solve()."""
    I = r.I
    st = r.mid[0] if getattr(r, 'mid', None) else None
    cls = r.names['Solver'].id
    m = I.class_lookup(cls, 'solve')
    if type(m) is not FnV:
        raise load.AnalysisBroken('%s has no solve()' % r.key)
    return m.code.module.rel + ':' + m.code.qual


def mro_methods(I, cls):
    """name -> FnV for the methods of a class and its package bases."""
    out = {}
    for k in reversed(I.mro(cls)):
        for n, f in I.classes[k].attrs.items():
            if type(f) is FnV:
                out[n] = f
    return out


def static_writes(I, cls):
    """Attributes of self assigned by methods reachable from solve()."""
    ms = mro_methods(I, cls)
    todo, seen = ['solve'], set()
    out = {}
    while todo:
        n = todo.pop()
        if n in seen or n not in ms:
            continue
        seen.add(n)
        f = ms[n]
        node = f.code.node
        args = node.args.args
        me = args[0].arg if args else None
        for x in ast.walk(node):
            if isinstance(x, ast.Attribute):
                if isinstance(x.value, ast.Name) and x.value.id == me:
                    if isinstance(x.ctx, ast.Store):
                        out.setdefault(x.attr, (f.code.module.rel, x.lineno, f.code.qual))
                if x.attr in ms and x.attr != '__init__':
                    todo.append(x.attr)
    return out


def staged(key, tag, hooks=None, after_ctor=None, **kw):
    """Constructor, then everything solve() writes is replaced by a stale
    marker, then solve(): what a second solve on the same object meets."""
    extra = {}
    for attempt in range(3):
        r = run(key, tag, hooks, **kw)
        r.construct()
        cls = r.names['Solver'].id
        ctor_log = set(r.I.attrlog)
        marked = dict((n, w) for n, w in static_writes(r.I, cls).items())
        marked.update(extra)
        r.marked = marked
        r.ctor_cells = set()
        r.ctor_attrs = None
        for st in r.mid:
            k = st.cell(st.stack[0]).vars['K']
            r.k = k
            if not (type(k) is Ref and type(st.cell(k.a)) is InstC):
                raise load.AnalysisBroken('%s() does not build an object' % key)
            c = st.cell(k.a)
            r.ctor_attrs = dict(c.attrs)
            at = dict(c.attrs)
            for n in marked:
                at[n] = Stale(n)
            st.put(k.a, InstC(c.cls, at))
            r.ctor_cells |= scen.reachable(st, k) - {k.a}
        r.I.attrlog.clear()
        r.I.mutlog.clear()
        r.ctor_events = r.I.events
        r.I.events = []
        if after_ctor:
            after_ctor(r)
        r.solve_from(r.mid)
        actual = dict((n, (l.rel, l.line, l.func)) for (a, n), l in r.I.attrlog.items() if a == r.k.a)
        r.actual = actual
        if set(actual) <= set(marked):
            return r
        extra.update(actual)
    return r


def attr(r, st, name):
    """Value of an attribute of the solver in a final state (properties included)."""
    k = st.cell(st.stack[0]).vars['K']
    c = st.cell(k.a)
    if name in c.attrs:
        return c.attrs[name]
    s = st.fork()
    r.I.sinks = [[]]
    res = r.I.getattr(s, k, name, None)
    if len(res) == 1 and not r.I.sinks[0]:
        return res[0][1]
    return None


def root_addr(st, v):
    while type(v) is Ref:
        c = st.cell(v.a)
        if type(c) is ViewC:
            v = Ref(c.base)
            continue
        return v.a
    return None


def truth_states(r, st, v):
    """(states where v is true, states where it is false)"""
    s = st.fork()
    r.I.sinks = [[]]
    out = r.I.truth(s, v)
    return [s for s, b in out if b], [s for s, b in out if not b]


def evaluate(r, st, expr, **names):
    """Evaluates an expression over the final state: [(state, value)]."""
    s = st.fork()
    fr = s.cell(s.stack[0])
    vs = dict(fr.vars)
    vs.update(names)
    s.put(s.stack[0], fr.replace(vars=vs))
    s.stack = [s.stack[0]]
    r.I.sinks = [[]]
    node = ast.parse(expr, mode='eval').body
    return r.I.ev(node, s), r.I.sinks[0]


# ---------------------------------------------------------------------- C11
REPORTED = ('x', 'bestSolution', 'converged')       # by every solver


def c11(key, tag):
    r = staged(key, tag)
    where = solve_construct(r)
    obs = []
    options = set(BYKEY[key].ctor) | set(BYKEY[key].solve)
    public = sorted(n for n in r.marked if not n.startswith('_') and n not in options)
    for st in r.final:
        at = r.attrs(st)
        for n in public:
            v = at.get(n)
            ok = v is not None and type(v) is not Stale
            if ok:
                obs.append(Ob('attribute-set', '%s: self.%s' % (where, n), PROVED, '', '', r.tag))
            else:
                obs.append(Ob('attribute-set', '%s: self.%s' % (where, n), decide(False, st.imp),
                              'a path through solve() returns without setting self.%s (it is set at line %s on others); '
                              'path facts: %s' % (n, r.marked[n][1], facts(st)), '%s:%s' % r.marked[n][:2], r.tag))
        for n in REPORTED + (('istop',) if key in LIMITCODE else ('residNorm', 'residNorm0')):
            if n not in public:
                obs.append(Ob('attribute-set', '%s: self.%s' % (where, n), decide(False, st.imp),
                              'solve() returns without having reported self.%s' % n, '', r.tag))
        x, b = attr(r, st, 'x'), attr(r, st, 'bestSolution')
        ok = type(x) is Ref and x == b
        bl = st.imp | (frozenset(['unknown value']) if type(x) in (Top,) or type(b) in (Top,) else frozenset())
        obs.append(Ob('x-is-bestSolution', where, decide(ok, bl),
                      '' if ok else 'x and bestSolution are not the same array on return: %s, %s' % (describe(st, x), describe(st, b)), '', r.tag))
        a = root_addr(st, x)
        stale = a is not None and (a in r.ctor_cells or a in (r.rhs.a, getattr(r, 'guess_ref', Ref(-1)).a))
        ok = type(x) is Ref and not stale and type(st.cell(x.a)) in (ArrC, ViewC)
        obs.append(Ob('x-is-fresh', where, decide(ok, bl), '' if ok else 'x is %s on return' % describe(st, x), '', r.tag))
        obs += c11_flag(r, key, st, where, at)
    if not r.final:
        obs.append(Ob('returns', where, UNDECIDED, 'no path returns', '', r.tag))
    info = solver_info(r)
    info['attributes'] = len(public)
    return obs, info


def facts(st):
    return ', '.join(sorted('%s=%s' % (k[1] if isinstance(k, tuple) else k, v) for k, v in st.bf.items()))[:200] or '-'


def describe(st, v):
    if type(v) is Ref:
        c = st.cell(v.a)
        if type(c) is ArrC:
            return 'the %s array' % c.prov if c.prov else 'an array'
        return type(c).__name__
    return repr(v)


def c11_flag(r, key, st, where, at):
    obs = []
    conv = at.get('converged')
    if key in CGFAM:
        if key == 'TFQMR':
            return c11_tfqmr(r, st, where, at, conv)
        expr = 'K.residNorm <= max(K.abstol, K.reltol * K.residNorm0)'
        res, esc = evaluate(r, st, expr)
        if esc or conv is None or type(conv) in (Top, Stale):
            obs.append(Ob('flag-is-comparison', where, UNDECIDED, 'converged or residNorm not evaluated', '', r.tag))
            return obs
        ok = True
        bad = ''
        bl = set(st.imp)
        for s, v in res:
            if type(v) is Top:
                ok = False
                bl.add('unknown')
                continue
            yes, no = truth_states(r, s, v)
            for group, want in ((yes, True), (no, False)):
                for s2 in group:
                    y2, n2 = truth_states(r, s2, conv)
                    wrong = n2 if want else y2
                    if wrong:
                        ok = False
                        bad = 'converged may be %s although residNorm %s max(abstol, reltol*residNorm0) (residNorm %s, ' \
                              'converged %s)' % (not want, '<=' if want else '>', nump(at.get('residNorm')), conv)
                        bl |= wrong[0].imp
        obs.append(Ob('flag-is-comparison', where, decide(ok, bl), bad, '', r.tag))
        return obs
    ist = at.get('istop')
    if type(ist) is not Num or ist.p.const() is None:
        obs.append(Ob('flag-follows-code', where, UNDECIDED, 'stop code %s not a constant on this path' % (ist,), '', r.tag))
        return obs
    code = int(ist.p.const())
    if conv is None or type(conv) in (Top, Stale):
        obs.append(Ob('flag-follows-code', where, UNDECIDED, 'converged not evaluated', '', r.tag))
        return obs
    yes, no = truth_states(r, st, conv)
    if code == LIMITCODE[key]:
        ok, bad = not yes, 'converged may be True with stop code %d (iteration limit)' % code
    elif code in (1, 2):
        ok, bad = not no, 'converged may be False with stop code %d' % code
    else:
        return obs
    obs.append(Ob('flag-follows-code', where, decide(ok, st.imp), '' if ok else bad, '', r.tag))
    return obs


def c11_tfqmr(r, st, where, at, conv):
    """TFQMR compares a bound: residNorm times the square root of a count."""
    res, esc = evaluate(r, st, 'max(K.abstol, K.reltol * K.residNorm0)')
    rn = at.get('residNorm')
    if not esc and len(res) == 1 and type(conv) is Const:
        bad = evaluate(r, st, 'K.residNorm <= max(K.abstol, K.reltol * K.residNorm0)')[0]
        if len(bad) == 1 and bad[0][1] == conv:
            return [Ob('flag-is-comparison', where, PROVED, '', '', r.tag)]
    if esc or len(res) != 1 or type(res[0][1]) is not Num or type(rn) is not Num or type(conv) is not BCmp:
        return [Ob('flag-is-comparison', where, UNDECIDED, 'converged is %r' % (conv,), '', r.tag)]
    thr = res[0][1].p
    if conv.rel == frozenset('-0'):
        q = padd(conv.d, thr)
    elif conv.rel == frozenset('0+'):
        q = psub(thr, conv.d)
    else:
        q = None
    ok = False
    if q is not None and len(q.t) == 1:
        (m, c), = q.t
        rest = pmul(q, ppow(rn.p, -1)) if len(rn.p.t) == 1 else None
        if rest is not None:
            ok = rest is ONE or len(rest.t) == 1 and all(a.key[0] == 'sqrt' for a in rest.atoms()) and \
                S.sign(st, rest) <= frozenset('0+')
    return [Ob('flag-is-comparison', where, decide(ok, st.imp), '' if ok else
               'converged is the outcome of %s in %s, not of comparing a multiple of residNorm (%s) with %s' %
               (conv.d, sorted(conv.rel), rn.p, thr), '', r.tag)]


def nump(v):
    return str(v.p)[:160] if type(v) is Num else repr(v)[:160]


# ---------------------------------------------------------------------- C12
def c12(key, tag):
    r = staged(key, tag)
    where = solve_construct(r)
    obs = []
    seen = set()
    for e in r.I.events:
        if e.kind == 'stale' and e.data in r.marked:
            k = '%s:%s: self.%s' % (e.loc.rel, e.loc.func, e.data)
            seen.add(e.data)
            obs.append(Ob('no-carry-over', k, decide(False, e.imp), e.msg + ' at `%s`' % e.loc.text,
                          '%s:%d' % (e.loc.rel, e.loc.line), r.tag))
    # what an earlier solve left is not reported by this one
    options = set(BYKEY[key].ctor) | set(BYKEY[key].solve)
    for n in sorted(set(r.marked) - seen - options):
        for st in r.final:
            v = attr(r, st, n)
            if type(v) is Stale:
                seen.add(n)
                obs.append(Ob('no-carry-over', '%s: self.%s' % (where, n), decide(False, st.imp),
                              'on return self.%s is still the one of the previous solve; path facts: %s' % (n, facts(st)), '', r.tag))
    for n in sorted(set(r.marked) - seen):
        obs.append(Ob('no-carry-over', '%s: self.%s' % (where, n), PROVED, '', '', r.tag))
    # containers and arrays built by the constructor and modified in place
    for a, l in sorted(r.I.mutlog.items()):
        if a in r.ctor_cells:
            names = [n for n, v in r.ctor_attrs.items() if v == Ref(a)]
            pub = [n for n in names if not n.startswith('_')]
            obs.append(Ob('constructor-state-kept', '%s:%s: %s' % (l.rel, l.func, ','.join(sorted(names)) or 'object'),
                          VIOLATED if pub else UNDECIDED,
                          'solve() modifies in place an object the constructor made (%s)' % ', '.join(names),
                          '%s:%d' % (l.rel, l.line), r.tag))
    obs.append(Ob('constructor-state-kept', where, PROVED, '', '', r.tag))
    return obs, solver_info(r)


# ---------------------------------------------------------------------- C01
def c01(key, tag):
    r = run(key, tag)
    r.go()
    where = solve_construct(r)
    obs = []
    for e in r.I.events:
        if e.kind == 'write' and e.data in ('right-hand side', 'initial guess'):
            obs.append(Ob('no-write-to-argument', '%s:%s: %s' % (e.loc.rel, e.loc.func, e.data), decide(False, e.imp),
                          'the %s array is written by `%s`' % (e.data, e.loc.text),
                          '%s:%d' % (e.loc.rel, e.loc.line), r.tag))
    obs.append(Ob('no-write-to-argument', where, PROVED, '', '', r.tag))
    args = {r.rhs.a: 'the right-hand side'}
    if r.guess:
        args[r.guess_ref.a] = 'the initial guess'
    for st in r.final:
        for n in ('x', 'bestSolution'):
            v = attr(r, st, n)
            a = root_addr(st, v)
            if a is None:
                obs.append(Ob('solution-not-argument', '%s: %s' % (where, n), UNDECIDED, repr(v), '', r.tag))
                continue
            ok = a not in args
            obs.append(Ob('solution-not-argument', '%s: %s' % (where, n), decide(ok, st.imp),
                          '' if ok else 'self.%s shares memory with %s' % (n, args[a]), '', r.tag))
    return obs, solver_info(r)


# ---------------------------------------------------------------------- C13
def c13(key, tag):
    kw = {}
    if tag == 'default' and key == 'Minres':
        kw['fixed'] = {'check': FALSE}      # products of the symmetry check do not count
    r = run(key, tag, **kw)
    r.go()
    where = solve_construct(r)
    obs = []
    for st in r.final:
        n = st.g.get('n:A', ZERO)
        v = attr(r, st, 'nMatvec')
        if type(v) is not Num:
            obs.append(Ob('count', where, UNDECIDED, 'nMatvec is %r' % (v,), '', r.tag))
            continue
        d = psub(v.p, n)
        ok = d.const() == 0
        obs.append(Ob('count', where, decide(ok, st.imp), '' if ok else
                      'nMatvec is %s but %s products were made' % (v.p, n), '', r.tag))
    return obs, solver_info(r)


# ---------------------------------------------------------------------- C10
def c10(key, tag):
    r = run(key, tag)
    r.go()
    where = solve_construct(r)
    obs = []
    for st, e in r.escaped:
        kind, msg, loc = e.info if e.info else ('raise', '', None)
        if kind != 'internal':
            continue
        if e.name in DOMAIN:
            continue
        rel, line, func, text = loc
        obs.append(Ob('no-internal-error', '%s:%s: %s' % (rel, func, e.name), decide(False, st.imp),
                      '%s: %s at `%s`; path facts: %s' % (e.name, msg, text, facts(st)), '%s:%d' % (rel, line), r.tag))
    obs.append(Ob('no-internal-error', where, PROVED if r.final else UNDECIDED, '', '', r.tag))
    return obs, solver_info(r)


DOMAIN = ('ZeroDivisionError', 'OverflowError', 'FloatingPointError')


# ---------------------------------------------------------------------- C16
DOCUMENTED = {'CG': (1, 1), 'Minres': (1, 1), 'Symmlq': (1, 1), 'CGS': (2, 2), 'BiCGSTAB': (2, 2), 'TFQMR': (2, 2)}
# one pass of the bidiagonalization; the second half is left out once beta (alpha) vanishes
LLSWORK = {'LSQR': ((2, 1, 1), (1, 1, 0)), 'LSMR': ((2, 1, 1), (1, 1, 0)),
           'CRAIG': ((2, 1, 1), (1, 1, 0)), 'CRAIGMR': ((2, 1, 1), (1, 1, 0))}


def where_loop(r, st, node):
    l = r.I.loc(st, node)
    return l.rel + ':' + l.func, '%s:%d' % (l.rel, l.line)


def c16(key, tag):
    spec = BYKEY[key]
    backs = []
    prods = []
    letters = ('A', 'P') if key in SQUARE else ('A', 'M', 'N')
    def start(I, st, node):
        # another pass starts: the previous one, if any, was a complete iteration
        if st.g.get('p:loop') == id(node):
            backs.append((node, tuple(st.g.get('p:' + n) for n in letters), st.imp, where_loop(r, st, node), facts(st)))
        for n in letters:
            st.g['p:' + n] = 0
        st.g['p:loop'] = id(node)

    def product(I, st, op, form, node):
        if op.name == 'A' and ('p:A' in st.g or key in LLS):
            rng = J.inrange(form)
            need = 'P' if key in SQUARE else 'M' if op.t else 'N'
            prods.append((rng is None or any(w[0] == need for w in rng), st.imp, I.loc(st, node), form))

    r = run(key, tag)
    r.I.loop_start = start
    r.I.apply_hooks.append(product)

    def conclude():
        return c16_obligations(r, key, tag, solve_construct(r), backs, prods, letters)

    check.PARTIAL.append(conclude)
    r.go()
    info = solver_info(r)
    info['passes'] = len(backs)
    return conclude(), info


def c16_obligations(r, key, tag, where, backs, prods, letters):
    obs = []
    main = set()
    for node, c, imp, w, f in backs:
        if c[0]:
            main.add(node)
    if not main:
        return [Ob('work-per-iteration', where, UNDECIDED, 'no loop with operator products found', '', r.tag)]
    with_p = 'precon' in tag
    for node, c, imp, w, f in backs:
        if node not in main:
            continue
        if key in SQUARE:
            a, p = DOCUMENTED[key]
            want = (a, p if with_p else 0)
            ok = c == want
        else:
            m = 1 if 'M' in r.precons else 0
            n = 1 if 'N' in r.precons else 0
            want = LLSWORK[key]
            want = tuple((x, y * m, z * n) for x, y, z in want)
            ok = c in want
        obs.append(Ob('work-per-iteration', w[0], decide(ok, imp), '' if ok else
                      'a complete pass makes %s products with %s; documented: %s; path facts: %s' %
                      (c, letters, want, f), w[1], r.tag))
    if with_p:
        for ok, imp, l, form in prods:
            obs.append(Ob('product-at-preconditioned-vector', l.rel + ':' + l.func, decide(ok, imp), '' if ok else
                          'the product `%s` is taken at a vector that is not in the range of the preconditioner: %s' %
                          (l.text, str(form)[:200]), '%s:%d' % (l.rel, l.line), r.tag))
    return obs


# ---------------------------------------------------------------------- C18
def c18(key, tag):
    kw = {'fixed': {'store_iterates': TRUE, 'store_resids': TRUE}} if key == 'CG' else {}
    passes = []

    def start(I, st, node):
        st.g['passes'] = padd(st.g.get('passes', ZERO), ONE)

    r = run(key, tag, **kw)
    r.I.loop_start = start
    r.go()
    where = solve_construct(r)
    obs = []
    for e in r.I.events:
        if e.kind == 'storedwrite':
            obs.append(Ob('snapshot-never-written', '%s:%s' % (e.loc.rel, e.loc.func), decide(False, e.imp),
                          '%s by `%s`' % (e.msg, e.loc.text), '%s:%d' % (e.loc.rel, e.loc.line), r.tag))
        if e.kind == 'storecaller':
            obs.append(Ob('snapshot-is-copy', '%s:%s' % (e.loc.rel, e.loc.func), decide(False, e.imp),
                          '%s by `%s`' % (e.msg, e.loc.text), '%s:%d' % (e.loc.rel, e.loc.line), r.tag))
    obs.append(Ob('snapshot-never-written', where, PROVED, '', '', r.tag))
    for st in r.final:
        x = attr(r, st, 'x')
        for hist in ('iterates', 'iterates_p', 'iterates_d', 'resids'):
            v = attr(r, st, hist)
            if v is None or type(v) is not Ref:
                continue
            c = st.cell(v.a)
            if type(c) is ListC:
                n, last = pconst(len(c.items)), (c.items[-1] if c.items else None)
                every = list(c.items)
            elif type(c) is ListS:
                n, last = c.count, c.last
                every = [last]
            else:
                obs.append(Ob('history', '%s: %s' % (where, hist), UNDECIDED, repr(c)[:100], '', r.tag))
                continue
            if hist == 'resids' and key != 'CG':
                continue
            for it in every:
                if type(it) is Ref and type(x) is Ref:
                    ok = root_addr(st, it) != root_addr(st, x)
                    obs.append(Ob('snapshot-is-copy', '%s: %s' % (where, hist), decide(ok, st.imp), '' if ok else
                                  'an entry of %s is the array returned as solution' % hist, '', r.tag))
            if hist not in ('iterates', 'iterates_p') or key == 'Symmlq':
                continue
            if last is None:
                obs.append(Ob('last-iterate-is-solution', where, decide(False, st.imp),
                              'no iterate is stored; path facts: %s' % facts(st), '', r.tag))
                continue
            ok = type(last) is Ref and type(x) is Ref and A_form(r, st, last) is A_form(r, st, x)
            bl = set(st.imp)
            if type(last) is Top or type(x) is Top:
                bl.add('unknown')
            obs.append(Ob('last-iterate-is-solution', where, decide(ok, bl), '' if ok else
                          'the last stored iterate is %s, the solution %s' % (show(r, st, last), show(r, st, x)), '', r.tag))
            d = psub(n, st.g.get('passes', ZERO))
            k = d.const()
            zero = st.g.get('passes', ZERO).const() == 0
            if zero:
                ok = k == 1
            else:
                ok = k in (0, 1)
            if k is None:
                bl.add('count not known')
            obs.append(Ob('one-iterate-per-update', where, decide(ok, bl), '' if ok else
                          '%s iterates stored after %s passes' % (n, st.g.get('passes', ZERO)), '', r.tag))
    info = solver_info(r)
    return obs, info


def A_form(r, st, v):
    import arrays as A
    return A.form(st, v)


def show(r, st, v):
    try:
        return str(A_form(r, st, v))[:150]
    except Exception:
        return repr(v)[:100]


# ---------------------------------------------------------------------- C19
def c19(key, tag):
    kw = {}
    if tag == 'default' and key == 'Minres':
        kw['fixed'] = {'show': FALSE}       # documented default: show=True
    r = run(key, tag, **kw)
    r.go()
    where = solve_construct(r)
    obs = []
    for e in r.I.events:
        if e.kind == 'print':
            obs.append(Ob('silent', '%s:%s' % (e.loc.rel, e.loc.func), decide(False, e.imp),
                          'standard output is written by `%s` although show is false' % e.loc.text,
                          '%s:%d' % (e.loc.rel, e.loc.line), r.tag))
    obs.append(Ob('silent', where, PROVED, '', '', r.tag))
    return obs, solver_info(r)


# ---------------------------------------------------------------------- C20
def c20(key, tag):
    r = run(key, tag)
    r.go()
    where = solve_construct(r)
    obs = []
    for e in r.I.events:
        if e.kind in ('deny', 'globalwrite'):
            obs.append(Ob('no-global-effect', '%s:%s: %s' % (e.loc.rel, e.loc.func, e.data or e.kind), decide(False, e.imp),
                          '%s at `%s`' % (e.msg, e.loc.text), '%s:%d' % (e.loc.rel, e.loc.line), r.tag))
    obs.append(Ob('no-global-effect', where, PROVED, '', '', r.tag))
    return obs, solver_info(r)


# ---------------------------------------------------------------------- C14
def c14(key, tag, peel=0):
    spec = BYKEY[key]
    S.NAN[0] = True
    if key == 'LSMR':
        J.CAP, J.HARDCAP = 6, 20
    lim = patom(scen.opt_atom(spec.limit, 'i'))
    by_product = spec.limit == 'matvec_max'
    seen = []

    def start(I, st, node):
        n = st.g.get('n:A', ZERO) if by_product else st.g.get('passes', ZERO)
        s = S.sign(st, psub(n, lim)) if key != 'TFQMR' else S.NEG
        worked = None
        if by_product:
            worked = st.g.get('p:A') if st.g.get('p:loop') == id(node) else None
            st.g['p:A'] = 0
        elif st.g.get('p:loop') == id(node):
            worked = int(psub(st.g.get('n:A', ZERO), st.g.get('before', ZERO)).const() != 0)
        if not by_product:
            st.g['before'] = st.g.get('n:A', ZERO)
        seen.append((node, s, worked, n, st.imp, where_loop(I_run, st, node), facts(st)))
        st.g['passes'] = padd(st.g.get('passes', ZERO), ONE)
        st.g['p:loop'] = id(node)

    prods = []

    def product(I, st, op, form, node):
        if op.name == 'A' and 'p:loop' in st.g:
            l = I.loc(st, node)
            s = S.sign(st, psub(psub(st.g.get('n:A', ZERO), ONE), lim))
            prods.append((s, st.imp, l, st.g.get('n:A', ZERO), facts(st)))

    r = run(key, tag)
    I_run = r
    if key in ('LSQR', 'CRAIG'):
        S.assume(r.st, lim, frozenset('-+'))        # 0 asks for the default limit
    r.I.loop_start = start
    r.I.peel = peel
    r.I.peel_only = bool(peel)
    if key == 'TFQMR':
        r.I.apply_hooks.append(product)

    def conclude():
        return c14_obligations(r, key, solve_construct(r), seen, prods, by_product, spec)

    check.PARTIAL.append(conclude)
    r.go()
    info = solver_info(r)
    info['passes'] = len(seen)
    return conclude(), info


def unknown(n):
    return () if n.const() is not None else ('the count is not a constant on this path',)


def c14_obligations(r, key, where, seen, prods, by_product, spec):
    obs = []
    main = set(x[0] for x in seen if x[2])
    if not main:
        obs.append(Ob('limit-tested', where, UNDECIDED, 'no loop with operator products found', '', r.tag))
    whats = 'products made' if by_product else 'completed iterations'
    for node, s, worked, n, imp, w, f in seen:
        if node not in main:
            if isinstance(node, ast.While):
                obs.append(Ob('limit-tested', w[0], UNDECIDED, 'a while loop without operator products', w[1], r.tag))
            continue
        ok = s <= S.NEG
        # definite only when the count is known on this path
        obs.append(Ob('limit-tested', w[0], decide(ok, tuple(imp) + unknown(n)), '' if ok else
                      'a pass of the main loop starts although the %s (%s) may have reached %s; path facts: %s' %
                      (whats, n, spec.limit, f), w[1], r.tag))
        if by_product and worked is not None:
            obs.append(Ob('progress', w[0], decide(worked >= 1, imp), '' if worked >= 1 else
                          'a complete pass of the main loop makes no operator product; path facts: %s' % f, w[1], r.tag))
    for s, imp, l, n, f in prods:
        ok = s <= S.NEG
        obs.append(Ob('limit-tested', '%s:%s' % (l.rel, l.func), decide(ok, tuple(imp) + unknown(n)), '' if ok else
                      'the main loop makes a product `%s` although %s products were already made, which may have reached '
                      '%s; path facts: %s' % (l.text, n, spec.limit, f), '%s:%d' % (l.rel, l.line), r.tag))
    return obs


# ---------------------------------------------------------------------- C15
TOLS = {'CG': ('abstol', 'reltol'), 'CGS': ('abstol', 'reltol'), 'BiCGSTAB': ('abstol', 'reltol'),
        'TFQMR': ('abstol', 'reltol'), 'Symmlq': ('rtol',), 'Minres': ('rtol', 'etol'),
        'LSQR': ('atol', 'btol', 'conlim', 'etol'), 'LSMR': ('atol', 'btol', 'conlim', 'etol'),
        'CRAIG': ('btol', 'etol'), 'CRAIGMR': ('etol',)}


def tolerance_terms(key, d):
    """[(tolerance, orientation)]: the comparison of a quantity with it that a
    difference stands for; orientation 1: met when the difference is negative."""
    out = []
    terms = list(d.t)
    if len(terms) < 2:
        return out
    for m, c in terms:
        if abs(c) != 1:
            continue
        ats = [(T._atom_list[a], e) for a, e in m]
        if len(ats) == 1 and ats[0][0].key[0] == 'max' and ats[0][1] == 1:
            for q in ats[0][0].key[1:]:
                out += [(n, -c) for n in tol_mono(key, q)]
            continue
        for a, e in ats:
            if a.key[0] == 'opt' and a.key[1] in TOLS[key]:
                n = a.key[1]
                if n == 'conlim':
                    out.append((n, -c if e == -1 else c))
                elif e == 1:
                    out.append((n, -c))
    names = [n for n, o in out]
    if 'btol' in names and 'atol' in names:
        # btol + atol*|A||x|/|b|: a test of the combination, attributed to btol
        out = [(n, o) for n, o in out if n != 'atol']
    return out


def tol_mono(key, q):
    if len(q.t) != 1:
        return []
    (m, c), = q.t
    if c != 1:
        return []
    return [T._atom_list[a].key[1] for a, e in m if e == 1 and T._atom_list[a].key[0] == 'opt' and
            T._atom_list[a].key[1] in TOLS[key]]


def c15(key, tag, only=None, peel=0):
    tols = TOLS[key] if only is None else (only,)
    tested = {}
    seen = []

    def split(I, st, rel, d, node):
        tt = [x for x in tolerance_terms(key, d) if x[0] in tols]
        if not tt or 'p:loop' not in st.g:
            return None
        out = []
        for want in (True, False):
            s = st.fork()
            if not S.assume(s, d, rel if want else frozenset('-0+n') - rel):
                continue
            sg = S.sign(s, d)
            for n, o in tt:
                g = sg if o > 0 else S.sflip(sg)
                if g <= S.POS:
                    k = 1
                elif '-' in g and not '+' in g:
                    k = 3
                elif g <= S.ZER:
                    k = 3
                elif g == S.NN:
                    k = 2
                else:
                    k = 4
                s.g['p:t:' + n] = max(s.g.get('p:t:' + n, 0), k)
                tested.setdefault(n, set()).add(I.loc(st, node).text)
            out.append((s, TRUE if want else FALSE))
        return out

    def start(I, st, node):
        if st.g.get('p:loop') == id(node) and st.g.get('p:A'):
            for n in tols:
                seen.append((node, n, st.g.get('p:t:' + n, 0), st.fork(), where_loop(r, st, node), facts(st)))
        st.g['passes'] = padd(st.g.get('passes', ZERO), ONE)
        for n in tols:
            st.g['p:t:' + n] = 0
        st.g['p:A'] = 0
        st.g['p:loop'] = id(node)

    r = run(key, tag)
    r.I.loop_start = start
    r.I.split_compare = split
    if peel:
        r.I.peel, r.I.peel_only = peel, True
        r.tag += ' followed passes'
    if 'conlim' in tols:
        S.assume(r.st, patom(scen.opt_atom('conlim', 'f')), S.POS)      # 0 switches the test off

    def conclude():
        return c15_obligations(r, solve_construct(r), key, seen, tested)

    check.PARTIAL.append(conclude)
    r.go()
    info = solver_info(r)
    info['comparisons'] = dict((n, sorted(t)) for n, t in tested.items())
    return conclude(), info


def c15_obligations(r, where, key, seen, tested):
    obs = []
    if not seen:
        return [Ob('tolerance-tested', where, UNDECIDED, 'no loop with operator products found', '', r.tag)]
    for node, n, k, st, w, f in seen:
        kk = '%s: %s' % (w[0], n)
        if k == 0:
            if n == 'etol':
                # only compared once the window is full
                win = patom(scen.opt_atom('window', 'i'))
                if '+' not in S.sign(st, psub(st.g['passes'], win)):
                    obs.append(Ob('tolerance-tested', kk, PROVED, '', w[1], r.tag))
                    continue
            if n == 'conlim' and '+' not in S.sign(st, patom(scen.opt_atom('conlim', 'f'))):
                obs.append(Ob('tolerance-tested', kk, PROVED, '', w[1], r.tag))
                continue
            obs.append(Ob('tolerance-tested', kk, UNDECIDED if n in tested or st.imp else VIOLATED,
                          'a pass of the main loop ends without a comparison with %s and another one starts; path facts: %s' %
                          (n, f), w[1], r.tag))
            continue
        obs.append(Ob('tolerance-tested', kk, PROVED, '', w[1], r.tag))
        ok = k == 1 or k == 2 and (n == 'etol' or key == 'TFQMR')
        obs.append(Ob('tolerance-stops', kk, decide(ok, st.imp or (('sign',) if k == 4 else ())), '' if ok else
                      'another pass of the main loop starts although the quantity compared with %s %s; comparisons: %s; '
                      'path facts: %s' % (n, 'is equal to it' if k == 2 else 'has reached it',
                                          ' / '.join(sorted(tested[n])), f), w[1], r.tag))
    return obs


# ---------------------------------------------------------------------- C17
def c17(key, tag, budget=None):
    # with a budget the passes of the main loop are followed one by one, so that
    # the returned values are expressions in the inputs alone
    kw = {}
    if budget is not None:
        c = config(key, tag)
        kw['fixed'] = dict(c.get('fixed', {}), matvec_max=Num(pconst(budget), LI, False), store_iterates=FALSE,
                           store_resids=FALSE)
    r = run(key, tag, **kw)
    if budget is not None:
        r.I.peel = budget
        r.I.apart = 64
        r.tag += ' %d products' % budget
    if key == 'Symmlq' and 'shift' in r.names:
        J.LETTERS.append((T.op_letter('A', False, False), pneg(r.names['shift'].p)))
        S.assume(r.st, r.names['shift'].p, frozenset('-+'))
    r.go()
    return c17_obligations(r, key, tag, solve_construct(r)), solver_info(r)


def c17_obligations(r, key, tag, where):
    obs = []
    np_ = r.I.get('numpy', None) if False else None
    names = {'NP': Ext('numpy')}
    op = '(rhs - A*%s)'
    if key == 'Symmlq':
        op = '(rhs - (A*%s - shift*%s))' if 'default' not in tag else '(rhs - A*%s)'
        names['shift'] = r.names.get('shift', NONE)
    start = 'guess' if r.guess else None
    if key == 'CG' and 'precon' in tag:
        measure = lambda e: 'NP.sqrt(NP.dot(%s, P*%s))' % (e, e)
        names['P'] = r.names['precon']
    elif key == 'CG':
        measure = lambda e: 'NP.sqrt(NP.dot(%s, %s))' % (e, e)
    else:
        measure = lambda e: 'NP.linalg.norm(%s)' % e
    for st in r.final:
        at = r.attrs(st)
        x = at.get('x')
        e1 = measure(op.replace('%s', 'K.x'))
        e0 = measure(op.replace('%s', 'guess') if start else 'rhs')
        for nm, e in (('residNorm', e1), ('residNorm0', e0)):
            v = at.get(nm)
            if nm == 'residNorm0' and v is None:
                continue
            s = st.fork()
            res, esc = evaluate(r, s, e, **names)
            kk = '%s: %s' % (where, nm)
            if esc or len(res) != 1 or type(res[0][1]) is not Num or type(v) is not Num:
                obs.append(Ob('residual-belongs-to-solution', kk, UNDECIDED, '%s or its definition not evaluated' % nm, '', r.tag))
                continue
            want = res[0][1].p
            ok = want is v.p
            if not ok and key == 'Symmlq':
                ok = S.sign(res[0][0], psub(want, v.p)) == S.ZER
            # a mismatch is definite when both sides are in terms of the inputs alone
            sure = not ok and not st.imp and not zero_facts(st) and identity.differ(want, v.p)
            obs.append(Ob('residual-belongs-to-solution', kk, PROVED if ok else VIOLATED if sure else UNDECIDED, '' if ok else
                          '%s is %s on return, but its definition for the returned x gives %s; path facts: %s' %
                          (nm, str(v.p)[:300], str(want)[:300], facts(st)), '', r.tag))
    return obs


def zero_facts(st):
    """Whether the path assumes equations between data (which terms alone do not show)."""
    return any(s == S.ZER and not S.is_intpoly(q) for q, s in st.signs.items())


# ---------------------------------------------------------------------- C08, C23
PAIRS = (('f8', 'f8'), ('f4', 'f4'), ('f4', 'f8'), ('f8', 'f4'), ('c16', 'f8'), ('f8', 'c16'), ('c16', 'c16'), ('c8', 'f8'),
         ('i8', 'f8'), ('f8', 'i8'), ('c16', 'i8'), ('i8', 'i8'))
INTPAIRS = (('i8', 'i8', 'i8'), ('i8', 'f8', 'f8'), ('f8', 'i8', 'f8'), ('f8', 'f8', 'i8'), ('i4', 'i4', 'f4'), ('i8', 'i8', 'f8'))


def typed(key, tag, dts):
    """The solver on an operator, right-hand side and guess of given dtypes."""
    cplx = any(D.is_real(frozenset([d])) is False for d in dts)
    kw = dict(dt_op=dts[0], dt_rhs=dts[1], dt_guess=dts[2])
    if cplx:
        kw['real'] = False
    r = run(key, tag, **kw)
    r.tag = '%s %s' % (r.tag, '/'.join(dts))
    r.go()
    return r


def conversions(r, where, rule, obs, lossy):
    for e in r.I.events:
        if e.kind in ('narrow', 'cast', 'intdiv') and lossy(e):
            obs.append(Ob(rule, '%s:%s' % (e.loc.rel, e.loc.func), decide(False, e.imp),
                          '%s at `%s`' % (e.msg, e.loc.text), '%s:%d' % (e.loc.rel, e.loc.line), r.tag))
    for st, e in r.escaped:
        kind, msg, loc = e.info if e.info else ('raise', '', None)
        if kind == 'internal' and e.name not in DOMAIN:
            obs.append(Ob(rule, '%s:%s: %s' % (loc[0], loc[2], e.name), decide(False, st.imp),
                          '%s: %s at `%s`' % (e.name, msg, loc[3]), '%s:%d' % (loc[0], loc[1]), r.tag))
    obs.append(Ob(rule, where, PROVED if r.final else UNDECIDED, '', '', r.tag))


def c08(key, tag, dts):
    dts += (dts[0] if D.is_real(frozenset([dts[0]])) is False else dts[1],)
    r = typed(key, tag, dts)
    where = solve_construct(r)
    obs = []
    want = D.promote([frozenset([dts[0]]), frozenset([dts[1]])], [frozenset(['~f'])])
    for st in r.final:
        x = attr(r, st, 'x')
        if not A.is_arr(st, x):
            obs.append(Ob('solution-dtype', where, UNDECIDED, 'x is not an array', '', r.tag))
            continue
        have = A.dt(st, x)
        blame = tuple(st.imp) + (() if all(e in D.CONC for e in have) and len(have) == 1 else ('the dtype is not known',))
        obs.append(Ob('solution-dtype', where, decide(have == want, blame),
                      '' if have == want else 'the solution has dtype %s, not %s' % (A.sdt(have), A.sdt(want)), '', r.tag))
    # error windows (not as long as the solution) hold estimates, which are real whatever the data
    conversions(r, where, 'no-narrowing-store', obs, lambda e: e.kind == 'narrow' and scen.N in e.data[3])
    return obs, solver_info(r)


def c23(key, tag, dts):
    if key == 'LSMR':
        J.CAP, J.HARDCAP = 6, 20
    r = typed(key, tag, dts)
    where = solve_construct(r)
    obs = []
    for st in r.final:
        x = attr(r, st, 'x')
        if A.is_arr(st, x):
            have = A.dt(st, x)
            ok = D.is_int(have) is False
            obs.append(Ob('solution-not-integer', where, decide(ok, tuple(st.imp) + (() if D.is_int(have) else ('dtype',))),
                          '' if ok else 'the solution has dtype %s' % A.sdt(have), '', r.tag))
    conversions(r, where, 'nothing-rounds-down', obs, lambda e: e.kind == 'intdiv' or D.is_int(e.data[1]) is not False)
    return obs, solver_info(r)


# ---------------------------------------------------------------------- C24
NOTSYM = {'Minres': (7, 8, 9), 'Symmlq': (6, 7, 8)}


def c24(key, tag):
    """A symmetric operator with a positive definite preconditioner passes the checks made before the iteration."""
    T.MOVE[0], T.EXPAND[0] = 'real', 1
    r = run(key, tag)
    T.OPPROPS['P'] = ('sym', 'real', 'pd')
    T.REALS.update(['b', 'x0'])
    r.I.peel, r.I.peel_only = 1, True

    def start(I, st, node):
        st.g['passes'] = padd(st.g.get('passes', ZERO), ONE)

    r.I.loop_start = start
    r.go()
    where = solve_construct(r)
    obs = []
    for st in r.final:
        if st.g.get('passes', ZERO) is not ZERO:
            continue
        v = r.attrs(st).get('istop')
        c = v.p.const() if type(v) is Num else None
        ok = c is not None and int(c) not in NOTSYM[key]
        obs.append(Ob('symmetric-accepted', where, PROVED if ok else VIOLATED if c is not None and not st.imp else UNDECIDED,
                      '' if ok else 'returns with stop code %s although the operator is symmetric and the preconditioner '
                      'symmetric positive definite; path facts: %s' % (c, facts(st)), '', r.tag))
    return obs, solver_info(r)


# ---------------------------------------------------------------------- C25
CODES = {'Minres': {1: ('rtol',), 2: ('rtol',), 10: ('etol',)}, 'Symmlq': {1: ('rtol',)},
         'LSQR': {1: ('btol',), 2: ('atol',), 3: ('conlim',), 8: ('etol',)},
         'LSMR': {1: ('btol',), 2: ('atol',), 3: ('conlim',), 8: ('etol',)},
         'CRAIG': {1: ('btol',), 8: ('etol',)}, 'CRAIGMR': {8: ('etol',)}}
UNCHECKED = {'Minres': (7, 8), 'Symmlq': (6, 7)}        # only found by the checks made on request


def c25(key, tag, peel=0, only=None):
    """Every return is for the reason it states."""
    spec = BYKEY[key]
    lim = patom(scen.opt_atom(spec.limit, 'i'))
    a = next(iter(lim.atoms()))
    tols = set(t for ts in CODES.get(key, {}).values() for t in ts if only in (None, t))
    counter = 'n:A' if spec.limit == 'matvec_max' else 'passes'
    r = run(key, tag)
    if key in ('LSQR', 'CRAIG'):
        S.assume(r.st, lim, frozenset('-+'))        # 0 asks for the default limit
    if 'conlim' in BYKEY[key].solve:
        S.assume(r.st, patom(scen.opt_atom('conlim', 'f')), S.POS)      # 0 switches the test off
    r.I.peel, r.I.peel_only = peel or (2 if key == 'LSMR' else 3), True
    if key == 'LSMR' and peel != 1:
        J.CAP, J.HARDCAP = 6, 20
    if key in CGFAM:
        r.I.apart = 64
    r.tag += ' %d followed passes' % r.I.peel

    def reached(st):
        return S.sign(st, psub(st.g.get(counter, ZERO), lim))

    def start(I, st, node):
        st.g['passes'] = padd(st.g.get('passes', ZERO), ONE)
        st.g['p:loop'] = 1
        if not isinstance(node, ast.While):
            st.g['p:odd'] = 1       # not followed pass by pass

    def split(I, st, rel, d, node):
        """Splits at tests of the limit and of tolerances; notes which were met."""
        if a in d.atoms():
            if '-' not in reached(st) or '+' not in reached(st) and '0' not in reached(st):
                return None
            tt = ()
        else:
            tt = [x for x in tolerance_terms(key, d) if x[0] in tols] if tols else ()
            if not tols:
                return None
            if not tt:
                if not tolerance_terms(key, d) and mentions(d, tols) and not scaled(d, tols):
                    st.g['p:odd'] = 1
                if rel != S.NP and rel != S.NN or S.is_intpoly(d) or d.const() is not None or 'p:loop' not in st.g or \
                        mentions(d, TOLS[key]):
                    return None
                o = 1 if rel == S.NP else -1
                if len(d.t) > 1 and not any(len(m) == 1 and c == -o and T._atom_list[m[0][0]].key[0] == 'phi' for m, c in d.t):
                    return None
                # below zero: also below every tolerance; below a joined value: perhaps below one
                tt = (('zero' if len(d.t) == 1 else 'odd', o),)
        out = []
        for want in (True, False):
            s = st.fork()
            if not S.assume(s, d, rel if want else frozenset('-0+n') - rel):
                continue
            if '-' not in reached(s):
                s.g['p:m:limit'] = 1
            sg = S.sign(s, d)
            for t, o in tt:
                if ('+' if o > 0 else '-') not in sg:
                    s.g['p:odd' if t == 'odd' else 'p:m:' + t] = 1
            out.append((s, TRUE if want else FALSE))
        return out

    r.I.loop_start = start
    r.I.split_compare = split
    r.go()
    where = solve_construct(r)
    obs = []
    for st in r.final:
        limit = '-' not in reached(st) or 'p:m:limit' in st.g
        obs += c25_family(r, key, st, where, limit) if key in CGFAM else c25_code(r, key, st, where, limit, only)
    return obs, solver_info(r)


def stated(r, key, st, kk, ok, why):
    """An obligation of C25: a path without its reason counts when symbols satisfy all that it assumes."""
    v = PROVED
    if not ok:
        n = st.g.get('passes', ZERO)
        v = VIOLATED if not st.imp and 'p:odd' not in st.g and n.const() is not None and \
            identity.witness(st.signs.items(), key in LLS) else UNDECIDED
    return Ob('stated-reason', kk, v, '' if ok else '%s; path facts: %s' % (why, facts(st)), '', r.tag)


def c25_family(r, key, st, where, limit):
    at = r.attrs(st)
    kk = '%s: not converged' % where
    conv = at.get('converged')
    if conv is None or type(conv) in (Top, Stale):
        return [Ob('stated-reason', kk, UNDECIDED, 'converged not evaluated', '', r.tag)]
    obs = []
    yes, no = truth_states(r, st, conv)
    for s in no:
        why = limit
        if key == 'CG' and not why:
            for nm in ('infiniteDescent', 'definite'):
                v = at.get(nm)
                if v is not None and v == (TRUE if nm == 'infiniteDescent' else FALSE):
                    why = True
        obs.append(stated(r, key, s, kk, why, 'returns unconverged after %s products although that may be less than %s' %
                          (s.g.get('n:A', ZERO), BYKEY[key].limit)))
    return obs


def mentions(p, names):
    for a in p.atoms():
        if a.key[0] == 'opt' and a.key[1] in names:
            return True
        for x in a.key[1:]:
            if isinstance(x, T.Poly) and mentions(x, names):
                return True
    return False


def scaled(d, names):
    """A comparison with a multiple of the tolerance (as for printing) is another test."""
    deep = [a for a in d.atoms() if a.key[0] != 'opt' and any(isinstance(x, T.Poly) and mentions(x, names) for x in a.key[1:])]
    return not deep and any(abs(c) != 1 and any(T._atom_list[a].key[0] == 'opt' for a, e in m) for m, c in d.t)


def c25_code(r, key, st, where, limit, only=None):
    at = r.attrs(st)
    ist = at.get('istop')
    n = st.g.get('passes', ZERO)
    obs = []
    if 'itn' in at and type(at['itn']) is Num and key != 'Symmlq':
        ok = at['itn'].p is n
        obs.append(Ob('iterations-reported', where, decide(ok, tuple(st.imp) + unknown(n)), '' if ok else
                      '%s iterations are reported after %s passes of the main loop; path facts: %s' % (at['itn'].p, n, facts(st)),
                      '', r.tag))
    if type(ist) is not Num or ist.p.const() is None:
        return obs + [Ob('stated-reason', where, UNDECIDED, 'stop code %s not a constant on this path' % (ist,), '', r.tag)]
    code = int(ist.p.const())
    kk = '%s: code %d' % (where, code)
    status = at.get('status')
    if type(status) is Const and isinstance(status.v, str):
        ok = ('iteration' in status.v.lower()) == (code == LIMITCODE[key])
        obs.append(Ob('status-names-limit', kk, decide(ok, st.imp), '' if ok else 'the status is %r with stop code %d' %
                      (status.v, code), '', r.tag))
    if code == LIMITCODE[key]:
        obs.append(stated(r, key, st, kk, limit, 'the limit is reported as reached after %s passes, but %s may be larger' %
                          (n, BYKEY[key].limit)))
    elif code == 0:
        obs.append(stated(r, key, st, kk, n is ZERO, 'the code for x = 0 is reported after %s iterations' % n))
    elif code in UNCHECKED.get(key, ()) and 'check' not in r.tag:
        obs.append(Ob('stated-reason', kk, decide(False, st.imp), 'the structure is reported as not symmetric although no check '
                      'of it was requested; path facts: %s' % facts(st), '', r.tag))
    elif code in CODES[key]:
        ts = CODES[key][code]
        if only is None or only in ts:
            obs.append(stated(r, key, st, kk, any('p:m:' + t in st.g for t in ts + ('zero',)),
                              'the code of a test with %s is reported, but no comparison with it was met' % ' or '.join(ts)))
    return obs
