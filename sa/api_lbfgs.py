"""Scenarios of the limited-memory operators: histories of store(), products and restart()."""
from values import *
from terms import *

FILE = 'pykrylov/linop/lbfgs.py:'
CLASSES = ['InverseLBFGSOperator', 'LBFGSOperator', 'CompactLBFGSOperator', 'StructuredLBFGSOperator']
LB = ('pykrylov.linop.lbfgs', CLASSES)

SPEC = '''
def two_loop(mem, scaling, v):
    q = v.astype(np.result_type(v.dtype, 'd'))
    al = []
    for (s, y) in reversed(mem):
        a = np.dot(s, q) / np.dot(s, y)
        al.insert(0, a)
        q = q - a * y
    if scaling and len(mem) > 0:
        (s, y) = mem[-1]
        q = (np.dot(s, y) / np.dot(y, y)) * q
    for (s, y), a in zip(mem, al):
        b = np.dot(y, q) / np.dot(s, y)
        q = q + (a - b) * s
    return q
def outer(mem, scaling, v):
    q = v.astype(np.result_type(v.dtype, 'd'))
    g = 1.
    if scaling and len(mem) > 0:
        (s, y) = mem[-1]
        g = np.dot(s, y) / np.dot(y, y)
    q = (1 / g) * q
    bs = []
    for (s, y) in mem:
        a = (1 / g) * s
        for (sj, yj, aj) in bs:
            a = a + (np.dot(yj, s) / np.dot(sj, yj)) * yj - (np.dot(aj, s) / np.dot(sj, aj)) * aj
        bs.append((s, y, a))
    for (s, y, a) in bs:
        q = q + (np.dot(y, v) / np.dot(s, y)) * y - (np.dot(a, v) / np.dot(s, a)) * a
    return q
def structured(mem, scaling, v):
    q = v.astype(np.result_type(v.dtype, 'd'))
    g = 1.
    if scaling and len(mem) > 0:
        (s, y, yd) = mem[-1]
        g = np.dot(s, y) / np.dot(y, y)
    q = (1 / g) * q
    ps = []
    for (s, y, yd) in mem:
        c = (g * np.dot(s, y) / np.dot(s, s)) ** 0.5
        a = y + (c / g) * s
        d = yd - (1 / g) * s
        for (al, dl, at, dt) in ps:
            t = np.dot(al, s) / at
            u = t * dl + (np.dot(dl, s) / at) * al - (dt / at * t) * al
            a = a + c * u
            d = d - u
        ps.append((a, d, np.dot(a, s), np.dot(d, s)))
    for (a, d, at, dt) in ps:
        av = np.dot(a, v)
        q = q + (av / at) * d + (np.dot(d, v) / at) * a - (av * dt / at / at) * a
    return q
def record(op, mem, k):
    stored = 0
    for e in op.ys:
        if e is not None:
            stored = stored + 1
    equal('C21', 'pairs-stored', W, stored, len(mem))
    equal('C21', 'next-slot', W + '.store', 0 <= op.insert and op.insert < k, True)
    for i in range(len(mem)):
        j = (op.insert - len(mem) + i) % k
        value('C21', 'record-consistent', W + '.store', op.s[:, j], mem[i][0])
        value('C21', 'record-consistent', W + '.store', op.y[:, j], mem[i][1])
        value('C21', 'record-consistent', W + '.store', op.ys[j], np.dot(mem[i][0], mem[i][1]))
def products(op, mem, spec, scaling, dts):
    for xdt in dts:
        x = vec('x', n, xdt)
        state = [op.s, op.y, op.ys, op.insert]
        stamp(x, 'x')
        stamp(state, 'state')
        y = op * x
        if spec is not None:
            value('C21', 'product-of-stored-pairs', W + '.lbfgs_matvec', y, spec(mem, scaling, vec('x', n, xdt)))
        state = [op.s, op.y, op.ys, op.insert]
        untouched('C21', 'product-leaves-contents', W + '.lbfgs_matvec', state, 'state')
        untouched('C02', 'input-intact', W + '.lbfgs_matvec', x, 'x')
        fresh('C02', 'result-is-fresh', W + '.lbfgs_matvec', y, x, op)
        same_dtype('C08', 'product-dtype', W + '.lbfgs_matvec', y.dtype, np.result_type(op.dtype, xdt))
        z = op * x
        value('C21', 'product-repeatable', W + '.lbfgs_matvec', z, y)
'''

STORE = '''
s = vec('S%(i)d', n, %(dt)r)
y = vec('Y%(i)d', n, %(dt)r)
d = vec('D%(i)d', n, %(dt)r)
state = [op.s, op.y, op.ys, op.insert]
stamp(state, 'before')
stamp([s, y, d], 'pair')
ok = %(accept)s
op.store(%(args)s)
untouched('C03', 'pair-contents-untouched', W + '.store', [s, y, d], 'pair')
s[:] = vec('junk', n, %(dt)r)
y[:] = vec('junk', n, %(dt)r)
d[:] = vec('junk', n, %(dt)r)
s = vec('S%(i)d', n, %(dt)r)
y = vec('Y%(i)d', n, %(dt)r)
d = vec('D%(i)d', n, %(dt)r)
state = [op.s, op.y, op.ys, op.insert]
if ok:
    mem.append((s, y, d)[:PART])
    mem = mem[-%(np)d:]
    record(op, mem, %(np)d)
else:
    untouched('C21', 'rejected-leaves-contents', W + '.store', state, 'before')
'''
SECANT = '''
if len(mem) > 0:
    (s, y) = (mem[-1][0], mem[-1][-1])      # the structured operator is exact on its third vector
    if W[-len('InverseLBFGSOperator'):] == 'InverseLBFGSOperator':
        value('C26', 'secant-equation', W + '.lbfgs_matvec', op * y, s)
    else:
        value('C26', 'secant-equation', W + '.lbfgs_matvec', op * s, y)
u = vec('u', n, 'f8')
v = vec('v', n, 'f8')
value('C26', 'symmetric', W + '.lbfgs_matvec', np.dot(u, op * v), np.dot(v, op * u))
equal('C26', 'declared-symmetric', W, op.symmetric, True)
value('C26', 'transpose-is-itself', W + '.lbfgs_matvec', op.T * u, op * u)
value('C26', 'linear', W + '.lbfgs_matvec', op * (2 * u - v), 2 * (op * u) - op * v)
if W[-len('InverseLBFGSOperator'):] == 'InverseLBFGSOperator':
    # u'Hu as a sum of squares with the positive weights s'y (and the positive scaling)
    (w, form) = (u, 0)
    for j in range(len(mem)):
        (s, y) = (mem[len(mem) - 1 - j][0], mem[len(mem) - 1 - j][1])
        t = np.dot(s, w) / np.dot(s, y)
        form = form + t * t * np.dot(s, y)
        w = w - t * y
    last = np.dot(w, w)
    if %(sc)r and len(mem) > 0:
        last = last * np.dot(mem[-1][0], mem[-1][1]) / np.dot(mem[-1][1], mem[-1][1])
    value('C26', 'sum-of-squares', W + '.lbfgs_matvec', np.dot(u, op * u), form + last)
'''

FRESH = '''
ref = %(cls)s(n, npairs=%(np)d, scaling=%(sc)r)
ref.accept_threshold = op.accept_threshold
for p in mem:
    ref.store(*p)
value('C21', 'history-independent', W, op * vec('x', n, 'f8'), ref * vec('x', n, 'f8'))
'''


def add(sc):
    for cls in CLASSES:
        st = cls.startswith('Str')
        spec = {'InverseLBFGSOperator': 'two_loop', 'LBFGSOperator': 'outer', 'CompactLBFGSOperator': 'outer',
                'StructuredLBFGSOperator': 'structured'}[cls]
        W = FILE + cls
        part = 3 if st else 2

        def history(npairs, scaling, steps, dt='f8', dts="'f8'", thr=None, fresh=True, kw={}, name=''):
            src = SPEC + 'op = %s(n, npairs=%d, scaling=%r)\nmem = []\n' % (cls, npairs, scaling)
            if thr:
                src += 'op.accept_threshold = %s\n' % thr
            src += "probe(W, op, lambda x: 1*x, lambda x: 1*x, lambda x: 1*x, n, n, np.float64)\n" if not name else ''
            i = 0
            for ch in steps:
                if ch == 's':
                    i += 1
                    if st:
                        acc = 'np.dot(s, y) + (np.dot(s, y) * np.dot(s, op * s))**0.5 >= op.accept_threshold'
                    else:
                        acc = 'np.dot(s, y) > op.accept_threshold'
                    src += STORE % {'i': i, 'dt': dt, 'np': npairs, 'accept': acc, 'args': 's, y, d' if st else 's, y'}
                elif ch == 'p':
                    src += 'products(op, mem, %s, %r, [%s])\n' % (spec, scaling, dts)
                elif ch == 'r':
                    src += 'op.restart()\nmem = []\nrecord(op, mem, %d)\n' % npairs
                elif ch == 'q':
                    src += SECANT % {'sc': scaling}
                elif ch == 'f':
                    src += FRESH % {'cls': cls, 'np': npairs, 'sc': scaling}
            k = dict(imports=(LB,), dims='n', expand=400, apart=64, extra={'W': Const(W), 'PART': Num(pconst(part), LI, False)})
            k.update(kw)
            sc('lbfgs %s npairs=%d scaling=%s %s %s%s' % (cls, npairs, scaling, steps, dt, name), src, **k)
        for scaling in (False, True):
            history(1, scaling, 'pspspf' if not st else 'pspsp', name=' ')
            history(2, scaling, 'spspspf' if not st else 'spsp', name=' ')
            history(3, scaling, 'ssspspf' if not st else 'ssp', name=' ')
            history(2, scaling, 'spsprpspf' if not st else 'srsp', name=' restart')
        for scaling in (False, True):
            for steps in ('qsq', 'sqsq', 'ssqsq'):
                for npairs in (1, 2, 3) if not st else (1, 2):
                    if npairs <= steps.count('s') and not (st and npairs > 1 and steps != 'sqsq'):
                        history(npairs, scaling, steps, name=' secant')
        for scaling in (False, True):
            history(2, scaling, 'spsp' if not st else 'sp', dt='i8', dts="'i8', 'f8'", name=' integer', kw={'integer': True})
        history(2, False, 'sp', dts="'i8'", name=' integer vectors', kw={'integer': True})
        history(2, False, 'sp', dt='i4', dts="'i4'", name=' integer short', kw={'integer': True})
        history(2, True, 'sp', dts="'c16', 'f4'", name=' vectors')
        history(2, False, 'p')
        if not st:
            history(2, False, 'spsp', thr='t', kw={'nums': [('t', 'f', frozenset('+'))]}, name=' threshold')
            history(2, False, 'ssp', kw={'nan': True}, name=' nan')

    for other in CLASSES[1:3]:
        for scaling in (False, True):
            for npairs, steps in ((1, 1), (1, 2), (2, 2)):
                W = FILE + other
                src = 'H = InverseLBFGSOperator(n, npairs=%d, scaling=%r)\nB = %s(n, npairs=%d, scaling=%r)\n' % (
                    npairs, scaling, other, npairs, scaling)
                for i in range(steps):
                    src += "s = vec('S%d', n, 'f8')\ny = vec('Y%d', n, 'f8')\nH.store(s, y)\nB.store(s, y)\n" % (i, i)
                src += "v = vec('v', n, 'f8')\n"
                src += "value('C26', 'inverse-of-each-other', W, H * (B * v), v)\n"
                src += "value('C26', 'inverse-of-each-other', W, B * (H * v), v)\n"
                sc('lbfgs inverse pair %s npairs=%d stores=%d scaling=%s' % (other, npairs, steps, scaling), src,
                   imports=(LB,), dims='n', expand=400, apart=64, extra={'W': Const(W)})
