"""Entry point: run.py <property id>."""
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import check
import load

TAB = {}


def solver_tasks(fn, keys, tagset=None):
    import solver_checks as C
    out = []
    for k in keys:
        for t in (tagset(k) if tagset else C.tags(k)):
            out.append((fn + ' ' + C.label(k, t), getattr(C, fn), (k, t)))
    return out


SLOW = {'LSMR': 0, 'LSQR': 1, 'Minres': 2, 'Symmlq': 3, 'CRAIG': 4, 'CRAIGMR': 5}


def tasks(prop):
    import solver_checks as C
    allk = sorted(C.BYKEY, key=lambda k: SLOW.get(k, 9))
    sq = [k for k in allk if k in C.SQUARE]
    if prop == 'C01':
        return solver_tasks('c01', allk)
    if prop == 'C11':
        return solver_tasks('c11', allk)
    if prop == 'C12':
        return solver_tasks('c12', allk)
    if prop == 'C13':
        return solver_tasks('c13', sq, lambda k: [t for t in C.tags(k) if 'check' not in t])
    if prop == 'C10':
        return solver_tasks('c10', allk, lambda k: C.tags(k) + ([] if k in C.CGFAM else ['stored+show']) +
                            (['onlyM', 'onlyN', 'undamped'] if k in C.LLS else []))
    if prop == 'C16':
        return solver_tasks('c16', allk, lambda k: ['plain', 'precon'])
    if prop == 'C18':
        ks = ['CG', 'Minres', 'Symmlq'] + list(C.LLS)
        return solver_tasks('c18', ks, lambda k: ['guess+precon', 'plain'] if k == 'CG' else ['stored', 'stored+precon'])
    if prop == 'C19':
        return solver_tasks('c19', allk)
    if prop == 'C20':
        import effects
        return solver_tasks('c20', allk) + [('effects of every function', effects.scan, ())]
    if prop == 'C14':
        out = solver_tasks('c14', allk, lambda k: ['plain', 'precon'])
        for k in allk:
            for t in ('plain', 'precon') if k != 'LSMR' else ('plain',):
                out.append(('c14 %s followed passes' % C.label(k, t), C.c14, (k, t, 2 if k in ('LSMR', 'LSQR', 'Minres') else 3)))
        return out
    if prop == 'C15':
        out = []
        for k in allk:
            for t in ['plain', 'guess+precon'] if k in C.CGFAM else ['plain', 'stored+precon']:
                each = C.TOLS[k] if k in ('LSQR', 'LSMR') else [None]
                for tol in each:
                    out.append(('c15 %s %s' % (C.label(k, t), tol or ''), C.c15, (k, t, tol)))
                    if t != 'stored+precon' or k not in ('LSMR', 'LSQR'):
                        out.append(('c15 %s %s followed passes' % (C.label(k, t), tol or ''), C.c15,
                                    (k, t, tol, 2 if k == 'LSMR' else 3)))
        return out
    if prop == 'C17':
        out = []
        for k in ('Symmlq', 'CG', 'CGS', 'BiCGSTAB'):
            ts = ['plain', 'precon', 'default'] if k == 'Symmlq' else ['plain', 'guess', 'precon', 'guess+precon', 'default']
            for t in ts:
                out.append(('c17 %s' % C.label(k, t), C.c17, (k, t)))
                if t != 'default':
                    for b in (0, 1, 2, 3, 4) if k != 'Symmlq' else (0, 1, 2, 3):
                        out.append(('c17 %s %d products' % (C.label(k, t), b), C.c17, (k, t, b)))
        return out
    if prop == 'C08':
        return [('c08 %s %s' % (C.label(k, t), '/'.join(d)), C.c08, (k, t, d)) for d in C.PAIRS
                for k in C.CGFAM + ('Minres',) for t in (('plain', 'guess+precon') if k != 'Minres' else ('plain', 'precon'))
                if t == 'plain' or d in C.PAIRS[2:7]]
    if prop == 'C23':
        return [('c23 %s %s' % (C.label(k, t), '/'.join(d)), C.c23, (k, t, d)) for k in allk for d in C.INTPAIRS
                for t in (('plain', 'guess+precon') if k in C.CGFAM else ('plain', 'stored+precon'))
                if k in C.CGFAM or d in C.INTPAIRS[:3] and t != 'plain' or d == C.INTPAIRS[0]]
    if prop == 'C24':
        return solver_tasks('c24', ('Minres', 'Symmlq'), lambda k: ['check', 'check+precon'])
    if prop == 'C25':
        out = []
        for k in allk:
            more = ['check', 'check+precon'] if k in ('Minres', 'Symmlq') else ['guess+precon'] if k in C.CGFAM else ['undamped']
            for t in ['plain', 'precon'] + more:
                deep = k not in ('LSQR', 'LSMR', 'Minres')
                for tol in [None] if deep else C.TOLS[k]:
                    for p in (1, 3) if deep else (1, 2) if t != 'undamped' else (1,):
                        out.append(('c25 %s %s %d' % (C.label(k, t), tol or '', p), C.c25, (k, t, p, tol)))
        return out
    if prop in ('C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C09'):
        return []
    if prop in ('C21', 'C26'):
        return []
    if prop == 'C22':
        import exports
        return [('exports of every package', exports.scan, ())]
    raise SystemExit('unknown property %s' % prop)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t = time.time()
    import meta
    try:
        for n in load.all_modules():
            load.load(n)
        ts = tasks(prop)
        if prop in ('C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C13', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C26'):
            import api_checks
            ts = ts + api_checks.tasks(prop)
    except load.AnalysisBroken as e:
        print('ANALYSIS BROKEN: %s' % e)
        return 2
    if os.environ.get('SA_ONLY'):       # development: tasks whose label contains it
        ts = [t for t in ts if os.environ['SA_ONLY'] in t[0]]
    results = check.run_tasks(ts)
    return check.report(prop, results, time.time() - t, meta.LEVEL.get(prop, 'other'), meta.EXPLAIN[prop], tier)


if __name__ == '__main__':
    sys.exit(main())
