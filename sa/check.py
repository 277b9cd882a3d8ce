"""Check framework: obligations, worker processes, evidence, verdict."""
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.setrecursionlimit(20000)

PROVED, VIOLATED, UNDECIDED, NOTE = 'proved', 'violated', 'undecided', 'note'


class Ob(object):
    """One proof obligation and what the analysis concluded about it.

    key: the construct it is about (file:function [: detail]), never a line;
    rule: the rule applied; where: file:line for the reader."""
    __slots__ = ('rule', 'key', 'status', 'msg', 'where', 'config')

    def __init__(self, rule, key, status, msg='', where='', config=''):
        self.rule, self.key, self.status = rule, key, status
        self.msg, self.where, self.config = msg, where, config

    def row(self):
        return (self.rule, self.key, self.status, self.msg, self.where, self.config)


BLAMES = {}
PARTIAL = []        # functions returning the obligations decided so far


def decide(ok, blamed=()):
    """Three-valued verdict: an unproved obligation is a violation only when
    the analysis lost no information on the way."""
    if ok:
        return PROVED
    for b in blamed:
        BLAMES[b] = BLAMES.get(b, 0) + 1
    return UNDECIDED if blamed else VIOLATED


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


def _work(conn, fn, args, label, limit):
    import terms as T
    out = {'label': label, 'obs': [], 'info': {}, 'error': None}
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        obs, info = fn(*args)
        out['obs'] = [o.row() for o in obs]
        out['info'] = info
    except Timeout:
        out['error'] = ('undecided', 'time limit of %d s' % limit)
        if PARTIAL:
            # what was found on the states reached so far stands
            out['obs'] = [o.row() for o in PARTIAL[-1]() if o.status == VIOLATED]
    except Exception as e:
        from interp import Undecided
        from load import AnalysisBroken
        if isinstance(e, AnalysisBroken):
            out['error'] = ('broken', str(e))
        elif isinstance(e, Undecided):
            out['error'] = ('undecided', str(e))
        else:
            tb = traceback.format_exc()
            out['error'] = ('internal', tb[-1500:])
    signal.alarm(0)
    out['time'] = time.time() - t
    conn.send(out)
    conn.close()


def run_tasks(tasks, limit=400, deadline=780, jobs=8):
    """tasks: (label, function, args). Each runs in a forked process."""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    t0 = time.time()
    pend = list(tasks)
    live = []
    done = []
    while pend or live:
        while pend and len(live) < jobs:
            label, fn, args = pend.pop(0)
            left = deadline - (time.time() - t0)
            if left < 2:
                done.append({'label': label, 'obs': [], 'info': {}, 'error': ('undecided', 'deadline'), 'time': 0})
                continue
            a, b = ctx.Pipe(False)
            lim = min(limit, max(2, left))
            p = ctx.Process(target=_work, args=(b, fn, args, label, lim))
            p.start()
            b.close()
            live.append((p, a, label, time.time() + lim + 15))
        still = []
        for p, a, label, end in live:
            if a.poll(0.02):
                try:
                    done.append(a.recv())
                except EOFError:
                    done.append({'label': label, 'obs': [], 'info': {}, 'error': ('internal', 'worker died'), 'time': 0})
                p.join()
            elif not p.is_alive() and not a.poll(0):
                done.append({'label': label, 'obs': [], 'info': {}, 'error': ('internal', 'worker died'), 'time': 0})
            elif time.time() > end:
                p.kill()
                p.join()
                done.append({'label': label, 'obs': [], 'info': {}, 'error': ('undecided', 'killed'), 'time': 0})
            else:
                still.append((p, a, label, end))
        live = still
    order = dict((t[0], i) for i, t in enumerate(tasks))
    done.sort(key=lambda d: order.get(d['label'], 0))
    return done


def known_findings(prop):
    """Entries 'property=<id> rule=<rule> key=<key>' of known_findings.txt."""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                d = line.split(' rule=', 1)[1]
                rule, rest = d.split(' key=', 1)
                key, _, what = rest.partition(' :: ')
                out.append((rule.strip(), key.strip(), what.strip()))
    return out


def report(prop, results, wall, level, explanation, tier, extra=None):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    viol, und, proved, notes = {}, {}, {}, []
    broken = []
    internal = []
    for r in results:
        for rule, key, status, msg, where, config in r['obs']:
            k = (rule, key)
            if status == VIOLATED:
                viol.setdefault(k, []).append((msg, where, config or r['label']))
            elif status == UNDECIDED:
                und.setdefault(k, []).append((msg, where, config or r['label']))
            elif status == NOTE:
                notes.append(msg)
            else:
                proved.setdefault(k, []).append(config or r['label'])
        if r['error']:
            kind, msg = r['error']
            if kind == 'broken':
                broken.append((r['label'], msg))
            elif kind == 'internal':
                internal.append((r['label'], msg))
            und.setdefault(('analysis', r['label']), []).append((kind + ': ' + msg, '', r['label']))
    kf = known_findings(prop)
    listed = [k for k in viol if any(a == k[0] and b == k[1] for a, b, w in kf)]
    fresh = [k for k in viol if k not in listed]
    n_ob = sum(len(v) for v in proved.values()) + sum(len(v) for v in viol.values()) + sum(len(v) for v in und.values())
    n_ok = sum(len(v) for v in proved.values())
    cov = {
        'explanation': explanation,
        'obligations': n_ob,
        'discharged': n_ok,
        'violated': sum(len(v) for v in viol.values()),
        'undecided': sum(len(v) for v in und.values()),
        'checker_cmd': './run.sh %s' % prop,
        'trusted_base': 'the abstract interpreter in sa/ (its models of NumPy, math, logging and the builtins), '
                        'exact real arithmetic where the property says so, CPython ast, lib2to3 for Python 2 syntax',
        'constructs_by_rule': count(proved, viol, und),
        'samples': ['%s: %s [%s]' % (k[0], k[1], c[0]) for k, c in sorted(proved.items())[:12]],
        'undecided_detail': ['%s: %s: %s [%s]' % (k[0], k[1], v[0][0][:300], v[0][2]) for k, v in sorted(und.items())[:40]],
        'analyses': [dict([('label', r['label']), ('seconds', round(r.get('time', 0), 1))] + sorted(r['info'].items()))
                     for r in results],
        'repo': repo_digest(),
    }
    if extra:
        cov.update(extra)
    if level == 'proof' and (und or viol):
        lev = 'other'
    else:
        lev = level
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': lev, 'coverage': cov, 'wall_s': round(wall, 2)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s: %d obligations, %d proved, %d violated, %d undecided, %d analyses, %.1f s' %
          (prop, n_ob, n_ok, cov['violated'], cov['undecided'], len(results), wall))
    if os.environ.get('SA_VERBOSE'):
        for k, v in sorted(und.items()):
            for m in v[:int(os.environ['SA_VERBOSE'])]:
                print('  undecided %s %s: %s %s [%s]' % (k + m))
    for k in listed:
        what = [w for a, b, w in kf if (a, b) == k][0]
        print('KNOWN-FINDING: property=%s %s %s %s' % (prop, k[0], k[1], what))
    rdir = os.path.join(VERIF, 'replay')
    if fresh:
        os.makedirs(rdir, exist_ok=True)
    for i, k in enumerate(sorted(fresh)):
        v = viol[k]
        path = os.path.join(rdir, '%s-%d.txt' % (prop, i + 1))
        with open(path, 'w') as f:
            f.write('property %s\nrule %s\nconstruct %s\n\n' % (prop, k[0], k[1]))
            for msg, where, config in v[:20]:
                f.write('at %s\nconfiguration: %s\n%s\n\n' % (where, config, msg))
        print('  %s at %s: %s [%s]' % (k[0], k[1] + (' ' + v[0][1] if v[0][1] else ''), v[0][0][:400], v[0][2]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if fresh:
        return 1
    if broken:
        for l, m in broken:
            print('ANALYSIS BROKEN: %s: %s' % (l, m))
        return 2
    if internal and os.environ.get('SA_VERBOSE'):
        for l, m in internal:
            print('internal error in %s:\n%s' % (l, m))
    if not n_ok and not viol:
        print('nothing was proved: the analysis is broken')
        return 2
    return 0


def count(proved, viol, und):
    d = {}
    for n, m in (('proved', proved), ('violated', viol), ('undecided', und)):
        for (rule, key), v in m.items():
            r = d.setdefault(rule, {'constructs': 0, 'proved': 0, 'violated': 0, 'undecided': 0})
            r[n] += len(v)
            r['constructs'] += 1
    return d


def repo_digest():
    import hashlib
    import load
    h = hashlib.sha256()
    files = 0
    for name in load.all_modules():
        p = load.find(name)
        if p:
            h.update(open(p[0], 'rb').read())
            files += 1
    return {'files': files, 'sha256': h.hexdigest()}


def solver_info(r):
    """What one scenario run looked at."""
    import join as J
    I = r.I
    return {'final_states': len(r.final), 'escaped': len(r.escaped), 'nodes_visited': len(I.visited),
            'joins': J.STATS['joins'], 'unmodelled': len(I.unmodelled)}
