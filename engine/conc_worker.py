"""one concurrent scenario: conc_worker.py <request.json> <result.json>"""
import collections
import itertools
import json
import os
import re
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def norm(p):
    """a path without the names of its thread"""
    return re.sub(r'\b(e|in|s)%d_' % p.tid, r'\1_', repr(p.key))


def combos(ps, nth):
    """every choice of one path per thread (from the same setup), with the final functions that can follow;
    for threads with the same paths only one of the equivalent choices"""
    groups = collections.OrderedDict()
    for p in ps[0]:
        groups.setdefault(p.group, None)
    for g in groups:
        per = [sorted((p for p in ps[t] if p.group == g), key=norm) for t in range(nth)]
        fins = [p for p in ps[nth] if p.group == g]
        like = [False] * nth
        for t in range(1, nth):
            like[t] = len(per[t]) == len(per[t - 1]) and all(norm(p) == norm(q) for p, q in zip(per[t - 1], per[t]))
        for ix in itertools.product(*(range(len(q)) for q in per)):
            if any(like[t] and ix[t] < ix[t - 1] for t in range(1, nth)):
                continue
            c = [per[t][i] for t, i in enumerate(ix)]
            for f in (fins if all(p.status == 'done' for p in c) else [None]):
                yield c, f


def shard(req, ps, nth, k, n, out, deadline):
    import conc
    st = conc.Stats()
    r = {'combos': 0, 'done': False, 'violations': [], 'samples': [], 'realised': 0, 'complete': 0, 'error': None}
    seen = set()
    realised = set()
    tried = collections.Counter()
    t0 = time.time()
    try:
        for i, (c, fin) in enumerate(list(combos(ps, nth))):
            if i % n != k:
                continue
            if time.time() > deadline:
                break
            cb = conc.Combo(list(c), fin)
            bad = cb.badness()
            r['combos'] += 1
            m = conc.solve(cb.text(bad), st) if bad else None
            if m is not None:
                tr = conc.trace(cb, m, bad)
                sig = tuple(sorted(set(tr['what'])))
                if sig and sig not in seen:
                    seen.add(sig)
                    r['violations'].append(tr)
                    if len(r['violations']) >= 3:
                        break
                continue
            if fin is not None:
                r['complete'] += 1
                new = [p for p in c if p.status == 'done' and id(p) not in realised and tried[id(p)] < 12]
                if new:
                    for p in new:
                        tried[id(p)] += 1
                    m = conc.solve(cb.text(None), st)
                    if m is not None:
                        realised |= {id(p) for p in c}
                        if len(r['samples']) < 12:
                            r['samples'].append(conc.trace(cb, m, None))
        else:
            r['done'] = True
    except BaseException as e:
        r['error'] = '%s: %s' % (type(e).__name__, e)
        r['trace'] = traceback.format_exc()[-2000:]
    idx = {id(p): (t, j) for t, q in enumerate(ps) for j, p in enumerate(q)}
    r['realised'] = sorted(idx[x] for x in realised if x in idx)
    r['queries'] = st.queries
    r['solver_time'] = st.time
    r['wall'] = time.time() - t0
    with open(out, 'w') as h:
        json.dump(r, h)


def main():
    req = json.load(open(sys.argv[1]))
    res = {'error': None, 'violations': [], 'samples': []}
    t0 = time.time()
    try:
        import rt
        import conc
        conc.install()
        import llir
        m = llir.Module(req['ll'])
        nth = req['threads']
        conc.NTH[0] = nth
        rt.CONFIG = {1: 1 if req['tier'] == 'thorough' else 0}
        rt.LIM[0] = 200_000
        deadline = req['deadline']
        full = req['spin'], req['spur']
        while True:
            conc.SPIN, conc.SPUR = full
            try:
                ps = conc.run_threads(m, req['name'], nth, 6000, min(deadline, time.time() + req['explore_s']))
                break
            except rt.EngineError as e:
                if full == (1, 0) or 'paths' not in str(e) and 'budget' not in str(e):
                    raise
                full = (1, 0)       # the retry loops multiply too much: lower bound, stated in the evidence
        res['spin'], res['spur'] = full
        res['explore_wall'] = time.time() - t0
        res['paths'] = [len(p) for p in ps]
        res['status'] = [dict(collections.Counter(p.status for p in q)) for q in ps]
        res['events'] = sum(len(p.evs) for q in ps for p in q)
        res['cells'] = sorted({tuple([ps[0][0].blocks.index(e.loc[0]) if e.loc[0] in ps[0][0].blocks else -1, e.loc[1], e.loc[2]])
                               for q in ps for p in q for e in p.evs if e.k in 'RWU' and e.at})
        res['covers'] = sorted({c for q in ps for p in q for c in p.covers if p.status == 'done'})
        res['xqueries'] = rt.ST.queries
        res['xsolver'] = rt.ST.solver_time
        res['funcs'] = sorted(m.sources)
        total = sum(1 for _ in combos(ps, nth))
        res['total'] = total
        n = max(1, min(req['shards'], total // 150 + 1))
        outs = ['%s.%d' % (sys.argv[2], k) for k in range(n)]
        if n == 1:
            shard(req, ps, nth, 0, 1, outs[0], deadline)
        else:
            pids = []
            for k in range(n):
                p = os.fork()
                if p == 0:
                    try:
                        shard(req, ps, nth, k, n, outs[k], deadline)
                    finally:
                        os._exit(0)
                pids.append(p)
            for p in pids:
                os.waitpid(p, 0)
        tot = collections.Counter()
        real = set()
        res['complete_cover'] = True
        for o in outs:
            if not os.path.exists(o):
                raise RuntimeError('a shard died')
            r = json.load(open(o))
            os.unlink(o)
            if r['error']:
                res['error'] = r['error']
                res['trace'] = r.get('trace')
            for k in ('combos', 'complete', 'queries', 'solver_time', 'wall'):
                tot[k] += r[k]
            res['violations'] += r['violations']
            res['samples'] += r['samples']
            res['complete_cover'] &= r['done']
            real |= {tuple(x) for x in r['realised']}
        res.update(tot)
        res['realised'] = len(real)
        res['unrealised'] = sorted({'thread %d: %d events, inputs undetermined' % (t + 1, len(p.evs)) for t in range(nth)
                                    for j, p in enumerate(ps[t]) if p.status == 'done' and (t, j) not in real})[:5]
        res['done_paths'] = sum(p.status == 'done' for t in range(nth) for p in ps[t])
        cov = set()
        for t, j in real:
            cov |= ps[t][j].covers
        res['covers'] = sorted(cov)
    except BaseException as e:
        res['error'] = '%s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-3000:]
    res['total_wall'] = time.time() - t0
    with open(sys.argv[2], 'w') as h:
        json.dump(res, h)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    threading.stack_size(512 << 20)
    t = threading.Thread(target=main)
    t.start()
    t.join()
