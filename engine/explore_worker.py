"""worker process: explores harness tasks received on stdin (pickle), results on stdout"""
import os
import pickle
import resource
import struct
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    import rt
    import llir
    inp = sys.stdin.buffer
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    mods = {}
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        n = struct.unpack('<Q', h)[0]
        task = pickle.loads(inp.read(n))
        t0 = time.time()
        q0, s0, a0, aq0, c0 = rt.ST.queries, rt.ST.solver_time, rt.ST.asserts, rt.ST.assert_queries, rt.CALLS[0]
        try:
            key = task['ir']
            m = mods.get(key)
            if m is None:
                m = mods[key] = llir.Module(key)
            rt.FUNCS_SEEN = set()
            for f in m.sources:
                pass
            rt.CONFIG = task.get('config', {})
            rt.LIM[0] = task.get('steps', 1_000_000)
            r = rt.explore(m, task['harness'], task.get('prefixes'), slice_s=task.get('slice', 6.0),
                           want_samples=task.get('samples', 24))
            r['funcs'] = sorted(m.sources)
            r['error'] = None
        except RecursionError:
            r = {'error': 'recursion limit', 'violations': [], 'pending': []}
        except BaseException as e:
            r = {'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-3000:], 'violations': [],
                 'pending': []}
            rt.PENDING.clear()
        r['queries'] = rt.ST.queries - q0
        r['solver_time'] = rt.ST.solver_time - s0
        r['asserts'] = rt.ST.asserts - a0
        r['assert_queries'] = rt.ST.assert_queries - aq0
        r['calls'] = rt.CALLS[0] - c0
        r['task'] = {k: task[k] for k in ('build', 'harness')}
        r['wall'] = time.time() - t0
        b = pickle.dumps(r)
        try:
            out.write(struct.pack('<Q', len(b)))
            out.write(b)
            out.flush()
        except BrokenPipeError:
            os._exit(0)


if __name__ == '__main__':
    resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.RLIM_INFINITY)) if False else None
    threading.stack_size(512 << 20)
    t = threading.Thread(target=main)
    t.start()
    t.join()
