"""checks of concurrent scenarios (engine/conc.py): build, explore, combine, replay natively, evidence"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
MEM = {'monotonic': 0, 'consume': 1, 'acquire': 2, 'release': 3, 'acq_rel': 4, 'seq_cst': 5}
BADSTATUS = ('race', 'uaf', 'oob', 'alloc', 'assert', 'panic', 'leak', 'forever', 'signal', 'hang')


def scenarios(mod, tier):
    import check
    src = open(os.path.join(check.HARNESS, 'src', mod + '.rs')).read()
    src = re.sub(r'//.*', '', src)
    m = re.search(r'scenarios!\s*\{([^}]*)\}', src)
    out = []
    for n, k in re.findall(r'(\w+)\s*:\s*(\d+)', m.group(1)):
        if n.endswith('_t') and tier != 'thorough':
            continue
        if os.environ.get('SX_ONLY') and n not in os.environ['SX_ONLY'].split(','):
            continue
        out.append((n, int(k)))
    return out


def entries(scs):
    return [n + '_' + s for n, k in scs for s in ['s', 'f'] + [str(i + 1) for i in range(k)]]


class Native:
    """the same code, instrumented, with engine/conc_rt.c as its runtime"""

    def __init__(self, bld):
        import check
        self.bld = bld
        self.check = check
        self.bin = {}
        self.lock = {b: threading.Lock() for b in ('rel', 'dbg')}

    def exe(self, b):
        with self.lock[b]:
            if b not in self.bin:
                self.bin[b] = self.make(b)
        return self.bin[b]

    def make(self, b):
        c = self.check
        d = self.bld.dir
        bind = os.path.join(c.sysroot(), 'lib/rustlib/x86_64-unknown-linux-gnu/bin')
        src = open(self.bld.ir[b]).read()
        # weak compare-exchanges may fail spuriously: keep that visible to the runtime
        src, n = re.subn(r'= cmpxchg weak ptr (\S+), i64 (\S+), i64 (\S+) (\w+) (\w+), align 8(.*)',
                         lambda m: '= call { i64, i1 } @sx_cas64(ptr %s, i64 %s, i64 %s, i32 %d, i32 %d)' % (
                             m.group(1), m.group(2), m.group(3), MEM[m.group(4)], MEM[m.group(5)]), src)
        if n:
            src += '\ndeclare { i64, i1 } @sx_cas64(ptr, i64, i64, i32, i32)\n'
        base = os.path.join(d, 'native-' + b)
        with open(base + '.ll', 'w') as h:
            h.write(src)
        for cmd in ([bind + '/opt', '-passes=forceattrs', '-force-attribute=sanitize_thread', base + '.ll', '-o', base + '.1.bc'],
                    [bind + '/opt', '-passes=tsan-module,function(tsan)', base + '.1.bc', '-o', base + '.2.bc'],
                    [bind + '/llc', '-O1', '-filetype=obj', '-relocation-model=pic', base + '.2.bc', '-o', base + '.o'],
                    ['gcc', '-O1', '-w', '-rdynamic', base + '.o', os.path.join(HERE, 'engine', 'conc_rt.c'), '-o', base, '-ldl', '-lm', '-lpthread']):
            rc, out = c.run(cmd)
            if rc:
                raise c.CheckError('native replay: %s\n%s' % (' '.join(cmd)[:200], out[-2000:]))
        for x in ('.ll', '.1.bc', '.2.bc', '.o'):
            os.unlink(base + x)
        return base

    def run(self, b, name, nth, tr, cells):
        """-> result of running that execution"""
        keep = [i for i, e in enumerate(tr['events']) if e['atomic'] and e['block'] >= 0]
        pos = {i: k for k, i in enumerate(keep)}
        forever = int(any('waits forever' in w for w in tr['what']))
        ins = list(tr['inputs'])
        while len(ins) < nth + 1:
            ins.append([])
        o = [name, nth, forever, len(tr['setup'])] + list(tr['setup'])
        for x in ins:
            o += [len(x)] + list(x)
        cs = [c for c in cells if c[0] >= 0]
        o.append(len(cs))
        for c in cs:
            o += list(c)
        o.append(len(keep))
        for i in keep:
            e = tr['events'][i]
            fr = e.get('from', -1)
            fr = -1 if fr == -1 else pos.get(fr, -2)
            o += ['\n', e['thread'] - 1, e['kind'], e['block'], e['off'], e['size'], fr, e.get('mo', 0), int(e['spurious']), int('write' in e), e.get('write', 0)]
        f = os.path.join(self.bld.dir, 'trace-%d-%d' % (os.getpid(), threading.get_ident()))
        with open(f, 'w') as h:
            h.write(' '.join(map(str, o)) + '\n')
        hang = any('no termination' in w for w in tr['what'])
        try:
            p = subprocess.run([self.exe(b), f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=10 if hang else 60)
            s = p.stdout.decode('utf8', 'replace').strip()
            return json.loads(s) if s else {'status': 'error', 'detail': 'exit %d' % p.returncode, 'log': []}
        except (subprocess.TimeoutExpired, ValueError) as e:
            if hang and isinstance(e, subprocess.TimeoutExpired):
                return {'status': 'hang', 'detail': 'still running after 10 s', 'log': []}
            return {'status': 'error', 'detail': str(e), 'log': []}
        finally:
            if not os.environ.get('SX_KEEP'):
                os.unlink(f)


def describe(w):
    import check
    m = re.match(r'(thread \d+: )(?:assert: )?(assertion \d+)$', w)
    return m.group(1) + check.explain(m.group(2)) if m else w


def check(pid, tier):
    import check as C
    import props
    t0 = time.time()
    prop = props.PROPS[pid]
    budget = float(os.environ.get('SX_BUDGET', 700)) if tier == 'quick' else 5 * 3600
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    scs = []
    for m in prop['modules']:
        scs += scenarios(m, tier)
    bld = C.Build(pid, prop['modules'])
    bld.nat = []
    ths = [threading.Thread(target=bld.guard, args=(j,)) for j in
           (lambda: bld.mk_ir('rel', '', entries(scs)),
            lambda: bld.mk_ir('dbg', '-C debug-assertions=on -C overflow-checks=on', entries(scs)))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if bld.err:
        raise C.CheckError('build failed:\n' + bld.err[0][-4000:])
    tb = time.time() - t0
    nat = Native(bld)
    mk = [threading.Thread(target=bld.guard, args=((lambda b=b: nat.exe(b)),)) for b in ('rel', 'dbg')]
    for t in mk:
        t.start()
    sem = threading.Semaphore(4)
    results = {}
    procs = []

    enough = threading.Event()

    def one(n, k, b):
        with sem:
            if enough.is_set():
                return
            rq = os.path.join(bld.dir, 'rq-%s-%s.json' % (n, b))
            rs = os.path.join(bld.dir, 'rs-%s-%s.json' % (n, b))
            spin, spur = prop.get('conc', {}).get(tier, (1, 1) if tier == 'quick' else (2, 1))
            json.dump({'ll': bld.ir[b], 'name': n, 'threads': k, 'tier': tier, 'deadline': t0 + budget, 'spin': spin, 'spur': spur,
                       'shards': 8, 'explore_s': 150 if tier == 'quick' else 3600}, open(rq, 'w'))
            p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(HERE, 'engine', 'conc_worker.py'), rq, rs], stdout=subprocess.DEVNULL, start_new_session=True)
            procs.append(p)
            p.wait()
            if enough.is_set():
                return
            results[(n, b)] = json.load(open(rs)) if os.path.exists(rs) else {'error': 'worker died', 'violations': [], 'samples': []}
            r = results[(n, b)]
            if os.environ.get('SX_STATS'):
                print('  %-12s %s paths %s combos %s/%s explore %.1f total %.1f solver %.1f realised %s/%s viol %d %s' % (
                    n, b, r.get('paths'), r.get('combos'), r.get('total'), r.get('explore_wall', 0), r.get('total_wall', 0),
                    r.get('solver_time', 0), r.get('realised'), r.get('done_paths'), len(r['violations']), r['error'] or ''), flush=True)
            if any(not all('waits forever' in w for w in v['what']) for v in r['violations']) and not os.environ.get('SX_ALL') and not known_findings(pid):
                # a violation: the rest need not be decided
                enough.set()
                for q in procs:
                    try:
                        os.killpg(q.pid, signal.SIGKILL)
                    except OSError:
                        pass
    known_findings = C.known_findings
    jobs = [threading.Thread(target=one, args=(n, k, b)) for n, k in scs for b in ('rel', 'dbg')]
    for t in jobs:
        t.start()
    for t in jobs:
        t.join()
    for t in mk:
        t.join()
    if bld.err:
        raise C.CheckError('build failed:\n' + bld.err[0][-4000:])
    te = time.time() - t0 - tb
    errors = []
    known = C.known_findings(pid)
    seen_known = set()
    confirmed = []
    threads = dict(scs)
    dedup = set()
    for (n, b), r in sorted(results.items()):
        if r['error'] and 'time budget exceeded' in r['error']:
            continue
        if r['error']:
            errors.append('%s/%s: %s' % (n, b, r['error']))
            if os.environ.get('SX_DEBUG'):
                print(r.get('trace'))
        for tr in r['violations']:
            what = describe(sorted(tr['what'])[0])
            sig = (n, what)
            if sig in dedup or len(confirmed) >= 3 and not os.environ.get('SX_ALL'):
                continue
            res = nat.run(b, n, threads[n], tr, r['cells'])
            if res['status'] == 'diverge' and res['detail'].endswith('gets on'):
                continue        # a bounded number of retries, no endless wait
            if res['status'] not in BADSTATUS:
                errors.append('counterexample of %s (%s): %s does not reproduce: %s %s' % (n, b, tr['what'], res['status'], res['detail']))
                if os.environ.get('SX_DEBUG'):
                    print(json.dumps(tr, indent=1))
                continue
            dedup.add(sig)
            kf = [k for k in known if k[0] == n and k[1] == what]
            if kf:
                seen_known.add(kf[0])
                continue
            rp = os.path.join(evdir, 'replay')
            os.makedirs(rp, exist_ok=True)
            f = os.path.join(rp, '%s-%s-%s-%d.json' % (pid, n, b, len(confirmed)))
            how = 'compiled code (%s build) run in that order: %s %s' % (b, res['status'], C.explain(res['detail']))
            json.dump({'property': pid, 'scenario': n, 'build': b, 'threads': threads[n], 'cells': r['cells'], 'trace': tr, 'reproduced': how},
                      open(f, 'w'), indent=1)
            confirmed.append((n, b, tr, how, f))
    # ---- validation of the encoding: executions the solver calls consistent, run on the compiled code
    validated = 0
    mismatch = []
    samples = []
    if not confirmed:
        for (n, b), r in sorted(results.items()):
            for tr in r['samples'][:40]:
                res = nat.run(b, n, threads[n], tr, r['cells'])
                exp = sorted([t + 1, a, v] for t, l in enumerate(tr['log']) for a, v in l)
                if res['status'] != 'ok' or sorted(res['log']) != exp:
                    mismatch.append('%s/%s: %s %s; log %s, expected %s' % (n, b, res['status'], res['detail'], res['log'], exp))
                    if os.environ.get('SX_DEBUG'):
                        print(json.dumps(tr, indent=1))
                else:
                    validated += 1
            if r['samples'] and b == 'rel':
                tr = r['samples'][len(r['samples']) // 2]
                samples.append({'scenario': n, 'inputs': tr['inputs'], 'events': [
                    'T%d %s %s%s%s' % (e['thread'], e['kind'], e['at'], ' reads %d' % e['read'] if 'read' in e else '', ' writes %d' % e['write'] if 'write' in e else '')
                    for e in tr['events'][:16]]})
        if mismatch:
            errors.append('encoding and compiled code disagree: ' + mismatch[0])
    # ---- vacuity
    exp_cov = set()
    for m in prop['modules']:
        exp_cov |= C.covers_of(m)
    got = set()
    incomplete = []
    for (n, b), r in results.items():
        got |= set(r.get('covers', []))
        if r['error']:
            if 'time budget exceeded' in r['error']:
                incomplete.append('%s/%s: paths of one thread' % (n, b))
            continue
        if not r.get('complete_cover') and not r['violations']:
            incomplete.append('%s/%s: %d of %d combinations' % (n, b, r['combos'], r['total']))
        if not r['violations'] and not r.get('realised'):
            errors.append('%s/%s: no complete execution is possible' % (n, b))
    if not confirmed and not errors and not incomplete and exp_cov - got:
        errors.append('reachability witnesses not reached: %s' % sorted(exp_cov - got))
    funcs = set()
    for r in results.values():
        funcs |= set(r.get('funcs', []))
    lf = sorted({C.demangle(f) for f in funcs if 'lokky' in f and not C.demangle(f).startswith('harness')})
    S = lambda k: sum(r.get(k) or 0 for r in results.values())
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': prop.get('level', 'model_checking'),
        'coverage': {
            'states': S('combos'), 'transitions': S('events'), 'traces_validated_against_impl': validated, 'samples': samples[:12],
            'explanation': 'Every thread of a scenario is executed symbolically from the LLVM IR rustc emits for the real crate; reads of shared memory '
                           'return symbols. states = combinations of one path per thread for which Z3 decided whether the C11 axioms admit any execution '
                           '(reads-from, modification order, interleaving) with a data race, a use after release, a double release, a leak, a failed '
                           'assertion or an endless wait; transitions = shared accesses on the paths; traces_validated = consistent executions the solver '
                           'produced, run on the compiled code in that order with the values compared.',
            'bounds': prop['bounds'],
            'queries': S('queries') + S('xqueries'), 'solver_time_s': round(S('solver_time') + S('xsolver'), 2),
            'functions_encoded': len(lf), 'functions': lf[:400],
            'scenarios': {n: {b: {k: results[(n, b)].get(k) for k in ('paths', 'status', 'combos', 'total', 'complete', 'queries', 'solver_time', 'explore_wall',
                                                                      'total_wall', 'spin', 'spur', 'realised', 'done_paths')} for b in ('rel', 'dbg') if (n, b) in results} for n, k in scs},
            'not_decided_within_the_time': incomplete, 'reachability_witnesses': sorted(got),
            'build_s': round(tb, 1), 'explore_s': round(te, 1), 'errors': errors[:10],
        },
        'assumptions': props.ASSUMPTIONS[:1] + props.CONC_ASSUMPTIONS + prop.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed),
    }
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    if not os.environ.get('SX_KEEP'):
        shutil.rmtree(bld.dir, ignore_errors=True)
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s %s %s' % (pid, k[0], k[1], k[2]))
    for n, b, tr, how, f in confirmed:
        print('counterexample: scenario %s (%s build): %s' % (n, b, '; '.join(describe(w) for w in tr['what'][:4])))
        print('  inputs %s' % tr['inputs'])
        print('  reproduced: %s' % how)
        print('VIOLATION property=%s replay=%s' % (pid, f))
    if confirmed:
        for e in errors[:3]:
            print('also: ' + e)
        return 1
    if errors:
        for e in errors[:10]:
            print('ERROR: ' + e)
        return 2
    for i in incomplete:
        print('not decided within the time: ' + i)
    print('%s %s: held. %d combinations of paths, %d queries (%.1f s solver), %d executions validated natively, %.1f s' % (
        pid, tier, S('combos'), S('queries'), S('solver_time'), validated, time.time() - t0))
    return 0


def replay(d):
    import check as C
    import props
    prop = props.PROPS[d['property']]
    bld = C.Build('replay-' + d['property'], prop['modules'])
    bld.mk_ir(d['build'], '' if d['build'] == 'rel' else '-C debug-assertions=on -C overflow-checks=on',
              entries([(d['scenario'], d['threads'])]))
    nat = Native(bld)
    res = nat.run(d['build'], d['scenario'], d['threads'], d['trace'], d['cells'])
    shutil.rmtree(bld.dir, ignore_errors=True)
    bad = res['status'] in BADSTATUS
    print('%s %s' % (res['status'] if bad else 'does not reproduce: ' + res['status'], C.explain(res['detail'])))
    return 1 if bad else 0
