#!/opt/veriftools/pyvenv/bin/python
"""Solver-based check of one property.

  check.py <property-id> [quick|thorough]     run the check (exit 0 / exit 1 + VIOLATION line / other = error)
  check.py --replay <file>                    run a recorded counterexample against the real code
"""
import json
import os
import pickle
import re
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time
from queue import Queue, Empty

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
import props  # noqa: E402

TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
MIRI_TOOLCHAIN = 'nightly-x86_64-unknown-linux-gnu'
HARNESS = os.path.join(HERE, 'harness')
NPROC = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    pass


def sysroot():
    return subprocess.run(['rustc', '--print', 'sysroot'], env=cenv(), capture_output=True, text=True, check=True).stdout.strip()


def cenv(**kw):
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e.update(kw)
    return e


def run(cmd, env=None, timeout=900, cwd=None):
    p = subprocess.run(cmd, env=env or cenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd)
    return p.returncode, p.stdout.decode('utf8', 'replace')


class Build:
    """builds the harness crate against /repo's current tree: LLVM IR (two profiles) and replay binaries"""

    def __init__(self, prop, feats):
        self.dir = os.path.join(HERE, '.build', prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.feats = ','.join(feats)
        self.ir = {}
        self.bin = {}
        self.err = []
        self.native_done = threading.Event()

    def go(self, entries):
        jobs = [lambda: self.mk_ir('rel', '', entries),
                lambda: self.mk_ir('dbg', '-C debug-assertions=on -C overflow-checks=on', entries)]
        ths = [threading.Thread(target=self.guard, args=(j,)) for j in jobs]
        nat = [threading.Thread(target=self.guard, args=(j,)) for j in
               (lambda: self.mk_bin('rel', 'replay'), lambda: self.mk_bin('dbg', 'dev'))]
        for t in ths + nat:
            t.start()
        for t in ths:
            t.join()
        self.nat = nat
        if self.err:
            for t in nat:
                t.join()
            raise CheckError('build failed:\n' + self.err[0][-4000:])

    def wait_native(self):
        for t in self.nat:
            t.join()
        if self.err:
            raise CheckError('build failed:\n' + self.err[0][-4000:])

    def guard(self, f):
        try:
            f()
        except Exception as e:
            self.err.append(str(e))

    def mk_ir(self, name, flags, entries):
        td = os.path.join(self.dir, 'ir-' + name)
        rc, out = run(['cargo', 'rustc', '--release', '--lib', '--crate-type', 'cdylib', '--features', self.feats,
                       '--target-dir', td, '--manifest-path', os.path.join(HARNESS, 'Cargo.toml'), '--',
                       '--emit=llvm-ir'], env=cenv(RUSTFLAGS=flags))
        if rc:
            raise CheckError(out)
        ll = os.path.join(td, 'release', 'deps', 'harness.ll')
        o = os.path.join(self.dir, name + '.ll')
        opt = os.path.join(sysroot(), 'lib/rustlib/x86_64-unknown-linux-gnu/bin/opt')
        rc, out = run([opt, '-S', '-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,instsimplify),globaldce,'
                       'strip-dead-prototypes', '-internalize-public-api-list=' + ','.join(entries), ll, '-o', o])
        if rc:
            raise CheckError(out)
        shutil.rmtree(td, ignore_errors=True)
        self.ir[name] = o

    def mk_bin(self, name, profile):
        td = os.path.join(self.dir, 'bin-' + name)
        rc, out = run(['cargo', 'build', '--profile', profile, '--bin', 'replay', '--features', self.feats, '--target-dir', td,
                       '--manifest-path', os.path.join(HARNESS, 'Cargo.toml')])
        if rc:
            raise CheckError(out)
        b = os.path.join(td, 'debug' if profile == 'dev' else profile, 'replay')
        o = os.path.join(self.dir, 'replay-' + name)
        shutil.copy(b, o)
        shutil.rmtree(td, ignore_errors=True)
        self.bin[name] = o

    def native(self, build, cases, poison=165, timeout=300):
        f = os.path.join(self.dir, 'cases-%s-%d-%d.txt' % (build, os.getpid(), threading.get_ident()))
        with open(f, 'w') as h:
            for name, ins in cases:
                h.write(name + ' ' + ' '.join(map(str, ins)) + '\n')
        p = subprocess.run([self.bin[build], f, str(poison)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           timeout=timeout)
        os.unlink(f)
        res = []
        for l in p.stdout.decode('utf8', 'replace').split('\n'):
            l = l.strip()
            if l:
                i = l.find('{"status"')
                res.append(json.loads(l[i:]))
        if len(res) != len(cases):
            raise CheckError('native replay produced %d results for %d cases' % (len(res), len(cases)))
        return res

    def miri(self, name, ins):
        """undefined behaviour that native execution does not show: interpret the real code under Miri"""
        td = os.path.join(self.dir, 'miri')
        env = cenv(RUSTUP_TOOLCHAIN=MIRI_TOOLCHAIN,
                   MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks')
        try:
            rc, out = run(['cargo', 'miri', 'run', '--bin', 'replay', '--features', self.feats, '--target-dir', td,
                           '--manifest-path', os.path.join(HARNESS, 'Cargo.toml'), '--', name + ' ' + ' '.join(map(str, ins))],
                          env=env, timeout=240)
        except subprocess.TimeoutExpired:
            return {'status': 'error', 'detail': 'miri timeout'}
        m = re.search(r'\{"status".*', out)
        if 'Undefined Behavior' in out:
            d = re.search(r'Undefined Behavior: (.*)', out)
            return {'status': 'ub', 'detail': d.group(1) if d else ''}
        if m:
            return json.loads(m.group(0))
        return {'status': 'error', 'detail': out[-500:]}


class Pool:
    def __init__(self, n):
        self.n = n
        self.q = Queue()
        self.results = Queue()
        self.procs = []
        self.stop = False
        for i in range(n):
            t = threading.Thread(target=self.loop, daemon=True)
            t.start()

    def loop(self):
        w = os.path.join(HERE, 'engine', 'explore_worker.py')
        p = None
        while True:
            task = self.q.get()
            if task is None:
                if p:
                    p.kill()
                return
            if p is None:
                p = subprocess.Popen([sys.executable, w], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
                self.procs.append(p)
            try:
                b = pickle.dumps(task)
                p.stdin.write(struct.pack('<Q', len(b)) + b)
                p.stdin.flush()
                h = p.stdout.read(8)
                if len(h) < 8:
                    raise OSError('worker died')
                r = pickle.loads(p.stdout.read(struct.unpack('<Q', h)[0]))
            except Exception as e:
                p = None
                r = {'error': 'worker: %s' % e, 'violations': [], 'pending': [], 'task': {k: task[k] for k in ('build', 'harness')},
                     'queries': 0, 'solver_time': 0, 'asserts': 0, 'assert_queries': 0, 'calls': 0, 'wall': 0}
            self.results.put(r)

    def close(self):
        for p in self.procs:
            try:
                p.kill()
            except Exception:
                pass


def harness_names(mod):
    src = open(os.path.join(HARNESS, 'src', mod + '.rs')).read()
    src = re.sub(r'//.*', '', src)
    m = re.search(r'harnesses!\s*\{([^}]*)\}', src)
    return m.group(1).split()


def covers_of(mod):
    src = open(os.path.join(HARNESS, 'src', mod + '.rs')).read()
    src = re.sub(r'//.*', '', src)
    return {int(x) for x in re.findall(r'sx::cover\((\d+)\)', src)}


def file_map():
    r = {}
    for f in os.listdir(os.path.join(HARNESS, 'src')):
        s = open(os.path.join(HARNESS, 'src', f)).read()
        m = re.search(r'^const FILE: u32 = (\d+);', s, re.M)
        if m:
            r[int(m.group(1))] = (f, s.split('\n'))
    return r


def explain(msg):
    m = re.match(r'assertion (\d+)$', msg)
    if not m:
        return msg
    i = int(m.group(1))
    f = file_map().get(i >> 16)
    if not f:
        return msg
    ln = i & 0xffff
    return '%s:%d: %s' % (f[0], ln, f[1][ln - 1].strip())


def known_findings(pid):
    """lines 'known: property=<id> harness=<h> at=<message>' """
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) harness=(\S+) at=(.*?)(?: \| (.*))?$', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip(), (m.group(4) or '').strip()))
    return out


def reproduce(bld, v, h, build):
    """replay a counterexample against the real code; returns a description or None"""
    tried = []
    order = [build] + [b for b in ('dbg', 'rel') if b != build]
    for b in order:
        for poison in (165, 0, 255):
            r = bld.native(b, [(h, v['inputs'])], poison, timeout=60)[0]
            tried.append((b, poison, r['status'], r['detail']))
            if r['status'] in ('assert', 'panic', 'alloc', 'oob', 'signal'):
                if r['status'] == 'assert' and v['kind'] == 'assert' and r['detail'] != v['msg']:
                    pass
                return 'native %s build: %s %s' % (b, r['status'], explain(r['detail'])), tried
            if r['status'] == 'assume':
                break
    if v['kind'] in ('uninit', 'ub', 'oob', 'uaf', 'abort', 'alloc'):
        r = bld.miri(h, v['inputs'])
        tried.append(('miri', 0, r['status'], r['detail']))
        if r['status'] in ('ub', 'assert', 'panic', 'alloc'):
            return 'Miri on the real code: %s %s' % (r['status'], r['detail']), tried
    return None, tried


def check(pid, tier):
    t0 = time.time()
    prop = props.PROPS[pid]
    budget = float(os.environ.get("SX_BUDGET", 780)) if tier == 'quick' else 6 * 3600
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    evf = os.path.join(evdir, pid + '.json')
    mods = prop['modules']
    names = []
    for m in mods:
        for n in harness_names(m):
            if n.endswith('_t') and tier != 'thorough':
                continue
            if os.environ.get('SX_ONLY') and n not in os.environ['SX_ONLY'].split(','):
                continue  # debugging aid
            names.append(n)
    expected_covers = set()
    for m in mods:
        expected_covers |= covers_of(m)
    bld = Build(pid, mods)
    bld.go(names)
    tb = time.time() - t0
    pool = Pool(NPROC)
    outstanding = 0
    agg = {}
    skip_dbg = prop.get('rel_only', ())
    for n in names:
        for b in ('rel', 'dbg'):
            agg[(n, b)] = {'paths': 0, 'aborted': 0, 'steps': 0, 'queries': 0, 'solver_time': 0.0, 'asserts': 0,
                           'assert_queries': 0, 'samples': [], 'covers': set(), 'funcs': set(), 'wall': 0.0, 'calls': 0}
            pool.q.put({'ir': bld.ir[b], 'build': b, 'harness': n, 'config': {1: 1 if tier == 'thorough' else 0}})
            outstanding += 1
    errors = []
    viols = []
    stop = False
    while outstanding:
        try:
            r = pool.results.get(timeout=max(1, budget - (time.time() - t0)))
        except Empty:
            errors.append('time budget exceeded')
            break
        outstanding -= 1
        key = (r['task']['harness'], r['task']['build'])
        a = agg[key]
        for k in ('queries', 'solver_time', 'asserts', 'assert_queries', 'calls', 'wall'):
            a[k] += r[k]
        if r['error']:
            errors.append('%s/%s: %s' % (key[0], key[1], r['error']))
            if os.environ.get('SX_DEBUG'):
                print(r.get('trace'))
            continue
        for k in ('paths', 'aborted', 'steps'):
            a[k] += r[k]
        a['covers'] |= r['covers']
        a['funcs'] |= set(r['funcs'])
        a['samples'] += r['samples']
        for v in r['violations']:
            viols.append((key[0], key[1], v))
        if len(viols) >= 12 and not stop and not os.environ.get('SX_ALL'):
            stop = True
            # enough counterexamples: drop what has not started
            try:
                while True:
                    pool.q.get_nowait()
                    outstanding -= 1
            except Empty:
                pass
        if r['pending'] and not stop:
            pend = r['pending']
            k = min(len(pend), NPROC)
            chunks = [pend[i::k] for i in range(k)]
            for c in chunks:
                pool.q.put({'ir': bld.ir[key[1]], 'build': key[1], 'harness': key[0], 'prefixes': c,
                            'config': {1: 1 if tier == 'thorough' else 0}})
                outstanding += 1
        if time.time() - t0 > budget:
            errors.append('time budget exceeded')
            break
    pool.close()
    te = time.time() - t0 - tb
    bld.wait_native()

    # ---- counterexamples: replay against the real code before anything is reported
    known = known_findings(pid)
    seen_known = set()
    reported = None
    confirmed = []
    dedup = set()
    for h, b, v in viols:
        sig = (h, v['kind'], v['msg'])
        if sig in dedup:
            continue
        dedup.add(sig)
        how, tried = reproduce(bld, v, h, b)
        if how is None:
            errors.append('counterexample of %s (%s, %s: %s, inputs %s) does not reproduce: %s' %
                          (h, b, v['kind'], explain(v['msg']), v['inputs'], tried))
            continue
        kf = [k for k in known if k[0] == h and k[1] == explain(v['msg'])]
        if kf:
            seen_known.add(kf[0])
            continue
        rp = os.path.join(evdir, 'replay')
        os.makedirs(rp, exist_ok=True)
        f = os.path.join(rp, '%s-%s-%s-%d.json' % (pid, h, b, len(confirmed)))
        json.dump({'property': pid, 'harness': h, 'build': b, 'kind': v['kind'], 'msg': explain(v['msg']), 'inputs': v['inputs'],
                   'log': v['log'], 'reproduced': how}, open(f, 'w'), indent=1)
        confirmed.append((h, b, v, how, f))
        if len(confirmed) >= 3 and not os.environ.get('SX_ALL'):
            break
    # ---- differential validation of the executor: sampled paths, same inputs, native run, same observations
    validated = 0
    mismatch = []
    if not confirmed:
        for b in ('rel', 'dbg'):
            cases = []
            exp = []
            for n in names:
                s = agg[(n, b)]['samples']
                if len(s) > 60:
                    s = s[::len(s) // 60 + 1]
                for x in s:
                    cases.append((n, x['inputs']))
                    exp.append(x['log'])
            if not cases:
                continue
            for (n, ins), e, r in zip(cases, exp, bld.native(b, cases)):
                if r['status'] != 'ok' or [list(x) for x in e] != r['log']:
                    mismatch.append('%s/%s inputs %s: executor log %s, native %s %s %s' % (n, b, ins, e, r['status'], r['detail'], r['log']))
                else:
                    validated += 1
        if mismatch:
            errors.append('executor and native execution disagree: ' + mismatch[0])
    # ---- vacuity
    got = set()
    for a in agg.values():
        got |= a['covers']
    if not confirmed and not errors:
        if tier == 'thorough' or True:
            miss = expected_covers - got
            if miss:
                errors.append('reachability witnesses not reached: %s' % sorted(miss))
        for (n, b), a in agg.items():
            if a['paths'] == 0:
                errors.append('harness %s/%s completed no path' % (n, b))
    tot = {k: sum(a[k] for a in agg.values()) for k in ('paths', 'aborted', 'steps', 'queries', 'solver_time', 'asserts', 'assert_queries')}
    funcs = set()
    for a in agg.values():
        funcs |= a['funcs']
    lf = sorted({demangle(f) for f in funcs if 'lokky' in f and not demangle(f).startswith('harness')})
    samples = []
    for n in names:
        s = agg[(n, 'rel')]['samples']
        if s:
            samples.append({'harness': n, 'inputs': s[len(s) // 2]['inputs'], 'observed': s[len(s) // 2]['log'][:12]})
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': prop.get('level', 'model_checking'),
        'coverage': {
            'states': tot['paths'], 'transitions': tot['steps'], 'traces_validated_against_impl': validated,
            'samples': samples[:12],
            'explanation': 'Symbolic execution of the LLVM IR rustc emits for the real crate (release and debug-assertions builds); states = symbolic '
                           'paths completed (each stands for every value of its remaining symbolic inputs), transitions = basic-block '
                           'transfers executed on them, traces_validated = sampled paths replayed natively with equal observations.',
            'bounds': prop['bounds'],
            'queries': tot['queries'], 'assertion_queries': tot['assert_queries'], 'assertions_checked': tot['asserts'],
            'solver_time_s': round(tot['solver_time'], 2), 'infeasible_or_assumed_away_paths': tot['aborted'],
            'functions_encoded': len(lf), 'functions': lf[:400],
            'harnesses': {n: {b: {'paths': agg[(n, b)]['paths'], 'queries': agg[(n, b)]['queries'],
                                  'solver_s': round(agg[(n, b)]['solver_time'], 2), 'wall_s': round(agg[(n, b)]['wall'], 2)}
                              for b in ('rel', 'dbg')} for n in names},
            'reachability_witnesses': sorted(got), 'build_s': round(tb, 1), 'explore_s': round(te, 1),
            'errors': errors[:10],
        },
        'assumptions': props.ASSUMPTIONS + prop.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(confirmed),
    }
    json.dump(ev, open(evf, 'w'), indent=1)
    if os.environ.get('SX_STATS'):
        for (n, b), a in sorted(agg.items(), key=lambda x: -x[1]['wall']):
            print('  %-20s %s paths %6d queries %6d wall %.1f' % (n, b, a['paths'], a['queries'], a['wall']))
    if not os.environ.get('SX_KEEP'):
        shutil.rmtree(bld.dir, ignore_errors=True)
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s %s %s' % (pid, k[0], k[1], k[2]))
    for h, b, v, how, f in confirmed:
        print('counterexample: harness %s (%s build): %s: %s' % (h, b, v['kind'], explain(v['msg'])))
        print('  inputs %s' % v['inputs'])
        print('  reproduced: %s' % how)
        print('VIOLATION property=%s replay=%s' % (pid, f))
    if confirmed:
        for e in errors[:3]:
            print('also: ' + e)
        return 1
    if errors:
        for e in errors[:10]:
            print('ERROR: ' + e)
        return 2
    print('%s %s: held. %d paths, %d queries (%.1f s solver), %d assertions, %d traces validated natively, %.1f s' % (
        pid, tier, tot['paths'], tot['queries'], tot['solver_time'], tot['asserts'], validated, time.time() - t0))
    return 0


def demangle(n):
    """short readable form of a v0 symbol: the path identifiers"""
    if not n.startswith('_R'):
        return n
    out = []
    i = 2
    while i < len(n):
        m = re.match(r'(\d+)_?', n[i:])
        if m and m.group(1) != '0' and not (i > 0 and n[i - 1] == '_' and False):
            k = int(m.group(1))
            j = i + len(m.group(1))
            if n[j:j + 1] == '_':
                j += 1
            w = n[j:j + k]
            if len(w) == k and re.match(r'^[A-Za-z_]\w*$', w):
                out.append(w)
                i = j + k
                continue
        # skip crate disambiguators
        m = re.match(r'(C?s[0-9A-Za-z]*_)', n[i:])
        if m:
            i += len(m.group(1))
            continue
        i += 1
    return '::'.join(out)


def replay(f):
    d = json.load(open(f))
    prop = props.PROPS[d['property']]
    if prop.get('engine') == 'conc':
        import conc_check
        return conc_check.replay(d)
    bld = Build('replay-' + d['property'], prop['modules'])
    bld.nat = [threading.Thread(target=bld.guard, args=(j,)) for j in
               (lambda: bld.mk_bin('rel', 'replay'), lambda: bld.mk_bin('dbg', 'dev'))]
    for t in bld.nat:
        t.start()
    bld.wait_native()
    how, tried = reproduce(bld, {'inputs': d['inputs'], 'kind': d['kind'], 'msg': d['msg']}, d['harness'], d['build'])
    shutil.rmtree(bld.dir, ignore_errors=True)
    print(how or ('does not reproduce: %s' % tried))
    return 1 if how else 0


def main():
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    p = props.PROPS.get(pid)
    try:
        if p and p.get('engine') == 'conc':
            import conc_check
            rc = conc_check.check(pid, tier)
        else:
            rc = check(pid, tier)
    except CheckError as e:
        print('ERROR: %s' % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
    main()
