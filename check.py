#!/usr/bin/env python3
"""Run one property's check:  check.py PROPERTY [quick|thorough]
   build everything:          check.py --setup
   run a recorded violation:  check.py --replay FILE

A check compiles the harness crate together with /repo's current source to LLVM IR, executes it
symbolically (symex/), and replays what it finds against a native build of the same source.
Exit: 0 held on everything explored, 1 violation, 2 the check could not decide."""
import sys, os, json, subprocess, hashlib, shutil, time, fcntl, collections, threading
import concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
B = os.path.join(V, 'build')
SYMEX = os.path.join(V, 'symex/target/release/symex')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
           CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS'): ENV.pop(k, None)
sys.path.insert(0, V)
import props  # noqa: E402

class Broken(Exception): pass

def sh(cmd, cwd, env=None, t=1500):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=t)
    if p.returncode != 0:
        raise Broken('%s failed in %s:\n%s' % (' '.join(cmd[:6]), cwd, (p.stdout + p.stderr)[-3000:]))
    return p

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
                for f in sorted(fs):
                    q = os.path.join(d, f); h.update(q.encode()); h.update(open(q, 'rb').read())
        elif os.path.exists(p):
            h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

class Lock:
    def __init__(s, n): os.makedirs(B, exist_ok=True); s.f = open(os.path.join(B, n + '.lock'), 'w')
    def __enter__(s): fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): fcntl.flock(s.f, fcntl.LOCK_UN); s.f.close()

def build_engine():
    with Lock('engine'):
        want = tree_hash([V + '/symex/src', V + '/symex/Cargo.toml'])
        st = os.path.join(B, 'engine.stamp')
        if os.path.exists(SYMEX) and os.path.exists(st) and open(st).read() == want: return
        sh(['cargo', 'build', '--release', '--offline'], V + '/symex')
        open(st, 'w').write(want)

SRC = [REPO + '/src', REPO + '/Cargo.toml', V + '/harness/src', V + '/harness/Cargo.toml']

def build_group(g, kind):
    """kind: ll (IR for the engine), replay or plain (native). Returns the path of the artefact."""
    d = os.path.join(B, g); out = os.path.join(B, '%s.%s' % (g, kind))
    with Lock(g):
        want = tree_hash(SRC) + kind
        st = out + '.stamp'
        if os.path.exists(out) and os.path.exists(st) and open(st).read() == want: return out
        hst = os.path.join(B, g + '.src.stamp')
        if os.path.isdir(d) and (not os.path.exists(hst) or open(hst).read() != tree_hash(SRC)):
            sh(['cargo', 'clean', '--offline', '--target-dir', d, '-p', 'regalloc2', '-p', 'harness'], V + '/harness')
            for k in ('release', 'replay', 'plain'):
                p = os.path.join(d, k, 'deps')
                if os.path.isdir(p):
                    for f in os.listdir(p):
                        if f.startswith('harness') and f.endswith('.ll'): os.unlink(os.path.join(p, f))
        open(hst, 'w').write(tree_hash(SRC))
        e = dict(ENV)
        if kind == 'll':
            e['RUSTFLAGS'] = '--cfg regalloc2_verif -C no-vectorize-loops -C no-vectorize-slp'
            sh(['cargo', 'rustc', '--target-dir', d, '--release', '--offline', '--lib', '--crate-type', 'staticlib',
                '--features', g, '--', '--emit=llvm-ir'], V + '/harness', e)
            p = os.path.join(d, 'release/deps')
            c = [os.path.join(p, f) for f in os.listdir(p) if f.startswith('harness') and f.endswith('.ll')]
            if not c: raise Broken('no IR was produced')
            shutil.copyfile(max(c, key=os.path.getmtime), out)
        else:
            e['RUSTFLAGS'] = '--cfg regalloc2_verif'
            sh(['cargo', 'build', '--target-dir', d, '--profile', kind, '--offline', '--bin', 'native', '--features', g],
               V + '/harness', e)
            shutil.copyfile(os.path.join(d, kind, 'native'), out); os.chmod(out, 0o755)
        open(st, 'w').write(want)
    return out

def words(t):
    b = t.encode(); return [len(b)] + [int.from_bytes(b[i:i + 8], 'little') for i in range(0, len(b), 8)]

def native(exe, entry, params, inputs, t=30, verbose=False):
    """outcome of one native run per input list"""
    f = os.path.join(B, 'in.%d.%d' % (os.getpid(), threading.get_ident()))
    open(f, 'w').write(''.join(' '.join(map(str, i)) + '\n' for i in inputs))
    try:
        p = subprocess.run([exe, entry, ','.join(map(str, params)), f] + (['v'] if verbose else []),
                           capture_output=True, text=True, timeout=t, errors='replace')
    except subprocess.TimeoutExpired: return ['HANG']
    finally: os.unlink(f)
    if verbose: return p.stdout
    o = p.stdout.splitlines()
    if p.returncode not in (0, 1): o.append('CRASH status %d %s' % (p.returncode, p.stderr.strip()[-200:].replace('\n', ' ')))
    return o

BAD = ('FAIL', 'PANIC', 'CRASH', 'HANG')

class Run:
    def __init__(s, prop, tier):
        s.p, s.tier = prop, tier
        s.spec = props.PROPS[prop]
        s.t0 = time.time()
        s.seed = int(os.environ.get('VERIF_SEED', '1'))
        s.c = collections.Counter(); s.covers = collections.defaultdict(lambda: [0] * 64)
        s.fns = set(); s.samples = []; s.viol = []; s.known = []; s.incomplete = []; s.errors = []; s.units = []
        s.maxq = 0; s.solver = ''; s.maxvars = 0; s.maxi = 0
        s.stop = False; s.lock = threading.Lock()
        kf = os.path.join(V, 'known-findings.json')
        s.kf = [k for k in json.load(open(kf))['known'] if k['property'] == prop] if os.path.exists(kf) else []

    def args(s, u, jobs):
        return [SYMEX, '--ll', s.art[u['group'], 'll'], '--entry', u['entry'], '--jobs', str(jobs), '--time', str(u['time']),
                '--max-viol', '6', '--samples', '2', '--seed', str(s.seed), '--max-instr', str(u.get('max_instr', 150_000_000))]

    def wide(s, u, j):
        """one symbolic execution on all cores; j: {params, name, text?}"""
        if s.stop: return
        a = s.args(u, 8)
        for x in j['params']: a += ['--param', str(x)]
        p = subprocess.run(a, capture_output=True, text=True, timeout=u['time'] + 300)
        if p.returncode != 0: s.errors.append('%s: engine failed: %s' % (j['name'], p.stderr[-400:]))
        else: s.result(u, j, json.loads(p.stdout))

    def batch(s, u, js):
        """many small symbolic executions, one core each"""
        f = os.path.join(B, 'batch.%d' % os.getpid())
        open(f, 'w').write(''.join(','.join(map(str, j['params'])) + '\n' for j in js))
        p = subprocess.Popen(s.args(u, 8) + ['--batch', f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        err = []
        t = threading.Thread(target=lambda: err.append(p.stderr.read())); t.start()
        done = set(); futs = []
        with cf.ThreadPoolExecutor(4) as ex:
            for line in p.stdout:
                i, _, d = line.partition(' ')
                done.add(int(i))
                if d.strip() != 'null': futs.append(ex.submit(s.result, u, js[int(i)], json.loads(d)))
                else: s.errors.append('%s: engine failed' % js[int(i)]['name'])
                if s.stop: p.kill(); break
            for x in futs: x.result()
        p.wait(); t.join(); os.unlink(f)
        if not s.stop and len(done) != len(js): s.errors.append('engine failed: %s' % (err[0] or '')[-400:])

    def result(s, u, j, d):
        g = u['group']; exe = s.art[g, 'replay']
        # the engine's own paths, replayed natively, must behave the same
        sm = d['samples']; val = 0; div = None
        if sm:
            r = native(exe, u['entry'], j['params'], [x['inputs'] for x in sm])
            for k, x in enumerate(sm):
                want = ('OK ' + ' '.join(x['obs'])).strip()
                got = r[k].strip() if k < len(r) else 'nothing'
                if got == want: val += 1
                else: div = '%s: engine and native run differ on inputs %s: %s / %s' % (j['name'], x['inputs'], want[:200], got[:200])
        found = []
        for v in d['violations']:
            r = native(exe, u['entry'], j['params'], [v['inputs']], t=20)
            r = r[0] if r else 'nothing'
            if not r.startswith(BAD):
                with s.lock: s.errors.append('%s: not reproduced natively: %s, inputs %s, native: %s' % (j['name'], v['msg'], v['inputs'], r[:200]))
                continue
            found.append((v, r))
        with s.lock:
            c = s.c
            for k in ('paths', 'infeasible', 'forks', 'decisions', 'instrs', 'queries', 'sat', 'unsat', 'checks_concrete', 'checks_solver'): c[k] += d[k]
            c['solver_us'] += int(d['solver_s'] * 1e6); c['validated'] += val; c['jobs'] += 1
            s.maxq = max(s.maxq, d['max_query_s']); s.solver = d['solver']; s.maxvars = max(s.maxvars, d['max_vars']); s.maxi = max(s.maxi, d['max_path_instrs'])
            for k, x in enumerate(d['covers']): s.covers[u['entry']][k] += x
            s.fns.update(d['functions'])
            if div: s.errors.append(div)
            if not d['complete'] and not d['violations']: s.incomplete.append((j['name'], d['incomplete'][0], d['paths'], u.get('cap', False)))
            if d['complete']: c['complete'] += 1
            if sm and len(s.samples) < 6 and len(sm[0]['inputs']) > 0:
                s.samples.append({'harness': u['entry'], 'case': j.get('text', j['params']), 'inputs': sm[0]['inputs'], 'observed': sm[0]['obs'][:8]})
            for v, r in found:
                k = s.match(u, j, v)
                if k: s.known.append(k)
                elif len(s.viol) < 20:
                    s.viol.append(s.record(u, j, v, r))
                    if len(s.viol) >= u.get('enough', 3): s.stop = True

    def match(s, u, j, v):
        for k in s.kf:
            if k['harness'] == u['entry'] and k['msg'] == v['msg'] and \
               (k.get('case') == j.get('text') if 'case' in k else k['params'] == list(j['params'])) and \
               ('inputs' not in k or list(map(str, v['inputs'])) in [list(map(str, i)) for i in k['inputs']]):
                return k
        return None

    def record(s, u, j, v, r):
        d = os.path.join(V, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        f = os.path.join(d, '%s-%d.json' % (s.p, len(s.viol) + 1))
        out = native(s.art[u['group'], 'replay'], u['entry'], j['params'], [v['inputs']], t=20, verbose=True)
        if isinstance(out, list): out = '\n'.join(out)
        e = {'property': s.p, 'group': u['group'], 'harness': u['entry'], 'params': [str(x) for x in j['params']], 'case': j.get('text'),
             'inputs': v['inputs'], 'message': v['msg'], 'meaning': props.meaning(u['entry'], v['msg']), 'native': r, 'stack': v['stack'],
             'replay': 'python3 check.py --replay ' + f, 'native_output': out[-6000:]}
        json.dump(e, open(f, 'w'), indent=1)
        return f, v['msg'], e['meaning']

    def jobs_of(s, u):
        if 'jobs' in u: return u['jobs'](s.tier)
        if 'suite' in u:
            r = []
            for name, text in props.suite(u, s.tier):
                r.append({'params': [u['alg'], u['mask']] + words(text), 'name': name, 'text': text})
            return r
        return [{'params': p, 'name': '%s%s' % (u['entry'], list(p))} for p in u.get('params', [[]]) + (u.get('deep', []) if s.tier == 'thorough' else [])]

    def go(s):
        build_engine()
        units = [u for u in s.spec['units'] if s.tier in u.get('tiers', ('quick', 'thorough'))]
        s.art = {}
        need = sorted({u['group'] for u in units})
        for g in need:
            for k in ('ll', 'replay'): s.art[g, k] = build_group(g, k)
        nontime = time.time()
        for u in units:
            js = s.jobs_of(u)
            t = time.time()
            if s.stop: break
            u = dict(u); u['time'] = u.get('time', 60) if s.tier == 'quick' else u.get('ttime', 4 * u.get('time', 60))
            if u.get('wide', len(js) < 8):
                for j in js: s.wide(u, j)
            else: s.batch(u, js)
            for cvr in u.get('covers', [1]):
                if s.covers[u['entry']][cvr] == 0 and not s.stop and not s.viol:
                    s.errors.append('%s: goal %d was never reached (vacuous check)' % (u['entry'], cvr))
            s.units.append({'harness': u['entry'], 'bounds': u['bounds'], 'executions': len(js), 'wall_s': round(time.time() - t, 1)})
        s.explore_s = time.time() - nontime
        return s.finish()

    def finish(s):
        c = s.c
        fn = demangle(sorted(f for f in s.fns if 'regalloc2' in f))
        cov = {
            'states': c['paths'], 'transitions': c['decisions'], 'traces_validated_against_impl': c['validated'],
            'samples': s.samples, 'exhaustive': not s.incomplete and not s.errors and not s.stop,
            'bounds': [dict(u) for u in s.units],
            'symbolic_executions': c['jobs'], 'completed_executions': c['complete'], 'pruned_paths': c['infeasible'],
            'forks': c['forks'], 'instructions': c['instrs'], 'queries': c['queries'], 'queries_sat': c['sat'], 'queries_unsat': c['unsat'],
            'solver': s.solver, 'solver_s': round(c['solver_us'] / 1e6, 2), 'max_query_s': s.maxq,
            'assertions_decided_by_solver': c['checks_solver'], 'assertions_constant_on_path': c['checks_concrete'],
            'most_symbolic_variables_on_a_path': s.maxvars, 'longest_path_instructions': s.maxi,
            'goals_reached': {e: {str(i): n for i, n in enumerate(v) if n} for e, v in s.covers.items()},
            'functions_encoded': fn, 'functions_encoded_count': len(fn),
            'incomplete': [list(x[:3]) for x in s.incomplete[:50]], 'incomplete_count': len(s.incomplete),
            'errors': s.errors[:20],
        }
        ev = {'property': s.p, 'tier': s.tier, 'seed': s.seed, 'level': 'model_checking', 'coverage': cov,
              'wall_s': round(time.time() - s.t0, 1), 'assumptions': props.ASSUMPTIONS + s.spec.get('assumptions', []),
              'violations': len(s.viol)}
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (V, s.p), 'w'), indent=1)
        print('%s %s: %d executions, %d paths, %d queries (%.1f s in %s), %d replayed natively, %.0f s' %
              (s.p, s.tier, c['jobs'], c['paths'], c['queries'], c['solver_us'] / 1e6, s.solver, c['validated'], time.time() - s.t0))
        seen = set()
        for k in s.known:
            key = k['what']
            if key not in seen: print('KNOWN-FINDING: property=%s %s' % (s.p, k['what'])); seen.add(key)
        for k in s.kf:
            if k['what'] not in seen and not s.viol: print('note: the known finding was not seen on this run: %s' % k['what'])
        for f, m, me in s.viol: print('  %s%s' % (m, ' (%s)' % me if me else ''))
        if s.viol:
            for f, m, me in s.viol: print('VIOLATION property=%s replay=%s' % (s.p, f))
            return 1
        for x in s.incomplete[:5]: print('incomplete: %s: %s after %d paths' % x[:3])
        for e in s.errors[:5]: print('error: ' + e)
        hard = [x for x in s.incomplete if not (x[3] and s.tier == 'thorough')]
        return 2 if hard or s.errors else 0

def demangle(fs):
    """readable names, without the instantiating crate and type arguments"""
    import re
    try: o = subprocess.run(['c++filt', '-s', 'rust'], input='\n'.join(fs), capture_output=True, text=True).stdout.split('\n')
    except OSError: return fs
    r = set()
    for x in o:
        x = re.sub(r'\[[0-9a-f]{16}\]', '', x)
        if re.match(r'<*(&|\*)?(mut |const )?regalloc2::', x): r.add(x[:160])
    return sorted(r)

def replay(f):
    e = json.load(open(f)); bad = False
    for k in ('replay', 'plain'):
        r = native(build_group(e['group'], k), e['harness'], e['params'], [e['inputs']], t=60)
        print('%s build: %s' % ({'replay': 'checked', 'plain': 'release'}[k], r[0] if r else 'nothing'))
        bad |= bool(r) and r[0].startswith(BAD)
    print(native(build_group(e['group'], 'replay'), e['harness'], e['params'], [e['inputs']], t=60, verbose=True))
    return 1 if bad else 0

def main():
    a = sys.argv[1:]
    if a[0] == '--setup':
        build_engine()
        return 0
    if a[0] == '--replay': return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    try: return Run(a[0], tier).go()
    except (Broken, subprocess.TimeoutExpired) as e:
        print('error: %s' % e)
        return 2

if __name__ == '__main__':
    sys.exit(main())
