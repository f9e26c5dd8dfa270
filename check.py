#!/usr/bin/env python3
"""Solver-based checks for wakiyamap/lyra2.  usage: check.py <PROPERTY> [--thorough] | --setup

Regenerates LLVM IR from /repo's working tree (two profiles), executes the real
functions symbolically (engine/), compares them with reference semantics
(harness/src/spec.rs) with every rewriting step confirmed by z3, replays every
counterexample natively and writes evidence/<PROPERTY>.json.
"""
import json, os, subprocess, sys, threading, time, queue, random, shutil, resource, hashlib
ROOT = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(ROOT, 'build')
REPO = os.environ.get('LYRA2_REPO', '/repo')
NCPU = min(8, os.cpu_count() or 8)
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()

def log(*a): print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ building
TC = {'RUSTUP_TOOLCHAIN': 'stable-x86_64-unknown-linux-gnu', 'CARGO_NET_OFFLINE': 'true'}
def cargo(args, cwd, target, flags='', extra=None):
    e = dict(os.environ); e.update(TC); e['CARGO_TARGET_DIR'] = target
    e.pop('CARGO_ENCODED_RUSTFLAGS', None)
    e['RUSTFLAGS'] = flags
    if extra: e.update(extra)
    p = subprocess.run(['cargo'] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def sync(src, dst):
    """copy a small source tree, touching only what changed (keeps cargo's fingerprints)"""
    for d, _, fs in os.walk(src):
        r = os.path.relpath(d, src)
        if r.split(os.sep)[0] == 'target': continue
        os.makedirs(os.path.join(dst, r), exist_ok=True)
        for f in fs:
            a, b = os.path.join(d, f), os.path.join(dst, r, f)
            t = open(a, 'rb').read()
            if f == 'Cargo.toml': t = t.replace(b'"/repo"', b'"' + REPO.encode() + b'"')
            if f == 'Cargo.lock' and os.path.exists(b): continue
            if not os.path.exists(b) or open(b, 'rb').read() != t: open(b, 'wb').write(t)

class Built: pass
def build(want=('engine', 'rel', 'dev', 'nrel', 'ndev')):
    os.makedirs(B, exist_ok=True)
    for n in ('harness', 'native'): sync(os.path.join(ROOT, n), os.path.join(B, 'w', n))
    # one copy of the harness per profile so that they can build at the same time
    for n in ('rel', 'dev'): sync(os.path.join(B, 'w', 'harness'), os.path.join(B, 'w', 'h-' + n))
    for n in ('nrel', 'ndev'):
        sync(os.path.join(B, 'w', 'native'), os.path.join(B, 'w', 'n-' + n))
    r, out = {}, Built()
    NV = '-C no-vectorize-loops -C no-vectorize-slp '
    PR = {'rel': {'CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS': 'false', 'CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS': 'false'},
          'dev': {'CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS': 'true', 'CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS': 'true'}}
    def job(n):
        t = os.path.join(B, n)
        for hook in ('--cfg lyra2_verif', ''):
            if n == 'engine': r[n] = cargo(['build', '--release', '--offline'], os.path.join(ROOT, 'engine'), t, '', None)
            elif n in PR: r[n] = cargo(['rustc', '--offline', '--release', '--', '--emit=llvm-ir'], os.path.join(B, 'w', 'h-' + n), t, NV + hook, PR[n])
            else: r[n] = cargo(['build', '--offline'] + (['--release'] if n == 'nrel' else []), os.path.join(B, 'w', 'n-' + n), t, hook)
            if r[n][0] == 0 or n == 'engine': break
            log('build of', n, 'with hooks failed, trying without')
        r[n] += (hook != '',)
    ths = [threading.Thread(target=job, args=(n,)) for n in want]
    for t in ths: t.start()
    for t in ths: t.join()
    for n in want:
        if r[n][0] != 0:
            print(r[n][1][-4000:]); print('BUILD FAILED:', n); sys.exit(2)
    out.symll = os.path.join(B, 'engine/release/symll')
    out.ir = {n: os.path.join(B, n, 'release/deps/h.ll') for n in PR}
    out.native = {'rel': os.path.join(B, 'nrel/release/native'), 'dev': os.path.join(B, 'ndev/debug/native')}
    out.hooks = all(r[n][2] for n in want if n != 'engine')
    return out

# ------------------------------------------------------------------ engine workers
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (22 << 30, 22 << 30))
class Worker:
    def __init__(self, bt, ir): self.bt, self.ir, self.p = bt, ir, None
    def start(self):
        e = dict(os.environ); e['VERIF_SEED'] = str(SEED)
        self.p = subprocess.Popen([self.bt.symll, 'run', self.bt.ir[self.ir]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=e, preexec_fn=limits, start_new_session=True)
        self.q = queue.Queue()
        def rd(p, q):
            for l in p.stdout: q.put(l)
            q.put(None)
        threading.Thread(target=rd, args=(self.p, self.q), daemon=True).start()
        try:
            return self.q.get(timeout=120) is not None
        except queue.Empty:
            self.kill(); return False
    def kill(self):
        if self.p:
            try: os.killpg(self.p.pid, 9)
            except Exception: pass
            self.p.wait(); self.p = None
    def run(self, line, timeout):
        if self.p is None and not self.start(): return {'verdict': 'error', 'notes': ['engine did not start']}
        try:
            self.p.stdin.write(line + '\n'); self.p.stdin.flush()
            l = self.q.get(timeout=timeout)
        except queue.Empty:
            self.kill(); return {'verdict': 'timeout', 'notes': ['no answer in %d s' % timeout]}
        except Exception as x:
            self.kill(); return {'verdict': 'error', 'notes': ['engine: %r' % x]}
        if l is None: self.kill(); return {'verdict': 'error', 'notes': ['engine ended']}
        try: return json.loads(l)
        except Exception: return {'verdict': 'error', 'notes': ['unreadable answer ' + l[:200]]}

# ------------------------------------------------------------------ jobs
class J:
    """one symbolic obligation"""
    def __init__(self, kind, f, spec=None, ir='rel', /, **cfg): self.kind, self.f, self.spec, self.ir, self.cfg, self.res, self.weight = kind, f, spec, ir, cfg, None, 0
    def name(s): return '%s:%s:%s:%s' % (s.kind, s.ir, s.f, ','.join('%s=%s' % (k, v) for k, v in s.cfg.items() if k != 'first'))
    def toks(s):
        c = s.cfg
        if s.f == 'lyra2':
            sym = c.get('sym', '')
            n = lambda x: ('v:%s:%d' if x in sym.split('+') else 'n:%.0s%d') % (x, c[x])
            if s.kind in ('scout', 'probe'):
                bt = lambda b: '%s:%s:%s' % ('L' if 'len' in sym.split('+') else 'c', b, content(c[b], b).hex() or '-')
            else: bt = lambda b: 'b:%s:%d' % (b, c[b])
            return ' '.join([n('k'), bt('p'), bt('s'), n('t'), n('r'), n('c'), 'o:%d' % max(512, c['k'] + 16)])
        if s.kind in ('scout', 'probe'): return 'L:p:%s o:96' % (content(c['p'], 'p').hex() or '-')
        return 'b:p:%d o:96' % c['p']
    def line(s, i):
        if s.kind == 'seq':
            a = s.cfg['first']; at = a.toks().replace('b:p:', 'b:a:').replace('b:s:', 'b:as:')
            return 'seq j%d i_%s %s | i_%s s_%s %s' % (i, a.f, at, s.f, s.spec or s.f, s.toks())
        if s.kind == 'safe': return 'safe j%d i_%s %s' % (i, s.f, s.toks())
        if s.kind == 'supp': return 'supp j%d i_%s %s' % (i, s.f, s.toks())
        if s.kind == 'tot': return 'tot j%d i_%s 32 %s' % (i, s.f, s.toks())
        sp = s.spec or 's_' + s.f
        return '%s j%d i_%s %s %s' % (s.kind, i, s.f, sp, s.toks())
    def native(s, cand, f=None):
        """the native call for a model"""
        c = dict(s.cfg); f = f or s.f
        def buf(b):
            n = cand.get(b + '.len')
            if n is not None and n != c[b]: return content(n, b).hex() or '-'
            v = cand.get(b)
            if s.kind in ('scout', 'probe') and v is not None and set(v) <= {'0'}: v = None
            if v is None: v = content(c[b], b).hex()
            return v or '-'
        if f.startswith('lyra2'):
            g = lambda x: int(cand.get(x, c[x]))
            return '%s %d %s %s %d %d %d' % (f, g('k'), buf('p'), buf('s'), g('t'), g('r'), g('c'))
        return '%s %s' % (f, buf('p'))

def content(n, salt):
    return hashlib.shake_128(('%s/%d' % (salt, SEED)).encode()).digest(n) if n <= 1 << 25 else b''

def feasible_native(line):
    """calls that a correct implementation answers in well under a second, so that no answer in 25 s means it hangs"""
    w = line.split()
    if len(line) > 1 << 22: return False
    if w[0].startswith('lyra2'):
        k, t, r, c = int(w[1]), int(w[4]), int(w[5]), int(w[6])
        if k >= 1 << 22: return False
        if t == 0 or r < 3: return r * c < 1 << 21
        blocks = (len(w[2]) + len(w[3])) // 128 + 2
        return r * c < 1 << 20 and (t + 1) * r * c < 1 << 21 and blocks * r * c < 1 << 23
    return True

class Run:
    def __init__(s, pid, thorough):
        s.pid, s.thorough = pid, thorough
        s.viol, s.known, s.open, s.jobs, s.replays, s.native_runs, s.notes = [], [], [], [], 0, {}, []
        s.deadline = T0 + (480 if not thorough else 6 * 3600)        # no new solver work after this
        s.end = T0 + (780 if not thorough else 8 * 3600)             # no new native work after this
        s.samples = []
        s.validated = 0
        s.slow = None
        s.nreplayed = set()
    # ---- symbolic
    def sym(s, jobs, timeout=None, each=None, budget=None):
        """run obligations on the worker pool; `each` judges one as soon as it is answered, and a confirmed violation ends the rest"""
        if timeout is None: timeout = 200 if not s.thorough else 3600
        if budget is None: budget = 330 if not s.thorough else 4 * 3600
        jobs = [j for j in jobs if j.f not in ('cube', 'bmw', 'modsum') or s.bt.hooks]
        lock = threading.Lock(); state = sorted(jobs, key=lambda j: -j.weight)
        base = len(s.jobs); s.jobs += jobs; slow = {}
        until = min(s.deadline, time.time() + budget)
        def work(k):
            ws = {}
            while True:
                with lock:
                    if not state: break
                    # prefer the profile this worker has loaded (solver cache)
                    pick = next((x for x in state if x.ir in ws), state[0])
                    if pick.weight < state[0].weight * 0.5: pick = state[0]
                    state.remove(pick)
                left = until - time.time()
                if left < 5 or (s.viol and each): pick.res = {'verdict': 'skipped', 'notes': ['time budget used up' if left < 5 else 'violation already found']}; pick.ok = False; continue
                if pick.ir not in ws: ws[pick.ir] = Worker(s.bt, pick.ir)
                # after a few obligations of a function ran out of time, the others get less
                pick.res = ws[pick.ir].run(pick.line(base + k), min(timeout if slow.get(pick.f, 0) < 3 else timeout / 4, left))
                if pick.res['verdict'] == 'timeout': slow[pick.f] = slow.get(pick.f, 0) + 1
                log('%-9s %s %s' % (pick.res['verdict'], pick.name(), '; '.join(pick.res['notes'])[:160] if pick.res['verdict'] not in ('equal', 'done') else ''))
                if each:
                    with lock2: each(pick)
            for w in ws.values(): w.kill()
        lock2 = threading.Lock()
        n = min(NCPU, max(1, len(jobs)))
        ths = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        for t in ths: t.start()
        for t in ths: t.join()
        if each and not s.viol:
            for j in jobs:
                if j.res['verdict'] == 'skipped': s.open.append(j)
        return jobs
    def decide(s, jobs, timeout=None, pre=None):
        def each(j):
            if pre: pre(j)
            s.settle([j])
        return s.sym(jobs, timeout, each)
    # ---- native
    def nat(s, prof, args, inp=None, timeout=60, env=None):
        if time.time() > s.end and args[0] != 'call': return 'skipped', []
        try:
            p = subprocess.run([s.bt.native[prof]] + args, input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout, env=dict(os.environ, **env) if env else None, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30)))
            return p.returncode, p.stdout.splitlines()
        except subprocess.TimeoutExpired as x:
            o = x.stdout or b''
            return 'timeout', (o.decode() if isinstance(o, bytes) else o).splitlines()
    def call(s, line, prof, timeout=25, env=None):
        """(impl, reference) natively; HANG / CRASH when there is no answer"""
        rc, o = s.nat(prof, ['call'], line + '\n', timeout, env)
        s.replays += 1
        if rc == 'timeout': return ('HANG', None)
        if not o or len(o[0].split()) != 2: return ('CRASH', None)
        return tuple(o[0].split())
    def agrees(s, line, r):
        if r[0] == r[1]: return True
        w = line.split()
        if w[0] == 'lyra2' and int(w[5]) > 2 and int(w[5]) & (int(w[5]) - 1):
            m = s.call(line.replace('lyra2 ', 'lyra2m ', 1), 'rel')
            return m[1] == r[0]
        return False
    def violation(s, what, data):
        if len(s.viol) < 5: s.viol.append((what, data)); log('VIOLATION', what)
    def confirm(s, line, why):
        """default judgement of a native call: the code must agree with the reference in both profiles"""
        if line in s.nreplayed or not feasible_native(line): return False
        if time.time() > s.end: s.notes.append('no time left to replay ' + line[:80]); return False
        s.nreplayed.add(line)
        for prof in ('rel', 'dev'):
            r = s.call(line, prof)
            if s.judge(line, r):
                s.violation('%s: %s gives %s, expected %s' % (why, line[:300], r[0][:200], (r[1] or '')[:200]), {'call': line, 'profile': prof, 'got': r[0], 'expected': r[1], 'found_by': why})
                return True
        return False
    def judge(s, line, r): return not s.agrees(line, r)
    def settle(s, jobs):
        """turn engine answers into discharged / violated / open obligations"""
        for j in jobs:
            if j.kind in ('probe',): continue
            r = j.res
            ok = r['verdict'] in ('equal', 'done') and r.get('cert') and r['cert']['failed'] == 0
            # translator validation: the terms, evaluated, against the machine
            if r.get('sample_in') and j.kind in ('eq', 'tot', 'scout') and j.kind != 'seq':
                line = j.native(r['sample_in'], 'sum' if j.f == 'sumdef' else None)
                if feasible_native(line):
                    n = s.call(line, 'rel' if j.ir == 'rel' else 'dev')
                    got = '' if n[0] == '-' else n[0]
                    if got.startswith(r['sample_out']) or got == r['sample_out']: s.validated += 1
                    elif s.judge(line, n): s.confirm(line, 'translator validation sample'); ok = False
                    else: r['notes'].append('native result differs from the encoding'); ok = False
            j.ok = ok
            if ok: continue
            hit = False
            for c in r.get('cands', []):
                for line in s.lines(j, c):
                    if s.confirm(line, 'counterexample (%s) of %s' % (c.get('why', ''), j.name())): hit = True; break
                if hit: break
            j.hit = hit
            if not hit: s.open.append(j)
    def lines(s, j, c):
        l = [j.native(c)]
        if j.f == 'lyra2' and j.kind in ('scout', 'probe', 'eq'):
            # the same model with a matrix that is large enough, should the input not fit
            pl, sl = c.get('p.len', j.cfg['p']), c.get('s.len', j.cfg['s'])
            r, cc = int(c.get('r', j.cfg['r'])), int(c.get('c', j.cfg['c']))
            if pl < 1 << 22 and sl < 1 << 22 and r * cc * 96 < pl + sl + 128 and r > 2:
                d = dict(c); d['c'] = (pl + sl + 128) // (r * 96) + 1; l.append(j.native(d))
        return l
    def beyond(s, j, c):
        """the solver's value is usually the first one on the other side of a branch: also some further on"""
        l = []
        for k, b in [(k, j.cfg.get(k)) for k in ('k', 't', 'r', 'c')] + [(b + '.len', j.cfg.get(b)) for b in ('p', 's')]:
            v = c.get(k)
            if v is None or b is None or v <= b: continue
            for w in (v + 1 + v // 7, 2 * v + 5) if k != 'k' else (v + 40, v + v // 7 + 111, 2 * v + 5):
                if w < 1 << 21: l += s.lines(j, dict(c, **{k: w}))[-1:]
        return l
    def sweep(s, fs, big=1, secs=40):
        """cross-check outside the symbolic bounds; never discharges anything"""
        if s.viol: return
        for prof in ('rel', 'dev'):
            rc, o = s.nat(prof, ['grid', str(SEED), str(NCPU), str(big), str(secs)] + fs, None, secs + 60)
            s.count('sweep', o)
            for l in o:
                if l.startswith(('DIFF', 'HANG')): s.confirm(l.split(' ', 1)[1], 'native sweep')
                if l.startswith('SLOW') and s.slow: s.slow(l.split(' ', 1)[1], 'native sweep')
            if rc not in (0,): s.crashed(prof, fs, rc)
    def crashed(s, prof, fs, rc): s.notes.append('native sweep of %s ended with %s' % (fs, rc))
    def count(s, k, o):
        for l in o:
            if l.startswith('DONE'): s.native_runs[k] = s.native_runs.get(k, 0) + int(l.split()[1])
    def search(s, fs, secs, extra=()):
        """differential search for open obligations"""
        for prof in ('rel', 'dev'):
            if s.viol: return
            rc, o = s.nat(prof, ['rand', str(SEED), str(secs), str(NCPU)] + fs, None, secs + 40)
            s.count('search', o)
            for l in o:
                if l.startswith(('DIFF', 'HANG')): s.confirm(l.split(' ', 1)[1], 'differential search')
        for line in extra:
            if s.viol: return
            rc, o = s.nat('rel', ['brute', str(SEED), str(secs), str(NCPU)] + line.split(), None, secs + 40)
            s.count('search', o)
            for l in o:
                if l.startswith(('DIFF', 'HANG')): s.confirm(l.split(' ', 1)[1], 'brute-force search')
    def hunt_open(s, fs):
        if not s.open or s.viol: return
        ex = []
        for j in s.open[:3]:
            if j.kind in ('eq', 'scout'): ex.append(j.native({}))
        if fs == ['lyra2']: ex.append('lyra2 32 %s %s 1 3 1' % (content(8, 'p').hex(), content(8, 's').hex()))
        n = 2 + len(ex)                                   # share what is left of the time
        s.search(fs, max(10, min(60, (s.end - 60 - time.time()) / n)) if not s.thorough else 300, ex)
    # ---- probing: solver-made parameters
    def probe(s, jobs, rounds=2, cap=10, follow=True):
        """run concretely with the parameters as variables; ask the solver for parameters that take the
        branches not taken; run those natively and, when small, symbolically"""
        if s.viol: return
        seen, front, fresh, lines = set(), jobs, [], 0
        sites = set()
        for rnd in range(rounds):
            s.sym(front, 90)
            new = []
            for j in front:
                r = j.res
                for c in r.get('cands', []):
                    for l in s.lines(j, c): s.confirm(l, 'probe')
                for c in r.get('flips', []):
                    cfg = dict(j.cfg)
                    for k in ('k', 't', 'r', 'c'):
                        if k in c: cfg[k] = c[k]
                    for b in ('p', 's'):
                        if b + '.len' in c: cfg[b] = c[b + '.len']
                    key = tuple(sorted((k, v) for k, v in cfg.items() if k not in ('sym',)))
                    bykey = (c['why'], j.cfg.get('sym'))
                    if key in seen: continue
                    seen.add(key)
                    for l in s.lines(j, c) + s.beyond(j, c):
                        lines += 1
                        s.confirm(l, 'solver-made parameters')
                    n = J('probe', j.f, j.spec, j.ir, **cfg)
                    prio = (c['why'] in sites, cost(n))
                    sites.add(c['why']); new.append((prio, n))
            new.sort(key=lambda x: x[0])
            new = [n for p, n in new if p[1] < 60]
            fresh += new[:cap]
            front = new[:cap]
            if not front or s.viol: break
        s.notes.append('probing: %d branch-flipping parameter sets replayed natively' % lines)
        if not follow or s.viol: return
        sel = [J('eq', n.f, n.spec, n.ir, **{k: v for k, v in n.cfg.items() if k != 'sym'}) for n in fresh if cost(n) < 12][:cap]
        done = {j.name() for j in s.jobs}
        sel = [j for j in sel if j.name() not in done]
        s.decide(sel, 90)
    # ---- recorded findings
    def finding(s, fid, text, data):
        """a defect that replays: KNOWN-FINDING when it is listed in KNOWN_FINDINGS.txt, else a violation"""
        for l in open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')):
            if l.startswith('finding: property=%s id=%s ' % (s.pid, fid)): s.known.append(text); return
        s.violation(text, data)
    # ---- wrap-up
    def finish(s):
        real = [j for j in s.jobs if j.kind != 'probe']
        dis = [j for j in real if getattr(j, 'ok', False)]
        g = lambda k: sum((j.res or {}).get(k, 0) or 0 for j in s.jobs)
        cert = lambda k: sum(((j.res or {}).get('cert') or {}).get(k, 0) for j in s.jobs)
        fns = sorted({f for j in s.jobs for f in (j.res or {}).get('functions', [])})
        ev = {'property': s.pid, 'tier': 'thorough' if s.thorough else 'quick', 'seed': SEED, 'level': 'model_checking',
              'coverage': {
                  'states': g('nodes'), 'transitions': g('steps'),
                  'traces_validated_against_impl': s.validated + s.replays + sum(v for k, v in s.native_runs.items() if k in ('histories_calls', 'concurrent_calls')),
                  'samples': [{'obligation': j.name(), 'verdict': (j.res or {}).get('verdict'), 'ir_steps': (j.res or {}).get('steps'), 'terms': (j.res or {}).get('nodes'), 'rewrites_proved': ((j.res or {}).get('cert') or {}).get('proved'), 'notes': (j.res or {}).get('notes', [])[:3]} for j in s.jobs[:60]] + s.samples,
                  'meaning': 'states = distinct terms built, transitions = IR instructions executed symbolically; every obligation covers all values of its symbolic bytes at once',
                  'obligations': len(real), 'discharged': len(dis),
                  'undecided': [j.name() + ' ' + '; '.join((j.res or {}).get('notes', []))[:200] for j in s.open],
                  'rewrite_steps': cert('steps'), 'rewrite_steps_nontrivial': cert('nontrivial'), 'rewrite_steps_proved': cert('proved'), 'rewrite_steps_unproved': cert('failed'),
                  'solver_queries': g('asked'), 'solver_unsat': g('unsat'), 'solver_sat': g('sat'), 'solver_unknown': g('unknown'), 'solver_cache_hits': g('hits'), 'solver_seconds': round(g('solver_s'), 2),
                  'path_forks': g('forks'), 'functions_encoded': len(fns), 'functions': fns[:60],
                  'bounds': s.bounds, 'profiles': sorted({j.ir for j in s.jobs}),
                  'native_cross_checks_outside_bounds': s.native_runs,
                  'hooks': s.bt.hooks, 'known_findings': s.known, 'notes': s.notes},
              'assumptions': s.assume + ASSUME, 'wall_s': round(time.time() - T0, 2), 'violations': len(s.viol)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', s.pid + '.json'), 'w'), indent=1)
        print('%s: %d obligations, %d discharged, %d open; %d terms, %d IR steps, %d solver queries (%.1f s), %d rewrites proved; %d native replays; %.1f s' % (s.pid, len(real), len(dis), len(s.open), g('nodes'), g('steps'), g('asked'), g('solver_s'), cert('proved'), s.replays, time.time() - T0))
        for j in s.open: print('UNDECIDED', j.name(), '; '.join((j.res or {}).get('notes', []))[:200])
        for k in s.known: print('KNOWN-FINDING: property=%s %s' % (s.pid, k))
        if s.viol:
            rp = os.path.join(ROOT, 'evidence', 'replay-%s.json' % s.pid)
            json.dump([{'what': w, **d} for w, d in s.viol], open(rp, 'w'), indent=1)
            for w, _ in s.viol: print('  ', w[:600])
            print('VIOLATION property=%s replay=%s' % (s.pid, rp))
            return 1
        return 0

ASSUME = ['z3 (z3-new) answers unsat only for unsatisfiable queries', 'rustc/LLVM translate the crate to IR as they do to machine code; the executor implements the IR subset used (cross-checked natively on every obligation)',
          'the published crates blake-hash, sha3, skein-hash and groestl are what the reference calls for those stages', 'memory allocation succeeds']

def cost(j):
    c = j.cfg
    if j.f == 'lyra2': return max(c['r'], 1) * max(c['c'], 1) * (c['t'] + 1) / 20.0 + (c['p'] + c['s']) / 100.0 + c['k'] / 500.0
    return {'re': 20, 'rev2': 15, 'rev3': 14, 'z': 12}.get(j.f, 4) * (1 + c['p'] / 400.0)

sys.path.insert(0, ROOT)
sys.modules['check'] = sys.modules['__main__']
sys.dont_write_bytecode = True
from props import PROPS
def main():
    a = sys.argv[1:]
    if a == ['--setup']:
        b = build(); log('built', b.symll); return 0
    pid = a[0]; thorough = '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough'
    s = Run(pid, thorough)
    s.bt = build(); log('built; hooks', s.bt.hooks)
    s.bounds, s.assume = '', []
    PROPS[pid](s)
    return s.finish()
if __name__ == '__main__':
    sys.exit(main())
