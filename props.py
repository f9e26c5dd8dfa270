"""What each property asks of the solver, and within which bounds."""
import check
from check import *
def L(k, p, s, t, r, c, kind='eq', ir='rel', **kw):
    j = J(kind, 'lyra2', None, ir, k=k, p=p, s=s, t=t, r=r, c=c, **kw); j.weight = cost(j); return j
def H(f, p, kind='eq', ir='rel', spec=None, **kw):
    j = J(kind, f, spec, ir, p=p, **kw); j.weight = cost(j); return j
LYRA_PROBES = lambda irs=('rel',): [x for ir in irs for x in (
    L(40, 8, 16, 2, 4, 2, 'probe', ir, sym='k'), L(40, 24, 16, 1, 4, 2, 'probe', ir, sym='len'), L(32, 8, 8, 2, 4, 2, 'probe', ir, sym='t'),
    L(32, 8, 8, 2, 4, 2, 'probe', ir, sym='r'), L(32, 8, 8, 2, 4, 2, 'probe', ir, sym='c'), L(32, 8, 8, 1, 8, 3, 'probe', ir, sym='r+c'))]

def c01(s):
    cf = [(32, 8, 8, 1, 4, 4), (32, 0, 0, 1, 4, 1), (32, 16, 8, 2, 4, 2), (64, 8, 40, 3, 4, 1), (16, 72, 56, 1, 8, 2), (32, 24, 64, 2, 8, 1), (32, 13, 21, 1, 4, 2),
          (32, 8, 16, 1, 16, 1), (48, 8, 8, 5, 4, 1), (32, 8, 8, 1, 3, 2), (32, 8, 8, 2, 5, 1), (32, 8, 8, 1, 6, 2), (32, 8, 8, 2, 7, 1), (120, 40, 8, 1, 8, 1), (32, 32, 32, 1, 8, 8), (32, 200, 120, 1, 4, 4)]
    if s.thorough: cf += [(32, p, q, t, r, c) for r in (4, 8, 16, 32) for c in (1, 2, 3, 5, 8) for t in (1, 2, 3, 4) for p, q in ((8, 8), (16, 64)) if r * c * t < 160] + [(32, 64, 64, 8, 8, 8), (256, 8, 8, 1, 64, 1)] + [(32, 8, 8, t, r, 1) for r in (3, 5, 6, 7, 9, 10, 12) for t in (1, 2)]
    s.bounds = 'symbolic: every byte of pwd and salt; concrete (k,|pwd|,|salt|,T,R,C) in ' + str(cf) + '; plus solver-made parameters'
    jobs = [L(*c) for c in cf] + [L(*c, ir='dev') for c in cf[:8]]
    s.decide(jobs)
    s.probe(LYRA_PROBES(), rounds=2 if not s.thorough else 4, cap=8 if not s.thorough else 40)
    s.sweep(['lyra2']); s.hunt_open(['lyra2'])

def c02(s):
    ks = [0, 1, 7, 8, 9, 31, 33, 63, 64, 65, 90, 95, 96, 97, 100, 128, 191, 192, 193, 200, 288, 289, 300]
    if s.thorough: ks = list(range(0, 400)) + [480, 500, 576, 577, 768, 1000]
    s.bounds = 'symbolic: 8 bytes of pwd and 8 of salt; output length k in %s at T=1 R=4 C=1; plus solver-made k' % ks
    s.decide([L(k, 8, 8, 1, 4, 1) for k in ks] + [L(k, 8, 8, 1, 4, 1, ir='dev') for k in (0, 32, 95, 96, 97, 192, 300)] + [L(200, 8, 8, 2, 8, 2), L(33, 8, 8, 2, 8, 2)])
    s.probe([L(k, 8, 8, 1, 4, 1, 'probe', sym='k') for k in (32, 97, 200)], rounds=2, cap=8)
    s.sweep(['lyra2']); s.hunt_open(['lyra2'])

def c03(s):
    cf = []
    for r, c in ((3, 1), (4, 1), (4, 2), (5, 1), (8, 1)) if not s.thorough else [(r, c) for r in range(3, 12) for c in range(1, 5)]:
        cap = r * c * 96 // 64 - 1            # number of blocks that fit, minus one
        top = cap * 64 + 15                   # largest |pwd|+|salt| that fits
        for tot in (top, top + 1):
            for p in {0, tot, tot // 2 // 8 * 8}: cf.append((32, p, tot - p, 1, r, c))
    cf += [(32, 8, 8, 0, 4, 4), (32, 8, 8, 0, 2, 1), (32, 8, 8, 1, 2, 4), (32, 8, 8, 1, 1, 4), (32, 8, 8, 1, 0, 4), (32, 8, 8, 1, 3, 0), (32, 8, 8, 1, 4, 0), (32, 0, 0, 1, 3, 1), (0, 0, 0, 1, 3, 1), (32, 8, 8, 2, 3, 1), (32, 8, 8, 3, 3, 2), (32, 8, 8, 2, 6, 2), (97, 8, 8, 1, 4, 2)]
    s.bounds = 'symbolic: every byte of pwd and salt; parameter sets around each limit: ' + str(cf)
    # only the question panics-or-returns is this property's business
    s.judge = lambda line, r: r[0] in ('CRASH', 'HANG') or (r[0] == 'PANIC') != (r[1] == 'PANIC')
    jobs = [L(*c, ir=ir) for c in cf for ir in ('dev', 'rel')]
    def pre(j):        # a difference in content alone does not matter here
        if j.res['verdict'] in ('differs', 'open') and not any(x in n for n in j.res['notes'] for x in ('panic', 'reachable', 'excluded', 'return', 'ub:', 'limit', 'length')): j.res['verdict'] = 'equal'; j.res['cert'] = j.res.get('cert') or {'failed': 0, 'proved': 0, 'steps': 0, 'nontrivial': 0}
    s.decide(jobs, None, pre)
    s.probe(LYRA_PROBES(('dev',)), rounds=2, cap=8)
    s.sweep(['lyra2']); s.hunt_open(['lyra2'])

def c04(s):
    cf = [(32, 8, 8, t, r, 1) for r in (3, 4, 5, 6, 7, 8, 9, 10, 12, 16) for t in (1, 2, 3) if r * t <= 30] + [(32, 8, 8, 6, 4, 1), (32, 8, 8, 1, 4, 6)]
    if s.thorough: cf += [(32, 8, 8, t, r, 1) for r in range(3, 34) for t in (1, 2, 3, 4)]
    s.bounds = 'symbolic: 8 bytes of pwd and 8 of salt; (k,|pwd|,|salt|,T,R,C) in %s; all paths must finish within 400 million IR steps' % cf
    s.judge = lambda line, r: r[0] == 'HANG'
    s.bounds += '; at most 16 times the IR steps of the reference'
    jobs = [L(*c, kind='eq') for c in cf] + [L(*c) for c in ((300, 8, 8, 1, 4, 1), (32, 200, 160, 1, 4, 2), (1, 96, 0, 1, 4, 1), (8, 8, 8, 1, 8, 4))] + [H(f, n) for f in ('re', 'rev2', 'rev3', 'z') for n in (80, 0, 150)] + [H('sum', 64)]
    def slow(line, why):
        if line in s.timed or not feasible_native(line) or len(s.timed) > 40: return
        s.timed.add(line); log('timing', line[:80])
        rc, o = s.nat('rel', ['time', '5'], line + '\n', 60)
        if rc == 'timeout': s.confirm(line, why); return
        x, y = [float(v) for v in o[0].split()[1:]] if o and o[0].startswith('TIME') else (0, 1)
        w = line.split(); copy = 0                 # the code copies the rest of the matrix for every absorbed block: allowed, it is bounded by the parameters
        if len(w) > 2: copy = ((len(w[2]) + len(w[3])) / 128 + 2) * int(w[5]) * int(w[6]) * 96 / 2e8
        if x > 16 * y + 4 * copy + 1e-3: s.violation('%s: %s takes %.6f s, %.0f times as long as the reference' % (why, line[:300], x, x / y), {'call': line, 'seconds': x, 'reference_seconds': y, 'found_by': why})
    s.timed, s.slow = set(), slow
    def pre(j):
        r = j.res
        if r.get('isteps') and r.get('ssteps') and r['isteps'] > 16 * r['ssteps'] + 2000:
            r['notes'].append('work: %d IR steps, the reference takes %d' % (r['isteps'], r['ssteps']))
            for c in ([{}] + r.get('cands', []))[:6]: slow(j.native(c), 'work bound exceeded in the encoding of ' + j.name())
            r['verdict'] = 'open'; return
        if r['verdict'] in ('differs', 'open') and not any('limit' in n for n in r['notes']): r['verdict'] = 'equal'; r['cert'] = r.get('cert') or {'failed': 0, 'proved': 0, 'steps': 0, 'nontrivial': 0}
    s.decide(jobs, None, pre)
    s.probe([L(32, 8, 8, 2, 4, 2, 'probe', sym='r'), L(32, 8, 8, 2, 4, 2, 'probe', sym='t'), L(32, 8, 8, 2, 4, 2, 'probe', sym='c'), L(32, 24, 16, 1, 4, 2, 'probe', sym='len')], rounds=2, cap=6, follow=False)
    s.sweep(['lyra2']); s.sweep(['re', 'rev2', 'rev3', 'z', 'sum']); s.hunt_open(['lyra2'])

F_ROWS = 'n_rows that is not a power of two: rows are reduced with "& (n_rows-1)" instead of modulo n_rows, e.g. lyra2(32, 8 bytes, 8 bytes, 1, 5, 1) never revisits rows 1 to 3'
def c05(s):
    rs = [(3, 1, 1), (3, 2, 2), (5, 1, 1), (5, 2, 1), (6, 1, 2), (7, 1, 1), (9, 1, 1), (10, 1, 1), (12, 1, 1)]
    if s.thorough: rs += [(r, t, 1) for r in (3, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 17, 18, 20, 24) for t in (1, 2, 3)]
    s.bounds = 'symbolic: 8 bytes of pwd and 8 of salt; (R,T,C) in ' + str(rs)
    mask = [L(32, 8, 8, t, r, c) for r, t, c in rs]; mod = [J('eq', 'lyra2', 's_lyra2m', 'rel', k=32, p=8, s=8, t=t, r=r, c=c) for r, t, c in rs]
    s.sym(mask + mod)
    found = 0
    for a, b in zip(mask, mod):
        okm = [x for x in (a, b) if x.res['verdict'] == 'equal' and (x.res.get('cert') or {}).get('failed') == 0]
        if b in okm: b.ok = a.ok = True; continue                # modulo: the property itself
        if a in okm:                                             # exactly the recorded deviation, for every content
            a.ok = b.ok = True
            line = a.native(b.res['cands'][0] if b.res.get('cands') else {})
            m, q = s.call(line.replace('lyra2 ', 'lyra2m ', 1), 'rel'), s.call(line, 'rel')
            if m[0] != m[1] and q[0] == q[1]: found += 1
            continue
        s.settle([a])                                            # neither: a new violation if it replays
    if found: s.finding('rows-mask', F_ROWS + ' (%d of %d row counts tried; deviation is exactly the mask for every content)' % (found, len(rs)), {'call': line, 'got': q[0], 'expected': m[1]})
    s.probe([L(32, 8, 8, 2, 5, 2, 'probe', sym='r'), L(32, 8, 8, 2, 6, 2, 'probe', sym='c'), L(32, 8, 8, 2, 7, 1, 'probe', sym='t'), L(40, 8, 8, 1, 6, 2, 'probe', sym='k'), L(40, 8, 8, 1, 5, 3, 'probe', sym='len')], rounds=2, cap=6)
    s.sweep(['lyra2']); s.hunt_open(['lyra2'])

F_TAIL = 'bytes of pwd/salt after the last whole 64-bit word are never absorbed: lyra2::lyra2::sum(b"abc") == lyra2::lyra2::sum(b"abd")'
def c06(s):
    jobs = [L(32, p, q, 1, 4, c, 'supp') for p, q, c in ((8, 8, 1), (16, 24, 1), (40, 8, 1), (0, 32, 1), (72, 0, 1), (64, 64, 2), (13, 21, 1), (5, 30, 1), (130, 70, 2), (200, 200, 4))]
    jobs += [L(32, 8, 8, 2, 4, 2, 'supp'), L(32, 16, 8, 1, 8, 1, 'supp'), L(8, 8, 16, 1, 4, 1, 'supp'), L(1, 8, 8, 1, 4, 1, 'supp') if False else L(16, 8, 8, 1, 4, 1, 'supp')]
    jobs += [H('sum', n, 'supp') for n in (8, 19, 32, 80)] + [H(f, n, 'supp') for f in ('re', 'rev2', 'rev3', 'z') for n in ((80,) if not s.thorough else (1, 32, 55, 56, 64, 80, 120, 128, 180))]
    if s.thorough: jobs += [L(32, p, q, 1, 4, 4, 'supp') for p in (0, 8, 24, 48, 80, 111, 160) for q in (0, 8, 31, 64, 96)]
    s.bounds = 'all input bytes symbolic for ' + ', '.join(j.name() for j in jobs)
    for j in jobs: j.weight = cost(j) * 2
    tail = 0
    def each(j):
        nonlocal tail
        r = j.res; j.ok = r['verdict'] == 'done' and r.get('cert') and r['cert']['failed'] == 0
        if r['verdict'] != 'done': s.open.append(j); return
        for kind in ('dead', 'open'):
            for b, i in r[kind]:
                if j.f in ('lyra2', 'sum') and i >= j.cfg[b] // 8 * 8:
                    if kind == 'dead': tail += 1
                    continue
                j.ok = False
                if not s.viol and not influence(s, j, b, i) and j not in s.open: s.open.append(j)
    s.sym(jobs, None, each)
    # one native witness of the finding
    a, b = s.call('sum ' + b'abc'.hex(), 'rel'), s.call('sum ' + b'abd'.hex(), 'rel')
    if tail and a[0] == b[0]: s.finding('tail-bytes', F_TAIL + ' (%d such bytes in the encodings of this run)' % tail, {'pair': True, 'call': 'sum 616263', 'other': 'sum 616264', 'got': a[0]})
    # a bit that is ignored only for some contents or sizes: wherever the code departs from the reference (solver models),
    # the neighbours of that input are tried on the real code
    lines = []
    def near(line, why):
        if line not in s.nreplayed and feasible_native(line) and len(line) < 1 << 17: s.nreplayed.add(line); lines.append(line)
        return False
    keep, s.confirm, s.judge = s.confirm, near, lambda line, r: True
    if not s.viol:
        eqs = [L(*c) for c in ((32, 8, 8, 1, 4, 1), (32, 72, 64, 1, 4, 2), (32, 200, 136, 1, 4, 2), (16, 24, 40, 2, 4, 1))] + [L(32, 40, 24, 1, 4, 1, ir='dev')] + [H('sum', n) for n in (16, 80)] + [H(f, n) for f in ('re', 'rev2', 'rev3', 'z') for n in (80, 33)]
        s.bounds += '; equality with the reference for ' + ', '.join(j.name() for j in eqs)
        s.decide(eqs)
        s.probe(LYRA_PROBES() + [L(32, 40, 40, 1, 4, 4, 'probe', sym='len')] + [H(f, 80, 'probe') for f in ('re', 'rev2', 'rev3', 'z', 'sum')], rounds=2, cap=8, follow=False)
    s.confirm = keep
    def flips(ls, secs):
        for prof in ('rel', 'dev'):
            if s.viol or not ls: return
            rc, o = s.nat(prof, ['flip', str(SEED), str(secs), str(NCPU)], '\n'.join(ls) + '\n', 150 + secs); s.count('single_bit_changes', o)
            for l in o:
                if l.startswith('SAME'):
                    x, y = l[5:].split(' | '); pair(s, x, y, prof, 'ignored input bit, near a solver-made input')
    log(len(lines), 'solver-made inputs: every neighbour'); s.notes.append('%d solver-made inputs had every single-bit neighbour compared natively' % len(lines))
    def work(l):
        w = l.split(); return len(l) * ((int(w[4]) + 1) * int(w[5]) * int(w[6]) if len(w) > 2 else 600)
    lines.sort(key=work); tot, pick = 0, []
    for l in lines:
        tot += work(l)
        if tot > 6e7: break
        pick.append(l)
    flips(pick, 0)
    new = sorted({(c['p.len'], c.get('s.len', j.cfg.get('s', 0)), j.f) for j in s.jobs if j.kind == 'probe' for c in (j.res or {}).get('flips', []) if 'p.len' in c})
    new = [L(32, p, q, 1, 4, max(1, (p + q + 128) // 384 + 1), 'supp') if f == 'lyra2' else H(f, p, 'supp') for p, q, f in new if p + q < 700]
    done = {j.name() for j in s.jobs}
    if not s.viol: s.sym(sorted([j for j in new if j.name() not in done], key=cost)[:10], 90, each)
    if s.open: flips([j.native({}) for j in s.open][:40], 25)
    for prof in ('rel', 'dev'):
        rc, o = s.nat(prof, ['bits', str(SEED), 'lyra2', 'sum', 're', 'rev2', 'rev3', 'z'], None, 200)
        s.count('single_bit_changes', o)
        for l in o:
            if l.startswith('SAME'):
                x, y = l[5:].split(' | '); pair(s, x, y, prof, 'native single-bit sweep')
def pair(s, x, y, prof, why):
    a, b = s.call(x, prof), s.call(y, prof)
    if a[0] == b[0] and a[0] not in ('PANIC', 'HANG', 'CRASH'):
        s.violation('%s: same result for %s and %s' % (why, x[:200], y[:200]), {'call': x, 'other': y, 'got': a[0], 'profile': prof, 'pair': True}); return True
    return False
def influence(s, j, b, i):
    """a byte (or bit) the encoding says is ignored: two real calls that differ only there"""
    for t in range(6):
        p = {n: bytearray(content(j.cfg[n], n + str(t))) for n in ('p', 's') if n in j.cfg}
        q = {n: bytearray(v) for n, v in p.items()}
        for bit in range(8):
            q[b][i] = p[b][i] ^ (1 << bit)
            f = lambda d: j.native({n: v.hex() for n, v in d.items()})
            if pair(s, f(p), f(q), 'rel' if j.ir == 'rel' else 'dev', 'ignored input bit'): return True
    return False

def c07(s):
    jobs = []
    for ir in ('rel', 'dev'):
        for sym, cf in (('k', (40, 8, 16, 1, 4, 1)), ('t', (32, 8, 8, 2, 4, 1)), ('len', (32, 16, 8, 1, 4, 1)), ('r', (32, 8, 8, 1, 4, 2)), ('c', (32, 8, 8, 1, 4, 2)), ('k+t+len', (32, 8, 8, 2, 4, 2)), ('len', (32, 77, 61, 1, 4, 4)), ('k', (200, 8, 8, 1, 4, 1)), ('r', (32, 8, 8, 1, 5, 1))):
            if ir == 'dev' and cf[0] != 32: continue
            jobs.append(L(*cf, kind='scout', ir=ir, sym=sym))
    if s.thorough:
        for sym in ('k', 't', 'len', 'r', 'c', 'k+t+len'):
            for cf in ((32, 8, 8, 1, 4, 1), (64, 40, 8, 3, 4, 2), (97, 0, 0, 1, 8, 1), (1, 64, 80, 1, 8, 2), (32, 16, 16, 2, 16, 1), (32, 8, 8, 2, 3, 1)): jobs.append(L(*cf, kind='scout', sym=sym))
    s.bounds = 'parameters named in each obligation are free 64-bit variables along the control path of the listed values: ' + ', '.join(j.name() for j in jobs)
    s.decide(jobs)
    s.probe(LYRA_PROBES(), rounds=2, cap=6, follow=False)
    s.sweep(['lyra2']); s.hunt_open(['lyra2'])

def c08(s):
    ls = [0, 1, 7, 8, 9, 16, 31, 32, 33, 64, 80, 100, 128, 200, 256, 300, 800] if not s.thorough else list(range(0, 140)) + list(range(140, 760, 20)) + [728, 743, 744, 745, 751, 752, 760, 800]
    s.bounds = 'symbolic: every byte of the input; lengths ' + str(ls) + '; plus solver-made lengths'
    s.settle2 = None
    s.judge = lambda line, r: r[0] != r[1]
    jobs = [H('sum', n, spec='i_sumdef') for n in ls] + [H('sum', n, spec='i_sumdef', ir='dev') for n in (0, 8, 32, 80)]
    for j in jobs: j.native = (lambda j: lambda cand, f=None: 'sumdef ' + (cand.get('p') if cand.get('p.len') in (None, j.cfg['p']) else content(cand['p.len'], 'p').hex()) if cand.get('p') or cand.get('p.len') else 'sumdef ' + (content(j.cfg['p'], 'p').hex() or '-'))(j)
    s.decide(jobs)
    pr = [H('sum', n, 'probe', spec='i_sumdef') for n in (8, 80)]
    for j in pr: j.native = lambda cand, f=None: 'sumdef ' + (content(cand.get('p.len', 8), 'p').hex() or '-')
    s.probe(pr, rounds=1, follow=False)
    for prof in ('rel', 'dev'):
        rc, o = s.nat(prof, ['grid', str(SEED), str(NCPU), '1', '40', 'sumdef'], None, 100); s.count('sweep', o)
        for l in o:
            if l.startswith(('DIFF', 'HANG')): s.confirm(l.split(' ', 1)[1], 'native sweep')
    flips = sorted({c['p.len'] for j in pr for c in (j.res or {}).get('flips', []) if 'p.len' in c and c['p.len'] < 400} - set(ls))[:6]
    more = [H('sum', n, spec='i_sumdef') for n in flips]
    for j in more: j.native = (lambda j: lambda cand, f=None: 'sumdef ' + (cand.get('p') or content(j.cfg['p'], 'p').hex() or '-'))(j)
    s.decide(more); s.hunt_open(['sumdef'])

def chain(f):
    def run(s):
        ls = [80, 0, 1, 32, 55, 56, 64, 119, 128]
        if s.thorough: ls = [80] + list(range(0, 140)) + [180, 192, 247, 248, 256, 300]
        s.bounds = 'symbolic: every byte of the input; lengths ' + str(ls) + '; plus solver-made lengths'
        jobs = [H(f, n) for n in ls] + [H(f, n, ir='dev') for n in (80, 33)]
        s.decide(jobs)
        s.probe([H(f, n, 'probe') for n in (80, 8)], rounds=1, follow=False)
        fl = sorted({c['p.len'] for j in s.jobs if j.kind == 'probe' for c in (j.res or {}).get('flips', []) if c.get('p.len', 9999) < 300} - set(ls))[:6]
        if fl and not s.viol: s.decide([H(f, n) for n in fl])
        s.sweep([f]); s.hunt_open([f])
    return run

def stage(f):
    def run(s):
        s.bounds = 'symbolic: all 32 input bytes (the only length the chains use); no other bound'
        if not s.bt.hooks: s.notes.append('hooks not available: nothing decided'); return
        s.decide([H(f, 32), H(f, 32, ir='dev')])
        s.sweep([f]); s.hunt_open([f])
    return run

def c16(s):
    fs = ['re', 'rev2', 'rev3', 'z']
    ls = [0, 1, 55, 56, 63, 64, 65, 80, 120, 128, 200] if not s.thorough else list(range(0, 200)) + [247, 248, 255, 256, 300, 400]
    s.bounds = 'symbolic: every byte of the input; lengths %s for each of %s' % (ls, fs)
    s.judge = lambda line, r: r[0] in ('PANIC', 'HANG', 'CRASH') or len(r[0]) != 64
    jobs = [H(f, n, 'tot', ir=('dev' if i % 3 == 0 else 'rel')) for f in fs for i, n in enumerate(ls) if s.thorough or n in (0, 80) or (i + fs.index(f)) % 2 == 0]
    s.decide(jobs)
    s.probe([H(f, 80, 'probe', ir='dev') for f in fs], rounds=1, follow=False)
    fl = sorted({(j.f, c['p.len']) for j in s.jobs if j.kind == 'probe' for c in (j.res or {}).get('flips', []) if c.get('p.len', 9999) < 300} - {(j.f, j.cfg['p']) for j in jobs})[:8]
    if fl and not s.viol: s.decide([H(f, n, 'tot', ir='dev') for f, n in fl])
    s.sweep(fs); s.hunt_open(fs)

def c17(s):
    mk = {'lyra2': lambda ir='rel': L(32, 8, 8, 1, 4, 1, 'eq', ir), 'lyra2b': lambda ir='rel': L(40, 16, 8, 2, 4, 2, 'eq', ir)}
    for f in ('re', 'rev2', 'rev3', 'z', 'sum'): mk[f] = lambda ir='rel', f=f: H(f, 16 if f != 'sum' else 8, 'eq', ir)
    pairs = [('lyra2', 'lyra2'), ('lyra2', 'lyra2b'), ('lyra2b', 'lyra2'), ('sum', 'lyra2'), ('rev3', 'rev3'), ('z', 'z'), ('re', 're'), ('rev2', 'rev2'), ('lyra2', 'sum'), ('z', 're'), ('rev2', 'z'), ('rev3', 'rev2'), ('re', 'rev3'), ('rev2', 'lyra2')]
    if s.thorough: pairs = [(a, b) for a in mk for b in mk]
    bad1 = {'t0': L(32, 8, 8, 0, 4, 1), 'r2': L(32, 8, 8, 1, 2, 1), 'full': L(32, 300, 8, 1, 3, 1)}
    pairs += [('t0', 'lyra2'), ('r2', 'sum'), ('full', 'lyra2b'), ('full', 'z')]
    if s.thorough: pairs += [(a, b) for a in bad1 for b in mk]
    jobs = []
    for a, b in pairs:
        t = mk[b](); j = J('seq', t.f, None, 'rel', **t.cfg); j.cfg['first'] = bad1[a] if a in bad1 else mk[a](); j.cfg['after'] = a; j.weight = cost(j) + 2 * cost(j.cfg['first']); jobs.append(j)
    s.bounds = 'symbolic: the contents of both calls; pairs ' + str(pairs) + '; any global memory that two calls of the first leave different is replaced by arbitrary bytes'
    fs = ['lyra2', 'sum', 're', 'rev2', 'rev3', 'z'] + (['cube', 'bmw', 'modsum'] if s.bt.hooks else [])
    bad = []
    def each(j):
        j.ok = j.res['verdict'] == 'equal' and (j.res.get('cert') or {}).get('failed') == 0 and not j.res.get('env')
        if j.res.get('env'): j.res['notes'].append('reads its environment: %s' % j.res['env'])
        if not j.ok: bad.append(j); s.open.append(j)
    s.sym(jobs, None, each)
    # parameters that take other branches, made by the solver: the calls whose histories are looked at
    shapes = {j.native({}) for j in jobs} | {j.cfg['first'].native({}) for j in jobs}
    keep, s.confirm = s.confirm, lambda line, why: shapes.add(line) if feasible_native(line) and len(line) < 1 << 15 else None
    s.probe(LYRA_PROBES() + [H(f, 80, 'probe') for f in ('re', 'rev2', 'rev3', 'z', 'sum')], rounds=1, follow=False)
    s.confirm = keep
    def work(l):
        w = l.split(); return len(l) + ((int(w[4]) + 1) * int(w[5]) * int(w[6]) * 8 if len(w) > 2 else 600)
    shapes = [l for l in sorted(shapes, key=work) if work(l) < 400000][:300]
    names = sorted({e[7:] for j in jobs for e in j.res.get('env', []) if e.startswith('getenv:') and len(e) > 7} - {'RUST_BACKTRACE', 'RUST_LIB_BACKTRACE'})
    if names: environ(s, names[:8], shapes)
    # what the allocator hands out is arbitrary in the encoding; on the machine it is filled with a pattern
    environ(s, ['MALLOC_PERTURB_'], shapes, ('85', '170', '1'))
    hist(s, fs, 6 if not bad else 20, shapes)
    for prof in ('rel', 'dev'):
        if s.viol: break
        pick = [l for l in shapes if work(l) < 20000]
        for grp in [pick] + ([[j.native({}), j.cfg['first'].native({}), j.native({'p': content(j.cfg['p'], 'other').hex()})] for j in bad[:6]] if bad else []):
            rc, o = s.nat(prof, ['race', '4', str(NCPU)], '\n'.join(grp) + '\n', 60); s.count('concurrent_calls', o)
            d = [l[5:] for l in o if l.startswith('DIFF')]
            if d and fresh_ok(s, d[0], prof): s.violation('concurrent calls: %s gives another result than alone' % d[0][:200], {'call': d[0], 'concurrently_with': grp[:20], 'profile': prof}); break
    if bad and not s.viol:
        for j in bad[:6]:
            for f in {j.f, j.cfg['first'].f}:
                line = (j if f == j.f else j.cfg['first']).native({})
                loops(s, line, 300000)
    elif not s.viol:
        for f in ('lyra2 32 %s %s 1 4 1' % (content(8, 'p').hex(), content(8, 's').hex()), 'z ' + content(80, 'p').hex(), 'rev3 ' + content(80, 'p').hex()): loops(s, f, 20000)
def environ(s, names, lines, vals=None):
    """environment variables the encoding reads: set each and compare"""
    vals = vals or ['1', '0', '', 'true', 'false', 'on', 'off', 'yes', 'no', 'debug', '2', '3', '4', '8', '16', '64', '256', '-1', '18446744073709551615', 'x', 'fast', 'legacy', 'test', 'mask', 'v1', 'v2', 'v3']
    lines = sorted(set(lines) | {'%s %s' % (f, content(80, 'p').hex()) for f in ('re', 'rev2', 'rev3', 'z', 'sum')} | {'lyra2 100 %s %s 2 8 2' % (content(40, 'p').hex(), content(24, 's').hex())})
    for n in names:
        for v in vals:
            for prof in ('rel', 'dev'):
                rc, o = s.nat(prof, ['call'], '\n'.join(lines) + '\n', 60, {n: v}); s.replays += len(o)
                for line, l in zip(lines, o):
                    r = tuple(l.split())
                    if len(r) == 2 and not s.agrees(line, r) and fresh_ok(s, line, prof):
                        one = s.call(line, prof, env={n: v})
                        if s.agrees(line, one): s.violation('%s gives another result after other calls in the same process' % line[:200], {'call': line, 'history': lines[:lines.index(line)][-40:], 'environment': {n: v}, 'got': r[0], 'expected': r[1], 'profile': prof}); return
                        s.violation('%s gives another result with %s=%r in the environment' % (line[:200], n, v), {'call': line, 'environment': {n: v}, 'got': r[0], 'expected': r[1], 'profile': prof}); return
def fresh_ok(s, line, prof): r = s.call(line, prof); return s.agrees(line, r)
def hist(s, fs, secs, shapes=()):
    for prof in ('rel', 'dev'):
        if s.viol: return
        for th in (1, NCPU):
            rc, o = s.nat(prof, ['histfuzz', str(SEED), str(secs), str(th)] + fs, '\n'.join(shapes) + '\n', secs + 60, {'SHAPES': '1'}); s.count('histories_calls', o)
            calls = [l[5:] for l in o if l.startswith('CALL ')]
            if any(l.startswith('DIFF') for l in o) and calls and fresh_ok(s, calls[-1], prof):
                n = [l for l in o if l.startswith('DIFF')][0].split()[1]
                s.violation('after a history of %s calls (%d threads), %s no longer gives what it gives in a fresh process' % (n, th, calls[-1][:200]), {'history_tail': calls, 'profile': prof, 'replay_cmd': ['histfuzz', str(SEED), str(secs), str(th)] + fs}); return
def loops(s, line, n):
    for prof in ('rel', 'dev'):
        rc, o = s.nat(prof, ['loop', str(n)] + line.split(), None, 60); s.native_runs['repeated_calls'] = s.native_runs.get('repeated_calls', 0) + (n if rc == 0 else 0)
        d = [l for l in o if l.startswith('DIFF')]
        if d and int(d[0].split()[1]) > 0 and fresh_ok(s, line, prof):
            s.violation('call number %s of the same call %s gives another result' % (d[0].split()[1], line[:200]), {'call': line, 'repeat': d[0], 'profile': prof}); return

def c18(s):
    cf = [(32, 8, 8, 1, 4, 4), (32, 16, 40, 2, 4, 1), (100, 8, 8, 1, 8, 1), (32, 13, 70, 1, 4, 2), (32, 8, 8, 2, 5, 1), (32, 8, 8, 0, 4, 1), (32, 8, 8, 1, 2, 1), (32, 200, 80, 1, 4, 1)]
    mk = lambda ir: [L(*c, ir=ir) for c in cf] + [H(f, 80, ir=ir) for f in ('re', 'rev2', 'rev3', 'z')] + [H('sum', n, ir=ir) for n in (8, 32)] + ([H(f, 32, ir=ir) for f in ('cube', 'bmw', 'modsum')] if s.bt.hooks else [])
    if s.thorough: cf += [(32, p, q, t, r, c) for p, q in ((8, 24), (64, 64)) for t in (1, 2, 3) for r in (3, 4, 8, 16) for c in (1, 2, 4) if r * c * t < 64]
    s.bounds = 'symbolic: every input byte; both profiles (overflow checks and debug assertions on / off) against the same reference: ' + ', '.join(j.name() for j in mk('rel'))
    def confirm(line, why):
        if line in s.nreplayed or not feasible_native(line): return False
        s.nreplayed.add(line)
        a, b = s.call(line, 'rel'), s.call(line, 'dev')
        if a[0] != b[0]:
            s.violation('%s: %s gives %s in a release build and %s in a development build' % (why, line[:300], a[0][:130], b[0][:130]), {'call': line, 'release': a[0], 'dev': b[0], 'expected': a[1]}); return True
        return False
    s.confirm = confirm
    s.judge = lambda line, r: False
    R, D = mk('rel'), mk('dev')
    s.decide(R + D)
    # obligations where both profiles differ from the reference in the same way are not this property's business
    s.probe(LYRA_PROBES(('rel', 'dev')) + [H(f, 80, 'probe', ir=ir) for f in ('re', 'rev2', 'rev3', 'z', 'sum') for ir in ('rel', 'dev')], rounds=1, follow=False)
    fs = ['lyra2', 'sum', 're', 'rev2', 'rev3', 'z'] + (['cube', 'bmw', 'modsum'] if s.bt.hooks else [])
    outs = {}
    def d(p): outs[p] = s.nat(p, ['dump', str(SEED), '3' if not s.thorough else '1'] + fs, None, 300)[1]
    t = [threading.Thread(target=d, args=(p,)) for p in ('rel', 'dev')]
    for x in t: x.start()
    for x in t: x.join()
    s.native_runs['profile_pairs'] = min(len(outs['rel']), len(outs['dev']))
    for x, y in zip(outs['rel'], outs['dev']):
        if x != y:
            l = (x if x.startswith('OUT') else y).split(' ', 1)[1].split(' = ')[0]
            if confirm(l, 'native comparison of both builds'): break
    # a rejected candidate (no profile difference) leaves the obligation undecided only if both sides are unequal to the reference
    if s.open and not s.viol:
        for prof in ('rel', 'dev'):
            rc, o = s.nat(prof, ['rand', str(SEED), '8', str(NCPU)] + fs, None, 60); s.count('search', o)
            for l in o:
                if l.startswith(('DIFF', 'HANG')): confirm(l.split(' ', 1)[1], 'differential search')

def c19(s):
    cf = [(32, 8, 8, 1, 4, 4), (32, 0, 0, 1, 3, 1), (200, 24, 40, 2, 4, 2), (0, 8, 8, 1, 4, 1), (97, 13, 21, 1, 5, 1), (32, 8, 8, 3, 6, 2), (32, 88, 8, 1, 8, 1), (7, 8, 16, 2, 7, 1), (32, 300, 100, 1, 4, 1), (32, 310, 10, 1, 4, 1), (32, 8, 8, 0, 4, 1), (32, 8, 8, 1, 2, 1), (32, 8, 8, 1, 4, 0), (32, 8, 8, 1, 16, 1), (32, 500, 8, 1, 3, 1), (32, 8, 8, 4, 4, 1)]
    if s.thorough: cf += [(k, p, q, t, r, c) for k in (1, 32, 96, 193) for p, q in ((0, 0), (8, 24), (70, 70)) for t in (1, 2) for r in (3, 4, 6, 8) for c in (1, 2, 3)]
    jobs = [L(*c, kind='safe', ir=ir) for c in cf for ir in ('rel', 'dev')] + [H(f, n, 'safe') for f in ('re', 'rev2', 'rev3', 'z') for n in (0, 55, 64, 80, 150)] + [H(f, 80, 'safe', 'dev') for f in ('re', 'rev2', 'rev3', 'z')] + [H('sum', n, 'safe') for n in (0, 9, 80, 800)]
    s.bounds = 'symbolic: every input byte; ' + ', '.join(j.name() for j in jobs)
    def vg(lines, prof, why, secs=200):
        """the real code under valgrind; lines are run in one process"""
        lines = [l for l in lines if feasible_native(l)]
        if not lines or s.viol: return False
        r = valgrind(s, lines, prof, secs)
        if r is None: return False
        # find the line
        for l in (lines if len(lines) < 9 else lines[r[1]:r[1] + 2] + lines[:8]):
            x = valgrind(s, [l], prof, 60)
            if x: s.violation('%s: %s: %s' % (why, l[:300], x[0]), {'call': l, 'profile': prof, 'memcheck': x[0], 'found_by': why}); return True
        s.violation('%s: memory error in a sequence of %d calls: %s' % (why, len(lines), r[0]), {'calls': lines[:r[1] + 1][-50:], 'profile': prof, 'memcheck': r[0]}); return True
    shapes = []
    def confirm(line, why):
        if line in s.nreplayed or not feasible_native(line): return False
        s.nreplayed.add(line)
        if 'counterexample' in why: return any(vg([line], prof, why, 90) for prof in ('rel', 'dev'))
        shapes.append(line); return False
    s.confirm, s.judge = confirm, lambda line, r: r[0] == 'CRASH'
    s.decide(jobs)
    s.probe(LYRA_PROBES() + [H(f, 80, 'probe') for f in ('re', 'rev2', 'rev3', 'z', 'sum')], rounds=2, cap=8, follow=False)
    def work(l):
        w = l.split(); return len(l) + ((int(w[4]) + 1) * int(w[5]) * int(w[6]) * 8 if len(w) > 2 else 600)
    for prof, lim in (('rel', 3e6), ('dev', 6e5)):
        pick, tot = [], 0
        for l in sorted(set(shapes) | {j.native({}) for j in jobs}, key=work):
            tot += work(l) + 500
            if tot < lim: pick.append(l)
        if not s.viol: s.native_runs['calls_under_memcheck'] = s.native_runs.get('calls_under_memcheck', 0) + len(pick)
        vg(pick, prof, 'solver-made parameters under memcheck')
    s.notes.append('%d calls with solver-made parameters' % len(shapes))
    # a crash of the machine code outside the bounds
    for prof in ('rel', 'dev'):
        if s.viol: break
        rc, o = s.nat(prof, ['grid', str(SEED), str(NCPU), '1', '30', 'lyra2', 'sum', 're', 'rev2', 'rev3', 'z'], None, 120); s.count('sweep', o)
        if isinstance(rc, int) and rc < 0 and rc != -9: s.violation('the native sweep died with signal %d' % -rc, {'profile': prof, 'replay_cmd': ['grid', str(SEED), str(NCPU), '1', '30', 'lyra2']})
def valgrind(s, lines, prof, secs):
    """(first error, number of calls answered) or None"""
    try: p = subprocess.run(['valgrind', '--partial-loads-ok=no', '--error-exitcode=99', '--exit-on-first-error=yes', '-q', '--num-callers=8', s.bt.native[prof], 'call'], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs)
    except (subprocess.TimeoutExpired, FileNotFoundError) as x: s.notes.append('memcheck: %s' % type(x).__name__); return None
    s.replays += len(lines)
    e = [l for l in p.stderr.splitlines() if any(m in l for m in ('Invalid read', 'Invalid write', 'Invalid free', 'uninitialised', 'overlap'))]
    if p.returncode == 99 and e: return (' / '.join(x.split('== ')[-1] for x in p.stderr.splitlines()[:6])[:400], len(p.stdout.splitlines()))
    if p.returncode < 0 and p.returncode != -9: return ('signal %d' % -p.returncode, len(p.stdout.splitlines()))
    return None

PROPS = {'C19': c19, 'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': chain('re'), 'C10': chain('rev2'), 'C11': chain('rev3'), 'C12': chain('z'),
         'C13': stage('cube'), 'C14': stage('bmw'), 'C15': stage('modsum'), 'C16': c16, 'C17': c17, 'C18': c18}
