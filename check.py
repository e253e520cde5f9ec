#!/usr/bin/env python3
"""Runs the solver-based check of one property.

check.py PROP [--tier quick|thorough] [--unit SUBSTR] [-v] [--keep]
exit 0: every unit complete, no violation; 1: violation (line printed); 2: no answer.
"""
import sys, os, json, subprocess, time, shutil, tempfile, threading, queue, re, hashlib
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, ROOT)
import units as U

SYMX = os.path.join(ROOT, 'build', 'symx')
CLANG = 'clang++-18'
TARGETS = {
    'avx2': ['-march=x86-64-v3'],
    'sse': ['-march=x86-64-v2'],
    'gen': ['-march=x86-64'],
    'neon': ['--target=aarch64-linux-gnu', '-march=armv8-a+crc+simd', '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/aarch64-linux-gnu/include'],
}
SAN_UB = ['-fsanitize=signed-integer-overflow,integer-divide-by-zero,array-bounds,shift-exponent,return,unreachable', '-fsanitize-trap=all']

def ensure_engine():
    if not os.path.exists(SYMX):
        r = subprocess.run(['make', '-s', '-j8', '-C', os.path.join(ROOT, 'engine')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(SYMX):
            print('engine build failed\n' + r.stdout[-2000:]); sys.exit(2)

def compile_bc(u, out):
    cmd = [CLANG] + TARGETS[u['target']] + ['-std=c++17', '-I' + REPO, '-I' + os.path.join(ROOT, 'harness'), '-fno-exceptions', '-fno-rtti',
          '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-w', '-ffp-contract=off',
          '-fno-discard-value-names', '-emit-llvm', '-c', '-O%s' % u['O']]
    if u['target'] != 'neon': cmd += ['-stdlib=libc++'] if U.LIBCXX else []
    if u['ub']: cmd += SAN_UB
    cmd += ['-D%s=%s' % kv for kv in u['defs'].items()]
    cmd += ['-o', out, os.path.join(ROOT, 'harness', u['src'])]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout, cmd

def native(u, out, flags):
    inc = ['-I' + REPO, '-I' + os.path.join(ROOT, 'harness')]
    tgt = TARGETS[u['target']]
    if u['target'] == 'neon':
        tgt = ['-march=x86-64', '-D__ARM_NEON=1', '-D__aarch64__=1', '-isystem', os.path.join(ROOT, 'harness', 'neonshim')]
    cmd = [CLANG] + tgt + ['-std=c++17', '-DSX_NATIVE'] + inc + ['-fno-exceptions', '-fno-rtti', '-w', '-g1', '-ffp-contract=off', '-DSX_NATIVE'] + flags
    cmd += ['-D%s=%s' % kv for kv in u['defs'].items()] + ['-o', out, os.path.join(ROOT, 'harness', u['src'])]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout, cmd

def replay(u, viol, work, tag):
    """(confirmed, description, files)"""
    inp = os.path.join(work, tag + '.in')
    with open(inp, 'w') as f:
        for seq, (w, val) in [(a, (b, c)) for a, b, c in viol['inputs']]: f.write('%d %d\n' % (seq, val))
    modes = [('asan', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=shift-base', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment']), ('plain', ['-O2'])]
    if viol['undef'] or viol['kind'] != 'assert': modes.insert(0, ('msan', ['-O1', '-fsanitize=memory', '-fsanitize-memory-track-origins']))
    if viol['undef']: modes += [('pattern', ['-O1', '-ftrivial-auto-var-init=pattern']), ('zero', ['-O1', '-ftrivial-auto-var-init=zero'])]
    log = ''
    for name, fl in modes:
        exe = os.path.join(work, tag + '.' + name)
        ok, txt, cmd = native(u, exe, fl)
        if not ok: log += '[%s] does not compile: %s\n' % (name, txt[-500:]); continue
        env = dict(os.environ, SX_INPUT=inp, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=0')
        try: r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, errors='replace', text=True); rc, o = r.returncode, r.stdout
        except subprocess.TimeoutExpired: rc, o = -99, 'timeout'
        log += '[%s] exit %d\n%s\n' % (name, rc, o[:3000])
        try: os.unlink(exe)
        except OSError: pass
        if rc == 77: return False, log
        if rc: return True, log
    return False, log

def run_unit(u, work, verbose, deadline):
    t0 = time.time(); tag = re.sub(r'[^A-Za-z0-9_.-]', '_', u['name'])
    bc = os.path.join(work, tag + '.bc'); outj = os.path.join(work, tag + '.json')
    rc, txt, cmd = compile_bc(u, bc)
    if rc: return dict(code=4, why='harness does not compile: ' + txt[-1500:], violations=[], time=time.time() - t0)
    tmp = os.path.join(work, tag + '.tmp'); os.makedirs(tmp, exist_ok=True)
    left = max(5, min(u['time'], deadline - time.time()))
    ecmd = [SYMX, bc, '-o', outj, '--entry', 'harness', '--src', os.path.realpath(REPO) + '/', '--tmp', tmp, '--time', str(left), '--portfolio', str(u['portfolio']), '--ext-timeout', str(min(u['ext'], left)), '--budget', str(u['budget'])] + u['opts']
    if u['tt'] is not None: ecmd += ['--tt', str(u['tt'])]
    if verbose: ecmd.append('-v'); print(' '.join(ecmd), file=sys.stderr)
    try:
        r = subprocess.run(ecmd, stdout=subprocess.PIPE, stderr=None if verbose else subprocess.STDOUT, timeout=left + 60, text=True, errors='replace')
        rc, log = r.returncode, r.stdout
    except subprocess.TimeoutExpired: rc, log = -9, 'timeout'
    try: j = json.load(open(outj))
    except Exception: j = dict(code=4, why='engine ended with %d: %s' % (rc, (log or '')[-500:]), violations=[], time=time.time() - t0)
    shutil.rmtree(tmp, ignore_errors=True)
    j['wall'] = time.time() - t0
    if j['code'] == 0:
        miss = [l for l in u['reach'] if not j['reached'].get(l)]
        if miss: j['code'] = 5; j['why'] = 'not reached: ' + ', '.join(miss)
        elif not j['asserts'] and not u['noassert']: j['code'] = 5; j['why'] = 'no assertion was evaluated'
    return j

def load_known(prop):
    res = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding:\s+property=(\S+)\s+unit=(\S+)\s+kind=(\S+)\s+match=/(.*)/\s+::\s*(.*)', l.strip())
            if m and m.group(1) == prop: res.append(dict(unit=m.group(2), kind=m.group(3), match=m.group(4), text=m.group(5)))
    return res

def main():
    args = sys.argv[1:]; prop = args[0]; tier = os.environ.get('VERIF_TIER', 'quick'); sel = None; verbose = False; keep = False
    i = 1
    while i < len(args):
        if args[i] == '--tier': tier = args[i + 1]; i += 1
        elif args[i] == '--unit': sel = args[i + 1]; i += 1
        elif args[i] == '-v': verbose = True
        elif args[i] == '--keep': keep = True
        i += 1
    t0 = time.time(); ensure_engine()
    us = [u for u in U.units(prop, tier) if not sel or sel in u['name']]
    if not us: print('no units for', prop); sys.exit(2)
    limit = 840 if tier == 'quick' else 6 * 3600
    deadline = t0 + limit
    outdir = os.path.join(ROOT, 'out', prop); os.makedirs(outdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix='sx-%s-' % prop)
    res = {}; lock = threading.Lock(); q = sorted(us, key=lambda u: -u['cost'])
    def worker():
        while True:
            with lock:
                if not q: return
                u = q.pop(0)
            if time.time() > deadline - 5: j = dict(code=4, why='no time left', violations=[], time=0, wall=0)
            else: j = run_unit(u, work, verbose, deadline)
            with lock:
                res[u['name']] = (u, j)
                print('  %-44s %s %.1fs paths=%s asserts=%s queries=%s %s' % (u['name'], {0: 'ok', 1: 'VIOLATED'}.get(j['code'], 'NO ANSWER'), j.get('wall', 0), j.get('paths'), j.get('asserts'), j.get('solver', {}).get('queries'), '' if j['code'] in (0,) else j.get('why', '')), flush=True)
    jobs = int(os.environ.get('SX_JOBS', '8'))
    th = [threading.Thread(target=worker) for _ in range(min(jobs, len(q)))]
    [t.start() for t in th]; [t.join() for t in th]
    known = load_known(prop); confirmed = []; spurious = []; knownhit = {}; nrep = 0
    for name in sorted(res):
        u, j = res[name]
        for k, v in enumerate(j['violations']):
            kf = [x for x in known if (x['unit'] == '*' or x['unit'] in name) and (x['kind'] == '*' or x['kind'] == v['kind']) and re.search(x['match'], v['msg'] + ' @ ' + v['where'])]
            if kf: knownhit[kf[0]['text']] = knownhit.get(kf[0]['text'], 0) + 1; continue
            if len(confirmed) >= 3 or nrep > 6: continue
            nrep += 1
            tag = re.sub(r'[^A-Za-z0-9_.-]', '_', name) + '.%d' % k
            ok, log = replay(u, v, work, tag)
            path = os.path.join(outdir, tag + '.txt')
            with open(path, 'w') as f:
                f.write('property %s, unit %s\n%s: %s\nat: %s\n' % (prop, name, v['kind'], v['msg'], v['where']))
                f.write('harness: harness/%s %s target=%s\ninputs (sequence width value):\n' % (u['src'], ' '.join('-D%s=%s' % kv for kv in u['defs'].items()), u['target']))
                for a in v['inputs']: f.write('%d %d %d\n' % tuple(a))
                f.write('replay %s:\n%s\n' % ('CONFIRMED' if ok else 'NOT CONFIRMED', log))
            (confirmed if ok else spurious).append((name, v, path))
    bad = [n for n, (u, j) in res.items() if j['code'] not in (0, 1)]
    # a unit whose only violations are known findings was stopped or continued past them: complete unless cut short
    for n, (u, j) in res.items():
        if j['code'] == 1 and j['why'] != 'violations' and not any(c[0] == n for c in confirmed): bad.append(n)
    ev = evidence(prop, tier, res, confirmed, spurious, knownhit, bad, time.time() - t0)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if not keep: shutil.rmtree(work, ignore_errors=True)
    for t in sorted(knownhit): print('KNOWN-FINDING: property=%s %s' % (prop, t))
    for n, v, p in confirmed:
        print('violation in %s: %s: %s at %s' % (n, v['kind'], v['msg'], v['where'][:200]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    if confirmed: sys.exit(1)
    for n, v, p in spurious: print('counterexample of %s did not replay (%s: %s), see %s' % (n, v['kind'], v['msg'], p))
    if bad or spurious: print('NO ANSWER: ' + ', '.join(sorted(set(bad)) + [s[0] for s in spurious])); sys.exit(2)
    print('%s %s: %d units hold, %.0f s' % (prop, tier, len(res), time.time() - t0)); sys.exit(0)

def evidence(prop, tier, res, confirmed, spurious, knownhit, bad, wall):
    fn = set(); lines = {}; S = {}; tot = dict(paths=0, asserts=0, by_norm=0, by_solver=0, mem=0, inst=0, merges=0, forks=0, exprs=0)
    ul = []
    for n in sorted(res):
        u, j = res[n]; s = j.get('solver', {})
        fn |= set(j.get('functions', []))
        for k, v in j.get('lines', {}).items(): lines.setdefault(k, set()).update(v)
        for k in ('queries', 'by_simplification', 'by_minisat', 'by_portfolio', 'sat', 'unsat', 'undecided', 'time', 'portfolio_time', 'cross_checked'): S[k] = S.get(k, 0) + s.get(k, 0)
        tot['paths'] += j.get('paths', 0); tot['asserts'] += j.get('asserts', 0); tot['by_norm'] += j.get('asserts_by_normalisation', 0); tot['by_solver'] += j.get('asserts_by_solver', 0); tot['mem'] += j.get('memory_checks', 0); tot['inst'] += j.get('instructions', 0)
        ul.append(dict(unit=n, bounds=u['bounds'], target=u['target'], status={0: 'holds', 1: 'violated'}.get(j['code'], 'no answer: ' + j.get('why', '')), paths=j.get('paths', 0), symbolic_bits=j.get('bits', 0), assertions=j.get('asserts', 0), queries=s.get('queries', 0), solver_s=round(s.get('time', 0), 2), wall_s=round(j.get('wall', 0), 2), reached=j.get('reached', {})))
    info = U.PROPS[prop]
    return dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=info['level'],
        coverage=dict(explanation=info['note'] + ' Deciding step: symbolic execution of the LLVM IR compiled from /repo on this run; every assertion is decided by canonical-form reasoning or SAT/SMT over all values of the symbolic inputs.', measured=dict(units=ul, functions_encoded=sorted(fn), lines_encoded={k: len(v) for k, v in lines.items()}, paths=tot['paths'], assertions=tot['asserts'], assertions_decided_by_normalisation=tot['by_norm'], assertions_decided_by_solver=tot['by_solver'], memory_bound_checks=tot['mem'], instructions_executed=tot['inst'], solver=S, known_findings=knownhit, violations_found=[dict(unit=n, kind=v['kind'], message=v['msg'], where=v['where'], replay=p) for n, v, p in confirmed], unconfirmed=[s[2] for s in spurious], no_answer=sorted(set(bad)))),
        assumptions=info['assumptions'], wall_s=round(wall, 2), violations=len(confirmed))
main()
