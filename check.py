#!/usr/bin/env python3
# Usage: check.py ID [--tier quick|thorough] ; decides one property with the symbolic engine (see DESIGN.md).
import sys, os, json, subprocess, hashlib, shutil, time, glob, re, tempfile, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get('KS_REPO', '/repo')
NCPU = int(os.environ.get('KS_CPU', os.cpu_count() or 8))
CL = 'clang++-18'
T0 = time.time()
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
def die(msg, code=2): print('ERROR', msg); sys.exit(code)
sys.path.insert(0, os.path.join(V, 'checks'))

def digest(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]
def repo_sources():
    r = []
    for d, ds, fs in os.walk(R + '/kanon'):
        ds.sort()
        if any(x in d for x in ('/win', '/protobuf', '/rpc')): continue
        for f in sorted(fs):
            if f.endswith('.cc'): r.append(os.path.join(d, f))
    return r
def header_digest():
    hs = []
    for top in ('kanon', 'third-party/xxHash', 'example'):
        for d, ds, fs in os.walk(R + '/' + top):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.inl', '.inl.h', '.hpp', '.tcc')): hs.append(os.path.join(d, f))
    return digest(*hs)
CACHE = os.path.join(V, 'build', 'cache'); os.makedirs(CACHE, exist_ok=True)
HD = None
def cached(key, ext, make):
    out = os.path.join(CACHE, key + ext)
    if not os.path.exists(out):
        tmp = out + '.%d.%d' % (os.getpid(), id(make)) 
        r = make(tmp)
        if r.returncode != 0: return None, r.stdout
        os.replace(tmp, out)
    return out, ''
def build_engine():
    src = sorted(glob.glob(V + '/engine/*.cc') + glob.glob(V + '/engine/*.h')); d = digest(*src); exe = os.path.join(V, 'build', 'ksym-' + d)
    if not os.path.exists(exe):
        t = tempfile.mkdtemp(prefix='ksymb'); r = sh([V + '/engine/build.sh', t])
        if r.returncode: die('engine build failed\n' + r.stdout)
        for o in glob.glob(V + '/build/ksym-*'):
            try: os.remove(o)
            except OSError: pass
        shutil.copy(t + '/ksym', exe + '.tmp%d' % os.getpid()); os.replace(exe + '.tmp%d' % os.getpid(), exe); shutil.rmtree(t, ignore_errors=True)
    return exe
STD = '-std=gnu++11'
def ir_flags(): return ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-gline-tables-only', '-w', '-pthread', '-I' + R, '-I' + V + '/env']
def compile_ir(src, defs, tag, std=STD):
    key = 'ir-' + hashlib.sha256(('|'.join([src, std] + defs + [HD]) + digest(src, *sorted(glob.glob(V + '/env/*.h') + glob.glob(V + '/harness/*.h')))).encode()).hexdigest()[:24]
    if src.endswith('.c'): cmd = ['clang-18'] + ir_flags()
    else: cmd = [CL, std] + ir_flags()
    if tag == 'support': cmd.append('-fno-builtin')
    return cached(key, '.bc', lambda o: sh(cmd + defs + ['-emit-llvm', '-c', src, '-o', o]))
def compile_native(src, defs, std=STD, san=True):
    key = 'nat-' + hashlib.sha256(('|'.join([src, std, str(san)] + defs + [HD]) + digest(src, *sorted(glob.glob(V + '/env/*.h') + glob.glob(V + '/harness/*.h')))).encode()).hexdigest()[:24]
    cmd = (['gcc'] if src.endswith('.c') else ['g++', std]) + ['-g1', '-O0', '-w', '-pthread', '-DKS_NATIVE=1', '-I' + R, '-I' + V + '/env']
    if san: cmd += ['-fsanitize=address', '-fsanitize=return,unreachable,integer-divide-by-zero', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
    return cached(key, '.o', lambda o: sh(cmd + defs + ['-c', src, '-o', o]))

def load_spec(pid):
    ns = {}; f = os.path.join(V, 'checks', pid + '.py')
    with open(f) as fh: exec(compile(fh.read(), f, 'exec'), ns)
    return ns['SPEC']

class Native:
    def __init__(self, spec, work): self.spec, self.work, self.exes, self.err = spec, work, {}, None
    main_bc = None
    def prepare(self, ex):
        s = self.spec; defs = s.get('defs', [])
        if s.get('preempt'):
            def mainobj():
                o = self.work + '/main.o'; r = sh(['clang-18', '-x', 'ir', '-O0', '-g1', '-fsanitize=address', '-mllvm', '-asan-use-after-return=never', '-c', self.main_bc, '-o', o]); return (o, '') if r.returncode == 0 else (None, r.stdout)
            class Late: result = staticmethod(mainobj)
            self.jobs, self.hj = [], Late; self.ej = [ex.submit(compile_native, V + '/env/' + e, defs) for e in dict.fromkeys(['core.cc'] + s.get('env', []))]; return
        jobs = [ex.submit(compile_native, p, s.get('repo_defs', [])) for p in s['_sources']]
        jobs += [ex.submit(compile_native, R + '/' + p, s.get('repo_defs', []) + s.get('extra_defs', [])) for p in s.get('extra_src', [])]
        hj = ex.submit(compile_native, V + '/harness/' + s['harness'], defs + s.get('extra_defs', []), s.get('std', STD))
        ej = [ex.submit(compile_native, V + '/env/' + e, defs) for e in dict.fromkeys((['core.cc'] if s.get('env') else []) + s.get('env', []))]
        self.jobs, self.hj, self.ej = jobs, hj, ej
    def finish(self):
        if self.err is not None or self.exes.get('_objs'): return
        objs = []
        for j in self.jobs + [self.hj] + self.ej:
            o, e = j.result()
            if not o: self.err = 'native compile failed: ' + e[-2000:]; return
            objs.append(o)
        envo = objs[len(self.jobs) + 1:]; main = objs[:len(self.jobs) + 1]
        syms = set()
        for o in envo:
            for l in sh(['nm', '--defined-only', o]).stdout.splitlines():
                p = l.split()
                if len(p) == 3 and p[2].startswith('env_') and p[1] in 'TW': syms.add(p[2][4:])
        if syms:
            rf = self.work + '/redef'; open(rf, 'w').write(''.join('%s env_%s\n' % (x, x) for x in sorted(syms)))
            new = []
            def ren(o):
                n = self.work + '/' + os.path.basename(o); r = sh(['objcopy', '--redefine-syms=' + rf, o, n]); return n
            with ThreadPoolExecutor(4) as ex2: main = list(ex2.map(ren, main))
        self.exes['_objs'] = (main, envo)
        # pack everything except the harness so that every entry links quickly
    def exe(self, entry):
        self.finish()
        if self.err: return None
        if entry not in self.exes:
            main, envo = self.exes['_objs']; out = self.work + '/native_' + entry
            o, e = compile_native(V + '/env/native.cc', ['-DKS_ENTRY=' + entry])
            if not o: self.err = e; return None
            r = sh(['g++', '-fsanitize=address,undefined', '-pthread', '-rdynamic', '-o', out] + main + envo + [o])
            if r.returncode: self.err = 'native link failed: ' + r.stdout[-2000:]; return None
            self.exes[entry] = out
        return self.exes[entry]
    def run(self, entry, inputs, fill=None, timeout=20):
        x = self.exe(entry)
        if not x: return None, self.err or '', []
        f = tempfile.mktemp(dir=self.work, suffix='.in'); write_inputs(f, inputs)
        env = dict(os.environ); env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:exitcode=99:abort_on_error=0:handle_abort=0:max_malloc_fill_size=1048576:malloc_fill_byte=%d' % (fill if fill is not None else 0xbe); env['TZ'] = 'UTC'
        cwd = tempfile.mkdtemp(dir=self.work)
        try: p = subprocess.run([x, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=env, cwd=cwd); rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired as e: rc, out = 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        obs = [tuple(l.split()[1:3]) for l in out.splitlines() if l.startswith('OBS ')]
        os.remove(f)
        return rc, out, obs
def san(n): n = n.replace(' ', '_')[:250]; return n or '_'
def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for i in inputs:
            if i['k'] == 0: f.write('u %s %s\n' % (san(i['n']), i['v']))
            elif i['k'] == 1: f.write('b %s %s\n' % (san(i['n']), i['v']))
            else: f.write('l %s %s %s\n' % (san(i['n']), i['cap'], ' '.join('%s:%s' % kv for kv in i['v'].items())))
BAD_OK = {70: 'check failed', 99: 'AddressSanitizer', 124: 'does not terminate', -6: 'abort', -11: 'segmentation fault', -8: 'SIGFPE', 134: 'abort', 139: 'segv', -4: 'SIGILL', 1: 'UBSan'}

def main():
    global HD
    if sys.argv[1] == '--setup': build_engine(); print('engine ready'); sys.exit(0)
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    verbose = '-v' in sys.argv; only = sys.argv[sys.argv.index('--entry') + 1] if '--entry' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1')); spec = load_spec(pid); HD = header_digest()
    work = tempfile.mkdtemp(prefix='ks-%s-' % pid)
    try: rc = run(pid, tier, seed, spec, work, verbose, only)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, tier, seed, spec, work, verbose, only):
    excl = spec.get('exclude', []); spec['defs'] = spec.get('defs', []) + spec.get('defs_' + tier, [])
    srcs = [s for s in repo_sources() if not any(s.endswith('/' + x) for x in excl)] if spec.get('link_repo', True) else []
    spec['_sources'] = srcs
    if srcs: srcs.append(R + '/third-party/xxHash/xxhash.c')
    ex = ThreadPoolExecutor(NCPU); eng_f = ex.submit(build_engine)
    defs = spec.get('defs', [])
    jobs = [ex.submit(compile_ir, s, spec.get('repo_defs', []), 'repo') for s in srcs]
    jobs += [ex.submit(compile_ir, R + '/' + s, spec.get('repo_defs', []) + spec.get('extra_defs', []), 'repo') for s in spec.get('extra_src', [])]
    jobs.append(ex.submit(compile_ir, V + '/harness/' + spec['harness'], defs + spec.get('extra_defs', []), 'h', spec.get('std', STD)))
    jobs.append(ex.submit(compile_ir, V + '/env/support.cc', [], 'support', '-std=gnu++14'))
    for e in dict.fromkeys(['core.cc'] + spec.get('env', [])): jobs.append(ex.submit(compile_ir, V + '/env/' + e, defs, 'env'))
    bcs = []; bad = []
    for j in jobs:
        o, e = j.result()
        if not o: bad.append(e[-3000:])
        else: bcs.append(o)
    if bad: die('the code under analysis does not compile with the harness:\n' + '\n'.join(bad))
    native = Native(spec, work)
    native.prepare(ex)
    prog0, prog = work + '/prog0.bc', work + '/prog.bc'; passes = 'function(sroa,early-cse)'
    def tool(name, cmd):
        r = sh(cmd)
        if r.returncode: die(name + ': ' + r.stdout[-3000:])
    engine = None
    if spec.get('preempt'): # the instrumented repository and harness code is shared by the engine and the native replay
        engine = eng_f.result(); nmain = len(srcs) + len(spec.get('extra_src', [])) + 1; m0, m1, m2 = work + '/main0.bc', work + '/main1.bc', work + '/main2.bc'
        tool('llvm-link', ['llvm-link-18', '-o', m0] + bcs[:nmain]); tool('opt', ['opt-18', '-passes=' + passes, m0, '-o', m1])
        tool('instrument', [engine, '-instrument', m2] + sum([['-instr-match', m] for m in spec['preempt']], []) + [m1])
        e0, e1 = work + '/env0.bc', work + '/env1.bc'; tool('llvm-link', ['llvm-link-18', '-o', e0] + bcs[nmain:]); tool('opt', ['opt-18', '-passes=' + passes, e0, '-o', e1])
        tool('llvm-link', ['llvm-link-18', '-o', prog, m2, e1]); native.main_bc = m2
    else:
        tool('llvm-link', ['llvm-link-18', '-o', prog0] + bcs); tool('opt', ['opt-18', '-passes=' + passes, prog0, '-o', prog])
    engine = engine or eng_f.result()
    t_build = time.time() - T0
    if '--dump' in sys.argv: shutil.copy(prog, '/tmp/%s.bc' % pid); print(engine, '/tmp/%s.bc' % pid); return 0
    # ---- symbolic runs
    entries = [e for e in spec['entries'] if tier in e.get('tiers', ('quick', 'thorough')) and (not only or e['name'] == only)]
    errors = []; results = []; jobs_arg = []; tmax = 0
    for e in sorted(entries, key=lambda e: -e.get('shards', 1)):
        b = e.get(tier) or e.get('quick') or {}
        tm = b.get('time', e.get('time', spec.get('time_' + tier, 40 if tier == 'quick' else 300))); tmax += tm
        jobs_arg.append((e, tm))
    budget = max(60, int(840 - (time.time() - T0))) # never longer than the time a check may take: what one entry leaves, later ones may use
    f = min(1, max(0.2, 0.95 * budget / max(tmax, 1)))
    jobs_arg = sum([['-job', '%s,%d,%d,%d,%s/%s.json,%d' % (e['name'], tm, e.get('wit', 4 if len(entries) > 2 else 8), e.get('maxinstr', 4000000), work, e['name'], max(8, int(tm * f)))] for e, tm in jobs_arg], [])
    r = sh([engine, prog, '-budget', str(budget), '-root', R, '-par', str(NCPU)] + jobs_arg); t_engine = time.time() - T0 - t_build
    if r.returncode: errors.append('engine exit %d: %s' % (r.returncode, r.stdout[-1500:]))
    for e in entries:
        fs = glob.glob('%s/%s.json' % (work, e['name'])) + sorted(glob.glob('%s/%s.json#*' % (work, e['name'])))
        if not fs: errors.append(e['name'] + ' produced no result')
        for f in fs:
            try: results.append((e, json.load(open(f)), ''))
            except Exception as x: results.append((e, None, str(x)))
    agg = {}; funcs = {}
    for e, j, log in results:
        if j is None: errors.append(e['name'] + ': ' + log[-1500:]); continue
        a = agg.setdefault(e['name'], dict(entry=e, exhaustive=True, n=0, paths=0, assume_killed=0, violating=0, incomplete=0, forks=0, instrs=0, checks=0, memchecks=0, pending=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, solver_s=0.0, wall_s=0.0, incomplete_why={}, reach={}, violations=[], witnesses=[]))
        for k in ('paths', 'assume_killed', 'violating', 'incomplete', 'forks', 'instrs', 'checks', 'memchecks', 'pending', 'queries', 'sat', 'unsat', 'unknown', 'cache_hits', 'solver_s'): a[k] += j[k]
        a['wall_s'] = max(a['wall_s'], j['wall_s']); a['exhaustive'] &= j['exhaustive']; a['n'] += 1
        for k in ('incomplete_why', 'reach'):
            for x, c in j[k].items(): a[k][x] = a[k].get(x, 0) + c
        a['violations'] += j['violations']; a['witnesses'] += j['witnesses']
        for f in j['functions']: funcs[f[0]] = f[1]
    if errors: die('engine: ' + '\n'.join(errors))
    # ---- replays
    known = [k for k in json.load(open(V + '/known_findings.json')) if k.get('property') == pid] if os.path.exists(V + '/known_findings.json') else []
    alarms, findings, unrep, mism = [], [], [], []; validated = 0
    for name, a in agg.items():
        e = a['entry']
        groups = {}
        for v in a['violations']: groups.setdefault((v['kind'], v['msg'], v['where']), []).append(v)
        cnt = 0
        for key, vs in sorted(groups.items()):
            if cnt >= 6: break
            hang = key[0] == 'hang'
            if hang and any(g[1][0] == 'hang' for g in alarms if g[0] == name): continue
            cnt += 1; conf = None
            for v in vs[:1 if hang else 3]:
                for fill in ((0xbe,) if hang else (0xbe, 0)):
                    rc, out, obs = native.run(name, v['inputs'], fill, 10 if hang else 20)
                    if rc is None: die('replay build: ' + out)
                    if rc in BAD_OK and not (rc == 124 and not hang): conf = (v, rc, out); break
                if conf: break
            if not conf: unrep.append(dict(entry=name, kind=key[0], msg=key[1], where=key[2], rc=rc, out=out[-600:] + ' INPUTS ' + str([(i['n'], i['v']) for i in vs[0]['inputs']]))); continue
            kf = [k for k in known if k.get('status') == 'open' and k['entry'] == name and re.search(k['match'], key[0] + ': ' + key[1] + ' @ ' + key[2])]
            (findings if kf else alarms).append((name, key, conf, kf[0] if kf else None))
        if not a['violations'] or True:
            wl = a['witnesses'][:e.get('maxwit', 12)]
            if wl: native.exe(name)
            with ThreadPoolExecutor(NCPU) as ex3: wr = list(ex3.map(lambda w: native.run(name, w['inputs']), wl))
            for w, (rc, out, obs) in zip(wl, wr):
                if rc is None: die('replay build: ' + out)
                exp = [(san(t), v) for t, v in w['obs']]
                if rc == 0 and obs == exp: validated += 1
                else: mism.append(dict(entry=name, rc=rc, diff=next(((x, y) for x, y in zip(exp, obs) if x != y), (len(exp), len(obs))), out=out[-800:], inputs=w['inputs'] if verbose else None))
    # a disagreement of engine and real run that is itself a failure of the real code is not reported as such; it is only counted
    # ---- vacuity
    vac = []
    for name, a in agg.items():
        for r in a['entry'].get('reach', []):
            if not a['reach'].get(r): vac.append('%s never reached %s' % (name, r))
        if a['checks'] == 0 and a['memchecks'] == 0: vac.append(name + ' evaluated nothing')
    tot = {k: sum(a[k] for a in agg.values()) for k in ('paths', 'assume_killed', 'violating', 'incomplete', 'forks', 'instrs', 'checks', 'memchecks', 'queries', 'sat', 'unsat', 'unknown', 'cache_hits', 'solver_s', 'pending')}
    samples = []
    for name, a in agg.items():
        for w in a['witnesses'][:2]: samples.append(name + ': ' + ', '.join('%s=%s' % (i['n'], i['v']) for i in w['inputs'][:14])[:300])
    exhaustive = all(a['exhaustive'] for a in agg.values())
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(states=tot['paths'] + tot['assume_killed'] + tot['violating'], transitions=tot['forks'] + tot['instrs'], traces_validated_against_impl=validated, samples=samples[:12] or ['none'],
            exhaustive_within_bounds=exhaustive, bounds=spec.get('bounds', ''), outside_bounds=spec.get('outside', ''),
            obligations=dict(assertions=tot['checks'], memory_accesses=tot['memchecks']),
            solver=dict(queries=tot['queries'], sat=tot['sat'], unsat=tot['unsat'], unknown=tot['unknown'], cache_hits=tot['cache_hits'], seconds=round(tot['solver_s'], 2), backend='z3 QF_BV, with a QF_LIA front end for linear length and offset arithmetic'),
            functions_encoded=sorted('%s (%s)' % (demangle(f), s.replace(R + '/', '')) for f, s in funcs.items())[:400], functions_encoded_count=len(funcs),
            entries={n: dict(paths=a['paths'], assume_killed=a['assume_killed'], exhaustive=a['exhaustive'], pending=a['pending'], incomplete=a['incomplete'], incomplete_why=a['incomplete_why'], checks=a['checks'], queries=a['queries'], solver_s=round(a['solver_s'], 2), wall_s=a['wall_s'], reach=a['reach'], bound=a['entry'].get('bound', '')) for n, a in agg.items()},
            engine_impl_disagreements=len(mism), counterexamples_not_reproduced=[dict(entry=u['entry'], kind=u['kind'], msg=u['msg'], where=u['where']) for u in unrep]),
        assumptions=spec.get('assumptions', []) + ['environment model: ' + (', '.join((['core.cc'] + spec.get('env', []))) or 'none') + ' (see DESIGN.md)'], wall_s=round(time.time() - T0, 2), violations=[])
    rc = 0
    os.makedirs(V + '/evidence', exist_ok=True); os.makedirs(V + '/build/replays', exist_ok=True)
    for what in dict.fromkeys(k['what'] for _, _, _, k in findings): print('KNOWN-FINDING: property=%s %s' % (pid, what))
    printed = set()
    for k in known:
        if k.get('status') == 'open' and k['entry'] in agg and not any(f[3] is k for f in findings): print('NOTE listed finding not observed in this run: ' + k['what'])
    for name, key, (v, nrc, out), k in alarms:
        rp = V + '/build/replays/%s-%s-%s.json' % (pid, name, hashlib.md5(repr(key).encode()).hexdigest()[:8])
        json.dump(dict(property=pid, entry=name, kind=key[0], msg=key[1], where=key[2], stack=v['stack'], notes=v['notes'], inputs=v['inputs'], native_result=BAD_OK.get(nrc, nrc), native_output=out[-3000:]), open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, rp)); print('  %s: %s at %s [%s]; real code: %s' % (key[0], key[1], key[2], name, BAD_OK.get(nrc, nrc)))
        if verbose: print(v['stack'], v['notes'], [(i['n'], i['v']) for i in v['inputs']], out[-1500:])
        ev['violations'].append(dict(replay=rp, what='%s: %s at %s' % key)); rc = 1
    for u in unrep: print('NOTE unreproduced counterexample (not reported): %(entry)s %(kind)s %(msg)s at %(where)s rc=%(rc)s' % u + (u['out'] if verbose else ''))
    for m in mism[:5]: print('NOTE engine/real disagreement: %s rc=%s %s' % (m['entry'], m['rc'], m['diff']) + (m['out'] + str(m['inputs']) if verbose else ''))
    for x in vac: print('NOTE vacuity: ' + x)
    ev['coverage']['vacuity_notes'] = vac
    for n, a in agg.items(): print('  %-34s paths %d assumed-away %d incomplete %d%s checks %d queries %d solver %.1fs wall %.1fs %s' % (n, a['paths'], a['assume_killed'], a['incomplete'], (' ' + str(a['incomplete_why'])[:300]) if a['incomplete'] else '', a['checks'], a['queries'], a['solver_s'], a['wall_s'], 'exhaustive' if a['exhaustive'] else 'NOT exhaustive (pending %d)' % a['pending']))
    if vac and rc == 0 and os.environ.get('KS_STRICT'): rc = 3
    if not only: json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    print('%s %s: build %.1fs total %.1fs, validated %d traces -> %s' % (pid, tier, t_build, time.time() - T0, validated, 'held' if rc == 0 else 'VIOLATED'))
    return rc
def demangle(n):
    return DM.get(n, n)
class _DM(dict):
    def get(self, k, d=None):
        if k not in self:
            self[k] = sh(['c++filt', '-p', k]).stdout.strip() if k.startswith('_Z') else k
        return self[k]
DM = _DM()
if __name__ == '__main__': main()
