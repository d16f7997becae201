#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property for /repo's current tree
   check.py --setup                              build everything for the current tree
   check.py --replay FILE                        run a recorded counterexample against the current tree
   check.py --selftest                           engine self-tests (see tools/selftest.sh)"""
import sys, os, subprocess, hashlib, json, time, fcntl, shutil, resource, tempfile, re, threading
V = os.path.dirname(os.path.realpath(__file__))
R = os.environ.get('FPV_REPO', '/repo')
sys.path.insert(0, V + '/tools')
from plan import PLAN, REACH, MISSING_HOOKS, SELFTEST

LEVEL = 'model_checking'
TOOLENV = dict(os.environ, RUSTUP_TOOLCHAIN=os.environ.get('RUSTUP_TOOLCHAIN', 'stable'), CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR'): TOOLENV.pop(k, None)
FLAVOURS = ('checked', 'plain')

class CheckError(Exception): pass
def log(*a): print(*a, flush=True)
def files(d):
    for p, ds, fs in os.walk(d):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
        for f in sorted(fs): yield os.path.join(p, f)
def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p): h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h
def build_key():
    ps = list(files(R + '/src')) + [R + '/Cargo.toml', R + '/Cargo.lock', R + '/build.rs']
    for d in ('harness', 'engine', 'runner'): ps += list(files(V + '/' + d))
    h = digest(ps)
    h.update(subprocess.run(['rustc', '-V'], env=TOOLENV, capture_output=True).stdout)
    return h.hexdigest()[:24]
def sh(cmd, logf, **kw):
    with open(logf, 'ab') as l:
        l.write(('\n$ ' + (cmd if isinstance(cmd, str) else ' '.join(cmd)) + '\n').encode()); l.flush()
        return subprocess.run(cmd, stdout=l, stderr=l, shell=isinstance(cmd, str), **kw).returncode == 0

def build():
    """returns (directory, hooks) with symx, checked.ll, plain.ll, checked/fpvr, plain/fpvr built from the current sources"""
    key = build_key()
    root = V + '/build'
    os.makedirs(root, exist_ok=True)
    d = root + '/' + key
    with open(root + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(d + '/done'):
            os.utime(d)
            return d, open(d + '/done').read() == 'hooks'
        olds = sorted((x for x in os.listdir(root) if os.path.isdir(root + '/' + x)), key=lambda x: os.path.getmtime(root + '/' + x))
        for x in olds[:-2] + ([key] if key in olds else []): shutil.rmtree(root + '/' + x, ignore_errors=True)
        os.makedirs(d)
        if R != '/repo':   # harness copy with another path dependency (for experiments on a scratch tree)
            for x in ('harness', 'runner'): shutil.copytree(V + '/' + x, d + '/' + x, ignore=shutil.ignore_patterns('target'))
            t = open(d + '/harness/Cargo.toml').read().replace('path = "/repo"', 'path = "%s"' % R)
            open(d + '/harness/Cargo.toml', 'w').write(t)
            src = d
        else: src = V
        hooks = True
        if not build_all(d, src, True):
            hooks = False
            log('note: the crate does not build with the hooks (cfg fpv); trying without')
            if not build_all(d, src, False): raise CheckError('cannot build the harnesses: see %s/build.log\n%s' % (d, tail(d)))
        for x in ('t-checked', 't-plain', 't-runner'): shutil.rmtree(d + '/' + x, ignore_errors=True)
        open(d + '/done', 'w').write('hooks' if hooks else 'nohooks')
        return d, hooks
def tail(d):
    s = ''
    for f in sorted(os.listdir(d)):
        if f.endswith('.log'): s += '--- ' + f + '\n' + '\n'.join(x for x in open(d + '/' + f, errors='replace').read().split('\n') if 'error' in x.lower())[-1500:] + '\n'
    return s
def build_all(d, src, hooks):
    env = dict(TOOLENV, RUSTFLAGS=('--cfg fpv ' if hooks else '') + '-Awarnings')
    sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=TOOLENV, capture_output=True, text=True).stdout.strip()
    B = sysroot + '/lib/rustlib/x86_64-unknown-linux-gnu/bin'
    entries = entry_names(hooks)
    ok = {}
    def engine(): ok['engine'] = os.path.exists(d + '/symx') or sh(['bash', V + '/engine/build.sh', d + '/symx'], d + '/engine.log')
    def bitcode(fl):
        ok[fl] = False
        t = d + '/t-' + fl
        if not sh(['cargo', 'rustc', '--profile', fl, '--offline', '--lib', '--crate-type', 'staticlib', '--', '-C', 'save-temps', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'],
                  d + '/%s.log' % fl, cwd=src + '/harness', env=dict(env, CARGO_TARGET_DIR=t)): return
        bc = [x for x in os.listdir(t + '/' + fl + '/deps') if x.endswith('.lto.input.bc')]
        if len(bc) != 1: return
        ok[fl] = sh([B + '/opt', '-strip-debug', '-passes=function(lower-invoke),internalize,globaldce', '-internalize-public-api-list=' + ','.join(entries),
                     t + '/' + fl + '/deps/' + bc[0], '-o', d + '/' + fl + '.bc'], d + '/%s.log' % fl) and sh([B + '/llvm-dis', d + '/' + fl + '.bc', '-o', d + '/' + fl + '.ll'], d + '/%s.log' % fl)
    def runner():
        ok['runner'] = False
        for fl in FLAVOURS:
            if not sh(['cargo', 'build', '--offline', '--profile', fl], d + '/runner.log', cwd=src + '/runner', env=dict(env, CARGO_TARGET_DIR=d + '/t-runner')): return
            shutil.copy(d + '/t-runner/%s/fpvr' % fl, d + '/fpvr-' + fl)
        ok['runner'] = True
    ts = [threading.Thread(target=f, args=a) for f, a in ((engine, ()), (bitcode, ('checked',)), (bitcode, ('plain',)), (runner, ()))]
    for t in ts: t.start()
    for t in ts: t.join()
    return all(ok.values())
def entry_names(hooks):
    s = open(V + '/harness/src/lib.rs').read()
    a, b = s.split('harnesses! { table_hooks:')
    return re.findall(r'^    (\w+) =>', a + (b if hooks else ''), re.M)

# ------------------------------------------------------------------ running the engine
def big_stack():
    s, h = resource.getrlimit(resource.RLIMIT_STACK)
    resource.setrlimit(resource.RLIMIT_STACK, (h, h))
def run_engine(d, fl, entries, secs, seed, workers=8, extra=(), maxinst=400000000):
    out = tempfile.NamedTemporaryFile(prefix='fpv-', dir=d, delete=False).name
    cmd = [d + '/symx', d + '/' + fl + '.ll', '--out', out, '--time', str(secs), '--workers', str(workers), '--param', str(seed), '--maxviol', '12', '--maxinst', str(maxinst), *extra]
    for e in entries: cmd += ['--entry', e]
    try:
        p = subprocess.run(cmd, preexec_fn=big_stack, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 120)
        txt = open(out).read().split('\n')
    except subprocess.TimeoutExpired: raise CheckError('engine does not end')
    finally: os.unlink(out)
    if p.returncode != 0: raise CheckError('engine failed (%d): %s' % (p.returncode, p.stdout.decode(errors='replace')[-500:]))
    r = dict(stats={}, viol=[], samples=[], fns=set())
    for l in txt:
        if l[:2] == 'E|': j = json.loads(l.split('|', 2)[2]); r['stats'][j['entry']] = j
        elif l[:2] == 'V|': f = l.split('|'); r['viol'].append(dict(flavour=fl, entry=entries[int(f[1])], kind=f[2], msg=f[3], inputs=f[4].split(), obs=f[5].strip(), stack=f[6]))
        elif l[:2] == 'S|': f = l.split('|'); r['samples'].append(dict(flavour=fl, entry=entries[int(f[1])], status=f[2], inputs=f[4].split(), obs=f[5].strip()))
        elif l[:2] == 'F|': r['fns'] |= set(l[2:].split())
        elif l[:2] == 'D|': r['eng'] = json.loads(l[2:])
    if set(r['stats']) != set(entries): raise CheckError('engine gave no result for %s' % (set(entries) - set(r['stats'])))
    return r

# ------------------------------------------------------------------ native replay
FAIL = ('assert', 'panic', 'crash', 'hang')
class Native:
    def __init__(self, d, seed): self.d, self.seed = d, seed
    def run(self, fl, cases, timeout=20, reps=20, work=False):
        """cases: list of (entry, inputs); returns a list of (status, message, obs)"""
        res = []
        scratch = tempfile.mkdtemp(prefix='fpv-run-')
        try:
            while len(res) < len(cases):
                todo = cases[len(res):]
                inp = ''.join('%s %s\n' % (e, ' '.join(i)) for e, i in todo)
                p = subprocess.Popen([self.d + '/fpvr-' + fl, scratch], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                     env=dict(os.environ, FPV_PARAM=str(self.seed), FPV_REPS=str(reps), **({'FPV_WORK': '1'} if work else {})), text=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30)))
                try: o, _ = p.communicate(inp, timeout=timeout); end = 'crash'
                except subprocess.TimeoutExpired: p.kill(); o, _ = p.communicate(); end = 'hang'
                ls = [l for l in o.split('\n') if l.count('|') >= 2]
                for l in ls: s, m, ob = l.split('|', 2); res.append((s, m, ob.strip()))
                if len(ls) < len(todo):
                    if end == 'hang' and ls: continue
                    res.append((end, 'status %s' % p.returncode, ''))
        finally: shutil.rmtree(scratch, ignore_errors=True)
        return res
    def debug_build(self):
        if os.path.exists(self.d + '/fpvr-debug'): return True
        src = V if R == '/repo' else self.d
        env = dict(TOOLENV, RUSTFLAGS=('--cfg fpv ' if open(self.d + '/done').read() == 'hooks' else '') + '-Awarnings', CARGO_TARGET_DIR=self.d + '/t-debug')
        ok = sh(['cargo', 'build', '--offline'], self.d + '/runner.log', cwd=src + '/runner', env=env)
        if ok: shutil.copy(self.d + '/t-debug/debug/fpvr', self.d + '/fpvr-debug')
        shutil.rmtree(self.d + '/t-debug', ignore_errors=True)
        return ok
    def confirm(self, v):
        """does the counterexample fail on the real code?  (repeated for behaviour that depends on process randomness)"""
        threads = v['kind'].endswith('@threads')
        if v['entry'].startswith('work_'):
            # costs: counted in the engine; natively processor time on larger graphs, with twice the tolerance
            for work in (False, True):
                for s, m, o in self.run(v['flavour'], [(v['entry'], v['inputs'])], timeout=50, work=work):
                    if s in FAIL: return (s, m, o)
            return ('counted', 'instructions counted by the engine; processor time measured natively stays within twice the bound', v['obs'])
        if v['kind'] == 'stack' and self.debug_build():
            # depth of calls as written: development builds do not turn calls into jumps
            for s, m, o in self.run('debug', [(v['entry'], v['inputs'])], timeout=100):
                if s in FAIL: return (s, m + ' (development build)', o)
        for n, reps in ((1, 20), (3, 3000), (4, 30000)) if threads else ((1, 20), (20, 20), (100, 20)):
            for s, m, o in self.run(v['flavour'], [(v['entry'], v['inputs'])] * n, timeout=60 if threads else 20, reps=reps):
                if s in FAIL: return (s, m, o)
                if s == 'input': return None
        # real threads did not happen to run into this interleaving: the engine's execution of it is what is reported
        if threads: return ('schedule', 'interleaving found by the engine; 129000 native repetitions did not run into it', v['obs'])
        return None

# ------------------------------------------------------------------ known findings
def known_findings(prop):
    r = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) message=/(.*)/ (.*)', l)
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3), m.group(4).strip()))
    return r

def demangle(ns):
    try: return subprocess.run(['c++filt'], input='\n'.join(ns), capture_output=True, text=True).stdout.split('\n')
    except OSError: return list(ns)

def decide(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PLAN[prop]
    d, hooks = build()
    log('built in %.1f s (%s)%s' % (time.time() - t0, os.path.basename(d), '' if hooks else ' without hooks'))
    names = set(entry_names(hooks))
    native = Native(d, seed)
    runs = []            # (flavour, entries, seconds)
    notes = []
    quick = {fl: list(P[fl]) for fl in FLAVOURS}
    if not hooks:
        for fl in FLAVOURS:
            lost = [e for e in quick[fl] if e not in names]
            if lost: notes.append('hooks unavailable, not decided: ' + ' '.join(lost))
            quick[fl] = [e for e in quick[fl] if e in names]
        if not any(quick.values()):
            quick = MISSING_HOOKS[prop]
            notes.append('hooks unavailable: decided through the public interface only')
    for fl in FLAVOURS:
        if quick[fl]: runs.append((fl, quick[fl], {'checked': 330, 'plain': 200}[fl], True))
    if tier == 'thorough':
        for fl, e, secs in P.get('thorough', ()):
            if e in names: runs.append((fl, [e], secs, False))
    stats, samples, fns, viols, confirmed, incomplete, eng = [], [], set(), [], [], [], None
    mandatory_missing = []
    for fl, es, secs, must in runs:
        t1 = time.time()
        r = run_engine(d, fl, es, secs, seed, maxinst=P.get('maxinst', 400000000))
        fns |= r['fns']; samples += r['samples']; eng = r['eng']
        for e in es:
            s = dict(r['stats'][e], flavour=fl); stats.append(s)
            want = REACH.get(e, 0 if '_mid' in e else 1)
            bad = None
            if not s['violations']:
                if s['unsupported'] or s['crashed']: bad = s['msg']
                elif s['limits']: bad = 'limit: ' + s['msg']
                elif s['complete'] and (s['reach'] & want) != want: bad = 'reached only %s of %s' % (bin(s['reach']), bin(want))
                elif s['paths'] == 0: bad = 'no path explored'
                elif not s['complete']: incomplete.append(fl + '/' + e)
            if bad and must: mandatory_missing.append('%s/%s: %s' % (fl, e, bad))
            elif bad: incomplete.append('%s/%s (%s)' % (fl, e, bad))
            log('%-8s %-18s %s paths %d decisions %d queries %d solver %.1f s, %.1f s%s' % (fl, e, 'complete' if s['complete'] else 'VIOLATED' if s['violations'] else 'PARTIAL', s['paths'], s['decisions'], s['q_sat'] + s['q_unsat'] + s['q_unknown'], s['solver_s'], s['seconds'], ' ! ' + bad if bad else ''))
        viols += r['viol']
        tried = {}
        for v in r['viol']:
            k = (v['entry'], v['msg'])
            if tried.get(k, 0) >= 4 or len(confirmed) >= (2 if v['entry'].startswith('work_') else 5): continue
            tried[k] = tried.get(k, 0) + 1
            n = native.confirm(v)
            if n: v['native'] = dict(status=n[0], message=n[1], obs=n[2]); confirmed.append(v); tried[k] = 99
        if confirmed: break
    # translation validation: observations of passing paths against the native run
    validated, mismatches = 0, []
    if not confirmed:
        for fl in FLAVOURS:
            ss = [s for s in samples if s['flavour'] == fl]
            res = native.run(fl, [(s['entry'], s['inputs']) for s in ss], timeout=120)
            for s, (st, m, o) in zip(ss, res):
                if (st == {'ok': 'ok', 'panic': 'xpanic'}[s['status']] and o == s['obs']): validated += 1
                else:
                    again = set(native.run(fl, [(s['entry'], s['inputs'])] * 10))
                    bad = [x for x in again if x[0] in FAIL]
                    if bad:    # the real code fails on an input the engine took for passing: believe the real code
                        v = dict(flavour=fl, entry=s['entry'], kind='native', msg=bad[0][1], inputs=s['inputs'], obs=s['obs'], stack='', native=dict(status=bad[0][0], message=bad[0][1], obs=bad[0][2]))
                        viols.append(v); confirmed.append(v); break
                    elif len(again) > 1: notes.append('natively nondeterministic: %s %s' % (s['entry'], ' '.join(s['inputs'])))
                    else: mismatches.append((s, (st, m, o)))
    known = known_findings(prop)
    reported = []
    for v in confirmed:
        kf = [k for k in known if k[0] == v['entry'] and re.search(k[1], v['msg'])]
        if kf: log('KNOWN-FINDING: property=%s %s' % (prop, kf[0][2]))
        else: reported.append(v)
    os.makedirs(V + '/evidence', exist_ok=True)
    fl_fns = sorted(set(x for x in demangle(sorted(f for f in fns if 'fast_paths' in f)) if 'fast_paths::' in x and not x.startswith(('<alloc::', '<core::'))))
    tot = lambda k: sum(s[k] for s in stats)
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL, wall_s=round(time.time() - t0, 1), violations=len(reported),
        coverage=dict(states=tot('paths') + tot('assumed_away'), transitions=tot('decisions'), traces_validated_against_impl=validated,
            samples=[dict(entry=s['entry'], flavour=s['flavour'], inputs=' '.join(s['inputs']), observed=s['obs'], outcome=s['status']) for s in samples[-12:]],
            exhaustive=not incomplete and not mandatory_missing,
            meaning='states = execution paths of the real code decided, each for all values of its symbolic inputs; transitions = symbolic branch decisions',
            bounds=P['bounds'], entries=[{k: s[k] for k in ('entry', 'flavour', 'complete', 'paths', 'assumed_away', 'expected_panics', 'violations', 'decisions', 'implied', 'q_sat', 'q_unsat', 'q_unknown', 'q_bv', 'asserts', 'asserts_concrete', 'asserts_proved', 'max_vars', 'max_forks_on_path', 'insts', 'solver_s', 'seconds', 'reach', 'conflicts')} for s in stats],
            queries=tot('q_sat') + tot('q_unsat') + tot('q_unknown'), queries_unsat=tot('q_unsat'), queries_unknown=tot('q_unknown'), asserts_decided=tot('asserts'), asserts_by_solver=tot('asserts_proved'), solver_s=round(tot('solver_s'), 2),
            instructions=tot('insts'), engine=eng, functions_encoded=fl_fns, incomplete=incomplete, notes=notes, hooks=hooks),
        assumptions=P.get('assumptions', []) + [P.get('threads', 'single-threaded execution'), 'std allocator, file system and clock behave as the models of DESIGN.md', 'optimised LLVM IR (opt-level 1, fat LTO) of both flavours is what is decided; rustc, LLVM and Z3 are trusted'])
    json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    if reported:
        for i, v in enumerate(reported):
            f = V + '/evidence/replay-%s-%d.json' % (prop, i)
            json.dump(dict(property=prop, seed=seed, **v, how='python3 /verif/check.py --replay ' + f), open(f, 'w'), indent=1)
            log('  %s/%s: %s: %s\n    native: %s %s\n    inputs: %s\n    at: %s' % (v['flavour'], v['entry'], v['kind'], v['msg'], v['native']['status'], v['native']['message'], ' '.join(v['inputs']), v['stack'][:300]))
            log('VIOLATION property=%s replay=%s' % (prop, f))
        return 1
    if viols and not confirmed:
        for v in viols[:3]: log('not reproduced natively: %s/%s %s %s [%s] %s' % (v['flavour'], v['entry'], v['kind'], v['msg'], ' '.join(v['inputs']), v['stack'][:300]))
        raise CheckError('counterexample does not reproduce on the real code')
    if mismatches:
        for s, n in mismatches[:3]: log('engine and native run differ: %s\n   native %s' % (s, n))
        raise CheckError('translation validation failed')
    if mandatory_missing: raise CheckError('not decided: ' + '; '.join(mandatory_missing))
    if incomplete: log('explored only in part (time): ' + ' '.join(incomplete))
    log('%s held on everything explored: %d paths, %d queries, %d traces validated, %.0f s' % (prop, tot('paths'), ev['coverage']['queries'], validated, time.time() - t0))
    return 0

def replay(f):
    v = json.load(open(f))
    d, hooks = build()
    n = Native(d, v['seed']).confirm(v)
    if n and n[0] in ('schedule', 'counted'):    # the interleaving is only reproducible in the engine
        r = run_engine(d, v['flavour'], [v['entry']], 200, v['seed'], maxinst=PLAN.get(v['property'], {}).get('maxinst', 400000000))
        if not r['stats'][v['entry']]['violations']: n = None
    log('%s/%s %s -> %s' % (v['flavour'], v['entry'], ' '.join(v['inputs']), n if n else 'passes'))
    return 1 if n else 0

def selftest():
    d, hooks = build()
    bad = 0
    for fl in FLAVOURS:
        for e in SELFTEST:
            r = run_engine(d, fl, [e], 100, 1)
            s = r['stats'][e]
            good = s['complete'] and not s['violations'] if e.startswith('self_ok') else s['violations'] > 0 and any(Native(d, 1).confirm(v) for v in r['viol'])
            log('%-8s %-22s %s' % (fl, e, 'as expected' if good else 'WRONG %s' % s))
            bad += not good
    return 1 if bad else 0

def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ['--setup']: build(); return 0
        if a[:1] == ['--selftest']: return selftest()
        if a[:1] == ['--replay']: return replay(a[1])
        tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
        return decide(a[0], tier)
    except CheckError as e:
        log('CHECK ERROR: %s' % e)
        return 2
    except Exception:
        import traceback; log('CHECK ERROR: %s' % traceback.format_exc())
        return 2
if __name__ == '__main__': sys.exit(main())
