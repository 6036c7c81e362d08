#!/usr/bin/env python3
"""Decide one property: check.py ID [quick|thorough]

Builds the symbolic executor and the harness crate (which compiles /repo's
current sources), turns the harness into LLVM IR, executes that IR
symbolically, replays every counterexample natively, writes evidence.
"""
import concurrent.futures as cf, fcntl, glob, json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
OUT = os.path.join(VERIF, 'out')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from plan import PLAN, COMMON_ASSUMPTIONS   # noqa: E402

def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(('CARGO_', 'RUST')) and k not in ('CARGO_HOME', 'RUSTUP_HOME'): e.pop(k)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    return e

def die(msg):
    print('ERROR: ' + msg, flush=True)
    sys.exit(2)

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0: die('%s failed:\n%s' % (' '.join(cmd[:4]), r.stdout[-4000:]))
    return r.stdout

NEEDS = dict(template='tmpl', table='core', dispatch='core', dispatch2='core', panics='core', version='core', print='core', print_line='core', error_chain='core',
             optmap='opts', ints='opts', words='opts', lists='opts', addrs='opts', fields='opts', missing='opts', runas_gids='opts', invocation='opts', hostile='opts')

def first_crate(sym):
    m = re.search(r'Cs[0-9A-Za-z]+_(\d+)', sym)
    if not m: return ''
    rest = sym[m.end():]
    if rest.startswith('_'): rest = rest[1:]
    return rest[:int(m.group(1))]

UNREACH = re.compile(r'9panicking12default_hook\(|9symbolize5gimli7resolve\(|9symbolize(5gimli)?18clear_symbol_cache\(')
def patch_ir(src, dst):
    """Three textual changes to the IR, all outside the code under test:
    hash_one of std's randomly keyed hasher returns 0 (a legal hash), the
    default panic hook and backtrace symbolisation become `unreachable` (the
    harness installs its own hook), and functions of the crates under test are
    marked noinline so that evidence can name them."""
    n = {'hash': 0, 'unreachable': 0, 'noinline': 0}
    skip = False
    with open(src) as f, open(dst, 'w') as o:
        for l in f:
            if skip:
                if l.startswith('}'): skip = False
                continue
            if l.startswith('define'):
                body = None
                if 'BuildHasher8hash_one' in l: body = '  ret i64 0\n}\n'; n['hash'] += 1
                elif UNREACH.search(l): body = '  unreachable\n}\n'; n['unreachable'] += 1
                if body:
                    o.write(re.sub(r' personality ptr @\S+', '', l)); o.write(body); skip = True; continue
                m = re.search(r'@(_R[^(]*)\(', l)
                if m and first_crate(m.group(1)) in ('sudo_pair', 'sudo_plugin') and 'always' not in l:
                    l = re.sub(r'\) unnamed_addr (?=#)', ') unnamed_addr noinline ', l, count=1); n['noinline'] += 1
            o.write(l)
    return n

def build():
    os.makedirs(BUILD, exist_ok=True); os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    e = env()
    eng = subprocess.Popen(['cargo', 'build', '--offline', '--release', '--locked'], cwd=os.path.join(VERIF, 'engine'),
                           env=dict(e, CARGO_TARGET_DIR=os.path.join(BUILD, 'e')), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    run(['gcc', '-O1', '-c', os.path.join(VERIF, 'harness/symrt.c'), '-o', os.path.join(BUILD, 'symrt.o')])
    deps = os.path.join(BUILD, 'h/release/deps')
    for f in glob.glob(deps + '/harness-*.ll'): os.unlink(f)
    # always recompile the crates under test: mtimes say nothing about a restored file
    for pat in ('sudo_pair-*', 'sudo_plugin-*', 'harness-*'):
        for f in glob.glob(os.path.join(BUILD, 'h/release/.fingerprint', pat)): shutil.rmtree(f, ignore_errors=True)
    cmd = ['cargo', 'rustc', '--offline', '--release', '--locked', '--bin', 'harness', '--', '--emit=llvm-ir', '-C', 'link-arg=' + os.path.join(BUILD, 'symrt.o')]
    kw = dict(cwd=os.path.join(VERIF, 'harness'), env=dict(e, CARGO_TARGET_DIR=os.path.join(BUILD, 'h')))
    # some harnesses use more of the crates than sudo does: the template module,
    # the plugin macro, the types of the options.  If a change to those keeps
    # such a harness from compiling, its jobs are lost, and only those.
    logs = []
    for feats in ('tmpl,core,opts', 'core,opts', 'tmpl,core', 'tmpl', 'core', ''):
        r = subprocess.run(cmd[:2] + ['--features', feats] + cmd[2:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
        if r.returncode == 0: break
        logs.append(r.stdout)
    else: die('the harness does not compile:\n' + logs[-1][-4000:])
    feats = feats.split(',')
    lls = glob.glob(deps + '/harness-*.ll')
    if len(lls) != 1: die('expected one IR file, found %d' % len(lls))
    root = run(['rustc', '--print', 'sysroot'], env=e).strip()
    opt = glob.glob(root + '/lib/rustlib/*/bin/opt')
    if not opt: die('no opt in the toolchain')
    p, q, ll = (os.path.join(BUILD, x) for x in ('patched.ll', 'small.ll', 'harness.ll'))
    patched = patch_ir(lls[0], p)
    run([opt[0], '-S', '--strip-debug', '-passes=internalize,globaldce', '-internalize-public-api-list=main', p, '-o', q])
    run([opt[0], '-S', '-passes=default<O1>', '--vectorize-loops=false', '--vectorize-slp=false', q, '-o', ll])
    for f in (p, q): os.unlink(f)
    eo, _ = eng.communicate()
    if eng.returncode != 0: die('engine build failed:\n' + eo[-3000:])
    return dict(ll=ll, exe=os.path.join(BUILD, 'h/release/harness'), engine=os.path.join(BUILD, 'e/release/symll'), patched=patched, feats=feats, secs=time.time() - t0, lock=lock)

def limit_mem(gb):
    def f(): resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f

DONE, GRACE = [], 40
def explore(b, prop, i, job, secs):
    h, args, opts = job
    out = os.path.join(OUT, '%s.%d.json' % (prop, i))
    cmd = [b['engine'], b['ll'], h, '--out', out, '--secs', str(secs), '--steps', str(opts.get('steps', 20_000_000)), '--qt', str(opts.get('qt', 60_000))]
    if opts.get('dump'): cmd += ['--dump', os.path.join(OUT, '%s.q%d' % (prop, i)), str(opts['dump'])]
    if args: cmd += ['--'] + args
    if os.path.exists(out): os.unlink(out)
    if DONE: return dict(harness=h, args=args, error='not run: a violation was found')
    # once a violation is confirmed, do not insist on finding all of them
    if not any(k[0] == prop for k in load_known()): cmd[3:3] = ['--grace', str(GRACE)]
    with open(out + '.log', 'w+') as log:
        r = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, preexec_fn=limit_mem(opts.get('gb', 8)))
        while True:
            try: r.wait(1); break
            except subprocess.TimeoutExpired:
                if DONE and time.time() > DONE[0] + GRACE: r.kill()
        log.seek(0); r.stdout = log.read()
    os.unlink(out + '.log')
    if r.returncode != 0 or not os.path.exists(out): return dict(harness=h, args=args, error='engine ended with %d: %s' % (r.returncode, r.stdout[-1500:]))
    try: d = json.load(open(out))
    except Exception as x: return dict(harness=h, args=args, error='unreadable engine output: %s' % x)
    d['stderr'] = r.stdout[-1500:]
    for v in d['violations']:
        code, o = native(b, h, args, v['model'])
        if confirms(v['id'], code, o) and not v['id'].startswith('runaway') and not any(k[0] == prop for k in load_known()): DONE.append(time.time()); break
    return d

def native(b, h, args, model, timeout=20):
    """Replay one assignment against the compiled code.  Returns (code, output)."""
    cmd = [b['exe'], h, model or '-'] + args
    def lim(): resource.setrlimit(resource.RLIMIT_CPU, (timeout, timeout)); resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 10, preexec_fn=lim, cwd=OUT)
    except subprocess.TimeoutExpired as x: return ('timeout', (x.stdout or b'').decode('latin1'))
    return (r.returncode, r.stdout.decode('latin1'))

def confirms(vid, code, out):
    if vid.startswith('runaway'): return code == 'timeout' or code in (-24, -9, -6)
    if vid.startswith('crash'): return code == 'timeout' or (isinstance(code, int) and (code < 0 or code >= 100))
    # (inputs the path never got to are arbitrary, so what comes after may not be feasible)
    return code != 0 and ('VIOLATED ' + vid) in out

def load_known():
    k = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) harness=(\S+) check="([^"]*)"(?: where="([^"]*)")? (.*)', l.strip())
            if m: k.append(m.groups())
    return k

def demangle(names):
    try: return subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True, timeout=20).stdout.split('\n')[:len(names)]
    except Exception: return names

def shell(prop, tier, seed, spec, t0):
    """A property of the bash script: executed symbolically by shell/shell.py."""
    for d in (OUT, os.path.join(OUT, 'replay'), os.path.join(VERIF, 'evidence')): os.makedirs(d, exist_ok=True)
    out = os.path.join(OUT, prop + '.json')
    if os.path.exists(out): os.unlink(out)
    r = subprocess.run(['python3-vt', os.path.join(VERIF, 'shell/shell.py'), out, tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, SHELL_OUT=OUT))
    if r.returncode != 0 or not os.path.exists(out): die('shell.py ended with %d: %s' % (r.returncode, r.stdout[-1500:]))
    d = json.load(open(out)); st = d['stats']; viols = d['viols']; problems = list(d['problems'])
    if st['unknown']: problems.append('%d solver queries without an answer' % st['unknown'])
    if not viols:
        for c in spec['covers']:
            if not d['covers'].get(c): problems.append('vacuous: no path ends with "%s"' % c)
        if not d['checks']: problems.append('vacuous: no check was reached')
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1), violations=len(viols), assumptions=spec['assumptions'],
        coverage=dict(states=d['paths'] + st['branches'], transitions=st['instrs'], traces_validated_against_impl=d['agree'], samples=d['samples'], exhaustive=not problems and not viols,
            explanation='states: path ends plus case splits of the symbolic exploration; transitions: commands and words of the script executed symbolically; traces validated: solver assignments replayed with the real bash, with the same commands, in the same order, and the same exit status.',
            bounds=spec['bounds'], functions_encoded=['sample/bin/sudo_approve: ' + f for f in d['functions'] + ['(top level)']], assertions={k: dict(hit=v[0], failed=v[1]) for k, v in d['checks'].items()}, witnesses=d['covers'],
            paths=d['paths'], queries_discharged=st['queries'], queries_sat=st['sat'], queries_unsat=st['unsat'], queries_unknown=st['unknown'], solver_s=round(st['secs'], 2),
            native_replays=d['replays'], jobs=d['jobs'], inconclusive=problems))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d paths, %d queries (%.1f s solver), %d replays, %.0f s' % (prop, tier, d['paths'], st['queries'], st['secs'], d['replays'], time.time() - t0))
    for n, v in enumerate(viols[:10]):
        p = os.path.join(OUT, 'replay', '%s-%d.txt' % (prop, n))
        with open(p, 'w') as f:
            f.write('property %s is broken: %s\n%s\n%s\n\n' % (prop, v['what'], v['job'], v['inputs']))
            f.write('files (path in hexadecimal, exists, uid, gid, mode, socket, writable):\n%s\n' % v['files'])
            f.write('the real script, run by bash with these inputs (programs replaced by stand-ins), exit %s, ran:\n  %s\n\noutput:\n%s\n' % (v['exit'], '\n  '.join(v['commands']), v['output']))
        if n < 3: print('    %s\n    %s\n    ran: %s' % (v['what'], v['inputs'], '; '.join(v['commands'])[-900:]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    if viols: sys.exit(1)
    if problems:
        for p in problems[:20]: print('INCONCLUSIVE ' + p[:2000])
        sys.exit(2)
    print('%s holds within the bounds' % prop)

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if prop == 'setup':
        b = build(); print('setup: built in %.0f s' % b['secs']); return
    spec = PLAN[prop]
    if spec.get('shell'): return shell(prop, tier, seed, spec, t0)
    jobs = [j if len(j) == 3 else (j[0], j[1], {}) for j in (spec['thorough'] if tier == 'thorough' and 'thorough' in spec else spec['quick'])]
    b = build()
    lost = [j for j in jobs if NEEDS.get(j[0], '') not in b['feats'] + ['']]
    jobs = [j for j in jobs if j not in lost]
    if lost: print('not examined, since they do not compile with these sources: ' + '; '.join(' '.join([j[0]] + j[1]) for j in lost))
    if not jobs: die('none of the harnesses compiles with these sources')
    print('%s %s: built from /repo in %.0f s; %d jobs' % (prop, tier, b['secs'], len(jobs)), flush=True)
    budget = 3000 if tier == 'thorough' else 700
    ev_path = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    st = subprocess.run([b['engine'], 'selftest'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if st.returncode != 0: die('engine self-test failed: ' + st.stdout[-500:])
    secs = max(60, budget - int(time.time() - t0))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda ij: explore(b, prop, ij[0], ij[1], secs), enumerate(jobs)))
    problems, viols, known_hit = [], [], []
    known = load_known()
    agg = {k: 0 for k in ('paths', 'completed', 'assumed_away', 'steps', 'forks', 'queries', 'sat', 'unsat', 'unknown', 'cache_hits')}
    solver_secs = 0.0; checks = {}; covers = {}; functions = set(); per_job = []; replays = 0; agree = 0; samples = []
    for r in res:
        tag = ' '.join([r['harness']] + r['args'])
        if 'error' in r: problems.append('%s: %s' % (tag, r['error'])); continue
        for k in agg: agg[k] += r[k]
        solver_secs += r['solver_secs']
        for k, v in r['checks'].items():
            c = checks.setdefault(k, dict(hit=0, trivial=0, solver=0, failed=0))
            for f in c: c[f] += v[f]
        for k, v in r['covers'].items(): covers[k] = covers.get(k, 0) + v
        functions.update(r['functions'])
        per_job.append(dict(job=tag, paths=r['paths'], instructions=r['steps'], queries=r['queries'], solver_s=round(r['solver_secs'], 2), s=round(r['secs'], 2)))
        lim = dict(r['limits'])
        done_ids = {}
        for v in r['violations']:
            code, out = native(b, r['harness'], r['args'], v['model']); replays += 1
            if confirms(v['id'], code, out):
                k = [x for x in known if x[0] == prop and x[1] == r['harness'] and x[2] == v['id'] and (not x[3] or re.search(x[3], out))]
                if k: known_hit.append(k[0][4]); continue
                if done_ids.get(v['id']): continue
                done_ids[v['id']] = True
                viols.append((tag, r, v, code, out))
            elif v['id'].startswith('runaway'): pass      # counted in limits
            else: problems.append('%s: counterexample to "%s" does not reproduce natively (exit %s): %s %s' % (tag, v['id'], code, v['model'], out[-300:].replace('\n', ' | ')))
        for k, n in lim.items(): problems.append('%s: %s (%d paths)' % (tag, k, n))
        if r['unknown']: problems.append('%s: %d solver queries without an answer' % (tag, r['unknown']))
        if r['left']: problems.append('%s: %d paths left' % (tag, r['left']))
        # every witness is replayed against the compiled code
        for cid, model in r['cover_models'].items():
            code, out = native(b, r['harness'], r['args'], model); replays += 1
            if code in (0, 1) and ('COVER ' + cid + '\n') in out: agree += 1
            else: problems.append('%s: witness for "%s" does not reproduce natively (exit %s): %s %s' % (tag, cid, code, model, out[-300:].replace('\n', ' | ')))
            if len(samples) < 12: samples.append(dict(job=tag, witness=cid, model=model, native=[l for l in out.split('\n') if l.startswith(('INPUT', 'COVER'))][:8]))
    if not viols:
        for c in ([] if lost else spec.get('covers', [])):
            if not covers.get(c): problems.append('vacuous: nothing reached the witness "%s"' % c)
        if not checks: problems.append('vacuous: no check was reached')
    own = sorted(f for f in functions if first_crate(f) in ('sudo_pair', 'sudo_plugin'))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=0, violations=len(viols),
        assumptions=spec.get('assumptions', []) + COMMON_ASSUMPTIONS,
        coverage=dict(states=agg['paths'] + agg['forks'], transitions=agg['steps'], traces_validated_against_impl=agree,
            samples=samples, exhaustive=not problems and not viols,
            explanation='states: path ends plus case splits of the symbolic exploration, each standing for every input that satisfies its path condition; transitions: LLVM instructions executed symbolically; traces validated: solver assignments replayed on the natively compiled code with the same outcome.',
            bounds=spec['bounds'], functions_encoded=demangle(own), functions_encoded_total=len(functions),
            assertions=checks, witnesses=covers, paths=agg['paths'], paths_cut_by_assumptions=agg['assumed_away'],
            queries_discharged=agg['queries'], queries_sat=agg['sat'], queries_unsat=agg['unsat'], queries_unknown=agg['unknown'], answers_from_cache=agg['cache_hits'],
            solver_s=round(solver_secs, 2), native_replays=replays, jobs=per_job, build_s=round(b['secs'], 1), ir_patches=b['patched'], jobs_lost=[' '.join([j[0]] + j[1]) for j in lost], engine_selftest=st.stdout.strip(), inconclusive=problems))
    ev['wall_s'] = round(time.time() - t0, 1)
    json.dump(ev, open(ev_path, 'w'), indent=1)
    for k in sorted(set(known_hit)): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('%s %s: %d paths, %d instructions, %d queries (%.1f s solver), %d replays, %.0f s' % (prop, tier, agg['paths'], agg['steps'], agg['queries'], solver_secs, replays, time.time() - t0))
    if viols:
        os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
        for n, (tag, r, v, code, out) in enumerate(viols[:10]):
            p = os.path.join(OUT, 'replay', '%s-%d.txt' % (prop, n))
            with open(p, 'w') as f:
                f.write('property %s is broken: %s\njob: %s\ninputs (bytes, in order of use): %s\n' % (prop, v['id'], tag, v['model']))
                f.write('replay: %s %s %s %s\n\n' % (b['exe'], r['harness'], v['model'] or '-', ' '.join(r['args'])))
                f.write('native run of the real code with these inputs, exit %s:\n%s\n\nwhere the path stopped:\n%s\n' % (code, out, '\n'.join(v['trace'])))
            if n < 3: print('\n'.join('    ' + l for l in (v['id'] + '\n' + out[-1200:]).split('\n')))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        sys.exit(1)
    if problems:
        for p in problems[:20]: print('INCONCLUSIVE ' + p)
        sys.exit(2)
    print('%s holds within the bounds' % prop)

if __name__ == '__main__': main()
