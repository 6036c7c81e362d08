#!/usr/bin/env python3-vt
"""Decides C36 for /repo/sample/bin/sudo_approve: shell.py OUT.json [quick|thorough]

The script is parsed and executed symbolically (bash_ast.py, bash_sym.py) with
symbolic arguments, uids, owner, group and mode of every file, names,
outcomes of every program it runs.  Every path is judged by the oracle below
and replayed with the real bash (sim.c keeps it from touching anything).
"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import z3
from bash_ast import Unknown, parse
from bash_sym import same, Run, Exit, Return, Loop, Infeasible, Evaluated, TooLong, Stats, S, bv64, conc, text, sym8, isdigit, strip_nl

SCRIPT = os.environ.get('SHELL_SCRIPT', '/repo/sample/bin/sudo_approve')
DIR = '/var/run/sudo_pair'
PURE = {'cut', 'basename', 'dirname', 'head', 'cat', 'grep', 'sleep', 'true', 'false'}
NOISE = {'stty', 'clear', 'tput', 'reset', 'logger', 'sleep'}

def key(items):
    return '.'.join(str(c) if isinstance(c, int) else ('%s:%s' % (c[0], z3.simplify(c[1]).sexpr()) if isinstance(c, tuple) else z3.simplify(c).sexpr()) for c in items)

class World:
    env = {}
    def __init__(s): s.files, s.names, s.sudo_uid, s.k = {}, {}, None, 0
    def u32(s, n): return z3.ZeroExt(32, z3.BitVec(n, 32))
    def bool(s, n): return z3.Bool(n)
    def me(s, run): return s.u32('me')
    def unset(s, run, n): return None
    def file(s, run, path):
        "facts of the file at a path: paths that can be the same have the same facts"
        for f in s.files.values():
            if same(f['path'], path): return f
        for f in s.files.values():
            if run.branch(run.eq(f['path'], tuple(path))): return f
        n = 'file%d.' % len(s.files)
        f = dict(path=tuple(path), exists=z3.Bool(n + 'exists'), uid=s.u32(n + 'uid'), gid=s.u32(n + 'gid'),
                 mode=z3.ZeroExt(52, z3.BitVec(n + 'mode', 12)), socket=z3.Bool(n + 'socket'), writable=z3.Bool(n + 'writable'))
        # sockets of sessions are all named after a uid and a pid
        pre = S(DIR + '/')
        if f['path'][:len(pre)] == pre if conc(path[:len(pre)]) else False:
            mid = f['path'][len(pre):-5]; dots = [i for i, c in enumerate(mid) if isinstance(c, int) and c == 46]
            ok = z3.BoolVal(False)
            if f['path'][-5:] == S('.sock') if conc(path[-5:]) else False:
                if len(dots) == 1: ok = z3.And([z3.BoolVal(True)] + [canonical(run, x)[1] for x in (mid[:dots[0]], mid[dots[0] + 1:])])
            run.add(z3.Implies(f['exists'], ok))
        s.files[len(s.files)] = f
        return f
    def name(s, run, db, t):
        "name of a user or group"
        t = z3.simplify(t)
        for d, u, n in s.names.values():
            if d == db and u.eq(t): return n
        for d, u, n in s.names.values():
            if d == db and run.branch(u == t): return n
        k = len(s.names)
        n = tuple(z3.BitVec('name%d.%d' % (k, i), 8) for i in range(2))
        for c in n: run.add(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)))
        # different ids have different names
        for d, u, m in s.names.values():
            if d == db: run.add(z3.Or([x != y for x, y in zip(m, n)]))
        s.names[k] = (db, t, n)
        return n
    def filetest(s, run, o, path):
        if len(path) == 0: return False
        f = s.file(run, path)
        if not run.branch(f['exists']): return False
        if o in ('-e', '-r'): return True
        if o == '-w': return run.branch(f['writable'])
        if o == '-S': return run.branch(f['socket'])
        if o == '-f': return not run.branch(f['socket'])
        if o in ('-h', '-L', '-d', '-p'): return False
        if o == '-O': return run.branch(f['uid'] == s.me(run))
        raise Unknown('[ %s ]' % o)
    def installed(s, run, name):
        if name in run.funcs: return 0
        return 0 if name in ('socat', 'sudo', 'stat', 'getent', 'id', 'stty', 'clear', 'cut', 'basename', 'grep', 'head', 'cat') else run.unknown('is %s installed' % name)
    def external(s, run, name, args):
        if '/' in name:
            if name in (text(run.zero),): raise Unknown('the script runs itself')
            name = name.rsplit('/', 1)[1]
        if name in PURE: return s.pure(run, name, args)
        call = dict(name=name, argv=[S(name)] + list(args), out=(), status=0)
        run.calls.append(call)
        f = getattr(s, 'x_' + name, None)
        if not f:
            if name not in NOISE: raise Unknown('the program ' + name)
            f = lambda run, a: ((), 0)
        n = sum(1 for c in run.calls)
        if run.branch(z3.Bool('fault%d' % n)): call['fault'] = True; out, st = (), 1
        else: out, st = f(run, list(args))
        call['out'], call['status'] = tuple(out), st
        run.write(out)
        return st
    def x_id(s, run, a):
        t = ' '.join(text(x) for x in a)
        if t in ('-u', '-u -r', '-ru', '-ur', '-r -u', '--user', '--user --real', '--real --user'): return (('dec', s.me(run)), 10), 0
        raise Unknown('id ' + t)
    def x_sudo(s, run, a): return (), 0
    def x_socat(s, run, a): return (), 0
    x_nc = x_ncat = x_socat
    def x_stty(s, run, a):
        if [text(x) for x in a] in (['-g'], ['--save']): return S('5:6\n'), 0
        return (), 0
    def x_stat(s, run, a):
        fmt, path, nl = None, None, True; i = 0
        while i < len(a):
            t = text(a[i]) if conc(a[i]) else None
            if t in ('-c', '--format', '--printf'): fmt = text(a[i + 1]); nl = t != '--printf'; i += 2; continue
            if t and t.startswith('--format='): fmt = t[9:]
            elif t and t.startswith('--printf='): fmt = t[9:]; nl = False
            elif t and t.startswith('-c') and len(t) > 2: fmt = t[2:]
            elif t in ('-L', '--dereference', '--'): pass
            elif t and t[0] == '-': raise Unknown('stat ' + t)
            elif path is not None: raise Unknown('stat of several files')
            else: path = a[i]
            i += 1
        if fmt is None or path is None: raise Unknown('stat')
        f = s.file(run, path)
        if not run.branch(f['exists']): return (), 1
        r, i = [], 0
        while i < len(fmt):
            if fmt[i] == '%':
                d = fmt[i + 1]; i += 2
                if d == 'u': r.append(('dec', f['uid']))
                elif d == 'g': r.append(('dec', f['gid']))
                elif d == 'a': r.append(('oct', f['mode']))
                elif d == 'U': r += s.name(run, 'passwd', f['uid'])
                elif d == 'G': r += s.name(run, 'group', f['gid'])
                elif d == 'n': r += path
                elif d == 'F': r += S('socket' if run.branch(f['socket']) else 'regular file')
                elif d == '%': r.append(37)
                else: raise Unknown('stat %' + d)
            elif fmt[i] == '\\' and not nl: r += S({'n': '\n', 't': '\t'}.get(fmt[i + 1]) or run.unknown('stat')); i += 2
            else: r += S(fmt[i]); i += 1
        return tuple(r) + ((10,) if nl else ()), 0
    def x_getent(s, run, a):
        if a and conc(a[0]) and text(a[0]) == '--': a = a[1:]
        if len(a) != 2 or text(a[0]) not in ('passwd', 'group'): raise Unknown('getent')
        db, k = text(a[0]), a[1]
        if not k: return (), 2
        t = run.integer(k) if not any(isinstance(c, tuple) for c in k) else (k[0][1] if len(k) == 1 and k[0][0] == 'dec' else run.unknown('getent'))
        n = s.name(run, db, t)
        if not run.branch(z3.Bool('known.%s.%s' % (db, key((('dec', t),))))): return (), 2
        num = (('dec', t),)
        if db == 'passwd': return n + S(':x:') + num + S(':7::/:/bin/sh\n'), 0
        return n + S(':x:') + num + S(':\n'), 0
    def pure(s, run, name, a):
        if name in ('true', 'sleep'): return 0
        if name == 'false': return 1
        if name in ('basename', 'dirname'):
            a = [x for x in a if not (conc(x) and text(x) == '--')]
            if len(a) != 1: raise Unknown(name)
            x = text(a[0])
            run.write(S((os.path.basename(x) if name == 'basename' else os.path.dirname(x)) + '\n')); return 0
        if name == 'cut':
            t = [text(x) for x in a]; d, f = '\t', None; i = 0
            while i < len(t):
                x = t[i]
                if x == '-d': i += 1; d = t[i]
                elif x.startswith('-d'): d = x[2:]
                elif x.startswith('--delimiter='): d = x[12:]
                elif x == '-f': i += 1; f = t[i]
                elif x.startswith('-f'): f = x[2:]
                elif x.startswith('--fields='): f = x[9:]
                else: raise Unknown('cut ' + x)
                i += 1
            if not f or not f.isdigit() or len(d) != 1: raise Unknown('cut')
            for line in s.lines(run):
                parts, cur = [], []
                for c in line:
                    if s.is_(run, c, ord(d)): parts.append(cur); cur = []
                    else: cur.append(c)
                parts.append(cur)
                run.write((line if len(parts) == 1 else tuple(parts[int(f) - 1]) if int(f) <= len(parts) else ()) + (10,))
            return 0
        if name == 'head':
            if [text(x) for x in a] not in (['-n1'], ['-1'], ['-n', '1']): raise Unknown('head')
            l = s.lines(run)
            if l: run.write(l[0] + (10,))
            return 0
        if name == 'cat':
            if a: raise Unknown('cat')
            run.write(run.stdin or ()); return 0
        if name == 'grep':
            fl, pat = '', None
            for x in a:
                t = text(x)
                if t == '--': continue
                if t[:1] == '-' and pat is None: fl += t[1:]
                elif pat is None: pat = t
                else: raise Unknown('grep of a file')
            if set(fl) - set('Eqxs') or pat is None or ('E' not in fl and re.search(r'[+?{}()|\\]', pat)): raise Unknown('grep')
            src = run.ere(pat)
            if 'x' in fl: src = '^(?:' + src + ')\\Z'
            found = False
            for l in s.lines(run):
                if run.branch(run.matches(l, src)):
                    found = True
                    if 'q' not in fl: run.write(l + (10,))
            return 0 if found else 1
        raise Unknown(name)
    def is_(s, run, c, b):
        if isinstance(c, int): return c == b
        if isinstance(c, tuple):
            if chr(b).isdigit() or b == 45: raise Unknown('cut')
            return False
        return run.branch(c == b)
    def lines(s, run):
        r, cur = [], []
        for c in run.stdin or ():
            if s.is_(run, c, 10): r.append(tuple(cur)); cur = []
            else: cur.append(c)
        if cur: r.append(tuple(cur))
        return r

# ---------------------------------------------------------------- one path
def start(ast, job, decisions):
    w = World()
    run = Run(ast, w, decisions)
    run.zero = S(SCRIPT)
    run.w.env = {}
    args = []
    for k, n in enumerate(job['lens']):
        a = [z3.BitVec('arg%d.%d' % (k, i), 8) for i in range(n)]
        for c in a: run.add(c != 0)
        if n >= 4 and not job.get('any'): run.add(z3.And([isdigit(c) for c in a]))
        near = {10: b'429496', 19: b'922337203685477', 20: b'1844674407370955'}
        if n in near and not job.get('any'): run.add(z3.And([c == x for c, x in zip(a[:-4], near[n])]))
        if not job.get('wide'): run.add(z3.And([z3.BoolVal(True)] + [z3.ULE(c, 127) for c in a]))
        args.append(tuple(a))
    run.args = args; run.given = args
    for k, p in (job.get('payload') or {}).items():
        run.add(z3.Or([z3.And([c == x for c, x in zip(args[k], q)]) for q in Run.PAYLOADS if len(q) == len(args[k])]))
    if job['sudo']:
        w.sudo_uid = w.u32('sudo_uid')
        run.scopes[0]['SUDO_UID'] = dict(v=(('dec', w.sudo_uid),), i=False, r=False)
        run.ruid = w.sudo_uid
    else: run.ruid = w.me(run)
    if job.get('trace'): run.scopes[0]['TRACE'] = dict(v=S('1'), i=False, r=False)
    end = 'exit'
    try:
        try: run.run(ast)
        except Exit as e: run.status = e.status
        run.atexit()
    except Evaluated: end = 'evaluated'
    run.status &= 255
    return run, end

def value(run, seg):
    "number a segment of a path or an argument spells, and the condition that it is one"
    if len(seg) == 1 and isinstance(seg[0], tuple) and seg[0][0] == 'dec': return seg[0][1], z3.BoolVal(True)
    if not seg or any(isinstance(c, tuple) for c in seg): return None, z3.BoolVal(False)
    t = bv64(0)
    for c in seg: t = t * 10 + z3.ZeroExt(56, sym8(c) - 48)
    return t, z3.And([isdigit(c) for c in seg])

def canonical(run, a):
    "the uid or pid an argument spells, if sudo would spell it that way"
    t, ok = value(run, a)
    if t is None: return None, z3.BoolVal(False)
    if any(isinstance(c, tuple) for c in a): return t, z3.ULT(t, bv64(2**32 - 1))
    return t, z3.And(ok, z3.BoolVal(len(a) <= 10), z3.Or(z3.BoolVal(len(a) == 1), sym8(a[0]) != 48), z3.ULT(t, bv64(2**32 - 1)))

def judge(run, end):
    "[(what is wrong, condition under which it is)]"
    T = z3.BoolVal(True); bad = []
    if end == 'evaluated': return [('an argument is evaluated as code', T)]
    acts = [c for c in run.calls if c['name'] in ('socat', 'nc', 'ncat', 'sudo')]
    if len(run.given) != 2:
        if acts: bad.append(('connects or changes user without a uid and a pid', T))
        if run.status == 0: bad.append(('succeeds without a uid and a pid', T))
        return bad
    (u, uok), (p, pok) = canonical(run, run.given[0]), canonical(run, run.given[1])
    both = z3.And(uok, pok)
    connected = []
    for i, c in enumerate(acts):
        if i: bad.append(('connects or changes user twice', T))
        if c['name'] == 'sudo':
            a = list(c['argv'][1:]); user = group = None
            while a and isinstance(a[0][0] if a[0] else 0, int) and a[0] and a[0][0] == 45:
                pre = ''.join(chr(x) if isinstance(x, int) else '\0' for x in a[0])
                o = a.pop(0)
                if pre == '--': break
                if pre in ('-u', '--user'): user = a.pop(0)
                elif pre in ('-g', '--group'): group = a.pop(0)
                elif pre.startswith('--user='): user = o[7:]
                elif pre.startswith('--group='): group = o[8:]
                elif pre.startswith('-u'): user = o[2:]
                elif pre.startswith('-g'): group = o[2:]
                elif pre in ('-n', '-H', '-k'): pass
                else: raise Unknown('sudo ' + pre)
            if len(a) != 3 or not conc(a[0]) or text(a[0]) not in (SCRIPT, '/usr/bin/sudo_approve') : bad.append(('runs something other than itself through sudo', T)); continue
            (U, ok1), (P, ok2) = value(run, a[1]), value(run, a[2])
            if U is None or P is None: bad.append(('passes on something other than two numbers', T)); continue
            bad.append(('passes on something other than two numbers', z3.Not(z3.And(ok1, ok2))))
            bad.append(('asks for another session', z3.And(both, z3.Not(z3.And(U == u, P == p)))))
            f = sock(run, a[1], a[2])
            if f is None: bad.append(('changes user without having looked at the socket', T)); continue
            bad.append(('helps a user approve their own session', U == run.ruid))
            if (user is None) == (group is None): bad.append(('changes to neither the owner nor the group', T)); continue
            db, who, idv, bit = ('passwd', user, f['uid'], 0o200) if user is not None else ('group', group, f['gid'], 0o020)
            names = [n for d, t, n in run.w.names.values() if d == db and run.must(t == idv)]
            if who and isinstance(who[0], int) and who[0] == 35: okw = run.eq(who[1:], (('dec', idv),))
            else: okw = z3.Or([z3.BoolVal(not who)] + [run.eq(who, n) for n in names])
            bad.append(('becomes somebody other than the socket belongs to', z3.Not(okw)))
            bad.append(('becomes somebody who may not write to the socket', (f['mode'] & bit) == 0))
        else:
            path = None
            for a in c['argv'][1:]:
                pre = ''.join(chr(x) if isinstance(x, int) else '\0' for x in a)
                m = re.match(r'(?i)(unix-connect|unix-client|unix):', pre)
                if m: path = a[m.end():]
                elif c['name'] != 'socat' and pre.startswith('/'): path = a
            if path is None: raise Unknown('an address of socat')
            # options of the address, such as ,forever
            cut = [i for i, x in enumerate(path) if isinstance(x, int) and x == 44]
            if cut: path = path[:cut[0]]
            pre = S(DIR + '/')
            if path[:len(pre)] != pre or path[-5:] != S('.sock'): bad.append(('connects elsewhere', T)); continue
            mid = path[len(pre):-5]
            dots = [i for i, x in enumerate(mid) if isinstance(x, int) and x == 46]
            if len(dots) != 1: bad.append(('connects elsewhere', T)); continue
            (U, ok1), (P, ok2) = value(run, mid[:dots[0]]), value(run, mid[dots[0] + 1:])
            if U is None or P is None: bad.append(('connects elsewhere', T)); continue
            bad.append(('connects elsewhere', z3.Not(z3.And(ok1, ok2))))
            bad.append(('connects to another session', z3.And(both, z3.Not(z3.And(U == u, P == p)))))
            bad.append(('lets a user approve their own session', U == run.ruid))
            f = sock(run, mid[:dots[0]], mid[dots[0] + 1:])
            if f is None: bad.append(('connects without having looked at the socket', T)); continue
            bad.append(('connects as somebody who may not write to the socket', z3.Not(f['writable'])))
            connected.append(c)
    if not acts:
        if run.status == 0: bad.append(('gives up without saying so', T))
        # somebody else's session that can be approved is
        if not any(c.get('fault') for c in run.calls):
            for f in run.w.files.values():
                known = [z3.Bool('known.%s.%s' % (d, key((('dec', t),)))) for d, t, n in run.w.names.values()]
                bad.append(('refuses a pair', z3.And([both, u != run.ruid if u is not None else T, f['exists'], f['socket'], z3.Or(f['writable'], (f['mode'] & 0o220) != 0)] + known) if u is not None and p is not None else z3.BoolVal(False)))
    elif connected == [] and acts and acts[0]['name'] == 'sudo':
        f = next(iter(run.w.files.values()), None)
        if f is not None: bad.append(('changes user although the socket can be written', z3.And(f['exists'], f['writable'])))
    return bad

def sock(run, u, p):
    want = S(DIR + '/') + tuple(u) + S('.') + tuple(p) + S('.sock')
    for f in run.w.files.values():
        if same(f['path'], want): return f
    for f in run.w.files.values():
        if run.must(run.eq(f['path'], want)): return f
    return None

# ---------------------------------------------------------------- replay
def concrete(m, items):
    def ev(t): return m.eval(t, model_completion=True)
    r = b''
    for c in items:
        if isinstance(c, int): r += bytes([c])
        elif isinstance(c, tuple):
            v = ev(c[1])
            r += (str(v.as_signed_long()) if c[0] == 'dec' else '%o' % v.as_long()).encode()
        else: r += bytes([ev(c).as_long()])
    return r

GRACE = 30
STOP = os.path.join(os.environ.get('SHELL_OUT', '/tmp'), 'shell.stop')
class Sim:
    def __init__(s):
        s.dir = tempfile.mkdtemp(prefix='sim', dir=os.environ.get('SHELL_OUT', '/tmp'))
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-DSHIM', HERE + '/sim.c', '-o', s.dir + '/shim.so', '-ldl'], check=True)
        subprocess.run(['gcc', '-O1', HERE + '/sim.c', '-o', s.dir + '/stub'], check=True)
        os.mkdir(s.dir + '/bin')
        for n in ('id', 'stat', 'getent', 'sudo', 'socat', 'nc', 'ncat', 'x'): os.link(s.dir + '/stub', s.dir + '/bin/' + n)
        for n in NOISE:
            if n not in PURE: os.link(s.dir + '/stub', s.dir + '/bin/' + n)
        for n in PURE: os.symlink(shutil.which(n), s.dir + '/bin/' + n)
        s.n = 0
    def close(s): shutil.rmtree(s.dir)
    def prepare(s, run, m, job):
        def ev(t): return m.eval(t, model_completion=True)
        files = ''.join('%s %d %d %d %d %d %d\n' % (concrete(m, f['path']).hex(), z3.is_true(ev(f['exists'])), ev(f['uid']).as_long(), ev(f['gid']).as_long(), ev(f['mode']).as_long(), z3.is_true(ev(f['socket'])), z3.is_true(ev(f['writable'])))
                        for f in run.w.files.values() if concrete(m, f['path']).startswith(b'/'))
        hexed = lambda c: '.'.join(concrete(m, a).hex() for a in c['argv'])
        resp = ''.join('%s %d %s\n' % (hexed(c), c['status'], concrete(m, c['out']).hex()) for c in run.calls)
        return dict(files=files, resp=resp, trace=[hexed(c) for c in run.calls], args=[concrete(m, a) for a in run.given],
                    me=ev(run.w.me(run)).as_long(), sudo_uid=ev(run.w.sudo_uid).as_long() if run.w.sudo_uid is not None else None, trace_env=bool(job.get('trace')), status=run.status)
    def replay(s, c):
        d = tempfile.mkdtemp(dir=s.dir)
        try:
            os.symlink(s.dir + '/bin', d + '/bin')
            open(d + '/files', 'w').write(c['files']); open(d + '/resp', 'w').write(c['resp'])
            env = dict(PATH=s.dir + '/bin', LD_PRELOAD=s.dir + '/shim.so', SIM_DIR=d, SIM_UID=str(c['me']), LC_ALL='C')
            if c['sudo_uid'] is not None: env['SUDO_UID'] = str(c['sudo_uid'])
            if c['trace_env']: env['TRACE'] = '1'
            try: r = subprocess.run([b'/bin/bash', SCRIPT.encode()] + c['args'], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20, cwd=d)
            except subprocess.TimeoutExpired: return None, [], 'timed out'
            t = open(d + '/trace').read().split('\n')[:-1] if os.path.exists(d + '/trace') else []
            return r.returncode, t, r.stdout.decode('latin1')
        finally: shutil.rmtree(d)

def show(hexes): return ' '.join(repr(bytes.fromhex(h).decode('latin1'))[1:-1] for h in hexes.split('.'))

def describe(c): return 'arguments %s, uid %d, SUDO_UID %s' % (' '.join(repr(a)[1:] for a in c['args']), c['me'], c['sudo_uid'])

# ---------------------------------------------------------------- all paths
def jobs(tier):
    js = []
    lens = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (0, 1), (1, 0), (0, 0), (10, 1), (1, 7)]
    if tier == 'thorough': lens += [(3, 3), (4, 4), (5, 5), (10, 7), (10, 10), (7, 10), (19, 1), (1, 19), (20, 1), (1, 20), (20, 20)]
    else: lens += [(20, 1)]
    for l in lens:
        for sudo in (True, False): js.append(dict(lens=l, sudo=sudo))
    js.append(dict(lens=(1, 1), sudo=True, trace=True)); js.append(dict(lens=(2, 2), sudo=True, wide=True))
    for n in sorted({len(p) for p in Run.PAYLOADS}):
        for k in (0, 1):
            l = [1, 1]; l[k] = n
            js.append(dict(lens=tuple(l), sudo=True, any=True, payload={k: True}))
    for l in ((), (1,), (1, 1, 1), (2, 2, 2, 2)): js.append(dict(lens=l, sudo=True))
    return js

def explore(job, deadline):
    "runs in a process of its own"
    z3.main_ctx()
    Stats.__init__
    for k in ('queries', 'sat', 'unsat', 'unknown', 'instrs', 'branches'): setattr(Stats, k, 0)
    Stats.secs = 0.0
    res = dict(job=job, paths=0, problems=[], viols=[], replays=[], checks={}, covers={})
    try: ast = parse(open(SCRIPT, encoding='latin1').read())
    except Unknown as x: res['problems'].append('the script cannot be encoded: %s' % x); return res, stats()
    sim = Sim.__new__(Sim)
    todo = [[]]
    while todo:
        if os.path.exists(STOP) and time.time() > os.stat(STOP).st_mtime + GRACE: res['problems'].append('stopped: a violation was found'); break
        if time.time() > deadline: res['problems'].append('time is up, %d paths left' % len(todo)); break
        dec = todo.pop()
        run = None
        try:
            try: run, end = start(ast, job, dec)
            except (Unknown, TooLong, Infeasible) as x:
                raise
            res['paths'] += 1
            for what, c in judge(run, end):
                k = res['checks'].setdefault(what, [0, 0]); k[0] += 1
                c = z3.simplify(c)
                if z3.is_false(c): continue
                if run.sat(c):
                    k[1] += 1
                    if not os.path.exists(STOP): open(STOP, 'w').close()
                    if len(res['viols']) < 6 and not any(v[0] == what for v in res['viols']):
                        res['viols'].append((what, sim.prepare(run, run.solver.model(), job), end))
            if not run.sat(): raise Infeasible()
            m = run.solver.model()
            if end == 'exit':
                res['replays'].append(sim.prepare(run, m, job))
                for c in run.calls:
                    if c['name'] in ('socat', 'sudo'):
                        n = c['name'] + (' ' + text(c['argv'][1]) if c['name'] == 'sudo' and conc(c['argv'][1]) else ''); res['covers'][n] = res['covers'].get(n, 0) + 1
                if not any(c['name'] in ('socat', 'sudo') for c in run.calls): res['covers']['gives up'] = res['covers'].get('gives up', 0) + 1
        except Infeasible: pass
        except Unknown as x: res['problems'].append('not encoded: %s' % x)
        except TooLong: res['problems'].append('a path runs on and on')
        # alternatives found on the way
        todo += (run or LAST[0]).todo
        if res['paths'] > 20000: res['problems'].append('too many paths'); break
    res['problems'] = sorted(set(res['problems']))[:5]
    return res, stats()
def stats(): return dict(queries=Stats.queries, sat=Stats.sat, unsat=Stats.unsat, unknown=Stats.unknown, secs=Stats.secs, instrs=Stats.instrs, branches=Stats.branches)
LAST = [None]
_init = Run.__init__
def _rinit(s, *a, **k): _init(s, *a, **k); LAST[0] = s
Run.__init__ = _rinit

def main():
    out, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    secs = float(os.environ.get('SHELL_SECS', 600 if tier == 'quick' else 2700))
    js = jobs(tier); t0 = time.time(); deadline = t0 + secs
    random.seed(int(os.environ.get('VERIF_SEED', '1') or 1))
    tot = dict(paths=0, problems=[], viols=[], checks={}, covers={}, replays=0, agree=0, jobs=[], samples=[])
    st = dict(queries=0, sat=0, unsat=0, unknown=0, secs=0.0, instrs=0, branches=0)
    if os.path.exists(STOP): os.unlink(STOP)
    sim = Sim()
    try:
        cases = []
        with cf.ProcessPoolExecutor(8) as ex:
            for r, s in ex.map(explore, js, [deadline] * len(js)):
                for k in st: st[k] += s[k]
                tot['paths'] += r['paths']
                tag = 'arguments of %s bytes, %s sudo' % (list(r['job']['lens']), 'under' if r['job']['sudo'] else 'without')
                tot['jobs'].append(dict(job=tag, paths=r['paths'], queries=s['queries']))
                tot['problems'] += ['%s: %s' % (tag, p) for p in r['problems']]
                for k, v in r['checks'].items():
                    c = tot['checks'].setdefault(k, [0, 0]); c[0] += v[0]; c[1] += v[1]
                for k, v in r['covers'].items(): tot['covers'][k] = tot['covers'].get(k, 0) + v
                cases += [(None, c, 'exit', tag) for c in r['replays']] + [(w, c, e, tag) for w, c, e in r['viols']]
        wit = [c for c in cases if c[0] is None]; random.shuffle(wit)
        wit = wit[:400 if tier == 'quick' else 4000]
        cases = [c for c in cases if c[0] is not None] + wit
        with cf.ThreadPoolExecutor(8) as ex: results = list(ex.map(lambda c: sim.replay(c[1]), cases))
        seen = set()
        for (what, c, end, tag), (code, trace, o) in zip(cases, results):
            tot['replays'] += 1
            if end == 'evaluated': ok = any(bytes.fromhex(t.split('.')[0]) == b'x' for t in trace)
            else: ok = trace == c['trace'] and code is not None and (code == 0) == (c['status'] == 0)
            if ok: tot['agree'] += 1
            if what is None:
                if not ok: tot['problems'].append('%s: bash does something else (%s): expected %s [%d], got %s [%s] %s' % (tag, describe(c), '; '.join(map(show, c['trace'])), c['status'], '; '.join(map(show, trace)), code, o[-200:]))
                elif len(tot['samples']) < 8: tot['samples'].append(dict(job=tag, inputs=describe(c), commands=[show(t) for t in trace], exit=code))
            elif ok:
                if what not in seen: seen.add(what); tot['viols'].append(dict(what=what, job=tag, inputs=describe(c), args=[a.hex() for a in c['args']], files=c['files'], commands=[show(t) for t in trace], exit=code, output=o[-500:]))
            else: tot['problems'].append('%s: counterexample to "%s" does not reproduce (%s): expected %s [%d], got %s [%s] %s' % (tag, what, describe(c), '; '.join(map(show, c['trace'])), c['status'], '; '.join(map(show, trace)), code, o[-200:]))
    finally:
        sim.close()
        if os.path.exists(STOP): os.unlink(STOP)
    tot['stats'] = st; tot['secs'] = time.time() - t0
    funcs = re.findall(r'^\s*(?:function\s+)?([A-Za-z_]\w*)\s*\(\)', open(SCRIPT, encoding='latin1').read(), re.M)
    tot['functions'] = funcs
    json.dump(tot, open(out, 'w'), indent=1)

if __name__ == '__main__': main()
