#!/usr/bin/env python3
"""Build and run the checks.

  run.py setup              build everything every check needs
  run.py check ID           run one check (tier from VERIF_TIER, default quick)
  run.py replay FILE        run the recorded case of a violation again
  run.py list               list the checks
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
CXX = 'g++'
BASE = ['-std=c++11', '-g', '-DWITH_LONG_DOUBLE', '-O3', '-fPIC']       # the flags of /repo's CMakeLists
HARN = ['-std=c++17', '-O2', '-DWITH_LONG_DOUBLE', '-w']

# property -> harness source, what of /repo it links, arguments
CHECKS = {}
def check(pid, src, link='core', level='model_checking', assumptions=(), timeout=780, **kw):
    CHECKS[pid] = dict(src=src, link=link, level=level, assumptions=list(assumptions), timeout=timeout, **kw)

def not_applicable(pid, reason): pass

exec(open(os.path.join(V, 'checks.py')).read())

_inc = {}
def includes(path, dirs):
    """Transitive closure of quoted includes that exist on the given dirs."""
    key = (path, tuple(dirs))
    if key in _inc:
        return _inc[key]
    seen, todo = [], [path]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.append(p)
        for inc in re.findall(r'^\s*#\s*include\s*["<]([^">]+)[">]', open(p, errors='replace').read(), re.M):
            for d in [os.path.dirname(p)] + dirs:
                q = os.path.normpath(os.path.join(d, inc))
                if os.path.isfile(q):
                    todo.append(q)
                    break
    _inc[key] = sorted(seen)
    return _inc[key]

_hash = {}
def fhash(p):
    if p not in _hash:
        _hash[p] = hashlib.sha256(open(p, 'rb').read()).hexdigest()
    return _hash[p]

def obj(src, flags, incs, extra=()):
    """(object path, command) for a source file; the path is named by content."""
    files = includes(src, list(incs))
    for e in extra:
        files = files + includes(e, list(incs))
    h = hashlib.sha256(('\n'.join([CXX] + flags + [os.path.relpath(f, '/') + ' ' + fhash(f) for f in files])).encode()).hexdigest()[:32]
    out = os.path.join(BUILD, 'obj', h + '.o')
    cmd = [CXX] + flags + ['-I' + i for i in incs] + ['-c', src, '-o', out + '.%d.tmp' % os.getpid()]
    return out, cmd

def compile_all(jobs):
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    todo = {}
    for out, cmd in jobs:
        if not os.path.exists(out):
            todo[out] = cmd
    def one(item):
        out, cmd = item
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return ' '.join(cmd) + '\n' + r.stdout
        os.replace(cmd[-1], out)
        return None
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(one, sorted(todo.items(), key=lambda i: -os.path.getsize(i[1][i[1].index('-c') + 1]))) if e]
    if errs:
        sys.stderr.write(errs[0][:6000] + '\n')
        raise SystemExit(2)

def has_main(p):
    return re.search(r'^\s*int\s+main\s*\(', open(p, errors='replace').read(), re.M) is not None

def repo_sources(what):
    s = sorted(glob.glob(REPO + '/source/**/*.cpp', recursive=True))
    if what in ('sm',):
        s += sorted(f for f in glob.glob(REPO + '/SM/**/*.cpp', recursive=True) if not has_main(f))
        s += sorted(f for f in glob.glob(REPO + '/user-dir/**/*.cpp', recursive=True) if not has_main(f))
    if what == 'none':
        s = []
    return s

def plan(c):
    """Objects to link for one check, as (out, cmd) pairs."""
    repo_flags = BASE + c.get('repo_flags', [])
    extra = []
    for f in c.get('force_include', []):
        p = os.path.join(V, 'src', f)
        repo_flags = repo_flags + ['-include', p]
        extra.append(p)
    jobs = []
    for s in repo_sources(c['link']):
        jobs.append(obj(s, repo_flags, [REPO + '/include'] + ([REPO + '/SM'] if '/SM/' in s else []), extra))
    incs = [os.path.join(V, 'src'), REPO + '/include', REPO + '/SM/include', REPO + '/SM']
    hflags = HARN + c.get('flags', [])
    srcs = [os.path.join(V, 'src', c['src'])]
    srcs += [os.path.join(V, 'src', x) for x in c.get('more', [])]
    for pat in c.get('more_glob', []):
        srcs += sorted(glob.glob(os.path.join(V, 'src', pat)))
    for s in srcs:
        jobs.append(obj(s, hflags, incs))
    for s in c.get('plain', []):            # without the flags of this check
        jobs.append(obj(os.path.join(V, 'src', s), HARN, incs))
    return jobs

def build(c, jobs=None):
    jobs = jobs or plan(c)
    compile_all(jobs)
    h = hashlib.sha256('\n'.join([o for o, _ in jobs] + c.get('ldflags', [])).encode()).hexdigest()[:32]
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    exe = os.path.join(BUILD, 'bin', os.path.splitext(os.path.basename(c['src']))[0] + '-' + h)
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run([CXX] + [o for o, _ in jobs] + c.get('ldflags', []) + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-6000:] + '\n')
            raise SystemExit(2)
        os.replace(tmp, exe)
    return exe

def pieces(pid):
    """The harnesses of a check: its own and, for some, those of other properties built in another configuration."""
    c = CHECKS[pid]
    r = [dict(c, prop=pid)]
    for p in c.get('parts', []):
        o = CHECKS[p]
        r.append(dict(o, prop=p, flags=o.get('flags', []) + c.get('flags', []), repo_flags=o.get('repo_flags', []) + c.get('repo_flags', []), ldflags=o.get('ldflags', []) + c.get('ldflags', [])))
    return r

def prune(keep_gb=6):
    """Keep the object cache from growing without bound."""
    fs = [(os.path.getatime(f), os.path.getsize(f), f) for f in glob.glob(BUILD + '/*/*')]
    tot = sum(f[1] for f in fs)
    for _, sz, f in sorted(fs):
        if tot < keep_gb << 30:
            break
        try:
            os.unlink(f); tot -= sz
        except OSError:
            pass

def known_findings(pid):
    """Lines 'known: property=<id> id=<name> <text>' of the committed file."""
    r = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) id=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    return r

def run_exe(exe, c, pid, thorough, case=None, timeout=None):
    cmd = [exe, '--prop', c['prop'], '--jobs', str(os.cpu_count() or 4)] + c.get('args', [])
    for k in known_findings(pid):
        cmd += ['--known', k]
    if thorough:
        cmd.append('--thorough')
    if case is not None:
        cmd += ['--case', case]
    env = dict(os.environ, LC_ALL='C', ASAN_OPTIONS='abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:symbolize=1', UBSAN_OPTIONS='abort_on_error=1')
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        sys.stderr.write('check timed out\n')
        raise SystemExit(4)
    m = re.search(r'^RESULT (.*)$', r.stdout, re.M)
    if r.returncode or not m:
        sys.stderr.write('harness failed: exit %s\n%s\n%s\n' % (r.returncode, r.stdout[-2000:], r.stderr[-4000:]))
        raise SystemExit(3)
    res = json.loads(m.group(1), strict=False)
    why = re.search(r'runtime error: .*|^SUMMARY: .*|Assertion .* failed.*', r.stderr, re.M)     # what a sanitizer said
    if why and case is not None:
        for v in res['violations']:
            v['msg'] += ': ' + why.group(0)
    return res

def run_case(pid, thorough, key, timeout):
    q = pieces(pid)[0]
    m = re.match(r'@(\w+)@(.*)', key, re.S)
    if m:
        q, key = [x for x in pieces(pid)[1:] if x['prop'] == m.group(1)][0], m.group(2)
    return run_exe(build(q), q, pid, thorough, case=key, timeout=timeout)

def do_check(pid):
    t0 = time.time()
    c = CHECKS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ps = pieces(pid)
    exes = [build(q) for q in ps]
    def whole():
        t1, r = time.time(), None
        for n, (q, exe) in enumerate(zip(ps, exes)):
            x = run_exe(exe, q, pid, tier == 'thorough', timeout=None if tier == 'thorough' else max(10, c['timeout'] - (time.time() - t1)))
            if n:
                for v in x['violations']: v['key'] = '@' + q['prop'] + '@' + v['key']; v['msg'] = q['prop'] + ' in this configuration: ' + v['msg']
                x['bounds'] = {q['prop'] + ' ' + k: v for k, v in x['bounds'].items()}
                x['counters'] = {q['prop'] + ' ' + k: v for k, v in x['counters'].items()}
                for k in ('states', 'transitions', 'traces', 'distinct_outcomes'): r[k] += x[k]
                for k in ('violations', 'samples', 'known'): r[k] += x[k]
                for k in ('bounds', 'counters'): r[k].update(x[k])
                r['exhaustive'] = r['exhaustive'] and x['exhaustive']
            else: r = x
        return r
    res = whole()
    confirmed = []
    for v in res['violations']:
        if confirmed and time.time() - t0 > 600:
            break
        # replay before report: the recorded case, alone, must fail again
        rr = run_case(pid, tier == 'thorough', v['key'], 300)
        if rr['violations']:
            confirmed.append((v, rr['violations'][0]))
    if res['violations'] and not confirmed:
        sys.stderr.write('violation did not replay: %s\n' % json.dumps(res['violations'][:2]))
        # a failure that needs the whole run (state leaking between cases): run everything again
        for i in range(2):
            res2 = whole()
            if res2['violations']:
                confirmed = [(v, v) for v in res2['violations']]
                break
        else:
            raise SystemExit(5)
    cov = dict(states=res['states'], transitions=res['transitions'], traces_validated_against_impl=res['traces'],
               distinct_outcomes=res['distinct_outcomes'], exhaustive=bool(res['exhaustive']),
               samples=res['samples'], bounds=res['bounds'], counters=res['counters'])
    ev = dict(property=pid, tier=tier, seed=seed, level=c['level'], coverage=cov, assumptions=c['assumptions'],
              wall_s=round(time.time() - t0, 3), violations=len(confirmed))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    kf = known_findings(pid)
    for k in res['known']:
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]))
    print('%s %s: states=%d transitions=%d traces=%d distinct_outcomes=%d exhaustive=%s %.1fs' % (
        pid, tier, res['states'], res['transitions'], res['traces'], res['distinct_outcomes'], res['exhaustive'], time.time() - t0))
    if confirmed:
        os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
        for i, (v, rv) in enumerate(confirmed):
            path = os.path.join(V, 'replays', '%s-%d.json' % (pid, i))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, tier=tier, key=v['key'], message=v['msg'], replayed_message=rv['msg'],
                               replay_cmd='python3 run.py replay ' + os.path.relpath(path, V)), f, indent=1)
            print('  case %s: %s' % (v['key'][:300], (rv if rv['msg'].startswith(v['msg']) else v)['msg'][:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.stdout.flush()
        raise SystemExit(1)
    if res['states'] == 0 or res['traces'] == 0:
        sys.stderr.write('nothing was explored\n')
        raise SystemExit(6)

def main():
    a = sys.argv[1:]
    if a[:1] == ['setup']:
        t0 = time.time()
        plans = [(q, plan(q)) for p in CHECKS for q in pieces(p)]
        compile_all([j for _, p in plans for j in p])
        for q, p in plans:
            build(q, p)
        prune()
        print('setup done in %.1fs' % (time.time() - t0))
    elif a[:1] == ['check']:
        do_check(a[1])
    elif a[:1] == ['replay']:
        r = json.load(open(a[1]))
        res = run_case(r['property'], r['tier'] == 'thorough', r['key'], 600)
        for v in res['violations']:
            print('still fails: %s' % v['msg'])
        raise SystemExit(1 if res['violations'] else 0)
    elif a[:1] == ['list']:
        print('\n'.join(sorted(CHECKS)))
    else:
        print(__doc__)
        raise SystemExit(2)

main()
