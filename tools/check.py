#!/usr/bin/env python3
"""check.py <property> : decides one property.  See DESIGN.md.
   check.py --replay <file> : runs the failing case of a violation again."""
import collections, glob, hashlib, json, os, re, random, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import gen
from suites import SUITES, CHECKS, TRACE, TRACE_BIG, TRACE_DEEP, TRACE_VERYDEEP, TRACE_ABYSS

REPO = os.environ.get('VERIF_REPO', '/repo')
INC = os.path.join(REPO, 'include')
HARN = os.path.join(VERIF, 'harness')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
CPUS = os.cpu_count() or 4

class ToolError(Exception):
    pass

def sh(cmd, timeout, cwd=None, env=None):
    """-> (rc, output); rc = None: timeout"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out.decode(errors='replace')

def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

_lock = threading.Lock()
_once = {}
def once(key, f):
    """runs f once per key, also if asked for by several threads"""
    with _lock:
        e = _once.get(key)
        if e is None:
            e = _once[key] = [threading.Lock(), None, None]
    with e[0]:
        if e[1] is None:
            try: e[1] = (True, f())
            except Exception as x: e[1] = (False, x)
    ok, v = e[1]
    if not ok: raise v
    return v

def put(tmp, path):
    os.replace(tmp, path)

# ---------------------------------------------------------------- building the harness with /repo's headers

class BuildFailure(Exception):
    pass

SRC_HASH = None
def src_hash():
    return once('src', lambda: tree_hash(INC, HARN))

def obj(src, flags, cc):
    key = hashlib.sha256(('%s %s %s %s' % (src_hash(), src, flags, cc)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'bin', key + '.o')
    def make():
        if os.path.exists(out): return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = '%s.%d.%d.o' % (out, os.getpid(), threading.get_ident())
        cmd = [cc] + flags + ['-I' + INC, '-c', os.path.join(HARN, src), '-o', tmp]
        rc, o = sh(cmd, 300)
        if rc != 0:
            rc, o = sh(cmd, 300)
        if rc != 0:
            raise BuildFailure('%s\n%s' % (' '.join(cmd), o[:6000]))
        put(tmp, out)
        return out
    return once(out, make)

# the public headers
HEADERS = [('all', 'all'), ('coroutine', 'coroutine'), ('fixedsize_stack', 'fixed'), ('pooled_fixedsize_stack', 'pooled'),
           ('protected_fixedsize_stack', 'protected'), ('segmented_stack', 'segmented')]

SLOW = {'Big', 'Over512'}          # much to copy
PROGRAMS = {'Layout': 'layout.cpp'}       # programs of their own

def binname(bn):
    p, s, a, cc, opt, defs = bn
    return '%s/c++%d/alloc%d/%s%s%s' % (p, s, a, cc, opt, ''.join(defs))

def build(bn):
    policy, std, alloc, cc, opt, defs = bn
    flags = ['-std=c++%d' % std, opt, '-Wno-attributes'] + list(defs)
    main = flags + ['-DHV_POLICY=' + policy, '-DHV_ALLOC=%d' % alloc]
    key = hashlib.sha256(('%s %s' % (src_hash(), bn)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'bin', key)
    def make():
        if os.path.exists(out): return out
        base = ['-std=c++%d' % std, '-O1']       # what does not depend on the library
        objs = [obj(PROGRAMS.get(policy, 'main.cpp'), main if policy not in PROGRAMS else flags, cc), obj('support.cpp', base, 'g++'), obj('ledger.cpp', base, 'g++')]
        link = []
        if alloc == 1:
            objs.append(obj('wrapmalloc.cpp', base, 'g++'))
            link = ['-Wl,--wrap=malloc,--wrap=free']
        if any(d.startswith('-DHV_NOISE') for d in defs): objs.append(obj('noise.cpp', flags, cc))
        if '-DHV_ALONE' in defs:
            for h, n in HEADERS: objs.append(obj('alone.cpp', flags + ['-DHV_HEADER=<boost/coroutine2/%s.hpp>' % h, '-DHV_SYMBOL=h_' + n] + (['-DHV_ALL'] if n == 'all' else []), cc))
        tmp = '%s.%d.%d' % (out, os.getpid(), threading.get_ident())
        rc, o = sh([cc] + objs + link + ['-lboost_context', '-lpthread', '-o', tmp], 120)
        if rc != 0: raise BuildFailure(o[:4000])
        put(tmp, out)
        return out
    return once(out, make)

# ---------------------------------------------------------------- TLC: state graphs -> tests

_tlc = threading.Semaphore(3)
def suite(name):
    c = SUITES[name]
    key = hashlib.sha256((tree_hash(SPEC) + tree_hash(HERE) + open(os.path.join(HARN, 'ops.inc')).read() + repr(sorted(c.items())) + str(SEED)).encode()).hexdigest()[:24]
    path = os.path.join(BUILD, 'suites', '%s-%s' % (name, key))
    def make():
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if os.path.exists(path) and os.path.exists(path + '.json'):
            info = json.load(open(path + '.json')); info['cached'] = True
            return path, info
        work = tempfile.mkdtemp(prefix='tlc-', dir=os.path.join(BUILD, 'suites'))
        try:
            with _tlc:
                for attempt in (1, 2):
                    try:
                        info = gen.generate(c, work, path, seed=SEED, workers=3, timeout=800); break
                    except gen.TLCError:
                        if attempt == 2: raise
        finally:
            shutil.rmtree(work, ignore_errors=True)
        info['cached'] = False
        json.dump(info, open(path + '.json.tmp', 'w')); put(path + '.json.tmp', path + '.json')
        return path, info
    return once(path, make)

# ---------------------------------------------------------------- replaying tests in the real library

FIND = re.compile(r'^FINDING (\w+) test=(-?\d+) pos=(-?\d+) (.*)$', re.M)
PLAYED = re.compile(r'^PLAYED tests=(\d+) events=(\d+)', re.M)

class Finding:
    def __init__(self, cls, what, cmd, bin_, suite_, test, pos):
        self.cls, self.what, self.cmd, self.bin, self.suite, self.test, self.pos = cls, what, cmd, bin_, suite_, test, pos
        self.confirmed = None
    def __repr__(self): return '%s %s [%s %s test %s]' % (self.cls, self.what, self.bin and binname(self.bin), self.suite, self.test)

def parse_findings(out, cmd, bn, su):
    return [Finding(m.group(1), m.group(4), cmd, bn, su, int(m.group(2)), int(m.group(3))) for m in FIND.finditer(out)]

def died(rc, out, cmd, bn, su):
    """process ended in a way the harness did not report"""
    if rc is None: return [Finding('HANG', 'the program does not end', cmd, bn, su, -1, -1)]
    if rc < 0 or rc > 4:
        return [Finding('CRASH', 'the program is ended by signal %s' % (-rc), cmd, bn, su, -1, -1)]
    raise ToolError('exit %s from %s\n%s' % (rc, ' '.join(map(str, cmd)), out[-2000:]))

def play(bn, su, hop, shard, shards, stats):
    exe = build(bn)
    path, info = suite(su)
    start = shard; found = []
    restarts = 0
    while True:
        cmd = [exe, path, '--seed', str(SEED), '--nval', str(SUITES[su].get('nval', 2)), '--stride', str(shards), '--from', str(start)]
        if hop: cmd += ['--hop', '--cap', '1500']
        elif bn[0] in SLOW: cmd += ['--cap', '7000']
        rc, out = sh(cmd, 700)
        fs = parse_findings(out, cmd, bn, su)
        m = PLAYED.search(out)
        if m:
            with _lock:
                stats['tests'] += int(m.group(1)); stats['events'] += int(m.group(2))
        if rc == 0 and m and not fs: break
        if rc == 1 and m and fs: found += fs; break
        if rc == 3 and fs and fs[-1].test >= 0:
            found += fs
            restarts += 1
            nxt = fs[-1].test + shards
            if restarts > 4 or nxt >= info['tests']: break
            start = nxt
            continue
        if not fs: fs = died(rc, out, cmd, bn, su)
        found += fs
        break
    return found

def confirm(f):
    """does the finding come again?"""
    if f.cls == 'BUILD': return True
    if f.confirmed is not None: return f.confirmed
    if f.cls == 'TRACE': return True        # confirmed where it was found
    if f.test >= 0 and '--from' in f.cmd:
        cmd = list(f.cmd)
        i = cmd.index('--from')
        cmd[i + 1] = str(f.test); cmd += ['--to', str(f.test + 1)]
        rc, out = sh(cmd, 120)
        if any(g.cls == f.cls and g.test == f.test for g in parse_findings(out, cmd, f.bin, f.suite)):
            f.cmd = cmd
            return True
    rc, out = sh(f.cmd, 600)
    fs = parse_findings(out, f.cmd, f.bin, f.suite)
    if not fs and rc not in (0, 1): fs = died(rc, out, f.cmd, f.bin, f.suite)
    return any(g.cls == f.cls for g in fs)

# ---------------------------------------------------------------- recording logs, checking them against the specification

def trace_cfg(t, path):
    base = open(os.path.join(SPEC, 'Trace.cfg')).read()
    for k, v in (('NCo', 'nco'), ('NSlot', 'nslot'), ('MaxDepth', 'depth'), ('NVal', 'nval')):
        base = re.sub(r'\b%s = \d+' % k, '%s = %d' % (k, t[v]), base)
    base = re.sub(r'\bNExc = \d+', 'NExc = %d' % t['nexc'], base)
    open(path, 'w').write(base)

def check_log(log, t, work):
    """-> (accepted, matched lines, total lines)"""
    cfg = os.path.join(work, 'Trace.cfg')
    trace_cfg(t, cfg)
    env = dict(os.environ); env['TRACE'] = log; env['JAVA_TOOL_OPTIONS'] = '-Xmx3g -Xss256m'
    cmd = ['tlc', '-workers', '1', '-noGenerateSpecTE', '-metadir', os.path.join(work, 'meta'), '-config', cfg, os.path.join(SPEC, 'Trace.tla')]
    rc, out = sh(cmd, 600, cwd=SPEC, env=env)
    shutil.rmtree(os.path.join(work, 'meta'), ignore_errors=True)
    m = re.search(r'@MATCHED (\d+) OF (\d+)', out)
    if m and m.group(1) == m.group(2) and rc == 0: return True, int(m.group(1)), int(m.group(2)), ''
    if m and rc in (10, 11, 12, 13): 
        inv = re.search(r'(Invariant \w+ is violated|Action property \w+.*is violated)', out)
        return False, int(m.group(1)), int(m.group(2)), inv.group(1) if inv else ''
    if 'is violated' in out:
        n = len(re.findall(r'^State \d+', out, re.M))
        return False, n, -1, re.search(r'.*is violated.*', out).group(0)
    raise ToolError('TLC failed on a log (rc=%s)\n%s' % (rc, out[-3000:]))

def trace(bn, t, behaviours, steps, seed, hop, stats, stop):
    exe = build(bn)
    os.makedirs(os.path.join(BUILD, 'traces'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='t-', dir=os.path.join(BUILD, 'traces'))
    try:
        def record(log):
            cmd = [exe, '--record', behaviours, '--steps', steps, '--log', log, '--seed', seed, '--nslot', t['nslot'], '--nco', t['nco'],
                   '--depth', t['depth'], '--nval', t['nval'], '--nexc', t['nexc']] + (['--hop'] if hop else []) + (['--deep'] if t.get('deep') else [])
            cmd = [str(x) for x in cmd]
            rc, out = sh(cmd, 300)
            fs = parse_findings(out, cmd, bn, 'record')
            if rc not in (0, 1) and not fs: fs = died(rc, out, cmd, bn, 'record')
            return cmd, fs
        log = os.path.join(work, 'log.ndjson')
        cmd, fs = record(log)
        if fs: return fs
        ok, n, total, why = check_log(log, t, work)
        if ok:
            with _lock:
                stats['behaviours'] += behaviours; stats['logged'] += total
            return []
        # rejected: does it come again?
        lines = open(log).read().split('\n')
        log2 = os.path.join(work, 'log2.ndjson')
        cmd, fs = record(log2)
        if fs: return fs
        ok2, n2, total2, why2 = check_log(log2, t, work)
        if ok2:
            with _lock: stats['unconfirmed'].append('log of %s rejected once at line %d' % (binname(bn), n + 1))
            return []
        k = n
        beg = k
        while beg > 0 and '"init"' not in lines[beg]: beg -= 1
        f = Finding('TRACE', 'the specification does not allow line %d: %s %s' % (n + 1, lines[n] if n < len(lines) else '-', why), cmd, bn, 'record', -1, n + 1)
        f.log = lines[beg:k + 1]
        return [f]
    finally:
        shutil.rmtree(work, ignore_errors=True)

# ---------------------------------------------------------------- where things lie in the stack (Layout.tla)

def layout_design(stats):
    """model checks the placement procedure"""
    work = tempfile.mkdtemp(prefix='l-', dir=BUILD)
    try:
        rc, out = sh(['tlc', '-workers', '3', '-noGenerateSpecTE', '-metadir', work, '-config', os.path.join(SPEC, 'Layout.cfg'), os.path.join(SPEC, 'Layout.tla')], 600, cwd=SPEC)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct', out)
    if rc != 0 or not m: raise ToolError('Layout.tla (rc=%s)\n%s' % (rc, out[-2000:]))
    with _lock: stats.setdefault('layout', {})['design_states'] = int(m.group(2))
    return []

def proof(name, stats):
    """a proof (spec/<name>.tla) by TLAPS, nothing of it depends on the code"""
    path = os.path.join(BUILD, 'models', '%s-%s.json' % (name, tree_hash(SPEC)))
    def make():
        if os.path.exists(path): return json.load(open(path))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        work = tempfile.mkdtemp(prefix='p-', dir=os.path.dirname(path))
        try:
            for f in glob.glob(os.path.join(SPEC, '*.tla')): shutil.copy(f, work)
            with _tlc: rc, out = sh(['tlapm', '--threads', '4', '--stretch', '4', name + '.tla'], 850, cwd=work)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        m = re.search(r'All (\d+) obligations? proved', out)
        if rc != 0 or not m: raise ToolError('%s (rc=%s)\n%s' % (name, rc, out[-2000:]))
        r = dict(obligations=int(m.group(1)))
        json.dump(r, open(path + '.tmp', 'w')); put(path + '.tmp', path)
        return r
    r = once(path, make)
    with _lock: stats.setdefault('models', {})[name] = r
    return []

def model(name, stats):
    """checks another instance of the specification (spec/<name>.cfg), nothing of it depends on the code"""
    module = 'ControlBlock' if name.startswith('ControlBlock') else {'Live': 'Coroutine2'}.get(name, name)
    path = os.path.join(BUILD, 'models', '%s-%s.json' % (name, tree_hash(SPEC)))
    def make():
        if os.path.exists(path): return json.load(open(path))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        work = tempfile.mkdtemp(prefix='m-', dir=os.path.dirname(path))
        env = dict(os.environ); env['JAVA_TOOL_OPTIONS'] = '-Xmx6g -Xss64m'
        try:
            with _tlc:
                rc, out = sh(['tlc', '-workers', '3', '-noGenerateSpecTE', '-metadir', os.path.join(work, 'meta'), '-config', os.path.join(SPEC, name + '.cfg'),
                              os.path.join(SPEC, module + '.tla')], 850, cwd=SPEC, env=env)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', out)
        if rc != 0 or not m or 'No error has been found' not in out: raise ToolError('%s (rc=%s)\n%s' % (name, rc, out[-2000:]))
        r = dict(states=int(m.group(2)), transitions=int(m.group(1)))
        json.dump(r, open(path + '.tmp', 'w')); put(path + '.tmp', path)
        return r
    r = once(path, make)
    with _lock: stats.setdefault('models', {})[name] = r
    return []

def layout(bn, stats):
    """places coroutines, checks the observed placements against Layout.tla"""
    exe = build(bn)
    work = tempfile.mkdtemp(prefix='l-', dir=BUILD)
    try:
        def once_():
            log = os.path.join(work, 'log.ndjson')
            cmd = [exe, '--log', log, '--seed', str(SEED)] + (['--dense'] if TIER == 'thorough' else [])
            rc, out = sh(cmd, 300)
            fs = parse_findings(out, cmd, bn, 'layout')
            if rc not in (0, 1) and not fs: fs = died(rc, out, cmd, bn, 'layout')
            if fs: return fs
            m = re.search(r'^PLACED cases=(\d+) geometries=(\d+)', out, re.M)
            if not m: raise ToolError('layout: %s' % out[-1000:])
            env = dict(os.environ); env['TRACE'] = log; env['JAVA_TOOL_OPTIONS'] = '-Xmx3g -Xss64m'
            rc, o = sh(['tlc', '-workers', '1', '-noGenerateSpecTE', '-metadir', os.path.join(work, 'meta'), '-config', os.path.join(SPEC, 'LayoutTrace.cfg'), os.path.join(SPEC, 'LayoutTrace.tla')], 600, cwd=SPEC, env=env)
            shutil.rmtree(os.path.join(work, 'meta'), ignore_errors=True)
            k = re.search(r'@MATCHED (\d+) OF (\d+)', o)
            if not k: raise ToolError('TLC failed on placements (rc=%s)\n%s' % (rc, o[-3000:]))
            if k.group(1) != k.group(2):
                line = open(log).read().split('\n')[int(k.group(1))]
                return [Finding('WHERE', 'the specification does not allow the placement %s' % line, cmd, bn, 'layout', -1, int(k.group(1)) + 1)]
            with _lock:
                d = stats.setdefault('layout', {})
                d['coroutines'] = d.get('coroutines', 0) + int(m.group(1)); d['placements_checked'] = d.get('placements_checked', 0) + int(k.group(2))
            return []
        fs = once_()
        if fs:
            again = once_()
            cls = set(f.cls for f in again)
            for f in fs:
                f.confirmed = f.cls in cls
                if f.cls == 'WHERE': f.cmd = [c if c != os.path.join(work, 'log.ndjson') else '/dev/null' for c in f.cmd]
        return fs
    finally:
        shutil.rmtree(work, ignore_errors=True)

# ---------------------------------------------------------------- known findings

def known_findings():
    r = []
    for line in open(os.path.join(VERIF, 'KNOWN_FINDINGS')):
        m = re.match(r'known: property=(\w+) id=(\w+) class=(\w+) match=/(.*)/ policies=(\S+) :: (.*)$', line.strip())
        if m: r.append((m.group(1), m.group(2), m.group(3), re.compile(m.group(4)), set(m.group(5).split(',')), m.group(6)))
    return r

# ---------------------------------------------------------------- one check

def test_events(path, test, upto=None):
    """the events of a test in words"""
    with open(path) as f:
        nslot, nco, nl, nt = map(int, f.readline().split())
        lab = [f.readline().split() for _ in range(nl)]
        for i in range(nt):
            line = f.readline()
            if i == test:
                ids = gen.expand(list(map(int, line.split()))[1:])[:None if upto is None else upto + 1]
                if len(ids) > 4000: ids = ids[:1000] + ids[-3000:]
                r = []
                for j in ids:
                    l = lab[j]
                    r.append('%s(%s)' % (gen.OPS[int(l[0])], ','.join(l[1:6])))
                return r
    return []

def count_ops(path):
    c = collections.Counter()
    with open(path) as f:
        nslot, nco, nl, nt = map(int, f.readline().split())
        lab = [gen.OPS[int(f.readline().split()[0])] for _ in range(nl)]
        for i in range(nt):
            for j in gen.expand(list(map(int, f.readline().split()))[1:], 1): c[lab[j]] += 1
    return c

def main(pid):
    t0 = time.time()
    chk = CHECKS[pid]
    stats = dict(tests=0, events=0, behaviours=0, logged=0, unconfirmed=[])
    runs = list(chk['runs']) + (chk['thorough'] if TIER == 'thorough' else [])
    jobs = []; suites = {}
    pool = ThreadPoolExecutor(CPUS + 3)
    names = []
    for r in runs:
        for s in r['suites']:
            if s not in names: names.append(s)
    sizes = lambda n: -SUITES[n]['nco'] * SUITES[n]['nslot'] * SUITES[n]['depth']
    bins = []
    for r in runs:
        for x in r['bins']:
            if x not in bins: bins.append(x)
    for x in chk['traces'] + chk.get('deep', []) + chk.get('layout', []):
        if x not in bins: bins.append(x)
    sf = {n: pool.submit(suite, n) for n in sorted(names, key=sizes)}
    bf = {x: pool.submit(build, x) for x in bins}
    findings = []
    bad = set()
    for x, f in bf.items():
        try: f.result()
        except BuildFailure as e:
            bad.add(x)
            findings.append(Finding('BUILD', 'the library cannot be used with %s: %s' % (binname(x), first_error(str(e))), [str(e)[:3000]], x, '', -1, -1))
    if bad: sanity_compile()
    tcfg = chk.get('tracecfg', TRACE)
    nb, ns = (60, 200) if TIER != 'thorough' else (300, 400)
    tf = []
    for i, x in enumerate(chk.get('deep', [])):     # these take longest
        for j in range(2):                          # mostly pull-, mostly push-coroutines
            if x not in bad: tf.append(pool.submit(trace, x, TRACE_ABYSS, 1, 2600, SEED * 502 + 2 * i + j, chk.get('hop', False), stats, None))
    for i, x in enumerate(chk['traces']):
        if x in bad: continue
        tf.append(pool.submit(trace, x, tcfg, nb, ns, SEED * 101 + i, chk.get('hop', False), stats, None))
        if TIER == 'thorough':
            for j in range(3): tf.append(pool.submit(trace, x, TRACE_BIG, 150, 800, SEED * 1009 + 10 * i + j, chk.get('hop', False), stats, None))
    for i, x in enumerate(chk.get('deep', [])):
        if x in bad: continue
        tf.append(pool.submit(trace, x, TRACE_DEEP, nb // 3, 2 * ns, SEED * 307 + i, chk.get('hop', False), stats, None))
        tf.append(pool.submit(trace, x, TRACE_VERYDEEP, nb // 20, 3 * ns, SEED * 401 + i, chk.get('hop', False), stats, None))
    infos = {}
    for n in sorted(names, key=sizes, reverse=True):
        infos[n] = sf[n].result()[1]
        for r in runs:
            if n not in r['suites']: continue
            for x in r['bins']:
                if x in bad: continue
                for k in range(r['shards']): jobs.append(pool.submit(play, x, n, r['hop'], k, r['shards'], stats))
    for n in chk.get('models', []) + (chk.get('models_thorough', []) if TIER == 'thorough' else []): jobs.append(pool.submit(proof if n.endswith('Proofs') else model, n, stats))
    if chk.get('layout'):
        jobs.append(pool.submit(layout_design, stats))
        for x in chk['layout']:
            if x not in bad: jobs.append(pool.submit(layout, x, stats))
    for j in jobs + tf: findings += j.result()
    pool.shutdown()

    # judge
    claims = chk['claims']
    known = known_findings()
    seen_known = {}
    mine = []
    for f in findings:
        if f.cls == 'HARNESS': raise ToolError('harness: %r' % f)
        k = [x for x in known if x[0] == pid and x[2] == f.cls and f.bin and f.bin[0] in x[4] and x[3].search(f.what)]
        if k: seen_known.setdefault(k[0][1], [k[0], 0, f])[1] += 1
        elif f.cls in claims: mine.append(f)
    for k, (e, n, f) in seen_known.items():
        print('KNOWN-FINDING: property=%s %s %s (%d times, e.g. %s)' % (pid, e[1], e[5], n, f.what))
    shown = collections.OrderedDict()
    tried = collections.Counter()
    for f in mine:
        if f.cls in shown or tried[f.cls] >= 3: continue
        tried[f.cls] += 1
        if confirm(f): shown[f.cls] = f
        else: stats['unconfirmed'].append(repr(f))
    rc = 0
    os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
    for i, (cls, f) in enumerate(shown.items()):
        rp = os.path.join(VERIF, 'out', '%s-%s.json' % (pid, cls))
        rep = dict(property=pid, kind=cls, what=f.what, binary=binname(f.bin) if f.bin else None, bin=f.bin, command=f.cmd, suite=f.suite, test=f.test, pos=f.pos, seed=SEED)
        if f.suite in SUITES and f.test >= 0:
            rep['events'] = test_events(suite(f.suite)[0], f.test, f.pos)
        if hasattr(f, 'log'): rep['log'] = f.log
        json.dump(rep, open(rp, 'w'), indent=1)
        print('%s: %s (%s %s)' % (cls, f.what, binname(f.bin) if f.bin else '', f.suite))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    # evidence
    ops = collections.Counter()
    samples = []
    rnd = random.Random(SEED)
    for n in names:
        path = suite(n)[0]
        ops += count_ops(path)
        if len(samples) < 3 and infos[n]['tests']:
            samples.append({'suite': n, 'test': test_events(path, rnd.randrange(infos[n]['tests']))})
    ev = dict(property=pid, tier=TIER, seed=SEED, level='model_checking',
              coverage=dict(states=sum(i['states'] for i in infos.values()), transitions=sum(i['transitions'] for i in infos.values()),
                            traces_validated_against_impl=stats['tests'] + stats['behaviours'], samples=samples,
                            tests_replayed=stats['tests'], events_replayed=stats['events'], behaviours_recorded_and_checked=stats['behaviours'],
                            events_recorded_and_checked=stats['logged'], programs=len(bins), instances={n: {k: infos[n][k] for k in ('states', 'transitions', 'edges', 'tests', 'covering', 'events', 'depth', 'cached')} for n in names},
                            events_by_kind=dict(ops), binaries=[binname(x) for x in bins], unconfirmed=stats['unconfirmed'], layout=stats.get('layout', {}), other_models=stats.get('models', {}),
                            exhaustive=True),
              assumptions=['legal clients only (see the head of Coroutine2.tla)', 'bounds of the instances as given in tools/suites.py', 'x86_64, Boost.Context fcontext of the installed Boost'],
              wall_s=round(time.time() - t0, 2), violations=len(shown))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d states, %d tests (%d events) replayed in %d programs, %d recorded behaviours (%d events) checked, %.0f s%s' % (
        pid, ev['coverage']['states'], stats['tests'], stats['events'], len(bins), stats['behaviours'], stats['logged'], time.time() - t0,
        ', %d unconfirmed' % len(stats['unconfirmed']) if stats['unconfirmed'] else ''))
    others = collections.Counter(f.cls for f in findings if f.cls not in claims)
    if others: print('other deviations, which do not concern %s: %s' % (pid, dict(others)))
    return rc

def first_error(text):
    m = re.search(r'^.*error:.*$', text, re.M)
    return m.group(0) if m else text[:200]

def sanity_compile():
    """is it the library (and not the compiler or the disk) that fails?"""
    d = tempfile.mkdtemp()
    try:
        open(d + '/t.cpp', 'w').write('#include <boost/context/fiber.hpp>\n#include <vector>\n#include <thread>\nint main() { return 0; }\n')
        for cc in ('g++', 'clang++'):
            rc, out = sh([cc, d + '/t.cpp', '-lboost_context', '-o', d + '/t'], 120)
            if rc != 0: raise ToolError('%s does not work: %s' % (cc, out[:1000]))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def replay(path):
    r = json.load(open(path))
    if r['kind'] == 'BUILD': print(r['command'][0]); return 1
    bn = tuple(tuple(x) if isinstance(x, list) else x for x in r['bin'])
    cmd = list(r['command']); cmd[0] = build(bn)
    if r['suite'] in SUITES: cmd[1] = suite(r['suite'])[0]
    print(' '.join(cmd))
    for e in r.get('events', []): print('   ', e)
    rc, out = sh(cmd, 700)
    print(out)
    return rc

if __name__ == '__main__':
    try:
        if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
        rc = main(sys.argv[1])
    except SystemExit:
        raise
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('ERROR: %s' % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
