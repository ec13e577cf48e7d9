"""Runs TLC on an instance of Coroutine2.tla, checks its invariants and turns the printed state graph into
tests: walks from the initial to the final state that together take every transition."""
import bisect, os, re, subprocess, time, random, sys
from collections import deque

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec')
OPS = []
for line in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'ops.inc')):
    OPS += re.findall(r'OP\((\w+?)_?\)', line)
OPN = {n: i for i, n in enumerate(OPS)}
INV = 'TypeOK ChainOK OwnedOnce NoDangling NoLeak FramesOK HomesOK HandlersOK'
PROPS = 'Monotone Undisturbed CellStable UnwindOnly NeverStarted'

def cfg_text(c, emit):
    feat = ', '.join('"%s"' % f for f in c['feat'])
    return '''SPECIFICATION Spec
VIEW view
CONSTANTS
  NCo = %d
  NSlot = %d
  MaxDepth = %d
  NVal = %d
  NExc = %d
  Kinds = {%s}
  Feat = {%s}
  Emit = %s
INVARIANTS %s
PROPERTIES %s
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTransition
''' % (c['nco'], c['nslot'], c['depth'], c.get('nval', 2), c.get('nexc', 1), ', '.join(map(str, c.get('kinds', [1, 2]))), feat,
       'TRUE' if emit else 'FALSE', INV, PROPS)

LINE = re.compile(rb'^"@<<<<(-?\d+), (-?\d+)>>, <<\\"(\w+)\\", (-?\d+), (-?\d+), (-?\d+), (-?\d+), (-?\d+)>>, <<<<([\d, ]*)>>, (\d+), (\d+), (\d+), (\d+), (\d+)>>, <<(-?\d+), (-?\d+)>>>>"')

class TLCError(Exception):
    pass

def run_tlc(c, work, emit=True, workers=4, timeout=600, heap='6g'):
    os.makedirs(work, exist_ok=True)
    cfg = os.path.join(work, 'MC.cfg')
    open(cfg, 'w').write(cfg_text(c, emit))
    out = os.path.join(work, 'tlc.out')
    env = dict(os.environ)
    env['JAVA_TOOL_OPTIONS'] = '-Xmx' + heap
    t0 = time.time()
    with open(out, 'wb') as f:
        p = subprocess.run(['timeout', str(timeout), 'tlc', '-workers', str(workers), '-metadir', os.path.join(work, 'meta'),
                            '-noGenerateSpecTE', '-config', cfg, 'MC.tla'], cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=env)
    subprocess.run(['rm', '-rf', os.path.join(work, 'meta')])
    info = {'wall': time.time() - t0, 'rc': p.returncode}
    tail = subprocess.run(['tail', '-n', '40', out], stdout=subprocess.PIPE).stdout.decode(errors='replace')
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', tail)
    if p.returncode != 0 or not m or 'No error has been found' not in tail:
        raise TLCError('TLC failed (rc=%d) on %s:\n%s' % (p.returncode, c['name'], tail[-3000:]))
    info['transitions'] = int(m.group(1)); info['states'] = int(m.group(2))
    m = re.search(r'depth of the complete state graph search is (\d+)', tail)
    info['depth'] = int(m.group(1)) if m else 0
    return out, info

def parse(out):
    """-> (labels list, edges list of (src, dst, label))"""
    ids = {}; labels = {}; lab = []; edges = []
    for line in open(out, 'rb'):
        if not line.startswith(b'"@'): continue
        m = LINE.match(line)
        if not m: raise TLCError('unparsable: %r' % line[:200])
        g = m.groups()
        s = ids.setdefault((g[0], g[1]), len(ids)); d = ids.setdefault((g[14], g[15]), len(ids))
        key = g[2:14]
        l = labels.get(key)
        if l is None:
            l = labels[key] = len(lab)
            hb = 0
            if g[8]:
                for i, x in enumerate(g[8].split(b',')): hb |= int(x) << (2 * i)
            lab.append((OPN[g[2].decode()],) + tuple(int(x) for x in g[3:8]) + (hb,) + tuple(int(x) for x in g[9:14]))
        edges.append((s, d, l))
    return lab, edges, len(ids)

_graph = {}
def graph(edges, n):
    """-> (outgoing edges of each state, first edge of the shortest way to a final state, initial state)"""
    if id(edges) in _graph: return _graph[id(edges)][1:]
    adj = [[] for _ in range(n)]; radj = [[] for _ in range(n)]
    for i, e in enumerate(edges): adj[e[0]].append(i); radj[e[1]].append(i)
    init = edges[0][0]
    # shortest way to a final state
    fin = [v for v in range(n) if not adj[v]]
    nxt = [-1] * n; dist = [-1] * n; q = deque()
    for v in fin: dist[v] = 0; q.append(v)
    while q:
        v = q.popleft()
        for i in radj[v]:
            u = edges[i][0]
            if dist[u] < 0: dist[u] = dist[v] + 1; nxt[u] = i; q.append(u)
    stuck = sum(1 for v in range(n) if dist[v] < 0)
    if stuck: raise TLCError('%d states cannot reach the end' % stuck)
    _graph.clear(); _graph[id(edges)] = (edges, adj, nxt, init)
    return adj, nxt, init

def walks(lab, edges, n, seed, maxlen=60):
    rnd = random.Random(seed)
    adj, nxt, init = graph(edges, n)
    # shortest way from the initial state
    par = [-1] * n; order = [init]; vis = bytearray(n); vis[init] = 1
    for v in order:
        for i in adj[v]:
            w = edges[i][1]
            if not vis[w]: vis[w] = 1; par[w] = i; order.append(w)
    left = [list(a) for a in adj]
    for a in left: rnd.shuffle(a)
    done = bytearray(len(edges))
    def fresh(v):
        a = left[v]
        while a and done[a[-1]]: a.pop()
        return a[-1] if a else -1
    tests = []
    for v in reversed(order):     # far away states first: their prefixes take near edges on the way
        while True:
            i = fresh(v)
            if i < 0: break
            path = []
            u = v
            while u != init:
                path.append(par[u]); u = edges[par[u]][0]
            path.reverse()
            u = v
            while len(path) < maxlen or i >= 0:
                if i < 0:
                    # nothing new here: follow known edges for a while towards something new
                    hop = None
                    for j in adj[u]:
                        if fresh(edges[j][1]) >= 0: hop = j; break
                    if hop is None: break
                    i = hop
                path.append(i); done[i] = 1; u = edges[i][1]
                if len(path) >= 4 * maxlen: break
                i = fresh(u)
            while nxt[u] >= 0:
                path.append(nxt[u]); done[nxt[u]] = 1; u = edges[nxt[u]][1]
            for j in path: done[j] = 1
            tests.append([edges[j][2] for j in path])
    return tests, len(edges)

def random_walks(lab, edges, n, seed, count, length):
    """further histories: the state graph forgets how a state was reached, the code under test may not"""
    rnd = random.Random(seed * 31 + 7)
    adj, nxt, init = graph(edges, n)
    w = [0.15 if OPS[l[0]] in ('end', 'return', 'leave', 'destroy', 'throw', 'rethrow') else 1.0 for l in lab]
    cum = [None] * n
    tests = []
    for _ in range(count):
        u = init; path = []
        while len(path) < length and adj[u]:
            if cum[u] is None:
                t = 0; a = []
                for i in adj[u]: t += w[edges[i][2]]; a.append(t)
                cum[u] = a
            i = adj[u][bisect.bisect(cum[u], rnd.random() * cum[u][-1])] if len(adj[u]) > 1 else adj[u][0]
            path.append(edges[i][2]); u = edges[i][1]
        while nxt[u] >= 0:
            path.append(edges[nxt[u]][2]); u = edges[nxt[u]][1]
        tests.append(path)
    return tests

PUMP = set('yield next push res inc oasg wasg winc goon get ownget deref pusht yieldt throw mnew masg each weach apush ayield'.split())
def pumped(lab, edges, n, seed, count, longs, reps=300, lreps=66000):
    """tests with a cycle of the state graph that is taken many times: prefix + cycle^reps + suffix"""
    rnd = random.Random(seed * 17 + 3)
    adj, nxt, init = graph(edges, n)
    par = [-1] * n; order = [init]; vis = bytearray(n); vis[init] = 1
    for v in order:
        for i in adj[v]:
            w = edges[i][1]
            if not vis[w]: vis[w] = 1; par[w] = i; order.append(w)
    cand = [i for i, e in enumerate(edges) if OPS[lab[e[2]][0]] in PUMP]
    rnd.shuffle(cand)
    by = {}
    for i in cand: by.setdefault(lab[edges[i][2]][0], []).append(i)
    cand = []
    while by:                       # all kinds of events in turn
        for op in sorted(by):
            cand.append(by[op].pop())
            if not by[op]: del by[op]
    tests = []; seen = set(); tries = 0
    for i in cand:
        if len(tests) >= count or tries > 20 * count: break
        tries += 1
        s, d = edges[i][0], edges[i][1]
        back = {d: -1}; q = deque([d]); limit = 4000
        while q and s not in back and len(back) < limit:
            v = q.popleft()
            a = list(adj[v]); rnd.shuffle(a)
            for j in a:
                w = edges[j][1]
                if w not in back: back[w] = j; q.append(w)
        if s not in back: continue
        cyc = []; u = s
        while u != d:
            j = back[u]; cyc.append(edges[j][2]); u = edges[j][0]
        cyc.append(edges[i][2]); cyc.reverse()
        if tuple(cyc) in seen: continue
        seen.add(tuple(cyc))
        pre = []; u = s
        while u != init: pre.append(edges[par[u]][2]); u = edges[par[u]][0]
        pre.reverse()
        suf = []; u = s
        while nxt[u] >= 0: suf.append(edges[nxt[u]][2]); u = edges[nxt[u]][1]
        r = lreps if len(tests) < longs else reps
        tests.append(pre + [-r, len(cyc)] + cyc + suf)
    return tests

def expand(t, cap=None):
    """a line of a suite -> labels; cap: at most so many repetitions"""
    r = []; i = 0
    while i < len(t):
        if t[i] >= 0: r.append(t[i]); i += 1
        else:
            n, l = -t[i], t[i + 1]
            r += t[i + 2:i + 2 + l] * (n if cap is None else min(n, cap)); i += 2 + l
    return r

def length(t):
    r = 0; i = 0
    while i < len(t):
        if t[i] >= 0: r += 1; i += 1
        else: r += -t[i] * t[i + 1]; i += 2 + t[i + 1]
    return r

def write_suite(path, c, lab, tests):
    with open(path + '.tmp', 'w') as f:
        f.write('%d %d %d %d\n' % (c['nslot'], c['nco'], len(lab), len(tests)))
        for l in lab: f.write(' '.join(map(str, l)) + '\n')
        for t in tests: f.write(str(len(t)) + ' ' + ' '.join(map(str, t)) + '\n')
    os.replace(path + '.tmp', path)

def generate(c, work, suite, seed=1, workers=4, timeout=600):
    out, info = run_tlc(c, work, True, workers, timeout)
    lab, edges, n = parse(out)
    os.unlink(out)
    t0 = time.time()
    edges = list(dict.fromkeys(edges))
    tests, ne = walks(lab, edges, n, seed)
    cover = len(tests)
    tests += random_walks(lab, edges, n, seed, c.get('rwalks', 3000), 160)
    tests += pumped(lab, edges, n, seed, c.get('pumps', 60), c.get('longs', 1))
    _graph.clear()
    if n != info['states']: raise TLCError('%d states printed, TLC found %d' % (n, info['states']))
    info.update(edges=ne, tests=len(tests), covering=cover, events=sum(map(length, tests)), labels=len(lab), walk_wall=time.time() - t0)
    write_suite(suite, c, lab, tests)
    return info
