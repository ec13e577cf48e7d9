#!/usr/bin/env python3
"""Would the machinery notice? (Not a check of the repository: run by hand after changes of the specification or harness.)

  selftest.py variants   the wrong designs of ControlBlock.tla must violate an invariant
  selftest.py logs [n]   logs of the real library with one corruption each must be rejected
  selftest.py vacuity    every kind of event occurs in the instances of every check that needs it
"""
import collections, json, os, random, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from suites import SUITES, CHECKS, TRACE

def variants():
    bad = 0
    for v in range(0, 6):
        work = tempfile.mkdtemp(prefix='v-', dir=check.BUILD)
        cfg = open(os.path.join(check.SPEC, 'ControlBlock.cfg')).read()
        cfg = re.sub(r'Variant = \d+', 'Variant = %d' % v, cfg)
        open(work + '/v.cfg', 'w').write(cfg)
        rc, out = check.sh(['tlc', '-workers', '4', '-noGenerateSpecTE', '-metadir', work + '/m', '-config', work + '/v.cfg', os.path.join(check.SPEC, 'ControlBlock.tla')], 900, cwd=check.SPEC)
        shutil.rmtree(work, ignore_errors=True)
        m = re.search(r'(Invariant \w+ is violated|Action property \w+.*is violated|No error has been found)', out)
        what = m.group(1) if m else 'TLC: rc=%s' % rc
        good = ('violated' in what) == (v != 0) and m
        bad += not good
        print('%s variant %d: %s' % ('ok ' if good else 'BAD', v, what), flush=True)
    return bad

# one corruption of one line of a behaviour; None: not applicable to this line
def c_drop(ls, i, r): return ls[:i] + ls[i + 1:]
def c_twice(ls, i, r): return ls[:i + 1] + ls[i:]
def c_swap(ls, i, r): return ls[:i] + [ls[i + 1], ls[i]] + ls[i + 2:] if i + 1 < len(ls) and ls[i] != ls[i + 1] else None
def field(n, d):
    def f(ls, i, r):
        e = json.loads(ls[i]); e['v'][n] += d
        return ls[:i] + [json.dumps(e)] + ls[i + 1:]
    return f
def c_stack(ls, i, r):      # the stack of a coroutine that may still run is missing / one that was never created is there
    e = json.loads(ls[i])
    if not e['m']: return None
    e['m'].pop()
    return ls[:i] + [json.dumps(e)] + ls[i + 1:]
def c_stack2(ls, i, r):
    e = json.loads(ls[i])
    if not e['o'] or 4 in e['m']: return None
    e['m'].append(4)
    return ls[:i] + [json.dumps(e)] + ls[i + 1:]
def c_life(ls, i, r):
    e = json.loads(ls[i])
    if e['l'] == -1: return None
    e['l'] += 8
    return ls[:i] + [json.dumps(e)] + ls[i + 1:]
def c_bool(ls, i, r):
    e = json.loads(ls[i])
    k = [j for j, b in enumerate(e['h']) if b in (0, 1)]
    if not k: return None
    j = r.choice(k); e['h'][j] = 1 - e['h'][j]
    return ls[:i] + [json.dumps(e)] + ls[i + 1:]
def c_name(ls, i, r):
    e = json.loads(ls[i])
    o = {'ret': 'exc', 'exc': 'ret', 'gd': 'catch', 'catch': 'gd', 'start': 'ret'}.get(e['e'])
    if o is None: return None
    e['e'] = o
    return ls[:i] + [json.dumps(e)] + ls[i + 1:]

KINDS = dict(drop=c_drop, twice=c_twice, swap=c_swap, context=field(0, 1), value=field(4, 1), stack=c_stack, stack2=c_stack2, life=c_life, bool=c_bool, name=c_name)

def logs(n):
    bn = ('Tracked', 14, 0, 'g++', '-O1', ())
    exe = check.build(bn); t = TRACE; r = random.Random(7)
    work = tempfile.mkdtemp(prefix='v-', dir=check.BUILD)
    count = collections.Counter(); quiet = []
    try:
        log = work + '/log'
        rc, out = check.sh([str(x) for x in [exe, '--record', 12, '--steps', 80, '--log', log, '--seed', 5, '--nslot', t['nslot'], '--nco', t['nco'], '--depth', t['depth'], '--nval', t['nval'], '--nexc', t['nexc']]], 100)
        ls = [x for x in open(log).read().split('\n') if x]
        ok, a, b, why = check.check_log(log, t, work)
        assert ok, (a, b, why)
        for kind, f in KINDS.items():
            done = 0
            while done < n:
                i = r.randrange(len(ls))
                if '"init"' in ls[i]: continue
                c = f(ls, i, r)
                if c is None: continue
                done += 1
                open(log, 'w').write('\n'.join(c) + '\n')
                try: ok, a, b, why = check.check_log(log, t, work)
                except check.ToolError: ok = False      # (not even a state)
                count[kind, 'accepted' if ok else 'rejected'] += 1
                if ok: quiet.append((kind, i, ls[i]))
            print('%-8s rejected %d, accepted %d' % (kind, count[kind, 'rejected'], count[kind, 'accepted']), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for q in quiet: print('accepted:', *q)
    return 0

NEEDS = { 'C05': 'throw exc catch rethrow reraise handle', 'C06': 'gd hdbeg dtor fdel', 'C09': 'push yield get deref oasg', 'C11': 'mnew masg omove',
          'C12': 'begin deref inc wbegin wderef winc each weach goon brk item', 'C13': 'oasg wasg begin', 'C14': 'pusht yieldt', 'C15': 'new exc', 'C01': 'start ret res push next yield',
          'C02': 'get ownget push yield deref', 'C08': 'push pusht masg dtor' }
def vacuity():
    bad = 0
    for pid, c in sorted(CHECKS.items()):
        tot = collections.Counter()
        for rr in c['runs']:
            for s in rr['suites']: tot += check.count_ops(check.suite(s)[0])
        miss = [o for o in NEEDS.get(pid, '').split() if not any(k.rstrip('_') == o and v for k, v in tot.items())]
        bad += bool(miss)
        print('%s %s %s' % ('BAD' if miss else 'ok ', pid, 'misses ' + ' '.join(miss) if miss else ' '.join('%s:%d' % x for x in sorted(tot.items()))), flush=True)
    return bad

if __name__ == '__main__':
    a = sys.argv[1:]
    rc = {'variants': variants, 'vacuity': vacuity, 'logs': lambda: logs(int(a[1]) if len(a) > 1 else 10)}[a[0]]()
    sys.exit(1 if rc else 0)
