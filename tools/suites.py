"""Instances of Coroutine2.tla, policies and what each check runs."""

B = 'res push yield next get destroy'.split()
H = ['heap']; HL = ['heap', 'local']
SUITES = {
 # name: constants of the instance
 'flow2':   dict(nco=2, nslot=2, depth=2, nval=1, feat=HL + ['frame'] + B),
 'values2': dict(nco=2, nslot=2, depth=1, nval=3, feat=HL + B + ['omove']),
 'exc2':    dict(nco=2, nslot=2, depth=2, nval=1, feat=HL + ['frame', 'try', 'throw', 'rethrow'] + B),
 'exc1':    dict(nco=1, nslot=1, depth=3, nval=1, nexc=2, feat=HL + ['frame', 'try', 'throw', 'rethrow'] + B),
 'nest3':   dict(nco=3, nslot=3, depth=1, nval=1, feat=HL + B),
 'exc3':    dict(nco=3, nslot=3, depth=1, nval=1, feat=H + ['throw', 'rethrow'] + B),
 'move2':   dict(nco=2, nslot=3, depth=1, nval=1, feat=H + ['mnew', 'masg', 'omove'] + B),
 'movel2':  dict(nco=2, nslot=2, depth=2, nval=1, feat=HL + ['frame', 'mnew', 'masg'] + B),
 'iter1':   dict(nco=1, nslot=1, depth=2, nval=3, feat=H + ['iter', 'oiter', 'asg', 'throw', 'rethrow', 'try'] + B),
 # without assignments to output iterators (which need copyable elements)
 'iteri1':  dict(nco=1, nslot=2, depth=2, nval=2, feat=H + ['iter', 'oiter', 'throw', 'rethrow', 'try', 'mnew', 'masg'] + B),
 'iter2':   dict(nco=2, nslot=2, depth=1, nval=1, feat=H + ['iter', 'oiter', 'asg'] + B),
 'iterm1':  dict(nco=1, nslot=2, depth=1, nval=2, feat=H + ['iter', 'oiter', 'asg', 'throw', 'rethrow', 'mnew', 'masg', 'omove'] + B),
 'cthrow2': dict(nco=2, nslot=2, depth=1, nval=2, feat=H + ['cthrow', 'rethrow'] + B),
 'cthrow1': dict(nco=1, nslot=2, depth=2, nval=2, feat=HL + ['cthrow', 'rethrow', 'try', 'frame', 'throw', 'iter', 'oiter', 'asg', 'how'] + B),
 'ctor2':   dict(nco=2, nslot=2, depth=1, nval=1, feat=HL + ['fnhow', 'ealloc', 'efn', 'rethrow', 'throw'] + B),
 'how1':    dict(nco=1, nslot=2, depth=1, nval=2, feat=HL + ['how', 'fnhow', 'mnew', 'masg', 'omove', 'throw', 'rethrow', 'ealloc', 'efn'] + B),
 'reget1':  dict(nco=1, nslot=2, depth=1, nval=3, feat=H + ['reget', 'iter', 'oiter', 'asg', 'omove', 'mnew'] + B),
 'dtor1':   dict(nco=1, nslot=1, depth=3, nval=1, feat=HL + ['dtor', 'try', 'throw', 'rethrow'] + B),
 'dtor2':   dict(nco=2, nslot=2, depth=2, nval=1, feat=H + ['dtor', 'throw', 'rethrow'] + B),
 'dtorc1':  dict(nco=1, nslot=1, depth=2, nval=2, feat=H + ['dtor', 'throw', 'rethrow', 'cthrow', 'iter', 'oiter', 'asg', 'ealloc', 'efn'] + B),
 'each1':   dict(nco=1, nslot=1, depth=2, nval=3, feat=H + ['each', 'try', 'throw', 'rethrow', 'iter', 'oiter'] + B),
 'each2':   dict(nco=2, nslot=2, depth=1, nval=1, feat=HL + ['each', 'throw', 'rethrow'] + B),
 'hand1':   dict(nco=1, nslot=2, depth=3, nval=1, nexc=2, feat=HL + ['handler', 'throw', 'rethrow', 'try', 'ealloc'] + B),
 'hand2':   dict(nco=2, nslot=2, depth=2, nval=1, feat=H + ['handler', 'throw', 'rethrow'] + B),
 'hand3':   dict(nco=3, nslot=3, depth=2, nval=1, feat=H + ['handler', 'throw', 'rethrow'] + B),
 'handi1':  dict(nco=1, nslot=1, depth=2, nval=2, feat=H + ['handler', 'throw', 'rethrow', 'iter', 'oiter', 'asg', 'cthrow', 'each', 'ealloc', 'efn'] + B),
 'handd1':  dict(nco=2, nslot=2, depth=3, nval=1, feat=H + ['handler', 'dtor', 'throw', 'rethrow', 'push', 'next', 'res', 'yield']),
 'again1':  dict(nco=1, nslot=2, depth=1, nval=2, feat=H + ['again', 'how', 'iter', 'oiter', 'mnew', 'omove', 'throw'] + B),
 'again2':  dict(nco=2, nslot=2, depth=1, nval=2, feat=HL + ['again', 'cthrow', 'throw', 'rethrow', 'each'] + B),
 # every kind of call taken 66000 times by one coroutine
 'long1':   dict(nco=1, nslot=1, depth=1, nval=2, feat=H + B, longs=16, rwalks=100),
 'longm1':  dict(nco=1, nslot=2, depth=1, nval=1, feat=H + ['mnew', 'masg', 'omove', 'throw', 'rethrow', 'res', 'push', 'yield', 'next'], longs=16, rwalks=100),
 'longi1':  dict(nco=1, nslot=1, depth=1, nval=2, feat=H + ['iter', 'oiter', 'asg', 'each'] + B, longs=24, rwalks=100),
 # larger ones for the thorough tier
 'full1':   dict(nco=1, nslot=2, depth=2, nval=2, feat=HL + 'frame try throw rethrow mnew masg iter oiter asg omove cthrow'.split() + B),
 'full1v':  dict(nco=1, nslot=2, depth=2, nval=2, nexc=2, feat=HL + 'frame try throw rethrow mnew masg omove'.split() + B),
 'move3':   dict(nco=2, nslot=3, depth=1, nval=1, feat=HL + ['mnew', 'masg', 'omove'] + B),
 'exc3l':   dict(nco=3, nslot=3, depth=1, nval=1, feat=HL + ['throw', 'rethrow', 'try'] + B),
 'chain4':  dict(nco=4, nslot=4, depth=1, nval=1, feat=H + B),
 'iter2l':  dict(nco=2, nslot=2, depth=2, nval=1, feat=H + ['iter', 'oiter', 'asg', 'frame', 'throw', 'rethrow'] + B),
 'dtor2l':  dict(nco=2, nslot=2, depth=2, nval=1, feat=HL + ['dtor', 'try', 'frame', 'throw', 'rethrow'] + B),
 'ctor3':   dict(nco=3, nslot=3, depth=1, nval=1, feat=H + ['ealloc', 'efn', 'rethrow', 'throw'] + B),
 'cthrow2l': dict(nco=2, nslot=2, depth=2, nval=1, feat=HL + ['cthrow', 'rethrow', 'throw', 'try', 'iter', 'oiter', 'asg'] + B),
}
for n, c in SUITES.items(): c.setdefault('nexc', 1); c.setdefault('kinds', [1, 2]); c['name'] = n

TRACE = dict(nco=4, nslot=4, depth=3, nval=3, nexc=6)
TRACE_DEEP = dict(nco=28, nslot=14, depth=2, nval=3, nexc=6, deep=True)
TRACE_ABYSS = dict(nco=280, nslot=275, depth=2, nval=3, nexc=6, deep=True)
TRACE_VERYDEEP = dict(nco=120, nslot=110, depth=2, nval=3, nexc=6, deep=True)
TRACE_BIG = dict(nco=8, nslot=6, depth=4, nval=5, nexc=9)

def b(policy, std=14, alloc=0, cc='g++', opt='-O1', defs=()):
    return (policy, std, alloc, cc, opt, tuple(defs))
def matrix(policies, stds=(11, 14), **k):
    return [b(p, s, **k) for p in policies for s in stds]

MULTI = ['-DHV_NOISE=1', '-DHV_ALONE']
CORE = matrix(['Tracked', 'Ref', 'Void'])
# undefined behaviour (misaligned or null objects, uninitialised bools, ...) ends the program
UBSAN = ['-fsanitize=undefined', '-fno-sanitize=vptr,function', '-fsanitize-trap=undefined']
# ... and types that a size- or triviality-dependent change could treat differently
WIDE = CORE + matrix(['Large', 'Int'])
NOISY = matrix(['Tracked', 'Ref', 'Void'], defs=['-DHV_NOISE=1'])
VALS = ['Tracked', 'MoveOnly', 'CopyOnly', 'Int', 'Double', 'String', 'Unique', 'Shared', 'Tuple', 'Ptr', 'CharPtr', 'WideV', 'OddV', 'EnumV',
        'Tiny', 'Noexc', 'Char', 'Three3', 'GreedyV', 'Handle', 'Bool', 'EmptyV',
        'LDouble', 'FnPtr', 'Vector', 'Function', 'ConstPairV', 'ErrorV', 'NastyPolicy',
        'IntS', 'DoubleS', 'PtrS', 'UniqueS', 'StringS', 'VectorS', 'FunctionS', 'ErrorS', 'MethodS', 'MemberS', 'VecV', 'UniV', 'PolyV']
REFS = ['RefAbs', 'RefPtr', 'RefArr', 'RefInt', 'RefCInt', 'RefFun', 'RefVol', 'RefInc', 'RefCo']
REREAD = ['Int', 'Double', 'Ptr', 'CharPtr', 'WideV', 'OddV', 'EnumV', 'Char', 'Three3', 'Bool', 'Ref', 'CRef', 'LDouble', 'FnPtr',
          'IntS', 'DoubleS', 'PtrS', 'MethodS', 'MemberS', 'VecV', 'UniV']

NOLAMBDA = ['-DBOOST_NO_CXX14_GENERIC_LAMBDAS']
NOALIGN = ['-DBOOST_NO_CXX11_STD_ALIGN']

ALL = set('CTRL UNW EXC VAL ITER BOOL STACK LIFE FN FNCPY CPY SRC LEDGER ALIGN WHERE FRAME EXCLEAK TRAIT CRASH HANG TRACE BUILD INDEP'.split())
HARD = set('CTRL WHERE FRAME CRASH HANG TRACE BUILD UNW EXC LEDGER'.split())

def run(suites, bins, hop=False, shards=1):
    return dict(suites=suites, bins=bins, hop=hop, shards=shards)

# per property: what is replayed (runs), what is recorded and checked against the specification (traces),
# which kinds of deviations break the property
CHECKS = {
 'C01': dict(claims=HARD | {'VAL', 'BOOL'},
             runs=[run(['flow2', 'nest3', 'exc2', 'dtor2'], WIDE)],
             traces=CORE, models=['Chain', 'ControlBlock'], models_thorough=['ControlBlockL', 'ControlBlock4', 'ChainProofs'],
             thorough=[run(['full1v', 'chain4', 'move3', 'exc3l'], CORE + matrix(['Tracked', 'Void'], (17, 20)), shards=2)]),
 'C02': dict(claims=HARD | {'VAL', 'LIFE', 'ITER', 'REREAD', 'SRC'},
             runs=[run(['values2', 'iter2', 'each1', 'again1'], CORE + matrix(VALS[1:] + ['Large'])), run(['reget1'], matrix(REREAD)),
                   run(['reget1'], matrix(['Tracked', 'String', 'Shared', 'Tuple'], (14,)))],
             traces=matrix(['Tracked', 'MoveOnly', 'String', 'Int'], (11,)),
             thorough=[run(['full1', 'move3', 'again2'], matrix(VALS), shards=2)]),
 'C03': dict(claims=ALL | {'REREAD'},
             runs=[run(['values2', 'flow2', 'iter1', 'iter2', 'reget1', 'move2', 'exc2', 'each1'], matrix(['Ref', 'CRef'])),
                   run(['values2', 'iter1', 'reget1', 'iterm1', 'each1', 'exc1'], matrix(REFS))],
             traces=matrix(['Ref', 'CRef']),
             thorough=[run(['full1', 'nest3', 'move3'], matrix(['Ref', 'CRef'], (11, 14, 17)), shards=2)]),
 'C04': dict(claims=HARD | {'BOOL', 'TRAIT'},
             runs=[run(['flow2', 'move2', 'exc2', 'cthrow2', 'ctor2', 'iter1'], WIDE)],
             traces=CORE,
             thorough=[run(['full1', 'full1v', 'move3', 'exc3l', 'cthrow2l'], CORE, shards=2)]),
 'C05': dict(claims=HARD | {'EXCLEAK', 'BOOL', 'STACK', 'LIFE', 'FN', 'ITER'},
             runs=[run(['exc1', 'exc2', 'exc3', 'iter1', 'ctor2', 'dtor1', 'dtor2', 'dtorc1', 'hand1', 'hand2', 'handd1', 'handi1'], WIDE)],
             traces=CORE,
             thorough=[run(['full1', 'full1v', 'exc3l', 'ctor3', 'iter2l', 'dtor2l'], CORE + matrix(['Tracked'], (11, 14), cc='clang++', opt='-O2'), shards=2)]),
 'C06': dict(claims=HARD | {'STACK', 'LIFE', 'FN', 'EXCLEAK'},
             runs=[run(['flow2', 'exc2', 'nest3', 'move2', 'dtor1', 'dtor2', 'handd1'], WIDE)],
             traces=CORE, models=['Live', 'ControlBlock'],
             thorough=[run(['full1', 'full1v', 'exc3l', 'chain4', 'movel2', 'dtor2l'], CORE, shards=2)]),
 'C07': dict(claims=HARD | {'STACK'},
             runs=[run(['flow2', 'exc2', 'move2', 'ctor2', 'how1'], WIDE), run(['flow2', 'ctor2', 'move2'], matrix(['Tracked', 'Void'], (11, 14), alloc=1))],
             traces=CORE,
             thorough=[run(['full1', 'full1v', 'move3', 'exc3l', 'ctor3', 'nest3'], CORE, shards=2),
                       run(['exc2', 'nest3'], matrix(['Tracked', 'Ref', 'Void'], (11, 14), alloc=1) + matrix(['Tracked'], (11, 14), alloc=3))]),
 'C08': dict(claims=HARD | {'LIFE', 'VAL'},
             runs=[run(['values2', 'exc2', 'cthrow2', 'cthrow1', 'iter1', 'move2', 'dtorc1', 'again2'], matrix(['Tracked', 'MoveOnly', 'CopyOnly', 'Tiny', 'Noexc', 'Large', 'Big']))],
             traces=matrix(['Tracked', 'MoveOnly', 'CopyOnly']),
             thorough=[run(['full1', 'move3', 'exc3l', 'cthrow2l', 'nest3'], matrix(['Tracked', 'MoveOnly', 'CopyOnly']), shards=2)]),
 'C09': dict(claims=HARD | {'CPY', 'SRC', 'VAL', 'TRAIT', 'LIFE'},
             runs=[run(['how1', 'values2', 'iter1', 'iter2', 'iteri1', 'each1', 'cthrow1'], matrix(['Tracked', 'MoveOnly', 'CopyOnly', 'Unique', 'Large', 'Big', 'Noexc', 'Tiny'])), run(['iter1', 'iter2', 'reget1', 'each1'], matrix(['Int', 'OddV', 'Double']))],
             traces=matrix(['Tracked', 'MoveOnly', 'CopyOnly']),
             thorough=[run(['full1', 'reget1'], matrix(['Tracked', 'MoveOnly', 'CopyOnly', 'NastyPolicy'], (11, 14, 17)), shards=2)]),
 'C10': dict(claims=HARD | {'FN', 'FNCPY', 'STACK'},
             runs=[run(['how1', 'ctor2', 'exc1', 'flow2', 'move2'], WIDE)],
             traces=CORE,
             thorough=[run(['full1', 'full1v', 'ctor3', 'exc2'], CORE + matrix(['Tracked', 'Ref', 'Void'], (11, 14), cc='clang++', opt='-O2'), shards=2)]),
 'C11': dict(claims=ALL,
             runs=[run(['move2', 'movel2', 'iterm1', 'how1'], WIDE)],
             traces=CORE,
             thorough=[run(['full1', 'full1v', 'move3'], CORE + matrix(['MoveOnly', 'CopyOnly']), shards=2)]),
 'C12': dict(claims=HARD | {'ITER', 'VAL', 'BOOL', 'CPY', 'TRAIT', 'LIFE', 'REREAD'},
             runs=[run(['iter1', 'iter2', 'iterm1', 'iteri1', 'each1', 'each2'], matrix(['Tracked', 'Ref', 'CRef', 'MoveOnly', 'CopyOnly', 'Large', 'Int', 'NastyPolicy', 'RefAbs', 'ConstPairV'])), run(['reget1'], matrix(['Ref', 'Int']))],
             traces=matrix(['Tracked', 'Ref', 'MoveOnly']),
             thorough=[run(['full1', 'iter2l', 'cthrow2l'], matrix(['Tracked', 'Ref', 'MoveOnly', 'Int']), shards=2)]),
 'C13': dict(claims=HARD | {'ITER', 'VAL', 'BOOL', 'SRC', 'TRAIT', 'LIFE'},
             runs=[run(['iter1', 'iter2', 'iterm1', 'cthrow1'], matrix(['Tracked', 'Ref', 'CRef', 'CopyOnly', 'Large', 'Int', 'String', 'NastyPolicy', 'RefAbs', 'ConstPairV', 'Function']))],
             traces=matrix(['Tracked', 'Ref', 'CopyOnly']),
             thorough=[run(['full1', 'iter2l', 'cthrow2l'], matrix(['Tracked', 'Ref', 'CopyOnly', 'Int']), shards=2)]),
 'C14': dict(claims=ALL,
             runs=[run(['cthrow1', 'cthrow2', 'iter1', 'dtorc1', 'handi1'], matrix(['Tracked', 'MoveOnly', 'CopyOnly', 'Large', 'Big']))],
             traces=matrix(['Tracked', 'MoveOnly', 'CopyOnly']),
             thorough=[run(['full1', 'cthrow2l'], matrix(['Tracked', 'MoveOnly', 'CopyOnly', 'Over64'], (11, 14, 17)), shards=2)]),
 'C15': dict(claims=ALL,
             runs=[run(['ctor2', 'how1', 'exc1', 'exc3', 'dtorc1', 'handi1', 'hand1'], WIDE), run(['ctor2'], matrix(['Tracked', 'Void'], (11, 14), alloc=1))],
             traces=CORE,
             thorough=[run(['ctor3', 'full1v', 'exc3l'], CORE + matrix(['MoveOnly', 'Over64']), shards=2)]),
 'C16': dict(claims=ALL,
             runs=[run(['flow2', 'exc3', 'move2', 'dtor2', 'iter1'], NOISY), run(['nest3', 'exc3', 'values2', 'flow2', 'dtor2', 'hand3', 'iter2'], WIDE)],
             traces=CORE, tracecfg=TRACE_BIG, deep=CORE, models=['Chain'], models_thorough=['ControlBlock4', 'ChainProofs'],
             thorough=[run(['chain4', 'exc3l', 'move3', 'iter2l'], CORE, shards=2)]),
 'C17': dict(claims=ALL,
             runs=[run(['flow2', 'exc1'], NOISY, hop=True), run(['flow2', 'exc3', 'move2', 'iter1', 'cthrow2', 'dtor2', 'hand2'], CORE, hop=True)],
             traces=CORE + NOISY, hop=True,
             thorough=[run(['exc2', 'nest3', 'values2', 'movel2'], CORE, hop=True, shards=2)]),
 'C18': dict(claims=ALL, layout=[b('Layout', 11), b('Layout', 14), b('Layout', 11, cc='clang++', opt='-O2'), b('Layout', 14, cc='clang++', opt='-O0')],
             runs=[run(['flow2', 'values2', 'ctor2', 'cthrow2', 'move2'], matrix(['Over32', 'Over64', 'Over128', 'Over512', 'Big', 'VecV', 'NastyPolicy', 'Void']))],
             traces=matrix(['Over64', 'Big']),
             thorough=[run(['exc2', 'full1v', 'nest3'], matrix(['Over32', 'Over64', 'Over512', 'Big', 'NastyPolicy']), shards=2)]),
 'C19': dict(claims=ALL,
             runs=[run(['flow2', 'ctor2', 'move2', 'exc1'], matrix(['Tracked', 'Ref', 'Void'], (11,), alloc=a) + matrix(['Tracked', 'Void'], (14,), alloc=a)) for a in (0, 1, 2, 3, 4)],
             traces=[b('Tracked', 11, 1), b('Void', 14, 2), b('Ref', 11, 3), b('Tracked', 14, 4)],
             thorough=[run(['exc2', 'nest3', 'how1'], matrix(['Tracked', 'Ref', 'Void'], (11, 14), alloc=a), shards=1) for a in (1, 2, 3, 4)]),
 'C20': dict(claims=ALL,
             runs=[run(['flow2', 'iter1', 'dtor1'], [b('Tracked', 11, defs=MULTI), b('Void', 14, defs=MULTI), b('Ref', 11, cc='clang++', defs=MULTI), b('Tracked', 17, opt='-O2', cc='clang++', defs=MULTI)]),
                   run(['exc1', 'iter1', 'ctor2', 'how1', 'move2', 'handi1', 'cthrow1'], [b(p, s, cc='clang++', defs=UBSAN) for p in ('Tracked', 'Ref', 'Void', 'Int') for s in (11, 14)]),
                   run(['exc1', 'iter1', 'ctor2', 'how1', 'dtor1', 'move2', 'hand2', 'handi1', 'cthrow1', 'each1'],
                       [b(p, s, cc=cc, opt='-O2' if cc == 'g++' else '-O1', defs=['-DNDEBUG'] if (s + (cc == 'g++')) % 2 else []) for p in ('Tracked', 'Ref', 'Void') for s in (11, 14, 17, 20, 23) for cc in ('g++', 'clang++')]),
                   run(['flow2', 'exc3', 'iter1', 'move2', 'ctor2', 'values2'],
                       [b('Tracked', 11, cc='clang++', opt='-O2'), b('Tracked', 14, cc='clang++', opt='-O0'), b('Ref', 11, cc='clang++', opt='-O1'),
                        b('Void', 14, cc='clang++', opt='-O2'), b('Void', 11, cc='g++', opt='-O2', defs=['-DNDEBUG']), b('Ref', 14, cc='g++', opt='-O3'),
                        b('Tracked', 17, cc='g++', opt='-O2', defs=['-DNDEBUG']), b('Tracked', 20, cc='g++', opt='-O0'), b('Tracked', 11, cc='g++', opt='-O3'), b('Void', 11, opt='-O0'),
                        b('Tracked', 14, opt='-Os'), b('Ref', 11, opt='-Os'), b('Void', 17, cc='clang++', opt='-Os'), b('Void', 14, opt='-Og'), b('Ref', 20, opt='-Ofast'),
                        # the C++11 variants may be chosen by configuration
                        b('Tracked', 17, defs=NOLAMBDA), b('Ref', 14, defs=NOLAMBDA), b('Void', 20, cc='clang++', defs=NOLAMBDA),
                        b('Tracked', 14, alloc=1, defs=NOALIGN), b('Ref', 11, alloc=1, defs=NOALIGN), b('Void', 17, alloc=1, defs=NOALIGN)])],
             traces=[b('Tracked', 11, cc='clang++', opt='-O2'), b('Void', 11, cc='g++', opt='-O2', defs=['-DNDEBUG']), b('Tracked', 17, cc='g++', opt='-O2', defs=['-DNDEBUG'])],
             thorough=[run(['exc2', 'nest3', 'full1'],
                           [b(p, s, cc=cc, opt=o, defs=d) for p in ('Tracked', 'Ref', 'Void') for s in (11, 14) for cc in ('g++', 'clang++')
                            for o, d in (('-O0', ()), ('-O2', ('-DNDEBUG',)), ('-O3', ()))])]),
}

# Whatever a property is about, it may depend on where a call is made (in a destructor, in a handler, in the middle of a
# constructor that fails), on how often it was made before, and on language version, compiler, optimisation and
# assertions: every check replays these instances too.
BASE = ['long1', 'longm1', 'longi1', 'dtor1', 'dtor2', 'hand1', 'hand2', 'handd1', 'exc1', 'ctor2', 'move2', 'how1', 'flow2']
EXTRA = {p: CORE for p in ('C01', 'C02', 'C04', 'C05', 'C06', 'C07', 'C08', 'C10', 'C11', 'C12', 'C13', 'C15', 'C16')}
EXTRA.update({'C03': matrix(['Ref', 'CRef']), 'C09': matrix(['Tracked', 'MoveOnly', 'CopyOnly']), 'C14': matrix(['Tracked', 'MoveOnly', 'CopyOnly']),
              'C18': matrix(['Over64', 'Void']), 'C19': matrix(['Tracked', 'Void', 'Ref'], alloc=3)})
def other_ways(policies):
    return [b(p, 17, opt='-O2', defs=['-DNDEBUG']) for p in policies] + [b(p, 20, cc='clang++', opt='-O1') for p in policies]
for p, bins in EXTRA.items():
    bins = bins + other_ways({'C03': ['Ref', 'CRef'], 'C09': ['Tracked', 'MoveOnly'], 'C14': ['Tracked', 'CopyOnly'], 'C18': ['Over64']}.get(p, ['Tracked', 'Ref', 'Void']))
    have = {(x, n) for r in CHECKS[p]['runs'] for x in r['bins'] for n in r['suites']}
    for n in BASE:
        todo = [x for x in bins if (x, n) not in have]
        if todo: CHECKS[p]['runs'].append(run([n], todo))
