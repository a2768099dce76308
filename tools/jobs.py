# Jobs (one harness build + one symbolic exploration each) and the properties they decide.
JOBS = {}; PROPS = {}
NAT = '-DBOOST_STATECHART_USE_NATIVE_RTTI'; NOTHR = '-DBOOST_DISABLE_THREADS'; RELAX = '-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT'; TR = '-DF_TRANSLATOR=1'
def J(name, chart=None, flags='', what='', **k):
    j = dict(flags=flags, what=what, **k)
    if chart: j['chart'] = chart
    assert name not in JOBS, name
    JOBS[name] = j; return name
def S(name, chart, flags='', what='', **k):  # structure jobs: one event at a time, no queueing
    return J(name, chart, '-DF_QCAP=0 ' + flags, what or 'one event at a time, every reaction outcome', **k)
def P(id, quick, thorough=(), **k): PROPS[id] = dict(quick=list(quick), thorough=list(thorough), **k)

# ---- structure of transitions
T01 = [S('t-nest', 'nest', NOTHR), S('t-deep6', 'deep6', NAT), S('t-ortho', 'ortho'), S('t-ortho2', 'ortho2', NOTHR + ' ' + NAT), S('t-orth3', 'orth3'), S('t-wide4', 'wide4', NAT), S('t-wide5', 'wide5', NOTHR), S('t-ininit', 'ininit')]
R01 = [S('t-rand%d' % i, 'rand%d' % i, [NOTHR, NAT, ''][i % 3], 'randomly generated chart', time=60) for i in range(16)]
P('C01', T01, R01)
P('C16', [S('a-ortho', 'ortho', NOTHR, gen='acts'), S('a-nest', 'nest', gen='acts'), S('a-ininit', 'ininit', NAT, gen='acts'),
   S('a-r-nest', 'nest', RELAX, gen='relax', compiles=True), S('a-r-ortho2', 'ortho2', RELAX + ' ' + NOTHR, gen='relax', compiles=True), S('a-r-exc2', 'exc2', RELAX + ' ' + NAT, gen='relax', compiles=True), S('a-r-deep4', 'deep4', RELAX, gen='relax', compiles=True), S('a-r-hist', 'hist0', RELAX, gen='relax', compiles=True)],
   [S('a-r-ortho', 'ortho', RELAX, gen='relax', compiles=True), S('a-r-wide4', 'wide4', RELAX, gen='relax', compiles=True), S('a-wide4', 'wide4', gen='acts'), S('a-r-dhn', 'dhn', RELAX, gen='relax', compiles=True)])
# ---- configuration and queries
P('C02', [S('q-ortho', 'ortho', NOTHR + ' -DF_QUERY=7'), S('q-ortho2', 'ortho2', NAT + ' -DF_QUERY=7'), S('q-deep4', 'deep4', '-DF_QUERY=7'), S('q-hist', 'hist0', '-DF_QUERY=3'), S('q-wide4', 'wide4', '-DF_QUERY=1'),
   S('q-exc', 'exc', TR + ' -DF_QUERY=3 -DF_THROW=1'), S('q-exc2', 'exc2', NAT + ' -DF_QUERY=3 -DF_THROW=1')],
  [S('q-wide5', 'wide5', '-DF_QUERY=7'), S('q-orth3', 'orth3', '-DF_QUERY=7'), S('q-dhist', 'dhist', '-DF_QUERY=3', time=300)])
# ---- reaction search
P('C03', [S('r-silent', 'silent', NOTHR + ' -DF_TYPES=2'), S('r-ortho', 'ortho', '-DF_TYPES=2'), S('r-wide4', 'wide4', NAT + ' -DF_TYPES=2'), S('r-orth3', 'orth3', '-DF_TYPES=2'), J('r-defer', 'defer', '-DF_QCAP=1 -DF_DEFER=1 -DF_TYPES=1'), J('r-queue', 'queue1', '-DF_QCAP=1 -DF_POST=1 -DF_TYPES=2')],
  [S('r-rand%d' % i, 'rand%d' % (i + 20), '-DF_TYPES=2 ' + [NOTHR, NAT, ''][i % 3], time=60) for i in range(10)])
# ---- posted events
P('C04', [J('p-queue', 'queue', '-DF_QCAP=4 -DF_POST=2 -DF_TYPES=2'), J('p-queue1', 'queue1', NOTHR + ' -DF_QCAP=5 -DF_POST=3 -DF_TYPES=2'), J('p-flat1', 'flat1', NAT + ' -DF_QCAP=8 -DF_POST=4 -DF_TYPES=1'), J('p-re2', 'flat2', '-DF_QCAP=4 -DF_POST=2 -DF_TYPES=2 -DF_DEFER=1 -DF_REPOST=1'), J('p-two', 'two', '-DF_QCAP=3 -DF_POST=2 -DF_TYPES=2'), J('p-ortho2', 'ortho2', NAT + ' -DF_QCAP=2 -DF_POST=2 -DF_TYPES=1'), J('p-exc', 'exc1', TR + ' -DF_QCAP=3 -DF_POST=2 -DF_THROW=1 -DF_TYPES=1'), J('p-hist', 'hist0', '-DF_QCAP=2 -DF_POST=1 -DF_TYPES=1')])
# ---- deferral
P('C05', [J('d-defer', 'defer', '-DF_QCAP=3 -DF_POST=1 -DF_DEFER=1 -DF_TYPES=2'), J('d-defn', 'defn', NOTHR + ' -DF_QCAP=3 -DF_POST=1 -DF_DEFER=1 -DF_TYPES=1'), J('d-flat2', 'flat2', NAT + ' -DF_QCAP=5 -DF_POST=2 -DF_DEFER=1 -DF_TYPES=1'), J('d-flat1', 'flat1', '-DF_QCAP=4 -DF_POST=2 -DF_DEFER=1 -DF_TYPES=2'), J('d-exc', 'exc1', TR + ' -DF_QCAP=2 -DF_POST=1 -DF_DEFER=1 -DF_THROW=1 -DF_TYPES=1'), J('d-hist', 'hist0', '-DF_QCAP=2 -DF_DEFER=1 -DF_TYPES=1')])
# ---- event lifetime
P('C06', [J('e-flat1', 'flat1', '-DF_QCAP=3 -DF_POST=1 -DF_DEFER=1 -DF_KINDS=3 -DF_TYPES=2'), J('e-re1', 'flat1', '-DF_QCAP=4 -DF_POST=2 -DF_DEFER=1 -DF_KINDS=3 -DF_TYPES=1 -DF_REPOST=1'), J('e-mini', 'mini', NOTHR + ' -DF_QCAP=2 -DF_POST=1 -DF_DEFER=1 -DF_KINDS=3 -DF_TYPES=2'), J('e-exc', 'exc1', TR + ' -DF_QCAP=1 -DF_POST=1 -DF_DEFER=1 -DF_KINDS=3 -DF_THROW=1 -DF_TYPES=1')])
# ---- history
P('C07', [S('s-shist', 'shist', NOTHR), S('s-hist0', 'hist0', NAT), S('s-shn', 'shn'), S('s-shr2', 'shr2'), S('s-twoh', 'twoh'), S('s-sh3', 'sh3', NAT, time=120)])
P('C08', [S('h-dhist', 'dhist', NOTHR), S('h-dhn', 'dhn', NAT), S('h-dh4', 'dh4'), S('h-fhist', 'fhist', NAT), S('h-dhr2', 'dhr2'), S('h-hist0', 'hist0')])
P('C09', [S('c-shist', 'shist', NAT + ' -DF_CLEARINREACT=1'), S('c-dhn', 'dhn', '-DF_CLEARINREACT=1'), S('c-fhist', 'fhist', NOTHR), S('c-twoh', 'twoh', '-DF_CLEARINREACT=1'), S('c-hist0', 'hist0', '-DF_CLEARINREACT=1 -DF_THROW=1'), S('c-hist0t', 'hist0', TR + ' -DF_THROW=1')])
# ---- termination
P('C10', [S('x-ortho', 'ortho', NAT), S('x-ortho2', 'ortho2'), S('x-orth3', 'orth3', NOTHR), S('x-deep4', 'deep4'), S('x-wide4', 'wide4'), J('x-queue', 'two', '-DF_QCAP=3 -DF_POST=1 -DF_DEFER=1 -DF_TYPES=2'), J('x-flat1', 'flat1', '-DF_QCAP=4 -DF_POST=2 -DF_DEFER=1 -DF_TYPES=1'), J('x-defn', 'defn', '-DF_QCAP=2 -DF_POST=1 -DF_DEFER=1 -DF_TYPES=1')])
# ---- exceptions
P('C11', [S('n-exc', 'exc', '-DF_THROW=1'), S('n-exc2', 'exc2', NAT + ' -DF_THROW=1'), S('n-ortho', 'ortho', '-DF_THROW=1'), S('n-ortho2', 'ortho2', NOTHR + ' -DF_THROW=1'), S('n-hist', 'hist0', '-DF_THROW=1'), S('n-ininit', 'ininit', '-DF_THROW=1'), J('n-post', 'exc1', '-DF_QCAP=2 -DF_POST=1 -DF_DEFER=1 -DF_THROW=1 -DF_TYPES=1'), J('n-excd', 'excd', '-DF_QCAP=1 -DF_POST=1 -DF_THROW=1 -DF_TYPES=1')])
P('C12', [S('y-exc', 'exc', TR + ' -DF_THROW=3'), S('y-exc1', 'exc1', TR + ' -DF_THROW=3'), S('y-exc2', 'exc2', TR + ' -DF_THROW=2 ' + NAT), S('y-exch', 'exch', TR + ' -DF_THROW=2'), S('y-exco', 'exco', TR + ' -DF_THROW=2 ' + NOTHR), S('y-ininit', 'ininit', TR + ' -DF_THROW=1'), S('y-ortho2', 'ortho2', TR + ' -DF_THROW=1'), J('y-defer', 'exc1', TR + ' -DF_QCAP=1 -DF_DEFER=1 -DF_THROW=2 -DF_TYPES=1'), S('y-exc2d', 'exc2', TR + ' -DF_DEFER=1 -DF_THROW=1'), J('y-excd', 'excd', TR + ' -DF_QCAP=2 -DF_POST=1 -DF_DEFER=1 -DF_THROW=2 -DF_TYPES=1')])
P('C13', [J('i-excp', 'exc1', TR + ' -DF_QCAP=2 -DF_POST=1 -DF_DEFER=1 -DF_THROW=1 -DF_TYPES=1'), S('i-exc2', 'exc2', TR + ' -DF_THROW=2'), S('i-hist0', 'hist0', TR + ' -DF_THROW=1'), S('i-fhist', 'fhist'), J('i-two', 'two', '-DF_QCAP=3 -DF_POST=1 -DF_DEFER=1 -DF_TYPES=1 -DF_THROW=1'), S('i-ortho', 'ortho')])
P('C14', [J('g-flat2', 'flat2', '-DF_TRIG=1 -DF_QCAP=3 -DF_POST=2 -DF_DEFER=1 -DF_TYPES=2'), S('g-ortho', 'ortho', '-DF_TRIG=1'), S('g-exc', 'exc', TR + ' -DF_TRIG=1 -DF_THROW=1'), S('g-exc1', 'exc1', TR + ' -DF_TRIG=1 -DF_THROW=2'), S('g-n-exc', 'exc2', NAT + ' -DF_TRIG=1 -DF_THROW=1'), S('g-hist', 'hist0', '-DF_TRIG=1'), S('g-nest', 'mini', '-DF_NM=2 -DF_NEST=1 -DF_TRIG=1'), S('g-nestx', 'mini', TR + ' -DF_NM=2 -DF_NEST=1 -DF_TRIG=1 -DF_THROW=1'), J('g-excd', 'exc1', TR + ' -DF_TRIG=1 -DF_QCAP=2 -DF_POST=1 -DF_DEFER=1 -DF_THROW=1 -DF_TYPES=1')])
P('C17', [S('k-deep4', 'deep4', '-DF_CTX=1'), S('k-ortho', 'ortho', NAT + ' -DF_CTX=1'), S('k-wide4', 'wide4', '-DF_CTX=1'), S('k-wide5', 'wide5', NOTHR + ' -DF_CTX=1'), S('k-deep6', 'deep6', NAT + ' -DF_CTX=1'), S('k-hist', 'hist0', '-DF_CTX=1'), S('k-exc', 'exc', TR + ' -DF_CTX=1 -DF_THROW=1'), S('k-reuse', 'ortho2', '-DF_NM=2 -DF_CTX=1', sym='--reuse'), S('k-reuset', 'exc1', TR + ' -DF_NM=2 -DF_CTX=1 -DF_THROW=1 -DF_QUERY=3 -DF_RENEW=1', sym='--reuse')])
P('C25', [S('m-mini', 'mini', '-DF_NM=2 -DF_RENEW=1'), S('m-hist', 'hist0', '-DF_NM=2 -DF_RENEW=1'), S('m-nest', 'mini', '-DF_NM=2 -DF_NEST=1 -DF_RENEW=1'), J('m-nestq', 'flat1', '-DF_TRIG=1 -DF_NM=2 -DF_RENEW=1 -DF_NEST=2 -DF_QCAP=1 -DF_POST=1 -DF_DEFER=1 -DF_TYPES=1'), S('m-nestx', 'mini', TR + ' -DF_TRIG=1 -DF_NM=2 -DF_NEST=1 -DF_RENEW=1 -DF_THROW=1'), S('m-three', 'mini', '-DF_NM=3 -DF_NEST=1 -DF_RENEW=1'), J('m-q', 'flat1', '-DF_NM=2 -DF_RENEW=1 -DF_QCAP=1 -DF_POST=1 -DF_DEFER=1 -DF_TYPES=1'), S('m-exc', 'exc1', '-DF_NM=2 -DF_THROW=1 -DF_RENEW=1'), S('m-reuse', 'nest', '-DF_NM=2 -DF_RENEW=1 -DF_CTX=1 -DF_QUERY=3', sym='--reuse'), J('m-reuseq', 'defn', TR + ' -DF_NM=2 -DF_CTX=1 -DF_QUERY=1 -DF_QCAP=1 -DF_DEFER=1 -DF_THROW=1 -DF_TYPES=1', sym='--reuse')])
REL = '-DNDEBUG -DBOOST_DISABLE_ASSERTS'
P('C23', [J('z-all', 'exc1', TR + ' -DF_QCAP=1 -DF_POST=1 -DF_DEFER=1 -DF_THROW=2 -DF_TYPES=1 -DF_TRIG=1 -DF_CTX=1 -DF_QUERY=3'), J('z-rel', 'exc1', REL + ' ' + TR + ' -DF_QCAP=2 -DF_POST=1 -DF_DEFER=1 -DF_THROW=1 -DF_TYPES=1'),
   S('z-r-ortho2', 'ortho2', REL + ' -DF_THROW=1 -DF_QUERY=3'), S('z-r-hist', 'hist0', REL + ' ' + TR + ' ' + NAT + ' -DF_THROW=2 -DF_CLEARINREACT=1'), J('z-r-defer', 'flat2', REL + ' ' + NOTHR + ' -DF_QCAP=4 -DF_POST=2 -DF_DEFER=1 -DF_TYPES=2 -DF_KINDS=3'), S('z-r-deep4', 'deep4', REL + ' ' + RELAX + ' -DF_THROW=1', gen='relax', compiles=True),
   S('z-wide4', 'wide4', NAT + ' -DF_THROW=1'), S('z-dhn', 'dhn', TR + ' -DF_THROW=1'), S('z-ininit', 'ininit', TR + ' ' + NOTHR + ' ' + NAT + ' -DF_THROW=1'), S('z-fhist', 'fhist', '-DF_THROW=1'), J('z-nest', 'mini', '-DF_NM=2 -DF_NEST=1 -DF_QCAP=1 -DF_POST=1 -DF_THROW=1 -DF_TYPES=1')])
# ---- workers
def H(name, source, flags='', what='', **k): return J(name, None, flags, what, source=source, **k)
P('C18', [H('w-st', 'worker.cpp', NOTHR), H('w-sched', 'worker.cpp', NOTHR + ' -DF_SCHED=1 -DF_CAP=3'), H('w-mt', 'worker.cpp', '-pthread -DF_CAP=3 -DF_PER=2'), H('w-rel', 'worker.cpp', NOTHR + ' ' + REL + ' -DF_CAP=3')],
  [H('w-big', 'worker.cpp', NOTHR + ' -DF_CAP=6 -DF_PER=4')])
P('C20', [H('s-basic', 'sched.cpp', NOTHR + ' -DF_CAP=3 -DF_PER=1'), H('s-args', 'sched.cpp', NOTHR + ' -DF_ARGS=9 -DF_CAP=2 -DF_PER=1'), H('s-throw', 'sched.cpp', NOTHR + ' -DF_THROW=1 -DF_CAP=2 -DF_PER=2'), H('s-mt', 'sched.cpp', '-pthread -DF_CAP=2 -DF_PER=1 -DF_THROW=1'), H('s-one', 'sched.cpp', NOTHR + ' -DF_NP=1 -DF_CAP=4 -DF_PER=1 -DF_THROW=1'), H('s-three', 'sched.cpp', NOTHR + ' ' + REL + ' -DF_NP=3 -DF_CAP=2 -DF_PER=0'), H('s-argt', 'sched.cpp', NOTHR + ' -DF_NP=1 -DF_ARGS=9 -DF_CAP=2 -DF_PER=1 -DF_THROW=1')],
  [H('s-basic2', 'sched.cpp', NOTHR, time=300), H('s-throw3', 'sched.cpp', NOTHR + ' -DF_THROW=1 -DF_CAP=3 -DF_PER=1', time=300)])
AS = '-DF_ASYNC=1 ' + NOTHR + ' '
P('C21', [S('b-mini', 'mini', AS + '-DF_NM=2'), S('b-nest', 'deep4', AS), S('b-ortho2', 'ortho2', AS + NAT), S('b-hist', 'hist0', AS + '-DF_REQ=1'), J('b-post', 'flat2', AS + '-DF_QCAP=2 -DF_POST=1 -DF_DEFER=1 -DF_TYPES=1 -DF_AREQ=1'), S('b-exc', 'exc1', AS + '-DF_THROW=1 -DF_REQ=2 -DF_AREQ=1'), S('b-exct', 'exc', AS + TR + ' -DF_THROW=1'), J('b-two', 'flat1', AS + '-DF_NM=2 -DF_QCAP=1 -DF_POST=1 -DF_DEFER=1 -DF_TYPES=1 -DF_AREQ=1'), S('b-trig', 'exc2', '-DF_ASYNC=1 -pthread -DF_TRIG=1 -DF_CTX=1 -DF_QUERY=1')])
P('C15', [H('i-own', 'rtti.cpp'), H('i-nat', 'rtti.cpp', NAT), H('i-rel', 'rtti.cpp', REL), H('i-cust', 'rtti.cpp', '-DF_CUSTOM'), H('i-custr', 'rtti.cpp', '-DF_CUSTOM ' + REL), H('i-natrel', 'rtti.cpp', NAT + ' ' + REL + ' ' + NOTHR), S('i-own-silent', 'silent', '-DF_TYPES=2 -DF_QUERY=3'), S('i-nat-silent', 'silent', NAT + ' -DF_TYPES=2 -DF_QUERY=3'), S('i-own-wide', 'wide4', '-DF_QUERY=3'), S('i-nat-wide', 'wide4', NAT + ' -DF_QUERY=3')])
P('C24', [H('f-res', 'result.cpp', '-DF_LEN=4'), H('f-res2', 'result.cpp', '-DF_SLOTS=2 -DF_LEN=6')], [H('f-res3', 'result.cpp', '-DF_LEN=6'), H('f-res4', 'result.cpp', '-DF_SLOTS=4 -DF_LEN=6', time=300)])
PROPS['C06']['quick'] += [H('ev-ref', 'events.cpp', '-pthread'), H('ev-refst', 'events.cpp', NOTHR + ' ' + NAT), H('ev-many', 'events.cpp', '-pthread -DF_SLOTS=1 -DF_OBJS=1 -DF_MANY=70000'), H('ev-manyst', 'events.cpp', NOTHR + ' -DF_SLOTS=1 -DF_OBJS=1 -DF_MANY=70000')]
PROPS['C06']['thorough'] += [H('ev-ref3', 'events.cpp', NOTHR + ' -DF_SLOTS=3 -DF_OBJS=3 -DF_MANY=3', time=300)]
PROPS['C24']['quick'] += ['z-r-ortho2', 'x-ortho2', 'y-excd']
PROPS['C23']['quick'] += ['ev-ref', 'ev-manyst', 's-mt', 's-argt', 'w-st', 'b-exct', 'b-two']
PROPS['C07']['quick'] += [S('s-hist0t', 'hist0', TR + ' -DF_THROW=1'), S('s-shnt', 'shn', NOTHR + ' ' + TR + ' -DF_THROW=1')]; PROPS['C08']['quick'] += [S('h-dhnt', 'dhn', NOTHR + ' ' + TR + ' -DF_THROW=1'), S('h-fhistt', 'fhist', TR + ' -DF_THROW=1')]
# ---- allocation
FA = '-DF_FAULT=1 '
P('C22', [S('l-nest', 'exc', FA), S('l-ortho', 'ortho2', FA + NOTHR), S('l-hist', 'hist0', FA + NAT), S('l-exct', 'exc', FA + TR), S('l-exc2t', 'exc2', '-DF_FAULT=2 ' + TR), J('l-post', 'two', FA + '-DF_QCAP=2 -DF_POST=1 -DF_DEFER=1 -DF_TYPES=2'), J('l-flat', 'flat2', FA + '-DF_QCAP=3 -DF_POST=2 -DF_DEFER=1 -DF_TYPES=2 -DF_KINDS=3'), J('l-postt', 'exc1', FA + TR + ' -DF_QCAP=1 -DF_POST=1 -DF_DEFER=1 -DF_TYPES=1'), S('l-throw', 'exc1', '-DF_COUNT=1 -DF_THROW=1'), S('l-throwt', 'hist0', '-DF_COUNT=1 -DF_THROW=1 ' + TR), J('l-count', 'defer', '-DF_COUNT=1 -DF_QCAP=2 -DF_POST=1 -DF_DEFER=1 -DF_TYPES=2')])
# ---- declared reactions against direct calls
def D(name, chart, n, flags='', **k): return J(name, chart, flags, 'a chart with random lists of declared reactions, in lockstep with the chart making the direct calls', decl=n, **k)
CONF = ['', NAT, NOTHR, NOTHR + ' ' + NAT]
P('C26', [D('v-%s-%d' % (c, i), c, i, CONF[(i + len(c)) % 4] + ' ' + f) for c, i, f in
   [('hist0', 1, '-DF_POST=1'), ('hist0', 2, TR + ' -DF_THROW=1'), ('ortho', 1, ''), ('ortho2', 2, ''), ('ortho2', 3, TR + ' -DF_THROW=1'), ('nest', 1, '-DF_POST=1 -DF_CAP=2'), ('nest', 2, TR + ' -DF_THROW=2'), ('nest', 3, '-DF_POST=1'), ('deep4', 1, '-DF_CAP=2'), ('deep4', 3, TR + ' -DF_THROW=1'),
    ('dhn', 1, '-DF_POST=1'), ('dhn', 3, TR + ' -DF_THROW=1'), ('shist', 1, ''), ('shist', 3, '-DF_POST=1'), ('exc', 1, TR + ' -DF_THROW=2'), ('exc', 2, TR + ' -DF_THROW=1 -DF_POST=1'), ('exc', 3, REL + ' -DF_POST=1'), ('exch', 1, TR + ' -DF_THROW=1'), ('exch', 2, REL + ' ' + TR + ' -DF_THROW=1'), ('twoh', 1, '-DF_POST=1'), ('twoh', 2, TR + ' -DF_THROW=1'), ('silent', 1, '-DF_CAP=2'), ('silent', 3, '-DF_POST=1'), ('fhist', 2, TR + ' -DF_THROW=1'), ('nest', 4, RELAX + ' -DF_POST=1'), ('ortho', 4, RELAX + ' ' + TR + ' -DF_THROW=1')]],
  [D('v-%s-%d' % (c, i), c, i, CONF[i % 4] + ' ' + [TR + ' -DF_THROW=1', '-DF_POST=1', ''][i % 3], time=60) for c in ['hist0', 'ortho', 'ortho2', 'nest', 'deep4', 'dhn', 'shist', 'exc', 'exch', 'silent', 'wide4', 'dhist'] for i in range(10, 13)])
# declared reactions are part of the other properties, too
for id, js in {'C01': ['v-nest-1', 'v-ortho-1', 'v-deep4-1'], 'C03': ['v-silent-1', 'v-silent-3', 'v-ortho2-2'], 'C05': ['v-ortho-1', 'v-nest-3'], 'C07': ['v-shist-1', 'v-twoh-1'], 'C08': ['v-dhn-1', 'v-twoh-1'], 'C10': ['v-ortho-1', 'v-ortho2-2'], 'C11': ['v-nest-2'], 'C12': ['v-exc-1', 'v-exch-1'], 'C16': ['v-nest-1', 'v-deep4-1', 'v-exc-2', 'v-nest-4', 'v-ortho-4'], 'C15': ['v-silent-3']}.items(): PROPS[id]['quick'] += js
# ---- release builds, and addresses used again: a new block takes the address of the last released one of its size
RU = dict(sym='--reuse')
for id, js in {
  'C01': [S('t-reuse', 'nest', '-DF_NM=2 -DF_RENEW=1', **RU)], 'C02': [S('q-reuse', 'exc', TR + ' -DF_NM=2 -DF_QUERY=7 -DF_THROW=1 -DF_RENEW=1', **RU)], 'C03': [S('r-reuse', 'silent', '-DF_NM=2 -DF_TYPES=2 -DF_KINDS=3 -DF_RENEW=1', **RU)],
  'C04': [J('p-reuse', 'flat2', '-DF_QCAP=3 -DF_POST=2 -DF_DEFER=1 -DF_TYPES=2 -DF_KINDS=3 -DF_RENEW=1', **RU)], 'C05': [J('d-reuse', 'defn', '-DF_QCAP=2 -DF_POST=1 -DF_DEFER=1 -DF_TYPES=2 -DF_RENEW=1', **RU)],
  'C06': [J('e-reuse', 'flat2', '-DF_QCAP=3 -DF_POST=1 -DF_DEFER=1 -DF_KINDS=3 -DF_TYPES=1 -DF_REPOST=1 -DF_RENEW=1', **RU), H('ev-reuse', 'events.cpp', NOTHR, **RU)],
  'C07': [S('s-reuse', 'shn', '-DF_RENEW=1', **RU)], 'C08': [S('h-reuse', 'dhn', '-DF_RENEW=1', **RU)], 'C09': [S('c-reuse', 'hist0', '-DF_NM=2 -DF_CLEARINREACT=1 -DF_RENEW=1', **RU)],
  'C10': [J('x-reuse', 'two', '-DF_QCAP=2 -DF_POST=1 -DF_DEFER=1 -DF_TYPES=1 -DF_RENEW=1', **RU)], 'C11': [J('n-reuse', 'excd', '-DF_NM=2 -DF_QCAP=1 -DF_POST=1 -DF_DEFER=1 -DF_THROW=1 -DF_TYPES=1 -DF_RENEW=1', **RU)], 'C12': [S('y-reuse', 'exc2', TR + ' -DF_NM=2 -DF_THROW=2 -DF_RENEW=1', **RU)],
  'C13': [J('i-reuse', 'exc1', TR + ' -DF_QCAP=1 -DF_POST=1 -DF_DEFER=1 -DF_THROW=1 -DF_TYPES=1 -DF_RENEW=1', **RU)], 'C14': [J('g-reuse', 'flat2', '-DF_TRIG=1 -DF_QCAP=2 -DF_POST=1 -DF_DEFER=1 -DF_TYPES=2 -DF_KINDS=3 -DF_RENEW=1', **RU)],
  'C16': [S('a-reuse', 'nest', RELAX + ' -DF_NM=2 -DF_RENEW=1', gen='relax', compiles=True, **RU)], 'C18': [H('w-reuse', 'worker.cpp', NOTHR + ' -DF_CAP=3', **RU)], 'C20': [H('u-reuse', 'sched.cpp', NOTHR + ' -DF_CAP=2 -DF_PER=1 -DF_THROW=1', **RU)],
  'C21': [J('b-reuse', 'flat2', AS + '-DF_NM=2 -DF_QCAP=1 -DF_POST=1 -DF_DEFER=1 -DF_TYPES=1', **RU)], 'C22': [S('l-reuse', 'hist0', FA + '-DF_RENEW=1', **RU)], 'C23': [J('z-reuse', 'exc1', TR + ' -DF_QCAP=1 -DF_POST=1 -DF_DEFER=1 -DF_THROW=1 -DF_TYPES=2 -DF_KINDS=3 -DF_QUERY=1 -DF_RENEW=1', **RU)]}.items():
  for n in js:
    if n not in ('q-reuse', 'e-reuse', 'ev-reuse', 'z-reuse'): JOBS[n]['flags'] += ' ' + REL # release builds at the same time
  PROPS[id]['quick'] += js
# ---- threads
def TH(name, flags, pre=-1, sp=0, at=1, **k): return J(name, None, flags + ' -pthread', 'several threads; every schedule%s%s' % ('' if pre < 0 else ' with at most %d preemptions' % pre, '' if at else ' at the granularity of lock, wait and signal operations'), source='threads.cpp', threads=True, sym=('--preempt %d ' % pre if pre >= 0 else '') + '--spurious %d' % sp + ('' if at else ' --no-atomic-yield'), **k)
P('C19', [TH('th-a', '-DF_SC=0'), TH('th-a2', '-DF_SC=0 -DF_K=2 -DF_MAINC'), TH('th-as', '-DF_SC=0 -DF_SCHED', sp=2), TH('th-b', '-DF_SC=1 -DF_K=2', sp=1), TH('th-c', '-DF_SC=2 -DF_K=2'), TH('th-d', '-DF_SC=3', sp=1), TH('th-d2', '-DF_SC=3 -DF_K=2 -DF_MAINC ' + REL),
   TH('th-e', '-DF_SC=4', pre=2, at=0), TH('th-e0', '-DF_SC=4 -DF_MODE=0', pre=1), TH('th-e1', '-DF_SC=4 -DF_P=1 -DF_MODE=2'), TH('th-f', '-DF_SC=5'), TH('th-f2', '-DF_SC=5 -DF_K=2 -DF_EARLY'), TH('th-g', '-DF_SC=6 -DF_K=3'), TH('th-g2', '-DF_SC=6 -DF_LATE -DF_K=2', at=0, sp=1)],
  [TH('th-e2', '-DF_SC=4 -DF_MODE=2', pre=1), TH('th-e3', '-DF_SC=4', pre=1), TH('th-e4', '-DF_SC=4 -DF_P=1', time=300), TH('th-g3', '-DF_SC=6 -DF_LATE -DF_K=2', sp=1), TH('th-a3', '-DF_SC=0 -DF_P=3 -DF_K=2', sp=1), TH('th-b3', '-DF_SC=1 -DF_P=3 -DF_K=2', sp=2), TH('th-c3', '-DF_SC=2 -DF_P=3 -DF_K=2')])
PROPS['C19']['note'] = 'Every schedule of the listed thread programs (2 to 4 threads, 1 to 3 operations each; per job either all schedules or all schedules within the stated number of preemptions, with 0 to 2 spurious wakeups) is decided, with happens-before race detection on every access; switches happen before lock, signal and (unless stated) atomic operations, which covers all behaviours of race-free code. Larger thread programs are outside. '
PROPS['C19']['technique'] = 'symbolic execution of the LLVM IR of the real headers with the schedule as symbolic variables (z3), vector-clock race detection and state merging'
NA = {}
