"""The checks that are not about values alone: C01-C08, C22, C23."""
import concurrent.futures as cf, json, os, re
import build, gen, meta
from engine import Check
from families import FAMILIES
from values import judge, samples, run_blocks, decide

ALL = sorted(sum((list(v) for v in FAMILIES.values()), []))
STRICT = ['inputs are finite']

def streaming():
    return sorted(k for k, v in meta.index().items() if 'stream' in v['features'])
def referenced():
    return sorted(k for k, v in meta.index().items() if 'ref' in v['features'])

def start_of(ind, o):
    """A guess of start(): only steers where chunk borders are put."""
    ps = [int(x) for x in o if x >= 1]
    return max(0, (ps[0] if ps else 1) - 1)

class Blocks:
    """Collects plans."""
    def __init__(self, chk):
        self.chk, self.plans, self.info, self.n = chk, [], {}, 0
    def add(self, ind, o, kind, n, events, series=None, tag=''):
        m = meta.index()[ind]
        s = series if series is not None else gen.bars(self.chk.rng, kind, m['inputs'], n)
        self.n += 1
        bid = '%s-%d-%s%s' % (ind, self.n, kind, tag)
        self.plans.append(gen.block(bid, ind, o, s, events))
        self.info[bid] = dict(ind=ind, o=o, kind=kind, n=n)
        return bid

def long_case(rng, ind, m, i):
    """The i-th case with long periods: options, kind of series, number of bars. Trends come first: there an extreme leaves the window on every bar."""
    o, top = gen.long_options(rng, ind, m['options'], huge=i % 3 == 2)
    ks = gen.kinds(ind, m['inputs'])
    kind = ['down', 'up', None, 'sparse', 'up', None][i % 6] or rng.choice(ks)
    need = int(sum(x for x, y in zip(o, m['options']) if x >= 1))       # no indicator waits for longer
    return o, kind, min(8000, (2 * top if rng.random() < .2 else need) + 40)

def long_block(bl, ind, events, i=0):
    """A block with long periods; events(n) gives what is run."""
    rng, m = bl.chk.rng, meta.index()[ind]
    if not m['options']: return
    o, kind, n = long_case(rng, ind, m, i)
    bl.add(ind, o, kind, n, events(n), tag='-long')

FAR = [33000, 66000, 70000, 140000]
FAR_KINDS = ['walk', 'steps', 'sparse', 'ties', 'zigzag', 'trendflat', 'spikes', 'up', 'down']
def far_block(bl, ind, events):
    """A block that is also run after a history of tens of thousands of bars (see FiniteMemory in Indicators.tla)."""
    rng, m = bl.chk.rng, meta.index()[ind]
    o = gen.options(rng, ind, len(m['options']))
    n = max(40, int(sum(x for x in o if x >= 1)) + 20)
    bl.add(ind, o, rng.choice(FAR_KINDS), n, [['batch', n]] + events(rng.choice(FAR)), tag='-far')

LONG_KINDS = ['walk', 'walk', 'steps', 'ties', 'zigzag', 'wave', 'spikes', 'sparse', 'trendflat', 'zeros', 'real', 'rflat']
def history(bl, ind, events):
    """A block of thousands of bars."""
    rng, m = bl.chk.rng, meta.index()[ind]
    n = rng.choice([2500, 4500] if bl.chk.quick else [3000, 6000, 10000])
    bl.add(ind, gen.options(rng, ind, len(m['options'])), rng.choice(LONG_KINDS), n, events(n), tag='-history')

def tlc_chunks(chk):
    """All chunkings of six units, from the state graph of GenTI."""
    r = chk.tlc('GenTI', cfg=os.path.join(os.path.dirname(__file__), '../spec/GenChunks.cfg'), name='GenChunks')
    c = [x['v'] for x in r['report'] if x['kind'] == 'chunks']
    if r['rc'] or len(c) < 32:
        raise RuntimeError('TLC produced no chunkings\n' + r['out'][-2000:])
    return r, c

def concrete(rng, units, ind, o, n):
    """Puts bars in place of the six units: their borders lie around the warm-up, the periods, and anywhere."""
    s = start_of(ind, o)
    ps = [int(x) for x in o if 1 <= x < n]
    pts = [s - 1, s, s + 1, s + 2, 2 * s, 2 * s + 1, 2 * s + 2, 1, 2, n - 1] + ps + [p + 1 for p in ps] + [sum(ps), sum(ps) + 1]
    pts = [p for p in pts if 0 < p < n]
    cuts = set(rng.sample(sorted(set(pts)), min(len(set(pts)), rng.choice([3, 4, 5]))))
    while len(cuts) < 5:
        cuts.add(rng.randrange(1, n))
    b = [0] + sorted(cuts)[:5] + [n]
    out, pos = [], 0
    for u in units:
        out.append(b[pos + u] - b[pos]); pos += u
    return out

def c01():
    chk = Check('C01', 'model_checking')
    chk.prepare()
    rng, q = chk.rng, chk.quick
    gr, units = tlc_chunks(chk)
    bl = Blocks(chk)
    names = streaming()
    per = 10 if q else 60
    k = rng.randrange(len(units))
    for ind in names:
        m = meta.index()[ind]
        ks = gen.kinds(ind, m['inputs'])
        off = rng.randrange(len(ks))
        for i in range(per):
            n = rng.choice([40, 60, 80] if q else [40, 60, 100, 250])
            o = gen.options(rng, ind, len(m['options']))
            if i % 5 == 4: o = gen.frac(rng, o)
            ev = [['batch', n]]
            for _ in range(3):
                ev.append(['stream'] + concrete(rng, units[k % len(units)], ind, o, n)); k += 1
            ev.append(['stream'] + [1] * n)
            ev.append(['stream'] + gen.chunks(rng, n))
            bl.add(ind, o, ks[(off + i) % len(ks)], n, ev)
        for i in range(3 if q else 6):
            long_block(bl, ind, lambda n: [['batch', n], ['stream'] + gen.chunks(rng, n), ['stream', n // 3, 1, 0, n - n // 3 - 1]], i)
        for i in range(1 if q else 5):
            far_block(bl, ind, lambda N: [['far', 'stream', N, rng.choice([1, 7, 1000, 5000, N]), 0, 1, 2048]])
        for i in range(1 if q else 4):
            history(bl, ind, lambda n: [['batch', n], ['stream'] + gen.chunks(rng, n), ['stream', n]])
    r, blocks, st, rec = judge(chk, bl.plans, bl.info, lambda d: d['op'] in ('stream', 'far') and d['kind'] in ('pair', 'count', 'fault', 'exception', 'ret', 'hole') or d['kind'] == 'absent')
    return chk.finish(dict(states=r['states'] + gr['states'], transitions=r['generated'] + gr['generated'], traces_validated_against_impl=len(blocks), chunkings_from_model=len(units),
                           streamed_runs=5 * len(bl.plans), pairs_compared=st['paired'], pairs_left_open=st['unpaired'], indicators=len(names), samples=samples(rec)), STRICT)

# ------------------------------------------------------------------ sessions
def tlc_sessions(chk, num, depth=24):
    """Behaviours of TI, by simulation."""
    r = chk.tlc('GenTI', cfg=os.path.join(os.path.dirname(__file__), '../spec/GenSession.cfg'), name='GenSession', workers=1,
                args=['-simulate', 'num=%d' % num, '-depth', str(depth + 2), '-seed', str(chk.seed)])
    last = {}
    for x in r['report']:
        if x['kind'] == 'session':
            h = x['v']; last[json.dumps(h[:-1])] = h
    s = list(last.values())
    if len(s) < num // 2:
        raise RuntimeError('TLC produced no sessions\n' + r['out'][-2000:])
    return r, s

def invalid_options(rng, ind, o):
    """An option vector the specification refuses."""
    return [-float(rng.choice([1, 3])) for _ in o]

NEVER_INVALID = set('decay edecay mgdyn lf mama'.split())

def refuses(ind):
    return ind not in NEVER_INVALID and meta.index()[ind]['options']

def session_plan(chk, bid, behaviour, mode, same_ind=None):
    """Concrete indicators for the roles of a behaviour of TI. mode: '', 'threads', 'nofault'"""
    rng, idx = chk.rng, meta.index()
    names = streaming()
    roles, L = {}, ['B %s @session' % bid]
    N = 140
    pick = [same_ind] * 3 if same_ind else [rng.choice(names) for _ in range(3)]
    series = {}
    order = ['a', 'b', 'c', 'x']
    inds = dict(zip(order, pick))
    # the role with the refused options: an indicator that can refuse some
    inds['x'] = rng.choice([i for i in pick if refuses(i)] or [i for i in names if refuses(i)])
    body = []
    for r in order:
        ind = inds[r]
        m = idx[ind]
        o = gen.options(rng, ind, len(m['options']))
        if r == 'x' and o:
            o = invalid_options(rng, ind, o)
        kind = rng.choice(gen.kinds(ind, m['inputs']))
        s = gen.bars(rng, kind, m['inputs'], N)
        body += ['R ' + ind, 'O ' + ' '.join(map(gen.bits, o)), 'S %d %d' % (len(s), N)] + ['V ' + ' '.join(map(gen.bits, v)) for v in s]
        roles[r] = dict(ind=ind, o=o)
    L += body
    scale = rng.choice([1, 2, 3, 4])
    size = lambda u: 0 if u == 0 else 1 if u == 1 else max(1, u * scale - rng.choice([0, 1]))
    fed, live, slotrole = {}, set(), {}
    if mode == 'threads':
        L.append('E threads')
    for op, args, ret in behaviour:
        fault = ret == 2 and mode == ''
        if ret == 2 and mode != '':
            continue
        if op == 'new':
            if fault: L.append('E fail 1')
            L.append('E new %d %d' % (args[0], order.index(args[1])))
            fed[args[0]] = 0
        elif op in ('run', 'grun'):
            n = min(size(args[1]), N - fed.get(args[0], 0))
            L.append('E %s %d %d' % (op, args[0], n)); fed[args[0]] = fed.get(args[0], 0) + n
        elif op == 'info':
            L.append('E info %d' % args[0])
        elif op in ('free', 'gfree'):
            L.append('E %s %d' % (op, args[0]))
        elif op in ('batch', 'ref'):
            r = args[0]
            if op == 'ref' and 'ref' not in idx[roles[r]['ind']]['features']:
                continue
            if fault: L.append('E fail %d' % rng.choice([1, 1, 2]))
            L.append('E %s %d %d' % (op, order.index(r), min(N, args[1] * 5 * scale)))
    return '\n'.join(L) + '\n.\n', dict(ind='+'.join(sorted(set(d['ind'] for d in roles.values()))), o=[], roles=roles)

def sessions(chk, num, modes, kinds):
    gr, beh = tlc_sessions(chk, num)
    plans, info = [], {}
    names = streaming()
    for i, b in enumerate(beh):
        bid = 's%d' % i
        # every third session: streams of one indicator with different options
        p, inf = session_plan(chk, bid, b, modes[i % len(modes)], names[(i // 3) % len(names)] if i % 3 == 0 else None)
        plans.append(p); info[bid] = inf
    rec = run_blocks(chk, plans, 'SessTrace')
    return gr, decide(chk, plans, info, rec, kinds), rec

def empties(rng, c):
    """Empty chunks among the others, the first one being empty too."""
    out = [0]
    for x in c:
        out += [x] + [0] * rng.choice([0, 0, 1, 2])
    return out

def c02():
    chk = Check('C02', 'model_checking')
    chk.prepare()
    rng, q = chk.rng, chk.quick
    mc = chk.tlc('MCTI')
    if mc['rc']:
        chk.violation('model', 'the API model violates its own guarantees', dict(out=mc['out'][-3000:]))
    gu, units = tlc_chunks(chk)
    bl = Blocks(chk)
    k = rng.randrange(len(units))
    for ind in streaming():
        m = meta.index()[ind]
        for i in range(6 if q else 40):
            n = rng.choice([1, 5, 30, 60])
            o = gen.options(rng, ind, len(m['options']))
            if rng.random() < .2:
                o = [x + rng.choice([0, .5]) if x >= 1 else x for x in o]
            ev = [['start']]
            for j in range(4):
                c = concrete(rng, units[k % len(units)], ind, o, n) if n > 8 else gen.chunks(rng, n); k += 1
                ev.append(['stream'] + (empties(rng, c) if j % 2 else c))
            if i == 0: o = [1. if x >= 1 and 'period' in y else x for x, y in zip(o, m['options'])]     # no warm-up at all
            bl.add(ind, o, rng.choice(gen.kinds(ind, m['inputs'])), n, ev)
        for i in range(2 if q else 6):
            far_block(bl, ind, lambda N: [['far', 'stream', N] + rng.choice([[5000, 1, 0], [300, 1], [N], [N // 2 + 1, 0, 1], [4095, 4096, 4097], [1023, 1, 1024]])])
        long_block(bl, ind, lambda n: [['start'], ['stream', n], ['stream'] + empties(rng, gen.chunks(rng, n)), ['stream', n // 2, 0, n - n // 2]], rng.randrange(3))
    want = lambda d: d['op'] not in ('batch', 'ref') and d['kind'] in ('progress', 'count', 'info', 'start', 'fault', 'hole', 'touch', 'exception', 'absent') or d['op'] == 'stream' and d['kind'] == 'ret'
    r, blocks, st, rec = judge(chk, bl.plans, bl.info, want, shallow=True)
    gs, (rs, sb), srec = sessions(chk, 200 if q else 1500, ['nofault'],
                                  lambda d: d['op'] not in ('batch', 'ref') and d['kind'] in ('progress', 'count', 'info', 'fault', 'hole', 'touch', 'ret'))
    return chk.finish(dict(states=mc['states'] + gu['states'] + rs['states'] + r['states'], transitions=mc['generated'] + gu['generated'] + rs['generated'] + r['generated'],
                           traces_validated_against_impl=len(blocks) + len(sb), sessions=len(sb), model_states=mc['states'], indicators=len(streaming()), samples=samples(rec, 2) + samples(srec, 1)), STRICT)

def parallel_plan(rng, bid, ind, ms):
    """Batches of three roles and streams of two of them, of one indicator, each in a thread of its own."""
    m = meta.index()[ind]
    N = 50
    L, os_ = ['B %s @session' % bid], []
    for r in range(3):
        o = gen.options(rng, ind, len(m['options']))
        if r == 2 and o and rng.random() < .7:      # shares options with the others, but not all
            o = list(os_[0]); i = rng.randrange(len(o)); o[i] = gen.options(rng, ind, len(o))[i]
        os_.append(o)
        s = gen.bars(rng, rng.choice(gen.kinds(ind, m['inputs'])), m['inputs'], N)
        L += ['R ' + ind, 'O ' + ' '.join(map(gen.bits, o)), 'S %d %d' % (len(s), N)] + ['V ' + ' '.join(map(gen.bits, v)) for v in s]
    L.append('E threads %d' % ms)
    for r in range(3):
        L.append('E batch %d %d' % (r, rng.choice([N, N - 7])))
        if 'ref' in m['features']: L.append('E ref %d %d' % (r, N))
    if 'stream' in m['features']:
        for r in range(2):
            L.append('E new %d %d' % (r, r))
            L += ['E run %d %d' % (r, n) for n in gen.chunks(rng, N)[:12]]
            L.append('E free %d' % r)
    return '\n'.join(L) + '\n.\n'

def detector_works(chk, plan):
    """Whether ThreadSanitizer runs at all here (it needs a memory layout it knows): a block without threads tells."""
    try:
        return '"fault"' not in chk.record(['\n'.join(l for l in plan.split('\n') if 'threads' not in l)])[0]
    except Exception:
        return False

def c05():
    chk = Check('C05', 'model_checking')
    chk.prepare()
    q, rng, idx = chk.quick, chk.rng, meta.index()
    want = lambda d: d['kind'] in ('impure', 'fault')
    gr, (r, blocks), rec = sessions(chk, 330 if q else 2500, ['', 'threads', 'nofault'], lambda d: d['kind'] in ('impure', 'fault'))
    # batches in a row with other options and series in between
    plans, info = [], {}
    for rnd in range(2 if q else 10):
        for i, ind in enumerate(ALL):
            m, bid = idx[ind], 'p%d-%d' % (rnd, i)
            L = ['B %s @session' % bid]
            N = 50
            for r_ in range(3):
                o = gen.options(rng, ind, len(m['options']))
                if r_ and rnd % 2 and o:            # differs from the first in one option only
                    w = gen.options(rng, ind, len(o)); j = rng.randrange(len(o)); w, o = o, list(o0); o[j] = w[j]
                if not r_: o0 = o
                s = gen.bars(rng, rng.choice(gen.kinds(ind, m['inputs'])), m['inputs'], N)
                L += ['R ' + ind, 'O ' + ' '.join(map(gen.bits, o)), 'S %d %d' % (len(s), N)] + ['V ' + ' '.join(map(gen.bits, v)) for v in s]
            for _ in range(12):
                op = 'ref' if 'ref' in m['features'] and rng.random() < .3 else 'batch'
                L.append('E %s %d %d' % (op, rng.randrange(3), rng.choice([N, N, N - 7, 20, 3])))
            if 'stream' in m['features']:           # streams born and gone among them
                for s_ in range(3):
                    L.append('E new 0 %d' % s_)
                    L += ['E run 0 %d' % n for n in gen.chunks(rng, N)[:10]]
                    L.append('E batch %d %d' % (rng.randrange(3), N))
                    L.append('E free 0')
            plans.append('\n'.join(L) + '\n.\n'); info[bid] = dict(ind=ind, o=[])
    rec2 = run_blocks(chk, plans, 'SessTrace')
    r2, b2 = decide(chk, plans, info, rec2, lambda d: d['kind'] in ('impure', 'fault'))
    # all at the same time
    plans, info = [], {}
    for i, ind in enumerate(ALL):
        for rnd in range(1 if q else 6):
            bid = 't%d-%d' % (rnd, i)
            plans.append(parallel_plan(rng, bid, ind, 100 if q else 300)); info[bid] = dict(ind=ind, o=[])
    rec3 = run_blocks(chk, plans, 'SessTrace', jobs=2)
    r3, b3 = decide(chk, plans, info, rec3, want)
    # ... and once more with a detector of conflicting accesses, which ends a process that has one
    chk.build_lib('tsan')
    os.environ['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:die_after_fork=0'
    plans, info = [], {}
    for i, ind in enumerate(ALL):
        for rnd in range(1 if q else 4):
            bid = 'r%d-%d' % (rnd, i)
            plans.append(parallel_plan(rng, bid, ind, 0)); info[bid] = dict(ind=ind, o=[])
    if detector_works(chk, plans[0]):
        rec4 = run_blocks(chk, plans, 'SessTrace', jobs=4)
        r4, b4 = decide(chk, plans, info, rec4, want)
    else:
        b4 = {}
    return chk.finish(dict(states=r['states'] + r2['states'] + r3['states'], transitions=r['generated'] + r2['generated'] + r3['generated'],
                           traces_validated_against_impl=len(blocks) + len(b2) + len(b3) + len(b4), under_race_detector=len(b4), sessions=len(blocks), batch_histories=len(b2), parallel_sessions=len(blocks) // 3 + len(b3),
                           samples=samples(rec, 2)), STRICT)

# ------------------------------------------------------------------ whole calls
def c03():
    chk = Check('C03', 'model_checking')
    chk.prepare()
    rng, q = chk.rng, chk.quick
    bl = Blocks(chk)
    for ind in ALL:
        m = meta.index()[ind]
        for i in range(8 if q else 60):
            o = gen.options(rng, ind, len(m['options']))
            if i % 4 == 3: o = gen.frac(rng, o)
            tot = int(sum(x for x in o if x >= 1))
            n = tot + 30 if i % 3 else 60
            s = start_of(ind, o)
            sizes = {0, 1, 2, 3, 4, 5, s - 1, s, s + 1, s + 2, s + 3, 2 * s - 1, 2 * s, 2 * s + 1, 2 * s + 2, tot - 1, tot, tot + 1, tot - len(o), tot - len(o) + 1, n}
            sizes |= {rng.randrange(n + 1) for _ in range(6)}
            ev = [['start']]
            sz = [x for x in sizes if 0 <= x <= n]
            rng.shuffle(sz)
            for x in sz:
                ev += [['batch', x], ['ref', x]]
                if rng.random() < .2: ev.append(['start'])
            ev.append(['start'])
            bl.add(ind, o, rng.choice(gen.kinds(ind, m['inputs'])), n, ev)
        far_block(bl, ind, lambda N: [['far', 'batch', N], ['far', 'ref', N]])
        for i in range(3):
            long_block(bl, ind, lambda n: [['start'], ['batch', n], ['ref', n], ['batch', rng.randrange(n)]], i)
        for o in boundary(rng, ind, gen.options(rng, ind, len(m['options'])))[:: 2 if q else 1]:
            n = 50
            bl.add(ind, o, rng.choice(['walk', 'ties', 'up']), n, [['start'], ['batch', n], ['ref', n], ['batch', rng.randrange(n)], ['ref', rng.randrange(n)]], tag='-boundary')
    want = lambda d: d['op'] in ('batch', 'ref', 'start', 'begin', 'far') and d['kind'] in ('start', 'count', 'ret', 'touch', 'hole', 'exception', 'fault') or d['kind'] == 'absent'
    r, blocks, st, rec = judge(chk, bl.plans, bl.info, want, shallow=True)
    calls = sum(x.count('"op":"batch"') + x.count('"op":"ref"') for x in rec)
    return chk.finish(dict(states=r['states'], transitions=calls, traces_validated_against_impl=len(blocks), calls=calls, indicators=len(ALL), samples=samples(rec)), STRICT)

def c04():
    chk = Check('C04', 'model_checking')
    chk.prepare()
    rng, q = chk.rng, chk.quick
    bl = Blocks(chk)
    for ind in ALL:
        m = meta.index()[ind]
        ks = gen.kinds(ind, m['inputs'])
        off = rng.randrange(len(ks))
        for i in range(5 if q else 40):
            n = rng.choice([40, 60] if q else [40, 60, 120])
            o = gen.options(rng, ind, len(m['options']))
            if i % 5 == 4: o = gen.frac(rng, o)
            s = start_of(ind, o)
            ev = [['batch', n]]
            for x in {s + 1, s + 2, 2 * s + 2, n - 1, n // 2} | {rng.randrange(n) for _ in range(4)}:
                if 0 < x < n: ev.append(['batch', x])
            for _ in range(4):
                ev.append(['tail', rng.choice([n - 1, n - 2, n // 2, rng.randrange(n)]), rng.randrange(8)])
            bl.add(ind, o, ks[(off + i) % len(ks)], n, ev)
        history(bl, ind, lambda n: [['batch', n], ['batch', rng.randrange(n)], ['batch', n - 1], ['tail', n - 1, 0], ['tail', rng.randrange(n), rng.randrange(8)]])
        long_block(bl, ind, lambda n: [['batch', n], ['batch', n - 1], ['batch', rng.randrange(n)], ['tail', rng.randrange(n), rng.randrange(8)]], rng.randrange(3))
    want = lambda d: d['op'] in ('batch', 'tail') and d['kind'] == 'pair' or d['kind'] in ('absent',) or d['op'] in ('batch', 'tail') and d['kind'] == 'fault'
    r, blocks, st, rec = judge(chk, bl.plans, bl.info, want)
    return chk.finish(dict(states=r['states'], transitions=r['generated'], traces_validated_against_impl=len(blocks), pairs_compared=st['paired'], pairs_left_open=st['unpaired'],
                           indicators=len(ALL), samples=samples(rec)), STRICT)

def boundary(rng, ind, o):
    """Option vectors around the borders of what is accepted."""
    k = len(o)
    out = []
    vals = [-1000, -1.5, -1, -.5, 0, .25, .5, .75, .999, 1, 1.5, 2, 2.5, 3, 4, 5, 6, 7, 8, 6.5, 7.5, 11, 12, 12.5, 13, 13.5, 14, 17, 18, 39, 40, 40.5, 41, 42, 200]
    for i in range(k):
        for v in vals:
            w = list(o); w[i] = float(v); out.append(w)
    for i in range(k):
        for j in range(k):
            if i != j:
                w = list(o); w[i], w[j] = o[j], o[i]; out.append(w)
                for d in (-1, -.5, 0, .5, 1):
                    w = list(o); w[i] = o[j] + d; out.append(w)
    for _ in range(6):
        out.append([float(rng.choice(vals)) for _ in range(k)])
    return out

def c06():
    chk = Check('C06', 'model_checking')
    chk.prepare()
    rng, q = chk.rng, chk.quick
    bl = Blocks(chk)
    for ind in ALL:
        m = meta.index()[ind]
        if not m['options']:
            vs = [[]]
        else:
            vs = []
            for _ in range(1 if q else 4):
                vs += boundary(rng, ind, gen.options(rng, ind, len(m['options'])))
        for o in vs:
            n = 40
            ev = []
            for x in (n, 0, 1, rng.randrange(n)):
                ev += [['batch', x], ['ref', x]]
            ev += [['stream', 3], ['stream', n]]
            bl.add(ind, o, rng.choice(['walk', 'zigzag']), n, ev)
    want = lambda d: d['kind'] in ('ret', 'ghost', 'absent') or d['kind'] in ('refused-wrote', 'refused-fault')
    r, blocks, st, rec = judge(chk, bl.plans, bl.info, want, shallow=True)
    calls = sum(x.count('"op":"') - 1 for x in rec)
    refused = sum('"ret":1' in x for x in rec)
    return chk.finish(dict(states=r['states'], transitions=calls, traces_validated_against_impl=len(blocks), option_vectors=len(bl.plans), refused_vectors=refused, calls=calls,
                           indicators=len(ALL), samples=samples(rec)), STRICT)

def c07():
    chk = Check('C07', 'model_checking')
    chk.prepare()
    rng, q = chk.rng, chk.quick
    bl = Blocks(chk)
    for ind in ALL:
        m = meta.index()[ind]
        for i in range(5 if q else 25):
            o = gen.options(rng, ind, len(m['options']))
            if i == 4: o = gen.frac(rng, o)
            n = 50
            ev = [['oom', 'batch', n], ['oom', 'batch', rng.randrange(n)], ['oom', 'ref', n], ['oom', 'ref', rng.randrange(n)], ['oom', 'stream', 1, 7, 0, 20, 22]]
            bl.add(ind, o, rng.choice(gen.kinds(ind, m['inputs'])), n, ev)
    want = lambda d: d['op'] == 'oom' or d['kind'] in ('absent', 'fault')
    r, blocks, st, rec = judge(chk, bl.plans, bl.info, want, shallow=True)
    gs, (rs, sb), srec = sessions(chk, 150 if q else 1000, [''], lambda d: True)
    tries = sum(x.count('"op":"oom"') for x in rec)
    return chk.finish(dict(states=r['states'] + rs['states'], transitions=tries + rs['generated'], traces_validated_against_impl=len(blocks) + len(sb), failed_allocations=tries,
                           sessions=len(sb), indicators=len(ALL), samples=samples([x for x in rec if 'oom' in x]) or ['none']), STRICT)

def enormous(rng, ind, m):
    """Option vectors with one period of many millions."""
    out = []
    o = gen.options(rng, ind, len(m['options']))
    ks = [i for i, x in enumerate(m['options']) if 'period' in x and o[i] >= 1]
    if ks:
        w = list(o); w[rng.choice(ks[-1:] + ks)] = 2. * rng.randint(9000000, 10000000); out.append(w)
    return out

def c08():
    chk = Check('C08', 'model_checking')
    chk.prepare()
    rng, q = chk.rng, chk.quick
    bl = Blocks(chk)
    for ind in ALL:
        m = meta.index()[ind]
        for i in range(6 if q else 40):
            o = gen.options(rng, ind, len(m['options']))
            if i == 1 and o: o = invalid_options(rng, ind, o)
            if i == 2: o = gen.frac(rng, o)
            n = 60
            s = start_of(ind, o)
            ev = []
            for x in {0, 1, s, s + 1, n, rng.randrange(n)}:
                if x <= n: ev += [['batch', x], ['ref', x], ['stream', x], ['stream', 1, max(0, x - 1)]]
            ev += [['stream'], ['stream', 0]]
            bl.add(ind, o, rng.choice(gen.kinds(ind, m['inputs'])), n, ev)
        for o in enormous(rng, ind, m):
            bl.add(ind, o, 'walk', 20, [['batch', 20], ['stream', 0], ['stream', 20]], tag='-enormous')
        k = len(m['options'])
        vs = boundary(rng, ind, gen.options(rng, ind, k)) if k else []     # around the borders, and longer series
        rng.shuffle(vs)
        vs = [[]] if not k else [[1. if x >= 1 else x for x in gen.options(rng, ind, k)], gen.options(rng, ind, k)] + vs[:8 if q else None]
        for j, o in enumerate(vs):
            n = 1200 if j == 0 else rng.choice([120, 300, 700, 1200])
            bl.add(ind, o, rng.choice(gen.kinds(ind, m['inputs'])), n, [['batch', n], ['ref', n], ['stream', n], ['stream', n // 2, n - n // 2], ['batch', n // 2]], tag='-long')
    r, blocks, st, rec = judge(chk, bl.plans, bl.info, lambda d: d['kind'] in ('leak', 'absent'), shallow=True)
    gs, (rs, sb), srec = sessions(chk, 150 if q else 1000, ['nofault', ''], lambda d: d['kind'] == 'leak')
    return chk.finish(dict(states=r['states'] + rs['states'], transitions=rs['generated'] + sum(x.count('"op":') for x in rec), traces_validated_against_impl=len(blocks) + len(sb),
                           sessions=len(sb), indicators=len(ALL), samples=samples(rec)), STRICT)

SLOW_REF = set()
def c22():
    chk = Check('C22', 'model_checking')
    chk.prepare()
    rng, q = chk.rng, chk.quick
    bl = Blocks(chk)
    names = referenced()
    for ind in names:
        m = meta.index()[ind]
        ks = gen.kinds(ind, m['inputs'])
        off = rng.randrange(len(ks))
        for i in range(14 if q else 90):
            n = rng.choice([40, 60, 90] if q else [40, 60, 90, 250])
            o = gen.options(rng, ind, len(m['options']))
            if i % 5 == 4: o = gen.frac(rng, o)
            s = start_of(ind, o)
            ev = [['batch', n], ['ref', n]]
            for x in {0, 1, s, s + 1, 2 * s, 2 * s + 1, rng.randrange(n)}:
                if x < n: ev.append(['ref', x])
            bl.add(ind, o, ks[(off + i) % len(ks)], n, ev)
        for i in range(3 if q else 6):
            if not ind.startswith('hurst'): long_block(bl, ind, lambda n: [['batch', n], ['ref', n]], i)
        if ind not in SLOW_REF: far_block(bl, ind, lambda N: [['far', 'ref', N]])
        for i in range(1 if q else 4):
            history(bl, ind, lambda n: [['batch', n], ['ref', n]])
        for o in boundary(rng, ind, gen.options(rng, ind, len(m['options'])))[:: 3 if q else 1]:
            if max(o, default=0) <= 30 and all(x == int(x) for x in o):
                bl.add(ind, o, 'walk', 30, [['batch', 30], ['ref', 30]], tag='-boundary')
    def want(d):
        return d['op'] in ('ref', 'far') and d['kind'] in ('pair', 'count', 'ret', 'fault', 'exception', 'hole') or d['kind'] == 'absent'
    r, blocks, st, rec = judge(chk, bl.plans, bl.info, want)
    return chk.finish(dict(states=r['states'], transitions=r['generated'], traces_validated_against_impl=len(blocks), pairs_compared=st['paired'], pairs_left_open=st['unpaired'],
                           indicators=len(names), samples=samples(rec)), STRICT)

def c23_plans(chk, per, long):
    rng, bl = chk.rng, Blocks(chk)
    _, units = tlc_chunks(chk)
    for ind in ALL:
        m = meta.index()[ind]
        ks = gen.kinds(ind, m['inputs'])
        k = len(m['options'])
        for i in range(per):
            o = gen.options(rng, ind, k)
            mode = i % 6
            if mode == 1: o = gen.frac(rng, o)
            elif mode == 2 and k: o = rng.choice(boundary(rng, ind, o))
            elif mode == 3 and k:      # far larger than the series
                big = rng.choice([100, 1000, 65536, 100000])
                o = [x * big if x >= 1 and rng.random() < .7 else x for x in o]
            elif mode == 4 and k: o = [1. if x >= 1 else x for x in o]
            elif mode == 5 and k:
                w = sorted(float(rng.choice([1, 1, 2, 2, 3, 4])) for x in o)
                o = [y if x >= 1 else x for x, y in zip(o, w)]
            s = start_of(ind, o)
            n = rng.choice([30, 60, 90] + [600] * long)
            kind = 'extremes' if i % 5 == 4 and 'signed' in ks else 'extreme' if i % 5 in (2, 4) else rng.choice(ks)
            sizes = {0, 1, 2, s, s + 1, s + 2, 2 * s + 1, n, rng.randrange(n + 1), rng.randrange(n + 1)}
            ev = [['start']]
            for x in sizes:
                if 0 <= x <= n: ev += [['batch', x], ['ref', x]]
            ev += [['stream'] + gen.chunks(rng, n), ['stream'] + gen.chunks(rng, n), ['stream'] + concrete(rng, rng.choice(units), ind, o, n), ['stream'] + [1] * rng.randrange(n)]
            bl.add(ind, o, kind, n, ev, tag='-%d' % mode)
        if long:
            far_block(bl, ind, lambda N: [['far', 'batch', N], ['far', 'ref', N], ['far', 'stream', N, 1, 5000, 0, 300]])
            long_block(bl, ind, lambda n: [['batch', n], ['ref', n], ['stream'] + gen.chunks(rng, n)], rng.randrange(3))
    return bl

def c23():
    chk = Check('C23', 'model_checking')
    rng, q = chk.rng, chk.quick
    with cf.ThreadPoolExecutor(3) as ex:
        j = ex.submit(chk.start_java)
        chk.build_lib('asan')
        chk.exe_asan = chk.exe
        chk.build_lib('vg'); chk.exe_vg = chk.exe
        j.result()
    os.environ['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1'
    fault = lambda d: d['kind'] in ('fault', 'absent')
    tot, states, gen_, ns = [], 0, 0, 0
    for name, per, long in (('asan', 14 if q else 120, 1), ('vg', 4 if q else 36, 0)):
        chk.exe = [build.VALGRIND, '-q', '--leak-check=no', '--error-exitcode=9', chk.exe_vg] if name == 'vg' else chk.exe_asan
        bl = c23_plans(chk, per, long)
        r, blocks, st, rec = judge(chk, bl.plans, bl.info, fault, shallow=True)
        tot += rec; states += r['states']
        gs, (rs, sb), srec = sessions(chk, (90 if q else 800) if name == 'asan' else (24 if q else 200), ['nofault'], fault)
        states += rs['states']; gen_ += rs['generated']; ns += len(sb)
    calls = sum(x.count('"op":"') - 1 for x in tot)
    return chk.finish(dict(states=states, transitions=calls + gen_, traces_validated_against_impl=len(tot) + ns, calls=calls, sessions=ns, indicators=len(ALL), samples=samples(tot)),
                      ['memory errors are those AddressSanitizer and Memcheck see; a block whose calls take more than 20 s of processor time is taken for a hang'])

def bounded():
    """The indicators for which Ranges states anything."""
    t = open(os.path.join(os.path.dirname(__file__), '../spec/Ranges.tla')).read()
    return [i for i in ALL if '"%s"' % i in t and i != 'hurst']

def c21():
    chk = Check('C21', 'model_checking')
    chk.prepare()
    rng, q = chk.rng, chk.quick
    bl = Blocks(chk)
    names = bounded()
    for ind in names:
        m = meta.index()[ind]
        ks = gen.kinds(ind, m['inputs'])
        off = rng.randrange(len(ks))
        for i in range(len(ks) if q else 6 * len(ks)):
            n = rng.choice([40, 60, 90] if q else [40, 60, 90, 250])
            o = gen.options(rng, ind, len(m['options']))
            if i % 5 == 4: o = gen.frac(rng, o)
            bl.add(ind, o, ks[(off + i) % len(ks)], n, [['batch', n], ['ref', n], ['stream'] + gen.chunks(rng, n)])
        for i in range(3 if q else 6):
            long_block(bl, ind, lambda n: [['batch', n], ['ref', n], ['stream', n // 2, n]], i)
    r, blocks, st, rec = judge(chk, bl.plans, bl.info, ('range', 'definition', 'absent', 'fault'), module='RangeTrace')
    return chk.finish(dict(states=r['states'], transitions=r['generated'], traces_validated_against_impl=len(blocks), indicators=len(names), samples=samples(rec)), STRICT)

SUITES = dict(C21=c21, C23=c23, C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C22=c22)
