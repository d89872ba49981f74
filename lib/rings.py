"""C10: the buffers of utils/ against spec/Rings.tla."""
import os, subprocess, json
import build, engine
from engine import Check

CFG = """CONSTANTS
  Kind = "%s"
  Caps <- %s
  Values <- %s
  Depth = %d
  Long = 8
INIT Init
NEXT %s
%s
CHECK_DEADLOCK FALSE
"""
def cfg(chk, name, kind, caps, values, nxt, rest, depth=0):
    p = '%s/%s.cfg' % (chk.work, name)
    with open(p, 'w') as f:
        f.write(CFG % (kind, caps, values, depth, nxt, rest))
    return p

def text(kind, cap, path, long=0):
    L = [kind, ','.join(map(str, cap))]
    for i, o in enumerate(path, 1):
        L.append(o[0] + ','.join(map(str, o[1:])))
        if long and i % long == 0:
            L.append('o')
    return ' '.join(L if long else L + ['o'])

def expect(kind, cap, look, toks):
    """Compares one observation with what the specification shows; returns a complaint or None."""
    t = iter(toks)
    def word(w):
        x = next(t)
        if x != w: raise engine.CheckError('harness: %s for %s' % (x, w))
    num = lambda: float(next(t))
    if kind in ('ring', 'heap'):
        at = look['at']
        n = len(at)
        word('at')
        got = [num() for _ in range(n)]
        if got != at: return 'contents %s instead of %s' % (got, at)
        word('cur')
        if num() != at[0]: return 'current value'
        for p in range(1, n + 1):
            word('m')
            for what, want in (('maximum', look['top'][p-1]), ('minimum', look['low'][p-1])):
                v, age = num(), int(next(t))
                if v != want: return '%s of the last %d is %g, not %g' % (what, p, v, want)
                if not (0 <= age < p and at[age] == want): return 'age %d of the %s of the last %d %s' % (age, what, p, at)
        word('ph')
        if int(next(t)) != n: return 'number of cells'
        ages = []
        for _ in range(n):
            v, age = num(), int(next(t))
            ages.append(age)
            if not (0 <= age < n and at[age] == v): return 'cell with value %g is told to be of age %d in %s' % (v, age, at)
        if sorted(ages) != list(range(n)): return 'ages of the cells %s' % ages
        return None
    if kind == 'multi':
        word('keep')
        if [next(t), next(t)] != ['77', '88']: return 'neighbouring memory changed'
        if int(next(t)) != sum(cap): return 'size of the block'
    for b, want in enumerate(look['at']):
        word('buf')
        m = int(next(t))
        if m != len(want): raise engine.CheckError('harness lost count')
        k = 2 if kind == 'multi' else 1
        got = [num() for _ in range(m * k)]
        if got != [x for x in want for _ in range(k)]: return 'buffer %d holds %s instead of %s' % (b, got, want)
        if m == cap[b]:
            word('old')
            for _ in range(k):
                if num() != want[-1]: return 'oldest value of buffer %d' % b
        if kind == 'sum':
            word('sum')
            x = num()
            if x != look['sum'][b]: return 'sum %g instead of %g' % (x, look['sum'][b])
    return None

def replay(chk, exe, kind, cases, long=0):
    """cases: (cap, path, looks)"""
    n = 0
    lines = [text(kind, c, p, long) for c, p, _ in cases]
    p = subprocess.run([exe], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    out = p.stdout.split('\n')[:-1]
    if p.returncode:
        i = min(len(out), len(lines) - 1)
        chk.violation('%s:%s:fault' % (kind, ','.join(map(str, cases[i][0]))), 'the replay ended with %d at %s: %s' % (p.returncode, lines[i][-200:], p.stderr[-600:]), dict(ops=lines[i]))
    for (cap, path, looks), line, ops in zip(cases, out, lines):
        obs = [x.split() for x in line.split(' O ')[1:]]
        if len(obs) != len(looks):
            raise engine.CheckError('harness: %d observations of %d' % (len(obs), len(looks)))
        c = list(cap)
        done = 0
        for i, (look, o) in enumerate(zip(looks, obs)):
            if kind == 'heap' :
                for q in path[done:(i + 1) * long if long else len(path)]:
                    if q[0] == 'r': c = [q[1]]
                done = (i + 1) * long if long else len(path)
            bad = expect(kind, c, look, o)
            n += 1
            if bad:
                chk.violation('%s:%s:%s' % (kind, ','.join(map(str, cap)), bad.split()[0]), '%s after %s' % (bad, ops[-160:]), dict(ops=ops, observation=i))
                break
    return n

def far(chk, exe, most):
    c = chk.work + '/far.cfg'
    with open(c, 'w') as f: f.write('CONSTANTS Most = %d\nINIT Init\nNEXT Next\nINVARIANT Told\nCHECK_DEADLOCK FALSE\n' % most)
    r = chk.tlc('RingsFar', cfg=c, name='RingsFar')
    cases = [x['v'] for x in r['report'] if x['kind'] == 'far']
    if r['rc'] or len(cases) < 300: raise engine.CheckError('TLC: ' + r['out'][-3000:])
    lines = ['far %s %d %d %s m %s' % (x['kind'], x['cap'], x['n'], ' '.join(map(str, x['ages'])), ' '.join(map(str, x['ps']))) for x in cases]
    p = subprocess.run([exe], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    out = p.stdout.split('\n')[:-1]
    if p.returncode:
        i = min(len(out), len(lines) - 1)
        chk.violation('%s:%d:far-fault' % (cases[i]['kind'], cases[i]['cap']), 'the replay ended with %d at %s: %s' % (p.returncode, lines[i], p.stderr[-600:]), dict(ops=lines[i]))
    for x, l, o in zip(cases, lines, out):
        t = iter(o.split()[1:])
        bad = None
        for a, w in zip(x['ages'], x['at']):
            g = float(next(t))
            if g != w and not bad: bad = 'the number pushed %d ago is %g, not %g' % (a, g, w)
        for q, hi, lo in zip(x['ps'], x['top'], x['low']):
            for what, w in (('maximum', hi), ('minimum', lo)):
                g, age = float(next(t)), int(next(t))
                if (g != w or not 0 <= age < q) and not bad: bad = '%s of the last %d is %g (age %d), not %g' % (what, q, g, age, w)
        if x['kind'] == 'sum':
            g = float(next(t))
            if g != x['sum'] and not bad: bad = 'the sum is %g, not %d' % (g, x['sum'])
        if bad: chk.violation('%s:%d:far' % (x['kind'], x['cap']), '%s after %d numbers, capacity %d' % (bad, x['n'], x['cap']), dict(ops=l))
    return r, len(cases)

def c10():
    chk = Check('C10', 'model_checking')
    chk.start_java()
    src = chk.src = build.sources(chk.work + '/src')
    v = build.VARIANTS['asan']
    exe = chk.work + '/rings'
    build.run([v['cc'], '-std=gnu99'] + v['flags'] + ['-I', src, '-c', src + '/utils/buffer.c', '-o', chk.work + '/buffer.o'])
    build.run([v['cxx'], '-std=c++17'] + v['flags'] + ['-I', src, build.VERIF + '/harness/rings.cc', chk.work + '/buffer.o', '-o', exe] + v['link'])
    q = chk.quick
    states = trans = seen = paths = 0
    sample = []
    exh = [('ring', 'SmallCaps', 'Signed'), ('heap', 'SmallCaps', 'Signed'), ('sum', 'SmallCaps', 'Signed'), ('quiet', 'SmallCaps', 'Plain'), ('multi', 'MultiCaps', 'Two')]
    if not q:
        exh += [('ring', 'MoreCaps', 'Signed'), ('heap', 'MoreCaps', 'Signed'), ('sum', 'MoreCaps', 'Signed'), ('multi', 'MultiCaps', 'Plain')]
    for kind, caps, values in exh:
        name = 'edges-%s-%s' % (kind, caps)
        c = cfg(chk, name, kind, caps, values, 'Edges', 'INVARIANTS CutList Wheel Bounded\nVIEW Abstract')
        r = chk.tlc('Rings', cfg=c, name=name)
        if r['rc']: raise engine.CheckError('TLC: ' + r['out'][-3000:])
        e = [x['v'] for x in r['report'] if x['kind'] == 'edge']
        cases = [(x['cap'], x['path'], x['look']) for x in e]
        states += r['states']; trans += len(cases)
        seen += replay(chk, exe, kind, cases)
        paths += len(cases)
        sample += [text(kind, *cases[len(cases) // 2][:2])]
    depth = 200 if q else 600
    for kind, caps in (('ring', 'LongCaps'), ('heap', 'LongCaps'), ('sum', 'LongCaps'), ('quiet', 'LongCaps'), ('multi', 'LongMulti')):
        name = 'run-%s' % kind
        c = cfg(chk, name, kind, caps, 'Many', 'Runs', 'INVARIANT Final', depth)
        num = 40 if q else 400
        r = chk.tlc('Rings', cfg=c, name=name, workers=1, args=['-simulate', 'num=%d' % num, '-depth', str(depth + 2), '-seed', str(chk.seed)])
        e = [x['v'] for x in r['report'] if x['kind'] == 'run']
        if len(e) < num // 2: raise engine.CheckError('TLC: ' + r['out'][-3000:])
        cases = [(x['cap'], x['path'], [y[0] for y in x['look']]) for x in e]
        seen += replay(chk, exe, kind, cases, 8)
        paths += len(cases); states += depth * len(cases)
    rf, nf = far(chk, exe, 5000 if q else 40000)
    states += rf['states']; paths += nf
    return chk.finish(dict(far_histories=nf, states=states, transitions=trans, traces_validated_against_impl=paths, observations_compared=seen, samples=sample),
                      ['every transition of the graph of contents and places in memory for capacities up to %d, and random histories of %d operations for capacities up to 50; single places after up to 70000 numbers in capacities up to %d' % (4 if q else 5, depth, 5000 if q else 40000),
                       'the harness uses the buffers as the indicators do: every buffer of utils/buffer.h either with or without its sum, unread cells of localbuffer.h are not looked at'])
