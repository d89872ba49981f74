"""Makes the planned calls through the Python binding and compares with direct calls of the same library.
usage: pycalls.py <dir with the package> < plan.json > result.json"""
import sys, json, ctypes, random, struct
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import numpy as np
from tindicators import ti, InvalidOption, OutOfMemory, NoSuchIndicator
try:
    import pandas as pd
except ImportError:
    pd = None
plan = json.load(sys.stdin)
lib = ctypes.CDLL(plan['lib'])
out = []
def bad(what, case): out.append(dict(what=what, case=case))
P = ctypes.POINTER(ctypes.c_double)

def direct(name, inputs, options, nout, n, start):
    m = max(0, n - start)
    opt = (ctypes.c_double * max(1, len(options)))(*options)
    keep = [(ctypes.c_double * max(1, n))(*x) for x in inputs]
    ins = (P * len(keep))(*[ctypes.cast(k, P) for k in keep])
    res = [(ctypes.c_double * max(1, m))() for _ in range(nout)]
    outs = (P * nout)(*[ctypes.cast(k, P) for k in res])
    f = getattr(lib, 'ti_' + name); f.restype = ctypes.c_int
    rc = f(n, ins, opt, outs)
    return rc, [list(r)[:m] for r in res]

def start_of(name, options):
    f = getattr(lib, 'ti_%s_start' % name); f.restype = ctypes.c_int
    return f((ctypes.c_double * max(1, len(options)))(*options))

def dress(v, kind):
    if kind == 'tuple': return tuple(v)
    if kind == 'float64': return np.array(v, dtype=np.float64)
    if kind == 'float32': return np.array(v, dtype=np.float32)
    if kind == 'int': return np.array(v).astype(np.int64)
    if kind == 'pandas' and pd is not None: return pd.Series(v, dtype=float)
    if kind == 'strided':
        a = np.zeros(2 * len(v)); a[::2] = v; return a[::2]
    return list(v)

bits = lambda x: struct.pack('<d', x)
same = lambda a, b: bits(a) == bits(b) or (a != a and b != b)
made = compared = 0
for case in plan['calls']:
    name, c, options = case['name'], case['call'], case['options']
    innames, optnames, outnames = case['inputs'], case['optnames'], case['outputs']
    n = case['n']
    series = [[float(np.float32(x)) if c['kind'] == 'float32' else float(x) for x in v[:n]] for v in case['series']]
    if c['kind'] == 'int': series = [[float(int(x)) for x in v] for v in series]
    given = [list(v) for v in series]
    if c['uneven']:
        j = c['uneven'] - 1
        given[j] = given[j] + [1.0] if c['delta'] > 0 else given[j][:-1]
    values = [dress(v, c['kind']) for v in given] + list(options)
    before = [list(v) for v in values[:len(innames)]]
    args = (values + [1.0])[:c['p']]
    names = innames + optnames
    kw = {names[k - 1]: values[k - 1] for k in c['kw']}
    if c['unknown']: kw['no_such_name'] = 3
    items = list(kw.items()); random.Random(case['id']).shuffle(items); kw = dict(items)
    if not c['pad']: kw['pad'] = False
    made += 1
    brief = dict(name=name, options=options, n=n, call=c)
    try:
        res = getattr(ti, name)(*args, **kw)
        got = 'result'
    except InvalidOption: got = 'invalid'
    except OutOfMemory: got = 'memory'
    except Exception as e: got, err = 'refused', '%s: %s' % (type(e).__name__, e)
    want = case.get('verdict', c['verdict'])
    if got != want:
        bad('%s instead of %s%s' % (got, want, ' (' + err + ')' if got == 'refused' else ''), brief); continue
    if got != 'result': continue
    start = start_of(name, options)
    m = max(0, n - start)
    rc, exp = direct(name, series, options, len(outnames), n, start)
    if len(outnames) == 1: rows = [res]
    else:
        if list(res._fields) != outnames: bad('fields %s' % (res._fields,), brief); continue
        rows = [getattr(res, f) for f in outnames]
        if any(a is not b for a, b in zip(rows, res)): bad('order of the results', brief); continue
    for k, (row, e) in enumerate(zip(rows, exp)):
        if not isinstance(row, np.ndarray) or row.dtype != np.float64 or row.ndim != 1:
            bad('result is no array of doubles', brief); break
        want = ([float('nan')] * (n - m) if c['pad'] else []) + e
        got = [float(x) for x in row]
        if len(got) != len(want): bad('length %d instead of %d' % (len(got), len(want)), brief); break
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if not same(a, b)), None)
        if i is not None: bad('output %s[%d] is %r, the library gives %r' % (outnames[k], i, got[i], want[i]), brief); break
        compared += len(got)
    else:
        if [list(v) for v in values[:len(innames)]] != before and not any(x != x for v in before for x in v): bad('the call changed its inputs', brief)
        # results belong to the caller: another call does not touch them
        keep = [r.copy() for r in rows]
        res2 = getattr(ti, name)(*args, **kw)
        rows2 = [res2] if len(outnames) == 1 else list(res2)
        for r in rows2:
            if r.flags.writeable and len(r): r[:] = -12345
        if any(not all(same(float(a), float(b)) for a, b in zip(r, s)) for r, s in zip(rows, keep)): bad('results of two calls share memory', brief)

for d in plan['infos']:
    try:
        i = getattr(ti, d['name']).info
        got = dict(full=i.full_name, type=i.type, inputs=list(i.inputs), optnames=list(i.options), outputs=list(i.outputs), name=i.name)
        r = repr(getattr(ti, d['name']))
    except Exception as e:
        bad('%s: %s' % (type(e).__name__, e), dict(name=d['name'])); continue
    for f in got:
        if got[f] != d[f]: bad('info %s is %r instead of %r' % (f, got[f], d[f]), dict(name=d['name'], field=f))
    for x in [d['name'], d['full']] + d['inputs'] + d['optnames'] + d['outputs']:
        if x not in r: bad('%s missing in the printed form' % x, dict(name=d['name'], field='repr'))
if ti.available_indicators != plan['available']: bad('available indicators', dict(name='*', got=ti.available_indicators[:400]))
if ti.version != plan['version']: bad('version %s' % ti.version, dict(name='*'))
for q in plan['nonames']:
    try:
        getattr(ti, q); bad('found an indicator of this name', dict(name=q))
    except NoSuchIndicator: pass
    except Exception as e: bad('%s for an unknown name' % type(e).__name__, dict(name=q))
json.dump(dict(bad=out, calls=made, compared=compared), sys.stdout)
