"""C11: the Python binding against spec/Binding.tla."""
import json, os, shutil, subprocess, concurrent.futures as cf
import build, engine, meta, gen
from engine import Check
from registry import codes

def shared(objs, path, v='rel'):
    build.run([build.VARIANTS[v]['cxx'], '-shared', '-o', path] + objs + ['-lm', '-lpthread'])
    return path

def package(dst, so):
    shutil.copytree(build.REPO + '/bindings/python/tindicators', dst + '/tindicators', ignore=shutil.ignore_patterns('*.so', '__pycache__', 'test_*'))
    shutil.copy(so, dst + '/tindicators/libindicators.so')

def size(rng, z, start):
    return {'empty': 0, 'one': 1, 'short': max(0, start - 1), 'warm': start, 'first': start + 1, 'many': start + rng.choice([2, 7, 25, 25, 600])}[z]

def refused_options(rng, ind, o):
    from suites import invalid_options
    return invalid_options(rng, ind, o)

def c11():
    chk = Check('C11', 'model_checking')
    with cf.ThreadPoolExecutor(2) as ex:
        j = ex.submit(chk.start_java)
        chk.src = build.sources(chk.work + '/src')
        objs = build.library(chk.src, chk.work + '/obj')
        j.result()
    so = shared(objs, chk.work + '/libindicators.so')
    pk = chk.work + '/pkg'; os.makedirs(pk)
    package(pk, so)
    idx = meta.index()
    from suites import refuses
    r = chk.tlc('Binding')
    calls = [x['v'] for x in r['report'] if x['kind'] == 'call']
    if r['rc'] or len(calls) < 1000: raise engine.CheckError('Binding: ' + r['out'][-2000:])
    bysig = {}
    for c in calls:
        c['kw'] = [k for k, b in enumerate(c['kw'], 1) if b]
        bysig.setdefault((c['ni'], c['no']), []).append(c)
    # names as Python sees them
    names = sorted(idx)
    with open(chk.work + '/names.json', 'w') as f:
        for k in names:
            v = idx[k]
            f.write(json.dumps([[codes(x) for x in l] for l in (v['inputs'], v['options'], v['outputs'])]) + '\n')
    g = chk.tlc('Binding', cfg=build.VERIF + '/spec/BindNames.cfg', trace=chk.work + '/names.json', workers=1, name='BindNames')
    py = [[[bytes(y).decode('utf8') for y in l] for l in x['v']] for x in g['report'] if x['kind'] == 'names']
    if g['rc'] or len(py) != len(names): raise engine.CheckError('BindNames: ' + g['out'][-2000:])
    pyn = dict(zip(names, py))
    import ctypes
    rng = chk.rng
    lib = ctypes.CDLL(so)
    def start_of(n, o):
        f = getattr(lib, 'ti_%s_start' % n); f.restype = ctypes.c_int
        return max(0, f((ctypes.c_double * max(1, len(o)))(*o)))
    plan = []
    per = 30 if chk.quick else 400
    for n in names:
        m = idx[n]
        sig = bysig[(len(m['inputs']), len(m['options']))]
        sig = [c for c in sig if c['options'] == 'accepted' or refuses(n)]
        if len(set(m['inputs'])) < len(m['inputs']):        # inputs of the same name: only by position
            sig = [c for c in sig if c['p'] >= len(m['inputs']) and not set(c['kw']) & set(range(1, c['ni'] + 1))]
        # every kind of call, then random ones
        kinds = {}
        for c in sig: kinds.setdefault((c['verdict'], c['size'], c['pad'], c['uneven'] > 0, c['unknown'], c['kind'], c['p'] > c['ni'] + c['no']), []).append(c)
        pick = [rng.choice(v) for _, v in sorted(kinds.items())] + [rng.choice(sig) for _ in range(per)]
        for c in pick:
            o = gen.options(rng, n, len(m['options']))
            if rng.random() < .5: o = [int(x) if x == int(x) else x for x in o]
            st = start_of(n, o)
            k = size(rng, c['size'], st)
            if c['uneven'] and c['delta'] < 0: k = max(k, 1)
            ser = gen.bars(rng, rng.choice(gen.kinds(n, m['inputs'])), m['inputs'], max(k, 1))
            if c['options'] == 'refused': o = refused_options(rng, n, o)
            plan.append(dict(id=len(plan), name=n, call=c, options=o, n=k, series=ser, inputs=pyn[n][0], optnames=pyn[n][1], outputs=pyn[n][2]))
    ns = {}
    exec(open(build.REPO + '/version.py').read(), ns)
    base = dict(lib=so, version=ns['version'], available=names,
                infos=[dict(name=k, full=idx[k]['full'], type=idx[k]['type'], inputs=pyn[k][0], optnames=pyn[k][1], outputs=pyn[k][2]) for k in names],
                nonames=[x for x in ['nosuch', 'a', 'sm', 'smaa', 'SMA', 'zz', 'x' * 300] if x not in idx])
    def part(i):
        p = subprocess.run([build.PY, '-B', build.VERIF + '/harness/pycalls.py', pk], input=json.dumps(dict(base, calls=plan[i::8])), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try: return json.loads(p.stdout), p
        except ValueError: return None, p
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(part, range(8)))
    made = compared = 0
    for d, p in res:
        if d is None:
            chk.violation('binding:crash', 'the interpreter ended with %d: %s' % (p.returncode, p.stderr[-600:]), dict(stderr=p.stderr[-3000:])); continue
        made += d['calls']; compared += d['compared']
        for b in d['bad']:
            c = b['case']
            chk.violation('binding:%s:%s' % (c.get('name'), b['what'].split()[0]), '%s: %s %s' % (c.get('name'), b['what'], json.dumps({k: v for k, v in c.items() if k != 'name'})[:300]), b)
    return chk.finish(dict(states=r['states'] + g['states'], transitions=r['generated'], traces_validated_against_impl=made, values_compared=compared, indicators=len(names), kinds_of_calls=len(calls), samples=[json.dumps(x['call']) for x in plan[:3]]),
                      ['the library is trusted here: values are those of a direct call; its outcome for options is decided by C06'])
