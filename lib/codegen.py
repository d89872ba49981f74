"""C12: the generators against spec/Codegen.tla."""
import concurrent.futures as cf, json, os, re, shutil, subprocess
import build, engine
from engine import Check
import registry, pybind
from registry import codes

SIG = [('%s_start', 'int %s(TI_REAL const *options)'),
       ('%s', 'int %s(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs)')]
REF = [('%s_ref', 'int %s(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs)')]
STREAM = [('%s_stream_new', 'int %s(TI_REAL const *options, ti_stream **stream)'),
          ('%s_stream_run', 'int %s(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs)'),
          ('%s_stream_free', 'void %s(ti_stream *stream)')]

def own_text(name, ext, own, rng):
    """An implementation file somebody wrote."""
    L = ['/* %s: written by hand */' % name, '', '#include "../indicators.h"', '#include "../utils/minmax.h"', ''] if rng.random() < .8 else ['#include "../indicators.h"', 'static int helper_%s;' % name]
    if rng.random() < .3: L = L[:-1] + ['#include <algorithm>', ''] if ext == 'cc' else L
    if rng.random() < .3:       # what other indicators are called does not matter
        if rng.random() < .5: L.append('#define TI_%s_REF 1 /* TI_%s_STREAM, Ti_%s_Ref */' % ((name.upper(),) * 2 + (name,)))
        L.append('/* made of ti_a%s_stream_new, ti_a%s_stream_run and ti_b%s_ref, see %s_stream and %s_ref */' % ((name,) * 5))
    n = 'ti_' + name
    fs = SIG + (REF if 'ref' in own else []) + (STREAM if 'stream' in own else [])
    for f, d in fs:
        L += ['', d % (f % n) + ' {', '    /* line %d */' % rng.randint(0, 999), '    return%s;' % ('' if d.startswith('void') else ' 0'), '}']
    if rng.random() < .5: L.append('')
    return '\n'.join(L)

def stub(index, path):
    """Functions that answer with a code of their arguments."""
    L = ['#include "indicators.h"']
    for d in index:
        n, ni, no, nout = 'ti_' + d['name'], len(d['inputs']), len(d['options']), len(d['outputs'])
        L.append('int %s_start(TI_REAL const *o) { return %s; }' % (n, '(int)o[0]' if no else '2'))
        body = '''{
    const int start = %s_start(o);
    %s
    for (int k = 0; k < %d; ++k) for (int i = start; i < size; ++i) {
        TI_REAL v = 1000 * k;
        for (int j = 0; j < %d; ++j) v += (j + 1) * in[j][i];
        for (int j = 0; j < %d; ++j) v += (j + 3) * 100 * o[j];
        out[k][i - start] = v;
    }
    return TI_OKAY;
}''' % (n, 'if (o[%d] == -1) return TI_INVALID_OPTION; if (o[%d] == -2) return TI_OUT_OF_MEMORY;' % (no - 1, no - 1) if no else '', nout, ni, no)
        L.append('int %s(int size, TI_REAL const *const *in, TI_REAL const *o, TI_REAL *const *out) %s' % (n, body))
        if 'ref' in d['features']:
            L.append('int %s_ref(int size, TI_REAL const *const *in, TI_REAL const *o, TI_REAL *const *out) { return 0; }' % n)
        if 'stream' in d['features']:
            L += [sig % (f % n) + (' { }' if sig.startswith('void') else ' { return 0; }') for f, sig in STREAM]
    open(path, 'w').write('\n'.join(L) + '\n')

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', HOME='/nonexistent', GIT_CONFIG_GLOBAL='/dev/null', GIT_CONFIG_NOSYSTEM='1', GIT_CEILING_DIRECTORIES='/')

def masked(p):
    return re.sub(rb'#define TI_BUILD .*', b'', open(p, 'rb').read())

def snapshot(d):
    s = {}
    for f in sorted(os.listdir(d + '/indicators')): s['indicators/' + f] = open(d + '/indicators/' + f, 'rb').read()
    for f in ('indicators.h', 'indicators_index.c'): s[f] = masked(d + '/' + f)
    return s

def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)

def run_case(chk, i, case, full, rng):
    """Executes one case; returns (complaints, record for TLC)."""
    d = '%s/case%d' % (chk.work, i)
    os.makedirs(d + '/indicators')
    bad = []
    for f in ('codegen.py', 'version.py', 'docsgen.py'): shutil.copy(build.REPO + '/' + f, d)
    index = case['index']
    with open(d + '/indicators.yaml', 'w') as f:
        f.write('# a comment\n\n')
        for e in index:
            f.write('%s: [%s, %s, %s, %s, %s, %s, \'-\']\n' % (e['name'], json.dumps(e['full']), e['type'], json.dumps(e['inputs']), json.dumps(e['options']), json.dumps(e['outputs']), json.dumps(e['features'])))
    own = {}
    for n, b in zip(case['names'], case['before']):
        if b['ext'] != 'none':
            own[n] = own_text(n, b['ext'], b['own'], rng)
            open('%s/indicators/%s.%s' % (d, n, b['ext']), 'w').write(own[n])
    for c in (['git', 'init', '-q'], ['git', 'add', '-A']):
        p = sh(c, cwd=d, env=ENV)
        if p.returncode: raise engine.CheckError('git: ' + p.stdout)
    cmd = [build.PY, 'codegen.py'] + (['--old'] if case['old'] else [])
    p = sh(cmd, cwd=d, env=ENV, timeout=120)
    if p.returncode:
        shutil.rmtree(d)
        return [('fails', 'the generator ended with %d: %s' % (p.returncode, p.stdout[-300:]))], None
    # ---- files
    listing = sorted(os.listdir(d + '/indicators'))
    want = sorted('%s.%s' % (n, a['ext']) for n, a in zip(case['names'], case['after']) if a['ext'] != 'none')
    if listing != want: bad.append(('files', 'files %s instead of %s' % (listing, want)))
    decl = {e['name']: e for e in index}
    for n, b, a in zip(case['names'], case['before'], case['after']):
        path = '%s/indicators/%s.%s' % (d, n, a['ext'])
        if a['ext'] == 'none' or not os.path.exists(path): continue
        t = open(path).read()
        if a == b:
            if t != own[n]: bad.append(('touched', 'the file of %s was changed' % n))
            continue
        o = own.get(n, '')
        if 'includes' in a['add'] and b['ext'] != 'none':
            lines = o.split('\n')
            if not subsequence(lines, t.split('\n')): bad.append(('text', 'text of %s was lost: %r' % (n, t[:300])))
        elif not t.startswith(o): bad.append(('text', 'text of %s was lost: %r' % (n, t[:300])))
        e = decl[n]
        fn = 'ti_' + n
        added = [('base', SIG), ('ref', REF), ('stream', STREAM)]
        for piece, fs in added:
            for f, _ in fs:
                k = len(re.findall(r'^[^\n;=]*\b%s\s*\([^;=\n]*\)\s*(?:try\s*)?\{' % re.escape(f % fn), t, re.M))
                w = 1 if piece in a['add'] or piece in b['own'] or (piece == 'base' and b['ext'] != 'none') else 0
                if k != w: bad.append(('scaffold', '%s is defined %d times instead of %d in %s (%s)' % (f % fn, k, w, n, a)))
        if 'base' in a['add']:      # every array and option is taken from its place
            for what, l in (('inputs', e['inputs']), ('options', e['options']), ('outputs', e['outputs'])):
                for j, x in enumerate(l):
                    if not re.search(r'(?<!\w)%s *= *%s\[%d\];' % (re.escape(x), what, j), t): bad.append(('scaffold', '%s %d of %s' % (what, j, n)))
    # ---- header and table
    rec = None
    idx = {e['name']: e for e in index}
    stub(index, d + '/stub.c')
    registry.harness(idx, d + '/reg.c')
    q = [codes(n) for n in idx] + [codes(n)[:-1] for n in idx] + [codes(n + 'a') for n in idx] + [[], [1], [122, 122, 122]]
    open(d + '/queries', 'w').write('\n'.join(' '.join(map(str, x)) for x in q) + '\n')
    cc = sh(['gcc', '-std=gnu99', '-w', '-O0', '-fPIC', '-I', d, d + '/reg.c', d + '/stub.c', d + '/indicators_index.c', '-o', d + '/reg'])
    pre = sh(['gcc', '-std=gnu99', '-E', '-P', d + '/indicators.h'])
    names = sorted({x for x in re.findall(r'\b(ti_\w+)\s*\(', pre.stdout)} - set('ti_version ti_build ti_indicator_count ti_find_indicator ti_stream_run ti_stream_get_info ti_stream_get_progress ti_stream_free'.split()))
    if cc.returncode: bad.append(('compile', 'header or table do not compile: ' + cc.stdout[-400:]))
    else:
        p = sh([d + '/reg', d + '/queries'])
        l = p.stdout.split('\n')
        if p.returncode or len(l) < 2: bad.append(('fault', 'reading the table ended with %d' % p.returncode))
        else:
            rec = dict(decl=registry.declared({k: dict(v) for k, v in idx.items()}), table=json.loads(l[0]), lookups=json.loads(l[1]), functions=case['functions'], declared=names)
    # ---- again: nothing changes
    s1 = snapshot(d)
    p = sh(cmd, cwd=d, env=ENV, timeout=120)
    if p.returncode: bad.append(('again', 'the second run ended with %d: %s' % (p.returncode, p.stdout[-300:])))
    else:
        s2 = snapshot(d)
        for f in sorted(set(s1) | set(s2)):
            if s1.get(f) != s2.get(f): bad.append(('again', 'the second run changed ' + f))
    if full and not bad:
        bad += docs(d, index) + bindings(chk, d, index, rng)
    shutil.rmtree(d)
    return bad, rec

def docs(d, index):
    bad = []
    p = sh([build.PY, 'docsgen.py', 'out.markdown'], cwd=d, env=ENV, timeout=120)
    if p.returncode: return [('docs', 'docsgen.py ended with %d: %s' % (p.returncode, p.stdout[-300:]))]
    t = open(d + '/out.markdown').read()
    if not re.search(r'\b%d\b' % len(index), t.split('####')[0]): bad.append(('docs', 'number of indicators'))
    sections = re.split(r'^#### ', t, flags=re.M)[1:]
    if len(sections) != len(index): return bad + [('docs', '%d sections for %d indicators' % (len(sections), len(index)))]
    left = list(sections)
    for e in index:
        s = [x for x in left if re.search(r'\bti\.%s\(' % re.escape(e['name']), x)]
        if len(s) != 1 or s[0].split('\n')[0].strip() != e['full']: bad.append(('docs', 'section of %s' % e['name'])); continue
        left.remove(s[0])
        m = re.search(r'\bti\.%s\((.*?)\)\s*->\s*\w*\(?(.*?)\)\s*```' % re.escape(e['name']), s[0], re.S)
        if not m: bad.append(('docs', 'signature of %s' % e['name'])); continue
        args = [x.split(':')[0].strip() for x in m.group(1).split(',')]
        if args != e['inputs'] + e['options']: bad.append(('docs', 'arguments of %s: %s' % (e['name'], args)))
        outs = [x.split('=')[0].strip() for x in m.group(2).split(',')]
        if outs[-len(e['outputs']):] != e['outputs']: bad.append(('docs', 'results of %s: %s' % (e['name'], outs)))
        if not re.search(r'indicators/%s\.(c|cc)\b' % re.escape(e['name']), s[0]): bad.append(('docs', 'link of %s' % e['name']))
    return bad

def mangle(x): return x.replace('%', '').replace(' ', '_')

def bindings(chk, d, index, rng):
    bad = []
    so = d + '/libindicators.so'
    p = sh(['gcc', '-std=gnu99', '-w', '-O0', '-fPIC', '-shared', '-I', d, d + '/stub.c', d + '/indicators_index.c', '-o', so])
    if p.returncode: return [('binding', p.stdout[-300:])]
    os.makedirs(d + '/pkg'); pybind.package(d + '/pkg', so)
    open(d + '/pkg/tindicators/indicators.dll', 'w').write('')
    plan, infos = [], []
    for e in sorted(index, key=lambda e: e['name']):
        I, O, R = ([mangle(x) for x in e[k]] for k in ('inputs', 'options', 'outputs'))
        infos.append(dict(name=e['name'], full=e['full'], type=e['type'], inputs=I, optnames=O, outputs=R))
        for v in range(6):
            if v > 3 and not O: continue
            ni, no = len(I), len(O)
            p_ = rng.randint(0, ni + no)
            c = dict(ni=ni, no=no, p=p_, kw=list(range(p_ + 1, ni + no + 1)), unknown=0, uneven=0, delta=0, size='many', pad=rng.random() < .5, options='accepted', kind='list', verdict='result')
            o = [rng.randint(0, 4)] + [rng.randint(0, 9) + .5 for _ in O[1:]] if O else []
            if v == 4: o[-1] = -1
            if v == 5: o[-1] = -2
            n = rng.randint(0, 9)
            plan.append(dict(id=len(plan), name=e['name'], call=c, options=o, n=n, series=[[float(rng.randint(1, 50)) for _ in range(max(n, 1))] for _ in I], inputs=I, optnames=O, outputs=R,
                             verdict={4: 'invalid', 5: 'memory'}.get(v, 'result')))
    ns = {}
    exec(open(d + '/version.py').read(), ns)
    p = subprocess.run([build.PY, '-B', build.VERIF + '/harness/pycalls.py', d + '/pkg'], input=json.dumps(dict(lib=so, version=ns['version'], available=sorted(e['name'] for e in index), infos=infos, nonames=['nosuch'], calls=plan)),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try: bad += [('binding', '%s %s' % (b['what'], json.dumps(b['case'])[:200])) for b in json.loads(p.stdout)['bad']]
    except ValueError: bad.append(('binding', 'the interpreter ended with %d: %s' % (p.returncode, p.stderr[-300:])))
    # ---- C#
    os.makedirs(d + '/lean'); shutil.copy(build.REPO + '/bindings/lean/generate-bindings.py', d + '/lean')
    p = sh([build.PY, '-B', 'generate-bindings.py'], cwd=d + '/lean', env=dict(ENV, PYTHONPATH=d + '/pkg'))
    if p.returncode or not os.path.exists(d + '/lean/tindicators.cs'): return bad + [('lean', 'the generator ended with %d: %s' % (p.returncode, p.stdout[-300:]))]
    return bad + lean(open(d + '/lean/tindicators.cs').read(), index)

def lean(t, index):
    """The C# classes: one per indicator and way of use, bound to the right functions, with everything in its place."""
    bad = []
    if 'namespace Default' not in t or 'namespace Streaming' not in t: return [('lean', 'namespaces')]
    s, dflt = t[t.index('namespace Streaming'):].split('namespace Default', 1)
    for part, kind in ((s, 'stream'), (dflt, 'default')):
        classes = re.split(r'public class (\w+)', part)[1:]
        classes = [(classes[i], classes[i + 1]) for i in range(0, len(classes), 2)]
        want = [e for e in index if not ('series' in e['inputs'] and len(e['inputs']) > 1) and (kind == 'default' or 'stream' in e['features'])]
        got = []
        for n, body in classes:
            ep = set(re.findall(r'EntryPoint="(\w+)"', body))
            got.append((n, frozenset(ep)))
        exp = []
        for e in want:
            f = 'ti_' + e['name']
            ep = {f + '_stream_new', f + '_stream_run', f + '_stream_free', 'ti_stream_get_progress'} if kind == 'stream' else {f + '_start', f}
            exp.append((re.sub('[^0-9a-zA-Z]', '', e['full']), frozenset(ep)))
        if sorted(map(lambda x: (x[0], sorted(x[1])), got)) != sorted(map(lambda x: (x[0], sorted(x[1])), exp)): bad.append(('lean', '%s classes %s' % (kind, sorted(set(got) ^ set(exp), key=str)[:3]))); continue
        for e in want:
            body = [b for n, b in classes if 'EntryPoint="ti_%s%s"' % (e['name'], '_stream_run' if kind == 'stream' else '') in b][0]
            opts = [mangle(x) for x in e['options']]
            m = re.search(r'new double\[\]\{(.*?)\}', body)
            if not m or [x.strip() for x in m.group(1).split(',') if x.strip()] != opts: bad.append(('lean', 'options of %s: %s' % (e['name'], m and m.group(1))))
            m = re.search(r'public \w+\(([^)]*)\)', body)
            if not m or [x.split()[-1] for x in m.group(1).split(',') if x.strip() and 'windowsize' not in x] != opts: bad.append(('lean', 'constructor of %s' % e['name']))
            if kind == 'stream':
                got_in = re.findall(r'tmp\[(\d+)\] *= *\(double\)data\.(\w+)', body)
                ok = got_in == [(str(i), 'Value' if x == 'series' else x.capitalize()) for i, x in enumerate(e['inputs'])]
                cp = re.findall(r'Marshal\.Copy\(tmp, (\d+), inputs\[(\d+)\], 1\)', body)
                co = re.findall(r'Marshal\.Copy\(outputs\[(\d+)\], tmp, (\d+), 1\)', body)
                up = re.findall(r'(\w+)\.Update\(data\.Time, \(decimal\)tmp\[(\d+)\]\)', body)
                ok = ok and cp == [(str(i), str(i)) for i in range(len(e['inputs']))] and co == [(str(i), str(i)) for i in range(len(e['outputs']))] and up == [(mangle(x).upper(), str(i)) for i, x in enumerate(e['outputs'])]
            else:
                got_in = re.findall(r'\(double\)value\.(\w+)', body)
                ok = got_in == ['Value' if x == 'series' else x.capitalize() for x in e['inputs']]
                up = re.findall(r'Marshal\.Copy\(outputs\[(\d+)\], tmp, 0, [^)]*\); (\w+)\.Update', body)
                ok = ok and up == [(str(i), mangle(x).upper()) for i, x in enumerate(e['outputs'])]
            if not ok: bad.append(('lean', 'data of %s (%s)' % (e['name'], kind)))
    return bad

def c12():
    chk = Check('C12', 'model_checking')
    chk.start_java()
    rng = chk.rng
    r1 = chk.tlc('Codegen', cfg=build.VERIF + '/spec/Codegen1.cfg', name='Codegen1', args=['-seed', str(chk.seed), '-fp', '1'], workers=1)
    if r1['rc']: raise engine.CheckError('Codegen: ' + r1['out'][-2000:])
    one = {}
    for x in r1['report']:
        if x['kind'] != 'case': continue
        v = x['v']
        e = v['index'][0]
        b = v['before'][v['names'].index('sma')]
        one.setdefault(json.dumps([e['features'], b, v['old'], len(v['names'])]), []).append(v)
    cases = [rng.choice(v) for _, v in sorted(one.items())]
    num = 60 if chk.quick else 800
    rN = chk.tlc('Codegen', cfg=build.VERIF + '/spec/CodegenN.cfg', name='CodegenN', workers=1, args=['-simulate', 'num=%d' % (6 * num), '-depth', '16', '-seed', str(chk.seed)])
    many = {}
    for x in rN['report']:
        if x['kind'] == 'case' and len(x['v']['index']) > 2: many[json.dumps(x['v'], sort_keys=True)] = x['v']
    many = [many[k] for k in sorted(many)]
    if len(many) < num: raise engine.CheckError('CodegenN: ' + rN['out'][-2000:])
    many = rng.sample(many, num)
    nsingle = len(cases)
    cases += many
    import random
    def one_case(i):
        return run_case(chk, i, cases[i], i >= nsingle and (i % 3 == 0 or not chk.quick), random.Random(chk.seed * 7919 + i))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one_case, range(len(cases))))
    recs, where = [], []
    for i, (bad, rec) in enumerate(res):
        for k, w in bad: chk.violation('codegen:%s' % k, '%s (index of %d)' % (w, len(cases[i]['index'])), dict(case=cases[i], complaint=w))
        if rec: recs.append(rec); where.append(i)
    st = 0
    if recs:
        with open(chk.work + '/tables.json', 'w') as f:
            f.write('\n'.join(registry.esc(r) for r in recs) + '\n')
        t = chk.tlc('GenTable', trace=chk.work + '/tables.json')
        st = t['states']
        bads = [x['v'] for x in t['report'] if x['kind'] == 'bad']
        if t['rc'] or st != len(recs): raise engine.CheckError('GenTable: ' + t['out'][-2000:])
        for b in bads:
            chk.violation('codegen:table:%s' % b['kind'], '%s %s' % (b['kind'], b['what']), dict(case=cases[where[b['at'] - 1]], complaint=b))
    return chk.finish(dict(states=r1['states'] + st + sum(len(c['index']) + 2 for c in many), transitions=r1['generated'], traces_validated_against_impl=len(cases), tables=len(recs), samples=[json.dumps(cases[0])[:400], json.dumps(cases[-1])[:600]]),
                      ['names are C identifiers, texts are printable ASCII without quotes and backslashes; git is present and knows the files'])
