"""C09: the table of indicators and its lookup, against spec/Registry.tla."""
import json, os, re, subprocess
import build, engine, meta
from engine import Check

HEAD = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "indicators.h"
static const struct { const char *n; void *p; } sym[] = {
'''
TAIL = r'''
{0, 0}};
static const int constants[] = {%s};
static const char *constnames[] = {%s};
static void str(const char *s) { putchar('"'); for (; *s; ++s) { if (*s == '"' || *s == '\\') putchar('\\'); if ((unsigned char)*s < 32) printf("\\u%%04x", (unsigned char)*s); else putchar(*s); } putchar('"'); }
static void codes(const char *s) { putchar('['); for (int i = 0; s[i]; ++i) printf(i ? ",%%d" : "%%d", (unsigned char)s[i]); putchar(']'); }
static void who(const char *f, void *p) {
    printf("\"%%s\":", f);
    if (!p) { printf("\"0\","); return; }
    for (int i = 0; sym[i].n; ++i) if (sym[i].p == p) { str(sym[i].n); putchar(','); return; }
    printf("\"unknown function\",");
}
static int list(const char *f, char **l, int n) {
    int ok = n >= 0 && n < TI_MAXINDPARAMS;
    printf("\"%%s\":[", f);
    for (int i = 0; i < n; ++i) { if (i) putchar(','); if (l[i]) str(l[i]); else { printf("\"null\""); ok = 0; } }
    printf("],");
    return ok && l[n] == 0;
}
static const char *types[] = {"none", "overlay", "indicator", "math", "simple", "comparative"};
int main(int argc, char **argv) {
    printf("{\"entries\":[");
    int k = 0;
    for (; ti_indicators[k].name && k < 5000; ++k) {
        ti_indicator_info *e = ti_indicators + k;
        printf(k ? ",{" : "{");
        printf("\"id\":\"ti_%%s\",\"name\":", e->name); codes(e->name); printf(",\"full\":"); str(e->full_name); printf(",\"type\":");
        str(e->type >= 1 && e->type <= 5 ? types[e->type] : "none"); putchar(',');
        int ok = list("inputs", e->input_names, e->inputs) & list("options", e->option_names, e->options) & list("outputs", e->output_names, e->outputs);
        who("start", (void*)e->start); who("indicator", (void*)e->indicator); who("ref", (void*)e->indicator_ref);
        who("new", (void*)e->stream_new); who("run", (void*)e->stream_run); who("free", (void*)e->stream_free);
        int c = -1;
        for (int i = 0; constnames[i]; ++i) if (!strcmp(constnames[i], e->name)) c = constants[i];
        printf("\"constant\":%%d,\"nulls\":%%s}", c, ok ? "true" : "false");
    }
    ti_indicator_info *z = ti_indicators + k;
    printf("],\"terminated\":%%s,\"count\":%%d,\"macro\":%%d,\"version\":", !z->name && !z->full_name && !z->start && !z->indicator ? "true" : "false", ti_indicator_count(), TI_INDICATOR_COUNT);
    str(ti_version()); printf(",\"build\":\"%%ld\",\"buildmacro\":\"%%ld\"}\n", ti_build(), (long)TI_BUILD);
    if (argc < 2) return 0;
    FILE *q = fopen(argv[1], "r");
    char buf[4096];
    printf("[");
    int first = 1, c;
    while (fgets(buf, sizeof buf, q)) {             /* codes in decimal, blank-separated */
        char name[600]; int n = 0;
        for (char *t = strtok(buf, " \n"); t; t = strtok(0, " \n")) name[n++] = (char)atoi(t);
        char *copy = malloc(n + 1);                 /* its own block: reading behind the string is an error */
        memcpy(copy, name, n); copy[n] = 0;
        const ti_indicator_info *e = ti_find_indicator(copy);
        printf(first ? "[" : ",["); first = 0;
        codes(copy);
        long at = e ? (long)(e - ti_indicators) : -1;
        if (e && (at < 0 || at >= k)) at = -2;
        printf(",%%ld]", at);
        free(copy);
    }
    printf("]\n");
    return 0;
}
'''
def codes(s): return [b for b in s.encode('utf8')]

def declared(idx):
    return [dict(id='ti_' + k, name=codes(k), full=v['full'], type=v['type'], inputs=v['inputs'], options=v['options'], outputs=v['outputs'], features=v['features']) for k, v in idx.items()]

def functions(idx):
    f = []
    for k, v in idx.items():
        f += ['ti_%s_start' % k, 'ti_' + k]
        if 'ref' in v['features']: f.append('ti_%s_ref' % k)
        if 'stream' in v['features']: f += ['ti_%s_stream_%s' % (k, x) for x in ('new', 'run', 'free')]
    return f

def harness(idx, path):
    with open(path, 'w') as f:
        f.write(HEAD + '\n'.join('{"%s", (void*)%s},' % (x, x) for x in functions(idx)))
        f.write(TAIL % (', '.join('TI_INDICATOR_%s_INDEX' % k.upper() for k in idx), ', '.join('"%s"' % k for k in idx) + ', 0'))

def esc(x):
    return json.dumps(x, ensure_ascii=True)

def c09():
    chk = Check('C09', 'model_checking')
    chk.prepare('asan')
    idx = meta.index()
    harness(idx, chk.work + '/reg.c')
    v = build.VARIANTS['asan']
    build.run([v['cc'], '-std=gnu99'] + v['flags'] + ['-I', chk.src, '-c', chk.work + '/reg.c', '-o', chk.work + '/reg.o'])
    build.run([v['cxx']] + v['flags'] + [chk.work + '/reg.o', chk.work + '/libti-asan.a', '-o', chk.work + '/reg', '-lm'] + v['link'])
    s = chk.tlc('Search')
    if s['rc']: raise engine.CheckError('Search.tla: ' + s['out'][-2000:])
    # queries: made from the names by the specification, and random strings
    with open(chk.work + '/names.json', 'w') as f:
        f.write(esc([codes(k) for k in idx]) + '\n')
    g = chk.tlc('RegQueries', trace=chk.work + '/names.json', workers=1)
    qs = [x['v'] for x in g['report'] if x['kind'] == 'query']
    if g['rc'] or len(qs) < 1000: raise engine.CheckError('RegQueries: ' + g['out'][-2000:])
    qs = [q for q in qs if all(1 <= c <= 255 for c in q)]
    rng = chk.rng
    for _ in range(2000 if chk.quick else 40000):
        q = [rng.choice(range(97, 123)) if rng.random() < .9 else rng.randint(1, 255) for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 9, 40, 300]))]
        qs.append(q)
    with open(chk.work + '/queries', 'w') as f:
        f.write('\n'.join(' '.join(map(str, q)) for q in qs) + '\n')
    p = subprocess.run([chk.work + '/reg', chk.work + '/queries'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, encoding='utf8', errors='replace')
    lines = p.stdout.split('\n')
    if p.returncode or len(lines) < 2:
        chk.violation('registry:fault', 'reading the table ended with %d: %s' % (p.returncode, p.stderr[-800:]), dict(stderr=p.stderr[-3000:], output=p.stdout[-500:]))
        return chk.finish(dict(states=s['states'], transitions=s['generated'], traces_validated_against_impl=0, samples=[p.stdout[:200]]))
    t = json.loads(lines[0])
    ns = {}
    exec(open(build.REPO + '/version.py').read(), ns)
    t['wantversion'] = ns['version']
    with open(chk.work + '/reg.json', 'w') as f:
        f.write(esc(declared(idx)) + '\n' + esc(t) + '\n' + lines[1] + '\n')
    r = chk.tlc("RegTrace", trace=chk.work + "/reg.json", workers=8)
    bad = {}
    for x in r['report']:
        if x['kind'] == 'bad':
            b = x['v']; bad.setdefault(esc(b), b)
    for b in bad.values():
        w = b['what']
        where = bytes(w[0]).decode('latin1') if b['kind'] == 'lookup' else (':'.join(map(str, w[:2])) if isinstance(w, list) else str(w))
        chk.violation('registry:%s:%s' % (b['kind'], where), '%s %s' % (b['kind'], w), dict(b))
    if r['rc'] or (not bad and r['states'] != len(qs) + 1): raise engine.CheckError('RegTrace: ' + r['out'][-3000:])
    return chk.finish(dict(states=r['states'] + s['states'] + g['states'], transitions=r['generated'] + s['generated'], traces_validated_against_impl=len(qs) + len(t['entries']),
                           lookups=len(qs), entries=len(t['entries']), samples=[lines[0][:500], lines[1][:300]]),
                      ['names are C strings; the declarations are those of indicators.yaml, and for the indicators of spec/Catalogue.tla also those of the specification'])
