"""C13-C20: outputs against the definitions, family by family; and judging recorded blocks in general."""
import json, os, re
import engine, gen, meta
from engine import Check
from families import FAMILIES

def plan_values(chk, names, per, bars, events, kinds=None):
    """Block texts for value checking: `per` blocks per indicator."""
    idx, plans, info = meta.index(), [], {}
    rng = chk.rng
    for ind in names:
        m = idx[ind]
        ks = kinds or gen.kinds(ind, m['inputs'])
        off = rng.randrange(len(ks))
        for i in range(per):
            kind = ks[(off + i) % len(ks)]
            n = rng.choice(bars)
            o = gen.options(rng, ind, len(m['options']))
            if i % 5 == 4: o = gen.frac(rng, o)
            s = gen.bars(rng, kind, m['inputs'], n)
            bid = '%s-%d-%s' % (ind, i, kind)
            plans.append(gen.block(bid, ind, o, s, events(rng, ind, m, n)))
            info[bid] = dict(ind=ind, o=o, kind=kind, n=n)
    return plans, info

def run_blocks(chk, plans, module, shallow=False, env=None, jobs=64):
    """Record the plans and let TLC decide every block: (recorded lines, TLC result)."""
    rec = chk.record(plans, env=env, jobs=min(jobs, engine.NCPU))
    path = chk.work + '/trace-%s.json' % module
    with open(path, 'w') as f:
        f.write('\n'.join(rec) + '\n')
    r = chk.tlc(module, trace=path, props=['-Dtind.shallow=true'] if shallow else ())
    blocks = {x['v']['id']: x['v'] for x in r['report'] if x['kind'] == 'block'}
    if r['rc'] != 0 or len(blocks) != len(plans):
        raise RuntimeError('TLC did not decide every block (%d of %d, rc %d)\n%s' % (len(blocks), len(plans), r['rc'], '\n'.join(l for l in r['out'].split('\n') if 'rror' in l)[:3000]))
    chk.last = (r, blocks)
    return rec

def decide(chk, plans, info, rec, kinds):
    """Report the deviations of the wanted kinds (a collection of kinds, or a predicate)."""
    r, blocks = chk.last
    want = kinds if callable(kinds) else (lambda d: d['kind'] in kinds)
    byid = {i: p for i, p in zip([re.match(r'B (\S+)', p).group(1) for p in plans], plans)}
    for bid, v in blocks.items():
        for d in v['bad']:
            if want(d):
                i = info[bid]
                k = '%s:%s:%s:%s' % (d.get('ind', i['ind']), d['op'], d['kind'], ','.join('%g' % x for x in i['o']))
                chk.violation(k, '%s %s' % (bid, d), dict(block=byid[bid], deviation=d))
    return r, blocks

def judge(chk, plans, info, kinds, module='IndTrace', shallow=False):
    rec = run_blocks(chk, plans, module, shallow)
    r, blocks = decide(chk, plans, info, rec, kinds)
    stats = [x for x in r['report'] if x['kind'] == 'stats']
    return r, blocks, (stats[-1] if stats else dict(judged=0, open=0, paired=0, unpaired=0)), rec

def samples(rec, n=3):
    return [l[:600] for l in rec[:: max(1, len(rec) // n)]][:n]

def family(prop):
    import suites
    chk = Check(prop, 'model_checking')
    chk.prepare()
    names = FAMILIES[prop]
    q = chk.quick
    def events(rng, ind, m, n):
        return [['start'], ['batch', n]]
    per = max(16, 700 // len(names)) if q else max(100, 5000 // len(names))
    plans, info = plan_values(chk, names, per, [40, 60, 90] if q else [40, 60, 90, 200, 400], events)
    idx = meta.index()
    for ind in names:       # options around every border
        m = idx[ind]
        if not m['options']: continue
        vs = suites.boundary(chk.rng, ind, gen.options(chk.rng, ind, len(m['options'])))
        chk.rng.shuffle(vs)
        for i, o in enumerate(vs[:max(8, 500 // len(names))] if q else vs):
            n, kind = chk.rng.choice([30, 50]), chk.rng.choice(gen.kinds(ind, m['inputs']))
            bid = '%s-border%d-%s' % (ind, i, kind)
            plans.append(gen.block(bid, ind, o, gen.bars(chk.rng, kind, m['inputs'], n), [['start'], ['batch', n]]))
            info[bid] = dict(ind=ind, o=o, kind=kind, n=n)
    for ind in names:       # long periods
        m = idx[ind]
        for i in range(6 if q else 12):
            if not m['options']: break
            o, kind, n = suites.long_case(chk.rng, ind, m, i)
            bid = '%s-long%d-%s' % (ind, i, kind)
            plans.append(gen.block(bid, ind, o, gen.bars(chk.rng, kind, m['inputs'], n), [['start'], ['batch', n]]))
            info[bid] = dict(ind=ind, o=o, kind=kind, n=n)
        for i in range(2 if q else 6):     # at the end of a history of tens of thousands of bars
            o, kind = gen.options(chk.rng, ind, len(m['options'])), chk.rng.choice(suites.FAR_KINDS)
            n = max(40, int(sum(x for x in o if x >= 1)) + 20)
            bid = '%s-far%d-%s' % (ind, i, kind)
            plans.append(gen.block(bid, ind, o, gen.bars(chk.rng, kind, m['inputs'], n), [['far', 'batch', chk.rng.choice(suites.FAR)]]))
            info[bid] = dict(ind=ind, o=o, kind=kind, n=n)
        for i in range(1 if q else 4):     # histories of thousands of bars
            n, kind = chk.rng.choice([2500, 4500] if q else [3000, 6000, 10000]), chk.rng.choice(suites.LONG_KINDS)
            o = gen.options(chk.rng, ind, len(m['options']))
            bid = '%s-history%d-%s' % (ind, i, kind)
            plans.append(gen.block(bid, ind, o, gen.bars(chk.rng, kind, m['inputs'], n), [['batch', n]]))
            info[bid] = dict(ind=ind, o=o, kind=kind, n=n)
    r, blocks, st, rec = judge(chk, plans, info, ('value', 'count', 'ret', 'fault', 'absent', 'exception', 'hole'))
    return chk.finish(dict(states=r['states'], transitions=r['generated'], traces_validated_against_impl=len(blocks), values_compared=st['judged'], values_left_open=st['open'],
                           indicators=len(names), samples=samples(rec)),
                      ['inputs are finite; options are those the specification accepts', 'rounding differences bounded by the spread of stochastic arithmetic x64 are not violations'])
