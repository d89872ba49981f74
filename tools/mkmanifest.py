#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)['id'] for l in open(HERE + '/../properties.jsonl')]
REPLAY = 'TLC trace checking of recorded executions against a TLA+ specification'
T = {
 'C01': ('TLA+ (TLC): all chunkings enumerated by the model are replayed; recorded outputs are checked against the specification', 'every chunk and batch output of the runs made is compared by TLC under interval arithmetic; series and options are samples, chunkings of 6 units are exhaustive'),
 'C02': ('TLA+ (TLC): exhaustive check of the API model; its behaviours are replayed and the recorded sessions are checked to be behaviours of it', 'the model is explored exhaustively within its bounds; conformance holds for the sessions replayed'),
 'C03': (REPLAY, 'sizes around every boundary for every indicator; guard bytes around every array'),
 'C04': (REPLAY, 'prefix and changed-tail runs compared with the full run by TLC'),
 'C05': ('TLA+ (TLC): simulated behaviours of the API model replayed, sequentially and in threads, and checked against it', 'each call is compared bit by bit with the same call made alone in a fresh process'),
 'C06': (REPLAY, 'the domain of options is specified per indicator; boundary vectors are enumerated for every option and pair of options'),
 'C07': ('TLA+ (TLC): every index of a failing allocation is enumerated on the code and checked against the model', 'every allocation of the calls made is failed in turn; malloc, calloc, realloc and operator new are interposed'),
 'C08': ('TLA+ (TLC): allocation balance of recorded sessions checked against the model', 'allocation balance of every call recorded'),
 'C09': ('TLA+ (TLC): the binary search is checked exhaustively on a model; the table read from the library and thousands of lookups are checked against the specification', 'every entry of the table, and every name with every one-character change of a sample; names of the model are short'),
 'C10': ('TLA+ (TLC): behaviours of the bounded queue enumerated and simulated by TLC are replayed on the buffers', 'small capacities exhaustively, larger ones by simulation; pushed values are small whole numbers, so that sums are exact'),
 'C11': ('TLA+ (TLC): every way of making a call is enumerated by the model and replayed on the binding', 'each shape of call against indicators with the wanted numbers of inputs and options; values compared bit by bit with the C library'),
 'C12': ('TLA+ (TLC): every declaration of one indicator, and simulated indices, are replayed on the generators; generated tables are checked by TLC', 'single declarations exhaustively, larger indices by simulation; generated C is compiled, read back and checked; the bindings of some are called'),
 'C21': ('TLC trace checking of recorded executions against a TLA+ specification (bounds stated independently of the definitions)', 'each recorded output, and the value of the definition itself, is held against its bounds by TLC; series and options are samples'),
 'C23': ('TLC trace checking, against the TLA+ API model, of executions recorded under AddressSanitizer, UBSan and Memcheck: no fault is a behaviour of the model', 'the accesses of the executions made are watched; buffers are exactly as long as the contract says; periods to ten million'),
 'C22': (REPLAY, 'main and reference outputs compared by TLC under interval arithmetic'),
}
for i in range(13, 21):
    T['C%d' % i] = (REPLAY + ' (definitions evaluated by TLC with error bounds)', 'each recorded output is compared with the definition in the specification, evaluated by TLC on the same bars with a rounding-error bound; series and options are samples of the stated space')
exec(open(HERE + '/manifest_more.py').read() if os.path.exists(HERE + '/manifest_more.py') else '')
OFF = {}
exec(open(HERE + '/manifest_off.py').read() if os.path.exists(HERE + '/manifest_off.py') else '')
checks, na = [], []
for p in props:
    if p in T and p not in OFF:
        t, n = T[p]
        checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p, technique=t, level='model_checking', level_note=n))
    else:
        na.append(dict(property=p, reason=OFF.get(p, 'no check built yet')))
with open(HERE + '/../MANIFEST.json', 'w') as f:
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), f, indent=1)
