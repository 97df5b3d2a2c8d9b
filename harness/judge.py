"""Judge recorded cases with TLC (spec/ITMTrace.tla), in parallel shards."""
import json
import os
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

import tlc

NEEDS = {
    'loscurve': ('ael', 'ak1', 'ak2'), 'losln': ('ak2',), 'diffline': ('aed', 'emd'),
    'scatline': ('aes', 'ems'), 'scatdx': ('dx',), 'dxfar': ('dlsa', 'dx'), 'heup': ('he',),
    'finite': ('val',), 'kept': ('pfl', 'hgin', 'kst', 'after'), 'nonneg': ('aref', 'dh'), 'fresh': ('fresh', 'aref'),
    'others': ('he', 'dl', 'the', 'dh', 'hg', 'wn', 'ens', 'gme', 'zgnd'),
}
SLIM = {'qlra', 'lrprop', 'qlrpfl', 'avar', 'hzns', 'zlsq1', 'dlthx', 'adiff', 'alos'}
ALSO = {'hzns': ('the', 'dl'), 'zlsq1': ('line',), 'dlthx': ('dh',)}


def slim(case):
    """Keep only the observations some clause looks at (TLC loads JSON slowly)."""
    ev = case['ev']
    need = [set() for _ in ev]
    for k, e in enumerate(ev):
        for f in e['chk']:
            need[k].update(NEEDS.get(f, (f,)))
        need[k].update(ALSO.get(e['op'], ()))
        if e['op'] == 'rel':
            for i in (e['a']['i'], e['a']['j']):
                need[i - 1].update(e['chk'])
        if e['op'] == 'collinear':
            for i in (e['a']['i'], e['a']['j'], e['a']['k']):
                need[i - 1].add('aref')
    out = []
    for k, e in enumerate(ev):
        if e['op'] in SLIM:
            e = dict(e)
            e['o'] = {f: v for f, v in e['o'].items() if f in need[k]} or {'none': []}
        if not e['o']:
            e = dict(e)
            e['o'] = {'none': []}
        if not e['a']:
            e = dict(e)
            e['a'] = {'none': []}
        out.append(e)
    return {'ev': out}


def _shard(args):
    cases, idx, work, k, timeout = args
    path = os.path.join(work, 'trace%d.json' % k)
    with open(path, 'w') as f:
        json.dump([slim(cases[i]) for i in idx], f, separators=(',', ':'))
    out, st = tlc.run('ITMTrace', 'SPECIFICATION Spec\nVIEW View\n', {'ITM_TRACE': path},
                      workers=1, timeout=timeout, heap='2500m')
    os.remove(path)
    if not st['ok']:
        raise tlc.MachineryError('TLC failed on a trace shard:\n' + out[-4000:])
    fails, ends = [], 0
    n = [0, 0, 0]
    for line in out.splitlines():
        if line.startswith('"FAIL ') or line.startswith('"END '):
            tag, _, rest = json.loads(line).partition(' ')
            r = json.loads(rest)
            if tag == 'END':
                ends += 1
                n = [a + b for a, b in zip(n, r['n'])]
            else:
                r['case'] = idx[r['case'] - 1]
                fails.append(r)
    want = sum(len(cases[i]['ev']) + 1 for i in idx)
    if ends != len(idx) or st['distinct'] != want:
        raise tlc.MachineryError('incomplete trace validation: %d of %d cases, %d of %d states' % (
            ends, len(idx), st['distinct'], want))
    return fails, n, st


def judge(cases, shards=8, timeout=840):
    """cases: list of dicts {label, ev}.  Returns (fails, counts, stats)."""
    cases = [c for c in cases]
    assert all(c['ev'] for c in cases)
    tlc.classes()
    total = sum(len(c['ev']) for c in cases)
    shards = max(1, min(shards, len(cases), total // 20 + 1))
    idx = [list(range(k, len(cases), shards)) for k in range(shards)]
    work = tempfile.mkdtemp(prefix='itmjudge.')
    try:
        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(_shard, [(cases, ix, work, k, timeout) for k, ix in enumerate(idx)]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    fails = [f for r in res for f in r[0]]
    n = [sum(r[1][k] for r in res) for k in range(3)]
    st = {k: sum(r[2][k] for r in res) for k in ('generated', 'distinct')}
    return fails, n, st
