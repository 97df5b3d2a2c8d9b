"""Decide one property:  check.py <property> [--replay file]

Generates behaviours from the specification, runs the real code of /repo's working tree on them,
validates the recorded traces against the specification with TLC, writes evidence/<id>.json.
"""
import json
import os
import random
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)

import tlc
from judge import judge
from rec import dec


class Ctx:
    """What a property's generator works with."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.rnd = random.Random('%s/%s' % (pid, seed))
        self.cases = []
        self.states = 0
        self.transitions = 0
        self.models = []
        self.notes = []

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def add(self, case):
        self.cases.append(case)

    def model(self, module, cfg, env=None, emit=True, workers=4, timeout=800):
        """Check a model exhaustively; return the behaviours it emits."""
        out, st = tlc.run(module, cfg, env, workers=workers, timeout=timeout)
        if not st['ok']:
            raise tlc.MachineryError('model %s: %s' % (module, out[-3000:]))
        self.states += st['distinct']
        self.transitions += st['generated']
        got = []
        for line in out.splitlines():
            if line.startswith('"CASE '):
                got.append(json.loads(json.loads(line)[5:]))
        got.sort(key=lambda g: json.dumps(g, sort_keys=True))
        self.models.append({'module': module, 'env': env or {}, 'cfg': cfg.split(), 'distinct': st['distinct'],
                            'generated': st['generated'], 'emitted': len(got)})
        if emit and not got:
            raise tlc.MachineryError('model %s emitted nothing' % module)
        return got

    def design(self, *invariants, prop=()):
        """Check properties of the specification itself: sessions over a grid of situations."""
        cfg = 'SPECIFICATION Spec\n' + ''.join('INVARIANT %s\n' % i for i in invariants) + \
              ''.join('PROPERTY %s\n' % i for i in prop)
        for grid, n in self.scale([('small', '2')], [('small', '3'), ('wide', '2')]):
            self.model('ITMDesign', cfg, {'ITM_LEN': n, 'ITM_GRID': grid}, emit=False, workers=8)

    def profiles(self, *invariants, quick='5', thorough='6'):
        """Every profile over three elevations, with the invariants checked on the specification."""
        got = self.model('ITMProfile', 'SPECIFICATION Spec\nINVARIANTS Emit %s\n' % ' '.join(invariants),
                         {'ITM_PTS': self.scale(quick, thorough)}, workers=8)
        return [[float(v) for v in g['z']] for g in got]

    def scenarios(self, name):
        return self.model('ITMScenario', 'SPECIFICATION Spec\nINVARIANT Emit\n', {'ITM_SCEN': name},
                          workers=1)


def show(x):
    """Readable form of encoded numbers."""
    if isinstance(x, list) and len(x) == 2 and all(type(v) is int for v in x):
        return dec(x)
    if isinstance(x, list):
        return [show(v) for v in x]
    if isinstance(x, dict):
        return {k: show(v) for k, v in x.items()}
    return x


def load_known(pid):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    known = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: '):      # known: {"property", "label", "clause", "what"}
                k = json.loads(line[7:])
                if k.get('property') == pid:
                    known.append(k)
    return known


def write_replay(pid, case, fails):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % pid)
    with open(path, 'w') as f:
        json.dump({'property': pid, 'label': case['label'], 'failing': fails,
                   'events': [show(e) for e in case['ev']], 'trace': case}, f, indent=1)
    return path


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED') or '1')
    t0 = time.time()
    import props
    if '--replay' in sys.argv:
        data = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        fails, n, st = judge([data['trace']])
        for f in fails:
            print('event %(ev)d %(op)s: clause %(clause)s fails, specification says %(want)s' % f)
        sys.exit(1 if fails else 0)
    ctx = Ctx(pid, tier, seed)
    try:
        props.PROPS[pid](ctx)
        cases = [c.json() for c in ctx.cases]
        t1 = time.time()
        fails, n, st = judge(cases)
    except tlc.MachineryError as e:
        print('MACHINERY: %s' % e)
        sys.exit(3)
    known = load_known(pid)
    fresh = []
    seen_known = set()
    for f in fails:
        k = [x for x in known if x.get('label') == cases[f['case']]['label']
             and x.get('clause') == f['clause']]
        if k:
            seen_known.add(k[0]['what'])
        else:
            fresh.append(f)
    for w in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    ops = {}
    for c in cases:
        for e in c['ev']:
            for f in e['chk']:
                k = e['op'] + '.' + f
                ops[k] = ops.get(k, 0) + 1
    sample_rnd = random.Random(seed)
    samples = [{'label': cases[i]['label'], 'events': [
        {k: show(e[k]) for k in ('op', 'a', 'chk')} for e in cases[i]['ev'][:4]]}
        for i in sample_rnd.sample(range(len(cases)), min(3, len(cases)))]
    for s in samples:
        for e in s['events']:
            for k, v in e['a'].items():
                if isinstance(v, list) and len(v) > 12:
                    e['a'][k] = v[:12] + ['... %d in all' % len(v)]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': ctx.states + st['distinct'], 'transitions': ctx.transitions + st['generated'] - len(cases),
            'traces_validated_against_impl': len(cases),
            'events_validated': sum(len(c['ev']) for c in cases),
            'clauses_ok': n[0], 'clauses_outside_domain': n[1], 'clauses_failed': n[2],
            'clauses_requested': ops, 'models': ctx.models, 'notes': ctx.notes, 'samples': samples,
        },
        'assumptions': ['IEEE-754 arithmetic of the JVM (StrictMath) agrees with that of CPython/numpy '
                        'to within the stated tolerances',
                        'inputs outside the enumerated classes and seeded picks are not visited'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(fresh),
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if n[0] == 0 and not fails:
        print('MACHINERY: no clause of %s was decided' % pid)
        sys.exit(3)
    if fresh:
        first = min(fresh, key=lambda f: (len(cases[f['case']]['ev']), f['case'], f['ev']))
        mine = [f for f in fresh if f['case'] == first['case']]
        path = write_replay(pid, cases[first['case']], mine)
        by = {}
        for f in fresh:
            by[f['op'] + '.' + f['clause']] = by.get(f['op'] + '.' + f['clause'], 0) + 1
        print('failing clauses: %s in %d of %d traces' % (by, len({f['case'] for f in fresh}), len(cases)))
        print('first: %s event %d %s.%s want %s got %s' % (
            cases[first['case']]['label'], first['ev'], first['op'], first['clause'], first['want'],
            show(cases[first['case']]['ev'][first['ev'] - 1]['o'].get(first['clause'], '-'))))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    print('%s %s: %d traces, %d clauses hold (%d outside the domain), %d states, %.1f s (drive %.1f s)' % (
        pid, tier, len(cases), n[0], n[1], ev['coverage']['states'], time.time() - t0, t1 - t0))
    sys.exit(0)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
