#!/usr/bin/env python3
"""check.py CNN [quick|thorough]      runs the check of one property
check.py --replay FILE             runs the scenario of a reported violation again

Exit 0: the property held on everything explored.  Exit 1: "VIOLATION property=<id> replay=<path>" was printed.
Anything else is a failure of this machinery (exit 2)."""
import collections, hashlib, json, os, shutil, sys, tempfile, time, traceback
import build as B
import conf, profiles

LIMIT = {'quick': 300, 'thorough': 720}


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.violations = []
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.samples, self.counts, self.models, self.notes = [], collections.Counter(), [], []
        self.work = tempfile.mkdtemp(prefix='groot-%s-' % prop)

    def left(self):
        return LIMIT[self.tier] - (time.time() - self.start)

    def violation(self, what, content):
        os.makedirs(B.VERIF + '/replays', exist_ok=True)
        text = json.dumps(dict(content, property=self.prop, what=what), indent=1)
        path = '%s/replays/%s-%s.json' % (B.VERIF, self.prop, hashlib.sha256(text.encode()).hexdigest()[:12])
        with open(path, 'w') as f:
            f.write(text)
        self.violations.append(path)
        print('difference: ' + str(what)[:1500])
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)

    def evidence(self):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'samples': self.samples[:3] or ['(none)'], 'scenarios': self.evaluations, 'counts': dict(self.counts),
               'models': self.models, 'notes': self.notes}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': ['TLC and the JSON community module evaluate the specification faithfully',
                              'the compiler flags of harness and repository build do not change the behaviour'],
              'wall_s': round(time.time() - self.start, 2), 'violations': len(self.violations)}
        os.makedirs(B.VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (B.VERIF, self.prop), 'w') as f:
            json.dump(ev, f, indent=1)

    def done(self):
        self.evidence()
        shutil.rmtree(self.work, ignore_errors=True)
        n = len(self.violations)
        print('%s: %d scenarios, %d TLC states, %d traces, %.0f s: %s' %
              (self.prop, self.evaluations, self.states, self.traces, time.time() - self.start,
               '%d violation(s)' % n if n else 'held'))
        return 1 if n else 0


def aspects_of(p, features):
    main, instead = profiles.ASPECTS[p]
    need = {'C01': {'ZONES'}, 'C02': {'ZONES', 'STATS'}, 'C04': {'LOOKUP'}, 'C05': {'LOOKUP', 'GRAPH'}, 'C06': {'ECS'},
            'C07': {'GRAPH'}, 'C08': {'GRAPH'}}.get(p, set())
    bb = bool(need - set(features))
    return (main + [a for a in instead if a not in main] if bb else main), bb


def size(s):
    return len(json.dumps(s))


def shrink(obsbin, s, aspects, work, deadline):
    """tries to make the scenario of a difference smaller"""
    import copy

    def differs(t):
        try:
            return bool(conf.compare([t], conf.observe(obsbin, [t], work), aspects, work, timeout=60)[0])
        except conf.MachineryError:
            return False
    best = s
    changed = True
    while changed and time.time() < deadline:
        changed = False
        cands = []
        for i in range(len(best['jobs'])):
            if len(best['jobs']) > 1:
                t = copy.deepcopy(best)
                del t['jobs'][i]
                cands.append(t)
        if not best['queries']:
            n = len(best['zones'])
            for lo, hi in ([(0, n // 2), (n // 2, n)] if n > 6 else []) + [(i, i + 1) for i in range(n if n > 1 else 0)]:
                t = copy.deepcopy(best)
                del t['zones'][lo:hi]
                cands.append(t)
        for i, j in enumerate(best['jobs']):
            if isinstance(j, dict) and len(j['Properties']) > 1:
                for k in range(len(j['Properties'])):
                    t = copy.deepcopy(best)
                    del t['jobs'][i]['Properties'][k]
                    cands.append(t)
        for t in cands:
            if time.time() > deadline:
                break
            if differs(t):
                best, changed = t, True
                break
    return best


def conformance(c):
    """scenarios run by groot and by the specification"""
    built = B.build({'observe'})
    aspects, bb = aspects_of(c.prop, built['features'])
    if len(built['features']) < len(B.FEATURES):
        c.notes.append('views of the insides that do not compile: %s' % sorted(set(B.FEATURES) - set(built['features'])))
        print('NOTE: ' + c.notes[-1] + ' ' + built['wberror'][:300].replace('\n', ' '))
    i = 0
    while True:
        if i > 0 and c.left() < 5:
            c.notes.append('stopped by the time limit after %d batches' % i)
            break
        batch = profiles.scenarios(c.prop, c.seed, i, bb, c.tier)
        if not batch:
            break
        i += 1
        obs = conf.observe(built['observe'], batch, c.work)
        diffs, facts = conf.compare(batch, obs, aspects, c.work)
        c.states += facts['states']
        c.transitions += facts['transitions']
        c.evaluations += len(batch)
        c.traces += len(facts['ends'])
        tally(c, batch, obs)
        if len(c.samples) < 3 and not diffs:
            s = batch[len(batch) // 2]
            c.samples.append({'zones': {z['file']: z['text'][:400] for z in s['zones'][:3]}, 'top': s['top'], 'jobs': s['jobs'][:1],
                              'queries': s['queries'][:3], 'end': obs[s['id']]['end']})
        if diffs:
            byid = collections.defaultdict(list)
            for d in diffs:
                byid[d[0]].append(d)
            ids = sorted(byid, key=lambda k: size(next(s for s in batch if s['id'] == k)))
            for k in ids[:2]:
                s = next(s for s in batch if s['id'] == k)
                small = shrink(built['observe'], s, aspects, c.work, time.time() + 40)
                c.violation(byid[k][0], {'scenario': small, 'original': s if small is not s else None, 'aspects': aspects,
                                         'differences': byid[k][:20]})
            break


def tally(c, batch, obs):
    for s in batch:
        o = obs[s['id']]
        c.counts['end ' + o['end']] += 1
        c.counts['zone files'] += len(s['zones'])
        c.counts['lookups'] += len(o.get('lookups', []))
        for z in o.get('zones', []):
            c.counts['records loaded'] += len(z['rrs'])
        for j in o['jobs']:
            c.counts['jobs'] += 1
            c.counts['classes'] += max(0, j.get('count', 0))
            for g in j.get('wb', {}).get('graphs', []):
                c.counts['graphs compared'] += 1
                c.counts['graph nodes'] += len(g['nodes'])
        if o['jobs'] and isinstance(o['jobs'][-1]['report'], list):
            for v in o['jobs'][-1]['report']:
                c.counts['reported: ' + str(v.get('Property'))] += 1
        if isinstance(o.get('lint'), list):
            c.counts['lint entries'] += len(o['lint'])


def replay(path):
    with open(path) as f:
        r = json.load(f)
    import special
    for k, f in special.REPLAYS.items():
        if k in r:
            return f(r)
    if 'scenario' not in r:
        print(json.dumps(r, indent=1)[:4000])
        return 0
    work = tempfile.mkdtemp(prefix='groot-replay-')
    try:
        obs = conf.observe(B.build({'observe'})['observe'], [r['scenario']], work)
        diffs, _ = conf.compare([r['scenario']], obs, r['aspects'], work)
        for d in diffs:
            print(json.dumps(d))
        print('%d differences' % len(diffs))
        return 1 if diffs else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Check(prop, tier if tier in LIMIT else 'quick', seed)
    try:
        import special
        if prop in special.MODELS:
            special.MODELS[prop](c)
        if prop in special.CHECKS:
            special.CHECKS[prop](c)
        else:
            conformance(c)
        return c.done()
    except B.BuildError as e:
        print('BUILD: ' + str(e)[-2500:])
        return 2
    except conf.MachineryError as e:
        print('MACHINERY: ' + str(e)[-4000:])
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
