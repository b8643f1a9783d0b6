#!/usr/bin/env python3
"""The same configuration presented in several ways (spec/Meta.tla)."""
import copy, json, os
import conf, gen, profiles
from gen import World, plain, join, soa

ASPECTS = ['alive', 'spec', 'meta', 'report', 'loops'] + ['rep:' + k for k in conf.KINDS]


def admit(recs, origin):
    """without the records that a zone would refuse"""
    out, seen = [recs[0]], {recs[0]}
    cn = {r[0].lower() for r in recs if r[1] == 'CNAME'}
    one = set()
    for x in recs[1:]:
        n, t, ttl, d = x
        if x in seen or t == 'SOA' or not gen.under(n, origin) or n.lower() == '':
            continue
        if n == origin and t == 'CNAME':
            continue
        if n in cn and n != origin and t != 'CNAME':
            continue
        if t in ('CNAME', 'DNAME'):
            if (n, t) in one:
                continue
            one.add((n, t))
        seen.add(x)
        out.append(x)
    return out


def present(r, zones, top, jobs, what):
    """zones: [(origin, ns, recs, meta origin)] -> scenario fields"""
    zs = copy.deepcopy(zones)          # (zones of one file have their records in one list, before and after)
    js = copy.deepcopy(jobs)
    tops = list(top)
    if 'records' in what:
        for z in zs:
            body = z[2][1:]
            if r.random() < .3:
                body.reverse()
            else:
                r.shuffle(body)
            z[2][1:] = body
    if 'files' in what:
        if r.random() < .3:
            zs.reverse()
        else:
            r.shuffle(zs)
    if 'props' in what:
        for j in js:
            if isinstance(j, dict):
                r.shuffle(j['Properties'])
    if 'jobs' in what:
        r.shuffle(js)
    rc = (lambda s: gen.recase(r, s)) if 'case' in what else (lambda s: s)
    if 'case' in what:
        tops = [rc(t) for t in tops]
        for k, j in enumerate(js):
            if isinstance(j, str):
                js[k] = rc(j)
                continue
            j['Domain'] = rc(j['Domain'])
            for p in j['Properties']:
                if p['PropertyName'] in ('QueryRewrite', 'NameserverContact', 'AllAliases') or \
                        (p['PropertyName'] == 'ResponseValue' and r.random() < .5):
                    p['Value'] = [rc(v) for v in p['Value']]
    out, texts = [], {}
    for i, (o, ns, recs, mo, *same) in enumerate(zs):
        text = ''.join('%s %s IN %s %s\n' % (rc(n), ttl, t, rc(d) if t in ('NS', 'CNAME', 'DNAME', 'PTR', 'MX', 'SRV', 'SOA') else d)
                       for n, t, ttl, d in recs)
        file = 'z%d.txt' % (i + 1)
        if same:                        # one file for several zones
            file, text = texts.setdefault(same[0], (file, text))
        out.append({'file': file, 'text': text, 'ns': rc(ns), 'origin': rc(mo)})
    return dict(top=tops, zones=out, jobs=js)


WAYS = [('records',), ('files',), ('case',), ('props', 'jobs'), ('records', 'files', 'case', 'props', 'jobs'), ('records', 'files')]


def shared(r):
    """one file of relative names that is the zone file of several zones, of one server or of several"""
    recs = [('@', 'SOA', '300', 'ns ad 1 2 3 4 5'), ('@', 'NS', '300', 'ns'), ('ns', 'A', '300', '10.0.0.1')]
    rest = [('a', 'CNAME', '300', 'b'), ('b', 'A', '0', '10.0.0.2'), ('*', 'A', '300', '10.0.0.3'), ('c', 'NS', '300', 'ns.c'), ('ns.c', 'A', '300', '10.0.0.4'),
            ('d', 'DNAME', '300', 'out.u.'), ('e', 'CNAME', '300', r.choice(['b', 'out.u.'])), ('m', 'MX', '300', '5 b'),
            ('x.e', 'TXT', '300', 'q')]
    recs += r.sample(rest, r.randint(2, len(rest)))
    servers = ['ns.a.t.', 'ns.c.t.']
    zs = [['t.', 'ns1.t.', [soa('t.'), ('t.', 'NS', '300', 'ns1.t.'), ('ns1.t.', 'A', '300', '10.0.0.9')], '']]
    origins = r.sample(['a.t.', 'b.t.', 'c.t.', 'd.a.t.'], r.choice([2, 2, 3]))
    for o in origins:
        for s in (servers if r.random() < .3 else [r.choice(['ns.' + o, 'ns.' + o, servers[0]])]):
            zs.append([o, s, recs, o, 'shared'])
        zs[0][2].append((o, 'NS', '300', 'ns.' + o))
        zs[0][2].append(('ns.' + o, 'A', '300', r.choice(['10.0.0.1', '10.0.0.1', '10.0.0.8'])))
    if r.random() < .6:                                 # all by one server
        for z in zs[1:]:
            z[1] = 'ns.' + origins[0]
        for o in origins[1:]:
            zs[0][2].append((o, 'NS', '300', 'ns.' + origins[0]))
    seen, out = set(), []
    for z in zs:
        if (z[0], z[1]) not in seen:
            seen.add((z[0], z[1]))
            out.append(z)
    w = World(r)
    js = []
    for d in ['t.'] + r.sample([join(n, o) for o in origins for n in ('a', 'b', 'd', 'e', 'ns', 'zz')], 2):
        j = w.job(some=4)
        j.update(Domain=d, SubDomain=True)
        js.append(j)
    return out, ['ns1.t.'], js


def config(r, p, i, x):
    c = r.random()
    if c > 0.9:
        return shared(r)
    if c < 0.12:
        s = profiles.overflow('C27', r.random(), i, 1, ('QueryRewrite', 'Hops', 'RewriteBlackholing'))[0]
    elif c < 0.24:
        s = profiles.reuse('C27', r.random(), i, 1, ('AllAliases', 'InfiniteDNameRec', 'QueryRewrite'))[0]
    else:
        s = None
    if s is not None:
        zs = []
        for z in s['zones']:
            recs = []
            for l in z['text'].splitlines():
                n, ttl, _, t, d = l.split(' ', 4)
                recs.append((n, t, ttl, d))
            zs.append([recs[0][0], z['ns'], admit(recs, recs[0][0]), ''])
        return zs, s['top'], s['jobs']
    w = World(r, **r.choice([{}, dict(faults=0.8, replicas=0.7), dict(cname=2.0, dname=1.2, extra=(2, 4)), dict(zero=0.4, wild=0.9)]))
    seen, zs = set(), []
    for z in w.zones:
        if (z['ns'], z['origin']) in seen:
            continue
        seen.add((z['ns'], z['origin']))
        recs = admit(z['recs'], z['origin'])
        # every record states a TTL of its own, so that none is a twin of another but for the TTL
        zs.append([z['origin'], z['ns'], recs, r.choice(['', '', z['origin']])])
    js = []
    for _ in range(r.choice([1, 1, 2, 3])):
        js.append(w.domain() if r.random() < .15 else w.job(some=4))
    return zs, w.tops, js


def batch(seed, i, n):
    out = []
    for x in range(n):
        r = profiles.rnd('meta', seed, i, x)
        zs, tops, js = config(r, 'C27', i, x)
        group = []
        for k, what in enumerate([()] + r.sample(WAYS, 3)):
            s = dict(id='m%d.%d.%d' % (i, x, k), lint=False, queries=[], graphs=False, maxgraphs=0)
            s.update(present(r, zs, tops, js, what))
            s['what'] = list(what)
            group.append(s)
        out.append(group)
    return out


def big(seed, i):
    """many names below one, in several orders"""
    r = profiles.rnd('metabig', seed, i)
    at = r.choice(['t.', 'a.t.'])
    recs = [soa('t.'), ('t.', 'NS', '300', 'ns1.t.'), ('ns1.t.', 'A', '300', '10.0.0.1')]
    recs += [(join('h%d' % j, at), 'A', '0' if j % 50 == 7 else '300', '10.0.1.%d' % (j % 5)) for j in range(r.choice([499, 505]))]
    recs += [(join('x', 'h3.' + at), 'TXT', '300', 'y'), ('d.t.', 'DNAME', '300', 'h3.' + at), (join('*', at), 'A', '300', '10.0.0.9'),
             ('c.t.', 'CNAME', '300', 'h77.' + at)]
    js = [{'Domain': d, 'SubDomain': True, 'Properties': [{'PropertyName': 'ResponseReturned', 'Types': ['A', 'TXT']}, {'PropertyName': 'QueryRewrite', 'Value': ['a.t.']}]}
          for d in ('h3.' + at, 'd.t.', 'h498.' + at, 'nx.' + at, 'c.t.')]
    group = []
    for k, what in enumerate([(), ('records',), ('records', 'case')]):
        s = dict(id='mb%d.%d' % (i, k), lint=False, queries=[], graphs=False, maxgraphs=0, what=list(what))
        s.update(present(r, [['t.', 'ns1.t.', recs, '']], ['ns1.t.'], js, what))
        group.append(s)
    return group


def compare(groups, obs, work, timeout=1500):
    flat = [s for g in groups for s in g]
    sf, of = os.path.join(work, 'mscen.ndjson'), os.path.join(work, 'mobs.ndjson')
    with open(sf, 'w') as f, open(of, 'w') as h:
        n = 0
        for g in groups:
            for s in g:
                f.write(json.dumps(dict(conf.specified(s, ASPECTS), first=n + 1, last=n + len(g))) + '\n')
                h.write(json.dumps(conf.observed(obs[s['id']], s)) + '\n')
            n += len(g)
    rc, out = conf.tlc('Meta.tla', 'Meta.cfg', work, env={'SCENARIOS': sf, 'OBSERVED': of}, timeout=timeout)
    ends = conf.printed(out, '##')
    dead = {e[0] for e in ends if e[1] != 'done'}
    want = {s['id'] for s in flat}
    have = {e[0] for e in ends}
    for g in groups:                # after a dead presentation the rest of its configuration is not looked at
        for k, s in enumerate(g):
            if s['id'] in dead:
                want -= {t['id'] for t in g[k + 1:]}
    if rc != 0 or not want <= have:
        at = out.find('Error:')
        raise conf.MachineryError('TLC: exit %d\n%s' % (rc, out[at:at + 2500] + '\n...\n' + out[-1200:] if at >= 0 else out[-3000:]))
    diffs = conf.printed(out, '@@')
    for d in diffs:
        if d[1] == 'spec':
            raise conf.MachineryError('the specification depends on the presentation: ' + str(d))
    a, b = conf.stats(out)
    return diffs, {'states': b, 'transitions': a, 'ends': ends}


def check(c):
    import build as B
    binary = B.build({'observe'})['observe']
    i, last = 0, 4 if c.tier == 'quick' else 60
    while i < last:
        if i > 0 and c.left() < 10:
            c.notes.append('stopped by the time limit after %d batches' % i)
            break
        groups = batch(c.seed, i, 90) + ([big(c.seed, k) for k in range(2)] if i == 0 else [])
        i += 1
        flat = [s for g in groups for s in g]
        obs = conf.observe(binary, flat, c.work)
        diffs, facts = compare(groups, obs, c.work)
        c.states += facts['states']
        c.transitions += facts['transitions']
        c.evaluations += len(flat)
        c.traces += len(facts['ends'])
        c.counts['configurations'] += len(groups)
        for s in flat:
            c.counts['presentation: ' + ('+'.join(s['what']) or 'as is')] += 1
            o = obs[s['id']]
            if o['jobs'] and isinstance(o['jobs'][-1]['report'], list):
                for v in o['jobs'][-1]['report']:
                    c.counts['reported: ' + str(v.get('Property'))] += 1
        if len(c.samples) < 3:
            c.samples.append([{k: s[k] for k in ('what', 'top', 'jobs')} for s in groups[1][:2]])
        seen = set()
        for d in diffs:
            g = next(g for g in groups if any(s['id'] == d[0] for s in g))
            if g[0]['id'] in seen or len(seen) >= 2:
                continue
            seen.add(g[0]['id'])
            c.violation(d, {'presentations': g, 'differences': [x for x in diffs if any(x[0] == s['id'] for s in g)][:20]})
        if diffs:
            break


def replay(r):
    import build as B, shutil, tempfile
    work = tempfile.mkdtemp(prefix='groot-replay-')
    try:
        g = [r['presentations']]
        diffs, _ = compare(g, conf.observe(B.build({'observe'})['observe'], g[0], work), work)
        for d in diffs:
            print(json.dumps(d))
        print('%d differences' % len(diffs))
        return 1 if diffs else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
