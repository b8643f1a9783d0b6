#!/usr/bin/env python3
"""For every property: which scenarios its check runs and what is compared."""
import itertools, random
import gen
from gen import World, Fancy, shelf, syntax_zone, plain, soa, join, under, L60

K = {'C10': 'Hops', 'C11': 'Rewrites', 'C12': 'Query Rewrite', 'C13': 'Name Server Contact', 'C14': 'Rewrite Blackholing',
     'C15': 'DNAME Substitution exceeds length', 'C16': 'Delegation Consistency', 'C17': 'Lame Delegation',
     'C18': 'Structural Delegation Consistency', 'C19': 'ResponseReturned', 'C20': 'Response Value',
     'C21': 'Response Consistency', 'C22': 'Zero TTL', 'C23': 'All Aliases', 'C28': 'Infinite DName Recursion'}
PROP = {'C10': 'Hops', 'C11': 'Rewrites', 'C12': 'QueryRewrite', 'C13': 'NameserverContact', 'C14': 'RewriteBlackholing',
        'C15': 'DNAMESubstitutionCheck', 'C16': 'DelegationConsistency', 'C17': 'LameDelegation',
        'C18': 'StructuralDelegationConsistency', 'C19': 'ResponseReturned', 'C20': 'ResponseValue',
        'C21': 'ResponseConsistency', 'C22': 'ZeroTTL', 'C23': 'AllAliases', 'C28': 'InfiniteDNameRec'}
ALLREP = ['rep:' + k for k in K.values()] + ['report', 'loops']

# what is compared; and what is compared in its stead when groot's insides can not be looked at
ASPECTS = {
    'C01': (['alive', 'abort', 'parsed', 'zones'], ['rep:Response Value', 'rep:Zero TTL']),
    'C02': (['alive', 'abort', 'zones', 'stats'], ['rep:Response Value', 'rep:Zero TTL']),
    'C03': (['alive', 'lint'], []),
    'C04': (['alive', 'lookup'], ALLREP),
    'C05': (['alive', 'lookup', 'graph'], ALLREP),
    'C06': (['alive', 'ecs', 'structure', 'count'], ALLREP),
    'C07': (['alive', 'graph'], ALLREP),
    'C08': (['alive', 'graph', 'rep:Query Rewrite'], ALLREP),
    'C09': (['alive', 'loops', 'report'], []),
    'C24': (['alive', 'ecs', 'structure', 'count'] + ALLREP, []),
}
for _p, _k in K.items():
    ASPECTS[_p] = (['alive', 'report', 'rep:' + _k], [])


def rnd(*key):
    return random.Random(repr(key))


# ------------------------------------------------------------------ worlds with jobs
def world_params(p, r):
    k = {}
    c = r.random()
    if p in ('C08', 'C09', 'C11', 'C12', 'C14', 'C23'):
        k.update(cname=2.0, dname=1.2, extra=(2, 5))
    elif p in ('C16', 'C17', 'C18', 'C05', 'C21'):
        k.update(faults=0.75, replicas=0.6, extra=(0, 3), cname=0.6, dname=0.3)
    elif p in ('C19', 'C20'):
        k.update(extra=(2, 6), replicas=0.5)
    elif p == 'C22':
        k.update(zero=0.4)
    elif p == 'C15':
        k.update(dname=2.0, cname=1.5, long=0.5)
    elif p == 'C28':
        k.update(cname=2.5, dname=2.0, extra=(2, 5))
    elif p == 'C06':
        k.update(dname=1.5, wild=0.8, extra=(2, 6))
    if p in ('C09',) and c < 0.5:
        k.update(faults=0.8)
    if c > 0.9:
        k.update(faults=0.0)
    return k


def worlds(p, seed, i, n, must=(), some=2, sub=None, fancy=0.12, jobs=(1, 1, 1, 2), lint=False, graphs=False):
    out = []
    for x in range(n):
        r = rnd(p, seed, i, x)
        w = World(r, **world_params(p, r))
        js = [w.job(must=must if r.random() < 0.9 else must[:1], some=some, sub=sub) for _ in range(r.choice(jobs))]
        out.append(w.scenario('w%d.%d' % (i, x), js, fancy=fancy, lint=lint, graphs=graphs))
    return out


def boundary(p, seed, i, n, must):
    """names whose rewriting comes close to the maximum length"""
    out = []
    for x in range(n):
        r = rnd('boundary', p, seed, i, x)

        def name_of(total, dom, ch):     # a name below dom with that many octets (dots in the text)
            need = total - len(dom)
            labels = []
            while need > 0:
                k = min(need - 1, r.choice([63, 63, 40, 62]))
                if need - k - 1 == 1:
                    k -= 1
                labels.append(ch * k)
                need -= k + 1
            return ''.join(l + '.' for l in labels) + dom
        total = r.choice([252, 253, 254, 254, 255, 255, 255, 256, 256, 257, 258, 262])
        own = r.choice(['d.t.', 'd.a.t.'])
        tgt_len = r.choice([60, 100, 140, 180, 200])
        target = name_of(tgt_len, r.choice(['t.', 'u.', own if r.random() < .1 else 't.']), 'm')
        pre = total - len(target) + len(own)     # length of a query name below own that is rewritten to total
        recs = [soa('t.'), ('t.', 'NS', '300', 'ns1.t.'), ('ns1.t.', 'A', '300', '10.0.0.1'), (own, 'DNAME', '300', target)]
        if len(own) + 2 <= pre <= 255:
            q = name_of(pre, own, 'q')
            recs.append((r.choice(['c.t.', 'w.t.', '*.w.t.']), 'CNAME', '300', q))
            if r.random() < 0.5:
                recs.append((r.choice(['c2.t.', 'y.w.t.']), 'CNAME', '300', q))
        # the longest label below the DNAME that can be asked for at all
        if r.random() < 0.5:
            rest = 255 - len(target)
            if rest > 2:
                recs.append((name_of(min(255, len(target) + rest), target, 'k') if target.endswith('.t.') else 'k.t.', 'A', '300',
                             '10.0.0.2'))
        zones = [dict(origin='t.', ns='ns1.t.', recs=recs)]
        if r.random() < 0.4:
            zones.append(dict(origin='u.', ns='ns1.u.', recs=[soa('u.'), ('*.u.', 'A', '300', '10.0.0.9')]))
        w = World.__new__(World)
        w.r, w.zones, w.tops = r, zones, ['ns1.t.'] + (['ns1.u.'] if len(zones) > 1 else [])
        w.k = dict(zero=0)
        w.origins, w.names, w.targets, w.pool = ['t.'], ['t.', own, 'c.t.'], [target, 'c.t.'], ['ns1.t.']
        d = r.choice(['t.', 't.', '.', own, 'c.t.', 'w.t.'])
        if w.visits(d, 150) > 150:
            d = 'c.t.'
        props = [w.prop(m) for m in must]
        s = w.scenario('b%d.%d' % (i, x), [{'Domain': d, 'SubDomain': r.random() < 0.8, 'Properties': props}], fancy=0, maxgraphs=30)
        q = rnd('escapes', p, seed, i, x)
        out.append(gen.escaping(q, s) if q.random() < 0.25 else s)
    return out


def copies(p, seed, i, n, must):
    """one cut, with several servers above and below whose copies of the zone differ a little"""
    out = []
    for x in range(n):
        r = rnd('copies', p, seed, i, x)
        pool = r.sample(['ns1.a.t.', 'ns2.a.t.', 'n.s.a.t.', 'ns1.t.', 'ns.b.t.', 'ns.u.'], r.choice([2, 3, 3, 4]))
        data = [('a.t.', 'NS', '300', s) for s in pool] + [(s, 'A', '300', '10.0.0.%d' % (k + 1)) for k, s in enumerate(pool) if s.endswith('t.')]
        if r.random() < .4:
            data.append((pool[0], 'AAAA', '300', 'fd00::1'))

        def copy():
            d = list(data)
            for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                k, c = r.randrange(len(d)), r.random()
                n, t, ttl, v = d[k]
                if c < .35 and len(d) > 1:
                    d.pop(k)
                elif c < .5:
                    d[k] = (n, t, '60', v)
                elif c < .6:
                    d.append((n, t, '60', v))
                elif c < .75 and t in ('A', 'AAAA'):
                    d[k] = (n, t, ttl, '10.0.1.9' if t == 'A' else 'fd00::9')
                elif c < .9:
                    d.append(('a.t.', 'NS', '300', r.choice(['ns9.a.t.', 'ns9.t.', 'ns1.t.', 'ns.gone.', 'ns2.a.t.'])))
                else:
                    d.append((r.choice(pool), r.choice(['A', 'TXT']), '300', '10.0.2.2'))
            r.shuffle(d)
            return d
        zones, tops = [], ['p%d.t.' % (k + 1) for k in range(r.choice([1, 1, 2, 3]))]
        for k, top in enumerate(tops):
            o = '.' if r.random() < .12 else 't.'
            zones.append(dict(origin=o, ns=top, recs=[soa(o), ('t.', 'NS', '300', top), (top, 'A', '300', '10.9.0.1'), ('w.t.', 'CNAME', '300', 'x.a.t.')] +
                              [y for y in copy() if under(o, y[0])]))
        below = r.sample(pool, r.randint(0, len(pool))) if r.random() < .5 else list(pool)
        for k, sv in enumerate(below):
            zones.append(dict(origin='a.t.', ns=r.choice([sv, sv, sv, sv, tops[0]]), recs=[soa('a.t.')] + [y for y in copy() if under('a.t.', y[0])] +
                              [('x.a.t.', 'A', r.choice(['300', '0']), '10.0.3.%d' % r.choice([1, 1, 2]))][:r.choice([0, 1, 1])]))
        seen, uniq = set(), []
        for z in zones:          # a server has one copy of a zone
            if (z['origin'], z['ns']) not in seen:
                seen.add((z['origin'], z['ns']))
                uniq.append(z)
        r.shuffle(uniq)
        w = World.__new__(World)
        w.r, w.zones, w.tops, w.k = r, uniq, tops, dict(zero=0)
        w.origins, w.names, w.targets, w.pool = ['t.', 'a.t.'], ['t.', 'a.t.', 'x.a.t.', 'w.t.'], ['x.a.t.', 'a.t.'], pool
        d = r.choice(['a.t.', 'a.t.', 't.', 'x.a.t.', 'w.t.', '.'])
        if w.visits(d, 150) > 150:
            d = 'a.t.'
        props = [w.prop(m) for m in must]
        out.append(w.scenario('k%d.%d' % (i, x), [{'Domain': d, 'SubDomain': r.random() < 0.7 or must[0].startswith('Struct'), 'Properties': props}], fancy=0.1, maxgraphs=30))
    return out


def overflow(p, seed, i, n, must):
    """two zones in a row and overlong names on one of several ways"""
    out = []
    for x in range(n):
        r = rnd('overflow', p, seed, i, x)
        long = ''.join('%s.' % (c * r.choice([50, 60, 63])) for c in 'mno'[:r.choice([2, 3])])
        a = [soa('t.'), ('t.', 'NS', '300', 'ns1.t.'), ('ns1.t.', 'A', '300', '10.0.0.1'),
             ('a.t.', 'NS', '300', 'ns.a.t.'), ('ns.a.t.', 'A', '300', '10.0.0.2'),
             ('d.t.', 'DNAME', '300', long + r.choice(['a.t.', 't.', 'z.t.']))]
        b = [soa('a.t.'), ('a.t.', 'NS', '300', 'ns.a.t.'), ('ns.a.t.', 'A', '300', '10.0.0.2'),
             ('x.a.t.', 'CNAME', '300', ('k' * r.choice([20, 45, 60]) + '.') * r.choice([1, 2]) + 'd.t.'),
             ('e.a.t.', 'DNAME', '300', 'd.t.'), ('w.a.t.', 'A', '300', '10.0.0.3')]
        if r.random() < 0.5:
            b.append((long + 'a.t.', 'DNAME', '300', long + 'z.t.'))
        w = World.__new__(World)
        w.r, w.tops, w.k = r, ['ns1.t.'], dict(zero=0)
        w.zones = [dict(origin='t.', ns='ns1.t.', recs=a), dict(origin='a.t.', ns='ns.a.t.', recs=b)]
        if r.random() < 0.5:
            b2 = [y for y in b if r.random() < 0.8 or y[1] == 'SOA']
            w.zones.append(dict(origin='a.t.', ns='ns2.a.t.', recs=b2))
            a.append(('a.t.', 'NS', '300', 'ns2.a.t.'))
            a.append(('ns2.a.t.', 'A', '300', '10.0.0.4'))
        w.origins, w.names, w.targets, w.pool = ['t.', 'a.t.'], ['t.', 'a.t.', 'x.a.t.', 'e.a.t.', 'd.t.'], ['x.a.t.'], ['ns1.t.']
        d = r.choice(['t.', '.', 'a.t.', 'x.a.t.', 'e.a.t.', 'f.e.a.t.'])
        if w.visits(d, 150) > 150:
            d = 'x.a.t.'
        s = w.scenario('o%d.%d' % (i, x), [{'Domain': d, 'SubDomain': r.random() < 0.8, 'Properties': [w.prop(m) for m in must]}], fancy=0, maxgraphs=30)
        q = rnd('escapes', p, seed, i, x)
        out.append(gen.escaping(q, s) if q.random() < 0.25 else s)
    return out


def reuse(p, seed, i, n, must):
    """the same rewrite used again further on the way"""
    out = []
    for x in range(n):
        r = rnd('reuse', p, seed, i, x)
        doms = ['d.t.', 'e.t.', 'f.g.t.', 'h.d.t.', 'w.t.'][:r.randint(2, 5)]
        recs = [soa('t.'), ('t.', 'NS', '300', 'ns1.t.'), ('ns1.t.', 'A', '300', '10.0.0.1')]
        w = World.__new__(World)
        w.r, w.tops, w.k, w.dnames = r, ['ns1.t.'], dict(zero=0), []
        leaves = [join(l, d) for d in doms for l in ('a', 'b', 'a.b')]
        for d in doms:
            if r.random() < 0.7:
                t = r.choice([y for y in doms if y != d] + ['a.' + y for y in doms if y != d] + ['u.'])
                if not w.grows(d, t):
                    w.dnames.append((d, t))
                    recs.append((d, 'DNAME', r.choice(['300', '60']), t))
        cut = [d for d, _ in w.dnames]
        if r.random() < 0.6 and cut:      # there, back under the same DNAME at another name, there again
            t = dict(w.dnames)[cut[0]]
            recs.append((join('a', t), 'CNAME', '300', r.choice(['b.', 'c.b.', '']) + cut[0]))
        for y in leaves + ['*.' + d for d in doms]:
            if r.random() < 0.5 and not any(under(y, d) and y != d for d in cut):
                recs.append((y, r.choice(['CNAME', 'CNAME', 'CNAME', 'A']), '300', r.choice(leaves + ['a.b.' + doms[0]])))
                if recs[-1][1] == 'A':
                    recs[-1] = recs[-1][:3] + ('10.0.0.2',)
        way = r.choice([0, 0, 3, 7, 8, 9, 14])
        for k in range(way):      # a long way there
            recs.append(('p%d.t.' % k, 'CNAME', '300', 'p%d.t.' % (k + 1) if k + 1 < way else r.choice(leaves)))
        zones = [dict(origin='t.', ns='ns1.t.', recs=recs)]
        if r.random() < 0.3:      # another server knows some of it otherwise
            other = recs[:3] + [y for y in recs[3:] if r.random() < 0.7]
            zones.append(dict(origin='t.', ns='ns2.t.', recs=other))
            w.tops.append('ns2.t.')
        w.zones, w.origins, w.names, w.targets, w.pool = zones, ['t.'], ['t.'] + leaves, leaves, ['ns1.t.']
        d = r.choice(['t.', '.'] + leaves + doms) if not way or r.random() < .3 else 'p0.t.'
        if w.visits(d, 100) > 100:
            d = r.choice(leaves)
        out.append(w.scenario('u%d.%d' % (i, x), [{'Domain': d, 'SubDomain': w.visits(d, 100) <= 100,
                                                   'Properties': [w.prop(m) for m in must]}], fancy=0, maxgraphs=30))
    return out


def forks(p, seed, i, n, must):
    """servers whose copies of a zone know different DNAMEs (and other things) at one name"""
    out = []
    for x in range(n):
        r = rnd('forks', p, seed, i, x)
        owner = r.choice(['d.t.', 'd.t.', 'b.d.t.'])
        goals = r.sample(['e.t.', 'f.t.', 'h.g.t.', 'v.u.', 'u.'], r.choice([2, 2, 3]))
        below = ['x', 'y', 'z.x', '*', '*.x', 'b.d', 'z.y', 'k.z.x']
        zones, w = [], World.__new__(World)
        for k, g in enumerate(goals):
            recs = [soa('t.'), ('t.', 'NS', '300', 'ns%d.t.' % (k + 1)), ('ns%d.t.' % (k + 1), 'A', '300', '10.0.0.1')]
            if r.random() < .92:
                recs.append((owner, 'DNAME', '300', g))
            if r.random() < .25:
                recs.append(('x.' + owner if r.random() < .5 else 'x.d.t.', r.choice(['A', 'TXT', 'DNAME']), '300', '10.0.0.3'))
                if recs[-1][1] == 'DNAME':
                    recs[-1] = recs[-1][:3] + (r.choice(goals),)
            for h in goals:
                if under(h, 't.'):
                    for b in r.sample(below, r.randint(0, 3)):
                        c = r.choice(['A', 'A', 'TXT', 'CNAME', 'NS'])
                        if '*' in b and c == 'NS':
                            c = 'A'
                        recs.append((join(b, h), c, '300', {'A': '10.0.0.%d' % r.randint(1, 3), 'TXT': 'x', 'CNAME': 'y.' + r.choice(goals), 'NS': 'ns.u.'}[c]))
            if r.random() < .4:
                recs.append(('c.t.', 'CNAME', '300', r.choice(['x.', 'z.x.', 'y.']) + owner))
            body = recs[1:]
            r.shuffle(body)
            zones.append(dict(origin='t.', ns='ns%d.t.' % (k + 1), recs=recs[:1] + body))
        recs = [soa('u.')] + [(join(b, h), r.choice(['A', 'TXT']), '300', '10.0.0.4') for h in ('u.', 'v.u.') for b in r.sample(below, r.randint(0, 2))]
        if r.random() < .6:
            zones.append(dict(origin='u.', ns='ns1.u.', recs=recs))
        w.r, w.k, w.zones = r, dict(zero=0), zones
        w.dnames, ok = [], True
        for z in zones:
            for a, t, _, b in z['recs']:
                if t == 'DNAME':
                    ok = ok and not w.grows(a, b)
                    w.dnames.append((a, b))
        if not ok:
            continue
        w.tops = [z['ns'] for z in zones if z['origin'] == 't.' or r.random() < .5]
        r.shuffle(w.tops)
        w.origins, w.pool = ['t.', 'u.'], w.tops
        w.names = ['t.', owner, 'x.' + owner, 'y.' + owner, 'z.x.' + owner, 'c.t.']
        w.targets = ['x.' + g for g in goals] + goals
        js = []
        for _ in range(r.choice([1, 2])):
            d = r.choice(['x.', 'x.', 'y.', 'z.x.', 'k.z.x.', 'nx.', '', 'b.d.']) + owner if r.random() < .8 else r.choice(['t.', 'd.t.', 'c.t.', '.'])
            big = w.visits(d, 100) > 100
            js.append({'Domain': d, 'SubDomain': not big and r.random() < .8, 'Properties': [w.prop(m) for m in must]})
        out.append(w.scenario('f%d.%d' % (i, x), js, fancy=0, maxgraphs=40))
    return out


# ------------------------------------------------------------------ reading of zone files
def grammar():
    """every combination of the ways to write one record"""
    out = []
    for owner, mid, rdata, tail, eol in itertools.product(
            ['w.t.', 'w', '@', '', 'W.T.'],
            ['IN 60 A', '60 IN A', 'IN A', '60 A', 'A', 'in a', 'ch 60 a'],
            ['10.0.0.9', '( 10.0.0.9 )', '(\n 10.0.0.9\n)', '10.0.0.9 ; (c'],
            ['', ' ', '\t;'], ['\n', '\r\n', None]):
        for head in ['t. 300 IN SOA ns.t. ad.t. 1 2 3 4 5\n']:
            text = head + 'v.t. 300 IN A 10.0.0.1\n' + owner + ' ' + mid + ' ' + rdata + tail
            if eol is None:
                pass
            else:
                text = (text + '\nz 300 IN NS z\n').replace('\n', eol)
            out.append(text)
    return out


BROKEN = ['w 300 IN\n', 'w.t. 300 IN BOGUS 1 2 3\n', 'w.t. 300 XX A 10.0.0.7\n', 'w.t. IN 300 60 A 10.0.0.7\n',
          'w.t. 300 IN HINFO "a" "b"\n', 'w\n', '   \t\n', 'v.t. (\n 300 IN ( A 10.0.0.8 ) )\n', '( ) ( )\n', '\n\n\n', '"x" 300 IN A 1\n',
          'w.t. 300 IN A 10.0.0.7 )\n', 'y.t. 60 IN TXT "a\nb"\n', 'y.t. 60 IN TXT "open\n', 'y.t. 60 IN TXT "a" ; "b\n',
          'y.t. 60 IN TXT ( "a" ; ) \n "b" )\n', '$TTL 900\n', '$ORIGIN q.t.\n', '$ORIGIN q\n', '$ORIGIN\n', '$TTL\n', '$INCLUDE f\n',
          ' 60 IN A 10.0.0.6\n', ' IN A 10.0.0.5\n', ' A 10.0.0.4\n', '\tAAAA ::1\n', '@ 60 A 10.0.0.3\n', 'in 60 in a 10.0.0.2\n',
          'a 60 IN A 10.0.0.1\n', 'mx 60 MX 10 mx\n', 'mx.t. MX 10 @\n', 'c CNAME c2\n', '*.t. 60 TXT x\n', 'y 60 IN SRV 0 5 80 y\n',
          'w 2147483647 A 10.0.0.1\n', 'w 2147483648 A 10.0.0.1\n', 'w 4294967295 IN A 10.0.0.1\n', 'w 99999999999999999999 A 10.0.0.1\n',
          'w -5 A 10.0.0.1\n', 'w +5 A 10.0.0.1\n', 'w 1h A 10.0.0.1\n', 'w 0x5 A 10.0.0.1\n', 'w 0000000000000007 A 10.0.0.1\n',
          '$TTL many\n', '$TTL 1h\n', '$TTL -1\n', '$TTL 2147483648\n', '$TTL 99999999999999999999\n', '$TTL 0000000000000008\n', '$TTL 7 8\n',
          'w 77 IN CAA 0 issue "a"\n', 'w IN 78 TYPE99 x\n', 'w 79 HS A 10.0.0.1\n', 'w 80 IN 81 CH 82 A 10.0.0.1\n', 'w 83 84\n', 'w 85 -1 A 10.0.0.1\n',
          'w 60 IN A\n', 'w 61 CNAME ; x\n', 'w SOA\n', 'w 62 IN TXT (\n)\n', 'w IN MX\n', '$Origin q.t.\n', '$ttl 9\n', '$include f\n', '$oRiGiN\n', '$ttl\n', ' $TTL 6\n', 'w $TTL A\n',
          '; x\n', 'y.t. 60 IN TXT \\(a b\n', 'y 60 TXT \\(\n', 'y 60 TXT a\\;b c\\) ; x\n', 'a\\\\.b 60 A 10.0.0.1\n', 'a\\. 60 A 10.0.0.1\n',
          'y 60 NS n\\.\n', 'y 60 TXT a\\ b\n', 'y TXT \\"a b\\" "c\\\\"\n', 'y TXT a\\\\;b\n', '\\@ A 10.0.0.1\n', 'y PTR \\@\n', '\\032\\  A 10.0.0.1\n', 'y MX 1 a\\\\.\n', '$ORIGIN a\\.\n', 'a\\.b 60 IN A 10.0.0.1\n', 'w (\n60\nIN\nA\n10.0.0.1\n)\n', '60 60 IN A 10.0.0.8\n',
          'ns 60 IN NS ns ; y\n', 'T. 60 IN PTR p\n', 'y 60 IN PTR @\n', 'y SRV 1 2 3 @\n', 't. 60 IN SOA n a 1 2 3 4 5\n', 't. SOA @ a.b ( 1 2\n3 4 5 )\n', 't. 60 SOA n a\n', 'T. 60 IN SPF "v"\n', 'n 60 IN NSEC n.t. A\n', '\r\n', 'w 60 IN A 10.0.0.1 (\n)\n']


# other ways to begin
HEADS = ['@ %s\n', ' %s\n', '@ 60 %s\n', 't %s\n', 'T. %s\n', '. %s\n', '$ORIGIN t\n@ %s\n', '$ORIGIN .\nt %s\n', '$ORIGIN @\n@ %s\n', '@ ( %s )\n', 'soa %s\n',
         'v 60 %s\n', '\n \n\tT %s\n', '$TTL 5\n$ORIGIN T.\n %s\n', '$ORIGIN u.\n@ %s\n$ORIGIN t.\n']
HEADS = [h % 'IN SOA ns.t. ad.t. 1 2 3 4 5' for h in HEADS]


def lengthy(r):
    """lines with a lot of something"""
    n = r.choice([9, 17, 33, 40, 65, 66, 100, 130, 257])
    m = min(n, 70)
    w = lambda: r.choice(['a', 'bc', '"d e"', '""', 'f\\;', '"; ("', '10.0.0.1', 'TXT', 'IN'])
    k = r.randrange(9)
    if k <= 1:
        return 'l 60 IN %s %s\n' % (r.choice(['TXT', 'TXT', 'SPF', 'NSEC', 'RRSIG']), ' '.join(w() for _ in range(n)))
    if k == 2:
        return 'l 60 IN TXT (%s\n)\n' % ''.join('\n  ' + w() + r.choice(['', ' ; c', ' )(']) for _ in range(m))
    if k == 3:
        return 'l 60 IN TXT "%s"\n' % ''.join(r.choice('abc ;()') for _ in range(4 * n))
    if k == 4:
        return ''.join(r.choice([';%d\n' % j, '\n', '  \n', ' ; x\n']) for j in range(m)) + r.choice(['', 'l', 'm']) + ' A 10.0.0.1\n'
    if k == 5:
        return ''.join(r.choice(['$ORIGIN %s\n' % r.choice(['t.', 'o%d.t.' % j]), '$TTL %d\n' % j]) for j in range(m)) + 'l A 10.0.0.1\n'
    if k == 6:
        return 'l 60 A 10.0.0.0\n' + ''.join(' %d A 10.0.0.%d\n' % (60 + j % 2, j) for j in range(1, m))
    if k == 7:
        return '.'.join(['l'] * m) + r.choice(['', '.t.']) + ' 60 A 10.0.0.1\nl CNAME ' + '.'.join(['m'] * m) + r.choice(['', '.t.']) + '\n'
    return 'l%s60%sA%s10.0.0.1%s\n' % tuple(r.choice([' ', '\t']) * r.choice([1, n]) for _ in range(4))


def syntax(seed, i, n, bb):
    out = []
    for x in range(n):
        r = rnd('syntax', seed, i, x)
        texts, origins = [], {}
        for k in range(8):
            if r.random() < 0.45:
                o, recs = syntax_zone(r)
                meta = r.choice(['', '', o, o.rstrip('.'), o.upper(), gen.parent(o)])
                texts.append(Fancy(r, meta if meta.endswith('.') and meta == o else '').text(recs))
                origins[k] = meta if meta.endswith('.') and meta == o else ('' if r.random() < .8 else o)
            else:
                t = r.choice(['', '', '$TTL 600\n', '$ORIGIN t.\n', '; c\n\n'])
                if r.random() < .15:
                    t += r.choice(HEADS)
                if r.random() < .9:
                    t += 't. 300 IN SOA ns.t. ad.t. 1 2 3 4 5\n'
                elif r.random() < .8:
                    t += r.choice(HEADS) + r.choice(HEADS)
                for _ in range(r.randint(2, 7)):
                    t += r.choice(BROKEN)
                if r.random() < .25:
                    t += lengthy(r)
                t += r.choice(['z.t. 60 IN A 10.0.0.99\n', 'z.t. 60 IN A 10.0.0.99', ' 60 IN A 10.0.0.99', ''])
                if r.random() < .2:
                    t = t.replace('\n', '\r\n')
                texts.append(t)
                origins[k] = r.choice(['', '', 't.', 'T', 'o.t.', '.'])
        out.append(shelf('s%d.%d' % (i, x), texts, origins=origins, jobs=reveal(bb)))
    return out


def reveal(bb, domain='.'):
    return [gen.reveal_job(gen.TYPES, domain)] if bb else []


def packed(prefix, texts, per, bb=False, **k):
    return [shelf('%s%d' % (prefix, j), texts[j:j + per], jobs=reveal(bb), **k) for j in range(0, len(texts), per)]


# ------------------------------------------------------------------ admission
def admission_alphabet():
    return ['a.t. 300 IN A 10.0.0.1', 'a.t. 300 IN A 10.0.0.2', 'a.t. 60 IN A 10.0.0.1', 'a.t. 300 IN AAAA fd00::1',
            'a.t. 300 IN CNAME b.t.', 'a.t. 60 IN CNAME b.t.', 'a.t. 300 IN CNAME c.t.', 'a.t. 300 IN DNAME b.t.',
            'a.t. 60 IN DNAME b.t.', 'a.t. 300 IN DNAME c.t.', 'a.t. 300 IN NS n.t.', 'a.t. 300 IN RRSIG x', 'a.t. 300 IN NSEC x a',
            'a.u. 300 IN A 10.0.0.1', 'at. 300 IN A 10.0.0.1', 'b.a.t. 300 IN A 10.0.0.1', 'A.T. 300 IN A 10.0.0.1', 'a.t. 300 IN TXT q',
            'a.t. 300 IN DS 1 2 3 f']


def admission_exhaustive(length):
    head = 't. 300 IN SOA ns.t. ad.t. 1 2 3 4 5\n'
    return [head + '\n'.join(c) + '\n' for c in itertools.product(admission_alphabet(), repeat=length)]


DATA = {'A': '10.0.0.1', 'AAAA': 'fd00::1', 'NS': 'n.t.', 'CNAME': 'b.t.', 'DNAME': 'b.t.', 'PTR': 'p.t.', 'MX': '10 m.t.', 'TXT': 'x',
        'SRV': '0 5 80 s.t.', 'RRSIG': 'sig', 'NSEC': 'x a', 'SPF': 'spf', 'SOA': 'ns.t. ad.t. 1 2 3 4 5', 'DS': '1 2 3 f'}


def admission_pairs():
    """every type next to every type, in and out of the zone, once and again"""
    head = 't. 300 IN SOA ns.t. ad.t. 1 2 3 4 5\n'
    here = ['a.t. 300 IN %s %s\n' % x for x in DATA.items()]
    again = ['a.t. 60 IN %s %s\n' % x for x in DATA.items()] + ['a.t. 300 IN %s %s\n' % (t, d.replace('t.', 'q.') if t != 'A' else '10.0.0.2')
                                                              for t, d in DATA.items()]
    away = ['%s 300 IN %s %s\n' % ((n,) + x) for n in ('a.u.', 'xt.', 'a.xt.', '.', 'a.t.u.') for x in DATA.items()]
    apex = ['t. 300 IN %s %s\n' % x for x in DATA.items()] + ['*.t. 300 IN %s %s\n' % x for x in DATA.items()]
    out = [head + x + y for x in here for y in here] + [head + x + y for x in here for y in again]
    return out + [head + x + here[0] for x in away] + [head + x + y for x in apex for y in (apex[0], apex[-1], x)]


def admission_random(r):
    out = 't. %s IN SOA ns.t. ad.t. 1 2 3 4 5\n' % r.choice(['300', '0'])
    for _ in range(r.randint(4, 12)):
        t = r.choice(list(DATA) + ['CNAME', 'DNAME', 'A', 'NS'])
        d = DATA[t]
        if r.random() < .4:
            d = {'A': '10.0.0.%d' % r.randint(1, 3), 'NS': 'ns.a.t.', 'CNAME': r.choice(['a.t.', 'c.u.', 't.']), 'DNAME': r.choice(['u.', 'a.t.']),
                 'TXT': '"y z"'}.get(t, d)
        n = r.choice(['a.t.', 'a.t.', 'a.t.', 't.', 'b.a.t.', '*.t.', '*.a.t.', 'c.t.', 'A.T.', 'a.u.', 'xt.', '.'])
        if t == 'DNAME' and n == '.':
            continue
        out += '%s %s IN %s %s\n' % (n, r.choice(['300', '300', '60', '0']), t, d)
    return out


def admission_wide(r):
    """many names side by side, then records of some of them and of new ones"""
    at = r.choice(['t.', 'w.t.'])
    old = ['h%d.%s' % (j, at) for j in range(r.choice([498, 500, 501, 505, 530]))]
    new = ['k%d.%s' % (j, at) for j in range(8)]
    out = 't. 300 IN SOA ns.t. ad.t. 1 2 3 4 5\n' + ''.join('%s 300 IN %s\n' % (n, r.choice(['A 10.0.0.1', 'TXT x'])) for n in old)
    some = r.sample(old, 6) + old[:2] + old[-2:] + new
    some += ['b.' + n for n in r.sample(some, 6)] + ['*.' + at, at, 't.']
    for _ in range(90):
        t = r.choice(['A', 'A', 'TXT', 'NS', 'CNAME', 'DNAME', 'MX', 'RRSIG', 'NSEC', 'SOA', 'DS'])
        d = {'A': '10.0.0.%d' % r.randint(1, 2), 'NS': r.choice(some).replace('*', 'x'), 'CNAME': r.choice(['a.t.', 'c.u.'])}.get(t, DATA[t])
        out += '%s %s IN %s %s\n' % (r.choice(some), r.choice(['300', '300', '300', '60']), t, d)
    return out


def lengths(r):
    """records whose owner or target is just about too long"""
    def mk(total, dom):
        need, labels = total - len(dom), []
        while need > 0:
            k = min(need - 1, r.choice([63, 63, 61, 30]))
            if need - k - 1 == 1:
                k -= 1
            labels.append('l' * k)
            need -= k + 1
        return ''.join(x + '.' for x in labels) + dom
    out = 't. 300 IN SOA ns.t. ad.t. 1 2 3 4 5\n'
    for _ in range(r.randint(2, 6)):
        n = mk(r.choice([200, 253, 254, 255, 255, 256, 257, 300]), 't.')
        c = r.random()
        if c < 0.4:
            out += n + ' 300 IN A 10.0.0.1\n'
        elif c < 0.8:
            out += '%s.t. 300 IN %s %s\n' % (r.choice('abcd'), r.choice(['NS', 'CNAME', 'DNAME', 'PTR', 'MX 5', 'TXT']), n)
        else:
            lab = 'k' * r.choice([62, 63, 63, 64, 64, 65, 70])
            out += (lab + '.t. 300 IN A 10.0.0.2\n') if r.random() < 0.5 else ('a.t. 300 IN NS x.%s.t.\n' % lab)
    return gen.escaping(r, out) if r.random() < 0.3 else out


# ------------------------------------------------------------------ look-up
def zoo(r, big=False):
    """one zone with all kinds of names, and queries about it"""
    o = r.choice(['t.', 't.', 'a.t.', '.', 'x.y.z.'])
    alpha = ['a', 'b', '*'] if r.random() < 0.8 else ['a', 'aa', '*', 'a\\.b']
    names = [o]
    for _ in range(r.randint(3, 9)):
        p = r.choice(names)
        if len(p) < 26:
            names.append(join(r.choice(alpha), p))
    recs = [soa(o)]
    for n in names:
        if r.random() < 0.25 and n != o:
            continue            # perhaps an empty non-terminal
        for _ in range(r.randint(1, 3)):
            t = r.choice(['A', 'A', 'AAAA', 'TXT', 'CNAME', 'DNAME', 'NS', 'NS', 'MX', 'PTR', 'DS'])
            if (n == '.' and t == 'DNAME') or (n == o and t == 'CNAME'):
                continue
            recs.append((n, t, r.choice(['300', '0', '60']), gen.rdata_for(r, t, names + ['out.u.', join('ns', o)])))
    if r.random() < 0.7:
        recs.append((join('ns', o), 'A', '300', '10.0.0.7'))
    if big:
        at = r.choice([n for n in names if '*' not in n])
        if r.random() < 0.85:       # mostly in view
            recs = [x for x in recs if x[1] not in ('NS', 'DNAME') or not under(at, x[0])]
        if True:
            sibs = [join('%s%d' % (r.choice('hg'), j), at) for j in range(r.choice([499, 500, 501, 502, 505, 530, 600, 600]))]
            fat, special = [], []
            for n in sibs:
                if r.random() < 0.3:       # all kinds of things at and below one of many siblings
                    special.append(n)
                    m = join('b', n)
                    for x in [n] * r.choice([0, 1, 1, 1, 2]) + [y for y in (m, join('*', n), join('c', m), join('*', m)) if r.random() < 0.3]:
                        t = r.choice(['A', 'TXT', 'NS', 'NS', 'DNAME', 'CNAME', 'AAAA'])
                        fat.append((x, t, '300', gen.rdata_for(r, t, [r.choice(sibs), 'out.u.', m])))
                    if not any(under(f[0], n) for f in fat[-8:]):
                        fat.append((n, 'A', '300', '10.0.1.1'))
                else:
                    fat.append((n, r.choice(['A', 'A', 'TXT']), '300', '10.0.1.%d' % r.randint(1, 7)))
            recs = recs[:1] + (fat + recs[1:] if r.random() < .5 else recs[1:] + fat) + [(join('*', at), 'A', '300', '10.0.0.8')][:r.randint(0, 1)]
            names += special + r.sample(sibs, 4) + [sibs[0], sibs[-1], join('h9999', at)]
            names += [join('b', x) for x in special] + [join('z', x) for x in r.sample(special, 20)]
    return o, recs, names


def zoo_queries(r, zid, o, names, n):
    out = []
    for _ in range(n):
        q = r.choice(names)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            q = join(r.choice(['a', 'b', 'x', '*', 'ns']), q)
        if len(q) > 250:
            continue
        ts = r.choice([['A'], ['NS'], ['CNAME'], ['A', 'NS'], ['A', 'CNAME'], ['A', 'AAAA', 'TXT', 'NS', 'MX'], gen.TYPES, ['DNAME'],
                       ['SOA', 'TXT'], ['AAAA', 'PTR']])
        out.append([zid, q, ts, r.random() < 0.25])
    return out


def zoos(p, seed, i, n, bb, big=False, queries=14):
    out = []
    for x in range(n):
        r = rnd('zoo', p, seed, i, x, big)
        texts, qs = [], []
        for k in range(1 if big else 6):
            o, recs, names = zoo(r, big)
            if p == 'C05':
                recs += [(m, 'NS', '300', r.choice([join('ns', m), join('ns', o), 'ns.u.'])) for m in r.sample(names, min(2, len(names)))]
                recs += [(join('ns', m), r.choice(['A', 'AAAA']), '300', '10.0.3.3') for m in r.sample(names, min(2, len(names)))]
                if r.random() < .3:         # a lot of servers
                    m = r.choice(names)
                    ss = [join('n%d' % j, r.choice([m, o])) for j in range(r.randint(5, 18))]
                    recs += [(m, 'NS', '300', s) for s in ss]
                    recs += [(s, r.choice(['A', 'A', 'AAAA']), '300', '10.0.4.%d' % j) for j, s in enumerate(ss) if r.random() < .9]
            body = recs[1:]
            if not big and r.random() < .4:
                r.shuffle(body)
            texts.append(plain(recs[:1] + body))
            qs += zoo_queries(r, k + 1, o, names, queries if not big else 400)
        s = shelf(('big' if big else 'z') + '%d.%d' % (i, x), texts, queries=qs)
        out.append(s)
    if bb and not big:
        out += worlds(p, seed, i, n, must=('ResponseValue', 'ResponseReturned', 'LameDelegation', 'NameserverContact'), sub=True)
    return out


def lookup_exhaustive(k):
    """all zones of at most k records over a small universe, with all queries"""
    head = 't. 300 IN SOA ns.t. ad.t. 1 2 3 4 5\n'
    uni = []
    for n in ['a.t.', '*.t.', 'b.a.t.', '*.a.t.', 'c.b.a.t.']:
        for t, d in [('A', '10.0.0.1'), ('CNAME', 'x.u.'), ('DNAME', 'y.u.'), ('NS', 'b.a.t.')]:
            uni.append('%s 300 IN %s %s\n' % (n, t, d))
    uni.append('t. 300 IN DNAME y.u.\n')
    uni.append('t. 300 IN NS a.t.\n')
    zones = [head + ''.join(c) for j in range(k + 1) for c in itertools.combinations(uni, j)]
    queries = [(q, ts, x) for q in ['t.', 'a.t.', 'x.t.', 'b.a.t.', 'x.a.t.', 'c.b.a.t.', 'x.b.a.t.', '*.t.', 'a.x.t.'] for ts in
               (['A'], ['NS', 'A', 'CNAME']) for x in ((False, True) if q in ('t.', 'a.t.', 'b.a.t.') else (False,))]
    return zones, queries


def lookup_batches(zones, queries, per=40):
    out = []
    for j in range(0, len(zones), per):
        part = zones[j:j + per]
        out.append(shelf('x%d' % j, part, queries=[[k + 1, q, list(ts), x] for k in range(len(part)) for q, ts, x in queries]))
    return out


# ------------------------------------------------------------------ query classes
def classes(p, seed, i, n, big=False):
    out = []
    for x in range(n):
        r = rnd('classes', p, seed, i, x)
        if big:
            at = r.choice(['t.', 'a.t.'])
            fat = [(join('h%d' % j, at), 'A', '300', '10.0.1.1') for j in range(r.choice([502, 520]))]
            recs = [soa('t.')] + fat + [('a.t.', 'TXT', '300', 'x'), ('q.h3.' + at, 'A', '300', '10.0.0.1'),
                                        ('d.t.', 'DNAME', '300', 'h5.' + at), (r.choice(['z.' + at, '*.' + at]), 'A', '300', '10.0.0.2')]
            late = ['%s.k%d.%s' % (r.choice(['q', 'p', 'p.q', 'q.q', '*']), r.randint(0, 3), at) for _ in range(8)] + ['k%d.%s' % (j, at) for j in range(4)]
            late = r.sample(late, r.randint(4, 12))
            recs += [(n, 'A', '300', '10.0.0.%d' % r.randint(1, 3)) for n in late]
            if r.random() < .5:
                recs += [('e.t.', 'DNAME', '300', r.choice(late + ['s.k1.' + at]).replace('*', 'x')), ('q.k1.' + at, 'TXT', '300', 'x')]
            w = World.__new__(World)
            w.r, w.zones, w.tops, w.k = r, [dict(origin='t.', ns='ns1.t.', recs=recs)], ['ns1.t.'], dict(zero=0)
            js = [{'Domain': d, 'SubDomain': True, 'Properties': [{'PropertyName': 'ResponseReturned', 'Types': ['A']}]}
                  for d in r.sample(['k%d.%s' % (j, at) for j in range(4)] + ['q.k0.' + at, 'q.k1.' + at, 'e.t.', 'p.e.t.'], 4)]
            js += [{'Domain': d, 'SubDomain': r.random() < 0.8, 'Properties': [{'PropertyName': 'ResponseReturned', 'Types': ['A']}]}
                  for d in r.sample(['h3.' + at, 'h501.' + at, 'h999.' + at, 'd.t.', 'x.d.t.', 'q.h3.' + at, 'z.' + at, 'q.d.t.', 'h0.' + at], 4)]
            out.append(w.scenario('c%d.%d' % (i, x), js, fancy=0, graphs=False))
            continue
        w = World(r, **world_params('C06', r))
        js = []
        for _ in range(6):
            j = w.job(some=2)
            if r.random() < 0.4:
                base = r.choice([n for n in w.names] + [n for n, t, _, d in (y for z in w.zones for y in z['recs']) if t == 'DNAME'])
                j['Domain'] = r.choice(['', 'x.', 'a.', 'x.y.', 'www.']) + base.replace('*.', '')
            if r.random() < 0.05:
                j['Domain'] = r.choice(['l' * 64 + '.t.', (('l' * 62) + '.') * 4 + 'abcdef.'])
            js.append(j)
        out.append(w.scenario('c%d.%d' % (i, x), js, fancy=0.05, graphs=False))
    return out


def longnames(p, seed, i, n):
    """names and domains of jobs close to the maximum length, on straight ways and through DNAMEs"""
    out = []
    for x in range(n):
        r = rnd('longnames', p, seed, i, x)

        def upto(total, dom, ch):        # a name below dom of that length
            ls, need = [], total - len(dom)
            while need > 1:
                k = min(need - 1, r.choice([63, 63, 62, 40]))
                k -= need - k - 1 == 1
                ls.append(ch * k)
                need -= k + 1
            return ''.join(l + '.' for l in ls) + dom
        total = r.choice([248, 251, 252, 253, 253, 254, 254, 255, 255, 256])
        far = upto(total, r.choice(['t.', 'e.t.']), 'm')
        recs = [soa('t.'), ('t.', 'NS', '300', 'ns1.t.'), ('ns1.t.', 'A', '300', '10.0.0.1'), (far, 'A', '300', '10.0.0.2')]
        if r.random() < 0.6:
            recs.append((join(r.choice(['d', 'dd', 'ddd', 'd' * 11]), 't.'), 'DNAME', '300', r.choice(['e.t.', far.split('.', 1)[1]])))
            recs.append((upto(r.choice([200, 240, total, total - 1]), 'e.t.', 'k'), 'TXT', '300', 'x'))
        if r.random() < 0.3:
            recs.append((join('*', far.split('.', 1)[1]), 'A', '300', '10.0.0.3'))
        recs = [y for y in recs if len(y[0]) < 300]
        w = World.__new__(World)
        w.r, w.zones, w.tops, w.k = r, [dict(origin='t.', ns='ns1.t.', recs=recs)], ['ns1.t.'], dict(zero=0)
        doms = [y[0] for y in recs] + [far.split('.', 1)[1], 't.', 't.', '.', upto(r.choice([252, 254, 255, 256, 260]), 't.', 'm'),
                                       upto(r.choice([254, 255, 256]), 'e.t.', 'k'), 'q.' + far, 'm' * r.choice([62, 63, 64]) + '.t.', 'd.t.', upto(r.choice([254, 255, 256]), 'd.t.', 'k')]
        js = [{'Domain': d, 'SubDomain': r.random() < 0.8, 'Properties': [{'PropertyName': 'ResponseReturned', 'Types': [r.choice(['A', 'TXT'])]}]}
              for d in r.sample(doms, 4) if w.visits(d, 150) <= 150]
        s = w.scenario('l%d.%d' % (i, x), js, fancy=0, graphs=False)
        out.append(gen.escaping(r, s) if r.random() < 0.4 else s)
    return out


def nodes(p, seed, i, n):
    """one node of the label graph, seen through many jobs"""
    return classes(p, seed, i, n)


# ------------------------------------------------------------------ jobs after jobs
def joblists(seed, i, n):
    out = []
    for x in range(n):
        r = rnd('jobs', seed, i, x)
        w = World(r, extra=(1, 3), kids=(1, 2))
        js = []
        for _ in range(r.randint(2, 5)):
            c = r.random()
            if c < 0.2:
                d = w.domain()
                js.append(gen.recase(r, d) if r.random() < .3 else d)
            elif c < 0.35 and js:
                js.append(r.choice(js))
            else:
                js.append(w.job(some=3))
        out.append(w.scenario('j%d.%d' % (i, x), js, fancy=0.03, graphs=False))
    return out


# ------------------------------------------------------------------ all small worlds
SMALL = [(0, r) for r in [
    ('a.t.', 'NS', '300', 'ns.a.t.'), ('ns.a.t.', 'A', '300', '10.0.0.2'), ('ns.a.t.', 'A', '0', '10.0.0.3'), ('a.t.', 'NS', '300', 'ns1.u.'),
    ('a.t.', 'NS', '60', 'ns.gone.'), ('b.t.', 'A', '300', '10.0.0.5'), ('c.b.t.', 'A', '0', '10.0.0.5'), ('*.t.', 'A', '300', '10.0.0.6'),
    ('*.b.t.', 'TXT', '300', 'x'), ('a.t.', 'CNAME', '300', 'b.t.'), ('*.t.', 'CNAME', '300', 'c.b.t.'), ('b.t.', 'CNAME', '300', 'c.u.'),
    ('a.t.', 'DNAME', '300', 'b.t.'), ('b.t.', 'DNAME', '300', 'u.'), ('c.t.', 'CNAME', '300', 'x.a.t.')]] + [(1, r) for r in [
        ('c.u.', 'A', '300', '10.0.0.5'), ('*.u.', 'CNAME', '0', 'c.a.t.'), ('c.u.', 'DNAME', '300', 'a.t.'), ('ns1.u.', 'A', '300', '10.0.0.7'),
        ('a.u.', 'NS', '300', 'ns.a.t.')]] + [(2, r) for r in [
            ('a.t.', 'NS', '300', 'ns.a.t.'), ('ns.a.t.', 'A', '300', '10.0.0.2'), ('a.t.', 'NS', '300', 'ns1.u.'), ('c.a.t.', 'A', '300', '10.0.0.5'),
            ('*.a.t.', 'A', '0', '10.0.0.6'), ('a.t.', 'DNAME', '300', 'b.t.'), ('c.a.t.', 'CNAME', '300', 'c.b.t.'), ('a.t.', 'TXT', '300', 'x')]]


def small_world(p, key, combo, must, kinds=('t.', 't.', '.', 'a.t.', 'x.a.t.', 'u.', 'c.u.')):
    r = rnd('small', p, key, combo)
    zones = [[soa('t.'), ('t.', 'NS', '300', 'ns1.t.'), ('ns1.t.', 'A', '300', '10.0.0.1')], [soa('u.')], [soa('a.t.')]]
    for k in combo:
        z, rec = SMALL[k]
        zones[z].append(rec)
    w = World.__new__(World)
    w.r, w.k, w.dnames = r, dict(zero=0), []
    w.zones = [dict(origin=o, ns=ns, recs=z) for o, ns, z in zip(('t.', 'u.', 'a.t.'), ('ns1.t.', 'ns1.u.', 'ns.a.t.'), zones)]
    w.tops = ['ns1.t.', 'ns1.u.'] if r.random() < 0.5 else ['ns1.t.']
    w.origins, w.pool = ['t.', 'u.', 'a.t.'], ['ns1.t.', 'ns1.u.']
    w.names = ['t.', 'a.t.', 'b.t.', 'c.b.t.', 'c.u.', 'c.a.t.', 'x.a.t.']
    w.targets = ['b.t.', 'c.b.t.', 'c.u.', 'c.a.t.', 'x.a.t.', 'nx.t.']
    d = r.choice(kinds)
    if w.visits(d, 100) > 100:
        d = 'x.a.t.'
    for a, b in [(n, y) for z in zones for n, t, _, y in z if t == 'DNAME']:
        if w.grows(a, b):
            return None
        w.dnames.append((a, b))
    return w.scenario('m%s.%s' % (key, '-'.join(map(str, combo))), [{'Domain': d, 'SubDomain': r.random() < 0.85,
                                                                    'Properties': [w.prop(m) for m in must]}], fancy=0, maxgraphs=60)


def smalls(p, seed, must, i, quick, n=260):
    """worlds of three zones with few records in them: all of two records, then of three"""
    if i == 0 or not quick:
        cs = [c for k in (0, 1, 2) for c in itertools.combinations(range(len(SMALL)), k)]
        if quick:
            r = rnd('smalls', p, seed)
            cs = r.sample(cs, 140) + [tuple(sorted(r.sample(range(len(SMALL)), r.choice([3, 4, 5, 6])))) for _ in range(n - 140)]
        elif i > 0:
            three = list(itertools.combinations(range(len(SMALL)), 3))
            rnd('three', seed).shuffle(three)
            cs = three[(i - 1) * 300:i * 300]
        return [s for s in (small_world(p, '%d' % seed, c, must) for c in dict.fromkeys(cs)) if s]
    return []


# ------------------------------------------------------------------ big worlds
def manylabels(r, n, dom, chars='abcdefgh'):
    return ''.join(r.choice(chars) + '.' for _ in range(n)) + dom


def deep(p, seed, i, n, must, only=None):
    """long chains of delegations and rewrites, many labels, many servers"""
    out = []
    for x in range(n):
        r = rnd('deep', p, seed, i, x, *([only] if only else []))
        w = World.__new__(World)
        w.r, w.k, w.dnames = r, dict(zero=0.1), []
        kind = only or r.choice(['delegations', 'rewrites', 'rewrites', 'labels', 'wide', 'wide', 'many'])
        zones, names, targets, num = [], ['t.'], [], 1
        base = [soa('t.'), ('t.', 'NS', '300', 'ns1.t.'), ('ns1.t.', 'A', '300', '10.0.0.1')]
        jobs = []
        if kind == 'delegations':
            num, o, ns = r.randint(3, 11), 't.', 'ns1.t.'
            recs = base
            for j in range(num):
                c = join(r.choice(['a', 'b', 'ab']), o)
                s = r.choice([join('ns', c), join('ns', c), 'ns%d.t.' % (j + 2), 'ns1.t.'])
                recs.append((c, 'NS', '300', s))
                if under(s, o) and r.random() < 0.85:
                    recs.append((s, 'A', '300', '10.0.0.%d' % (j + 2)))
                zones.append(dict(origin=o, ns=ns, recs=recs))
                o, ns = c, s
                recs = [soa(o), (o, 'NS', '300', s)]
                if under(s, o):
                    recs.append((s, 'A', '300', '10.0.0.%d' % (j + 2)))
            recs += [(join('www', o), 'A', r.choice(['0', '300']), '10.0.0.99'), (join('*', join('w', o)), 'CNAME', '300', join('www', o))]
            zones.append(dict(origin=o, ns=ns, recs=recs))
            names = [o, join('www', o), join('x.w', o), join('nx', o), 't.', zones[len(zones) // 2]['origin']]
            targets = [join('www', o)]
            k = r.choice([1, len(zones) - 1, len(zones) - 1, r.randrange(1, len(zones))])
            c, z = r.random(), zones[k]
            if c < 0.25:        # the server does not know the zone
                zones[k] = dict(origin='v.', ns=z['ns'], recs=[soa('v.'), ('v.', 'NS', '300', z['ns'])])
            elif c < 0.3:       # nor is it known
                del zones[k]
            elif c < 0.4:       # a second server which does not know it
                zones[k - 1]['recs'] += [(z['origin'], 'NS', '300', 'nsv.v.'), ('nsv.v.', 'A', '300', '10.0.9.9')]
                zones.append(dict(origin='v.', ns='nsv.v.', recs=[soa('v.'), ('v.', 'NS', '300', 'nsv.v.')]))
            elif c < 0.6:       # parent and child differ
                m = r.randrange(1, len(z['recs']))
                z['recs'][m] = z['recs'][m][:3] + (('10.0.9.8' if z['recs'][m][1] == 'A' else 'ns.v.'),)
        elif kind == 'rewrites':
            num = r.randint(4, 22)
            recs, other = list(base), [soa('u.')]
            at = 'c0.t.'
            names = [at]
            for j in range(num):
                nxt = 'c%d.%s' % (j + 1, r.choice(['t.', 't.', 'u.']))
                c = r.random()
                if c < 0.6:
                    (recs if under(at, 't.') else other).append((at, 'CNAME', '300', nxt))
                    at = nxt
                else:       # y.at -> y.nxt
                    (recs if under(at, 't.') else other).append((at, 'CNAME', '300', 'y.d%d.t.' % j))
                    recs.append(('d%d.t.' % j, 'DNAME', '300', 'e%d.%s' % (j, nxt)))
                    at = 'y.e%d.%s' % (j, nxt)
                targets.append(at)
            end = r.random() if p != 'C09' else r.uniform(.4, .8)
            if end < 0.6:
                (recs if under(at, 't.') else other).append((at, r.choice(['A', 'TXT']), r.choice(['0', '300']), '10.0.0.99'))
            elif end < 0.75:
                (recs if under(at, 't.') else other).append((at, 'CNAME', '300', r.choice(targets)))
            zones = [dict(origin='t.', ns='ns1.t.', recs=recs), dict(origin='u.', ns='ns1.u.', recs=other)]
            names += [r.choice(targets), 'c0.t.', 'c1.t.' if 'c1.t.' in targets else 'c0.t.']
        elif kind == 'labels':
            k = r.choice([20, 60, 100, 110, 120, 124, 125])
            n1, n2 = manylabels(r, k, 't.'), manylabels(r, r.choice([1, 3, 10]), 't.', 'xyz')
            recs = base + [(n1, 'A', '300', '10.0.0.2'), ('d.t.', 'DNAME', '300', n2), ('c.t.', 'CNAME', '300', manylabels(r, k, 'd.t.')[-254:]),
                           (n2, 'CNAME', '300', n1), (join('*', n2), 'TXT', '300', 'x')]
            if recs[-3][3].startswith('.'):
                recs[-3] = recs[-3][:3] + (recs[-3][3][1:],)
            zones = [dict(origin='t.', ns='ns1.t.', recs=recs)]
            names, targets = [n1, n2, 'c.t.', 'q.' + n2], [n1, n2]
            if len('new.' + n1) <= 255:
                names.append('new.' + n1)
        elif kind == 'wide':
            num = r.randint(6, 14)
            ss = ['ns%d.a.t.' % j for j in range(num)]
            recs = base + [('a.t.', 'NS', '300', s) for s in ss]
            recs += [(s, 'A', '300', '10.0.1.%d' % j) for j, s in enumerate(ss) if r.random() < 0.97]
            zones = [dict(origin='t.', ns='ns1.t.', recs=recs)]
            odd = r.randrange(num)
            for j, s in enumerate(ss):
                if r.random() < 0.05:
                    continue
                z = [soa('a.t.')] + [('a.t.', 'NS', '300', y) for y in ss] + [(y, 'A', '300', '10.0.1.%d' % k) for k, y in enumerate(ss)]
                z += [('www.a.t.', 'A', '300', '10.0.0.%d' % k) for k in range(9)] + [('m.a.t.', 'CNAME', '300', 'www.a.t.')]
                if j == odd:
                    c = r.random()
                    if c < 0.3:
                        z.pop(r.randrange(1, len(z)))
                    elif c < 0.5:
                        k = r.randrange(1, len(z))
                        z[k] = z[k][:2] + ('0',) + z[k][3:]
                    elif c < 0.7:
                        z.append(('www.a.t.', 'A', '300', '10.0.0.77'))
                    elif c < 0.85:
                        z.append(('a.t.', 'NS', '300', 'ns99.a.t.'))
                    else:
                        z[-1] = ('m.a.t.', 'CNAME', '300', 'nx.a.t.')
                zones.append(dict(origin='a.t.', ns=s, recs=z))
            names, targets = ['a.t.', 'www.a.t.', 'm.a.t.', 'nx.a.t.', 't.'], ['www.a.t.', 'nx.a.t.']
        else:               # many zones of one server, many properties, many values
            num = r.randint(8, 16)
            recs = base + [('z%d.t.' % j, 'NS', '300', 'ns1.t.') for j in range(num)]
            zones = [dict(origin='t.', ns='ns1.t.', recs=recs)]
            for j in range(num):
                zones.append(dict(origin='z%d.t.' % j, ns='ns1.t.', recs=[
                    soa('z%d.t.' % j), ('www.z%d.t.' % j, r.choice(['A', 'SRV', 'SPF', 'NSEC', 'PTR', 'MX', 'AAAA']), r.choice(['0', '300']), '10.0.0.%d' % j),
                    ('c.z%d.t.' % j, 'CNAME', '300', 'www.z%d.t.' % r.randrange(num))]))
            names, targets = ['t.', 'z1.t.', 'c.z2.t.', 'www.z3.t.'], ['www.z%d.t.' % j for j in range(num)]
        if r.random() < 0.3:
            r.shuffle(zones)
        w.zones, w.tops = zones, ['ns1.t.']
        w.origins = [z['origin'] for z in zones][:4]
        w.names, w.targets, w.pool = names, targets, ['ns1.t.']
        for _ in range(r.choice([1, 2])):
            props = []
            for m in must + tuple(r.sample(World.PROPS, 2)):
                if any(q['PropertyName'] == m for q in props):
                    continue
                q = w.prop(m)
                if m in ('Hops', 'Rewrites'):
                    q['Value'] = max(0, num + r.choice([-2, -1, 0, 0, 1, 1, 2]))
                elif m == 'AllAliases':
                    q['Value'] = r.sample(targets, min(len(targets), r.choice([1, 2, 8])))
                elif m == 'ResponseValue' and kind == 'wide' and r.random() < .6:
                    q['Value'], q['Types'] = ['10.0.0.%d' % k for k in range(r.choice([9, 9, 8]))], ['A']
                elif m in ('ResponseReturned', 'ZeroTTL', 'ResponseConsistency') and r.random() < .4:
                    q['Types'] = r.sample(gen.TYPES, r.choice([1, 4, 13]))
                props.append(q)
            d = r.choice(names)
            jobs.append({'Domain': d, 'SubDomain': r.random() < 0.5 and w.visits(d, 100) <= 100, 'Properties': props})
        out.append(w.scenario('%s%d.%d' % (only or 'd', i, x), jobs, fancy=0, maxgraphs=60))
    return out


# ------------------------------------------------------------------ the scenarios of a check
# at least so many of the big worlds in every batch
FAR = [('delegations', 8), ('rewrites', 10), ('wide', 6), ('many', 6), ('labels', 4)]


def scenarios(p, seed, i, bb, tier):
    """the i-th batch of the check for p; [] when there is no further one"""
    quick = tier == 'quick'
    last = 4 if quick else 40
    if p == 'C01':
        if i == 0:
            return packed('g', grammar(), 80, bb)
        return syntax(seed, i, 220, bb) if i < last else []
    if p == 'C02':
        if i == 0:
            return packed('e1.', admission_exhaustive(1), 60, bb) + packed('e2.', admission_exhaustive(2), 60, bb) + \
                packed('e4.', admission_pairs(), 60, bb) + \
                packed('ar.', [admission_random(rnd('ar', seed, j)) for j in range(600)], 60, bb) + \
                packed('wide', [admission_wide(rnd('aw', seed, j)) for j in range(6 if quick else 30)], 2, bb) + \
                [s for k in range(30) for s in packed('len%d.' % k, [lengths(rnd('len', seed, k, j)) for j in range(10)], 10, bb)]
        if i == 1:
            x = admission_exhaustive(3)
            if quick:
                r = rnd('adm', seed)
                x = r.sample(x, 2400)
            return packed('e3.', x, 60, bb)
        return syntax(seed, i, 80, bb) + worlds(p, seed, i, 40) if i < last else []
    if p == 'C03':
        if i == 0:
            x = admission_exhaustive(2) + admission_pairs() + [admission_random(rnd('ar', seed, j)) for j in range(400)] + [lengths(rnd('lint', seed, j)) for j in range(150)]
            return packed('l', x, 30, lint=True) + packed('lw', [admission_wide(rnd('aw', seed, j)) for j in range(2 if quick else 12)], 1, lint=True)
        if i >= last:
            return []
        ss = worlds(p, seed, i, 90, some=0, fancy=0.35, lint=True) + [dict(s, lint=True) for s in syntax(seed, 100 + i, 60, False)]
        return ss + worlds(p, seed, 50 + i, 6, lint=False)
    if p in ('C04', 'C05'):
        if i == 0:
            z, q = lookup_exhaustive(2 if quick else 3)
            return lookup_batches(z, q)
        if i == 1:
            return zoos(p, seed, i, 8, bb, big=True)
        if i >= last + 1:
            return []
        return zoos(p, seed, i, 130, bb) + (worlds(p, seed, i, 50, must=('LameDelegation',), graphs=True) if p == 'C05' else [])
    if p == 'C06':
        if i == 0:
            return classes(p, seed, i, 3 if quick else 8, big=True) + classes(p, seed, 1000, 40) + longnames(p, seed, i, 40) + \
                [dict(s, graphs=False) for s in forks(p, seed, i, 120, ('ResponseReturned', 'ResponseValue'))]
        return classes(p, seed, i, 110) + longnames(p, seed, i, 15) + [dict(s, graphs=False) for s in forks(p, seed, i, 40, ('ResponseReturned',))] if i < last else []
    if p in ('C07', 'C08'):
        if i >= last:
            return []
        m = ('NameserverContact', 'Hops') if p == 'C07' else ('QueryRewrite', 'Rewrites')
        return worlds(p, seed, i, 150 if quick else 170, must=m, some=1, graphs=True) + \
            [dict(s, graphs=True) for s in smalls(p, seed, m, i, quick, 200) + deep(p, seed, i, 12, m) + forks(p, seed, i, 15, m)] + \
            [dict(s, graphs=True) for k, c in FAR for s in deep(p, seed, i, c, m, k)] + \
            [dict(s, graphs=True) for s in (boundary(p, seed, i, 20, m) + overflow(p, seed, i, 20, m) if p == 'C08' else [])]
    if p == 'C09':
        return worlds(p, seed, i, 200, some=1) + smalls(p, seed, ('Hops',), i, quick) + deep(p, seed, i, 12, ('Rewrites',)) + \
            deep(p, seed, i, 25, ('Rewrites',), 'rewrites') + deep(p, seed, i, 12, ('Rewrites',), 'delegations') if i < last else []
    if p == 'C24':
        return joblists(seed, i, 60) if i < last + 1 else []
    if p in PROP:
        if i >= last:
            return []
        ss = worlds(p, seed, i, 150 if p != 'C15' else 70, must=(PROP[p],), some=2)
        ss += smalls(p, seed, (PROP[p],), i, quick) + deep(p, seed, i, 16, (PROP[p],))
        if p in ('C16', 'C17', 'C18', 'C21', 'C22', 'C10', 'C13', 'C19', 'C20'):
            ss += copies(p, seed, i, 60 if p in ('C16', 'C18', 'C21') else 15, (PROP[p],))
            ss += forks(p, seed, i, 15, (PROP[p],))
        more = {'C23': {'rewrites': 40}, 'C11': {'rewrites': 12}, 'C12': {'rewrites': 12}, 'C14': {'rewrites': 12},
                'C10': {'delegations': 12}, 'C13': {'delegations': 12}, 'C16': {'delegations': 40}, 'C17': {'delegations': 40},
                'C18': {'wide': 12, 'delegations': 15}, 'C19': {'wide': 6, 'delegations': 10}, 'C20': {'wide': 12, 'rewrites': 6},
                'C21': {'wide': 12, 'rewrites': 6}, 'C22': {'many': 12, 'rewrites': 6}}
        more = more.get(p, {})
        for kind, k in FAR:
            ss += deep(p, seed, i, max(k, more.get(kind, 0)), (PROP[p],), kind)
        if p in ('C15', 'C11', 'C12', 'C14', 'C20', 'C19'):
            k = 70 if p == 'C15' else 10
            ss += boundary(p, seed, i, k, (PROP[p],)) + overflow(p, seed, i, k, (PROP[p],))
        if p in ('C08', 'C11', 'C12', 'C14', 'C23', 'C28'):
            ss += reuse(p, seed, i, 80 if p == 'C28' else 15, (PROP[p],))
            ss += forks(p, seed, i, 15, (PROP[p],))
            if p == 'C28':
                ss += boundary(p, seed, i, 20, (PROP[p],)) + overflow(p, seed, i, 20, (PROP[p],))
        return ss
    raise KeyError(p)
