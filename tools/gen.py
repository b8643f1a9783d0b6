#!/usr/bin/env python3
"""Scenarios: zone files, metadata, jobs and queries.  What they mean is decided by the specification alone, the
generator only has to reach interesting ones (and to stay away from texts that RFC 1035 gives no meaning)."""
import itertools, random, re

TYPES = ['A', 'NS', 'CNAME', 'DNAME', 'SOA', 'PTR', 'MX', 'TXT', 'AAAA', 'SRV', 'RRSIG', 'NSEC', 'SPF']
L60 = 'l' * 60
TTLS = ['300', '300', '3600', '60', '86400', '1', '256', '65536', '604800', '16777216', '2147483647']


def join(label, name):
    return label + '.' + ('' if name == '.' else name)


def parent(name):
    rest = name.split('.', 1)[1]
    return rest or '.'


def under(name, dom):
    return dom == '.' or name == dom or name.endswith('.' + dom)


# ------------------------------------------------------------------ records and their texts
def soa(origin, ttl='300'):
    return (origin, 'SOA', ttl, 'ns.soa. admin.soa. 1 7200 3600 1209600 300')


def rdata_for(r, t, names, rich=False):
    if t == 'A':
        return '10.0.0.%d' % r.randint(1, 3)
    if t == 'AAAA':
        return r.choice(['fd00::1', 'fd00::2', 'FD00::3' if rich else 'fd00::3'])
    if t in ('NS', 'CNAME', 'DNAME', 'PTR'):
        return r.choice(names)
    if t == 'MX':
        return '%d %s' % (r.choice([5, 10]), r.choice(names))
    if t == 'TXT' or t == 'SPF':
        return r.choice(['"v=spf1 -all"', '"one" "two"', 'plain', '"semi ; colon"', '"(paren)"', '"esc \\" quote"', 'v=DKIM1\\;k=rsa', '\\(a\\)',
                         '\\"in\\"\\;', 'a\\\\', '"a\\\\"'] if rich
                        else ['"v=spf1 -all"', 'plain', '"x y"'])
    if t == 'SRV':
        return '0 5 80 ' + r.choice(names)
    if t == 'RRSIG':
        return 'a 5 2 300 20300101000000 20200101000000 7 t. sig%d==' % r.randint(1, 2)
    if t == 'NSEC':
        return 'next.t. a rrsig nsec'
    if t == 'DS':
        return '12345 5 1 %s' % r.choice(['abcdef', '123abc'])
    if t == 'SOA':
        return '%s admin.%s %d 7200 3600 1209600 300' % (r.choice(['ns.soa.', 'ns.soa.'] + names[:1]), r.choice(['soa.', (names or ['soa.'])[0].lstrip('*.')]), r.randint(1, 2))
    raise KeyError(t)


def plain(recs):
    return ''.join('%s %s IN %s %s\n' % (n, ttl, t, d) for n, t, ttl, d in recs)


def quoted(s):
    """would a character after s be quoted by a backslash?"""
    return (len(s) - len(s.rstrip('\\'))) % 2 == 1


ESCAPES = ['\\.', '\\.', '\\\\', '\\046', '\\;', '\\"', '\\(', '\\)', '\\q', '\\@', '\\255']


def escaping(q, x, k=None):
    """some of the letters of long labels written as escape sequences, everywhere in the same way"""
    if k is None:
        k = (q.choice(ESCAPES), q.choice([1, 1, 2, 9]), q.random() < 0.5)
    if isinstance(x, str):
        e, n, front = k
        return re.sub(r'([a-z])\1{9,}', lambda m: e * n + m.group(0)[n:] if front else m.group(0)[n:] + e * n, x)
    if isinstance(x, list):
        return [escaping(q, y, k) for y in x]
    if isinstance(x, dict):
        return {y: escaping(q, z, k) for y, z in x.items()}
    return x


def recase(r, s):
    return ''.join(c.upper() if r.random() < 0.4 else c for c in s)


class Fancy:
    """Writes records as a master file in one of its many legal forms"""

    def __init__(self, r, origin_meta):
        self.r = r
        self.meta = origin_meta      # Origin of the metadata, '' when not given

    def relative(self, name):
        """a text for the name under the current origin"""
        r, o = self.r, self.origin
        if o and r.random() < 0.6 and under(name, o):
            if name == o:
                return '@'
            rel = name[:-1] if o == '.' else name[:-len(o) - 1]
            if rel and not quoted(rel):
                return rel
        return name

    def case(self, s):
        return recase(self.r, s) if self.r.random() < 0.3 else s

    def ws(self):
        return self.r.choice([' ', ' ', '  ', '\t', ' \t '])

    def junk(self):
        r = self.r
        k = r.randrange(10)
        o = '' if not self.origin else ''
        return ['; only a comment\n', '\n', '   \n', ' ; blank and comment\n', ';\n',
                'zz.other.  300  IN  HINFO  "PC" "Linux"\n' if r.random() < .5 else 'zz.other. 300 IN CAA 0 issue "ca.t"\n',
                '$ORIGIN\n', '$TTL\n', '$TTL many\n', 'zz.other. 99 IN TXT\n'][k]

    def text(self, recs):
        r = self.r
        out = []
        self.origin = self.meta
        last_owner, last_ttl, dollar = None, None, None
        eol = '\r\n' if r.random() < 0.15 else '\n'
        if r.random() < 0.3:
            dollar = r.choice(['300', '7200', '0', '86400'])
            out.append('%s%s%s\n' % (self.case('$TTL'), self.ws(), dollar))
        for n, t, ttl, d in recs:
            if t != 'SOA' and r.random() < 0.12:
                j = self.junk()
                out.append(j)
                if j.startswith('zz.'):
                    last_owner = None
                    stated = re.match(r'\S+\s+(\d+)', j)
                    if dollar is None and stated:
                        last_ttl = stated.group(1)
            if t != 'SOA' and r.random() < 0.12:
                new = r.choice([n, parent(n), parent(n)]) if n != '.' else '.'
                if '*' not in new and not quoted(n[:-len(new) - 1]):
                    out.append('%s%s%s\n' % (self.case('$ORIGIN'), self.ws(), self.relative(new) if self.relative(new) != '@' else new))
                    self.origin = new
            if r.random() < 0.06:
                dollar = r.choice(['300', '60', '0'])
                out.append('%s %s\n' % (self.case('$TTL'), dollar))
            explicit = True
            if last_owner == n and t != 'SOA' and r.random() < 0.6:
                owner = ''
                explicit = False
            else:
                owner = self.relative(n)
            fields = []
            state = dollar if dollar is not None else last_ttl
            if state == ttl and r.random() < 0.6:
                pass
            else:
                fields.append(ttl)
                last_ttl = ttl
            if r.random() < 0.6:
                fields.append(r.choice(['IN', 'IN', 'in']))
                if r.random() < 0.5:
                    fields.reverse()
            dd = d
            if t in ('NS', 'CNAME', 'DNAME', 'PTR'):
                dd = self.relative(d)
            elif t in ('MX', 'SRV'):
                p, m = d.rsplit(' ', 1)
                dd = p + ' ' + self.relative(m)
            elif t == 'SOA' and d.count(' ') == 6 and self.origin:
                a, b, rest = d.split(' ', 2)
                dd = self.relative(a) + ' ' + self.relative(b) + ' ' + rest
            if t not in ('TXT', 'SPF', 'RRSIG', 'DS') and not dd.startswith('"'):
                dd = self.case(dd)
            tt = t.lower() if r.random() < 0.15 else t
            line = (self.case(owner) if owner != '@' else owner) + (self.ws() if owner else r.choice(['  ', '\t', ' ']))
            line += self.ws().join(fields + [tt]) if fields else tt
            k = r.random()
            parts = dd.split(' ') if not dd.startswith('"') else [dd]
            if len(parts) > 1 and (k < 0.25 or (t == 'SOA' and k < 0.6)):
                glue = []
                for x in parts:
                    glue.append(x)
                    glue.append(r.choice([' ', '\n', ' ; note\n', '\n\t', '  ', '\n   ;x ( \n ']))
                line += ' (' + r.choice([' ', '\n ', '']) + ''.join(glue) + r.choice([')', ' )', '\n)'])
            else:
                line += self.ws() + self.ws().join(parts) if len(parts) > 1 else self.ws() + dd
            line += r.choice(['', '', '', ' ', ' ; trailing', '\t;x "y" ('])
            out.append(line + '\n')
            last_owner = n
            if t == 'SOA' and explicit and not self.origin:
                self.origin = None   # set below
                self.origin = n
        s = ''.join(out)
        if eol != '\n':
            s = s.replace('\n', '\r\n')
        if r.random() < 0.15:
            s = s.rstrip('\r\n')
        return s


# ------------------------------------------------------------------ the same worlds with other labels
# labels that are the beginning or the end of one another, that have a star or an escaped dot in them, that look like something else
LABELS = [{'b': 'ba', 'c': 'aa', 's': 'sa', 'u': 'ut', 'm': 'wwww', 'nx': 'xa'}, {'b': 'ab', 'c': 'a-', 's': 'as', 'm': 'ww', 'x': 'xx'},
          {'b': 'a*', 'c': '*a', 'm': '**', 'www': '*w'}, {'b': '_a', 'c': '-', 'm': '0', 'www': '10', 'a': '1'},
          {'b': 'a\\.a', 'm': 'www\\.a', 'c': 'b'}, {'b': 'a\\\\', 'c': 'a', 'm': 'w\\;w', 'a': '\\.', 'www': '\\@'},
          {'b': '\\(', 'c': '\\)', 'm': '\\"m\\"', 'www': '\\065', 'a': '\\*', 'x': '\\\\'}, {'a': 'soa', 'b': 'ns', 'c': 'a', 'm': 'cname', 'www': 'in', 'x': 'mx', 's': 'dname'},
          {'t': 'com', 'u': 'om', 'b': 'ba', 'c': 'a'}, {'ns1': 'a', 'ns2': 'b', 'ns': 'www', 'a': 'ns1', 'b': 'ns2', 'www': 'ns'}]


def tails(q, zones, jobs):
    """allowed domains that are the end of a name's text, but not of its labels"""
    js = []
    for j in jobs:
        if not isinstance(j, str) and any(p['PropertyName'] in ('QueryRewrite', 'NameserverContact') and p['Value'] for p in j['Properties']) and \
                q.random() < 0.2:
            ps = []
            for p in j['Properties']:
                if p['PropertyName'] in ('QueryRewrite', 'NameserverContact'):
                    ns = p['PropertyName'] == 'NameserverContact'
                    have = [z['ns'] for z in zones] if ns else [rec[3] for z in zones for rec in z['recs'] if rec[1] in ('CNAME', 'DNAME')]
                    have = [n for n in have if len(n) > 2 and '\\' not in n]
                    if have:
                        n = q.choice(have)
                        k = q.randrange(1, len(n) - 1)
                        p = dict(p, Value=[n[k:].lstrip('.')] + (p['Value'][:1] if q.random() < 0.2 else []))
                ps.append(p)
            j = dict(j, Properties=ps)
        js.append(j)
    return js


def relabelled(zones, tops, jobs):
    q = random.Random(repr((zones, tops, jobs)))
    jobs = tails(q, zones, jobs)
    star = q.random() < 0.1
    if q.random() >= 0.3 and not star or any(len(x) > 10 for z in zones for n in [z['origin']] + [y for rec in z['recs'] for y in (rec[0], rec[3])]
                                             for x in n.split('.')):
        return zones, tops, jobs
    m = {} if star else q.choice(LABELS)

    def name(n):
        out = []
        for x in n.replace('\\.', '\0').split('.'):
            y = m.get(x.lower(), x)
            out.append(y.upper() if x != x.lower() and x.lower() in m else y)
        return '.'.join(out).replace('\0', '\\.')

    def data(d):
        return d if '"' in d else ' '.join(name(x) if x.endswith('.') else x for x in d.split(' '))
    stars = sorted({n for z in zones for n, _, _, _ in z['recs'] if n.startswith('*.')})
    out = []
    for z in zones:
        recs = []
        for n, t, ttl, d in z['recs']:
            if star and t in ('CNAME', 'MX', 'PTR') and q.random() < 0.5:     # wildcards as targets
                old = d.rsplit(' ', 1)[-1]
                new = q.choice(stars or ['*.' + old.split('.', 1)[-1]] * 2) if q.random() < 0.7 else q.choice(['*', '*.*', 'a.*']) + '.' + old.lstrip('.')
                d = d[:len(d) - len(old)] + new
            recs.append((name(n), t, ttl, data(d)))
        out.append(dict(z, origin=name(z['origin']), ns=name(z['ns']), recs=recs))
    js = []
    for j in jobs:
        if isinstance(j, str):
            js.append(name(j))
            continue
        ps = []
        for p in j['Properties']:
            if isinstance(p.get('Value'), list):
                p = dict(p, Value=[data(v) if p['PropertyName'] == 'ResponseValue' else name(v) for v in p['Value']])
            ps.append(p)
        js.append(dict(j, Domain=name(j['Domain']), Properties=ps))
    return out, [name(x) for x in tops], js


# ------------------------------------------------------------------ worlds of zones
class World:
    """A tree of zones on servers, with deliberate mistakes."""

    def __init__(self, r, **k):
        self.r = r
        self.k = dict(cname=1.0, dname=0.6, wild=0.6, faults=0.5, replicas=0.4, kids=(1, 3), grand=(0, 2), extra=(1, 4),
                      root=0.35, long=0.0, zero=0.15, deep=0.0, ds=0.05, plain_types=('A', 'AAAA', 'TXT', 'MX', 'A', 'NS'))
        self.k.update(k)
        while True:
            self.build()
            if self.visits('.', self.CAP) <= self.CAP:
                break

    def build(self):
        r, k = self.r, self.k
        self.top = '.' if r.random() < k['root'] else 't.'
        tld = 't.' if self.top == '.' else None
        self.origins = [self.top]
        base = 't.'
        if tld and r.random() < 0.6:
            self.origins.append('t.')
        kids = [join(x, base) for x in r.sample(['a', 'b', 'c'], r.randint(*k['kids']))]
        if base not in self.origins and r.random() < 0.7:
            kids = kids[:2]
        self.origins += kids
        for o in list(kids):
            if r.random() < 0.35 and len(self.origins) < 6:
                self.origins.append(join(r.choice(['s', 'a']), o))
        n = r.randint(*k['grand'])
        # servers
        self.servers = {}
        pool = []
        for o in self.origins:
            here = []
            m = 2 if r.random() < k['replicas'] else 1
            for i in range(m):
                c = r.random()
                if pool and c < 0.25:
                    s = r.choice(pool)
                elif c < 0.7 or o == '.':
                    s = join('ns%d' % (i + 1), o if o != '.' else 'rt.')
                elif c < 0.85:
                    s = join('ns', r.choice([x for x in self.origins if x != '.'] or ['t.']))
                else:
                    s = join('ns%d' % r.randint(1, 2), 'ext.')
                if s not in here:
                    here.append(s)
                if s not in pool:
                    pool.append(s)
            self.servers[o] = here
        self.pool = pool
        # names
        names = set(self.origins) - {'.'}
        for o in self.origins:
            for _ in range(2):
                x = join(r.choice(['www', 'm', 'a', 'b']), o)
                names.add(x)
                if r.random() < 0.4:
                    names.add(join(r.choice(['x', 'a', 'w']), x))
            if r.random() < k['wild']:
                names.add(join('*', o if r.random() < 0.6 else join(r.choice(['a', 'm']), o)))
            if r.random() < k['long']:
                names.add(join(L60, join(L60, o)))
        if r.random() < 0.1:
            names.add(join('a\\.b', 't.'))
        self.names = sorted(names)
        self.targets = [x for x in self.names if '*' not in x] + ['nx.%s' % r.choice(kids), 'nx.t.', 'out.u.', 'www.' + kids[0],
                                                                      'q.w.' + kids[-1]]
        if r.random() < 0.1:
            self.targets.append('.')
        self.dnames = []
        self.zones = []
        for o in self.origins:
            recs = self.zone(o)
            for s in self.servers[o]:
                mine = list(recs)
                if len(self.servers[o]) > 1 and r.random() < k['faults']:
                    mine = self.disturb(o, mine)
                self.zones.append(dict(origin=o, ns=s, recs=mine))
        tops = list(self.servers[self.top])
        if r.random() < 0.15 and len(pool) > 1:
            x = r.choice(pool)
            if x not in tops:
                tops.append(x)
        if r.random() < 0.08:
            tops.append('ns.nowhere.')
        self.tops = tops

    def ttl(self):
        r = self.r
        return '0' if r.random() < self.k['zero'] else r.choice(TTLS)

    def grows(self, owner, target):
        """would rewriting go on (nearly) for ever with longer and longer names?"""
        ds = self.dnames + [(owner, target)]
        todo, seen = [('q.' + o, 0) for o, _ in ds], set()
        while todo:
            q, n = todo.pop()
            if n > 12 or q in seen:
                if n > 12:
                    return True
                continue
            seen.add(q)
            if len(q) <= 255:
                todo += [((q[:-len(a)] + ('' if b == '.' else b)) or '.', n + 1) for a, b in ds if q != a and under(q, a)]
        return False

    def zone(self, o):
        r, k = self.r, self.k
        recs = [soa(o, self.ttl())]
        mine = [x for x in self.names if under(x, o)]
        kids = [x for x in self.origins if x != o and under(x, o) and
                not any(y != o and y != x and under(x, y) and under(y, o) for y in self.origins)]

        def delegation(child):
            """NS records at the child's name, as one side has them"""
            ns = list(self.servers[child])
            if r.random() < k['faults']:
                c = r.random()
                if c < 0.25:
                    ns.append(r.choice(self.pool))
                elif c < 0.4:
                    ns.append('ns.unknown.')
                elif c < 0.55 and len(ns) > 1:
                    ns.pop()
                elif c < 0.7:
                    ns.append(join('ns9', child))
                elif c < 0.8:
                    ns = [r.choice(self.pool)]
            return list(dict.fromkeys(ns))

        def addresses(ns, force=False):
            out = []
            for s in ns:
                if not under(s, o):
                    continue
                if r.random() < (0.15 if k['faults'] else 0.05):
                    continue
                out.append((s, 'A', self.ttl(), '10.0.9.%d' % (1 + self.pool.index(s) if s in self.pool else 99)))
                if r.random() < 0.25:
                    out.append((s, 'AAAA', self.ttl(), 'fd00::9'))
                if r.random() < k['faults'] * 0.15:
                    out.append((s, 'A', self.ttl(), '10.0.9.77'))
            return out
        ns = delegation(o)
        if r.random() < 0.93:
            recs += [(o, 'NS', self.ttl(), s) for s in ns]
            recs += addresses(ns)
        for c in kids:
            if r.random() < 0.92:
                ns = delegation(c)
                recs += [(c, 'NS', self.ttl(), s) for s in ns]
                recs += addresses(ns)
        for _ in range(r.randint(*k['extra'])):
            n = r.choice(mine or [join('www', o)])
            c = r.random() * (k['cname'] + k['dname'] + 2.0)
            if c < k['cname']:
                t = 'CNAME'
            elif c < k['cname'] + k['dname']:
                t = 'DNAME'
            else:
                t = r.choice(k['plain_types'] if r.random() < 0.85 else ('SRV', 'SPF', 'PTR', 'RRSIG', 'NSEC', 'DS'))
            if t == 'DNAME':
                d = r.choice(self.targets)
                if n == '.' or self.grows(n, d) or '*' in n:
                    continue
                self.dnames.append((n, d))
                recs.append((n, t, self.ttl(), d))
                continue
            if t == 'NS':
                if n in self.origins or r.random() < 0.7 or '*' in n:
                    continue
                recs.append((n, t, self.ttl(), r.choice(self.pool + ['ns.unknown.'])))
                continue
            if t == 'CNAME' and n in self.origins:
                continue
            recs.append((n, t, self.ttl(), rdata_for(r, t, self.targets)))
            if r.random() < 0.2 and t not in ('CNAME',):
                recs.append((n, t, self.ttl(), rdata_for(r, t, self.targets)))
        if r.random() < k['ds'] and kids:
            recs.append((kids[0], 'DS', '300', rdata_for(r, 'DS', [])))
        body = recs[1:]
        if r.random() < 0.3:
            r.shuffle(body)
        return recs[:1] + body

    def disturb(self, o, recs):
        r = self.r
        body = recs[1:]
        for _ in range(r.randint(1, 2)):
            c = r.random()
            if body and c < 0.4:
                body.pop(r.randrange(len(body)))
            elif c < 0.7:
                n = r.choice([x for x in self.names if under(x, o)] or [join('www', o)])
                if '*' not in n:
                    body.append((n, 'A', '300', '10.0.0.%d' % r.randint(1, 4)))
            elif body:
                i = r.randrange(len(body))
                n, t, ttl, d = body[i]
                body[i] = (n, t, '0' if ttl != '0' else '60', d)
        return recs[:1] + body

    # -------------------------------------------------------------- jobs
    def domain(self):
        r = self.r
        c = r.random()
        if c < 0.3:
            return r.choice(self.origins)
        if c < 0.6:
            return r.choice(self.names)
        if c < 0.75:
            return '.'
        if c < 0.85:
            return 't.'
        return r.choice(['nx.' + r.choice(self.origins[-2:]) if self.origins[-1] != '.' else 'nx.t.', 'p.q.t.',
                         'p.' + r.choice(self.names).replace('*.', '')])

    def types(self, small=False):
        r = self.r
        c = r.random()
        if c < 0.3:
            return ['A']
        if c < 0.4:
            return ['CNAME']
        if c < 0.5:
            return ['NS']
        if c < 0.65:
            return r.sample(TYPES, r.choice([1, 1, 2, 3, 6, 13]))
        return sorted(r.sample(['A', 'AAAA', 'TXT', 'MX', 'NS', 'CNAME', 'SOA', 'PTR', 'DNAME'], r.randint(1, 3)))

    def domains(self):
        r = self.r
        c = r.random()
        x = r.choice(self.origins + self.names[:3])
        if '*' in x:
            x = 't.'
        out = [x]
        if c < 0.3:
            out.append(r.choice(['u.', 'ext.', 't.', 'rt.']))
        return [recase(r, d) if r.random() < 0.2 else d for d in out]

    def values(self, types):
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 2])):
            t = r.choice(types)
            have = [d for z in self.zones for _, tt, _, d in z['recs'] if tt == t]
            if have and r.random() < 0.8:
                out.append(r.choice(have))
            else:
                out.append('10.0.0.1')
        # several records of one name make a matching set likelier
        if r.random() < 0.3:
            z = r.choice(self.zones)
            n = r.choice(z['recs'])[0]
            got = sorted({d for m, tt, _, d in z['recs'] if m == n and tt in types})
            if got:
                out = got
        return out

    def prop(self, name):
        r = self.r
        p = {'PropertyName': name}
        if name in ('ResponseConsistency', 'ResponseReturned', 'ZeroTTL'):
            p['Types'] = self.types()
        elif name == 'ResponseValue':
            p['Types'] = self.types()
            p['Value'] = self.values(p['Types'])
        elif name == 'Hops':
            p['Value'] = r.choice([0, 1, 1, 2, 3]) if r.random() < .97 else r.choice([255, 256, 257, 65536, 2147483647])
        elif name == 'Rewrites':
            p['Value'] = r.choice([0, 0, 1, 2]) if r.random() < .97 else r.choice([256, 257, 65536, 2147483647])
        elif name in ('QueryRewrite', 'NameserverContact'):
            p['Value'] = self.domains()
        elif name == 'AllAliases':
            p['Value'] = list(dict.fromkeys(r.choice(self.targets) for _ in range(r.choice([1, 2, 3, 7]))))
            if r.random() < 0.3:
                p['Value'] = [recase(r, x) for x in p['Value']]
        if isinstance(p.get('Value'), list):
            if r.random() < 0.02:
                p['Value'] = []
            if name != 'ResponseValue' and r.random() < 0.1:
                p['Value'] = [x.rstrip('.') or x for x in p['Value']]
            if name == 'ResponseValue' and r.random() < 0.1:
                p['Value'] = [recase(r, x) for x in p['Value']]
            if r.random() < 0.03:
                p['Value'] += p['Value'][:1]
        return p

    PROPS = ['ResponseConsistency', 'ResponseReturned', 'ResponseValue', 'Hops', 'Rewrites', 'DelegationConsistency',
             'LameDelegation', 'QueryRewrite', 'NameserverContact', 'RewriteBlackholing', 'AllAliases', 'ZeroTTL',
             'StructuralDelegationConsistency', 'DNAMESubstitutionCheck', 'InfiniteDNameRec']

    def visits(self, domain, cap):
        """how many names would be enumerated below the domain (aliases of whole subtrees multiply them)"""
        kids, dn, nodes = {}, {}, {'.'}

        def add(n):
            while n not in nodes:
                nodes.add(n)
                kids.setdefault(parent(n), []).append(n)
                n = parent(n)
        for z in self.zones:
            for n, t, _, d in z['recs']:
                add(n.lower())
                if t == 'DNAME':
                    add(d.lower())
                    if d not in dn.setdefault(n, []):
                        dn[n].append(d)
        domain = domain.lower()
        labels = [] if domain == '.' else domain[:-1].split('.')
        at, done = {('.', len(labels))}, set()
        while at - done:
            v = (at - done).pop()
            done.add(v)
            for d in dn.get(v[0], []):
                at.add((d, v[1]))
            if v[1]:
                c = join(labels[v[1] - 1], v[0])
                if c in nodes:
                    at.add((c, v[1] - 1))
        todo = [(n, domain) for n, k in done if k == 0]
        todo = [(n, name, frozenset()) for n, name in todo]
        count = 0
        while todo and count <= cap:
            n, name, way = todo.pop()
            count += 1
            way |= {(n, name)}
            for x, y in [(c, join(c.split('.')[0], name)) for c in kids.get(n, [])] + [(d, name) for d in dn.get(n, [])]:
                if len(y) <= 255 and (x, y) not in way:
                    todo.append((x, y, way))
        return count

    CAP = 150

    def job(self, must=(), some=2, sub=None):
        r = self.r
        d = self.domain()
        names = list(must)
        for _ in range(r.randint(0, some)):
            names.append(r.choice(self.PROPS))
        seen, props = set(), []
        for n in names:
            if n in seen and n not in ('ResponseValue', 'ResponseReturned', 'ResponseConsistency', 'ZeroTTL', 'Hops', 'Rewrites',
                                       'QueryRewrite', 'NameserverContact', 'AllAliases'):
                continue
            seen.add(n)
            props.append(self.prop(n))
        if props and r.random() < 0.1:      # one of them again, asking for something else
            props.append(self.prop(r.choice(props)['PropertyName']))
            if props[-1]['PropertyName'] not in ('ResponseValue', 'ResponseReturned', 'ResponseConsistency', 'ZeroTTL', 'Hops', 'Rewrites',
                                                 'QueryRewrite', 'NameserverContact', 'AllAliases'):
                props.pop()
        if r.random() < 0.3:
            r.shuffle(props)
        if not props:
            props = [self.prop('Hops')]
        if len(d) > 1 and r.random() < 0.05:
            d = d[:-1]
        return {'Domain': recase(r, d) if r.random() < 0.15 else d,
                'SubDomain': (r.random() < 0.7) if sub is None else sub, 'Properties': props}

    def scenario(self, id, jobs, fancy=0.15, **more):
        r = self.r
        zones = []
        mine, tops, jobs = relabelled(self.zones, self.tops, jobs)
        for i, z in enumerate(mine):
            if r.random() < fancy:
                meta = r.choice(['', '', z['origin']])
                text = Fancy(r, meta).text(z['recs'])
            else:
                meta, text = '', plain(z['recs'])
            zones.append({'file': 'z%d.txt' % (i + 1), 'text': text, 'ns': z['ns'], 'origin': meta})
        s = {'id': id, 'top': tops, 'zones': zones, 'lint': False, 'jobs': jobs, 'queries': [], 'graphs': True,
             'maxgraphs': 60}
        s.update(more)
        return s


# ------------------------------------------------------------------ files with a lot of zones
def shelf(id, texts, jobs=(), lint=False, queries=(), origins=None):
    """many unrelated zone files, each on a server of its own"""
    zones = [{'file': 'z%d.txt' % (i + 1), 'text': t, 'ns': 'ns%d.s.' % (i + 1), 'origin': (origins or {}).get(i, '')}
             for i, t in enumerate(texts)]
    return {'id': id, 'top': ['ns1.s.'], 'zones': zones, 'lint': lint, 'jobs': list(jobs), 'queries': list(queries),
            'graphs': False, 'maxgraphs': 0}


def reveal_job(types, domain='.'):
    """a job whose report shows the data of every name, for builds whose insides can not be looked at"""
    return {'Domain': domain, 'SubDomain': True,
            'Properties': [{'PropertyName': 'ResponseValue', 'Types': [t], 'Value': ['-']} for t in types] +
                          [{'PropertyName': 'ZeroTTL', 'Types': list(types)}]}


def syntax_zone(r, origin=None):
    """records of one valid zone with all types, for the reading of zone files"""
    o = origin or r.choice(['t.', 'a.t.', 'x.y.z.', 'org.'])
    names = [o, join('www', o), join('a', o), join('b', join('a', o)), join('*', join('w', o)), join('mx', o), join('ns', o),
             join('txt', o), join('in', o)]
    tg = names[:4] + ['out.u.', 'deep.er.u.', 'short.']
    recs = [(o, 'SOA', r.choice(['0', '300', '3600']), rdata_for(r, 'SOA', [o]))]
    used_c = set()
    for _ in range(r.randint(3, 9)):
        n = r.choice(names)
        t = r.choice(TYPES + ['DS'])
        if t == 'SOA' or (t == 'DNAME' and n == '.'):
            continue
        recs.append((n, t, r.choice(['0', '300', '300', '3600', '007', '2147483647']), rdata_for(r, t, tg, rich=True)))
        if r.random() < 0.5:
            recs.append((n, r.choice(['A', 'AAAA', 'TXT']), recs[-1][2], '10.0.0.%d' % r.randint(1, 9)))
    return o, recs
