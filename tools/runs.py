#!/usr/bin/env python3
"""Runs of the program itself: command lines, metadata, jobs files, faults.  spec/Run.tla decides what they have to end with."""
import copy, json, os, random, re, resource, signal, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import conf, gen, profiles
from gen import World, soa, plain

ODD = '\ufffd'
_NONASCII = re.compile('[^\x09\x0a\x0d\x20-\x7e]+')


def tame(x):
    """every run of characters that are not printable ASCII as one and the same character"""
    if isinstance(x, str):
        return _NONASCII.sub(ODD, x)
    if isinstance(x, list):
        return [tame(y) for y in x]
    if isinstance(x, dict):
        return {tame(k): tame(v) for k, v in x.items()}
    return x


def world(r, i, lint=False, props=2, jobs=(1, 1, 2), fancy=0.2):
    w = World(r, kids=(1, 2), extra=(0, 3), root=0.2)
    js = []
    for _ in range(r.choice(jobs)):
        js.append(gen.recase(r, w.domain()) if r.random() < .15 else w.job(some=props))
    s = w.scenario('r%s' % i, js, fancy=fancy, lint=lint)
    s.update(cmd={}, meta={}, run=dict(usage=True, metadata='object', hastop=True, haszones=True, tops='names', jobs='list', badjob=0,
                                       out='ok', entries=[]), kind='valid', odd=None)
    return s


def good(e=True):
    return dict(object=True, hasfile=True, hasns=True, texts=True, exists=True, readable=True)


# ------------------------------------------------------------------ what can be wrong
def faults():
    """name -> function (scenario, random) that puts the fault in"""
    F = {}

    def fault(f):
        F[f.__name__] = f
        return f

    @fault
    def metadata_absent(s, r):
        s['meta']['raw'] = None
        s['run']['metadata'] = 'absent'

    @fault
    def metadata_garbage(s, r):
        s['meta']['raw'] = r.choice(['', '{', '[]', 'null', '3', '"x"', '{"TopNameServers": ["ns1.t."], "ZoneFiles": [', '{]}', 'x' * 10,
                                     '[{"FileName": "z1.txt", "NameServer": "ns1.t."}]', '\x00'])
        s['run']['metadata'] = 'garbage'

    @fault
    def metadata_cut(s, r):
        s['meta']['cut'] = r.random()
        s['run']['metadata'] = 'garbage'

    @fault
    def no_top(s, r):
        s['meta']['drop'] = ['TopNameServers']
        s['run']['hastop'] = False

    @fault
    def no_zonefiles(s, r):
        s['meta']['drop'] = ['ZoneFiles']
        s['run']['haszones'] = False

    @fault
    def misspelt(s, r):
        s['meta']['rename'] = r.choice([('TopNameServers', 'TopNameservers'), ('ZoneFiles', 'Zonefiles')])
        s['run']['hastop' if s['meta']['rename'][0][0] == 'T' else 'haszones'] = False

    @fault
    def top_empty(s, r):
        s['top'] = []

    @fault
    def top_unknown(s, r):
        s['top'] = r.choice([['ns.nowhere.'], ['ns.nowhere.', 'x' + s['zones'][0]['ns']], [s['zones'][0]['ns'].rstrip('.') + 'x.']])

    @fault
    def top_numbers(s, r):
        s['top'] = s['top'] + [r.choice([3, None, {'a': 1}])]
        s['run']['tops'] = 'other'

    @fault
    def zones_empty(s, r):
        s['zones'] = []

    @fault
    def entry_without_file(s, r):
        s['meta']['entry'] = (r.randrange(len(s['zones'])), 'FileName', None)

    @fault
    def entry_without_server(s, r):
        s['meta']['entry'] = (r.randrange(len(s['zones'])), 'NameServer', None)

    @fault
    def entry_with_number(s, r):
        s['meta']['entry'] = (r.randrange(len(s['zones'])), r.choice(['FileName', 'NameServer']), 7)

    @fault
    def entry_text(s, r):
        s['meta']['entry'] = (r.randrange(len(s['zones'])), '', None)

    @fault
    def file_missing(s, r):
        s['meta']['missing'] = r.randrange(len(s['zones']))

    @fault
    def file_missing_last(s, r):
        s['meta']['missing'] = len(s['zones']) - 1

    @fault
    def file_directory(s, r):
        s['meta']['directory'] = r.randrange(len(s['zones']))

    @fault
    def file_other_case(s, r):
        s['meta']['upper'] = r.randrange(len(s['zones']))

    @fault
    def no_leading_soa(s, r):
        z = r.choice(s['zones'])
        z['text'] = 'x.t. 300 IN A 10.0.0.1\n' + z['text']
        z['origin'] = ''

    @fault
    def jobs_absent(s, r):
        s['run']['jobs'] = 'absent'

    @fault
    def jobs_garbage(s, r):
        s['run']['jobs'] = 'garbage'
        s['cmd']['jobsraw'] = r.choice(['', '[', '[{"Domain": "t."', '{"Domain"', 'jobs', '[,]'])

    @fault
    def job_broken(s, r):
        k = r.randrange(len(s['jobs']) + 1)
        j = copy.deepcopy(next((x for x in s['jobs'] if isinstance(x, dict)), {'Domain': 't.', 'SubDomain': True, 'Properties': []}))
        c = r.randrange(5)
        if c == 0:
            j['Domain'] = 5
        elif c == 1:
            j['SubDomain'] = 'yes'
        elif c == 2:
            j['Properties'] = [{'PropertyName': 5}]
        elif c == 3:
            j = 4
        else:
            j['Domain'] = ['t.']
        s['meta']['broken'] = (k, j)
        s['run']['badjob'] = k + 1

    @fault
    def out_nowhere(s, r):
        s['cmd']['out'] = 'nowhere/out.json'
        s['run']['out'] = 'none'

    @fault
    def out_directory(s, r):
        s['cmd']['out'] = 'adir'
        s['run']['out'] = 'none'

    @fault
    def out_full(s, r):
        s['cmd']['out'] = '/dev/full'
        s['run']['out'] = 'none'

    @fault
    def out_limit(s, r):
        s['cmd']['limit'] = 20
        s['run']['out'] = 'full'

    @fault
    def out_limit_none(s, r):
        s['cmd']['limit'] = 1
        s['run']['out'] = 'none'

    @fault
    def usage_option(s, r):
        s['cmd']['extra'] = [r.choice(['--no-such-option', '--output', 'second_directory'])]
        s['run']['usage'] = False

    @fault
    def usage_nothing(s, r):
        s['cmd']['nodir'] = True
        s['run']['usage'] = False

    @fault
    def directory_absent(s, r):
        s['cmd']['dir'] = 'nodir'
        s['run']['metadata'] = 'absent'
    return F


FAULTS = faults()

# ways to call the program that make no difference
def vary(s, r):
    c = s['cmd']
    c['opts'] = [o for o in ('--stats', '--log', '--verbose') if r.random() < 0.25]
    if s['lint'] and not c.get('limit'):
        c['opts'].append('--lint')
    c['late'] = r.random() < 0.3           # options before the directory
    c['slash'] = r.random() < 0.3
    c['sub'] = r.random() < 0.2            # zone files in a directory of their own
    c['old'] = r.random() < 0.4            # an older, longer report is in the way
    if 'out' not in c:
        c['out'] = r.choice(['out.json', 'out.json', 'report with blank.json', 'adir/out.json', None])
    c['reltmp'] = r.random() < 0.5         # relative or absolute paths
    c['indent'] = r.choice([None, 2])
    return s


def oddities(r, i):
    """zone data with all kinds of characters"""
    s = world(r, i)
    seqs = [b'\xe9', b'\xff\xfe', 'é'.encode(), b'\x80\x81\xfe', '日本'.encode(), b'\xc3', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xe2\x82',
            b'\xf0\x9f\x98\x80',
            b'\x01', b'\x07\x1b', b'\x7f', b'\xe9\x08']
    s['odd'] = r.choice(seqs).hex()
    lab = r.choice(['a' + ODD, ODD, ODD + 'b', 'x' + ODD + 'y'])
    z = r.choice(s['zones'])
    o = z['origin']
    first = z['text'].split()[0].lower()
    if not first.endswith('.') or r.random() < .3:
        z = s['zones'][0]
        first = 't.'
        z['text'] = plain([soa('t.'), ('t.', 'NS', '300', 'ns1.t.'), ('ns1.t.', 'A', '300', '10.0.0.1')])
        z['origin'] = ''
    n = gen.join(lab, first)
    ctl = ''.join(chr(r.choice([0x5c, 0x2f, 0x22])) for _ in range(2)).replace('\\', '\\\\').replace('"', '\\"')
    lines = ['%s 0 IN TXT "a%s%s%s"' % (n, ODD, r.choice(['', ' ', 'q']), ctl),
             '%s 0 IN TXT "back\\\\slash / %s"' % (n, ODD),
             '%s 300 IN CNAME %s' % (gen.join('c', first), n), '%s 300 IN CNAME %s' % (gen.join(lab + 'c', first), r.choice([n, 'out.u.'])),
             '%s 0 IN A 10.0.0.4' % gen.join('q', first), '; comment %s' % ODD,
             '%s 300 IN DNAME %s' % (gen.join('dd', first), gen.join(lab, 'u.')),
             # no other value differs from this one at the odd bytes: the specification has them sort last, control characters do not
             '%s 300 IN MX 10 %s' % (gen.join('m', first), gen.join('zq' + lab, 'u.')),
             '%s 300 IN NS %s' % (gen.join('k', first), gen.join(lab, first))]
    r.shuffle(lines)
    z['text'] = z['text'].rstrip('\n') + '\n' + '\n'.join(lines[:r.randint(3, len(lines))]) + '\n'
    s['zones'] = [y for y in s['zones']]
    s['jobs'] = [{'Domain': first, 'SubDomain': True, 'Properties': [
        {'PropertyName': 'ResponseValue', 'Types': ['TXT', 'MX'], 'Value': ['x']}, {'PropertyName': 'ZeroTTL', 'Types': ['TXT', 'A']},
        {'PropertyName': 'QueryRewrite', 'Value': ['none.']}, {'PropertyName': 'RewriteBlackholing'}, {'PropertyName': 'ResponseReturned', 'Types': ['AAAA']},
        {'PropertyName': 'InfiniteDNameRec'}, {'PropertyName': 'StructuralDelegationConsistency'}]}]
    if r.random() < 0.3:
        s['lint'] = True
    s['kind'] = 'odd'
    return s


def finish(s, r):
    """run.entries and the files from the faults chosen"""
    vary(s, r)
    m = s['meta']
    es = [good() for _ in s['zones']]
    if 'entry' in m:
        k, f, v = m['entry']
        e = es[k]
        if f == '':
            e['object'] = False
        elif v is None:
            e['hasfile' if f == 'FileName' else 'hasns'] = False
        else:
            e['texts'] = False
    if 'missing' in m:
        es[m['missing']]['exists'] = False
    if 'upper' in m:
        es[m['upper']]['exists'] = False
    if 'directory' in m:
        es[m['directory']]['readable'] = False
    s['run']['entries'] = es
    return s


def batch(seed, i, tier):
    out = []
    last = 4 if tier == 'quick' else 60
    if i >= last:
        return []
    if i == 0:
        for k in range(2 if tier == 'quick' else 6):
            for name, f in FAULTS.items():
                r = profiles.rnd('fault', seed, name, k)
                s = world(r, 'f%s%d' % (name, k), lint=r.random() < 0.15)
                f(s, r)
                s['kind'] = name
                out.append(finish(s, r))
    n = 90 if tier == "quick" else 200
    for k in range(n):
        r = profiles.rnd('run', seed, i, k)
        if k % 3 == 2:
            s = oddities(r, '%d.%d' % (i, k))
        else:
            s = world(r, '%d.%d' % (i, k), lint=r.random() < 0.35, props=r.choice([1, 3, 5]), jobs=(1, 1, 2, 3))
            c = r.random()
            if c < 0.12:
                s['run']['jobs'] = 'none'
                s['jobs'] = []
            elif c < 0.2:
                s['jobs'] = []
            elif c < 0.35:                 # two faults at a time, or a fault late on
                for f in r.sample(sorted(FAULTS), 2):
                    if f == 'zones_empty' or (f in ('metadata_absent', 'metadata_garbage', 'metadata_cut') and s['run']['metadata'] != 'object'):
                        continue
                    if f.startswith('out_') and s['run']['out'] != 'ok':
                        continue
                    FAULTS[f](s, r)
                    s['kind'] = 'two faults'
            if r.random() < .3:
                s['top'] = [gen.recase(r, t) if isinstance(t, str) else t for t in s['top']]
            if r.random() < .2:
                for z in s['zones']:
                    z['ns'] = gen.recase(r, z['ns'])
        out.append(finish(s, r))
    for kind in LARGE:
        r = profiles.rnd('large', seed, i, kind)
        out.append(large(r, 'l%s%d' % (kind, i), kind))
    return out


def large(r, i, kind):
    """more of something than fits into a byte: findings, lint entries, jobs, classes, steps, characters"""
    s = world(r, i)
    recs = [soa('t.'), ('t.', 'NS', '300', 'ns1.t.'), ('ns1.t.', 'A', '300', '10.0.0.1')]
    prop = lambda n, **k: dict(k, PropertyName=n)
    job = lambda d, sub, *ps: {'Domain': d, 'SubDomain': sub, 'Properties': list(ps)}
    jobs = [job('ns1.t.', False, prop('Hops', Value=0))]
    if kind == 'findings':
        recs += [('n%d.t.' % k, 'CNAME', '300', 'x.t.') for k in range(r.choice([255, 256, 257, 300]))] + [('x.t.', 'A', '300', '10.0.0.2')]
        jobs.insert(r.randint(0, 1), job('t.', True, prop('Rewrites', Value=0, Types=['A'])))
    elif kind == 'classes':
        recs += [('n%d.t.' % k, 'A', '300', '10.0.0.2') for k in range(r.choice([125, 127, 128, 255, 300]))]
        jobs.insert(r.randint(0, 1), job('t.', True, prop('Hops', Value=r.choice([0, 3]))))
    elif kind == 'entries':
        recs += [('n%d.t.' % (k // 2), 'A', '300', '10.0.0.2') for k in range(r.choice([510, 512, 514, 600]))]
        s['lint'] = True
    elif kind == 'jobs':
        pool = [job(d, sub, p) for d in ('t.', 'ns1.t.', 'x.t.', 'nx.t.') for sub in (True, False) for p in
                (prop('Hops', Value=0), prop('ResponseValue', Types=['A'], Value=['10.0.0.1']), prop('ResponseReturned', Types=['TXT']),
                 prop('ZeroTTL', Types=['A', 'NS']))]
        recs += [('x.t.', 'A', '0', '10.0.0.2')]
        jobs = [r.choice(pool) for _ in range(r.choice([20, 33, 70]))]
    elif kind == 'steps':
        n = r.choice([100, 128, 130, 160])
        recs += [('c%d.t.' % k, 'CNAME', '300', 'c%d.t.' % (k + 1)) for k in range(n)] + [('c%d.t.' % n, 'A', '0', '10.0.0.2')]
        jobs.insert(r.randint(0, 1), job('c0.t.', False, prop('Rewrites', Value=n - r.randint(0, 1), Types=['A']), prop('ZeroTTL', Types=['A'])))
    else:
        recs += [('x.t.', 'TXT', '0', ' '.join('"%s"' % ('abcdefgh ' * 28) for _ in range(r.choice([1, 4, 17])))), ('x.t.', 'TXT', '0', '"y"')]
        jobs.append(job('x.t.', False, prop('ZeroTTL', Types=['TXT']), prop('ResponseValue', Types=['TXT'], Value=['"y"'])))
    body = recs[1:]
    r.shuffle(body)
    s.update(top=['ns1.t.'], zones=[{'file': 'z1.txt', 'text': plain(recs[:1] + body), 'ns': 'ns1.t.', 'origin': ''}], jobs=jobs, kind='large: ' + kind)
    return finish(s, r)


LARGE = ['findings', 'classes', 'entries', 'jobs', 'steps', 'texts']


def telling(seed, i, tier):
    """runs that tell about themselves: many jobs, some of them twice"""
    out = []
    if i >= (4 if tier == 'quick' else 60):
        return []
    kinds = [k for k in LARGE if k != 'entries']
    for k in range((70 if tier == 'quick' else 200) + len(kinds)):
        r = profiles.rnd('tell', seed, i, k)
        if k < len(kinds):
            s = large(r, 't%d.%d' % (i, k), kinds[k])
            s['cmd']['opts'] = s['cmd']['opts'] + r.choice([['--stats'], ['--log'], ['--stats', '--log']])
            out.append(s)
            continue
        s = world(r, 't%d.%d' % (i, k), props=r.choice([1, 3]), jobs=(1, 2, 3, 4))
        c = r.random()
        if c < 0.1:
            s['run']['jobs'] = 'none'
            s['jobs'] = []
        elif c < 0.15:
            s['jobs'] = []
        elif c < 0.5:
            for _ in range(r.randint(1, 2)):
                s['jobs'].insert(r.randrange(len(s['jobs']) + 1), copy.deepcopy(r.choice(s['jobs'])))
        finish(s, r)
        s['cmd']['opts'] = [o for o in s['cmd']['opts'] if o not in ('--stats', '--log')] + r.choice([['--stats'], ['-s'], ['--log'], ['--stats', '--log'], ['-l']])
        out.append(s)
    return out


# ------------------------------------------------------------------ running
def execute(binary, s, root, timeout):
    """runs the program on the scenario in directory root -> observation"""
    c, m, run = s['cmd'], s['meta'], s['run']
    zdir = os.path.join(root, 'zones')
    os.makedirs(zdir + '/sub')
    os.makedirs(root + '/adir')
    odd = bytes.fromhex(s['odd']) if s.get('odd') else ODD.encode()
    entries = []
    for k, z in enumerate(s['zones']):
        name = ('sub/' if c.get('sub') else '') + z['file']
        path = os.path.join(zdir, name)
        if m.get('directory') == k:
            os.makedirs(path)
        elif m.get('missing') != k:
            with open(path, 'wb') as f:
                f.write(odd.join(p.encode() for p in z['text'].split(ODD)))
        e = {'FileName': name.upper() if m.get('upper') == k else name, 'NameServer': z['ns']}
        if z.get('origin'):
            e['Origin'] = z['origin']
        if 'entry' in m and m['entry'][0] == k:
            _, f, v = m['entry']
            if f == '':
                e = name
            elif v is None:
                del e[f]
            else:
                e[f] = v
        entries.append(e)
    meta = {'TopNameServers': s['top'], 'ZoneFiles': entries}
    for k in m.get('drop', []):
        del meta[k]
    if 'rename' in m:
        a, b = m['rename']
        meta[b] = meta.pop(a)
    text = m['raw'] if 'raw' in m else json.dumps(meta, indent=c.get('indent'))
    if 'cut' in m and text:
        text = text.rstrip()
        text = text[:1 + int(m['cut'] * (len(text) - 2))]
    if text is not None:
        with open(zdir + '/metadata.json', 'w') as f:
            f.write(text)
    jobs = list(s['jobs'])
    if 'broken' in m:
        jobs.insert(m['broken'][0], m['broken'][1])
    jfile = os.path.join(root, 'jobs.json')
    if run['jobs'] in ('list', 'garbage'):
        with open(jfile, 'w') as f:
            f.write(c.get('jobsraw') if run['jobs'] == 'garbage' else json.dumps(spelled(jobs), indent=c.get('indent')))
    pre = '' if c.get('reltmp') else root + '/'
    args = []
    if run['jobs'] != 'none':
        args.append('--jobs=%sjobs.json' % pre)
    out = c.get('out')
    if out:
        args.append('--output=' + (out if out.startswith('/') else pre + out))
    args += c.get('opts', [])
    d = [] if c.get('nodir') else [pre + (c.get('dir') or 'zones') + ('/' if c.get('slash') else '')]
    argv = [binary] + (args + d if c.get('late') else d + args) + c.get('extra', [])
    opath = out if out and out.startswith('/') else os.path.join(root, out or 'output.json')
    stale = '[{"stale": "%s"}]' % ('x' * 50000)
    if c.get('old') and os.path.isdir(os.path.dirname(opath)) and not os.path.isdir(opath) and not opath.startswith('/dev'):
        with open(opath, 'w') as f:
            f.write(stale)

    def limits():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if c.get('limit'):
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (c['limit'], c['limit']))
    o = dict(id=s['id'], final=True, zero=False, written=False, lintok=True, lint=[], lintwritten=False, hasecs=False)
    rep = None
    try:
        with open(os.path.join(root, '.said'), 'wb') as said:
            p = subprocess.run(argv, cwd=root, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL if c.get('limit') else said,
                               stderr=subprocess.DEVNULL, timeout=timeout, preexec_fn=limits)
        o['zero'] = p.returncode == 0
        o['end'] = 'exit %d' % p.returncode if p.returncode >= 0 else 'signal %d' % -p.returncode
    except subprocess.TimeoutExpired:
        o['end'] = 'timeout'
    if os.path.isfile(opath):
        with open(opath, 'rb') as f:
            b = f.read()
        if b != stale.encode():
            o['written'] = True
            try:
                rep = tame(json.loads(b.decode('utf-8'), object_pairs_hook=nodup))
            except ValueError:
                rep = {'malformed': b[:300].decode('utf-8', 'replace')}
    if o['written']:
        r, twice = conf.report(rep)
    else:
        r, twice = conf.report([])
    o['jobs'] = [{'count': -1, 'tasks': -1, 'structural': -1, 'ecs': [], 'graphs': [], 'rep': r, 'twice': twice}]
    o['info'] = []
    for where, path, opts in (('terminal', '.said', ('--stats', '-s')), ('log file', 'log.txt', ('--log', '-l'))):
        if set(opts) & set(c.get('opts', [])) and os.path.exists(os.path.join(root, path)):
            with open(os.path.join(root, path), 'rb') as f:
                t = told(f.read().decode('utf-8', 'replace'), len(rep) if isinstance(rep, list) else 0)
            if t:
                o['info'].append(dict(t, where=where))
    if os.path.exists(root + '/lint.json'):
        o['lintwritten'] = True
        try:
            with open(root + '/lint.json', 'rb') as f:
                l = tame(json.loads(f.read().decode('utf-8')))
            o['lintok'], o['lint'] = conf.lint_entries(l)
            zd = {pre + (c.get('dir') or 'zones'), pre + 'zones'}
            for e in o['lint']:
                if e[1] == 'RR':
                    e[0] = os.path.basename(e[0])
        except ValueError:
            o['lintok'] = False
    elif '--lint' in c.get('opts', []):
        o['lintok'] = False
    return o


NUM = r'(-?[0-9.]+(?:e[-+]?[0-9]+)?)'
SIZE = r'Interpretation Graph %s: Max=' + NUM + ', Min=' + NUM + ', Mean=' + NUM + '(?:,|$|\\s)'


def told(text, elements):
    """the statistics in the output of a run.  What is not found (other words) is left out"""
    lines = text.splitlines()
    rest, jobs = [], []

    def last(pattern):
        m = [x for x in (re.search(pattern, l) for l in lines) if x]
        return m[-1] if m else None
    m = last('Total number of RRs parsed across all zone files: ' + NUM)
    if m:
        rest.append({'what': 'parsed', 'n': whole(m.group(1))})
    m = last('RR Stats: (.*)$')
    if m:
        rest.append({'what': 'types', 'list': [x.strip().rsplit(':', 1) for x in m.group(1).split(',') if x.strip()]})
    m = last('Label Graph: vertices = ' + NUM)
    if m:
        rest.append({'what': 'labels', 'n': whole(m.group(1))})
    m = last('Total number of violations: ' + NUM)
    if m:
        rest.append({'what': 'violations', 'n': whole(m.group(1)), 'elements': elements})
    for l in lines:
        m = re.search('Number of ECs: ' + NUM, l)
        if m:
            jobs.append({'count': whole(m.group(1)), 'ok': 0})
        for what, k in (('Vertices', 'v'), ('Edges', 'e')):
            m = re.search(SIZE % what, l)
            if m and jobs:
                j = jobs[-1]
                j['ok'] += 1
                j[k + 'max'], j[k + 'min'] = whole(m.group(1)), whole(m.group(2))
                j[k + 'sum'] = round(float(m.group(3)) * j['count'])
    if any(j['ok'] != 2 for j in jobs if j['count'] > 0):
        jobs = []
    for j in jobs:
        if j.pop('ok') != 2:
            j.update(vmax=0, vmin=0, vsum=0, emax=0, emin=0, esum=0)
    m = last('Total number of ECs across all jobs: ' + NUM)
    if m and jobs:
        rest.append({'what': 'total', 'n': whole(m.group(1)), 'sum': sum(j['count'] for j in jobs)})
    return {'rest': rest, 'jobs': jobs} if rest or jobs else None


def whole(x):
    f = float(x)
    return int(f) if f == int(f) and abs(f) < 2 ** 31 else -12345


def nodup(pairs):
    if len({k for k, _ in pairs}) != len(pairs):
        raise ValueError('a key twice')
    return dict(pairs)


def spelled(jobs):
    """jobs as strings stand for the default job of the scenarios, which the program has no way to name: as a list of properties"""
    out = []
    for j in jobs:
        if isinstance(j, str):
            j = {'Domain': j, 'SubDomain': True, 'Properties': [
                {'PropertyName': 'Hops', 'Value': 2}, {'PropertyName': 'Rewrites', 'Value': 1}, {'PropertyName': 'DelegationConsistency'},
                {'PropertyName': 'LameDelegation'}, {'PropertyName': 'QueryRewrite', 'Value': [j]}, {'PropertyName': 'RewriteBlackholing'}]}
        out.append(j)
    return out


def specified(s, aspects):
    t = conf.specified(dict(s, jobs=spelled(s['jobs'])), aspects)
    t['top'] = [x for x in s['top'] if isinstance(x, str)]
    t['lint'] = '--lint' in s['cmd'].get('opts', [])
    run = s['run']
    if run['jobs'] != 'list':
        t['jobs'] = []
    if run['badjob']:                      # what comes after the broken job does not matter
        t['jobs'] = t['jobs'][:run['badjob'] - 1] + [{'d': '.', 'sub': True, 'dflt': True, 'props': []}]
    t['run'] = run
    return t


ASPECTS = ['exit', 'loops', 'report', 'lint'] + ['rep:' + k for k in conf.KINDS]


def observe(binary, scenarios, work, timeout=30):
    base = os.path.join(work, 'runs%d' % time.time_ns())
    os.makedirs(base)

    def one(k):
        import shutil
        s = scenarios[k]
        d = os.path.join(base, 'r%d' % k)
        os.makedirs(d)
        o = execute(binary, s, d, timeout)
        if o['end'] == 'timeout':
            shutil.rmtree(d)
            os.makedirs(d)
            o = execute(binary, s, d, 120)
        shutil.rmtree(d, ignore_errors=True)
        return o
    with ThreadPoolExecutor(6) as ex:
        return dict((o['id'], o) for o in ex.map(one, range(len(scenarios))))


def compare(scenarios, obs, work, aspects=ASPECTS, timeout=1500):
    sf, of = os.path.join(work, 'rscen.ndjson'), os.path.join(work, 'robs.ndjson')
    with open(sf, 'w') as f, open(of, 'w') as g:
        for s in scenarios:
            f.write(json.dumps(tame(specified(s, aspects))) + '\n')
            g.write(json.dumps(obs[s['id']]) + '\n')
    rc, out = conf.tlc('Run.tla', 'Run.cfg', work, env={'SCENARIOS': sf, 'OBSERVED': of}, timeout=timeout)
    ends = conf.printed(out, '##')
    if rc != 0 or {e[0] for e in ends} != {s['id'] for s in scenarios}:
        at = out.find('Error:')
        raise conf.MachineryError('TLC: exit %d\n%s' % (rc, out[at:at + 2500] + '\n...\n' + out[-1200:] if at >= 0 else out[-3000:]))
    g, d = conf.stats(out)
    return conf.printed(out, '@@'), {'states': d, 'transitions': g, 'ends': ends}


def check(c, batch=batch, aspects=ASPECTS):
    import build as B, collections
    binary = B.build({'groot'})['groot']
    i = 0
    while True:
        if i > 0 and c.left() < 8:
            c.notes.append('stopped by the time limit after %d batches' % i)
            break
        b = batch(c.seed, i, c.tier)
        if not b:
            break
        i += 1
        obs = observe(binary, b, c.work)
        diffs, facts = compare(b, obs, c.work, aspects)
        c.states += facts['states']
        c.transitions += facts['transitions']
        c.evaluations += len(b)
        c.traces += len(facts['ends'])
        for e in facts['ends']:
            c.counts['spec: ' + e[1]] += 1
        for s in b:
            c.counts['observed: ' + obs[s['id']]['end']] += 1
            c.counts['violations in reports'] += sum(len(v) for v in obs[s['id']]['jobs'][0]['rep'].values())
            c.counts['numbers told'] += sum(len(t['rest']) + 7 * len(t['jobs']) for t in obs[s['id']]['info'])
            c.counts['lint files'] += obs[s['id']]['lintwritten']
        if len(c.samples) < 3:
            c.samples.append({k: b[-1][k] for k in ('kind', 'cmd', 'meta', 'run', 'top')})
        seen = set()
        for d in diffs:
            if d[0] in seen or len(seen) >= 2:
                continue
            seen.add(d[0])
            s = next(s for s in b if s['id'] == d[0])
            c.violation(d, {'run': s, 'aspects': aspects, 'differences': [x for x in diffs if x[0] == d[0]][:20]})
        if diffs:
            break


def check_told(c):
    check(c, telling, ['info'])


def replay(r):
    import build as B, shutil, tempfile
    work = tempfile.mkdtemp(prefix='groot-replay-')
    try:
        b = [r['run']]
        obs = observe(B.build({'groot'})['groot'], b, work)
        diffs, _ = compare(b, obs, work, r.get('aspects', ASPECTS))
        for d in diffs:
            print(json.dumps(d))
        print('%d differences' % len(diffs))
        return 1 if diffs else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
