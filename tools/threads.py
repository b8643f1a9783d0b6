"""C25: the jobs under many schedules.

The sources of groot are compiled with the threads, atomics, locks and queues of harness/sched, and each scenario runs
under many schedules; a run has to end, and its reports and counts have to be those of the specification.  The recorded
operations of a sample of the runs are checked against spec/Threads.tla.  The models are checked as well."""
import collections, json, os
import build as B
import conf, gen, profiles

MAX_STEPS = 1000000
ASPECTS = ['alive', 'abort', 'count', 'loops', 'report'] + profiles.ALLREP


# ------------------------------------------------------------------ models
def models(c):
    base = open(conf.SPEC + '/MCThreads.cfg').read()

    def run(name, cfg, expect):
        p = os.path.join(c.work, 'mc-%s.cfg' % name.replace(' ', '-'))
        with open(p, 'w') as f:
            f.write(cfg)
        rc, out = conf.tlc('MCThreads.tla', p, c.work, heap='12g', timeout=700)
        a, b = conf.stats(out)
        ok = 'No error has been found' in out
        if ok != expect or not (ok or 'violated' in out):
            raise conf.MachineryError('model %s: %s' % (name, out[-2500:]))
        c.states += b
        c.transitions += a
        c.models.append({'model': 'MCThreads: ' + name, 'states': b, 'transitions': a,
                         'result': 'holds' if ok else 'violated, as it has to be'})
    run('two consumers, safety, termination, refinement of Work', base, True)
    for flaw in ('no extra round', 'says done too early', 'collectors end early'):
        run('mistake: ' + flaw, base.replace('"none"', '"%s"' % flaw), False)
    wide = base.replace('PROPERTIES EveryJobEnds Implements ImplementsAll', 'PROPERTIES Implements\nSYMMETRY Sym')
    run('three consumers, safety and refinement', wide.replace('{c1, c2}', '{c1, c2, c3}').replace('NTasks = 2', 'NTasks = 3'), True)
    if c.tier == 'thorough':
        run('three consumers, termination', base.replace('{c1, c2}', '{c1, c2, c3}').replace('TwoFindings = FALSE', 'TwoFindings = TRUE'), True)
        run('five consumers, safety and refinement', wide.replace('{c1, c2}', '{c1, c2, c3, c4, c5}').replace('NTasks = 2', 'NTasks = 3')
            .replace('TwoFindings = FALSE', 'TwoFindings = TRUE'), True)


# ------------------------------------------------------------------ scenarios
def bases(seed, i):
    ss = profiles.worlds('C25', seed, i, 30, some=3, jobs=(1, 1, 2, 2, 3)) + \
        profiles.worlds('C25s', seed, i, 8, must=('StructuralDelegationConsistency',), some=2, sub=True) + \
        profiles.reuse('C25', seed, i, 4, ('AllAliases',)) + profiles.boundary('C25', seed, i, 3, ('DNAMESubstitutionCheck',)) + \
        profiles.joblists(seed + 100, i, 10)
    return [dict(s, graphs=False, id='%d:%s' % (k, s['id'])) for k, s in enumerate(ss)]


def many(seed, i, n=2):
    """many classes"""
    return [dict(s, graphs=False) for s in profiles.classes('C25', seed, i, n, big=True)]


def schedule(r):
    mode = r.choice([0, 0, 1, 1, 2, 2, 3, 3, 3, 3, 3, 4, 10, 11, 12, 13, 13, 20, 20, 21, 22, 23, 23])
    return [r.randrange(1 << 40), mode, MAX_STEPS]


# ------------------------------------------------------------------ traces
def events(o):
    """the operations of a run as actions of Threads; None when they have another form"""
    try:
        tr = json.loads(o['trace'])
    except (ValueError, KeyError):
        return None
    if not tr:
        return None
    order, role, jobs = [], {}, 0
    for t, what, obj, val, typ in tr:
        if what == 'create' and t == 0:
            order.append(val)
    if len(order) % 11:
        return None
    names = ['generator'] + ['c%d' % k for k in range(1, 9)] + ['json', 'stats']
    for k, t in enumerate(order):
        role[t] = names[k % 11]
    fin, dn = set(), set()
    for t, what, obj, val, typ in tr:
        if what == 'load':
            k = role.get(t, '')
            if k.startswith('c'):
                fin.add(obj)
            elif k in ('json', 'stats'):
                dn.add(obj)
    out, cur, classes = [], {}, {}
    for t, what, obj, val, typ in tr:
        k = role.get(t, 'root' if t == 0 else '?')
        cons = k.startswith('c')
        e = None
        if k == 'root':
            if what == 'create':
                e = ('Spawn', role[val])
            elif what == 'join':
                e = ('Join', role[val])
            elif what == 'store' and obj in fin:
                e = ('SetFin', '') if val else ('Begin', '')
            elif what in ('load', 'store') and obj not in fin | dn:
                continue
        elif k == 'generator':
            if what == 'put' and typ == 'task':
                e = ('Put', '', val)
            elif what == 'store' and obj in fin and val:
                e = ('GenFin', '')
        elif cons:
            if what == 'load' and obj in fin:
                e = ('Check', k)
            elif what == 'take' and typ == 'task':
                e = ('Take', k, val)
            elif what == 'none' and typ == 'task':
                e = ('None', k)
            elif what == 'put' and typ == 'json':
                e = ('Finding', k, val)
            elif what == 'put' and typ == 'attr':
                e = ('Size', k, val)
            elif what == 'rmw' and obj in dn:
                e = ('Inc', k)
            elif what == 'rmw' and obj not in fin:
                e = ('Count', k, cur[k]['i'] if k in cur else -1)
        elif k in ('json', 'stats'):
            if what == 'load' and obj in dn:
                e = ('ColCheck', k)
            elif what == 'take' and typ == ('json' if k == 'json' else 'attr'):
                e = ('Collect' if k == 'json' else 'Measure', k, val)
            elif what == 'none':
                e = ('Nothing', k)
        if e is None:
            return None
        d = {'a': e[0], 't': e[1], 'i': e[2] if len(e) > 2 else 0, 'todo': []}
        if d['a'] == 'Take':
            cur[k] = d
        elif d['a'] in ('Finding', 'Size', 'Count') and k in cur:
            cur[k]['todo'].append([d['a'].lower(), d['i']])
        out.append(d)
    return out


def traces(c, obs):
    """checks recorded operations against the model; what does not fit is a remark, not a violation"""
    p = os.path.join(c.work, 'traces.ndjson')
    good, bad = [], 0
    for o in obs:
        ev = events(o)
        if ev is None:
            bad += 1
        else:
            good.append({'id': o['id'], 'events': ev})
    c.counts['traces of another form'] += bad
    if not good:
        c.notes.append('the recorded operations have another form than in Threads.tla')
        return
    with open(p, 'w') as f:
        for g in good:
            f.write(json.dumps(g) + '\n')
    rc, out = conf.tlc('ThreadTrace.tla', 'ThreadTrace.cfg', c.work, env={'TRACES': p})
    if rc:
        raise conf.MachineryError('ThreadTrace: ' + out[-2500:])
    a, b = conf.stats(out)
    c.states += b
    c.transitions += a
    ends = conf.printed(out, '##')
    c.counts['traces that are behaviours of Threads.tla'] += len(ends)
    c.counts['operations in them'] += sum(len(g['events']) for g in good)
    c.traces += len(ends)
    miss = {g['id'] for g in good} - {e[0] for e in ends}
    if miss:
        c.counts['traces that are no behaviours of Threads.tla'] += len(miss)
        c.notes.append('no behaviour of Threads.tla: %s' % sorted(miss)[:3])
    for e in ends:
        for s in e[2]:
            c.counts['reached: ' + s] += 1
    for m in conf.printed(out, '@@'):
        c.notes.append('left behind at the end of a job: %s' % m)


# ------------------------------------------------------------------ the check
def ending(o):
    code = o['status'] >> 8 if o['end'] == 'exit' else 0
    return {96: 'unclear', 97: 'endless', 98: 'deadlock'}.get(code, o['end'])


def judge(c, runs, base):
    """runs: [(scenario, observation)]; compares the distinct ones with the specification"""
    seen, scen, obs = collections.OrderedDict(), [], {}
    for s, o in runs:
        b = base[s['of']]
        o = dict(o, end=ending(o))
        if o['end'] == 'unclear' or (o['end'] == 'timeout' and 'sched' in s):
            c.counts['runs without a verdict'] += 1
            continue
        key = json.dumps([s['of'], o['end'], o['stage'], o['jobs']], sort_keys=True)
        if key in seen:
            continue
        for j, w in zip(o['jobs'], b['jobs']):
            if 'wb' in w:
                j['wb'] = w['wb']
        if o['end'] == 'ok':
            o['stage'] = 'done'
        o['parsed'] = b['parsed']
        seen[key] = s
        scen.append(s)
        obs[s['id']] = o
    c.counts['distinct results'] += len(scen)
    diffs, facts = conf.compare(scen, obs, ASPECTS, c.work)
    c.states += facts['states']
    c.transitions += facts['transitions']
    c.traces += len(facts['ends'])
    by = collections.OrderedDict()
    for d in diffs:
        by.setdefault(d[0], []).append(d)
    for k in sorted(by, key=lambda k: len(json.dumps(next(s for s in scen if s['id'] == k))))[:2]:
        s = next(s for s in scen if s['id'] == k)
        c.violation(by[k][0], {'schedule': s, 'differences': by[k][:20]})
    return not diffs


def check(c):
    models(c)
    built = B.build({'observe'})
    try:
        sched = B.build({'sched'})['sched']
    except B.BuildError as e:
        sched = None
        c.notes.append('no controlled schedules: the sources do not compile with them: ' + str(e)[-300:])
        print('NOTE: ' + c.notes[-1].replace('\n', ' '))
    start = c.start
    c.start = __import__('time').time()         # the builds are not counted
    i, last = 0, (2 if c.tier == 'quick' else 40)
    ok = True
    while ok and i < last and not (i > 0 and c.left() < 25):
        r = gen.random.Random('threads %s %s' % (c.seed, i))
        bs = bases(c.seed, i)
        obs = conf.observe(built['observe'], bs, c.work)
        base = {s['id']: obs[s['id']] for s in bs if obs[s['id']]['end'] == 'ok'}
        strange = [s for s in bs if obs[s['id']]['end'] in ('timeout', 'crash')]
        bs = [s for s in bs if s['id'] in base and sum(j['count'] for j in base[s['id']]['jobs']) <= 150]
        if strange:
            ok = judge(c, [(dict(s, of=s['id']), obs[s['id']]) for s in strange], {s['id']: dict(obs[s['id']], jobs=[], parsed=-1) for s in strange})
        # with the real threads and queues, again and again
        if ok:
            rs = [dict(s, of=s['id'], id='%s r%d' % (s['id'], k)) for s in bs + many(c.seed, i) for k in range(3 if c.tier == 'quick' else 6)]
            for s in rs:
                if s['of'] not in base:
                    base[s['of']] = None
            o = conf.observe(built['observe'], rs, c.work)
            for s in rs:
                if base[s['of']] is None:
                    base[s['of']] = o[s['id']]
            c.counts['runs with real threads'] += len(rs)
            c.evaluations += len(rs)
            ok = judge(c, [(s, o[s['id']]) for s in rs], base)
        # under control: a few runs first, then many
        for n in ((1, 30, 60) if c.tier == 'quick' else (1, 30, 60, 150)):
            if not sched or not ok or (n > 30 and c.left() < 25):
                break
            ss = [dict(s, of=s['id'], id='%s s%d.%d' % (s['id'], n, k), sched=schedule(r), queries=[]) for s in bs for k in range(n)]
            o = conf.observe(sched, ss, c.work, again=False)
            c.counts['runs under control'] += len(ss)
            c.evaluations += len(ss)
            for s in ss:
                c.counts['scheduling mode %d' % s['sched'][1]] += 1
                c.counts['steps of the scheduler'] += o[s['id']].get('steps', 0)
            ok = judge(c, [(s, o[s['id']]) for s in ss], base)
            if ok and n == 30:
                short = [s['id'] for s in ss if 100 < len(o[s['id']].get('trace', '')) < 40000]
                traces(c, [o[k] for k in r.sample(short, min(len(short), 60 if c.tier == 'quick' else 200))])
            if len(c.samples) < 2:
                s = ss[len(ss) // 2]
                c.samples.append({'jobs': s['jobs'], 'schedule': s['sched'], 'end': o[s['id']]['end'], 'steps': o[s['id']].get('steps'),
                                  'trace': o[s['id']].get('trace', '')[:300]})
        i += 1
    c.start = start


def replay(r):
    import shutil, tempfile
    s = r['schedule']
    work = tempfile.mkdtemp(prefix='groot-replay-')
    try:
        built = B.build({'observe', 'sched'} if 'sched' in s else {'observe'})
        b = conf.observe(built['observe'], [s], work)[s['id']]

        class C:
            pass
        c = C()
        c.counts, c.states, c.transitions, c.traces, c.work = collections.Counter(), 0, 0, 0, work
        c.violation = lambda what, content: [print(json.dumps(d)) for d in content['differences']]
        n = 1 if 'sched' in s else 30
        runs = [(dict(s, id='%s %d' % (s['id'], k)), None) for k in range(n)]
        o = conf.observe(built['sched' if 'sched' in s else 'observe'], [x for x, _ in runs], work)
        return 0 if judge(c, [(x, o[x['id']]) for x, _ in runs], {s['of']: b}) else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
