#!/usr/bin/env python3
"""Runs scenarios through groot (harness/observe) and through the specification (spec/Conf.tla with TLC) and reports
the differences that TLC finds."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import build as B

SPEC = os.path.join(B.VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
KINDS = ['Hops', 'Rewrites', 'Query Rewrite', 'Name Server Contact', 'Rewrite Blackholing',
         'DNAME Substitution exceeds length', 'Delegation Consistency', 'Lame Delegation', 'ResponseReturned',
         'Response Value', 'Response Consistency', 'Zero TTL', 'All Aliases', 'Infinite DName Recursion',
         'Structural Delegation Consistency']


class MachineryError(Exception):
    """something other than groot is wrong"""


# ------------------------------------------------------------------ reports
def _need(ok):
    if not ok:
        raise KeyError


def _fields(v, keys):
    _need(isinstance(v, dict) and set(v) == set(keys))
    for k in keys:
        _need(isinstance(v[k], (str, int)))
    return [str(v[k]) for k in keys]


def _strs(l):
    _need(isinstance(l, list))
    for x in l:
        _need(isinstance(x, str))
    return l


def violation(v):
    """(kind, tuple) of one element of the report; kind '?' when it has no known form"""
    try:
        k = v['Property']
        w = dict(v)
        del w['Property']
        if 'Violation' in w:
            _need(isinstance(w['Violation'], dict))
            w.update({'V.' + a: b for a, b in w.pop('Violation').items()})
        simple = {
            'Hops': ['Query', 'V.ActualHops', 'V.MaxAllowedHops'],
            'Rewrites': ['Query', 'V.ActualRewrites', 'V.MaxAllowedRewrites'],
            'Query Rewrite': ['Query', 'V.RewriteTarget', 'V.Nameserver', 'V.ExpectedUnder'],
            'Name Server Contact': ['Query', 'V.ExternalNameserver', 'V.AllowedDomains'],
            'Rewrite Blackholing': ['Query', 'V.RewriteTarget', 'V.BlackholeNameserver'],
            'DNAME Substitution exceeds length': ['Query', 'V.RewriteTarget', 'V.Nameserver'],
            'Delegation Consistency': ['Query', 'V.Nameserver1', 'V.Nameserver2', 'V.InconsistencyType'],
            'Lame Delegation': ['Query', 'V.Nameserver1', 'V.Nameserver2'],
            'ResponseReturned': ['Query', 'V.Types', 'V.Nameserver'],
            'Response Consistency': ['Query'],
            'Zero TTL': ['Query', 'V.Nameserver', 'V.Record'],
        }
        if k in simple:
            t = _fields(w, simple[k])
            if k == 'ResponseReturned':
                t[1] = ' '.join(sorted(t[1].split(' ')))
            return k, t
        if k == 'Response Value':
            _need(set(w) == {'Expected', 'Mismatches'})
            _strs([w['Expected']])
            return k, [w['Expected'], [_fields(m, ['Found', 'Query', 'Nameserver']) for m in w['Mismatches']]]
        if k == 'All Aliases':
            _need(set(w) == {'Canonical Name and their Aliases'})
            out = []
            for e in w['Canonical Name and their Aliases']:
                _need(set(e) == {'Canonical Name', 'Aliases'})
                _strs([e['Canonical Name']])
                out.append([e['Canonical Name'], _strs(e['Aliases'])])
            _need(len({e[0] for e in out}) == len(out))
            return k, out
        if k == 'Infinite DName Recursion':
            _need(set(w) == {'Query1', 'Query2', 'RRsUsed'})
            used = w['RRsUsed']
            _need(set(used) == {'RR%d' % (i + 1) for i in range(len(used))})
            return k, [_strs([w['Query1']])[0], _strs([w['Query2']])[0], _strs(list(used.values()))]
        if k == 'Structural Delegation Consistency':
            _need(set(w) == {'Domain Name', 'Inconsistent Pairs'})
            return k, [w['Domain Name'], [pair(p) for p in w['Inconsistent Pairs']]]
        if k == 'Cyclic Zone Dependency':
            tags = ['ANS', 'REWRITE', 'REF', 'NX', 'REFUSED', 'NSNOTFOUND', 'YX']
            out = []
            for n in w['Loop']:
                _need(set(n) <= {'NS', 'Query', 'AnswerTag'})
                out.append([n['NS'], n['Query'], tags[n['AnswerTag']] if 'AnswerTag' in n else ''])
            return k, out
    except (KeyError, TypeError, IndexError, AttributeError):
        pass
    return '?', [json.dumps(v, sort_keys=True)]


def pair(p):
    p = dict(p)
    roles = [k[:-3] for k in p if k.endswith(' NS') and not k.startswith('Exclusive')]
    _need(len(roles) == 2 and {x.split('-')[0] for x in roles} <= {'parent', 'child'})
    sides = []
    for x in roles:
        sides.append([x.split('-')[0], p.pop(x + ' NS'), _strs(p.pop('Exclusive %s NS Records' % x, [])),
                      _strs(p.pop('Exclusive %s Glue Records' % x, []))])
    out = [_strs(p.pop('Common NS Records', [])), _strs(p.pop('Common Glue Records', [])), sides]
    _need(not p)
    return out


def report(rep):
    out = {k: [] for k in KINDS + ['Cyclic Zone Dependency', '?']}
    twice, seen = [], set()
    if isinstance(rep, dict) and 'malformed' in rep:
        out['?'].append(['the report is no JSON: ' + rep['malformed'][:200]])
        return out, twice
    if not isinstance(rep, list):
        out['?'].append(['the report is no array: ' + json.dumps(rep)[:200]])
        return out, twice
    for v in rep:
        s = json.dumps(v, sort_keys=True)
        if s in seen:
            twice.append(s)
        seen.add(s)
        k, t = violation(v)
        out[k].append(t)
    return out, twice


def lint_entries(l):
    if not isinstance(l, list):
        return False, []
    out = []
    for e in l:
        e = dict(e) if isinstance(e, dict) else {'?': e}
        if set(e) - {'Previous Record'} == {'File Name', 'Line Number', 'Current Record', 'Violation'}:
            f = str(e['File Name'])
            out.append([f[2:] if f.startswith('./') else f, 'RR', str(e['Line Number']), e['Current Record'], e['Violation'],
                        e.get('Previous Record', '')])
        elif set(e) == {'Server', 'Zone', 'Violation', 'Resource Record'}:
            out.append([e['Server'], 'GLUE', e['Zone'], e['Resource Record'], e['Violation'], ''])
        else:
            out.append([json.dumps(e, sort_keys=True), '', '', '', '', ''])
    return True, out


def observed(o, s):
    """the observation in the form the specification reads"""
    done = o['end'] == 'ok' and o['stage'] == 'done'
    ecs = done and all('wb' in j for j in o['jobs'])
    r = {'id': s['id'], 'final': False, 'end': o['end'], 'stage': o['stage'], 'parsed': str(o.get('parsed', -1)),
         'haszones': done and 'zones' in o, 'hasstats': done and 'stats' in o, 'haslookups': done and 'lookups' in o, 'hasecs': ecs,
         'zones': [], 'stats': o.get('stats', []), 'lookups': o.get('lookups', []), 'lint': [], 'lintok': True,
         'lintwritten': bool(o.get('lintfile', False)), 'jobs': []}
    r['zones'] = [{'id': str(z['id']), 'ns': z['ns'], 'origin': z['origin'], 'rrs': z['rrs']} for z in o.get('zones', [])]
    if 'lint' in o:
        r['lintok'], r['lint'] = lint_entries(o['lint'])
    for j in o['jobs']:
        rep, twice = report(j['report'])
        w = j.get('wb') if ecs else None
        r['jobs'].append({'count': j['count'], 'tasks': w['tasks'] if w else -1, 'structural': w['structural'] if w else -1,
                          'ecs': w['ecs'] if w else [], 'graphs': [dict(g, ec=dict(g['ec'], ne=g['ne'])) for g in w['graphs']] if w else [], 'rep': rep, 'twice': twice})
    return r


def specified(s, aspects):
    """the scenario in the form the specification reads"""
    jobs = []
    for j in s['jobs']:
        if isinstance(j, str):
            jobs.append({'d': j, 'sub': True, 'dflt': True, 'props': []})
            continue
        props = []
        for p in j['Properties']:
            v = p.get('Value', [])
            props.append({'name': p['PropertyName'], 'hastypes': 'Types' in p, 'types': p.get('Types', []),
                          'values': v if isinstance(v, list) else [], 'num': v if isinstance(v, int) else 0})
        jobs.append({'d': j['Domain'], 'sub': j['SubDomain'], 'dflt': False, 'props': props})
    return {'id': s['id'], 'top': s['top'], 'lint': bool(s.get('lint')), 'jobs': jobs,
            'zones': [{'file': z['file'], 'text': z['text'], 'ns': z['ns'], 'origin': z.get('origin', '')} for z in s['zones']],
            'queries': [{'z': q[0], 'n': q[1], 't': q[2], 'x': q[3]} for q in s.get('queries', [])],
            'aspects': list(aspects)}


# ------------------------------------------------------------------ running
def observe(binary, scenarios, work, timeout=20, procs=None, again=True):
    procs = procs or min(8, os.cpu_count() or 4)
    parts = [[] for _ in range(min(procs, max(1, len(scenarios))))]
    for i, s in enumerate(scenarios):
        parts[i % len(parts)].append(s)

    def run(k):
        inp, out, scratch = (os.path.join(work, x % k) for x in ('in%d.ndjson', 'out%d.ndjson', 'scratch%d'))
        os.makedirs(scratch, exist_ok=True)
        with open(inp, 'w') as f:
            for s in parts[k]:
                f.write(json.dumps(s) + '\n')
        env = dict(os.environ, OBSERVE_TIMEOUT=str(timeout))
        p = subprocess.run([binary, inp, out, scratch], env=env, capture_output=True, text=True)
        if p.returncode:
            raise MachineryError('observe failed: %d %s' % (p.returncode, p.stderr[-500:]))
        with open(out, encoding='utf-8', errors='replace') as f:
            return [json.loads(l) for l in f]
    res = {}
    with ThreadPoolExecutor(len(parts)) as ex:
        for l in ex.map(run, range(len(parts))):
            for o in l:
                res[o['id']] = o
    if set(res) != {s['id'] for s in scenarios}:
        raise MachineryError('observe lost scenarios')
    # What looks like an endless run gets another chance on its own
    slow = [s for s in scenarios if res[s['id']]['end'] == 'timeout']
    if slow and timeout < 60 and again:
        more = observe(binary, slow[:4], work, timeout=60, procs=2)
        for s in slow[:4]:
            res[s['id']] = more[s['id']]
    return res


def tlc(module, cfg, work, env=None, workers=None, timeout=1500, extra=(), heap='8g'):
    """runs TLC; returns its output"""
    meta = tempfile.mkdtemp(dir=work)
    cmd = ['java', '-XX:+UseParallelGC', '-Dfile.encoding=UTF-8', '-Xss512m', '-Xmx' + heap, '-cp', JARS, 'tlc2.TLC', '-config', cfg, '-metadir', meta,
           '-noGenerateSpecTE', '-workers', str(workers or min(8, os.cpu_count() or 4))] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout,
                           encoding='utf-8', errors='replace')
    except subprocess.TimeoutExpired as e:
        raise MachineryError('TLC took more than %d s' % timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


_ESC = re.compile(r'\\(.)')


def printed(out, mark):
    """the JSON values of the lines printed with PrintT(mark \\o ToJson(..))"""
    res = []
    for l in out.splitlines():
        if l.startswith('"' + mark + ' '):
            t = l[1 + len(mark) + 1:-1]
            try:
                res.append(json.loads(t))
            except ValueError:
                res.append(json.loads(_ESC.sub(lambda m: {'n': '\n', 't': '\t'}.get(m.group(1), m.group(1)), t)))
    return res


def compare(scenarios, obs, aspects, work, timeout=1500):
    """-> (differences, facts)"""
    sf, of = os.path.join(work, 'scen.ndjson'), os.path.join(work, 'obs.ndjson')
    with open(sf, 'w') as f, open(of, 'w') as g:
        for s in scenarios:
            f.write(json.dumps(specified(s, s.get('aspects', aspects))) + '\n')
            g.write(json.dumps(observed(obs[s['id']], s)) + '\n')
    rc, out = tlc('Conf.tla', 'Conf.cfg', work, env={'SCENARIOS': sf, 'OBSERVED': of}, timeout=timeout)
    ends = printed(out, '##')
    if rc != 0 or {e[0] for e in ends} != {s['id'] for s in scenarios}:
        at = out.find('Error:')
        raise MachineryError('TLC: exit %d\n%s' % (rc, out[at:at + 2500] + '\n...\n' + out[-1200:] if at >= 0 else out[-3000:]))
    gen, distinct = stats(out)
    return printed(out, '@@'), {'states': distinct, 'transitions': gen, 'ends': ends}


ALL = ['alive', 'abort', 'parsed', 'zones', 'stats', 'lint', 'lookup', 'ecs', 'structure', 'count', 'graph', 'loops', 'report'] + \
      ['rep:' + k for k in KINDS]
