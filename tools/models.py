"""Small-model theorems: the specification is model checked against a second formulation of what it says (spec/MC*.tla), and
texts that a model of a writer makes (spec/MCParser.tla) are read by groot.  Deliberate mistakes put into the
specification have to be found, otherwise the model shows nothing."""
import json, os, re
import conf, gen
import build as B


def model(c, module, changes=None, expect=True, name='', extra=(), timeout=600, invariants=None, spec='Spec', workers=None):
    """model checks spec/<module> with spec/<module>.cfg; changes: constants, or definitions put in the place of others"""
    text = open('%s/%s.cfg' % (conf.SPEC, module)).read()
    for k, v in (changes or {}).items():
        new, n = re.subn(r'(?m)^  %s = .*$' % k, '  %s = %s' % (k, v), text)
        text = new if n else text.replace('CONSTANTS\n', 'CONSTANTS\n  %s <- %s\n' % (k, v))
    text = text.replace('SPECIFICATION Spec', 'SPECIFICATION ' + spec)
    if invariants:
        text = re.sub(r'(?m)^INVARIANTS .*$', 'INVARIANTS ' + invariants, text)
    p = os.path.join(c.work, '%s-%d.cfg' % (module, len(c.models)))
    with open(p, 'w') as f:
        f.write(text)
    rc, out = conf.tlc(module + '.tla', p, c.work, heap='12g', timeout=timeout, extra=extra, workers=workers)
    a, b = conf.stats(out)
    ok = 'No error has been found' in out or ('-simulate' in extra and rc == 0)
    if ok != expect or not (ok or 'is violated' in out):
        raise conf.MachineryError('model %s %s: %s' % (module, name, out[-2500:]))
    c.states += b
    c.transitions += a
    c.models.append({'model': '%s %s %s' % (module, name, changes or ''), 'states': b, 'transitions': a,
                     'result': 'holds' if ok else 'violated, as it has to be'})
    return out


def zone(c):
    """what a zone contains; Lookup = the standards formulated otherwise"""
    inv = {'C02': 'Contains InZone NoTwice CnameAlone OneDname NamesExist Reasonable',
           'C04': 'LookupIsStandard TogetherAsAlone OrderOfRecords', 'C05': 'LookupIsStandard ClassIsFresh'}[c.prop]
    model(c, 'MCZone', invariants=inv)
    if c.prop == 'C02':
        model(c, 'MCZone', {'Verdict': 'VerdictOneWay'}, False, 'mistake: CNAME after other data', invariants=inv)
    else:
        model(c, 'MCZone', {'WildOrNX': 'WildFromAbove'}, False, 'mistake: wildcard further up', invariants='LookupIsStandard')
        model(c, 'MCZone', {'Walk': 'WalkPastCuts'}, False, 'mistake: the lowest cut', invariants='LookupIsStandard')
    if c.tier == 'thorough':
        model(c, 'MCZone', {'MaxRecords': '3', 'Wide': 'TRUE'}, name='three records', invariants=inv)


def plan(c):
    """classes cover all queries; the executions of a class are those of its queries"""
    model(c, 'MCPlan')
    model(c, 'MCPlan', {'Rewritten': 'RewrittenShort'}, False, 'mistake: DNAME loses labels')
    model(c, 'MCPlan', {'VisitClasses': 'ClassesWithoutNew'}, False, 'mistake: no class of the new names')
    if c.tier == 'thorough':
        model(c, 'MCPlan', {'Deep': 'TRUE'}, name='longer names')
        model(c, 'MCPlan', {'MaxRecords': '3'}, name='three records')


def parser(c):
    """writing and reading again; the texts of longer random behaviours of the writer are read by groot as well"""
    model(c, 'MCParser')
    model(c, 'MCParser', {'Absolute': 'AbsoluteToRoot'}, False, 'mistake: relative to the root')
    model(c, 'MCParser', {'Stated': 'NothingStated'}, False, 'mistake: no TTL is inherited')
    n = 300 if c.tier == 'quick' else 4000
    out = model(c, 'MCParser', {'MaxEntries': '9'}, name='random behaviours', invariants='RoundTrip ShowAtEnd', spec='RandomSpec', workers=1,
                extra=('-simulate', 'num=%d' % n, '-seed', str(c.seed), '-depth', '12'))
    seen = conf.printed(out, '##')
    if len(seen) < n // 2:
        raise conf.MachineryError('MCParser made %d texts: %s' % (len(seen), out[-1500:]))
    texts = [t[0] for t in seen]
    built = B.build({'observe'})
    batch = []
    for j in range(0, len(texts), 20):
        batch.append(gen.shelf('mc%d' % j, texts[j:j + 20], jobs=[] if 'ZONES' in built['features'] else [gen.reveal_job(gen.TYPES)]))
    import check
    aspects, _ = check.aspects_of(c.prop, built['features'])
    obs = conf.observe(built['observe'], batch, c.work)
    diffs, facts = conf.compare(batch, obs, aspects, c.work)
    c.evaluations += len(batch)
    c.traces += len(texts)
    c.states += facts['states']
    c.transitions += facts['transitions']
    c.counts['texts made by the model of a writer'] += len(texts)
    for d in diffs[:1]:
        s = next(s for s in batch if s['id'] == d[0])
        c.violation(d, {'scenario': check.shrink(built['observe'], s, aspects, c.work, __import__('time').time() + 40), 'aspects': aspects,
                        'differences': diffs[:20]})


MODELS = {'C01': parser, 'C02': zone, 'C04': zone, 'C05': zone, 'C06': plan, 'C07': plan, 'C08': plan}
