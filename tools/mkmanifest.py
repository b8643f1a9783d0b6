#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
CONF = ('TLA+ specification (spec/Driver.tla and the modules it extends) run by TLC beside the real code: conformance of '
        'recorded runs (spec/Conf.tla)')
NOTE = ('TLC evaluates the specification on every generated scenario and compares what the real code (built from the working '
        'tree) read, planned, explored and reported; the scenarios are bounded (see DESIGN.md), so this is no proof for all '
        'inputs. Trusted: TLC, the JSON module, the canonicalisation in tools/conf.py.')
MC = '; small-model theorems checked by TLC with deliberate mistakes that it has to find: '
TECH = {
    'C01': CONF + MC + 'what a model of a writer writes in any style is read back (spec/MCParser.tla), its random behaviours are read by groot too',
    'C06': CONF + MC + 'every query has a class (spec/MCPlan.tla)',
    'C07': CONF + MC + 'the executions of a class are those of its queries (spec/MCPlan.tla)',
    'C08': CONF + MC + 'the executions of a class are those of its queries (spec/MCPlan.tla)',
    'C02': CONF + '; all record sequences of length <= 2 (thorough: 3) over an alphabet of 19 records' + MC + 'zone contents (spec/MCZone.tla)',
    'C04': CONF + '; all zones of <= 2 (thorough: 3) records over a 22-record universe' + MC + 'Lookup = RFC rules stated without walking (spec/MCZone.tla)',
    'C05': CONF + '; all zones of <= 2 (thorough: 3) records over a 22-record universe' + MC + 'referrals and classes (spec/MCZone.tla)',
    'C25': 'TLA+ model of the threads and queues (spec/Work.tla, spec/Threads.tla) model checked with TLC for safety, liveness and refinement; real code run '
           'under a controlled scheduler, the traces validated against the model (spec/ThreadTrace.tla), results compared with the specification (spec/Conf.tla)',
    'C26': 'TLA+ specification of a run of the program (spec/Run.tla) against recorded runs of the real program',
    'C29': 'TLA+ specification of a run of the program (spec/Run.tla) against what recorded runs of the real program tell about themselves',
    'C27': 'TLA+ conformance of permuted and recased variants of scenarios (spec/Meta.tla)',
}
SKIP = json.load(open(V + '/tools/skip.json')) if os.path.exists(V + '/tools/skip.json') else {}
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
                 'technique': TECH.get(p['id'], CONF), 'level': 'model_checking', 'level_note': NOTE}
                for p in props if p['id'] not in SKIP],
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(SKIP.items())],
     'notes': 'No hooks: the harnesses in /verif/harness compile the sources of /repo unchanged. Repairs of defects found are the '
              '"fix:" commits in /repo, listed in known_findings.txt.'}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
