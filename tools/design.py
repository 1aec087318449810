""". /opt/vp/env.sh; $PY -W ignore tools/design.py: writes DESIGN.md"""
import glob
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
ns = {'__name__': 'x', '__file__': os.path.join(VERIF, 'tools', 'mk.py')}
exec(open(os.path.join(VERIF, 'tools', 'mk.py')).read(), ns)
exec(open(os.path.join(VERIF, 'tools', 'table.py')).read(), ns)
KIND = {'world_a': 'A', 'world_b': 'B', 'world_s': 'S', 'world_t': 'T'}


def one(text):
    return ' '.join((text or '').split())


def main():
    out = [open(os.path.join(VERIF, 'tools', 'design.md')).read().rstrip(),
           '', '## Properties, one by one', '']
    times = {}
    try:
        times = json.load(open(os.path.join(VERIF, 'tools', 'times.json')))
    except IOError:
        pass
    for f in glob.glob(os.path.join(VERIF, 'evidence', 'C??.json')):
        d = json.load(open(f))
        if d['tier'] == 'quick':
            c = d['coverage']
            times[d['property']] = [round(d['wall_s']), c['states'],
                                    c['assertions_discharged'],
                                    len(c['functions_encoded'])]
    json.dump(times, open(os.path.join(VERIF, 'tools', 'times.json'), 'w'),
              indent=0, sort_keys=True)
    for p, na, note, tech, level in sorted(ns['PROPS'],
                                           key=lambda x: x[0]['id']):
        i = p['id']
        try:
            from symz import cli
            m = cli.load(i)
        except ImportError:
            out += ['### %s %s' % (i, p['title']), '', 'Not applicable: '
                    + str(na), '']
            continue
        out += ['### %s %s' % (i, p['title']), '']
        out += ['Why tests cannot settle it: ' + p['why_tests_cant'], '']
        out += ['Decided ' + p['quantifier']['text'] + '. ' +
                ' '.join('%s: `%s`.' % (a['name'].capitalize(), a['where'])
                         for a in p['anchors']['mechanism']), '']
        for h in m.HARNESSES:
            out.append('* `%s` (world %s, %d configurations%s): %s%s' % (
                h.name, KIND.get(h.make_world.__name__, '?'), len(h.configs),
                ', %d more when thorough' % len(h.deep) if h.deep else '',
                one(h.fn.__doc__) or h.name.replace('_', ' '),
                '. Bounds: ' + one(h.bounds) if h.bounds else ''))
        out.append('')
        if m.ASSUMPTIONS:
            out += ['Assumed: ' + '; '.join(m.ASSUMPTIONS) + '.', '']
        if i in times:
            out += ['About %d s; %d paths, %d assertions discharged, %d '
                    'functions encoded.' % tuple(times[i]), '']
    kf = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    out += ['## Defects of zounds that were found and repaired', '',
            'Each is one "fix:" commit in /repo; the checks report them again '
            'if they return (known_findings.json).', '']
    for f in kf['findings']:
        out.append('* ' + f['what'] if f['status'] == 'fixed' else
                   '* open: %s %s' % (f['property'], f['what']))
    out += ['', '## Planted bugs', '',
            'In seeded/; each passes the tests of zounds. "missed" are '
            'limits, not alarms.', '',
            '| bug | breaks | needs | caught by |', '|---|---|---|---|']
    res = {}
    try:
        res = json.load(open(os.path.join(VERIF, 'tools', 'caught.json')))
    except IOError:
        pass
    for f in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*',
                                           'meta.json'))):
        b = os.path.basename(os.path.dirname(f))
        d = json.load(open(f))
        out.append('| %s | %s: %s | %s | %s |' % (
            b, d['property'], one(d['what_it_breaks']), one(d['needs']),
            res.get(b, '?')))
    open(os.path.join(VERIF, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()
