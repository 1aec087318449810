"""Writes properties.jsonl and MANIFEST.json from the table below.
A property is claimed when checks/<id>.py exists, otherwise `na` must say why
it is not."""
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
TECH = ('symbolic execution of the current source of zounds, assertions '
        'discharged by z3 for every value within the stated bounds; '
        'counterexamples replayed on the real package')


def three(text):
    """at most three sentences"""
    ss = re.split(r'(?<=[a-z0-9)])\. (?=[A-Z])', text)
    if len(ss) <= 3:
        return text
    n, out = sum(map(len, ss)), []
    for s in ss:
        done = sum(map(len, out))
        if out and done < n * len(out) / 3. or len(out) == 3:
            low = s if re.match('[A-Z]+[A-Z]', s) else s[0].lower() + s[1:]
            out[-1] += '; ' + low
        else:
            out.append(s)
    return '. '.join(out)


def prop(id, title, statement, over, text, why, files, mech, na=None,
         note=None, technique=TECH, level='model_checking', observe=None):
    p = {
        'id': id, 'title': title, 'statement': three(statement),
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'hook_needed': None}}
    if observe:
        p['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    PROPS.append((p, na, note, technique, level))


def main():
    exec(open(os.path.join(VERIF, 'tools', 'table.py')).read(), globals())
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p, *_ in PROPS:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, why, note, tech, level in PROPS:
        i = p['id']
        if os.path.exists(os.path.join(VERIF, 'checks', i.lower() + '.py')):
            checks.append({
                'property': i, 'quick_cmd': './run check ' + i,
                'thorough_cmd': './run check %s --thorough' % i, 'technique': tech,
                'level': level,
                'level_note': note or (
                    'Bounded: every value inside the bounds listed in '
                    'DESIGN.md and the evidence file is covered by the '
                    "solver's verdict; values outside them are not. Trusts "
                    'the symbolic numpy model of symz (compared with real '
                    'numpy on solver models each run) and z3.')})
        else:
            na.append({'property': i, 'reason': why or 'no check built yet'})
    m = {'version': 1, 'setup_cmd': './run selftest',
         'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the checks load the source as it is.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'claimed', len(na), 'not')


if __name__ == '__main__':
    main()
