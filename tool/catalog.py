#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tool/catalog.py (run in /verif)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
P = []
NA = []


def P_(pid, title, statement, over, text, why, files, mech, tech, note, state=None, observe=None):
    d = {'id': pid, 'title': title, 'statement': ' '.join(statement.split()),
         'quantifier': {'over': over, 'text': text}, 'why_tests_cant': ' '.join(why.split()),
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': w} for a, b, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    P.append((d, tech, ' '.join(note.split())))


def N_(pid, title, statement, over, text, why, files, mech, reason):
    P_(pid, title, statement, over, text, why, files, mech, None, '')
    NA.append({'property': pid, 'reason': ' '.join(reason.split())})




BEGIN, END = '<!-- per-property:begin (generated by tool/catalog.py) -->', '<!-- per-property:end -->'


def design(na):
    """The per-property sections of DESIGN.md, from the catalogue and the rules' own descriptions."""
    from bha import check, rule
    check.load_rules()
    out = [BEGIN, '']
    for d, tech, note in P:
        out.append('### %s %s' % (d['id'], d['title']))
        out.append('')
        if d['id'] in na:
            out.append('Not applicable: ' + na[d['id']])
        else:
            doc = ' '.join((rule.PROPS[d['id']].__doc__ or '').split())
            out.append('*Technique:* %s. *Quantified over:* %s. *Anchored in:* %s.' % (
                tech, d['quantifier']['text'], ', '.join('`%s`' % w for w in sorted({m['where'] for m in d['anchors']['mechanism']}))))
            out.append('')
            out.append(doc)
        out.append('')
    out.append(END)
    path = os.path.join(HERE, 'DESIGN.md')
    s = open(path).read()
    a, b = s.index(BEGIN), s.index(END) + len(END)
    with open(path, 'w') as f:
        f.write(s[:a] + '\n'.join(out) + s[b:])


def main():
    from catalog_props import define
    define(P_, N_)
    na = {x['property'] for x in NA}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, _, _ in P:
            assert len(d['title']) <= 80, d['id']
            f.write(json.dumps(d, sort_keys=False) + '\n')
    checks = []
    for d, tech, note in P:
        if d['id'] in na:
            continue
        checks.append({'property': d['id'],
                       'quick_cmd': 'python3 -m bha.check ' + d['id'],
                       'thorough_cmd': 'python3 -m bha.check ' + d['id'],
                       'evidence_file': 'evidence/%s.json' % d['id'],
                       'technique': tech, 'level': 'other', 'level_note': note})
    m = {'version': 1, 'setup_cmd': 'python3 -m bha.prog setup', 'checks': checks, 'not_applicable': NA,
         'notes': 'No hooks: the checks analyse the sources of /repo as they are. Repairs of genuine defects are the '
                  '"fix:" commits listed in known-findings.txt.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    design({x['property']: x['reason'] for x in NA})
    print(len(P), 'properties', len(checks), 'checks', len(NA), 'not applicable')


if __name__ == '__main__':
    main()
