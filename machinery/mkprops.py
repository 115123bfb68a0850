#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json.

One place holds, per property, its text and how it is decided, so that the two
files cannot drift apart.
"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UT, US, T, S, B, Q, SG, PU, UT2 = ('src/unix/terminal.rs', 'src/unix/screen.rs', 'src/terminal.rs', 'src/screen.rs',
                                   'src/buffer.rs', 'src/sequence.rs', 'src/signal.rs', 'src/priv_util.rs', 'src/util.rs')
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, check=None, na=None, state=None, observe=None):
    p = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'hook_needed': None}}
    if state:
        p['anchors']['state'] = [{'name': a, 'meaning': m, 'where': w} for a, m, w in state]
    if observe:
        p['anchors']['observe_at'] = observe
    assert len(title) <= 80, (id, len(title))
    PROPS.append((p, check, na))


AI = 'abstract interpretation of MIR'
NY = 'Not built yet.'
exec(open(os.path.join(V, 'machinery', 'propdata.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, c, na in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks, nas = [], []
    for p, c, na in PROPS:
        i = p['id']
        if c:
            checks.append({'property': i, 'quick_cmd': 'python3 machinery/check.py %s quick' % i,
                           'thorough_cmd': 'python3 machinery/check.py %s thorough' % i,
                           'technique': c[0], 'level': 'other', 'level_note': c[1]})
        else:
            nas.append({'property': i, 'reason': na or NY})
    m = {'version': 1, 'setup_cmd': 'python3 machinery/build.py', 'checks': checks, 'not_applicable': nas,
         'notes': 'properties.jsonl and MANIFEST.json are generated by machinery/mkprops.py from machinery/propdata.py'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
