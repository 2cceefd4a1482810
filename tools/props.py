#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification: VCs from the LLVM IR of /repo source, discharged by Z3/cvc5'
TB = T + '; labelled bounded native stand-in for what is out of reach'
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, level_note, technique=TB, level='proof', state=()):
    PROPS.append(dict(
        prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state])),
        check=dict(property=id, quick_cmd='python3-vt vc/check.py %s quick' % id,
                   thorough_cmd='python3-vt vc/check.py %s thorough' % id,
                   technique=technique, level=level, level_note=level_note)))


def N(id, title, statement, over, text, why, files, mech, reason):
    PROPS.append(dict(prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                                why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])),
                      na=dict(property=id, reason=reason)))


exec(open(os.path.join(HERE, 'tools', 'props_data.py'), encoding='utf-8').read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in PROPS:
        f.write(json.dumps(p['prop'], ensure_ascii=False) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(dict(version=1, setup_cmd='python3-vt vc/setup.py',
                   hooks=dict(guard='none', enable='no hooks: the checks compile /repo sources as they are', source_commits=[]),
                   checks=[p['check'] for p in PROPS if 'check' in p],
                   not_applicable=[p['na'] for p in PROPS if 'na' in p],
                   notes='fix commits in /repo are listed in known_findings.txt'), f, indent=1, ensure_ascii=False)
    f.write('\n')
