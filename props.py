#!/usr/bin/env python3
"""The property table: writes properties.jsonl and MANIFEST.json (python3 props.py)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))

PROPS = []
NA = {}


DEEPER = set()


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, na=None,
         state=(), observe=()):
    if 'deterministic family' in (technique or ''):
        DEEPER.add(id)
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=list(observe), hook_needed=None)))
    if na:
        NA[id] = na
    else:
        CLAIMED.append((id, technique, note))


CLAIMED = []
exec(open(os.path.join(HERE, 'proptable.py')).read())


def main():
    assert len({p['id'] for p in PROPS}) == len(PROPS)
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    man = dict(
        version=1,
        setup_cmd='python3 run.py --setup',
        checks=[dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd=('VERIF_TIER=thorough ' if i in DEEPER else '') + 'python3 run.py ' + i,
                     technique=t, level='other', level_note=n) for i, t, n in CLAIMED],
        not_applicable=[dict(property=i, reason=r) for i, r in sorted(NA.items())],
        notes='Static analysis only: a clang-based extractor turns every built translation unit of /repo into '
              'resolved facts; Python rules (dataflow, abstract interpretation over value terms, effect '
              'summaries, exhaustiveness, table agreement) decide the properties. No hooks in /repo.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
