#!/opt/venv/bin/python
"""the single list of properties; writes /verif/properties.jsonl and /verif/MANIFEST.json from it"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, state, observe, claimed=False, level='proof', note='', technique=None,
      na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state,
                      observe=observe, claimed=claimed, level=level, note=note, technique=technique, na=na))


exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())

TECH = ('contract-based deductive verification: contracts over the mechanically instrumented text of the /repo functions, '
        'every obligation discharged by z3')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'state': p['state'], 'observe_at': p['observe'], 'hook_needed': 'none'}}) + '\n')
    man = {'version': 1, 'setup_cmd': 'true', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read /repo as it is', 'source_commits': []},
           'checks': [], 'not_applicable': [],
           'notes': 'fix commits in /repo are listed in KNOWN_FINDINGS.json; see DESIGN.md'}
    for p in PROPS:
        if p['claimed']:
            man['checks'].append({
                'property': p['id'], 'quick_cmd': f"/opt/venv/bin/python check.py {p['id']}",
                'thorough_cmd': f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
                'evidence_file': f"evidence/{p['id']}.json", 'technique': p['technique'] or TECH, 'level': p['level'],
                'level_note': p['note']})
        else:
            man['not_applicable'].append({'property': p['id'], 'reason': p['na'] or 'contracts not written yet'})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    try:
        sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
        import jsonschema
        jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
        ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for l in open(os.path.join(ROOT, 'properties.jsonl')):
            jsonschema.validate(json.loads(l), ps)
        print('valid', len(man['checks']), 'claimed,', len(man['not_applicable']), 'not')
    except FileNotFoundError:
        pass


main()
