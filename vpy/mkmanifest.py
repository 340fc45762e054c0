"""development tool: write properties.jsonl and MANIFEST.json from props.py (python3-vt -m vpy.mkmanifest)"""
import json
import os

from . import props

KEYS = ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')


def main():
    h = props.HERE
    with open(os.path.join(h, 'properties.jsonl'), 'w') as f:
        for p in list(props.PROPS.values()) + list(props.NOT_APPLICABLE.values()):
            for a in p['anchors']['files']:
                assert os.path.exists('/repo/' + a), (p['id'], a)
            f.write(json.dumps({k: p[k] for k in KEYS}) + '\n')
    checks = []
    for p in props.PROPS.values():
        checks.append({'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'],
                       'thorough_cmd': './run.sh %s thorough' % p['id'], 'technique': p['technique'],
                       'level': p['level'], 'level_note': p['level_note']})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks are used: the checks import /repo/src unchanged', 'source_commits': []},
         'checks': checks,
         'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in props.NOT_APPLICABLE.values()],
         'notes': 'see DESIGN.md; known findings in known_findings.json'}
    json.dump(m, open(os.path.join(h, 'MANIFEST.json'), 'w'), indent=1)
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(h, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), sch)
        assert json.loads(l)['statement'].count('. ') <= 2, l


if __name__ == '__main__':
    main()
