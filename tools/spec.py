"""Single source of properties.jsonl and MANIFEST.json: run `python3 tools/spec.py` to regenerate both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the source (custom stdlib-only analyser): '
TRUST = ('Decides the rule for every input on the analysed paths; trusts the analyser\'s model of numpy/scipy and Python semantics. '
         'Constructs the domain cannot express are counted as undecided in the evidence, never reported.')

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note='', observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [], na=na))


LENS_FILES = ['lenstronomy/LensModel/Profiles', 'lenstronomy/LensModel/profile_list_base.py', 'lenstronomy/LensModel/single_plane.py']
LIGHT_FILES = ['lenstronomy/LightModel/Profiles', 'lenstronomy/LightModel/light_model_base.py']

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props.py')).read())


def main():
    P.sort(key=lambda p: p['id'])
    assert len({p['id'] for p in P}) == len(P)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    man = {'version': 1,
           'setup_cmd': "python3 -W ignore -c 'import ast, sys; assert sys.version_info >= (3, 9)'",
           'checks': [], 'not_applicable': []}
    for p in P:
        if p['na']:
            man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        else:
            man['checks'].append({
                'property': p['id'],
                'quick_cmd': 'python3 -W ignore -m sa %s quick' % p['id'],
                'thorough_cmd': 'python3 -W ignore -m sa %s thorough' % p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'],
                'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': (TRUST + ' ' + p['note']).strip()})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(man['checks']), 'checks', len(man['not_applicable']), 'n/a')


if __name__ == '__main__':
    main()
