"""Single source of properties.jsonl and MANIFEST.json."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note,
         level='other', observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level,
                  observe=observe))


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, na=reason,
                  observe=None))


exec((ROOT / 'tools' / 'proplist.py').read_text())

for p in P:
    assert len(p['title']) <= 80, p['id']
with open(ROOT / 'properties.jsonl', 'w') as f:
    for p in P:
        anchors = {'files': ['src/goats/' + x for x in p['files']],
                   'mechanism': [{'name': n, 'where': w}
                                 for n, w in p['mech']]}
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'], 'anchors': anchors,
        }, ensure_ascii=False) + '\n')
manifest = {
    'version': 1,
    'setup_cmd': 'python3 check.py --selftest',
    'checks': [{
        'property': p['id'],
        'quick_cmd': f"python3 check.py {p['id']}",
        'thorough_cmd': f"python3 check.py --tier thorough {p['id']}",
        'technique': p['technique'],
        'level': p['level'],
        'level_note': p['note'],
    } for p in P if 'na' not in p],
    'not_applicable': [{'property': p['id'], 'reason': p['na']}
                       for p in P if 'na' in p],
}
(ROOT / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1,
                                               ensure_ascii=False) + '\n')
print(len(P), 'properties,', len(manifest['checks']), 'claimed')
