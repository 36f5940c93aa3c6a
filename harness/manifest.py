"""Writes properties.jsonl and MANIFEST.json from one table (run by hand: python3 harness/manifest.py)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CONT = 'beluga/continuation/continuation.py'


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), level='model_checking',
         technique='', note='', na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, level=level, technique=technique, note=note,
                  na=na))


from proptable import fill  # noqa: E402
fill(prop, CONT)


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                            'observe_at': list(p['observe']), 'hook_needed': None}}) + '\n')
    m = {'version': 1,
         'setup_cmd': 'bash bin/setup',
         'hooks': {'guard': 'none', 'enable': 'no hooks: the checks observe the code through its public interface'},
         'checks': [{'property': p['id'], 'quick_cmd': 'bin/check %s quick' % p['id'],
                     'thorough_cmd': 'bin/check %s thorough' % p['id'], 'technique': p['technique'],
                     'level': p['level'], 'level_note': p['note']} for p in P if not p['na']],
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
         'notes': 'TLA+ (TLC) specifications in spec/, bound to the code by trace validation; see DESIGN.md.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
