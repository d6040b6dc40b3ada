"""Single source of properties.jsonl and MANIFEST.json.

python3-vt tools/props.py   rewrites both files.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U, K, M, T, F = ('empymod/utils.py', 'empymod/kernel.py', 'empymod/model.py',
                 'empymod/transform.py', 'empymod/filters.py')
IO, MAIN = 'empymod/io.py', 'empymod/__main__.py'
FD, TT = 'empymod/scripts/fdesign.py', 'empymod/scripts/tmtemod.py'
PROPS = []
VN = ('value numbering of two abstract runs (abstract interpretation of the '
      'source, global value numbering modulo field/exponential theory)')


def P(pid, title, statement, over, quant, why, files, mech, technique=None,
      note=None, na=None, observe=None):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over,
                      quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na,
                      observe=observe))




def main():
    import propdefs
    propdefs.define(P)
    seen = set()
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert p['pid'] not in seen and len(p['title']) <= 80, p['pid']
            seen.add(p['pid'])
            d = dict(id=p['pid'], title=p['title'],
                     statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['quant']),
                     why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[
                         dict(name=a, where=b) for a, b in p['mech']],
                         observe_at=p['observe'] or ['public functions of '
                                                     'the package'],
                         hook_needed=None))
            f.write(json.dumps(d) + '\n')
    man = dict(version=1, setup_cmd='python3-vt -c "import numpy, ast"',
               checks=[], not_applicable=[],
               notes='All checks are static: /repo is parsed and abstractly '
               'interpreted, never imported or run.')
    for p in PROPS:
        if p['na']:
            man['not_applicable'].append(dict(property=p['pid'],
                                              reason=p['na']))
            continue
        c = f"python3-vt check.py {p['pid']} --tier "
        man['checks'].append(dict(
            property=p['pid'], quick_cmd=c+'quick', thorough_cmd=c +
            'thorough', evidence_file=f"evidence/{p['pid']}.json",
            technique=p['technique'], level='other', level_note=p['note']))
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
