"""Writes MANIFEST.json from the rules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C90': 'quantifies over thread schedules of an object graph shared through user code; the library has no locks or '
           'thread structure a static lock-order or effect analysis could decide against',
    'C91': 'equality of all later behaviour of two object graphs after a dump and load through library converters and '
           'dynamic class names; C38 decides the static part (what is listed)',
    'C92': 'the checks are code of the dependencies oidcmsg and cryptojwt, outside /repo; C03-C05 decide that they are '
           'called, with which settings, and that their verdict counts',
    'C93': 'depends on the run-time behaviour of the provider and of the HTTP library; no bound is in the source',
    'C94': 'an algorithm on string values (splitting, normalising); no sound static abstraction of strings in reach '
           'distinguishes right from wrong results for every identifier; C09 decides scheme, location and relation',
}
PENDING = 'no check yet'


def main():
    props = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        path = os.path.join(HERE, 'sa', 'rules', pid.lower() + '.py')
        if os.path.exists(path):
            checks.append({
                'property': pid,
                'quick_cmd': 'python3 check.py {}'.format(pid),
                'thorough_cmd': 'python3 check.py {} --thorough'.format(pid),
                'technique': 'interprocedural dataflow analysis of the source (value provenance and must-facts per '
                             'abstract path)',
                'level': 'other',
                'level_note': 'Static analysis over the syntax trees of /repo/src/oidcrp: decides the rules listed for '
                              '{} in DESIGN.md on every abstract path; loops up to a bounded number of symbolic '
                              'iterations, libraries by name.'.format(pid)})
        else:
            na.append({'property': pid, 'reason': NA.get(pid, PENDING)})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast"', 'checks': checks, 'not_applicable': na}, fp,
                  indent=1)
        fp.write('\n')
    print(len(checks), 'checks;', ' '.join(n['property'] for n in na))


main()
