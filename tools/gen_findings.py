"""known-findings.json: the findings left in place, and the repairs made in /repo."""
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {
    '56e0aa7': 'C10', '8f7e097': 'C03', 'ecdac23': 'C15', '5ea2ffc': 'C16', '4924ee5': 'C18', '7b34775': 'C18', '5428028': 'C33',
    'fe7660b': 'C37', '202da66': 'C37', 'b9998b3': 'C26', '8871570': 'C07', '9f7319b': 'C09', '7953ece': 'C30', '4b6e3b3': 'C21',
    '23c333e': 'C27', '9a2d452': 'C06', '67a06f1': 'C15', '25c57ea': 'C12', 'a3cc085': 'C12', 'bdced66': 'C22', '7fc97c2': 'C04',
    '45a672e': 'C13', '21fb6cf': 'C24', '92edeef': 'C22', '012f917': 'C22', '443d0fe': 'C22', '113c94e': 'C20', 'f9a68bb': 'C38',
    'f830614': 'C02', 'f82960e': 'C17', 'b323b45': 'C17', '774776b': 'C29', 'be63844': 'C29', '1d5f7a6': 'C41', '33caa29': 'C41', '86cc3df': 'C19', '81b12dc': 'C21', '2352e01': 'C21',
    '4306e8e': 'C22', '34dd3e3': 'C22', '3eb2f59': 'C22', 'c664c91': 'C26', '3cda655': 'C27', '526da41': 'C28', '7c942fd': 'C28',
    'cd8152c': 'C32', '55a0f2a': 'C35', '199f925': 'C36', '15060df': 'C37', '03facd9': 'C38',
    '1bbb01b': 'C40', 'bb211f6': 'C40', '46926a2': 'C41'}
KNOWN = [
    {'property': 'C21', 'key': 'C21.mac|oidcrp.cookie.cookie_signature|separator',
     'what': 'cookie_signature hashes the content and the time stamp without anything between them, so that digits can be moved from '
             'the time stamp to the content of a signed cookie ("hello|1795131142" and "hello1|795131142" have the same signature); '
             'a test fixes the signature of a sample cookie, so the format can not be changed'},
    {'property': 'C41', 'key': 'C41.keys|oidcrp.rp_handler.RPHandler.init_client|key jar',
     'what': 'RPHandler.init_client loads the keys of the handler over those of the client, so that a client secret that is configured (not '
             'assigned at registration) is no key of the client any longer: an ID Token signed with HS256 can not be verified and '
             'client_secret_jwt can not be used; two tests count the keys of such a client (exactly those of the handler), so the secret '
             'can not be kept there'},
]


def main():
    log = dict(l.split(' ', 1) for l in subprocess.run(
        ['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True, check=True).stdout.splitlines())
    fixed = []
    for h, s in reversed(list(log.items())):
        if s.startswith('fix:'):
            fixed.append('fixed: property={} {} {}'.format(FIXED[h], h, s[4:].strip()))
    with open(os.path.join(VERIF, 'known-findings.json'), 'w') as fp:
        json.dump({'known': KNOWN, 'fixed': fixed}, fp, indent=1)
        fp.write('\n')


if __name__ == '__main__':
    main()
