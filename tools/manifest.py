"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = {
 'doc': 'TLC enumerates all small documents of families built for this property and checks the invariants of the specification on them; these and generated larger ones are run through the real parser and every observation is compared with what the TLA+ specification says at that point. Holds for what was explored; trusts the specification as the meaning of the property, the replay harness, and TLC.',
 'hist': 'TLC checks the set operations of the specification (frame, read-back, formatting) on all histories over a pool of documents; these and generated histories are replayed into the real library, comparing each answer with the specification. Holds for what was explored; trusts specification, harness and TLC.',
 'val': 'TLC enumerates constructor calls and values within bounds and checks read-back on the specification; these and generated calls are replayed into the real library. Holds for what was explored; trusts specification, harness and TLC.',
 'kit': 'TLC checks the state machine of tomlkit on enumerated jobs; these and generated jobs are run with the real binary in scratch directories, and output, exit code and files compared with the specification. Holds for what was explored; trusts specification, runner and TLC.'}
KIND = dict(P10='hist', P11='hist', P12='hist', P13='hist', P14='hist', P18='hist', P15='val', P16='val', P17='val', P20='val', P27='val', P28='val', P29='hist', P21='kit', P22='kit')
m = dict(version=1, setup_cmd='./setup',
         checks=[dict(property=i, quick_cmd='./check ' + i, thorough_cmd='./check %s --thorough' % i,
                      technique='TLA+ specification checked with TLC; conformance by replaying TLC-enumerated and generated cases and checking the recorded traces against the specification',
                      level='model_checking', level_note=NOTE[KIND.get(i, 'doc')]) for i in ids],
         not_applicable=[],
         notes='No hooks in /repo: everything is observed through the public API and the tomlkit binary. ./check builds from /repo\'s working tree into /verif/target (git-ignored).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
