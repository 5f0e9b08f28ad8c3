#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py and properties.jsonl"""
import json
from checks import CHECKS
props = [json.loads(l) for l in open('properties.jsonl')]
NA = {}
m = dict(version=1,
         setup_cmd='python3 check.py setup',
         hooks=dict(guard='demixer_verif',
                    enable="RUSTFLAGS='--cfg demixer_verif' cargo build (harness/, done by check.py)",
                    source_commits=[]),
         checks=[], not_applicable=[],
         notes='TLA+ specifications in spec/, checked with TLC; recorded behaviours of the real code are validated '
               'against them. No hooks have been needed: the public interface shows the abstract state.')
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(
            property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} --thorough',
            technique='TLA+ specification; TLC model checking and trace validation of the real code',
            level='model_checking',
            level_note='Design specification checked exhaustively within small constants; the code is bound by '
                       'validating recorded runs: ' + c['covers'] + '. Trusts TLC, rustc and the recording harness; '
                       'inputs that were not run are not decided.'))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'specification not built yet')))
open('MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
