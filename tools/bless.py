#!/usr/bin/env python3
"""Records the functions of /repo the contracts were written against (names of
parameters and locals, loop kinds), used to follow renamings. contracts/baseline.json
is committed; checks only read it."""
import json, subprocess, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ex = json.loads(subprocess.run([H + '/extract/target/release/vextract', '/repo/src'], capture_output=True, text=True, check=True).stdout)
b = {f['key']: {'params': [p['pat'] for p in f['params']], 'lets': f['lets'], 'loops': f['loops'], 'panics': f['panics'],
     'binds': f['binds'], 'blocks': f['block_sigs'], 'rets': f['ret_sigs']} for f in ex['fns']}
open(H + '/contracts/baseline.json', 'w').write(json.dumps(b, indent=0, sort_keys=True) + '\n')
print(len(b))
