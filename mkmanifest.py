#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
NOTE = 'Seeded search, not proof: holds on every execution explored (counts in the evidence file). The daemon and GLib are the real code; the kernel below libc is simulated, and the check trusts that model, the reference model of the learned state and the crash model of the file system.'
NOTE24 = 'Seeded search, not proof. The scripts, the shell and the file tools are the real code in a contained scratch tree; service managers and build tools are stand-ins whose model of systemd and OpenRC the check trusts.'
m = {'version': 1,
     'setup_cmd': 'bash build.sh .build/cache && bash build.sh .build/cache asan',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                 'technique': 'deterministic simulation with fault injection', 'level': 'exploration', 'level_note': NOTE24 if p['id'] == 'C24' else NOTE} for p in props if p['id'] not in NA],
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo: the seams are the libc symbols the daemon and GLib call, interposed by the simulator; see DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
