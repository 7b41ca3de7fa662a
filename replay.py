#!/usr/bin/env python3
"""replay.py PLAN [--asan] [--log FILE] -- build from /repo and replay one plan; exit 1 if it violates its property."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.abspath(__file__))
plan = os.path.abspath(sys.argv[1]); asan = '--asan' in sys.argv
if any(l.startswith('{') for l in open(plan, errors='replace')):
    sys.path.insert(0, V + '/inst')
    import inst
    sys.exit(inst.replay(plan))
tmp = tempfile.mkdtemp(prefix='vsim-')
try:
    subprocess.run(['bash', V + '/build.sh', tmp] + (['asan'] if asan else []), check=True)
    s = '_asan' if asan else ''
    cmd = [tmp + '/sim' + s, 'replay', '--lib', tmp + '/libdaemon%s.so' % s, '--plan', plan]
    if '--log' in sys.argv:
        cmd += ['--log', os.path.abspath(sys.argv[sys.argv.index('--log') + 1])]
    p = subprocess.run(cmd, stdout=subprocess.PIPE)
    d = json.loads(p.stdout.decode('utf-8', 'replace').splitlines()[-1])
    print('hash', d['hash'], 'simulated', d['sim_us'] / 1e6, 's')
    for v in d['viol']:
        print('%s: %s' % (v['kind'], v['msg']))
    sys.exit(1 if d['viol'] else 0)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
