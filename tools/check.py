#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [extra driver options]: build from /repo and search."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
seed = os.environ.get('VERIF_SEED', '1')
r = subprocess.run([sys.executable, V + '/tools/build.py'], capture_output=True, text=True)
sys.stderr.write(r.stderr)
if r.returncode: sys.exit(2)
exe = r.stdout.strip().splitlines()[-1]
os.makedirs(V + '/evidence', exist_ok=True); os.makedirs(V + '/replays', exist_ok=True)
cmd = [exe, '--property', prop, '--tier', tier, '--seed', seed, '--evidence', V + '/evidence/%s.json' % prop,
       '--replay-dir', V + '/replays', '--known', V + '/known-findings.txt'] + sys.argv[3:]
sys.exit(subprocess.run(cmd).returncode)
