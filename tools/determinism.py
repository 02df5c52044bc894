#!/usr/bin/env python3
"""Determinism of the simulator: the trace hashes of the same runs are the same with any number of workers, in any batch they
are executed in, and in repeated invocations."""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
binary = os.path.join(here, 'target/release/jester_dst')
ids = sys.argv[1:] or 'R01 R02 R03 R04 R05 R06 R07 S01 S02 S03 S04 S05 S06 S07 S08 H02 E01 H01'.split()

def traces(prop, a, b, workers, seed='1'):
    env = dict(os.environ, DST_WORKERS=str(workers), VERIF_SEED=seed)
    out = subprocess.run([binary, 'traces', '--property', prop, '--from', str(a), '--to', str(b)],
                         env=env, capture_output=True, text=True, check=True).stdout
    return sorted(l for l in out.splitlines() if l.startswith(prop + ' '))

bad = 0
for p in ids:
    a, b = (8, 308) if p == 'H01' else (0, 60) if p == 'S05' else (0, 300)
    base = traces(p, a, b, 8)
    again = traces(p, a, b, 8)
    one = traces(p, a, b, 3)
    m = (a + b) // 2
    parts = sorted(traces(p, m, b, 5) + traces(p, a, m, 2))
    other = traces(p, a, b, 8, '2')
    ok = base == again == one == parts and len(base) == b - a
    moved = sum(x != y for x, y in zip(base, other))
    print(p, 'deterministic' if ok else 'DIFFERENT', len(base), 'runs,', moved, 'differ under another seed')
    bad += not ok
sys.exit(1 if bad else 0)
