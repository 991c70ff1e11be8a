#!/usr/bin/env python3
"""drive.py DIR SCALES JOBS OUT [ids file]: runs the sweep for every mutant of DIR/list."""
import subprocess, sys, os, concurrent.futures as cf, collections
D, scales, jobs, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
ms = [l.rstrip('\n').split('\t') for l in open(D + '/list')]
if len(sys.argv) > 5:
    want = set(open(sys.argv[5]).read().split()); ms = [m for m in ms if m[0] in want]
done = {l.split('\t')[0] for l in open(out)} if os.path.exists(out) else set()
ms = [m for m in ms if m[0] not in done]
exe = D + '/verif/target/debug/verif'
LIMIT = 600
def run(m):
    env = dict(os.environ, MUTANT=m[0], VERIF_THREADS='1')
    try:
        p = subprocess.run(['nice', exe, 'sweep'] + scales.split('/'), env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=LIMIT, cwd=D)
        o = p.stdout.decode(errors='replace').strip().split('\n')[-1]
        return m, o or f'KILLED exit {p.returncode}'
    except subprocess.TimeoutExpired:
        return m, 'KILLED timeout'
with cf.ThreadPoolExecutor(jobs) as ex, open(out, 'a') as f:
    for r in cf.as_completed([ex.submit(run, m) for m in ms]):
        m, o = r.result()
        f.write('\t'.join([m[0], o, m[1].split('src/', 1)[-1], *m[2:]]) + '\n'); f.flush()
