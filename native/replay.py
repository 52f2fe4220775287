"""Replays the failing case of a replay file against a fresh build of the repository: exit 1 when it (still) fails."""
import sys, tempfile, shutil, run
lines = open(sys.argv[1]).read().split('\n')
k = [i for i, l in enumerate(lines) if l.startswith('failing case')]
if not k: print('no failing case in this file'); sys.exit(0)
d = tempfile.mkdtemp(prefix='replay_')
try:
    exe, err = run.build(d, quic=lines[k[0] + 1].startswith('X '))
    if not exe: print(err); sys.exit(2)
    bad = run.judge([lines[k[0] + 1]], run.run_batch(exe, [lines[k[0] + 1]], 30))
    for b in bad: print('case', b['case'], '\nexpected', b['expected'], '\nobserved', b['observed'], b['note'])
    print('FAILS' if bad else 'passes')
finally: shutil.rmtree(d, ignore_errors=True)
sys.exit(1 if bad else 0)
