"""replay_file.py FILE: run a replay file's contract natively against /repo's current tree."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dvlib as d, replay
t = open(sys.argv[1]).read().splitlines()
m = dict(l[1:].split(" ", 1) for l in t if l.startswith("!"))
ch = {l[1:].split()[0]: int(l.split()[1]) for l in t if l.startswith("?")}
try:
    x = replay.build(d.build_engine(), d.build_harness(m["file"], d.build_library()), m["entry"], ch)
    r, out = replay.run(x, [os.path.abspath(sys.argv[1])])
    print(out)
finally:
    replay.cleanup()
sys.exit(0 if r == 0 else 1)
