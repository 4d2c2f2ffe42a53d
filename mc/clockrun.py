"""Child of check C28, started with the interposed clock (fakeclock.c) preloaded:
parses one text for each clock schedule, prints results and the instants passed."""
import ctypes
import json
import sys

from mc import obs

clock = ctypes.CDLL(sys.argv[1])
clock.fake_stop.restype = ctypes.c_longlong
job = json.load(sys.stdin)
out = []
for start, steps in job["schedules"]:
    p = obs.ttp(template=job["template"])
    for d in job["data"]:
        p.add_input(d)
    clock.fake_start(ctypes.c_longlong(start), (ctypes.c_longlong * max(1, len(steps)))(*steps), len(steps))
    try:
        p.parse(one=True)
    finally:
        end = clock.fake_stop()
    out.append((p.result()[0], start, end, clock.fake_reads()))
json.dump(out, sys.stdout)
