#!/usr/bin/env python3
# development helper: run a harness binary's sections in parallel and print a failure summary
import sys, subprocess, json, time
from concurrent.futures import ThreadPoolExecutor
exe = sys.argv[1]; extra = [a for a in sys.argv[2:] if a.startswith("--")]; want = [a for a in sys.argv[2:] if not a.startswith("--")]
secs = [s for s in subprocess.run([exe, "--list"], capture_output=True, text=True).stdout.split() if not want or s in want]
def run(s):
    t = time.time()
    try: o = subprocess.run([exe, "--section", s] + extra, capture_output=True, text=True, timeout=900)
    except subprocess.TimeoutExpired: return s, None, 900, "timeout"
    try: d = json.loads(o.stdout.splitlines()[-1])
    except Exception: d = None
    return s, d, time.time() - t, o.stdout[-500:] + o.stderr[-500:]
with ThreadPoolExecutor(8) as p:
    for s, d, t, log in p.map(run, secs):
        if d is None: print(s, "NO RESULT", log); continue
        print("%-28s %-6s states %d trans %d fails %d %.1fs" % (s, d["status"], d["states"], d["transitions"], d["fails"], t))
        seen = set()
        for f in d["failures"]:
            if f["op"] in seen: continue
            seen.add(f["op"]); print("    %s (%d) @ %s :: %s" % (f["op"], d["failcount"][f["op"]], f["state"][:220], f["detail"][:220]))
