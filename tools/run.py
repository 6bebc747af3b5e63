#!/usr/bin/env python3
"""Driver of every check: compiles the harnesses of one property against /repo's working tree, runs their
sections in parallel, merges the counts into evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.

usage: run.py PROPERTY            tier from VERIF_TIER (quick | thorough)
       run.py --replay FILE       re-run the one section and state a replay file names
"""
import sys, os, json, subprocess, time, re, shutil, threading, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import checks as C

NPROC = int(os.environ.get("VERIF_JOBS", "8"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

def known():
    kf = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m:
                kf[(m.group(1), m.group(2))] = m.group(3)
    return kf

def command(u, std, exe):
    cmd = [u.get("cc", "g++"), "-std=c++%d" % std] + u.get("opt", ["-O1"]) + ["-w", "-I" + REPO, "-I" + os.path.join(VERIF, "mc")]
    cmd += ["-D" + d for d in u.get("defs", [])] + u.get("flags", [])
    cmd += ["-ftemplate-depth=2048", "-o", exe, os.path.join(VERIF, "mc", u["src"])] + u.get("libs", [])
    if u.get("compile_only"):
        cmd[cmd.index("-o"):cmd.index("-o") + 2] = ["-fsyntax-only"]
    return cmd

def sh(cmd, timeout, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -1000, (e.stdout or b"").decode("utf-8", "replace")

class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.check = C.CHECKS[prop]
        self.out = os.path.join(VERIF, "build", prop + "-" + tier)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.lock = threading.Lock()
        self.results, self.errors, self.compile_fail = [], [], []
        self.compiled = 0

    def units(self):
        for u in self.check["units"]:
            if u.get("tier") and u["tier"] != self.tier:
                continue
            for std in u.get("std", (11, 17)):
                name = os.path.splitext(u["src"])[0] + ("-" + u["tag"] if u.get("tag") else "") + "-%s%d" % ("cl" if u.get("cc") == "clang++" else "cxx", std)
                yield name, u, std

    def compile(self, name, u, std):
        exe = os.path.join(self.out, name)
        env = dict(os.environ, LC_ALL="C", TMPDIR=self.out)
        rc, log = sh(command(u, std, exe), 600, env)
        if rc != 0:
            rc, log = sh(command(u, std, exe), 800, env)   # once more: a killed compiler is not a verdict
        with self.lock:
            self.compiled += 1
        if rc != 0:
            with self.lock:
                self.compile_fail.append((name, u, std, log))
            return None
        return exe

    def sections(self, exe):
        rc, out = sh([exe, "--list"], 60)
        return [l.strip() for l in out.splitlines() if l.strip()]

    def run_section(self, name, u, std, exe, sec, extra=(), tag=""):
        o = os.path.join(self.out, name + "." + sec + tag + ".json")
        cmd = [exe, "--section", sec, "--out", o] + (["--thorough"] if self.tier == "thorough" else []) + list(extra)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_segv=0", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=0")
        rc, log = sh(cmd, 840 if self.tier == "quick" else 6 * 3600, env)
        try:
            d = json.load(open(o))
        except Exception:
            d = {"section": sec, "status": "died rc=%d" % rc, "states": 0, "transitions": 0, "traces": 0, "fails": 1, "ops": {}, "bounds": {}, "samples": [],
                 "failcount": {"crash": 1}, "failures": [{"op": "crash", "state": "", "detail": "process ended with %d: %s" % (rc, log[-600:]), "index": 0}]}
            if rc == -1000:
                d["status"] = "timeout"
        d["unit"], d["src"], d["std"] = name, u["src"], std
        d["log"] = log[-2000:] if d["status"] != "ok" else ""
        return d

    def go(self):
        t0 = time.time()
        pool = ThreadPoolExecutor(NPROC)
        def unit(n, u, s):
            exe = self.compile(n, u, s)
            if exe is None or u.get("compile_only"):
                return []
            return [pool.submit(self.run_section, n, u, s, exe, sec) for sec in self.sections(exe)]
        futs = [pool.submit(unit, *x) for x in self.units()]
        for f in futs:
            for g in f.result():
                self.results.append(g.result())
        pool.shutdown()
        self.wall = time.time() - t0
        return self.finish()

    def finish(self):
        kf = known()
        prop = self.prop
        rc, viol, known_hit = 0, [], {}
        for name, u, std, log in self.compile_fail:
            # the compiler must work at all before this is blamed on the tree
            prc, _ = sh([u.get("cc", "g++"), "-std=c++%d" % std, "-fsyntax-only", "-x", "c++", "/dev/null"], 60)
            if prc != 0:
                print("ERROR: the compiler does not work"); return 2
            if re.search(r"Killed signal|out of memory|virtual memory exhausted|No space left", log):
                print("ERROR: the compiler was killed on %s\n%s" % (name, log[-1500:])); return 2
            viol.append({"unit": name, "src": u["src"], "std": std, "section": "compile", "op": "compile", "state": "a program that uses the public interface only", "detail": log[:3000], "index": 0})
        timeouts = []
        for d in self.results:
            if d["status"] == "timeout":
                timeouts.append(d)
            for f in d["failures"]:
                f = dict(f, unit=d["unit"], src=d["src"], std=d["std"], section=d["section"])
                m = re.search(r"\[(KF-[A-Za-z0-9_-]+)\]", f["op"])
                if m and (prop, m.group(1)) in kf:
                    known_hit.setdefault(m.group(1), f)
                    continue
                if d["status"] == "timeout":
                    continue
                viol.append(f)
        # replay before report: the same deterministic history has to fail the same way
        os.makedirs(os.path.join(VERIF, "build", "replay"), exist_ok=True)
        confirmed = []
        seen = set()
        for f in viol:
            key = (f["section"], f["op"])
            if key in seen:
                continue
            if f["section"] != "compile":
                u, exe = self.find(f["unit"])
                d2 = self.run_section(f["unit"], u, f["std"], exe, f["section"], ["--stop-at", str(f["index"])] if f["op"] not in ("crash", "hang", "exception") and f["index"] else [], ".replay")
                if not any(x["op"] == f["op"] for x in d2["failures"]):
                    print("NOTE: %s/%s did not reproduce on replay" % key)
                    self.errors.append("unreproducible failure %s/%s" % key)
                    continue
            seen.add(key)
            h = hashlib.sha1(("%s %s %s %s" % (f["unit"], f["section"], f["op"], f["state"])).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "build", "replay", "%s-%s.json" % (prop, h))
            json.dump(dict(f, property=prop, tier=self.tier), open(path, "w"), indent=1)
            confirmed.append((f, path))
        for k, f in sorted(known_hit.items()):
            print("KNOWN-FINDING: property=%s %s %s" % (prop, k, kf[(prop, k)]))
        for f, path in confirmed[:40]:
            print("  %s %s :: %s\n    at %s\n    %s" % (f["unit"], f["section"], f["op"], f["state"][:600], f["detail"][:1500]))
        for f, path in confirmed[:10]:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        if confirmed:
            rc = 1
        elif timeouts or self.errors:
            for d in timeouts:
                print("ERROR: section %s of %s ran out of time" % (d["section"], d["unit"]))
            rc = 2
        self.evidence(len(confirmed), sorted(known_hit))
        shutil.rmtree(self.out, ignore_errors=True)
        return rc

    def find(self, unit):
        for n, u, s in self.units():
            if n == unit:
                return u, os.path.join(self.out, n)

    def evidence(self, nviol, known_ids):
        ops, bounds, samples, secs = {}, {}, [], []
        tot = dict(states=0, transitions=0, traces=0, fails=0)
        for d in self.results:
            for k in tot:
                tot[k] += d[k]
            for o, (n, k) in d["ops"].items():
                a = ops.setdefault(o, [0, 0]); a[0] += n; a[1] = max(a[1], k)
            for k, v in d["bounds"].items():
                bounds[d["unit"] + "/" + d["section"] + "/" + k] = v
            secs.append({"unit": d["unit"], "section": d["section"], "states": d["states"], "transitions": d["transitions"], "traces": d["traces"], "status": d["status"]})
        for d in self.results:
            if d["samples"] and len(samples) < 40:
                samples += d["samples"][-2:]
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": "model_checking",
              "coverage": {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["traces"],
                           "samples": samples, "exhaustive": not self.errors and all(d["status"] == "ok" for d in self.results),
                           "rule": self.check["rule"], "bounds": bounds,
                           "translation_units_compiled": self.compiled,
                           "operations": {o: {"checked": n, "distinct_outcomes_seen": k} for o, (n, k) in sorted(ops.items())},
                           "sections": secs, "known_findings_hit": known_ids},
              "assumptions": self.check.get("assumptions", []) + ["one thread: the library has no shared mutable state", "g++ 13 and its libstdc++ are trusted as the platform; the oracle is plain code in /verif/mc or the C/C++ standard library"],
              "wall_s": round(self.wall, 2), "violations": nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        print("%s %s: %d states, %d transitions, %d traces, %d operations, %.1f s, %d violation(s), %d known" % (
            self.prop, self.tier, tot["states"], tot["transitions"], tot["traces"], len(ops), self.wall, nviol, len(known_ids)))

def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        f = json.load(open(sys.argv[2]))
        r = Run(f["property"], f["tier"])
        for n, u, s in r.units():
            if n == f["unit"]:
                exe = r.compile(n, u, s)
                if exe is None:
                    print(r.compile_fail[0][3]); sys.exit(1)
                d = r.run_section(n, u, s, exe, f["section"], ["--stop-at", str(f["index"])] if f["index"] and f["op"] not in ("crash", "hang") else [])
                hit = [x for x in d["failures"] if x["op"] == f["op"]]
                print(json.dumps(hit[:1] or d["failures"][:1], indent=1))
                sys.exit(1 if hit else 0)
        sys.exit(2)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    sys.exit(Run(prop, tier).go())

if __name__ == "__main__":
    main()
