#!/usr/bin/env python3
"""One seed, one execution: the outcome of many seeds does not depend on the process that runs them.

  determinism.py [-n SEEDS] [ID...]

Every part of every check: one process runs the seeds in order; seven others run every seventh of them from different
directories, with environments of different sizes. Outcome (hash of the event sequence, steps, decisions, verdict) per seed must agree.
"""
import os, subprocess, sys, tempfile, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
def main():
    n, ids, a = 4000, [], sys.argv[1:]
    while a:
        x = a.pop(0)
        if x == "-n": n = int(a.pop(0))
        else: ids.append(x)
    parts = sorted({(p["bin"], p["profile"]) for i, c in check.CHECKS.items() for p in c["parts"] if not ids or i in ids})
    d = tempfile.mkdtemp(prefix="determinism-")
    check.build(sorted({b for b, _ in parts}), {"gcc-O1": d})
    bad = total = 0
    def lines(c, env, cwd): return subprocess.run(c, env=env, cwd=cwd, stdout=subprocess.PIPE, text=True).stdout.split("\n")
    with cf.ThreadPoolExecutor(8) as ex:
        for b, pr in parts:
            cmd = [f"{d}/{b}", "hash", "--profile", pr, "--base", "99", "--count", str(n)]
            one = ex.submit(lines, cmd, dict(os.environ), ROOT)
            many = [ex.submit(lines, cmd + ["--first", str(k), "--stride", "7"], dict(os.environ, PAD="x" * (k * 777)), "/" if k % 2 else d) for k in range(7)]
            x = sorted(l for l in one.result() if l)
            y = sorted(l for m in many for l in m.result() if l)
            diff = len(set(x) ^ set(y))
            total += len(x)
            bad += diff + (len(x) != n)
            print(f"{b} {pr}: {len(x)} seeds, {diff} differ", flush=True)
    subprocess.run(["rm", "-rf", d])
    print(f"{total} seeds, {bad} differ")
    sys.exit(bad != 0)
if __name__ == "__main__": main()
