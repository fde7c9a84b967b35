#!/usr/bin/env python3
"""Sensitivity: plant small breakages in a scratch copy of the headers and run checks against it.

  mutants.py [-s SCALE] [NAME...]      all mutants, or those whose name contains one of NAME

Each mutant names the properties it breaks; the line printed says which of their
checks saw it. Uses XMEM_REPO, never touches /repo. Not used by any check.
"""
import os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(ROOT, "tools", "mutants.conf.py")).read())  # M

def main():
    scale = "0.1"
    a = sys.argv[1:]
    if a[:1] == ["-s"]:
        scale, a = a[1], a[2:]
    bad = 0
    for name, file, old, new, props in M:
        if a and not any(x in name for x in a):
            continue
        d = f"/tmp/mutant-{os.getpid()}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo/code", d + "/code")
        for f, o, n in zip(file if isinstance(file, list) else [file], old if isinstance(old, list) else [old], new if isinstance(new, list) else [new]):
            p = f"{d}/code/xmem/{f}"
            s = open(p).read()
            if o not in s:
                print(f"{name}: does not apply"); bad += 1; break
            k = 1
            if "@" in n[:3]:  # "2@text": the second occurrence; "*@text": all of them
                k, n = n.split("@", 1)
            if k == "*":
                s = s.replace(o, n)
            else:
                at = -1
                for _ in range(int(k)):
                    at = s.index(o, at + 1)
                s = s[:at] + n + s[at + len(o):]
            open(p, "w").write(s)
        else:
            res = []
            for prop in props:
                r = subprocess.run([sys.executable, ROOT + "/check.py", prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                    env=dict(os.environ, XMEM_REPO=d, VERIF_SCALE=scale, XMEM_NO_EVIDENCE="1"))
                m = re.search(r"minimised: (.*)", r.stdout)
                t = re.search(r"([0-9.]+) s \(([0-9.]+) s building", r.stdout)
                n = re.search(r": (\d+) simulated", r.stdout)
                w = "caught" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR"
                bad += w != "caught"
                res.append(f"{prop} {w} after {n and n.group(1)} runs ({m.group(1)[m.group(1).find('message')+8:][:110] if m else r.stdout[-300:] if w == 'ERROR' else ''})")
            print(name + ": " + "; ".join(res), flush=True)
        shutil.rmtree(d, ignore_errors=True)
    print("all caught" if not bad else f"{bad} not caught")

main()
