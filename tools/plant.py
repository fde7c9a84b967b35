#!/usr/bin/env python3
"""Makes and verifies the planted bugs in seeded/ (run by hand; no check uses it).

  plant.py [-c] [ID...]   make patch.diff and meta.json from tools/plant.conf.py, check that the patch applies, builds, passes the
                          stable tests, that demo.sh passes without and fails with it; -c: also run the property's check against it
"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(ROOT + "/tools/plant.conf.py").read())  # BUGS: id -> (property, [(file, old, new)], needs, breaks, demo flags)
DEMO = '''#!/bin/bash
# run with cwd /repo; 0: the promise is kept
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -O2 -g %s -Icode "$d/demo.cpp" -o "$w/demo" -pthread || exit 2
%stimeout 100 "$w/demo"
'''
def sh(c, cwd, **kw):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main():
    a = sys.argv[1:]
    chk = a[:1] == ["-c"]
    a = a[1:] if chk else a
    bad = 0
    for bid, (prop, edits, needs, breaks, flags) in BUGS.items():
        if a and bid not in a: continue
        sd = f"{ROOT}/seeded/{bid}"
        os.makedirs(sd, exist_ok=True)
        t = f"/tmp/plant-{os.getpid()}"
        shutil.rmtree(t, ignore_errors=True)
        sh(f"git clone -q /repo {t} && cp -a /repo/_build {t}/ 2>/dev/null", "/")
        base = sh("git log --format=%H --reverse | head -1", t).stdout.strip()
        msgs = []
        tsan = "sanitize=thread" in flags
        open(sd + "/demo.sh", "w").write(DEMO % (flags, "setarch -R " if tsan else ""))
        os.chmod(sd + "/demo.sh", 0o755)
        r = sh(f"timeout 300 bash {sd}/demo.sh", t)
        if r.returncode: msgs.append(f"demo fails on the unchanged tree: {r.returncode} {r.stdout[-1500:]}")
        for f, o, n in edits:
            p = f"{t}/code/xmem/{f}"
            s = open(p).read()
            if s.count(o) < 1: msgs.append(f"does not apply: {o[:60]}"); continue
            k = 1
            if n[:2] in ("1@", "2@", "3@", "4@"): k, n = int(n[0]), n[2:]
            at = -1
            for _ in range(k): at = s.index(o, at + 1)
            open(p, "w").write(s[:at] + n + s[at + len(o):])
        d = sh("git diff", t).stdout
        open(sd + "/patch.diff", "w").write(d)
        # removed lines must be the original repository's
        for f in {e[0] for e in edits}:
            org = sh(f"git show b8fb39f:code/xmem/{f}", t).stdout.splitlines()
            rem = [l[1:] for l in sh(f"git diff -U0 -- code/xmem/{f}", t).stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
            if not rem: msgs.append(f"{f}: no line is changed")
            msgs += [f"not an original line: {l}" for l in rem if l not in org]
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(sd + "/meta.json", "w"), indent=1)
        r = sh(f"timeout 300 bash {sd}/demo.sh", t)
        if r.returncode == 0: msgs.append("demo passes with the patch")
        out = r.stdout.strip().splitlines()
        if r.returncode == 2 and "error" in r.stdout: msgs.append("demo does not compile with the patch " + r.stdout[-1500:])
        why = f"demo {r.returncode}: {out[-1][:100] if out else ''}"
        # stable tests, upstream tests
        for n in ("atomic_ref_count", "local_ref_count"):
            r = sh(f"g++ -std=c++17 -include ostream -I/tmp/up -Icode -Itest-helper test/t-{n}.cpp /tmp/up/main.o -o {t}/t && timeout 100 {t}/t", t)
            if r.returncode: msgs.append(f"stable test {n}: {r.stdout[-500:]}")
        up = sh(f"bash /tmp/up/run.sh {t}", t).stdout
        fails = [l.split()[0] for l in up.splitlines() if l.split()[1] != "0"]
        if fails: why += f"; upstream tests failing: {fails}"
        caught = ""
        if chk:
            r = sh(f"python3 {ROOT}/check.py {prop}", ROOT, env=dict(os.environ, XMEM_REPO=t, XMEM_NO_EVIDENCE="1"))
            caught = {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR " + r.stdout[-400:]) + " " + " ".join(l for l in r.stdout.splitlines() if l.startswith("minimised"))[-140:]
            bad += r.returncode != 1
        print(f"{bid} [{prop}]: {'ok' if not msgs else 'BAD ' + ' | '.join(msgs)}; {why}; {caught}", flush=True)
        bad += bool(msgs)
        shutil.rmtree(t, ignore_errors=True)
    sys.exit(bool(bad))
main()
