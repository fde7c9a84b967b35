#!/usr/bin/env python3
"""Mutation sweep: every small syntactic change of the headers, in scratch copies; which profiles see it?

  sweep.py [-j N] [-t SECONDS] [-a] [-i] [-o OUT] [FILE[:LINE]...]

-i: additions (giving up early under some condition, a statement twice or exchanged with the next) instead of small changes.
-2 N: N such additions per file, drawn at random, under two conditions at once.
-a: run all profiles (a matrix), not just up to the first that sees the change. Not used by any check.
"""
import json, os, random, re, shutil, subprocess, sys, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from check import WRAP
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/code/xmem"
FILES = ["atomic_ref_count.hpp", "bits/spinlock.hpp", "basic_atomic_shared_ptr_storage.hpp", "common_control_block.hpp", "basic_shared_ptr.hpp", "basic_weak_ptr.hpp", "cb_ptr_pair.hpp",
         "basic_shared_from.hpp", "unique_ptr.hpp", "default_delete.hpp", "local_ref_count.hpp", "allocator.hpp", "std_helpers.hpp", "shared_ptr.hpp", "local_shared_ptr.hpp"]
W = ["C13", "C10", "C01", "C02", "C03", "C08", "C16", "C17", "C04"]
BINS = {"refcount": ("refcount", None, ["C14"]), "unique": ("unique", None, ["C12", "C01"]),
        "world3": ("world", 3, W[:-1]), "world1": ("world", 1, [w for w in W if w != "C10"]), "world2": ("world", 2, ["C13", "C03", "C08", "C16"]),
        "graph3": ("graph", 3, ["C11", "C09", "C10"]), "graph1": ("graph", 1, ["C11", "C09"]), "graph2": ("graph", 2, ["C11", "C09"]),
        "storage1": ("storage", 1, ["C05", "C06", "C07"]), "storage3": ("storage", 3, ["C05", "C06", "C07", "C10"]), "storage4": ("storage", 4, ["C15"]), "storage5": ("storage", 5, ["C15"])}
ORDER = {"atomic_ref_count.hpp": ["refcount", "world1", "graph1", "storage1"], "bits/spinlock.hpp": ["storage1", "storage3", "storage4"], "basic_atomic_shared_ptr_storage.hpp": ["storage1", "storage3"],
         "unique_ptr.hpp": ["unique", "world3", "world1", "graph1", "graph3"], "default_delete.hpp": ["unique", "world1", "graph1"], "local_ref_count.hpp": ["world2", "graph2"],
         "std_helpers.hpp": ["storage4", "storage5"], "local_shared_ptr.hpp": ["world2", "graph2"], "shared_ptr.hpp": ["world1", "graph1", "storage1"],
         "basic_shared_from.hpp": ["graph3", "graph1", "graph2"]}
GEN = ["world3", "graph3", "world1", "graph1", "storage3", "storage1", "world2", "graph2", "unique"]
def mutants(f):
    L = open(f"{SRC}/{f}").read().split("\n")
    out = []
    def add(i, new, what):
        if new != L[i]: out.append((f, i + 1, what, new))
    for i, l in enumerate(L):
        s = l.strip()
        code = l.split("//")[0]
        if not s or s.startswith(("//", "#", "namespace", "template", "using", "friend", "static_assert", "}", "public", "private", "protected")): continue
        for m in re.finditer(r"std::memory_order_(\w+)", code):
            for o in ("relaxed", "acquire", "release", "acq_rel"):
                if o != m[1]: add(i, code[:m.start()] + "std::memory_order_" + o + code[m.end():], f"order {m[1]}->{o}")
        for m in re.finditer(r"\bif \(", code):
            d = 0
            for j in range(m.end() - 1, len(code)):
                d += (code[j] == "(") - (code[j] == ")")
                if d == 0: break
            c = code[m.end():j]
            for n in ("true", "false", f"!({c})"): add(i, code[:m.end()] + n + code[j:], f"if {n[:5]}")
        for a, b in (("==", "!="), ("!=", "=="), (" + 1", ""), (" - 1", ""), (" + 1", " + 2"), ("++", "--"), ("--", "++"), ("!!", "!"), ("true", "false"), ("false", "true"), ("&&", "||"),
                     ("fetch_add", "fetch_sub"), ("fetch_sub", "fetch_add"), ("this, &r", "&r, this"), ("&r, this", "this, &r"), ("nullptr)", "ptr)"), ("cb(r.cb)", "cb(nullptr)"), ("ptr(r.ptr)", "ptr(nullptr)"),
                     (".get()", ".release()"), ("const noexcept { return !!", "const noexcept { return !"), ("weak", "strong"), ("strong", "weak"), ("return {}", "return ret"), ("_nz(", "("), ("(1)", "(2)")):
            if "operator" + a in code or (a in ("==", "!=") and "operator" in code): continue
            k = code.find(a)
            while k >= 0:
                add(i, code[:k] + b + code[k + len(a):], f"{a} -> {b}")
                k = code.find(a, k + len(a))
        for m in re.finditer(r"std::move\((\w[\w.]*)\)", code): add(i, code[:m.start()] + m[1] + code[m.end():], "no move")
        for m in re.finditer(r"std::forward<\w+(?:\.\.\.)?>\(([^()]*(?:\(\))?)\)", code): add(i, code[:m.start()] + m[1] + code[m.end():], "no forward")
        # delete a statement
        if s.endswith(";") and not s.startswith(("return", "struct", "class", "[[", "explicit", "inline", "virtual", "static")) and not re.match(r"[\w:<>,&*\s]+\s\w+;$", s) and "= default" not in s and "= delete" not in s:
            add(i, re.match(r"\s*", l)[0] + ";", "delete statement")
        # empty a one-line body
        m = re.search(r"\{(.+)\}\s*;?$", code)
        if m and "return" not in m[1] and "struct" not in s: add(i, code[:m.start()] + "{}" , "empty body")
        m = re.search(r"\breturn ([^;]+);", code)
        if m and m[1] not in ("*this", "{}") and "operator" not in code: add(i, code[:m.start(1)] + "{}" + code[m.end(1):], "return {}")
    return out
# conditions under which a statement added by mistake might give up early, by file
CONDS = {
    "basic_shared_ptr.hpp": ["!m.ptr", "m.ptr && !m.cb", "m.cb && !m.ptr", "m.cb && m.cb->strong_ref_count() == 1", "m.cb == r.m.cb", "m.cb && m.cb == r.m.cb", "(const void*)m.ptr == (const void*)r.m.ptr", "!r.m.ptr",
        "r.m.ptr && !r.m.cb", "!r.m.cb", "r.m.cb && r.m.cb->strong_ref_count() == 1", "!uptr", "!aptr", "!p", "!u", "(const void*)u == (const void*)m.ptr", "(const void*)aptr == (const void*)r.m.ptr", "owner.use_count() == 1", "!ptr", "!owner", "(const void*)ptr == (const void*)owner.get()"],
    "basic_weak_ptr.hpp": ["!m.ptr", "m.cb && !m.ptr", "m.cb && m.cb->strong_ref_count() == 0", "m.cb && m.cb->strong_ref_count() == 1", "m.cb == r.m.cb", "m.cb && m.cb == r.m.cb", "(const void*)m.ptr == (const void*)r.m.ptr", "!r.m.ptr", "!r.m.cb",
        "r.m.cb && r.m.cb->strong_ref_count() == 0", "m.cb == sptr.m.cb", "m.cb && m.cb == sptr.m.cb", "(const void*)m.ptr == (const void*)sptr.m.ptr", "!sptr.m.ptr", "!sptr.m.cb", "sptr.m.cb && sptr.m.cb->strong_ref_count() == 1", "!aptr", "!r.cb", "!r.ptr", "r.cb && r.cb->strong_ref_count() == 0"],
    "cb_ptr_pair.hpp": ["!r.cb", "!r.ptr", "cb == r.cb", "ptr == r.ptr", "!cb", "!ptr", "cb && !r.cb"],
    "basic_shared_from.hpp": ["!ptr", "m.cb && m.cb->strong_ref_count() == 1", "(const void*)m.ptr != (const void*)ptr", "m.cb && m.cb->strong_ref_count() == 0"],
    "common_control_block.hpp": ["m_strong.count() == 1", "m_weak.count() == 1", "m_strong.count() == 0", "m_weak.count() == 0", "m_weak.count() > 1", "m_strong.count() > 2", "!ptr", "!uptr"],
    "unique_ptr.hpp": ["!other.get()", "!this->m_ptr", "this->m_ptr == p", "!p", "this->m_ptr && p", "(const void*)other.get() == (const void*)this->m_ptr", "this->m_ptr && other.get()", "!m_ptr", "m_ptr == other.m_ptr"],
    "basic_atomic_shared_ptr_storage.hpp": ["!m_ptr", "!ptr", "m_ptr == ptr", "!expect", "expect == ptr", "m_ptr.use_count() == 1", "m_ptr.use_count() == 0", "ptr.use_count() == 0", "expect.use_count() == 1", "same_owner(m_ptr, ptr)", "same_owner(expect, ptr)", "same_owner(expect, m_ptr)"],
    "std_helpers.hpp": ["!m_ptr", "!ptr", "m_ptr == ptr", "!expect", "expect == ptr", "m_ptr.use_count() == 1", "m_ptr.use_count() == 0", "ptr.use_count() == 0", "expect.use_count() == 1", "same_owner(m_ptr, ptr)", "same_owner(expect, m_ptr)", "!owner", "owner.use_count() == 1", "a.use_count() == 0", "a.use_count() == 1",
        "a.use_count() == 0 && b.use_count() == 0", "ptr.use_count() == 1"],
    "atomic_ref_count.hpp": ["m_refs.load() == 1", "m_refs.load() > 2", "m_refs.load() == 0", "rc == 1", "rc > 2"],
    "local_ref_count.hpp": ["m_refs == 1", "m_refs > 2", "m_refs == 0"],
    "shared_ptr.hpp": [], "local_shared_ptr.hpp": [], "default_delete.hpp": ["!t", "!ar"], "allocator.hpp": ["n > 1"], "bits/spinlock.hpp": [],
}
EXTRA = {
    "basic_shared_ptr.hpp": ["(void*)this < (void*)&r", "m.cb && m.cb->strong_ref_count() == 2", "m.cb && m.cb->strong_ref_count() > 3", "r.m.cb && r.m.cb->strong_ref_count() == 2", "owner.use_count() > 2"],
    "basic_weak_ptr.hpp": ["(void*)this < (void*)&r", "m.cb && m.cb->strong_ref_count() > 1", "r.m.cb && r.m.cb->strong_ref_count() > 1", "sptr.m.cb && sptr.m.cb->strong_ref_count() > 1"],
    "basic_shared_from.hpp": ["m.cb && m.cb->strong_ref_count() == 2", "m.cb && m.cb->strong_ref_count() > 2"],
    "common_control_block.hpp": ["m_strong.count() == 2", "m_weak.count() == 2", "m_weak.count() > 3", "m_strong.count() == m_weak.count()"],
    "basic_atomic_shared_ptr_storage.hpp": ["m_ptr.use_count() == 2", "m_ptr.use_count() > 2", "expect.use_count() == 2", "ptr.use_count() == 1", "ptr.use_count() == 2", "m_ptr.owner_before(ptr)"],
    "std_helpers.hpp": ["m_ptr.use_count() == 2", "expect.use_count() == 2", "ptr.use_count() == 2", "m_ptr.owner_before(ptr)", "b.use_count() == 1"],
    "unique_ptr.hpp": ["(void*)this < (void*)&other", "other.get() && !this->m_ptr"],
}
def pairs(): # conditions that need two things at once
    for f in CONDS:
        c = CONDS[f] + EXTRA.get(f, [])
        CONDS[f] = [f"{a} && {b}" for i, a in enumerate(c) for b in c[i + 1:]] + [f"{a} && !({b})" for a in c for b in c if a != b]
def returns(sig, cls):
    s = re.sub(r"\[\[nodiscard\]\]|static|virtual|explicit|inline|constexpr", "", sig).strip()
    if "operator=(" in s: return ["return *this;"]
    if s.startswith(("void", "~")): return ["return;"]
    if s.startswith("bool"): return ["return false;", "return true;"]
    if cls and s.startswith(cls + "("): return ["{ m.reset(); return; }"] if cls in ("basic_shared_ptr", "basic_weak_ptr") else ["{ reset(); return; }", "return;"]
    if "exchange(" in s: return ["return ptr;", "return {};"]
    return ["return {};"]
def insertions(f):
    L = open(f"{SRC}/{f}").read().split("\n")
    out, cls, sig, depth = [], None, None, None
    for i, l in enumerate(L):
        s = l.strip()
        ind = len(l) - len(l.lstrip())
        m = re.match(r"(?:class|struct)\s+(?:alignas\(\S+\)\s+)?(\w+)", s)
        if m and not s.endswith(";"): cls = m[1]
        if sig is None:
            if s.startswith(("//", "#", "class", "struct", "namespace", "template <typename", "union", "using", "I_X")): continue
            m = re.match(r"(.*?\)(?:\s*(?:const|noexcept|override))*(?:\s*:\s[^{]*(?:\{[^{}]*\})?[^{]*)?)\s*\{(.*)$", s)
            if not m: continue
            for c in CONDS[f]:
                for r in returns(m[1], cls):
                    if m[2].strip(" };") or not s.rstrip(";").endswith("}"): out.append((f, i + 1, f"if ({c}) {r}", l[:l.index(s) + len(m[1])] + " { if (" + c + ") " + r + " " + m[2]))
            if not s.rstrip(";").endswith("}"): sig, depth = m[1], ind
            continue
        if ind <= depth and s.startswith("}"): sig = None; continue
        if not s or s.startswith(("//", "#", "else", "{", "}", "struct", "using", "private")) or "{ if" in s: continue
        if s.endswith(";") and not s.startswith(("return", "if", "while")): # twice, or exchanged with the next one
            if not re.match(r"(auto|[\w:<>]+)\s+\w+\s*[=;({]", s): out.append((f, i + 1, "twice", l + " " + s))
        n = L[i + 1] if i + 1 < len(L) else ""
        if s.endswith(";") and n.strip().endswith(";") and len(n) - len(n.lstrip()) == ind: out.append((f, i + 1, "exchanged", l, n))
        if s.endswith((";", "{")) and L[i - 1].strip().endswith((";", "}")):
            for c in CONDS[f]:
                for r in returns(sig, cls):
                    if r != s and not (r == "return {};" and s == "return 0;"): out.append((f, i + 1, f"if ({c}) {r}", l[:ind] + "if (" + c + ") " + r + " " + s))
    return out
def one(job):
    n, (f, line, what, new, *nxt), every, secs = job
    d = f"/tmp/sweep-{os.getpid()}-{n}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/code", d + "/code")
    p = f"{d}/code/xmem/{f}"
    L = open(p).read().split("\n")
    if nxt: L[line - 1], L[line] = L[line], L[line - 1]
    else: L[line - 1] = new
    open(p, "w").write("\n".join(L))
    seen, built, err = [], 0, ""
    if subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-w", f"-I{d}/code", "-x", "c++", "-"], input="".join(f"#include <xmem/{h}>\n" for h in ("shared_ptr.hpp", "local_shared_ptr.hpp", "basic_atomic_shared_ptr_storage.hpp", "std_helpers.hpp")),
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, text=True).returncode:
        shutil.rmtree(d, ignore_errors=True)
        return f, line, what, new.strip(), ["compile"]
    order = ORDER.get(f, GEN)
    order = order + [b for b in GEN if b not in order] if every else order
    for b in order:
        src, lib, profs = BINS[b]
        std = "-std=c++20" if lib == 5 else "-std=c++17"
        r = subprocess.run(["g++", std, "-O1", "-w", "-fno-pie", "-fsanitize=thread"] + ([f"-DLIB={min(lib, 4)}"] if lib else []) + [f"-I{d}/code", "-c", f"{ROOT}/harness/{src}.cpp", "-o", f"{d}/{b}.o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            err = b
            if not every: seen.append(f"{b}:compile"); break
            continue
        subprocess.run(["g++", "-no-pie", f"{d}/{b}.o", f"{ROOT}/build/rt.o", "-o", f"{d}/{b}", "-ldl"] + WRAP, check=True)
        os.remove(f"{d}/{b}.o")
        built += 1
        for pr in profs:
            try: r = subprocess.run([f"{d}/{b}", "search", "--profile", pr, "--base", "1", "--count", "2000000", "--time", str(secs)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
            except subprocess.TimeoutExpired: seen.append(f"{b}:{pr}:timeout"); r = None
            if r and (r.returncode not in (0, 1) or '"violation":{' in r.stdout):
                m = re.search(r'"violation":\{[^}]*"class":"(\w+)"', r.stdout)
                seen.append(f"{b}:{pr}" + ("" if '"violation":{' in r.stdout else f":rc{r.returncode}"))
            if seen and not every: break
        if seen and not every: break
    shutil.rmtree(d, ignore_errors=True)
    return f, line, what, new.strip(), seen
def main():
    a = sys.argv[1:]
    j, secs, every, out, want, some = 8, 4, False, "/tmp/sweep.out", [], 0
    gen = mutants
    while a:
        x = a.pop(0)
        if x == "-j": j = int(a.pop(0))
        elif x == "-t": secs = float(a.pop(0))
        elif x == "-a": every = True
        elif x == "-o": out = a.pop(0)
        elif x == "-i": gen = insertions
        elif x == "-2":
            gen, some = insertions, int(a.pop(0))
            pairs()
        elif x == "-n":
            for f in FILES: print(f, len(gen(f)))
            return
        else: want.append(x)
    ms = [m for f in FILES for m in gen(f) if not want or f in want or f"{f}:{m[1]}" in want]
    if some:
        random.seed(some)
        by = {f: [m for m in ms if m[0] == f and m[2].startswith("if")] for f in FILES}
        ms = [m for f in EXTRA for m in random.sample(by[f], min(some, len(by[f])))]
    print(len(ms), "mutants", flush=True)
    with open(out, "w") as o, cf.ThreadPoolExecutor(j) as ex:
        for f, line, what, new, seen in ex.map(one, [(n, m, every, secs) for n, m in enumerate(ms)]):
            o.write(f"{'ok' if seen else 'SURVIVES'} {f}:{line} [{what}] {new} => {' '.join(seen)}\n")
            o.flush()
main()
