#!/usr/bin/env python3
"""Makes and validates planted bugs.  A seed spec is tools/seeds/<id>.txt:

  property: C03
  needs: ...
  breaks: ...
  ---old            (verbatim text, must occur exactly once in include/dsga.hxx; or ---old@N for a line hint)
  ...
  ---new
  ...
  ---demo
  <C++ program, exit 0 good>

  seed.py make ID...     write /verif/seeded/ID
  seed.py check ID...    build, tests, demo clean/patched, and the property's check, in a private mount namespace
"""
import json, os, re, subprocess, sys, shutil, tempfile, time
V = "/verif"; S = V + "/tools/seeds"; OUT = V + "/seeded"
DEMO = '''#!/bin/bash
# run with cwd = the repository; 0 = behaves, non-zero = broken
here="$(cd "$(dirname "$0")" && pwd)"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
g++ -std=gnu++20 -O0 -w -I "$PWD/include" %s "$here/demo.cpp" -o "$d/demo" || exit 3
"$d/demo"
'''

def parse(i):
    t = open(f"{S}/{i}.txt").read()
    head, *rest = re.split(r"^---", t, flags=re.M)
    meta = dict(l.split(": ", 1) for l in head.strip().splitlines())
    edits, demo = [], None
    cur = None
    for r in rest:
        tag, body = r.split("\n", 1)
        if tag.startswith("old"):
            cur = [tag[4:] if "@" in tag else None, body.rstrip("\n")]
        elif tag == "new":
            edits.append((cur[0], cur[1], body.rstrip("\n")))
        elif tag == "demo":
            demo = body
    return meta, edits, demo

def norm(s): return re.sub(r"[ \t]+", " ", s).strip()

def apply(text, edits):
    lines = text.split("\n")
    for hint, old, new in edits:
        ol = [norm(x) for x in old.split("\n")]
        nl = [norm(x) for x in lines]
        hits = [k for k in range(len(lines) - len(ol) + 1) if nl[k:k + len(ol)] == ol]
        if hint:
            hits = [min(hits, key=lambda k: abs(k - int(hint)))] if hits else []
        if len(hits) != 1:
            raise SystemExit(f"edit matches {len(hits)} places {[h+1 for h in hits][:12]}: {old[:100]!r}")
        k = hits[0]
        ind = re.match(r"\s*", lines[k]).group(0)
        lines[k:k + len(ol)] = [ind + x.strip("\n") if not x.startswith("\t") else x for x in new.split("\n")] if new else []
    return "\n".join(lines)

def make(i):
    meta, edits, demo = parse(i)
    f = "/repo/include/dsga.hxx"
    src = open(f, newline="").read()
    crlf = "\r\n" in src
    out = apply(src.replace("\r\n", "\n"), edits)
    if crlf: out = out.replace("\n", "\r\n")
    d = f"{OUT}/{i}"; os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        for n, s in (("a", src), ("b", out)):
            os.makedirs(f"{t}/{n}/include"); open(f"{t}/{n}/include/dsga.hxx", "w", newline="").write(s)
        p = subprocess.run(["diff", "-u", "a/include/dsga.hxx", "b/include/dsga.hxx"], cwd=t, stdout=subprocess.PIPE)
        dt = p.stdout.decode()
    dt = re.sub(r"^(---|\+\+\+) (\S+)\t.*$", r"\1 \2", dt, flags=re.M)
    open(f"{d}/patch.diff", "w", newline="").write(dt)
    # original-line check
    base = subprocess.run(["git", "-C", "/repo", "show", subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip() + ":include/dsga.hxx"], stdout=subprocess.PIPE, text=True).stdout.replace("\r", "").split("\n")
    base = set(base)
    for l in dt.split("\n"):
        if l.startswith("-") and not l.startswith("---") and l[1:].replace("\r", "") not in base:
            print(f"  {i}: WARNING removed line is not in the original: {l[:90]}")
    open(f"{d}/demo.cpp", "w").write(demo)
    open(f"{d}/demo.sh", "w").write(DEMO % meta.get("flags", "")); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    return meta

def check(i, only=None):
    meta = make(i)
    w = f"/tmp/seedw/{i}"; shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/seedw", exist_ok=True)
    d = f"{OUT}/{i}"
    p = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: return f"{i}: DEMO FAILS ON CLEAN rc={p.returncode} {p.stdout[:400]}"
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    try:
        p = subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: return f"{i}: APPLY {p.stdout[:300]}"
        pids = only or meta["property"].split()
        p = subprocess.run(["bash", d + "/demo.sh"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode in (0,): return f"{i}: DEMO PASSES WITH PATCH"
        if p.returncode == 3: return f"{i}: DEMO DOES NOT COMPILE WITH PATCH {p.stdout[:400]}"
        res = f"{w}.json"
        s = f"mount --bind {w} /repo && bash /opt/vp/build.sh >/tmp/seedw/{i}.build 2>&1; echo BUILD $?; bash /opt/vp/test.sh {res} >/tmp/seedw/{i}.test 2>&1"
        p = subprocess.run(["unshare", "-m", "bash", "-c", s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if "BUILD 0" not in p.stdout: return f"{i}: BUILD FAILS {p.stdout[:300]} " + subprocess.run(f"grep -E 'error' /tmp/seedw/{i}.build | cut -c1-200 | head -3", shell=True, stdout=subprocess.PIPE, text=True).stdout
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        r = json.load(open(res)); passed = set(r["passed"]) if "passed" in r else set()
        miss = stable - passed
        if miss: return f"{i}: TESTS FAIL {len(miss)} {sorted(miss)[:4]}"
        out = []
        for pid in pids:
            t0 = time.time()
            p = subprocess.run(["python3", "run.py", pid], cwd=VW, env=dict(os.environ, VERIF_REPO=w, VERIF_SCRATCH=w + ".scratch", VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            c = "CAUGHT" if p.returncode == 1 and any(f"property={pid} " in l for l in v) else "MISSED"
            out.append(f"{pid} {c} rc={p.returncode} {time.time()-t0:.0f}s" + ("" if c == "CAUGHT" and len(p.stdout) < 0 else " | " + " / ".join(x[:160] for x in p.stdout.splitlines()[-6:])))
        return f"{i}: " + "; ".join(out)
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(w + ".scratch", ignore_errors=True)
        for e in (".json", ".build", ".test"):
            try: os.remove(w + e)
            except OSError: pass

if __name__ == "__main__":
    VW = os.environ.get("VW", V)
    if sys.argv[1] == "make":
        ids = sys.argv[2:] or sorted(x[:-4] for x in os.listdir(S) if x.endswith(".txt"))
        for i in ids: make(i)
    else:
        only = None
        a = sys.argv[2:]
        if a and a[0].startswith("--only="): only = a.pop(0)[7:].split(",")
        for i in a: print(check(i, only), flush=True)
