#!/usr/bin/env python3
"""Mutation sampling of dsga.hxx: which small changes survive the repository's tests, and do the checks see them?

  mutate.py SEED COUNT [WORKERS] [FROM TO]    random mutants (of lines FROM..TO); results in OUTDIR/<n>.txt
Scratch copies live in /tmp/mutw and are removed."""
import json, os, random, re, subprocess, sys, shutil, threading, time
V = "/verif"; OUT = os.environ.get("MUTOUT", "/tmp/w/mut")
HDR = os.environ.get("MUTHDR", "include/dsga.hxx")  # for another file: MUTHDR=examples/basic.hxx MUTPROPS="C24 C22"
REGION = [(116, 413, "C13 C11"), (414, 490, "C13 C12"), (491, 1604, "C13 C10 C11 C12"), (1605, 1770, "C06 C19 C17 C01 C03"), (1771, 1886, "C07 C20 C09 C08 C05"), (1887, 2070, "C05 C08 C07 C20 C09"),
          (2071, 2305, "C07 C17 C08 C01 C04"), (2306, 2850, "C07 C08 C01"), (2851, 3240, "C02 C01 C05 C08 C07 C04 C19"), (3241, 3535, "C06 C19"), (3536, 4700, "C01 C02 C06 C20 C19 C04 C08 C07"),
          (4701, 5838, "C05 C01 C02 C06 C08 C19 C20 C13"), (5839, 5962, "C05 C20 C06 C19 C04"), (5963, 6290, "C03 C04 C17 C10 C09 C14 C13"), (6291, 6970, "C03 C04 C19 C13"), (6971, 7063, "C07 C13"),
          (7064, 8523, "C10 C11 C12 C09 C14 C17 C13 C08 C01"), (8524, 8760, "C18 C06 C08 C15 C20 C13"), (8761, 9000, "C15 C16 C18 C13"), (9001, 9435, "C18 C15 C13"), (9436, 9700, "C07 C06 C18 C20")]
if "MUTPROPS" in os.environ: REGION = [(1, 99999, os.environ["MUTPROPS"])]
SWAPS = [(r"(?<![<>=-])<(?![<=>])(?= )", "<="), (r"<=(?!>)", "<"), (r"(?<= )>(?= )", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&(?= )", "||"), (r"\|\|", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" \* ", " + "), (r" / ", " * "),
         (r"\+\+", "--"), (r"(?<!-)--(?!-)", "++"), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "+="), (r"/=", "*="), (r"%=", "/="), (r" % ", " / "), (r"<<", ">>"), (r">>(?= |=)", "<<"), (r"\^=", "|="), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "),
         (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"), (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r"\bx\b", "y"), (r"\by\b", "x"), (r"\bz\b", "w"), (r"\bbegin\b", "end"), (r"\bend\b", "begin"), (r"\bC\b", "R"), (r"\bR\b", "C"),
         (r"\bT1\b", "T2"), (r"\bT2\b", "T1"), (r"\bU\b", "T"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"static_cast<[A-Za-z0-9_: ]+>\(", "("), (r"\bif \((?!constexpr)", "if (!"), (r"\bCount\b", "Size"), (r"\bSize\b", "Count"),
         (r"\bMutable\b", "true"), (r"\bWritable\b", "true"), (r"\bIs\b(?=\])", "0"), (r"std::common_type_t<T1, T2>", "T1"), (r"\bW1\b", "W2"), (r"floor", "trunc"), (r"trunc", "floor"), (r"ceil", "floor"), (r"\bsin\b", "cos"), (r"\batan\b", "asin"), (r"\bexp\b", "exp2"), (r"\blog\b", "log2"),
         (r"const (?=auto|T)", ""), (r"std::move\((\w+)\)", r"\1"), (r"-(?=[a-zA-Z(])", ""), (r"!(?=[a-z(])", ""), (r"std::size_t", "int"), (r"\bdouble\b", "float"), (r"row", "col"), (r"col", "row")]
NUM = r"(?<![\w.])(\d+)(?![\w.])"

def mutants(line, rng):
    r = []
    for pat, rep in SWAPS:
        for m in re.finditer(pat, line):
            r.append(line[:m.start()] + m.expand(rep) + line[m.end():])
    for m in re.finditer(NUM, line):
        n = int(m.group(1))
        for d in (-1, 1):
            if n + d >= 0: r += [line[:m.start()] + str(n + d) + line[m.end():]] * 2
    for m in re.finditer(r"(?<![\w])(\d+\.\d+)", line):
        r += [line[:m.start()] + str(float(m.group(1)) + 0.5) + line[m.end():]]
    s = line.strip()
    if s.endswith(";") and not s.startswith(("using", "return", "template", "static_assert", "typedef", "friend")) and "default" not in s:
        r += ["\t\t;"] * 3
    if s.startswith("return ") and s.endswith(";"):
        r += [line.replace("return ", "return -(").replace(";", ");")]
    if s.startswith("requires"):
        parts = line.split(" && ")
        for k in range(1, len(parts)): r.append(" && ".join(parts[:k] + parts[k + 1:]))
    return [x for x in r if x != line]

def pick(seed, count, lo, hi):
    rng = random.Random(seed)
    lines = open("/repo/" + HDR, newline="").read().split("\n")
    cand = []
    for n, l in enumerate(lines):
        s = l.strip()
        if lo <= n + 1 <= hi and n + 1 > (103 if HDR == 'include/dsga.hxx' else 0) and s and s != ';' and not s.startswith(("//", "#", "{", "}", "template", "*", "/*", "using", "struct", "class", "namespace", "public", "else")) and "dexvec" not in s and "dexview" not in s:
            code = l.split("//")[0].rstrip()
            if code.strip(): cand.append(n)
    out = []; seen = set()
    while len(out) < count:
        n = rng.choice(cand); l = lines[n].rstrip("\r"); cr = "\r" if lines[n].endswith("\r") else ""
        com = ""
        if "//" in l: l, com = l[:l.index("//")], l[l.index("//"):]
        ms = mutants(l, rng)
        if not ms: continue
        m = rng.choice(ms)
        if (n, m) in seen: continue
        seen.add((n, m)); out.append((n, lines[n], m + com + cr))
    return out

def run(k, n, old, new):
    w = f"/tmp/mutw/{k}"; shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/mutw", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    head = f"{k} line {n+1}\n- {old.strip()}\n+ {new.strip()}\n"
    try:
        t = open(f"{w}/{HDR}", newline="").read().split("\n"); assert t[n] == old; t[n] = new
        open(f"{w}/{HDR}", "w", newline="").write("\n".join(t))
        p = subprocess.run(["g++", "-std=gnu++20", "-w", "-fsyntax-only", f"-I{w}/include", f"-I{w}/examples", "-x", "c++", f"{w}/{HDR}"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: return head + "NOCOMPILE"
        res = f"{w}.json"
        s = "true" if HDR != "include/dsga.hxx" else f"mount --bind {w} /repo && bash /opt/vp/build.sh >{w}.build 2>&1; echo BUILD $?; bash /opt/vp/test.sh {res} >{w}.test 2>&1"
        p = subprocess.run(["unshare", "-m", "bash", "-c", s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if HDR != "include/dsga.hxx": p.stdout = "BUILD 0"; open(res, "w").write("{}")  # the repository's tests do not see it
        if "BUILD 0" not in p.stdout: return head + "BUILDFAIL"
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); r = json.load(open(res))
        miss = stable - set(r.get("passed", []))
        if miss and HDR == "include/dsga.hxx": return head + f"TESTED {len(miss)} {sorted(miss)[0]}"
        o = []
        for lo, hi, ps in REGION:
            if lo <= n + 1 <= hi:
                for pid in ps.split():
                    p = subprocess.run(["python3", "run.py", pid], cwd=V, env=dict(os.environ, VERIF_REPO=w, VERIF_SCRATCH=w + ".scratch", VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    v = any(x.startswith(f"VIOLATION property={pid} ") for x in p.stdout.splitlines())
                    o.append(f"{pid} rc={p.returncode} {'CAUGHT' if v and p.returncode == 1 else 'quiet' if p.returncode == 0 else 'BROKEN'}" + ("" if p.returncode == 0 else " " + " / ".join(x[:150] for x in p.stdout.splitlines()[-12:])))
                    if p.returncode == 1 and v: return head + ("NOCOMPILE" if "-build." in p.stdout and " 0 cases" in p.stdout else "SURVIVES, CAUGHT") + "\n" + "\n".join(o)
        return head + "SURVIVES, MISSED\n" + "\n".join(o)
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(w + ".scratch", ignore_errors=True)
        for e in (".json", ".build", ".test"):
            try: os.remove(w + e)
            except OSError: pass

if __name__ == "__main__":
    seed, count = int(sys.argv[1]), int(sys.argv[2]); W = int(sys.argv[3]) if len(sys.argv) > 3 else 2
    lo, hi = (int(sys.argv[4]), int(sys.argv[5])) if len(sys.argv) > 5 else (1, 99999)
    os.makedirs(OUT, exist_ok=True)
    todo = list(enumerate(pick(seed, count, lo, hi)))[::-1]
    def work():
        while todo:
            k, m = todo.pop()
            f = f"{OUT}/{seed}-{k:04}.txt"
            if os.path.exists(f): continue
            try: r = run(f"{seed}-{k}", *m)
            except Exception as e: r = f"{k} EXC {e!r}"
            open(f, "w").write(r + "\n")
    ts = [threading.Thread(target=work) for _ in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
