#!/usr/bin/env python3
"""Builds one property's generated-input check against /repo's working tree and runs it.

  run.py C03                 tier and seed from VERIF_TIER / VERIF_SEED
  run.py C03 --replay FILE   re-run one saved failing case
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(HERE, "harness")
T0 = time.time()
JOBS = 8
SCRATCH = os.environ.get("VERIF_SCRATCH", HERE)                      # where build output, replays and evidence go (another folder for trials)


def sh(cmd, timeout=None, env=None, mem_gb=None):
    pre = None
    if mem_gb:
        import resource
        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, preexec_fn=pre)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf-8", "replace") + "\n[time limit]"


ALONE = threading.Lock()


def compiler_killed(rc, log):
    return (rc < 0 and rc != -999) or rc in (137, 139, 254) or "Killed signal" in log or "bad_alloc" in log or "virtual memory exhausted" in log \
        or "unable to execute command: Killed" in log or "due to signal" in log


class Build:
    def __init__(self, pid, tier, tag=""):
        self.dir = os.path.join(SCRATCH, ".build", f"{pid}-{tier}{tag}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.inc = ["-I", os.path.join(REPO, "include"), "-I", HARN, "-I", self.dir]

    def compile(self, src, out, flags, cc):
        base = [cc, "-std=gnu++20", "-w", "-ftemplate-depth=2000"]
        if "clang" in cc:
            base += ["-ferror-limit=5", "-fconstexpr-steps=50000000", "-fbracket-depth=1024"]
        else:
            base += ["-fmax-errors=5", "-fconstexpr-ops-limit=500000000"]
        cmd = base + flags + self.inc + ["-c", src, "-o", out]
        rc, log = sh(cmd, timeout=840)
        for _ in range(2):                      # a compiler ended for want of memory says nothing about the code: once more, one at a time
            if not compiler_killed(rc, log):
                break
            with ALONE:
                rc, log = sh(cmd, timeout=840)
        return rc, log


def build_binary(pid, tier, units, extra=(), engine_flags=(), tag="", cc_default="clang++"):
    """Returns (binary, None) or (None, (kind, log))."""
    b = Build(pid, tier, tag)
    jobs = [(os.path.join(HARN, "pbt_main.cpp"), os.path.join(b.dir, "main.o"), ["-O1", *engine_flags], cc_default)]
    for n, (src, flags, cc) in enumerate(units):
        src = src if os.path.isabs(src) else os.path.join(HARN, src)
        jobs.append((src, os.path.join(b.dir, f"u{n}.o"), [*flags, *extra], cc or cc_default))
    failed = []
    def one(j):
        src, out, flags, cc = j
        if "-O" not in " ".join(flags):
            flags = ["-O0", *flags]
        rc, log = b.compile(src, out, flags, cc)
        if rc != 0 and "clang" in cc and src.startswith(HERE) and not engine_flags:     # the library is only promised to build with the repository's own compiler
            rc, log2 = b.compile(src, out, flags, "g++")
            log = log2 if rc else ""
        return j, rc, log
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for j, rc, log in ex.map(one, jobs):
            if rc != 0:
                failed.append((j, rc, log))
    if failed:
        return None, b, failed
    exe = os.path.join(b.dir, "check")
    ld = list(engine_flags)
    rc, log = sh([cc_default if engine_flags else "g++", *ld, *[j[1] for j in jobs], "-o", exe, "-lm", "-lpthread"], timeout=300)
    if rc != 0:
        return None, b, [((jobs[0]), rc, log)]
    return exe, b, None


def header_alone_ok(b):
    src = os.path.join(b.dir, "alone.cpp")
    open(src, "w").write("#include <dsga.hxx>\nint main() { dsga::vec3 v(1,2,3); return v.x == 1.0f ? 0 : 1; }\n")
    rc, _ = b.compile(src, os.path.join(b.dir, "alone.o"), ["-O0"], "g++")
    return rc == 0


def run_probe(b, n, probe):
    """A use of the library that has to compile (or, with a fourth element False, must not)."""
    name, msg, code = probe[:3]
    src = os.path.join(b.dir, f"probe{n}.cpp"); open(src, "w").write(code)
    rc, o = b.compile(src, src + ".o", ["-O0", "-fsyntax-only", "-I" + os.path.join(REPO, "examples")], "g++")
    if rc == -999 or rc == 0 or compiler_killed(rc, o):
        return None
    return {"prop": name, "message": msg, "choices": [], "log": code + "\n" + "\n".join(l for l in o.splitlines() if "error" in l)[:1500], "probe": True}


def load_known(pid):
    out = []
    path = os.path.join(HERE, "known_findings.json")
    for e in json.load(open(path))["findings"] if os.path.exists(path) else []:
        if e["property"] == pid:
            out.append(e)
    return out


def write_replay(b, pid, n, text):
    d = os.path.join(SCRATCH, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}-{n}.txt")
    open(p, "w").write(text)
    return p


def replay_text(f):
    return f"{f['prop']}\n{len(f['choices'])}\n{' '.join(map(str, f['choices']))}\n"


def run_shards(exe, b, seed, cases, budget, only=None):
    """Runs all shards; returns (merged stats, failures, distinct, notes)."""
    procs = []
    for s in range(JOBS):
        out, hs, pg = (os.path.join(b.dir, f"{k}{s}") for k in ("out", "hash", "prog"))
        cmd = [exe, "--seed", str(seed), "--cases", str(cases), "--shard", f"{s}/{JOBS}", "--out", out, "--hashes", hs,
               "--progress", pg, "--max-seconds", str(budget), "--quiet"]
        if only:
            cmd += ["--only", only]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), out, hs, pg))
    props, fails, notes, hashes = {}, [], [], []
    deadline = time.time() + budget + 150
    for p, out, hs, pg in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = -999
        if os.path.exists(out) and rc in (0, 1):
            d = json.load(open(out))
            if d["timedout"]:
                notes.append("time budget reached before all planned cases were run")
            for k, v in d["props"].items():
                t = props.setdefault(k, {"n": 0, "nontrivial": 0, "labels": {}, "samples": []})
                t["n"] += v["n"]; t["nontrivial"] += v["nontrivial"]; t["samples"] += v["samples"]
                for l, c in v["labels"].items():
                    t["labels"][l] = t["labels"].get(l, 0) + c
            fails += d["failures"]
            if os.path.exists(hs):
                hashes.append(hs)
        else:                                    # the process itself died: find the case it was in
            raw = open(pg, "rb").read()
            prop = raw[:96].split(b"\0")[0].decode(); idx, act = struct.unpack("<QQ", raw[96:112])
            crashed = 0
            choices = []
            for _ in range(3):
                rc2, o = sh([exe, "--seed", str(seed), "--one", prop, str(idx)], timeout=120)
                m = re.match(r"\S+ (\d+)((?: \d+)*)", o)
                if m and rc2 in (0, 1):
                    choices = [int(x) for x in m.group(2).split()]
                if rc2 != 0:
                    crashed += 1
            if crashed == 3:
                fails.append({"prop": prop, "idx": idx, "message": f"the process died (exit {rc})", "log": "", "choices": choices, "reproduced": True, "one": [seed, prop, idx]})
            else:
                notes.append(f"a worker ended with {rc} in {prop} case {idx} and the case did not reproduce")
    distinct = 0
    if hashes:
        rc, o = sh([exe, "--merge", *hashes])
        distinct = int(o.strip())
    return props, fails, distinct, notes


VARIANTS = {"o2": (("-O2",), "g++"),
            "asan": (("-O1", "-g1", "-fsanitize=address,null,alignment,bounds,object-size,bool,return,unreachable,builtin", "-fno-sanitize-recover=all"), "clang++")}


def build_variant(pid, tier, spec, name):
    """The same properties built otherwise: optimised by the project's own compiler, or with clang's memory sanitizers."""
    flags, cc = VARIANTS[name]
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1"
    return build_binary(pid, tier, [(s, f, cc) for s, f, _ in spec["units"]("quick")], extra=flags, engine_flags=flags if name == "asan" else (), cc_default=cc, tag="-" + name)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay"); ap.add_argument("--only"); ap.add_argument("--cases", type=int)
    a = ap.parse_args()
    pid, spec, tier = a.property, CHECKS[a.property], a.tier if a.tier in ("quick", "thorough") else "quick"
    units = spec["units"](tier)
    exe, b, err = build_binary(pid, tier, units)
    t_build = time.time() - T0
    known = load_known(pid)
    viol, notes = [], []
    props, distinct = {}, 0
    evals = 0
    if err:
        log = "\n\n".join(f"== {os.path.basename(j[0])} {' '.join(j[2])}\n{lg[-6000:]}" for j, rc, lg in err)
        if all(rc == -999 or compiler_killed(rc, lg) for _, rc, lg in err):
            print("the compiler was ended before it finished (time or memory)"); print(log[-2000:]); return 2
        if not header_alone_ok(b):
            print("the library header does not compile by itself; nothing can be checked"); print(log[-4000:]); return 2
        path = write_replay(b, pid, "build", "The uses of the library that this property promises do not compile any more:\n\n" + log)
        print("\n".join([l for l in log.splitlines() if "error" in l][:12])[:3000])
        viol.append(("build", path))
    else:
        if a.replay:
            head = open(a.replay).readline().split()
            if head[:1] == ["PROBE"]:
                f = next((f for f in (run_probe(b, n, q) for n, q in enumerate(spec.get("probes", [])) if q[0] == head[1]) if f), None)
                print(f["log"] + "\nFAILED: " + f["message"] if f else "compiles")
                if f: print(f"VIOLATION property={pid} replay={a.replay}")
                return 1 if f else 0
            var = re.findall(r"^VARIANT (\w+)$", open(a.replay).read(), re.M)
            if var:
                exe, vb, verr = build_variant(pid, tier, spec, var[-1])
                if verr:
                    print(verr[0][2][-2000:]); return 2
            rc, o = sh([exe, "--replay", a.replay], timeout=120)
            print(o)
            if rc not in (0, 2):
                print(f"VIOLATION property={pid} replay={a.replay}")
                return 1
            return rc
        cases = a.cases or spec["cases"][tier]
        budget = spec.get("budget", {"quick": 240, "thorough": 700})[tier]
        budget = max(20, min(budget, (780 if tier == "quick" else 3000) - t_build))
        props, fails, distinct, nt = run_shards(exe, b, a.seed, cases, budget, a.only)
        notes += nt
        evals = sum(v["n"] for v in props.values())
        variants = {}
        listed = lambda f: any(re.fullmatch(k["prop"], f["prop"]) and re.search(k["message"], f["message"]) for k in known)
        probes = [] if a.only else spec.get("probes", [])
        fails += [f for f in cf.ThreadPoolExecutor(JOBS).map(lambda q: run_probe(b, *q), enumerate(probes)) if f]
        for name in spec.get("variants", ()) if tier == "thorough" and all(map(listed, fails)) else ():
            vexe, vb, verr = build_variant(pid, tier, spec, name)
            if verr:
                notes.append(f"the {name} build did not succeed: " + verr[0][2][-300:]); continue
            vprops, vfails, _, nt = run_shards(vexe, vb, a.seed + 1000, spec["cases"]["quick"], 300, a.only)
            variants[name] = sum(v["n"] for v in vprops.values())
            notes += [f"{name}: {x}" for x in nt]
            fails += [dict(f, variant=name, exe=vexe) for f in vfails]
        seen = {}
        for f in fails:
            seen.setdefault(f["prop"], f)
        for n, f in enumerate(seen.values()):
            msg = f["message"]
            if listed(f):
                continue                                     # listed: printed below
            text = replay_text(f) + "\n" + f.get("log", "") + "\n" + "FAILED: " + msg + "\n"
            text += f"VARIANT {f['variant']}\n" if f.get("variant") else ""
            path = write_replay(b, pid, n, text)
            bad = 3
            if f.get("probe"):
                write_replay(b, pid, n, "PROBE " + f["prop"] + "\n" + f["log"] + "\nFAILED: " + msg + "\n")
            elif "one" not in f:
                bad = sum(sh([f.get("exe", exe), "--replay", path], timeout=120)[0] not in (0, 2) for _ in range(3))
            if bad == 3:
                print(f["prop"]); print(f.get("log", "")[:1500]); print("FAILED:", msg[:1500])
                viol.append((f["prop"], path))
            elif bad:
                notes.append(f"{f['prop']}: failed once but replayed {bad} of 3 times: {msg[:200]}")
            else:
                notes.append(f"{f['prop']}: did not reproduce: {msg[:200]}")
        for k in known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        if not evals and not viol:
            print("no case was run", notes); return 2
    samples = []
    for k, v in sorted(props.items()):
        samples += [f"{k}: {s}" for s in v["samples"][:1]]
    step = max(1, len(samples) // 12)
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct,
                       "rule": spec["rule"], "samples": samples[::step][:14] or ["(no case was run: the check did not build)"],
                       "classes": {k: {"cases": v["n"], "nontrivial": v["nontrivial"], **({"labels": v["labels"]} if v["labels"] else {})} for k, v in sorted(props.items())},
                       "build_s": round(t_build, 1), "notes": sorted(set(notes))},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    if not err and variants:
        ev["coverage"]["variant_evaluations"] = variants
    os.makedirs(os.path.join(SCRATCH, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(SCRATCH, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid} {tier} seed={a.seed}: {evals} cases, {distinct} distinct non-trivial, build {t_build:.0f}s, total {time.time() - T0:.0f}s, {len(viol)} violation(s)")
    for n in sorted(set(notes)):
        print("note:", n)
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(b.dir, ignore_errors=True); [shutil.rmtree(f"{b.dir}-{v}", ignore_errors=True) for v in VARIANTS]
    for _, path in viol:
        print(f"VIOLATION property={pid} replay={path}")
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
