#!/usr/bin/env python3
"""Writes harness/names.hpp: every swizzle name as an X-macro list X(name, length, i0, i1, i2, i3, writable)."""
import itertools, os
out = ["// generated by tools/gen_names.py: every spelling of 1 to 4 of the letters of a base of N components", "#pragma once"]
for n in range(1, 5):
    names = []
    for k in range(1, 5):
        for t in itertools.product(range(n), repeat=k):
            idx = list(t) + [0] * (4 - k)
            names.append(("".join("xyzw"[i] for i in t), k, *idx, int(len(set(t)) == k)))
    for what, sel in (("NAMES", names), ("WNAMES", [x for x in names if x[6]])):
        out.append(f"#define {what}{n}(X) \\")
        out += ["  " + " ".join("X(%s,%d,%d,%d,%d,%d,%d)" % x for x in sel[i:i + 6]) + " \\" for i in range(0, len(sel), 6)]
        out[-1] = out[-1][:-2]
    # names that must not exist on a base of n components: those using a letter beyond it
    if n < 4:
        bad = ["".join("xyzw"[i] for i in t) for k in range(1, 5) for t in itertools.product(range(4), repeat=k) if max(t) >= n]
        out.append(f"#define BADNAMES{n}(X) \\")
        out += ["  " + " ".join("X(%s)" % x for x in bad[i:i + 12]) + " \\" for i in range(0, len(bad), 12)]
        out[-1] = out[-1][:-2]
# every writable name with three sources of the same length for aliasing assignments: a permutation of its letters, one with repeats, any
for n in range(1, 5):
    rows = []
    for k in range(1, n + 1):
        every = ["".join("xyzw"[i] for i in t) for t in itertools.product(range(n), repeat=k)]
        for j, t in enumerate(itertools.permutations(range(n), k)):
            nm = "".join("xyzw"[i] for i in t)
            perm = nm[1:] + nm[:1] if j % 2 else nm[::-1]
            if perm == nm: perm = "xyzw"[(t[0] + 1) % n] * 1 if k == 1 else nm[1:] + nm[:1]
            rep = every[(j * 37 + 11 * k) % len(every)]
            rows.append((nm, k, *t, *[0] * (4 - k), perm, (nm[-1] * (k - 1) + nm[0]), rep if rep != nm else every[(j * 37 + 11 * k + 1) % len(every)]))
    out.append(f"#define WPAIRS{n}(X) \\")
    out += ["  " + " ".join("X(%s,%d,%d,%d,%d,%d,%s,%s,%s)" % x for x in rows[i:i + 4]) + " \\" for i in range(0, len(rows), 4)]
    out[-1] = out[-1][:-2]
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "names.hpp"), "w").write("\n".join(out) + "\n")
