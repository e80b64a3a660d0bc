#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: write seeded/<ID>/ from a spec (list BUGS of dicts id, property, needs, breaks, edits
[(file, old, new)], demo, srcs, flags) and confirm each one: applies, touches only original lines, builds, passes the stable tests,
the demonstration passes without and fails with it; then run the property's quick check against it."""
import json, os, re, subprocess, sys
V, R = "/verif", "/repo"
BASE = "18aa853"
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
DEMO = '''#!/bin/bash
# run in the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
clang++-18 -std=gnu++20 -O1 %s -w -I. "$here/demo.cc" %s -lfmt -o "$out/demo" || { rmdir "$out"; exit 2; }
timeout 120 "$out/demo"
rc=$?
rm -f "$out/demo"
rmdir "$out"
exit $rc
'''
def clean():
    sh(f"git -C {R} checkout -- .")
for b in ns["BUGS"]:
    if want and b["id"] not in want: continue
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    assert sh(f"git -C {R} status --porcelain").stdout == b"", "repo dirty"
    res = []
    try:
        bad = False
        for f, old, new in b["edits"]:
            t = open(f"{R}/{f}").read()
            if t.count(old) != 1:
                print(b["id"], "EDIT MATCHES", t.count(old), repr(old[:60])); bad = True; break
            open(f"{R}/{f}", "w").write(t.replace(old, new))
        if bad: continue
        diff = sh(f"git -C {R} diff").stdout.decode()
        open(d + "/patch.diff", "w").write(diff)
        # removed lines have to be original
        orig = True
        for f in {e[0] for e in b["edits"]}:
            bl = sh(f"git -C {R} blame -s HEAD -- {f}").stdout.decode().split("\n")
            cur = None
            inf = False
            n = 0
            rem = 0
            for l in diff.split("\n"):
                if l.startswith("--- a/"): inf = l[6:] == f
                m = re.match(r"@@ -(\d+)", l)
                if m: n = int(m[1]); continue
                if not inf or l.startswith("---") or l.startswith("+++"): continue
                if l.startswith("-"):
                    rem += 1
                    if not bl[n - 1].lstrip("^").startswith(BASE[:7]) : orig = False; res.append("NOT-ORIGINAL " + l)
                    n += 1
                elif l.startswith(" "): n += 1
            if not rem: res.append("NO-REMOVED-LINE " + f)
        open(d + "/demo.cc", "w").write(b["demo"].lstrip())
        open(d + "/demo.sh", "w").write(DEMO % (b.get("flags", ""), b.get("srcs", "")))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        sh("bash /opt/vp/build.sh")
        r = sh("bash /opt/vp/test.sh /tmp/plant/t.json")
        p = set(json.load(open("/tmp/plant/t.json"))["passed"])
        miss = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in p]
        if miss: res.append(f"TESTS FAIL {len(miss)} {miss[:3]}")
        r = sh(["bash", d + "/demo.sh"], cwd=R)
        if r.returncode == 0 or r.returncode == 2: res.append(f"DEMO-WITH rc={r.returncode} " + r.stdout.decode()[-300:])
        dr = r.returncode
        if not res or "-c" in os.environ.get("PLANT", ""):
            r = sh(["python3", V + "/run.py", b["property"], "quick"])
            o = r.stdout.decode()
            v = [l for l in o.split("\n") if l.startswith("VIOLATION")]
            res.append(("CAUGHT " if r.returncode == 1 and v else f"MISSED rc={r.returncode} ") + " | ".join((v[:1] or [o[-300:]])))
    finally:
        clean()
    sh("bash /opt/vp/build.sh")
    r = sh(["bash", d + "/demo.sh"], cwd=R)
    if r.returncode: res.append(f"DEMO-WITHOUT rc={r.returncode} " + r.stdout.decode()[-500:])
    print(b["id"], b["property"], f"demo {dr}", "; ".join(res), flush=True)
