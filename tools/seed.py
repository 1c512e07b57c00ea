#!/usr/bin/env python3
"""seed.py DIR : confirm a planted bug.  DIR holds edit.json {file: [[old, new], ...]}, meta.json, demo.sh, ...
Applies the edits to /repo, writes patch.diff, runs the stable tests, the demo; undoes; runs the demo again."""
import sys, json, subprocess, os, shutil
d = os.path.abspath(sys.argv[1]); R = os.environ.get("VERIF_REPO", "/repo")
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh("git -C " + R + " status --porcelain").stdout.strip()
ok = True
try:
    if os.path.exists(d + "/edit.json"):
        for f, l in json.load(open(d + "/edit.json")).items():
            t = open(R + "/" + f, encoding="latin1", newline="").read()
            for o, n in l:
                if "\r\n" in t and "\r\n" not in o: o = o.replace("\n", "\r\n"); n = n.replace("\n", "\r\n")
                assert t.count(o) == 1, (f, o, t.count(o))
                t = t.replace(o, n)
            open(R + "/" + f, "w", encoding="latin1", newline="").write(t)
        p = subprocess.run("git -C " + R + " diff --binary", shell=True, capture_output=True).stdout
        open(d + "/patch.diff", "wb").write(p)
    else: assert sh("git -C " + R + " apply %s/patch.diff" % d).returncode == 0
    r = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    o = json.load(open("/tmp/seed_out.json")); bad = base - set(o["passed"])
    if bad: print("TESTS FAIL", sorted(bad)[:5]); ok = False
    r = sh("cd " + R + " && timeout 300 bash %s/demo.sh" % d); print("patched demo:", r.returncode, (r.stdout + r.stderr)[-300:].strip())
    if r.returncode == 0: ok = False
finally:
    sh("git -C " + R + " checkout -- .")
    sh("bash /opt/vp/build.sh")
r = sh("cd " + R + " && timeout 300 bash %s/demo.sh" % d); print("clean demo:", r.returncode, (r.stdout + r.stderr)[-300:].strip())
if r.returncode: ok = False
if os.path.exists(d + "/edit.json"): os.unlink(d + "/edit.json") if ok else None
print(os.path.basename(d), "OK" if ok else "REJECTED")
sys.exit(0 if ok else 1)
