#!/usr/bin/env python3
"""mkseed.py SPEC.py...: builds /verif/seeded/<id> from specs, confirming each in a scratch copy of /repo.

A spec defines: id, property, needs, breaks, edits=[(file, old, new)], demo (bash) and/or demo_py (python, gets drive.py).
"""
import json, os, re, shutil, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
if not os.path.isdir(W):
    os.makedirs(W)
    sh(f"cp -a /repo {W}/repo")
    sh(f"cd {W}/repo && cargo build --offline --locked && cargo test --no-run --offline --locked")
R = W + "/repo"
def build():
    return sh(f"cd {R} && cargo build --offline --locked 2>&1")
sh(f"cd {R} && git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD")
bad = 0
for f in sys.argv[1:]:
    s = {}
    exec(open(f).read(), s)
    d = f"{W}/out/{s['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    def fail(m):
        global bad
        bad += 1
        print(f"{s['id']}: FAIL {m}")
    sh(f"cd {R} && git checkout -q -- .")
    ok = True
    for (fn, old, new) in s["edits"]:
        p = f"{R}/src/{fn}"
        t = open(p).read()
        if t.count(old) != 1:
            fail(f"edit matches {t.count(old)} times in {fn}: {old[:60]!r}"); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if not ok: continue
    open(f"{d}/patch.diff", "w").write(sh(f"cd {R} && git diff").stdout)
    if "demo_py" in s:
        shutil.copy(f"{root}/tools/drive.py", f"{d}/drive.py")
        open(f"{d}/demo.py", "w").write(s["demo_py"])
        demo = '#!/bin/bash\n# run in /repo after the build\nexport PYTHONDONTWRITEBYTECODE=1\nhere=$(cd "$(dirname "$0")" && pwd)\nexec python3 "$here/demo.py"\n'
    else:
        demo = s["demo"]
    for n, t in s.get("files", {}).items():
        open(f"{d}/{n}", "w").write(t)
    open(f"{d}/demo.sh", "w").write(demo); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    # Every changed line must be one of the original repository's.
    added = []
    for fn in {e[0] for e in s["edits"]}:
        blame = sh(f"cd {R} && git blame -s HEAD -- src/{fn}").stdout.splitlines()
        hunks = sh(f"cd {R} && git diff -U0 -- src/{fn}").stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hunks, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            if n == 0: added.append((fn, a, "pure insertion"))
            added += [(fn, k, "not original") for k in range(a, a + n) if not blame[k - 1].startswith("^")]
    if added: print(f"{s['id']}: note: {added}")
    b = build()
    if b.returncode: fail("build\n" + b.stdout[-1500:]); continue
    t = sh(f"cd {R} && cargo test --offline --locked 2>&1")
    if t.returncode: fail("tests\n" + "\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or "panicked" in l)); continue
    p = sh(f"cd {R} && timeout 300 bash {d}/demo.sh")
    if p.returncode == 0: fail("demo passes with the patch " + p.stdout[-500:]); continue
    sh(f"cd {R} && git checkout -q -- ."); build()
    q = sh(f"cd {R} && timeout 300 bash {d}/demo.sh")
    if q.returncode: fail("demo fails without the patch: " + q.stdout[-800:] + q.stderr[-800:]); continue
    dst = f"{root}/seeded/{s['id']}"
    shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
    print(f"{s['id']}: ok   with patch: {(p.stdout + p.stderr).strip()[-200:]}")
sys.exit(bad != 0)
