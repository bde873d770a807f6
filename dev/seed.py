"""dev/seed.py ID PROP FILE --old TEXT --new TEXT (or --edits edits.json) --demo demo.py --needs .. --what ..
Builds /verif/seeded/ID from an edit, in a scratch copy of /repo, and reports whether it qualifies."""
import json, os, shutil, subprocess, sys, tempfile

def run(cmd, cwd, t=900):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout

def make(id_, prop, edits, demo, needs, what, check=True):
    d = f"/verif/seeded/{id_}"
    scratch = "/tmp/w/seedrepo"
    subprocess.run(["rm", "-rf", scratch]); shutil.copytree("/repo", scratch, symlinks=True)
    for f, old, new in edits:
        p = os.path.join(scratch, f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    _, diff = run("git diff", scratch)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run from the repository root\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    rc, o = run(f"bash {d}/demo.sh", "/repo", 300)
    if rc: print(id_, "DEMO FAILS ON CLEAN TREE", o[-500:]); ok = False
    rc, o = run(f"bash {d}/demo.sh", scratch, 300)
    if not rc: print(id_, "demo passes with the patch"); ok = False
    # tests against the real tree location, patch applied temporarily
    run(f"git apply {d}/patch.diff", "/repo")
    try:
        rc, o = run("bash /opt/vp/test.sh /tmp/w/seed.json | tail -1", "/repo")
        base = json.load(open("/opt/vp/BASELINE.json")); 
        t = o.strip().splitlines()[-1]
        print(id_, "tests:", t)
        if not t.startswith("4297 passed, 0 failed"): ok = False
        if check and ok:
            rc, o = run(f"python3 -m sa.run {prop}", "/verif")
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            print(id_, prop, "rc", rc, "caught" if rc == 1 and v else "MISSED", (o.splitlines() or [""])[0]); print("   ", "\n    ".join(l[:260] for l in o.splitlines()[1:3]))
    finally:
        run("git checkout -- .", "/repo")
    print(id_, "QUALIFIES" if ok else "DOES NOT QUALIFY")
    return ok
