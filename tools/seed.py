"""seed.py <id>: takes the edit made in /tmp/seed/repo (a copy of /repo) and a
demo.py in /tmp/seed/<id>/, confirms everything and stores /verif/seeded/<id>.

 usage: seed.py new          fresh copy in /tmp/seed/repo
        seed.py keep ID PROP NEEDS BREAKS   (demo in /tmp/seed/demo.py)
        seed.py run ID [check ...]          apply to /repo, run checks, undo
"""
import json, os, shutil, subprocess, sys
R, S = "/tmp/seed/repo", "/verif/seeded"
PY = "/opt/venv/bin/python"

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def new():
    if not os.path.exists(R):
        sh("mkdir -p /tmp/seed && cp -a /repo %s" % R)
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (R, R, R))

def tests():
    r = sh("cd %s && timeout -k 5 200 %s -m pytest -q -p no:cacheprovider openformats/tests/ --ignore=openformats/tests/formats/indesign -n 8 2>&1 | tail -12" % (R, PY))
    return r.stdout

def keep(id, prop, needs, breaks):
    diff = sh("git -C %s diff" % R).stdout
    assert diff.strip(), "no change"
    t = tests()
    last = t.strip().split("\n")[-1]
    ok = "589 passed" in last and "6 failed" in last
    if not ok:
        print("TESTS:", t); return 1
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.copy("/tmp/seed/demo.py", os.path.join(d, "demo.py"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec "$PY" "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    bad = sh("cd %s && bash %s/demo.sh" % (R, d))
    good = sh("cd /repo && bash %s/demo.sh" % d)
    print("demo: with patch rc=%d, without rc=%d, %s" % (bad.returncode, good.returncode, last))
    if bad.returncode == 0 or good.returncode != 0:
        print("BAD DEMO", bad.stdout[-1500:], good.stdout[-1500:])
        shutil.rmtree(d)
        return 1
    new()
    return 0

def run(id, checks):
    d = os.path.join(S, id)
    prop = json.load(open(d + "/meta.json"))["property"]
    # a copy, so that /repo stays as it is
    new()
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    assert a.returncode == 0, a.stdout
    for c in checks or [prop]:
        r = sh("cd /verif && OFV_REPO=%s bin/check %s" % (R, c))
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        nxt = [r.stdout.split("\n")[i + 1].strip() for i, l in enumerate(r.stdout.split("\n")) if l.startswith("VIOLATION")]
        print("%s %s: rc=%d %s %s" % (id, c, r.returncode, "CAUGHT" if r.returncode == 1 and v else "missed", "; ".join(nxt[:6])), flush=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-1500:])
    new()

if __name__ == "__main__":
    a = sys.argv[1]
    if a == "new": new()
    elif a == "keep": sys.exit(keep(*sys.argv[2:6]))
    elif a == "run":
        # a copy of its own, so that runs do not disturb each other
        R = "/tmp/seed/r%d" % os.getpid()
        for id in (sorted(os.listdir(S)) if sys.argv[2] == "all" else sys.argv[2].split(",")):
            run(id, sys.argv[3:])
        shutil.rmtree(R)
