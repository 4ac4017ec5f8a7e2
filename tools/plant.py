#!/usr/bin/env python3
"""Authoring helper: turn a list of planted bugs (a python file defining BUGS) into /verif/seeded/<id>/,
keeping only those confirmed in a scratch copy of /repo.
  plant.py bugs.py [--no-tests] [--check] [id ...]
Each bug: dict(id, prop, edits=[(file, old, new)], demo=python source, needs, breaks)."""
import sys, os, json, subprocess, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]
notests = "--no-tests" in args
check = "--check" in args
args = [a for a in args if not a.startswith("--")]
BUGS = runpy.run_path(args[0])["BUGS"]
if args[1:]:
    BUGS = [b for b in BUGS if b["id"] in args[1:]]
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell",
           PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore")
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
PYTHONPATH="$PWD" exec timeout 250 /opt/pypyvenv/bin/python "$d/demo.py"
'''


def sh(cmd, cwd, env=ENV, t=1200):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(b):
    base = "/tmp/plant/" + b["id"]
    if os.path.exists(base):
        shutil.rmtree(base)
    os.makedirs(base)
    repo = base + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", repo])
    dd = base + "/d"
    os.makedirs(dd)
    open(dd + "/demo.py", "w").write(b["demo"])
    open(dd + "/demo.sh", "w").write(DEMO)
    os.chmod(dd + "/demo.sh", 0o755)
    rc, o = sh(["bash", dd + "/demo.sh"], repo)
    if rc != 0:
        return b["id"], "demo fails on clean tree\n" + o[-1500:]
    for f, old, new in b["edits"]:
        p = repo + "/" + f
        s = open(p).read()
        if s.count(old) != 1:
            return b["id"], "edit text occurs %d times: %r" % (s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    rc, diff = sh(["git", "diff"], repo)
    rc, o = sh(["bash", dd + "/demo.sh"], repo)
    if rc == 0:
        return b["id"], "demo passes with the change"
    msg = "demo: " + o.strip().splitlines()[-1][:150] if o.strip() else "demo rc %d" % rc
    if not notests:
        env = dict(ENV, PYTHONPATH=repo, PATH="/opt/pypyvenv/bin:" + ENV["PATH"])
        rc, o = sh(["/opt/pypyvenv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=720",
                    "--continue-on-collection-errors", "--randomly-seed=1", "--randomly-dont-reorganize", "-n", "6", "-W", "ignore",
                    "--tb=no", "-o", "python_files=*.py", "-o", "junit_family=xunit2", "--junitxml=" + base + "/j.xml", "evoMPS/tests"], repo, env)
        import xml.etree.ElementTree as ET
        ok = set()
        for tc in ET.parse(base + "/j.xml").getroot().iter("testcase"):
            if not any(x.tag in ("failure", "error", "skipped") for x in tc):
                c = tc.get("classname").split(".")
                ok.add(".".join(c[:-1]) + "." + c[-1] + "::" + tc.get("name"))
                ok.add(".".join(c) + "::" + tc.get("name"))
        bad = [s for s in STABLE if s not in ok]
        if bad:
            return b["id"], "existing tests fail: %s" % bad[:5]
    out = "/verif/seeded/" + b["id"]
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    for f in ("demo.py", "demo.sh"):
        shutil.copy(dd + "/" + f, out + "/" + f)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
    if check:
        rc, o = sh(["python3", "/verif/run.py", b["prop"], "--tier", "quick", "--seed", "1"], "/verif", dict(os.environ, VERIF_REPO=repo))
        v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        msg += " | check rc=%d %s" % (rc, v[:1] or o[-300:])
    shutil.rmtree(base)
    return b["id"], "KEPT " + msg


with ThreadPoolExecutor(1 if check else 2) as ex:
    for i, m in ex.map(one, BUGS):
        print(i, m, flush=True)
