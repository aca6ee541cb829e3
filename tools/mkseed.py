"""Make and verify planted bugs: python3 tools/mkseed.py SPEC.py [id ...]
SPEC.py defines SEEDS = [dict(id, property, file | edits, old, new, demo, needs, breaks)].
Each is applied in a scratch copy of /repo, the stable tests and the demonstration are run, and the
result is written to seeded/<id>/ only if everything is as required."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, timeout=400):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in ns["SEEDS"]:
        if sys.argv[2:] and s["id"] not in sys.argv[2:]:
            continue
        d = "/tmp/mkseed/" + s["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs("/tmp/mkseed", exist_ok=True)
        sh("cp -a /repo %s" % d, "/tmp")
        try:
            print(s["id"], one(s, d, stable), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def one(s, d, stable):
    for f, old, new in s.get("edits") or [(s["file"], s["old"], s["new"])]:
        p = os.path.join(d, f)
        t = open(p, newline="").read()
        if "\r\n" in t:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if t.count(old) != 1:
            return "OLD TEXT FOUND %d TIMES in %s" % (t.count(old), f)
        open(p, "w", newline="").write(t.replace(old, new))
    out = os.path.join(V, "seeded", s["id"])
    tmp = "/tmp/mkseed/%s.out" % s["id"]
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    diff = subprocess.run(["git", "diff", "--binary"], cwd=d, capture_output=True).stdout
    open(tmp + "/patch.diff", "wb").write(diff)
    open(tmp + "/demo.py", "w").write("import os, sys\n\nsys.path.insert(0, os.getcwd())\n" + s["demo"].lstrip("\n"))
    env = s.get("env", "")
    open(tmp + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg %s\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' % env)
    os.chmod(tmp + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(tmp + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % tmp, "/repo")
    if a.returncode:
        return "DEMO FAILS ON CLEAN TREE\n" + a.stdout[-600:] + a.stderr[-800:]
    b = sh("bash %s/demo.sh" % tmp, d)
    if not b.returncode:
        return "DEMO PASSES ON BUGGY TREE"
    r = sh(PY + " -m pytest -q -x --no-header -p no:cacheprovider PyEMD/tests 2>&1 | tail -5", d)
    bad = " failed" in r.stdout or "error" in r.stdout.lower()
    if bad and s.get("tests", True):
        return "TESTS FAIL\n" + r.stdout
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
    shutil.rmtree(tmp)
    return "ok   (%s)   %s" % (r.stdout.strip().splitlines()[-1], (b.stderr or b.stdout).strip().splitlines()[-1][:100])


main()
